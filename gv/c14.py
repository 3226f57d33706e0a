"""C14  Hopping moves: electron numbers, single hops/exchanges, symmetric proposals, invariance of |psi|^2."""
import numpy as np
import jax
import jax.numpy as jnp
import netket as nk
from scipy import stats as st
from GPSKet.hilbert import FermionicDiscreteHilbert
from GPSKet.sampler import MetropolisHopping, MetropolisFastHopping
from . import ref, zoo, stats

SHARDS = 6


def stochastic(rng, L, kind):
    """Symmetric hopping probabilities with rows summing to one (zeros where hopping is not permitted)."""
    if kind == "ring":
        T = np.zeros((L, L))
        for i in range(L):
            T[i, (i + 1) % L] += 0.5
            T[(i + 1) % L, i] += 0.5
        return T
    T = np.zeros((L, L))
    W = rng.random((L, L)) * (rng.random((L, L)) < 0.6)
    W = np.triu(W, 1) + np.triu(W, 1).T
    if kind == "blocks" and L > 2:
        W[: L // 2, L // 2:] = 0
        W[L // 2:, : L // 2] = 0
    s = max(W.sum(1).max(), 1e-3) * (1.0 + 0.2 * rng.random())
    T = W / s
    T[np.arange(L), np.arange(L)] = 1 - T.sum(1)
    return (T + T.T) / 2


def sampler(kind, hi, hp, T, **kw):
    f = MetropolisFastHopping if kind == "fast" else MetropolisHopping
    if T is not None:
        kw["transition_probs"] = T
    return f(hi, hop_probability=hp, **kw)


def proposals(sa, kind, x, seed):
    key = jax.random.PRNGKey(seed)
    out = jax.jit(lambda sa, k, s: sa.rule.transition(sa, None, None, None, k, s))(sa, key, jnp.asarray(x))
    return tuple(None if o is None else np.asarray(o) for o in out)


def classify(x, y):
    if len(x) > 500:
        _, first, back = np.unique(np.concatenate([x, y], 1).astype(np.int64), axis=0, return_index=True, return_inverse=True)
        back = back.reshape(-1)
        return tuple(o[back] for o in classify_rows(x[first], y[first]))
    return classify_rows(x, y)


def classify_rows(x, y):
    """Kind of move of each row: 0 nothing, 1 one electron moved, 2 opposite spins of two singly occupied sites exchanged, -1 other."""
    x, y = x.astype(int), y.astype(int)
    out = np.zeros(len(x), int)
    src = np.full(len(x), -1)
    dst = np.full(len(x), -1)
    for n in np.nonzero((x != y).any(1))[0]:
        w = np.nonzero(x[n] != y[n])[0]
        out[n] = -1
        if len(w) != 2 or not np.isin(y[n], (0, 1, 2, 3)).all():
            continue
        i, j = w
        for a, b in ((i, j), (j, i)):
            for s in (1, 2):
                if x[n, a] & s and not x[n, b] & s and y[n, a] == x[n, a] - s and y[n, b] == x[n, b] + s:
                    out[n], src[n], dst[n] = 1, a, b
        if {x[n, i], x[n, j]} == {1, 2} and y[n, i] == x[n, j] and y[n, j] == x[n, i]:
            out[n], src[n], dst[n] = 2, i, j
    return out, src, dst


def judge_moves(mon, x, y, upd, corr, T, hp, ctx):
    """Invariants of every single proposal."""
    kind, src, dst = classify(x, y)
    up = lambda a: ((a.astype(int) & 1).sum(1), ((a.astype(int) >> 1) & 1).sum(1))
    for s in (0, 1):
        mon.check("electron-number", bool(np.all(up(x)[s] == up(y)[s])) and bool(np.isin(y.astype(int), (0, 1, 2, 3)).all()), spin=s, **ctx)
    mon.check("dtype-kept", x.dtype == y.dtype and x.shape == y.shape, got=str(y.dtype), want=str(x.dtype), **ctx)
    bad = np.nonzero(kind < 0)[0]
    mon.check("single-move", len(bad) == 0, start=x[bad[:1]], proposed=y[bad[:1]], **ctx)
    if hp == 1.0:
        mon.check("no-exchange-when-hopping", not np.any(kind == 2), **ctx)
    if hp == 0.0:
        mon.check("no-hop-when-exchanging", not np.any(kind == 1), **ctx)
    m = kind > 0
    mon.seen("proposed-moves", int(m.sum()))
    if T is not None:
        mon.check("permitted-only", bool(np.all(T[src[m], dst[m]] > 0)), **ctx)
    if upd is not None:
        ok = upd.shape[0] == x.shape[0]
        if ok:
            z = x.copy()
            for k in range(upd.shape[1]):
                z[np.arange(len(x)), upd[:, k]] = y[np.arange(len(x)), upd[:, k]]
            ok = bool(np.all(z == y))
        mon.check("update-sites-complete", ok, **ctx)
    if corr is not None:
        mon.check("correction-finite", bool(np.all(np.isfinite(corr))), **ctx)
    return kind, src, dst


def draw_settings(rng, k, L):
    hp = [1.0, 0.5, 0.0, 0.25, 1.0, 0.8][k % 6]
    tk = [None, None, "random", "ring", "blocks"][int(rng.integers(0, 5))]
    T = None if tk is None else stochastic(rng, L, tk)
    kind = ["plain", "fast"][int(rng.integers(0, 2))]
    return hp, tk, T, kind


def balance(mon, k):
    """Proposal matrix over a whole small sector: symmetry, permitted moves, law of the hops."""
    rng = mon.rng("balance", k)
    L = int(rng.integers(1, 5))
    while True:
        ne = (int(rng.integers(0, L + 1)), int(rng.integers(0, L + 1))) if k % 7 else None
        if ne is None:
            L = min(L, 2)
        S = np.asarray(ref.fermion_states(L, ne))
        if len(S) <= 40:
            break
    hp, tk, T, kind = draw_settings(rng, k, L)
    ctx = dict(L=L, n_elec=ne, hop_probability=hp, transition=tk, sampler=kind, k=k)
    mon.case("balance", ctx, nontrivial=len(S) > 1)
    with mon.guard("hopping-raises", **ctx):
        hi = FermionicDiscreteHilbert(L, n_elec=ne)
        sa = sampler(kind, hi, hp, T, n_chains=4)
        n = 4000 if mon.thorough else 2000
        dt = [np.uint8, np.uint8, np.int8, np.int64, np.float64][k % 5]
        x = np.repeat(S, n, axis=0).astype(dt)
        out = proposals(sa, kind, x, int(rng.integers(1 << 30)))
        y, corr = out[0], out[1]
        mv, src, dst = judge_moves(mon, x, y, out[2] if len(out) > 2 else None, corr, T, hp, ctx)
        w = 4 ** np.arange(L)
        num = {int(s.astype(int) @ w): i for i, s in enumerate(S)}
        yi = np.array([num.get(int(v), -1) for v in y.astype(int) @ w])
        if not mon.check("in-sector", bool(np.all(yi >= 0)), **ctx):
            return
        C = np.zeros((len(S), len(S)), int)
        np.add.at(C, (np.repeat(np.arange(len(S)), n), yi), 1)
        if corr is not None:
            return      # asymmetric proposals with a correction are judged by the chain monitor
        # symmetry of the proposal: equal counts out of equally many attempts
        worst = 1.0
        for i in range(len(S)):
            for j in range(i + 1, len(S)):
                if C[i, j] + C[j, i] > 0:
                    worst = min(worst, st.binomtest(int(C[i, j]), int(C[i, j] + C[j, i]), 0.5).pvalue)
                    mon.seen("proposal-pairs")
        mon.check("proposal-symmetric", worst > stats.PMIN, p_value=worst, **ctx)
        # share of hops and exchanges
        if T is None and ne is not None:
            open_ = 0 < ne[0] + ne[1] and (ne[0] < L or ne[0] == 0) and (ne[1] < L or ne[1] == 0)
            if open_ and L > 1 and 0 < hp < 1:
                h = int((mv == 1).sum())
                p = st.binomtest(h, len(mv), hp).pvalue
                mon.check("hop-share", p > stats.PMIN, p_value=p, hops=h, of=len(mv), **ctx)
        # single electron: the hop follows the hopping probabilities
        if T is not None and ne is not None and sum(ne) == 1 and hp > 0:
            for i in range(len(S)):
                a = int(np.nonzero(S[i])[0][0])
                pr = np.zeros(len(S))
                for j in range(len(S)):
                    b = int(np.nonzero(S[j])[0][0])
                    pr[j] = hp * T[a, b] + (1 - hp) * (a == b)
                stats.fits(mon, "hop-law", C[i], pr, **ctx)
        # hopping alone connects the whole sector
        if T is None and hp > 0:
            A = (C > 0) | np.eye(len(S), dtype=bool)
            R = np.linalg.matrix_power(A.astype(int).clip(0, 1), 1) > 0
            for _ in range(8):
                R = (R.astype(int) @ R.astype(int)) > 0
            if ne is not None:
                mon.check("sector-connected", bool(R.all()), **ctx)


def large(mon, k):
    rng = mon.rng("large", k)
    L = int(rng.choice([6, 8, 13, 30, 70, 200]))
    ne = (int(rng.integers(0, L + 1)), int(rng.integers(0, L + 1)))
    if k % 5 == 0:
        ne = [(0, 0), (L, L), (L, 0), (1, 0), (L, L - 1), (L // 2, 0)][int(rng.integers(0, 6))]
    hp, tk, T, kind = draw_settings(rng, k, L)
    ctx = dict(L=L, n_elec=ne, hop_probability=hp, transition=tk, sampler=kind, k=k)
    mon.case("large", ctx)
    with mon.guard("hopping-raises", **ctx):
        hi = FermionicDiscreteHilbert(L, n_elec=ne)
        sa = sampler(kind, hi, hp, T, n_chains=4)
        B = 256
        x = np.zeros((B, L), np.uint8)
        for b in range(B):
            for s in (0, 1):
                x[b, rng.permutation(L)[: ne[s]]] += s + 1
        moved = 0
        for rep in range(6):
            out = proposals(sa, kind, x, int(rng.integers(1 << 30)))
            mv, src, dst = judge_moves(mon, x, out[0], out[2] if len(out) > 2 else None, out[1], T, hp, ctx)
            moved += int((mv > 0).sum())
            x = out[0]
        if T is None and hp == 1.0 and all(0 < n < L for n in ne):
            mon.check("hops-proposed", moved == 6 * B, moved=moved, of=6 * B, **ctx)


def chain(mon, k):
    """|psi|^2 is left invariant: chains started from exact draws are still distributed as |psi|^2 after any number of steps."""
    rng = mon.rng("chain", k)
    while True:
        L = int(rng.integers(2, 5))
        ne = (int(rng.integers(0, L + 1)), int(rng.integers(0, L + 1)))
        S = np.asarray(ref.fermion_states(L, ne))
        if 2 <= len(S) <= 40:
            break
    hp, tk, T, kind = draw_settings(rng, k, L)
    name = ["qgps", "slater", "jastrow", "sj", "qgps"][k % 5]
    if sum(ne) == 0 or name == "jastrow" and kind == "fast":
        name = "qgps"
    steps = int(rng.choice([1, 2, 5]))
    mp = int(rng.choice([2, 2, 1]))
    ctx = dict(ansatz=name, L=L, n_elec=ne, hop_probability=hp, transition=tk, sampler=kind, steps=steps, machine_pow=mp, k=k)
    mon.case("chain", ctx)
    with mon.guard("hopping-raises", **ctx):
        hi = FermionicDiscreteHilbert(L, n_elec=ne)
        model, pf = zoo.fermion_model(name, hi, rng, fast=True)
        pf2 = (lambda p: zoo.gps_params(rng, p, 0.6)) if name == "qgps" else pf
        v = zoo.variables(model, int(rng.integers(1 << 30)), S[:2].astype(np.uint8), pf2)
        v = {a: b for a, b in v.items() if a != "intermediates_cache"}
        la = zoo.amplitudes(model, v, S.astype(np.uint8)).real
        P = np.exp(mp * (la - la.max()))
        P /= P.sum()
        n = 40000 if mon.thorough else 20000
        sa = sampler(kind, hi, hp, T, n_chains=n, sweep_size=steps, machine_pow=mp)
        s0 = sa.init_state(model, v, seed=int(rng.integers(1 << 30)))
        ind = rng.choice(len(S), size=n, p=P)
        s0 = s0.replace(σ=jnp.asarray(S[ind].astype(np.asarray(s0.σ).dtype)))
        s0 = sa.reset(model, v, s0)
        if not np.array_equal(np.asarray(s0.σ).astype(int), S[ind].astype(int)):
            return                                        # a reset that redraws cannot be started from exact draws
        x, s1 = sa.sample(model, v, state=s0, chain_length=1)
        x = np.asarray(x).reshape(-1, L).astype(int)
        if not mon.check("chain-delivered", x.shape == (n, L), shape=x.shape, **ctx):
            return
        w = 4 ** np.arange(L)
        num = {int(s.astype(int) @ w): i for i, s in enumerate(S)}
        xi = np.array([num.get(int(a), -1) for a in x @ w])
        if not mon.check("in-sector", bool(np.all(xi >= 0)), **ctx):
            return
        stats.fits(mon, "invariance", np.bincount(xi, minlength=len(S)), P, **ctx)
        # detailed balance of the stationary flow (holds for any number of reversible steps)
        F = np.zeros((len(S), len(S)), int)
        np.add.at(F, (ind, xi), 1)
        worst = 1.0
        for i in range(len(S)):
            for j in range(i + 1, len(S)):
                t = int(F[i, j] + F[j, i])
                if t:
                    worst = min(worst, st.binomtest(int(F[i, j]), t, 0.5).pvalue)
                    mon.seen("flow-pairs")
        mon.check("detailed-balance", worst > stats.PMIN, p_value=worst, **ctx)
        # single steps: known Metropolis law given the hop law
        if steps == 1 and T is None and hp == 1.0:
            nu, nd = ne
            N = nu + nd
            Q = np.zeros((len(S), len(S)))
            for i in range(len(S)):
                for j in range(len(S)):
                    d = np.nonzero(S[i] != S[j])[0]
                    if len(d) == 2:
                        mvk, a, b = classify(S[i:i + 1], S[j:j + 1])
                        if mvk[0] == 1:
                            spin = abs(int(S[i][a[0]]) - int(S[j][a[0]]))
                            Q[i, j] = 1.0 / N / (L - (nu if spin == 1 else nd)) * min(1.0, P[j] / P[i])
                Q[i, i] = 1 - Q[i].sum()
            stats.fits(mon, "single-step-law", F.ravel(), (P[:, None] * Q).ravel(), **ctx)


def run(mon):
    mon.rule = ("case = (lattice size, electron numbers, hop probability, hopping-probability matrix, sampler variant, sample dtype or ansatz); observed: every proposal of many keys from every configuration "
                "of the sector, and transitions of chains started from exact draws; non-trivial = more than one configuration")
    mon.assumptions = [f"distributional statements are rejected at p < {stats.PMIN:g} per test",
                       "hopping-probability matrices are symmetric with rows summing to one"]
    n = 20 if mon.thorough else 1
    jobs = [("b", k) for k in range(60 * n)] + [("l", k) for k in range(24 * n)] + [("c", k) for k in range(36 * n)]
    order = mon.rng("order").permutation(len(jobs))
    for w, k in mon.mine([jobs[i] for i in order]):
        if not mon.time_left():
            break
        dict(b=balance, l=large, c=chain)[w](mon, k)
    mon.require("proposal-pairs", 200)
    mon.require("invariance", 15)
    mon.require("proposed-moves", 20000)
