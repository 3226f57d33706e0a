"""C15  Fast-update Metropolis sampling: every transition of recorded chains against full evaluation of the model."""
import numpy as np
import jax
import jax.numpy as jnp
import netket as nk
from jax.experimental import io_callback
from netket.sampler.metropolis import MetropolisRule
from GPSKet.hilbert import FermionicDiscreteHilbert
from GPSKet.sampler import MetropolisFastHopping, MetropolisFastExchange
from . import ref, zoo, stats
from .c14 import stochastic

SHARDS = 8
LOG = []        # (tag, arrays) in execution order


class RecRule(MetropolisRule):
    """Delegates to the real rule and records every proposal."""
    inner: MetropolisRule

    def __init__(self, inner):
        self.inner = inner

    def init_state(self, sampler, machine, params, key):
        return self.inner.init_state(sampler, machine, params, key)

    def reset(self, sampler, machine, params, state):
        return self.inner.reset(sampler, machine, params, state)

    def random_state(self, sampler, machine, params, state, key):
        return self.inner.random_state(sampler, machine, params, state, key)

    def transition(self, sampler, machine, parameters, state, key, sigma):
        out = self.inner.transition(sampler, machine, parameters, state, key, sigma)
        corr = jnp.zeros(sigma.shape[0]) if out[1] is None else out[1]
        io_callback(lambda a, b, c: LOG.append(("rule", np.array(a), np.array(b), np.array(c))), None, sigma, out[0], corr, ordered=True)
        return out


class RecMachine:
    """Delegates to the real model and records the value of every cached update."""
    def __init__(self, model):
        self.model = model

    def __getattr__(self, name):
        if name == "model":
            raise AttributeError(name)
        return getattr(self.model, name)

    def apply(self, *a, **kw):
        out = self.model.apply(*a, **kw)
        if kw.get("update_sites") is not None:
            val = out[0] if isinstance(out, tuple) else out
            io_callback(lambda v: LOG.append(("value", np.array(v))), None, val, ordered=True)
        return out


FERM = tuple(m for m in zoo.FERMION if m != "jastrow")
SPIN = ("qgps", "qgps_sym", "qgps_trans", "plaq", "plaq_sym", "arfull", "armpfull")


def build(mon, rng, k, small):
    """A fast model with its sampler constructor."""
    if k % 3 == 0 or (small and k % 3 == 1):
        name = SPIN[(k // 3) % len(SPIN)]
        L = 2 * int(rng.integers(1, 3)) if small else 2 * int(rng.integers(2, 5))
        if name in ("qgps_trans", "plaq_sym", "qgps_sym"):
            L = max(L, 4)
        sz = 0 if name.startswith("ar") and rng.integers(0, 2) else (None if name.startswith("ar") else float(rng.integers(-L // 2 + 1, L // 2)))
        if sz is None:
            hi = nk.hilbert.Spin(0.5, L)
        else:
            hi = nk.hilbert.Spin(0.5, L, total_sz=sz)
        g = nk.graph.Chain(L, pbc=bool(rng.integers(0, 2)) and L > 2)
        model, pf = zoo.spin_model(name, hi, rng, fast=True, graph=nk.graph.Chain(L, pbc=L > 2))
        how = int(rng.integers(0, 3))
        if how == 0:
            mk = lambda **kw: MetropolisFastExchange(hi, graph=g, **kw)
        elif how == 1:
            mk = lambda **kw: MetropolisFastExchange(hi, graph=g, d_max=2, **kw)
        else:
            cl = np.array([rng.permutation(L)[:2] for _ in range(2 * L)])
            mk = lambda **kw: MetropolisFastExchange(hi, clusters=cl, **kw)
        ctx = dict(ansatz=name, space=f"spin L={L} sz={sz}", rule=f"exchange{how}")
        S = np.asarray(hi.all_states())
        return hi, model, pf, mk, ctx, S, L
    name = FERM[(k // 3 * 2 + k % 3 - 1) % len(FERM)]
    while True:
        L = int(rng.integers(2, 4)) if small else int(rng.integers(3, 6))
        ne = (int(rng.integers(0, L + 1)), int(rng.integers(0, L + 1)))
        if name == "slater_gen" or name == "backflow_gen" or name == "cpd_gen":
            pass
        if sum(ne) == 0 and "qgps" not in name:
            continue
        if name in ("sg", "bfj", "cpd", "backflow") and rng.integers(0, 2):
            ne = (max(1, ne[0]),) * 2
        S = np.asarray(ref.fermion_states(L, ne)).astype(np.uint8)
        if 2 <= len(S) <= (40 if small else 2000):
            break
    hi = FermionicDiscreteHilbert(L, n_elec=ne)
    perms = zoo.translations(L) if name in ("qgps_sym", "slater_ms", "asymm", "sg") and rng.integers(0, 2) else None
    model, pf = zoo.fermion_model(name, hi, rng, fast=True, perms=perms)
    hp = float(rng.choice([1.0, 0.5, 0.2]))
    T = stochastic(rng, L, "random") if rng.integers(0, 3) == 0 else None
    mk = lambda **kw: MetropolisFastHopping(hi, hop_probability=hp, transition_probs=T, **kw)
    ctx = dict(ansatz=name, space=f"fermi L={L} n={ne}", rule=f"hop {hp} T={T is not None}", sym=perms is not None)
    return hi, model, pf, mk, ctx, S, L


def clean(ctx, v):
    """Autoregressive models expect the (possibly stale) cache collection of their initialisation, as the variational state keeps it."""
    return v if ctx["ansatz"].startswith("ar") else {a: b for a, b in v.items() if a != "intermediates_cache"}


def keyrows(x):
    return [tuple(r) for r in np.asarray(x).astype(float)]


def history(mon, k):
    rng = mon.rng("history", k)
    hi, model, pf, mk, ctx, S, L = build(mon, rng, k, False)
    B = int(rng.choice([4, 7, 1]))
    sweep = int(rng.choice([1, 5, 8]))
    nlen = 40 // sweep + 1
    mp = int(rng.choice([2, 2, 1]))
    ctx = dict(ctx, chains=B, sweep=sweep, machine_pow=mp, k=k)
    mon.case("history", ctx)
    with mon.guard("fast-sampler-raises", **ctx):
        v = zoo.variables(model, int(rng.integers(1 << 30)), S[:2], pf)
        v = clean(ctx, v)
        sa = mk(n_chains=B, sweep_size=sweep, machine_pow=mp)
        sa = sa.replace(rule=RecRule(sa.rule))
        mach = RecMachine(model)
        table = {}

        def full(rows):
            rows = [r for r in set(rows) if r not in table]
            if rows:
                a = zoo.amplitudes(model, cur, np.array(rows).astype(S.dtype), pad=64)
                table.update(zip(rows, a))

        members = set(keyrows(S))
        state = sa.init_state(mach, v, seed=int(rng.integers(1 << 30)))
        cur = v
        for call in range(3):
            if call == 2:
                cur = {**v, "params": pf(v["params"])}          # parameters moved on: nothing cached may survive
                table.clear()
            if call != 1:
                state = sa.reset(mach, cur, state)              # as the variational state does whenever it resamples
            jax.effects_barrier()
            LOG.clear()
            before = np.array(state.σ)
            acc0 = np.array(state.n_accepted_proc) if call == 1 else np.zeros(B)
            st0 = int(state.n_steps) if call == 1 else 0
            x, state = sa.sample(mach, cur, state=state, chain_length=nlen)
            jax.block_until_ready(state.σ)
            jax.effects_barrier()
            log = list(LOG)
            rules = [r for r in log if r[0] == "rule"]
            vals = [r for r in log if r[0] == "value"]
            x = np.array(x)
            if not mon.check("chain-delivered", x.shape == (B, nlen, L), shape=x.shape, **ctx):
                return
            if len(rules) != nlen * sweep or any(r[1].shape != (B, L) for r in rules):
                mon.check("steps-made", False, recorded=len(rules), want=nlen * sweep, **ctx)
                return
            mon.seen("steps-made")
            sig = [r[1] for r in rules] + [np.array(state.σ)]
            pro = [r[2] for r in rules]
            rows = [keyrows(s) for s in sig]
            prow = [keyrows(s) for s in pro]
            inside = all(r in members for rr in rows + prow for r in rr)
            if not mon.check("in-space", inside, **ctx):
                return
            mon.check("starts-at-state", np.array_equal(sig[0], before), **ctx)
            for t in range(nlen):
                mon.check("sample-is-chain-state", np.array_equal(x[:, t].astype(float), sig[(t + 1) * sweep].astype(float)), sweep_no=t, **ctx)
            full([r for rr in rows + prow for r in rr])
            lmax = max(a.real for a in table.values())
            A = np.array([[table[r] for r in rr] for rr in rows])            # (steps+1, B)
            Ap = np.array([[table[r] for r in rr] for rr in prow])
            # cached values of the proposals
            if len(vals) == len(rules):
                V = np.array([val[1].reshape(-1) for val in vals])
                good = (Ap.real > lmax - 14)
                floor = np.minimum.accumulate(A[:-1].real, axis=0) > lmax - 14      # history never came close to a node
                m = good & floor & np.isfinite(Ap)
                d = np.abs(np.exp(V[m] - Ap[m]) - 1)
                mon.seen("cached-values", int(m.sum()))
                mon.check("cached-value", not m.any() or bool(np.all(d < 1e-6)), worst=float(np.nanmax(d)) if m.any() else 0.0,
                          nan=int(np.isnan(d).sum()), **ctx)
                never = ~np.isfinite(Ap.real) & floor
                if never.any():
                    w = V[never].real
                    mon.check("zero-amplitude-proposal", bool(np.all(~(w > lmax - 20))), worst=float(np.nanmax(w)), **ctx)
            # decisions
            same = np.array([np.all(a == b, axis=1) for a, b in zip(sig[:-1], pro)])
            stay = np.array([np.all(a == b, axis=1) for a, b in zip(sig[:-1], sig[1:])])
            took = np.array([np.all(a == b, axis=1) for a, b in zip(pro, sig[1:])])
            mon.check("accept-or-stay", bool(np.all(stay | took)), **ctx)
            corr = np.array([r[3] for r in rules])
            dl = mp * (Ap.real - A[:-1].real) + corr
            mv = ~same & np.isfinite(A[:-1].real)
            ok = A[:-1].real > lmax - 14
            up = mv & (dl > 1e-6) & ok
            mon.seen("moves", int(mv.sum()))
            mon.seen("accepted", int((took & mv).sum()))
            mon.seen("rejected", int((stay & mv).sum()))
            mon.check("uphill-always-accepted", bool(np.all(took[up])), refused=int((~took[up]).sum()), of=int(up.sum()), **ctx)
            down = mv & (dl < -30)
            mon.check("impossible-never-accepted", not bool(np.any(took[down])), **ctx)
            mid = mv & (dl < 0) & ok
            pr = np.exp(dl[mid])
            STAT["x"].append(took[mid].astype(float) - pr)
            STAT["p"].append(pr)
            # acceptance bookkeeping
            n_acc = (took & mv).sum(0) + same.sum(0)
            got = np.array(state.n_accepted_proc) - acc0
            if got.shape == (B,):
                mon.check("accepted-count-per-chain", np.array_equal(got.astype(int), n_acc), got=got, want=n_acc, **ctx)
            mon.check("step-count", int(state.n_steps) - st0 == len(rules) * B, got=int(state.n_steps) - st0, want=len(rules) * B, **ctx)
            if call != 1:
                mon.close("acceptance-rate", float(state.acceptance), n_acc.sum() / (len(rules) * B), rtol=1e-9, **ctx)
            if getattr(state, "log_prob", None) is not None and ok[-1].all() and np.all(A[-1].real > lmax - 14):
                mon.close("state-log-probability", np.array(state.log_prob).reshape(-1), mp * A[-1].real, rtol=1e-6, atol=1e-6, **ctx)
            if B > 2 and len(S) > 8 and len(rules) > 30:
                tr = [tuple(r[b] for r in rows) for b in range(B)]
                mon.seen("distinct-chains", len(set(tr)))


STAT = {"x": [], "p": []}


def invariance(mon, k):
    rng = mon.rng("invariance", k)
    hi, model, pf, mk, ctx, S, L = build(mon, rng, k, True)
    if len(S) < 2:
        return
    steps = int(rng.choice([1, 3]))
    mp = int(rng.choice([2, 2, 1]))
    ctx = dict(ctx, steps=steps, machine_pow=mp, k=k)
    mon.case("invariance", ctx)
    with mon.guard("fast-sampler-raises", **ctx):
        v = zoo.variables(model, int(rng.integers(1 << 30)), S[:2], pf)
        v = clean(ctx, v)
        la = zoo.amplitudes(model, v, S).real
        P = np.exp(mp * (la - la.max()))
        P /= P.sum()
        n = 40000 if mon.thorough else 16000
        sa = mk(n_chains=n, sweep_size=steps, machine_pow=mp)
        s0 = sa.init_state(model, v, seed=int(rng.integers(1 << 30)))
        ind = rng.choice(len(S), size=n, p=P)
        s0 = s0.replace(σ=jnp.asarray(S[ind].astype(np.asarray(s0.σ).dtype)))
        s0 = sa.reset(model, v, s0)
        if not np.array_equal(np.asarray(s0.σ).astype(float), S[ind].astype(float)):
            return
        num = {r: i for i, r in enumerate(keyrows(S))}
        x, s1 = sa.sample(model, v, state=s0, chain_length=2)
        x = np.asarray(x)
        for t in range(2):
            xi = np.array([num.get(r, -1) for r in keyrows(x[:, t])])
            if not mon.check("in-space", bool(np.all(xi >= 0)), **ctx):
                return
            stats.fits(mon, "invariance", np.bincount(xi, minlength=len(S)), P, time=t, **ctx)
            if len(S) <= 12:
                j = xi[: n // 2] * len(S) + xi[n // 2: 2 * (n // 2)]
                stats.fits(mon, "chains-independent", np.bincount(j, minlength=len(S) ** 2), np.outer(P, P).ravel(), time=t, **ctx)
                j = xi[:-1:2] * len(S) + xi[1::2]
                stats.fits(mon, "chains-independent", np.bincount(j, minlength=len(S) ** 2), np.outer(P, P).ravel(), time=t, **ctx)


def state_level(mon, k):
    """Through the variational state: samples of the requested shape, in the space, reproducible, moving on with every call."""
    rng = mon.rng("state", k)
    hi, model, pf, mk, ctx, S, L = build(mon, rng, k, False)
    ctx = dict(ctx, k=k)
    mon.case("state", ctx)
    with mon.guard("fast-sampler-raises", **ctx):
        v = zoo.variables(model, int(rng.integers(1 << 30)), S[:2], pf)
        v = clean(ctx, v)
        B = int(rng.choice([2, 5]))
        seed = int(rng.integers(1 << 30))
        mkvs = lambda s: nk.vqs.MCState(mk(n_chains=B, sweep_size=3), model, n_samples=B * 8, n_discard_per_chain=2, variables=v, seed=s, sampler_seed=s)
        a, b = mkvs(seed), mkvs(seed)
        members = set(keyrows(S))
        prev = None
        for call in range(3):
            x = np.asarray(a.samples)
            mon.check("chain-delivered", x.shape == (B, 8, L), shape=x.shape, **ctx)
            mon.check("in-space", all(r in members for r in keyrows(x.reshape(-1, L))), **ctx)
            mon.check("reproducible", np.array_equal(x, np.asarray(b.samples)), **ctx)
            mon.check("acceptance-range", 0.0 <= float(a.sampler_state.acceptance) <= 1.0 + 1e-12, got=float(a.sampler_state.acceptance), **ctx)
            if call == 1:
                p = pf(a.parameters)
                a.parameters = p
                b.parameters = p
            a.reset(), b.reset()


def run(mon):
    mon.rule = ("case = (model with fast updates, Hilbert space and sector, transition rule, number of chains, sweep length, machine power); observed: every proposal, cached value, decision and counter of "
                "recorded chains, and the distribution of many chains started from exact draws; non-trivial = all")
    mon.assumptions = [f"distributional statements are rejected at p < {stats.PMIN:g} per test",
                       "cached values are judged only along histories that stay away from nodes of the wavefunction (cached inverses are ill-conditioned there)"]
    n = 8 if mon.thorough else 1
    STAT["x"].clear(), STAT["p"].clear()
    jobs = [("h", k) for k in range(60 * n)] + [("i", k) for k in range(24 * n)] + [("s", k) for k in range(6 * n)]
    order = mon.rng("order").permutation(len(jobs))
    for w, k in mon.mine([jobs[i] for i in order]):
        if not mon.time_left():
            break
        dict(h=history, i=invariance, s=state_level)[w](mon, k)
    if STAT["p"]:
        x, p = np.concatenate(STAT["x"]), np.concatenate(STAT["p"])
        for lo, hi in ((0, 1), (0, 0.1), (0.1, 0.3), (0.3, 0.6), (0.6, 0.9), (0.9, 1.0)):
            m = (p >= lo) & (p <= hi)
            w = float((p[m] * (1 - p[m])).sum())
            if w > 15:
                z = float(x[m].sum() / np.sqrt(w))
                mon.ctx = {"kind": "acceptance law", "case": dict(low=lo, high=hi)}
                mon.check("downhill-acceptance-law", abs(z) < 7.5, z=z, decisions=int(m.sum()), low=lo, high=hi)
                mon.seen("downhill-decisions", int(m.sum()))
    mon.require("cached-values", 2000)
    mon.require("invariance", 10)
    mon.require("accepted", 500)
    mon.require("rejected", 500)
    mon.require("downhill-acceptance-law", 5)
