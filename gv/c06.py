"""C06  Fermionic Hilbert spaces: exact enumeration, index bijection, valid and uniform random configurations."""
import itertools
from math import comb
import numpy as np
import jax
import jax.numpy as jnp
import netket as nk
from GPSKet.hilbert import FermionicDiscreteHilbert
from . import ref

SHARDS = 6


def counts(x):
    x = np.asarray(x).astype(int)
    return (x & 1).sum(-1), ((x >> 1) & 1).sum(-1)


def enumeration(mon, L, ne):
    mon.case("enumerate", dict(L=L, n_elec=ne), nontrivial=L > 1)
    with mon.guard("hilbert-raises", L=L, n_elec=ne):
        hi = FermionicDiscreteHilbert(L, n_elec=ne) if ne is not None else FermionicDiscreteHilbert(L)
        want = {tuple(int(v) for v in s) for s in ref.fermion_states(L, ne)}
        st = np.asarray(hi.all_states())
        got = [tuple(int(v) for v in s) for s in st]
        ctx = dict(L=L, n_elec=ne)
        mon.check("hilbert-enumerates-exactly", len(got) == len(want) and set(got) == want and hi.n_states == len(want), n=hi.n_states, **ctx)
        mon.check("hilbert-size", hi.size == L and hi.local_size == 4 and sorted(int(v) for v in np.asarray(hi.local_states)) == [0, 1, 2, 3], **ctx)
        idx = np.asarray(hi.states_to_numbers(st))
        mon.check("hilbert-index-bijection", np.array_equal(idx, np.arange(len(st))), **ctx)
        mon.check("hilbert-index-bijection", np.array_equal(np.asarray(hi.numbers_to_states(np.arange(len(st)))), st), **ctx)
        perm = np.random.default_rng(0).permutation(len(st))
        for dt in (np.uint8, np.int8, np.int64, np.float64):
            mon.check("hilbert-index-bijection", np.array_equal(np.asarray(hi.states_to_numbers(st[perm].astype(dt))), perm), dtype=str(dt), **ctx)
            li = np.asarray(hi.states_to_local_indices(jnp.asarray(st.astype(dt))))
            mon.check("hilbert-local-indices", np.array_equal(li.astype(int), st.astype(int)), dtype=str(dt), **ctx)
        # membership: the constraint decides every occupation pattern of the unconstrained lattice
        if ne is not None and L <= 5:
            allx = np.asarray(ref.fermion_states(L))
            ok = np.array([tuple(int(v) for v in s) in want for s in allx])
            for dt in (np.uint8, np.int64, np.float64):
                got_ok = np.asarray(hi.constraint(jnp.asarray(allx.astype(dt))))
                mon.check("hilbert-constraint-membership", np.array_equal(got_ok.astype(bool), ok), dtype=str(dt), **ctx)
            shaped = np.asarray(hi.constraint(jnp.asarray(allx[: (len(allx) // 4) * 4].reshape(2, -1, 2, L))))
            mon.check("hilbert-constraint-membership", np.array_equal(shaped.reshape(-1), ok[: (len(allx) // 4) * 4]), shaped=True, **ctx)


def randoms(mon, k, L, ne, n):
    mon.case("random", dict(L=L, n_elec=ne, n=n, k=k))
    ctx = dict(L=L, n_elec=ne)
    with mon.guard("hilbert-random-raises", **ctx):
        hi = FermionicDiscreteHilbert(L, n_elec=ne)
        key = jax.random.PRNGKey(mon.intseed("rs", k))
        for dt in (None, jnp.uint8, jnp.int8, jnp.int64, jnp.float64, jnp.float32):
            kw = {} if dt is None else dict(dtype=dt)
            for shape, full in ((None, (L,)), (3, (3, L)), ((2, 3), (2, 3, L))):
                args = () if shape is None else (shape,)
                x = hi.random_state(key, *args, **kw)
                mon.check("hilbert-random-shape", tuple(x.shape) == full, shape=shape, got=tuple(x.shape), **ctx)
                if dt is not None:
                    mon.check("hilbert-random-dtype", x.dtype == jnp.dtype(dt), got=str(x.dtype), want=str(jnp.dtype(dt)), **ctx)
                xi = np.asarray(x).astype(int)
                mon.check("hilbert-random-valid", np.isin(xi, [0, 1, 2, 3]).all(), **ctx)
                if ne is not None:
                    u, d = counts(xi)
                    mon.check("hilbert-random-sector", (u == ne[0]).all() and (d == ne[1]).all(), **ctx)
        x = np.asarray(hi.random_state(key, n, dtype=jnp.uint8)).astype(int)
        y = np.asarray(hi.random_state(key, n, dtype=jnp.uint8)).astype(int)
        mon.check("hilbert-random-reproducible", np.array_equal(x, y), **ctx)
        if ne is not None:
            u, d = counts(x)
            mon.check("hilbert-random-sector", (u == ne[0]).all() and (d == ne[1]).all(), **ctx)
        K = (comb(L, ne[0]) * comb(L, ne[1])) if ne is not None else 4 ** L
        if K > 1:
            z = np.asarray(hi.random_state(jax.random.PRNGKey(mon.intseed("rs2", k)), n, dtype=jnp.uint8)).astype(int)
            if n * np.log(float(K)) > 60:
                mon.check("hilbert-random-seed-matters", not np.array_equal(x, z), **ctx)
        if K <= n / 20:
            w = 4 ** np.arange(L)
            _, c = np.unique(x @ w, return_counts=True)
            obs = np.concatenate([c, np.zeros(K - len(c))]) if len(c) <= K else c
            chi2 = ((obs - n / K) ** 2 / (n / K)).sum()
            dof = max(K - 1, 1)
            # chi-square deviates by > 9 standard deviations (+ tail allowance) with probability < 1e-12
            mon.check("hilbert-random-uniform", chi2 < dof + 9 * np.sqrt(2 * dof) + 60 and len(c) <= K, chi2=chi2, dof=dof, n=n, **ctx)
            mon.extra.setdefault("uniformity_chi2_over_dof", {})[f"{L}-{ne}"] = round(chi2 / dof, 3)
            # consecutive draws of one batch are independent
            code = x @ w
            if K <= 40:
                lab = np.unique(code, return_inverse=True)[1]
                J = np.zeros((K, K))
                np.add.at(J, (lab[:-1], lab[1:]), 1)
                e = (n - 1) / K ** 2
                chi2 = ((J - e) ** 2 / e).sum()
                dof = K * K - 1
                mon.check("hilbert-random-independent", chi2 < dof + 9 * np.sqrt(2 * dof) + 60, chi2=chi2, dof=dof, **ctx)
        else:
            # site occupations are exchangeable: every site holds each spin species with probability n/L
            for bit, m in ((0, ne[0] if ne else L / 2), (1, ne[1] if ne else L / 2)):
                f = ((x >> bit) & 1).mean(0)
                p = m / L
                sd = np.sqrt(max(p * (1 - p), 1e-9) / n)
                mon.check("hilbert-random-site-uniform", (np.abs(f - p) <= 9 * sd + 1e-9).all(), bit=bit, worst=float(np.abs(f - p).max() / sd), **ctx)
            # up and down electrons are placed independently
            if ne is not None and 0 < ne[0] < L and 0 < ne[1] < L:
                dbl = (x == 3).sum(1).mean()
                pd = ne[0] * ne[1] / L
                var = pd * (1 - ne[0] / L) * (1 - ne[1] / L) * L / max(L - 1, 1)
                mon.check("hilbert-random-spin-independent", abs(dbl - pd) <= 9 * np.sqrt(max(var, 1e-9) / n) + 1e-9, got=dbl, want=pd, **ctx)


def identity(mon, k):
    rng = mon.rng("id", k)
    L = int(rng.integers(1, 9))
    ne = None if rng.integers(0, 4) == 0 else (int(rng.integers(0, L + 1)), int(rng.integers(0, L + 1)))
    mon.case("identity", dict(L=L, n_elec=ne, k=k))
    with mon.guard("hilbert-identity-raises", L=L, n_elec=ne):
        a = FermionicDiscreteHilbert(L, n_elec=ne)
        b = FermionicDiscreteHilbert(L, n_elec=None if ne is None else tuple(int(v) for v in ne))
        mon.check("hilbert-equality", a == b and hash(a) == hash(b), L=L, n_elec=ne)
        other = [FermionicDiscreteHilbert(L + 1, n_elec=ne)]
        if ne is not None:
            other.append(FermionicDiscreteHilbert(L))
            if ne[0] != ne[1]:
                other.append(FermionicDiscreteHilbert(L, n_elec=(ne[1], ne[0])))
            if ne[0] < L:
                other.append(FermionicDiscreteHilbert(L, n_elec=(ne[0] + 1, ne[1])))
        for o in other:
            mon.check("hilbert-inequality", a != o, L=L, n_elec=ne, other=repr(o))
        n = int(rng.integers(1, 4))
        p = a ** n
        wn = None if ne is None else (ne[0] * n, ne[1] * n)
        mon.check("hilbert-power", p.size == L * n and p == FermionicDiscreteHilbert(L * n, n_elec=wn), L=L, n_elec=ne, n=n)
        if L * n <= 4:
            mon.check("hilbert-power", p.n_states == len(ref.fermion_states(L * n, wn)), L=L, n_elec=ne, n=n)
        mon.check("hilbert-jit-static", int(jax.jit(lambda h, x: x + h.size, static_argnums=0)(a, 1)) == L + 1)
        s = {a: 1}
        mon.check("hilbert-dict-key", s.get(b) == 1)
        repr(a)


def run(mon):
    mon.rule = ("cases = enumerations (all sectors of all lattices up to the bound), batches of random configurations, identity/power "
                "relations; non-trivial = more than one site")
    mon.assumptions = ["uniformity and independence are decided by chi-square bounds with false-alarm probability below 1e-10 per test"]
    todo = []
    Lmax = 7 if mon.thorough else 6
    for L in range(1, Lmax + 1):
        if L <= 6:
            todo.append(("e", L, None))
        todo += [("e", L, (u, d)) for u in range(L + 1) for d in range(L + 1)
                 if comb(L, u) * comb(L, d) <= 500 and (mon.thorough or L < 6 or (u + 2 * d) % 5 == 0)]
    n = 40000 if mon.thorough else 12000
    rnd = [(2, (1, 1)), (3, (1, 2)), (3, None), (4, (2, 2)), (4, (0, 3)), (4, (4, 1)), (5, (1, 4)), (6, (3, 0)), (1, (1, 0)), (1, None),
           (2, (0, 0)), (3, (3, 3)), (12, (5, 7)), (20, (10, 3)), (30, None), (64, (31, 33)), (9, (8, 1))]
    todo += [("r", k, L, ne) for k, (L, ne) in enumerate(rnd)]
    todo += [("i", k) for k in range(150 if mon.thorough else 60)]
    for t in mon.mine(todo):
        if not mon.time_left():
            break
        if t[0] == "e":
            enumeration(mon, t[1], t[2])
        elif t[0] == "r":
            randoms(mon, t[1], t[2], t[3], n)
        else:
            identity(mon, t[1])
    for e in ("hilbert-enumerates-exactly", "hilbert-random-sector", "hilbert-random-uniform", "hilbert-power"):
        mon.require(e, 5)
