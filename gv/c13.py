"""C13  The direct sampler draws from |psi|^2 of the autoregressive state."""
import numpy as np
import jax
import jax.numpy as jnp
import netket as nk
from GPSKet.sampler import ARDirectSampler
from . import ar, stats

SHARDS = 6


def to_index(c, x):
    """Positions of configurations in the enumerated product space (-1: not a configuration)."""
    ls = c.sp.ls
    d = np.argmin(np.abs(np.asarray(x, dtype=float)[..., None] - ls), axis=-1)
    good = np.all(np.abs(ls[d] - np.asarray(x, dtype=float)) < 1e-12, axis=-1)
    n = (d * (c.D ** np.arange(c.L)[::-1])).sum(-1)
    return np.where(good, n, -1)


def case(mon, k):
    rng = mon.rng("direct", k)
    while True:
        kind, space, L, sym = ar.draw(rng, k)
        D = {"spin": 2, "spin0": 2, "spinm": 2, "fock": 4, "spin1": 3, "fermi": 4, "fermiN": 4}[space]
        if D ** L <= 64:
            break
    N = 40000 if mon.thorough else 20000
    with mon.guard("direct-sampler-raises", ansatz=kind, space=space, L=L, sym=sym):
        c = ar.Case(kind, space, rng, L, sym=sym, scale=0.6)
        mon.case("direct", dict(c.desc, k=k), nontrivial=L > 1)
        idx = c.sp.all_indices()
        P = np.exp(2 * c.logpsi(idx).real)
        ok = np.array([c.sp.allowed(i) for i in idx])
        sa = ARDirectSampler(c.sp.hi)
        seed = int(rng.integers(1 << 30))
        v = {n: w for n, w in c.v.items()}
        vs = nk.vqs.MCState(sa, c.model, n_samples=N, variables=v, seed=seed, sampler_seed=seed)
        x = np.asarray(vs.samples)
        if not mon.check("delivered", x.shape == (sa.n_chains, N // sa.n_chains, L), shape=x.shape, **c.desc):
            return
        x = x.reshape(-1, L)
        ind = to_index(c, x)
        mon.check("in-space", bool(np.all(ind >= 0)) and bool(np.all(ok[ind])), outside=int((ind < 0).sum()) + int((~ok[ind]).sum()), **c.desc)
        stats.fits(mon, "distribution", np.bincount(ind[ind >= 0], minlength=len(idx)), P, **c.desc)
        # successive samples are independent draws
        if len(idx) <= 16:
            j = ind[:-1:2] * len(idx) + ind[1::2][: len(ind[:-1:2])]
            stats.fits(mon, "pairs-independent", np.bincount(j, minlength=len(idx) ** 2), np.outer(P, P).ravel(), **c.desc)
        # reproducible for equal seeds, distinct otherwise, and new draws on every call
        vs2 = nk.vqs.MCState(sa, c.model, n_samples=N, variables=v, seed=seed, sampler_seed=seed)
        mon.check("reproducible", bool(np.all(np.asarray(vs2.samples).reshape(-1, L) == x)), **c.desc)
        if P.max() < 0.95:
            vs3 = nk.vqs.MCState(sa, c.model, n_samples=N, variables=v, seed=seed, sampler_seed=seed + 1)
            mon.check("seed-dependent", bool(np.any(np.asarray(vs3.samples).reshape(-1, L) != x)), **c.desc)
            vs.sample()
            y = np.asarray(vs.samples).reshape(-1, L)
            mon.check("fresh-draws", bool(np.any(y != x)), **c.desc)
            jy = to_index(c, y)
            if len(idx) <= 16:
                stats.fits(mon, "calls-independent", np.bincount(ind * len(idx) + jy, minlength=len(idx) ** 2), np.outer(P, P).ravel(), **c.desc)
            vs2.sample()
            mon.check("reproducible", bool(np.all(np.asarray(vs2.samples).reshape(-1, L) == y)), second_call=True, **c.desc)
        # other lengths
        for n in (1, 3, 17):
            z = np.asarray(vs2.sample(n_samples=n)).reshape(-1, L)
            jz = to_index(c, z)
            mon.check("delivered", z.shape == (n, L) and bool(np.all(jz >= 0)) and bool(np.all(P[jz] > 1e-14)), shape=z.shape, n=n, **c.desc)
        # new parameters give the new distribution (nothing stale survives)
        from . import zoo
        vs.parameters = zoo.randomise(rng, vs.parameters, 0.6, offset=1.0)
        c.v = {**c.v, "params": vs.parameters}
        P2 = np.exp(2 * c.logpsi(idx).real)
        vs.sample()
        j2 = to_index(c, np.asarray(vs.samples).reshape(-1, L))
        stats.fits(mon, "distribution-after-update", np.bincount(j2, minlength=len(idx)), P2, **c.desc)


def large_case(mon, k):
    """Sizes beyond enumeration: constraints hold, no amplitude of a drawn configuration vanishes, per-site marginals of the first site agree."""
    rng = mon.rng("large", k)
    kind = ar.KINDS[k % len(ar.KINDS)]
    space = ["spin", "spin0", "spinm", "fermi", "fermiN", "fock"][int(rng.integers(0, 6))]
    L = 2 * int(rng.integers(5, 16)) if kind != "arfullM" else 8
    with mon.guard("direct-sampler-raises", ansatz=kind, space=space, L=L):
        c = ar.Case(kind, space, rng, L, sym=None, scale=0.1)
        mon.case("direct-large", dict(c.desc, k=k))
        N = 3000
        vs = nk.vqs.MCState(ARDirectSampler(c.sp.hi), c.model, n_samples=N, variables=dict(c.v), seed=int(rng.integers(1 << 30)))
        x = np.asarray(vs.samples).reshape(-1, L)
        ls = c.sp.ls
        d = np.argmin(np.abs(x.astype(float)[..., None] - ls), axis=-1)
        mon.check("in-space", bool(np.all(ls[d] == x.astype(float))) and all(c.sp.allowed(tuple(int(a) for a in r)) for r in d[:400]), **c.desc)
        lp = np.asarray(vs.log_value(jnp.asarray(x[:400])))
        mon.check("drawn-possible", bool(np.all(np.isfinite(lp.real))), **c.desc)
        p = c.cond([tuple(int(a) for a in r) for r in d])           # (N, L, D)
        # martingale: indicator minus conditional probability has mean zero at every site, for every local state
        ind = (d[..., None] == np.arange(c.D))
        z = (ind - p).sum(0) / np.sqrt(np.maximum((p * (1 - p)).sum(0), 1e-300))
        big = (p * (1 - p)).sum(0) > 20
        mon.check("site-martingale", not big.any() or float(np.abs(z[big]).max()) < 7.5, worst=float(np.abs(z[big]).max()) if big.any() else 0.0, **c.desc)
        # and conditioned on the previous site
        for s in range(1, L):
            for a in range(c.D):
                m = d[:, s - 1] == a
                w = (p[m, s] * (1 - p[m, s])).sum(0)
                zz = (ind[m, s] - p[m, s]).sum(0) / np.sqrt(np.maximum(w, 1e-300))
                g = w > 20
                if g.any():
                    mon.check("conditional-martingale", float(np.abs(zz[g]).max()) < 8.0, worst=float(np.abs(zz[g]).max()), site=s, previous=a, **c.desc)


def run(mon):
    mon.rule = ("case = (autoregressive model, Hilbert space and constraint, symmetrisation, parameters, seed); observed: drawn configurations (counts over the enumerated space, pairs of successive draws, "
                "pairs of calls); non-trivial = more than one site")
    mon.assumptions = [f"a distribution is rejected at p < {stats.PMIN:g} (Pearson, bins with expectation below ten merged)"]
    n = 240 if mon.thorough else 36
    jobs = [("s", k) for k in range(n)] + [("l", k) for k in range(n // 3)]
    order = mon.rng("order").permutation(len(jobs))
    for w, k in mon.mine([jobs[i] for i in order]):
        if not mon.time_left():
            break
        (case if w == "s" else large_case)(mon, k)
    mon.require("distribution-draws", 100000)
    mon.require("distribution", 15)
    mon.require("site-martingale", 5)
