"""C11  Autoregressive states: squared amplitudes sum to one; support exactly on the allowed sector."""
import numpy as np
import jax
import jax.numpy as jnp
import netket as nk
import GPSKet.models as M
from . import ar, zoo

SHARDS = 8


def enumerate_case(mon, k):
    rng = mon.rng("enum", k)
    kind, space, L, sym = ar.draw(rng, k)
    pow_ = [2, 2, 2, 1, 4][int(rng.integers(0, 5))]
    scale = [0.5, 0.5, 0.1, 1.5][int(rng.integers(0, 4))]
    default = bool(rng.integers(0, 5) == 0)
    with mon.guard("ar-raises", ansatz=kind, space=space, L=L, sym=sym):
        c = ar.Case(kind, space, rng, L, sym=sym, pow_=pow_, scale=scale, default_init=default)
        mon.case("sum", dict(c.desc, k=k, default=default), nontrivial=L > 1)
        idx = c.sp.all_indices()
        lp = c.logpsi(idx)
        ok = np.array([c.sp.allowed(i) for i in idx])
        mon.check("no-nan", not np.any(np.isnan(lp.real[ok])) and not np.any(np.isnan(lp.real[~ok])) and not np.any(np.isnan(np.asarray(lp.imag)[ok])), nan=int(np.isnan(lp).sum()), **c.desc)
        mon.check("forbidden-exactly-zero", bool(np.all(lp.real[~ok] == -np.inf)), n=int((~ok).sum()), bad=int((lp.real[~ok] != -np.inf).sum()), **c.desc)
        mon.check("allowed-finite", bool(np.all(np.isfinite(lp.real[ok]))), bad=int((~np.isfinite(lp.real[ok])).sum()), **c.desc)
        if (~ok).any():
            mon.seen("forbidden-configurations", int((~ok).sum()))
        tot = float(np.sum(np.exp(pow_ * lp.real)))
        mon.close("total-probability", tot, 1.0, rtol=1e-9, atol=1e-9, **c.desc)
        if sym is not None:
            mon.seen("symmetrised")
            base = {i: v for i, v in zip(idx, lp)}
            for f in c.images if sym in ("trans", "flip", "reflect") else []:
                img = np.array([base[f(i)] for i in idx])
                mon.close("symmetry-invariant-probability", np.exp(pow_ * img.real), np.exp(pow_ * lp.real), rtol=1e-8, atol=1e-12, **c.desc)


def large_case(mon, k):
    """Sizes at which the space cannot be enumerated: random allowed configurations stay finite and normalised site by site,
    configurations outside the sector have zero amplitude."""
    rng = mon.rng("large", k)
    kind = ar.KINDS[k % len(ar.KINDS)]
    space = ["spin", "spin0", "spinm", "fermi", "fermiN", "fock"][int(rng.integers(0, 6))]
    L = int(rng.integers(10, 41)) if kind != "arfullM" else int(rng.integers(8, 13))
    L -= L % 2
    with mon.guard("ar-raises", ansatz=kind, space=space, L=L):
        c = ar.Case(kind, space, rng, L, sym=None, scale=0.1)
        mon.case("large", dict(c.desc, k=k))
        idx = c.sp.random_indices(rng, 6)
        lp = c.logpsi(idx)
        mon.check("allowed-finite", bool(np.all(np.isfinite(lp))), **c.desc)
        p = c.cond(idx)
        mon.close("conditional-normalised", p.sum(-1), np.ones(p.shape[:-1]), rtol=1e-9, atol=1e-9, **c.desc)
        if c.sp.hi.constrained:
            bad = []
            for i in idx:
                j = list(i)
                s = int(rng.integers(0, L))
                j[s] = (j[s] + 1 + int(rng.integers(0, c.D - 1))) % c.D
                if not c.sp.allowed(tuple(j)):
                    bad.append(tuple(j))
            if bad:
                lb = c.logpsi(bad + idx[: 6 - len(bad)])[: len(bad)]
                mon.check("forbidden-exactly-zero", bool(np.all(lb.real == -np.inf)), **c.desc)


def pixel_case(mon, k):
    rng = mon.rng("pixel", k)
    n = int(rng.integers(1, 4))
    N = n * n
    constrained = bool(rng.integers(0, 2)) and N % 2 == 0
    D = 2 if constrained or n == 3 else int(rng.integers(2, 4))
    hi = nk.hilbert.Spin(0.5, N, total_sz=0) if constrained else nk.hilbert.Fock(D - 1, N)
    full = nk.hilbert.Spin(0.5, N) if constrained else hi
    pd = [jnp.float64, jnp.complex128, jnp.float32][int(rng.integers(0, 3))]
    kw = {}
    if constrained:
        up = 1.0
        first = 1.0 if float(np.asarray(hi.local_states)[0]) == 1.0 else -1.0
        kw["gauge_fn"] = lambda x: jnp.stack([jnp.cumsum(x == first, -1) - (x == first), jnp.cumsum(x == -first, -1) - (x == -first)], -1)
        kw["constraint_fn"] = lambda g: g >= N // 2
    depth, ks, ch = int(rng.integers(1, 4)), int(rng.choice([1, 2, 3, 4, 5])), int(rng.integers(1, 4))
    desc = dict(ansatz="pixelcnn", N=N, D=D, constrained=constrained, depth=depth, kernel=ks, channels=ch, dtype=str(np.dtype(pd)))
    mon.case("pixelcnn", dict(desc, k=k), nontrivial=N > 1)
    with mon.guard("pixelcnn-raises", **desc):
        m = M.PixelCNN(hi, kernel_size=ks, n_channels=ch, depth=depth, param_dtype=pd, **kw)
        x = np.asarray(full.all_states())
        v = zoo.variables(m, int(rng.integers(1 << 30)), x[:2], lambda p: zoo.randomise(rng, p, 0.5))
        lp = np.asarray(m.apply(v, jnp.asarray(x)))
        ok = x.sum(-1) == 0 if constrained else np.ones(len(x), bool)
        tol = 1e-4 if pd == jnp.float32 else 1e-9
        mon.close("total-probability", float(np.exp(2 * lp.real[ok]).sum()), 1.0, rtol=tol, atol=tol, **desc)
        mon.check("forbidden-exactly-zero", bool(np.all(lp.real[~ok] == -np.inf)), **desc)
        mon.check("allowed-finite", bool(np.all(np.isfinite(lp[ok]))), **desc)


def run(mon):
    mon.rule = ("case = (autoregressive model, Hilbert space and constraint, symmetrisation, exponent, support dimension, random parameters); the whole product space is enumerated for up to "
                "256 configurations, larger sizes are probed with random configurations; non-trivial = more than one site")
    mon.assumptions = ["constraints other than zero magnetisation are imposed through the count_spins/renormalize_log_psi (gauge_fn/constraint_fn) fields as the models document"]
    n = 600 if mon.thorough else 72
    jobs = [("e", k) for k in range(n)] + [("l", k) for k in range(n // 3)] + [("p", k) for k in range(n // 4)]
    order = mon.rng("order").permutation(len(jobs))
    for w, k in mon.mine([jobs[i] for i in order]):
        if not mon.time_left():
            break
        {"e": enumerate_case, "l": large_case, "p": pixel_case}[w](mon, k)
    mon.require("total-probability", 40)
    mon.require("forbidden-configurations", 100)
    mon.require("symmetrised", 10)
    mon.require("conditional-normalised", 500)
