"""C12  Autoregressive conditionals: causal, normalised, of the documented form, and consistent with the amplitude."""
import numpy as np
import jax
import jax.numpy as jnp
import netket as nk
import GPSKet.models as M
from GPSKet.nn import VerticalStackConv, HorizontalStackConv, CausalConv2d
from . import ar, zoo

SHARDS = 8


def phase_close(mon, tag, got, want, **ctx):
    mon.close(tag, np.exp(1j * np.asarray(got)), np.exp(1j * np.asarray(want)), rtol=0, atol=1e-7, **ctx)


def model_case(mon, k):
    rng = mon.rng("model", k)
    kind, space, L, sym = ar.draw(rng, k)
    if rng.integers(0, 4) == 0:
        L = int(rng.integers(8, 15)) if kind != "arfullM" else 8
        L -= L % 2
    if sym is not None and rng.integers(0, 4) == 0:
        sym = "perm"
    normalize = bool(rng.integers(0, 4))
    pow_ = [2, 2, 2, 1, 4][int(rng.integers(0, 5))]
    with mon.guard("ar-raises", ansatz=kind, space=space, L=L, sym=sym):
        c = ar.Case(kind, space, rng, L, sym=sym, normalize=normalize, pow_=pow_, scale=0.5 if L < 8 else 0.15)
        mon.case("model", dict(c.desc, k=k), nontrivial=L > 1)
        B = 6
        idx = c.sp.random_indices(rng, B)
        p = c.cond(idx)
        if not mon.check("conditional-shape", p.shape == (B, L, c.D), shape=p.shape, **c.desc):
            return
        # documented form of the conditionals
        want = np.array([[np.exp(pow_ * c.ref_log_cond(i, s).real) for s in range(L)] for i in idx])
        mon.close("conditional-definition", p, want, rtol=1e-7, atol=1e-10, **c.desc)
        if normalize:
            mon.close("conditional-normalised", p.sum(-1), np.ones((B, L)), rtol=1e-9, atol=1e-9, **c.desc)
        mon.check("conditional-non-negative", bool(np.all(p >= 0)), **c.desc)
        # causality: arbitrary changes of sites >= s leave the conditionals at sites <= s untouched
        for s in sorted(set(int(v) for v in rng.integers(0, L, 3)) | {0, L - 1}):
            j = [tuple(i[:s]) + tuple(int(v) for v in rng.integers(0, c.D, L - s)) for i in idx]
            q = c.cond(j)
            mon.close("causal", q[:, : s + 1], p[:, : s + 1], rtol=1e-12, atol=0, site=s, **c.desc)
        # amplitude
        lp = c.logpsi(idx)
        ref = [c.ref_logpsi(i) for i in idx]
        mon.close("amplitude-modulus", lp.real, np.array([r[0] for r in ref]), rtol=1e-8, atol=1e-8, **c.desc)
        phase_close(mon, "amplitude-phase", lp.imag, np.array([r[1] for r in ref]), **c.desc)
        # product of conditionals of the images
        prob = np.zeros(B)
        for f in c.images:
            y = [f(i) for i in idx]
            q = c.cond(y)
            prob += np.array([np.prod([q[b, s, y[b][s]] for s in range(L)]) for b in range(B)]) / len(c.images)
        mon.close("product-of-conditionals", prob, np.exp(pow_ * lp.real), rtol=1e-7, atol=1e-12, **c.desc)
        # batch independence
        sel = rng.integers(0, B, B)
        mon.close("batch-independent", c.logpsi([idx[i] for i in sel]), lp[sel], rtol=1e-10, atol=1e-12, **c.desc)
        # site-by-site evaluation as used for sampling
        if hasattr(c.model, "_conditional"):
            m = c.model
            sig = jnp.asarray(c.sp.states(idx))
            f = jax.jit(lambda v, x, a: m.apply(v, x, a, method=m._conditional, mutable=["cache"])) if kind != "arfullM" else None
            v = dict(c.v)
            for s in range(L):
                a = (s, jnp.asarray(c.mask[s].astype(int)), jnp.asarray(c.plaq[s])) if kind == "arplaq" else s
                x = c.sp.states([tuple(i[:s]) + (0,) * (L - s) for i in idx])        # later sites are not known while sampling
                if f is not None:
                    q, mut = f(v, jnp.asarray(x), a)
                else:
                    q, mut = m.apply(v, jnp.asarray(x), s, method=m._conditional, mutable=["cache"])
                v = {**v, **mut}
                mon.close("sequential-conditional", q, p[:, s], rtol=1e-9, atol=1e-12, site=s, **c.desc)


def gradient_case(mon, k):
    """Log-derivatives of allowed configurations are finite and match finite differences of the reference amplitude."""
    rng = mon.rng("grad", k)
    kind = ar.KINDS[k % len(ar.KINDS)]
    space = ["spin0", "spinm", "fermiN", "spin"][int(rng.integers(0, 4))]
    L = 4
    with mon.guard("ar-gradient-raises", ansatz=kind, space=space):
        c = ar.Case(kind, space, rng, L, sym=[None, "reflect"][int(rng.integers(0, 2))], scale=0.3)
        mon.case("gradient", dict(c.desc, k=k))
        idx = c.sp.random_indices(rng, 3)
        x = jnp.asarray(c.sp.states(idx))
        rest = {n: w for n, w in c.v.items() if n != "params"}
        fun = lambda p: jnp.sum(c.model.apply({**rest, "params": p}, x).real)
        g = jax.grad(fun)(c.v["params"])
        leaves = jax.tree_util.tree_leaves(g)
        if not mon.check("gradient-finite", all(bool(np.all(np.isfinite(np.asarray(l)))) for l in leaves), **c.desc):
            return
        d = jax.tree_util.tree_map(lambda a: jnp.asarray((rng.normal(size=a.shape) + (1j * rng.normal(size=a.shape) if jnp.iscomplexobj(a) else 0)).astype(a.dtype)), c.v["params"])
        h = 1e-5
        up = fun(jax.tree_util.tree_map(lambda a, b: a + h * b, c.v["params"], d))
        dn = fun(jax.tree_util.tree_map(lambda a, b: a - h * b, c.v["params"], d))
        dot = sum(float(np.real(np.sum(np.asarray(a) * np.asarray(b)))) for a, b in zip(leaves, jax.tree_util.tree_leaves(d)))
        mon.close("gradient-directional", dot, float((up - dn) / (2 * h)), rtol=1e-5, atol=1e-5, **c.desc)


def pixel_case(mon, k):
    rng = mon.rng("pixel", k)
    n = int(rng.integers(2, 5))
    N = n * n
    hi = nk.hilbert.Fock(int(rng.integers(1, 3)), N)
    D = hi.local_size
    depth, ks, ch = int(rng.integers(1, 4)), int(rng.choice([1, 2, 3, 4, 5])), int(rng.integers(1, 4))
    pd = [jnp.float64, jnp.complex128][int(rng.integers(0, 2))]
    desc = dict(ansatz="pixelcnn", n=n, D=D, depth=depth, kernel=ks, channels=ch, dtype=str(np.dtype(pd)))
    mon.case("pixelcnn", dict(desc, k=k))
    with mon.guard("pixelcnn-raises", **desc):
        m = M.PixelCNN(hi, kernel_size=ks, n_channels=ch, depth=depth, param_dtype=pd)
        x = rng.integers(0, D, (5, N)).astype(float)
        v = zoo.variables(m, int(rng.integers(1 << 30)), x[:2], lambda p: zoo.randomise(rng, p, 0.5))
        cond = jax.jit(lambda y: m.apply(v, y, method=m.conditionals))
        p = np.asarray(cond(jnp.asarray(x)))
        mon.close("conditional-normalised", p.sum(-1), np.ones((5, N)), rtol=1e-9, atol=1e-9, **desc)
        lp = np.asarray(m.apply(v, jnp.asarray(x)))
        pr = np.array([np.prod([p[b, s, int(x[b, s])] for s in range(N)]) for b in range(5)])
        mon.close("product-of-conditionals", pr, np.exp(2 * lp.real), rtol=1e-7, atol=1e-300, **desc)
        for s in range(N):
            y = x.copy()
            y[:, s:] = rng.integers(0, D, (5, N - s))
            q = np.asarray(cond(jnp.asarray(y)))
            mon.close("pixelcnn-causal", q[:, : s + 1], p[:, : s + 1], rtol=1e-10, atol=1e-14, site=s, **desc)
        # and the earlier pixels do matter (kernel > 1): the network is not blind
        if ks > 1:
            y = x.copy()
            y[:, 0] = (y[:, 0] + 1) % D
            mon.seen("pixelcnn-sensitive", int(np.any(np.abs(np.asarray(cond(jnp.asarray(y))) - p) > 1e-9)))


def conv_case(mon, k):
    """Receptive field of the masked convolutions: changes at pixel q may reach pixel r only if allowed."""
    rng = mon.rng("conv", k)
    n = int(rng.integers(3, 7))
    ks = int(rng.choice([1, 2, 3, 4, 5]))
    dil = int(rng.integers(1, 3))
    mc = bool(rng.integers(0, 2))
    desc = dict(n=n, kernel=ks, dilation=dil, mask_center=mc)
    mon.case("conv", dict(desc, k=k))
    x = rng.normal(size=(1, n, n, 2))
    with mon.guard("conv-raises", **desc):
        for name, cls in (("vertical", VerticalStackConv), ("horizontal", HorizontalStackConv)):
            m = cls(2, ks, mask_center=mc, dilation=dil, param_dtype=jnp.float64)
            v = zoo.variables(m, k, x, lambda p: zoo.randomise(rng, p, 1.0))
            J = np.abs(np.asarray(jax.jacrev(lambda y: m.apply(v, y)[0])(jnp.asarray(x)))).sum(axis=(2, 3, 6))
            h, hr = ks // 2, (ks - 1) // 2     # elements before and after the one acting on the output pixel
            for r in range(n):
                for cc in range(n):
                    for q in range(n):
                        for d in range(n):
                            dr, dc = r - q, cc - d
                            if name == "vertical":
                                ok = (0 if not mc else 1) * dil <= dr <= h * dil and -hr * dil <= dc <= h * dil and dr % dil == 0 and dc % dil == 0
                            else:
                                ok = dr == 0 and (0 if not mc else 1) * dil <= dc <= h * dil and dc % dil == 0
                            mon.check(f"{name}-receptive-field", (J[r, cc, q, d] > 1e-12) == ok, pixel=(r, cc), source=(q, d), reaches=bool(J[r, cc, q, d] > 1e-12), **desc)


def run(mon):
    mon.rule = ("case = (autoregressive model, Hilbert space and constraint, symmetrisation, random parameters, batch); causality is tested by replacing every later site at random; "
                "non-trivial = more than one site")
    mon.assumptions = ["symmetrised states: probability averaged over the images, phase that of the sum of the phase factors of the images"]
    n = 400 if mon.thorough else 54
    jobs = [("m", k) for k in range(n)] + [("g", k) for k in range(n // 4)] + [("p", k) for k in range(n // 5)] + [("c", k) for k in range(max(6, n // 10))]
    order = mon.rng("order").permutation(len(jobs))
    for w, k in mon.mine([jobs[i] for i in order]):
        if not mon.time_left():
            break
        {"m": model_case, "g": gradient_case, "p": pixel_case, "c": conv_case}[w](mon, k)
    for e in ("causal", "product-of-conditionals", "amplitude-phase", "sequential-conditional", "pixelcnn-causal", "conditional-normalised", "vertical-receptive-field"):
        mon.require(e, 40)
