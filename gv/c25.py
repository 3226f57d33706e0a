"""C25  Supervised GPS bookkeeping: random histories of a learner; after every operation predictions and kernels are recomputed."""
import io
import contextlib
import warnings
import numpy as np
import scipy.optimize as spo
import jax.numpy as jnp
from GPSKet.hilbert import FermionicDiscreteHilbert
from GPSKet.models import qGPS
from GPSKet.supervised.supervised_qgps import QGPSLearningExp, QGPSLogSpaceFit, QGPSGenLinMod
from . import gpsfit as G, zoo, ref

SHARDS = 8
warnings.simplefilter("ignore")
CLS = dict(exp=QGPSLearningExp, log=QGPSLogSpaceFit, glm=QGPSGenLinMod)


def rand_eps(rng, D, M, L, dtype, style):
    e = 1 + 0.35 * rng.normal(size=(D, M, L))
    if dtype is complex:
        e = e * np.exp(0.4j * rng.normal(size=e.shape))
    if style == "zeros":
        e[rng.random(e.shape) < 0.2] = 0.0
    if style == "tiny":
        e[rng.random(e.shape) < 0.15] *= 1e-17
    if style == "negative":
        e *= np.where(rng.random(e.shape) < 0.4, -1, 1)
    return e.astype(dtype)


def make(kind, eps, expand, bias, **kw):
    if kind != "glm":
        kw["complex_expand"] = expand
    return CLS[kind](eps, include_bias=bias, **kw)


def rand_confs(rng, n, D, L, nsym, dtype=np.int64):
    c = rng.integers(0, D, (n, L))
    if nsym == 0:
        return c.astype(dtype)
    return np.stack([np.roll(c, k, axis=1) for k in range(nsym)], -1).astype(dtype)


def targets(rng, kind, n, dtype):
    y = 0.4 * rng.normal(size=n)
    if dtype is complex:
        y = y + 0.4j * rng.normal(size=n)
    return y if kind == "log" else np.exp(y)


def expected(l, kind, confs):
    v = G.logvalue(np.asarray(l.epsilon), confs) + (l.bias[0] if l.include_bias else 0)
    return v if kind == "log" else np.exp(v)


def fit_args(rng, kind):
    o = dict(opt_alpha=bool(rng.random() < 0.5), rvm=bool(rng.random() < 0.4))
    o["opt_beta" if kind == "glm" else "opt_noise"] = bool(rng.random() < 0.3)
    if kind == "exp":
        o["max_alpha_iterations"] = int(rng.integers(1, 4))
        o["max_noise_iterations"] = 2
    else:
        o["max_alpha_beta_iterations"] = int(rng.integers(1, 4))
    if kind == "glm" and rng.random() < 0.6:
        o["minimize_fun"] = lambda f, x, jac=None, hess=None: spo.minimize(f, x, jac=jac, method="BFGS", options=dict(maxiter=15))
    if rng.random() < 0.4:
        o["prior_mean"] = float(rng.choice([1.0, 0.5]))
    return o


def history(mon, k, kind, dtype, expand, bias, nsym, D, style, nops):
    rng = mon.rng("c25", k)
    L, M = int(rng.integers(2, 6)), int(rng.integers(1, 4))
    d0 = dict(learner=kind, dtype=dtype.__name__, expand=expand, bias=bias, nsym=nsym, D=D, L=L, M=M, style=style)
    eps0 = rand_eps(rng, D, M, L, dtype, style)
    mine = eps0.copy()
    with mon.guard("operation-raises", **d0), contextlib.redirect_stdout(io.StringIO()):
        l = make(kind, eps0, expand, bias)
        cdt = [np.int64, np.uint8, np.int32][k % 3]
        pool = [rand_confs(rng, n, D, L, nsym, cdt) for n in (9, 14, 9)]
        refbuf = np.zeros(M, dtype=int)
        done, i = [], 0
        mon.case("history", dict(d0, ops=nops), nontrivial=True)

        def nextref(now=False):
            r = rng.integers(4)
            if r == 0:
                return int(rng.integers(L))
            if r == 1:
                return np.int64(rng.integers(L))
            if r == 2:
                refbuf[:] = rng.integers(0, L, M)       # the caller reuses its array
                return refbuf
            return rng.integers(0, L, M)

        def full(r):
            return np.full(M, r) if np.ndim(r) == 0 else np.array(r)

        def scale(c):
            return 1e-9 * (1 + np.max(np.abs(G.logvalue(np.abs(l.epsilon), c))))

        for t in range(nops):
            op = rng.choice(["predict", "refs", "fit", "fit", "epsilon", "buffer", "kernel", "error", "alpha", "sweep"])
            done.append(str(op))
            d = dict(d0, step=t, history=done[-8:])
            i = int(rng.integers(3)) if rng.random() < 0.4 else i
            c = pool[i]
            c0 = c.copy()
            before = np.array(l.epsilon)
            if op == "epsilon":
                e = rand_eps(rng, D, M, L, dtype, rng.choice([style, "plain"]))
                e0 = e.copy()
                l.epsilon = e
                mon.check("epsilon-assigned", np.array_equal(l.epsilon, e0), **d)
                e += 1                                  # the learner has its own copy
                mon.check("epsilon-owned", np.array_equal(l.epsilon, e0), **d)
            elif op == "buffer":
                c[...] = rand_confs(rng, len(c), D, L, nsym, cdt)
                c0 = c.copy()
            elif op in ("kernel", "refs"):
                r = nextref()
                l.ref_sites = r
                fr = full(r)
                K = l.set_kernel_mat(c)
                want = G.features(before, c0, fr, bias)
                sc = G.features(np.abs(before), c0, fr, bias).max() + 1e-300
                mon.close("kernel-matrix", K, want, rtol=1e-9, atol=1e-12 * sc, refs=fr, **d)
            elif op == "alpha":
                l.alpha_mat[...] = np.exp(rng.normal(size=l.alpha_mat.shape))
                l.noise_tilde = float(np.exp(rng.normal() - 1))
            elif op == "error":
                y = targets(rng, kind, len(c), dtype)
                w = rng.uniform(0.2, 2, len(c)) if rng.random() < 0.5 else None
                y0, w0 = y.copy(), None if w is None else w.copy()
                got = l.squared_error(c, y, weightings=w)
                e2 = np.abs(expected(l, kind, c0) - y0) ** 2
                want = np.sum(e2 if w is None else w0 * e2)
                if np.isfinite(want) and want < 1e12:
                    mon.close("squared-error", got, want, rtol=1e-7, atol=1e-7, **d)
                mon.check("data-unchanged", np.array_equal(y, y0) and (w is None or np.array_equal(w, w0)), op=op, **d)
            elif op in ("fit", "sweep"):
                for q in range(1 if op == "fit" else L):
                    r = nextref() if op == "fit" else q
                    fr = full(r)
                    y = targets(rng, kind, len(c), dtype)
                    w = rng.uniform(0.2, 2, len(c)) if rng.random() < 0.5 else None
                    y0, w0 = y.copy(), None if w is None else w.copy()
                    before = np.array(l.epsilon)
                    am, noise = l.alpha_mat.copy(), l.noise_tilde
                    o = fit_args(rng, kind)
                    if np.abs(G.logvalue(np.abs(before), c0)).max() > 50:
                        break                            # exponential models would overflow
                    l.fit_step(c, y, r, weightings=w, **o)
                    dd = dict(d, refs=fr, options={a: b for a, b in o.items() if a != "minimize_fun"})
                    mon.check("data-unchanged", np.array_equal(y, y0) and (w is None or np.array_equal(w, w0)) and np.array_equal(c, c0), op=op, **dd)
                    other = np.ones((M, L), bool)
                    other[np.arange(M), fr] = False
                    mon.check("fit-touches-reference-sites-only", np.array_equal(np.moveaxis(l.epsilon, 0, -1)[other], np.moveaxis(before, 0, -1)[other]), **dd)
                    nf = D * M
                    same = np.ones(am.shape, bool)
                    cols = np.arange(nf)
                    same[np.repeat(fr, D), cols] = False
                    if am.shape[1] == 2 * nf:
                        same[np.repeat(fr, D), nf + cols] = False
                    mon.check("fit-changes-priors-of-reference-sites-only", np.array_equal(l.alpha_mat[same], am[same]), **dd)
                    if not o["opt_alpha"]:
                        mon.check("priors-kept-without-optimisation", np.array_equal(l.alpha_mat, am), **dd)
                    if not o.get("opt_noise", o.get("opt_beta")):
                        mon.close("noise-kept-without-optimisation", l.noise_tilde, noise, rtol=1e-12, atol=0, **dd)
                    if not (np.all(np.isfinite(l.epsilon)) and np.all(np.isfinite(l.alpha_mat))) or np.abs(l.epsilon).max() > 6 or not 1e-8 < l.noise_tilde < 1e8:
                        break
            bad = not (np.all(np.isfinite(l.epsilon)) and np.all(np.isfinite(l.alpha_mat)) and np.all(np.isfinite(l.bias)))
            if bad or np.abs(l.epsilon).max() > 6 or np.abs(l.bias).max() > 20 or not 1e-8 < l.noise_tilde < 1e8:
                # a degenerate fit (the data are random): start over from ordinary parameters
                mon.extra["restarts"] = mon.extra.get("restarts", 0) + 1
                l = make(kind, rand_eps(rng, D, M, L, dtype, style), expand, bias)
                continue
            # whatever happened: the prediction is that of the represented GPS, on old and on new configurations
            sets = [pool[int(rng.integers(3))], rand_confs(rng, int(rng.integers(1, 7)), D, L, nsym, cdt)]
            keep = int(rng.integers(4))                 # often the last operation concerned the same configurations
            for c in (sets[:keep] if keep < 2 else []) + [pool[i]]:
                c0 = c.copy()
                lv = G.logvalue(np.abs(l.epsilon), c)
                if lv.max() > 200:
                    continue
                got, want = l.predict(c), expected(l, kind, c0)
                tol = 1e-9 * (1 + lv)
                ok = got.shape == want.shape and np.all(np.abs(got - want) <= tol * (1 if kind == "log" else np.abs(want)) + 1e-300)
                mon.check("prediction-is-represented-gps", bool(ok), got_=got[:3], want_=want[:3], **d)
                mon.check("data-unchanged", np.array_equal(c, c0), op="predict", **d)
        mon.check("initial-epsilon-unchanged", np.array_equal(eps0, mine), **d0)


def as_model(mon, k, dtype, sym):
    """The learned tensor is that of the qGPS ansatz (occupation number = local index)."""
    rng = mon.rng("c25model", k)
    d0 = dict(dtype=dtype.__name__, symmetric=sym)
    with mon.guard("operation-raises", **d0), contextlib.redirect_stdout(io.StringIO()):
        L, M, ne = 3, 2, (2, 1)
        hi = FermionicDiscreteHilbert(L, n_elec=ne)
        states = np.asarray(ref.fermion_states(L, ne), dtype=np.uint8)
        perms = zoo.translations(L) if sym else None
        model, pf = zoo.fermion_model("qgps_sym" if sym else "qgps", hi, rng, fast=False, dtype=jnp.complex128 if dtype is complex else jnp.float64, perms=perms)
        v = zoo.variables(model, 3, states[:1], pf)
        leaves = [np.asarray(x) for x in __import__("jax").tree_util.tree_leaves(v["params"])]
        eps = next(x for x in leaves if x.ndim == 3)
        confs = np.stack([states[:, p] for p in perms], -1) if sym else states
        l = make("exp", eps.astype(dtype), False, False)
        y = targets(rng, "exp", len(states), dtype)
        for site in (0, 2, 1):
            l.fit_step(confs, y, site, opt_alpha=False, opt_noise=False)
        v2 = {**v, "params": __import__("jax").tree_util.tree_map(lambda a: jnp.asarray(l.epsilon) if a.ndim == 3 else a, v["params"])}
        got = np.exp(np.asarray(zoo.amplitudes(model, v2, states)))
        want = l.predict(confs)
        mon.case("as-model", d0, nontrivial=True)
        mon.close("model-with-learned-tensor", got, want, rtol=1e-8, atol=1e-10, **d0)


def combos():
    out = []
    for kind in ("exp", "log", "glm"):
        for dtype, expand in ((float, False), (complex, False), (complex, True)):
            if kind == "glm" and (dtype is complex) and not expand:
                continue
            for bias in (False, True):
                out.append((kind, dtype, expand, bias))
    return out


def run(mon):
    mon.rule = ("case = one history of a learner (predictions, kernels, fits, sweeps, prior/noise/tensor assignments, in-place changes of the "
                "caller's arrays); after every operation the predictions on old and new configurations, the kernel matrices and everything a fit "
                "must not touch are compared with direct recomputation.")
    mon.assumptions = ["one MPI process", "tensors are assigned through the property, not edited in place"]
    styles = ["plain", "zeros", "tiny", "negative"]
    jobs = []
    for rep in range(8 if not mon.thorough else 200):
        for q, (kind, dtype, expand, bias) in enumerate(combos()):
            jobs.append((1000 * rep + q, kind, dtype, expand, bias, (q + rep) % 4, (2, 4, 3)[(q + rep) % 3], styles[(q // 2 + rep) % 4]))
    for k, (dtype, sym) in mon.mine(list(enumerate([(float, False), (complex, True), (complex, False), (float, True)]))):
        as_model(mon, k, dtype, sym)
    for job in mon.mine(jobs):
        if mon.time_left():
            history(mon, *job, nops=40)
    mon.require("prediction-is-represented-gps", 1000)
    mon.require("kernel-matrix", 50)
    mon.require("fit-touches-reference-sites-only", 200)
