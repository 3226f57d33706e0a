"""C19  Quantum geometric tensors: matrix-vector products, dense form and solves against the covariance of log-derivatives."""
import warnings
import numpy as np
import jax
import jax.numpy as jnp
import flax.linen as nn
import netket as nk
from GPSKet.optimizer.qgt import QGTJacobianDenseRMSProp, QGTOnTheFlyRMSProp, QGTJacobianDenseUniqueSamples
from GPSKet.optimizer import pinv
from GPSKet.vqs import MCStateUniqueSamples
from . import vmc, zoo

SHARDS = 8
warnings.simplefilter("ignore")


class Mixed(nn.Module):
    """A user-defined ansatz whose parameters are partly real, partly complex, in nested containers and odd shapes."""
    @nn.compact
    def __call__(self, x):
        L = x.shape[-1]
        a = self.param("a", jax.nn.initializers.normal(0.3), (L,), jnp.float64)
        z = self.param("z", jax.nn.initializers.normal(0.3), (L, 2), jnp.complex128)
        s = self.param("scalar", jax.nn.initializers.normal(0.3), (), jnp.float64)
        h = nn.Dense(3, param_dtype=jnp.complex128, name="inner")(x.astype(jnp.complex128))
        return (x @ a) * s + jnp.sum(jnp.log(jnp.cosh(x @ z)), -1) + jnp.sum(h * h, -1)


def weighted_cov(O, w, real_only=False):
    Oc = O - np.sum(w[:, None] * O, 0)
    if real_only:
        Oc = Oc.real
    return (np.conj(Oc).T * w) @ Oc


def rvec_tree(R, rng, dtype_like=None):
    r = rng.normal(size=R.n)
    return R.tree_of(r, np), r


def holo(O, R):
    """Holomorphic derivatives (N, P complex parameters, leaf by leaf) from the derivatives by the real parts."""
    return np.concatenate([O[:, a:b] for k, p, a, b in R.slots if p == "re"], axis=1)


def cvec(R, tree):
    return np.concatenate([np.asarray(l).ravel() for l in jax.tree_util.tree_leaves(tree)])


def ema_tree(R, rng, equal=False):
    r = rng.exponential(size=R.n) * rng.integers(0, 2, R.n)       # includes parameters without any gradient so far
    if equal:
        for k, p, a, b in R.slots:
            if p == "im":
                r[a:b] = r[a - (b - a):a]
    return R.tree_of(r), r


def unique_state(rng, P, v, xs, w):
    vs = MCStateUniqueSamples(vmc.samplable(P)(n_chains=2), P["model"], n_samples=len(xs), variables=v, seed=1)
    vs._unique_samples, vs._relative_counts = jnp.asarray(xs), jnp.asarray(w)
    return vs


def compare(mon, tag, S, want, R, rng, d, order=None, scale=1.0, trees=2, solve=True, dense=True):
    """S: the tensor under test; want: real matrix in the real-vector layout."""
    order = R.parts_order() if order is None else order
    for _ in range(trees):
        t, r = rvec_tree(R, rng)
        t = jax.tree_util.tree_map(jnp.asarray, t)
        y = S @ t
        mon.check(tag + "-structure", jax.tree_util.tree_structure(y) == jax.tree_util.tree_structure(t)
                  and all(a.shape == b.shape and a.dtype == b.dtype for a, b in zip(jax.tree_util.tree_leaves(y), jax.tree_util.tree_leaves(t))), **d)
        mon.close(tag + "-matvec", R.vec(y) / scale, want @ r / scale, atol=2e-6, rtol=0, **d)
    if dense:
        D = np.asarray(S.to_dense())
        mon.check(tag + "-dense-shape", D.shape == want.shape, shape=D.shape, **d)
        mon.close(tag + "-dense", D / scale, want[np.ix_(order, order)] / scale, atol=2e-6, rtol=0, **d)
    if solve:
        ev = np.linalg.eigvalsh((want + want.T) / 2)
        if ev[0] > 1e-3 * ev[-1]:
            t, r = rvec_tree(R, rng)
            t = jax.tree_util.tree_map(jnp.asarray, t)
            x, _ = S.solve(jax.scipy.sparse.linalg.cg, t)
            x = R.vec(x)
            mon.close(tag + "-solve", (want @ x - r) / np.linalg.norm(r), np.zeros(R.n), atol=1e-3, rtol=0, **d)
            if dense:
                x, _ = S.solve(pinv, t)
                x = R.vec(x)
                mon.close(tag + "-pinv", (want @ x - r) / np.linalg.norm(r), np.zeros(R.n), atol=1e-5, rtol=0, **d)


QUICK = [
    # kind, model, L, sector, fast, dtype
    ("hubbard", "qgps", 4, (2, 1), True, jnp.complex128),
    ("heis", "qgps", 5, None, True, jnp.float64),
    ("ising", "rbm", 4, None, False, jnp.complex128),
    ("ising", "armp", 4, None, False, jnp.float64),
    ("ising", "ar", 4, None, False, jnp.complex128),
    ("ising", "mixed", 4, None, False, None),
    ("hubbard", "slater", 4, (2, 1), True, jnp.complex128),
    ("heis", "plaq_sym", 4, None, False, jnp.complex128),
]
HOLO = ("qgps", "rbm", "slater", "plaq_sym", "qgps_sym")


def make(rng, kind, name, L, ne, fast, dtype):
    if name != "mixed":
        return vmc.problem(rng, kind, name, L=L, ne=ne, fast=fast, dtype=dtype)
    P = vmc.problem(rng, kind, "rbm", L=L, ne=ne, fast=fast, dtype=jnp.complex128)
    P["model"], P["name"] = Mixed(), "mixed"
    P["pf"] = lambda p: zoo.randomise(rng, p, 0.25)
    P["v"] = zoo.variables(P["model"], 3, P["states"][:1], P["pf"])
    return P


def one(mon, k, kind, name, L, ne, fast, dtype, reps):
    rng = mon.rng("c19", k)
    d0 = dict(model=name, L=L, dtype=None if dtype is None else str(np.dtype(dtype)))
    with mon.guard("tensor-raises", **d0):
        P = make(rng, kind, name, L, ne, fast, dtype)
        model = P["model"]
        n = 20
        vs = None
        for rep in range(reps):
            v = zoo.variables(model, int(rng.integers(1 << 30)), P["states"][:1], P["pf"])
            xs = vmc.pick(rng, P, v, n)
            if vs is None:
                vs = zoo.make_vstate(model, P["hi"], v, n_samples=n)
            vs.parameters = v["params"]
            c = (1, 4, 5)[int(rng.integers(0, 3))]
            vs._samples = jnp.asarray(xs.reshape(c, n // c, L))
            O, R = vmc.logder(model, v, xs)
            if np.abs(O).max() > 1e3:
                continue
            w = np.full(n, 1 / n)
            iscomplex = any(np.iscomplexobj(l) for l in R.leaves)
            shift = float(rng.choice([0.0, 0.03, 0.4, 1.0])) if rep else 0.4
            eps = float(rng.choice([1e-8, 0.2])) if rep else 0.2
            ema, er = ema_tree(R, rng)
            diag = np.diag(np.sqrt(er) + eps)
            realout = not np.iscomplexobj(np.asarray(zoo.amplitudes(model, v, xs[:1])))
            d = dict(d0, shift=shift, eps=eps, params=R.n, chains=c, rep=rep)
            mon.case("tensor", d, nontrivial=True)
            S = weighted_cov(O, w)
            scale = 1 + np.abs(S).max()
            want = (1 - shift) * S.real + shift * diag
            chunk = (None, 4, n)[rep % 3]
            # --- dense tensor with running-average regularisation
            q = QGTJacobianDenseRMSProp(vs, ema, diag_shift=shift, eps=eps, chunk_size=chunk, **(dict(holomorphic=False) if iscomplex else {}))
            compare(mon, "dense-rmsprop", q, want, R, rng, dict(d, chunk=chunk), scale=scale)
            if rep == 0:
                q = QGTJacobianDenseRMSProp(diag_shift=shift, eps=eps, mode="real" if realout else "complex")(vs, ema)
                compare(mon, "dense-rmsprop-partial", q, want, R, rng, d, scale=scale, trees=1, solve=False)
                if realout and not iscomplex:
                    q = QGTJacobianDenseRMSProp(vs, ema, diag_shift=shift, eps=eps, mode="real")
                    compare(mon, "dense-rmsprop-real", q, want, R, rng, d, scale=scale, trees=1, solve=False)
            # --- on-the-fly tensor
            q = QGTOnTheFlyRMSProp(vs, ema, diag_shift=shift, eps=eps, **(dict(holomorphic=False) if iscomplex else {}))
            compare(mon, "onthefly-rmsprop", q, want, R, rng, d, scale=scale, dense=not iscomplex, solve=name != "mixed")
            if iscomplex and name in HOLO:
                eq, er2 = ema_tree(R, rng, equal=True)
                q = QGTOnTheFlyRMSProp(vs, eq, diag_shift=shift, eps=eps, holomorphic=True)
                Oh = holo(O, R)
                Sh = weighted_cov(Oh, w)
                dh = np.sqrt(holo(er2[None], R)[0]) + eps
                wh = (1 - shift) * Sh + shift * np.diag(dh)
                t, r = rvec_tree(R, rng)
                y = cvec(R, q @ jax.tree_util.tree_map(jnp.asarray, t))
                mon.close("onthefly-holomorphic-matvec", y / scale, wh @ cvec(R, t) / scale, atol=2e-6, rtol=0, **d)
                mon.close("onthefly-holomorphic-dense", np.asarray(q.to_dense()) / scale, wh / scale, atol=2e-6, rtol=0, **d)
            # --- weighted samples
            uniq, cnt = np.unique(xs, axis=0, return_counts=True)
            xu = np.concatenate([uniq, np.repeat(xs[:1], n - len(uniq), 0)])
            wu = np.concatenate([cnt / n, np.zeros(n - len(uniq))])
            arb = bool(rng.integers(2)) if rep else False
            if arb:
                wu = rng.dirichlet(np.ones(len(uniq)))
                wu = np.concatenate([wu, np.zeros(n - len(uniq))])
            Ou, _ = vmc.logder(model, v, xu)
            us = unique_state(rng, P, v, xu, wu)
            us.chunk_size = (None, 5)[rep % 2]
            du = dict(d, weights="arbitrary" if arb else "counts", chunk=us.chunk_size)
            Su = weighted_cov(Ou, wu)
            wantu = (1 - shift) * Su.real + shift * diag
            q = QGTJacobianDenseRMSProp(us, ema, diag_shift=shift, eps=eps, **(dict(holomorphic=False) if iscomplex else {}))
            compare(mon, "dense-rmsprop-unique", q, wantu, R, rng, du, scale=scale, trees=1)
            sh2 = float(rng.choice([0.0, 0.05, 1.5]))
            kw = {} if rep == 1 else dict(diag_shift=sh2)
            w2 = Su.real + (0.0 if rep == 1 else sh2) * np.eye(R.n)
            q = QGTJacobianDenseUniqueSamples(us, **(dict(holomorphic=False) if iscomplex else {}), **kw)
            compare(mon, "dense-unique", q, w2, R, rng, dict(du, shift2=kw.get("diag_shift")), scale=scale, trees=1)
            if rep == 0:
                q = QGTJacobianDenseUniqueSamples(mode="real" if realout else "complex", diag_shift=0.7)(us)
                compare(mon, "dense-unique-partial", q, Su.real + 0.7 * np.eye(R.n), R, rng, du, scale=scale, trees=1)
            if iscomplex and name in HOLO:
                q = QGTJacobianDenseUniqueSamples(us, holomorphic=True, diag_shift=sh2)
                Oh = holo(Ou, R)
                wh = weighted_cov(Oh, wu) + sh2 * np.eye(Oh.shape[1])
                t, r = rvec_tree(R, rng)
                y = cvec(R, q @ jax.tree_util.tree_map(jnp.asarray, t))
                mon.close("dense-unique-holomorphic-matvec", y / scale, wh @ cvec(R, t) / scale, atol=2e-6, rtol=0, **du)
                mon.close("dense-unique-holomorphic-dense", np.asarray(q.to_dense()) / scale, wh / scale, atol=2e-6, rtol=0, **du)
            # --- exact summation over the whole space
            if rep == 0 and kind in ("ising", "heis"):
                fs = nk.vqs.FullSumState(P["hi"], model, variables=v)
                allx = np.asarray(fs._all_states)
                la = zoo.amplitudes(model, v, allx).real
                p = np.exp(2 * (la - la.max()))
                p /= p.sum()
                Of, _ = vmc.logder(model, v, allx)
                q = QGTJacobianDenseRMSProp(fs, ema, diag_shift=shift, eps=eps, **(dict(holomorphic=False) if iscomplex else {}))
                compare(mon, "dense-rmsprop-fullsum", q, (1 - shift) * weighted_cov(Of, p).real + shift * diag, R, rng, d, scale=scale, trees=1)


def run(mon):
    mon.rule = ("case = (ansatz with real, complex or mixed parameters, random parameters, sample set, running average, shift, epsilon, chunk "
                "size); every tensor is applied to random trees, converted to dense form and used in solves, compared with the "
                "covariance of finite-difference log-derivatives.")
    mon.assumptions = ["iterative solves of the on-the-fly tensor are not run on trees mixing real and complex leaves (jax's cg rejects them)",
                       "dense layout of real-imaginary split parameters: all real parts leaf by leaf, then all imaginary parts (NetKet's)",
                       "holomorphic dense form is only defined for equal running averages of real and imaginary parts"]
    for k, c in mon.mine(list(enumerate(QUICK))):
        if mon.time_left():
            one(mon, k, *c, reps=3 if not mon.thorough else 6)
    for t in ("dense-rmsprop", "onthefly-rmsprop", "dense-unique", "dense-rmsprop-unique"):
        mon.require(t + "-matvec", 12)
    mon.require("dense-rmsprop-dense", 12)
    mon.require("onthefly-rmsprop-dense", 3)
    mon.require("dense-unique-holomorphic-dense", 4)
    mon.require("dense-rmsprop-fullsum-dense", 3)
    mon.require("dense-rmsprop-solve", 3)
    if mon.thorough:
        more = [("dense", "slater_ms", 3, (2, 1), False, jnp.complex128), ("sparse", "sj", 4, (2, 2), True, jnp.complex128),
                ("hubbard", "jastrow", 4, (2, 2), False, jnp.float64), ("dense", "cpd_u", 3, (1, 2), True, jnp.complex128)]
        for q in range(8):
            for k, c in mon.mine(list(enumerate(QUICK + more))):
                if mon.time_left():
                    one(mon, 100 * (q + 1) + k, *c, reps=5)
