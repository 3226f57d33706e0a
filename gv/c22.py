"""C22  Dense SR preconditioner and pseudo-inverse solver: residuals, minimum norm, structure."""
import warnings
import numpy as np
import jax
import jax.numpy as jnp
import netket as nk
from GPSKet.optimizer import SRDense, pinv
from GPSKet.optimizer.qgt import QGTJacobianDenseUniqueSamples, QGTJacobianDenseRMSProp
from . import vmc, zoo
from .c19 import weighted_cov, unique_state, holo, cvec

SHARDS = 8
warnings.simplefilter("ignore")


def hermitian(rng, n, kind, cplx):
    """(matrix, eigenvalues, eigenvectors, cut-off kept) of a prescribed spectrum."""
    A = rng.normal(size=(n, n)) + (1j * rng.normal(size=(n, n)) if cplx else 0)
    U, _ = np.linalg.qr(A)
    if kind == "well":
        ev = rng.uniform(0.5, 3, n) * rng.choice([-1, 1], n)
    elif kind == "positive":
        ev = rng.uniform(0.5, 3, n)
    elif kind == "scaled":                     # eleven orders of magnitude around one
        ev = 10.0 ** rng.uniform(-4, 4, n)
    elif kind == "tiny":                       # well conditioned but far from one
        ev = 1e-9 * rng.uniform(0.5, 3, n)
    elif kind == "huge":
        ev = 1e9 * rng.uniform(0.5, 3, n)
    elif kind == "singular":
        ev = rng.uniform(0.5, 3, n)
        ev[: max(1, n // 2)] = 0.0
    elif kind == "zero":
        ev = np.zeros(n)
    ev = ev.astype(float)
    H = (U * ev) @ np.conj(U).T
    return (H + np.conj(H).T) / 2, ev, U


def check_solution(mon, tag, H, ev, U, b, x, rcond, d):
    keep = np.abs(ev) > rcond * max(np.abs(ev).max(), 1e-300)
    keep &= ev != 0
    want = U[:, keep] @ ((np.conj(U[:, keep]).T @ b) / ev[keep])
    s = max(np.abs(want).max(), 1e-300)
    cond = (np.abs(ev[keep]).max() / np.abs(ev[keep]).min()) if keep.any() else 1.0
    tol = 1e-7 + 1e-13 * cond
    if keep.any():
        mon.close(tag, x / s, want / s, atol=tol, rtol=0, cond=cond, **d)
        Pb = U[:, keep] @ (np.conj(U[:, keep]).T @ b)
        mon.close(tag + "-residual", (H @ x - Pb) / max(np.abs(b).max(), 1e-300), np.zeros(len(b)), atol=1e-7 + 1e-13 * cond, rtol=0, cond=cond, **d)
    else:
        mon.check(tag, np.abs(x).max() == 0, size=np.abs(x).max(), **d)


def systems(mon, rng, reps):
    for r in range(reps):
        for kind in ("well", "positive", "scaled", "tiny", "huge", "singular", "zero"):
            for cplx in (False, True):
                n = int(rng.integers(1, 9))
                H, ev, U = hermitian(rng, n, kind, cplx)
                b = rng.normal(size=n) + (1j * rng.normal(size=n) if cplx else 0)
                if kind == "singular" and r % 2:
                    b = H @ b                                       # consistent right-hand side
                d = dict(kind=kind, n=n, complex=cplx)
                mon.case("system", dict(d, r=r), nontrivial=n > 1)
                with mon.guard("solver-raises", **d):
                    kw = {} if r % 3 else dict(rcond=1e-10)
                    if r % 4 == 1:
                        kw["x0"] = jnp.asarray(b)
                    out = pinv(jnp.asarray(H), jnp.asarray(b), **kw)
                    x = np.asarray(out[0] if isinstance(out, tuple) else out)
                    mon.check("solution-shape", x.shape == b.shape, shape=x.shape, **d)
                    # prescribed zero eigenvalues come out as rounding noise far below the cut-off
                    check_solution(mon, "pinv-solution", H, ev, U, b, x, 1e-12, d)
        # a larger cut-off discards exactly the directions below it
        n = 6
        hc, bc = bool(rng.integers(2)), bool(rng.integers(2))
        H, ev, U = hermitian(rng, n, "positive", hc)
        ev = np.array([1.0, 0.5, 1e-2, 1e-3, 1e-5, 1e-6])
        H = (U * ev) @ np.conj(U).T
        b = rng.normal(size=n) + (1j * rng.normal(size=n) if bc or hc else 0)
        rc = float(rng.choice([3e-6, 1e-4, 5e-3, 0.1]))
        with mon.guard("solver-raises", kind="cut-off"):
            out = pinv(jnp.asarray(H), jnp.asarray(b), rcond=rc)
            x = np.asarray(out[0] if isinstance(out, tuple) else out)
            check_solution(mon, "pinv-cut-off", H, ev, U, b, x, rc, dict(kind="cut-off", rcond=rc))


class Lazy:
    """A right-hand side with tree structure and a lazily evaluated matrix."""
    def __init__(self, H):
        self.H = jnp.asarray(H)

    def to_dense(self):
        return self.H


def trees(mon, rng, reps):
    for r in range(reps):
        cplx = bool(r % 2)
        shapes = [(2, 2), (), (3,), (1, 1, 2)][: int(rng.integers(1, 5))]
        n = sum(int(np.prod(s)) for s in shapes)
        H, ev, U = hermitian(rng, n, ("well", "singular")[int(rng.integers(2))], cplx)
        mk = lambda s: jnp.asarray(rng.normal(size=s) + (1j * rng.normal(size=s) if cplx else 0))
        b = {"a": [mk(s) for s in shapes[:2]], "b": {"c": tuple(mk(s) for s in shapes[2:])}}
        with mon.guard("solver-raises", kind="tree"):
            out = pinv(Lazy(H) if rng.random() < 0.6 else jnp.asarray(H), b)
            x = out[0] if isinstance(out, tuple) else out
            ok = jax.tree_util.tree_structure(x) == jax.tree_util.tree_structure(b) and all(
                p.shape == q.shape and p.dtype == q.dtype for p, q in zip(jax.tree_util.tree_leaves(x), jax.tree_util.tree_leaves(b)))
            mon.check("solution-tree-structure", ok, shapes=shapes)
            check_solution(mon, "pinv-tree", H, ev, U, cvec(None, b), cvec(None, x), 1e-12, dict(kind="tree", n=n))


CASES = [
    # kind, model, L, sector, dtype, qgt
    ("hubbard", "qgps", 4, (2, 1), jnp.complex128, "netket-holomorphic"),
    ("heis", "qgps", 5, None, jnp.float64, "netket"),
    ("ising", "rbm", 4, None, jnp.complex128, "netket-holomorphic"),
    ("ising", "armp", 4, None, jnp.float64, "netket"),
    ("hubbard", "slater", 4, (2, 1), jnp.complex128, "unique-holomorphic"),
    ("heis", "plaq", 4, None, jnp.float64, "unique"),
    ("sparse", "qgps", 3, (2, 1), jnp.float64, "unique"),
    ("dense", "slater", 3, (2, 1), jnp.float64, "netket"),
]


def precond(mon, k, kind, name, L, ne, dtype, which, reps):
    rng = mon.rng("c22", k)
    d0 = dict(op=kind, model=name, qgt=which, dtype=str(np.dtype(dtype)))
    with mon.guard("preconditioner-raises", **d0):
        P = vmc.problem(rng, kind, name, L=L, ne=ne, fast=True, dtype=dtype)
        model = P["model"]
        n = 24
        sr = None
        for r in range(reps):
            v = zoo.variables(model, int(rng.integers(1 << 30)), P["states"][:1], P["pf"])
            xs = vmc.pick(rng, P, v, n)
            hol = which.endswith("holomorphic")
            shift = (0.0, 0.05, 0.7)[r % 3]
            kw = dict(diag_shift=shift, **(dict(holomorphic=True) if hol else {}))
            if which.startswith("netket"):
                vs = zoo.make_vstate(model, P["hi"], v, n_samples=n)
                vs._samples = jnp.asarray(xs.reshape(2, n // 2, L))
                w = np.full(n, 1 / n)
                qgt = nk.optimizer.qgt.QGTJacobianDense(**kw)
            else:
                u, c = np.unique(xs, axis=0, return_counts=True)
                xs = np.concatenate([u, np.repeat(u[:1], n - len(u), 0)])
                w = np.concatenate([c / n, np.zeros(n - len(u))])
                vs = unique_state(rng, P, v, xs, w)
                qgt = QGTJacobianDenseUniqueSamples(**kw)
            O, R = vmc.logder(model, v, xs)
            if hol:
                S = weighted_cov(holo(O, R), w)
            else:
                S = weighted_cov(O, w).real
            S = S + shift * np.eye(len(S))
            ev, U = np.linalg.eigh(S)
            if np.any((ev > 1e-14 * ev[-1]) & (ev < 1e-6 * ev[-1])):
                mon.seen("eigenvalue-near-cut-off")
                continue
            ev = np.where(ev < 1e-9 * ev[-1], 0.0, ev)
            solver = None if rng.random() < 0.5 else "direct"
            if solver == "direct" and shift == 0.0:
                solver = None
            if solver is None:
                sr = SRDense(qgt)
            else:
                sr = SRDense(qgt, solver=lambda A, b, x0=None: (jnp.linalg.solve(A, b), None))
            g = zoo.randomise(rng, v["params"], 1.0)
            d = dict(d0, shift=shift, solver=solver, r=r)
            mon.case("preconditioner", d, nontrivial=True)
            for rep in range(2):                              # a second call on the same object
                args = (vs, g) if rep == 0 else (vs, g, 3)
                x = sr(*args)
                ok = jax.tree_util.tree_structure(x) == jax.tree_util.tree_structure(g) and all(
                    p.shape == q.shape and p.dtype == q.dtype for p, q in zip(jax.tree_util.tree_leaves(x), jax.tree_util.tree_leaves(g)))
                mon.check("update-structure", ok, **d)
                b = cvec(R, g)
                check_solution(mon, "preconditioner-solution", S, ev, U, b, cvec(R, x), 1e-12, d)
                g = zoo.randomise(rng, v["params"], 1.0)
        # used by the optimisation driver: one step moves the parameters by the preconditioned gradient
        if which.startswith("netket"):
            v = zoo.variables(model, int(rng.integers(1 << 30)), P["states"][:1], P["pf"])
            vs = nk.vqs.MCState(vmc.samplable(P)(n_chains=4), model, n_samples=n, variables=v, seed=3)
            dr = nk.VMC(P["op"], nk.optimizer.Sgd(0.01), variational_state=vs,
                        preconditioner=SRDense(nk.optimizer.qgt.QGTJacobianDense(diag_shift=0.1, **(dict(holomorphic=True) if which.endswith("holomorphic") else {}))))
            dr.advance(2)
            mon.check("driver-runs", all(np.isfinite(np.asarray(l)).all() for l in jax.tree_util.tree_leaves(vs.parameters)), **d0)


def run(mon):
    mon.rule = ("case = a Hermitian system of prescribed spectrum (well conditioned, badly scaled, singular, zero), a tree-shaped right-hand "
                "side, or a preconditioned gradient of a real state; solutions are compared with the spectral pseudo-inverse.")
    mon.assumptions = ["systems whose eigenvalues lie within two orders of magnitude of the cut-off are not generated",
                       "SRDense works on the raveled gradient and so on real or holomorphic tensors (size of the gradient)"]
    if mon.first_shard():
        systems(mon, mon.rng("systems"), 6 if not mon.thorough else 60)
        trees(mon, mon.rng("trees"), 12 if not mon.thorough else 120)
    for k, c in mon.mine(list(enumerate(CASES))):
        if mon.time_left():
            precond(mon, k, *c, reps=6 if not mon.thorough else 24)
    mon.require("pinv-solution", 60)
    mon.require("pinv-tree", 8)
    mon.require("pinv-cut-off", 4)
    mon.require("preconditioner-solution", 20)
    if mon.thorough:
        for q in range(4):
            for k, c in mon.mine(list(enumerate(CASES))):
                if mon.time_left():
                    precond(mon, 100 * (q + 1) + k, *c, reps=12)
