"""C29  Estimates on several MPI processes: every rank's recorded values against the run of one process with all the samples."""
import warnings
import numpy as np
import jax
import jax.numpy as jnp
import netket as nk
from GPSKet.optimizer import SRDense, pinv
from GPSKet.optimizer.qgt import QGTJacobianDenseRMSProp, QGTOnTheFlyRMSProp, QGTJacobianDenseUniqueSamples
from GPSKet.vqs import MCStateStratifiedSampling
from . import vmc, zoo, steps, dist

SHARDS = 2
warnings.simplefilter("ignore")
CHAINS = 12             # divisible by every number of ranks used

QUICK = [
    dict(what="plain", op="hubbard", model="qgps", L=4, ne=(2, 1), fast=True, dtype="complex128", chunk=None),
    dict(what="stratified", op="heis", model="qgps", L=6, ne=None, fast=True, dtype="float64", mode="harmonic", fixed=7),
    dict(what="unique", op="dense", model="slater", L=4, ne=(2, 1), fast=True, dtype="complex128", n=24, batch=24, steps=2, chunk=None),
    dict(what="plain", op="heis", model="plaq", L=4, ne=None, fast=False, dtype="float64", chunk=2),
    dict(what="unique", op="ising", model="rbm", L=4, ne=None, fast=False, dtype="complex128", n=12, batch=24, steps=None, chunk=2),
    dict(what="stratified", op="ising", model="ar", L=4, ne=None, fast=False, dtype="complex128", mode="normalised", fixed=5),
    dict(what="unique", op="sparse", model="qgps", L=4, ne=(2, 2), fast=False, dtype="float64", n=24, batch=12, steps=3, chunk=None),
    dict(what="stratified", op="hubbard", model="qgps", L=4, ne=(2, 1), fast=True, dtype="complex128", mode="rand", fixed=5),
]
MORE = [
    dict(what="plain", op="sparse", model="slater", L=3, ne=(2, 1), fast=True, dtype="complex128", chunk=4),
    dict(what="plain", op="ising", model="armp", L=4, ne=None, fast=False, dtype="float64", chunk=None),
    dict(what="plain", op="dense", model="qgps", L=3, ne=(1, 2), fast=True, dtype="complex128", chunk=1),
    dict(what="unique", op="hubbard", model="qgps", L=4, ne=(2, 2), fast=True, dtype="complex128", n=36, batch=36, steps=4, chunk=3),
    dict(what="unique", op="heis", model="qgps", L=6, ne=None, fast=True, dtype="float64", n=12, batch=12, steps=1, chunk=None),
    dict(what="stratified", op="ising", model="rbm", L=5, ne=None, fast=False, dtype="complex128", mode="harmonic", fixed=13),
    dict(what="stratified", op="dense", model="slater", L=4, ne=(2, 2), fast=True, dtype="complex128", mode="harmonic", fixed=4),
    dict(what="plain", op="hubbard", model="slater", L=4, ne=(2, 2), fast=True, dtype="complex128", chunk=2),
]


def cases(thorough):
    return QUICK + MORE * 3 + QUICK * 2 if thorough else QUICK


class Stratified(MCStateStratifiedSampling):
    """Chains scripted by the workload."""
    script = None

    def sample(self, *a, **kw):
        if self.script:
            out = self.script.pop(0)
            self._samples = out
            return out
        return super().sample(*a, **kw)


def tensors(rec, rng, vs, v, unique):
    R = vmc.Real(v["params"])
    cplx = any(np.iscomplexobj(l) for l in R.leaves)
    kw = dict(holomorphic=False) if cplx else {}
    ema = R.tree_of(rng.exponential(size=R.n))
    t = jax.tree_util.tree_map(jnp.asarray, R.tree_of(rng.normal(size=R.n), np))
    sh, eps = float(rng.choice([0.0, 0.05, 0.6])), float(rng.choice([1e-8, 0.2]))
    q = QGTJacobianDenseRMSProp(vs, ema, diag_shift=sh, eps=eps, **kw)
    rec.w("dense tensor", q.to_dense())
    rec.w("dense tensor times tree", q @ t)
    if unique:
        q = QGTJacobianDenseUniqueSamples(vs, diag_shift=sh + 0.3, **kw)
        rec.w("weighted tensor", q.to_dense())
        rec.w("weighted tensor times tree", q @ t)
        rec.w("solve", q.solve(pinv, t)[0], tol=1e-6)
    else:
        q = QGTOnTheFlyRMSProp(vs, ema, diag_shift=sh, eps=eps, **kw)
        rec.w("on-the-fly tensor times tree", q @ t)


def estimates(rec, vs, op):
    e = vs.expect(op)
    rec.w("mean", e.mean)
    rec.w("variance", e.variance)
    e, g = vs.expect_and_grad(op)
    rec.w("mean with gradient", e.mean)
    rec.w("variance with gradient", e.variance)
    rec.w("gradient", g)


def execute(rec, i, seed, rank, P):
    c = (QUICK + MORE * 3 + QUICK * 2)[i]
    rng = dist.rng_of(seed, "c29", i)
    L = c["L"]
    Q = vmc.problem(rng, c["op"], c["model"], L=L, ne=c["ne"], fast=c["fast"], dtype=getattr(jnp, c["dtype"]))
    model, v, op = Q["model"], Q["v"], Q["op"]
    mk = vmc.samplable(Q)
    for rep in range(2):
        if rep:
            v = zoo.variables(model, int(rng.integers(1 << 30)), Q["states"][:1], Q["pf"])
        tag = Tag(rec, rep)
        if c["what"] == "plain":
            n = 24
            x = vmc.pick(rng, Q, v, n).reshape(CHAINS, n // CHAINS, L)
            if rep == 0:
                vs = steps.RecordedMC(mk(n_chains=CHAINS), model, n_samples=n, variables=v, seed=3, chunk_size=c["chunk"])
            vs.parameters = v["params"]
            vs.reset()
            vs.script = [jnp.asarray(dist.take(x, rank, P))]
            estimates(tag, vs, op)
            tag.l("local estimators", np.asarray(vs.local_estimators(op)).reshape(-1))
            tensors(tag, rng, vs, v, False)
        elif c["what"] == "unique":
            n, batch, nst = c["n"], c["batch"], c["steps"]
            k = 12 if nst is None else nst
            x = [vmc.pick(rng, Q, v, batch).reshape(CHAINS, batch // CHAINS, L) for _ in range(k)]
            if nst is None:                  # enough distinct configurations: the last batch holds all of them
                a = zoo.amplitudes(model, v, Q["states"]).real
                y = Q["states"][np.argsort(-a)][:batch]
                x[3] = np.resize(y, (batch, L)).reshape(CHAINS, -1, L)
            if rep == 0:
                vs = steps.RecordedUnique(mk(n_chains=CHAINS), model, n_samples=n, variables=v, seed=3, max_sampling_steps=nst,
                                          batch_size=batch, chunk_size=c["chunk"])
            vs.parameters = v["params"]
            vs.reset()
            vs.script = [jnp.asarray(dist.take(b, rank, P)) for b in x]
            s, w = vs.samples_with_counts
            tag.b("collapsed samples", s, w)
            tag.s("batches drawn", k - len(vs.script))
            tag.w("batches", k - len(vs.script))
            estimates(tag, vs, op)
            tensors(tag, rng, vs, v, True)
            if rep == 0:
                sr = SRDense(QGTJacobianDenseUniqueSamples(diag_shift=0.05, **(dict(holomorphic=True) if c["dtype"].startswith("c") else {})))
            g = jax.tree_util.tree_map(jnp.asarray, v["params"])
            tag.w("preconditioned vector", sr(vs, g, 0), tol=1e-6)
        else:
            n, m = 24, c["fixed"]
            st = Q["states"]
            dt = np.uint8 if st.dtype == np.uint8 else np.float64
            a = zoo.amplitudes(model, v, st).real
            if rep == 0:
                pool = np.flatnonzero(a > a.max() - 6)
                det = st[rng.permutation(pool)[:m]].astype(dt)
                keys = {tuple(z) for z in det.tolist()}
                opt = {"rand": dict(rand_norm=True, number_random_samples=50), "harmonic": dict(rand_norm=False), "normalised": dict(renormalize=False)}[c["mode"]]
                vs = Stratified(jnp.asarray(det), len(st), mk(n_chains=CHAINS, dtype=dt, sweep_size=2), model, n_samples=n, variables=v, seed=3,
                                n_discard_per_chain=1, **opt)
            vs.parameters = v["params"]
            vs.reset()
            comp = st[[j for j in np.flatnonzero(a > a.max() - 8) if tuple(st[j].tolist()) not in keys]].astype(dt)
            script = [comp[rng.integers(0, len(comp), CHAINS)].reshape(CHAINS, 1, L)]
            for _ in range(2 * (n // CHAINS) + 1):
                z = comp[rng.integers(0, len(comp), CHAINS)]
                hit = rng.random(CHAINS) < 0.3                 # moves into the fixed set, to be rejected
                z[hit] = det[rng.integers(0, len(det), hit.sum())]
                script.append(z.reshape(CHAINS, 1, L))
            vs.script = [jnp.asarray(dist.take(z, rank, P)) for z in script]
            s, w = (np.asarray(q) for q in vs.samples_with_counts)
            tag.r("weight", w.sum())
            tag.r("sampled weight", w[[tuple(z) not in keys for z in s.tolist()]])
            if c["mode"] == "rand":             # the norm is a random estimate: one value, shared by all ranks
                tag.b("samples", s, np.ones(len(s)))
                e, g = vs.expect_and_grad(op)
                for nm, q in (("mean", e.mean), ("variance", e.variance), ("gradient", g)):
                    tag.s(nm, q)
            else:
                tag.b("samples", s, w)
                estimates(tag, vs, op)
                tensors(tag, rng, vs, v, True)


class Tag:
    """Recorder with the repetition in every name."""
    def __init__(self, rec, rep):
        self.rec, self.rep = rec, rep

    def __getattr__(self, m):
        f = getattr(self.rec, m)
        return lambda name, *a, **kw: f(f"{name} ({self.rep})", *a, **kw)


def judge(mon, i, d, recs, pooled):
    for rep in range(2):
        if f"weight ({rep})" not in recs[0].raw:
            continue
        mon.close("weights-of-all-ranks-sum-to-one", sum(r.raw[f"weight ({rep})"] for r in recs), 1.0, atol=1e-9, rtol=0, **d)
        w = np.concatenate([r.raw[f"sampled weight ({rep})"] for r in recs])
        mon.close("sampled-weights-equal-over-ranks", w, np.full(len(w), w.mean()), rtol=1e-9, atol=1e-13, **d)


def run(mon):
    mon.rule = ("case = (scenario, number of MPI ranks): random operator, ansatz and parameters; the chains of a scripted sample set are dealt "
                "to the ranks; every rank's recorded estimates, gradients, tensors, solves and weighted samples are compared with each other "
                "and with one process holding all chains.")
    mon.assumptions = ["equal numbers of chains per rank (NetKet's own rule)", "ranks communicate through shared memory on one host"]
    dist.drive(mon, "c29", cases(mon.thorough), (2, 3) if not mon.thorough else (2, 3, 4, 6), judge=judge, alternate=not mon.thorough)
    mon.require("equal-to-pooled", 1000)
    mon.require("shares-join-to-pooled", 10)
    mon.require("weighted-configurations-join-to-pooled", 6)
    mon.require("weights-of-all-ranks-sum-to-one", 4)
