"""C30  Optimisation on several MPI processes: the trajectory of every rank against that of one process with all the samples."""
import warnings
import numpy as np
import jax
import jax.numpy as jnp
import netket as nk
from GPSKet.driver import VMC_SRRMSProp, minSRVMC, ARStateFitting
from GPSKet.optimizer import SRDense
from GPSKet.optimizer.qgt import QGTJacobianDenseUniqueSamples
from . import vmc, zoo, steps, dist
from .c29 import Tag, CHAINS
from .c20 import exact
from .c21 import ridge
from .c23 import targets

SHARDS = 2
warnings.simplefilter("ignore")

QUICK = [
    dict(what="srrmsprop", op="hubbard", model="qgps", L=4, ne=(2, 1), fast=True, dtype="complex128", chunk=None, n=24),
    dict(what="minsr", op="heis", model="qgps", L=6, ne=None, fast=True, dtype="float64", chunk=None, n=12, kw=dict()),
    dict(what="srrmsprop", op="ising", model="armp", L=4, ne=None, fast=False, dtype="float64", chunk=None, n=12),
    dict(what="minsr", op="ising", model="rbm", L=4, ne=None, fast=False, dtype="complex128", chunk=2, n=24, kw=dict(mode="holomorphic")),
    dict(what="minsr-unique", op="hubbard", model="qgps", L=4, ne=(2, 2), fast=True, dtype="complex128", chunk=2, n=24, kw=dict(holomorphic=False)),
    dict(what="fitting", model="ar", L=4, dtype="complex128", m=12, batch="all"),
    dict(what="vmc-unique", op="heis", model="qgps", L=6, ne=None, fast=True, dtype="complex128", chunk=None, n=12),
    dict(what="fitting", model="armp", L=4, dtype="float64", m=13, batch="some"),
]
MORE = [
    dict(what="srrmsprop", op="heis-plain", model="plaq", L=4, ne=None, fast=False, dtype="complex128", chunk=2, n=48),
    dict(what="srrmsprop", op="sparse", model="qgps", L=3, ne=(1, 2), fast=False, dtype="float64", chunk=None, n=24),
    dict(what="minsr", op="dense", model="slater", L=3, ne=(2, 1), fast=True, dtype="complex128", chunk=1, n=24, kw=dict(holomorphic=True)),
    dict(what="minsr-unique", op="ising", model="rbm", L=4, ne=None, fast=False, dtype="complex128", chunk=None, n=12, kw=dict(mode="complex")),
    dict(what="fitting", model="arfull", L=3, dtype="complex128", m=6, batch="all"),
    dict(what="fitting", model="armpfull", L=4, dtype="float64", m=12, batch="all"),
]


def cases(thorough):
    return QUICK + (MORE * 3 + QUICK * 2 if thorough else [])


def sgd(k):
    return nk.optimizer.Sgd(0.02) if k % 2 == 0 else nk.optimizer.Momentum(0.01)


def fitting(rec, c, rng, rank, P):
    L, m = c["L"], c["m"]
    hi = nk.hilbert.Spin(0.5, N=L)
    model, pf = zoo.spin_model(c["model"], hi, rng, fast=False, dtype=getattr(jnp, c["dtype"]))
    states = np.asarray(hi.all_states())
    v = zoo.variables(model, int(rng.integers(1 << 30)), states[:1], pf)
    vs = nk.vqs.MCState(nk.sampler.MetropolisLocal(hi, n_chains=CHAINS), model, n_samples=CHAINS, variables=v, seed=1)
    x, y = states[rng.permutation(len(states))[:m]], targets(rng, m, "complex")
    B = m // P if c["batch"] == "all" else 2
    ham = nk.operator.Ising(hi, nk.graph.Chain(L), h=1.0)
    for k in range(2):
        tag = Tag(rec, k)
        vs.parameters = jax.tree_util.tree_map(jnp.asarray, v["params"])
        # only the root's dataset counts: the others hold it too, or something else of the same kind
        own = (x, y) if k == 0 or rank == 0 else (x[::-1].copy(), 3 * y)
        dr = ARStateFitting(own, ham, sgd(k), variational_state=vs, mini_batch_size=B, seed=int(rng.integers(1 << 30)))
        for t in range(3):
            if t == 1:
                dr.run(1, out=nk.logging.RuntimeLog(), show_progress=False)
            else:
                dr.advance(1)
            if c["batch"] == "all":
                tag.w(f"loss {t}", dr.loss)
                tag.w(f"parameters {t}", vs.parameters)
            else:
                tag.s(f"loss {t}", dr.loss)
            tag.s(f"parameters {t} synchronised", vs.parameters)
            tag.w(f"step count {t}", dr.step_count)


def execute(rec, i, seed, rank, P):
    c = cases(True)[i]
    rng = dist.rng_of(seed, "c30", i)
    if c["what"] == "fitting":
        return fitting(rec, c, rng, rank, P)
    L, n = c["L"], c["n"]
    Q = vmc.problem(rng, c["op"], c["model"], L=L, ne=c["ne"], fast=c["fast"], dtype=getattr(jnp, c["dtype"]))
    model, v, op = Q["model"], Q["v"], Q["op"]
    rest = {a: b for a, b in v.items() if a != "params"}
    uniq = c["what"].endswith("unique")
    kw = dict(n_samples=n, variables=v, seed=5, chunk_size=c["chunk"])
    samp = vmc.samplable(Q)(n_chains=CHAINS)
    vs = steps.RecordedUnique(samp, model, max_sampling_steps=2, **kw) if uniq else steps.RecordedMC(samp, model, **kw)

    def script():
        p = {"params": jax.tree_util.tree_map(jnp.asarray, steps.copy_tree(vs.parameters)), **rest}
        k = 2 if uniq else 1
        # one seed for all ranks: the drawn samples depend on the (equal) parameters only
        vs.reset()
        vs.script = [jnp.asarray(dist.take(vmc.pick(rng, Q, p, n).reshape(CHAINS, n // CHAINS, L), rank, P)) for _ in range(k)]

    script()
    if c["what"] == "srrmsprop":
        dr = VMC_SRRMSProp(op, sgd(i), variational_state=vs, diag_shift=lambda t: 0.3 / (1 + t), decay=float(rng.choice([0.5, 0.9])),
                           eps=1e-3, linear_solver_fn=exact)
    elif c["what"] == "vmc-unique":
        kq = dict(holomorphic=True) if c["dtype"].startswith("c") else {}
        dr = nk.driver.VMC(op, sgd(i), variational_state=vs, preconditioner=SRDense(QGTJacobianDenseUniqueSamples(diag_shift=0.05, **kq)))
    else:
        dr = minSRVMC(op, sgd(i), variational_state=vs, solver=ridge, **c["kw"])
    for t in range(4):
        tag = Tag(rec, t)
        script()
        if t == 2:
            dr.run(1, out=nk.logging.RuntimeLog(), show_progress=False)
        else:
            dr.advance(1)
        tag.w("energy", dr.energy.mean)
        tag.w("variance", dr.energy.variance, tol=1e-7)
        tag.w("parameters", vs.parameters, tol=1e-6)
        tag.s("parameters synchronised", vs.parameters)
        tag.w("step count", dr.step_count)


def run(mon):
    mon.rule = ("case = (optimisation run, number of MPI ranks): the chains of scripted sample sets are dealt to the ranks; after every step the "
                "energy, variance and parameters of every rank are compared with each other (bit for bit) and with the one-process run.")
    mon.assumptions = ["equal numbers of chains per rank (NetKet's own rule)", "the size of a mini-batch is meant per rank",
                       "ranks communicate through shared memory on one host"]
    dist.drive(mon, "c30", cases(mon.thorough), (2, 3) if not mon.thorough else (2, 3, 4, 6))
    mon.require("equal-to-pooled", 1000)
    mon.require("identical-on-all-ranks", 200)
