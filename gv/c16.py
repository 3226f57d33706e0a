"""C16  Expectation values, their error statistics and energy gradients against explicit estimators over recorded samples."""
import numpy as np
import jax
import jax.numpy as jnp
import netket as nk
from . import vmc, zoo

SHARDS = 8

QUICK = [
    # kind, model, L, sector, fast, dtype
    ("hubbard", "qgps", 4, (2, 1), True, jnp.complex128),
    ("hubbard", "sj", 4, (2, 2), True, jnp.complex128),
    ("hubbard", "slater", 4, (2, 1), True, jnp.float64),
    ("hubbard-plain", "qgps_sym", 4, (1, 2), False, jnp.float64),
    ("dense", "qgps", 4, (2, 2), True, jnp.float64),
    ("dense", "slater_ms", 3, (2, 1), False, jnp.complex128),
    ("dense", "cpd_u", 3, (1, 2), True, jnp.complex128),
    ("sparse", "qgps", 4, (2, 2), False, jnp.complex128),
    ("sparse", "sg", 3, (1, 1), True, jnp.complex128),
    ("sparse", "bfj", 3, (1, 1), False, jnp.complex128),
    ("heis", "qgps_sym", 6, None, True, jnp.complex128),
    ("heis", "plaq", 5, None, True, jnp.float64),
    ("heis", "qgps_trans", 6, None, False, jnp.float64),
    ("heis-plain", "ar", 4, None, False, jnp.complex128),
    ("ising", "rbm", 4, None, False, jnp.complex128),
    ("ising", "armp", 4, None, False, jnp.float64),
]
MORE = [
    ("dense", "asymm", 4, (2, 2), True, jnp.complex128), ("sparse", "asymmprod", 4, (2, 1), False, jnp.complex128),
    ("hubbard", "backflow_u", 3, (1, 2), True, jnp.complex128), ("hubbard", "slater_s2", 4, (2, 2), True, jnp.complex128),
    ("sparse", "slater_gen", 4, (1, 2), True, jnp.float64), ("heis", "plaq_sym", 6, None, True, jnp.complex128),
    ("heis", "qgps", 7, None, False, jnp.complex128), ("dense", "jastrow", 4, (2, 2), False, jnp.float64),
    ("hubbard", "qgps", 5, (3, 2), False, jnp.float64), ("dense", "cpd_gen", 3, (1, 1), False, jnp.float64),
]


def stats_ref(E, n_chains):
    """Mean, variance and (for several chains) the standard error from the spread of the chain means."""
    mean = E.mean()
    var = np.mean(np.abs(E - mean) ** 2)
    err = None
    if n_chains > 1:
        cm = E.reshape(n_chains, -1).mean(1)
        err = np.sqrt(np.mean(np.abs(cm - mean) ** 2) / n_chains)
    return mean, var, err


def one(mon, k, kind, name, L, ne, fast, dtype, reps):
    rng = mon.rng("c16", k)
    ctx = dict(op=kind, model=name, L=L, sector=ne, fast=fast, dtype=str(np.dtype(dtype)))
    with mon.guard("expectation-raises", **ctx):
        P = vmc.problem(rng, kind, name, L=L, ne=ne, fast=fast, dtype=dtype)
        model, op = P["model"], P["op"]
        vs = None
        n = 24
        for r in range(reps):
            v = zoo.variables(model, int(rng.integers(1 << 30)), P["states"][:1], P["pf"])
            if vs is None:
                vs = zoo.make_vstate(model, P["hi"], v, n_samples=n)
            else:
                vs.parameters = v["params"]
            xs = vmc.pick(rng, P, v, n)
            if r == 0 and rng.integers(0, 2):
                xs[1:4] = xs[0]                      # repeated configurations
            chains = [(1, 2, 4, 8)[k % 4]] if r == 0 or not mon.thorough else [(1, 4)[r % 2]]
            E, sc = vmc.local(model, v, P["row"], xs)
            O, R = vmc.logder(model, v, xs)
            w = np.full(n, 1.0 / n)
            gref, F = vmc.grad_reference(O, R, E, w)
            escale = 1 + np.mean(sc)
            gscale = escale * (1 + np.max(np.abs(O)))
            mon.case("expectation", dict(ctx, r=r, chains=chains, params=R.n), nontrivial=len({tuple(x) for x in xs.tolist()}) > 1)
            for c in chains:
                chunks = [None, (6, 1, n, 8, 2 * n)[k % 5]] if r == 0 else [None]
                first = None
                for ch in chunks:
                    vs.chunk_size = None
                    vs.chunk_size = ch
                    vs._samples = jnp.asarray(xs.reshape(c, n // c, L))
                    d = dict(ctx, chunk=ch, chains=c, r=r)
                    mean, var, err = stats_ref(E, c)
                    st = vs.expect(op)
                    mon.close("expect-mean", (complex(st.mean) - mean) / escale, 0.0, atol=1e-8, rtol=0, **d)
                    mon.close("expect-variance", (float(st.variance) - var) / escale ** 2, 0.0, atol=1e-8, rtol=0, **d)
                    want = nk.stats.statistics(jnp.asarray(E.reshape(c, -1)))
                    for fld in ("error_of_mean", "R_hat"):
                        a, b = float(getattr(st, fld)), float(getattr(want, fld))
                        okv = (np.isnan(a) and np.isnan(b)) or abs(a - b) <= 1e-6 * (escale if fld == "error_of_mean" else 1 + abs(b))
                        if fld == "R_hat" and var < 1e-12 * escale ** 2:
                            continue             # a ratio of two vanishing variances
                        mon.check("expect-" + fld, okv, got=a, want=b, **d)
                    if err is not None and c >= 4 and np.isfinite(float(want.error_of_mean)):
                        mon.close("expect-error-from-chains", (float(st.error_of_mean) - err) / escale, 0.0, atol=1e-7, rtol=0, **d)
                    mon.check("samples-kept", np.array_equal(np.asarray(vs._samples), xs.reshape(c, n // c, L)), **d)
                    st2, g = vs.expect_and_grad(op)
                    mon.close("grad-energy", (complex(st2.mean) - mean) / escale, 0.0, atol=1e-8, rtol=0, **d)
                    mon.check("grad-structure", jax.tree_util.tree_structure(g) == jax.tree_util.tree_structure(vs.parameters)
                              and all(a.shape == b.shape and a.dtype == b.dtype for a, b in
                                      zip(jax.tree_util.tree_leaves(g), jax.tree_util.tree_leaves(vs.parameters))), **d)
                    for a, b in zip(jax.tree_util.tree_leaves(g), jax.tree_util.tree_leaves(gref)):
                        mon.close("energy-gradient", (np.asarray(a) - b) / gscale, np.zeros_like(b), atol=2e-7, rtol=0, **d)
            if r == 0:
                vs.chunk_size = None
                vs._samples = jnp.asarray(xs.reshape(2, n // 2, L))
                st3, f = vs.expect_and_forces(op)
                for a, b in zip(jax.tree_util.tree_leaves(f), jax.tree_util.tree_leaves(gref)):
                    b = b / 2
                    a = np.asarray(a) if np.iscomplexobj(b) else np.asarray(a).real
                    mon.close("forces", (a - b) / gscale, np.zeros_like(b), atol=2e-7, rtol=0, **ctx)
                mon.close("forces-energy", (complex(st3.mean) - E.mean()) / escale, 0.0, atol=1e-8, rtol=0, **ctx)
                le = np.asarray(vs.local_estimators(op)).reshape(-1)
                mon.close("local-estimators", (le - E) / (1 + sc), np.zeros(n), atol=1e-8, rtol=0, **ctx)


def run(mon):
    mon.rule = ("case = (operator kind, ansatz, dtype, random parameters and couplings, sample set with repetitions, number of chains, "
                "chunk size); non-trivial = at least two distinct configurations. Reported statistics and gradients are compared with "
                "estimators built from explicit reference rows and finite-difference log-derivatives.")
    mon.assumptions = ["amplitudes come from the model's plain evaluation (decided by C09/C10/C12)",
                       "error_of_mean and R_hat are NetKet's statistics of the reference local energies; with four or more chains the "
                       "error is also compared with the spread of the chain means",
                       "configurations with |psi| below e^-6 of the largest amplitude are not sampled (ill-conditioned ratio)"]
    for k, c in mon.mine(list(enumerate(QUICK))):
        if mon.time_left():
            one(mon, k, *c, reps=2)
    mon.require("expect-mean", 40)
    mon.require("energy-gradient", 60)
    mon.require("forces", 10)
    if mon.thorough:
        for k, c in mon.mine(list(enumerate(MORE))):
            if mon.time_left():
                one(mon, 100 + k, *c, reps=3)
        for q in range(12):
            for k, c in mon.mine(list(enumerate(QUICK + MORE))):
                if mon.time_left():
                    one(mon, 1000 * (q + 1) + k, *c, reps=3)
