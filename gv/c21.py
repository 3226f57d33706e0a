"""C21  The minSR driver: every step of recorded runs replayed by the sample-space formula."""
import warnings
import numpy as np
import jax
import jax.numpy as jnp
import netket as nk
from GPSKet.driver import minSRVMC
from . import vmc, zoo, steps
from .c17 import scripted

SHARDS = 8
warnings.simplefilter("ignore")


def ridge(A, b):
    return jnp.linalg.solve(A + 0.05 * jnp.eye(A.shape[0]), b)


QUICK = [
    # kind, model, L, sector, fast, dtype, options
    ("hubbard", "qgps", 4, (2, 1), True, jnp.complex128, dict(holomorphic=True, chunk=4)),
    ("heis", "qgps", 5, None, True, jnp.float64, dict(solver="ridge")),
    ("ising", "armp", 4, None, False, jnp.float64, dict(chunk=8)),
    ("ising", "ar", 4, None, False, jnp.complex128, dict(holomorphic=False, chunk=2, solver="ridge")),
    ("ising", "rbm", 4, None, False, jnp.complex128, dict(mode="holomorphic", solver="ridge", chunk=8)),
    ("hubbard", "qgps", 4, (2, 2), True, jnp.float64, dict(unique=True, chunk=4)),
    ("sparse", "slater", 3, (2, 1), False, jnp.complex128, dict(unique=True, holomorphic=True)),
    ("ising", "rbm", 4, None, False, jnp.complex128, dict(mode="complex", unique=True, chunk=2, solver="ridge")),
]


def one(mon, k, kind, name, L, ne, fast, dtype, o, nsteps):
    rng = mon.rng("c21", k)
    d0 = dict(op=kind, model=name, L=L, dtype=str(np.dtype(dtype)), **{a: str(b) for a, b in o.items()})
    with mon.guard("minsr-raises", **d0):
        P = vmc.problem(rng, kind, name, L=L, ne=ne, fast=fast, dtype=dtype)
        model, v = P["model"], P["v"]
        n, chains = 8, (2, 4)[k % 2]
        if k % 3 == 0:
            n = 16                                         # more samples than distinct configurations: singular kernel
        rest = {a: b for a, b in v.items() if a != "params"}
        uniq = o.get("unique", False)
        samp = vmc.samplable(P)(n_chains=chains)
        if uniq:
            vs = steps.RecordedUnique(samp, model, n_samples=n, variables=v, seed=5, max_sampling_steps=2, chunk_size=o.get("chunk"))
        else:
            vs = steps.RecordedMC(samp, model, n_samples=n, variables=v, seed=5, chunk_size=o.get("chunk"))
        kw = {a: o[a] for a in ("mode", "holomorphic") if a in o}
        if o.get("solver") == "ridge":
            kw["solver"] = ridge
        lr = 0.01
        dr = minSRVMC(P["op"], nk.optimizer.Sgd(lr), variational_state=vs, **kw)
        R = vmc.Real(v["params"])
        iscomplex = any(np.iscomplexobj(l) for l in R.leaves)
        hol = o.get("holomorphic", False) or o.get("mode") == "holomorphic"
        realout = not np.iscomplexobj(np.asarray(zoo.amplitudes(model, v, P["states"][:1])))
        mon.case("run", dict(d0, params=R.n, n=n), nontrivial=True)
        cfg = dict(d0, n=n, params=R.n)
        for t in range(nsteps):
            p0 = steps.copy_tree(vs.parameters)
            vv = {"params": jax.tree_util.tree_map(jnp.asarray, p0), **rest}
            vs.reset()
            vs.script = None
            if uniq and t % 2:
                vs.script = scripted(mon, rng, P, vv, n, vs.batch_size, chains, ("zipf", "one-heavy", "all-equal")[t % 3])[:2]
                if len(vs.script) < 2:
                    vs.script = vs.script * 2
            elif not uniq and t % 3 == 1:
                vs.script = [jnp.asarray(vmc.pick(rng, P, vv, n).reshape(chains, n // chains, L))]
            vs.draws = []
            if t == nsteps - 1:
                log = nk.logging.RuntimeLog()
                dr.run(1, out=log, show_progress=False)
            else:
                dr.advance(1)
            p1 = steps.copy_tree(vs.parameters)
            if uniq:
                xs, c = vs.last_set
            else:
                xs = vs.draws[-1][1].reshape(-1, L)
                c = np.full(len(xs), 1 / len(xs))
                mon.check("samples-drawn-at-current-parameters", np.array_equal(R.vec(vs.draws[-1][0]), R.vec(p0)), **cfg)
            E, sc = vmc.local(model, vv, P["row"], xs)
            O, _ = vmc.logder(model, vv, xs)
            d = dict(cfg, step=t)
            esc = 1 + np.mean(sc)
            mean = np.sum(c * E)
            mon.close("minsr-energy", (complex(dr.energy.mean) - mean) / esc, 0.0, atol=1e-8, rtol=0, **d)
            mon.close("minsr-variance", (float(np.real(dr.energy.variance)) - np.sum(c * abs(E - mean) ** 2)) / esc ** 2, 0.0, atol=1e-8, rtol=0, **d)
            if realout and not iscomplex:
                O = O.real
            Oc = (O - np.sum(c[:, None] * O, 0)) * np.sqrt(c)[:, None]
            if hol:
                Oc = np.concatenate([Oc[:, a:b] for q, part, a, b in R.slots if part == "re"], axis=1)
            eps = (E - mean) * np.sqrt(c)
            T = Oc @ np.conj(Oc).T
            if np.abs(T).max() < 1e-12 or np.abs(eps).max() < 1e-9 * esc:
                # all samples equal: a system of rounding noise; continue from the parameters before
                mon.seen("trivial-step")
                vs.parameters = jax.tree_util.tree_map(jnp.asarray, p0)
                continue
            if o.get("solver") == "ridge":
                sol = np.linalg.solve(T + 0.05 * np.eye(len(T)), eps)
                tol = 1e-6
            else:
                # minimum-norm solution with relative cut-off; only decided where no eigenvalue is near the cut-off
                ev, U = np.linalg.eigh(T)
                keep = ev > 1e-9 * ev[-1]
                gap = ev[(ev > 1e-14 * ev[-1]) & (ev < 1e-7 * ev[-1])]
                if len(gap):
                    mon.seen("eigenvalue-near-cut-off")
                    vs.parameters = jax.tree_util.tree_map(jnp.asarray, p0)
                    continue
                sol = U[:, keep] @ ((np.conj(U[:, keep]).T @ eps) / ev[keep])
                tol = 1e-7 + 1e-9 * ev[-1] / ev[keep][0]
            full = np.conj(Oc).T @ sol
            if hol:
                full_r = np.zeros(R.n)
                pos = 0
                for q, part, a, b in R.slots:
                    if part == "re":
                        full_r[a:b] = full[pos:pos + b - a].real
                    else:
                        full_r[a:b] = full[pos:pos + b - a].imag
                        pos += b - a
                want = full_r
            elif iscomplex:
                want = np.zeros(R.n)                       # re + i im with complex components
                for q, part, a, b in R.slots:
                    if part == "re":
                        im = slice(b, 2 * b - a)
                        z = full[a:b] + 1j * full[im]
                        want[a:b], want[im] = z.real, z.imag
            else:
                want = full.real
            got = steps.delta(R, p0, p1, lr)
            s = np.abs(want).max()
            mon.close("minsr-update", got / s, want / s, atol=max(tol, 1e-6), rtol=0, **d)
            mon.check("step-count", dr.step_count == t + 1, count=dr.step_count, **d)
            # parameter-space form where the system has one well-defined solution (complex or purely real log-derivatives)
            if (hol or (realout and not iscomplex)) and o.get("solver") != "ridge":
                S = np.conj(Oc).T @ Oc
                F = np.conj(Oc).T @ eps
                es, V = np.linalg.eigh(S)
                kp = es > 1e-9 * es[-1]
                alt = V[:, kp] @ ((np.conj(V[:, kp]).T @ F) / es[kp])
                alt = np.concatenate([np.concatenate([z.real, z.imag]) for z in leafwise(R, alt)]) if hol else alt.real
                mon.close("agrees-with-parameter-space", got / s, alt / s, atol=max(10 * tol, 1e-5), rtol=0, **d)


def leafwise(R, z):
    out, pos = [], 0
    for q, part, a, b in R.slots:
        if part == "re":
            out.append(z[pos:pos + b - a])
            pos += b - a
    return out


def run(mon):
    mon.rule = ("case = one minSR run (model, operator, mode, chunk size, solver, plain or collapsed samples); every step is replayed from the "
                "recorded samples and weights by explicit rows and finite-difference log-derivatives.")
    mon.assumptions = ["real parameters take the real part of the complex sample-space solution; real and imaginary parts of complex parameters "
                       "in 'complex' mode are recombined as re + i im (the driver's stated conversion)",
                       "default solver: steps with a kernel eigenvalue between 1e-14 and 1e-7 of the largest are not judged (cut-off 1e-12)"]
    for k, c in mon.mine(list(enumerate(QUICK))):
        if mon.time_left():
            one(mon, k, *c, nsteps=7)
    mon.require("minsr-update", 30)
    mon.require("agrees-with-parameter-space", 5)
    mon.require("minsr-energy", 40)
    if mon.thorough:
        more = [("dense", "slater_ms", 3, (2, 1), False, jnp.complex128, dict(holomorphic=True)),
                ("sparse", "sj", 3, (1, 1), True, jnp.complex128, dict(holomorphic=True, chunk=2)),
                ("hubbard", "jastrow", 4, (2, 2), False, jnp.float64, dict(solver="ridge", chunk=4)),
                ("heis", "qgps_sym", 6, None, True, jnp.complex128, dict(mode="complex", solver="ridge"))]
        for q in range(8):
            for k, c in mon.mine(list(enumerate(QUICK + more))):
                if mon.time_left():
                    one(mon, 100 * (q + 1) + k, *c, nsteps=10)
