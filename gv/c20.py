"""C20  The SR-RMSProp driver: every step of recorded runs replayed by a reference update."""
import warnings
import numpy as np
import jax
import jax.numpy as jnp
import netket as nk
from GPSKet.driver import VMC_SRRMSProp
from . import vmc, zoo, steps
from .c19 import weighted_cov

SHARDS = 8
warnings.simplefilter("ignore")


def exact(A, b):
    return jnp.linalg.solve(A, b)


def exact_info(A, b):
    return jnp.linalg.solve(A, b), {"info": 0}


class Replay:
    """Reference state of the driver: running average and step counter."""
    def __init__(self, n, decay, eps, shift, scale):
        self.ema = np.full(n, float(scale))
        self.t, self.decay, self.eps, self.shift = 0, decay, eps, shift

    def step(self, O, E, mode):
        N = len(E)
        Oc = O - O.mean(0)
        Ec = E - E.mean()
        if mode == "real":
            Oc, Ec = Oc.real, Ec.real
        g = 2 * N * np.sum((np.conj(Oc) * Ec[:, None]).real, 0)       # N^2 times twice the covariance
        S = N * (np.conj(Oc).T @ Oc).real
        self.ema = self.decay * self.ema + (1 - self.decay) * g ** 2
        hat = self.ema / (1 - self.decay ** (self.t + 1))
        sh = self.shift(self.t) if callable(self.shift) else self.shift
        A = S + sh * np.diag(np.sqrt(hat) + self.eps)
        self.t += 1
        return g, A


QUICK = [
    # kind, model, L, sector, fast, dtype, options
    ("hubbard", "qgps", 4, (2, 1), True, jnp.complex128, dict(decay=0.9, eps=1e-8, shift=0.1)),
    ("heis", "qgps", 5, None, True, jnp.float64, dict(decay=0.5, eps=1e-3, shift=0.3)),
    ("ising", "armp", 4, None, False, jnp.float64, dict(decay=0.99, eps=1e-8, shift="schedule")),
    ("ising", "ar", 4, None, False, jnp.complex128, dict(decay=0.3, eps=0.5, shift=1.0, scale=2.0)),
    ("ising", "rbm", 4, None, False, jnp.complex128, dict(decay=0.9, eps=1e-6, shift=0.2, solver="cg")),
    ("dense", "slater", 3, (2, 1), True, jnp.complex128, dict(decay=0.8, eps=1e-4, shift="schedule", solver="info")),
    ("sparse", "qgps", 3, (1, 2), False, jnp.float64, dict(decay=0.0, eps=1e-2, shift=0.2)),
    ("heis-plain", "plaq", 4, None, False, jnp.complex128, dict(decay=0.7, eps=1e-5, shift=0.05, mode="complex", chunk=4)),
]


def script(rng, P, v, n, chains, style):
    if style == "frozen":                                   # every chain stuck on one configuration: no gradient at all
        x = np.repeat(vmc.pick(rng, P, v, 1), n, 0)
    else:
        x = vmc.pick(rng, P, v, n)
    return jnp.asarray(x.reshape(chains, n // chains, -1))


def one(mon, k, kind, name, L, ne, fast, dtype, o, nsteps):
    rng = mon.rng("c20", k)
    d0 = dict(op=kind, model=name, L=L, **{a: str(b) for a, b in o.items()})
    with mon.guard("driver-raises", **d0):
        P = vmc.problem(rng, kind, name, L=L, ne=ne, fast=fast, dtype=dtype)
        model, v = P["model"], P["v"]
        n, chains = 16, (2, 4)[k % 2]
        vs = steps.RecordedMC(vmc.samplable(P)(n_chains=chains), model, n_samples=n, variables=v, seed=5, chunk_size=o.get("chunk"))
        shift = (lambda t: 0.4 / (1 + t)) if o["shift"] == "schedule" else o["shift"]
        kw = dict(diag_shift=shift, decay=o["decay"], eps=o["eps"])
        if "scale" in o:
            kw["initial_scale"] = o["scale"]
        sol = o.get("solver", "exact")
        if sol != "cg":
            kw["linear_solver_fn"] = exact if sol == "exact" else exact_info
        if "mode" in o:
            kw["jacobian_mode"] = o["mode"]
        lr = 0.02
        dr = VMC_SRRMSProp(P["op"], nk.optimizer.Sgd(lr), variational_state=vs, **kw)
        R = vmc.Real(v["params"])
        rest = {a: b for a, b in v.items() if a != "params"}
        realout = not np.iscomplexobj(np.asarray(zoo.amplitudes(model, v, P["states"][:1])))
        mode = "real" if realout and not any(np.iscomplexobj(l) for l in R.leaves) else "complex"
        rep = Replay(R.n, o["decay"], o["eps"], shift, o.get("scale", 0.0))
        mon.case("run", dict(d0, params=R.n, mode=mode), nontrivial=True)
        patterns = ["advance", "run1", "advance", "query", "run2", "advance", "iter", "frozen", "advance", "reset", "advance", "run2"]
        done = 0
        while done < nsteps:
            pat = patterns[done % len(patterns)]
            if pat == "reset":
                dr.reset()
                mon.check("reset-restarts-the-count", dr.step_count == 0, count=dr.step_count, **d0)
                rep = Replay(R.n, o["decay"], o["eps"], shift, o.get("scale", 0.0))
            nst = 2 if pat == "run2" else 1
            traj = [steps.copy_tree(vs.parameters)]
            sets, energies = [], []
            if pat == "frozen":
                vs.reset()
                vs.script = [script(rng, P, {"params": traj[0], **rest}, n, chains, "frozen")]
            elif rng.integers(0, 2):
                vs.reset()
                vs.script = [script(rng, P, {"params": traj[0], **rest}, n, chains, "mixed")] if nst == 1 else None
            vs.draws = []

            def record(step, log, driver):
                energies.append(driver.energy)
                sets.append(vs.draws[-1])
                vs.draws = []
                traj.append(None)
                return True
            if pat in ("run1", "run2"):
                log = nk.logging.RuntimeLog()
                # the callback runs after the gradient was computed and before the parameters are updated
                dr.run(nst, out=log, callback=record, show_progress=False)
                mon.check("run-makes-the-requested-steps", len(sets) == nst, made=len(sets), want=nst, **d0)
                data = np.asarray(log.data["Energy"]["Mean"])
                mon.check("logged-energy-is-reported-energy", len(data) == nst and np.allclose(data, [complex(e.mean) for e in energies], atol=1e-9), **d0)
            elif pat == "iter":
                for _ in dr.iter(1):
                    record(None, None, dr)
                # the generator yields before the update of its step is applied to the parameters
            else:
                dr.advance(1)
                energies.append(dr.energy)
                sets.append(vs.draws[-1])
            final = steps.copy_tree(vs.parameters)
            # parameters at the draws are the parameters of the steps
            ps = [s[0] for s in sets] + [final]
            mon.check("samples-drawn-at-current-parameters", np.array_equal(R.vec(ps[0]), R.vec(traj[0])), pattern=pat, **d0)
            for i in range(len(sets)):
                p0, xs = sets[i]
                xs = xs.reshape(-1, L)
                vv = {"params": jax.tree_util.tree_map(jnp.asarray, p0), **rest}
                E, sc = vmc.local(model, vv, P["row"], xs)
                O, _ = vmc.logder(model, vv, xs)
                esc = 1 + np.mean(sc)
                d = dict(d0, pattern=pat, step=rep.t)
                mon.close("reported-energy", (complex(energies[i].mean) - E.mean()) / esc, 0.0, atol=1e-8, rtol=0, **d)
                g, A = rep.step(O, E, mode)
                x = steps.delta(R, ps[i], ps[i + 1], lr)
                gn = max(np.abs(g).max(), 1e-300)
                if np.abs(g).max() < 1e-8 * n * n * esc:
                    mon.check("no-gradient-no-update", np.abs(x).max() < 1e-6, update=np.abs(x).max(), **d)
                    mon.seen("vanishing-gradient")
                    continue
                if sol == "cg":
                    mon.close("step-residual", (A @ x - g) / np.linalg.norm(g), np.zeros(R.n), atol=1e-3, rtol=0, **d)
                else:
                    want = np.linalg.solve(A, g)
                    cond = np.linalg.cond(A)
                    if cond > 1e9:
                        mon.seen("ill-conditioned-step")
                        continue
                    mon.close("step-update", x / np.abs(want).max(), want / np.abs(want).max(), atol=1e-6 + 1e-11 * cond, rtol=0, cond=cond, **d)
            mon.check("step-count", dr.step_count == rep.t, count=dr.step_count, want=rep.t, **d0)
            if pat == "query":
                # looking at the driver or the state in between has no effect on the following updates (decided by the replay)
                dr.energy, repr(dr), vs.expect(P["op"]), dr.estimate(P["op"])
            done += nst


def run(mon):
    mon.rule = ("case = one optimisation run (model, operator, hyperparameters, solver) mixing single steps, runs, generators, queries and "
                "resets; every step is replayed from the recorded samples by explicit rows, finite-difference log-derivatives and a "
                "reference running average.")
    mon.assumptions = ["gradient and matrix carry the driver's common factor N^2; it cancels in the update except against eps and initial_scale",
                       "steps with condition number above 1e9 and the default iterative solver are judged by residual only"]
    for k, c in mon.mine(list(enumerate(QUICK))):
        if mon.time_left():
            one(mon, k, *c, nsteps=12)
    mon.require("step-update", 40)
    mon.require("step-residual", 6)
    mon.require("reported-energy", 60)
    mon.require("vanishing-gradient", 3)
    if mon.thorough:
        more = [("dense", "slater_ms", 3, (2, 1), False, jnp.complex128, dict(decay=0.9, eps=1e-4, shift=0.2)),
                ("sparse", "sj", 3, (1, 1), True, jnp.complex128, dict(decay=0.6, eps=1e-3, shift="schedule")),
                ("hubbard", "jastrow", 4, (2, 2), False, jnp.float64, dict(decay=0.9, eps=1e-6, shift=0.1, solver="cg")),
                ("heis", "qgps_sym", 6, None, True, jnp.complex128, dict(decay=0.2, eps=1e-3, shift=0.4))]
        for q in range(8):
            for k, c in mon.mine(list(enumerate(QUICK + more))):
                if mon.time_left():
                    one(mon, 100 * (q + 1) + k, *c, nsteps=24)
