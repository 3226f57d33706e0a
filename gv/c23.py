"""C23  State fitting: loss and gradient of every step identified with a mini-batch of the dataset and replayed by a reference."""
import itertools
import warnings
import numpy as np
import jax
import jax.numpy as jnp
import netket as nk
from GPSKet.driver import ARStateFitting
from . import vmc, zoo, stats, steps

SHARDS = 8
warnings.simplefilter("ignore")


def make(rng, name, L, dtype, hi=None):
    hi = nk.hilbert.Spin(0.5, N=L) if hi is None else hi
    model, pf = zoo.spin_model(name, hi, rng, fast=False, dtype=dtype)
    states = np.asarray(hi.all_states())
    v = zoo.variables(model, int(rng.integers(1 << 30)), states[:1], pf)
    vs = nk.vqs.MCState(nk.sampler.MetropolisLocal(hi, n_chains=2), model, n_samples=4, variables=v, seed=1)
    return hi, model, pf, states, v, vs


def per_sample(model, v, x, y):
    """Losses of the samples and their gradients by the real parameter vector: d|psi - y|^2 = 2 Re(conj(psi - y) psi O)."""
    amp = np.asarray(zoo.amplitudes(model, v, x))
    psi = np.exp(amp)
    O, R = vmc.logder(model, v, x)
    r = psi - y
    return np.abs(r) ** 2, 2 * (np.conj(r)[:, None] * psi[:, None] * O).real, R


QUICK = [
    # model, L, dtype, dataset size, batch, style of the targets
    ("ar", 3, jnp.complex128, 7, 3, "complex"),
    ("armp", 3, jnp.float64, 8, 8, "complex"),
    ("ar", 4, jnp.complex128, 9, 1, "spread"),
    ("armp", 4, jnp.float64, 6, 2, "spread"),
    ("arfull", 3, jnp.complex128, 7, 5, "complex"),
    ("ar", 3, jnp.float64, 8, 4, "real"),
    ("armpfull", 3, jnp.float64, 8, 2, "duplicates"),
    ("arfull", 4, jnp.float64, 10, 10, "real"),
]


def targets(rng, m, style):
    y = rng.normal(size=m)
    if style != "real":
        y = y * np.exp(1j * rng.uniform(-np.pi, np.pi, m))
    if style == "spread":
        y = y / np.abs(y) * np.linspace(0.15, 1.2, m)
    return y / np.sqrt(np.sum(np.abs(y) ** 2))


def one(mon, k, name, L, dtype, m, B, style, nsteps):
    rng = mon.rng("c23", k)
    d0 = dict(model=name, L=L, dtype=str(np.dtype(dtype)), dataset=m, batch=B, style=style)
    with mon.guard("fitting-raises", **d0):
        hi, model, pf, states, v, vs = make(rng, name, L, dtype)
        sel = rng.integers(0, len(states), m) if style == "duplicates" else rng.permutation(len(states))[:m]
        x, y = states[sel].copy(), targets(rng, m, style)
        x0, y0 = x.copy(), y.copy()
        ham = nk.operator.Ising(hi, nk.graph.Chain(L), h=1.0)
        lr = 0.05
        seed = int(rng.integers(1 << 30))
        dr = ARStateFitting((x, y), ham, nk.optimizer.Sgd(lr), variational_state=vs, mini_batch_size=B, seed=seed)
        rest = {a: b for a, b in v.items() if a != "params"}
        subsets = np.array(list(itertools.combinations(range(m), B)))
        mon.case("fit", dict(d0, subsets=len(subsets)), nontrivial=True)
        chosen, first = [], []
        start = steps.copy_tree(vs.parameters)
        for t in range(nsteps):
            if t == nsteps // 2:
                # a reset with a fixed seed repeats the sequence of mini-batches from the start
                dr.reset()
                mon.check("reset-restarts-the-count", dr.step_count == 0, **d0)
                vs.parameters = jax.tree_util.tree_map(jnp.asarray, start)
                first, chosen = chosen, []
            p0 = steps.copy_tree(vs.parameters)
            if t % 3 == 2:
                log = nk.logging.RuntimeLog()
                dr.run(1, out=log, show_progress=False)
                logged = np.asarray(log.data["Loss"]["value"] if "value" in log.data["Loss"] else log.data["Loss"]["Mean"])[0] if "Loss" in log.data else None
                if logged is not None:
                    mon.close("logged-loss", logged, float(dr.loss), rtol=1e-9, atol=1e-12, **d0)
            else:
                dr.advance(1)
            p1 = steps.copy_tree(vs.parameters)
            vv = {"params": jax.tree_util.tree_map(jnp.asarray, p0), **rest}
            l, g, R = per_sample(model, vv, x0, y0)
            d = dict(d0, step=t)
            means = l[subsets].mean(1)
            gm = g[subsets].mean(1)
            loss = float(np.real(dr.loss))
            x1 = (R.vec(p0) - R.vec(p1)) / lr
            err = np.abs(means - loss) / (1e-3 + means) + np.abs(gm - x1).max(1) / (1e-3 + np.abs(g).max())
            best = int(np.argmin(err))
            mon.check("loss-is-that-of-a-mini-batch", abs(means[best] - loss) <= 1e-8 * (1 + means[best]), loss=loss, nearest=means[best], of=len(subsets), **d)
            mon.close("update-is-gradient-of-that-loss", x1, gm[best], atol=1e-7 * (1 + np.abs(g).max()), rtol=0, **d)
            chosen.append(tuple(subsets[best]))
            mon.check("step-count", dr.step_count == len(chosen), count=dr.step_count, **d)
            mon.check("dataset-unchanged", np.array_equal(x, x0) and np.array_equal(y, y0), **d)
        if first:
            mon.check("reset-repeats-mini-batches", first[:len(chosen)] == chosen[:len(first)] or style == "duplicates", first=first[:4], second=chosen[:4], **d0)
        if len(subsets) > 1 and len(first) >= 8:
            mon.check("mini-batches-vary", len(set(first)) > 1, **d0)
        mon.extra["distinct mini-batches"] = mon.extra.get("distinct mini-batches", 0) + len(set(first + chosen))
        vs.expect(ham), repr(dr)


def law(mon, k, B, n):
    """Without learning the mini-batch of every step is identified by its loss: membership follows the squared targets."""
    rng = mon.rng("c23law", k)
    with mon.guard("fitting-raises", kind="law"):
        L, m = 4, 5
        hi, model, pf, states, v, vs = make(rng, "armp", L, jnp.float64)
        x = states[rng.permutation(len(states))[:m]]
        y = np.sqrt(np.array([0.4, 0.25, 0.18, 0.12, 0.05])[rng.permutation(m)]) * np.exp(1j * rng.uniform(-3, 3, m))
        ham = nk.operator.Ising(hi, nk.graph.Chain(L), h=1.0)
        dr = ARStateFitting((x, y), ham, nk.optimizer.Sgd(0.0), variational_state=vs, mini_batch_size=B, seed=int(rng.integers(1 << 30)))
        l = np.abs(np.exp(np.asarray(zoo.amplitudes(model, v, x))) - y) ** 2
        subs = list(itertools.combinations(range(m), B))
        means = np.array([l[list(s)].mean() for s in subs])
        p = np.abs(y) ** 2
        p /= p.sum()
        # successive draws without replacement, each proportional to the remaining weights
        prob = []
        for s in subs:
            tot = 0.0
            for o in itertools.permutations(s):
                q, rem = 1.0, 1.0
                for i in o:
                    q *= p[i] / rem
                    rem -= p[i]
                tot += q
            prob.append(tot)
        cnt = np.zeros(len(subs))
        for t in range(n):
            dr.advance(1)
            cnt[int(np.argmin(np.abs(means - float(dr.loss))))] += 1
        mon.case("law", dict(batch=B, steps=n), nontrivial=True)
        stats.fits(mon, "mini-batch-law", cnt, np.array(prob), got_=cnt, batch=B)


def run(mon):
    mon.rule = ("case = one fit (ansatz, dtype, dataset, mini-batch size); at every step the reported loss and the parameter update identify "
                "the mini-batch among all subsets of the dataset and are compared with the explicit loss and its gradient.")
    mon.assumptions = ["one MPI process", "mini-batches are drawn without replacement with the squared target amplitudes as weights"]
    for k, c in mon.mine(list(enumerate(QUICK))):
        if mon.time_left():
            one(mon, k, *c, nsteps=20 if not mon.thorough else 40)
    for k, (B, n) in mon.mine(list(enumerate([(1, 600), (2, 600), (3, 600)]))):
        if mon.time_left():
            law(mon, k, B, n if not mon.thorough else 5 * n)
    mon.require("loss-is-that-of-a-mini-batch", 100)
    mon.require("update-is-gradient-of-that-loss", 100)
    mon.require("mini-batch-law", 2)
    if mon.thorough:
        for q in range(10):
            for k, c in mon.mine(list(enumerate(QUICK))):
                if mon.time_left():
                    one(mon, 100 * (q + 1) + k, *c, nsteps=40)
