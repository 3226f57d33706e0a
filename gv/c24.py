"""C24  Imaginary-time steps: every propagated amplitude against (1 - tau H) psi built from reference rows; the state watched."""
import warnings
import numpy as np
import jax
import jax.numpy as jnp
import netket as nk
from GPSKet.supervised.imag_time_step import ImagTimeStep, get_imag_time_step_vstate
from . import vmc, zoo, stats, steps

SHARDS = 8
warnings.simplefilter("ignore")


def amp(x):
    return np.exp(np.asarray(x, dtype=complex))


def watched(vs):
    """Everything of a state an observer can see without drawing new samples."""
    return dict(parameters=steps.copy_tree(vs.parameters), model_state=steps.copy_tree(vs.model_state),
                samples=None if vs._samples is None else np.array(vs._samples), n_samples=vs.n_samples, chunk_size=vs.chunk_size,
                sampler_state=steps.copy_tree(jax.tree_util.tree_leaves(jax.tree_util.tree_map(
                    lambda k: jax.random.key_data(k) if jax.dtypes.issubdtype(getattr(k, "dtype", np.float64), jax.dtypes.prng_key) else k, vs.sampler_state))))


def same(mon, kind, a, b, **d):
    for k in a:
        if a["samples"] is None and k in ("samples", "sampler_state"):
            continue                        # a state without samples draws them whenever it is asked to
        x, y = jax.tree_util.tree_leaves(a[k]), jax.tree_util.tree_leaves(b[k])
        ok = len(x) == len(y) and all(np.array_equal(np.asarray(p), np.asarray(q)) for p, q in zip(x, y)) and (a[k] is None) == (b[k] is None)
        mon.check(kind, ok, what=k, **d)


def full_space(P):
    S = P["states"]
    idx = {tuple(s.tolist()): i for i, s in enumerate(S)}
    H = np.zeros((len(S),) * 2, complex)
    for s in S:
        for c, m in P["row"](s).items():
            H[idx[tuple(s.tolist())], idx[c]] += m
    return H, idx


class Failing(nk.operator.DiscreteOperator):
    """An operator whose evaluation fails."""
    dtype = float

    def get_conn_padded(self, x):
        raise RuntimeError("no connected configurations")

    def get_conn_flattened(self, x, sections, pad=False):
        raise RuntimeError("no connected configurations")

    @property
    def max_conn_size(self):
        return 1


def setup(rng, kind, name, dtype, L, ne, fast, chunk, exact=False):
    P = vmc.problem(rng, kind, name, L=L, ne=ne, dtype=dtype, fast=fast)
    if exact:
        vs = nk.vqs.MCState(nk.sampler.ExactSampler(P["hi"]), P["model"], n_samples=3000, variables=P["v"], seed=int(rng.integers(1 << 30)), chunk_size=chunk)
    else:
        vs = nk.vqs.MCState(vmc.samplable(P)(n_chains=2), P["model"], n_samples=2 * (chunk or 4), variables=P["v"], seed=int(rng.integers(1 << 30)), chunk_size=chunk)
    return P, vs


def close_amp(mon, kind, got, want, scale, **d):
    got, want = np.asarray(got), np.asarray(want)
    if not mon.check(kind + "-count", got.shape == want.shape, got=got.shape, want=want.shape, **d):
        return
    tol = 1e-9 * (np.abs(scale) + 1e-3 * np.abs(scale).max())
    bad = ~(np.abs(got - want) <= tol)
    mon.check(kind, not bad.any(), got_=got[bad][:3], want_=want[bad][:3], **d)


STEP = [
    # kind, model, dtype, L, (n_up, n_dn), fast, chunk
    ("hubbard", "qgps", jnp.complex128, 4, (2, 2), True, None),
    ("heis", "qgps", jnp.float64, 4, None, True, 2),
    ("dense", "slater", jnp.float64, 3, (2, 1), True, None),
    ("ising", "qgps", jnp.complex128, 4, None, False, None),
    ("sparse", "qgps", jnp.complex128, 3, (1, 2), False, 2),
    ("hubbard-plain", "slater", jnp.complex128, 4, (1, 2), True, 4),
    ("heis-plain", "qgps", jnp.float64, 5, None, True, None),
    ("hubbard", "slater", jnp.float64, 3, (1, 1), False, 3),
]


def direct(mon, k, kind, name, dtype, L, ne, fast, chunk):
    rng = mon.rng("c24direct", k)
    d0 = dict(operator=kind, model=name, dtype=str(np.dtype(dtype)), L=L, fast=fast, chunk_size=chunk)
    with mon.guard("step-raises", **d0):
        P, vs = setup(rng, kind, name, dtype, L, ne, fast, chunk)
        it = ImagTimeStep(vs, P["op"])
        for q in range(4 if not mon.thorough else 12):
            n = 12
            if q % 4 != 2:                  # otherwise the very same array once more, after the state has changed
                xs = vmc.pick(rng, P, P["v"] if q == 0 else dict(P["v"], params=vs.parameters), n)
                shaped = xs if q % 2 == 0 else xs.reshape((2, n // 2, -1))
                arg = np.array(shaped)
                arg = jnp.asarray(arg) if q % 4 == 1 else arg
            v = {"params": vs.parameters, **vs.model_state}
            E, sc = vmc.local(P["model"], v, P["row"], xs)
            base = amp(zoo.amplitudes(P["model"], v, xs))
            # sign-changing, sign-preserving, trivial and random steps
            tau = [0.01, 2.0 / max(1e-3, float(np.max(np.abs(E)))), float(rng.uniform(0.1, 5)), 0.0][q % 4]
            if q == 1:
                vs.sample()                 # there are samples to be kept
            mon.case("direct", dict(d0, tau=tau, have_samples=vs._samples is not None), nontrivial=tau != 0)
            before = watched(vs)
            got = amp(it.log_imag_time_step(tau, arg))
            close_amp(mon, "propagated-amplitudes", got.ravel(), base * (1 - tau * E), np.abs(base) * (1 + tau * sc), tau=tau, **d0)
            same(mon, "state-unchanged-by-step", before, watched(vs), tau=tau, **d0)
            mon.check("samples-argument-unchanged", np.array_equal(arg, shaped), **d0)
            mon.extra["sign-changing amplitudes"] = mon.extra.get("sign-changing amplitudes", 0) + int(np.sum((1 - tau * E).real < 0))
            if q % 4 == 1:
                # the step follows the state it was created for
                vs.parameters = jax.tree_util.tree_map(lambda a: a * 0.9 + 0.05, vs.parameters)
        vs.sample()
        before = watched(vs)
        failed = False
        try:
            ImagTimeStep(vs, Failing(P["hi"])).log_imag_time_step(0.1, jnp.asarray(xs))
        except Exception:
            failed = True
        mon.case("failing", d0, nontrivial=failed)
        same(mon, "state-unchanged-by-failure", before, watched(vs), **d0)


STATES = [
    # kind, model, dtype, L, ne, fast, chunk, nesting
    ("hubbard", "qgps", jnp.complex128, 3, (1, 1), True, None, 2),
    ("heis", "qgps", jnp.float64, 4, None, True, None, 2),
    ("hubbard", "qgps", jnp.float64, 3, (2, 1), False, 3, 2),
    ("dense", "qgps", jnp.complex128, 3, (1, 2), False, None, 1),
    ("heis", "qgps", jnp.complex128, 3, None, False, 2, 3),
    ("sparse", "slater", jnp.float64, 3, (2, 2), True, None, 1),
    ("hubbard", "qgps", jnp.float64, 2, (1, 1), True, 2, 1),
    ("heis", "qgps", jnp.float64, 5, None, True, 5, 1),
]

DEEP = [
    ("hubbard", "qgps", jnp.float64, 2, (1, 1), True, 2, 3),
    ("hubbard", "slater", jnp.float64, 3, (2, 1), False, 3, 2),
    ("heis", "qgps", jnp.complex128, 4, None, False, 2, 3),
]


def state(mon, k, kind, name, dtype, L, ne, fast, chunk, depth):
    rng = mon.rng("c24state", k)
    d0 = dict(operator=kind, model=name, dtype=str(np.dtype(dtype)), L=L, fast=fast, chunk_size=chunk, nesting=depth)
    with mon.guard("propagated-state-raises", **d0):
        P, vs = setup(rng, kind, name, dtype, L, ne, fast, chunk, exact=k % 2 == 0)
        H, idx = full_space(P)
        hn = np.linalg.norm(H, 2)
        S = P["states"]
        def psi(v):
            return amp(zoo.amplitudes(P["model"], v, S))
        states, taus = [vs], []
        vs.sample()
        before0 = watched(vs)
        for j in range(depth):
            tau = float(rng.uniform(0.3, 3.0) / hn)
            taus.append(tau)
            before = [watched(s) for s in states]
            states.append(get_imag_time_step_vstate(tau, P["op"], states[-1]))
            for s, b in zip(states, before):
                same(mon, "state-unchanged-by-propagation", b, watched(s), level=j, **d0)

        def want(v, upto):
            w, scale = psi(v), np.abs(psi(v))
            for t in taus[:upto]:
                w, scale = w - t * H @ w, scale + t * np.abs(H) @ scale
            return w, scale
        mon.case("state", dict(d0, taus=taus), nontrivial=True)
        for j in range(1, depth + 1):
            w, scale = want(P["v"], j)
            n = len(S) + (-len(S)) % (chunk or 1)
            xs = np.concatenate([S, S[:1].repeat(n - len(S), 0)])
            got = amp(states[j].log_value(jnp.asarray(xs)))[:len(S)]
            close_amp(mon, "propagated-state", got, w, scale, level=j, taus=taus, **d0)
        new = states[-1]
        same(mon, "state-unchanged-by-evaluation", before0, watched(vs), **d0)
        # a change of the parameters propagates the changed state, and only that
        p2 = jax.tree_util.tree_map(lambda a: a * 0.9 + 0.07, new.parameters)
        n1 = states[1]
        n1.parameters = p2
        w, scale = want({"params": p2, **{a: b for a, b in P["v"].items() if a != "params"}}, 1)
        got = amp(n1.log_value(jnp.asarray(xs)))[:len(S)]
        close_amp(mon, "propagated-state-after-update", got, w, scale, taus=taus, **d0)
        same(mon, "state-unchanged-by-update", before0, watched(vs), **d0)
        if k % 2 == 0:
            n1.parameters = vs.parameters
            w, scale = want(P["v"], 1)
            x = np.asarray(n1.samples).reshape((-1, L))
            cnt = np.zeros(len(S))
            for c in x:
                cnt[idx[tuple(c.tolist())]] += 1
            pr = np.abs(w) ** 2
            stats.fits(mon, "propagated-state-samples", cnt, pr / pr.sum(), **d0)
            if np.all(np.abs(w[cnt > 0]) > 1e-6 * np.abs(w).max()):
                e = (H @ w) / np.where(w == 0, 1, w)
                ref = np.sum(cnt * e) / cnt.sum()
                if chunk is None or len(x) % chunk == 0:
                    got = complex(n1.expect(P["op"]).mean)
                    mon.close("energy-of-propagated-state", got, ref, rtol=1e-8, atol=1e-8 * float(np.max(np.abs(e[cnt > 0]))), **d0)


def run(mon):
    mon.rule = ("case = one imaginary-time step (operator, ansatz, dtype, chunking, tau, shape of the samples) or one propagated state "
                "(nesting depth, distinct taus); all amplitudes compared with (1 - tau H) psi from reference rows; everything observable of the "
                "original state compared before and after, also when the evaluation fails.")
    mon.assumptions = ["one MPI process", "propagated states: Hamiltonians evaluated on the fly, as documented"]
    for k, c in mon.mine(list(enumerate(STEP))):
        if mon.time_left():
            direct(mon, k, *c)
    for k, c in mon.mine(list(enumerate(STATES))):
        if mon.time_left():
            state(mon, k, *c)
    mon.require("propagated-amplitudes", 16)
    mon.require("propagated-state", 6)
    mon.require("state-unchanged-by-failure", 8)
    if mon.thorough:
        for k, c in mon.mine(list(enumerate(DEEP))):
            state(mon, 50 + k, *c)
        for q in range(1, 8):
            for k, c in mon.mine(list(enumerate(STEP))):
                if mon.time_left():
                    direct(mon, 100 * q + k, *c)
            for k, c in mon.mine(list(enumerate(STATES))):
                if mon.time_left():
                    state(mon, 100 * q + k, *c)
