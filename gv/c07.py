"""C07  Fast updates of GPS-type models: every value read from the cache equals the plain evaluation, along any history."""
import numpy as np
import jax
import jax.numpy as jnp
import netket as nk
from netket.utils import HashableArray
import GPSKet.models as M
from GPSKet.hilbert import FermionicDiscreteHilbert
from . import zoo, ref, histories as H
from .c02 import spin_states

SHARDS = 5


def full_sym(L, flip):
    """Symmetries in the layout of the autoregressive models (acting on the configurations themselves)."""
    s, i = zoo.sym_pair(zoo.translations(L))
    if not flip:
        return (s, i)

    def sym(x):
        o = s(x)
        return jnp.concatenate((o, -o), axis=-1)

    def inv(occ, idx):
        o, k = i(occ, idx)
        return jnp.concatenate((o, -o), axis=-1), jnp.concatenate((k, k), axis=-1)
    return (sym, inv)


def build(rng, name):
    """(hilbert, model, params, x0, proposal, dtypes)"""
    gps = lambda p: zoo.gps_params(rng, p)
    near = lambda p: zoo.randomise(rng, p, 0.3, offset=1.0)
    B = int(rng.integers(1, 5))
    L = int(rng.integers(2, 9))
    dt = [jnp.complex128, jnp.float64][int(rng.integers(0, 3) == 0)]
    Md = int(rng.integers(1, 4))
    kind = int(rng.integers(0, 5))
    if name in ("qgps", "plaq"):
        if kind == 0:
            hi, vals = nk.hilbert.Spin(0.5, L), [-1.0, 1.0]
        elif kind == 1:
            hi, vals = nk.hilbert.Fock(2, L), [0, 1, 2]
        elif kind == 2:
            hi, vals = nk.hilbert.Spin(1, L), [-2.0, 0.0, 2.0]
        elif kind == 3:
            hi, vals = nk.hilbert.Spin(0.5, L, inverted_ordering=False), [-1.0, 1.0]
        else:
            hi, vals = FermionicDiscreteHilbert(L), [0, 1, 2, 3]
        two = len(vals) == 2
        r = int(rng.integers(0, 4))
        if r == 0:
            syms = None
        elif r == 1 and two and L >= 3:
            syms = M.get_sym_transformation_spin(nk.graph.Chain(L), True, True)
        elif r == 2 and two:
            syms = M.get_sym_transformation_spin(nk.graph.Chain(L), False, True)
        else:
            syms = zoo.sym_pair(zoo.translations(L))
        kw = dict(dtype=dt, apply_fast_update=True)
        if syms is not None:
            kw["syms"] = syms
        if name == "qgps":
            if rng.integers(0, 3) == 0:
                kw["out_transformation"] = lambda a: jnp.log(jnp.sum(a.astype(complex), axis=(-2, -1)))
            model = M.qGPS(hi, Md, **kw)
        else:
            w = int(rng.integers(1, L + 1))
            model = M.PlaquetteqGPS(hi, Md, zoo.plaquettes(rng, L, w, int(rng.integers(1, 4))), **kw)
        x0 = rng.choice(vals, (B, L))
        prop = H.spin_flips(np.array(vals)) if rng.integers(0, 3) else H.exchanges
        dts = [np.float64, np.int8] if kind != 4 else [np.uint8, np.float64, np.int64]
        desc = dict(model=name, L=L, M=Md, space=kind, sym=r, B=B, dtype=str(np.dtype(dt)))
        return model, gps, x0, prop, dts[int(rng.integers(0, len(dts)))], desc
    # autoregressive models
    constrained = bool(rng.integers(0, 2))
    if constrained:
        L += L % 2
        hi = nk.hilbert.Spin(0.5, L, total_sz=0)
        x0 = spin_states(rng, L, 0, B)
        prop = H.exchanges
    else:
        hi = nk.hilbert.Spin(0.5, L)
        x0 = rng.choice([-1.0, 1.0], (B, L))
        prop = H.spin_flips(np.array([-1.0, 1.0])) if rng.integers(0, 2) else H.exchanges
    kw = {}
    r = int(rng.integers(0, 3))
    if r:
        kw["apply_symmetries"] = full_sym(L, r == 2)
    if name == "arfull":
        model = M.ARqGPSFull(hi, Md, dtype=dt, apply_fast_update=True, **kw)
    else:
        model = M.ARqGPSModPhaseFull(hi, Md, dtype=jnp.float64, apply_fast_update=True, **kw)
    return model, near, x0, prop, np.float64, dict(model=name, L=L, M=Md, constrained=constrained, sym=r, B=B, dtype=str(np.dtype(dt)))


def one(mon, k, name):
    rng = mon.rng("c07", k, name)
    model, pf, x0, prop, dt, desc = build(rng, name)
    steps = 40 if mon.thorough else 22
    with mon.guard(f"{name}-fast-update-raises", **desc):
        run = H.Runner(model)
        for rep in range(2):
            v = zoo.variables(model, int(rng.integers(1 << 30)), x0.astype(dt), pf)
            mon.case("history", dict(desc, rep=rep, xdtype=str(np.dtype(dt))))
            n = H.drive(mon, name, run, v, x0, prop, rng, steps, tol=1e-8, ctx=desc, dtype=dt)
            mon.seen("cached-updates", n)


def per_site_M(mon, k):
    """Site-dependent support dimensions: plain evaluation and cached evaluation must agree as well."""
    rng = mon.rng("c07m", k)
    L, B = int(rng.integers(2, 6)), 3
    hi = nk.hilbert.Spin(0.5, L)
    Ms = HashableArray(rng.integers(1, 4, L))
    x0 = rng.choice([-1.0, 1.0], (B, L))
    model = M.ARqGPSFull(hi, Ms, apply_fast_update=True)
    desc = dict(model="arfull-persite", L=L)
    with mon.guard("arfull-persite-fast-update-raises", **desc):
        v = zoo.variables(model, k, x0, lambda p: zoo.randomise(rng, p, 0.3, offset=1.0))
        mon.case("history", dict(desc, M=np.asarray(Ms).tolist()))
        mon.seen("cached-updates", H.drive(mon, "arfull-persite", H.Runner(model), v, x0, H.spin_flips(np.array([-1.0, 1.0])), rng, 12, tol=1e-8, ctx=desc))


def run(mon):
    mon.rule = ("case = history of cached updates (1-4 listed sites each, with no-ops, repeated sites and partial acceptance) of a batch "
                "of configurations of one model; non-trivial = all; every cached value is compared with plain evaluation")
    mon.assumptions = ["parameters bounded away from zero (the division in the update is undefined otherwise)",
                       "a repeatedly listed site carries its change in the first entry; repeats restate the previous occupation"]
    names = ["qgps", "plaq", "arfull", "armpfull"]
    n = 400 if mon.thorough else 10
    jobs = [(k, nm) for k in range(n) for nm in names] + [(k, "persite") for k in range(3 if not mon.thorough else 30)]
    if not mon.thorough:
        jobs += [(k, "qgps") for k in range(10, 22)] + [(k, "plaq") for k in range(10, 18)]
    for k, nm in mon.mine(jobs):
        if not mon.time_left():
            break
        per_site_M(mon, k) if nm == "persite" else one(mon, k, nm)
    mon.require("cached-updates", 300)
    for nm in names:
        mon.require(f"{nm}-update", 50)
        mon.require(f"{nm}-lookahead", 50)
