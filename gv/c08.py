"""C08  Fast updates of determinant models: every value read from the cache equals the plain evaluation, along any history."""
import numpy as np
import jax.numpy as jnp
from GPSKet.hilbert import FermionicDiscreteHilbert
from . import zoo, ref, histories as H

SHARDS = 8
NAMES = ["slater", "slater_ms", "slater_gen", "slater_s2", "slater_on", "sj", "sg", "asymm", "asymm_proj", "asymmprod",
         "backflow", "backflow_u", "backflow_gen", "bfj", "cpd", "cpd_u", "cpd_gen"]


def sample(rng, L, ne, B):
    x = np.zeros((B, L), dtype=np.uint8)
    for k in range(B):
        x[k, rng.permutation(L)[: ne[0]]] += 1
        x[k, rng.permutation(L)[: ne[1]]] += 2
    return x


def one(mon, k, name):
    rng = mon.rng("c08", k, name)
    L = int(rng.integers(2, 7)) if k % 4 else int(rng.integers(7, 11))
    ne = (int(rng.integers(1, L + 1)), int(rng.integers(1, L + 1)))
    if name in ("slater_s2",) or rng.integers(0, 3) == 0:
        ne = (ne[0], ne[0])
    hi = FermionicDiscreteHilbert(L, n_elec=ne)
    B = int(rng.integers(1, 5))
    sym = bool(rng.integers(0, 2)) and name not in ("asymm", "asymm_proj", "asymmprod")
    dt = jnp.float64 if (name.startswith("slater") or name == "cpd") and rng.integers(0, 3) == 0 else jnp.complex128
    desc = dict(model=name, L=L, n_elec=ne, B=B, sym=sym, dtype=str(np.dtype(dt)))
    with mon.guard(f"{name}-fast-update-raises", **desc):
        model, pf = zoo.fermion_model(name, hi, rng, fast=True, dtype=dt, perms=zoo.translations(L) if sym and L <= 6 else None)
        pool = sample(rng, L, ne, 64)
        xdt = [np.uint8, np.int64, np.float64][int(rng.integers(0, 3))]
        run = H.Runner(model)
        for rep in range(2):
            v = zoo.variables(model, int(rng.integers(1 << 30)), pool[:1].astype(xdt), pf)
            amp = zoo.amplitudes(model, v, pool.astype(xdt), pad=64)
            if not np.isfinite(amp).any():
                continue
            top = np.max(amp.real[np.isfinite(amp)])
            start = pool[np.isfinite(amp) & (amp.real > top - 6)]
            x0 = start[rng.integers(0, len(start), B)]
            mon.case("history", dict(desc, rep=rep, xdtype=str(np.dtype(xdt))), nontrivial=0 < min(ne) and (ne[0] < L or ne[1] < L))
            # only well-conditioned configurations are entered: the low-rank update of a nearly singular matrix loses digits
            n = H.drive(mon, name, run, v, x0, H.fermion_moves, rng, 30 if mon.thorough else 14, tol=2e-6, ctx=desc, floor=top - 6, dtype=xdt)
            mon.seen("cached-updates", n)


def run(mon):
    mon.rule = ("case = history of cached updates (hops, double hops, site exchanges, no-ops, repeated sites, partial acceptance) of a batch "
                "of configurations of one model; non-trivial = some electron can move; every cached value is compared with plain evaluation")
    mon.assumptions = ["histories only enter configurations whose amplitude is within e^-6 of the largest seen (low-rank updates of nearly "
                       "singular matrices are not required to be exact); at least one electron per spin"]
    n = 200 if mon.thorough else 3
    for k, nm in mon.mine([(k, nm) for k in range(n) for nm in NAMES]):
        if not mon.time_left():
            break
        one(mon, k, nm)
    mon.require("cached-updates", 200)
    for nm in NAMES:
        mon.require(f"{nm}-update", 5)
