"""Construction of the real models under test with randomised parameters, plus symmetries with known group action."""
import numpy as np
import jax
import jax.numpy as jnp
import netket as nk
from typing import Any
import flax.linen as nn
from netket.utils import HashableArray
import GPSKet as qk
from GPSKet.hilbert import FermionicDiscreteHilbert
from GPSKet.models import *          # noqa
import GPSKet.models as M


def randomise(rng, params, scale=0.5, complex_ok=True, offset=0.0):
    """Random O(1) parameters of the same structure and dtype (default initial values are too close to trivial)."""
    def f(p):
        p = np.asarray(p)
        v = offset + scale * rng.normal(size=p.shape)
        if np.iscomplexobj(p):
            v = v + 1j * scale * rng.normal(size=p.shape)
        return jnp.asarray(v.astype(p.dtype))
    return jax.tree_util.tree_map(f, params)


def gps_params(rng, params, spread=0.35):
    """Parameters scattered around one, bounded away from zero (the regime in which fast updates are defined)."""
    def f(p):
        p = np.asarray(p)
        r = 1.0 + spread * (2 * rng.random(p.shape) - 1)
        if np.iscomplexobj(p):
            r = r * np.exp(1j * rng.uniform(-0.7, 0.7, p.shape))
        elif True:
            r = r
        return jnp.asarray(r.astype(p.dtype))
    return jax.tree_util.tree_map(f, params)


def variables(model, key, x, paramfun=None):
    v = model.init(jax.random.PRNGKey(key), jnp.asarray(x))
    v = dict(v)
    if paramfun is not None and "params" in v:
        v["params"] = paramfun(v["params"])
    return v


def split_vars(v):
    state = {k: w for k, w in v.items() if k not in ("params", "intermediates_cache", "cache")}
    return v["params"], state


def make_vstate(model, hi, v, sampler=None, n_samples=16, seed=0, **kw):
    sampler = sampler or nk.sampler.MetropolisLocal(hi, n_chains=2)
    vs = nk.vqs.MCState(sampler, model, n_samples=n_samples, variables=v, seed=seed, **kw)
    return vs


# ---- symmetry groups acting on sites --------------------------------------------------
def translations(L):
    return np.array([[(i + s) % L for i in range(L)] for s in range(L)])


def sym_pair(perms, spin_flip=False):
    """(symmetries, inverse) in the layout documented for the qGPS models: for every group element g the transformed
    configuration is x[perm_g]; a change of site i appears at the positions j with perm_g[j] = i."""
    perms = np.asarray(perms)
    syms = jnp.asarray(perms.T)                    # (L, T)
    inv = np.zeros_like(perms.T)
    for t in range(perms.shape[0]):
        for j in range(perms.shape[1]):
            inv[perms[t, j], t] = j
    inv = jnp.asarray(inv)

    def symmetries(x):
        return jnp.take(x, syms, axis=-1)

    def inverse(occ, idx):
        return jnp.tile(jnp.expand_dims(occ, -1), inv.shape[1]), inv[idx]

    return symmetries, inverse


def site_perm_sym(perms):
    """Symmetry function for first-quantised electron positions: y -> perm_g[y] (last axis: group elements)."""
    table = jnp.asarray(np.asarray(perms))         # (T, L)

    def f(y):
        return jnp.moveaxis(table[:, y], 0, -1)
    return f


# ---- fermionic models ------------------------------------------------------------------
class OrbCorr(nn.Module):
    """A configuration dependent orbital correction obeying the interface Backflow documents for correction_fun."""
    hilbert: Any
    shape: tuple                     # (rows, N)
    nsym: int = 1

    @nn.compact
    def __call__(self, x, cache_intermediates=False, update_sites=None):
        rows, N = self.shape
        L = self.hilbert.size
        W = self.param("W", jax.nn.initializers.normal(0.3), (L, 4, rows, N, self.nsym), jnp.complex128)
        if cache_intermediates or update_sites is not None:
            save = self.variable("intermediates_cache", "conf", lambda: None)
        if update_sites is not None:
            def upd(c, s, o):
                return jax.lax.scan(lambda a, k: (a.at[s[k]].set(o[k]), None), c, jnp.arange(s.shape[0]), reverse=True)[0]
            x = jax.vmap(upd)(save.value, update_sites, x.astype(save.value.dtype))
        if cache_intermediates:
            save.value = x
        xi = jnp.asarray(x, jnp.int32)
        return jnp.sum(W[jnp.arange(L)[None, :], xi], axis=1)         # (B, rows, N, T)


FERMION = ("qgps", "qgps_sym", "slater", "slater_ms", "slater_gen", "slater_s2", "slater_on", "sj", "sg", "asymm",
           "asymm_proj", "asymmprod", "backflow", "backflow_u", "backflow_gen", "bfj", "cpd", "cpd_u", "cpd_gen", "jastrow")


def fermion_model(name, hi, rng, fast=True, dtype=jnp.complex128, perms=None):
    """(model, paramfun).  Amplitudes are bounded away from degenerate for random parameters."""
    L = hi.size
    gps = lambda p: gps_params(rng, p)
    orb = lambda p: randomise(rng, p, 0.7)
    ident = np.arange(L)[None, :]
    P = ident if perms is None else np.asarray(perms)
    kw = dict(apply_fast_update=fast, dtype=dtype)
    if name in ("qgps", "qgps_sym"):
        if name == "qgps":
            return M.qGPS(hi, int(rng.integers(1, 4)), **kw), gps
        return M.qGPS(hi, 2, syms=sym_pair(P), **kw), gps
    if name == "jastrow":
        return M.Jastrow(hi, dtype=dtype), lambda p: randomise(rng, p, 0.2)
    nu, nd = hi._n_elec if not callable(hi._n_elec) else hi._n_elec()
    N = nu + nd
    sy = site_perm_sym(P)
    if name == "slater":
        return M.Slater(hi, **kw), orb
    if name == "slater_ms":
        return M.Slater(hi, n_determinants=int(rng.integers(2, 4)), symmetries=sy, **kw), orb
    if name == "slater_on":
        return M.Slater(hi, constant_time_updates=False, n_determinants=2, symmetries=sy, **kw), orb
    if name == "slater_gen":
        return M.Slater(hi, fixed_magnetization=False, **kw), orb
    if name == "slater_s2":
        ang = np.array([0.3, 1.2, 2.2])
        return M.Slater(hi, S2_projection=(HashableArray(ang), HashableArray(np.array([0.5, -0.7, 1.1]))), **kw), orb
    if name == "sj":
        return M.SlaterJastrow(hi, spin_symmetry_by_structure=(nu == nd), **kw), lambda p: randomise(rng, p, 0.4)
    if name == "sg":
        f = lambda p: {k: (gps_params(rng, v) if "GPS" in k else randomise(rng, v, 0.7)) for k, v in p.items()}
        return M.SlaterqGPS(hi, M=2, spin_symmetry_by_structure=(nu == nd), qGPS_apply_symmetries=sym_pair(P), **kw), f
    if name == "asymm":
        return M.ASymmqGPS(hi, n_determinants=2, coeffs=HashableArray(np.array([0.7, -0.4])), apply_symmetries=sy, **kw), lambda p: randomise(rng, p, 0.4)
    if name == "asymm_proj":
        return M.ASymmqGPS(hi, n_determinants=3, symmetrization="projective", apply_symmetries=sy, **kw), lambda p: randomise(rng, p, 0.4)
    if name == "asymmprod":
        return M.ASymmqGPSProd(hi, n_determinants=3, apply_symmetries=sy, **kw), lambda p: randomise(rng, p, 0.6)
    if name.startswith("backflow"):
        same = name == "backflow" and nu == nd
        fm = name != "backflow_gen"
        shape = (L, nu if same else N) if fm else (2 * L, N)
        o = HashableArray(rng.normal(size=shape))
        return M.Backflow(hi, OrbCorr(hi, shape, len(P)), orbitals=None if name == "backflow_u" else o, apply_symmetries=sy,
                          apply_fast_update=fast, spin_symmetry_by_structure=same, fixed_magnetization=fm), orb
    if name == "bfj":
        same = nu == nd
        shape = (L, nu if same else N)
        o = tuple(HashableArray(rng.normal(size=shape)) for _ in range(2))
        f = lambda p: {k: randomise(rng, v, 0.2 if "Jastrow" in k else 0.6) for k, v in p.items()}
        return M.BackflowJastrow(hi, o, (OrbCorr(hi, shape), OrbCorr(hi, shape)), apply_fast_update=fast,
                                 spin_symmetry_by_structure=same), f
    if name.startswith("cpd"):
        r = name == "cpd" and nu == nd
        return M.CPDBackflow(hi, 2, restricted=r, fixed_magnetization=name != "cpd_gen", **kw), lambda p: cpd_params(rng, p)
    raise KeyError(name)


def cpd_params(rng, params):
    """Orbital values of order one: product over sites of factors in [0.6, 1.4] times a sign."""
    def f(p):
        p = np.asarray(p)
        r = rng.uniform(0.6, 1.4, p.shape) * rng.choice([-1.0, 1.0], p.shape)
        if np.iscomplexobj(p):
            r = r * np.exp(1j * rng.uniform(-0.5, 0.5, p.shape))
        return jnp.asarray(r.astype(p.dtype))
    return jax.tree_util.tree_map(f, params)


def is_fast(model):
    return bool(getattr(model, "apply_fast_update", False))


def amplitudes(model, v, states, pad=None):
    """Plain (full) evaluation of the log-amplitudes of many configurations (chunked, fixed shapes)."""
    states = np.asarray(states)
    n = len(states)
    B = min(256, n) if pad is None else pad
    out = []
    key = ("amp", id(model), B)
    f = _jit(model)
    for s in range(0, n, B):
        blk = states[s:s + B]
        k = len(blk)
        if k < B:
            blk = np.concatenate([blk, np.repeat(blk[:1], B - k, 0)])
        out.append(np.asarray(f(v, jnp.asarray(blk)))[:k])
    return np.concatenate(out)


_JIT = {}


def _jit(model):
    if id(model) not in _JIT:
        _JIT[id(model)] = (model, jax.jit(lambda v, x: model.apply(v, x)))
    return _JIT[id(model)][1]


def local_energies(vs, op, x, chunk_size=None):
    """Local estimators the real variational state reports for exactly the configurations x."""
    x = jnp.asarray(x)
    vs._samples = x.reshape((1,) + x.shape) if x.ndim == 2 else x
    if chunk_size is None:
        return np.asarray(vs.local_estimators(op)).reshape(-1)
    return np.asarray(vs.local_estimators(op, chunk_size=chunk_size)).reshape(-1)


# ---- spin models -------------------------------------------------------------------------
SPIN = ("qgps", "qgps_sym", "qgps_trans", "plaq", "plaq_sym", "arfull", "armpfull", "ar", "armp", "rbm")


def plaquettes(rng, L, width, n):
    return HashableArray(np.array([rng.permutation(L)[:width] for _ in range(n)]))


def spin_model(name, hi, rng, fast=True, dtype=jnp.complex128, graph=None, spin_flip=True):
    L = hi.size
    graph = graph or nk.graph.Chain(L)
    gps = lambda p: gps_params(rng, p)
    kw = dict(apply_fast_update=fast, dtype=dtype)
    M_ = int(rng.integers(1, 4))
    if name == "qgps":
        return M.qGPS(hi, M_, **kw), gps
    if name == "qgps_sym":
        return M.qGPS(hi, M_, syms=M.get_sym_transformation_spin(graph, True, spin_flip), **kw), gps
    if name == "qgps_trans":
        return M.qGPS(hi, M_, syms=sym_pair(translations(L)), **kw), gps
    if name == "plaq":
        return M.PlaquetteqGPS(hi, M_, plaquettes(rng, L, min(3, L), L), **kw), gps
    if name == "plaq_sym":
        return M.PlaquetteqGPS(hi, M_, plaquettes(rng, L, min(3, L), 2), syms=sym_pair(translations(L)), **kw), gps
    real = lambda p: randomise(rng, p, 0.5, offset=1.0)
    if name == "arfull":
        return M.ARqGPSFull(hi, M_, dtype=dtype, apply_fast_update=fast), real
    if name == "armpfull":
        return M.ARqGPSModPhaseFull(hi, M_, dtype=jnp.float64, apply_fast_update=fast), real
    if name == "ar":
        return M.ARqGPS(hi, M_, dtype=dtype), real
    if name == "armp":
        return M.ARqGPSModPhase(hi, M_, dtype=jnp.float64), real
    if name == "rbm":
        return nk.models.RBM(alpha=1, param_dtype=jnp.complex128), lambda p: randomise(rng, p, 0.3)
    raise KeyError(name)
