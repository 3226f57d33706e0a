"""C27  Initialisers: shape, dtype, reproducibility, law of the parameters; fresh states are finite."""
import numpy as np
import scipy.stats as sps
import jax
import jax.numpy as jnp
import netket as nk
from netket.utils import HashableArray
import GPSKet as qk
import GPSKet.models as M
from GPSKet.nn import normal, orthogonal
from GPSKet.hilbert import FermionicDiscreteHilbert
from . import zoo

SHARDS = 4
P_MIN = 1e-11
REAL = [jnp.float32, jnp.float64, jnp.float16]
COMPLEX = [jnp.complex64, jnp.complex128]


def key_of(rng):
    s = int(rng.integers(1 << 31))
    return jax.random.PRNGKey(s)


def eps_of(dt):
    return {"float16": 2e-3, "float32": 2e-6, "complex64": 2e-6}.get(np.dtype(dt).name, 2e-6)


def call(mon, init, key, shape, dt, default, d):
    """Calls with the dtype given either explicitly or as the default of the factory."""
    a = init(key, shape) if default else init(key, shape, dt)
    mon.check("shape", a.shape == tuple(shape), got=a.shape, want=tuple(shape), **d)
    mon.check("dtype", a.dtype == np.dtype(dt), got=str(a.dtype), **d)
    x = np.asarray(a)
    mon.check("finite", bool(np.all(np.isfinite(x))), **d)
    b = np.asarray(init(key, shape) if default else init(key, shape, dt))
    mon.check("reproducible", np.array_equal(x, b), **d)
    return x


def law(mon, tag, x, cdf, scale, d):
    """Kolmogorov-Smirnov, first moments, tails and independence of neighbours; thresholds at p < 1e-11."""
    x = np.sort(x)
    p = sps.kstest(x, cdf).pvalue
    mon.check(tag + "-law", p > P_MIN, p=float(p), mean=float(x.mean()), std=float(x.std()), **d)


def normal_case(mon, k):
    rng = mon.rng("normal", k)
    cplx = bool(k % 2)
    dt = (COMPLEX if cplx else REAL)[int(rng.integers(2 if cplx else 3))]
    sigma = float(rng.choice([0.0, 1e-3, 0.01, 0.1, 0.3, 1.0, 1.4]))
    nd = int(rng.integers(0, 6))
    shape = tuple(int(q) for q in rng.integers(1, 7, nd))
    if k % 11 == 0:
        shape = shape + (0,)
    d = dict(initialiser="normal", dtype=np.dtype(dt).name, sigma=sigma, shape=shape)
    mon.case("normal", dict(d, k=k), nontrivial=len(shape) > 0)
    with mon.guard("normal-raises", **d):
        default = bool(rng.integers(2))
        init = normal(sigma, dtype=dt) if default else normal(sigma=sigma)
        key = key_of(rng)
        x = call(mon, init, key, shape, dt, default, d)
        j = np.asarray(jax.jit(lambda q: init(q, shape, dt))(key))
        mon.close("jit", j, x, rtol=10 * eps_of(dt), atol=10 * eps_of(dt), **d)
        if cplx:
            mon.close("unit-length", np.abs(x), np.ones(shape), rtol=0, atol=1e-6, **d)
        if sigma == 0:
            mon.check("no-spread", bool(np.all(x == 1)), **d)
        elif x.size > 3:
            y = np.asarray(init(key_of(rng), shape, dt))
            mon.check("keys-differ", not np.array_equal(x, y), **d)
            z = np.angle(x) if cplx else x
            mon.check("elements-differ", len(np.unique(z)) > 1, **d)
    # law on a large array
    big = tuple(int(q) for q in [(200, 100), (20000,), (4, 50, 100), (2, 10, 10, 10, 10)][int(rng.integers(4))])
    d["shape"] = big
    with mon.guard("normal-raises", **d):
        x = np.asarray(normal(sigma)(key_of(rng), big, dt)).astype(np.complex128 if cplx else np.float64)
        if sigma == 0:
            return
        if cplx:
            ph = np.angle(x).ravel()
            mon.close("unit-length", np.abs(x), np.ones(big), rtol=0, atol=1e-6, **d)
            cdf = lambda t: sum(sps.norm.cdf((t + 2 * np.pi * q) / sigma) - sps.norm.cdf((-np.pi + 2 * np.pi * q) / sigma) for q in range(-4, 5))
            law(mon, "normal-phase", ph, cdf, sigma, d)
            z = ph
        else:
            z = x.ravel() - 1
            if dt is not jnp.float16:           # half precision is too coarse for a continuous law
                law(mon, "normal-value", z, lambda t: sps.norm.cdf(t / sigma), sigma, d)
            n = z.size
            tol = 7 * sigma / np.sqrt(n) + (1e-3 if dt is jnp.float16 else 1e-6)
            mon.close("normal-mean", z.mean(), 0.0, rtol=0, atol=tol, **d)
            mon.close("normal-spread", z.std(), sigma, rtol=7 / np.sqrt(2 * n), atol=1e-3 if dt is jnp.float16 else 1e-6, **d)
        independent(mon, "normal", z.reshape(big), d)


def independent(mon, tag, z, d):
    """Neighbouring elements along every axis are uncorrelated (|r| sqrt(n) below 8)."""
    for ax in range(z.ndim):
        if z.shape[ax] < 2:
            continue
        a, b = np.take(z, range(z.shape[ax] - 1), ax).ravel(), np.take(z, range(1, z.shape[ax]), ax).ravel()
        r = float(np.corrcoef(a, b)[0, 1])
        mon.check(tag + "-independent", abs(r) * np.sqrt(a.size) < 8, r=r, n=a.size, axis=ax, **d)


def orthogonal_case(mon, k):
    rng = mon.rng("orthogonal", k)
    dt = [jnp.float32, jnp.float64, jnp.complex64, jnp.complex128][k % 4]
    scale = float(rng.choice([1.0, 1.0, 0.1, 2.5]))
    axis = int(rng.choice([-1, -1, -2]))
    shape = tuple(int(q) for q in (rng.integers(1, 5), rng.integers(1, 9), rng.integers(1, 9)))
    if k % 9 == 0:
        s = list(shape)
        s[int(rng.integers(3))] = 0
        shape = tuple(s)
    d = dict(initialiser="orthogonal", dtype=np.dtype(dt).name, scale=scale, column_axis=axis, shape=shape)
    mon.case("orthogonal", dict(d, k=k), nontrivial=min(shape) > 1)
    tol = 1e-5 if np.dtype(dt).name in ("float32", "complex64") else 1e-11
    with mon.guard("orthogonal-raises", **d):
        default = bool(rng.integers(2))
        init = orthogonal(scale, axis, dtype=dt) if default else orthogonal(scale=scale, column_axis=axis)
        key = key_of(rng)
        x = call(mon, init, key, shape, dt, default, d)
        if 0 in shape:
            return
        for i in range(shape[0]):
            W = x[i] if axis == -1 else x[i].T      # columns along the last axis
            G = W.conj().T @ W if W.shape[0] >= W.shape[1] else W @ W.conj().T
            mon.close("orthogonal-columns", G, scale ** 2 * np.eye(len(G)), rtol=0, atol=tol * scale ** 2, matrix=i, **d)
            for j in range(i):
                mon.check("matrices-differ", x[i].size == 1 or not np.array_equal(x[i], x[j]), **d)
        if x.size > 3:
            mon.check("keys-differ", not np.array_equal(x, np.asarray(init(key_of(rng), shape, dt))), **d)
    with mon.guard("orthogonal-raises", **d):
        # entries of many matrices: mean zero, mean square scale^2 / rows, complex phases uniform
        n, m = int(rng.integers(2, 6)), int(rng.integers(1, 3))
        if axis == -2:
            n, m = m, n
        x = np.asarray(orthogonal(scale, axis)(key_of(rng), (400, n, m), dt)) / scale
        big = max(n, m)
        N = 400
        mon.close("orthogonal-mean", x.mean(0), np.zeros((n, m)), rtol=0, atol=8 / np.sqrt(N * big), n=n, m=m, **d)
        mon.close("orthogonal-spread", (np.abs(x) ** 2).mean(0), np.full((n, m), 1 / big), rtol=0, atol=8 * np.sqrt(2 / N) / big, n=n, m=m, **d)
        if np.iscomplexobj(x):
            mon.close("orthogonal-phase", (x ** 2).mean(0), np.zeros((n, m)), rtol=0, atol=8 * np.sqrt(2 / N) / big, n=n, m=m, **d)
    for bad in ((3,), (2, 2), (2, 2, 2, 2), ()):
        try:
            orthogonal()(jax.random.PRNGKey(0), bad, dt)
            ok = False
        except ValueError:
            ok = True
        mon.check("orthogonal-needs-three-axes", ok, bad=bad, **d)


SPIN = ("qgps", "qgps_sym", "qgps_trans", "plaq", "plaq_sym", "arfull", "armpfull", "ar", "armp")
FERMI = ("qgps", "slater", "slater_ms", "slater_gen", "sj", "sg", "asymm", "asymmprod", "cpd", "jastrow")


def fresh_case(mon, name, fermi, k):
    """Fresh states with the models' default initialisers."""
    rng = mon.rng("fresh", k)
    d = dict(model=name, fermions=fermi)
    if fermi:
        L = int(rng.integers(3, 5))
        hi = FermionicDiscreteHilbert(L, n_elec=(int(rng.integers(1, L)), int(rng.integers(1, L))))
        real = False
    else:
        L = int(rng.integers(3, 6))
        hi = nk.hilbert.Spin(0.5, L) if k % 2 else nk.hilbert.Fock(2, L)
        if name == "qgps_sym":
            hi = nk.hilbert.Spin(0.5, L)
    dt = [jnp.float64, jnp.complex128][int(rng.integers(2))]
    d.update(L=L, dtype=np.dtype(dt).name)
    mon.case("fresh", dict(d, k=k), nontrivial=True)
    with mon.guard("fresh-raises", **d):
        kw = {} if fermi else {"spin_flip": True}
        m, _ = (zoo.fermion_model if fermi else zoo.spin_model)(name, hi, rng, dtype=dt, **kw)
        st = hi.all_states()
        seed = int(rng.integers(1 << 30))
        v = m.init(jax.random.PRNGKey(seed), jnp.asarray(st[:2]))
        w = m.init(jax.random.PRNGKey(seed), jnp.asarray(st[:2]))
        same = jax.tree_util.tree_map(lambda a, b: bool(jnp.array_equal(a, b)), v["params"], w["params"])
        mon.check("fresh-reproducible", all(jax.tree_util.tree_leaves(same)), **d)
        la = zoo.amplitudes(m, v, st)
        mon.check("fresh-finite", bool(np.all(np.isfinite(la.real) | (la.real == -np.inf)) and np.any(np.isfinite(la)) and not np.any(np.isnan(la))), **d)
        if name not in ("slater", "slater_ms", "slater_gen", "sj", "sg", "asymm", "asymmprod", "cpd"):
            mon.check("fresh-nowhere-vanishing", bool(np.all(np.isfinite(la))), **d)
        for path, p in jax.tree_util.tree_flatten_with_path(v["params"])[0]:
            pn = jax.tree_util.keystr(path)
            p = np.asarray(p)
            mon.check("fresh-dtype", np.iscomplexobj(p) == (np.dtype(dt).kind == "c") or name in ("armp", "armpfull"), parameter=pn, **d)
            if "epsilon" in pn and name in SPIN + ("cpd",):
                # identity state plus noise: modulus one for complex, around one with a narrow spread for real parameters
                if np.iscomplexobj(p):
                    mon.close("fresh-unit-length", np.abs(p), np.ones(p.shape), rtol=0, atol=1e-6, parameter=pn, **d)
                    r = np.angle(p)
                else:
                    r = p - 1
                mon.check("fresh-around-one", bool(np.max(np.abs(r)) < 0.8) and (r.size < 4 or np.std(r) > 1e-4), spread=float(np.std(r)), largest=float(np.abs(r).max()), parameter=pn, **d)


def identity_case(mon, name, k):
    """Without noise the qGPS-type models are the identity: equal amplitudes everywhere."""
    rng = mon.rng("identity", k)
    L = int(rng.integers(2, 6))
    hi = [nk.hilbert.Spin(0.5, L), nk.hilbert.Fock(2, L)][k % 2]
    dt = [jnp.float64, jnp.complex128][int(rng.integers(2))]
    mp = name in ("armp", "armpfull")
    dt = jnp.float64 if mp else dt
    Mn = int(rng.integers(1, 4))
    d = dict(model=name, L=L, M=Mn, dtype=np.dtype(dt).name, D=hi.local_size)
    mon.case("identity", dict(d, k=k), nontrivial=True)
    with mon.guard("identity-raises", **d):
        kw = dict(dtype=dt, init_fun=normal(0.0))
        pl = zoo.plaquettes(rng, L, min(2, L), L)
        m = {"qgps": lambda: M.qGPS(hi, Mn, **kw), "plaq": lambda: M.PlaquetteqGPS(hi, Mn, pl, **kw),
             "ar": lambda: M.ARqGPS(hi, Mn, **kw), "arfull": lambda: M.ARqGPSFull(hi, Mn, **kw),
             "armp": lambda: M.ARqGPSModPhase(hi, Mn, **kw), "armpfull": lambda: M.ARqGPSModPhaseFull(hi, Mn, **kw)}[name]()
        st = hi.all_states()
        v = m.init(jax.random.PRNGKey(k), jnp.asarray(st[:2]))
        la = zoo.amplitudes(m, v, st)
        mon.close("identity-flat", la, np.full(len(st), la[0]), rtol=1e-12, atol=1e-12, **d)
        want = {"qgps": Mn, "plaq": Mn * L}.get(name)
        if want is None:
            mon.close("identity-normalised", np.sum(np.exp(2 * la.real)), 1.0, rtol=1e-10, atol=0, **d)


def run(mon):
    mon.rule = ("case = (initialiser, width, dtype, shape, key) or (model with its default initialisers, Hilbert space, dtype, key); non-trivial = more than a scalar")
    mon.assumptions = ["complex parameters of the normal initialiser are computed in single precision: unit length to 1e-6",
                       "statistical bounds at p < 1e-11 or seven standard deviations and more"]
    n = 400 if mon.thorough else 44
    jobs = [(normal_case, k) for k in range(n)] + [(orthogonal_case, k) for k in range(n)]
    r = 6 if mon.thorough else 1
    for q in range(r):
        jobs += [(fresh_case, nm, False, 100 * q + i + q) for i, nm in enumerate(SPIN)] + [(fresh_case, nm, True, 5000 + 100 * q + i) for i, nm in enumerate(FERMI)]
        jobs += [(identity_case, nm, 100 * q + i + q) for i, nm in enumerate(("qgps", "plaq", "ar", "arfull", "armp", "armpfull"))]
    order = mon.rng("order").permutation(len(jobs))
    for i in mon.mine(list(order)):
        if mon.time_left():
            jobs[i][0](mon, *jobs[i][1:])
    for kind, m in (("normal-value-law", 4), ("normal-phase-law", 4), ("unit-length", 10), ("reproducible", 40), ("orthogonal-columns", 40), ("orthogonal-spread", 20),
                    ("fresh-finite", 10), ("fresh-around-one", 5), ("identity-flat", 4)):
        mon.require(kind, m)
