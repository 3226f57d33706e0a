"""C10  Fermionic amplitudes == determinants / Pfaffians / correlation factors of the occupied orbitals."""
import numpy as np
import jax
import jax.numpy as jnp
from netket.utils import HashableArray
import GPSKet.models as M
from GPSKet.models import pfaffian as pf
from GPSKet.hilbert import FermionicDiscreteHilbert
from . import zoo, ref

SHARDS = 8


# ---- references (explicit numpy) ------------------------------------------------------------
def electrons(x):
    x = [int(v) for v in x]
    return [i for i, v in enumerate(x) if v & 1], [i for i, v in enumerate(x) if v & 2]


def det(rows):
    a = np.array(rows, dtype=complex)
    return 1.0 + 0j if a.shape[0] == 0 else np.linalg.det(a)


def ud_det(Uu, Ud, up, dn, perm):
    return det([Uu[perm[i]] for i in up]) * det([Ud[perm[i]] for i in dn])


def gen_det(U, L, up, dn, perm):
    return det([U[perm[i]] for i in up] + [U[L + perm[i]] for i in dn])


def rot_det(Uu, Ud, L, up, dn, perm, a):
    """Orbitals rotated about the y axis in spin space by the angle a."""
    c, s = np.cos(a / 2), np.sin(a / 2)
    nu, nd = Uu.shape[1], Ud.shape[1]
    rows = []
    for i in up:
        rows.append(list(c * Uu[perm[i]]) + list(-s * Ud[perm[i]]))
    for i in dn:
        rows.append(list(s * Uu[perm[i]]) + list(c * Ud[perm[i]]))
    return det(np.array(rows).reshape(nu + nd, nu + nd))


def pfaffian(A):
    n = len(A)
    if n == 0:
        return 1.0 + 0j
    tot = 0j
    for j in range(1, n):
        keep = [k for k in range(1, n) if k != j]
        tot += (-1) ** (j - 1) * A[0][j] * pfaffian([[A[a][b] for b in keep] for a in keep])
    return tot


def jastrow(K, x, perms):
    K = np.asarray(K)
    tot = 0.0
    for p in perms:
        y = [int(x[j]) for j in p]
        for i in range(len(y)):
            for j in range(len(y)):
                tot = tot + (1 - (y[i] & 1)) * (K[i, j] + K[j, i]) * (1 - ((y[j] >> 1) & 1))
    return tot


def gps(eps, x, perms):
    tot = 0.0
    for p in perms:
        for m in range(eps.shape[1]):
            pr = 1.0
            for i, j in enumerate(p):
                pr = pr * eps[int(x[j]), m, i]
            tot = tot + pr
    return tot


def cpd_orbitals(eps, x, env):
    rows, N, _, Md, K = eps.shape
    out = np.zeros((rows, N), dtype=complex)
    for a in range(rows):
        sites = range(K) if env is None else env[a]
        for e in range(N):
            for m in range(Md):
                pr = 1.0 + 0j
                for b, site in enumerate(sites):
                    pr *= eps[a, e, int(x[site]), m, b]
                out[a, e] += pr
    return out


def raising_vanishes(x_all, psi, L):
    """S+ |psi> (as a dict over the (n+1, n-1) sector), mode order: all up, then all down."""
    out = {}
    for x, a in zip(x_all, psi):
        m = (ref.modes(x), 1)
        for i in range(L):
            r = ref.create(ref.annihilate(m, L + i), i)
            if r is not None:
                out[r[0]] = out.get(r[0], 0.0) + r[1] * a
    return out


def sample_confs(rng, L, nu, nd, B):
    x = np.zeros((B, L), dtype=np.uint8)
    for b in range(B):
        x[b, rng.permutation(L)[:nu]] += 1
        x[b, rng.permutation(L)[:nd]] += 2
    return x


def compare(mon, tag, logpsi, want, **ctx):
    want = np.array(want, dtype=complex)
    with np.errstate(all="ignore"):
        got = np.exp(np.asarray(logpsi).astype(complex))
    return mon.close(tag, got, want, rtol=1e-7, atol=1e-10 * float(np.max(np.abs(want), initial=1e-30)), **ctx)


def compare_log(mon, tag, logpsi, want, **ctx):
    """Compare logarithms modulo 2 pi i."""
    d = np.asarray(logpsi).astype(complex) - np.asarray(want, dtype=complex)
    return mon.close(tag, np.exp(d), np.ones(d.shape), rtol=1e-7, atol=1e-8, **ctx)


def batch(mon, tag, f, x, base, rng, **ctx):
    p = rng.permutation(len(x))
    e = np.exp
    scale = float(np.max(np.abs(e(base)), initial=1e-30))
    mon.close(f"{tag}-batch", e(np.asarray(f(x[p]))), e(base[p]), rtol=1e-7, atol=1e-9 * scale, **ctx)
    sel = rng.integers(0, 3, len(x))
    mon.close(f"{tag}-batch", e(np.asarray(f(x[sel]))), e(base[sel]), rtol=1e-7, atol=1e-9 * scale, **ctx)
    r = int(rng.integers(0, 3))                     # one more compilation per case: other batch size or other dtype
    if r == 0:
        mon.close(f"{tag}-batch", e(np.asarray(f(x[-1:]))), e(base[-1:]), rtol=1e-7, atol=1e-9 * scale, **ctx)
        return
    for dt in ((np.int64,) if r == 1 else (np.float32,)):
        mon.close(f"{tag}-sample-dtype", e(np.asarray(f(x.astype(dt)))), e(base), rtol=1e-7, atol=1e-9 * scale, sample_dtype=str(np.dtype(dt)), **ctx)


# ---- cases -------------------------------------------------------------------------------------
KINDS = ("slater", "slater_gen", "slater_s2", "asymm", "asymm_proj", "asymm_prod", "sj", "sg", "backflow", "bfj", "cpd", "jastrow")


def group(rng, L):
    r = int(rng.integers(0, 4))
    if r == 0:
        return [list(range(L))]
    if r == 1:
        return [list(p) for p in zoo.translations(L)]
    if r == 2:
        return [list(range(L)), list(range(L))[::-1]]
    return [list(range(L))] + [[int(v) for v in rng.permutation(L)] for _ in range(int(rng.integers(1, 4)))]


def det_case(mon, kind, k):
    rng = mon.rng(kind, k)
    L = int(rng.integers(2, 7)) if k % 4 else int(rng.integers(8, 15))
    edge = k % 6 == 5
    lo = 0 if edge else 1
    hi_n = min(L, 6)
    nu = int(rng.integers(lo, hi_n + 1))
    same = bool(rng.integers(0, 2))
    if kind == "cpd" and same:
        nu = max(nu, 1)
    nd = nu if same else int(rng.integers(lo, hi_n + 1))
    if kind in ("asymm", "asymm_proj", "asymm_prod") and nu + nd == 0:
        nd = 1
    hi = FermionicDiscreteHilbert(L, n_elec=(nu, nd))
    B = 8
    x = sample_confs(rng, L, nu, nd, B)
    dt = [jnp.complex128, jnp.float64][int(rng.integers(0, 2))]
    P = group(rng, L)
    sy = zoo.site_perm_sym(P)
    init = jax.nn.initializers.normal(1.0)
    ctx = dict(ansatz=kind, L=L, n_elec=(nu, nd), shared=same, group=len(P), dtype=str(np.dtype(dt)))
    mon.case("determinant", dict(ctx, k=k), nontrivial=nu + nd > 1)

    def build(model, pfun):
        v = zoo.variables(model, int(rng.integers(1 << 30)), x, pfun)
        f = jax.jit(lambda y: model.apply(v, y))
        return v, (lambda y: np.asarray(f(jnp.asarray(y)))), np.asarray(f(jnp.asarray(x)))

    def orbs(p, m):
        Uu = np.asarray(p["U_up"])[m]
        return Uu, (Uu if struct else np.asarray(p["U_down"])[m])

    E = [electrons(c) for c in x]
    nM = int(rng.integers(1, 4))
    struct = same and bool(rng.integers(0, 2))
    rnd = lambda s: (lambda p: zoo.randomise(rng, p, s))
    fast = bool(rng.integers(0, 2))
    with mon.guard(f"{kind}-raises", **ctx):
        if kind == "slater":
            ini = (init, init) if rng.integers(0, 2) else init
            ini = {} if k % 3 == 2 else dict(init_fun=ini)           # default initialiser: parameters are randomised afterwards
            model = M.Slater(hi, n_determinants=nM, dtype=dt, symmetries=sy, **ini, spin_symmetry_by_structure=struct, apply_fast_update=fast)
            v, f, base = build(model, rnd(0.7))
            p = v["params"]
            mon.check("slater-parameters", set(p) == ({"U_up"} if struct else {"U_up", "U_down"}), names=sorted(p), **ctx)
            want = [sum(ud_det(*orbs(p, m), *e, q) for m in range(nM) for q in P) for e in E]
            compare(mon, "slater-definition", base, want, **ctx)
            if nu >= 2 and not edge:
                # exchanging two orbitals of every determinant flips the sign (the square of it when orbitals are shared)
                sw = {n: jnp.asarray(np.asarray(a)[:, :, [1, 0] + list(range(2, a.shape[2]))]) if n == "U_up" else a for n, a in p.items()}
                g = np.asarray(jax.jit(model.apply)({**v, "params": sw}, jnp.asarray(x)))
                compare(mon, "slater-orbital-exchange", g, np.array(want) * (1 if struct else -1), **ctx)
                c = 1.7
                sc = {n: jnp.asarray(np.asarray(a) * np.r_[c, np.ones(a.shape[2] - 1)].astype(a.dtype)) if n == "U_up" else a for n, a in p.items()}
                g = np.asarray(jax.jit(model.apply)({**v, "params": sc}, jnp.asarray(x)))
                compare(mon, "slater-orbital-scaling", g, np.array(want) * (c * c if struct else c), **ctx)
        elif kind == "slater_gen":
            model = M.Slater(hi, n_determinants=nM, dtype=dt, symmetries=sy, init_fun=init, fixed_magnetization=False, apply_fast_update=fast)
            v, f, base = build(model, rnd(0.7))
            U = np.asarray(v["params"]["U"])
            compare(mon, "slater-generalised-definition", base, [sum(gen_det(U[m], L, *e, q) for m in range(nM) for q in P) for e in E], **ctx)
        elif kind == "slater_s2":
            nS = int(rng.integers(1, 5))
            ang, ch = rng.uniform(-3, 3, nS), rng.normal(size=nS)
            model = M.Slater(hi, n_determinants=nM, dtype=dt, symmetries=sy, init_fun=init, S2_projection=(HashableArray(ang), HashableArray(ch)), apply_fast_update=fast)
            v, f, base = build(model, rnd(0.7))
            struct = False
            compare(mon, "slater-rotated-definition", base, [sum(ch[s] * rot_det(*orbs(v["params"], m), L, *e, q, ang[s]) for s in range(nS) for m in range(nM) for q in P) for e in E], **ctx)
        elif kind.startswith("asymm"):
            kw = dict(dtype=dt, apply_symmetries=sy, init_fun=init, spin_symmetry_by_structure=struct, apply_fast_update=fast)
            co = np.ones(1)
            if kind == "asymm_prod":
                nM = [1, 3, 5][nM - 1]
                model = M.ASymmqGPSProd(hi, n_determinants=nM, **kw)
            else:
                if rng.integers(0, 2):
                    co = rng.normal(size=nM)
                model = M.ASymmqGPS(hi, n_determinants=nM, coeffs=HashableArray(co), symmetrization="kernel" if kind == "asymm" else "projective", **kw)
            v, f, base = build(model, lambda p: zoo.randomise(rng, p, 0.45 if L < 8 else 0.3))
            q0 = v["params"]["Slater_0"]
            D = np.array([[[ud_det(*orbs(q0, m), *e, q) for q in P] for m in range(nM)] for e in E])   # (B, M, T)
            cc = np.broadcast_to(co, (nM,))[None, :, None]
            if kind == "asymm":
                want = np.sinh((cc * D).sum((1, 2)))
            elif kind == "asymm_proj":
                want = np.sinh((cc * D).sum(1)).sum(1)
            else:
                want = np.prod(np.sinh(D), axis=1).sum(1)
            compare(mon, f"{kind}-definition", base, want, **ctx)
        elif kind in ("sj", "sg"):
            fm = bool(rng.integers(0, 3))
            st = struct and fm
            kw = dict(dtype=dt, n_determinants=nM, **({} if k % 3 == 2 else dict(slater_init_fun=init)), slater_apply_symmetries=sy, spin_symmetry_by_structure=st, fixed_magnetization=fm, apply_fast_update=fast)
            PJ = group(rng, L)
            if kind == "sj":
                tab = jnp.asarray(np.array(PJ).T)
                model = M.SlaterJastrow(hi, jastrow_apply_symmetries=lambda y: jnp.take(y, tab, axis=-1), **kw)
                v, f, base = build(model, lambda p: {n: zoo.randomise(rng, w, 0.15 if "Jas" in n else 0.7) for n, w in p.items()})
                fac = [jastrow(v["params"]["Jastrow_0"]["kernel"], c, PJ) for c in x]
            else:
                Md = int(rng.integers(1, 4))
                model = M.SlaterqGPS(hi, M=Md, qGPS_apply_symmetries=zoo.sym_pair(PJ), **kw)
                v, f, base = build(model, lambda p: {n: (zoo.gps_params(rng, w, 0.35 if L < 8 else 0.1) if "GPS" in n else zoo.randomise(rng, w, 0.7)) for n, w in p.items()})
                eps = np.asarray(v["params"]["qGPS_0"]["epsilon"])
                mon.check("sg-parameters", eps.shape == (4, Md, L), shape=eps.shape, **ctx)
                fac = [gps(eps, c, PJ) for c in x]
            q0 = v["params"]["Slater_0"]
            struct = st
            D = [sum((ud_det(*orbs(q0, m), *e, q) if fm else gen_det(np.asarray(q0["U"])[m], L, *e, q)) for m in range(nM) for q in P) for e in E]
            compare_log(mon, f"{kind}-definition", base, np.log(np.array(D)) + np.array(fac), **ctx)
        elif kind in ("backflow", "bfj"):
            fm = bool(rng.integers(0, 3))
            N = nu + nd
            shape = ((L, nu) if struct else (L, N)) if fm else (2 * L, N)
            nD = 1 if kind == "backflow" else int(rng.integers(1, 4))
            o = [rng.normal(size=shape) for _ in range(nD)]
            corr = [zoo.OrbCorr(hi, shape, len(P)) for _ in range(nD)]
            PJ = group(rng, L)
            if kind == "backflow":
                use = bool(rng.integers(0, 3))
                model = M.Backflow(hi, corr[0], orbitals=HashableArray(o[0]) if use else None, apply_symmetries=sy, apply_fast_update=fast, spin_symmetry_by_structure=struct and fm, fixed_magnetization=fm)
                v, f, base = build(model, rnd(0.5))
                if not use:
                    o = [np.zeros(shape)]
                W = [np.asarray(v["params"]["correction_fun"]["W"])]
                fac = np.zeros(B)
            else:
                tab = jnp.asarray(np.array(PJ).T)
                model = M.BackflowJastrow(hi, tuple(HashableArray(a) for a in o), tuple(corr), backflow_apply_symmetries=sy, jastrow_apply_symmetries=lambda y: jnp.take(y, tab, axis=-1),
                                          apply_fast_update=fast, spin_symmetry_by_structure=struct and fm, fixed_magnetization=fm)
                v, f, base = build(model, lambda p: {n: zoo.randomise(rng, w, 0.15 if "Jas" in n else 0.5) for n, w in p.items()})
                W = [np.asarray(v["params"][f"correction_fun_{d}"]["W"]) for d in range(nD)]
                fac = np.array([jastrow(v["params"]["Jastrow_0"]["kernel"], c, PJ) for c in x])
            D = []
            for c, (up, dn) in zip(x, E):
                tot = 0j
                for d in range(nD):
                    corr_x = sum(W[d][i, int(c[i])] for i in range(L))         # (rows, N, T)
                    for t, q in enumerate(P):
                        full = o[d] + corr_x[:, :, t]
                        if not fm:
                            tot += gen_det(full, L, up, dn, q)
                        elif struct:
                            tot += ud_det(full, full, up, dn, q)
                        else:
                            tot += ud_det(full[:, :nu], full[:, nu:], up, dn, q)
                D.append(tot)
            compare_log(mon, f"{kind}-definition", base, np.log(np.array(D)) + fac, **ctx)
        elif kind == "cpd":
            fm = bool(rng.integers(0, 3))
            Md = int(rng.integers(1, 4))
            env = None
            rows = L if fm else 2 * L
            if rng.integers(0, 3) == 0:
                K = int(rng.integers(1, L + 1))
                env = np.array([rng.permutation(L)[:K] for _ in range(rows)])
            restricted = same and bool(rng.integers(0, 2))
            model = M.CPDBackflow(hi, Md, environments=None if env is None else HashableArray(env), dtype=dt, restricted=restricted, fixed_magnetization=fm, apply_fast_update=fast and env is None)
            v, f, base = build(model, lambda p: zoo.cpd_params(rng, p))
            eps = np.asarray(v["params"]["epsilon"])
            N = nu + nd
            mon.check("cpd-parameters", eps.shape == (rows, nu if (restricted and fm) else N, 4, Md, L if env is None else env.shape[1]), shape=eps.shape, **ctx)
            want = []
            for c, (up, dn) in zip(x, E):
                o = cpd_orbitals(eps, c, env)
                I = list(range(L))
                if not fm:
                    want.append(gen_det(o, L, up, dn, I))
                elif restricted:
                    want.append(ud_det(o, o, up, dn, I))
                else:
                    want.append(ud_det(o[:, :nu], o[:, nu:], up, dn, I))
            compare(mon, "cpd-definition", base, want, env=env is not None, **ctx)
        else:
            tab = jnp.asarray(np.array(P).T)
            model = M.Jastrow(hi, dtype=dt, apply_symmetries=lambda y: jnp.take(y, tab, axis=-1))
            v, f, base = build(model, rnd(0.3))
            K = np.asarray(v["params"]["kernel"])
            mon.check("jastrow-parameters", K.shape == (L, L) and K.dtype == np.dtype(dt), shape=K.shape, **ctx)
            mon.close("jastrow-definition", base, np.array([jastrow(K, c, P) for c in x]), rtol=1e-9, atol=1e-9, **ctx)
        batch(mon, kind, f, x, base, rng, **ctx)


def electrons_case(mon, k):
    """Conversion to first quantisation keeps every electron at its place, for every batch composition."""
    rng = mon.rng("electrons", k)
    L = int(rng.integers(1, 20))
    nu, nd = int(rng.integers(0, L + 1)), int(rng.integers(0, L + 1))
    B = int(rng.integers(1, 7))
    x = sample_confs(rng, L, nu, nd, B)
    mon.case("electrons", dict(L=L, n=(nu, nd), B=B, k=k))
    want = np.array([a + b for a, b in map(electrons, x)], dtype=int).reshape(B, nu + nd)
    with mon.guard("electrons-raises", L=L):
        for dt in (np.uint8, np.int8, np.int64, np.float64):
            got = np.asarray(M.occupancies_to_electrons(jnp.asarray(x.astype(dt)), (nu, nd)))
            mon.check("electron-positions", got.shape == want.shape and bool(np.all(got == want)), L=L, n=(nu, nd), dtype=str(np.dtype(dt)))


def pfaffian_case(mon, k):
    rng = mon.rng("pfaffian", k)
    # the bare Pfaffian
    n = 2 * int(rng.integers(1, 5))
    A = rng.normal(size=(n, n)) + (1j * rng.normal(size=(n, n)) if rng.integers(0, 2) else 0)
    A = A - A.T
    if rng.integers(0, 2):                      # sparse, so that pivots have to be searched
        m = np.triu(rng.random((n, n)) < 0.5, 1)
        A = A * (m | m.T)
        for i in range(0, n, 2):
            a, b = i, n - 1 - i // 2
    mon.case("pfaffian", dict(n=n, k=k), nontrivial=n > 2)
    want = pfaffian(A.tolist())
    f = jax.jit(pf.log_pfaffian)
    with mon.guard("pfaffian-raises", n=n):
        got = complex(np.exp(np.asarray(f(jnp.asarray(A)))))
        mon.close("pfaffian-value", got, want, rtol=1e-8, atol=1e-10 * (1 + abs(want)), n=n)
        if abs(want) > 1e-3:
            dA = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
            dA = dA - dA.T
            _, dv = jax.jvp(f, (jnp.asarray(A.astype(complex)),), (jnp.asarray(dA),))
            h = 1e-5
            num = (pfaffian((A + h * dA).tolist()) - pfaffian((A - h * dA).tolist())) / (2 * h) / want
            mon.close("pfaffian-derivative", complex(dv), num, rtol=1e-5, atol=1e-5 * (1 + abs(num)), n=n)
    # the wavefunctions
    L = int(rng.integers(2, 6))
    P = group(rng, L)
    ne = int(rng.integers(1, min(L, 3) + 1))
    x = sample_confs(rng, L, ne, ne, 6)
    y = np.array([u + [L + i for i in d] for u, d in map(electrons, x)])
    tab = np.array([p + [L + q for q in p] for p in P])
    sy = lambda z: jnp.moveaxis(jnp.asarray(tab)[:, z], 0, -1)
    ctx = dict(L=L, ne=ne, group=len(P))
    with mon.guard("pfaffian-state-raises", **ctx):
        model = pf.PfaffianState(L, symmetries=sy)
        v = zoo.variables(model, k, y, lambda p: zoo.randomise(rng, p, 0.7))
        F = np.asarray(v["params"]["F"])
        mon.check("pfaffian-parameters", F.shape == (2 * L, 2 * L), shape=F.shape)
        want = []
        for row in y:
            tot = 0
            for p in tab:
                pos = p[row]
                S = F[np.ix_(pos, pos)]
                tot += pfaffian((S - S.T).tolist())
            want.append(tot)
        jmod = jax.jit(model.apply)
        base = np.asarray(jmod(v, jnp.asarray(y)))
        compare(mon, "pfaffian-state-definition", base, want, **ctx)
        sel = [2, 0, 0, 4, 1, 2]
        compare(mon, "pfaffian-state-batch", jmod(v, jnp.asarray(y[sel])), np.array(want)[sel], **ctx)
        # exchange of two electrons flips the sign
        z = y.copy()
        z[:, [0, 1]] = z[:, [1, 0]]
        compare(mon, "pfaffian-antisymmetry", jmod(v, jnp.asarray(z)), -np.array(want), **ctx)
        # zero magnetisation form with arbitrary rotations
        nS = int(rng.integers(1, 4))
        ang, ch = rng.uniform(-3, 3, nS), rng.normal(size=nS)
        model = pf.ZeroMagnetizationPfaffian(L, symmetries=sy, S2_projection=(HashableArray(ang), HashableArray(ch)))
        v = zoo.variables(model, k, y, lambda p: zoo.randomise(rng, p, 0.7))
        fm = np.asarray(v["params"]["f"])
        want = []
        for row in y:
            tot = 0
            for a, w in zip(ang, ch):
                c, s = np.cos(a / 2), np.sin(a / 2)
                F = np.block([[-fm * c * s, fm * c * c], [-fm * s * s, fm * c * s]])
                for p in tab:
                    pos = p[row]
                    S = F[np.ix_(pos, pos)]
                    tot += w * pfaffian((S - S.T).tolist())
            want.append(tot)
        compare(mon, "pfaffian-rotated-definition", jax.jit(model.apply)(v, jnp.asarray(y)), want, **ctx)


def singlet_case(mon, k):
    """With Gauss-Legendre angles and weights the projected states are annihilated by S+ (total spin zero)."""
    rng = mon.rng("singlet", k)
    L = int(rng.integers(2, 5))
    n = int(rng.integers(1, L))
    if L == 4:
        n = min(n, 2)
    hi = FermionicDiscreteHilbert(L, n_elec=(n, n))
    xs = ref.fermion_states(L, (n, n))
    proj = pf.get_gauss_leg_elements_Sy(n + 2)
    ctx = dict(L=L, n=n)
    mon.case("singlet", dict(ctx, k=k))
    with mon.guard("singlet-raises", **ctx):
        for kind in ("slater", "pfaffian"):
            if kind == "slater":
                model = M.Slater(hi, S2_projection=proj)
                v = zoo.variables(model, k, xs, lambda p: zoo.randomise(rng, p, 0.7))
                psi = np.exp(np.asarray(jax.jit(model.apply)(v, jnp.asarray(xs))))
                plain = np.array([ud_det(np.asarray(v["params"]["U_up"])[0], np.asarray(v["params"]["U_down"])[0], *electrons(c), list(range(L))) for c in xs])
            else:
                model = pf.ZeroMagnetizationPfaffian(L, S2_projection=proj)
                y = np.array([u + [L + i for i in d] for u, d in map(electrons, xs)])
                v = zoo.variables(model, k, y, lambda p: zoo.randomise(rng, p, 0.7))
                psi = np.exp(np.asarray(jax.jit(model.apply)(v, jnp.asarray(y))))
                F = np.asarray(v["params"]["f"])
                plain = np.array([(-1) ** (n * (n - 1) // 2) * det([[F[i, j] for j in d] for i in u]) for u, d in map(electrons, xs)])
            r = raising_vanishes(xs, psi, L)
            norm = float(np.linalg.norm(psi))
            worst = max([abs(a) for a in r.values()] + [0.0])
            mon.check(f"{kind}-singlet", np.isfinite(norm) and worst <= 1e-8 * max(norm, float(np.linalg.norm(plain)) * 1e-3), worst=worst, norm=norm, **ctx)
            # the projector has the overlap with the unprojected state expected of half the squared projected norm times the weight sum
            mon.close(f"{kind}-projection-overlap", np.vdot(plain, psi) * 2, np.vdot(psi, psi), rtol=1e-7, atol=1e-9 * norm ** 2, **ctx)


def run(mon):
    mon.rule = ("case = (ansatz, lattice size, electron numbers, symmetry group, parameter dtype, random parameters, batch); non-trivial = more than one electron. "
                "Amplitudes are compared with explicit numpy determinants, recursive Pfaffian expansions and loops over Jastrow/GPS factors.")
    mon.assumptions = ["spin rotations are about the y axis with the half-angle convention of get_gauss_leg_elements_Sy; singlet character is verified independently of that convention via S+"]
    n = 60 if mon.thorough else 7
    jobs = [("det", kind, k) for k in range(n) for kind in KINDS]
    jobs += [("el", None, k) for k in range(2 * n)] + [("pf", None, k) for k in range(2 * n)] + [("singlet", None, k) for k in range(n)]
    order = mon.rng("order").permutation(len(jobs))
    for j in mon.mine([jobs[i] for i in order]):
        if not mon.time_left():
            break
        if j[0] == "det":
            det_case(mon, j[1], j[2])
        elif j[0] == "el":
            electrons_case(mon, j[2])
        elif j[0] == "pf":
            pfaffian_case(mon, j[2])
        else:
            singlet_case(mon, j[2])
    for e in ("slater-definition", "slater-generalised-definition", "slater-rotated-definition", "asymm-definition", "asymm_proj-definition", "asymm_prod-definition",
              "sj-definition", "sg-definition", "backflow-definition", "bfj-definition", "cpd-definition", "jastrow-definition", "pfaffian-value", "pfaffian-derivative"):
        mon.require(e, 10)
