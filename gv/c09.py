"""C09  GPS amplitudes == loop-based definition; symmetry invariance; batch independence."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
import netket as nk
import GPSKet.models as M
from GPSKet.hilbert import FermionicDiscreteHilbert
from . import zoo, ref

SHARDS = 5


def automorphisms(n, edges):
    """All site permutations mapping the edge set onto itself (brute force, small n)."""
    E = {frozenset(e) for e in edges}
    return [p for p in itertools.permutations(range(n)) if {frozenset((p[i], p[j])) for i, j in edges} == E]


def gps_ref(eps, idx, images):
    """sum over images and support indices of the product of site parameters; idx = local indices of one configuration."""
    tot = 0.0
    for f in images:
        y = f(idx)
        for m in range(eps.shape[1]):
            pr = 1.0
            for i in range(len(y)):
                pr = pr * eps[y[i], m, i]
            tot = tot + pr
    return tot


def plaq_ref(eps, idx, images, plaq):
    tot = 0.0
    for f in images:
        y = f(idx)
        for p in range(len(plaq)):
            for m in range(eps.shape[2]):
                pr = 1.0
                for j, site in enumerate(plaq[p]):
                    pr = pr * eps[y[site], p, m, j]
                tot = tot + pr
    return tot


def seg_ref(eps, idx, kind):
    tot = 0.0
    for m in range(eps.shape[1]):
        pr = 1.0
        u = d = 0
        for i, a in enumerate(idx):
            pr = pr * eps[a, m, i, u, d]
            if kind == "spin":
                u, d = u + (a == 1), d + (a == 0)
            else:
                u, d = u + (a & 1), d + ((a >> 1) & 1)
        tot = tot + pr
    return tot


def hilberts(rng, L):
    k = int(rng.integers(0, 6))
    if k == 0:
        return nk.hilbert.Spin(0.5, L), [-1.0, 1.0]
    if k == 1:
        return nk.hilbert.Fock(int(rng.integers(1, 4)), L), None
    if k == 2:
        return nk.hilbert.Spin(1, L), None
    if k == 3:
        return nk.hilbert.Spin(0.5, L, inverted_ordering=False), None
    if k == 4:
        return nk.hilbert.Spin(0.5, L, inverted_ordering=True), None
    return FermionicDiscreteHilbert(L), None


def local_index(hi, x):
    ls = [float(v) for v in np.asarray(hi.local_states)]
    return [[ls.index(float(v)) for v in row] for row in x]


def batch_checks(mon, tag, model, v, x, base, rng, **ctx):
    """The amplitude of a configuration depends neither on its position nor on its companions nor on the dtype."""
    f = lambda y: np.asarray(model.apply(v, jnp.asarray(y)))
    p = rng.permutation(len(x))
    mon.close(f"{tag}-batch-order", f(x[p]), base[p], rtol=1e-9, atol=1e-11, **ctx)
    mon.close(f"{tag}-batch-single", f(x[:1]), base[:1], rtol=1e-9, atol=1e-11, **ctx)
    mon.close(f"{tag}-batch-repeat", f(np.concatenate([x[-1:], x[-1:], x[:2]])), np.concatenate([base[-1:], base[-1:], base[:2]]), rtol=1e-9, atol=1e-11, **ctx)
    for dt in (np.int8, np.int64, np.float32):
        mon.close(f"{tag}-sample-dtype", f(x.astype(dt)), base, rtol=1e-9, atol=1e-11, sample_dtype=str(np.dtype(dt)), **ctx)


def gps_case(mon, k, which):
    rng = mon.rng("gps", k, which)
    L = int(rng.integers(1, 8)) if k % 5 else int(rng.integers(10, 40))
    hi, _ = hilberts(rng, L)
    ls = np.asarray(hi.local_states, dtype=float)
    two = len(ls) == 2
    Md = int(rng.integers(1, 5))
    dt = [jnp.complex128, jnp.float64][int(rng.integers(0, 3) == 0)]
    r = int(rng.integers(0, 6))
    ident = [lambda y: list(y)]
    graph = None
    if r == 1 and 3 <= L <= 6 and two:      # full automorphism group of a lattice, with or without spin flip
        gname = ["chain", "open", "grid"][int(rng.integers(0, 3))]
        if gname == "grid" and L % 2 == 0 and L > 2:
            graph = nk.graph.Grid([2, L // 2], pbc=False)
        else:
            graph = nk.graph.Chain(L, pbc=gname == "chain")
        perms = automorphisms(L, [tuple(e) for e in graph.edges()])
        flip = bool(rng.integers(0, 2))
        syms = M.get_sym_transformation_spin(graph, True, flip)
        images = [lambda y, p=p: [y[j] for j in p] for p in perms]
        if flip:
            images += [lambda y, p=p: [1 - y[j] for j in p] for p in perms]
    elif r == 2 and two:
        syms = M.get_sym_transformation_spin(nk.graph.Chain(max(L, 2)), False, True)
        images = ident + [lambda y: [1 - a for a in y]]
        perms, flip = [tuple(range(L))], True
    elif r == 3 and two:
        syms = M.get_sym_transformation_spin(nk.graph.Chain(max(L, 2)), False, False)
        images, perms, flip = ident, [tuple(range(L))], False
    elif r == 4:
        tr = zoo.translations(L)
        syms = zoo.sym_pair(tr)
        images = [lambda y, p=p: [y[j] for j in p] for p in tr]
        perms, flip = [tuple(p) for p in tr], False
    else:
        syms, images, perms, flip = None, ident, [tuple(range(L))], False
    kw = dict(dtype=dt, apply_fast_update=bool(rng.integers(0, 2)))
    if syms is not None:
        kw["syms"] = syms
    tag = which
    desc = dict(ansatz=which, L=L, D=len(ls), M=Md, sym=r, flip=flip, group=len(images), dtype=str(np.dtype(dt)))
    mon.case("amplitude", dict(desc, k=k), nontrivial=L > 1)
    with mon.guard(f"{tag}-raises", **desc):
        if which == "qgps":
            form = int(rng.integers(0, 3))
            if form == 1:
                kw["out_transformation"] = lambda a: jnp.log(jnp.sum(a, axis=(-2, -1)).astype(complex))
            model = M.qGPS(hi, Md, **kw)
        else:
            form = 0
            plaq = zoo.plaquettes(rng, L, int(rng.integers(1, L + 1)), int(rng.integers(1, 4)))
            model = M.PlaquetteqGPS(hi, Md, plaq, **kw)
        x = rng.choice(ls, (7, L))
        spread = 0.35 if L < 9 else 0.1
        v = zoo.variables(model, int(rng.integers(1 << 30)), x, lambda p: zoo.gps_params(rng, p, spread))
        eps = np.asarray(v["params"]["epsilon"])
        want_shape = (len(ls), Md, L) if which == "qgps" else (len(ls), plaq.shape[0], Md, plaq.shape[1])
        mon.check(f"{tag}-parameter-shape", eps.shape == want_shape and eps.dtype == np.dtype(dt), got=eps.shape, want=want_shape)
        base = np.asarray(model.apply(v, jnp.asarray(x)))
        idx = local_index(hi, x)
        if which == "qgps":
            want = np.array([gps_ref(eps, i, images) for i in idx])
            if form == 1:
                want = np.log(want.astype(complex))
        else:
            want = np.array([plaq_ref(eps, i, images, np.asarray(plaq)) for i in idx])
        mon.close(f"{tag}-definition", base, want, rtol=1e-9, atol=1e-10, **desc)
        batch_checks(mon, tag, model, v, x, base, rng, **desc)
        if len(images) > 1:
            # invariance under every generator of the requested group (at most a dozen elements)
            pick = rng.permutation(len(perms))[:10]
            for p in pick:
                y = x[:, list(perms[p])]
                mon.close(f"{tag}-symmetry-invariance", np.asarray(model.apply(v, jnp.asarray(y))), base, rtol=1e-8, atol=1e-9, perm=list(perms[p]), **desc)
            if flip:
                mon.close(f"{tag}-spin-flip-invariance", np.asarray(model.apply(v, jnp.asarray(ls[0] + ls[1] - x))), base, rtol=1e-8, atol=1e-9, **desc)
        # zero parameters are legitimate without fast updates
        e0 = np.array(eps)
        e0[tuple(int(rng.integers(0, s)) for s in e0.shape)] = 0.0
        v0 = {**v, "params": {**v["params"], "epsilon": jnp.asarray(e0)}}
        if form == 0:
            want = np.array([gps_ref(e0, i, images) if which == "qgps" else plaq_ref(e0, i, images, np.asarray(plaq)) for i in idx])
            mon.close(f"{tag}-zero-parameter", np.asarray(model.apply(v0, jnp.asarray(x))), want, rtol=1e-9, atol=1e-10, **desc)


def seg_case(mon, k):
    rng = mon.rng("seg", k)
    L = int(rng.integers(1, 8)) if k % 5 else int(rng.integers(9, 25))
    Md = int(rng.integers(1, 4))
    dt = [jnp.complex128, jnp.float64][int(rng.integers(0, 2))]
    if rng.integers(0, 2):
        kind = "spin"
        nup = int(rng.integers(0, L + 1))
        sz = nup - L / 2
        hi = nk.hilbert.Spin(0.5, L, total_sz=sz)
        x = np.full((6, L), -1.0)
        for b in range(6):
            x[b, rng.permutation(L)[:nup]] = 1.0
        sector = (nup, L - nup)
    else:
        kind = "fermion"
        sector = (int(rng.integers(0, L + 1)), int(rng.integers(0, L + 1)))
        hi = FermionicDiscreteHilbert(L, n_elec=sector)
        x = np.zeros((6, L), dtype=np.uint8)
        for b in range(6):
            x[b, rng.permutation(L)[: sector[0]]] += 1
            x[b, rng.permutation(L)[: sector[1]]] += 2
    desc = dict(ansatz="seg", L=L, M=Md, space=kind, sector=sector, dtype=str(np.dtype(dt)))
    mon.case("amplitude", dict(desc, k=k), nontrivial=L > 1)
    with mon.guard("seg-raises", **desc):
        model = M.SegGPS(hi, Md, dtype=dt)
        v = zoo.variables(model, int(rng.integers(1 << 30)), x, lambda p: zoo.gps_params(rng, p, 0.35 if L < 9 else 0.1))
        eps = np.asarray(v["params"]["epsilon"])
        if not mon.check("seg-parameter-shape", eps.shape == (2 if kind == "spin" else 4, Md, L, sector[0] + 1, sector[1] + 1), got=eps.shape, **desc):
            return
        base = np.asarray(model.apply(v, jnp.asarray(x)))
        want = np.array([seg_ref(eps, i, kind) for i in local_index(hi, x)])
        mon.close("seg-definition", base, want, rtol=1e-9, atol=1e-10, **desc)
        batch_checks(mon, "seg", model, v, x, base, rng, **desc)


def run(mon):
    mon.rule = ("case = (model, Hilbert space, symmetry group, random parameters, batch of configurations); non-trivial = more than one site. "
                "Amplitudes are compared with explicit loops over group elements, support indices and sites.")
    mon.assumptions = ["lattice automorphism groups are recomputed by brute force for up to six sites"]
    n = 400 if mon.thorough else 60
    jobs = [(k, w) for k in range(n) for w in ("qgps", "plaq", "seg")]
    for k, w in mon.mine(jobs):
        if not mon.time_left():
            break
        seg_case(mon, k) if w == "seg" else gps_case(mon, k, w)
    for e in ("qgps-definition", "plaq-definition", "seg-definition", "qgps-symmetry-invariance", "qgps-spin-flip-invariance", "plaq-symmetry-invariance"):
        mon.require(e, 20)
