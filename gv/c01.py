"""C01  Fermionic Hamiltonians: reported connected elements == exact second quantisation."""
import numpy as np
import GPSKet as qk
from GPSKet.hilbert import FermionicDiscreteHilbert
from GPSKet.operator.hamiltonian import (FermiHubbard, FermiHubbardOnTheFly, AbInitioHamiltonian,
                                         AbInitioHamiltonianOnTheFly, AbInitioHamiltonianSparse)
from GPSKet.operator.fermion import apply_hopping
from . import ref
from .util import row_sums, compare_rows, rand_edges, cast_variants

POISON = -987654321


def observe_operator(mon, tag, op, hi, L, n_elec, xs, reffun):
    """Feed xs through every element-reporting entry point of op and judge each answer."""
    wants = [reffun(x) for x in xs]
    for dt, x in zip(("uint8", "int8", "int64", "float64"), cast_variants(xs)):
        with mon.guard(f"{tag}-raises", entry="get_conn_flattened", dtype=dt):
            keep = x.copy()
            sections = np.full(len(x), POISON, dtype=np.int64)
            xp, mels = op.get_conn_flattened(x, sections)
            mon.check(f"{tag}-input-untouched", np.array_equal(keep, x))
            xp, mels = np.asarray(xp), np.asarray(mels)
            if not mon.check(f"{tag}-sections", (np.diff(np.concatenate([[0], sections])) >= 0).all()
                             and sections[-1] == len(mels) == len(xp), sections=sections, n=len(mels)):
                continue
            start = 0
            for b, end in enumerate(sections):
                got = row_sums(xp[start:end], mels[start:end])
                compare_rows(mon, f"{tag}-elements", got, wants[b], x=xs[b], entry="get_conn_flattened", dtype=dt)
                start = end
            vals_ok = np.isin(xp, [0, 1, 2, 3]).all()
            mon.check(f"{tag}-valid-configurations", vals_ok, entry="get_conn_flattened")
            # every configuration reported with a non-zero element has the particle numbers of its source
            owner = np.repeat(np.arange(len(x)), np.diff(np.concatenate([[0], sections])))
            xi = xp.astype(int)
            nu, nd = (xi & 1).sum(1), ((xi >> 1) & 1).sum(1)
            xo = xs.astype(int)[owner]
            ok = ((nu == (xo & 1).sum(1)) & (nd == ((xo >> 1) & 1).sum(1))) | (np.abs(mels) == 0)
            mon.check(f"{tag}-particle-numbers", ok.all())
    with mon.guard(f"{tag}-raises", entry="get_conn_padded"):
        xp, mels = op.get_conn_padded(xs)
        xp, mels = np.asarray(xp), np.asarray(mels)
        for b in range(len(xs)):
            compare_rows(mon, f"{tag}-elements", row_sums(xp[b], mels[b]), wants[b], x=xs[b], entry="get_conn_padded")
    with mon.guard(f"{tag}-raises", entry="get_conn"):
        xp, mels = op.get_conn(xs[0])
        compare_rows(mon, f"{tag}-elements", row_sums(xp, mels), wants[0], x=xs[0], entry="get_conn")
    if L <= 6 and hi.n_states <= 300:
        with mon.guard(f"{tag}-raises", entry="to_dense"):
            st = np.asarray(hi.all_states())
            H = np.asarray(op.to_dense())
            W = ref.dense_from_rows(st, reffun)
            mon.close(f"{tag}-dense", H, W, rtol=1e-10, atol=1e-10)
            if op.is_hermitian:
                mon.close(f"{tag}-hermitian", H, H.conj().T, rtol=1e-10, atol=1e-10)


def sample_states(rng, L, n_elec, n):
    if n_elec is None:
        x = rng.integers(0, 4, (n, L)).astype(np.uint8)
    else:
        x = np.zeros((n, L), dtype=np.uint8)
        for k in range(n):
            x[k, rng.permutation(L)[: n_elec[0]]] += 1
            x[k, rng.permutation(L)[: n_elec[1]]] += 2
    if n > 2:
        x[-1] = x[0]        # repeated configuration in one batch
    return x


def hubbard_case(mon, k):
    rng = mon.rng("hub", k)
    L = int(rng.integers(1, 8 if mon.thorough else 7))
    if k % 8 == 7:
        L = int(rng.integers(8, 70))
    constrained = bool(rng.integers(0, 3))
    n_elec = (int(rng.integers(0, L + 1)), int(rng.integers(0, L + 1))) if constrained else None
    mode = int(rng.integers(0, 4))
    if mode == 0 and L > 1:
        edges = [(i, i + 1) for i in range(L - 1)] + [(L - 1, 0)]
    elif mode == 1:
        edges = rand_edges(rng, L, 1)
    else:
        edges = rand_edges(rng, L, int(rng.integers(0, 2 * L)))
    if k % 11 == 5:
        edges = []
    U = float(rng.normal() * 4) if rng.random() < 0.8 else 0.0
    if rng.integers(0, 2):
        t = [float(v) for v in rng.normal(size=len(edges))]
        tt = t
    else:
        t = float(rng.normal())
        tt = [t] * len(edges)
    cls = [FermiHubbard, FermiHubbardOnTheFly][int(rng.integers(0, 2))]
    mon.case("hubbard", dict(L=L, n_elec=n_elec, edges=edges, U=U, t=t, cls=cls.__name__), nontrivial=len(edges) > 0)
    with mon.guard("hubbard-raises", entry="constructor"):
        hi = FermionicDiscreteHilbert(L, n_elec=n_elec)
        op = cls(hi, edges, U=U, t=t)
        xs = sample_states(rng, L, n_elec, int(rng.integers(1, 9)))
        observe_operator(mon, "hubbard", op, hi, L, n_elec, xs, lambda x: ref.hubbard_row(x, edges, tt, U))


def ab_case(mon, k):
    rng = mon.rng("ab", k)
    L = int(rng.integers(1, 6 if mon.thorough else 5))
    n_elec = (int(rng.integers(0, L + 1)), int(rng.integers(0, L + 1)))
    if k % 8 == 7:
        L = int(rng.integers(6, 9))
        n_elec = (int(rng.integers(0, 3)), int(rng.integers(0, 3)))
    sp = [0.0, 0.0, 0.6, 0.95][int(rng.integers(0, 4))]
    h, eri = ref.random_h(rng, L, sp), ref.random_eri(rng, L, sp)
    if k % 7 == 3:
        eri = eri * 0
    if k % 7 == 4:
        h = h * 0
    cls = [AbInitioHamiltonian, AbInitioHamiltonianOnTheFly, AbInitioHamiltonianSparse][int(rng.integers(0, 3))]
    mon.case("ab_initio", dict(L=L, n_elec=n_elec, sparsity=sp, cls=cls.__name__, h=h[0], eri=eri.ravel()[:4], k=k),
             nontrivial=0 < sum(n_elec) < 2 * L)
    with mon.guard("abinitio-raises", entry="constructor"):
        hi = FermionicDiscreteHilbert(L, n_elec=n_elec)
        hc, ec = h.copy(), eri.copy()
        op = cls(hi, h, eri)
        xs = sample_states(rng, L, n_elec, int(rng.integers(1, 6)))
        observe_operator(mon, "abinitio", op, hi, L, n_elec, xs, lambda x: ref.abinitio_row(x, hc, ec))
        mon.check("abinitio-integrals-untouched", np.array_equal(hc, h) and np.array_equal(ec, eri))


def hop_case(mon, k):
    """The exported hopping primitive, with and without precomputed counts."""
    rng = mon.rng("hop", k)
    L = int(rng.integers(1, 9)) if k % 10 else int(rng.integers(9, 600))
    x = rng.integers(0, 4, L).astype(np.uint8)
    i, j = (int(v) for v in rng.integers(0, L, 2))
    s = int(rng.integers(1, 3))
    mon.case("hop", dict(x=x, i=i, j=j, spin=s), nontrivial=i != j)
    off = 0 if s == 1 else L
    m = ref.create(ref.annihilate((ref.modes(x), 1), i + off), j + off)
    want = 0 if m is None else m[1]
    cum = np.cumsum((x & s).astype(bool))
    for label, kw in (("no-count", {}), ("count", {"cummulative_count": cum})):
        with mon.guard("hop-raises", variant=label):
            y = x.copy()
            mult = apply_hopping(i, j, y, s, **kw)
            mon.check("hop-sign", int(mult) == want, variant=label, got=int(mult), want=want)
            if want != 0:
                mon.check("hop-configuration", np.array_equal(y, ref.unmodes(m[0])), variant=label, got=y)
            else:
                mon.check("hop-configuration", np.array_equal(y, x), variant=label, got=y)


def run(mon):
    mon.rule = ("random lattices (multi-edges, no edges, periodic rings), couplings, integrals (dense/sparse/zero), sectors "
                "(empty to full) and configuration batches in 4 dtypes; non-trivial = at least one coupling acts; output "
                "buffers are pre-poisoned and the compiled kernels run with numba bounds checking")
    mon.assumptions = ["edges connect distinct sites", "real integrals with 8-fold permutational symmetry",
                       "mode ordering: all up orbitals before all down orbitals"]
    for kind in ("hubbard-elements", "hubbard-dense", "hubbard-hermitian", "abinitio-elements", "abinitio-dense",
                 "abinitio-hermitian", "hop-sign"):
        mon.require(kind, 50)
    n1, n2, n3 = (1500, 700, 20000) if mon.thorough else (150, 70, 3000)
    for k in range(n1):
        hubbard_case(mon, k)
        if not mon.time_left():
            break
    for k in range(n2):
        ab_case(mon, k)
        if not mon.time_left():
            break
    for k in range(n3):
        hop_case(mon, k)
