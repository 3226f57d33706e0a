"""C28  Reference data sets: eigenstates of the Hamiltonian they are stored with, stable over cached calls and interrupted writes."""
import contextlib
import io
import os
import tempfile
import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as sl
import netket as nk
from pyscf import gto, fci
from GPSKet.datasets import get_H2O_dataset
from GPSKet.hilbert import FermionicDiscreteHilbert
from GPSKet.operator.hamiltonian import ab_initio
from . import ref

SHARDS = 4
BASES = ("CANONICAL", "LOCAL", "BOYS", "SPLIT")
SMALL = [None]


_build = gto.Mole.build


def build(self, *a, **k):
    """The library call of the data set with a smaller orbital basis, so that the exact state is cheap."""
    if SMALL[0] is not None:
        k["basis"] = SMALL[0]
    k["verbose"] = 0
    return _build(self, *a, **k)


gto.Mole.build = build


class Interrupt(Exception):
    pass


@contextlib.contextmanager
def crash_at(n, partial):
    """Interrupts the n-th array written, optionally leaving a truncated file behind."""
    real, count = np.save, [0]

    def save(file, arr, *a, **k):
        count[0] += 1
        if count[0] - 1 == n:
            if partial:
                if hasattr(file, "write"):
                    file.write(b"\x93NUMPY\x01")
                else:
                    f = os.fspath(file)
                    with open(f if f.endswith(".npy") else f + ".npy", "wb") as h:
                        h.write(b"\x93NUMPY\x01")
            raise Interrupt()
        return real(file, arr, *a, **k)
    np.save = save
    try:
        yield count
    finally:
        np.save = real


def load(basis, path, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return get_H2O_dataset(basis, "FCI", datapath=path, **kw)


def stored(path, basis):
    b = basis.upper()
    return np.load(os.path.join(path, f"h1_{b}_FCI.npy")), np.load(os.path.join(path, f"h2_{b}_FCI.npy"))


_E = {}


def exact_energy(h1, h2, nel):
    e, c = fci.direct_spin1.FCISolver().kernel(h1, h2, len(h1), nel, tol=1e-12, verbose=0)
    return e


def judge(mon, tag, path, basis, conf, amp, d):
    h1, h2 = stored(path, basis)
    n = len(h1)
    hi = FermionicDiscreteHilbert(n, n_elec=(5, 5))
    mon.check(tag + "-shapes", conf.shape == (hi.n_states, n) and amp.shape == (hi.n_states,), got=[conf.shape, amp.shape], **d)
    if conf.shape != (hi.n_states, n):
        return
    ok = np.all((conf & 1).sum(1) == 5) and np.all(((conf >> 1) & 1).sum(1) == 5) and conf.max() <= 3
    mon.check(tag + "-electrons", bool(ok), **d)
    ix = np.asarray(hi.states_to_numbers(conf))
    mon.check(tag + "-each-once", len(np.unique(ix)) == hi.n_states, **d)
    mon.close(tag + "-norm", float(np.sum(np.abs(amp) ** 2)), 1.0, rtol=1e-9, atol=0, **d)
    # integrals of an orthonormal basis: symmetric, and with the ground energy of the molecule in any basis
    mon.close(tag + "-symmetric-integrals", h1, h1.T, rtol=0, atol=1e-9, **d)
    for perm in ((1, 0, 2, 3), (2, 3, 0, 1)):
        mon.close(tag + "-symmetric-integrals", h2, h2.transpose(perm), rtol=0, atol=1e-9, **d)
    v = np.zeros(hi.n_states)
    v[ix] = amp
    H = ab_initio.AbInitioHamiltonian(hi, h1, h2).to_sparse().real
    e = float(v @ (H @ v))
    mon.close(tag + "-eigenstate", H @ v, e * v, rtol=0, atol=2e-4, energy=e, **d)
    if SMALL[0] not in _E:
        _E[SMALL[0]] = float(sl.eigsh(H, k=1, which="SA", tol=1e-10)[0][0])
    mon.close(tag + "-ground-energy", e, _E[SMALL[0]], rtol=0, atol=1e-6, **d)
    # and through the reference rows for a few configurations
    return v


def select(mon, path, basis, conf, amp, rng, d):
    for k in sorted({1, int(rng.integers(2, 40)), len(amp)}):
        c, a = load(basis, path, select_largest=k)
        mon.check("select-count", len(c) == k and len(a) == k, k=k, **d)
        look = {tuple(x): y for x, y in zip(conf, amp)}
        mon.check("select-pairs", all(look.get(tuple(x)) == y for x, y in zip(c, a)) and len({tuple(x) for x in c}) == k, k=k, **d)
        mon.close("select-largest", np.sort(np.abs(a)), np.sort(np.abs(amp))[-k:], rtol=0, atol=0, k=k, **d)


def case(mon, k):
    """A history of calls in one folder: fresh, cached, other bases in between, largest amplitudes."""
    rng = mon.rng("case", k)
    SMALL[0] = "sto-3g"
    order = [BASES[i] for i in rng.permutation(4)][: int(rng.integers(1, 5))]
    name = lambda b: [b, b.lower(), b.capitalize()][int(rng.integers(3))]
    d = dict(bases=order)
    mon.case("history", dict(d, k=k), nontrivial=len(order) > 1)
    with tempfile.TemporaryDirectory() as t:
        path = os.path.join(t, "a", "b") if k % 2 else t
        first = {}
        with mon.guard("dataset-raises", **d):
            for b in order:
                c, a = load(name(b), path)
                first[b] = (c.copy(), a.copy())
                judge(mon, "dataset", path, b, c, a, dict(d, basis=b))
            for b in [order[i] for i in rng.integers(0, len(order), 4)]:
                c, a = load(name(b), path)
                mon.check("cached-call-identical", np.array_equal(c, first[b][0]) and np.array_equal(a, first[b][1]), basis=b, **d)
                c[...] = 0
                a[...] = 0
            b = order[0]
            select(mon, path, b, *first[b], rng, dict(d, basis=b))


def crash_case(mon, k):
    """Generation interrupted at any of its writes; the next call delivers the full data set."""
    rng = mon.rng("crash", k)
    SMALL[0] = "sto-3g"
    b = BASES[k % 4]
    n, partial = (k // 4) % 4, bool((k // 16) % 2)
    d = dict(basis=b, interrupted_write=n, partial=partial)
    with tempfile.TemporaryDirectory() as t:
        with crash_at(n, partial) as count:
            try:
                load(b, t)
            except Interrupt:
                mon.extra["interrupted generations"] = mon.extra.get("interrupted generations", 0) + 1
        mon.case("crash", dict(d, k=k), nontrivial=count[0] > n)
        with mon.guard("dataset-after-interruption-raises", **d):
            c, a = load(b, t)
            judge(mon, "dataset-after-interruption", t, b, c, a, d)
            c2, a2 = load(b, t)
            mon.check("cached-call-identical", np.array_equal(c, c2) and np.array_equal(a, a2), **d)


def full_case(mon, k):
    """The data set as shipped (6-31G), once."""
    SMALL[0] = None
    b = BASES[k % 4]
    d = dict(basis=b, orbitals="6-31G")
    mon.case("full", d, nontrivial=True)
    with tempfile.TemporaryDirectory() as t, mon.guard("dataset-raises", **d):
        c, a = load(b, t)
        h1, h2 = stored(t, b)
        mon.check("full-shapes", len(c) == len(a) == 1287 ** 2 and c.shape[1] == len(h1) == 13, **d)
        mon.check("full-electrons", bool(np.all((c & 1).sum(1) == 5) and np.all((c >> 1).sum(1) == 5)), **d)
        mon.close("full-norm", float(np.sum(a ** 2)), 1.0, rtol=1e-9, atol=0, **d)
        # local energies of configurations with large amplitudes
        look = {x.tobytes(): y for x, y in zip(c, a)}
        mon.check("full-each-once", len(look) == len(a), **d)
        hi = FermionicDiscreteHilbert(13, n_elec=(5, 5))
        H = ab_initio.AbInitioHamiltonian(hi, h1, h2)
        es = []
        for i in np.argsort(-np.abs(a))[:40]:
            xp, me = H.get_conn(c[i].astype(np.int8))
            es.append(sum(m.real * look[np.asarray(x, dtype=np.uint8).tobytes()] for x, m in zip(xp, me)) / a[i])
        mon.close("full-eigenstate", es, np.full(len(es), es[0]), rtol=0, atol=5e-3, **d)


def run(mon):
    mon.rule = "case = history of data set calls in one folder, or one interrupted generation; non-trivial = several bases or an interruption that happened"
    mon.assumptions = ["the orbital basis handed to PySCF is replaced by STO-3G at the library boundary except in the thorough 6-31G cases", "CISD cannot be computed with the installed PySCF and NumPy"]
    jobs = [(case, k) for k in range(40 if mon.thorough else 12)] + [(crash_case, k) for k in range(32)]
    if mon.thorough:
        jobs += [(full_case, k) for k in range(4)]
    for f, k in mon.mine(jobs):
        if mon.time_left():
            f(mon, k)
    for kind, m in (("dataset-eigenstate", 6), ("cached-call-identical", 10), ("select-largest", 6), ("dataset-after-interruption-eigenstate", 6)):
        mon.require(kind, m)
