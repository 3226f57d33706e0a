"""C02  Spin and exclusion-process operators: reported connected elements == exact operators."""
import numpy as np
import netket as nk
from GPSKet.operator.hamiltonian import get_J1_J2_Hamiltonian, AsymmetricSimpleExclusionProcess
from . import ref
from .util import row_sums, compare_rows


def j1j2_row(x, e1, e2, J1, J2, s1, s2):
    """<x|H|x'> of J1 sum S.S + J2 sum S.S with Marshall sign flips of the exchange part; x in {-1,1}."""
    row = {tuple(int(v) for v in x): 0.0}
    for edges, J, s in ((e1, J1, s1), (e2, J2, s2)):
        for i, j in edges:
            a, b = int(x[i]), int(x[j])
            row[tuple(int(v) for v in x)] += J * 0.25 * a * b
            if a != b:
                y = [int(v) for v in x]
                y[i], y[j] = b, a
                row[tuple(y)] = row.get(tuple(y), 0.0) + (-1 if s else 1) * J * 0.5
    return row


def asep_row(x, lam, alpha, beta, gamma, delta, p, q):
    """Tilted generator: off-diagonal = rate of the allowed move times exp(+lam) for a right-moving particle and
    exp(-lam) for a left-moving one; diagonal = minus the total rate of the allowed moves."""
    x = [int(v) for v in x]
    L = len(x)
    row = {tuple(x): 0.0}

    def move(y, rate, direction):
        row[tuple(x)] -= rate
        row[tuple(y)] = row.get(tuple(y), 0.0) + rate * np.exp(direction * lam)

    def flip(i):
        y = list(x)
        y[i] = 1 - y[i]
        return y

    move(flip(0), alpha, 1) if x[0] == 0 else move(flip(0), gamma, -1)
    move(flip(L - 1), beta, -1) if x[L - 1] == 0 else move(flip(L - 1), delta, 1)
    for i in range(L - 1):
        if x[i] != x[i + 1]:
            y = list(x)
            y[i], y[i + 1] = y[i + 1], y[i]
            move(y, *((p, 1) if x[i] == 1 else (q, -1)))
    return row


def spin_states(rng, L, total_sz, n):
    nup = int(round(L / 2 + total_sz))
    out = -np.ones((n, L))
    for k in range(n):
        out[k, rng.permutation(L)[:nup]] = 1
    return out


def j1j2_case(mon, k):
    rng = mon.rng("j", k)
    two_d = bool(rng.integers(0, 2))
    pbc = bool(rng.integers(0, 2))
    if two_d:
        Lx, Ly = (int(v) for v in rng.integers(2 if not pbc else 3, 5, 2))
        if Lx * Ly > 16:
            Ly = 3
    else:
        Lx, Ly = int(rng.integers(3, 13)), None
    N = Lx * (Ly or 1)
    J1, J2 = float(rng.normal()), float(rng.normal()) if rng.integers(0, 2) else 0.0
    dims = [Lx] if Ly is None else [Lx, Ly]
    if not two_d and Lx < 5 and J2 != 0:
        Lx, dims, N = 6, [6], 6
    if two_d and pbc and J2 != 0 and min(Lx, Ly) < 4:
        # third-nearest and second-nearest shells are only well separated on larger tori
        pass
    bip1 = not pbc or all(d % 2 == 0 for d in dims)
    sz = 0.5 * (N % 2) + float(rng.integers(-1, 2))
    sr = [True, False][int(rng.integers(0, 2))] if bip1 else False
    form = int(rng.integers(0, 3))
    arg = sr if (form != 0 or J2 == 0) else ((sr, False) if rng.integers(0, 2) else [sr, False])
    otf = bool(rng.integers(0, 2))
    kw = dict(Lx=Lx, Ly=Ly, J1=J1, J2=J2, sign_rule=arg, total_sz=sz, on_the_fly_en=otf, pbc=pbc)
    mon.case("j1j2", kw)
    e1, e2 = ref.grid_neighbours(Lx, Ly, pbc)
    with mon.guard("j1j2-raises"):
        op = get_J1_J2_Hamiltonian(**kw)
        hi = op.hilbert
        mon.check("j1j2-hilbert", hi.size == N and hi.n_states == len(spin_count(N, sz)), size=hi.size)
        xs = spin_states(rng, N, sz, 6)
        xp, mels = op.get_conn_padded(xs)
        for b in range(len(xs)):
            want = j1j2_row(xs[b], e1, e2 if J2 != 0 else [], J1, J2, sr, False)
            compare_rows(mon, "j1j2-elements", row_sums(xp[b], mels[b]), want, x=xs[b])
            got_x = np.asarray(xp[b])[np.abs(np.asarray(mels[b])) > 0]
            mon.check("j1j2-magnetisation", (np.abs(got_x.sum(-1) - 2 * sz) < 1e-9).all())
        if hi.n_states <= 130:
            H = np.asarray(op.to_dense())
            mon.close("j1j2-hermitian", H, H.conj().T, atol=1e-12)
            st = np.asarray(hi.all_states())
            W = ref.dense_from_rows([[int(v) for v in s] for s in st],
                                    lambda s: j1j2_row(s, e1, e2 if J2 != 0 else [], J1, J2, sr, False))
            mon.close("j1j2-dense", H, W, atol=1e-11)


def spin_count(N, sz):
    from math import comb
    return range(comb(N, int(round(N / 2 + sz))))


def asep_case(mon, k):
    rng = mon.rng("a", k)
    L = int(rng.integers(1, 9)) if k % 6 else int(rng.integers(9, 60))
    pars = {n: float(rng.random() * 2) for n in ("alpha", "beta", "gamma", "delta", "p", "q")}
    lam = float(rng.normal()) if rng.random() < 0.6 else 0.0
    if k % 9 == 0:
        pars = {}
        lam = 0.0
    elif k % 9 == 1:      # balanced: genuinely hermitian at lambda = 0
        pars["gamma"], pars["delta"], pars["q"] = pars["alpha"], pars["beta"], pars["p"]
        lam = 0.0
    elif k % 9 == 2:      # rates summing to two (the default's sum) without being balanced
        pars = dict(alpha=0.25, beta=0.75, gamma=0.75, delta=0.25, p=0.5, q=0.5)
        lam = 0.0
    elif k % 9 == 3:
        pars = {"gamma": 0.0, "delta": 0.0, "q": 0.0}
    full = dict(alpha=0.5, beta=0.5, gamma=0.5, delta=0.5, p=0.5, q=0.5)
    full.update(pars)
    mon.case("asep", dict(L=L, lambd=lam, **full))
    with mon.guard("asep-raises"):
        hi = nk.hilbert.Qubit(L)
        op = AsymmetricSimpleExclusionProcess(hi, lambd=lam, **pars)
        xs = rng.integers(0, 2, (int(rng.integers(1, 7)), L))
        rowf = lambda x: asep_row(x, lam, **full)
        for x in (xs.astype(np.int8), xs.astype(np.float64), xs.astype(np.uint8)):
            keep = x.copy()
            sections = np.full(len(x), -987654321, dtype=np.int64)
            xp, mels = op.get_conn_flattened(x, sections)
            mon.check("asep-input-untouched", np.array_equal(keep, x))
            if mon.check("asep-sections", (np.diff(np.concatenate([[0], sections])) >= 0).all()
                         and sections[-1] == len(mels), sections=sections):
                s = 0
                for b, e in enumerate(sections):
                    compare_rows(mon, "asep-elements", row_sums(xp[s:e], mels[s:e]), rowf(xs[b]), x=xs[b],
                                 dtype=str(x.dtype))
                    s = e
            mon.check("asep-valid", np.isin(xp, [0, 1]).all())
        xp, mels = op.get_conn_padded(xs)
        for b in range(len(xs)):
            compare_rows(mon, "asep-elements", row_sums(xp[b], mels[b]), rowf(xs[b]), x=xs[b])
        if L <= 6:
            H = np.asarray(op.to_dense())
            W = ref.dense_from_rows(np.asarray(hi.all_states()).astype(int), rowf)
            mon.close("asep-dense", H, W, atol=1e-11)
            if lam == 0:
                mon.close("asep-probability-conservation", H.sum(1), np.zeros(len(H)), atol=1e-11)
            if op.is_hermitian:
                mon.close("asep-hermitian-flag", H, H.conj().T, atol=1e-11)
            elif k % 9 in (0, 1):
                mon.check("asep-hermitian-flag", False, problem="balanced process reported as non-hermitian")


def run(mon):
    mon.rule = ("random chains and grids (open/periodic, 1d/2d), couplings, sign rules (flag or per-shell sequence), sectors, "
                "plain and on-the-fly class; random exclusion-process rates, biases and lengths, configurations in 3 dtypes; "
                "every case is a full comparison of the reported elements with an independently built operator")
    mon.assumptions = ["neighbour shells by Euclidean distance; extents of at least 3 along periodic axes"]
    for kind in ("j1j2-elements", "j1j2-dense", "asep-elements", "asep-dense", "asep-hermitian-flag"):
        mon.require(kind, 20)
    n1, n2 = (600, 1500) if mon.thorough else (90, 220)
    for k in range(n1):
        j1j2_case(mon, k)
        if not mon.time_left():
            break
    for k in range(n2):
        asep_case(mon, k)
        if not mon.time_left():
            break
