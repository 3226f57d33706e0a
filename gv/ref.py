"""Independent reference models (plain numpy, no GPSKet code): second quantisation by explicit operator
strings on occupation-number bitstrings, spin-1/2 operators by Kronecker products, graph helpers."""
import itertools

import numpy as np


# ---------------------------------------------------------------- fermions
# A configuration is a vector over {0,1,2,3}: bit 0 = up electron, bit 1 = down electron.
# Mode order: all up modes by site, then all down modes by site.
def modes(x):
    x = np.asarray(x).astype(int)
    return tuple(x & 1) + tuple((x >> 1) & 1)


def unmodes(m):
    n = len(m) // 2
    return np.array([m[i] + 2 * m[n + i] for i in range(n)], dtype=np.uint8)


def annihilate(m, k):
    if m is None or m[0][k] == 0:
        return None
    occ, s = m
    sign = -1 if sum(occ[:k]) % 2 else 1
    return occ[:k] + (0,) + occ[k + 1:], s * sign


def create(m, k):
    if m is None or m[0][k] == 1:
        return None
    occ, s = m
    sign = -1 if sum(occ[:k]) % 2 else 1
    return occ[:k] + (1,) + occ[k + 1:], s * sign


def fermion_states(L, n_elec=None):
    if n_elec is None:
        return np.array(list(itertools.product(range(4), repeat=L)), dtype=np.uint8)
    out = []
    for u in itertools.combinations(range(L), n_elec[0]):
        for d in itertools.combinations(range(L), n_elec[1]):
            x = np.zeros(L, dtype=np.uint8)
            x[list(u)] += 1
            x[list(d)] += 2
            out.append(x)
    return np.array(out, dtype=np.uint8).reshape(-1, L)


def add(row, m, v):
    if m is not None:
        key = tuple(unmodes(m[0]))
        row[key] = row.get(key, 0.0) + v * m[1]


def hubbard_row(x, edges, t, U):
    """<x|H|x'> for all x' (H real symmetric): dict config -> element."""
    L = len(x)
    m0 = (modes(x), 1)
    row = {tuple(np.asarray(x).astype(int)): 0.0}
    row[tuple(np.asarray(x).astype(int))] += U * sum(1 for v in x if int(v) == 3)
    for (i, j), tt in zip(edges, t):
        for s in (0, L):
            add(row, create(annihilate(m0, i + s), j + s), -tt)
            add(row, create(annihilate(m0, j + s), i + s), -tt)
    return row


def abinitio_row(x, h, eri):
    """<x|H|x'> with H = sum h_pq c+_p c_q + 1/2 sum (pq|rs) c+_p c+_r c_s c_q (chemists' notation).

    Built as H|x> for real integrals with the usual permutational symmetry (so the row equals the column)."""
    L = len(x)
    m0 = (modes(x), 1)
    row = {tuple(np.asarray(x).astype(int)): 0.0}
    for s in (0, L):
        for p in range(L):
            for q in range(L):
                if h[p, q] != 0:
                    add(row, create(annihilate(m0, q + s), p + s), h[p, q])
    for s1 in (0, L):
        for s2 in (0, L):
            for q in range(L):
                a1 = annihilate(m0, q + s1)
                if a1 is None:
                    continue
                for s in range(L):
                    a2 = annihilate(a1, s + s2)
                    if a2 is None:
                        continue
                    for r in range(L):
                        c1 = create(a2, r + s2)
                        if c1 is None:
                            continue
                        for p in range(L):
                            v = eri[p, q, r, s]
                            if v != 0:
                                add(row, create(c1, p + s1), 0.5 * v)
    return row


def dense_from_rows(states, rowfun):
    idx = {tuple(int(v) for v in s): i for i, s in enumerate(states)}
    H = np.zeros((len(states), len(states)), dtype=np.complex128)
    for i, s in enumerate(states):
        for k, v in rowfun(s).items():
            H[i, idx[tuple(int(a) for a in k)]] += v
    return H


def random_eri(rng, L, sparsity=0.0, scale=1.0):
    e = rng.normal(size=(L,) * 4) * scale
    if sparsity > 0:
        e = e * (rng.random(e.shape) > sparsity)
    e = e + e.transpose(1, 0, 2, 3)
    e = e + e.transpose(0, 1, 3, 2)
    e = e + e.transpose(2, 3, 0, 1)
    return e / 4


def random_h(rng, L, sparsity=0.0):
    h = rng.normal(size=(L, L))
    if sparsity > 0:
        h = h * (rng.random(h.shape) > sparsity)
    return (h + h.T) / 2


# ---------------------------------------------------------------- spins
SX = np.array([[0, 1], [1, 0]], dtype=complex)
SY = np.array([[0, -1j], [1j, 0]], dtype=complex)
SZ = np.array([[1, 0], [0, -1]], dtype=complex)


def embed(ops, L):
    """ops: dict site -> 2x2; Kronecker product, site 0 most significant."""
    m = np.array([[1.0 + 0j]])
    for i in range(L):
        m = np.kron(m, ops.get(i, np.eye(2)))
    return m


def grid_neighbours(Lx, Ly, pbc):
    """(nearest, next-nearest) edge sets of a chain (Ly None) or an Lx x Ly grid, sites row-major.

    Neighbour shells are defined by Euclidean distance (minimum image)."""
    if Ly is None:
        pos = [(i,) for i in range(Lx)]
        dims = (Lx,)
    else:
        pos = [(i, j) for i in range(Lx) for j in range(Ly)]
        dims = (Lx, Ly)
    e1, e2 = set(), set()
    target = (1, 4) if Ly is None else (1, 2)
    for a in range(len(pos)):
        for b in range(len(pos)):
            if a == b:
                continue
            for shift in itertools.product(*[((0, d, -d) if pbc else (0,)) for d in dims]):
                d2 = sum((pos[b][k] + shift[k] - pos[a][k]) ** 2 for k in range(len(dims)))
                if d2 == target[0]:
                    e1.add((min(a, b), max(a, b)))
                if d2 == target[1]:
                    e2.add((min(a, b), max(a, b)))
    return sorted(e1), sorted(e2)
