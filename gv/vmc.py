"""Variational Monte Carlo reference quantities: per-sample log-derivatives (finite differences of the plain model
evaluation), local energies (explicit reference rows), and the problems the optimisation checks (C16-C24) run on."""
import numpy as np
import jax
import jax.numpy as jnp
import netket as nk
from GPSKet.hilbert import FermionicDiscreteHilbert
from GPSKet.operator.hamiltonian import (FermiHubbardOnTheFly, AbInitioHamiltonianOnTheFly, AbInitioHamiltonianSparse,
                                         get_J1_J2_Hamiltonian, FermiHubbard)
from . import ref, zoo
from .c02 import j1j2_row
from .util import rand_edges


# ---- parameters as one real vector ---------------------------------------------------------
class Real:
    """Bijection between a parameter tree and a real vector: per leaf first all real, then all imaginary parts."""
    def __init__(self, params):
        self.leaves, self.tree = jax.tree_util.tree_flatten(params)
        self.leaves = [np.asarray(l) for l in self.leaves]
        self.slots = []                     # (leaf, part, start, stop)
        n = 0
        for k, l in enumerate(self.leaves):
            for part in (("re", "im") if np.iscomplexobj(l) else ("re",)):
                self.slots.append((k, part, n, n + l.size))
                n += l.size
        self.n = n

    def vec(self, params):
        ls = [np.asarray(l) for l in jax.tree_util.tree_leaves(params)]
        out = np.zeros(self.n)
        for k, part, a, b in self.slots:
            out[a:b] = (ls[k].real if part == "re" else ls[k].imag).ravel()
        return out

    def tree_of(self, r, xp=jnp):
        """Parameter tree from a real vector (jax or numpy)."""
        acc = [None] * len(self.leaves)
        for k, part, a, b in self.slots:
            v = r[a:b].reshape(self.leaves[k].shape)
            v = v if part == "re" else 1j * v
            acc[k] = v if acc[k] is None else acc[k] + v
        acc = [xp.asarray(v).astype(l.dtype) for v, l in zip(acc, self.leaves)]
        return jax.tree_util.tree_unflatten(self.tree, acc)

    def split(self, r):
        """[(real part, imaginary part or None)] per leaf."""
        out = [[None, None] for _ in self.leaves]
        for k, part, a, b in self.slots:
            out[k][0 if part == "re" else 1] = np.asarray(r)[a:b].reshape(self.leaves[k].shape)
        return out

    def parts_order(self):
        """Indices of this vector in the order [all real parts of every leaf, all imaginary parts of every leaf]
        used by dense tensors of real-imaginary split parameters (leaf by leaf in each half)."""
        re = [i for k, p, a, b in self.slots for i in range(a, b) if p == "re"]
        im = [i for k, p, a, b in self.slots for i in range(a, b) if p == "im"]
        return np.array(re + im)


_FD = {}


def logder(model, v, xs, h=2e-3):
    """d log psi(x) / d r for the real parameter vector r: complex (N, R), fourth-order central differences of the plain
    evaluation with phases compared modulo 2 pi, refined by forward-mode derivatives where both agree."""
    xs = jnp.asarray(xs)
    params = v["params"]
    rest = {k: w for k, w in v.items() if k != "params"}
    R = Real(params)
    key = (id(model), xs.shape, str(xs.dtype), R.n)
    if key not in _FD:
        def f(rvecs, xs, rest):
            return jax.lax.map(lambda r: model.apply({"params": R.tree_of(r), **rest}, xs), rvecs)

        def jac(r0, xs, rest):
            g = lambda r: model.apply({"params": R.tree_of(r), **rest}, xs)
            return jax.lax.map(lambda e: jax.jvp(g, (r0,), (e,))[1], jnp.eye(R.n))
        _FD[key] = (model, jax.jit(f), jax.jit(jac))
    f = _FD[key][1]
    r0 = R.vec(params)
    E = np.eye(R.n)

    def diff(a, b):
        d = a - b
        return d.real + 1j * (np.mod(d.imag + np.pi, 2 * np.pi) - np.pi)

    def fd_at(h):
        pts = np.concatenate([r0 + s * h * E for s in (1, -1, 2, -2)])
        val = np.asarray(f(jnp.asarray(pts), xs, rest)).reshape(4, R.n, -1)
        d1, d2 = diff(val[0], val[1]), diff(val[2], val[3])
        return ((8 * d1 - d2) / (12 * h)).T
    fd = fd_at(h)
    big = ~(np.abs(fd) < 0.1 / h)
    if big.any():                           # close to a node: a smaller distance
        fd = np.where(big.any(1)[:, None], fd_at(h / 100), fd)
    ad = np.asarray(_FD[key][2](jnp.asarray(r0), xs, rest)).T
    # forward-mode values where the differences confirm them (they carry no truncation error), the differences elsewhere
    return np.where(np.abs(ad - fd) < 1e-4 * (1 + np.abs(fd)) ** 2, ad, fd), R


def local(model, v, rowfun, xs, dtype=None):
    """(local energies, sums of moduli): explicit sum over the reference rows; amplitudes from the plain evaluation."""
    xs = np.asarray(xs)
    rows = [(tuple(x.tolist()), rowfun(x)) for x in xs]
    need = sorted({c for s, row in rows for c in row} | {s for s, _ in rows})
    n = 64
    while n < len(need):
        n *= 2
    arr = np.array(need, dtype=dtype or xs.dtype)
    amp = dict(zip(need, zoo.amplitudes(model, v, arr, pad=min(n, 512))))
    e, sc = [], []
    for s, row in rows:
        t = [m * np.exp(amp[c] - amp[s]) for c, m in row.items()]
        e.append(sum(t))
        sc.append(sum(abs(w) for w in t))
    return np.array(e), np.array(sc)


def grad_reference(O, R, E, w):
    """Gradient tree by the covariance formula with weights w (sum one): real parameters 2 Re F, complex 2 (Re F_x + i Re F_y),
    F = sum w conj(O - <O>) (E - <E>)."""
    Eb = np.sum(w * E)
    Ob = np.sum(w[:, None] * O, 0)
    F = np.sum(w[:, None] * np.conj(O - Ob) * (E - Eb)[:, None], 0).real
    out = []
    for re, im in R.split(F):
        out.append(2 * re if im is None else 2 * (re + 1j * im))
    return jax.tree_util.tree_unflatten(R.tree, out), F


# ---- problems ---------------------------------------------------------------------------------
def problem(rng, kind, name, L=4, ne=(2, 2), fast=True, dtype=jnp.complex128):
    """dict(hi, op, row, states, model, v, pf); states: all (or a random pool of) configurations of the space."""
    if kind in ("hubbard", "dense", "sparse", "hubbard-plain"):
        hi = FermionicDiscreteHilbert(L, n_elec=ne)
        states = np.asarray(ref.fermion_states(L, ne), dtype=np.uint8)
        perms = zoo.translations(L) if name in ("qgps_sym", "slater_ms") else None
        model, pf = zoo.fermion_model(name, hi, rng, fast=fast, dtype=dtype, perms=perms)
        if kind.startswith("hubbard"):
            edges = rand_edges(rng, L, int(rng.integers(2, 2 * L)))
            U = float(3 * rng.normal())
            t = rng.normal(size=len(edges))
            op = (FermiHubbardOnTheFly if kind == "hubbard" else FermiHubbard)(hi, edges=edges, U=U, t=t)
            row = lambda x: ref.hubbard_row(x, edges, t, U)
        else:
            h, eri = ref.random_h(rng, L, 0.2), ref.random_eri(rng, L, 0.2)
            op = (AbInitioHamiltonianOnTheFly if kind == "dense" else AbInitioHamiltonianSparse)(hi, h, eri)
            row = lambda x: ref.abinitio_row(x, h, eri)
    elif kind in ("heis", "heis-plain"):
        J1, J2 = float(rng.normal()), float(rng.normal())
        sz = 0.5 * (L % 2)
        op = get_J1_J2_Hamiltonian(L, J1=J1, J2=J2, sign_rule=(False, False), total_sz=sz, on_the_fly_en=kind == "heis", pbc=L > 4)
        hi = op.hilbert
        e1, e2 = ref.grid_neighbours(L, None, L > 4)
        row = lambda x: j1j2_row(x, e1, e2, J1, J2, False, False)
        states = np.asarray(hi.all_states())
        model, pf = zoo.spin_model(name, hi, rng, fast=fast, dtype=dtype, graph=nk.graph.Chain(L, pbc=L > 4), spin_flip=(sz == 0))
    elif kind == "ising":
        hi = nk.hilbert.Spin(0.5, N=L)
        hf, J = float(rng.normal()), float(rng.normal())
        op = nk.operator.Ising(hi, nk.graph.Chain(L), h=hf, J=J)

        def row(x):
            key = tuple(x.tolist())
            out = {key: J * sum(x[i] * x[(i + 1) % L] for i in range(L))}
            for i in range(L):
                y = list(key)
                y[i] = -y[i]
                out[tuple(y)] = out.get(tuple(y), 0.0) - hf
            return out
        states = np.asarray(hi.all_states())
        model, pf = zoo.spin_model(name, hi, rng, fast=fast, dtype=dtype, graph=nk.graph.Chain(L))
    else:
        raise KeyError(kind)
    v = zoo.variables(model, int(rng.integers(1 << 30)), states[:1], pf)
    return dict(hi=hi, op=op, row=row, states=states, model=model, v=v, pf=pf, kind=kind, name=name, L=L)


def pick(rng, P, v, n):
    """n configurations (with repetitions) drawn from |psi|^2-tempered probabilities: no vanishing amplitudes."""
    amp = zoo.amplitudes(P["model"], v, P["states"])
    lr = np.where(np.isfinite(amp), amp.real, -np.inf)
    w = np.where(lr > lr.max() - 6, np.exp(0.7 * (lr - lr.max())), 0.0)
    return P["states"][rng.choice(len(w), size=n, p=w / w.sum())]


def samplable(P):
    """A sampler valid for the model's space (fixed magnetisation / particle number conserving moves)."""
    hi, L = P["hi"], P["L"]
    if P["kind"] == "ising":
        return lambda **kw: nk.sampler.MetropolisLocal(hi, **kw)
    g = nk.graph.Graph(edges=[(i, j) for i in range(L) for j in range(i + 1, L)])
    return lambda **kw: nk.sampler.MetropolisExchange(hi, graph=g, **kw)
