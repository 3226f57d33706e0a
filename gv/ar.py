"""Autoregressive models: construction with random parameters, spaces with and without constraint, and an explicit loop reference."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
import netket as nk
from netket.utils import HashableArray
import GPSKet.models as M
from GPSKet.hilbert import FermionicDiscreteHilbert
from . import zoo

KINDS = ("ar", "armp", "arfull", "arfullM", "armpfull", "arplaq")
SPACES = ("spin", "spin0", "spinm", "fock", "spin1", "fermi", "fermiN")


# ---- constraints supplied by the user, as the fields count_spins / renormalize_log_psi document ----------------
def count_local(D):
    """Counts of every local state at one site: (B,) -> (B, D)."""
    return lambda s: (jnp.expand_dims(s, -1) == jnp.arange(D)).astype(jnp.int32)


def renorm_counts(target):
    """Forbid a local state once its allotted number is used up (spin-1/2 with any magnetisation)."""
    t = jnp.asarray(target)
    return lambda n, hilbert, index: jnp.where(n >= t, -jnp.inf, 0.0)


def renorm_fermi(nu, nd, L):
    def f(n, hilbert, index):
        up, dn = n[:, 1] + n[:, 3], n[:, 2] + n[:, 3]
        left = L - index
        need_u, need_d = nu - up, nd - dn
        au = jnp.stack([need_u < left, need_u > 0, need_u < left, need_u > 0], -1)     # 0, up, down, both
        ad = jnp.stack([need_d < left, need_d < left, need_d > 0, need_d > 0], -1)
        ok = au & ad
        # a configuration which left the sector already has zero amplitude: keep its conditionals defined
        lost = (need_u < 0) | (need_d < 0) | (need_u > left) | (need_d > left)
        return jnp.where(ok | lost[:, None], 0.0, -jnp.inf)
    return f


class Space:
    def __init__(self, name, L, rng):
        self.name, self.L = name, L
        self.kw = {}
        self.allowed = lambda idx: True
        self.mask = lambda pre, d: True              # may local state d follow the prefix
        if name == "spin":
            self.hi = nk.hilbert.Spin(0.5, L)
        elif name == "spin0":
            self.hi = nk.hilbert.Spin(0.5, L, total_sz=0)
            self.allowed = lambda idx: sum(idx) * 2 == L
            self.mask = lambda pre, d: list(pre).count(d) < L // 2
        elif name == "spinm":
            nup = int(rng.integers(0, L + 1))
            self.hi = nk.hilbert.Spin(0.5, L, total_sz=nup - L / 2)
            one = [float(v) for v in self.hi.local_states].index(1.0)
            t = [0, 0]
            t[one], t[1 - one] = nup, L - nup
            self.kw = dict(count_spins=count_local(2), renormalize_log_psi=renorm_counts(t))
            self.allowed = lambda idx: list(idx).count(one) == nup
            self.mask = lambda pre, d: list(pre).count(d) < t[d]
        elif name == "fock":
            self.hi = nk.hilbert.Fock(int(rng.integers(1, 4)), L)
        elif name == "spin1":
            self.hi = nk.hilbert.Spin(1, L)
        elif name == "fermi":
            self.hi = FermionicDiscreteHilbert(L)
        else:
            nu, nd = int(rng.integers(0, L + 1)), int(rng.integers(0, L + 1))
            self.hi = FermionicDiscreteHilbert(L, n_elec=(nu, nd))
            self.kw = dict(count_spins=count_local(4), renormalize_log_psi=renorm_fermi(nu, nd, L))
            cnt = lambda idx: (sum(i & 1 for i in idx), sum(i >> 1 for i in idx))
            self.allowed = lambda idx: cnt(idx) == (nu, nd)

            def mask(pre, d):
                u, dn = cnt(pre)
                left = L - len(pre)
                if u > nu or dn > nd or nu - u > left or nd - dn > left:
                    return True
                u2, d2 = u + (d & 1), dn + (d >> 1)
                return u2 <= nu and d2 <= nd and nu - u2 <= left - 1 and nd - d2 <= left - 1
            self.mask = mask
        self.ls = np.asarray(self.hi.local_states, dtype=float)
        self.D = len(self.ls)
        self.dtype = np.uint8 if "fermi" in name else np.float64

    def all_indices(self):
        return [t for t in itertools.product(range(self.D), repeat=self.L)]

    def states(self, idx):
        return self.ls[np.asarray(idx, dtype=int)].astype(self.dtype)

    def random_indices(self, rng, n):
        if self.hi.constrained:
            x = np.asarray(self.hi.random_state(jax.random.PRNGKey(int(rng.integers(1 << 30))), n))
            ls = [float(v) for v in self.ls]
            return [tuple(ls.index(float(v)) for v in r) for r in x]
        return [tuple(int(v) for v in r) for r in rng.integers(0, self.D, (n, self.L))]


class Case:
    """One randomly parametrised autoregressive model with its reference."""

    def __init__(self, kind, space, rng, L, M_=None, sym=None, normalize=True, pow_=2, scale=0.5, default_init=False):
        self.kind = kind
        sp = self.sp = Space(space, L, rng)
        self.L, self.D = L, sp.D
        M_ = M_ or int(rng.integers(1, 4))
        dt = jnp.float64 if kind in ("armp", "armpfull") or rng.integers(0, 3) == 0 else jnp.complex128
        kw = dict(dtype=dt, machine_pow=pow_, normalize=normalize, **sp.kw)
        self.pow, self.normalize = pow_, normalize
        # symmetry images as functions on local indices
        self.images = [lambda y: tuple(y)]
        if sym in ("trans", "reflect", "perm"):
            if sym == "trans":
                P = [list(p) for p in zoo.translations(L)]
            elif sym == "reflect":
                P = [list(range(L)), list(range(L))[::-1]]
            else:
                P = [[int(v) for v in rng.permutation(L)] for _ in range(3)]
            self.images = [lambda y, p=p: tuple(y[j] for j in p) for p in P]
            pair = zoo.sym_pair(P)
            kw["apply_symmetries"] = pair if kind in ("arfull", "arfullM", "armpfull") else pair[0]
        elif sym == "flip":                          # spin-1/2 only, acts on the raw configuration
            self.images = [lambda y: tuple(y), lambda y: tuple(1 - a for a in y)]
            f = lambda x: jnp.stack([x, -x], axis=-1)
            g = lambda occ, sites: (jnp.stack([occ, -occ], axis=-1), jnp.stack([sites, sites], axis=-1))
            kw["apply_symmetries"] = (f, g) if kind in ("arfull", "arfullM", "armpfull") else f
        self.M = M_
        self.plaq = self.mask = None
        if kind == "ar":
            m = M.ARqGPS(sp.hi, M_, **kw)
        elif kind == "armp":
            m = M.ARqGPSModPhase(sp.hi, M_, **kw)
        elif kind in ("arfull", "armpfull", "arfullM"):
            if kind == "arfullM":
                self.M = M_ = [int(v) for v in rng.integers(1, 4, L)]
                M_ = HashableArray(np.array(M_))
            kw["apply_fast_update"] = bool(rng.integers(0, 2)) or sym == "none"
            m = (M.ARqGPSModPhaseFull if kind == "armpfull" else M.ARqGPSFull)(sp.hi, M_, **kw)
        else:
            r = int(rng.integers(0, 2))
            if r == 0:
                from scipy.linalg import circulant
                pl = circulant(np.arange(L))
            else:
                pl = np.array([rng.permutation(L) for _ in range(L)])
            mk = np.where(pl >= np.arange(L)[:, None], 0, 1)
            if r == 1:                               # drop some of the earlier sites, too
                mk = mk * (rng.random(mk.shape) < 0.8)
            self.plaq, self.mask = pl, mk
            m = M.ARPlaquetteqGPS(sp.hi, M_, HashableArray(pl), HashableArray(mk.astype(int)), **kw)
        self.model = m
        x = sp.states(sp.random_indices(rng, 2))
        self.v = zoo.variables(m, int(rng.integers(1 << 30)), x, None if default_init else (lambda p: zoo.randomise(rng, p, scale, offset=1.0)))
        p = self.v["params"]
        self.eps = {k: np.asarray(a) for k, a in p.items() if not hasattr(a, "items")}
        self.phase = np.asarray(p["_qgps"]["epsilon"]) if "_qgps" in p else None
        self.desc = dict(ansatz=kind, space=space, hilbert=str(sp.hi)[:60], L=L, D=sp.D, M=self.M, sym=sym, dtype=str(np.dtype(dt)), normalize=normalize, pow=pow_, scale=scale)
        self._f = jax.jit(lambda v, x: m.apply(v, x))
        self._c = jax.jit(lambda v, x: m.apply(v, x, method=m.conditionals))

    def logpsi(self, idx):
        return np.asarray(self._f(self.v, jnp.asarray(self.sp.states(idx))))

    def cond(self, idx):
        return np.asarray(self._c(self.v, jnp.asarray(self.sp.states(idx))))

    # ---- reference -------------------------------------------------------------------------------
    def ref_log_cond(self, y, i):
        """log of the (normalised) conditional amplitudes at site i given y[:i]."""
        out = np.zeros(self.D, dtype=complex)
        Mi = self.M if not isinstance(self.M, list) else self.M[i]
        for m in range(Mi):
            if self.kind in ("ar", "armp"):
                e = self.eps["epsilon"]
                pr = 1.0
                for j in range(i):
                    pr = pr * e[y[j], m, j]
                out = out + e[:, m, i] * pr
            elif self.kind in ("arfull", "armpfull", "arfullM"):
                if self.kind == "arfullM":
                    e, off = self.eps[f"epsilon_{i}"], 0
                else:
                    e, off = self.eps["epsilon"], i * (i + 1) // 2
                pr = 1.0
                for j in range(i):
                    pr = pr * e[y[j], m, off + j]
                out = out + e[:, m, off + i] * pr
            else:
                e = self.eps["epsilon"]
                pr = 1.0
                for j in range(self.L):
                    if self.mask[i, j]:
                        pr = pr * e[y[self.plaq[i, j]], m, j]
                out = out + e[:, m, 0] * pr
        if self.sp.hi.constrained:
            for d in range(self.D):
                if not self.sp.mask(y[:i], d):
                    out[d] = complex(-np.inf, out[d].imag)
        if self.normalize:
            a = self.pow * out.real
            mx = a.max()
            out = out - (mx + np.log(np.exp(a - mx).sum())) / self.pow
        return out

    def ref_parts(self, y):
        """(log modulus, phase) of the unsymmetrised amplitude."""
        re, im = 0.0, 0.0
        for i in range(self.L):
            c = self.ref_log_cond(y, i)[y[i]]
            re, im = re + c.real, im + c.imag
        return re, im

    def ref_logpsi(self, idx):
        parts = [self.ref_parts(f(idx)) for f in self.images]
        a = self.pow * np.array([p[0] for p in parts])
        mx = a.max()
        re = -np.inf if mx == -np.inf else (mx + np.log(np.mean(np.exp(a - mx)))) / self.pow
        im = np.angle(np.sum(np.exp(1j * np.array([p[1] for p in parts]))))
        if self.phase is not None:
            g = 0.0
            for m in range(self.phase.shape[1]):
                pr = 1.0
                for i, d in enumerate(idx):
                    pr = pr * self.phase[d, m, i]
                g += pr
            im = im + g
        return re, im


def draw(rng, k, kind=None):
    """A random case specification: (kind, space, L, symmetry)."""
    kind = kind or KINDS[k % len(KINDS)]
    space = SPACES[int(rng.integers(0, len(SPACES)))]
    top = {"spin": 7, "spin0": 8, "spinm": 7, "fock": 4, "spin1": 4, "fermi": 3, "fermiN": 3}[space]
    L = int(rng.integers(1, top + 1))
    if space == "spin0":
        L = max(2, L - L % 2)
    syms = [None, None, "trans", "reflect"]
    if space in ("spin", "spin0"):
        syms.append("flip")
    return kind, space, L, syms[int(rng.integers(0, len(syms)))]
