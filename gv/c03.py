"""C03  On-the-fly fermionic local energies == reference row x amplitude ratios."""
import numpy as np
import jax
import jax.numpy as jnp
import netket as nk
from GPSKet.hilbert import FermionicDiscreteHilbert
from GPSKet.operator.hamiltonian import FermiHubbardOnTheFly, AbInitioHamiltonianOnTheFly, AbInitioHamiltonianSparse
from . import ref, zoo
from .util import rand_edges

SHARDS = 8


def reference(model, v, rows):
    """(local energies, sum of moduli) by explicit summation over the reference rows."""
    need = sorted({c for src, row in rows for c in row} | {src for src, _ in rows})
    amp = dict(zip(need, zoo.amplitudes(model, v, np.array(need, dtype=np.uint8), pad=128)))
    e, scale = [], []
    for src, row in rows:
        t = [m * np.exp(amp[c] - amp[src]) for c, m in row.items()]
        e.append(sum(t))
        scale.append(sum(abs(w) for w in t))
    return np.array(e), np.array(scale)


def pool(rng, L, n_elec, n=200):
    if L <= 6:
        return np.asarray(ref.fermion_states(L, n_elec), dtype=np.uint8)
    x = np.zeros((n, L), dtype=np.uint8)
    for k in range(n):
        x[k, rng.permutation(L)[: n_elec[0]]] += 1
        x[k, rng.permutation(L)[: n_elec[1]]] += 2
    return x


def build(kind, hi, rng, L):
    """(operator, row function)."""
    if kind == "hubbard":
        n = int(rng.integers(1, 2 * L))
        edges = rand_edges(rng, L, n)
        if rng.integers(0, 2):
            t = rng.normal(size=len(edges))
        else:
            t = float(rng.normal())
        U = float(rng.normal() * 3)
        op = FermiHubbardOnTheFly(hi, edges=edges, U=U, t=t)
        tt = t if not np.isscalar(t) else [t] * len(edges)
        return op, lambda x: ref.hubbard_row(x, edges, tt, U)
    sp = float(rng.choice([0.0, 0.5, 0.85]))
    h = ref.random_h(rng, L, sp)
    eri = ref.random_eri(rng, L, sp)
    cls = AbInitioHamiltonianOnTheFly if kind == "dense" else AbInitioHamiltonianSparse
    return cls(hi, h, eri), lambda x: ref.abinitio_row(x, h, eri)


def one(mon, k, kind, name, fast, L, n_elec, reps, dtype=jnp.complex128, chunk=None):
    rng = mon.rng("c03", k)
    hi = FermionicDiscreteHilbert(L, n_elec=n_elec)
    states = pool(rng, L, n_elec)
    perms = zoo.translations(L) if name in ("qgps_sym", "slater_ms") else None
    model, pf = zoo.fermion_model(name, hi, rng, fast=fast, dtype=dtype, perms=perms)
    tag = f"{kind}-on-the-fly"
    vs = None
    nb = int(min(len(states), 12 if len(states) > 12 else len(states)))
    for r in range(reps):
        with mon.guard(f"{tag}-raises", model=name, fast=fast, L=L, n_elec=n_elec):
            v = zoo.variables(model, int(rng.integers(1 << 30)), states[:1], pf)
            if vs is None:
                vs = zoo.make_vstate(model, hi, v, n_samples=16)
            else:
                vs.parameters = v["params"]
            op, rowfun = build(kind, hi, rng, L)
            amp = zoo.amplitudes(model, v, states)
            good = np.isfinite(amp) & (amp.real > np.max(amp.real) - 12)
            pick = rng.permutation(np.nonzero(good)[0])[:nb]
            if len(pick) == 0:
                continue
            pick = np.resize(pick, nb)
            xs = states[pick]
            want, scale = reference(model, v, [(tuple(int(c) for c in x), rowfun(x)) for x in xs])
            mon.case(tag, dict(model=name, fast=fast, L=L, n_elec=n_elec, r=r, chunk=chunk, dtype=str(np.dtype(dtype)),
                               edges=None if kind != "hubbard" else len(op.edges)), nontrivial=L > 1)
            ctx = dict(model=name, fast=fast, L=L, n_elec=n_elec)
            dts = [np.uint8, np.int8, np.float64] if r == 0 and chunk else [np.uint8]
            for dt in dts:
                got = zoo.local_energies(vs, op, xs.astype(dt))
                mon.close(f"{tag}-energy", (got - want) / (1 + scale), np.zeros_like(got), atol=1e-7, rtol=0, dtype=str(dt), x=xs, got_=got, want_=want, **ctx)
            if r == 0 and chunk:
                for c in chunk:
                    got = zoo.local_energies(vs, op, xs.astype(np.uint8), chunk_size=c)
                    mon.close(f"{tag}-chunked", (got - want) / (1 + scale), np.zeros_like(got), atol=1e-7, rtol=0, chunk=c, **ctx)
                # the reported expectation value is the mean of the local energies of these samples
                vs._samples = jnp.asarray(xs.reshape(1, *xs.shape))
                st = vs.expect(op)
                mon.close(f"{tag}-expect", (complex(st.mean) - np.mean(want)) / (1 + np.mean(scale)), 0.0, atol=1e-7, rtol=0, **ctx)


QUICK = [
    # kind, model, fast, L, n_elec, reps, dtype, chunks
    ("hubbard", "qgps", True, 5, None, 4, jnp.complex128, (3,)),
    ("hubbard", "slater_on", True, 5, (2, 3), 4, jnp.complex128, None),
    ("hubbard", "cpd_u", True, 4, (2, 1), 3, jnp.complex128, None),
    ("hubbard", "sj", False, 4, (2, 2), 2, jnp.complex128, (5,)),
    ("hubbard", "sg", True, 4, (2, 2), 3, jnp.complex128, None),
    ("hubbard", "qgps_sym", True, 11, (6, 4), 3, jnp.float64, None),
    ("hubbard", "backflow", True, 4, (2, 2), 2, jnp.complex128, None),
    ("dense", "qgps", True, 5, (2, 3), 4, jnp.complex128, (5,)),
    ("dense", "slater", True, 5, (3, 2), 4, jnp.complex128, None),
    ("dense", "qgps", False, 7, (4, 3), 2, jnp.complex128, None),
    ("dense", "slater_ms", True, 4, (1, 3), 3, jnp.complex128, None),
    ("dense", "qgps", True, 3, (0, 2), 2, jnp.complex128, None),
    ("dense", "qgps", True, 3, (3, 1), 2, jnp.complex128, None),
    ("dense", "jastrow", False, 4, (2, 2), 2, jnp.complex128, None),
    ("sparse", "qgps", True, 5, (2, 3), 4, jnp.complex128, (4,)),
    ("sparse", "slater", True, 5, (3, 2), 4, jnp.complex128, None),
    ("sparse", "qgps", False, 4, (2, 2), 3, jnp.complex128, None),
    ("sparse", "sj", True, 4, (2, 2), 3, jnp.complex128, None),
    ("sparse", "slater_gen", True, 7, (4, 3), 2, jnp.complex128, None),
    ("sparse", "qgps", True, 3, (2, 0), 2, jnp.complex128, None),
    ("sparse", "qgps", True, 3, (3, 3), 2, jnp.complex128, None),
    ("sparse", "qgps_sym", True, 6, (2, 1), 3, jnp.float64, None),
    ("dense", "asymm", True, 4, (2, 2), 2, jnp.complex128, None),
    ("dense", "cpd", True, 4, (2, 2), 2, jnp.complex128, None),
    ("sparse", "backflow_u", True, 4, (2, 1), 2, jnp.complex128, None),
]


def run(mon):
    mon.rule = ("case = (Hamiltonian kind, ansatz, fast updates on/off, sector, random parameters and couplings); non-trivial = more "
                "than one site. Every sampled configuration's local energy is compared with an explicit sum over the reference row.")
    mon.assumptions = ["amplitudes of connected configurations come from the model's plain evaluation (decided by C09/C10)",
                       "configurations with |psi| below e^-12 of the largest amplitude are not compared (ill-conditioned ratio)"]
    for k, c in mon.mine(list(enumerate(QUICK))):
        if not mon.time_left():
            break
        one(mon, k, *c[:6], dtype=c[6], chunk=c[7])
    for kind in ("hubbard", "dense", "sparse"):
        mon.require(f"{kind}-on-the-fly-energy", 40)
        mon.require(f"{kind}-on-the-fly-chunked", 3)
    if mon.thorough:
        names = [n for n in zoo.FERMION]
        k = 1000 + mon.shard[0]
        while mon.time_left() and k < 1000 + mon.shard[1] * 60:
            rng = mon.rng("pick", k)
            kind = ["hubbard", "dense", "sparse"][int(rng.integers(0, 3))]
            L = int(rng.integers(2, 6 if kind != "hubbard" else 7))
            name = names[int(rng.integers(0, len(names)))]
            ne = (int(rng.integers(1, L + 1)), int(rng.integers(1, L + 1)))
            if name in ("qgps", "qgps_sym", "jastrow") and rng.integers(0, 3) == 0:
                ne = (int(rng.integers(0, L + 1)), int(rng.integers(0, L + 1)))
            real = name in ("qgps", "slater") and rng.integers(0, 3) == 0
            one(mon, k, kind, name, bool(rng.integers(0, 4)), L, ne, 4, dtype=jnp.float64 if real else jnp.complex128,
                chunk=(int(rng.integers(1, 13)),))
            k += mon.shard[1]
