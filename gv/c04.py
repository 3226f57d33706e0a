"""C04  On-the-fly Heisenberg local energies == reference row x amplitude ratios."""
import numpy as np
import jax
import jax.numpy as jnp
import netket as nk
from GPSKet.operator.hamiltonian import get_J1_J2_Hamiltonian
from GPSKet.operator.hamiltonian.J1J2 import HeisenbergOnTheFly
from . import ref, zoo
from .c02 import j1j2_row, spin_states

SHARDS = 5


def free_heisenberg_row(x, bonds):
    """bonds: (i, j, J, sign) of J * (sigma.sigma) with the exchange part multiplied by sign."""
    key = tuple(int(v) for v in x)
    row = {key: 0.0}
    for i, j, J, s in bonds:
        a, b = int(x[i]), int(x[j])
        row[key] += J * a * b
        if a != b:
            y = list(key)
            y[i], y[j] = b, a
            row[tuple(y)] = row.get(tuple(y), 0.0) + s * 2 * J
    return row


def build(rng, how):
    """(operator, row function, graph, total_sz)."""
    if how == "graph":
        L = int(rng.integers(3, 8))
        edges = []
        tree = bool(rng.integers(0, 2))      # bipartite graphs allow a sign rule
        for i in range(L):
            for j in range(i + 1, L):
                if (rng.random() < 0.5 and not (tree and (j - i) % 2 == 0)) or j == i + 1:
                    edges.append((i, j) if rng.random() < 0.5 else (j, i))
        order = rng.permutation(len(edges))
        edges = [edges[o] for o in order]
        colours = [int(c) for c in rng.integers(0, 2, len(edges))]
        if len(set(colours)) == 1:
            colours[0] = 1 - colours[0]
        g = nk.graph.Graph(edges=[(i, j, c) for (i, j), c in zip(edges, colours)])
        J = [float(v) for v in rng.normal(size=2)]
        sr = [bool(v) and g.is_bipartite() for v in rng.integers(0, 2, 2)]
        hi = nk.hilbert.Spin(0.5, N=L, total_sz=0.5 * (L % 2), inverted_ordering=bool(rng.integers(0, 2)))
        op = HeisenbergOnTheFly(hi, g, J=J, sign_rule=sr)
        bonds = [(i, j, J[c], -1 if sr[c] else 1) for (i, j), c in zip(edges, colours)]
        return op, lambda x: free_heisenberg_row(x, bonds), nk.graph.Chain(L), 0.5 * (L % 2)
    pbc = bool(rng.integers(0, 2))
    if how == "chain":
        Lx, Ly = int(rng.integers(5, 12)), None
        dims = [Lx]
    else:
        Lx, Ly = [(4, 3), (3, 3), (2, 4), (4, 4)][int(rng.integers(0, 4))]
        dims = [Lx, Ly]
        if min(dims) < 3:
            pbc = False
    N = int(np.prod(dims))
    J1 = float(rng.normal())
    J2 = float(rng.normal()) if rng.integers(0, 2) else 0.0
    bip = not pbc or all(d % 2 == 0 for d in dims)
    sr = bool(rng.integers(0, 2)) and bip
    sz = 0.5 * (N % 2) + float(rng.integers(-1, 2))
    op = get_J1_J2_Hamiltonian(Lx, Ly, J1=J1, J2=J2, sign_rule=sr if J2 == 0 else (sr, False), total_sz=sz,
                               on_the_fly_en=True, pbc=pbc)
    e1, e2 = ref.grid_neighbours(Lx, Ly, pbc)
    g = nk.graph.Chain(Lx, pbc=pbc) if Ly is None else nk.graph.Grid([Lx, Ly], pbc=pbc)
    return op, lambda x: j1j2_row(x, e1, e2 if J2 != 0 else [], J1, J2, sr, False), g, sz


def one(mon, k, how, name, fast, dtype=jnp.complex128, chunk=None, reps=3):
    rng = mon.rng("c04", k)
    with mon.guard("spin-on-the-fly-raises", model=name, fast=fast, how=how):
        op, rowfun, g, sz = build(rng, how)
        hi = op.hilbert
        L = hi.size
        model, pf = zoo.spin_model(name, hi, rng, fast=fast, dtype=dtype, graph=g, spin_flip=(sz == 0))
        vs = None
        for r in range(reps):
            xs = spin_states(rng, L, sz, 10)
            v = zoo.variables(model, int(rng.integers(1 << 30)), xs[:1], pf)
            if vs is None:
                vs = zoo.make_vstate(model, hi, v, sampler=nk.sampler.MetropolisExchange(hi, graph=nk.graph.Complete(L) if hasattr(nk.graph, "Complete") else g, n_chains=2))
            else:
                vs.parameters = v["params"]
            rows = [(tuple(int(c) for c in x), rowfun(x)) for x in xs]
            amp = zoo.amplitudes(model, v, xs)
            if not np.isfinite(amp).all():
                continue
            want, scale = reference_spin(model, v, rows)
            ctx = dict(model=name, fast=fast, L=L, how=how)
            mon.case("spin-on-the-fly", dict(ctx, r=r, sz=sz, chunk=chunk, dtype=str(np.dtype(dtype))))
            for dt in ([np.float64, np.int8] if (r == 0 and chunk) else [np.float64]):
                got = zoo.local_energies(vs, op, xs.astype(dt))
                mon.close("spin-on-the-fly-energy", (got - want) / (1 + scale), np.zeros_like(got), atol=1e-8, rtol=0,
                          got_=got, want_=want, dtype=str(dt), **ctx)
            if r == 0 and chunk:
                got = zoo.local_energies(vs, op, xs, chunk_size=chunk)
                mon.close("spin-on-the-fly-chunked", (got - want) / (1 + scale), np.zeros_like(got), atol=1e-8, rtol=0, chunk=chunk, **ctx)
                vs._samples = jnp.asarray(xs.reshape(2, 5, L))
                st = vs.expect(op)
                mon.close("spin-on-the-fly-expect", (complex(st.mean) - np.mean(want)) / (1 + np.mean(scale)), 0.0, atol=1e-8, rtol=0, **ctx)


def reference_spin(model, v, rows):
    need = sorted({c for src, row in rows for c in row} | {src for src, _ in rows})
    amp = dict(zip(need, zoo.amplitudes(model, v, np.array(need, dtype=np.float64), pad=64)))
    e, scale = [], []
    for src, row in rows:
        t = [m * np.exp(amp[c] - amp[src]) for c, m in row.items()]
        e.append(sum(t))
        scale.append(sum(abs(w) for w in t))
    return np.array(e), np.array(scale)


QUICK = [(how, name, fast, dt, ch)
         for how, name, fast, dt, ch in [
    ("chain", "qgps", True, jnp.complex128, 3), ("grid", "qgps_sym", True, jnp.complex128, None),
    ("graph", "qgps", True, jnp.float64, None), ("graph", "plaq", True, jnp.complex128, 4),
    ("chain", "plaq_sym", True, jnp.complex128, None), ("chain", "arfull", True, jnp.complex128, None),
    ("chain", "armpfull", True, jnp.float64, None), ("grid", "qgps", False, jnp.complex128, 7),
    ("graph", "rbm", False, jnp.complex128, None), ("chain", "ar", False, jnp.complex128, None),
    ("grid", "plaq", False, jnp.complex128, None), ("chain", "qgps_trans", True, jnp.complex128, None),
    ("graph", "qgps_trans", True, jnp.complex128, None), ("grid", "qgps", True, jnp.complex128, None),
    ("graph", "arfull", True, jnp.float64, None), ("chain", "qgps_sym", False, jnp.float64, None)]]


def run(mon):
    mon.rule = ("case = (lattice or free graph with couplings and sign rules, ansatz, fast updates on/off, parameters); "
                "non-trivial = all. Each configuration's local energy is compared with the explicit sum over its reference row.")
    mon.assumptions = ["amplitudes of connected configurations come from the model's plain evaluation (decided by C09/C11)"]
    for k, c in mon.mine(list(enumerate(QUICK * 6))):
        if mon.time_left():
            one(mon, k, c[0], c[1], c[2], dtype=c[3], chunk=c[4])
    mon.require("spin-on-the-fly-energy", 100)
    mon.require("spin-on-the-fly-chunked", 5)
    if mon.thorough:
        for k in range(1000 + mon.shard[0], 1000 + 120 * mon.shard[1], mon.shard[1]):
            if not mon.time_left():
                break
            rng = mon.rng("pick", k)
            one(mon, k, ["chain", "grid", "graph"][int(rng.integers(0, 3))], zoo.SPIN[int(rng.integers(0, len(zoo.SPIN)))],
                bool(rng.integers(0, 4)), dtype=[jnp.float64, jnp.complex128][int(rng.integers(0, 2))], chunk=int(rng.integers(1, 11)))
