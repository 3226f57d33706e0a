"""C05  Local reduced density matrices contract to local energies (of every Hamiltonian) and average to the 1-RDM."""
import numpy as np
import jax
import jax.numpy as jnp
from GPSKet.hilbert import FermionicDiscreteHilbert
from GPSKet.operator.hamiltonian import AbInitioHamiltonianOnTheFly
from GPSKet.operator.hamiltonian.ab_initio import local_en_on_the_fly
from . import ref, zoo
from .c03 import reference

SHARDS = 6


def one_rdm(psi, states, L):
    """<c+_p c_q> summed over spins, by explicit application of the operators."""
    idx = {tuple(int(v) for v in s): k for k, s in enumerate(states)}
    D = np.zeros((L, L), dtype=complex)
    for k, s in enumerate(states):
        m0 = (ref.modes(s), 1)
        for sp in (0, L):
            for q in range(L):
                for p in range(L):
                    out = ref.create(ref.annihilate(m0, q + sp), p + sp)
                    if out is not None:
                        m, sign = out
                        D[p, q] += np.conj(psi[idx[tuple(int(v) for v in ref.unmodes(m))]]) * sign * psi[k]
    return D / np.vdot(psi, psi)


def one(mon, k, name, fast, L, ne, reps, chunk=None, dtype=jnp.complex128):
    rng = mon.rng("c05", k)
    hi = FermionicDiscreteHilbert(L, n_elec=ne)
    states = np.asarray(ref.fermion_states(L, ne), dtype=np.uint8)
    perms = zoo.translations(L) if name in ("qgps_sym", "slater_ms") else None
    model, pf = zoo.fermion_model(name, hi, rng, fast=fast, dtype=dtype, perms=perms)
    full = jax.jit(lambda v, x, a: local_en_on_the_fly(tuple(ne), model.apply, v, x, a, use_fast_update=fast,
                                                       chunk_size=chunk, return_local_RDMs=True))
    plain = jax.jit(lambda v, x, a: local_en_on_the_fly(tuple(ne), model.apply, v, x, a, use_fast_update=fast, chunk_size=chunk))
    for r in range(reps):
        with mon.guard("rdm-raises", model=name, fast=fast, L=L, n_elec=ne):
            v = zoo.variables(model, int(rng.integers(1 << 30)), states[:1], pf)
            h, eri = ref.random_h(rng, L, [0, 0.6][r % 2]), ref.random_eri(rng, L, [0, 0.8][r % 2])
            op = AbInitioHamiltonianOnTheFly(hi, h, eri)
            args = (jnp.array(op.t_mat), jnp.array(op.eri_mat))
            mon.case("rdm", dict(model=name, fast=fast, L=L, n_elec=ne, r=r, chunk=chunk))
            amp = zoo.amplitudes(model, v, states)
            good = np.isfinite(amp) & (amp.real > np.max(amp.real) - 10)
            en, t_rdm, e_rdm = (np.asarray(a) for a in full(v, jnp.asarray(states), args))
            en0 = np.asarray(plain(v, jnp.asarray(states), args))
            ctx = dict(model=name, fast=fast, L=L, n_elec=ne)
            pick = rng.permutation(np.nonzero(good)[0])[:8]
            want, scale = reference(model, v, [(tuple(int(c) for c in states[b]), ref.abinitio_row(states[b], h, eri)) for b in pick])
            mon.close("rdm-energy", (en[pick] - want) / (1 + scale), np.zeros(len(pick)), atol=1e-8, rtol=0, **ctx)
            mon.close("rdm-energy-same-without", (en0[pick] - en[pick]) / (1 + scale), np.zeros(len(pick)), atol=1e-8, rtol=0, **ctx)
            con = np.einsum("pq,bpq->b", np.asarray(args[0]), t_rdm) + np.einsum("pqrs,bpqrs->b", np.asarray(args[1]), e_rdm)
            mon.close("rdm-contracts-to-energy", (con[pick] - want) / (1 + scale), np.zeros(len(pick)), atol=1e-8, rtol=0, **ctx)
            mon.close("rdm-particle-number", np.einsum("bpp->b", t_rdm)[good], np.full(good.sum(), float(sum(ne))), atol=1e-8, **ctx)
            # the density matrices do not depend on the integrals: they yield the energy of any other Hamiltonian
            for q in range(3):
                h2 = ref.random_h(rng, L) * (q != 1)
                e2 = ref.random_eri(rng, L) * (q != 0)
                op2 = AbInitioHamiltonianOnTheFly(hi, h2, e2)
                con = np.einsum("pq,bpq->b", op2.t_mat, t_rdm) + np.einsum("pqrs,bpqrs->b", op2.eri_mat, e_rdm)
                want, scale = reference(model, v, [(tuple(int(c) for c in states[b]), ref.abinitio_row(states[b], h2, e2)) for b in pick[:4]])
                mon.close("rdm-contracts-other-hamiltonian", (con[pick[:4]] - want) / (1 + scale), np.zeros(len(want)), atol=1e-8, rtol=0, part=q, **ctx)
            if good.all():
                psi = np.exp(amp - np.max(amp.real))
                p = np.abs(psi) ** 2
                p = p / p.sum()
                D = one_rdm(psi, states, L)
                got = np.einsum("b,bpq->pq", p, t_rdm)
                mon.close("rdm-average-one-body", got + got.T, D + D.T, atol=1e-8, rtol=0, **ctx)


QUICK = [("qgps", True, 4, (2, 2), 3, None), ("qgps", False, 4, (2, 1), 3, None), ("slater", True, 4, (1, 3), 3, None),
         ("slater_ms", True, 4, (2, 2), 2, None), ("qgps", True, 5, (3, 2), 2, 7), ("qgps", True, 3, (0, 2), 2, None),
         ("qgps", True, 3, (3, 1), 2, None), ("cpd_u", True, 4, (2, 1), 2, None), ("qgps_sym", True, 4, (2, 2), 2, None),
         ("sj", True, 4, (2, 2), 2, None), ("qgps", True, 3, (1, 0), 2, None), ("slater_gen", False, 3, (2, 2), 2, None)]


def run(mon):
    mon.rule = ("case = (ansatz, fast updates, sector, parameters, integrals); all configurations of the sector are evaluated; "
                "non-trivial = all cases (non-zero integrals)")
    mon.assumptions = ["integrals are real with the usual permutational symmetry"]
    for k, c in mon.mine(list(enumerate(QUICK))):
        if mon.time_left():
            one(mon, k, *c)
    for e in ("rdm-contracts-to-energy", "rdm-contracts-other-hamiltonian", "rdm-average-one-body"):
        mon.require(e, 20)
    if mon.thorough:
        names = [n for n in zoo.FERMION]
        for k in range(1000 + mon.shard[0], 1000 + 40 * mon.shard[1], mon.shard[1]):
            if not mon.time_left():
                break
            rng = mon.rng("pick", k)
            L = int(rng.integers(2, 6))
            name = names[int(rng.integers(0, len(names)))]
            lo = 0 if name in ("qgps", "qgps_sym", "jastrow") else 1
            one(mon, k, name, bool(rng.integers(0, 4)) and name != "jastrow", L,
                (int(rng.integers(lo, L + 1)), int(rng.integers(lo, L + 1))), 3, [None, 3][int(rng.integers(0, 2))])
