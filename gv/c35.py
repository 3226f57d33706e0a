"""C35  Experiment programs: the state a configuration asks for, its samples and local energies, and the correlation functions."""
import contextlib
import io
import os
import subprocess
import sys
import numpy as np
import jax
import jax.numpy as jnp
from scipy.special import logsumexp
from . import core, ref, zoo
from .c34 import scratch, put, dense, fermi_hubbard, molecule, argps_molecule

SHARDS = 7


# ------------------------------------------------------------------ ansatz
def fermionic_ansatz(mon, rng, c, op, work, ctx, k, ehf=None):
    """With vanishing noise the backflow state is the mean-field determinant of the system."""
    from cpd_backflow.models import get_model
    from cpd_backflow.configs.common import resolve
    hi = op.hilbert
    ne = tuple(int(v) for v in hi._n_elec)
    cut = c.model.get("exchange_cutoff", None)
    combos = [(False, True), (False, False)] + ([(True, True)] if ne[0] == ne[1] else [])
    restricted, fixed = combos[int(rng.integers(len(combos)))]
    M = int(rng.integers(1, 3))
    d = dict(ctx, restricted=restricted, fixed_magnetization=fixed, M=M)
    put(c, model__restricted=restricted, model__fixed_magnetization=fixed, model__M=M, model__sigma=0.0, model__dtype=str(rng.choice(["real", "complex"])))
    with mon.guard("ansatz-raises", **d), contextlib.redirect_stdout(io.StringIO()):
        model = get_model(resolve(c), hi, op, work)
        states = np.asarray(hi.all_states()).astype(np.uint8)
        v = model.init(jax.random.PRNGKey(int(rng.integers(1 << 30))), jnp.asarray(states[:2]))
        amp = zoo.amplitudes(model, v, states)
        psi = np.exp(amp - np.max(amp.real[np.isfinite(amp)]))
        psi = np.where(np.isfinite(psi), psi, 0)
        psi /= np.linalg.norm(psi)
        H = dense(op)
        E = np.real(np.vdot(psi, H @ psi))
        # determinant: idempotent one-body density matrices; stationary: no coupling to single excitations
        N = hi.size
        idx = {tuple(s): i for i, s in enumerate(states.tolist())}
        g = H @ psi
        D = np.zeros((2, N, N), complex)
        S = np.zeros((2, N, N), complex)
        for i, s in enumerate(states):
            if psi[i] == 0 and g[i] == 0:
                continue
            for sp in (0, 1):
                for q in range(N):
                    a = ref.annihilate((ref.modes(s), 1), q + sp * N)
                    for p in range(N):
                        o = ref.create(a, p + sp * N)
                        if o is not None:
                            j = idx[tuple(int(x) for x in ref.unmodes(o[0]))]
                            D[sp, p, q] += np.conj(psi[j]) * o[1] * psi[i]
                            S[sp, p, q] += np.conj(g[j]) * o[1] * psi[i] - np.conj(psi[j]) * o[1] * g[i]
        mon.close("mean-field-determinant", [D[s] @ D[s] for s in (0, 1)], D, atol=1e-6, rtol=0, **d)
        # a restricted open-shell reference is stationary for the sum of the spins only
        St = S if ne[0] == ne[1] or work is None else S.sum(0, keepdims=True)
        mon.check("mean-field-stationary", float(np.max(np.abs(St))) < 2e-3 * (1 + np.abs(H).max()) ** 0.5, residual=float(np.max(np.abs(St))), energy=E, **d)
        if ehf is not None:
            mon.close("mean-field-energy", E, ehf, atol=1e-6, rtol=0, **d)
        if k % (4 if cut else 6) == 0:
            fermionic_state(mon, rng, c, op, work, d)
        if ehf is None or k % 2:
            return
        # the configured noise
        sig = float(rng.uniform(0.005, 0.05))
        put(c, model__sigma=sig)
        m2 = get_model(resolve(c), hi, op, work)
        v2 = m2.init(jax.random.PRNGKey(int(rng.integers(1 << 30))), jnp.asarray(states[:2]))
        x = np.concatenate([np.asarray(b).ravel() for b in jax.tree_util.tree_leaves(v2["params"])])
        y = np.concatenate([np.asarray(b).ravel() for b in jax.tree_util.tree_leaves(v["params"])])
        if x.shape == y.shape:
            z = np.sqrt(np.mean(np.abs(x - y) ** 2)) / sig
            mon.check("initial-noise", abs(z - 1) < 8 / np.sqrt(x.size), ratio=z, n=x.size, sigma=sig, **d)


def fermionic_state(mon, rng, c, op, work, d):
    """The variational state the program optimises: samples in the sector, local energies of the ansatz."""
    import netket as nk
    from GPSKet.sampler import MetropolisHopping
    from cpd_backflow.models import get_model
    from cpd_backflow.configs.common import resolve
    with mon.guard("state-raises", **d):
        put(c, model__sigma=0.2)
        rc = resolve(c)
        hi = op.hilbert
        vs = nk.vqs.MCState(MetropolisHopping(hi, **rc.sampler), get_model(rc, hi, op, work), n_samples=32, n_discard_per_chain=2, seed=int(rng.integers(1 << 30)))
        states = np.asarray(hi.all_states())
        idx = {tuple(s): i for i, s in enumerate(states.astype(int).tolist())}
        x = np.asarray(vs.sample()).reshape(-1, hi.size).astype(int)
        if not mon.check("samples-in-sector", all(tuple(s) in idx for s in x.tolist()), **d):
            return
        mon.seen("samples", len(x))
        rows = np.array([idx[tuple(s)] for s in x.tolist()])
        amp = zoo.amplitudes(vs.model, vs.variables, states)
        psi = np.exp(amp - np.max(amp.real[np.isfinite(amp)]))
        psi = np.where(np.isfinite(psi), psi, 0)
        good = np.abs(psi[rows]) > 1e-5
        got = zoo.local_energies(vs, op, x.astype(np.uint8))
        want = (dense(op)[rows] @ psi) / np.where(good, psi[rows], 1)
        mon.close("ansatz-local-energies", got[good], want[good], rtol=1e-6, atol=1e-6, **d)


def perms_of(graph, syms):
    g = syms.split(",")
    full = g[0] in ("all", "automorphisms")
    tr, pt, fl = "translations" in g or full, "point-symmetries" in g or full, "spin-flip" in g or full
    P = [np.arange(graph.n_nodes)]
    if tr:
        P += list(graph.translation_group().to_array())
    if pt:
        P += list(graph.point_group().to_array())
    return P, fl


def spin_ansatz(mon, rng, c, op, ctx, syms="none"):
    """Normalisation, sector, symmetry, sampler and local energies of the configured autoregressive or GPS state."""
    import netket as nk
    from argps.models import get_model
    from argps.samplers import get_sampler
    hi = op.hilbert
    g = getattr(op, "graph", None)
    name = c.model_name
    d = dict(ctx, model=name, symmetries=syms, dtype=c.model.dtype)
    with mon.guard("ansatz-raises", **d):
        model = get_model(c, hi, g)
        sa = get_sampler(c, hi, g)
        vs = nk.vqs.MCState(sa, model, n_samples=64, n_discard_per_chain=4 if "AR" not in name else None, seed=int(rng.integers(1 << 30)))
        states = np.asarray(hi.all_states())
        amp = zoo.amplitudes(vs.model, vs.variables, states)
        if "AR" in name:
            mon.close("ansatz-normalised", float(logsumexp(2 * amp.real)), 0.0, atol=1e-8, rtol=0, **d)
        if g is not None:
            # the filter of a FilterGPS is translated over the lattice, whatever the requested symmetries
            P, flip = perms_of(g, "translations" if name == "FilterGPS" else syms)
            for p in P[:40]:
                y = states[:, np.asarray(p)]
                mon.close("ansatz-symmetric", np.exp(zoo.amplitudes(vs.model, vs.variables, y)), np.exp(amp), rtol=1e-8, atol=1e-10, symmetry=p, **d)
            if flip:
                mon.close("ansatz-spin-flip", np.exp(zoo.amplitudes(vs.model, vs.variables, -states)), np.exp(amp), rtol=1e-8, atol=1e-10, **d)
        x = np.asarray(vs.sample()).reshape(-1, hi.size)
        keys = {tuple(np.round(s).astype(int)) for s in states}
        mon.check("samples-in-sector", all(tuple(np.round(s).astype(int)) in keys for s in x), **d)
        mon.seen("samples", len(x))
        # local energies through the configured operator and model (fast updates included)
        idx = {tuple(np.round(s).astype(int)): i for i, s in enumerate(states)}
        rows = np.array([idx[tuple(np.round(s).astype(int))] for s in x[:64]])
        psi = np.exp(amp - amp.real.max())
        H = dense(op)
        good = np.abs(psi[rows]) > 1e-6
        got = zoo.local_energies(vs, op, x[:64])
        want = (H[rows] @ psi) / psi[rows]
        mon.close("ansatz-local-energies", got[good], want[good], rtol=1e-6, atol=1e-6, **d)


NAMES = ["GPS", "ARGPS", "ARFilterGPS", "FilterGPS", "MaskedGPS", "MaskedFilterGPS"]
SYMS = ["none", "translations", "spin-flip", "point-symmetries", "point-symmetries,spin-flip", "all", "translations,spin-flip"]


def lattice_ansatz(mon, k):
    from argps.configs import heisenberg2d
    from argps.configs.common import resolve
    from argps.systems import get_system
    rng = mon.rng("lat", k)
    name = NAMES[k % 6]
    syms = SYMS[(k // 6 + 2 * k) % 7]
    Lx, Ly = (2, 4) if k % 5 == 4 else (4, 2) if k % 5 == 2 else (2, 2) if k % 5 == 1 else (3, 4) if mon.thorough and k % 5 == 3 else (2, 4)
    if "point" in syms or syms == "all":
        Lx, Ly = (2, 2) if rng.integers(2) else (4, 2)
    d = dict(Lx=Lx, Ly=Ly, k=k)
    mon.case("lattice-ansatz", dict(d, model=name, symmetries=syms), nontrivial=True)
    with mon.guard("system-raises", system="lattice", model=name, **d):
        c = put(heisenberg2d.get_config(name), system__Lx=Lx, system__Ly=Ly, model__symmetries=syms, model__M=int(rng.integers(1, 4)), model__sigma=float(rng.uniform(0.1, 0.5)),
                model__dtype=str(rng.choice(["real", "complex"])))
        if Lx != Ly or min(Lx, Ly) == 2:
            put(c, system__sign_rule=bool(rng.integers(2)))
        c = resolve(c)
        spin_ansatz(mon, rng, c, get_system(c), d, syms)


def chain_ansatz(mon, k):
    from argps.configs import hubbard1d
    from argps.configs.common import resolve
    from argps.systems import get_system
    rng = mon.rng("chain", k)
    name = ["ARFilterGPS", "ARGPS"][k % 2]
    c = resolve(put(hubbard1d.get_config(), system__Lx=4, model__M=2, model_name=name, system__U=float(rng.uniform(0, 8)), model__dtype=str(rng.choice(["real", "complex"]))))
    mon.case("chain-ansatz", dict(model=name), nontrivial=True)
    spin_ansatz(mon, rng, c, get_system(c), dict(system="Hubbard1d"))


# ------------------------------------------------------------------ correlation functions
def correlations(mon, k):
    from pyscf import fci
    from cpd_backflow import corrfunc
    rng = mon.rng("corr", k)
    N = [4, 3, 5, 2][k % 4]
    n = 2 * int(rng.integers(1, N))
    mon.case("correlations", dict(orbitals=N, electrons=n), nontrivial=True)
    h, eri = ref.random_h(rng, N), ref.random_eri(rng, N, scale=0.3)
    solver = fci.direct_spin0.FCI()
    solver.verbose = 0
    with mon.guard("correlations-raise", orbitals=N, electrons=n):
        # lowest state among the singlets
        full = fci.direct_spin1.pspace(h, eri, N, n, np=100000)
        w, U = np.linalg.eigh(full[1])
        na = fci.cistring.num_strings(N, n // 2)
        for j in range(len(w)):
            ci = np.zeros(na * na)
            ci[np.asarray(full[0]).ravel()[:na * na] if np.asarray(full[0]).ndim == 1 else np.arange(na * na)] = U[:, j]
            ci = ci.reshape(na, na)
            if abs(fci.spin_op.spin_square(ci, N, n)[0]) < 1e-8:
                break
        else:
            return
        r1, r2 = fci.direct_spin1.make_rdm12(ci, N, n)
        (da, db), (aa, ab, bb) = fci.direct_spin1.make_rdm12s(ci, N, n)
        want = np.zeros((N, N))
        for a in range(N):
            for b in range(N):
                want[a, b] = 0.25 * (aa[a, a, b, b] + bb[a, a, b, b] - ab[a, a, b, b] - ab[b, b, a, a]) + (0.25 * (da[a, a] + db[a, a]) if a == b else 0)
        with scratch() as work:
            np.save(os.path.join(work, "rdm_1.npy"), r1)
            np.save(os.path.join(work, "rdm_2.npy"), r2)
            got = corrfunc.get_correlations(work)
        mon.close("spin-correlations", got, want, atol=1e-9, rtol=0, orbitals=N, electrons=n)
        mon.close("spin-correlations-singlet-sum", got.sum(1), np.zeros(N), atol=1e-8, rtol=0, orbitals=N, electrons=n)
        # projectors on several orbitals
        P = [np.diag((rng.random(N) < 0.5).astype(float)) for _ in range(2)]
        mon.close("spin-correlations-of-fragments", corrfunc.spin_spin_correlation(r1, r2, *P), np.einsum("a,ab,b->", np.diag(P[0]), want, np.diag(P[1])), atol=1e-9, rtol=0)
        # distance averages of the 6x6 sheet
        C = rng.normal(size=(36, 36))
        C = C + C.T
        pos = np.array([(i // 6, i % 6) for i in range(36)])
        D2 = ((pos[:, None] - pos[None]) ** 2).sum(-1)
        bulk = [14, 15, 20, 21]
        got = np.array(corrfunc.radial_correlations(C))
        want = np.array([np.mean([C[a, a] for a in bulk])] + [sum(C[a, b] for a in bulk for b in range(36) if D2[a, b] == r) / 4 for r in (1, 2, 4)])
        mon.close("radial-correlations", got, want, atol=1e-10, rtol=0)


def rdms(mon, k):
    """The program that samples density matrices, run on stored parameters of a state that is not mean-field."""
    from cpd_backflow.configs import hsheet
    from cpd_backflow.configs.common import resolve
    from cpd_backflow.systems import get_system
    from cpd_backflow.models import get_model
    from cpd_backflow.utils import save_config, save_best_params
    from GPSKet.operator.hamiltonian.ab_initio import local_en_on_the_fly
    rng = mon.rng("rdms", k)
    n = [4, 2][k % 2] if mon.thorough else 4
    S = 2048
    basis = ["local-boys", "canonical", "local-split"][int(rng.integers(3))]
    cut = [None, 2][int(rng.integers(2))]
    ctx = dict(atoms=n, basis=basis, exchange_cutoff=cut, samples=S)
    mon.case("rdms", ctx, nontrivial=True)
    with mon.guard("rdms-raise", **ctx), scratch() as work:
        c = put(hsheet.get_config(), system__n_atoms=n, system__distance=1.2, system__basis=basis, model__sigma=0.25, model__restricted=bool(rng.integers(2)),
                model__exchange_cutoff=cut, evaluate__n_samples=S, evaluate__chunk_size=256, sampler__n_sweeps=24, variational_state__n_discard_per_chain=20)
        rc = resolve(c)
        save_config(work, rc)
        op = get_system(rc, work)
        model = get_model(rc, op.hilbert, op, work)
        N, ne = op.hilbert.size, tuple(int(v) for v in op.hilbert._n_elec)
        states = np.asarray(op.hilbert.all_states()).astype(np.uint8)
        v = model.init(jax.random.PRNGKey(int(rng.integers(1 << 30))), jnp.asarray(states[:2]))
        save_best_params(work, {"Energy": 0.0, "Variance": 1.0, "Parameters": v["params"]})
        p = subprocess.run([sys.executable, "-m", "cpd_backflow.rdms", f"--workdir={work}"], cwd=os.path.join(core.REPO, "scripts/cpd-backflow"), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=400, env=dict(os.environ, PYTHONWARNINGS="ignore"))
        out = [os.path.join(work, f"rdm_{q}.npy") for q in (1, 2)]
        if not mon.check("rdms-written", p.returncode == 0 and all(os.path.exists(o) for o in out), output=p.stdout.decode(errors="replace")[-700:], **ctx):
            return
        g1, g2 = (np.load(o) for o in out)
        amp = zoo.amplitudes(model, v, states)
        psi = np.exp(amp - np.max(amp.real[np.isfinite(amp)]))
        psi = np.where(np.isfinite(psi), psi, 0)
        psi /= np.linalg.norm(psi)
        idx = {tuple(s): i for i, s in enumerate(states.tolist())}
        w1, w2 = np.zeros((N,) * 2, complex), np.zeros((N,) * 4, complex)
        for i, s in enumerate(states):
            for q in range(2 * N):
                a = ref.annihilate((ref.modes(s), 1), q)
                if a is None:
                    continue
                for pp in range(N):
                    o = ref.create(a, pp + (q // N) * N)
                    if o is not None:
                        w1[pp, q % N] += np.conj(psi[idx[tuple(int(x) for x in ref.unmodes(o[0]))]]) * o[1] * psi[i]
                for t in range(2 * N):
                    b = ref.annihilate(a, t)
                    if b is None:
                        continue
                    for r in range(N):
                        e = ref.create(b, r + (t // N) * N)
                        if e is None:
                            continue
                        for pp in range(N):
                            o = ref.create(e, pp + (q // N) * N)
                            if o is not None:
                                w2[pp, q % N, r, t % N] += np.conj(psi[idx[tuple(int(x) for x in ref.unmodes(o[0]))]]) * o[1] * psi[i]
        # spread of the local estimators over the exact distribution
        keep = np.abs(psi) > 1e-7
        prob = np.abs(psi[keep]) ** 2
        _, l1, l2 = local_en_on_the_fly(ne, model.apply, v, jnp.asarray(states[keep]), (jnp.array(op.t_mat), jnp.array(op.eri_mat)), use_fast_update=bool(model.apply_fast_update), return_local_RDMs=True)
        sd = [np.sqrt(np.maximum(np.einsum("b,b...->...", prob, np.abs(np.asarray(l)) ** 2) - np.abs(np.einsum("b,b...->...", prob, np.asarray(l))) ** 2, 0)) for l in (l1, l2)]
        err1 = 12 * sd[0] / np.sqrt(S / 4) + 2e-3
        err2 = 2 * 12 * sd[1] / np.sqrt(S / 4) + err1.max() + 4e-3
        sym1 = lambda x: (x + x.T) / 2
        mon.check("sampled-one-body", bool(np.all(np.abs(sym1(g1) - sym1(w1.real)) < np.maximum(err1, err1.T))), worst=float(np.max(np.abs(sym1(g1) - w1.real) / err1)), **ctx)
        mon.check("sampled-electron-number", abs(np.trace(g1) - sum(ne)) < 1e-3, trace=float(np.trace(g1).real), **ctx)
        sym2 = lambda x: (x + x.transpose(2, 3, 0, 1) + x.transpose(1, 0, 3, 2) + x.transpose(3, 2, 1, 0)) / 4
        mon.check("sampled-two-body", bool(np.all(np.abs(sym2(g2) - sym2(w2.real)) < err2.max())), worst=float(np.max(np.abs(sym2(g2) - sym2(w2.real)))), allowed=float(err2.max()), **ctx)
        mon.check("sampled-pair-number", abs(np.einsum("ppqq->", g2) - sum(ne) * (sum(ne) - 1)) < 5e-2, trace=float(np.einsum("ppqq->", g2).real), **ctx)


def run(mon):
    mon.rule = ("case = (program, configuration): the ansatz, sampler and correlation functions of scripts/ARGPS and scripts/cpd-backflow for a configuration, "
                "judged by enumeration of all configurations (mean-field determinant, normalisation, symmetry, sector, local energies) and exact spin correlations.")
    mon.assumptions = ["small systems that can be enumerated", "sampled density matrices are compared within twelve standard errors of the exact spread (four-fold autocorrelation allowed)"]
    q = mon.thorough
    plan = [(fermi_hubbard, 60 if q else 6), (molecule, 84 if q else 9), (argps_molecule, 20 if q else 2), (lattice_ansatz, 168 if q else 12), (chain_ansatz, 12 if q else 2),
            (rdms, 12 if q else 1), (correlations, 200 if q else 12)]
    for f, k in mon.mine([(f, k) for f, n in plan for k in range(n)]):
        if not mon.time_left():
            break
        if f in (fermi_hubbard, molecule, argps_molecule):
            f(mon, k, "state")
        else:
            f(mon, k)
    mon.require("mean-field-determinant", 8)
    mon.require("ansatz-local-energies", 10)
    mon.require("spin-correlations", 6)
    mon.require("sampled-two-body", 1)
