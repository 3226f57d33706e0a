"""C34  Experiment programs: the Hamiltonian a configuration asks for.  (C35 judges the states and correlation functions with the same cases.)"""
import contextlib
import io
import os
import shutil
import sys
import tempfile
import numpy as np
from . import core, ref

SHARDS = 6
for _d in ("scripts/ARGPS", "scripts/cpd-backflow"):
    sys.path.insert(0, os.path.join(core.REPO, _d))


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="gvsys", dir="/tmp")
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def put(config, **kw):
    """Overrides by dotted name (underscores of two), as on the command line."""
    with config.unlocked(), config.ignore_type():
        for name, v in kw.items():
            c = config
            *path, last = name.split("__")
            for p in path:
                c = c[p]
            c[last] = v
    return config


def dense(op):
    return np.asarray(op.to_dense()) if op.hilbert.n_states <= 2500 else None


def spectrum(H):
    return np.sort(np.linalg.eigvalsh((H + H.conj().T) / 2))


# ------------------------------------------------------------------ systems
def bonds(Lx, Ly, px, py):
    """(site, site, crosses the x boundary, crosses the y boundary); sites row-major."""
    out = {}
    for i in range(Lx):
        for j in range(Ly):
            for d in ((1, 0), (0, 1)):
                a, b = i + d[0], j + d[1]
                wx, wy = a >= Lx, b >= Ly
                if (wx and not px) or (wy and not py):
                    continue
                s, t = i * Ly + j, (a % Lx) * Ly + b % Ly
                if s != t:
                    out.setdefault((min(s, t), max(s, t)), (wx, wy))
    return [(s, t, *w) for (s, t), w in out.items()]


def hubbard_ref(L, ne, edges, t, U):
    st = ref.fermion_states(L, ne)
    return spectrum(ref.dense_from_rows(st, lambda x: ref.hubbard_row(x, edges, t, U)))


def hubbard1d(mon, k):
    from argps.configs import hubbard1d
    from argps.configs.common import resolve
    from argps.systems import get_system
    rng = mon.rng("hub1", k)
    Lx = int([4, 3, 5, 6 if mon.thorough else 4][k % 4])
    pbc = bool((k // 4) % 2)
    t, U = float(rng.uniform(0.3, 2)), float(rng.uniform(-2, 8))
    d = dict(Lx=Lx, pbc=pbc, t=t, U=U)
    mon.case("hubbard1d", d, nontrivial=True)
    with mon.guard("system-raises", system="argps Hubbard1d", **d):
        c = resolve(put(hubbard1d.get_config(), system__Lx=Lx, system__pbc=pbc, system__t=t, system__U=U))
        op = get_system(c)
        ne = (Lx // 2, Lx // 2)
        edges = [(i, i + 1) for i in range(Lx - 1)] + ([(0, Lx - 1)] if pbc else [])
        tt = [t] * (Lx - 1) + ([-t if Lx % 4 == 0 else t] if pbc else [])
        got = spectrum(dense(op))
        mon.close("system-spectrum", got, hubbard_ref(Lx, ne, edges, tt, U), rtol=1e-9, atol=1e-9, system="argps Hubbard1d", **d)


def fermi_hubbard(mon, k, part="system"):
    from cpd_backflow.configs import fermi_hubbard as fh
    from cpd_backflow.configs.common import resolve
    from cpd_backflow.systems import get_system
    rng = mon.rng("hub2", k)
    one = k % 4 == 3
    Lx, Ly = ([(4, 1), (3, 1), (5, 1)][k // 4 % 3]) if one else [(3, 2), (2, 3), (4, 2), (3, 3)][int(rng.integers(4 if mon.thorough else 3))]
    pbc = bool(rng.integers(2)) if one else ["PBC-APBC", "PBC-PBC", "PBC-OBC", "PBC"][k % 3 if k < 12 else int(rng.integers(4))]
    if "APBC" in str(pbc) and Lx < 3:
        Lx, Ly = Ly, Lx
    L = Lx * Ly
    ne = (int(rng.integers(1, 3)), int(rng.integers(1, 3))) if L > 6 or rng.integers(3) else None
    t, U = float(rng.uniform(0.3, 2)), float(rng.uniform(-2, 8))
    d = dict(Lx=Lx, Ly=Ly, pbc=pbc, n_elec=ne, t=t, U=U)
    mon.case("fermi-hubbard", d, nontrivial=True)
    with mon.guard("system-raises", system="cpd FermiHubbard", **d):
        c = put(fh.get_config(), system__Lx=Lx, system__Ly=Ly, system__pbc=pbc, system__n_elec=ne, system__t=t, system__U=U)
        op = get_system(resolve(c))
        if part == "state":         # the mean-field starting point
            from .c35 import fermionic_ansatz
            return fermionic_ansatz(mon, rng, c, op, None, d, k)
        en = ne or (L // 2, L // 2)
        got = spectrum(dense(op))
        if one:
            b = bonds(Lx, 1, pbc, False)
            wants = [[-t if (w and Lx % 4 == 0) else t for _, _, w, _ in b]]
        else:
            b = bonds(Lx, Ly, True, "OBC" not in pbc)
            ap = "APBC" in pbc
            wants = [[-t if ap and w[ax] else t for _, _, *w in b] for ax in ((0, 1) if ap else (0,))]
        worst = np.inf
        for w in wants:
            want = hubbard_ref(L, en, [(x[0], x[1]) for x in b], w, U)
            worst = min(worst, float(np.max(np.abs(got - want))))
        mon.check("system-spectrum", worst < 1e-8, difference=worst, system="cpd FermiHubbard", **d)


def heisenberg(mon, k):
    from argps.configs import heisenberg2d
    from argps.configs.common import resolve
    from argps.systems import get_system
    rng = mon.rng("heis", k)
    Lx, Ly = [(2, 3), (4, 2), (2, 2), (3, 2), (2, 4)][k % 5]
    pbc = bool(rng.integers(2)) if min(Lx, Ly) > 2 else bool(k % 2)
    J1, J2 = float(rng.uniform(0.5, 2)), float([0.0, rng.uniform(0.2, 1)][k % 2])
    rule = bool(rng.integers(2)) and (not pbc or (Lx % 2 == 0 and Ly % 2 == 0))
    if J2 and 2 in (Lx, Ly) and pbc:
        pbc = False
        rule = bool(rng.integers(2))
    d = dict(Lx=Lx, Ly=Ly, pbc=pbc, J1=J1, J2=J2, sign_rule=rule)
    mon.case("heisenberg", d, nontrivial=True)
    with mon.guard("system-raises", system="argps Heisenberg2d", **d):
        c = resolve(put(heisenberg2d.get_config("GPS"), system__Lx=Lx, system__Ly=Ly, system__pbc=pbc, system__J1=J1, system__J2=J2, system__sign_rule=rule))
        op = get_system(c)
        L = Lx * Ly
        e1, e2 = ref.grid_neighbours(Lx, Ly, pbc)
        H = 0
        for es, J in ((e1, J1), (e2, J2)):
            for a, b in es:
                if J:
                    H = H + J / 4 * sum(ref.embed({a: s, b: s}, L) for s in (ref.SX, ref.SY, ref.SZ))
        sz = np.array([sum(1 - 2 * ((n >> q) & 1) for q in range(L)) for n in range(2 ** L)])
        sec = np.nonzero(sz == 0)[0]
        mon.close("system-spectrum", spectrum(dense(op)), spectrum(H[np.ix_(sec, sec)]), rtol=1e-9, atol=1e-9, system="argps Heisenberg2d", **d)


# ------------------------------------------------------------------ molecules
def molecule_reference(atom, basis_set, unit, ne, symmetry):
    """Electronic FCI and (RO)HF energies, independent of the orbital basis."""
    from pyscf import gto, scf, fci, ao2mo
    mol = gto.M(atom=atom, basis=basis_set, unit=unit, spin=ne[0] - ne[1], symmetry=symmetry, verbose=0)
    mf = (scf.RHF if ne[0] == ne[1] else scf.ROHF)(mol)
    mf.conv_tol = 1e-12
    mf.kernel()
    C = mf.mo_coeff
    h = C.T @ mf.get_hcore() @ C
    eri = ao2mo.restore(1, ao2mo.kernel(mol, C), C.shape[1])
    H = fci.direct_spin1.pspace(h, eri, C.shape[1], ne, np=100000)[1]
    return mol, mf, spectrum(H), mf.e_tot - mol.energy_nuc()


def geometry(mon, atoms, n, dist, shape, ctx):
    pos = np.array([a[1] for a in atoms], dtype=float)
    D = np.linalg.norm(pos[:, None] - pos[None], axis=-1)
    near = D[~np.eye(n, dtype=bool)]
    ok = len(atoms) == n and all(a[0] == "H" for a in atoms) and abs(near.min() - dist) < 1e-9
    if shape == "chain":
        want = (n - 1) * dist
        bonds_ = n - 1
    else:
        a = max(q for q in range(1, int(np.sqrt(n)) + 1) if n % q == 0)
        want = dist * np.hypot(a - 1, n // a - 1)
        bonds_ = a * (n // a - 1) + (a - 1) * (n // a)
    ok = ok and abs(D.max() - want) < 1e-9 and np.sum(np.abs(D - dist) < 1e-9) // 2 == bonds_
    mon.check("molecule-geometry", ok, molecule=str(atoms), expected=shape, **ctx)


BASES = ["canonical", "local-boys", "local-pipek-mezey", "local-edmiston-ruedenberg", "local-split", "local"]


def molecule(mon, k, part="system"):
    from cpd_backflow.configs import hsheet, h2o
    from cpd_backflow.configs.common import resolve
    from cpd_backflow.systems import get_system
    rng = mon.rng("mol", k)
    ctx = dict(basis=BASES[k % 6], k=k)
    if k % 7 == 6:
        # H2O is too large for an exact reference here: the same program path with a hydride
        c = put(h2o.get_config(), system__basis_set="sto-3g", system__molecule=[("Li", (0.0, 0.0, 0.0)), ("H", (0.0, 0.0, float(rng.uniform(1.4, 2.2))))])
        n = None
    else:
        n = int([4, 2, 4, 4, 6][int(rng.integers(5 if mon.thorough else 4))])
        c = put(hsheet.get_config(), system__n_atoms=n, system__distance=float(rng.uniform(0.7, 1.6)), system__basis_set=str(rng.choice(["sto-6g", "sto-3g"])) if n > 2 else "6-31g")
    spin = k % 4 == 3 and n != 2
    put(c, system__basis=ctx["basis"], system__symmetry=bool(rng.integers(2)))
    if spin and n:
        put(c, system__n_elec=(n // 2 + 1, n // 2 - 1))
    cut = None
    if n and not spin and k % 2 == 0 and ctx["basis"] != "local":
        cut = int(rng.integers(1, 4)) if n > 2 else 2
        put(c, model__exchange_cutoff=cut)
    ctx.update(atoms=n, spin=spin, exchange_cutoff=cut)
    mon.case("molecule", ctx, nontrivial=True)
    with mon.guard("system-raises", system="cpd molecule", **ctx), scratch() as work:
        rc = resolve(c)
        if n:
            geometry(mon, rc.system.molecule, n, rc.system.distance, "sheet", ctx)
        op = get_system(rc, work)
        N = op.hilbert.size
        ne = (n // 2 + 1, n // 2 - 1) if spin and n else (n // 2, n // 2) if n else (2, 2)
        mon.check("molecule-electrons", tuple(op.hilbert._n_elec) == ne, got=str(op.hilbert._n_elec), want=ne, **ctx)
        mol, mf, want, ehf = molecule_reference([tuple(a) for a in rc.system.molecule], rc.system.basis_set, rc.system.unit, ne, rc.system.symmetry)
        if part == "system":
            H = dense(op)
            mon.close("system-spectrum", spectrum(H), want, rtol=1e-7, atol=1e-7, system="cpd molecule", **ctx)
            # a second session of the same experiment takes the stored integrals
            op2 = get_system(rc, work)
            mon.close("system-of-a-restarted-run", dense(op2), H, rtol=1e-12, atol=1e-12, **ctx)
            # the sparse operator of the program with small integrals dropped
            thr = float(rng.choice([1e-10, 0.02]))
            with scratch() as w2:
                sp = get_system(resolve(put(c, system__pruning_threshold=thr)), w2)
                h1, h2 = np.load(os.path.join(work, "h1.npy")), np.load(os.path.join(work, "h2.npy"))
                if thr > 1e-3 and np.allclose(np.load(os.path.join(w2, "basis.npy")), np.load(os.path.join(work, "basis.npy")), atol=1e-9) \
                        and np.min(np.abs(np.abs(h2) - thr)) > 1e-6 and np.min(np.abs(np.abs(h1) - thr)) > 1e-6:
                    h1, h2 = np.where(np.abs(h1) < thr, 0, h1), np.where(np.abs(h2) < thr, 0, h2)
                    want = spectrum(ref.dense_from_rows(np.asarray(sp.hilbert.all_states()), lambda x: ref.abinitio_row(x, h1, h2)))
                    mon.close("system-pruned", spectrum(dense(sp)), want, rtol=1e-8, atol=1e-8, threshold=thr, **ctx)
                elif thr < 1e-3:
                    mon.close("system-pruned", spectrum(dense(sp)), want, rtol=1e-6, atol=1e-6, threshold=thr, **ctx)
            return
        if cut:
            from cpd_backflow.models import get_model
            B = np.load(os.path.join(work, "basis.npy"))
            C = B @ np.load(os.path.join(work, "hf_orbitals.npy"))      # mean-field solutions may be degenerate
            A = np.abs(B.T @ mf.get_k(mol, 2 * C @ C.T) @ B)
            env = np.asarray(get_model(rc, op.hilbert, op, work).environments)[:N]
            if mon.check("environment-shape", env.shape == (N, cut) and all(len(set(r)) == cut for r in env.tolist()), environments=env, **ctx):
                for p in range(N):
                    mon.close("environment-most-coupled", np.sort(A[p, env[p]])[::-1], np.sort(A[p])[::-1][:cut], rtol=1e-4, atol=2e-5, orbital=p, environment=env[p], **ctx)
        from .c35 import fermionic_ansatz
        fermionic_ansatz(mon, rng, c, op, work, ctx, k, ehf)


def argps_molecule(mon, k, part="system"):
    from argps.configs import hydrogen
    from argps.configs.common import resolve
    from argps.systems import get_system
    rng = mon.rng("hyd", k)
    shape, basis, dtype = ["chain", "sheet"][k % 2], ["canonical", "local"][k // 2 % 2], ["real", "complex"][int(rng.integers(2))]
    n = int([4, 4, 2, 6][int(rng.integers(4 if mon.thorough or k == 3 else 3))])
    ctx = dict(shape=shape, basis=basis, atoms=n)
    mon.case("hydrogen", ctx, nontrivial=True)
    with mon.guard("system-raises", system="argps hydrogen", **ctx), scratch():
        c = resolve(put(hydrogen.get_config(f"{shape},{basis},{dtype}"), system__n_atoms=n, system__distance=float(rng.uniform(1.2, 3)), model__M=2))
        geometry(mon, c.system.molecule, n, c.system.distance, shape, ctx)
        op = get_system(c)
        ne = (n // 2, n // 2)
        if part == "state":
            from .c35 import spin_ansatz
            return spin_ansatz(mon, rng, c, op, ctx) if n == 4 else None
        *_, want, ehf = molecule_reference([tuple(a) for a in c.system.molecule], c.system.basis_set, c.system.unit, ne, c.system.symmetry)
        mon.close("system-spectrum", spectrum(dense(op)), want, rtol=1e-7, atol=1e-7, system="argps hydrogen", **ctx)


def run(mon):
    mon.rule = ("case = (program, configuration): the Hamiltonian that scripts/ARGPS and scripts/cpd-backflow set up for a configuration, compared with "
                "independent references (exact diagonalisation of the lattice model, FCI of PySCF, stored integrals of a restarted run).")
    mon.assumptions = ["systems that can be diagonalised", "the anti-periodic direction may be either; gauge-equivalent sign choices count as equal (spectra)"]
    q = mon.thorough
    plan = [(hubbard1d, 60 if q else 8), (fermi_hubbard, 120 if q else 12), (heisenberg, 60 if q else 10), (molecule, 84 if q else 12), (argps_molecule, 40 if q else 4)]
    for f, k in mon.mine([(f, k) for f, n in plan for k in range(n)]):
        if not mon.time_left():
            break
        f(mon, k)
    mon.require("system-spectrum", 20)
    mon.require("system-of-a-restarted-run", 4)
