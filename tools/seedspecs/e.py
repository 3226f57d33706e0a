"""Planted changes, fifth batch: experiment programs."""
RUN = '''
import os, sys, csv, json, subprocess, tempfile, shutil, warnings
import numpy as np
# one session of an experiment in a child process; PATCH is run before the program
def session(app, mod, work, args, patch=""):
    code = f"""
import sys, os, warnings, runpy
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.join(os.getcwd(), "scripts", {app!r}))
import flax.training.checkpoints as ck
import netket as nk
from netket.driver.abstract_variational_driver import AbstractVariationalDriver as D
{patch}
sys.argv = [{mod!r}, "--workdir=" + {work!r}] + {args!r}
runpy.run_module({mod!r}, run_name="__main__", alter_sys=True)
"""
    return subprocess.run([sys.executable, "-c", code], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
top = tempfile.mkdtemp()
work = os.path.join(top, "run")
bad = True
try:
'''
END = '''
finally:
    shutil.rmtree(top, ignore_errors=True)
raise SystemExit(int(bool(bad)))
'''
AR = '''["--config=scripts/ARGPS/argps/configs/heisenberg2d.py:ARGPS", "--config.max_steps=4", "--config.checkpoint_every=2", "--config.system.Lx=2", "--config.system.Ly=2", "--config.variational_state.n_samples=32"]'''
CPD = '''["--config=scripts/cpd-backflow/cpd_backflow/configs/fermi_hubbard.py", "--config.total_steps=3", "--config.checkpoint_every=1", "--config.system.Lx=2", "--config.system.Ly=2", "--config.system.n_elec=(2, 1)",
 "--config.variational_state.n_samples=64", "--config.variational_state.n_discard_per_chain=1", "--config.descent_finishing.total_steps=4", "--config.evaluate.total_steps=1", "--config.evaluate.n_samples=32"]'''
SYS = '''
import os, sys, tempfile, shutil, warnings
warnings.simplefilter("ignore")
for d in ("scripts/ARGPS", "scripts/cpd-backflow"):
    sys.path.insert(0, os.path.abspath(d))
import numpy as np, jax, jax.numpy as jnp, netket as nk
def low(op):
    return np.linalg.eigvalsh(np.asarray(op.to_dense()))[0]
'''
SPECS = [
 dict(id="s33-log-after-checkpoint", property="C33",
  edits=[("scripts/ARGPS/argps/vmc.py", '''        # Log data
        if _MPI_rank == 0:
            logger(step, {**vmc.energy.to_dict(), "Runtime": timer.runtime})

''', ''), ("scripts/ARGPS/argps/vmc.py", '''        step += 1

    return
''', '''        # Log data
        if _MPI_rank == 0:
            logger(step, {**vmc.energy.to_dict(), "Runtime": timer.runtime})

        step += 1

    return
''')],
  needs="a kill between storing a checkpoint and logging the step", what="the metrics of the step of the checkpoint are lost in a restarted run",
  demo=RUN + f'''
    first = session("ARGPS", "argps.vmc", work, {AR}, """
inner = ck.save_checkpoint
def save(*a, **k):
    inner(*a, **k)
    os._exit(17)
ck.save_checkpoint = save
""")
    second = session("ARGPS", "argps.vmc", work, [])
    steps = {{int(r["Step"]) for r in csv.DictReader(open(os.path.join(work, "metrics.csv")))}}
    bad = (first, second) != (17, 0) or steps != {{1, 2, 3, 4}}
''' + END),
 dict(id="s33-average-not-restored", property="C33",
  edits=[("scripts/ARGPS/argps/vmc.py", '''    new_driver.preconditioner._ema = serialization.from_state_dict(
        driver.preconditioner._ema, state_dict["preconditioner"]
    )
    return new_driver
''', '''    ema = serialization.from_state_dict(
        driver.preconditioner._ema, state_dict["preconditioner"]
    )
    jax.tree_util.tree_map(lambda x, y: np.copyto(np.array(x), y), new_driver.preconditioner._ema, ema)
    return new_driver
''')],
  needs="a restart from a checkpoint", what="the gradient average of the preconditioner starts from zero in a restarted run",
  demo=RUN + f'''
    first = session("ARGPS", "argps.vmc", work, {AR}, """
n = [0]
inner = D.advance
def adv(self, *a, **k):
    n[0] += 1
    if n[0] == 4:
        os._exit(17)
    return inner(self, *a, **k)
D.advance = adv
""")
    second = session("ARGPS", "argps.vmc", work, [], """
import jax, numpy as np
inner = D.advance
def adv(self, *a, **k):
    v = max(float(np.max(np.abs(np.asarray(l)))) for l in jax.tree_util.tree_leaves(self.preconditioner._ema))
    os._exit(21 if v > 0 else 22)
D.advance = adv
""")
    bad = (first, second) != (17, 21)
''' + END),
 dict(id="s33-best-of-the-phase", property="C33",
  edits=[("scripts/cpd-backflow/cpd_backflow/vmc.py", '''            timer = Timer(config.descent_finishing.total_steps)
            t0 = time.time()
            best_params = restore_best_params(workdir)
            best_energy = best_params["Energy"] if best_params else np.inf
''', '''            timer = Timer(config.descent_finishing.total_steps)
            t0 = time.time()
            best_params = restore_best_params(workdir)
            best_energy = vmc.energy.mean.real if vmc.step_count > initial_step else best_params["Energy"] if best_params else np.inf
''')],
  needs="a best step before the last step of the first phase, and a later step between the two energies with a smaller variance", what="the stored best parameters are replaced by worse ones",
  demo=RUN + f'''
    code = session("cpd-backflow", "cpd_backflow.vmc", work, {CPD}, """
# energies of the steps: -2, -1 (end of the first phase), then -1.5 with a smaller variance
from netket.stats import Stats
E = [(-1.8, 3.0), (-2.0, 2.0), (-1.0, 2.5), (-1.5, 1.0), (-1.4, 1.0), (-1.3, 1.0), (-1.2, 1.0)]
D.energy = property(lambda self: Stats(mean=jax.numpy.asarray(E[max(self.step_count - 1, 0)][0]), variance=E[max(self.step_count - 1, 0)][1], error_of_mean=0.1))
import jax
import netket.driver.vmc as v, GPSKet.driver as g
for c in (nk.driver.VMC, g.VMC_SRRMSProp):
    c.energy = D.energy
""")
    from flax import serialization
    b = serialization.msgpack_restore(open(os.path.join(work, "best_params.mpack"), "rb").read())
    bad = code != 0 or float(b["Energy"]) != -2.0
''' + END),
 dict(id="s34-open-both", property="C34",
  edits=[("scripts/cpd-backflow/cpd_backflow/systems.py", "            pbc = [True, False] \n", "            pbc = [config.pbc.startswith('PBC-PBC'), False]\n")],
  needs="a Hubbard lattice with mixed boundary conditions", what="both directions are open",
  demo=SYS + '''
from cpd_backflow.configs import fermi_hubbard
from cpd_backflow.systems import get_system
c = fermi_hubbard.get_config()
c.system.update(dict(Lx=3, Ly=2, pbc="PBC-OBC", n_elec=(1, 1), U=0.0))
# free electrons on a 3 x 2 cylinder: either ring direction
want = []
for px, py in ((True, False), (False, True)):
    T = np.zeros((6, 6))
    for i in range(3):
        for j in range(2):
            for a, b, p, n in ((i + 1, j, px, i + 1 >= 3), (i, j + 1, py, j + 1 >= 2)):
                if n and not p:
                    continue
                T[2 * i + j, 2 * (a % 3) + b % 2] = T[2 * (a % 3) + b % 2, 2 * i + j] = -1
    want.append(2 * np.linalg.eigvalsh(T)[0])
got = low(get_system(c))
print(got, want)
raise SystemExit(int(bool(abs(got - want[0]) > 1e-8)))
'''),
 dict(id="s34-mixed-basis", property="C34",
  edits=[("scripts/ARGPS/argps/systems.py", '''            hij_local = np.linalg.multi_dot((loc_coeff.T, myhf.get_hcore(), loc_coeff))
''', '''            hij_local = np.linalg.multi_dot((loc_coeff.T, ovlp @ myhf.mo_coeff, h1, myhf.mo_coeff.T @ myhf.get_hcore() @ loc_coeff))
''')],
  needs="a molecule in the local basis", what="the one-electron part is not the one of the molecule",
  demo=SYS + '''
from argps.configs import hydrogen
from argps.configs.common import resolve
from argps.systems import get_system
E = []
for basis in ("canonical", "local"):
    c = hydrogen.get_config(f"chain,{basis},real")
    c.system.n_atoms = 4
    E.append(low(get_system(resolve(c))))
print(E)
raise SystemExit(int(bool(abs(E[0] - E[1]) > 1e-6)))
'''),
 dict(id="s34-pruned-signs", property="C34",
  edits=[("scripts/cpd-backflow/cpd_backflow/systems.py", "                h2[abs(h2) < config.pruning_threshold] = 0.0\n", "                np.putmask(h2, h2 < config.pruning_threshold, 0.0)\n")],
  needs="a pruning threshold and a basis with negative two-electron integrals", what="large negative integrals are dropped",
  demo=SYS + '''
from cpd_backflow.configs import hsheet
from cpd_backflow.configs.common import resolve
from cpd_backflow.systems import get_system
E = []
for thr in (None, 1e-10):
    c = hsheet.get_config()
    c.system.n_atoms = 4
    if thr:
        c.system.pruning_threshold = thr
    d = tempfile.mkdtemp()
    try:
        E.append(low(get_system(resolve(c), d)))
    finally:
        shutil.rmtree(d)
print(E)
raise SystemExit(int(bool(abs(E[0] - E[1]) > 1e-6)))
'''),
 dict(id="s35-not-inverted", property="C35",
  edits=[("scripts/ARGPS/argps/models.py", "                inv_syms[syms[i, j], j] = i\n", "                inv_syms[i, j] = syms[i, j]\n")],
  needs="translations of more than two sites and the fast update of local energies", what="local energies of symmetrised GPS states",
  demo=SYS + '''
from argps.configs import heisenberg2d
from argps.configs.common import resolve
from argps.systems import get_system
from argps.models import get_model
from argps.samplers import get_sampler
c = heisenberg2d.get_config("GPS")
c.system.Lx, c.system.Ly = 4, 2
c.model.symmetries = "translations"
c.model.sigma = 0.4
c = resolve(c)
op = get_system(c)
vs = nk.vqs.MCState(get_sampler(c, op.hilbert, op.graph), get_model(c, op.hilbert, op.graph), n_samples=32, seed=1)
x = np.asarray(vs.sample()).reshape(-1, 8)
st = np.asarray(op.hilbert.all_states())
psi = np.exp(np.asarray(vs.log_value(st)))
H = np.asarray(op.to_dense())
rows = [int(np.nonzero((st == s).all(1))[0][0]) for s in x]
got = np.asarray(vs.local_estimators(op)).reshape(-1)
x2 = np.asarray(vs.samples).reshape(-1, 8)
want = (H[rows] @ psi) / psi[rows]
raise SystemExit(int(bool(not np.allclose(np.sort(got.real), np.sort(want.real), atol=1e-7))))
'''),
 dict(id="s35-beta-orbitals", property="C35",
  edits=[("scripts/cpd-backflow/cpd_backflow/models.py", "                orbitals = np.concatenate([mo_coeff[0, :, :n_elec[0]], mo_coeff[1, :, :n_elec[1]]], axis=1)\n",
          "                orbitals = np.concatenate([mo[:, :n] for mo, n in zip(mo_coeff[:1].repeat(2, axis=0), n_elec)], axis=1)\n")],
  needs="unrestricted orbitals of a Hubbard system with fixed magnetisation and a spin-broken mean-field solution", what="the state does not start from the mean-field determinant",
  demo=SYS + '''
from cpd_backflow.configs import fermi_hubbard
from cpd_backflow.configs.common import resolve
from cpd_backflow.systems import get_system
from cpd_backflow.models import get_model
E = []
for fixed in (True, False):
    c = fermi_hubbard.get_config()
    c.system.update(dict(Lx=3, Ly=2, n_elec=(3, 2)))
    c.model.update(dict(sigma=0.0, fixed_magnetization=fixed))
    c = resolve(c)
    op = get_system(c)
    m = get_model(c, op.hilbert, op)
    st = np.asarray(op.hilbert.all_states())
    v = m.init(jax.random.PRNGKey(0), jnp.asarray(st[:2]))
    psi = np.exp(np.asarray(m.apply(v, jnp.asarray(st))))
    psi = np.where(np.isfinite(psi), psi, 0)
    E.append(float(np.real(np.vdot(psi, np.asarray(op.to_dense()) @ psi) / np.vdot(psi, psi))))
print(E)
raise SystemExit(int(bool(abs(E[0] - E[1]) > 1e-3)))
'''),
 dict(id="s35-order-of-reordering", property="C35",
  edits=[("scripts/cpd-backflow/cpd_backflow/rdms.py", """    rdm2 *= 2
    for k in range(norb):
        rdm2[:, k, k, :] -= rdm1.T
""", """    for k in range(norb):
        rdm2[:, k, k, :] -= rdm1.T
    rdm2 *= 2
""")],
  needs="sampled two-body density matrices", what="the operator order of the two-body density matrix, and with it all correlation functions",
  demo=RUN + '''
    sys.path.insert(0, os.path.abspath("scripts/cpd-backflow"))
    import jax, jax.numpy as jnp
    from cpd_backflow.configs import hsheet
    from cpd_backflow.configs.common import resolve
    from cpd_backflow.systems import get_system
    from cpd_backflow.models import get_model
    from cpd_backflow.utils import save_config, save_best_params
    c = hsheet.get_config()
    c.system.n_atoms = 4
    c.model.sigma = 0.0
    c.evaluate.n_samples, c.evaluate.chunk_size = 2048, 512
    c.variational_state.n_discard_per_chain = 4
    c = resolve(c)
    save_config(work, c)
    op = get_system(c, work)
    m = get_model(c, op.hilbert, op, work)
    st = np.asarray(op.hilbert.all_states())
    save_best_params(work, {"Energy": 0.0, "Variance": 1.0, "Parameters": m.init(jax.random.PRNGKey(0), jnp.asarray(st[:2]))["params"]})
    code = session("cpd-backflow", "cpd_backflow.rdms", work, [])
    g = np.load(os.path.join(work, "rdm_2.npy"))
    C = np.load(os.path.join(work, "hf_orbitals.npy"))
    D = 2 * C @ C.T
    w = np.einsum("pq,rs->pqrs", D, D) - 0.5 * np.einsum("ps,rq->pqrs", D, D)
    sym = lambda x: (x + x.transpose(2, 3, 0, 1) + x.transpose(1, 0, 3, 2) + x.transpose(3, 2, 1, 0)) / 4
    diff = np.abs(sym(g - w)).max()
    print(code, diff)
    bad = code != 0 or diff > 0.5
''' + END),
]
