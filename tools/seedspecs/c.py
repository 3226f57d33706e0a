"""Planted changes, third batch."""
PRE = '''
import numpy as np, jax, jax.numpy as jnp, netket as nk, warnings
warnings.simplefilter("ignore")
import GPSKet as qk
import GPSKet.models as M
from GPSKet.nn import normal
'''
SPECS = [
 dict(id="s03-sign-of-hopping", property="C03",
  edits=[("GPSKet/operator/hamiltonian/hubbard.py", "value *= -t[index]", "value *= -jnp.abs(t[index])")],
  needs="on-the-fly evaluation with hopping amplitudes of different sign (antiperiodic boundaries, frustrated hopping)",
  what="on-the-fly local energies of Hubbard models",
  demo=PRE + '''
from GPSKet.operator.hamiltonian.hubbard import FermiHubbard, FermiHubbardOnTheFly
from GPSKet.hilbert import FermionicDiscreteHilbert
hi = FermionicDiscreteHilbert(4, n_elec=(2, 2))
edges = np.array([[0, 1], [1, 2], [2, 3], [3, 0]])
t = np.array([1.0, 1.0, 1.0, -1.0])
m = M.qGPS(hi, 2, init_fun=normal(0.3), dtype=jnp.float64)
vs = nk.vqs.MCState(nk.sampler.ExactSampler(hi), m, n_samples=64, seed=1)
a = FermiHubbard(hi, edges, U=4.0, t=t)
b = FermiHubbardOnTheFly(hi, edges, U=4.0, t=t)
x, y = (np.asarray(vs.local_estimators(o)).ravel() for o in (a, b))
print(np.abs(x - y).max())
raise SystemExit(int(bool(np.abs(x - y).max() > 1e-8)))
'''),
 dict(id="s05-doubly-occupied-spectator", property="C05",
  edits=[("GPSKet/operator/hamiltonian/ab_initio.py", """            value -= 0.5 * jnp.sum(eri[up_occ_inds, a, i, up_occ_inds])
            if return_local_RDMs:
                t_contribution = amp_ratio * parity_multiplicator
                eri_contribution_1 = jnp.zeros(
                    (eri.shape[2], eri.shape[3]), dtype=complex
                )
                eri_contribution_1 = eri_contribution_1.at[
                    up_occ_inds, up_occ_inds
                ].add(t_contribution)
                eri_contribution_1 = eri_contribution_1.at[
                    down_occ_inds, down_occ_inds
                ].add(t_contribution)
""", """            value -= 0.5 * jnp.sum(eri[up_occ_inds, a, i, up_occ_inds])
            if return_local_RDMs:
                t_contribution = amp_ratio * parity_multiplicator
                eri_contribution_1 = jnp.zeros(
                    (eri.shape[2], eri.shape[3]), dtype=complex
                )
                eri_contribution_1 = eri_contribution_1.at[
                    up_occ_inds, up_occ_inds
                ].add(t_contribution)
                eri_contribution_1 = eri_contribution_1.at[
                    down_occ_inds, down_occ_inds
                ].set(t_contribution)
""")],
  needs="density matrices of sectors in which a doubly occupied site is a spectator of a hop (two up electrons or more)",
  what="elements of the sampled two-body density matrices",
  demo=PRE + '''
from GPSKet.operator.hamiltonian.ab_initio import local_en_on_the_fly
from GPSKet.hilbert import FermionicDiscreteHilbert
L, ne = 4, (2, 2)
hi = FermionicDiscreteHilbert(L, n_elec=ne)
rng = np.random.default_rng(0)
h = rng.normal(size=(L, L)); h = h + h.T
e = rng.normal(size=(L,) * 4); e = e + e.transpose(1, 0, 2, 3); e = e + e.transpose(0, 1, 3, 2); e = e + e.transpose(2, 3, 0, 1)
m = M.qGPS(hi, 2, init_fun=normal(0.3), dtype=jnp.float64)
x = jnp.asarray(hi.all_states())
v = m.init(jax.random.PRNGKey(0), x)
E, d1, d2 = local_en_on_the_fly(ne, m.apply, v, x, (jnp.asarray(h), jnp.asarray(e)), return_local_RDMs=True)
E2 = jnp.einsum("bij,ij->b", d1, h) + jnp.einsum("bijkl,ijkl->b", d2, e)
print(np.abs(np.asarray(E) - np.asarray(E2)).max())
raise SystemExit(int(bool(np.abs(np.asarray(E) - np.asarray(E2)).max() > 1e-8)))
'''),
 dict(id="s07-first-configuration", property="C07",
  edits=[("GPSKet/models/autoreg_qGPS_full.py", "            self._saved_configs.value = full_samples\n", "            if update_sites is None:\n                self._saved_configs.value = full_samples\n")],
  needs="at least two successive updates of a cached autoregressive state at the same site",
  what="fast-updated amplitudes of autoregressive models",
  demo=PRE + '''
hi = nk.hilbert.Spin(0.5, 5)
m = M.ARqGPSFull(hi, 2, init_fun=normal(0.5), dtype=jnp.float64, apply_fast_update=True)
rng = np.random.default_rng(0)
x = np.asarray(hi.all_states())[rng.integers(0, 32, 4)]
v = m.init(jax.random.PRNGKey(0), jnp.array(x))
v = {"params": v["params"]}
ref = M.ARqGPSFull(hi, 2, init_fun=normal(0.5), dtype=jnp.float64, apply_fast_update=False)
_, c = m.apply(v, jnp.array(x), cache_intermediates=True, mutable="intermediates_cache")
w = 0.0
for t in range(6):
    s = np.full((4, 1), t % 2)
    x[:, t % 2] *= -1
    y, c = m.apply({**v, **c}, jnp.array(x[:, [t % 2]]), update_sites=jnp.asarray(s), cache_intermediates=True, mutable="intermediates_cache")
    w = max(w, np.abs(np.asarray(y - ref.apply(v, jnp.array(x)))).max())
print(w)
raise SystemExit(int(bool(not w < 1e-8)))
'''),
 dict(id="s11-symmetrised-power", property="C11",
  edits=[("GPSKet/models/autoreg_qGPS_full.py", """        log_psi_symm_re = (1 / self.machine_pow) * logsumexp(
            self.machine_pow * log_psi.real, axis=-1, b=1 / n_symm
        )""", """        log_psi_symm_re = 0.5 * logsumexp(
            2 * log_psi.real, axis=-1, b=1 / n_symm
        )""")],
  needs="symmetrised autoregressive model with a machine power other than two",
  what="normalisation of the symmetrised model",
  demo=PRE + '''
hi = nk.hilbert.Spin(0.5, 4)
m = M.ARqGPSFull(hi, 2, init_fun=normal(0.7), dtype=jnp.float64, machine_pow=1, apply_fast_update=False,
                 apply_symmetries=lambda x: jnp.stack([x, jnp.flip(x, -1)], -1))
x = jnp.asarray(hi.all_states())
v = m.init(jax.random.PRNGKey(1), x)
n = float(np.sum(np.abs(np.exp(np.asarray(m.apply(v, x))))))
print(n)
raise SystemExit(int(bool(abs(n - 1) > 1e-8)))
'''),
 dict(id="s14-occupied-site", property="C14",
  edits=[("GPSKet/sampler/rules/fermionic_hopping.py", "hopping_or_exchange == 0, occ, jnp.logical_and(occ != 2, occ != 0)", "hopping_or_exchange == 0, occ != 0, jnp.logical_and(occ != 2, occ != 0)")],
  needs="states with both doubly and singly occupied sites",
  what="symmetry of the proposal and hence the sampled distribution",
  demo=PRE + '''
from GPSKet.sampler.rules.fermionic_hopping import transition_function
from GPSKet.hilbert import FermionicDiscreteHilbert
hi = FermionicDiscreteHilbert(4, n_elec=(2, 1))
S = np.asarray(hi.all_states()).astype(np.uint8)
n = 40000
T = np.zeros((len(S), len(S)))
for i, s in enumerate(S):
    y = np.asarray(transition_function(jax.random.PRNGKey(i), jnp.asarray(np.tile(s, (n, 1))), 1.0)[0])
    for j, u in enumerate(S):
        T[i, j] = np.mean(np.all(y == u, 1))
print(np.abs(T - T.T).max())
raise SystemExit(int(bool(np.abs(T - T.T).max() > 0.03)))
'''),
 dict(id="s19-eps-under-root", property="C19",
  edits=[("GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py", "diag_shift * (jnp.sqrt(ema) + eps) * v", "diag_shift * jnp.sqrt(ema + eps) * v")],
  needs="matrix-vector products (iterative solvers); the dense form is unaffected",
  what="agreement of the product with the dense tensor",
  demo=PRE + '''
from GPSKet.optimizer.qgt import QGTJacobianDenseRMSProp
hi = nk.hilbert.Spin(0.5, 4)
vs = nk.vqs.MCState(nk.sampler.ExactSampler(hi), M.qGPS(hi, 1, init_fun=normal(0.3), dtype=jnp.float64), n_samples=32, seed=1)
ema = jax.tree_util.tree_map(lambda p: 0.01 + jnp.abs(p), vs.parameters)
q = QGTJacobianDenseRMSProp(vs, ema, diag_shift=0.3, eps=1e-3)
t = jax.tree_util.tree_map(jnp.cos, vs.parameters)
a = np.asarray(nk.jax.tree_ravel(q @ t)[0])
b = np.asarray(q.to_dense()) @ np.asarray(nk.jax.tree_ravel(t)[0])
print(np.abs(a - b).max())
raise SystemExit(int(bool(np.abs(a - b).max() > 1e-9)))
'''),
]
