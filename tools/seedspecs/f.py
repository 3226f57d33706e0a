"""Planted changes, sixth batch."""
PRE = '''
import warnings; warnings.simplefilter("ignore")
import numpy as np, jax, jax.numpy as jnp, netket as nk
import GPSKet.models as M
from GPSKet.nn.initializers import normal
'''
SPECS = [
 dict(id="s12-mean-of-phases", property="C12",
  edits=[("GPSKet/models/autoreg_qGPS_full.py", "log_psi_symm_im = logsumexp(1j * log_psi.imag, axis=-1).imag", "log_psi_symm_im = jnp.mean(log_psi.imag, axis=-1)")],
  needs="at least three symmetry operations, or phases of symmetry-related configurations on both sides of the branch cut",
  what="phase of symmetrised complex autoregressive amplitudes",
  demo=PRE + '''
hi = nk.hilbert.Spin(0.5, 4)
syms = lambda x: jnp.stack([jnp.roll(x, k, -1) for k in range(4)], -1)
x = jnp.asarray(hi.all_states())
kw = dict(dtype=jnp.complex128, init_fun=normal(0.8, dtype=jnp.complex128), apply_fast_update=False)
m = M.ARqGPSFull(hi, 3, apply_symmetries=syms, **kw)
one = M.ARqGPSFull(hi, 3, apply_symmetries=lambda x: x[..., None], **kw)
v = m.init(jax.random.PRNGKey(1), x)
phi = np.stack([np.asarray(one.apply(v, jnp.roll(x, k, -1))).imag for k in range(4)], -1)
want = np.sum(np.exp(1j * phi), -1)
got = np.exp(1j * np.asarray(m.apply(v, x)).imag)
err = np.abs(got - want / np.abs(want)).max()
print(err)
raise SystemExit(int(bool(err > 1e-8)))
'''),
 dict(id="s21-weights-of-first-chunk", property="C21",
  edits=[("GPSKet/driver/minSR.py", "            counts_i = counts[i]\n", "            counts_i = counts[0]\n")],
  needs="a state with unequal sample weights and a chunk size smaller than the number of samples",
  what="the mean of the log-derivatives, hence the update",
  demo=PRE + '''
from GPSKet.driver import minSRVMC
from GPSKet.vqs import MCStateUniqueSamples
hi = nk.hilbert.Spin(0.5, 4)
H = nk.operator.Ising(hi, nk.graph.Chain(4), h=1.0)
new = []
for chunk in (None, 2):
    m = nk.models.RBM(alpha=1, param_dtype=jnp.float64)
    vs = MCStateUniqueSamples(nk.sampler.ExactSampler(hi), m, n_samples=8, seed=3, sampler_seed=4, max_sampling_steps=2, chunk_size=chunk)
    vs.parameters = jax.tree_util.tree_map(lambda p: 20 * p, vs.parameters)
    dr = minSRVMC(H, nk.optimizer.Sgd(0.1), variational_state=vs, solver=lambda A, b: jnp.linalg.solve(A + 0.05 * jnp.eye(len(A)), b))
    dr.advance(1)
    new.append(np.concatenate([np.ravel(l) for l in jax.tree_util.tree_leaves(vs.parameters)]))
err = np.abs(new[0] - new[1]).max()
print(err)
raise SystemExit(int(bool(not err < 1e-7)))
'''),
]
