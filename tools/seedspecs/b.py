VS = '''
import numpy as np, jax, jax.numpy as jnp, netket as nk, warnings
warnings.simplefilter("ignore")
import GPSKet as qk
import GPSKet.models as M
from GPSKet.nn import normal
'''
SPECS = [
 dict(id="s04-shared-bond-operator", property="C04",
  edits=[("GPSKet/operator/hamiltonian/J1J2.py", "    operators = jnp.array(op.operators)\n",
          "    # all bonds carry the same two-site operator\n    operators = jnp.broadcast_to(\n        jnp.array(op.operators[0]), (len(op.operators), 4, 4)\n    )\n")],
  needs="bonds with different couplings or sign rules (J2 != 0)",
  what="on-the-fly local energies of the frustrated model use the nearest-neighbour operator on every bond",
  demo=VS + '''
from GPSKet.operator.hamiltonian.J1J2 import get_J1_J2_Hamiltonian as H
bad = 0
for J2 in (0.0, 0.6):
    a, b = (H(6, J2=J2, on_the_fly_en=f) for f in (True, False))
    vs = nk.vqs.MCState(nk.sampler.MetropolisExchange(a.hilbert, graph=nk.graph.Chain(6)), M.qGPS(a.hilbert, 2, init_fun=normal(0.5)), n_samples=64, seed=3)
    x = vs.samples
    d = abs(vs.expect(a).mean - vs.expect(b).mean)
    print(J2, d)
    bad += d > 1e-8
raise SystemExit(int(bool(bool(bad))))
'''),
 dict(id="s13-last-symmetry", property="C13",
  edits=[("GPSKet/sampler/autoreg.py", "maxval=σ.shape[-1])", "maxval=σ.shape[-1] - 1)")],
  needs="a symmetrised autoregressive model with more than one group element",
  what="direct samples are never transformed by the last symmetry operation",
  demo=VS + '''
hi = nk.hilbert.Spin(0.5, 3)
def syms(x):
    return jnp.stack([x, jnp.flip(x, -1)], -1)
m = M.ARqGPSFull(hi, 2, apply_fast_update=False, apply_symmetries=syms, init_fun=normal(0.9), dtype=jnp.float64)
vs = nk.vqs.MCState(qk.sampler.ARDirectSampler(hi), m, n_samples=40000, seed=1)
p = np.abs(vs.to_array()) ** 2
ix = hi.states_to_numbers(np.asarray(vs.samples).reshape(-1, 3))
f = np.bincount(ix, minlength=8) / len(ix)
d = np.abs(f - p).max()
print(p.round(3), f.round(3))
raise SystemExit(int(bool(d > 0.015)))
'''),
 dict(id="s15-cache-any-accept", property="C15",
  edits=[("GPSKet/sampler/metropolis_fast.py", "                return jax.vmap(jnp.where)(do_accept, old_state, new_state)\n",
          "                return jnp.where(jnp.any(do_accept), old_state, new_state)\n")],
  needs="several chains of which only some accept in a step",
  what="cached intermediates of rejected chains are replaced by those of their proposals",
  demo=VS + '''
from GPSKet.sampler.metropolis_fast import MetropolisFastExchange
hi = nk.hilbert.Spin(0.5, 6, total_sz=0)
m = M.qGPS(hi, 2, init_fun=normal(0.4), dtype=jnp.float64)
bad = 0
for seed in range(3):
    sa = MetropolisFastExchange(hi, graph=nk.graph.Chain(6), n_chains=8)
    vs = nk.vqs.MCState(sa, m, n_samples=8, seed=seed)
    vs.samples
    st = vs.sampler_state
    lp = 2 * np.asarray(vs.log_value(st.σ)).real
    bad = max(bad, np.abs(lp - np.asarray(st.log_prob)).max())
print(bad)
raise SystemExit(int(bool(bad > 1e-8)))
'''),
 dict(id="s16-chain-axis", property="C16",
  edits=[("GPSKet/vqs/mc/mc_state/expect.py", "    n_chains = samples.shape[0]\n    if samples.ndim >= 3:\n", "    n_chains = samples.shape[0]\n    if samples.ndim >= 3:\n        n_chains = samples.shape[1]\n")],
  needs="a number of chains different from the chain length; only error bars and convergence diagnostics change",
  what="error estimate of expectation values treats the chain length as number of chains",
  demo=VS + '''
from GPSKet.operator.hamiltonian.J1J2 import get_J1_J2_Hamiltonian as H
h = H(6, on_the_fly_en=True)
vs = nk.vqs.MCState(nk.sampler.MetropolisExchange(h.hilbert, graph=nk.graph.Chain(6), n_chains=16), M.qGPS(h.hilbert, 2, init_fun=normal(0.5)), n_samples=640, seed=3)
vs.samples
e = vs.expect(h)
r = nk.stats.statistics(np.asarray(vs.local_estimators(h)).reshape(16, -1))
print(e, r)
raise SystemExit(int(bool(not np.isclose(e.error_of_mean, r.error_of_mean, rtol=1e-6))))
'''),
 dict(id="s17-batch-normalisation", property="C17",
  edits=[("GPSKet/vqs/mc/mc_state/state_unique_samples.py", "            self._relative_counts /= _sum(self._relative_counts)\n",
          "            self._relative_counts /= count * self.batch_size\n")],
  needs="the requested number of distinct configurations is reached in the middle of a batch",
  what="weights of collapsed samples do not sum to one",
  demo=VS + '''
from GPSKet.vqs import MCStateUniqueSamples
hi = nk.hilbert.Spin(0.5, 6)
vs = MCStateUniqueSamples(nk.sampler.MetropolisLocal(hi, n_chains=8), M.qGPS(hi, 1, init_fun=normal(0.2)), n_samples=16, seed=2, batch_size=64)
x, c = vs.samples_with_counts
print(float(jnp.sum(c)))
raise SystemExit(int(bool(abs(float(jnp.sum(c)) - 1) > 1e-9)))
'''),
 dict(id="s18-norm-overlap", property="C18",
  edits=[("GPSKet/vqs/mc/mc_state/state_stratified_sampling.py", """                            if tuple(samp) not in self.lookup_dict:
                                np.copyto(random_samples[found_samples], samp)
""", """                            if tuple(samp) in self.lookup_dict or True:
                                np.copyto(random_samples[found_samples], samp)
""")],
  needs="normalisation estimated from uniform samples with a fixed set that carries much of the weight",
  what="relative weight of the fixed set and of the sampled complement",
  demo=VS + '''
from GPSKet.vqs import MCStateStratifiedSampling
hi = nk.hilbert.Spin(0.5, 3)
st = np.asarray(hi.all_states())
W = np.array([1.0, 0.2, 0.3, 4.0, 0.25, 3.0, 0.2, 1.5])
class T(nk.nn.nn.Module if hasattr(nk.nn, "nn") else __import__("flax").linen.Module):
    @__import__("flax").linen.compact
    def __call__(self, x):
        a = self.param("a", lambda k: jnp.zeros(()))
        i = jnp.sum(jnp.asarray(hi.states_to_local_indices(x)) * jnp.array([4, 2, 1]), -1)
        return 0.5 * jnp.log(jnp.asarray(W))[i] + 0 * a
det = st[[3, 5]].astype(np.float64)
sa = nk.sampler.MetropolisLocal(hi, n_chains=400, sweep_size=1, dtype=np.float64)
vs = MCStateStratifiedSampling(jnp.asarray(det), 8, sa, T(), n_samples=4000, n_discard_per_chain=12, seed=5, number_random_samples=4000)
x, c = map(np.asarray, vs.samples_with_counts)
w = c[:2].sum()
p = W / W.sum()
j = np.sum(np.asarray(hi.states_to_local_indices(st)) * np.array([4, 2, 1]), -1)
want = p[j][[3, 5]].sum()
print(w, want)
raise SystemExit(int(bool(abs(w - want) > 0.05)))
'''),
 dict(id="s20-schedule-step", property="C20",
  edits=[("GPSKet/driver/VMC_SRRMSProp.py", "diag_shift = self.diag_shift(self.step_count)", "diag_shift = self.diag_shift(self.step_count + 1)")],
  needs="a diagonal shift given as a schedule",
  what="the diagonal shift of the SR-RMSProp driver is that of the next step",
  demo=VS + '''
from GPSKet.driver import VMC_SRRMSProp
h = nk.operator.Ising(nk.hilbert.Spin(0.5, 4), nk.graph.Chain(4), h=1.0)
out = []
for ds in (0.3, lambda t: jnp.where(t == 0, 0.3, 0.9)):
    vs = nk.vqs.MCState(nk.sampler.ExactSampler(h.hilbert), M.qGPS(h.hilbert, 1, dtype=jnp.float64), n_samples=256, seed=3)
    dr = VMC_SRRMSProp(h, nk.optimizer.Sgd(0.05), diag_shift=ds, variational_state=vs)
    dr.advance(1)
    out.append(np.concatenate([np.ravel(q) for q in jax.tree_util.tree_leaves(vs.parameters)]))
d = np.abs(out[0] - out[1]).max()
print(d)
raise SystemExit(int(bool(d > 1e-10)))
'''),
 dict(id="s22-cutoff-ignored", property="C22",
  edits=[("GPSKet/optimizer/solvers.py", "jnp.linalg.pinv(A, rcond=rcond, hermitian=True)", "jnp.linalg.pinv(A, hermitian=True)")],
  needs="eigenvalues below the requested cut-off but above machine precision",
  what="pseudo-inverse solver inverts directions it was asked to discard",
  demo='''
import numpy as np, jax.numpy as jnp
from GPSKet.optimizer.solvers import pinv
rng = np.random.default_rng(0)
Q = np.linalg.qr(rng.normal(size=(5, 5)))[0]
A = Q @ np.diag([1, 0.5, 0.1, 1e-6, 1e-6]) @ Q.T
b = rng.normal(size=5)
x, _ = pinv(jnp.asarray(A), jnp.asarray(b), rcond=1e-4)
print(np.abs(x).max())
raise SystemExit(int(bool(np.abs(x).max() > 1e3)))
'''),
 dict(id="s23-replacement", property="C23",
  edits=[("GPSKet/driver/autoreg_state_fitting.py", "            replace=False,\n", "")],
  needs="a mini-batch in which a configuration could occur twice",
  what="mini-batches of the state-fitting driver contain repeated data",
  demo=VS + '''
from GPSKet.driver import ARStateFitting
hi = nk.hilbert.Spin(0.5, 3)
x = np.asarray(hi.all_states())
rng = np.random.default_rng(1)
y = rng.normal(size=8); y /= np.linalg.norm(y)
vs = nk.vqs.MCState(qk.sampler.ARDirectSampler(hi), M.ARqGPSFull(hi, 2, dtype=jnp.float64, init_fun=normal(0.5)), n_samples=16, seed=1)
want = np.mean(np.abs(np.exp(np.asarray(vs.log_value(x))) - y) ** 2)
h = nk.operator.Ising(hi, nk.graph.Chain(3), h=1.0)
dr = ARStateFitting((x, y), h, nk.optimizer.Sgd(0.0), variational_state=vs, mini_batch_size=8, seed=4)
dr.advance(1)
print(float(dr.loss), want)
raise SystemExit(int(bool(abs(float(dr.loss) - want) > 1e-10)))
'''),
 dict(id="s24-amplitude-reuse", property="C24",
  edits=[("GPSKet/supervised/imag_time_step.py", "        self.log_amps = self.vstate.log_value(samples_reshaped)\n",
          "        if getattr(self, \"_last_samples\", None) is not samples:\n            self.log_amps = self.vstate.log_value(samples_reshaped)\n            self._last_samples = samples\n")],
  needs="two steps on the same array of configurations with the parameters of the state changed in between",
  what="imaginary-time step combines old amplitudes with new local energies",
  demo=VS + '''
from GPSKet.supervised.imag_time_step import ImagTimeStep
h = nk.operator.Ising(nk.hilbert.Spin(0.5, 4), nk.graph.Chain(4), h=1.0)
vs = nk.vqs.MCState(nk.sampler.MetropolisLocal(h.hilbert), M.qGPS(h.hilbert, 1, init_fun=normal(0.3)), n_samples=16, seed=3)
st = ImagTimeStep(vs, h)
x = jnp.asarray(h.hilbert.all_states())
a = np.asarray(st.log_imag_time_step(0.01, x))
vs.parameters = jax.tree_util.tree_map(lambda p: 1.1 * p, vs.parameters)
b = np.asarray(st.log_imag_time_step(0.01, x))
c = np.asarray(ImagTimeStep(vs, h).log_imag_time_step(0.01, x))
print(np.abs(b - c).max())
raise SystemExit(int(bool(np.abs(b - c).max() > 1e-9)))
'''),
 dict(id="s25-small-divisor", property="C25",
  edits=[("GPSKet/supervised/supervised_qgps.py", "                                if j != ref_site:\n                                    site_product[i, w, k] *= epsilon[",
          "                                if j != ref_site_old:\n                                    site_product[i, w, k] *= epsilon[")],
  needs="a vanishing tensor element at the new reference site when the reference site changes",
  what="site products rebuilt after a vanishing element leave out the old instead of the new reference site",
  demo='''
import numpy as np
from GPSKet.supervised.supervised_qgps import QGPSLearningExp
rng = np.random.default_rng(0)
eps = rng.uniform(0.5, 1.5, (2, 2, 4)); eps[1, 0, 2] = 0.0
x = rng.integers(0, 2, (12, 4)).astype(np.uint8)
l = QGPSLearningExp(eps.copy())
l.ref_sites = 0
l.set_kernel_mat(x)
l.ref_sites = 2
a = l.set_kernel_mat(x).copy()
f = QGPSLearningExp(eps.copy())
f.ref_sites = 2
b = f.set_kernel_mat(x)
print(np.abs(a - b).max())
raise SystemExit(int(bool(np.abs(a - b).max() > 1e-9)))
'''),
 dict(id="s26-weighted-count", property="C26",
  edits=[("GPSKet/supervised/supervised_qgps.py", "                                N = _mpi_sum(np.sum(self.weightings))\n", "                                N = _mpi_sum(len(self.weightings))\n")],
  needs="log-space fits with noise optimisation and weights that do not sum to the number of data points",
  what="noise estimate of weighted log-space fits",
  demo='''
import numpy as np, io, contextlib
from GPSKet.supervised.supervised_qgps import QGPSLogSpaceFit
rng = np.random.default_rng(0)
eps = rng.uniform(0.5, 1.5, (2, 1, 3))
x = rng.integers(0, 2, (20, 3)).astype(np.uint8)
y = rng.normal(size=20)
w = rng.integers(1, 4, 20)
res = []
for xx, yy, ww in ((x, y, w.astype(float)), (np.repeat(x, w, 0), np.repeat(y, w), None)):
    l = QGPSLogSpaceFit(eps.copy())
    with contextlib.redirect_stdout(io.StringIO()):
        l.fit_step(xx, yy, 1, opt_alpha=False, opt_noise=True, max_alpha_beta_iterations=3, weightings=ww)
    res.append(l.noise_tilde)
print(res)
raise SystemExit(int(bool(not np.isclose(res[0], res[1], rtol=1e-8))))
'''),
 dict(id="s27-half-spread", property="C27",
  edits=[("GPSKet/nn/initializers.py", "            eps += jax.random.normal(key, shape, dtype) * sigma\n", "            eps += jax.random.truncated_normal(key, -2.0, 2.0, shape, dtype) * sigma\n")],
  needs="statistics of many real parameters",
  what="real parameters are cut off at two standard deviations (and too narrow)",
  demo='''
import numpy as np, jax, jax.numpy as jnp
from GPSKet.nn import normal
x = np.asarray(normal(0.2)(jax.random.PRNGKey(0), (200000,), jnp.float64))
print(x.std(), np.abs(x - 1).max())
raise SystemExit(int(bool(abs(x.std() - 0.2) > 0.005)))
'''),
 dict(id="s28-signed-selection", property="C28",
  edits=[("GPSKet/datasets/h2o.py", "np.argsort(np.abs(amplitudes) ** 2)[-select_largest:]", "np.argsort(amplitudes)[-select_largest:]")],
  needs="a selection of the most probable configurations when large amplitudes are negative",
  what="the selected configurations are those with the largest signed amplitude",
  demo='''
import numpy as np, tempfile
from pyscf import gto
b = gto.Mole.build
def build(self, *a, **k):
    k["basis"] = "sto-3g"; k["verbose"] = 0
    return b(self, *a, **k)
gto.Mole.build = build
from GPSKet.datasets import get_H2O_dataset as g
with tempfile.TemporaryDirectory() as t:
    x, a = g(datapath=t)
    y, c = g(select_largest=10, datapath=t)
d = np.abs(np.sort(np.abs(a))[-10:] - np.sort(np.abs(c))).max()
print(d)
raise SystemExit(int(bool(d > 1e-12)))
'''),
]
