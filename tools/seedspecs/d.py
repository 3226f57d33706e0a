"""Planted changes, fourth batch: several processes."""
PRE = '''
import os, subprocess, sys, warnings
if "worker" not in sys.argv:
    env = dict(os.environ, OMPI_MCA_btl="self,vader", OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_pml="ob1", OMPI_ALLOW_RUN_AS_ROOT="1",
               OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_mpi_yield_when_idle="1")
    env.pop("OMPI_MCA_ess_singleton_isolated", None)
    for _ in range(3):
        try:
            raise SystemExit(subprocess.run(["mpirun", "--oversubscribe", "--bind-to", "none", "-n", "2", sys.executable, __file__, "worker"], env=env, timeout=90).returncode)
        except subprocess.TimeoutExpired:
            continue
    raise SystemExit(3)
warnings.simplefilter("ignore")
from mpi4py import MPI
comm = MPI.COMM_WORLD
rank = comm.Get_rank()
import numpy as np, jax, jax.numpy as jnp, netket as nk
import GPSKet as qk
import GPSKet.models as M
from GPSKet.nn import normal
'''
SPECS = [
 dict(id="s29-normalised-per-rank", property="C29",
  edits=[("GPSKet/vqs/mc/mc_state/state_unique_samples.py", "self._relative_counts /= _sum(self._relative_counts)", "self._relative_counts /= jnp.sum(self._relative_counts)")],
  needs="unique samples on several MPI processes", what="weights of unique samples and all estimates made with them",
  demo=PRE + '''
from GPSKet.vqs import MCStateUniqueSamples
hi = nk.hilbert.Spin(0.5, 6, total_sz=0)
m = M.qGPS(hi, 2, init_fun=normal(0.3), dtype=jnp.float64)
vs = MCStateUniqueSamples(nk.sampler.MetropolisExchange(hi, graph=nk.graph.Chain(6), n_chains=4), m, n_samples=8, batch_size=32, seed=1)
s, w = vs.samples_with_counts
total = comm.allreduce(float(np.sum(w)))
print(rank, total)
raise SystemExit(int(bool(abs(total - 1) > 1e-9)))
'''),
 dict(id="s29-stratum-of-one-rank", property="C29",
  edits=[("GPSKet/vqs/mc/mc_state/state_stratified_sampling.py", """                    norm_sampled = (
                        self.N_complement
                        * total_samples
                        / _sum""", """                    norm_sampled = (
                        self.N_complement
                        * log_prob_amps_complement.shape[0]
                        / _sum""")],
  needs="stratified sampling with the norm taken from the samples on several MPI processes", what="relative weight of the deterministic and the sampled stratum",
  demo=PRE + '''
from GPSKet.vqs import MCStateStratifiedSampling
hi = nk.hilbert.Spin(0.5, 6, total_sz=0)
m = M.qGPS(hi, 1, init_fun=lambda key, shape, dtype: jnp.ones(shape, dtype), dtype=jnp.float64)     # all amplitudes equal
st = np.asarray(hi.all_states(), dtype=float)
vs = MCStateStratifiedSampling(jnp.asarray(st[:10]), len(st), nk.sampler.MetropolisExchange(hi, graph=nk.graph.Chain(6), n_chains=4), m, n_samples=16, seed=1,
                               n_discard_per_chain=1, rand_norm=False)
s, w = vs.samples_with_counts
fixed = {tuple(x) for x in st[:10].tolist()}
share = comm.allreduce(float(sum(v for x, v in zip(np.asarray(s).tolist(), np.asarray(w)) if tuple(x) in fixed)))
print(rank, share)
raise SystemExit(int(bool(abs(share - 0.5) > 1e-9)))
'''),
 dict(id="s30-block-column", property="C30",
  edits=[("GPSKet/driver/minSR.py", "+ j * self.state.chunk_size * (mpi.n_nodes - 1)", "+ i * self.state.chunk_size * (mpi.n_nodes - 1)")],
  needs="minSR on several MPI processes with several chunks per process", what="the sample matrix and with it the parameter update",
  demo=PRE + '''
from GPSKet.driver import minSRVMC
hi = nk.hilbert.Spin(0.5, 4)
m = M.qGPS(hi, 2, init_fun=normal(0.3), dtype=jnp.complex128)
ha = nk.operator.Ising(hi, nk.graph.Chain(4), h=1.0)
out = []
for chunk in (8, 2):
    vs = nk.vqs.MCState(nk.sampler.MetropolisLocal(hi, n_chains=4), m, n_samples=16, seed=1, sampler_seed=2, chunk_size=chunk)
    minSRVMC(ha, nk.optimizer.Sgd(0.05), variational_state=vs).advance(1)
    out.append(np.concatenate([np.ravel(l) for l in jax.tree_util.tree_leaves(vs.parameters)]))
err = np.abs(out[0] - out[1]).max()
print(rank, err)
raise SystemExit(int(bool(not err < 1e-6)))
'''),
 dict(id="s30-mean-of-one-rank", property="C30",
  edits=[("GPSKet/driver/VMC_SRRMSProp.py", "O_L = (O_L - O_mean) * jnp.sqrt(N_mc)", "O_L = (O_L - O_L.mean(axis=0)) * jnp.sqrt(N_mc)")],
  needs="SR-RMSProp on several MPI processes", what="the log-derivatives are centred with the mean over the samples of each process",
  demo=PRE + '''
from GPSKet.driver.VMC_SRRMSProp import SRRMSProp
rng = np.random.default_rng(1)
O, E = rng.normal(size=(16, 5)), rng.normal(size=16)
kw = dict(mode="real", solver_fn=lambda A, b: jnp.linalg.solve(A, b), params_structure=jnp.zeros(5))
up, ema = SRRMSProp(jnp.asarray(O[rank * 8:rank * 8 + 8]), jnp.asarray(E[rank * 8:rank * 8 + 8]), jnp.zeros(5), 0, 0.1, 0.9, 1e-8, **{**kw, "solver_fn": jnp.linalg.solve})
Oc, Ec = O - O.mean(0), -2 * (E - E.mean())
bad = 0
for scale in (4.0,):
    A, b = Oc * np.sqrt(16), Ec * np.sqrt(16)
    g = A.T @ b
    S = A.T @ A + 0.1 * np.diag(np.sqrt(g ** 2) + 1e-8)
    want = -np.linalg.solve(S, g)
    bad = not np.allclose(np.asarray(up), want, rtol=1e-6)
    print(rank, np.asarray(up), want)
raise SystemExit(int(bool(bad)))
'''),
 dict(id="s31-number-of-data", property="C31",
  edits=[("GPSKet/supervised/supervised_qgps.py", """                                N = _mpi_sum(len(self.fit_data))
                                squared_error""", """                                N = len(self.fit_data)
                                squared_error""")],
  needs="noise estimation of unweighted log-space fits with data on several MPI processes", what="the estimated noise",
  demo=PRE + '''
import GPSKet.supervised.supervised_qgps as S
def fit(x, y):
    l = S.QGPSLogSpaceFit(eps.copy(), init_alpha=1.0, init_noise_tilde=0.1)
    l.fit_step(x, y, 0, opt_alpha=False, opt_noise=True, max_alpha_beta_iterations=1)
    return float(np.real(l.noise_tilde)) if np.ndim(l.noise_tilde) == 0 else float(np.real(l.noise_tilde).ravel()[0])
rng = np.random.default_rng(1)
eps = 1 + 0.3 * rng.normal(size=(2, 1, 3))
x = rng.integers(0, 2, (8, 3)); y = rng.normal(size=8)
# the fit is the same however the data are dealt: all but one data point on the root, or half and half
even = fit(x[rank * 4:rank * 4 + 4], y[rank * 4:rank * 4 + 4])
other = fit(x[:7], y[:7]) if rank == 0 else fit(x[7:], y[7:])
print(rank, even, other)
raise SystemExit(int(bool(abs(even - other) > 1e-9 * abs(even))))
'''),
 dict(id="s32-steps-of-all-chains", property="C32",
  edits=[("GPSKet/sampler/metropolis_fast.py", "+ sampler.sweep_size * sampler.n_chains_per_rank,", "+ sampler.sweep_size * sampler.n_chains,")],
  needs="fast Metropolis sampling on several MPI processes", what="acceptance rate and number of steps reported for the sampler",
  demo=PRE + '''
from GPSKet.sampler import MetropolisFastExchange
hi = nk.hilbert.Spin(0.5, 6, total_sz=0)
m = M.qGPS(hi, 1, init_fun=lambda key, shape, dtype: jnp.ones(shape, dtype), dtype=jnp.float64, apply_fast_update=True)     # every move is accepted
vs = nk.vqs.MCState(MetropolisFastExchange(hi, graph=nk.graph.Chain(6), n_chains=8), m, n_samples=64, seed=1)
vs.sample()
a = float(vs.sampler_state.acceptance)
print(rank, a)
raise SystemExit(int(bool(abs(a - 1) > 1e-6)))
'''),
]
