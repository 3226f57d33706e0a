"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/gen.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note))


H = "GPSKet/operator/hamiltonian/"
M = "GPSKet/models/"
prop("C01", "Fermionic Hamiltonian rows equal the second-quantised operator",
     "For every fermionic Hamiltonian offered (lattice Hubbard and ab-initio, dense or sparse integrals), the connected configurations and matrix elements returned for any occupation configuration sum, per configuration, to exactly the row of the second-quantised operator acting on that configuration, including all fermionic signs. No returned configuration leaves the particle-number sector with a non-zero element, and for Hermitian integrals the resulting matrix is Hermitian.",
     ["inputs", "configurations"], "all lattices/integrals, particle numbers and occupation configurations (batched or not, any integer or float sample dtype)",
     "The shipped tests check no matrix element of the fermionic operators; signs and double-excitation bookkeeping depend on the whole occupation pattern.",
     [H + "hubbard.py", H + "ab_initio.py", H + "ab_initio_sparse.py", "GPSKet/operator/fermion.py"],
     [("hopping with Jordan-Wigner parity", "GPSKet/operator/fermion.py"), ("numba connected-element kernels", H + "hubbard.py, " + H + "ab_initio.py")],
     ["connected configurations and matrix elements returned by the operators", "dense matrix of the operators"],
     "reference-model monitor over recorded operator rows; numba bounds-check sanitizer",
     "Held on the generated lattices/integrals and configurations; trusts an independent creation/annihilation-operator reference.")
prop("C02", "Spin and exclusion-process Hamiltonians have the documented elements",
     "For every lattice, coupling and boundary rate, the J1-J2 / Heisenberg Hamiltonians (with or without sign rule, on or off the fly) and the asymmetric exclusion process generator return rows equal to the Kronecker-product definition of the model. The Marshall sign rule only flips the sign of off-diagonal elements of the chosen bonds, the untilted exclusion process conserves probability, and hermiticity is reported truthfully.",
     ["inputs", "configurations"], "all lattice shapes, boundary conditions, couplings, rates, tilts and spin configurations",
     "No test evaluates these operators; neighbour lists wrap around and boundary terms only matter on specific lattices and configurations.",
     [H + "J1J2.py", H + "asep.py", "GPSKet/operator/asep.py"],
     [("neighbour lists and bond operators", H + "J1J2.py"), ("boundary/bulk local operators", H + "asep.py")],
     ["rows and dense matrices of the operators"],
     "reference-model monitor over recorded operator rows",
     "Held on the generated lattices and rates; trusts an independent Kronecker-product reference.")
prop("C03", "On-the-fly fermionic local energies equal the exact local energies",
     "For every ansatz, parameter set and sampled configuration, the local energies evaluated on the fly for the Hubbard and ab-initio (dense and sparse) Hamiltonians equal the sum over connected configurations of matrix element times amplitude ratio. The value does not depend on whether cached fast updates are used, on chunk sizes, on batching, or on the sample dtype.",
     ["inputs", "configurations"], "all ansätze, parameters, particle sectors (including empty and full spin channels), integrals, chunk sizes and sample batches",
     "Existing tests never evaluate a fermionic local energy; the on-the-fly kernels duplicate the operator with different index bookkeeping.",
     [H + "hubbard.py", H + "ab_initio.py", H + "ab_initio_sparse.py", "GPSKet/operator/fermion.py"],
     [("on-the-fly local kernels", H + "ab_initio.py"), ("chunked kernels", H + "hubbard.py")],
     ["local estimators of the variational state", "kernel outputs"],
     "differential runtime monitor: on-the-fly local energies against reference rows and model amplitudes",
     "Held on the generated states; amplitude ratios come from the model's own plain evaluation, rows from the independent reference.")
prop("C04", "On-the-fly spin local energies equal the exact local energies",
     "For every ansatz, parameter set and spin configuration, the local energies computed on the fly for the Heisenberg model equal those of the ordinary operator, independent of fast updates, chunk size and batching.",
     ["inputs", "configurations"], "all ansätze, couplings, lattices, sign rules, chunk sizes and spin configurations",
     "No test evaluates the on-the-fly spin kernels.",
     [H + "J1J2.py"], [("on-the-fly kernel for spin exchange", H + "J1J2.py")],
     ["local estimators of the variational state"],
     "differential runtime monitor: on-the-fly local energies against reference rows and model amplitudes",
     "Held on the generated states.")
prop("C05", "Sampled density matrices contract to the local energy",
     "When local reduced density matrices are requested from the ab-initio local-energy evaluation, the one- and two-body quantities returned for each sample contract with the one- and two-electron integrals to exactly the local energy, the local energy is the same as without them, and their average over the exact distribution gives the density matrices of the wavefunction.",
     ["inputs", "configurations"], "all ansätze, integrals, sectors and samples",
     "No test requests density matrices.",
     [H + "ab_initio.py"], [("local density matrix accumulation", H + "ab_initio.py")], ["returned local energies and density matrices"],
     "conservation monitor over recorded density matrices and energies; reference density matrices",
     "Held on the generated states and integrals.")
prop("C06", "Fermionic Hilbert spaces contain exactly the allowed occupations",
     "A fermionic Hilbert space enumerates every occupation configuration compatible with the requested electron numbers exactly once and nothing else, converts between indices and configurations bijectively, and its random configurations always satisfy the constraint, reaching every allowed one uniformly. Equal specifications give equal, hash-compatible spaces, and powers of a space describe the composed system.",
     ["inputs", "configurations"], "all sizes, electron numbers (or none), batch shapes, seeds and dtypes",
     "No test touches the Hilbert space directly.",
     ["GPSKet/hilbert/discrete_fermion.py", "GPSKet/hilbert/random/discrete_fermion.py"],
     [("electron-number constraint", "GPSKet/hilbert/discrete_fermion.py"), ("random state generation", "GPSKet/hilbert/random")],
     ["enumerated states", "random states"],
     "invariant monitor over enumerated and random states; uniformity test",
     "Held on the generated spaces; uniformity decided by a conservative chi-square bound.")
prop("C07", "Fast updates of GPS-type models track every update history",
     "For the GPS-type models (plain, plaquette and full autoregressive), evaluating a configuration through cached intermediate values and the list of changed sites gives the same log-amplitude as evaluating the whole configuration, after any sequence of cached updates. This includes updates that change nothing, list a site repeatedly (as the local-energy kernels do: the first entry of a site carries its change, later repeats restate its previous value), mixed numbers of changed sites per update, and updates accepted for only part of a batch. Parameters are non-zero, as the update divides by them.",
     ["histories", "inputs"], "all update sequences, numbers of changed sites, symmetries, support dimensions and dtypes",
     "Tests contain at most one cached update per model, mostly for models outside the stable suite.",
     [M + "qGPS.py", M + "plaquetteqGPS.py", M + "autoreg_qGPS_full.py"],
     [("cached site products and update", M + "qGPS.py"), ("cached plaquette products", M + "plaquetteqGPS.py"), ("cached conditionals", M + "autoreg_qGPS_full.py")],
     ["log-amplitudes with and without the cache", "cache contents through subsequent evaluations"],
     "online history monitor: every step of a random update history against full evaluation",
     "Held on the generated histories.")
prop("C08", "Fast updates of determinant models track every update history",
     "For the determinant-based models (Slater variants, Slater times GPS, Slater-Jastrow, antisymmetrised GPS, backflow), evaluating a configuration through cached intermediate values and the list of changed sites gives the same log-amplitude, including sign or phase, as evaluating the whole configuration, after any sequence of cached updates, including updates that change nothing, list a site repeatedly (first entry carries the change, repeats restate the previous value) or are accepted for only part of a batch.",
     ["histories", "inputs"], "all update sequences (hops of one or both spins, exchanges, no-ops, repeated sites), particle numbers, symmetries and parameter sets",
     "The Slater test makes a single update; accumulated low-rank updates are never exercised.",
     [M + "slater.py", M + "slater_qGPS.py", M + "slater_jastrow.py", M + "asymm_qGPS.py", M + "backflow.py", M + "cpd_backflow.py"],
     [("rank-k determinant and inverse updates", M + "slater.py")],
     ["log-amplitudes with and without the cache"],
     "online history monitor: every step of a random update history against full evaluation",
     "Held on the generated histories with well-conditioned determinants.")
prop("C09", "GPS amplitudes equal their definition and respect symmetries",
     "The plain, plaquette and segmented GPS models evaluate, for every configuration, the documented sum over support indices of products of site parameters (exponentiated or not), symmetrised as requested; amplitudes are unchanged when the configuration is transformed by a symmetry of the requested group and do not depend on the rest of the batch.",
     ["inputs", "configurations"], "all sizes, local dimensions, support dimensions, parameters, symmetry groups, spin-flip settings and batches",
     "No test compares a GPS amplitude with the definition.",
     [M + "qGPS.py", M + "plaquetteqGPS.py", M + "segmented_qGPS.py", M + "jastrow.py"],
     [("symmetrised products", M + "qGPS.py")], ["log-amplitudes"],
     "reference-model monitor and metamorphic monitors over recorded amplitudes",
     "Held on the generated models and configurations; trusts a loop-based reference.")
prop("C10", "Fermionic amplitudes equal determinants and are antisymmetric",
     "Slater, backflow, Jastrow-dressed, antisymmetrised GPS and Pfaffian models evaluate to the defined (sums or products of) determinants, Pfaffians and correlation factors of the occupied orbitals for every occupation configuration; exchanging orbital rows flips the sign, scaling orbitals scales the amplitude, and amplitudes do not depend on the rest of the batch.",
     ["inputs", "configurations"], "all sizes, particle sectors, orbital parameters, numbers of determinants, symmetries and batches",
     "Tests only check shapes or one amplitude on tiny systems and partly do not run on the installed stack.",
     [M + "slater.py", M + "slater_jastrow.py", M + "slater_qGPS.py", M + "asymm_qGPS.py", M + "backflow.py", M + "backflow_jastrow.py", M + "cpd_backflow.py", M + "pfaffian.py", M + "jastrow.py"],
     [("orbital gathering and log-determinants", M + "slater.py")], ["log-amplitudes"],
     "reference-model monitor over recorded amplitudes",
     "Held on the generated models; trusts explicit determinants / Pfaffians.")
prop("C11", "Autoregressive states are normalised with support in the allowed sector",
     "For every autoregressive model and parameter set the squared amplitudes over the Hilbert space sum to one; configurations violating a magnetisation or particle-number constraint have exactly zero amplitude and allowed ones a finite amplitude. This holds for every system size, support dimension, constraint and symmetrisation that the model accepts.",
     ["inputs", "configurations"], "all Hilbert spaces, constraints, parameters, symmetries and model variants",
     "The stable tests check normalisation of two model variants at one or two sizes.",
     [M + "autoreg_qGPS.py", M + "autoreg_qGPS_full.py", M + "autoreg_plaquetteqGPS.py", M + "pixelcnn.py"],
     [("conditional normalisation", M + "autoreg_qGPS.py"), ("constraint renormalisation", M + "autoreg_qGPS.py")],
     ["amplitudes over the whole Hilbert space"],
     "conservation monitor (probability) over fully enumerated spaces",
     "Held on the enumerated spaces.")
prop("C12", "Autoregressive conditionals are causal and consistent with the amplitude",
     "For every autoregressive model the conditional distribution at a site depends only on earlier sites in the model's ordering, each conditional is a normalised distribution of the documented GPS form (phases of the amplitude included), and the product of the conditionals along a configuration equals its squared amplitude (averaged over the symmetry group when symmetrised).",
     ["inputs", "configurations"], "all configurations, parameter sets, sites, layer stacks and filter geometries",
     "Tests check shapes and normalisation only at single sizes.",
     [M + "autoreg_qGPS.py", M + "autoreg_qGPS_full.py", M + "autoreg_plaquetteqGPS.py", M + "pixelcnn.py", "GPSKet/nn/causal_conv.py"],
     [("conditional evaluation", M + "autoreg_qGPS.py"), ("masked convolutions", "GPSKet/nn/causal_conv.py")],
     ["conditionals and amplitudes"],
     "taint/metamorphic monitor on conditionals; product consistency monitor",
     "Held on the generated models.")
prop("C13", "The direct sampler draws configurations from the model's distribution",
     "Configurations drawn directly from an autoregressive state lie in the Hilbert space, satisfy its constraints, and are distributed as the squared amplitude of the state; chains and calls are reproducible for equal seeds, distinct for different seeds, and every requested chain and length is delivered.",
     ["inputs", "configurations", "histories"], "all models, parameters, seeds, chain counts, chain lengths and repeated calls",
     "Sampling tests do not run on the installed stack, and a distribution cannot be settled by a sample shape.",
     ["GPSKet/sampler/autoreg.py", M + "autoreg_qGPS.py", M + "autoreg_qGPS_full.py"],
     [("site-by-site conditional sampling", "GPSKet/sampler/autoreg.py")], ["samples"],
     "invariant monitor on samples; conservative chi-square / exact-support tests",
     "Held on the generated samplers.")
prop("C14", "Hopping moves stay in the sector and satisfy detailed balance",
     "Every move proposed by the fermionic hopping rule conserves the number of electrons of each spin, changes only what a single hop (or exchange) can change, and is proposed with the probability needed for detailed balance, so that the Metropolis chain leaves the squared amplitude invariant; with a symmetric hopping-probability matrix whose rows sum to one only permitted moves are ever proposed.",
     ["schedules", "inputs", "configurations"], "all configurations, keys, hopping matrices, settings and chain histories",
     "No test samples with the hopping rule; a bias shows only in transition statistics.",
     ["GPSKet/sampler/rules/fermionic_hopping.py", "GPSKet/sampler/fermionic_hopping.py"],
     [("hop proposal", "GPSKet/sampler/rules/fermionic_hopping.py")], ["proposals per key", "visited states"],
     "trace monitor over recorded proposals and chains; conservative transition-symmetry statistics",
     "Held on the recorded proposals; distributional claims at a false-alarm level below 1e-9.")
prop("C15", "Fast-update Metropolis sampling agrees with full evaluation",
     "Along every Markov chain of the fast-update samplers, the log-probability and cached intermediates used for acceptance correspond to the current configuration, accepted and rejected proposals leave state and cache consistent, all samples stay in the constrained space, the chain leaves the squared amplitude invariant, and acceptance statistics count each chain's accepted moves.",
     ["schedules", "histories"], "all models with fast updates, rules, keys, chain counts, sweep sizes and repeated sampling calls",
     "No test runs a fast-update sampler; cache drift appears only after particular accept/reject sequences.",
     ["GPSKet/sampler/metropolis_fast.py", "GPSKet/sampler/rules/exchange_with_update.py", "GPSKet/sampler/rules/fermionic_hopping.py"],
     [("cached accept/reject step", "GPSKet/sampler/metropolis_fast.py")], ["chain states, caches, samples"],
     "online chain monitor: replay of every transition against full evaluation",
     "Held on the recorded chains.")
prop("C16", "Expectation values and gradients equal their estimators",
     "For every state, operator and sample set, expectation values are the mean and error statistics of the local estimators over the samples, and energy gradients are the covariance of local energies and log-derivatives; both are independent of chunk size and of whether the operator is evaluated on the fly.",
     ["inputs", "configurations"], "all models, operators, sample sets, chunk sizes and holomorphic or real parameters",
     "Tests run the optimisation driver but never compare a value or gradient with the estimator.",
     ["GPSKet/vqs/mc/mc_state/expect.py", H + "ab_initio.py", H + "hubbard.py"],
     [("expectation overrides", "GPSKet/vqs/mc/mc_state/expect.py")], ["reported statistics and gradients"],
     "reference-estimator monitor over recorded samples",
     "Held on the generated states; trusts explicit per-sample derivatives.")
prop("C17", "Unique-sample states weight each configuration by its count",
     "States collapsing Monte Carlo samples to unique configurations draw batches until the requested number of distinct configurations has been seen (or the allowed number of batches is used up), hold each configuration drawn up to that point once, with weights equal to its relative frequency among the samples drawn up to that point, and pad the set with zero-weight configurations; means, variances, energy gradients and forces with these weights equal those of the uncollapsed samples, and padding never contributes. Changing the parameters or resetting the state draws a new set; merely reading never does.",
     ["inputs", "histories"], "all sample multisets, sampler settings, batch sizes and repeated resampling",
     "No test constructs this state.",
     ["GPSKet/vqs/mc/mc_state/state_unique_samples.py", "GPSKet/vqs/mc/mc_state/expect.py", "GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py"],
     [("sample collapse", "GPSKet/vqs/mc/mc_state/state_unique_samples.py")], ["samples, weights, statistics, gradients"],
     "conservation monitor between raw and collapsed samples; reference estimators",
     "Held on the generated sample sets.")
prop("C18", "Stratified sampling combines the deterministic and sampled part without bias",
     "States sampling a fixed set of configurations deterministically and the remainder by Monte Carlo never draw a configuration of the fixed set in the sampled part, weight the two parts by their share of the total norm, and give expectation values and gradients that equal the weighted estimator over both parts.",
     ["inputs", "histories"], "all fixed sets, normalisation settings, samplers, parameters and repeated resampling",
     "No test constructs this state.",
     ["GPSKet/vqs/mc/mc_state/state_stratified_sampling.py", "GPSKet/vqs/mc/mc_state/expect.py"],
     [("stratified weights", "GPSKet/vqs/mc/mc_state/state_stratified_sampling.py")], ["samples, weights, statistics, gradients"],
     "invariant monitor on samples and weights; reference estimators",
     "Held on the generated states.")
prop("C19", "Quantum geometric tensors equal the covariance of log-derivatives",
     "Every quantum geometric tensor offered acts on vectors, converts to dense form and solves linear systems as the (weighted) covariance matrix of the log-derivatives of the sampled configurations plus the requested regularisation (constant shift or running root-mean-square gradient diagonal); on-the-fly and dense variants agree for every model, parameter structure and chunk size.",
     ["inputs", "configurations"], "all models, parameter structures (real, complex, holomorphic), sample sets, shifts and chunk sizes",
     "Tests only run the driver once with fixed settings.",
     ["GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py", "GPSKet/optimizer/qgt/qgt_onthefly_rmsprop.py", "GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py", "GPSKet/optimizer/solvers.py"],
     [("RMSProp-regularised tensors", "GPSKet/optimizer/qgt")], ["matrix-vector products, dense matrices, solutions"],
     "reference-estimator monitor over recorded tensors",
     "Held on the generated states; trusts explicit per-sample derivatives.")
prop("C20", "The SR-RMSProp driver performs the documented update at every step",
     "At every step of any run the driver accumulates the exponential moving average of the squared gradients, bias-corrects it, and updates the parameters by the learning rate times the solution of the regularised linear system built from the current samples; the energy it reports is that of the parameters before the update, resetting the driver restarts the average together with the step count, and logging, resuming or inspecting in between never changes what a step does.",
     ["histories", "inputs"], "all run lengths, call patterns (single steps, runs, intermediate queries), hyperparameters and models",
     "The test checks that the driver runs and reduces an energy.",
     ["GPSKet/driver/VMC_SRRMSProp.py", "GPSKet/optimizer/sr_rmsprop.py"],
     [("moving average and preconditioner state", "GPSKet/driver/VMC_SRRMSProp.py")], ["parameters and reported energy after every step"],
     "online step monitor: every step replayed by a reference update",
     "Held on the recorded optimisation runs.")
prop("C21", "The minSR driver solves the sample-space form of the SR equation",
     "At every step the minSR driver's parameter update equals O^dagger (O O^dagger)^(-1) e for the current samples, with O the centred log-derivatives and e the centred local energies, both multiplied by the square root of the sample weights, the inverse taken by the chosen solver (by default a least-squares pseudo-inverse); real parameters take the real part, and for holomorphic or purely real log-derivatives this is the minimum-norm solution of the parameter-space equations. The result does not depend on the chunk size or on how samples are arranged in chains, and the energy reported is the weighted mean over these samples.",
     ["histories", "inputs"], "all models, sample numbers (more or fewer than parameters), solver options and steps",
     "No test runs this driver.",
     ["GPSKet/driver/minSR.py"], [("sample-space kernel and solve", "GPSKet/driver/minSR.py")], ["parameter updates per step"],
     "online step monitor: every step replayed by a reference update",
     "Held on the recorded steps.")
prop("C22", "Dense SR and pseudo-inverse solvers solve the regularised equations",
     "The dense stochastic-reconfiguration preconditioner and the pseudo-inverse solvers return the solution of the regularised linear system they are given: exact for well-conditioned systems, the minimum-norm least-squares solution within the stated cut-off otherwise, preserving the structure and dtype of the gradient.",
     ["inputs"], "all symmetric systems (well-conditioned, singular, badly scaled), gradients, shifts and cut-offs",
     "No test calls the solvers.",
     ["GPSKet/optimizer/sr_dense.py", "GPSKet/optimizer/solvers.py", "GPSKet/optimizer/sr_rmsprop.py"],
     [("pseudo-inverse with cut-off", "GPSKet/optimizer/solvers.py")], ["solutions"],
     "residual monitor over recorded solves",
     "Held on the generated systems.")
prop("C23", "State-fitting drivers report and descend the exact fitting loss",
     "At every step the autoregressive state-fitting driver's reported loss and gradient are those of the documented loss between model and target amplitudes on the selected mini-batch, mini-batches are drawn without leaving the dataset, and the target data are never modified.",
     ["histories", "inputs"], "all datasets, batch sizes, models and step sequences",
     "No test runs the fitting driver.",
     ["GPSKet/driver/abstract_state_fitting.py", "GPSKet/driver/autoreg_state_fitting.py"],
     [("mini-batch loss", "GPSKet/driver/autoreg_state_fitting.py")], ["loss, gradients, parameters per step"],
     "online step monitor: loss and gradient replayed by a reference",
     "Held on the recorded fits.")
prop("C24", "Imaginary-time steps give exact amplitudes and leave the state intact",
     "For every configuration (and whatever the shape of the batch), the first-order imaginary-time step of a state, evaluated on given samples or as a propagated variational state that can be nested, sampled and re-parametrised, gives exactly the amplitude of (1 - tau H) psi including its sign, for complex and real models, plain and chunked evaluation, with or without fast updates; and the state it started from keeps its parameters, samples, sampler state and amplitudes, also when the evaluation fails.",
     ["inputs", "histories"], "all operators, time steps, states and sample settings",
     "No test covers it.",
     ["GPSKet/supervised/imag_time_step.py"], [("propagated amplitudes", "GPSKet/supervised/imag_time_step.py")], ["propagated amplitudes, samples and energies; the original state before/after"],
     "reference-model monitor on propagated amplitudes; state-preservation monitor with injected faults",
     "Held on the recorded steps.")
prop("C25", "Supervised GPS bookkeeping stays consistent over any update history",
     "Throughout any sequence of site sweeps, hyperparameter changes, reference-site changes and refits, the supervised GPS learner's incrementally maintained site products and kernel matrices equal those recomputed from its current weights, its predictions equal the GPS it represents, and the caller's data are never modified.",
     ["histories", "inputs"], "all operation sequences, sizes, support dimensions, symmetries, data sets and dtypes",
     "The supervised package has no tests.",
     ["GPSKet/supervised/supervised_qgps.py"], [("incremental site products", "GPSKet/supervised/supervised_qgps.py")], ["kernel matrices, predictions and weights after every operation"],
     "online history monitor: incremental state against recomputation after every operation",
     "Held on the generated histories.")
prop("C26", "Bayesian fits return the posterior mean and the exact marginal likelihood",
     "Each local fit of the supervised learner returns the maximiser of the stated (regularised, weighted) log-posterior, the reported marginal likelihood and its derivatives are those of the stated Gaussian model, hyperparameter iterations follow the evidence fixed-point updates and stop, once converged, at a stationary point of the marginal likelihood, and noise-only optimisation and growing relevance-vector fits never lose marginal likelihood.",
     ["inputs", "histories"], "all data sets, weights, noise and prior hyperparameters, pruning settings and real or complex targets",
     "The supervised package has no tests.",
     ["GPSKet/supervised/supervised_qgps.py"], [("linear-model posterior and relevance updates", "GPSKet/supervised/supervised_qgps.py")], ["weights, variances and likelihoods after fits"],
     "reference-model monitor: posterior means by orthogonal least squares, evidences from the marginal covariance, optimality of every optimisation result",
     "Held on the generated fits.")
prop("C27", "Initialisers produce parameters in the documented law and finite states",
     "Parameter initialisers return arrays of the requested shape and dtype, reproducible per key, distributed around the documented centre with the documented spread (in modulus and phase for complex parameters), so that a freshly initialised state is finite on every configuration.",
     ["inputs"], "all shapes, dtypes, keys and widths",
     "No test inspects initial parameters.",
     ["GPSKet/nn/initializers.py"], [("noise around the identity state", "GPSKet/nn/initializers.py")], ["initial parameters"],
     "invariant monitor on generated parameters; conservative moment tests",
     "Held on the generated parameters.")
prop("C28", "Reference data sets are ground states of the Hamiltonian stored with them",
     "The H2O reference data set delivers, for every orbital basis offered, each configuration of the electron sector exactly once, with the amplitudes of the normalised exact ground state of the ab-initio Hamiltonian whose integrals are stored with it (in the sign convention of the package's Hamiltonians). Repeated calls return identical data whatever other bases were requested in between, the selection of the largest amplitudes returns exactly those configurations with their amplitudes, and a generation interrupted at any write does not spoil later calls.",
     ["inputs", "histories", "crash_points"], "all bases, call sequences in a data folder, numbers of selected configurations and interruption points",
     "The data sets have no tests; interruptions never occur in tests.",
     ["GPSKet/datasets/h2o.py"], [("cached generation of configurations, amplitudes and integrals", "GPSKet/datasets/h2o.py")], ["configurations, amplitudes and integral files after every call"],
     "history monitor with injected write interruptions; eigenstate residual of the package's own Hamiltonian",
     "Held on the recorded call histories and every injected interruption.")
prop("C29", "Estimates on several processes equal those of the pooled samples",
     "When the Markov chains or samples are distributed over several MPI processes, every process obtains the same estimates: means, variances and gradients of operators, quantum geometric tensors with their products and solutions, preconditioned vectors and the weights of unique or stratified samples equal those one process computes from the pooled samples, and local estimators and weighted samples of the processes join to the pooled ones.",
     ["inputs", "histories", "schedules"], "all numbers of processes, operators, states, sample sets and chunk sizes",
     "All tests run in one process.",
     ["GPSKet/vqs/mc/mc_state/state_unique_samples.py", "GPSKet/vqs/mc/mc_state/state_stratified_sampling.py", "GPSKet/operator/hamiltonian/ab_initio.py", "GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py"],
     [("reductions over MPI ranks", "GPSKet/vqs/mc/mc_state/state_unique_samples.py")], ["estimates, gradients, tensors and weighted samples of every rank"],
     "offline comparison of recordings of all MPI ranks with each other and with a one-process run on the pooled samples; stuck and aborting ranks are reported",
     "Held on the recorded scenarios with 2 to 6 ranks.")
prop("C30", "Optimisation steps on several processes equal those on the pooled samples",
     "Each optimisation driver (SR-RMSProp, minSR with plain and unique samples, VMC with unique-sample stochastic reconfiguration, supervised state fitting), run on several MPI processes, completes its steps, reports the same energies or losses and leaves identical parameters on every process, equal to those of one process that holds all the samples or data.",
     ["inputs", "histories", "schedules"], "all drivers, numbers of processes, operators, states, sample sets, chunk sizes and schedules",
     "All tests run in one process.",
     ["GPSKet/driver/VMC_SRRMSProp.py", "GPSKet/driver/minSR.py", "GPSKet/driver/autoreg_state_fitting.py", "GPSKet/driver/abstract_state_fitting.py"],
     [("gather/solve/broadcast of the update", "GPSKet/driver/VMC_SRRMSProp.py"), ("blocked gather of the sample matrix", "GPSKet/driver/minSR.py")], ["parameters, energies and losses of every rank after every step"],
     "offline comparison of recorded optimisation trajectories of all MPI ranks with each other and with a one-process run; deadlock watchdog",
     "Held on the recorded trajectories with 2 to 6 ranks.")
prop("C31", "Distributed supervised fits equal the fit of the pooled data",
     "Supervised GPS learners given their data distributed over several MPI processes in any split (even, interleaved or very unequal) reach on every process identical weights and hyperparameters, which, with the marginal likelihood and its derivatives, errors and predictions, equal those of one process that fits all the data.",
     ["inputs", "histories", "schedules"], "all splits of the data, numbers of processes, learners, data sets, weights and hyperparameter settings",
     "The supervised package has no tests.",
     ["GPSKet/supervised/supervised_qgps.py"], [("sums over MPI ranks in the normal equations and likelihoods", "GPSKet/supervised/supervised_qgps.py")], ["weights, hyperparameters, likelihoods, errors and predictions of every rank after every fit"],
     "offline comparison of the recordings of all MPI ranks with each other and with the fit of the pooled data",
     "Held on the recorded fits with 2 to 5 ranks; quantities a rounding-size change of the data alters are not judged.")
prop("C32", "Processes share parameters but draw independent samples of the state",
     "On several MPI processes a variational state has identical parameters on every process (freshly initialised with or without a seed, and throughout optimisation), every process draws its share of the samples independently of the others and from the same distribution as one process would, and acceptance rates, sample weights and energies refer to the samples of all processes.",
     ["inputs", "histories", "schedules"], "all samplers, states, seeds and numbers of processes",
     "All tests run in one process.",
     ["GPSKet/sampler/autoreg.py", "GPSKet/sampler/metropolis_fast.py", "GPSKet/vqs/mc/mc_state/state_unique_samples.py", "GPSKet/vqs/mc/mc_state/state_stratified_sampling.py"],
     [("samples of one rank", "GPSKet/sampler/autoreg.py"), ("fast Metropolis steps of one rank", "GPSKet/sampler/metropolis_fast.py")], ["samples, sampler statistics, weights, parameters and energies of every rank"],
     "statistical monitors (p < 1e-10) on the recorded draws of all MPI ranks, and equality of shared state between ranks",
     "Held on the recorded draws with 2 to 6 ranks.")

prop("C33", "Interrupted experiment runs resume and complete every step",
     "An experiment of scripts/ARGPS or scripts/cpd-backflow that is killed at any point (between or during steps, while a file is written, around a rename) and restarted with its working directory continues from the last complete checkpoint with the parameters, optimiser state and running gradient average stored there, keeps its configuration and its best parameters (whose energy never gets worse), performs every remaining step of both optimisation phases exactly once per session, logs every step with the energy of that step, ends with the checkpoint of the last step, and is not continued once finished.",
     ["crash points", "histories", "inputs"], "all programs, configurations, optimisers, kill points and sequences of restarts",
     "No test runs the experiment programs, let alone kills them.",
     ["scripts/ARGPS/argps/vmc.py", "scripts/ARGPS/argps/utils.py", "scripts/cpd-backflow/cpd_backflow/vmc.py", "scripts/cpd-backflow/cpd_backflow/utils.py"],
     [("checkpoint contents and optimisation loop", "scripts/cpd-backflow/cpd_backflow/vmc.py"), ("checkpoint contents and optimisation loop", "scripts/ARGPS/argps/vmc.py"), ("configuration, log and best parameters", "scripts/cpd-backflow/cpd_backflow/utils.py")],
     ["driver state before and after every step of every session", "checkpoints, metrics, evaluations, configuration and best parameters after every session"],
     "fault injection (process kills at steps, writes and renames) with an offline checker of the event logs and files of all sessions against the trace specification",
     "Held on all explored sequences of kills and restarts of small experiments.")

prop("C34", "Experiment configurations yield the Hamiltonian they describe",
     "The system an experiment of scripts/ARGPS or scripts/cpd-backflow sets up has the Hamiltonian its configuration describes: Heisenberg and J1-J2 lattices, Hubbard chains and lattices with periodic, anti-periodic, open and mixed boundaries (chains of a multiple of four sites are anti-periodic) and any filling, and molecules and hydrogen chains and sheets in every supported orbital basis, spin and integral pruning have the exact spectrum of that model in the requested particle sector, and a restarted run uses the same Hamiltonian as the first one.",
     ["inputs", "histories"], "all configurations of systems small enough to be diagonalised",
     "No test builds the systems of the experiment programs.",
     ["scripts/ARGPS/argps/systems.py", "scripts/ARGPS/argps/configs/hydrogen.py", "scripts/cpd-backflow/cpd_backflow/systems.py", "scripts/cpd-backflow/cpd_backflow/configs/hsheet.py"],
     [("system setup", "scripts/ARGPS/argps/systems.py"), ("system setup and stored integrals", "scripts/cpd-backflow/cpd_backflow/systems.py")], ["matrix of the operator get_system returns, stored integrals"],
     "monitor of the operators real configurations produce, against independent exact diagonalisation and PySCF FCI references",
     "Held on all explored configurations.")

prop("C35", "Experiment ansatze start from and respect what the configuration requests",
     "The state an experiment of scripts/ARGPS or scripts/cpd-backflow sets up is the configured one: without noise a backflow state is the mean-field determinant of its system (restricted, unrestricted or generalised, Hartree-Fock energy for molecules), noise has the configured width, environments hold the most strongly exchange-coupled orbitals, autoregressive states are normalised, states are invariant under the requested symmetries, samples lie in the particle sector, and local energies and sampled density matrices are those of the state; spin-spin correlations computed from density matrices are the exact ones for singlet states, and radial correlations average the pairs at that distance.",
     ["inputs"], "all models, symmetries, orbital types, bases and configurations of enumerable systems",
     "No test builds the models of the experiment programs.",
     ["scripts/ARGPS/argps/models.py", "scripts/ARGPS/argps/samplers.py", "scripts/cpd-backflow/cpd_backflow/models.py", "scripts/cpd-backflow/cpd_backflow/rdms.py", "scripts/cpd-backflow/cpd_backflow/corrfunc.py"],
     [("lattice symmetries and sector rules", "scripts/ARGPS/argps/models.py"), ("mean-field orbitals and environments", "scripts/cpd-backflow/cpd_backflow/models.py"), ("density matrices", "scripts/cpd-backflow/cpd_backflow/rdms.py")],
     ["log-amplitudes of all configurations, samples, local energies, environments, density matrices, correlations"],
     "monitors over the states and programs of real configurations (enumeration of all configurations, PySCF references, sampled density matrices within twelve standard errors)",
     "Held on all explored configurations.")

READY = [p["id"] for p in P if os.path.exists(os.path.join(ROOT, "gv", p["id"].lower() + ".py"))]
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
        for fn in p["files"]:
            fp = os.path.join("/repo", fn)
            if os.path.isdir("/repo") and not os.path.exists(fp):
                print("missing anchor", p["id"], fn)
man = {"version": 1, "setup_cmd": "bash setup.sh",
       "checks": [{"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick",
                   "thorough_cmd": f"bash check.sh {p['id']} thorough", "technique": p["technique"],
                   "level": "exploration", "level_note": p["note"]} for p in P if p["id"] in READY],
       "not_applicable": [{"property": p["id"], "reason": "check still under construction"} for p in P if p["id"] not in READY],
       "notes": "No hooks in /repo: all observation points are public return values and state; /repo carries only fix: commits."}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties;", len(READY), "checks")
