F += [
 ("C11", "complex-forbidden-nan", "zero instead of NaN amplitudes of forbidden configurations in complex autoregressive models", "forbidden configurations of constrained complex autoregressive models had NaN instead of zero amplitude"),
 ("C14", "vacuum-hop", "do not move an electron out of an empty site in the hopping rule", "hopping proposals from a configuration without electrons produced invalid occupations"),
 ("C10", "empty-channel-init", "initialise Slater determinants also for empty spin channels", "Slater-type models could not be initialised for fully polarised sectors"),
 ("C15", "sampler-replace", "let samplers be replaced and hashed like other NetKet samplers", "changing a setting of a fast or direct sampler with replace() raised a TypeError"),
 ("C22", "srdense-construct", "construct the dense SR preconditioner and accept its default solver", "SRDense could not be constructed with its default solver, and pinv rejected lazy tensors"),
 ("C19", "rmsprop-norm", "normalise the dense RMSProp quantum geometric tensor by the number of samples", "the dense RMSProp tensor was the sum instead of the mean over the samples"),
 ("C19", "unique-weights", "weight the quantum geometric tensor of unique samples by the counts", "the tensor of unique samples ignored the sample weights"),
 ("C19", "unique-shift", "default and keep the diagonal shift of the unique samples quantum geometric tensor", "the tensor of unique samples dropped its diagonal shift"),
 ("C19", "onthefly-scale", "scale real and imaginary parts separately in the on-the-fly RMSProp quantum geometric tensor", "the on-the-fly tensor scaled complex parameters by the square root of a complex average"),
 ("C21", "local-energy-order", "keep local energies in the order of the samples in the minSR driver", "local energies of several chains were paired with the wrong samples"),
 ("C21", "count-weights", "weight the log-derivatives by the sample counts in the minSR driver", "log-derivatives of weighted samples were not weighted"),
 ("C18", "construct", "construct stratified sampling states with the sampler interface of current NetKet", "the stratified state could not be constructed"),
 ("C17", "gradient-weights", "weight energy gradients of unique samples by the counts", "energy gradients of unique samples ignored the sample weights"),
 ("C19", "default-mode", "choose the default mode of the dense RMSProp quantum geometric tensor", "the dense RMSProp tensor raised without an explicit mode"),
 ("C20", "reset-ema", "restart the moving average when the SR-RMSProp driver is reset", "after reset the step count restarted but the moving average did not, so the bias correction was wrong"),
 ("C24", "restore-on-failure", "restore the samples of the state when the local energies of an imaginary-time step fail", "an imaginary-time step whose evaluation failed left its temporary samples in the variational state"),
 ("C24", "hubbard-propagation", "propagate states with the on-the-fly Hubbard Hamiltonian", "evaluating a state propagated with the on-the-fly Hubbard Hamiltonian raised a TracerArrayConversionError"),
 ("C24", "sign-of-amplitudes", "keep the sign of imaginary-time propagated amplitudes", "for real local energies the propagated amplitude was NaN wherever the step changes its sign"),
 ("C24", "nested-steps", "allow nested imaginary-time steps", "nested propagated states raised KeyError('tau')"),
 ("C26", "noise-der-logdet", "sign of the log-determinant in the noise derivative of the marginal likelihood", "the derivative of the marginal likelihood by the noise added the log-determinant term with the wrong sign"),
 ("C26", "log-noise-expand", "noise estimation of log-space fits with expanded complex parameters", "the noise update of log-space fits counted expanded complex parameters twice"),
 ("C26", "log-noise-der", "noise derivative of the marginal likelihood in log-space fits", "log-space fits inherited the noise derivative of another noise model"),
 ("C26", "log-weighted-lik", "weight the data term of the marginal likelihood in log-space fits", "the data term of the marginal likelihood of weighted log-space fits ignored the weights"),
 ("C26", "vanishing-weights", "weight vanishing target amplitudes in fits of exponential models", "vanishing target amplitudes entered fits without their weight"),
 ("C26", "alpha-der-inactive", "likelihood derivative by the prior of features without data", "the derivative by the priors raised when some features never occur in the data"),
 ("C25", "glm-weightings", "do not modify the weightings passed to generalised linear model fits", "generalised linear model fits overwrote the caller's weightings"),
 ("C26", "glm-keep-weights", "keep the weights of generalised linear models when their prior changes", "changing the priors of a generalised linear model reset or misordered its weights"),
 ("C26", "glm-newton", "apply the Newton update of generalised linear models", "Newton iterations of generalised linear models did not apply the update they computed"),
 ("C26", "growing-numpy2", "growing relevance vector machine fits with NumPy 2", "growing fits raised AttributeError: np.PINF"),
 ("C26", "growing-prior-mean", "add the prior mean to the weights of growing relevance vector machine fits", "growing fits dropped the prior mean from the resulting tensor"),
 ("C26", "noise-restart", "restart the prior optimisation in every evaluation of the noise optimisation", "the objective of the noise optimisation depended on the evaluations before"),
 ("C25", "own-copies", "keep own copies of configurations and reference sites in the supervised learner", "changing an array after passing it to the learner corrupted its cached products"),
 ("C26", "growing-complex", "relevance criterion of growing fits with complex parameters", "growing fits with expanded complex parameters used a criterion that lost likelihood"),
 ("C26", "bias-prior-order", "assign the priors of expanded complex parameters to the right weights with a bias", "with a bias the priors of imaginary parts were assigned to shifted weights"),
    ("C12", "even-kernel", "keep convolutions with even kernel sizes causal", "with even kernel sizes the masked convolutions saw the next pixel, so conditionals were not causal"),
    ("C28", "interrupted-generation", "recover from interrupted generation of the H2O data set", "after an interruption between or during writes every later call raised"),
    ("C30", "fitting-gradient", "average the gradient of the state-fitting loss over the processes", "on several processes the gradient of state fitting was the sum over the ranks while the loss is their mean"),
    ("C30", "srrmsprop-ranks", "run the SR-RMSProp driver on several processes", "the SR-RMSProp driver raised or deadlocked on more than one process"),
    ("C33", "config-write", "keep a complete configuration when an experiment is interrupted while saving it", "a run killed while it rewrote config.yaml could not be restarted"),
    ("C33", "best-write", "keep the best parameters when an experiment is interrupted while saving them", "a run killed while it stored best_params.mpack lost the best parameters and could not be restarted"),
    ("C33", "list-n-elec", "set up the Fermi-Hubbard system of a restarted experiment", "restarting a Fermi-Hubbard experiment raised: the electron numbers read from the YAML file are an unhashable list"),
    ("C33", "ema-checkpoint", "checkpoint the gradient average of the SR-RMSProp driver", "checkpoints of SR-RMSProp runs did not contain the running average, so restarted runs began with zero"),
    ("C33", "skipped-steps", "perform every step of a restarted backflow experiment", "runs restarted at the last step of a phase or in the finishing phase skipped a step"),
    ("C34", "open-chain", "set up the Hubbard chain with open boundary conditions", "pbc=False still set up the bond between the ends of the chain"),
    ("C35", "exchange-basis", "select the most coupled orbitals with the exchange matrix in the orbital basis", "the exchange matrix was transformed twice for local bases and not at all for the canonical one"),
    ("C35", "polarised-generalised", "place the generalised orbitals of spin-polarised molecules", "generalised orbitals of molecules with unequal spin populations raised a shape error"),
    ("C35", "cutoff-fast-update", "run backflow experiments with an exchange cutoff", "every experiment with an exchange cutoff raised in its first local energy"),
    ("C35", "cutoff-generalised", "set up generalised backflow orbitals with an exchange cutoff", "generalised orbitals with an exchange cutoff raised a shape error"),
]
KNOWN = []
