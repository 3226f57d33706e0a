"""C31  Supervised fits on several MPI processes: every rank's fit against the fit of the pooled data in one process."""
import contextlib
import io
import warnings
import numpy as np
import scipy.optimize as spo
from . import dist
from .c29 import Tag
from .c25 import make, rand_eps, rand_confs, targets

SHARDS = 2
warnings.simplefilter("ignore")

QUICK = [
    dict(learner="exp", dtype="float", expand=False, bias=False, nsym=0, D=2),
    dict(learner="exp", dtype="complex", expand=True, bias=True, nsym=2, D=2),
    dict(learner="log", dtype="complex", expand=False, bias=True, nsym=0, D=4),
    dict(learner="log", dtype="complex", expand=True, bias=False, nsym=3, D=2),
    dict(learner="glm", dtype="float", expand=False, bias=True, nsym=0, D=2),
    dict(learner="glm", dtype="complex", expand=True, bias=False, nsym=2, D=2),
    dict(learner="exp", dtype="complex", expand=False, bias=False, nsym=0, D=4),
    dict(learner="log", dtype="float", expand=False, bias=False, nsym=2, D=2),
]
REPS = 8


def cases(thorough):
    return [dict(c, round=r) for r in range(REPS if thorough else 2) for c in QUICK]


def deal(rng, n, P, style):
    """Which rank owns which data point: equal blocks, blocks of very different length, or interleaved."""
    if style == "even":
        return np.minimum(np.arange(n) * P // n, P - 1)
    if style == "uneven":
        own = np.full(n, 0)
        own[n - P + 1:] = np.arange(1, P)             # all but one rank with a single data point
        return own
    own = rng.integers(0, P, n)
    own[:P] = np.arange(P)
    return own


def execute(rec, i, seed, rank, P):
    fit(rec, i, seed, rank, P, 0.0)
    if P == 1:
        # how much the results depend on rounding: repeated with relative changes of data and parameters a thousand times larger
        for q in (1, 2, -1, 0.1, -0.3):
            other = dist.Rec()
            fit(other, i, seed, rank, P, 1e-12 * q)
            for n, (v, _) in rec.world.items():
                dev = max(np.abs(a - b).max(initial=0) / (np.abs(a).max(initial=0) + 1e-3) for a, b in zip(v, other.world[n][0]))
                rec.info[n] = max(rec.info.get(n, 0.0), 100 * float(np.nan_to_num(dev, nan=np.inf, posinf=np.inf)))


def fit(rec, i, seed, rank, P, jitter):
    c = cases(True)[i]
    rng = dist.rng_of(seed, "c31", i)
    noise_rng = dist.rng_of(seed, "c31 jitter", i, jitter)
    dtype = dict(float=float, complex=complex)[c["dtype"]]
    kind, bias = c["learner"], c["bias"]
    for rep in range(4):
        tag = Tag(rec, rep)
        L, M, D = int(rng.integers(2, 5)), int(rng.integers(1, 3)), c["D"]
        n = int(rng.integers(12, 40))
        eps = rand_eps(rng, D, M, L, dtype, "plain")
        eps = eps * (1 + jitter * noise_rng.normal(size=eps.shape))
        l = make(kind, eps, c["expand"], bias, init_noise_tilde=float(rng.choice([0.02, 0.2])), init_alpha=float(rng.choice([0.3, 2.0])))
        conf, y = rand_confs(rng, n, D, L, c["nsym"]), targets(rng, kind, n, dtype)
        y = y * (1 + jitter * noise_rng.normal(size=n))
        wt = rng.uniform(0.2, 2.0, n) if rng.random() < 0.5 else None
        style = ("even", "uneven", "mixed")[int(rng.integers(3))]
        mine = deal(np.random.default_rng(int(rng.integers(1 << 30))), n, P, style) == rank
        x, t, w = conf[mine], y[mine], None if wt is None else wt[mine]
        new = rand_confs(rng, 7, D, L, c["nsym"])
        with contextlib.redirect_stdout(io.StringIO()):
            for s in range(3):
                ref = int(rng.integers(L)) if rng.random() < 0.5 else rng.integers(0, L, M)
                o = dict(opt_alpha=bool(rng.random() < 0.5), rvm=bool(rng.random() < 0.4), prior_mean=float(rng.choice([0.0, 1.0])))
                noise = bool(rng.random() < 0.4)
                if kind == "exp":
                    o.update(opt_noise=noise, max_alpha_iterations=int(rng.integers(1, 4)), max_noise_iterations=2)
                elif kind == "log":
                    o.update(opt_noise=noise, max_alpha_beta_iterations=int(rng.integers(1, 4)))
                else:
                    o.update(opt_beta=noise, max_alpha_beta_iterations=int(rng.integers(1, 3)))
                    how = rng.random()
                    if how < 0.4:
                        o["minimize_fun"] = lambda f, x, jac=None, hess=None: spo.minimize(f, x, jac=jac, method="BFGS", options=dict(maxiter=10))
                    elif how < 0.7:
                        o["linesearch_fun"] = lambda f, g, a, b: spo.line_search(f, g, a, b)
                l.fit_step(x, t, ref, weightings=w, **o)
                tag.s(f"epsilon {s} synchronised", l.epsilon)
                tag.s(f"precisions {s} synchronised", l.alpha_mat_ref_sites)
                tag.s(f"noise {s} synchronised", l.noise_tilde)
                if kind == "exp" and noise and o["opt_alpha"]:
                    break             # line searches over an objective with inner iterations: only decided up to synchronisation
                tag.w(f"epsilon {s}", l.epsilon)
                tag.w(f"noise {s}", l.noise_tilde)
                if bias:
                    tag.w(f"bias {s}", l.bias)
                tag.w(f"precisions {s}", np.minimum(l.alpha_mat_ref_sites, 1e6))
                tag.w(f"evidence {s}", l.log_marg_lik())
                if kind != "glm":
                    tag.w(f"evidence by precisions {s}", l.log_marg_lik_alpha_der())
                    if not (wt is not None and kind == "exp"):
                        tag.w(f"evidence by noise {s}", l.log_marg_lik_noise_der())
                else:
                    tag.w(f"evidence by noise {s}", l.log_marg_lik_beta_der())
                tag.w(f"error {s}", l.squared_error(x, t, weightings=w))
                if kind == "exp":
                    tag.w(f"error in log space {s}", l.squared_error_log_space(x, t, weightings=w))
                tag.w(f"prediction {s}", l.predict(new))


def run(mon):
    mon.rule = ("case = (learner, random data, split of the data over the ranks - even, interleaved, or all but one rank with a single point): "
                "after every fit the parameters, hyperparameters, evidences, errors and predictions of every rank are compared with each "
                "other and with the fit of all data in one process.")
    mon.assumptions = ["quantities are compared to 1e-8 or to a hundred times what relative changes of the data by 1e-12 make of them in one "
                       "process (iterative optimisations amplify rounding); they are not judged where that exceeds 1e-3",
                       "joint optimisations of noise and precisions (QGPSLearningExp) are only required to agree between the ranks",
                       "starting the growing relevance vector fit without any active feature is documented (assert) for one process only"]
    dist.drive(mon, "c31", cases(mon.thorough), (2, 3) if not mon.thorough else (2, 3, 5))
    mon.require("equal-to-pooled", 2000)
    mon.require("identical-on-all-ranks", 100)
