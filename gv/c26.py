"""C26  Bayesian fits: posterior means by orthogonal least squares, evidences by the marginal covariance, optimisations by optimality."""
import io
import contextlib
import warnings
import numpy as np
import scipy.optimize as spo
from . import gpsfit as G
from .c25 import make, rand_eps, rand_confs, targets, combos

SHARDS = 8
warnings.simplefilter("ignore")


class Case:
    """A learner together with everything the reference needs to restate its fit."""
    def __init__(self, mon, label, k, kind, dtype, expand, bias, n=None, zero=False):
        rng = self.rng = mon.rng(label, k)
        self.kind, self.dtype, self.bias = kind, dtype, bias
        self.mode = "real" if dtype is float else ("expand" if expand else "complex")
        self.L, self.M, self.D = int(rng.integers(2, 5)), int(rng.integers(1, 4)), int(rng.integers(2, 5))
        n = n or int(rng.integers(10, 30))
        nsym = int(rng.integers(0, 4))
        self.confs = rand_confs(rng, n, self.D, self.L, nsym)
        self.eps = rand_eps(rng, self.D, self.M, self.L, dtype, "plain")
        self.noise = float(np.exp(rng.normal() - 1))
        self.variant = ["plain", "plain", "predicted", "reweighted"][int(rng.integers(4))] if kind == "exp" else "plain"
        self.pred2 = np.abs(np.exp(G.logvalue(self.eps, self.confs))) ** 2
        if self.variant == "predicted" and (self.pred2.max() > 100 or self.pred2.min() < 0.01):
            self.variant = "plain"          # the estimate loses all digits for amplitudes far from one
        self.l = make(kind, self.eps, expand, bias, init_noise_tilde=self.noise, **({"iterative_noise_est": True} if self.variant == "predicted" else {}))
        self.rew = rng.uniform(0.3, 2, n) if self.variant == "reweighted" else np.ones(n)
        if self.variant == "reweighted":
            self.l.noise_reweighting = self.rew.copy()
        self.y = targets(rng, kind, n, dtype)
        if zero:
            self.y[rng.permutation(n)[:2]] = 0.0
        self.w = rng.uniform(0.2, 2.5, n) if rng.random() < 0.5 else None
        self.pm = float(rng.choice([0.0, 0.0, 1.0, 0.6]))
        self.refs = int(rng.integers(self.L)) if rng.random() < 0.5 else rng.integers(0, self.L, self.M)
        self.fr = np.full(self.M, self.refs) if np.ndim(self.refs) == 0 else self.refs
        self.l.alpha_mat[...] = np.exp(0.8 * rng.normal(size=self.l.alpha_mat.shape))
        self.l.alpha_bias = np.exp(0.8 * rng.normal(size=self.l.alpha_bias.shape))
        self.K = G.features(self.eps, self.confs, self.fr, bias)
        self.d = dict(learner=kind, mode=self.mode, bias=bias, weights=self.w is not None, n=n, D=self.D, L=self.L, M=self.M, prior_mean=self.pm, nsym=nsym, refs=self.fr, noise_model=self.variant)
        self.nf = self.D * self.M

    def alpha(self, l=None):
        l = l or self.l
        return G.join_alpha(np.asarray(l.alpha_mat), np.asarray(l.alpha_bias), self.fr, self.D, self.M, self.mode, self.bias)

    def s0(self, noise=None):
        noise = self.noise if noise is None else noise
        if self.kind == "log":
            return np.full(len(self.y), 1 / noise)
        if self.variant == "predicted":
            return 1 / np.log((np.sqrt(4 * noise / self.pred2 + 1) + 1) / 2)
        with np.errstate(divide="ignore"):
            return 1 / np.log1p(noise * self.rew / np.abs(self.y) ** 2)

    def data(self):
        y = self.y if self.kind == "log" else (np.log(np.abs(self.y)) if self.dtype is float else np.log(self.y.astype(complex)))
        Kf = self.K[:, :self.nf]
        return y - self.pm * np.sum(Kf, 1)

    def active(self, alpha, noise=None):
        Kx = np.hstack((self.K, self.K)) if self.mode == "expand" else self.K
        s = (self.s0(noise) if self.kind == "exp" else 1.0) * (1.0 if self.w is None else self.w)
        strength = np.sum(np.abs(Kx) ** 2 * np.broadcast_to(s, (len(Kx),))[:, None], 0)
        self.borderline = bool(np.any((strength > 1e-13) & (strength < 1e-8)))
        return (alpha < 1e10) & (strength > 1e-10)

    def problem(self, alpha=None, noise=None):
        alpha = self.alpha() if alpha is None else alpha
        return G.Problem(self.K, self.data(), self.s0(noise), self.w, alpha, self.mode, self.active(alpha, noise))

    def off(self):
        return dict(opt_alpha=False, **({"opt_beta": False} if self.kind == "glm" else {"opt_noise": False}))

    def fit(self, **o):
        a = dict(weightings=self.w, prior_mean=self.pm, **self.off())
        a.update(o)
        self.l.fit_step(self.confs, self.y, self.refs, **a)

    def expected_tensor(self, wfull, valid):
        """The tensor and bias after a fit with parameter vector wfull; elements without data keep their values."""
        eps = self.eps.copy()
        we, wb = G.split_weights(wfull, self.mode, self.nf, self.bias)
        ve = valid[:self.nf]
        for w in range(self.M):
            for d in range(self.D):
                q = w * self.D + d
                if ve[q]:
                    eps[d, w, self.fr[w]] = we[q] + self.pm
        return eps, wb


def tol_of(P):
    X, y, s = P._real()
    a = P.alpha[P.active]
    A = np.vstack((np.sqrt(s)[:, None] * X, np.diag(np.sqrt(a))))
    return 1e-12 * (np.linalg.cond(A) ** 2 if len(a) else 1)


def compare_mean(mon, kind, c, P, wfull=None, rtol=None, **d):
    w = P.mean() if wfull is None else wfull
    valid = np.abs(c.K).sum(0) > 0
    eps, wb = c.expected_tensor(w, valid)
    t = max(1e-9, tol_of(P)) if rtol is None else rtol
    sc = np.abs(w).max() + 1e-3
    mon.close(kind, c.l.epsilon, eps, rtol=0, atol=t * (sc + abs(c.pm)), **c.d, **d)
    if c.bias:
        mon.close(kind + "-bias", np.asarray(c.l.bias)[0], wb, rtol=0, atol=t * sc, **c.d, **d)


def fixed(mon, k, kind, dtype, expand, bias):
    """Posterior mean, evidence and its derivatives with given hyperparameters."""
    c = Case(mon, "c26fixed", k, kind, dtype, expand, bias)
    with mon.guard("fit-raises", **c.d), contextlib.redirect_stdout(io.StringIO()):
        alpha = c.alpha()
        if k % 3 == 0:
            # pruned elements
            c.l.alpha_mat[c.rng.random(c.l.alpha_mat.shape) < 0.25] = 1e12 if k % 2 else np.inf
            alpha = c.alpha()
        c.fit()
        P = c.problem(alpha)
        if c.borderline:
            return
        mon.case("fixed", dict(c.d, pruned=int(np.sum(~P.active))), nontrivial=True)
        compare_mean(mon, "posterior-mean", c, P)
        mon.close("priors-unchanged", c.alpha(), alpha, rtol=0, atol=0, **c.d)
        ev = P.evidence()
        mon.close("marginal-likelihood", c.l.log_marg_lik(), ev, rtol=1e-8, atol=1e-8 * (1 + np.sum(np.abs(P._real()[1]) ** 2 * P._real()[2])), **c.d)
        g = P.alpha_der()
        mon.close("prior-derivative", c.l.log_marg_lik_alpha_der(), g, rtol=max(1e-7, tol_of(P)), atol=1e-7 * (1 + 1 / alpha[P.active].min() if P.active.any() else 1), **c.d)
        h = 1e-4 * c.noise
        f = lambda j: P.evidence(s0=c.s0(c.noise + j * h))
        if c.variant == "predicted":
            # the derivative is defined with the prediction the fit was set up with
            c.l.epsilon = c.eps
            c.l.bias = np.zeros_like(np.asarray(c.l.bias))
            c.l.setup_fit(c.confs, c.y, c.refs, weightings=c.w, prior_mean=c.pm)
        num = (8 * (f(1) - f(-1)) - (f(2) - f(-2))) / (12 * h)
        mon.close("noise-derivative", c.l.log_marg_lik_noise_der(), num, rtol=1e-5, atol=1e-5 * (abs(ev) + 1) / c.noise * 1e-2, **c.d)


def vanishing(mon, k, dtype, expand, bias):
    """Vanishing amplitudes enter with the limit of their contribution."""
    c = Case(mon, "c26zero", k, "exp", dtype, expand, bias, zero=True)
    if c.variant == "predicted":
        return
    with mon.guard("fit-raises", **c.d), contextlib.redirect_stdout(io.StringIO()):
        c.fit()
        zero = c.y == 0
        c.l.log_marg_lik()
        w = np.ones(len(c.y)) if c.w is None else c.w
        s = np.where(zero, 0.0, c.s0() * w)
        with np.errstate(divide="ignore"):
            data = np.where(zero, 0.0, c.data())
        b = np.where(zero, -0.5 * w, s * data)
        X = np.hstack((c.K, 1j * c.K)) if c.mode == "expand" else c.K
        alpha = c.alpha()
        A = X.conj().T @ (s[:, None] * X) + np.diag(alpha / 2 if c.mode == "expand" else alpha)
        r = X.conj().T @ b
        if c.mode == "expand":
            A, r = A.real, r.real
        strength = np.sum(np.abs(X) ** 2 * s[:, None], 0)
        if np.any(strength < 1e-8):
            return                          # features seen only with vanishing amplitudes
        mon.case("vanishing", c.d, nontrivial=True)
        wfull = np.linalg.solve(A, r)
        compare_mean(mon, "posterior-mean-with-vanishing-amplitudes", c, G.Problem(c.K, data, np.where(zero, 1e-300, c.s0()), c.w, alpha, c.mode), wfull=wfull, rtol=1e-7)


def mackay(c, alpha, noise, opt_alpha, opt_noise, rvm, iters):
    """Reference fixed-point iterations; yields (alpha, noise, mean at the hyperparameters before the update)."""
    for _ in range(iters):
        P = c.problem(alpha, noise)
        X, y, s = P._real()
        a = alpha[P.active]
        S = np.linalg.inv(X.conj().T @ (s[:, None] * X) + np.diag(a))
        gam = 1 - a * np.diag(S).real
        m = P.mean()
        new = alpha.copy()
        if opt_alpha:
            if rvm:
                new[P.active] = gam / np.abs(m[P.active]) ** 2
            else:
                new[...] = np.sum(gam) / np.sum(np.abs(m) ** 2)
            new = np.clip(new, 0, 1e10)
        if opt_noise:
            w = np.ones(len(c.y)) if c.w is None else c.w
            err = np.sum(w * np.abs(c.data() - P.X @ m) ** 2)
            noise = err / (np.sum(w) - (0.5 if c.mode == "expand" else 1.0) * np.sum(gam))
        yield new, noise, m
        alpha = new


def limited(mon, k, kind, dtype, expand, bias):
    """A limited number of hyperparameter updates: the documented fixed-point iterations."""
    c = Case(mon, "c26limited", k, kind, dtype, expand, bias)
    it = 1 + int(c.rng.integers(4))
    rvm, on = bool(c.rng.random() < 0.4), kind == "log" and bool(c.rng.random() < 0.6)
    key = "max_alpha_iterations" if kind == "exp" else "max_alpha_beta_iterations"
    with mon.guard("fit-raises", **c.d), contextlib.redirect_stdout(io.StringIO()):
        a0 = c.alpha()
        seq = list(mackay(c, a0, c.noise, True, on, rvm, it + 1))
        c.fit(opt_alpha=True, rvm=rvm, opt_noise=on, **{key: it})
        if c.borderline or any(not np.all(np.isfinite(q[0])) or np.max(q[0]) > 1e7 or np.min(q[0]) < 1e-6 for q in seq):
            return
        mon.case("limited", dict(c.d, iterations=it, rvm=rvm, opt_noise=on), nontrivial=True)
        mon.close("hyperparameter-iterations", c.alpha(), seq[it - 1][0], rtol=1e-5, atol=0, iterations=it, rvm=rvm, **c.d)
        if on:
            mon.close("noise-iterations", c.l.noise_tilde, seq[it - 1][1], rtol=1e-5, atol=0, iterations=it, **c.d)
        # the weights belong to the hyperparameters before or after the last update
        valid = np.abs(c.K).sum(0) > 0
        dist = []
        for q in (it - 1, it):
            eps, wb = c.expected_tensor(seq[q][2], valid)
            dist.append(np.max(np.abs(c.l.epsilon - eps)))
        mon.check("weights-of-an-iterate", min(dist) <= 1e-5 * (1 + np.abs(c.l.epsilon).max()), distances=dist, iterations=it, rvm=rvm, **c.d)


def converged(mon, k, kind, dtype, expand, bias):
    """Optimisations run to convergence end at a stationary point, with the posterior mean of the final hyperparameters."""
    c = Case(mon, "c26conv", k, kind, dtype, expand, bias, n=30)
    kw = dict(opt_alpha=True)
    which = int(c.rng.integers(3))
    opt_noise = which == 1
    if kind == "exp":
        kw["max_alpha_iterations"] = 400
    else:
        kw["max_alpha_beta_iterations"] = 400
    if which == 2 and kind == "exp":
        kw.update(opt_alpha=False)
        opt_noise = True
    kw["opt_noise"] = opt_noise
    if kind == "exp" and kw["opt_alpha"] and opt_noise:
        kw["max_alpha_iterations"] = 30
    with mon.guard("fit-raises", **c.d), contextlib.redirect_stdout(io.StringIO()):
        start = c.problem().evidence()
        c.fit(**kw)
        a, noise = c.alpha(), float(c.l.noise_tilde)
        P = c.problem(a, noise)
        if c.borderline or not np.all(np.isfinite(a)) or a.max() > 1e6 or a.min() < 1e-6 or not 1e-4 < noise < 1e4:
            mon.extra["degenerate optimisations"] = mon.extra.get("degenerate optimisations", 0) + 1
            return
        if kw["opt_alpha"]:
            na, nn, _ = next(mackay(c, a, noise, True, opt_noise and kind == "log", False, 1))
            if not (np.allclose(na, a, rtol=1e-5) and abs(nn - noise) <= 1e-5 * noise):
                mon.extra["not converged"] = mon.extra.get("not converged", 0) + 1
                return
        end = P.evidence()
        d = dict(c.d, options={q: v for q, v in kw.items()}, start=start, end=end)
        mon.case("converged", d, nontrivial=True)
        mon.close("marginal-likelihood-after-optimisation", c.l.log_marg_lik(), end, rtol=1e-4, atol=1e-4, **d)
        if kw["opt_alpha"] and not (opt_noise and kind == "exp"):
            # stationary in the common prior scale
            h = 1e-3
            slope = (P.evidence(alpha=a * np.exp(h)) - P.evidence(alpha=a * np.exp(-h))) / (2 * h)
            mon.check("stationary-prior", abs(slope) <= 1e-3 * (1 + abs(end)), slope=slope, **d)
        if opt_noise and (kind == "log" or not kw["opt_alpha"]):
            f = lambda q: P.evidence(s0=c.s0(noise * np.exp(q)))
            slope = (f(1e-3) - f(-1e-3)) / 2e-3
            mon.check("stationary-noise", abs(slope) <= 1e-3 * (1 + abs(end)), slope=slope, noise=noise, **d)
        if kind == "exp" and opt_noise and not kw["opt_alpha"]:
            mon.check("noise-optimisation-does-not-lose-likelihood", end >= start - 1e-8 * (1 + abs(start)), **d)
        compare_mean(mon, "posterior-mean-after-optimisation", c, P, rtol=1e-3 if kw["opt_alpha"] else 1e-6)


def growing(mon, k, dtype, expand, bias):
    """Growing relevance vector machine: every iteration changes one prior and never loses marginal likelihood."""
    c = Case(mon, "c26grow", k, "exp", dtype, expand, bias)
    if c.variant == "predicted":
        return                              # the noise follows the changing prediction
    with mon.guard("fit-raises", **c.d), contextlib.redirect_stdout(io.StringIO()):
        if k % 2:
            c.l.alpha_mat[...] = np.inf
            c.l.alpha_bias = np.full_like(c.l.alpha_bias, np.inf)
        c.l.fit_step_growing_RVM(c.confs, c.y, c.refs, 0, weightings=c.w, prior_mean=c.pm)
        a = c.alpha()
        ev = c.problem(a).evidence()
        trace, same = [ev], 0
        mon.case("growing", dict(c.d, start="empty" if k % 2 else "full"), nontrivial=True)
        for t in range(60):
            c.l.fit_step_growing_RVM(c.confs, c.y, c.refs, 1, weightings=c.w, prior_mean=c.pm)
            b = c.alpha()
            P = c.problem(b)
            if c.borderline:
                return
            new = P.evidence()
            ch = np.flatnonzero((b != a) & ~(np.isinf(a) & np.isinf(b)))
            mon.check("growing-changes-one-prior", len(ch) <= 1, changed=ch, **c.d)
            on = np.isfinite(a) & (a < 1e10)
            if on.any() and a[on].min() > 1e-4:     # the criterion cancels completely for vanishing priors
                mon.check("growing-never-loses-likelihood", new >= ev - 1e-7 * (1 + abs(ev)), before=ev, after=new, step=t, trace=trace[-4:], priors=[a, b], **c.d)
            compare_mean(mon, "posterior-mean-growing", c, P, rtol=max(1e-8, tol_of(P)))
            trace.append(new)
            same = same + 1 if abs(new - ev) < 1e-10 * (1 + abs(ev)) else 0
            a, ev = b, new
            if same >= 2:
                break
        if same >= 2 and np.sum(P.active) >= 2 and a[P.active].min() > 1e-4:
            # no single prior can be improved any further (the last active element is never removed, by design; the gain
            # of elements with a vanishing prior, as set for an empty start, is lost in rounding)
            Kx = np.hstack((c.K, c.K)) if c.mode == "expand" else c.K
            best = ev
            for i in np.flatnonzero(np.abs(Kx).sum(0) > 1e-8):
                for v in np.exp(np.linspace(-8, 8, 33)):
                    q = a.copy()
                    q[i] = v
                    best = max(best, c.problem(q).evidence())
            mon.check("growing-ends-at-coordinate-maximum", best <= ev + 1e-5 * (1 + abs(ev)), best=best, end=ev, **c.d)
        mon.extra["growing steps"] = mon.extra.get("growing steps", 0) + len(trace) - 1


def precomputed(mon, k, kind, dtype, expand):
    """Given features instead of a tensor: the weights are the posterior mean."""
    rng = mon.rng("c26pre", k)
    n, p = 20, int(rng.integers(2, 8))
    mode = "real" if dtype is float else ("expand" if expand else "complex")
    d = dict(learner=kind, mode=mode, n=n, features=p)
    with mon.guard("fit-raises", **d), contextlib.redirect_stdout(io.StringIO()):
        K = rng.normal(size=(n, p)).astype(dtype)
        if dtype is complex:
            K = K + 1j * rng.normal(size=(n, p))
        K0 = K.copy()
        y = targets(rng, kind, n, dtype)
        w = rng.uniform(0.2, 2, n) if k % 2 else None
        l = make(kind, np.ones((2, 2, 2), dtype=dtype), expand, False, K=K, init_noise_tilde=0.2)
        l.alpha_mat[...] = np.exp(rng.normal(size=l.alpha_mat.shape))
        al = l.alpha_mat.copy()
        l.fit_step(None, y, 0, opt_alpha=False, opt_noise=False, weightings=w)
        s0 = np.full(n, 5.0) if kind == "log" else 1 / np.log1p(0.2 / np.abs(y) ** 2)
        t = y if kind == "log" else (np.log(np.abs(y)) if dtype is float else np.log(y))
        P = G.Problem(K0, t, s0, w, al, mode)
        mon.case("precomputed", d, nontrivial=True)
        mon.close("posterior-mean-of-given-features", l.weights, P.mean(), rtol=0, atol=1e-8 * (1 + np.abs(l.weights).max()), **d)
        mon.close("marginal-likelihood-of-given-features", l.log_marg_lik(), P.evidence(), rtol=1e-8, atol=1e-6, **d)
        mon.check("features-unchanged", np.array_equal(K, K0) and np.array_equal(l.alpha_mat, al), **d)


# ---- generalised linear model -----------------------------------------------------------------
def glm_parts(c, beta):
    X = np.hstack((c.K, 1j * c.K)) if c.mode == "expand" else c.K
    pre = np.exp(c.pm * np.sum(c.K[:, :c.nf], 1))
    w = np.ones(len(c.y)) if c.w is None else c.w
    half = 0.5 if c.mode == "expand" else 1.0
    alpha = c.alpha()

    def energy(v):
        """minus the log posterior (up to constants) for real data; for expanded complex data half of it"""
        return 0.5 * (beta * np.sum(w * np.abs(c.y - pre * np.exp(X @ v)) ** 2) + np.sum(half * alpha * v ** 2))

    def grad(v):
        p = pre * np.exp(X @ v)
        return -beta * (X.T @ (w * np.conj(c.y - p) * p)).real + half * alpha * v

    def hess(v):
        p = pre * np.exp(X @ v)
        return (beta * (X.T @ ((w * np.abs(p) ** 2)[:, None] * X.conj()) - X.T @ ((w * np.conj(c.y - p) * p)[:, None] * X))).real + np.diag(half * alpha)
    return X, energy, grad, hess


def current(c, l):
    e = np.array([l.epsilon[d, w, c.fr[w]] for w in range(c.M) for d in range(c.D)]) - c.pm
    if c.bias:
        e = np.concatenate((e, np.asarray(l.bias)))
    return np.concatenate((e.real, e.imag)) if c.mode == "expand" else e


def glm(mon, k, dtype, expand, bias):
    c = Case(mon, "c26glm", k, "glm", dtype, expand, bias)
    with mon.guard("fit-raises", **c.d), contextlib.redirect_stdout(io.StringIO()):
        if np.any(np.abs(c.K).sum(0) < 1e-6) or np.abs(G.logvalue(np.abs(c.eps), c.confs)).max() > 6:
            return
        X, energy, grad, hess = glm_parts(c, 1 / c.noise)
        v0 = current(c, c.l)
        if k % 2 == 0:
            # one Newton step from the current tensor
            H, g = hess(v0), grad(v0)
            if np.linalg.eigvalsh(H).min() < 1e-6 * np.linalg.eigvalsh(H).max():
                return
            step = -np.linalg.solve(H, g)
            ls = None
            want = v0 + step
            if k % 4 == 0:
                ls = lambda f, df, x, p: spo.line_search(f, df, x, p)
                r = spo.line_search(energy, grad, v0, step)
                want = v0 + (0.0 if r[0] is None else r[0]) * step
            mon.case("newton", dict(c.d, line_search=ls is not None), nontrivial=True)
            c.fit(linesearch_fun=ls)
            got = current(c, c.l)
            sc = np.linalg.cond(H) * 1e-12 + 1e-7
            mon.close("newton-step", got, want, rtol=0, atol=sc * (1 + np.abs(step).max()), **c.d)
            mon.check("noise-kept", abs(c.l.noise_tilde - c.noise) <= 1e-12 * c.noise, **c.d)
        else:
            fun = lambda f, x, jac=None, hess=None: spo.minimize(f, x, jac=jac, hess=hess, method="trust-exact", options=dict(gtol=1e-9, maxiter=500))
            mon.case("minimised", c.d, nontrivial=True)
            c.fit(minimize_fun=fun)
            got = current(c, c.l)
            sc = 1 + np.abs(hess(got)).max()
            mon.check("posterior-stationary", np.max(np.abs(grad(got))) <= 1e-6 * sc, gradient=np.max(np.abs(grad(got))), **c.d)
            mon.check("posterior-not-worse-than-start", energy(got) <= energy(v0) + 1e-9 * abs(energy(v0)), **c.d)
            if c.pm == 0.0 and np.linalg.eigvalsh(hess(got)).min() > 0:
                w = np.ones(len(c.y)) if c.w is None else c.w
                b = 1 / c.noise
                a = c.alpha()
                if c.mode == "expand":
                    want = np.sum(w) * np.log(b / np.pi) + 0.5 * np.sum(np.log(a / 2)) - 0.5 * np.linalg.slogdet(hess(got))[1] - 2 * energy(got)
                else:
                    want = 0.5 * (np.sum(w) * np.log(b / (2 * np.pi)) + np.sum(np.log(a)) - np.linalg.slogdet(hess(got))[1]) - energy(got)
                mon.close("laplace-likelihood", c.l.log_marg_lik(), want, rtol=1e-5, atol=1e-5, **c.d)
        # hyperparameters optimised along the way: the tensor is not lost, and the fit remains near a maximum
        if k % 3 == 0:
            for _ in range(3):
                c.fit(opt_alpha=True, opt_beta=True, max_alpha_beta_iterations=20,
                      minimize_fun=lambda f, x, jac=None, hess=None: spo.minimize(f, x, jac=jac, method="BFGS"))
            a, nz = c.alpha(), float(c.l.noise_tilde)
            if np.all(np.isfinite(a)) and 1e-4 < a.min() and a.max() < 1e4 and 1e-4 < nz < 1e4:
                X, energy, grad, hess = glm_parts(c, 1 / nz)
                got = current(c, c.l)
                H = hess(got)
                if np.linalg.eigvalsh(H).min() > 0:
                    dist = np.abs(np.linalg.solve(H, grad(got))).max()
                    mon.case("glm-optimised", dict(c.d, noise=nz), nontrivial=True)
                    mon.check("near-posterior-maximum-after-optimisation", dist <= 0.2 * (np.abs(got).max() + 0.05), newton_step=dist, largest=np.abs(got).max(), **c.d)


def run(mon):
    mon.rule = ("case = one fit (learner, real/complex/expanded parameters, bias, weights, prior mean, symmetry copies, reference sites, "
                "heterogeneous or pruned priors); posterior mean against orthogonal least squares, marginal likelihood against the density of the "
                "data under the marginal covariance, derivatives against differences of that, optimisations against optimality conditions.")
    mon.assumptions = ["one MPI process", "complex non-expanded parameters have circular complex Gaussian priors"]
    lin = [q for q in combos() if q[0] != "glm"]
    exp3 = [(float, False), (complex, False), (complex, True)]
    reps = 60 if not mon.thorough else 400
    jobs = []
    for r in range(reps):
        for q, a in enumerate(lin):
            jobs.append((fixed, 100 * r + q + r, *a))
            jobs.append((limited, 100 * r + q + r, *a))
            if r < max(3, reps // 2):
                jobs.append((converged, 100 * r + q + r, *a))
        for q, (dt, ex) in enumerate(exp3):
            for bias in (False, True):
                jobs.append((vanishing, 100 * r + 2 * q + bias + r, dt, ex, bias))
                jobs.append((growing, 100 * r + 2 * q + bias + r, dt, ex, bias))
            for kind in ("exp", "log"):
                jobs.append((precomputed, 100 * r + 2 * q + r, kind, dt, ex))
        for q, (dt, ex) in enumerate([(float, False), (complex, True)]):
            for bias in (False, True):
                for z in range(4):
                    jobs.append((glm, 100 * r + 10 * q + 5 * bias + z, dt, ex, bias))
    order = mon.rng("order").permutation(len(jobs))
    for i in mon.mine(list(order)):
        if mon.time_left():
            jobs[i][0](mon, *jobs[i][1:])
    for kind, n in (("posterior-mean", 30), ("marginal-likelihood", 30), ("prior-derivative", 30), ("noise-derivative", 30), ("hyperparameter-iterations", 20),
                    ("stationary-prior", 8), ("stationary-noise", 6), ("growing-never-loses-likelihood", 50), ("growing-ends-at-coordinate-maximum", 5),
                    ("newton-step", 8), ("posterior-stationary", 8), ("posterior-mean-with-vanishing-amplitudes", 5), ("posterior-mean-of-given-features", 10)):
        mon.require(kind, n)
