"""References for the supervised GPS learner: direct products, least-squares posterior, evidence by the marginal covariance."""
import numpy as np

PREC = np.longdouble


def confs3(confs):
    confs = np.asarray(confs)
    return confs[..., None] if confs.ndim == 2 else confs


def logvalue(eps, confs):
    """sum over symmetry copies and support dimensions of the products over the sites."""
    c = confs3(confs)
    D, M, L = eps.shape
    out = np.zeros(c.shape[0], dtype=eps.dtype)
    for k in range(c.shape[2]):
        for w in range(M):
            p = np.ones(c.shape[0], dtype=eps.dtype)
            for j in range(L):
                p = p * eps[c[:, j, k], w, j]
            out = out + p
    return out


def features(eps, confs, refs, bias):
    """Kernel matrix (n, M * D [+ 1]): derivative of the log value by the elements at the reference sites."""
    c = confs3(confs)
    D, M, L = eps.shape
    K = np.zeros((c.shape[0], M, D), dtype=eps.dtype)
    for k in range(c.shape[2]):
        for w in range(M):
            p = np.ones(c.shape[0], dtype=eps.dtype)
            for j in range(L):
                if j != refs[w]:
                    p = p * eps[c[:, j, k], w, j]
            for d in range(D):
                K[:, w, d] += np.where(c[:, refs[w], k] == d, p, 0)
    K = K.reshape(c.shape[0], -1)
    return np.concatenate((K, np.ones((len(K), 1))), 1) if bias else K


class Problem:
    """y = X w + noise; w (independent, precision alpha about the prior mean).  mode: real | complex | expand."""
    def __init__(self, K, y, s0, wts, alpha, mode, active=None):
        self.mode, n = mode, len(y)
        self.wts = np.ones(n) if wts is None else np.asarray(wts, dtype=float)
        self.s0 = np.asarray(s0, dtype=float)
        self.alpha = np.asarray(alpha, dtype=float)
        X = np.hstack((K, 1j * K)) if mode == "expand" else K
        self.active = np.ones(X.shape[1], bool) if active is None else active
        self.X, self.y = X, np.asarray(y)

    def _real(self, keep=None):
        """Design, data and per-row precisions of the equivalent problem (real rows for real parameters)."""
        X, s = self.X[:, self.active], self.s0 * self.wts
        if self.mode == "expand":
            return np.vstack((X.real, X.imag)), np.concatenate((self.y.real, self.y.imag)), np.concatenate((2 * s, 2 * s))
        return X, self.y, s

    def mean(self):
        """Maximiser of the posterior by orthogonal least squares (pruned elements: zero)."""
        X, y, s = self._real()
        a = self.alpha[self.active]
        A = np.vstack((np.sqrt(s)[:, None] * X, np.diag(np.sqrt(a))))
        b = np.concatenate((np.sqrt(s) * y, np.zeros(len(a))))
        out = np.zeros(self.X.shape[1], dtype=complex if self.mode == "complex" else float)
        if len(a):
            out[self.active] = np.linalg.lstsq(A, b, rcond=None)[0]
        return out

    def evidence(self, alpha=None, s0=None):
        """log of the marginal density of the data, every observation counted with its weight."""
        P = Problem.__new__(Problem)
        P.__dict__.update(self.__dict__)
        if alpha is not None:
            P.alpha = np.asarray(alpha, dtype=float)
        if s0 is not None:
            P.s0 = np.asarray(s0, dtype=float)
        X, y, s = P._real()
        a = P.alpha[P.active]
        # whitened marginal covariance: 1 + sqrt(s) X alpha^-1 X^H sqrt(s)
        Z = np.sqrt(s)[:, None] * X / np.sqrt(a)[None, :]
        C = np.eye(len(y)) + Z @ Z.conj().T
        w = np.sqrt(s) * y
        q = np.vdot(w, np.linalg.solve(C, w)).real
        ld = np.linalg.slogdet(C)[1]
        if P.mode == "complex":
            return float(np.sum(P.wts * np.log(P.s0 / np.pi)) - ld - q)
        if P.mode == "expand":
            return float(np.sum(P.wts * np.log(P.s0 / np.pi)) - 0.5 * ld - 0.5 * q)
        return float(0.5 * (np.sum(P.wts * np.log(P.s0 / (2 * np.pi))) - ld - q))

    def alpha_der(self):
        """Derivative of the evidence by the precisions, from an orthogonal factorisation of the stacked design."""
        X, y, s = self._real()
        a = self.alpha[self.active]
        out = np.zeros(len(self.alpha))
        if not len(a):
            return out
        R = np.linalg.qr(np.vstack((np.sqrt(s)[:, None] * X, np.diag(np.sqrt(a)))), mode="r")
        var = np.sum(np.abs(np.linalg.inv(R)) ** 2, 1)
        out[self.active] = (1.0 if self.mode == "complex" else 0.5) * (1 / a - var - np.abs(self.mean()[self.active]) ** 2)
        return out


def split_weights(wfull, mode, nf, bias):
    """(epsilon weights, bias) from the parameter vector; expand: [re, re bias, im, im bias]."""
    if mode == "expand":
        n = len(wfull) // 2
        wfull = wfull[:n] + 1j * wfull[n:]
    return wfull[:nf], (wfull[nf] if bias else None)


def join_alpha(alpha_mat, alpha_bias, refs, D, M, mode, bias):
    """Precisions of the parameters at the reference sites in the order of the parameter vector."""
    nf = D * M
    site = np.repeat(np.asarray(refs), D)
    re = alpha_mat[site, np.arange(nf)]
    parts = [re] + ([alpha_bias[:1]] if bias else [])
    if mode == "expand":
        parts += [alpha_mat[site, nf + np.arange(nf)]] + ([alpha_bias[1:2]] if bias else [])
    return np.concatenate(parts)
