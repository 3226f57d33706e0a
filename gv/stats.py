"""Conservative goodness-of-fit verdicts: a deviation is only reported far beyond chance."""
import numpy as np
from scipy import stats

PMIN = 1e-10        # per-test significance; a few hundred tests per run keep the false-alarm rate below 1e-7


def chi2(counts, probs, n=None):
    """Pearson statistic with small-expectation bins merged; returns (p-value, statistic, dof)."""
    counts, probs = np.asarray(counts, dtype=float), np.asarray(probs, dtype=float)
    n = counts.sum() if n is None else n
    e = probs * n
    o = np.argsort(e)
    small = np.cumsum(e[o]) < 10
    k = int(small.sum())
    if k:
        k = min(k + 1, len(e))
        e2 = np.r_[e[o[:k]].sum(), e[o[k:]]]
        c2 = np.r_[counts[o[:k]].sum(), counts[o[k:]]]
    else:
        e2, c2 = e, counts
    if len(e2) < 2:
        return 1.0, 0.0, 0
    x = float(np.sum((c2 - e2) ** 2 / e2))
    return float(stats.chi2.sf(x, len(e2) - 1)), x, len(e2) - 1


def fits(mon, tag, counts, probs, **ctx):
    """Zero-probability bins must be empty, the rest has to follow the distribution."""
    counts, probs = np.asarray(counts), np.asarray(probs, dtype=float)
    imp = counts[probs < 1e-14]
    mon.check(tag + "-impossible-never", bool(np.all(imp == 0)), impossible_draws=int(imp.sum()), **ctx)
    q = np.where(probs < 1e-14, 0.0, probs)
    keep = q > 0
    p, x, dof = chi2(counts[keep], q[keep] / q[keep].sum())
    mon.events[tag + "-draws"] += int(counts.sum())
    return mon.check(tag, p > PMIN, p_value=p, chi2=x, dof=dof, draws=int(counts.sum()), **ctx)
