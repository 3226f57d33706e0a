import numpy as np


def row_sums(xp, mels):
    """Sum the matrix elements per connected configuration."""
    out = {}
    for c, m in zip(np.asarray(xp), np.asarray(mels)):
        k = tuple(int(round(float(v))) for v in c)
        out[k] = out.get(k, 0.0) + complex(m)
    return out


def compare_rows(mon, kind, got, want, tol=1e-10, **ctx):
    """Compare two sparse rows (missing = zero)."""
    mon.events[kind] += max(1, len(want))
    scale = 1.0 + max([abs(v) for v in want.values()] + [0.0])
    for k in set(got) | set(want):
        g, w = got.get(k, 0.0), want.get(k, 0.0)
        if not abs(g - w) <= tol * scale:
            mon.violate(kind, dict(ctx, connected=k, got=complex(g), want=complex(w)))
            return False
    return True


def rand_edges(rng, L, n):
    out = []
    while L > 1 and len(out) < n:
        i, j = rng.integers(0, L, 2)
        if i != j:
            out.append((int(i), int(j)))
    return out


def cast_variants(x):
    """The same configurations in the dtypes a user may hold them in."""
    return [x.astype(d) for d in (np.uint8, np.int8, np.int64, np.float64)]
