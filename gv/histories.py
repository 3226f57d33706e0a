"""Online monitor of cached-update histories, shared by C07 and C08.

A history is a sequence of cached updates applied to a batch of configurations through the public calling convention of the
models (`cache_intermediates`, `update_sites`, collection "intermediates_cache").  After every event the value obtained from
the cache is compared with the plain evaluation of the configuration the reference history arrived at."""
import numpy as np
import jax
import jax.numpy as jnp


class Runner:
    def __init__(self, model):
        self.model = model
        self.full = jax.jit(lambda v, x: model.apply(v, x))
        self.init = jax.jit(lambda v, x: model.apply(v, x, mutable="intermediates_cache", cache_intermediates=True))
        self.look = jax.jit(lambda v, c, o, s: model.apply({**v, **c}, o, update_sites=s))
        self.step = jax.jit(lambda v, c, o, s: model.apply({**v, **c}, o, update_sites=s, cache_intermediates=True,
                                                            mutable="intermediates_cache"))


def select(mask, new, old):
    """Row-wise choice between two caches (what a Metropolis sampler does on partial acceptance)."""
    def f(a, b):
        m = jnp.asarray(mask).reshape((-1,) + (1,) * (a.ndim - 1))
        return jnp.where(m, a, b)
    return jax.tree_util.tree_map(f, new, old)


def logdiff(a, b):
    """Difference of log-amplitudes; the imaginary part only matters modulo 2 pi."""
    d = np.asarray(a).astype(complex) - np.asarray(b).astype(complex)
    im = d.imag - 2 * np.pi * np.round(d.imag / (2 * np.pi))
    return d.real + 1j * im


def drive(mon, tag, runner, v, x0, propose, rng, steps, tol=1e-7, ctx=None, floor=None, exact_phase=False, dtype=None):
    """propose(rng, x (B, L), k) -> (sites (B, k), occ (B, k), x_new (B, L)); k = number of listed sites."""
    ctx = dict(ctx or {})
    x = np.array(x0)
    if dtype is not None:
        x = x.astype(dtype)
    v0 = {k: w for k, w in v.items() if k != "intermediates_cache"}
    # some models expect the (empty) collection to be registered
    extra = {k: w for k, w in v.items() if k == "intermediates_cache"}
    full = lambda y: np.asarray(runner.full({**v0, **extra}, jnp.asarray(y)))
    val, cache = runner.init({**v0, **extra}, jnp.asarray(x))
    want = full(x)

    def compare(kind, got, wnt, step, ok, **more):
        got = np.asarray(got)
        if got.shape != wnt.shape:
            return mon.check(f"{tag}-{kind}", False, step=step, got=got.shape, want=wnt.shape, **ctx)
        d = np.where(ok, logdiff(got, wnt), 0.0)
        return mon.close(f"{tag}-{kind}", d, np.zeros_like(d), atol=tol, rtol=0, step=step, **more, **ctx)

    def usable(w):
        w = np.asarray(w)
        ok = np.isfinite(w)
        if floor is not None:
            ok &= w.real > floor
        return ok

    compare("initial", val, want, -1, np.isfinite(want))
    n = 0
    for s in range(steps):
        k = int(rng.integers(1, 5))
        sites, occ, xn = propose(rng, x, k)
        occ = occ.astype(x.dtype)
        wn = full(xn.astype(x.dtype))
        ok = usable(wn)
        look = runner.look({**v0, **extra}, cache, jnp.asarray(occ), jnp.asarray(sites))
        if not compare("lookahead", look, wn, s, ok, sites=sites, occ=occ, x=x):
            return n
        val, new = runner.step({**v0, **extra}, cache, jnp.asarray(occ), jnp.asarray(sites))
        if not compare("update", val, wn, s, ok, sites=sites, occ=occ, x=x):
            return n
        mask = ok if rng.random() < 0.5 else ok & (rng.random(len(x)) < 0.5)
        if mask.all():
            cache = new
        else:
            cache = select(mask, new, cache)
        x = np.where(mask[:, None], xn, x).astype(x.dtype)
        n += 1
        if s % 7 == 6:
            # a no-op listing arbitrary sites reads the current value back from the cache
            st = np.stack([rng.permutation(x.shape[1])[: min(2, x.shape[1])] for _ in range(len(x))])
            oc = np.take_along_axis(x, st, 1)
            compare("readback", runner.look({**v0, **extra}, cache, jnp.asarray(oc), jnp.asarray(st)), full(x), s, np.ones(len(x), bool))
    return n


# ---- proposals ---------------------------------------------------------------------------
def pad_list(rng, x, sites, occ, k):
    """Extend a list of real changes to k listed sites: repeats of listed sites restate the previous occupation, as do
    additional unchanged sites."""
    B, L = x.shape
    S, O = np.zeros((B, k), dtype=int), np.zeros((B, k), dtype=x.dtype)
    for b in range(B):
        s, o = list(sites[b])[:k], list(occ[b])[:k]
        while len(s) < k:
            j = int(rng.integers(0, L)) if (rng.random() < 0.5 or not s) else int(s[int(rng.integers(0, len(s)))])
            s.append(j)
            o.append(x[b, j])
        S[b], O[b] = s, o
    return S, O


def apply_first(x, S, O):
    """The configuration a list describes: the first entry of a site counts."""
    xn = x.copy()
    for b in range(len(x)):
        for j in range(S.shape[1] - 1, -1, -1):
            xn[b, S[b, j]] = O[b, j]
    return xn


def spin_flips(values):
    def propose(rng, x, k):
        B, L = x.shape
        sites, occ = [], []
        for b in range(B):
            m = min(int(rng.integers(0, k + 1)), L)
            s = rng.permutation(L)[:m]
            sites.append(s)
            occ.append(rng.choice(values, m))
        S, O = pad_list(rng, x, sites, occ, k)
        return S, O, apply_first(x, S, O)
    return propose


def exchanges(rng, x, k):
    """Exchange the values of two sites (conserves any sum constraint); k >= 2 listed sites."""
    k = max(k, 2)
    B, L = x.shape
    sites, occ = [], []
    for b in range(B):
        if rng.random() < 0.15 or L < 2:
            sites.append([]), occ.append([])
            continue
        i, j = rng.choice(L, 2, replace=False)
        sites.append([i, j])
        occ.append([x[b, j], x[b, i]])
    S, O = pad_list(rng, x, sites, occ, k)
    return S, O, apply_first(x, S, O)


def fermion_moves(rng, x, k):
    """Hops of up/down electrons (one or two) and exchanges of whole sites, in at most k listed sites."""
    k = max(k, 2)
    B, L = x.shape
    sites, occ = [], []
    for b in range(B):
        y = x[b].astype(int).copy()
        r = rng.random()
        if r < 0.12:
            pass
        elif r < 0.3 and L > 1:
            i, j = rng.choice(L, 2, replace=False)
            y[i], y[j] = y[j], y[i]
        else:
            for _ in range(1 if k < 4 or rng.random() < 0.5 else 2):
                bit = 1 << int(rng.integers(0, 2))
                f, t = np.nonzero(y & bit)[0], np.nonzero((y & bit) == 0)[0]
                if len(f) and len(t):
                    y[rng.choice(f)] -= bit
                    y[rng.choice(t)] += bit
        ch = np.nonzero(y != x[b].astype(int))[0]
        ch = rng.permutation(ch)
        if len(ch) > k:
            ch = ch[:0]
        sites.append(list(ch))
        occ.append([y[c] for c in ch])
    S, O = pad_list(rng, x, sites, occ, k)
    return S, O, apply_first(x, S, O)
