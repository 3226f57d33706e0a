"""C18  Stratified sampling: disjointness of the two parts, weights as shares of the norm, law of the sampled part, estimators."""
import numpy as np
import jax
import jax.numpy as jnp
import netket as nk
from GPSKet.vqs import MCStateStratifiedSampling
from . import vmc, zoo, stats

SHARDS = 8

QUICK = [
    # kind, model, L, sector, fast, dtype, size of the fixed set, n_samples, chains, mode, chunk
    ("hubbard", "qgps", 4, (2, 1), True, jnp.complex128, 5, 12, 2, "rand", None),
    ("heis", "qgps", 6, None, True, jnp.float64, 9, 10, 5, "harmonic", None),
    ("ising", "armp", 4, None, False, jnp.float64, 6, 8, 4, "normalised", None),
    ("ising", "ar", 4, None, False, jnp.complex128, 4, 12, 1, "normalised", 4),
    ("dense", "slater", 4, (2, 2), True, jnp.complex128, 20, 16, 4, "harmonic", None),
    ("ising", "rbm", 4, None, False, jnp.complex128, 15, 6, 2, "rand", None),        # complement of one configuration
    ("sparse", "qgps", 4, (2, 2), False, jnp.complex128, 12, 24, 3, "rand", 6),
    ("ising", "rbm", 5, None, False, jnp.complex128, 16, 9, 3, "harmonic", None),
]


def fixed_set(rng, P, v, m, style):
    amp = zoo.amplitudes(P["model"], v, P["states"]).real
    order = np.argsort(-amp) if style == "largest" else rng.permutation(len(amp))
    return P["states"][order[:m]]


def build(rng, P, v, det, n, chains, mode, nrand=None, **kw):
    mk = vmc.samplable(P)
    dt = np.uint8 if P["states"].dtype == np.uint8 else np.float64
    skw = dict(n_chains=chains, dtype=dt)
    skw.update(kw.pop("sampler_kw", {}))
    opt = {"rand": dict(rand_norm=True, number_random_samples=nrand), "harmonic": dict(rand_norm=False),
           "normalised": dict(renormalize=False)}[mode]
    return MCStateStratifiedSampling(jnp.asarray(det.astype(dt)), len(P["states"]), mk(**skw), P["model"], n_samples=n, variables=v,
                                     seed=int(rng.integers(1 << 30)), **opt, **kw)


def monitor(mon, vs, P, v, det, n, mode, d, nrand=None):
    """All observable facts about one sample set; returns (samples, weights)."""
    s, w = (np.asarray(a) for a in vs.samples_with_counts)
    m = len(det)
    dkeys = {tuple(x) for x in det.tolist()}
    isdet = np.array([tuple(x) in dkeys for x in s.tolist()])
    space = {tuple(x) for x in P["states"].tolist()}
    mon.check("sample-shape", s.shape == (m + n, P["L"]) and w.shape == (m + n,), shape=s.shape, **d)
    mon.check("fixed-set-complete", sorted(map(tuple, s[isdet].tolist())) == sorted(map(tuple, det.tolist())), n_det=int(isdet.sum()), **d)
    mon.check("sampled-part-outside-fixed-set", int((~isdet).sum()) == n, sampled=int((~isdet).sum()), **d)
    mon.check("samples-in-space", all(tuple(x) in space for x in s.tolist()), **d)
    lp = 2 * zoo.amplitudes(P["model"], v, s).real
    lall = 2 * zoo.amplitudes(P["model"], v, P["states"]).real
    comp = np.array([tuple(x) not in dkeys for x in P["states"].tolist()])
    sh = 0.0 if mode == "normalised" else lall.max()
    pdet = np.exp(lp[isdet] - sh)
    ndet = pdet.sum()
    pc = np.exp(lall[comp] - sh)
    ws = w[~isdet]
    mon.close("weights-sum-to-one", w.sum(), 1.0, atol=1e-8, rtol=0, **d)
    mon.close("sampled-weights-equal", ws, np.full(n, ws.mean()), rtol=1e-9, atol=1e-12, **d)
    share = w[isdet].sum()
    mon.close("fixed-weights-proportional", w[isdet] / share, pdet / ndet, rtol=1e-7, atol=1e-10, **d)
    norm = ndet / share                    # the norm estimate the weights imply
    if mode == "normalised":
        mon.close("fixed-weights-are-probabilities", w[isdet], pdet, rtol=1e-8, atol=1e-12, **d)
        mon.close("norm-of-normalised-model", ndet + pc.sum(), 1.0, atol=1e-6, rtol=0, **d)
    elif mode == "harmonic":
        want = ndet + comp.sum() * n / np.exp(-(lp[~isdet] - sh)).sum()
        mon.close("norm-estimate-from-samples", norm / want, 1.0, atol=1e-7, rtol=0, **d)
    else:
        lo, hi_ = ndet + comp.sum() * pc.min(), ndet + comp.sum() * pc.max()
        mon.check("norm-estimate-bounded", lo * (1 - 1e-9) <= norm <= hi_ * (1 + 1e-9), norm=norm, lo=lo, hi=hi_, **d)
        if nrand is not None and nrand >= 1000:
            rng_ = comp.sum() * (pc.max() - pc.min())
            eps = rng_ * np.sqrt(np.log(2 / stats.PMIN) / (2 * nrand)) + 1e-9
            # empirical-Bernstein style bound with the exact variance: tighter when few configurations dominate
            V = comp.sum() ** 2 * pc.var()
            b = np.log(2 / stats.PMIN)
            eps = min(eps, np.sqrt(2 * V * b / nrand) + rng_ * b / (3 * nrand) + 1e-9)
            mon.check("norm-estimate-unbiased", abs(norm - ndet - pc.sum()) <= eps, norm=norm, want=ndet + pc.sum(), eps=eps, **d)
            mon.extra["norm estimate resolution"] = max(mon.extra.get("norm estimate resolution", 0.0), eps / (ndet + pc.sum()))
    return s, w


def one(mon, k, kind, name, L, ne, fast, dtype, m, n, chains, mode, chunk, reps):
    rng = mon.rng("c18", k)
    d = dict(op=kind, model=name, L=L, fixed=m, n_samples=n, chains=chains, mode=mode, chunk=chunk)
    with mon.guard("stratified-state-raises", **d):
        P = vmc.problem(rng, kind, name, L=L, ne=ne, fast=fast, dtype=dtype)
        model = P["model"]
        v = P["v"]
        det = fixed_set(rng, P, v, m, "random" if k % 2 else "largest")
        nrand = 2000 if mode == "rand" and k != 5 else None
        vs = build(rng, P, v, det, n, chains, mode, nrand, n_discard_per_chain=int(rng.integers(0, 3)), chunk_size=None,
                   sampler_kw=dict(sweep_size=int(rng.integers(1, 2 * L))))
        n = vs.n_samples
        for r in range(reps):
            if r == 1:
                vs.reset()                                  # same parameters, new samples
            elif r > 1:
                v = zoo.variables(model, int(rng.integers(1 << 30)), P["states"][:1], P["pf"])
                vs.parameters = v["params"]
            if r == 2 and chunk:
                vs.chunk_size = chunk
            dd = dict(d, r=r)
            mon.case("stratified", dd, nontrivial=m < len(P["states"]))
            s, w = monitor(mon, vs, P, v, det, n, mode, dd, nrand)
            s2, w2 = vs.samples_with_counts
            mon.check("samples-stable", np.array_equal(s, s2) and np.array_equal(w, w2), **dd)
            if r in (0, 2):
                E, sc = vmc.local(model, v, P["row"], s)
                O, R = vmc.logder(model, v, s)
                gref, _ = vmc.grad_reference(O, R, E, w)
                mean = np.sum(w * E)
                # ratios of tiny amplitudes make single local energies huge; compare on their own scale
                esc = 1 + np.sum(np.abs(w) * sc)
                gsc = esc * (1 + np.abs(O).max())
                st = vs.expect(P["op"])
                mon.close("stratified-mean", (complex(st.mean) - mean) / esc, 0.0, atol=1e-7, rtol=0, **dd)
                st, g = vs.expect_and_grad(P["op"])
                mon.close("stratified-gradient-energy", (complex(st.mean) - mean) / esc, 0.0, atol=1e-7, rtol=0, **dd)
                if np.abs(O).max() < 1e3:
                    for a, b in zip(jax.tree_util.tree_leaves(g), jax.tree_util.tree_leaves(gref)):
                        mon.close("stratified-gradient", (np.asarray(a) - b) / gsc, np.zeros_like(b), atol=1e-6, rtol=0, **dd)


LAW = [("ising", "rbm", 3, None, 3, 60), ("ising", "qgps", 3, None, 2, 60), ("heis", "qgps", 4, None, 2, 60), ("ising", "rbm", 4, None, 5, 80)]


def law(mon, k, kind, name, L, ne, m, steps, chains=300, rounds=2):
    """The sampled part follows |psi|^2 restricted to the complement: independent chains, one sample each per round.  The
    workload only uses (state, fixed set) pairs on which a Metropolis chain with these moves has forgotten its start."""
    rng = mon.rng("c18law", k)
    d = dict(op=kind, model=name, L=L, fixed=m)
    with mon.guard("stratified-state-raises", **d):
        P = vmc.problem(rng, kind, name, L=L, ne=ne, fast=False, dtype=jnp.complex128)
        for _ in range(200):
            v = dict(P["v"], params=P["pf"](P["v"]["params"]))
            det = fixed_set(rng, P, v, m, "random")
            dk = {tuple(x) for x in det.tolist()}
            comp = [tuple(x) for x in P["states"].tolist() if tuple(x) not in dk]
            lp = 2 * zoo.amplitudes(P["model"], v, np.array(comp, dtype=P["states"].dtype)).real
            if memory(P, comp, lp) ** steps < 1e-5:
                break
        else:
            mon.seen("law-skipped-slow-mixing")
            return
        p = np.exp(lp - lp.max())
        p /= p.sum()
        vs = build(rng, P, v, det, chains, chains, "harmonic", n_discard_per_chain=steps, sampler_kw=dict(sweep_size=1))
        cnt = np.zeros(len(comp))
        idx = {c: i for i, c in enumerate(comp)}
        for r in range(rounds):
            if r:
                vs.reset()
            s = np.asarray(vs.samples)
            for x in s.tolist():
                if tuple(x) in idx:
                    cnt[idx[tuple(x)]] += 1
        mon.case("law", d, nontrivial=len(comp) > 1)
        stats.fits(mon, "sampled-part-follows-restricted-law", cnt, p, got_=cnt, want_=p * cnt.sum(), **d)
        mon.extra["law samples"] = mon.extra.get("law samples", 0) + int(cnt.sum())


def memory(P, comp, lp):
    """Second largest modulus of the eigenvalues of the Metropolis chain on the complement (1: not ergodic)."""
    idx = {c: i for i, c in enumerate(comp)}
    L, n = P["L"], len(comp)
    T = np.zeros((n, n))
    for c, i in idx.items():
        nb = [c[:q] + (-c[q],) + c[q + 1:] for q in range(L)] if P["kind"] == "ising" else [swap(c, a, b) for a in range(L) for b in range(a)]
        for y in nb:
            if y in idx and y != c:
                T[i, idx[y]] += min(1.0, np.exp(lp[idx[y]] - lp[i])) / len(nb)
        T[i, i] = 1 - T[i].sum()
    ev = np.sort(np.abs(np.linalg.eigvals(T)))
    return ev[-2] if n > 1 else 0.0


def swap(c, a, b):
    y = list(c)
    y[a], y[b] = y[b], y[a]
    return tuple(y)


def run(mon):
    mon.rule = ("case = (operator, ansatz, fixed set, normalisation mode, sampler layout, parameters); every drawn set is checked for "
                "disjointness and weights; estimators with explicit rows and finite differences; the law of the sampled part by "
                "independent chains at false-alarm level 1e-10.")
    mon.assumptions = ["the fixed set is given in the data type of the sampler",
                       "the norm estimate from uniformly drawn configurations is judged by Bernstein bounds on 2000 draws",
                       "the exact weights given the samples are those documented by the class (importance sampling or known norm)"]
    for k, c in mon.mine(list(enumerate(QUICK))):
        if mon.time_left():
            one(mon, k, *c, reps=4 if not mon.thorough else 6)
    for k, c in mon.mine(list(enumerate(LAW))):
        if mon.time_left():
            law(mon, k, *c)
    mon.require("fixed-weights-proportional", 20)
    mon.require("stratified-gradient", 8)
    mon.require("norm-estimate-from-samples", 6)
    mon.require("fixed-weights-are-probabilities", 4)
    mon.require("norm-estimate-unbiased", 3)
    mon.require("sampled-part-follows-restricted-law", 1)
    if mon.thorough:
        for q in range(10):
            for k, c in mon.mine(list(enumerate(QUICK))):
                if mon.time_left():
                    c = list(c)
                    r2 = mon.rng("c18t", q, k)
                    chains = int(r2.choice([1, 2, 3, 4]))
                    c[8], c[7] = chains, chains * int(r2.integers(2, 7))
                    c[6] = int(r2.integers(1, 12))
                    c[10] = None
                    one(mon, 100 * (q + 1) + k, *c, reps=5)
            for k, c in mon.mine(list(enumerate(LAW))):
                if mon.time_left():
                    law(mon, 100 * (q + 1) + k, *c, chains=600, rounds=4)
            if mon.first_shard() and mon.time_left():
                law(mon, 900 + q, "hubbard", "qgps", 3, (1, 1), 3, 60, chains=30, rounds=12)
