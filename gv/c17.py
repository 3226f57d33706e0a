"""C17  States collapsing samples to distinct configurations: conservation between drawn and collapsed samples, weighted estimators."""
import collections
import numpy as np
import jax
import jax.numpy as jnp
import netket as nk
from GPSKet.vqs import MCStateUniqueSamples
from . import vmc, zoo

SHARDS = 8


class Recorded(MCStateUniqueSamples):
    """The real state; every batch it draws is recorded.  With a script the batches are supplied by the workload."""
    def sample(self, *a, **kw):
        if not hasattr(self, "batches"):
            self.batches = []
        if getattr(self, "script", None):
            out = self.script.pop(0)
        else:
            out = super().sample(*a, **kw)
        self.batches.append(np.array(out).reshape(-1, out.shape[-1]))
        return out


def collapse(batches, n):
    """Counts of the drawn configurations up to the point where n distinct ones were seen; batches that were needed."""
    cnt = collections.Counter()
    used = 0
    for b in batches:
        used += 1
        for s in b:
            cnt[tuple(s.tolist())] += 1
            if len(cnt) >= n:
                return cnt, used, True
    return cnt, used, False


def monitor_collapse(mon, vs, hi, d, n):
    s, w = vs.samples_with_counts
    s, w = np.asarray(s), np.asarray(w)
    mon.check("collapsed-shape", s.shape == (n, hi.size) and w.shape == (n,), shape=s.shape, **d)
    mon.check("weights-normalised", abs(w.sum() - 1) < 1e-9 and (w >= 0).all(), total=w.sum(), **d)
    pos = w > 0
    keys = [tuple(x) for x in s[pos].tolist()]
    mon.check("each-configuration-once", len(set(keys)) == len(keys), **d)
    cnt, used, full = collapse(vs.batches, n)
    tot = sum(cnt.values())
    got = dict(zip(keys, w[pos]))
    mon.check("collapsed-set", set(got) == set(cnt), only_got=list(set(got) - set(cnt))[:3], only_want=list(set(cnt) - set(got))[:3], **d)
    err = max((abs(got.get(k, 0.0) - c / tot) for k, c in cnt.items()), default=0.0)
    mon.check("relative-frequencies", err < 1e-9, error=err, **d)
    mon.check("no-more-than-needed", used == len(vs.batches), used=used, drawn=len(vs.batches), **d)
    if vs.max_sampling_steps is None:
        mon.check("requested-number-of-configurations", full and len(keys) == n, distinct=len(keys), **d)
    else:
        mon.check("sampling-steps-bounded", len(vs.batches) <= vs.max_sampling_steps, drawn=len(vs.batches), **d)
        mon.check("stops-early-only-when-complete", full or len(vs.batches) == vs.max_sampling_steps, **d)
    if not full:
        mon.seen("padded-set")
    mon.check("padding-is-a-configuration", all(tuple(x) in d["_space"] for x in s.tolist()), **{k: v for k, v in d.items() if k[0] != "_"})
    # further accesses neither draw nor change anything
    nb = len(vs.batches)
    s2, w2 = vs.samples_with_counts
    mon.check("collapsed-set-stable", len(vs.batches) == nb and np.array_equal(s, s2) and np.array_equal(w, w2)
              and np.array_equal(np.asarray(vs.samples), s), **d)
    return s, w, cnt


class D(dict):
    """Context whose private entries stay out of the reports."""
    def pub(self):
        return {k: v for k, v in self.items() if k[0] != "_"}


def estimators(mon, vs, P, v, s, w, cnt, d, chunks, grad=True):
    model = P["model"]
    # "uncollapsed" = every drawn sample with its multiplicity
    keys = list(cnt)
    xs = np.array(keys, dtype=s.dtype)
    m = np.array([cnt[k] for k in keys], float)
    m /= m.sum()
    pad = np.concatenate([xs, np.repeat(xs[:1], len(s) - len(xs), 0)]) if len(xs) < len(s) else xs
    mm = np.concatenate([m, np.zeros(len(pad) - len(xs))])
    E, sc = vmc.local(model, v, P["row"], pad)
    O, R = vmc.logder(model, v, pad)
    gref, _ = vmc.grad_reference(O, R, E, mm)
    mean = np.sum(mm * E)
    var = np.sum(mm * np.abs(E - mean) ** 2)
    esc = 1 + np.mean(sc)
    gsc = esc * (1 + np.abs(O).max())
    for ch in chunks:
        vs.chunk_size = None
        vs.chunk_size = ch
        dd = dict(d, chunk=ch)
        st = vs.expect(P["op"])
        mon.close("weighted-mean", (complex(st.mean) - mean) / esc, 0.0, atol=1e-8, rtol=0, **dd)
        mon.close("weighted-variance", (float(np.real(st.variance)) - var) / esc ** 2, 0.0, atol=1e-8, rtol=0, **dd)
        if not grad:
            continue
        st, g = vs.expect_and_grad(P["op"])
        mon.close("weighted-gradient-energy", (complex(st.mean) - mean) / esc, 0.0, atol=1e-8, rtol=0, **dd)
        for a, b in zip(jax.tree_util.tree_leaves(g), jax.tree_util.tree_leaves(gref)):
            mon.check("weighted-gradient-structure", a.shape == b.shape and np.iscomplexobj(np.asarray(a)) == np.iscomplexobj(b), **dd)
            mon.close("weighted-gradient", (np.asarray(a) - b) / gsc, np.zeros_like(b), atol=2e-7, rtol=0, **dd)
        if ch is None and d["r"] == 0:
            _, f = vs.expect_and_forces(P["op"])
            for a, b in zip(jax.tree_util.tree_leaves(f), jax.tree_util.tree_leaves(gref)):
                a = np.asarray(a) if np.iscomplexobj(b) else np.asarray(a).real
                mon.close("weighted-forces", (a - b / 2) / gsc, np.zeros_like(b), atol=2e-7, rtol=0, **dd)
    vs.chunk_size = None
    return E, O, R, mm, esc, gsc


def scripted(mon, rng, P, v, n, batch, chains, style):
    """A sequence of batches (chains, batch / chains, L) with hostile multiplicities, long enough for n distinct ones."""
    amp = zoo.amplitudes(P["model"], v, P["states"])
    ok = P["states"][np.isfinite(amp) & (amp.real > np.max(amp.real[np.isfinite(amp)]) - 8)]
    ok = ok[rng.permutation(len(ok))]
    seq = []
    if style == "one-heavy":                 # one configuration dominates; new ones appear rarely
        for q in range(min(n, len(ok))):
            seq += [ok[0]] * int(rng.integers(0, 7)) + [ok[q]]
    elif style == "all-equal":               # never reaches the requested number
        seq = [ok[0]] * (3 * batch)
    elif style == "boundary":                # the last distinct configuration is the last sample of a batch
        m = min(n, len(ok))
        seq = [ok[0]] * batch + [ok[q % max(m - 1, 1)] for q in range(batch - 1)] + [ok[m - 1]]
        if len({tuple(x) for x in np.array(seq).tolist()}) < n:
            seq += [ok[q % len(ok)] for q in range(2 * len(ok))]
    else:                                    # zipf
        p = 1.0 / np.arange(1, len(ok) + 1)
        seq = list(ok[rng.choice(len(ok), size=40 * n, p=p / p.sum())]) + list(ok[:n])
    seq = np.array(seq)
    pad = (-len(seq)) % batch
    seq = np.concatenate([seq, ok[rng.integers(0, len(ok), pad)]]) if pad else seq
    return [jnp.asarray(b.reshape(chains, batch // chains, -1)) for b in seq.reshape(-1, batch, seq.shape[-1])]


QUICK = [
    # kind, model, L, sector, fast, dtype, n_samples, batch, chains, chunk
    ("hubbard", "qgps", 4, (2, 1), True, jnp.complex128, 12, None, 4, 4),
    ("dense", "slater", 4, (2, 2), True, jnp.complex128, 16, 8, 4, None),
    ("sparse", "qgps", 4, (2, 2), False, jnp.float64, 20, 32, 4, 5),
    ("heis", "qgps_sym", 6, None, True, jnp.complex128, 8, 2, 2, 8),
    ("heis-plain", "qgps", 6, None, False, jnp.float64, 12, None, 2, 3),
    ("ising", "rbm", 4, None, False, jnp.complex128, 10, 5, 5, 10),
    ("ising", "armp", 4, None, False, jnp.float64, 9, 16, 1, None),
    ("hubbard-plain", "jastrow", 4, (1, 2), False, jnp.complex128, 14, 4, 2, 7),
]


def one(mon, k, kind, name, L, ne, fast, dtype, n, batch, chains, chunk, reps):
    rng = mon.rng("c17", k)
    d = dict(op=kind, model=name, L=L, n_samples=n, batch=batch, chains=chains, dtype=str(np.dtype(dtype)))
    with mon.guard("unique-state-raises", **d):
        P = vmc.problem(rng, kind, name, L=L, ne=ne, fast=fast, dtype=dtype)
        hi, model = P["hi"], P["model"]
        space = {tuple(x) for x in P["states"].tolist()}
        v = P["v"]
        mk = vmc.samplable(P)
        kw = {} if batch is None else dict(batch_size=batch)
        vs = Recorded(mk(n_chains=chains), model, n_samples=n, variables=v, seed=int(rng.integers(1 << 30)), **kw)
        n = vs.n_samples
        B = batch or n
        styles = ["zipf", "one-heavy", "boundary", "capped", "all-equal", "real", "real-capped", "one-heavy", "zipf", "capped"]
        for r in range(reps):
            style = styles[(r + k) % len(styles)]
            v = zoo.variables(model, int(rng.integers(1 << 30)), P["states"][:1], P["pf"])
            vs.parameters = v["params"]                                    # must discard the previous samples
            mon.check("parameter-change-discards-samples", vs._unique_samples is None, **d)
            vs.batches = []
            if style.startswith("real"):
                vs.script = None
                # real sampling until n distinct configurations needs the space to be large enough for the request
                vs.max_sampling_steps = int(rng.integers(1, 4)) if style == "real-capped" or len(space) < 2 * n else None
            else:
                capped = style in ("capped", "all-equal")
                vs.max_sampling_steps = int(rng.integers(1, 4)) if capped else None
                vs.script = scripted(mon, rng, P, v, n, B, chains, "zipf" if style == "capped" else style)
                if not capped and not collapse([np.asarray(b).reshape(-1, L) for b in vs.script], n)[2]:
                    vs.max_sampling_steps = len(vs.script)                 # script cannot complete the set
            dd = dict(d, style=style, r=r, cap=vs.max_sampling_steps)
            mon.case("collapse", dd, nontrivial=True)
            s, w, cnt = monitor_collapse(mon, vs, hi, D(dd, _space=space), n)
            mon.seen("style:" + style)
            mon.extra["drawn samples"] = mon.extra.get("drawn samples", 0) + sum(len(b) for b in vs.batches)
            mon.extra["largest multiplicity"] = max(mon.extra.get("largest multiplicity", 0), max(cnt.values()))
            if style in ("capped", "real-capped", "one-heavy", "zipf", "all-equal") or mon.thorough:
                E, O, R, mm, esc, gsc = estimators(mon, vs, P, v, s, w, cnt, dd, [None] if r != 1 or chunk is None else [None, chunk])
                mon.check("estimators-keep-samples", np.array_equal(np.asarray(vs.samples_with_counts[1]), w), **dd)
            if r == 0:
                # an explicit reset draws anew
                nb = len(vs.batches)
                if vs.script is not None:
                    vs.script = scripted(mon, rng, P, v, n, B, chains, "zipf")
                    vs.max_sampling_steps = len(vs.script)
                vs.reset()
                vs.samples_with_counts
                mon.check("reset-draws-again", len(vs.batches) > nb, **dd)
        # n_samples can be changed; the collapsed set follows
        vs.script = None
        vs.max_sampling_steps = 3
        vs.n_samples = 2 * chains
        vs.batches = []
        monitor_collapse(mon, vs, hi, D(d, style="resized", _space=space), 2 * chains)


def run(mon):
    mon.rule = ("case = (operator, ansatz, sampler layout, batch size, style of the drawn batches, optional limit on the sampling steps); "
                "drawn batches are recorded and compared with the collapsed set; estimators with explicit rows and finite differences.")
    mon.assumptions = ["a request for more distinct configurations than the space holds never ends without a step limit (not exercised)",
                       "only mean and variance of the statistics are compared: the class documents that the others are not provided"]
    for k, c in mon.mine(list(enumerate(QUICK))):
        if mon.time_left():
            one(mon, k, *c, reps=5 if not mon.thorough else 10)
    mon.require("relative-frequencies", 40)
    mon.require("weighted-gradient", 20)
    mon.require("padded-set", 5)
    mon.require("style:real", 3)
    if mon.thorough:
        for q in range(8):
            for k, c in mon.mine(list(enumerate(QUICK))):
                if mon.time_left():
                    c = list(c)
                    r2 = mon.rng("c17t", q, k)
                    chains = int(r2.choice([1, 2, 3, 4]))
                    c[8], c[6], c[7] = chains, chains * int(r2.integers(2, 7)), chains * int(r2.integers(1, 9))
                    c[9] = chains if r2.integers(0, 2) else None
                    one(mon, 100 * (q + 1) + k, *c, reps=10)
