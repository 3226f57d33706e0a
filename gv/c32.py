"""C32  Sampling on several MPI processes: common parameters, independent samples of one distribution, statistics over all ranks."""
import warnings
import numpy as np
import jax
import jax.numpy as jnp
import netket as nk
from scipy import stats as sst
from GPSKet.hilbert import FermionicDiscreteHilbert
from GPSKet.sampler import ARDirectSampler, MetropolisFastHopping, MetropolisFastExchange, MetropolisHopping
from GPSKet.vqs import MCStateUniqueSamples, MCStateStratifiedSampling
from GPSKet.driver import VMC_SRRMSProp, minSRVMC
from . import ar, ref, zoo, dist, vmc, stats
from .c13 import to_index
from .c15 import clean

SHARDS = 2
warnings.simplefilter("ignore")
N = 6000               # direct samples over all ranks
B = 2400                # chains over all ranks

QUICK = [
    dict(what="direct", kind="ar", space="spin0", L=4, sym="none"),
    dict(what="chains", ansatz="qgps", L=4, ne=(2, 1), fast=True),
    dict(what="chains", ansatz="qgps", L=4, ne=None, fast=True),
    dict(what="direct", kind="arplaq", space="spin", L=4, sym="none"),
    dict(what="unique", ansatz="qgps", op="hubbard", L=4, ne=(2, 2)),
    dict(what="driver", name="minsr", op="heis", ansatz="qgps", L=6, ne=None),
    dict(what="direct", kind="armpfull", space="fock", L=2, sym="reflect"),
    dict(what="stratified", ansatz="qgps", op="hubbard", L=4, ne=(2, 1)),
    dict(what="driver", name="srrmsprop", op="hubbard", ansatz="qgps", L=4, ne=(2, 1)),
]
MORE = [
    dict(what="chains", ansatz="slater", L=3, ne=(2, 1), fast=False),
    dict(what="direct", kind="arfull", space="fermiN", L=3, sym="none"),
    dict(what="direct", kind="arfullM", space="spinm", L=4, sym="none"),
    dict(what="direct", kind="armp", space="spin1", L=3, sym="none"),
    dict(what="direct", kind="ar", space="spin", L=4, sym="flip"),
    dict(what="chains", ansatz="backflow", L=3, ne=(1, 1), fast=True),
    dict(what="chains", ansatz="plaq", L=4, ne=None, fast=True),
    dict(what="unique", ansatz="qgps", op="heis", L=6, ne=None),
    dict(what="stratified", ansatz="qgps", op="heis", L=6, ne=None),
    dict(what="driver", name="minsr", op="hubbard", ansatz="slater", L=4, ne=(2, 2)),
    dict(what="driver", name="srrmsprop", op="heis", ansatz="qgps", L=6, ne=None),
]


def cases(thorough):
    return QUICK + (MORE + QUICK + MORE if thorough else [])


def execute(rec, i, seed, rank, P):
    c = cases(True)[i]
    rng = dist.rng_of(seed, "c32", i)
    globals()["do_" + c["what"]](rec, c, rng, rank, P)


def do_direct(rec, c, rng, rank, P):
    while True:
        try:
            k = ar.Case(c["kind"], c["space"], rng, c["L"], sym=c["sym"], scale=0.6)
            break
        except ValueError:
            continue
    sa = ARDirectSampler(k.sp.hi)
    sd = int(rng.integers(1 << 30))
    for rep in range(2):
        v = dict(k.v)
        if rep:
            v["params"] = k.v["params"] = jax.tree_util.tree_map(lambda p: p * 1.2, v["params"])
        idx = k.sp.all_indices()
        if P == 1:
            rec.r(f"law {rep}", np.exp(2 * k.logpsi(idx).real))
        vs = nk.vqs.MCState(sa, k.model, n_samples=N, variables=v, seed=sd + rep, sampler_seed=sd + rep)
        rec.s(f"parameters {rep}", vs.parameters)
        out = []
        for _ in range(2):
            x = np.asarray(vs.sample())
            rec.r(f"shape {rep}", x.shape)
            out.append(to_index(k, x.reshape(-1, c["L"])))
        rec.r(f"draws {rep}", np.stack(out))
        rec.r(f"delivered {rep}", [x.shape[0] * x.shape[1] * P, N])
        rec.r(f"states {rep}", len(idx))
    # freshly initialised states, with a seed and without one
    for s in (sd, None):
        vs = nk.vqs.MCState(sa, k.model, n_samples=120, seed=s)
        rec.s(f"fresh parameters {s is None}", vs.parameters)


def build(c, rng):
    L, ne = c["L"], c["ne"]
    if ne is None:
        hi = nk.hilbert.Spin(0.5, L, total_sz=0)
        g = nk.graph.Chain(L)
        model, pf = zoo.spin_model(c["ansatz"], hi, rng, fast=c["fast"], graph=g)
        mk = lambda **kw: MetropolisFastExchange(hi, graph=g, **kw)
        S = np.asarray(hi.all_states())
    else:
        hi = FermionicDiscreteHilbert(L, n_elec=ne)
        model, pf = zoo.fermion_model(c["ansatz"], hi, rng, fast=c["fast"])
        f = MetropolisFastHopping if c["fast"] else MetropolisHopping
        hp = float(rng.choice([1.0, 0.5]))
        mk = lambda **kw: f(hi, hop_probability=hp, **kw)
        S = np.asarray(ref.fermion_states(L, ne)).astype(np.uint8)
    v = clean(dict(ansatz=c["ansatz"]), zoo.variables(model, int(rng.integers(1 << 30)), S[:2], pf))
    return hi, model, v, mk, S


def do_chains(rec, c, rng, rank, P):
    hi, model, v, mk, S = build(c, rng)
    pos = {tuple(s): n for n, s in enumerate(S.astype(int).tolist())}
    sd, sweep = int(rng.integers(1 << 30)), int(rng.choice([3, 5]))
    sa = mk(n_chains=B, sweep_size=sweep)
    vs = nk.vqs.MCState(sa, model, n_samples=2 * B, n_discard_per_chain=3, variables=v, seed=sd, sampler_seed=sd)
    rec.s("parameters 0", vs.parameters)
    x = np.asarray(vs.sample())
    rec.r("delivered 0", [x.shape[0] * x.shape[1] * P, 2 * B])
    rec.r("states 0", len(S))
    rec.r("draws 0", np.array([[pos.get(tuple(q), -1) for q in x[:, -1].astype(int).tolist()]]))
    st = vs.sampler_state
    rec.r("accepted", np.sum(np.asarray(st.n_accepted_proc)))
    rec.r("steps", [float(st.n_steps_proc), float(st.n_steps), float(st.n_accepted), float(st.acceptance)])


def do_unique(rec, c, rng, rank, P):
    Q = vmc.problem(rng, c["op"], c["ansatz"], L=c["L"], ne=c["ne"], fast=True, dtype=jnp.complex128)
    mk = vmc.samplable(Q)
    n, batch, nst = 24, 48, 5
    vs = MCStateUniqueSamples(mk(n_chains=12, sweep_size=3), Q["model"], n_samples=n, variables=Q["v"], seed=int(rng.integers(1 << 30)),
                              max_sampling_steps=nst, batch_size=batch)
    for rep in range(3):
        if rep == 2:
            vs.parameters = jax.tree_util.tree_map(lambda p: p * 0.9, vs.parameters)
        s, w = (np.asarray(q) for q in vs.samples_with_counts)
        rec.r(f"weight {rep}", w.sum())
        rec.r(f"configurations {rep}", s.astype(int))
        e, g = vs.expect_and_grad(Q["op"])
        rec.s(f"energy {rep}", [e.mean, e.variance])
        rec.s(f"gradient {rep}", g)
        vs.reset()


def do_stratified(rec, c, rng, rank, P):
    Q = vmc.problem(rng, c["op"], c["ansatz"], L=c["L"], ne=c["ne"], fast=True, dtype=jnp.complex128)
    mk = vmc.samplable(Q)
    st = Q["states"]
    dt = np.uint8 if st.dtype == np.uint8 else np.float64
    a = zoo.amplitudes(Q["model"], Q["v"], st).real
    det = st[np.argsort(-a)[:4]].astype(dt)
    vs = MCStateStratifiedSampling(jnp.asarray(det), len(st), mk(n_chains=12, dtype=dt, sweep_size=2), Q["model"], n_samples=48, variables=Q["v"],
                                   seed=int(rng.integers(1 << 30)), n_discard_per_chain=3)
    rec.r("fixed", det.astype(int))
    for rep in range(2):
        s, w = (np.asarray(q) for q in vs.samples_with_counts)
        rec.r(f"weight {rep}", w.sum())
        rec.r(f"configurations {rep}", s.astype(int))
        e, g = vs.expect_and_grad(Q["op"])
        rec.s(f"energy {rep}", [e.mean, e.variance])
        rec.s(f"gradient {rep}", g)
        vs.reset()


def do_driver(rec, c, rng, rank, P):
    Q = vmc.problem(rng, c["op"], c["ansatz"], L=c["L"], ne=c["ne"], fast=True, dtype=jnp.complex128)
    vs = nk.vqs.MCState(vmc.samplable(Q)(n_chains=12, sweep_size=3), Q["model"], n_samples=48, variables=Q["v"], seed=int(rng.integers(1 << 30)))
    if c["name"] == "minsr":
        dr = minSRVMC(Q["op"], nk.optimizer.Sgd(0.02), variational_state=vs)
    else:
        dr = VMC_SRRMSProp(Q["op"], nk.optimizer.Sgd(0.02), diag_shift=0.1, variational_state=vs)
    for t in range(3):
        dr.advance(1)
        rec.s(f"parameters {t}", vs.parameters)
        rec.s(f"energy {t}", dr.energy.mean)
        rec.r(f"configurations {t}", np.asarray(vs.samples).reshape(-1, c["L"]).astype(int))


def same_rate(mon, tag, a, b, q, **d):
    """Draws of two ranks coincide as often as independent draws with agreement probability q."""
    k, n = int(np.sum(a == b)), len(a)
    p = float(sst.binom.sf(k - 1, n, min(1.0, q)))
    mon.check(tag, p > stats.PMIN, coincide=k, of=n, expected=q * n, p_value=p, **d)


def judge(mon, i, d, recs, one):
    raw = [r.raw for r in recs]
    P = len(recs)
    if d["what"] in ("direct", "chains"):
        for rep in range(2):
            if f"draws {rep}" not in raw[0]:
                continue
            m = int(raw[0][f"states {rep}"])
            for r in range(P):
                got, want = raw[r][f"delivered {rep}"]
                mon.check("shares-deliver-the-samples", got == want, rank=r, got=int(got), want=int(want), **d)
            x = [w[f"draws {rep}"] for w in raw]
            mon.check("in-space", all(bool(np.all(z >= 0)) for z in x), **d)
            cnt = np.bincount(np.concatenate([z[z >= 0] for z in x]), minlength=m)
            if d["what"] == "direct":
                law = one.raw[f"law {rep}"]
                stats.fits(mon, "pooled-distribution", cnt, law, **d)
                for r in range(P):
                    stats.fits(mon, "rank-distribution", np.bincount(x[r][x[r] >= 0], minlength=m), law, rank=r, **d)
            else:
                # the same law as in one process, equilibrated or not
                ref1 = np.bincount(one.raw[f"draws {rep}"][0], minlength=m)
                tab = np.stack([cnt, ref1]).astype(float)
                tab = tab[:, tab.sum(0) > 0]
                o = np.argsort(tab.sum(0))
                k = int((np.cumsum(tab.sum(0)[o]) < 20).sum())
                if k:
                    tab = np.column_stack([tab[:, o[:k + 1]].sum(1), tab[:, o[k + 1:]]])
                p = sst.chi2_contingency(tab)[1] if tab.shape[1] > 1 else 1.0
                mon.check("same-distribution-as-one-process", p > stats.PMIN, p_value=float(p), counts=tab[:, :6].tolist(), **d)
                law = (cnt + ref1) / (cnt + ref1).sum()
                tot = sum(float(w["accepted"]) for w in raw)
                for r in range(P):
                    s = raw[r]["steps"]
                    mon.close("steps-over-all-ranks", s[1], s[0] * P, rtol=1e-12, atol=0, rank=r, **d)
                    mon.close("same-number-of-steps-as-one-process", s[1], one.raw["steps"][1], rtol=1e-12, atol=0, rank=r, **d)
                    mon.close("accepted-over-all-ranks", s[2], tot, rtol=1e-12, atol=0, rank=r, **d)
                    mon.close("acceptance-over-all-ranks", s[3], tot / (s[0] * P), rtol=1e-6, atol=0, rank=r, **d)
            q = float(np.sum(law ** 2))
            q = min(1.0, q * 1.1 + 0.02) if d["what"] == "chains" else q       # estimated law, not yet equilibrated chains
            for a in range(P):
                for b in range(a):
                    for z, y in zip(x[a], x[b]):
                        same_rate(mon, "ranks-draw-independently", z, y, q, ranks=(a, b), **d)
            if d["what"] == "direct":
                for r in range(P):
                    same_rate(mon, "calls-draw-independently", x[r][0], x[r][1], q, rank=r, **d)
        return
    for rep in range(3):
        if f"configurations {rep}" not in raw[0]:
            continue
        cf = [w[f"configurations {rep}"] for w in raw]
        if f"weight {rep}" in raw[0]:
            mon.close("weights-of-all-ranks-sum-to-one", sum(float(w[f"weight {rep}"]) for w in raw), 1.0, rtol=0, atol=1e-9, **d)
        if d["what"] == "stratified":
            fixed = {tuple(z) for z in raw[0]["fixed"].tolist()}
            cnt = {z: 0 for z in fixed}
            for z in cf:
                for s in z.tolist():
                    if tuple(s) in fixed:
                        cnt[tuple(s)] += 1
            mon.check("fixed-configurations-once-over-all-ranks", all(v == 1 for v in cnt.values()), counts=list(cnt.values()), **d)
            mon.check("sampled-share-per-rank", sum(len(z) for z in cf) == 48 + len(fixed), got=[len(z) for z in cf], **d)
        if d["what"] == "driver":
            # the samples of different ranks are not copies of each other
            for a in range(P):
                for b in range(a):
                    if len(np.unique(cf[a], axis=0)) > 3:
                        mon.check("ranks-hold-different-samples", not (cf[a].shape == cf[b].shape and np.array_equal(cf[a], cf[b])), ranks=(a, b), **d)


def run(mon):
    mon.rule = ("case = (scenario, number of MPI ranks): random ansatz and parameters, the package's own samplers on every rank; the recorded draws of "
                "all ranks are tested against the exact distribution (direct sampling) or one process (Markov chains), for independence "
                "between ranks, and for statistics (acceptance, weights, energies, parameters) shared by all ranks.")
    mon.assumptions = ["statistical verdicts only at p < 1e-10", "equal numbers of chains per rank (NetKet's own rule)"]
    dist.drive(mon, "c32", cases(mon.thorough), (2, 3) if not mon.thorough else (2, 3, 4, 6), judge=judge)
    mon.require("ranks-draw-independently", 20)
    mon.require("pooled-distribution", 6)
    mon.require("same-distribution-as-one-process", 4)
    mon.require("identical-on-all-ranks", 40)
