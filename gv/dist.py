"""Several processes: the same scenario executed by P MPI ranks, each with its share of the samples or data, and by one process
with all of them.  Every rank records what it computed; the recordings are compared afterwards (offline)."""
import hashlib
import importlib
import json
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

import numpy as np

from . import core

MPIRUN = shutil.which("mpirun") or "/usr/bin/mpirun"
IDLE = 180.0            # seconds without any progress of a rank before a job counts as stuck


def rng_of(seed, *labels):
    h = hashlib.sha256(repr((seed,) + labels).encode()).digest()
    return np.random.default_rng(np.frombuffer(h, dtype=np.uint32))


class Rec:
    """What one rank observed.  world: equal on all ranks and equal to the pooled run; same: equal on all ranks; share: the ranks'
    arrays joined along the first axis equal the pooled array; bag: weighted configurations, joined over the ranks; raw: kept."""
    def __init__(self):
        self.world, self.same, self.share, self.bag, self.raw, self.info = {}, {}, {}, {}, {}, {}

    @staticmethod
    def _np(v):
        import jax
        return [np.array(x) for x in jax.tree_util.tree_leaves(v)]

    def w(self, name, v, tol=1e-8):
        self.world[name] = (self._np(v), tol)

    def s(self, name, v):
        self.same[name] = self._np(v)

    def l(self, name, v, tol=1e-8):
        self.share[name] = (np.array(v), tol)

    def b(self, name, x, wt):
        self.bag[name] = (np.array(x), np.array(wt))

    def r(self, name, v):
        self.raw[name] = np.array(v)


def take(x, rank, P):
    """The chains of one rank."""
    c = len(x) // P
    return x[rank * c:(rank + 1) * c]


# ---- worker -----------------------------------------------------------------------------------
def worker():
    mod, seed, ids, out = sys.argv[2], int(sys.argv[3]), json.loads(sys.argv[4]), sys.argv[5]
    os.environ["GV_WORKER"] = "1"
    from mpi4py import MPI
    rank, P = MPI.COMM_WORLD.Get_rank(), MPI.COMM_WORLD.Get_size()
    tag = os.path.join(out, str(rank))
    try:
        m = importlib.import_module("gv." + mod)
        import GPSKet
        assert os.path.realpath(GPSKet.__file__).startswith(core.REPO + os.sep)
        for i in ids:
            open(f"{tag}.{i}.start", "w").close()
            rec = Rec()
            m.execute(rec, i, seed, rank, P)
            with open(f"{tag}.{i}.tmp", "wb") as f:
                pickle.dump(rec, f)
            os.replace(f"{tag}.{i}.tmp", f"{tag}.{i}.done")
        MPI.COMM_WORLD.Barrier()
    except BaseException:
        et, ev, tb = sys.exc_info()
        with open(f"{tag}.err.tmp", "w") as f:
            json.dump(dict(text=traceback.format_exc()[-3000:], repo=core.from_repo(tb), rank=rank), f)
        os.replace(f"{tag}.err.tmp", f"{tag}.err")
        MPI.COMM_WORLD.Abort(7)


# ---- jobs -------------------------------------------------------------------------------------
class Job:
    def __init__(self, mod, seed, ids, P):
        self.ids, self.P, self.t0 = list(ids), P, time.time()
        self.tmp = tempfile.mkdtemp(prefix="gvm", dir="/tmp")
        self.log = os.path.join(self.tmp, "log")
        env = dict(os.environ, TMPDIR=self.tmp, OMPI_MCA_btl="self,vader", OMPI_MCA_btl_vader_single_copy_mechanism="none",
                   OMPI_MCA_pml="ob1", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_rmaps_base_oversubscribe="1",
                   OMPI_MCA_mpi_yield_when_idle="1")
        env.pop("OMPI_MCA_ess_singleton_isolated", None)
        with open(self.log, "w") as f:
            self.p = subprocess.Popen([MPIRUN, "--oversubscribe", "--bind-to", "none", "-n", str(P), sys.executable, "-m", "gv.dist", "worker",
                                       mod, str(seed), json.dumps(self.ids), self.tmp],
                                      env=env, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)

    def marks(self):
        return [n for n in os.listdir(self.tmp) if n.split(".")[-1] in ("start", "done", "err")]

    def wait(self, idle=IDLE):
        """None when the job ended by itself, else "stuck"."""
        while self.p.poll() is None:
            t = max([self.t0] + [os.path.getmtime(os.path.join(self.tmp, n)) for n in self.marks()])
            if time.time() - t > idle:
                self.kill()
                return "stuck"
            time.sleep(0.1)
        return None

    def kill(self):
        for sig in (signal.SIGTERM, signal.SIGKILL):
            try:
                os.killpg(self.p.pid, sig)
            except ProcessLookupError:
                return
            for _ in range(30):
                if self.p.poll() is not None:
                    break
                time.sleep(0.1)

    def collect(self):
        """{scenario: [recording of rank 0, ...]} of the scenarios all ranks completed, and the scenario they were in at the end."""
        done, cur = {}, None
        for i in self.ids:
            f = [os.path.join(self.tmp, f"{r}.{i}.done") for r in range(self.P)]
            if all(os.path.exists(n) for n in f):
                done[i] = [pickle.load(open(n, "rb")) for n in f]
            elif cur is None and any(os.path.exists(os.path.join(self.tmp, f"{r}.{i}.start")) for r in range(self.P)):
                cur = i
        errs = [json.load(open(os.path.join(self.tmp, n))) for n in sorted(os.listdir(self.tmp)) if n.endswith(".err")]
        return done, cur, errs

    def close(self):
        self.kill()
        shutil.rmtree(self.tmp, ignore_errors=True)


def tail(path, n=1500):
    try:
        with open(path, errors="replace") as f:
            return f.read()[-n:]
    except OSError:
        return ""


def finish_job(mon, mod, job, desc):
    """Recordings of a job; a scenario that makes the processes fail or hang is repeated alone, then reported, and the rest is run."""
    got, left, again, tries = {}, list(job.ids), False, 0
    while True:
        state = job.wait(IDLE if not again else 120.0)
        rc = job.p.returncode
        done, cur, errs = job.collect()
        log = tail(job.log)
        job.close()
        got.update(done)
        left = [i for i in left if i not in got]
        if not left:
            if rc != 0 and state is None:
                mon.extra["jobs ending with an error after all results"] = mon.extra.get("jobs ending with an error after all results", 0) + 1
            return got
        tries += 1
        if cur is None or tries > 12:
            raise RuntimeError(f"mpirun -n {job.P} did not run the scenarios (code {rc}, {state}): {log} {errs}")
        own = [e for e in errs if e["repo"]]
        if errs and not own:
            raise RuntimeError(f"harness error on rank {errs[0]['rank']}: {errs[0]['text']}")
        if own or again:
            what = "raises-on-several-processes" if own else ("processes-stuck" if state else "processes-abort")
            mon.ctx = {"kind": "distributed", "case": dict(desc(cur), P=job.P)}
            mon.violate(what, dict(desc(cur), P=job.P, rank=own[0]["rank"] if own else None, error=own[0]["text"][-1500:] if own else log[-900:]))
            if state:
                raise core.StopCheck()        # every further job may hang as long
            left.remove(cur)
            again = False
            if not left:
                return got
            job = Job(mod, mon.seed, left, job.P)
        else:
            again = True                      # died without a Python error: once more from this scenario on
            job = Job(mod, mon.seed, [cur] + [i for i in left if i != cur], job.P)


# ---- comparison -------------------------------------------------------------------------------
def bagof(pairs):
    d = {}
    for x, w in pairs:
        for c, v in zip(x.reshape(-1, x.shape[-1]).tolist(), w.reshape(-1).tolist()):
            if v:
                d[tuple(c)] = d.get(tuple(c), 0.0) + v
    return d


def close(mon, kind, got, want, tol, **d):
    if got.shape == want.shape and got.dtype == want.dtype and np.array_equal(got, want, equal_nan=got.dtype.kind in "fc"):
        mon.seen(kind, max(1, got.size))
        return
    s = np.abs(want[np.isfinite(want)]).max() if want.size and np.isfinite(want).any() else 0.0
    mon.close(kind, got, want, rtol=0, atol=tol * (s + 1e-3), **d)


def compare(mon, i, d, recs, pooled):
    a = recs[0]
    names = [sorted(getattr(r, k)) for r in recs + ([pooled] if pooled else []) for k in ("world", "share", "bag")]
    assert all(names[k] == names[k % 3] for k in range(len(names))), names
    for n in a.world:
        for r, rec in enumerate(recs):
            v, tol = rec.world[n]
            for g, g0 in zip(v, a.world[n][0]):
                mon.check("equal-on-all-ranks", g.shape == g0.shape and np.allclose(g, g0, rtol=1e-9, atol=1e-12 * (1 + np.abs(g0).max(initial=0)), equal_nan=True),
                          quantity=n, rank=r, got=g.ravel()[:4], rank0=g0.ravel()[:4], **d)
            if pooled:
                tol = max(tol, pooled.info.get(n, 0.0))
                if tol > 1e-3:
                    mon.seen("not-judged-sensitive-to-rounding")
                    continue
                p = pooled.world[n][0]
                mon.check("same-structure", len(p) == len(v), quantity=n, rank=r, **d)
                for g, w in zip(v, p):
                    close(mon, "equal-to-pooled", g, w, tol, quantity=n, rank=r, **d)
    for n in a.same:
        for r, rec in enumerate(recs):
            for g, g0 in zip(rec.same[n], a.same[n]):
                mon.check("identical-on-all-ranks", g.shape == g0.shape and np.array_equal(g, g0), quantity=n, rank=r, got=g.ravel()[:4], rank0=g0.ravel()[:4], **d)
    for n in a.share:
        g = np.concatenate([r.share[n][0] for r in recs])
        close(mon, "shares-join-to-pooled", g, pooled.share[n][0], a.share[n][1], quantity=n, **d)
    for n in a.bag:
        g, w = bagof([r.bag[n] for r in recs]), bagof([pooled.bag[n]])
        err = max((abs(g.get(c, 0.0) - w.get(c, 0.0)) for c in set(g) | set(w)), default=0.0)
        mon.check("weighted-configurations-join-to-pooled", err < 1e-9, quantity=n, error=err, only_ranks=list(set(g) - set(w))[:2],
                  only_pooled=list(set(w) - set(g))[:2], **d)
    mon.extra["rank recordings compared"] = mon.extra.get("rank recordings compared", 0) + len(recs)


def drive(mon, mod, scenarios, sizes, pooled=True, judge=None, alternate=False):
    """scenarios: list of descriptions; mod.execute(rec, i, seed, rank, P) runs scenario i."""
    m = importlib.import_module("gv." + mod)
    mine = mon.mine(list(range(len(scenarios))))
    desc = lambda i: dict(scenario=i, **scenarios[i])
    if not mine:
        return
    # alternate: every scenario with one of the numbers of ranks only
    some = [[i for n, i in enumerate(mine) if not alternate or n % len(sizes) == k] for k in range(len(sizes))]
    jobs = [Job(mod, mon.seed, ids, P) for P, ids in zip(sizes, some) if ids]
    try:
        one = {}
        for i in mine if pooled else []:
            rec = Rec()
            try:
                m.execute(rec, i, mon.seed, 0, 1)
                one[i] = rec
            except Exception as e:
                if not core.from_repo(e.__traceback__):
                    raise
                mon.violate("pooled-run-raises", dict(desc(i), exception=traceback.format_exc()[-1500:]))
        for job in jobs:
            P = job.P
            got = finish_job(mon, mod, job, desc)
            for i, recs in sorted(got.items()):
                if pooled and i not in one:
                    continue
                d = dict(desc(i), P=P)
                mon.case("distributed", d, nontrivial=True)
                compare(mon, i, d, recs, one.get(i))
                if judge:
                    judge(mon, i, d, recs, one.get(i))
    finally:
        for job in jobs:
            job.close()


if __name__ == "__main__":
    import warnings
    warnings.filterwarnings("ignore")
    from gv import dist                # recordings are pickled as objects of the imported module
    dist.worker()
