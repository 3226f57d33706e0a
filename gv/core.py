"""Monitor core: verdicts, counters, replay files, evidence, known findings.

A check drives the real code and feeds what it observes to a `Monitor`.  The monitor is three-valued:
violated (exit 1 + VIOLATION line + replay file), held on what was observed (exit 0), inconclusive /
error of the check (exit 2: a required observation was never made, or the harness itself failed).
"""
import collections
import hashlib
import json
import os
import sys
import time
import traceback

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("GV_REPO", "/repo"))


class StopCheck(Exception):
    """Enough violations were collected."""


def _plain(v, depth=0):
    if isinstance(v, dict):
        return {str(k): _plain(w, depth + 1) for k, w in v.items()}
    if isinstance(v, (list, tuple)):
        return [_plain(w, depth + 1) for w in v]
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, (np.floating,)):
        return float(v)
    if isinstance(v, (complex, np.complexfloating)):
        return [float(np.real(v)), float(np.imag(v))]
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    if hasattr(v, "__array__"):
        a = np.asarray(v)
        if a.size > 400:
            return {"shape": list(a.shape), "dtype": str(a.dtype), "head": _plain(a.ravel()[:40].tolist())}
        return _plain(a.tolist())
    return repr(v)[:400]


def trim(obj, limit=6000):
    s = json.dumps(_plain(obj))
    return json.loads(s) if len(s) <= limit else s[:limit]


class Monitor:
    def __init__(self, pid, tier, seed, max_violations=12):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.events = collections.Counter()     # observation kind -> number of comparisons/assertions made
        self.required = {}
        self.distinct = set()
        self.evaluations = 0
        self.samples = []
        self.sample_kinds = collections.Counter()
        self.violations = []
        self.max_violations = max_violations
        self.maxerr = {}
        self.known_hits = collections.OrderedDict()
        self.extra = {}
        self.assumptions = []
        self.rule = ""
        self.ctx = {}
        path = os.path.join(ROOT, "known_findings.json")
        self.known = []
        if os.path.exists(path):
            self.known = [e for e in json.load(open(path))["findings"]
                          if e["property"] == pid and e["status"] == "known"]
        budget = os.environ.get("GV_BUDGET_S")
        self.budget = float(budget) if budget else (420.0 if tier == "quick" else 2400.0)

        self.shard = tuple(int(v) for v in os.environ.get("GV_SHARD", "0/1").split("/"))

    # ---- sharding: the cases of one check spread over several processes -----------------
    def mine(self, items):
        """The items of this process (all of them when the check runs in one process)."""
        i, n = self.shard
        return [v for k, v in enumerate(items) if k % n == i]

    def first_shard(self):
        return self.shard[0] == 0

    STATE = ("events", "required", "distinct", "evaluations", "samples", "sample_kinds", "violations", "maxerr",
             "known_hits", "extra", "assumptions", "rule")

    def dump(self, path, error):
        import pickle
        with open(path + ".tmp", "wb") as f:
            pickle.dump({"error": error, **{k: getattr(self, k) for k in self.STATE}}, f)
        os.replace(path + ".tmp", path)

    def merge(self, path):
        import pickle
        with open(path, "rb") as f:
            d = pickle.load(f)
        self.events.update(d["events"])
        self.sample_kinds.update(d["sample_kinds"])
        self.evaluations += d["evaluations"]
        self.distinct |= d["distinct"]
        self.samples = (self.samples + d["samples"])[:40]
        self.violations += d["violations"]
        for k, v in d["required"].items():
            self.require(k, v)
        for k, v in d["maxerr"].items():
            self.maxerr[k] = max(v, self.maxerr.get(k, 0.0))
        self.known_hits.update(d["known_hits"])
        for k, v in d["extra"].items():
            if isinstance(v, dict):
                t = self.extra.setdefault(k, {})
                for kk, vv in v.items():
                    t[kk] = t.get(kk, 0) + vv if isinstance(vv, (int, float)) else vv
            elif isinstance(v, (int, float)) and not isinstance(v, bool):
                self.extra[k] = self.extra.get(k, 0) + v
            else:
                self.extra[k] = v
        self.assumptions += [a for a in d["assumptions"] if a not in self.assumptions]
        self.rule = self.rule or d["rule"]
        return d["error"]

    # ---- workload bookkeeping -------------------------------------------------
    @property
    def thorough(self):
        return self.tier == "thorough"

    def elapsed(self):
        return time.time() - self.t0

    def time_left(self):
        return self.elapsed() < self.budget

    def rng(self, *labels):
        """A generator depending on VERIF_SEED and the labels only (not on call order)."""
        h = hashlib.sha256(repr((self.seed,) + labels).encode()).digest()
        return np.random.default_rng(np.frombuffer(h, dtype=np.uint32))

    def intseed(self, *labels):
        return int(self.rng(*labels).integers(0, 2**31 - 1))

    def case(self, kind, desc, nontrivial=True, weight=1):
        """Register one executed case; `desc` is JSON-able and identifies it."""
        self.evaluations += weight
        desc = _plain(desc)
        self.ctx = {"kind": kind, "case": desc}
        if nontrivial:
            self.distinct.add(kind + json.dumps(desc, sort_keys=True)[:2000])
        if self.sample_kinds[kind] < 2 and len(self.samples) < 40:
            self.samples.append({"kind": kind, "case": trim(desc, 1500)})
        self.sample_kinds[kind] += 1

    def require(self, kind, n=1):
        """The run is inconclusive unless `kind` was observed at least n times."""
        self.required[kind] = max(n, self.required.get(kind, 0))

    def seen(self, kind, n=1):
        self.events[kind] += n

    # ---- verdicts -------------------------------------------------------------
    def violate(self, mechanism, detail):
        for e in self.known:
            if e["mechanism"] == mechanism:
                self.known_hits.setdefault(mechanism, e)
                return
        self.violations.append({"mechanism": mechanism, "context": self.ctx, "detail": trim(detail)})
        print(f"[{self.pid}] violated: {mechanism}: {json.dumps(trim(detail, 900))[:900]}"
              f" in {json.dumps(trim(self.ctx, 600))[:600]}", flush=True, file=sys.__stdout__)
        if len(self.violations) >= self.max_violations:
            raise StopCheck()

    def check(self, kind, ok, /, **detail):
        self.events[kind] += 1
        if not bool(ok):
            self.violate(kind, detail)
            return False
        return True

    def close(self, kind, got, want, /, rtol=1e-8, atol=1e-9, **detail):
        """Assert numerical agreement (NaN-safe, shape-checked)."""
        got, want = np.asarray(got), np.asarray(want)
        self.events[kind] += max(1, int(want.size))
        if got.shape != want.shape:
            self.violate(kind, dict(detail, problem="shape", got=got.shape, want=want.shape))
            return False
        if got.size == 0:
            return True
        g, w = got.astype(np.complex128), want.astype(np.complex128)
        with np.errstate(all="ignore"):
            same = (g == w)
            err = np.where(same, 0.0, np.abs(g - w))
            bad = ~(same | (err <= atol + rtol * np.abs(w)))
            bad |= np.isnan(g) & ~np.isnan(w)
            fin = np.isfinite(err)
            if fin.any():
                rel = float(np.max(np.where(fin, err, 0.0) / ((atol / rtol if rtol else 1.0) + np.abs(np.where(np.isfinite(w), w, 1.0)))))
                self.maxerr[kind] = max(self.maxerr.get(kind, 0.0), rel)
        if bad.any():
            i = np.argwhere(bad)[0] if bad.ndim else ()
            i = tuple(int(k) for k in i)
            self.violate(kind, dict(detail, n_bad=int(bad.sum()), of=int(bad.size), index=i,
                                    got=g[i], want=w[i]))
            return False
        return True

    def guard(self, mechanism, **detail):
        """Context manager: an exception raised while the code under test runs is a violation."""
        return _Guard(self, mechanism, detail)

    # ---- end ------------------------------------------------------------------
    def finish(self, error=None):
        missing = {k: (self.events.get(k, 0), n) for k, n in self.required.items() if self.events.get(k, 0) < n}
        nv = len(self.violations)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        replay = None
        if nv:
            os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
            replay = os.path.join(ROOT, "evidence", "replay", f"{self.pid}-{self.tier}-{self.seed}.json")
            with open(replay, "w") as f:
                json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed,
                           "rerun": f"cd /verif && VERIF_SEED={self.seed} bash check.sh {self.pid} {self.tier}",
                           "violations": self.violations}, f, indent=1)
        cov = {
            "evaluations": int(self.evaluations),
            "distinct_nontrivial": len(self.distinct),
            "rule": self.rule,
            "samples": self.samples,
            "observed_events": {k: int(v) for k, v in sorted(self.events.items())},
            "max_relative_deviation": {k: float(f"{v:.3g}") for k, v in sorted(self.maxerr.items())},
            "cases_by_kind": {k: int(v) for k, v in sorted(self.sample_kinds.items())},
        }
        cov.update(_plain(self.extra))
        ev = {"property": self.pid, "tier": self.tier, "seed": int(self.seed), "level": "exploration",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(self.elapsed(), 2),
              "violations": nv, "known_findings_hit": list(self.known_hits)}
        if error:
            ev["error"] = error[-2000:]
        if missing:
            ev["inconclusive"] = {k: list(v) for k, v in missing.items()}
        with open(os.path.join(ROOT, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for m, e in self.known_hits.items():
            print(f"KNOWN-FINDING: property={self.pid} {e['what']}")
        print(f"[{self.pid}] {self.tier} seed={self.seed}: {self.evaluations} cases, {len(self.distinct)} distinct, "
              f"{sum(self.events.values())} observations, {nv} violations, {self.elapsed():.1f}s")
        if nv:
            print(f"VIOLATION property={self.pid} replay={replay}")
            return 1
        if error:
            print(f"ERROR property={self.pid}: {error[-1500:]}", file=sys.stderr)
            return 2
        if missing:
            print(f"INCONCLUSIVE property={self.pid}: never observed {missing}")
            return 2
        return 0


def from_repo(tb):
    """True when any frame of the traceback executes a file of the repository under test."""
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(REPO + os.sep):
            return True
    return False


class _Guard:
    def __init__(self, mon, mechanism, detail):
        self.mon, self.mechanism, self.detail = mon, mechanism, detail

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None or issubclass(et, (StopCheck, KeyboardInterrupt, SystemExit, MemoryError)):
            return False
        if getattr(ev, "_gv_harness", False):
            return False
        text = "".join(traceback.format_exception(et, ev, tb))
        if os.environ.get("GV_DEBUG"):
            print(text)
        self.mon.violate(self.mechanism, dict(self.detail, exception=f"{et.__name__}: {ev}"[:800],
                                              frames=[f"{f.filename}:{f.lineno}:{f.name}" for f in traceback.extract_tb(tb)
                                                      if REPO in f.filename or "/gv/" in f.filename][-6:]))
        return True
