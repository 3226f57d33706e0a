"""C33  Experiment programs killed at injected points and restarted: the event log of all sessions against the trace specification."""
import csv
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import numpy as np
import yaml
from flax import serialization
from . import core

SHARDS = 7
HERE = os.path.dirname(os.path.abspath(__file__))


def config(rng, app, k):
    T = int(rng.integers(3, 6))
    every = int(rng.choice([1, 2, 3]))
    if app == "argps":
        kind = ("ARGPS", "GPS", "ARFilterGPS", "MaskedGPS")[k % 4]
        c = dict(max_steps=T, checkpoint_every=every, progress_every=1)
        c.update({"system.Lx": 2, "system.Ly": 2, "variational_state.n_samples": 32, "model.dtype": str(rng.choice(["real", "complex"]))})
        c["optimizer.mode"] = c["model.dtype"]
        return f"argps/configs/heisenberg2d.py:{kind}", c, T, 0, dict(model=kind)
    F = int(rng.integers(1, 4))
    opt = ("SRRMSProp", "kernelSR", "SR")[k % 3]
    c = dict(total_steps=T, checkpoint_every=every, progress_every=2, optimizer_name=opt)
    c.update({"system.Lx": 2, "system.Ly": 2, "system.n_elec": "(2, 1)", "variational_state.n_samples": 32, "variational_state.n_discard_per_chain": 1,
              "descent_finishing.total_steps": F, "evaluate.total_steps": 2, "evaluate.n_samples": 32})
    return "cpd_backflow/configs/fermi_hubbard.py", c, T, F, dict(optimizer=opt)


class Run:
    """Sessions of one experiment in a scratch working directory."""
    def __init__(self, app, cfg, opts):
        self.app, self.cfg, self.opts = app, cfg, opts
        self.top = tempfile.mkdtemp(prefix="gvapp", dir="/tmp")
        self.work = os.path.join(self.top, "run")
        self.n = 0

    def session(self, kill, fresh, extra=()):
        self.n += 1
        log = os.path.join(self.top, f"log{self.n}")
        base = os.path.join(core.REPO, "scripts", "ARGPS" if self.app == "argps" else "cpd-backflow")
        argv = [f"--workdir={self.work}"]
        if fresh:
            argv += [f"--config={os.path.join(base, self.cfg)}"] + [f"--config.{a}={b}" for a, b in self.opts.items()]
        spec = os.path.join(self.top, f"spec{self.n}")
        json.dump(dict(log=log, workdir=self.work, module=("argps" if self.app == "argps" else "cpd_backflow") + ".vmc", argv=argv + list(extra), kill=kill), open(spec, "w"))
        out = os.path.join(self.top, f"out{self.n}")
        with open(out, "w") as f:
            p = subprocess.Popen([sys.executable, os.path.join(HERE, "appchild.py"), spec], cwd=base, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                                 env=dict(os.environ, JAX_COMPILATION_CACHE_DIR=os.path.join(self.top, "cache"), JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS="0"))
            try:
                rc = p.wait(300)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = "timeout"
        ev = [json.loads(l) for l in open(log)] if os.path.exists(log) else []
        return rc, ev, open(out, errors="replace").read()[-1500:]

    def checkpoints(self):
        d = os.path.join(self.work, "checkpoints")
        if not os.path.isdir(d):
            return []
        return sorted(int(n[11:]) for n in os.listdir(d) if n.startswith("checkpoint_") and n[11:].isdigit())

    def rows(self, name):
        p = os.path.join(self.work, name)
        return list(csv.DictReader(open(p))) if os.path.exists(p) else []

    def best(self):
        p = os.path.join(self.work, "best_params.mpack")
        return serialization.msgpack_restore(open(p, "rb").read()) if os.path.exists(p) else None

    def close(self):
        shutil.rmtree(self.top, ignore_errors=True)


def kills(rng, app, T, F, every, i):
    """Injection points by turns; n counts steps or writes of the session."""
    total = T + F
    n = int(rng.integers(1, max(2, min(3, total // every + 1))))
    menu = [dict(kind="end", n=int(rng.integers(1, total + 1))), dict(kind="renamed", file="checkpoint", n=n), dict(kind="half", file="checkpoint", n=n),
            dict(kind="begin", n=int(rng.integers(1, total + 1))), dict(kind="unrenamed", file="checkpoint", n=n)]
    if app == "cpd":
        menu += [dict(kind="begin", n=T), dict(kind="begin", n=T + 1), dict(kind="end", n=int(rng.integers(T, total + 1))),
                 dict(kind=str(rng.choice(["opened", "half"])), file="best_params", n=int(rng.integers(1, 3)))]
    return menu[i % len(menu)]


def same(a, b):
    return all(a.get(x) == b.get(x) for x in ("params", "optimizer", "ema"))


def scenario(mon, app, k):
    rng = mon.rng("run", app, k)
    cfg, opts, T, F, d = config(rng, app, k)
    every, total = opts["checkpoint_every"], T + F
    first = kills(rng, app, T, F, every, k)
    second = [None, dict(kind="half", file="config", n=1), dict(kind="opened", file="config", n=1), dict(kind="end", n=1), dict(kind="end", n=2)][int(rng.integers(5))]
    plan = [first] + ([second] if second else []) + [None]
    ctx = dict(program=app, length=T, finishing=F, checkpoint_every=every, kills=plan[:-1], k=k, **d)
    mon.case("interrupted-run", ctx, nontrivial=True)
    r = Run(app, cfg, opts)
    try:
        done = {}                   # step -> state after it in the last session that made it
        conf0, best_e, steps_seen = None, np.inf, []
        for s, kill in enumerate(plan):
            before = r.checkpoints()
            rc, ev, out = r.session(kill, s == 0)
            who = dict(ctx, session=s, output=out[-700:] if rc not in (0, 17) else "")
            if rc == "timeout" or not any(e["ev"] == "session" for e in ev):
                raise RuntimeError(f"session did not run: {rc} {out}")
            raised = [e for e in ev if e["ev"] == "raised"]
            if not mon.check("session-runs", not raised and rc in (0, 17), error=raised[0]["text"][-900:] if raised else None, code=rc, **who):
                return
            begins, ends = [e for e in ev if e["ev"] == "begin"], [e for e in ev if e["ev"] == "end"]
            c = before[-1] if before else 0
            # a session starts from the last complete checkpoint and nothing else
            if begins:
                mon.check("continues-at-last-checkpoint", begins[0]["step"] == c, step=begins[0]["step"], checkpoint=c, **who)
                if c in done:
                    b = {x: begins[0].get(x) for x in ("params", "optimizer", "ema")}
                    w = {x: done[c].get(x) for x in ("params", "optimizer", "ema")}
                    if c == T and F:            # the finishing phase starts with a new optimiser
                        b.pop("optimizer"), w.pop("optimizer")
                    mon.check("restores-the-whole-state", b == w, restored=b, saved=w, **who)
            # steps follow each other without gap or repetition
            for a, b in zip([dict(step=begins[0]["step"])] + ends if begins else [], ends):
                mon.check("steps-in-order", b["step"] == a["step"] + 1, before=a["step"], after=b["step"], **who)
            for e in ends:
                done[e["step"]] = e
            mon.seen("steps", len(ends))
            if rc == 17:
                mon.seen("kills")
            steps_seen += [e["step"] for e in ends]
            # the configuration of the experiment stays what it was
            p = os.path.join(r.work, "config.yaml")
            if begins and os.path.exists(p):
                conf = yaml.safe_load(open(p))
                conf0 = conf if conf0 is None else conf0
                mon.check("configuration-kept", conf == conf0, first=str(conf0)[:200], now=str(conf)[:200], **who)
            if app == "cpd":
                try:
                    b = r.best()
                except Exception as e:
                    b = None
                    mon.check("best-parameters-readable", False, error=str(e)[:200], **who)
                if b is not None:
                    mon.seen("best-parameters-readable")
                    e = float(np.real(b["Energy"]))
                    mon.check("best-energy-never-lost", e <= best_e + 1e-12, stored=e, earlier=best_e, **who)
                    best_e = e
                    mon.check("best-energy-of-a-step", any(abs(e - q["mean"][0]) < 1e-9 * (1 + abs(e)) for q in done.values()) or s > 0, stored=e, **who)
            if rc == 0:
                got = sorted(set(e["step"] for e in ends))
                mon.check("completes-all-steps", (ends[-1]["step"] if ends else c) == total, last=ends[-1]["step"] if ends else c, want=total, steps=got, **who)
                mon.check("final-checkpoint", r.checkpoints()[-1:] == [total], checkpoints=r.checkpoints(), **who)
                rows = r.rows("metrics.csv")
                last = {int(q["Step"]): q for q in rows}
                mon.check("every-step-logged", set(range(1, total + 1)) <= set(last) and max(last) == total, logged=sorted(last), **who)
                for e in ends:
                    q = last.get(e["step"])
                    if q:
                        m = complex(q["Mean"])
                        mon.check("log-holds-the-energy-of-the-step", abs(m.real - e["mean"][0]) < 1e-9 * (1 + abs(m)) and abs(float(q["Variance"]) - e["var"]) < 1e-9 * (1 + e["var"]),
                                  step=e["step"], logged=str(m), energy=e["mean"], **who)
                if app == "cpd":
                    mon.check("evaluations-logged", [int(q["Step"]) for q in r.rows("evals.csv")][-2:] == [1, 2], **who)
                break
        else:
            return
        # a finished experiment is not continued
        if k % 3 == 0:
            rc, ev, out = r.session(None, False)
            mon.check("finished-run-stays-finished", rc == 0 and not any(e["ev"] == "begin" for e in ev) and r.checkpoints()[-1:] == [total],
                      code=rc, steps=[e["step"] for e in ev if e["ev"] == "end"], output=out[-500:] if rc else "", **ctx)
    finally:
        r.close()


def run(mon):
    mon.rule = ("case = (program, configuration, sequence of injected kills): the programs of scripts/ARGPS and scripts/cpd-backflow run as processes "
                "killed before or after a chosen step, in the middle of writing a file, or around a rename, and restarted with the documented command; "
                "the logs of all sessions, checkpoints, metrics and best parameters are checked against the trace specification.")
    mon.assumptions = ["kills are process exits at Python-level file operations (no lost page cache)", "samples drawn after a restart are new random numbers (the sampler state is not part of checkpoints)",
                       "steps between the last checkpoint and the kill are made again and logged again"]
    n = 14 if not mon.thorough else 180
    todo = [("argps", j // 3) if j % 3 == 1 else ("cpd", j - (j + 1) // 3) for j in range(n)]
    for app, k in mon.mine(todo):
        if not mon.time_left():
            break
        scenario(mon, app, k)
    mon.require("steps", 20)
    mon.require("kills", 6)
    mon.require("continues-at-last-checkpoint", 6)
