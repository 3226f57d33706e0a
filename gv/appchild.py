"""Child process: runs one of the experiment programs of /repo/scripts, logs every optimisation step and dies at an injected point."""
import builtins
import hashlib
import io
import json
import os
import runpy
import sys

REPO = os.environ.get("GV_REPO", "/repo")


def main():
    spec = json.load(open(sys.argv[1]))
    real_open = builtins.open
    log = real_open(spec["log"], "a", buffering=1)

    def event(**kw):
        log.write(json.dumps(kw) + "\n")
        log.flush()

    def die(where):
        event(ev="killed", where=where)
        os._exit(17)

    for d in ("scripts/ARGPS", "scripts/cpd-backflow"):
        sys.path.insert(0, os.path.join(REPO, d))
    import warnings
    warnings.filterwarnings("ignore")
    import jax
    import numpy as np
    import netket as nk
    import GPSKet
    assert os.path.realpath(GPSKet.__file__).startswith(REPO + os.sep)
    from netket.driver.abstract_variational_driver import AbstractVariationalDriver as D

    def digest(tree):
        h = hashlib.sha1()
        for l in jax.tree_util.tree_leaves(tree):
            a = np.asarray(l)
            h.update(str((a.shape, a.dtype)).encode() + a.tobytes())
        return h.hexdigest()[:16]

    def state(dr):
        s = dict(step=int(dr.step_count), params=digest(dr.state.parameters), optimizer=digest(getattr(dr, "_optimizer_state", None)))
        for o in (dr, getattr(dr, "preconditioner", None)):
            e = getattr(o, "_ema", None)
            if e is not None:
                s["ema"] = digest(e)
        return s

    kill = spec.get("kill") or {}
    n = dict(adv=0)
    inner = D.advance

    def advance(self, *a, **kw):
        n["adv"] += 1
        event(ev="begin", **state(self))
        if kill.get("kind") == "begin" and n["adv"] == kill["n"]:
            die("before step")
        out = inner(self, *a, **kw)
        e = self.energy
        event(ev="end", mean=[float(np.real(e.mean)), float(np.imag(e.mean))], var=float(np.real(e.variance)), **state(self))
        if kill.get("kind") == "end" and n["adv"] == kill["n"]:
            die("after step")
        return out
    D.advance = advance

    # file effects inside the working directory
    work = os.path.realpath(spec["workdir"]) + os.sep
    hits = dict(write=0, rename=0)

    def inside(p):
        return isinstance(p, (str, os.PathLike)) and (os.path.realpath(p) + os.sep).startswith(work)

    class Half:
        """The first write stops half-way."""
        def __init__(self, f, p):
            self.f, self.p = f, p

        def write(self, data):
            self.f.write(data[:max(1, len(data) // 2)])
            self.f.flush()
            die("while writing " + os.path.basename(str(self.p)))

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return self.f.__exit__(*a)

        def __getattr__(self, name):
            return getattr(self.f, name)

    def opener(p, mode="r", *a, **kw):
        f = real_open(p, mode, *a, **kw)
        if kill.get("kind") in ("opened", "half") and any(c in mode for c in "wx") and inside(p) and kill["file"] in os.path.basename(str(p)):
            hits["write"] += 1
            if hits["write"] == kill["n"]:
                if kill["kind"] == "opened":
                    f.flush()
                    die("after opening " + os.path.basename(str(p)))
                return Half(f, p)
        return f
    builtins.open = io.open = opener

    def renaming(fn):
        def g(a, b, *x, **kw):
            hit = kill.get("kind") in ("unrenamed", "renamed") and inside(b) and kill["file"] in os.path.basename(str(b))
            if hit:
                hits["rename"] += 1
                hit = hits["rename"] == kill["n"]
            if hit and kill["kind"] == "unrenamed":
                die("before renaming to " + os.path.basename(str(b)))
            out = fn(a, b, *x, **kw)
            if hit:
                die("after renaming to " + os.path.basename(str(b)))
            return out
        return g
    os.replace, os.rename = renaming(os.replace), renaming(os.rename)

    sys.argv = [spec["module"]] + spec["argv"]
    event(ev="session")
    try:
        runpy.run_module(spec["module"], run_name="__main__", alter_sys=True)
        event(ev="exit", code=0)
    except SystemExit as e:
        event(ev="exit", code=int(e.code or 0))
    except BaseException:
        import traceback
        t = traceback.format_exc()
        event(ev="raised", text=t[-1500:])
        os._exit(1)
    os._exit(0)


if __name__ == "__main__":
    main()
