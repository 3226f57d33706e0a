import importlib
import os
import re
import subprocess
import sys
import tempfile
import traceback
import warnings

warnings.filterwarnings("ignore")
from . import core


def shards_of(pid):
    with open(os.path.join(core.ROOT, "gv", pid.lower() + ".py")) as f:
        m = re.search(r"^SHARDS = (\d+)", f.read(), re.M)
    return int(m.group(1)) if m else 1


def run_here(mon, pid):
    try:
        mod = importlib.import_module("gv." + pid.lower())
        import GPSKet
        assert os.path.realpath(GPSKet.__file__).startswith(core.REPO + os.sep), GPSKet.__file__
        mod.run(mon)
    except core.StopCheck:
        pass
    except Exception:
        et, ev, tb = sys.exc_info()
        text = traceback.format_exc()
        if not core.from_repo(tb):
            return text
        try:
            mon.violate("unexpected-exception", {"exception": text[-2500:]})
        except core.StopCheck:
            pass
    return None


def run_sharded(mon, pid, n):
    """One process per shard; their observations are merged into one verdict."""
    errors = []
    with tempfile.TemporaryDirectory(prefix="gv_shards_") as tmp:
        procs = []
        for i in range(n):
            out = os.path.join(tmp, str(i))
            env = dict(os.environ, GV_SHARD=f"{i}/{n}", GV_SHARD_OUT=out)
            procs.append((i, out, subprocess.Popen([sys.executable, "-m", "gv.run", pid], env=env)))
        for i, out, p in procs:
            rc = p.wait()
            if os.path.exists(out):
                err = mon.merge(out)
                if err:
                    errors.append(err)
            else:
                errors.append(f"shard {i} ended with code {rc} without a report")
    return "\n".join(errors) or None


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mon = core.Monitor(pid, tier, seed)
    n = shards_of(pid)
    out = os.environ.get("GV_SHARD_OUT")
    if out:
        mon.dump(out, run_here(mon, pid))
        rc = 0
    else:
        rc = mon.finish(run_here(mon, pid) if n == 1 else run_sharded(mon, pid, n))
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


main()
