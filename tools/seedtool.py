"""Maintain /verif/seeded: build patch.diff from (file, old, new) edits in a scratch copy of /repo and validate.

  seedtool.py make  <spec.py ...>    write seeded/<id>/ from SPECS entries
  seedtool.py check <id ...|all>     scratch copy: applies, build, stable tests, demo passes/fails
  seedtool.py catch <id ...|all>     apply to /repo, run the property's quick check, undo
"""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
HEAD = '''#!/bin/bash
# run with cwd = the repository
. /opt/vp/env.sh
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD" exec $PY "$here/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    for s in ns["SPECS"]:
        d = os.path.join(S, s["id"])
        os.makedirs(d, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="seed")
        diff = ""
        for f in sorted({e[0] for e in s["edits"]}):
            src = open(os.path.join("/repo", f)).read()
            new = src
            for g, old, rep in s["edits"]:
                if g == f:
                    assert new.count(old) == 1, (s["id"], f, new.count(old), old)
                    new = new.replace(old, rep)
            for side, text in (("a", src), ("b", new)):
                p = os.path.join(tmp, side, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w").write(text)
        r = sh("git diff --no-index a b", cwd=tmp)
        diff = r.stdout.replace("a/a/", "a/").replace("b/b/", "b/")
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(HEAD)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        shutil.rmtree(tmp)
        print("made", s["id"])


def ids(a):
    return sorted(os.listdir(S)) if a == ["all"] else a


def check(i):
    """The build script and the tests use /repo by name, so the patch is applied there and undone straight afterwards."""
    d = os.path.join(S, i)
    if sh("git -C /repo status --porcelain").stdout.strip():
        sys.exit("/repo not clean")
    r0 = sh(f"bash {d}/demo.sh", cwd="/repo")
    try:
        r = sh(f"git -C /repo apply {d}/patch.diff")
        if r.returncode:
            print(i, "DOES NOT APPLY", r.stderr); return
        b = sh("bash /opt/vp/build.sh")
        out = tempfile.mktemp(suffix=".json")
        t = sh(f"bash /opt/vp/test.sh {out}")
        res = json.load(open(out)) if os.path.exists(out) else {}
        base = json.load(open("/opt/vp/BASELINE.json"))
        r1 = sh(f"bash {d}/demo.sh", cwd="/repo")
    finally:
        sh("git -C /repo checkout -- .")
    stable = base.get("stable", base.get("passed", base)) if isinstance(base, dict) else base
    print(i, "build", b.returncode, "| tests:", t.stdout.strip().splitlines()[-1:], "| demo clean", r0.returncode, "patched", r1.returncode,
          "" if r0.returncode == 0 and r1.returncode != 0 and b.returncode == 0 else "  <<<<< INVALID " + (r0.stderr + r0.stdout)[-300:], flush=True)
    print("    demo says:", (r1.stdout.strip().splitlines() or r1.stderr.strip().splitlines() or [""])[-1][:200])
    return out


def catch(i):
    d = os.path.join(S, i)
    if sh("git -C /repo status --porcelain").stdout.strip():
        sys.exit("/repo not clean")
    pid = json.load(open(os.path.join(d, "meta.json")))["property"]
    t = time.time()
    try:
        r = sh(f"git -C /repo apply {d}/patch.diff")
        assert r.returncode == 0, r.stderr
        c = sh(f"bash {V}/check.sh {pid} quick", cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
    finally:
        sh("git -C /repo checkout -- .")
    v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
    first = [l for l in c.stdout.splitlines() if "violated:" in l][:1]
    print(i, pid, "rc", c.returncode, "CAUGHT" if c.returncode == 1 and v else "MISSED", f"{time.time() - t:.0f}s", (first or [""])[0][:220], flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        for p in sys.argv[2:]:
            make(p)
    else:
        for i in ids(sys.argv[2:]):
            (check if sys.argv[1] == "check" else catch)(i)
