"""Development tool: verifies the planted bugs of seeded/ in scratch worktrees of /repo.

  seeded.py tests ID..    patch applies, touches only original lines, demo passes without / fails with it, tests pass
  seeded.py catch ID..    runs the property's quick check (or --prop Cxx) against the patched worktree
No registered check uses this file.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEED = os.path.join(HERE, "..", "seeded")
BASE = "a08b513"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", JAX_PLATFORMS="cpu", MPLBACKEND="Agg",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def sh(cmd, cwd=None, env=None, timeout=1200):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout)
    return p.returncode, p.stdout


def worktree():
    d = tempfile.mkdtemp(prefix="pysadseed_")
    rc, out = sh(["bash", "-c", "git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q . && git add -A && "
                  "git -c user.name=a -c user.email=a@a commit -qm x" % (d, d)])
    assert rc == 0, out
    return d


def original_lines_only(bid):
    """removed lines of the patch must come from the base commit"""
    fixes = set(subprocess.run(["git", "-C", "/repo", "log", "--format=%H", BASE + "..HEAD"], capture_output=True,
                               text=True).stdout.split())
    patch = open(os.path.join(SEED, bid, "patch.diff")).read()
    bad, removed = [], 0
    cur, ln = None, 0
    for line in patch.splitlines():
        if line.startswith("--- "):
            cur = line[6:]
            blame = subprocess.run(["git", "-C", "/repo", "blame", "-l", "-s", "HEAD", "--", cur], capture_output=True,
                                   text=True).stdout.splitlines()
        elif line.startswith("@@"):
            ln = int(re.match(r"@@ -(\d+)", line).group(1))
        elif line.startswith("-"):
            removed += 1
            if blame[ln - 1].split()[0].lstrip("^") in fixes:
                bad.append((cur, ln))
            ln += 1
        elif line.startswith(" ") or line == "":
            ln += 1
    return removed, bad


def demo(bid, wt):
    d = tempfile.mkdtemp(prefix="pysaddemo_")
    for f in os.listdir(os.path.join(SEED, bid)):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            shutil.copy(os.path.join(SEED, bid, f), d)
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG")}
    try:
        rc, out = sh(["bash", os.path.join(d, "demo.sh")], cwd=wt, env=env, timeout=300)
    finally:
        shutil.rmtree(d)
    return rc, out


def tests(bid):
    r = {"id": bid}
    wt = worktree()
    try:
        r["clean_demo"], o1 = demo(bid, wt)
        rc, out = sh(["git", "apply", "--check", os.path.join(SEED, bid, "patch.diff")], cwd=wt)
        if rc:
            r["apply"] = out
            return r
        sh(["git", "apply", os.path.join(SEED, bid, "patch.diff")], cwd=wt)
        r["removed"], r["bad_lines"] = original_lines_only(bid)
        r["bug_demo"], o2 = demo(bid, wt)
        r["demo_out"] = (o1[-600:] if r["clean_demo"] else "") + "|" + o2[-300:]
        rc, out = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=300", "tests"], cwd=wt)
        r["tests"] = rc
        r["tests_out"] = out[-1500:] if rc else out.strip().splitlines()[-1]
    finally:
        shutil.rmtree(wt)
    r["ok"] = r["clean_demo"] == 0 and r["bug_demo"] not in (0,) and r["tests"] == 0 and not r["bad_lines"] and r["removed"] > 0
    return r


def catch(bid, props=None, seeds=("1",)):
    wt = worktree()
    out = {}
    try:
        sh(["git", "apply", os.path.join(SEED, bid, "patch.diff")], cwd=wt)
        props = props or [json.load(open(os.path.join(SEED, bid, "meta.json")))["property"]]
        for p in props:
            for s in seeds:
                rc, o = sh([os.path.join(HERE, "..", "run.sh"), p, "quick"],
                           env=dict(ENV, PYSADMON_REPO=wt, VERIF_SEED=s, PYSADMON_JOBS="8"))
                out[p + ":" + s] = (rc, [l for l in o.splitlines() if l.startswith("  ")][:2] or o[-300:])
    finally:
        shutil.rmtree(wt)
    return out


if __name__ == "__main__":
    cmd, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("--")]
    opts = [a for a in sys.argv[2:] if a.startswith("--")]
    ids = ids or sorted(os.listdir(SEED))
    if cmd == "tests":
        with cf.ThreadPoolExecutor(int(os.environ.get("SEEDED_JOBS", "8"))) as ex:
            for r in ex.map(tests, ids):
                if r.get("ok"):
                    print("OK  ", r["id"], r["tests_out"])
                else:
                    print("BAD ", json.dumps(r, indent=1))
                sys.stdout.flush()
    else:
        props, seeds = None, ("1",)
        for o in opts:
            if o.startswith("--prop="):
                props = o[7:].split(",")
            if o.startswith("--seeds="):
                seeds = o[8:].split(",")
        for b in ids:
            for k, (rc, o) in catch(b, props, seeds).items():
                print("CAUGHT" if rc == 1 else "MISSED rc=%d" % rc, b, k, o if rc else "")
                sys.stdout.flush()
