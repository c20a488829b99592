"""Plant bugs in scratch copies of /repo:  tools/plant.py [-n] [-t] FILE.py | ids ...

FILE.py calls seed(id, property, edits, needs, breaks, demo).  For each seed: a scratch copy of /repo gets the edits, the patch
and demo are written to /verif/seeded/<id>/, the demo is run on both trees, the property's quick check on the patched one, and
(with -t) the repository's tests.  Results go to /verif/.build/plant/<id>.json.
"""
import hashlib, json, os, subprocess, sys, textwrap, shutil
from concurrent.futures import ThreadPoolExecutor

BASE = "134f555"
SEEDED = "/verif/seeded"
OUT = "/verif/.build/plant"
SEEDS = []
HEAD = """import os, sys, warnings
warnings.filterwarnings("ignore")
os.environ.setdefault("TQDM_DISABLE", "1")
"""
SH = """#!/bin/bash
# exit 0: the property holds in this example; 1: it is broken
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg RAY_USAGE_STATS_ENABLED=0 PYTHONPATH="$PWD/src" OMP_NUM_THREADS=2 PYTHONHASHSEED=0
exec timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""

def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=textwrap.dedent(demo)))

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)

def copy(dst):
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    sh(f"cp -a /repo/. {dst}/")

def run_one(s, check=True, tier="quick"):
    d = f"/tmp/pl_{s['id']}"; copy(d)
    sd = f"{SEEDED}/{s['id']}"
    os.makedirs(sd, exist_ok=True)
    r = {"id": s["id"], "property": s["prop"]}
    try:
        for f, old, new in s["edits"]:
            p = f"{d}/src/rxn_network/{f}"; t = open(p).read()
            if t.count(old) != 1:
                r["error"] = f"{f}: {t.count(old)} occurrences of {old[:60]!r}"; return r
            at = t[:t.index(old)].count("\n") + 1
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", cwd=d).stdout
        open(f"{sd}/patch.diff", "w").write(diff)
        open(f"{sd}/demo.py", "w").write(HEAD + s["demo"])
        if "fakeray" in s["demo"]: shutil.copy("/verif/vp/fakeray.py", sd)
        open(f"{sd}/demo.sh", "w").write(SH); os.chmod(f"{sd}/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{sd}/meta.json", "w"), indent=1)
        # which lines it removes: original ones?
        cur = None; ln = 0; orig = 0; mine = 0
        for line in diff.split("\n"):
            if line.startswith("--- a/"): cur = line[6:]
            elif line.startswith("@@"): ln = int(line.split()[1][1:].split(",")[0])
            elif line.startswith("-"):
                b = sh(f"git blame -s -L {ln},{ln} HEAD -- {cur}", cwd=d).stdout
                if b.startswith("^") or sh(f"git merge-base --is-ancestor {b.split()[0].lstrip('^')} {BASE}", cwd=d).returncode == 0: orig += 1
                else: mine += 1
                ln += 1
            elif line.startswith(" "): ln += 1
        r["lines"] = f"{orig} original, {mine} of fixes"
        if orig == 0 or mine: r["warn"] = "touches lines of fixes" if mine else "no original line removed"
        a = sh(f"bash {sd}/demo.sh", cwd="/repo"); b = sh(f"bash {sd}/demo.sh", cwd=d)
        r["demo_clean"], r["demo_patched"] = a.returncode, b.returncode
        if a.returncode: r["clean_out"] = (a.stdout + a.stderr)[-1500:]
        r["patched_out"] = (b.stdout + b.stderr)[-400:]
        if check:
            c = sh(f"/verif/bin/check {s['prop']} --tier {tier}", env={**os.environ, "VP_REPO": d, "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VP_JOBS": os.environ.get("VP_JOBS", "4")})
            r["check"] = c.returncode
            r["viol"] = [l for l in c.stdout.split("\n") if l.startswith("VIOLATION")][:2]
            if c.returncode not in (0, 1): r["check_out"] = (c.stdout + c.stderr)[-1500:]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return r

def tests(s):
    h = hashlib.md5(s.encode()).hexdigest()[:4]
    d, rt = f"/tmp/plt{h}", f"/tmp/r{h}"; copy(d)
    try:
        p = sh(f"git apply {SEEDED}/{s}/patch.diff", cwd=d)
        if p.returncode: return "patch does not apply: " + p.stderr
        shutil.rmtree(rt, ignore_errors=True); os.makedirs(rt)
        env = {**os.environ, "PATH": "/opt/venv/bin:" + os.environ["PATH"], "PYTHONPATH": f"{d}/src", "RAY_TMPDIR": rt, "PYTHONDONTWRITEBYTECODE": "1",
               "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "RAY_USAGE_STATS_ENABLED": "0"}
        env.pop("MP_API_KEY", None)
        # a network and process namespace of its own: Ray clusters of parallel runs do not see each other
        o = sh(["unshare", "-Urnmpf", "--kill-child", "--mount-proc", "bash", "-c", "ip link set lo up; exec timeout 800 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 0 --timeout=180 --continue-on-collection-errors tests"], cwd=d, env=env).stdout
        bad = [l for l in o.split("\n") if l.startswith(("FAILED", "ERROR"))]
        bad = [l for l in bad if "test_entry_job" not in l]
        return "ok" if "286 passed" in o and not bad else "; ".join(bad)[:800] or o[-500:]
    finally:
        shutil.rmtree(d, ignore_errors=True); shutil.rmtree(rt, ignore_errors=True)

def main():
    args = sys.argv[1:]
    os.makedirs(OUT, exist_ok=True)
    flags = [a for a in args if a.startswith("-")]; args = [a for a in args if not a.startswith("-")]
    only = [a for a in args if not a.endswith(".py")]
    for f in [a for a in args if a.endswith(".py")]:
        exec(compile(open(f).read(), f, "exec"), {"seed": seed})
    if "-t" in flags and not SEEDS:   # tests of kept seeds by id
        with ThreadPoolExecutor(int(os.environ.get("PL_JOBS", "3"))) as ex:
          for i, res in zip(only, ex.map(tests, only)):
            print(i, res, flush=True)
            p = f"{OUT}/{i}.json"; r = json.load(open(p)) if os.path.exists(p) else {"id": i}; r["tests"] = res; json.dump(r, open(p, "w"), indent=1)
        return
    todo = [s for s in SEEDS if not only or s["id"] in only]
    if "-m" in flags: todo = [s for s in todo if not os.path.exists(f"{OUT}/{s['id']}.json")]
    with ThreadPoolExecutor(int(os.environ.get("PL_JOBS", "3"))) as ex:
        for s, r in zip(todo, ex.map(lambda s: run_one(s, check="-n" not in flags), todo)):
            p = f"{OUT}/{r['id']}.json"; old = json.load(open(p)) if os.path.exists(p) else {}
            if "tests" in old: r["tests"] = old["tests"]
            json.dump(r, open(p, "w"), indent=1)
            ok = r.get("demo_clean") == 0 and r.get("demo_patched")
            print(r["id"], "demo", "ok" if ok else "BAD", "check", {0: "MISSED", 1: "caught"}.get(r.get("check"), r.get("check")), r.get("warn", ""), r.get("error", ""), flush=True)
            if not ok: print(r.get("clean_out", ""), r.get("patched_out", ""))
            if r.get("check_out"): print(r["check_out"])
main()
