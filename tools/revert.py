"""Undo each recorded repair in a scratch copy and see that the property's check reports it again:  tools/revert.py [commit ...]"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

V = Path(__file__).resolve().parent.parent
REPO = os.environ.get("VP_REPO", "/repo")
rows = [json.loads(x) for x in (V / "known_findings.jsonl").read_text().splitlines() if x.strip()]
todo = {}
for r in rows:
    if r.get("status") == "fixed" and (len(sys.argv) < 2 or r["commit"] in sys.argv[1:]):
        todo.setdefault((r["commit"], r["property"]), r)


def one(k):
    commit, prop = k
    d = f"/tmp/rev/{commit}_{prop}"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", REPO, d])
    subprocess.run("git checkout -q -- . && git clean -fdq src", shell=True, cwd=d)
    a = subprocess.run(f"git diff {commit} {commit}~1 | git apply --3way -", shell=True, cwd=d, capture_output=True, text=True)
    clean = a.returncode == 0 and not subprocess.run("git diff --name-only --diff-filter=U", shell=True, cwd=d, capture_output=True, text=True).stdout.strip()
    out = "conflict"
    if clean:
        c = subprocess.run([str(V / "bin/check"), prop], env={**os.environ, "VP_REPO": d, "VP_JOBS": "3"}, capture_output=True, text=True)
        out = {0: "MISSED", 1: "reported"}.get(c.returncode, f"error {c.returncode} {c.stderr[-300:]}")
    shutil.rmtree(d, ignore_errors=True)
    print(out, prop, commit, todo[k]["what"][:120], flush=True)


with ThreadPoolExecutor(int(os.environ.get("PL_JOBS", "2"))) as ex:
    list(ex.map(one, todo))
