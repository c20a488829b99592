"""Runner shared by all checks: drives facets with Hypothesis, shrinks, replays, writes evidence.

A check module (checks/<ID>.py) defines
    PROPERTY = "B01"
    RULE = "..."                      # what is generated, what counts as non-trivial
    FACETS = [Facet(name, strategy, fn, quick=N, thorough=M), ...]
where `strategy` yields JSON-serialisable plain data and `fn(case, rec)` builds real objects from it, runs the code under
test and raises (any exception) when the property does not hold.  `rec` collects what the case exercised.
"""
from __future__ import annotations

import argparse
import hashlib
import importlib
import io
import json
import logging
import os
import signal
import sys
import time
import traceback
from contextlib import redirect_stdout
from dataclasses import dataclass, field
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VP_REPO", "/repo"))


class Violation(AssertionError):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """Something is wrong with the check itself, not with the code under test."""


def ensure(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


@dataclass
class Rec:
    labels: dict = field(default_factory=dict)
    is_nontrivial: bool = False
    note_obj: object = None

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True


@dataclass
class Facet:
    name: str
    strategy: object  # SearchStrategy, or callable returning one, or None for a deterministic enumeration
    fn: object
    quick: int = 100
    thorough: int = 2000
    cases: object = None  # callable(tier) -> iterable of plain cases, for enumerated facets
    shards: int = 1
    real_ray: bool = False
    tiers: tuple = ("quick", "thorough")
    case_limit: int = 240


class _Alarm(Exception):
    pass


def _on_alarm(signum, frame):
    raise Violation("no answer within the per-case limit (normal cases take milliseconds to seconds)")


def _canon(case):
    return json.dumps(case, sort_keys=True, default=str)


def run_facet(mod_name, facet_name, tier, seed, shard, budget_s, replay=None):
    """Runs in a worker process.  Returns a result dict."""
    t0 = time.time()
    mod = importlib.import_module(mod_name)
    facet = next(f for f in mod.FACETS if f.name == facet_name)
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    res = dict(facet=facet_name, shard=shard, evaluations=0, nontrivial=[], labels={}, samples=[], skipped=0,
               violation=None, error=None, wall=0.0)
    seen = set()
    last_fail = {}

    signal.signal(signal.SIGALRM, _on_alarm)

    def reset_world():
        fr = sys.modules.get("vp.fakeray")
        if fr is not None:
            fr.S.reset()

    def one(case, counting=True):
        rec = Rec()
        reset_world()
        signal.alarm(facet.case_limit)
        try:
            with redirect_stdout(io.StringIO()):
                facet.fn(case, rec)
        finally:
            signal.alarm(0)
            if counting:
                res["evaluations"] += 1
                for k, v in rec.labels.items():
                    res["labels"][k] = res["labels"].get(k, 0) + v
                if rec.is_nontrivial:
                    h = hashlib.sha1(_canon(case).encode()).hexdigest()[:16]
                    if h not in seen:
                        seen.add(h)
                        if len(res["samples"]) < 2:
                            res["samples"].append(case)
        return rec

    def record_failure(case, e):
        last_fail["case"] = case
        last_fail["exc"] = e
        last_fail["tb"] = traceback.format_exc(limit=12)

    from hypothesis.errors import Unsatisfiable, UnsatisfiedAssumption, FailedHealthCheck, Flaky, StopTest, Frozen

    HYP_INTERNAL = (UnsatisfiedAssumption, StopTest, Frozen)

    try:
        if replay is not None:
            try:
                one(replay)
            except HarnessError:
                raise
            except Exception as e:  # noqa: BLE001
                record_failure(replay, e)
        elif facet.cases is not None:
            for n, case in enumerate(facet.cases(tier)):
                if n % facet.shards != shard:
                    continue
                if time.time() - t0 > budget_s:
                    res["skipped"] += 1
                    continue
                try:
                    one(case)
                except HarnessError:
                    raise
                except Exception as e:  # noqa: BLE001
                    record_failure(case, e)
                    break
        else:
            strat = facet.strategy() if callable(facet.strategy) and not hasattr(facet.strategy, "example") else facet.strategy
            n_ex = facet.quick if tier == "quick" else facet.thorough
            n_ex = max(1, n_ex // facet.shards)
            fail_state = {"t_first": None}

            def body(case):
                now = time.time()
                if fail_state["t_first"] is None and now - t0 > budget_s:
                    res["skipped"] += 1
                    return
                if fail_state["t_first"] is not None and now - fail_state["t_first"] > 90:
                    # stop shrinking: only the best failure so far still fails
                    if _canon(case) == _canon(last_fail["case"]):
                        raise last_fail["exc"]
                    return
                try:
                    one(case, counting=fail_state["t_first"] is None)
                except (HarnessError, *HYP_INTERNAL):
                    raise
                except MemoryError:
                    raise
                except Exception as e:
                    if fail_state["t_first"] is None:
                        fail_state["t_first"] = now
                    record_failure(case, e)
                    raise

            wrapped = given(strat)(body)
            wrapped = settings(
                max_examples=n_ex, database=None, deadline=None, derandomize=False, print_blob=False,
                report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                phases=(Phase.generate, Phase.shrink), verbosity=hypothesis.Verbosity.quiet,
            )(wrapped)
            wrapped = hypothesis.seed(seed * 1000 + shard)(wrapped)
            try:
                wrapped()
            except (HarnessError, Unsatisfiable, FailedHealthCheck):
                raise
            except Flaky:
                if not last_fail:
                    raise
            except Exception:  # noqa: BLE001
                if not last_fail:
                    raise
    except Exception:  # noqa: BLE001
        if not last_fail:
            res["error"] = traceback.format_exc()
    if last_fail:
        e = last_fail["exc"]
        res["violation"] = dict(case=last_fail["case"], message=f"{type(e).__name__}: {e}"[:3000], traceback=last_fail["tb"][-6000:])
    res["nontrivial"] = sorted(seen)
    res["wall"] = round(time.time() - t0, 2)
    return res


def _worker(q, args):
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("VP_VERBOSE"):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    try:
        logging.disable(logging.CRITICAL)
        q.put(run_facet(*args))
    except BaseException:  # noqa: BLE001
        q.put(dict(facet=args[1], shard=args[4], error=traceback.format_exc(), evaluations=0, nontrivial=[], labels={},
                   samples=[], skipped=0, violation=None, wall=0.0))


def load_known(prop):
    """Known findings: one JSON object per line; status 'known' entries are probed, 'fixed' ones are documentation."""
    out = []
    f = VERIF / "known_findings.jsonl"
    if f.exists():
        for line in f.read_text().splitlines():
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--facet")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VP_JOBS", "8")))
    a = ap.parse_args(argv)
    t0 = time.time()
    mod_name = f"checks.{a.property}"
    logging.disable(logging.CRITICAL)
    try:
        with redirect_stdout(io.StringIO()):
            mod = importlib.import_module(mod_name)
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        print(f"ERROR property={a.property}: the check could not import what it needs")
        return 2
    import rxn_network.core as _c

    src = Path(_c.__file__).resolve()
    if not str(src).startswith(str(REPO.resolve())):
        print(f"ERROR: rxn_network imported from {src}, not from {REPO}")
        return 2

    for f in mod.FACETS:
        f.quick = max(1, int(f.quick * a.scale))
        f.thorough = max(1, int(f.thorough * a.scale))
    warm = getattr(mod, "warmup", None)
    import multiprocessing as mp

    ctx = mp.get_context("fork")
    if a.replay:
        d = json.loads(Path(a.replay).read_text())
        tasks = [(mod_name, d["facet"], a.tier, a.seed, 0, 1e9, d["case"])]
    else:
        tasks = []
        for f in mod.FACETS:
            if a.tier not in f.tiers or (a.facet and f.name != a.facet):
                continue
            budget = getattr(mod, "BUDGET", {}).get(a.tier) or (150 if a.tier == "quick" else 3600)
            for sh in range(f.shards):
                tasks.append((mod_name, f.name, a.tier, a.seed, sh, budget, None))
    if warm:
        with redirect_stdout(io.StringIO()):
            warm()
    results = []
    running = []
    queue = list(tasks)
    hard = 780 if a.tier == "quick" else 6 * 3600
    error = None
    while queue or running:
        while queue and len(running) < a.jobs:
            args = queue.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=_worker, args=(q, args), daemon=True)
            p.start()
            running.append((p, q, args))
        time.sleep(0.05)
        for item in list(running):
            p, q, args = item
            if not q.empty():
                results.append(q.get())
                p.join(10)
                if p.is_alive():
                    p.kill()
                running.remove(item)
            elif not p.is_alive():
                running.remove(item)
                error = f"worker for facet {args[1]} died with exit code {p.exitcode}"
        if time.time() - t0 > hard:
            for p, _, args in running:
                p.kill()
            error = error or f"time limit reached in facets {[x[2][1] for x in running]}"
            break

    order = {(t[1], t[4]): i for i, t in enumerate(tasks)}
    results.sort(key=lambda r: order.get((r["facet"], r["shard"]), 0))
    violations = [r for r in results if r["violation"]]
    errors = [r for r in results if r["error"]]

    facets = {}
    nontriv = set()
    samples = []
    for r in results:
        fd = facets.setdefault(r["facet"], dict(evaluations=0, distinct_nontrivial=0, skipped_for_time=0, classes={}, wall_s=0.0))
        fd["evaluations"] += r["evaluations"]
        keys = {f"{r['facet']}:{h}" for h in r["nontrivial"]}
        fd["distinct_nontrivial"] += len(keys - nontriv)
        nontriv |= keys
        fd["skipped_for_time"] += r["skipped"]
        fd["wall_s"] = round(max(fd["wall_s"], r["wall"]), 2)
        for k, v in r["labels"].items():
            fd["classes"][k] = fd["classes"].get(k, 0) + v
        for s in r["samples"][:1]:
            if len([1 for x in samples if x["facet"] == r["facet"]]) < 1:
                samples.append(dict(facet=r["facet"], case=json.loads(_canon(s)) if len(_canon(s)) < 4000 else _canon(s)[:4000] + "..."))
    known = [] if a.replay else load_known(a.property)
    known_seen = []
    for k in known:
        probe = getattr(mod, "KNOWN_PROBES", {}).get(k["key"])
        if probe is None:
            continue
        fr = sys.modules.get("vp.fakeray")
        if fr is not None:
            fr.S.reset()
        try:
            with redirect_stdout(io.StringIO()):
                still = probe()
        except Exception:  # noqa: BLE001
            still = True
        if still:
            known_seen.append(k)
    evid = dict(
        property=a.property, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=a.seed,
        level=getattr(mod, "LEVEL", "exploration"),
        coverage=dict(
            evaluations=sum(f["evaluations"] for f in facets.values()),
            distinct_nontrivial=len(nontriv),
            rule=mod.RULE, samples=samples, facets=facets,
            known_findings_reproduced=[k["key"] for k in known_seen],
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 2), violations=len(violations),
    )
    if not a.replay and not a.facet:
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{a.property}.json").write_text(json.dumps(evid, indent=1, default=str) + "\n")

    for k in known_seen:
        print(f"KNOWN-FINDING: property={a.property} {k['what']}")
    rdir = VERIF / "replays"
    rdir.mkdir(exist_ok=True)
    printed = set()
    for r in violations:
        v = r["violation"]
        if r["facet"] in printed:
            continue
        printed.add(r["facet"])
        h = hashlib.sha1(_canon(v["case"]).encode()).hexdigest()[:10]
        path = Path(a.replay) if a.replay else rdir / f"{a.property}-{r['facet']}-{h}.json"
        if not a.replay:
            path.write_text(json.dumps(dict(property=a.property, facet=r["facet"], case=v["case"], message=v["message"],
                                            traceback=v["traceback"]), indent=1, default=str) + "\n")
        print(f"[{a.property}/{r['facet']}] {v['message']}")
        if os.environ.get("VP_TB"):
            print(v["traceback"])
            print(_canon(v["case"])[:3000])
        print(f"VIOLATION property={a.property} replay={path}")
    for r in errors:
        print(f"ERROR in facet {r['facet']}:\n{r['error']}")
    if error:
        print("ERROR:", error)
    c = evid["coverage"]
    print(f"{a.property} tier={a.tier} seed={a.seed}: {c['evaluations']} cases, {c['distinct_nontrivial']} distinct non-trivial, "
          f"{len(violations)} violation(s), {evid['wall_s']} s")
    if os.environ.get("VP_STATS"):
        for n, f in facets.items():
            print("  ", n, json.dumps(f))
    if violations:
        return 1
    if errors or error:
        return 2
    return 0
