"""Mutation sampling: python tools/mutate.py OUT.jsonl [-n PER_FILE] [-s SEED] [-j PARALLEL] [file ...]

Makes small syntactic changes to copies of the source, runs the quick checks of the file's properties against them and
lists the survivors (to be read by hand: equivalent, irrelevant, or a gap in the checks)."""
import argparse
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

V = Path(__file__).resolve().parent.parent
MAP = {
    "reactions/basic.py": "B01 B02 B03 S02 I01 R01", "reactions/computed.py": "C01 C02 B02 B01 B03 I01", "reactions/open.py": "C01 C02 B02 B03 B01", "reactions/base.py": "B02",
    "reactions/hull.py": "H01 H02 K03 H03 R01", "reactions/reaction_set.py": "S01 S02 S03 S04 C02 R01", "costs/functions.py": "K01", "costs/base.py": "K01 K03", "costs/pareto.py": "K02",
    "costs/calculators.py": "K03 H03", "thermo/chempot_diagram.py": "T01 K03 R01", "thermo/utils.py": "T02", "entries/entry_set.py": "E01 E02 E05 E06 R01", "entries/gibbs.py": "E03 E01 C02 I01",
    "entries/experimental.py": "E04", "entries/nist.py": "E04 E05", "entries/freed.py": "E04 E05", "entries/interpolated.py": "E02 E01 I01", "entries/corrections.py": "E04 E05 E03",
    "entries/utils.py": "E06 D02 F01", "enumerators/base.py": "N01 N02 N03", "enumerators/basic.py": "N01 N02", "enumerators/minimize.py": "N03 N02", "enumerators/utils.py": "N01 N03 F01 H03",
    "network/base.py": "G03 G02", "network/entry.py": "G01 G03 I01", "network/network.py": "G01 G02 G03 R01", "pathways/base.py": "P02 G03", "pathways/basic.py": "P02 G03 I01", "pathways/balanced.py": "P02 G03 P01 I01",
    "pathways/pathway_set.py": "G03 P01", "pathways/solver.py": "P01 R01", "jobs/core.py": "F01 H03 R01", "jobs/utils.py": "F01", "jobs/schema.py": "F01", "flows/core.py": "F01", "utils/funcs.py": "U01 N01",
    "utils/ray.py": "U01 N02 S02", "core.py": "B01 S03 E01", "utils/database.py": "D01", "reactions/plotting.py": "V01", "pathways/plotting.py": "V01", "network/visualize.py": "V01",
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr, ast.Mod: ast.FloorDiv}
NAMES = {"min": "max", "max": "min", "any": "all", "all": "any", "union": "intersection", "intersection": "union", "issubset": "issuperset", "issuperset": "issubset", "argmin": "argmax", "argmax": "argmin",
         "sum": "max", "reduced_composition": "composition", "energy": "energy_per_atom", "energy_per_atom": "energy", "reactants": "products", "products": "reactants", "reactant_entries": "product_entries",
         "product_entries": "reactant_entries", "num_atoms": "num_entries", "precursors": "targets", "targets": "precursors", "ceil": "floor", "floor": "ceil", "append": "count"}
PASS = {"abs", "sorted", "set", "list", "reversed", "round", "tuple", "deepcopy", "copy", "float", "int"}


def sites(tree):
    """(description, mutate(tree copy)) for each mutation; nodes are addressed by their position in ast.walk."""
    out = []
    skip = set()
    for i, n in enumerate(ast.walk(tree)):
        if isinstance(n, ast.Call) and getattr(n.func, "attr", "") in ("info", "debug", "warning") or isinstance(n, ast.Raise):
            skip.update(map(id, ast.walk(n)))
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list + [a.annotation for a in n.args.args if a.annotation] + ([n.returns] if n.returns else []):
                skip.update(map(id, ast.walk(d)))
            if n.name in ("__repr__", "__str__"):
                skip.update(map(id, ast.walk(n)))
        if isinstance(n, ast.AnnAssign):
            skip.update(map(id, ast.walk(n.annotation)))
        if isinstance(n, ast.If) and isinstance(n.test, ast.Name) and n.test.id == "TYPE_CHECKING":
            skip.update(map(id, ast.walk(n)))

    def add(i, n, what, f):
        out.append((i, getattr(n, "lineno", 0), what, f))

    nodes = list(ast.walk(tree))
    infunc = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            infunc.update(map(id, ast.walk(n)))
    for i, n in enumerate(nodes):
        if id(n) in skip or id(n) not in infunc:
            continue
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            add(i, n, "compare", lambda m: m.ops.__setitem__(0, CMP[type(m.ops[0])]()))
        if isinstance(n, ast.BoolOp):
            add(i, n, "and/or", lambda m: setattr(m, "op", ast.And() if isinstance(m.op, ast.Or) else ast.Or()))
            for k in range(len(n.values)):
                add(i, n, f"drop operand {k}", lambda m, k=k: m.values.pop(k) if len(m.values) > 2 else (m.values.pop(k), m.values.append(m.values[0])))
        if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
            add(i, n, "operator", lambda m: setattr(m, "op", BIN[type(m.op)]()))
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not ...:
            if isinstance(n.value, bool):
                add(i, n, "flip", lambda m: setattr(m, "value", not m.value))
            elif isinstance(n.value, int):
                add(i, n, "int+1", lambda m: setattr(m, "value", m.value + 1))
            elif isinstance(n.value, float):
                add(i, n, "float*10", lambda m: setattr(m, "value", m.value * 10 + (m.value == 0)))
        if isinstance(n, (ast.If, ast.IfExp)):
            add(i, n, "cond True", lambda m: setattr(m, "test", ast.Constant(True)))
            add(i, n, "cond False", lambda m: setattr(m, "test", ast.Constant(False)))
        if isinstance(n, ast.comprehension) and n.ifs:
            add(i, n.ifs[0], "no filter", lambda m: setattr(m, "ifs", []))
        if isinstance(n, ast.Call):
            for k, kw in enumerate(n.keywords):
                if kw.arg:
                    add(i, n, f"drop keyword {kw.arg}", lambda m, k=k: m.keywords.pop(k))
            if isinstance(n.func, ast.Name) and n.func.id in PASS and len(n.args) >= 1:
                add(i, n, f"drop {n.func.id}()", "arg0")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "reverse", "normalize_to") and not n.args:
                add(i, n, f"drop .{n.func.attr}()", "recv")
        if isinstance(n, ast.Attribute) and n.attr in NAMES:
            add(i, n, f"{n.attr}->{NAMES[n.attr]}", lambda m: setattr(m, "attr", NAMES[m.attr]))
        if isinstance(n, ast.Name) and n.id in NAMES and isinstance(n.ctx, ast.Load):
            add(i, n, f"{n.id}->{NAMES[n.id]}", lambda m: setattr(m, "id", NAMES[m.id]))
        if isinstance(n, ast.UnaryOp):
            add(i, n, "drop unary", "operand")
        if isinstance(n, ast.Continue):
            add(i, n, "continue->break", "break")
        if isinstance(n, ast.Slice) and (n.lower or n.upper):
            add(i, n, "whole slice", lambda m: (setattr(m, "lower", None), setattr(m, "upper", None)))
        for fld in ("body", "orelse"):
            b = getattr(n, fld, None)
            if isinstance(b, list):
                for k, s in enumerate(b):
                    if isinstance(s, (ast.Expr, ast.AugAssign)) and not (isinstance(s, ast.Expr) and isinstance(s.value, (ast.Constant, ast.Yield))) and id(s) not in skip and not (isinstance(s, ast.Expr) and id(s.value) in skip):
                        add(i, s, "delete statement", lambda m, fld=fld, k=k: getattr(m, fld).__setitem__(k, ast.copy_location(ast.Pass(), getattr(m, fld)[k])))
                    if isinstance(s, ast.Assign) and k and id(s) not in skip and any(isinstance(t, ast.Name) and any(isinstance(q, ast.Assign) and any(isinstance(u, ast.Name) and u.id == t.id for u in q.targets) for q in b[:k]) for t in s.targets):
                        add(i, s, "delete reassignment", lambda m, fld=fld, k=k: getattr(m, fld).__setitem__(k, ast.copy_location(ast.Pass(), getattr(m, fld)[k])))
    return out


class Swap(ast.NodeTransformer):
    def __init__(self, target, new):
        self.t, self.n = target, new

    def visit(self, node):
        return self.n if node is self.t else self.generic_visit(node)


def mutate(tree, site):
    t = copy.deepcopy(tree)
    m = list(ast.walk(t))[site[0]]
    f = site[3]
    if callable(f):
        f(m)
    else:
        new = {"arg0": lambda: m.args[0], "recv": lambda: m.func.value, "operand": lambda: m.operand, "break": lambda: ast.Break()}[f]()
        t = Swap(m, ast.copy_location(new, m)).visit(t)
    return ast.unparse(ast.fix_missing_locations(t))


def run(job):
    k, rel, line, what, before, after, text, checks, scale = job
    d = Path(f"/tmp/mut_{os.getpid()}_{k}")
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo/src", d / "src", ignore=shutil.ignore_patterns("__pycache__", "*.ipynb"))
    (d / "src/rxn_network" / rel).write_text(text)
    res = dict(file=rel, line=line, what=what, before=before, after=after, result="survived", by=None)
    try:
        for c in checks:
            p = subprocess.run([str(V / "bin/check"), c, "--jobs", "3", "--scale", str(scale)], capture_output=True, text=True, env=dict(os.environ, VP_REPO=str(d), VERIF_TIER="quick", VERIF_SEED="1", VP_NOWRITE="1"), timeout=900)
            if p.returncode == 1:
                res.update(result="killed", by=c)
                break
            if p.returncode != 0:
                res.update(result="error", by=c)
                break
    except subprocess.TimeoutExpired:
        res.update(result="timeout", by=c)
    shutil.rmtree(d, ignore_errors=True)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("files", nargs="*")
    ap.add_argument("-n", type=int, default=12)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-j", type=int, default=3)
    ap.add_argument("--scale", type=float, default=0.6)
    a = ap.parse_args()
    jobs = []
    for rel, checks in MAP.items():
        if a.files and rel not in a.files:
            continue
        src = Path("/repo/src/rxn_network", rel).read_text()
        tree = ast.parse(src)
        base = ast.unparse(tree)
        ss = sites(tree)
        random.Random(f"{a.s}{rel}").shuffle(ss)
        n = 0
        for s in ss:
            if n >= a.n:
                break
            try:
                text = mutate(tree, s)
                compile(text, rel, "exec")
            except Exception as e:  # noqa: BLE001
                print("bad mutation", rel, s[1:3], e, file=sys.stderr)
                continue
            if text == base:
                continue
            bl, al = base.splitlines(), text.splitlines()
            import difflib
            df = [x for x in difflib.unified_diff(bl, al, lineterm="", n=0) if x[:1] in "+-" and x[:3] not in ("+++", "---")]
            jobs.append((len(jobs), rel, s[1], s[2], [x[1:].strip() for x in df if x[0] == "-"], [x[1:].strip() for x in df if x[0] == "+"], text, checks.split(), a.scale))
            n += 1
    random.Random(a.s).shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    with open(a.out, "a") as f, ThreadPoolExecutor(a.j) as ex:
        for r in ex.map(run, jobs):
            f.write(json.dumps(r) + "\n")
            f.flush()


main()
