#!/opt/venv/bin/python
"""Soundness test of the verifier: mutate the real functions in memory and list the mutants that still verify.

usage: mutate.py MODULE [name...]     (MODULE: a module of contracts/)
Each survivor has to be an equivalent mutant; anything else is a hole of the engine or of the contract."""
import ast
import copy
import importlib
import multiprocessing
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [VERIF, os.environ.get("VERIF_REPO", "/repo")]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from pyvc import verify, interp  # noqa: E402

SWAP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Lt: ast.LtE,
        ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.And: ast.Or, ast.Or: ast.And}


def mutants(node):
    """(description, mutated copy) of a function"""
    n = len(list(ast.walk(node)))
    for i in range(n):
        for kind in range(3):
            c = copy.deepcopy(node)
            x = list(ast.walk(c))[i]
            d = mutate(x, kind)
            if d:
                yield "%s line %s: %s" % (node.name, getattr(x, "lineno", "?"), d), ast.fix_missing_locations(c)


def mutate(x, kind):
    if isinstance(x, ast.Compare) and kind == 0 and type(x.ops[0]) in SWAP:
        old = type(x.ops[0])
        x.ops[0] = SWAP[old]()
        return "%s -> %s" % (old.__name__, SWAP[old].__name__)
    if isinstance(x, (ast.BinOp, ast.BoolOp)) and kind == 0 and type(x.op) in SWAP:
        old = type(x.op)
        x.op = SWAP[old]()
        return "%s -> %s" % (old.__name__, SWAP[old].__name__)
    if isinstance(x, ast.Constant) and kind == 0:
        if isinstance(x.value, bool):
            x.value = not x.value
            return "constant -> %r" % x.value
        if isinstance(x.value, int):
            x.value += 1
            return "constant -> %r" % x.value
        if isinstance(x.value, str):
            x.value += "x"
            return "constant -> %r" % x.value[:30]
        if x.value is None:
            x.value = 0
            return "None -> 0"
    if isinstance(x, (ast.If, ast.IfExp, ast.While)):
        if kind == 1:
            x.test = ast.UnaryOp(ast.Not(), x.test)
            return "negated condition"
        if kind == 2 and isinstance(x, ast.If):
            x.test = ast.Constant(True)
            return "condition -> True"
    for f in ("body", "orelse", "finalbody"):
        b = getattr(x, f, None)
        if kind == 2 and isinstance(b, list) and len(b) > 1 and f == "body":
            for j, s in enumerate(b):
                if not isinstance(s, (ast.FunctionDef, ast.Import, ast.ImportFrom)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) \
                        and not getattr(s, "_gone", False):
                    pass
    if kind == 2 and isinstance(x, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return, ast.Delete, ast.Continue, ast.Break)) and not (
            isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)):
        # delete the statement
        old = ast.unparse(x)
        x.__class__ = ast.Pass
        x._fields = ()
        return "deleted: %s" % old[:70]
    if isinstance(x, ast.Call) and kind == 1 and len(x.args) == 2 and not x.keywords:
        x.args.reverse()
        return "arguments swapped"
    return None


def job(a):
    mod, name, i = a
    m = importlib.import_module("contracts." + mod)
    c = [c for c in m.contracts() if c.name == name][0]
    f = c.fn()
    f = getattr(f, "__func__", f)
    node = interp.node_of(f)
    d, mut = list(mutants(node))[i]
    interp._fcache.clear()
    fi = interp.from_native(f)
    fi.node = mut
    interp._lcache.clear()
    c.seconds = min(c.seconds, 60)
    r = verify.verify(c)
    return name, d, r.status, r.reason[:200]


def count(a):
    mod, name = a
    m = importlib.import_module("contracts." + mod)
    c = [c for c in m.contracts() if c.name == name][0]
    f = c.fn()
    f = getattr(f, "__func__", f)
    try:
        return name, len(list(mutants(interp.node_of(f))))
    except Exception as ex:
        print("?", name, ex)
        return name, 0


def main():
    mod, names = sys.argv[1], [a for a in sys.argv[2:] if a != '-u']
    m = importlib.import_module("contracts." + mod)
    cs = [c for c in m.contracts() if not names or any(n in c.name for n in names)]
    jobs = []
    for c in cs:
        n, k = count((mod, c.name))
        jobs += [(mod, n, i) for i in range(k)]
    by = {}
    with multiprocessing.Pool(8, maxtasksperchild=20) as p:
        for name, d, status, reason in p.imap_unordered(job, jobs):
            by.setdefault(status, []).append((name, d, reason))
    for s, l in sorted(by.items()):
        print("%s: %d" % (s, len(l)))
    # a mutant survives when no contract of the function fails
    per = {}
    for s, l in by.items():
        for name, d, reason in l:
            per.setdefault((name.split(" (")[0], d), set()).add(s)
    for (name, d), st in sorted(per.items()):
        if st == {"proved"} and "\\n   " not in d:
            print("SURVIVES  %-40s %s" % (name, d))
    und = {(n, d) for (n, d), st in per.items() if "undecided" in st and "refuted" not in st}
    if "-u" in sys.argv:
        for name, d, reason in by.get("undecided", []):
            print("UNDECIDED %-30s %s: %s" % (name, d, reason))
    print("functions-mutants: %d, survive %d, undecided only %d" % (len(per), sum(st == {"proved"} for st in per.values()), len(und)))


if __name__ == "__main__":
    main()
