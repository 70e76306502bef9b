"""Contracts and their obligations.

A contract names a real function, symbolic arguments, and a specification: a Python function run by the same
engine.  On every path of code and specification together the outcomes (result or exception class) and the final
states of all objects that existed before the call must agree; each path is one obligation.
"""
import ast
import copy
import functools
import random
import sys
import time
import traceback

import z3

from pyvc import forks
from pyvc.core import *  # noqa: F401,F403
from pyvc.core import _serial
from pyvc.interp import Interp, Star, from_native
from pyvc.ops import NONE, into, u2, kind_of


class Contract:
    """name: identifier; fn() -> the real function; spec: function (same parameters);
    args(eng) -> list of engine values (the precondition is assumed there);
    gen(rng) -> list of native arguments for the differential run;
    opaque() -> {function: (result type, exception class or None)}"""

    def __init__(self, name, fn, spec, args, gen=None, opaque=None, public=False, setup=None, seconds=40, vc_ms=15000, lift=None, trials=300,
                 result=None, max_paths=20000, kind="contract", state=True, star=False, call=None, fork=True):
        self.fork = fork
        self.name, self.fn, self.spec, self.args, self.gen = name, fn, spec, args, gen
        self.opaque, self.public, self.setup, self.seconds = opaque, public, setup, seconds
        self.vc_ms, self.lift, self.trials, self.result, self.max_paths = vc_ms, lift, trials, result, max_paths
        self.kind, self.state, self.star, self.call = kind, state, star, call


class Outcome:
    def __init__(self, kind, value):
        self.kind, self.value = kind, value


def run_one(eng, f, args, star=False, call=None):
    """star: the last argument is a sequence of unknown length, passed as *args"""
    try:
        if star:
            args = list(args[:-1]) + [Star(args[-1])]
        g = from_native(f) if f in eng.opaque else f        # the body, even when its calls are known by contract
        if call is not None:
            return Outcome("return", eng.call(call, (g,) + tuple(args)))
        return Outcome("return", eng.call(g, tuple(args)))
    except PyRaise as ex:
        return Outcome("raise", ex.exc)


def states(eng, mark, limit):
    """final states of the pre-existing objects changed since the mark"""
    out = {}
    for obj, field, item, old in eng.journal[mark:]:
        if obj.serial < limit and not isinstance(obj, Frame):
            if id(obj) not in out:
                out[id(obj)] = (obj, snapshot(obj))
    return out


def snapshot(obj):
    if isinstance(obj, PList):
        return PList(obj.state, kind=obj.kind)
    if isinstance(obj, PDict):
        return PDict(obj.base, obj.state, obj.ty, obj.dcls, factory=obj.factory)
    if isinstance(obj, SymObj):
        return SymObj(obj.cls, obj.attrs, obj.term, obj.ty)
    if isinstance(obj, PSet):
        return PSet(obj.state)
    if hasattr(obj, "items") and isinstance(obj.items, PList):
        return PList(obj.items.state)
    raise Unsupported("state of %r" % type(obj))


class Result:
    def __init__(self, name):
        self.name = name
        self.paths, self.proved = 0, 0
        self.status = "undecided"
        self.reason = ""
        self.seconds = 0.0
        self.solver = 0.0
        self.refuted = []
        self.inlined, self.opaque, self.assumptions = [], [], []
        self.covered = 0
        self.lines, self.reached = [], []      # statements of the function, and those executed


def verify(c):
    """discharge the obligations of a contract"""
    carried = set()
    while True:
        n = len(carried)
        res = verify_once(c, carried)
        if len(carried) == n:
            return res


class Carried(BaseException):
    def __init__(self, name):
        self.name = name


def forked(eng, path):
    """all paths, each in a copy of the process made where it leaves another one"""
    parent = eng.ctx
    mark, limit = len(eng.journal), next(_serial)
    fk = forks.Forker()
    eng.ctx = Ctx(eng, parent, [])
    eng.ctx.forker = fk
    n0, t0 = eng.queries, eng.solver_time
    res = {"outs": [], "error": None}
    try:
        try:
            status, what, model, ab, vc = path()
            res["outs"].append((status, what, [str(x) for x in model] if isinstance(model, (list, tuple)) else None if model is None else str(model), ab, vc))
        except Infeasible:
            pass
        except NeedHavoc as ex:
            name = eng.havoc_names.get(ex.key)
            res["error"] = ("Carried", name) if name else ("Unsupported", "a variable of a loop is used after it")
        except Unsupported as ex:
            res["error"] = ("Unsupported", str(ex))
        except forks.Stop as ex:
            res["error"] = ex.args[0]
        except BaseException as ex:
            if fk.out is None and not isinstance(ex, Exception):
                raise
            if DEBUG:
                traceback.print_exc()
            res["error"] = ("Unsupported", "%s: %s" % (type(ex).__name__, ex))
        if fk.out is not None:
            res.update(reached=eng.reached, inlined=set(map(str, eng.inlined)), opaque=set(map(str, eng.opaque_used)), assumptions=set(eng.used_assumptions), solver=eng.solver_time, queries=eng.queries)
            fk.finish(res)
        eng.ctx = parent
        eng.undo(mark, limit)
        if res["error"]:
            fk.abandon()
        fk.collect()
    finally:
        fk.abandon()
        eng.ctx = parent
    outs = list(res["outs"])
    errors = [res["error"]] if res["error"] else []
    base = eng.solver_time
    for r in forks.flatten(fk.results):
        outs.extend(r.get("outs", ()))
        if r.get("error"):
            errors.append(r["error"])
        eng.reached |= r.get("reached", set())
        eng.inlined |= r.get("inlined", set())
        eng.opaque_used |= r.get("opaque", set())
        eng.used_assumptions |= r.get("assumptions", set())
        eng.solver_time += max(0.0, r.get("solver", base) - base) if r.get("solver", 0) > base else 0.0
    for kind, what in errors:
        if kind == "Carried":
            raise Carried(what)
    for kind, what in errors:
        raise Unsupported(what)
    return outs


def verify_once(c, carried):
    res = Result(c.name)
    t0 = time.time()
    eng = Interp(seconds=c.seconds, vc_ms=c.vc_ms, max_paths=c.max_paths)
    try:
        f = c.fn()
        eng.carried |= carried
        if c.opaque:
            eng.opaque.update(c.opaque())
        if c.setup:
            c.setup(eng)
        root = Ctx(eng, None, [])
        eng.ctx = root
        outer = {}

        def path():
            eng.abstract = False
            eng.loop_sides, eng.side = {}, "code"
            args = c.args(eng)
            limit = next(_serial)
            mark = len(eng.journal)
            a = run_one(eng, f, args, c.star, c.call)
            pa = {k: (o, eng.freeze(s)) for k, (o, s) in states(eng, mark, limit).items()}
            a.value = eng.freeze(a.value)
            eng.undo(mark, limit)
            mark = len(eng.journal)
            eng.side = "spec"
            b = run_one(eng, c.spec, args, c.star)
            pb = {k: (o, eng.freeze(s)) for k, (o, s) in states(eng, mark, limit).items()}
            b.value = eng.freeze(b.value)
            eng.undo(mark, limit)
            eng.side = None
            vc, what = compare(eng, a, b, pa if c.state else {}, pb if c.state else {})
            status, model = decide(eng, c, vc)
            if status == "refuted" and eng.abstract:
                status = "unknown"
            if status == "refuted" and eng.one_sided(list(eng.ctx.pc()) + [vc]):
                status, what = "unknown", what + " (a loop of one side only)"
            if status == "proved":
                res.covered += 1
            return status, what, model, eng.abstract, str(vc)[:400]

        outs = forked(eng, path) if c.fork else [o for pc, o, _ in eng.explore(path)]
        res.paths = len(outs)
        bad = [o for o in outs if o[0] != "proved"]
        res.proved = len(outs) - len(bad)
        if not outs:
            res.status, res.reason = "undecided", "no feasible path (contradictory precondition)"
        elif not bad:
            res.status = "proved"
        else:
            sure = [o for o in bad if o[0] == "refuted"]
            res.refuted = [(o[1], o[2]) for o in (sure or bad)][:5]
            res.status = "refuted" if sure else "undecided"
            o = (sure or bad)[0]
            res.reason = "%s: %s%s [%s]" % (o[0], o[1], " (abstraction)" if o[3] else "", o[4])
    except Unsupported as ex:
        res.reason = "outside the fragment: %s" % ex
        if DEBUG:
            traceback.print_exc()
    except NeedHavoc as ex:
        res.reason = "engine: a variable of a loop is used after it"
        if eng.havoc_names.get(ex.key):
            carried.add(eng.havoc_names[ex.key])
    except Carried as ex:
        carried.add(ex.name)
    except Infeasible as ex:
        res.reason = "engine: %r" % ex
        if DEBUG:
            traceback.print_exc()
    except RecursionError:
        res.reason = "engine: recursion limit"
    except z3.Z3Exception as ex:
        res.reason = "solver: %s" % ex
        if DEBUG:
            traceback.print_exc()
    except Exception as ex:
        res.reason = "engine: %s: %s" % (type(ex).__name__, ex)
        if DEBUG:
            traceback.print_exc()
    try:
        node, name = from_native(f).node, from_native(f).globals.get("__file__")
        lines = {s.lineno for x in ast.walk(node) for s in ([x] if isinstance(x, ast.stmt) and x is not node else []) if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))}
        res.lines = sorted(lines)
        res.reached = sorted(n for n in lines if (name, n) in eng.reached)
    except Exception:
        pass
    res.seconds = time.time() - t0
    res.solver = eng.solver_time
    res.inlined = sorted(eng.inlined)
    res.opaque = sorted(eng.opaque_used)
    res.assumptions = sorted(eng.used_assumptions)
    return res


DEBUG = False


def compare(eng, a, b, pa, pb):
    if a.kind != b.kind:
        return z3.BoolVal(False), "code %s, specification %s" % (show(a), show(b))
    if a.kind == "raise":
        ok = a.value.cls is b.value.cls or (a.value.cls.__name__ == b.value.cls.__name__)
        if not ok:
            return z3.BoolVal(False), "code %s, specification %s" % (show(a), show(b))
        vcs = []
    else:
        vcs = [eng.same(a.value, b.value)]
    what = "result"
    for k in set(pa) | set(pb):
        o = (pa.get(k) or pb.get(k))[0]
        cur = eng.freeze(snapshot(o))
        x = pa[k][1] if k in pa else cur
        y = pb[k][1] if k in pb else cur
        vcs.append(eng.same(x, y))
        what = "result or state of an argument"
    return z3.And(vcs) if vcs else z3.BoolVal(True), what


def show(o):
    if o.kind == "raise":
        return "raises %s" % o.value.cls.__name__
    return "returns %s" % str(o.value)[:150]


def decide(eng, c, vc):
    vc = z3.simplify(vc)
    if z3.is_true(vc):
        return "proved", None
    s = z3.Solver()
    s.set("timeout", c.vc_ms)
    for x in eng.ctx.pc():
        s.add(x)
    s.add(z3.Not(vc))
    t = time.time()
    r = s.check()
    eng.solver_time += time.time() - t
    if r == z3.unsat:
        return "proved", None
    if r == z3.sat:
        return "refuted", str(s.model())[:2000]
    # is the path itself possible?
    return "unknown", s.reason_unknown()


# ---------------------------------------------------------------- differential run on CPython

WORDS = []


def set_words(fn, model):
    """strings that the generators may use: constants of the function's code, and of the solver's model"""
    import re
    import types

    out = []

    def walk(code):
        for k in code.co_consts:
            if isinstance(k, str) and len(k) < 30:
                out.append(k)
            elif isinstance(k, (tuple, frozenset)):
                out.extend(x for x in k if isinstance(x, str))
            elif isinstance(k, types.CodeType):
                walk(k)

    f = getattr(fn, "__func__", fn)
    if hasattr(f, "__code__"):
        walk(f.__code__)
    for text in model or []:
        out.extend(x for x in re.findall(r'"([^"\n]{0,20})"', text))
    WORDS[:] = sorted(set(out))[:60]


def word(rng, base):
    if WORDS and rng.random() < .15:
        return rng.choice(WORDS)
    return rng.choice(base)



def native_outcome(f, args):
    try:
        r = f(*args)
        return ("return", r, args)
    except Exception as ex:
        return ("raise", type(ex), args)


def same_native(x, y, memo=None, depth=0):
    if depth > 60:
        return True
    if type(x) is not type(y):
        return False
    if all(hasattr(x, a) for a in ("type", "value", "line", "column", "end_line")):      # tokens
        return all(same_native(getattr(x, a), getattr(y, a), memo, depth + 1) for a in ("type", "value", "line", "column", "end_line"))
    if type(x).__name__ in ("Validator", "JsonRef"):        # caches of schemas
        return True
    if isinstance(x, dict):
        return len(x) == len(y) and all(same_native(k, k2, memo, depth + 1) and same_native(dict.__getitem__(x, k), dict.__getitem__(y, k2), memo, depth + 1)
                                        for k, k2 in zip(list(x.keys()), list(y.keys())))
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(same_native(a, b, memo, depth + 1) for a, b in zip(x, y))
    if isinstance(x, float):
        return x == y or (x != x and y != y)
    if isinstance(x, (str, int, bool, type(None), set, frozenset, bytes)):
        return x == y
    if isinstance(x, type):
        return x is y
    if callable(x):
        return True
    if hasattr(x, "__dict__"):
        memo = memo if memo is not None else set()
        if (id(x), id(y)) in memo:
            return True
        memo.add((id(x), id(y)))
        return same_native(vars(x), vars(y), memo, depth + 1)
    try:
        return bool(x == y)
    except Exception:
        return True


def differential(c, seed, n=None, seconds=10):
    """first random input on which real function and specification differ (native run), with the number tried"""
    if c.gen is None:
        return None, 0
    f = c.fn()
    t0 = time.time()
    tried = 0
    for i in range(n or c.trials):
        if time.time() - t0 > seconds:
            break
        sub = "%s:%s:%d" % (seed, c.name, i)
        args = c.gen(random.Random(sub))        # generated anew for each use, so that nothing is shared
        tried += 1
        a = native_outcome(functools.partial(c.call, f) if c.call else f, c.gen(random.Random(sub)))
        b = native_outcome(c.spec, c.gen(random.Random(sub)))
        ok = a[0] == b[0]
        if ok and a[0] == "raise":
            ok = a[1] is b[1] or a[1].__name__ == b[1].__name__
        elif ok:
            ok = same_native(a[1], b[1])
        if ok and c.state:
            ok = same_native(a[2], b[2])
        if not ok:
            return (args, a, b), tried
    return None, tried
