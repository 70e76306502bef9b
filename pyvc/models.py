"""Models of the Python builtins and containers over engine values."""
import ast
import builtins
import collections
import copy as copymod
import functools
import inspect
import itertools
import math
import numbers
import operator
import os.path
import re
import string
import types

import z3

from pyvc.core import *  # noqa: F401,F403
from pyvc.core import _MISSING, _subst
from pyvc import ops as O
from pyvc.ops import SCALAR, u2, into, slen, kind_of, low, upp, strip_, BreakLoop, ContinueLoop, ReturnEx

NUM = (bool, int, float, SBool, SInt, SReal)
STR = (str, SStr)
KTYPES = {"none": type(None), "bool": bool, "int": int, "float": float, "str": str, "list": list, "tuple": tuple, "dict": dict}


class Py:
    """a function of the model: fn(engine, *args)"""

    def __init__(self, fn):
        self.fn = fn


class NotNative(Exception):
    pass


class RawDict:
    """the OrderedDict part of a modelled dict (super() calls)"""

    def __init__(self, obj):
        self.obj = obj


class SMatch:
    def __init__(self, key, z, pattern):
        self.key, self.z, self.pattern = key, z, pattern


class GhostOut(Heap):
    """an output stream: the list of what was written"""

    def __init__(self):
        Heap.__init__(self)
        self.items = PList()


class IterView:
    """enumerate / zip / reversed / dict views, before iteration"""

    def __init__(self, what, parts, start=0, fill=None):
        self.what, self.parts, self.start, self.fill = what, parts, start, fill


class FlatSrc(Src):
    """elements of the source of a flat-map segment"""

    def __init__(self, seg):
        s = seg.src
        self.inner, self.seg = s, seg
        self.t, self.ty, self.key, self.consts = s.t, getattr(s, "ty", TAny), s.key, s.consts

    def make(self, eng, sub=None):
        return sub

    def member(self, sub=None):
        return self.inner.member(sub)


class GenBreak(ReturnEx):
    def __init__(self, tag, value=None):
        ReturnEx.__init__(self, value)
        self.tag = tag


def raises(cls, *args):
    return PyRaise(PExc(cls, args))


def _re_key(p):
    return "%d:%s" % (p.flags & ~re.UNICODE, p.pattern)


class Models:
    interp_classes = frozenset()        # dict classes whose own methods are interpreted
    folded_classes = frozenset()        # dict classes whose stored keys are lower case

    # ------------------------------------------------------------ native <-> engine
    def to_native(self, v):
        if isinstance(v, (Sym, SVal, SymObj, POISON, PExc, RawDict, SMatch, IterView)):
            if isinstance(v, SVal) and len(self.kinds(v)) == 1 and "none" in self.kinds(v):
                return None
            raise NotNative()
        if isinstance(v, PList):
            if not v.concrete():
                raise NotNative()
            r = [self.to_native(x) for x in v.state]
            return r if v.kind == "list" else tuple(r)
        if isinstance(v, tuple):
            return tuple(self.to_native(x) for x in v)
        if isinstance(v, PDict):
            if v.base is not None or v.dcls not in (dict, collections.OrderedDict):
                raise NotNative()
            return v.dcls((self.to_native(k), self.to_native(x)) for k, x, w in v.state if x is not DEL)
        if isinstance(v, PSet):
            return set(self.to_native(x) for x in v.state)
        if type(v).__name__ in ("InterpFunc", "Bound", "ModelMethod", "LazyGen", "SuperProxy", "Py"):
            raise NotNative()
        return v

    def from_native_value(self, v):
        t = type(v)
        if t is list:
            return PList([self.from_native_value(x) for x in v])
        if t is tuple:
            return tuple(self.from_native_value(x) for x in v)
        if t in (dict, collections.OrderedDict):
            return PDict(entries=[(k, self.from_native_value(x), True) for k, x in v.items()], dcls=t)
        if t is set:
            return PSet([self.from_native_value(x) for x in sorted(v, key=repr)])
        return v

    def native_allowed(self, f):
        s = getattr(f, "__self__", None)
        if isinstance(s, (str, int, float, frozenset, tuple, re.Pattern, re.Match)) and not isinstance(s, bool):
            return True
        m = getattr(f, "__module__", None)
        if m in ("re", "math", "operator", "itertools", "posixpath", "string"):
            return getattr(f, "__name__", "") not in ("exists", "realpath", "abspath", "getmtime", "isfile", "isdir", "expanduser")
        if m == "builtins" and getattr(f, "__name__", "") in (
                "abs", "round", "divmod", "pow", "ord", "chr", "repr", "hash", "min", "max", "sum", "sorted", "len", "range", "frozenset", "issubclass",
                "isinstance", "callable", "int", "float", "str", "bool", "format"):
            return True
        return False

    # ------------------------------------------------------------ builtin functions
    @property
    def builtin_models(self):
        b = self.__dict__.get("_builtins")
        if b is None:
            n = {k[2:]: getattr(Models, k) for k in dir(Models) if k.startswith("b_")}
            b = {getattr(builtins, k): f for k, f in n.items() if hasattr(builtins, k)}
            b[itertools.zip_longest] = Models.b_zip_longest
            b[collections.OrderedDict] = Models.b_OrderedDict
            b[copymod.copy] = Models.b_copy
            self.__dict__["_builtins"] = b
        return b

    def conc(self, v):
        return self.force(v) if isinstance(v, SVal) else v

    def need_kinds(self, v, kinds, exc=TypeError):
        """v, of one of these kinds; otherwise the exception is raised"""
        if not self.kind_in(v, kinds):
            raise raises(exc, "kind")
        return self.force(v)

    def b_len(self, v):
        if isinstance(v, SVal):
            v = self.need_kinds(v, ["str", "list", "tuple", "dict"])
        if isinstance(v, SStr):
            return mk(z3.Length(v.z))
        if isinstance(v, (PList, PSet)):
            return self.state_len(v.state)
        if isinstance(v, PDict):
            return self.dict_len(v)
        if isinstance(v, (str, tuple, frozenset, list, dict, range)):
            return len(v)
        if isinstance(v, IterView) and v.what in ("items", "keys", "values"):
            return self.b_len(v.parts[0])
        raise raises(TypeError, "len")

    def state_len(self, state):
        n, z = 0, None
        for x in state:
            if isinstance(x, (OSeg, FSeg)):
                t = x.t if isinstance(x, OSeg) else self.flat_term(x)
                self.ctx.assume(slen(t) >= 0)
                if isinstance(x, FSeg) and all(len(s) == 1 for c, s in x.cases) and type(x.src) is Src and self.total(x):
                    self.ctx.assume(slen(t) == slen(x.src.t))
                z = slen(t) if z is None else z + slen(t)
            else:
                n += 1
        return n if z is None else mk(z + n)

    def total(self, seg):
        return z3.is_true(z3.simplify(z3.Or([c for c, s in seg.cases])))

    def dict_len(self, d):
        if d.base is None:
            return sum(1 for e in d.state if e[1] is not DEL)
        self.ctx.assume(slen(d.base) >= 0)
        if any(w for k, v, w in d.state):
            return mk(uf("dlen", U, I)(self.term(d)))
        return mk(slen(d.base))

    def b_isinstance(self, v, t):
        ts = []

        def flat(x):
            if isinstance(x, (tuple, PList)):
                for y in (x if isinstance(x, tuple) else x.state):
                    flat(y)
            else:
                ts.append(x)

        flat(t)
        if isinstance(v, POISON):
            raise NeedHavoc(v.key)
        good = set()
        for k in self.kinds(v):
            c = KTYPES.get(k)
            if k == "obj":
                c = v.ty.cls if isinstance(v, SVal) else v.cls if isinstance(v, (SymObj, PExc)) else type(v)
                if isinstance(v, SVal) and c is None:
                    raise Unsupported("isinstance of an opaque object")
                if type(v).__name__ in ("InterpFunc", "Bound", "ModelMethod"):
                    c = types.FunctionType
                if isinstance(v, PSet):
                    c = set
            elif k == "dict":
                c = v.dcls if isinstance(v, PDict) else v.ty.dcls if isinstance(v, SVal) else type(v)
            if any(issubclass(c, x) for x in ts):
                good.add(k)
        return self.kind_in(v, good)

    def b_str(self, v=""):
        return self.to_str(v)

    def to_str(self, v):
        if isinstance(v, SVal):
            ks = self.kinds(v)
            if len(ks) == 1:
                return self.to_str(self.force(v))
            s = uf("str", U, S)(v.t)
            if "str" in ks:
                self.ctx.assume(z3.Implies(kind_of(v.t) == KCODE["str"], s == u2["str"](v.t)))
            return mk(s)
        if isinstance(v, STR):
            return v
        if isinstance(v, SBool):
            return mk(z3.If(v.z, z3.StringVal("True"), z3.StringVal("False")))
        if isinstance(v, PExc):
            return mk(uf("excstr", U, S)(const("exc:" + v.cls.__name__, U)))
        if isinstance(v, (PList, PDict, Sym, SymObj, tuple)):
            try:
                return str(self.to_native(v))
            except NotNative:
                return mk(uf("str", U, S)(self.term(v)))
        return str(v)

    def b_int(self, v=0):
        v = self.conc(v)
        if isinstance(v, SInt):
            return v
        if isinstance(v, SBool):
            return mk(z3.If(v.z, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(v, SReal):
            self.used_assumptions.add("floats are mathematical reals")
            return mk(z3.If(v.z >= 0, z3.ToInt(v.z), -z3.ToInt(-v.z)))
        if isinstance(v, SStr):
            if self.ctx.branch(uf("isint", S, B)(v.z)):
                return mk(uf("str2int", S, I)(v.z))
            raise raises(ValueError, "int")
        if isinstance(v, (PList, PDict, tuple)) or v is None:
            raise raises(TypeError, "int")
        try:
            return int(v)
        except (ValueError, TypeError) as ex:
            raise raises(type(ex), "int")

    def b_float(self, v=0.0):
        v = self.conc(v)
        if isinstance(v, (SInt, SReal, SBool)):
            return mk(self.z(v, R))
        if isinstance(v, SStr):
            if self.ctx.branch(uf("isfloat", S, B)(v.z)):
                return mk(uf("str2real", S, R)(v.z))
            raise raises(ValueError, "float")
        if isinstance(v, (PList, PDict, tuple)) or v is None:
            raise raises(TypeError, "float")
        try:
            return float(v)
        except (ValueError, TypeError) as ex:
            raise raises(type(ex), "float")

    def b_bool(self, v=False):
        return self.truth(v)

    def b_list(self, v=()):
        return PList(self.segments(v))

    def b_tuple(self, v=()):
        segs = self.segments(v)
        if any(isinstance(x, (OSeg, FSeg)) for x in segs):
            return PList(segs, kind="tuple")
        return tuple(segs)

    def b_set(self, v=()):
        return PSet(self.segments(v))

    def b_frozenset(self, v=()):
        v = self.conc(v)
        if isinstance(v, (list, tuple, set, frozenset)):
            return frozenset(v)
        return PSet(self.segments(v))

    def b_dict(self, *a, **k):
        return self.new_dict(dict, a, k)

    def b_OrderedDict(self, *a, **k):
        return self.new_dict(collections.OrderedDict, a, k)

    def new_dict(self, cls, a, k):
        d = PDict(dcls=cls)
        self.declare(d)
        if a:
            self.dict_update(d, a[0])
        for kk, v in k.items():
            self.dict_set(d, kk, v)
        return d

    def declare(self, d):
        """types of the entries of new dicts, as declared by the contract (an invariant that the loops have to keep)"""
        if d.dcls in self.new_types:
            d.ty = self.new_types[d.dcls]
            d.typed = True

    def new_model_dict(self, cls, args, kwargs):
        d = PDict(dcls=cls, factory=args[0] if args else None)
        self.declare(d)
        if len(args) > 1:
            self.dict_update(d, args[1])
        for k, v in kwargs.items():
            self.dict_set(d, k, v)
        return d

    def b_enumerate(self, it, start=0):
        return IterView("enumerate", [it], start=start)

    def b_zip(self, *its):
        return IterView("zip", list(its))

    def b_zip_longest(self, *its, fillvalue=None):
        return IterView("zip_longest", list(its), fill=fillvalue)

    def b_reversed(self, it):
        segs = self.segments(it)
        if not any(isinstance(x, (OSeg, FSeg)) for x in segs):
            return PList(tuple(reversed(segs)))
        if len(segs) == 1 and isinstance(segs[0], OSeg):
            return PList([OSeg(uf("reversed", U, U)(segs[0].t), segs[0].ty)])
        if all(isinstance(x, FSeg) and all(self.conforms(y, TStr) for c, ys in x.cases for y in ys) or not isinstance(x, (OSeg, FSeg)) and self.conforms(x, TStr) for x in segs):
            return PList([OSeg(uf("reversed", U, U)(self.seq_term(segs)), TStr)])
        raise Unsupported("reversed")

    def b_map(self, f, it):
        return self.lazy(lambda consumer: self.iterate(it, lambda x: consumer(self.call(f, (x,)))))

    def b_filter(self, f, it):
        def body(x, consumer):
            if self.truth(x if f is None else self.call(f, (x,))):
                consumer(x)

        return self.lazy(lambda consumer: self.iterate(it, lambda x: body(x, consumer)))

    def lazy(self, run):
        from pyvc.interp import LazyGen

        return LazyGen(run)

    def b_range(self, *a):
        try:
            return range(*[self.to_native(self.conc(x)) for x in a])
        except NotNative:
            raise Unsupported("range of unknown length")

    def b_any(self, it):
        tag = object()

        def body(x):
            if self.truth(x):
                raise GenBreak(tag)

        try:
            self.iterate(it, body)
        except GenBreak as g:
            if g.tag is not tag:
                raise
            return True
        return False

    def b_all(self, it):
        tag = object()

        def body(x):
            if not self.truth(x):
                raise GenBreak(tag)

        try:
            self.iterate(it, body)
        except GenBreak as g:
            if g.tag is not tag:
                raise
            return False
        return True

    def b_next(self, it, *default):
        tag = object()
        if type(it).__name__ != "LazyGen" and not isinstance(it, (IterView,)):
            raise Unsupported("next of %r" % type(it))

        def body(x):
            raise GenBreak(tag, x)

        try:
            self.iterate(it, body)
        except GenBreak as g:
            if g.tag is not tag:
                raise
            return g.value
        if default:
            return default[0]
        raise raises(StopIteration)

    def b_iter(self, it):
        return IterView("iter", [it])

    def _extreme(self, op, args, kwargs):
        key = kwargs.get("key")
        if key is not None:
            raise Unsupported("max with a key")
        if len(args) > 1:
            m = args[0]
            for x in args[1:]:
                m = self._pick(op, m, x)
            return m
        segs = self.b_list(args[0]).state
        if any(isinstance(x, (OSeg, FSeg)) for x in segs) and all(self.all_ints(x) for x in segs):
            if self.nonempty_segs(segs):
                consts = self.constants(segs)
                if consts is not None and len(consts) == 1:
                    return consts.pop()
                m = uf("max" if op is ast.Gt else "min", U, I)(self.seq_term(segs))
                if all(self.all_ints(x, True) for x in segs):
                    self.ctx.assume(m >= 0)
                return mk(m)
            if "default" in kwargs:
                return kwargs["default"]
            raise raises(ValueError, "empty")
        args = (PList(segs),)
        f = Frame({"m": None, "any": False})

        def body(x):
            m = f.vars["m"]
            if isinstance(m, POISON):
                raise NeedHavoc(m.key)
            if self.truth(f.vars["any"]):
                v = self._pick(op, m, x)
            else:
                v = x
            self.put_item(f, "vars", "any", True)
            self.put_item(f, "vars", "m", v)

        self.iterate(args[0], body)
        if self.truth(f.vars["any"]):
            return f.vars["m"]
        if "default" in kwargs:
            return kwargs["default"]
        raise raises(ValueError, "empty")

    def constants(self, segs):
        """the elements, when all of them are known"""
        out = set()
        for x in segs:
            if isinstance(x, FSeg):
                for c, suf in x.cases:
                    k = self.constants(suf)
                    if k is None:
                        return None
                    out |= k
            elif type(x) is int:
                out.add(x)
            else:
                return None
        return out

    def all_ints(self, x, natural=False):
        """all elements are integers (natural: lengths and constants that are not negative)"""
        if isinstance(x, OSeg):
            return not natural and x.ty.kinds == {"int"}
        if isinstance(x, FSeg):
            return all(self.all_ints(y, natural) for c, suf in x.cases for y in suf)
        if isinstance(x, SInt):
            return not natural or z3.is_app_of(x.z, z3.Z3_OP_SEQ_LENGTH)
        return isinstance(x, int) and not isinstance(x, bool) and (not natural or x >= 0)

    def _pick(self, op, m, x):
        """max / min of two values; the first one when they are equal"""
        m, x = self.conc(m), self.conc(x)
        if isinstance(m, (int, SInt)) and isinstance(x, (int, SInt)) and (isinstance(m, Sym) or isinstance(x, Sym)):
            a, b = self.z(m, I), self.z(x, I)
            return mk(z3.If(b > a if op is ast.Gt else b < a, b, a))
        return x if self.truth(self.compare(op, x, m)) else m

    def b_max(self, *a, **k):
        return self._extreme(ast.Gt, a, k)

    def b_min(self, *a, **k):
        return self._extreme(ast.Lt, a, k)

    def b_sum(self, it, start=0):
        f = Frame({"s": start})

        def body(x):
            self.put_item(f, "vars", "s", self.binop(ast.Add, f.vars["s"], x))

        self.iterate(it, body)
        return f.vars["s"]

    def b_abs(self, v):
        v = self.conc(v)
        if isinstance(v, (SInt, SReal)):
            return mk(z3.If(v.z >= 0, v.z, -v.z))
        return abs(v)

    def b_sorted(self, it, key=None, reverse=False):
        if isinstance(it, PSet):
            segs, tag = (it.state, "set")
        else:
            segs, tag = self.segments(it), ""
        try:
            if key is None:
                return self.from_native_value(sorted(self.to_native(PList(segs)) if not tag else set(self.to_native(PList(segs))), reverse=bool(reverse)))
        except NotNative:
            pass
        except TypeError as ex:
            raise raises(TypeError, *ex.args)
        if not isinstance(reverse, bool):
            raise Unsupported("sorted")
        t = self.seq_term(segs)
        if len(segs) == 1 and not isinstance(segs[0], (OSeg, FSeg)) and not tag:
            return PList(segs)
        if not segs:
            return PList()
        ty, unique = self.seg_type(segs), False
        if isinstance(it, IterView) and it.what in ("items", "keys"):
            d = self.conc(it.parts[0])
            if isinstance(d, PDict) and d.base is not None and not d.state and not d.ty.odd():
                # the keys are strings, and no two of them are equal: values are never compared
                ty, unique = TTuple(TStr, d.ty.val or TAny) if it.what == "items" else TStr, True
        name = "sorted%s%s" % (tag, "-rev" if reverse else "")
        if key is None and unique:
            self.used_assumptions.add("sorted() depends on the items only")
            return PList([OSeg(uf(name, U, U)(t), ty)])
        if key is None:
            if self.may_raise_sort(ty):
                if self.ctx.branch(uf("unsortable" + tag, U, B)(t)):
                    raise raises(TypeError, "sort")
            self.used_assumptions.add("sorted() depends on the items only")
            return PList([OSeg(uf(name, U, U)(t), ty)])
        keys = PList()
        self.iterate(PList(segs), lambda x: self.list_append(keys, self.call(key, (x,))))
        self.used_assumptions.add("sorted() depends on the items and their keys only")
        return PList([OSeg(uf(name + "-key", U, U, U)(t, self.seq_term(keys.state)), ty)])

    def may_raise_sort(self, ty):
        return ty is TAny or len(ty.kinds) > 1

    def seg_type(self, segs):
        for x in segs:
            if isinstance(x, OSeg):
                return x.ty
        return TAny

    def b_getattr(self, o, name, *default):
        try:
            return self.getattr(o, name)
        except PyRaise as ex:
            if default and issubclass(ex.exc.cls, AttributeError):
                return default[0]
            raise

    def b_hasattr(self, o, name):
        try:
            self.getattr(o, name)
            return True
        except PyRaise as ex:
            if issubclass(ex.exc.cls, AttributeError):
                return False
            raise

    def b_setattr(self, o, name, v):
        self.setattr(o, name, v)

    def b_type(self, v):
        v = self.conc(v)
        if isinstance(v, SymObj):
            return v.cls
        if isinstance(v, PDict):
            return v.dcls
        if isinstance(v, PList):
            return list if v.kind == "list" else tuple
        if isinstance(v, PExc):
            return v.cls
        for a, b in ((SInt, int), (SStr, str), (SBool, bool), (SReal, float)):
            if isinstance(v, a):
                return b
        if isinstance(v, PSet):
            return set
        return type(v)

    def b_callable(self, v):
        v = self.conc(v)
        if isinstance(v, (Sym, PList, PDict, PSet, PExc)):
            return False
        if isinstance(v, SymObj):
            if v.term is not None and v.ty is not None and "__call__" in v.ty.fields:
                return True
            return any("__call__" in c.__dict__ for c in v.cls.__mro__)
        if type(v).__name__ in ("InterpFunc", "Bound", "ModelMethod", "Py"):
            return True
        return callable(v)

    def b_id(self, v):
        raise Unsupported("id")

    def b_repr(self, v):
        try:
            return repr(self.to_native(v))
        except NotNative:
            return mk(uf("repr", U, S)(self.term(v)))

    def b_ord(self, v):
        try:
            return ord(self.to_native(self.conc(v)))
        except NotNative:
            return mk(uf("ord", S, I)(self.z(v, S)))

    def b_copy(self, v):
        v = self.conc(v)
        if isinstance(v, PDict):
            if v.dcls in self.interp_classes:
                return self.call(self.getattr(v, "__copy__"))
            return PDict(v.base, v.state, v.ty, v.dcls, factory=v.factory)
        if isinstance(v, PList):
            return PList(v.state, kind=v.kind)
        if isinstance(v, (Sym, tuple, str, int, float, type(None))):
            return v
        raise Unsupported("copy of %r" % type(v))

    def b_print(self, *a, **k):
        raise Unsupported("print")

    def b_open(self, *a, **k):
        raise Unsupported("open")

    # ------------------------------------------------------------ operators
    def binop(self, op, a, b):
        for x in (a, b):
            if isinstance(x, POISON):
                raise NeedHavoc(x.key)
        name = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.BitOr: "or_",
                ast.BitAnd: "and_", ast.Pow: "pow", ast.BitXor: "xor"}.get(op)
        if name is None:
            raise Unsupported("operator %s" % op.__name__)
        a, b = self.conc(a), self.conc(b)
        if isinstance(a, STR) and op is ast.Mod:
            return self.percent(a, b)
        if isinstance(a, STR) and isinstance(b, STR) and op is ast.Add:
            return self.concat([a, b])
        if op is ast.Mult:
            for s, n in ((a, b), (b, a)):
                if isinstance(s, STR) and isinstance(n, (int, SInt, bool)):
                    if isinstance(s, str) and isinstance(n, int):
                        return s * n
                    return self.rep(s, n)
                if isinstance(s, (PList, tuple)) and isinstance(n, (int, SInt)):
                    if isinstance(n, Sym):
                        raise Unsupported("list * n")
                    return s * n if isinstance(s, tuple) else PList(s.state * n, kind=s.kind)
        if op is ast.Add and isinstance(a, (PList, tuple)) and isinstance(b, (PList, tuple)):
            if self.kinds(a) != self.kinds(b):
                raise raises(TypeError, "add")
            sa, sb = (x if isinstance(x, tuple) else x.state for x in (a, b))
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            return PList(tuple(sa) + tuple(sb), kind=next(iter(self.kinds(a))))
        if isinstance(a, (PSet, frozenset)) and isinstance(b, (PSet, frozenset)):
            try:
                return self.from_native_value(getattr(operator, name)(self.to_native(a), self.to_native(b)))
            except NotNative:
                return PSet([OSeg(uf("set-" + name, U, U, U)(self.set_term(a), self.set_term(b)), TAny)])
        if isinstance(a, NUM) and isinstance(b, NUM):
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                try:
                    return getattr(operator, name)(a, b)
                except ZeroDivisionError as ex:
                    raise raises(ZeroDivisionError, *ex.args)
            real = isinstance(a, (float, SReal)) or isinstance(b, (float, SReal)) or op is ast.Div
            s = R if real else I
            x, y = self.z(a, s), self.z(b, s)
            if real:
                self.used_assumptions.add("floats are mathematical reals")
            if op is ast.Add:
                return mk(x + y)
            if op is ast.Sub:
                return mk(x - y)
            if op is ast.Mult:
                return mk(x * y)
            if op in (ast.Div, ast.FloorDiv, ast.Mod):
                if self.ctx.branch(y == 0):
                    raise raises(ZeroDivisionError)
                if op is ast.Div:
                    return mk(x / y)
                if not real:
                    # floor semantics
                    q = z3.If(y > 0, x / y, (-x) / (-y))
                    return mk(q) if op is ast.FloorDiv else mk(x - q * y)
            raise Unsupported("operator %s on numbers" % name)
        if isinstance(a, (PDict,)) and isinstance(b, PDict) and op is ast.BitOr:
            d = PDict(a.base, a.state, a.ty, a.dcls, factory=a.factory)
            self.dict_update(d, b)
            return d
        if any(isinstance(x, (Sym, PList, PDict, PSet, SymObj)) for x in (a, b)):
            raise raises(TypeError, name)
        try:
            return getattr(operator, name)(a, b)
        except TypeError as ex:
            raise raises(TypeError, *ex.args)

    def set_term(self, s):
        if isinstance(s, frozenset):
            return const("native:%r" % sorted(s, key=repr), U)
        return self.seq_term(s.state)

    def rep(self, s, n):
        if isinstance(n, int) and n <= 0:
            return ""
        if n == 1 and not isinstance(n, Sym):
            return s
        z = uf("rep", S, I, S)(self.z(s, S), self.z(n, I))
        return mk(z)

    def concat(self, parts):
        out = []
        for p in parts:
            p = self.conc(p)
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif not (isinstance(p, str) and p == ""):
                out.append(p)
        if not out:
            return ""
        if len(out) == 1:
            return out[0]
        return mk(z3.Concat([self.z(p, S) for p in out]))

    def percent(self, f, arg):
        if not isinstance(f, str):
            raise Unsupported("% with an unknown format")
        args = list(arg) if isinstance(arg, tuple) else [arg]
        parts, i, n = [], 0, 0
        for m in re.finditer(r"%(.)", f):
            parts.append(f[i:m.start()])
            i = m.end()
            if m.group(1) == "%":
                parts.append("%")
            elif m.group(1) == "s":
                if n >= len(args):
                    raise raises(TypeError, "format")
                parts.append(self.to_str(args[n]))
                n += 1
            elif m.group(1) == "d" and n < len(args) and isinstance(self.conc(args[n]), (int, SInt)):
                parts.append(self.to_str(args[n]))
                n += 1
            else:
                raise Unsupported("format %" + m.group(1))
        if n != len(args):
            raise raises(TypeError, "format")
        parts.append(f[i:])
        return self.concat(parts)

    def compare(self, op, a, b):
        for x in (a, b):
            if isinstance(x, POISON):
                raise NeedHavoc(x.key)
        if op is ast.Eq:
            return mk(self.zb(self.pyeq(a, b)))
        if op is ast.NotEq:
            return mk(z3.Not(self.zb(self.pyeq(a, b))))
        if op is ast.Is:
            return self.is_same(a, b)
        if op is ast.IsNot:
            return not self.is_same(a, b)
        if op is ast.In:
            return self.contains(b, a)
        if op is ast.NotIn:
            r = self.contains(b, a)
            return (not r) if isinstance(r, bool) else mk(z3.Not(r.z))
        a, b = self.conc(a), self.conc(b)
        f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[op]
        if isinstance(a, NUM) and isinstance(b, NUM):
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return f(a, b)
            s = R if isinstance(a, (float, SReal)) or isinstance(b, (float, SReal)) else I
            return mk(f(self.z(a, s), self.z(b, s)))
        if isinstance(a, STR) and isinstance(b, STR):
            if isinstance(a, str) and isinstance(b, str):
                return f(a, b)
            return mk(f(self.z(a, S), self.z(b, S)))
        if self.kinds(a) != self.kinds(b) or isinstance(a, (PDict, type(None))):
            raise raises(TypeError, "not comparable")
        raise Unsupported("comparison of %r" % type(a))

    def is_same(self, a, b):
        for x, y in ((a, b), (b, a)):
            if y is None:
                return self.kind_in(x, ["none"])
            if isinstance(y, bool):
                if not self.kind_in(x, ["bool"]):
                    return False
                x = self.force(x)
                return self.ctx.branch(x.z == y) if isinstance(x, SBool) else x is y
        if isinstance(a, SVal) and isinstance(b, SVal) and a.t.eq(b.t):
            return True
        a, b = self.conc(a), self.conc(b)
        if a is b:
            return True
        if isinstance(a, Heap) and isinstance(b, Heap):
            if (a.serial and b.serial) or a.serial != b.serial:
                return False
            raise Unsupported("identity of inputs")
        if isinstance(a, Sym) or isinstance(b, Sym):
            raise Unsupported("identity of values")
        return a is b

    def contains(self, c, x):
        if isinstance(c, SVal):
            c = self.need_kinds(c, ["str", "list", "tuple", "dict"])
        if isinstance(c, IterView):
            if c.what == "keys":
                return self.dict_has(self.conc(c.parts[0]), x)
            c = PList(self.segments(c))
        if isinstance(c, STR):
            if isinstance(x, SVal):
                x = self.need_kinds(x, ["str"])
            if not isinstance(x, STR):
                raise raises(TypeError, "in")
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            return mk(z3.Contains(self.z(c, S), self.z(x, S)))
        if isinstance(c, PDict):
            if c.dcls in self.interp_classes:
                return self.truth(self.call(self.getattr(c, "__contains__"), (x,)))
            return self.dict_has(c, x)
        if isinstance(c, RawDict):
            return self.dict_has(c.obj, x, fold=False)
        if isinstance(c, (PList, tuple, frozenset, PSet, list, set)):
            items = c.state if isinstance(c, (PList, PSet)) else c
            if isinstance(c, (frozenset, set)):
                items = sorted(c, key=repr)
            if isinstance(c, (frozenset, PSet)) and self.kind_in(x, ["list", "dict"]):
                raise raises(TypeError, "unhashable")
            if self.abstract_sets and len(items) >= self.abstract_sets and all(isinstance(y, str) for y in items) and "str" in self.kinds(x):
                # membership in a set of names, known by its content only
                if isinstance(x, SVal):
                    if not self.kind_in(x, ["str"]):
                        return False
                    x = self.force(x)
                if isinstance(x, SStr):
                    return mk(uf("in:" + repr(sorted(set(items))), S, B)(x.z))
            fs = []
            for y in items:
                if isinstance(y, OSeg):
                    fs.append(self.exists_eq(Src(y.t, y.ty), x))
                elif isinstance(y, FSeg):
                    g = z3.Or([z3.And([cc] + [z3.Or([self.zb(self.pyeq(i, x)) for i in s] or [z3.BoolVal(False)])]) for cc, s in y.cases])
                    fs.append(self.exists(y.src, g, y.facts))
                else:
                    f = self.pyeq(y, x)
                    if f is True:
                        return True
                    if f is not False:
                        fs.append(f)
            return mk(z3.Or(fs)) if fs else False
        if isinstance(c, dict):
            try:
                return self.to_native(x) in c
            except NotNative:
                return self.contains(tuple(c), x)
        if isinstance(c, SymObj):
            m = self.class_attr(c, "__contains__")
            if m is not None:
                return self.truth(self.call(m, (x,)))
        if type(c).__name__ == "LazyGen":
            return self.contains(PList(self.segments(c)), x)
        raise raises(TypeError, "in")

    def exists_eq(self, src, x):
        return self.exists(src, self.zb(self.pyeq(src.make(self), x)))

    # ------------------------------------------------------------ sequences
    def segments(self, v):
        """state of the sequence of the items of an iterable"""
        v = self.conc(v)
        if isinstance(v, (PList,)):
            return v.state
        if isinstance(v, PSet):
            if len(v.state) > 1:
                raise Unsupported("order of a set")
            return v.state
        if isinstance(v, (tuple, list)):
            return tuple(self.from_native_value(x) if isinstance(v, list) else x for x in v)
        if isinstance(v, range):
            return tuple(v)
        if isinstance(v, str):
            return tuple(v)
        if isinstance(v, frozenset):
            raise Unsupported("order of a set")
        if isinstance(v, SStr):
            return (OSeg(uf("chars", S, U)(v.z), TStr),)
        if isinstance(v, (PDict, IterView, dict)) or type(v).__name__ == "LazyGen":
            out = PList()
            self.iterate(v, lambda x: self.list_append(out, x))
            return out.state
        raise raises(TypeError, "not iterable")

    def concrete_items(self, v):
        segs = self.segments(v)
        if any(isinstance(x, (OSeg, FSeg)) for x in segs):
            raise Unsupported("sequence of unknown length")
        return list(segs)

    def list_append(self, lst, x):
        if isinstance(x, POISON):
            raise NeedHavoc(x.key)
        if isinstance(x, SVal) and len(self.kinds(x)) == 1:
            x = self.force(x)
        self.put(lst, "state", lst.state + (x,))

    def list_extend(self, lst, v):
        v = self.conc(v)
        if isinstance(v, (PList, tuple)):
            self.put(lst, "state", lst.state + tuple(self.segments(v)))
            return
        self.put(lst, "state", lst.state + tuple(self.segments(v)))

    def iterate(self, it, body, orelse=None):
        it = self.conc(it)
        if type(it).__name__ == "LazyGen":
            tag = object()

            def consumer(x):
                try:
                    body(x)
                except BreakLoop:
                    raise GenBreak(tag)
                except ContinueLoop:
                    pass

            try:
                it.run(consumer)
            except GenBreak as g:
                if g.tag is not tag:
                    raise
                return
            if orelse:
                orelse()
            return
        segs = self.iter_parts(it)

        def run(i):
            while i < len(segs):
                s = segs[i]
                if isinstance(s, Src):
                    if isinstance(s, FlatSrc):
                        self.abstract_for(s, self.flat_body(s, body), lambda: run(i + 1))
                    else:
                        self.abstract_for(s, body, lambda: run(i + 1))
                    return
                if isinstance(s, Guarded):
                    if not s.present(self):
                        i += 1
                        continue
                    s = s.value
                try:
                    body(s)
                except ContinueLoop:
                    pass
                except BreakLoop:
                    return
                i += 1
            if orelse:
                orelse()

        run(0)

    def flat_body(self, src, body):
        def fbody(sub):
            ren = (lambda z: _subst(z, sub)) if sub else (lambda z: z)
            for f in src.seg.facts:
                self.ctx.assume(ren(f))
            for c, suf in src.seg.cases:
                if self.ctx.branch(ren(c)):
                    for y in suf:
                        if isinstance(y, (OSeg, FSeg)):
                            y = self.rename(y, ren) if sub else y
                            self.iterate_nested(y, body)
                            continue
                        try:
                            body(self.rename(y, ren) if sub else y)
                        except ContinueLoop:
                            pass
                    return
            raise Infeasible()

        return fbody

    def in_range(self, s, i):
        if not self.ctx.branch(z3.And(i.z >= 0, i.z < slen(s.t))):
            if s.t.sexpr() in self.length_vars:
                raise NeedLength(s.t.sexpr())
            raise Unsupported("index of a list")

    def replace_item(self, o, s, i, v):
        """item i of the sequence s is now v"""
        t = uf("replaced", U, I, U, U)(s.t, i.z, self.term(v))
        self.ctx.assume(slen(t) == slen(s.t))
        self.replaced[t.sexpr()] = (s.t, i.z, v)
        ty = s.ty if self.conforms(v, s.ty) else TAny
        self.put(o, "state", (OSeg(t, ty),))

    def iterate_nested(self, seg, body):
        tag = object()

        def b(x):
            try:
                body(x)
            except BreakLoop:
                raise GenBreak(tag)

        try:
            self.iterate(PList([seg]), b)
        except GenBreak as g:
            if g.tag is not tag:
                raise
            raise BreakLoop()

    def iter_parts(self, it):
        """items, Src objects and guarded items, in order"""
        if isinstance(it, (PList, tuple, range, str, SStr, PSet, list)):
            out = []
            for x in (it.state if isinstance(it, PSet) else self.segments(it)):
                if isinstance(x, OSeg):
                    out.append(x.src if type(x.src) is not Src else Src(x.t, x.ty))
                elif isinstance(x, FSeg):
                    out.append(FlatSrc(x))
                else:
                    out.append(x)
            return out
        if isinstance(it, frozenset):
            return sorted(it, key=repr)
        if isinstance(it, dict):
            return list(it)
        if isinstance(it, PDict):
            return self.dict_parts(it, "keys")
        if isinstance(it, IterView):
            if it.what in ("items", "keys", "values"):
                return self.dict_parts(self.conc(it.parts[0]), it.what)
            if it.what == "iter":
                return self.iter_parts(self.conc(it.parts[0]))
            parts = [self.as_parts(p) for p in it.parts]
            if it.what == "enumerate":
                p = parts[0]
                start = it.start
                if not any(isinstance(x, (Src, Guarded)) for x in p):
                    if isinstance(start, Sym):
                        return [(mk(start.z + i), x) for i, x in enumerate(p)]
                    return [(i + start, x) for i, x in enumerate(p)]
                if len(p) == 1 and isinstance(start, int):
                    return [EnumSrc(p[0], start)]
                raise Unsupported("enumerate of a mixed sequence")
            if all(not any(isinstance(x, (Src, Guarded)) for x in p) for p in parts):
                f = zip if it.what == "zip" else functools.partial(itertools.zip_longest, fillvalue=it.fill)
                return list(f(*parts))
            if len(parts) == 2:
                longest = it.what == "zip_longest"
                if longest and it.fill is not None:
                    raise Unsupported("fillvalue")
                if longest and not parts[0] and len(parts[1]) == 1:
                    return [ConstZip(parts[1][0], 1)]
                if longest and not parts[1] and len(parts[0]) == 1:
                    return [ConstZip(parts[0][0], 0)]
                if not longest and (not parts[0] or not parts[1]):
                    return []
                if all(len(p) == 1 and isinstance(p[0], Src) for p in parts):
                    return [ZipSrc(parts[0][0], parts[1][0], longest)]
            raise Unsupported("zip")
        if isinstance(it, GhostOut):
            raise Unsupported("reading an output")
        raise raises(TypeError, "not iterable")

    def as_parts(self, it):
        it = self.conc(it)
        if type(it).__name__ == "LazyGen":
            it = PList(self.segments(it))
        return self.iter_parts(it)

    def index_of(self, i):
        i = self.conc(i)
        if isinstance(i, SBool):
            return self.b_int(i)
        return i

    def getitem(self, o, i):
        if isinstance(o, SVal):
            o = self.need_kinds(o, ["str", "list", "tuple", "dict"])
        if isinstance(o, POISON):
            raise NeedHavoc(o.key)
        if isinstance(o, PDict):
            if o.dcls in self.interp_classes:
                return self.call(self.getattr(o, "__getitem__"), (i,))
            return self.dict_getitem(o, i)
        if isinstance(o, dict):
            o = self.from_native_value(dict(o))
            return self.dict_getitem(o, i)
        i = self.index_of(i)
        if isinstance(o, (PList, tuple, STR, SStr, list)) and not isinstance(i, (int, SInt)):
            raise raises(TypeError, "index")
        if isinstance(o, PList) or isinstance(o, tuple):
            st = o.state if isinstance(o, PList) else o
            return self.seq_at(st, i)
        if isinstance(o, STR):
            if isinstance(o, str) and isinstance(i, int):
                if -len(o) <= i < len(o):
                    return o[i]
                raise raises(IndexError)
            z, n = self.z(o, S), self.z(i, I)
            ln = z3.Length(z)
            if isinstance(i, int) and i < 0:
                n = ln + i
            elif isinstance(i, SInt):
                n = z3.If(n < 0, n + ln, n)
            if not self.ctx.branch(z3.And(n >= 0, n < ln)):
                raise raises(IndexError)
            return mk(z3.SubString(z, n, 1))
        if isinstance(o, (list, range)) and isinstance(i, int):
            try:
                return self.from_native_value(o[i])
            except IndexError as ex:
                raise raises(IndexError, *ex.args)
        if isinstance(o, SymObj):
            m = self.class_attr(o, "__getitem__")
            if m is not None:
                return self.call(m, (i,))
        if isinstance(o, SMatch):
            return self.match_group(o, i)
        if isinstance(o, type):
            return o
        raise raises(TypeError, "not subscriptable")

    def seq_at(self, st, i):
        conc = not any(isinstance(x, (OSeg, FSeg)) for x in st)
        if isinstance(i, int):
            if i >= 0:
                for j, x in enumerate(st):
                    if isinstance(x, (OSeg, FSeg)):
                        break
                    if j == i:
                        return x
            else:
                for j in range(1, len(st) + 1):
                    if isinstance(st[-j], (OSeg, FSeg)):
                        break
                    if -j == i:
                        return st[i]
            if conc:
                raise raises(IndexError)
            n = self.z(self.state_len(st), I)
            if not self.ctx.branch(n > i if i >= 0 else n >= -i):
                raise raises(IndexError)
            if len(st) == 1:
                t = st[0].t if isinstance(st[0], OSeg) else self.flat_term(st[0])
                return self.at(t, z3.IntVal(i), st[0].ty if isinstance(st[0], OSeg) else TAny)
            if i >= 0:
                for j, x in enumerate(st):
                    if isinstance(x, OSeg):
                        if j == len(st) - 1 or self.ctx.branch(slen(x.t) > i - j):
                            return self.at(x.t, z3.IntVal(i - j), x.ty)
                        break
                    if isinstance(x, FSeg):
                        break
            else:
                for j in range(1, len(st) + 1):
                    x = st[-j]
                    if isinstance(x, OSeg):
                        k = -i - j + 1          # k-th element from the end of the segment
                        if j == len(st) or self.ctx.branch(slen(x.t) >= k):
                            return self.at(x.t, slen(x.t) - k, x.ty)
                        break
                    if isinstance(x, FSeg):
                        break
            raise Unsupported("index into a mixed sequence")
        if conc:
            n = len(st)
            for j in range(n):
                if self.ctx.branch(z3.Or(i.z == j, i.z == j - n)):
                    return st[j]
            raise raises(IndexError)
        n = self.z(self.state_len(st), I)
        if not self.ctx.branch(z3.And(i.z < n, i.z >= -n)):
            raise raises(IndexError)
        if len(st) == 1 and isinstance(st[0], OSeg):
            return self.at(st[0].t, i.z, st[0].ty)
        return self.at(self.seq_term(st), i.z, TAny)

    def at(self, t, i, ty):
        return SVal(uf("at", U, I, U)(t, i), ty)

    def getslice(self, o, lo, hi, st):
        if isinstance(o, SVal):
            o = self.need_kinds(o, ["str", "list", "tuple"])
        lo, hi, st = self.conc(lo), self.conc(hi), self.conc(st)
        if st is not None and st != 1:
            try:
                return self.from_native_value(self.to_native(o)[lo:hi:st])
            except NotNative:
                raise Unsupported("slice with a step")
        if isinstance(o, str) and not isinstance(lo, Sym) and not isinstance(hi, Sym):
            return o[lo:hi]
        if isinstance(o, STR):
            z = self.z(o, S)
            n = z3.Length(z)

            def pos(x, default):
                if x is None:
                    return default
                if isinstance(x, int):
                    return z3.If(n < x, n, z3.IntVal(x)) if x >= 0 else z3.If(n + x < 0, z3.IntVal(0), n + x)
                v = x.z
                v = z3.If(v < 0, v + n, v)
                return z3.If(v < 0, z3.IntVal(0), z3.If(v > n, n, v))

            a, b = pos(lo, z3.IntVal(0)), pos(hi, n)
            if lo is not None and isinstance(lo, int) and lo >= 0 and (hi is None or (isinstance(hi, int) and hi < 0)):
                # out of range offsets give the empty string in both languages
                return mk(z3.SubString(z, lo, n - lo + (hi or 0)))
            return mk(z3.SubString(z, a, z3.If(b > a, b - a, z3.IntVal(0))))
        if isinstance(o, (PList, tuple)):
            s = o.state if isinstance(o, PList) else o
            kind = o.kind if isinstance(o, PList) else "tuple"
            if any(isinstance(x, Sym) for x in (lo, hi)):
                if lo in (None, 0) and False:
                    pass
                raise Unsupported("slice with unknown bounds")
            if not any(isinstance(x, (OSeg, FSeg)) for x in s):
                return s[lo:hi] if isinstance(o, tuple) else PList(s[lo:hi], kind=kind)
            if lo is not None and lo >= 0 and hi is None:
                # drop concrete items
                if not any(isinstance(x, (OSeg, FSeg)) for x in s[:lo]) and len(s) >= lo:
                    return PList(s[lo:], kind=kind)
            if lo in (None, 0) and hi is not None and hi < 0 and not any(isinstance(x, (OSeg, FSeg)) for x in s[hi:]) and len(s) >= -hi:
                return PList(s[:hi], kind=kind)
            if lo is not None and lo >= 0 and hi is not None and hi < 0:
                if not any(isinstance(x, (OSeg, FSeg)) for x in tuple(s[:lo]) + tuple(s[hi:])) and len(s) >= lo - hi:
                    return PList(s[lo:hi], kind=kind)
            if lo in (None, 0) and hi is not None and hi >= 0 and not any(isinstance(x, (OSeg, FSeg)) for x in s[:hi]) and len(s) >= hi:
                return PList(s[:hi], kind=kind)
            if len(s) == 1 and isinstance(s[0], OSeg):
                t = uf("slice:%s:%s" % (lo, hi), U, U)(s[0].t)
                n = slen(s[0].t)
                self.ctx.assume(n >= 0)
                a = 0 if lo is None else (lo if lo >= 0 else z3.If(n + lo < 0, 0, n + lo))
                b = n if hi is None else (z3.If(n < hi, n, z3.IntVal(hi)) if hi >= 0 else n + hi)
                self.ctx.assume(slen(t) == z3.If(b - a > 0, b - a, z3.IntVal(0)))
                return PList([OSeg(t, s[0].ty)], kind=kind)
            raise Unsupported("slice of a mixed sequence")
        raise raises(TypeError, "slice")

    def setitem(self, o, i, v):
        o = self.conc(o)
        if isinstance(v, POISON):
            raise NeedHavoc(v.key)
        if isinstance(o, PDict):
            if o.dcls in self.interp_classes:
                self.call(self.getattr(o, "__setitem__"), (i, v))
                return
            self.dict_set(o, i, v)
            return
        if isinstance(o, PList) and o.kind == "list":
            i = self.index_of(i)
            if isinstance(i, int):
                s = list(o.state)
                rng = range(i + 1) if i >= 0 else range(i, 0)
                if all(-len(s) <= j < len(s) and not isinstance(s[j], (OSeg, FSeg)) for j in rng):
                    s[i] = v
                    self.put(o, "state", tuple(s))
                    return
                if o.concrete():
                    raise raises(IndexError)
            raise Unsupported("item assignment in an unknown list")
        if isinstance(o, SymObj):
            m = self.class_attr(o, "__setitem__")
            if m is not None:
                self.call(m, (i, v))
                return
        raise raises(TypeError, "item assignment")

    def delitem(self, o, i):
        o = self.conc(o)
        if isinstance(o, PDict):
            if o.dcls in self.interp_classes:
                self.call(self.getattr(o, "__delitem__"), (i,))
                return
            if not self.truth(self.dict_has(o, i)):
                raise raises(KeyError)
            self.dict_del(o, i)
            return
        if isinstance(o, PList) and o.concrete() and isinstance(i, int):
            s = list(o.state)
            try:
                del s[i]
            except IndexError:
                raise raises(IndexError)
            self.put(o, "state", tuple(s))
            return
        raise Unsupported("del item")

    # ------------------------------------------------------------ dicts
    def fold_key(self, d, k, fold=True):
        k = self.conc(k)
        if fold and d.dcls in self.model_classes and self.model_classes[d.dcls] and isinstance(k, STR):
            return self.str_method(k, "lower", [])
        if isinstance(k, (PList, PDict, PSet)) and not (isinstance(k, PList) and k.kind == "tuple"):
            raise raises(TypeError, "unhashable")
        return k

    def find_entry(self, d, k):
        """index of the entry of the overlay with that key, or None (branches)"""
        for i in range(len(d.state) - 1, -1, -1):
            e = self.pyeq(d.state[i][0], k)
            if e is True or (e is not False and self.ctx.branch(e)):
                return i
        return None

    def base_has(self, d, k):
        if d.base is None:
            return False
        if not isinstance(k, STR):
            if d.ty.keys is None:
                return False        # the keys of the input are strings
            raise Unsupported("key that is not a string")
        return dhas(d.base, self.z(k, S))

    def dict_has(self, d, k, fold=True):
        k = self.fold_key(d, k, fold)
        i = self.find_entry(d, k)
        if i is not None:
            return d.state[i][1] is not DEL
        r = self.base_has(d, k)
        return r if isinstance(r, bool) else mk(r)

    def dict_value(self, d, k):
        """(found, value); branches"""
        i = self.find_entry(d, k)
        if i is not None:
            v = d.state[i][1]
            return (False, None) if v is DEL else (True, v)
        h = self.base_has(d, k)
        if not self.ctx.branch(h):
            return False, None
        ty = d.ty.fields.get(k) if isinstance(k, str) else None
        if not isinstance(k, str):
            for name, f in d.ty.odd():
                if self.ctx.branch(self.z(k, S) == zstr(name)):
                    ty = f
                    break
        v = SVal(dget(d.base, self.z(k, S)), ty or d.ty.val or TAny)
        if isinstance(k, STR) and isinstance(v.ty, Ty) and not v.ty.kinds <= {"none", "bool", "int", "float", "str"}:
            self.put(d, "state", d.state + ((k, v, False),))
        return True, v

    def dict_getitem(self, d, k, fold=True):
        k = self.fold_key(d, k, fold)
        found, v = self.dict_value(d, k)
        if found:
            return v
        if fold and d.dcls in self.model_classes and d.factory is not None:
            from mappyfile.tokens import OBJECT_LIST_KEYS

            if self.truth(self.contains(OBJECT_LIST_KEYS, k)):
                v = PList()
            else:
                v = self.call(d.factory)
            self.dict_set(d, k, v)
            return v
        raise raises(KeyError, k)

    def dict_set(self, d, k, v, fold=True):
        k = self.fold_key(d, k, fold)
        i = self.find_entry(d, k)
        if i is not None and d.state[i][1] is not DEL:
            s = list(d.state)
            # a key that was only read keeps its place in the base, the order of the writes is kept
            if s[i][2]:
                s[i] = (s[i][0], v, True)
            else:
                del s[i]
                s.append((k, v, True))
            self.put(d, "state", tuple(s))
            return
        if i is not None and d.base is None:
            s = [e for j, e in enumerate(d.state) if j != i] + [(k, v, True)]
            self.put(d, "state", tuple(s))
            return
        self.put(d, "state", d.state + ((k, v, True),))

    def dict_del(self, d, k, fold=True):
        k = self.fold_key(d, k, fold)
        i = self.find_entry(d, k)
        s = list(d.state)
        if i is not None:
            del s[i]
        if d.base is not None:
            s.append((k, DEL, True))
        self.put(d, "state", tuple(s))

    def dict_parts(self, d, what):
        """items of a dict in iteration order"""
        if isinstance(d, dict):
            d = self.from_native_value(dict(d))
        pick = {"items": lambda k, v: (k, v), "keys": lambda k, v: k, "values": lambda k, v: v}[what]
        if d.base is None:
            return [pick(k, v) for k, v, w in d.state if v is not DEL]
        if d.indexed is not None:
            if d.state:
                raise Unsupported("a dict with numbers as keys")
            return [FlatSrc(FSeg(d.indexed.src, [(c, tuple(pick(*kv) for kv in s)) for c, s in d.indexed.cases], d.indexed.facts))]
        written = [e for e in d.state if e[2]]
        src = ItemsSrc(d.base, d.ty, what)
        if self.model_classes.get(d.dcls) or d.dcls in self.folded_classes:
            self.used_assumptions.add("representation invariant of CaseInsensitiveOrderedDict: stored string keys are folded")
            src = FoldedItems(src, low)
        if not written:
            return [src]
        # base items, with the overlay applied, then the new keys
        out = [OverlaySrc(src, written, what, self)]
        for j, (k, v, w) in enumerate(written):
            if v is DEL:
                continue
            deleted = any(e[1] is DEL and self.pyeq(e[0], k) is True for e in written[:j])
            if any(e[1] is DEL and self.pyeq(e[0], k) not in (True, False) for e in written[:j]):
                raise Unsupported("order of keys after deletions")
            out.append(pick(k, v) if deleted else Guarded(dhas(d.base, self.z(k, S)), pick(k, v)))
        return out

    def dict_update(self, d, o, fold=True):
        o = self.conc(o)
        if isinstance(o, PDict):
            if o.base is not None and not o.state and d.base is None and not d.state and (d.dcls is o.dcls or not self.model_classes.get(d.dcls) or self.model_classes.get(o.dcls)):
                self.put(d, "base", o.base)
                self.put(d, "ty", o.ty)
                return
            self.iterate(IterView("items", [o]), lambda kv: self.dict_set(d, kv[0], kv[1], fold))
            return
        if isinstance(o, dict):
            for k, v in o.items():
                self.dict_set(d, k, self.from_native_value(v), fold)
            return
        self.iterate(o, lambda kv: self.dict_set(d, *self.pair(kv), fold))

    def pair(self, kv):
        items = self.concrete_items(kv)
        if len(items) != 2:
            raise raises(ValueError, "pair")
        return items

    def dict_from_pairs(self, lst, dcls=dict):
        """dict of a list of pairs with different keys"""
        if lst.concrete():
            d = PDict(dcls=dcls)
            for kv in lst.state:
                self.dict_set(d, *self.pair(kv))
            return d
        t = uf("dictof:" + dcls.__name__, U, U)(self.seq_term(lst.state))
        return PDict(base=t, ty=TDict(), dcls=dcls, serial=0)

    # ------------------------------------------------------------ methods
    def call_method(self, o, name, args, kwargs):
        if isinstance(o, SVal):
            o = self.force(o)
        if isinstance(o, STR):
            return self.str_method(o, name, args, kwargs)
        if isinstance(o, PList):
            return self.list_method(o, name, args, kwargs)
        if isinstance(o, PDict):
            return self.dict_method(o, name, args, kwargs)
        if isinstance(o, RawDict):
            return self.dict_method(o.obj, name, args, kwargs, raw=True)
        if isinstance(o, SMatch):
            return self.match_method(o, name, args)
        if isinstance(o, re.Pattern):
            return self.regex_method(o, name, args, kwargs)
        if isinstance(o, PSet):
            if name == "add":
                self.put(o, "state", o.state + (args[0],))
                return None
            raise Unsupported("set.%s" % name)
        if isinstance(o, GhostOut):
            if name == "write":
                self.list_append(o.items, args[0])
                return None
            raise Unsupported("stream.%s" % name)
        if isinstance(o, dict):
            return self.dict_method(self.from_native_value(dict(o)), name, args, kwargs)
        if isinstance(o, list):
            return self.list_method(self.from_native_value(o), name, args, kwargs)
        if isinstance(o, (Sym,)):
            raise raises(AttributeError, name)
        if isinstance(o, tuple):
            if name == "index" or name == "count":
                return self.list_method(PList(o, kind="tuple"), name, args, kwargs)
        if isinstance(o, SymObj) and o.cls is re.Match and o.term is not None:
            return self.match_method(SMatch("element", o.term, None), name, args)
        if isinstance(o, (SymObj, PExc, SVal, IterView)) or type(o).__module__.startswith("pyvc."):
            raise Unsupported("method %s of %s" % (name, type(o).__name__))
        try:
            f = getattr(o, name)
        except AttributeError:
            raise raises(AttributeError, name)
        return self.call_native(f, args, kwargs)

    def str_method(self, o, name, args, kwargs=None):
        kwargs = kwargs or {}
        args = [self.conc(a) for a in args]
        if not hasattr(str, name):
            raise raises(AttributeError, name)
        if name == "join":
            return self.join(o, args[0])
        if name == "format":
            return self.str_format(o, args, kwargs)
        try:
            if isinstance(o, str):
                nargs = [self.to_native(a) for a in args]
                nkw = {k: self.to_native(v) for k, v in kwargs.items()}
                try:
                    return self.from_native_value(getattr(o, name)(*nargs, **nkw))
                except (TypeError, ValueError) as ex:
                    raise raises(type(ex), *ex.args)
        except NotNative:
            pass
        z = self.z(o, S)
        if kwargs:
            raise Unsupported("str.%s with keywords" % name)
        if name in ("lower", "upper", "strip") and not args and z3.is_app_of(z, z3.Z3_OP_ITE) and z3.is_string_value(z.arg(1)) and z3.is_string_value(z.arg(2)):
            return mk(z3.If(z.arg(0), *[self.z(getattr(unzstr(x), name)(), S) for x in (z.arg(1), z.arg(2))]))
        if name in ("lower", "upper", "strip", "casefold", "title", "capitalize", "lstrip", "rstrip", "swapcase") and not args:
            f = {"lower": low, "upper": upp, "strip": strip_}[name] if name in ("lower", "upper", "strip") else uf(name, S, S)
            r = f(z)
            if name in ("lower", "strip", "upper"):
                self.ctx.assume(f(r) == r)
                self.used_assumptions.add("str.lower/upper/strip are idempotent")
            if name in ("strip", "lstrip", "rstrip"):
                self.ctx.assume(z3.Contains(z, r))
            return mk(r)
        if name in ("strip", "lstrip", "rstrip") and len(args) == 1:
            return mk(uf(name + "-chars", S, S, S)(z, self.z(args[0], S)))
        if name in ("startswith", "endswith") and len(args) == 1:
            opts = args[0]
            if isinstance(opts, (tuple,)):
                fs = [self.zb(self._affix(name, z, p)) for p in opts]
                return mk(z3.Or(fs)) if fs else False
            if not isinstance(opts, STR):
                raise raises(TypeError, name)
            return mk(self._affix(name, z, opts))
        if name == "replace" and len(args) == 2:
            a, b = args
            if not isinstance(a, STR) or not isinstance(b, STR):
                raise raises(TypeError, name)
            if isinstance(a, str) and not a:
                raise Unsupported("replace of the empty string")
            az = self.z(a, S)
            if isinstance(a, SStr) and self.ctx.branch(az == z3.StringVal("")):
                raise Unsupported("replace of the empty string")
            bz = self.z(b, S)
            r = z3.SeqRef(z3.Z3_mk_seq_replace_all(z.ctx.ref(), z.as_ast(), az.as_ast(), bz.as_ast()), z.ctx)
            self.ctx.assume(z3.Implies(z3.Not(z3.Contains(z, az)), r == z))
            return mk(r)
        if name == "split":
            if not args:
                return PList([OSeg(uf("splitws", S, U)(z), TStr)])
            if len(args) == 1 and isinstance(args[0], STR):
                t = uf("split", S, S, U)(z, self.z(args[0], S))
                self.ctx.assume(slen(t) >= 1)
                self.ctx.assume(uf("join", S, U, S)(self.z(args[0], S), t) == z)
                return PList([OSeg(t, TStr)])
            raise Unsupported("split")
        if name == "splitlines":
            return PList([OSeg(uf("splitlines", S, U)(z), TStr)])
        if name == "find" and len(args) == 1:
            return mk(z3.IndexOf(z, self.z(args[0], S), 0))
        if name in ("isdigit", "isalpha", "isspace", "isupper", "islower", "isalnum", "isnumeric", "isidentifier"):
            return mk(uf(name, S, B)(z))
        if name == "__contains__":
            return self.contains(o, args[0])
        if name == "__len__":
            return mk(z3.Length(z))
        zs = [self.term(a) for a in args]
        if name in ("count", "rfind"):
            return mk(uf("str." + name, *([S] + [t.sort() for t in zs] + [I]))(z, *zs))
        if name in ("ljust", "rjust", "center", "zfill", "removeprefix", "removesuffix", "expandtabs", "translate"):
            return mk(uf("str." + name, *([S] + [t.sort() for t in zs] + [S]))(z, *zs))
        raise Unsupported("str.%s" % name)

    def _affix(self, name, z, p):
        pz = self.z(p, S)
        return z3.PrefixOf(pz, z) if name == "startswith" else z3.SuffixOf(pz, z)

    def join(self, sep, it):
        segs = self.segments(it)
        if not any(isinstance(x, (OSeg, FSeg)) for x in segs):
            parts = []
            for i, x in enumerate(segs):
                x = self.conc(x)
                if not isinstance(x, STR):
                    raise raises(TypeError, "join")
                if i:
                    parts.append(sep)
                parts.append(x)
            return self.concat(parts)
        return mk(uf("join", S, U, S)(self.z(sep, S), self.seq_term(segs)))

    def str_format(self, o, args, kwargs):
        if not isinstance(o, str):
            raise Unsupported("format of an unknown template")
        parts, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(o):
            parts.append(lit)
            if field is None:
                continue
            if spec or conv:
                raise Unsupported("format specification")
            if field == "":
                field = str(auto)
                auto += 1
            if field.isdigit():
                if int(field) >= len(args):
                    raise raises(IndexError)
                parts.append(self.to_str(args[int(field)]))
            elif re.fullmatch(r"\w+", field):
                if field not in kwargs:
                    raise raises(KeyError, field)
                parts.append(self.to_str(kwargs[field]))
            else:
                raise Unsupported("format field")
        return self.concat(parts)

    def list_method(self, o, name, args, kwargs):
        if not hasattr(list if o.kind == "list" else tuple, name):
            raise raises(AttributeError, name)
        if name == "append":
            self.list_append(o, args[0])
            return None
        if name == "extend":
            self.list_extend(o, args[0])
            return None
        if name == "copy":
            return PList(o.state)
        if name == "clear":
            self.put(o, "state", ())
            return None
        if name == "reverse":
            self.put(o, "state", self.b_reversed(o).state)
            return None
        if name == "sort":
            self.put(o, "state", self.b_sorted(o, **kwargs).state)
            return None
        if name == "pop":
            i = args[0] if args else -1
            if isinstance(i, int):
                s = list(o.state)
                v = self.seq_at(o.state, i)
                rng = range(i + 1) if i >= 0 else range(i, 0)
                if all(-len(s) <= j < len(s) and not isinstance(s[j], (OSeg, FSeg)) for j in rng):
                    del s[i]
                    self.put(o, "state", tuple(s))
                    return v
                if len(s) == 1 and isinstance(s[0], OSeg) and i in (0, -1):
                    lo, hi = ("1", "None") if i == 0 else ("None", "-1")
                    t = uf("slice:%s:%s" % (lo, hi), U, U)(s[0].t)
                    self.ctx.assume(slen(t) == slen(s[0].t) - 1)
                    self.put(o, "state", (OSeg(t, s[0].ty),))
                    return v
            elif isinstance(i, SInt) and len(o.state) == 1 and isinstance(o.state[0], OSeg):
                s = o.state[0]
                self.in_range(s, i)
                t = uf("without", U, I, U)(s.t, i.z)
                self.ctx.assume(slen(t) == slen(s.t) - 1)
                self.put(o, "state", (OSeg(t, s.ty),))
                return self.at(s.t, i.z, s.ty)
            raise Unsupported("list.pop")
        if name == "insert":
            i = args[0]
            if isinstance(i, int) and i >= 0 and not any(isinstance(x, (OSeg, FSeg)) for x in o.state[:i]) and len(o.state) >= i:
                self.put(o, "state", o.state[:i] + (args[1],) + o.state[i:])
                return None
            if isinstance(i, SInt) and len(o.state) == 1 and isinstance(o.state[0], OSeg):
                s = o.state[0]
                if s.t.decl().name() == "without/U_I_U" and s.t.arg(1).eq(i.z):
                    # an item was taken out here: the new one takes its place
                    self.replace_item(o, OSeg(s.t.arg(0), s.ty), i, args[1])
                    return None
            raise Unsupported("list.insert")
        if name == "index":
            for i, x in enumerate(o.state):
                if isinstance(x, (OSeg, FSeg)):
                    raise Unsupported("list.index")
                if self.truth(self.compare(ast.Eq, x, args[0])):
                    return i
            raise raises(ValueError)
        if name == "remove":
            for i, x in enumerate(o.state):
                if isinstance(x, (OSeg, FSeg)):
                    raise Unsupported("list.remove")
                if self.truth(self.compare(ast.Eq, x, args[0])):
                    self.put(o, "state", o.state[:i] + o.state[i + 1:])
                    return None
            raise raises(ValueError)
        if name == "__len__":
            return self.b_len(o)
        if name == "__contains__":
            return self.contains(o, args[0])
        raise Unsupported("list.%s" % name)

    def dict_method(self, d, name, args, kwargs, raw=False):
        fold = not raw
        if not hasattr(d.dcls, name):
            raise raises(AttributeError, name)
        if name in ("items", "keys", "values"):
            return IterView(name, [d])
        if name in ("__contains__", "has_key"):
            return self.dict_has(d, args[0], fold)
        if name == "__len__":
            return self.dict_len(d)
        if name == "__getitem__":
            if raw:
                k = self.fold_key(d, args[0], False)
                found, v = self.dict_value(d, k)
                if not found:
                    raise raises(KeyError, k)
                return v
            return self.dict_getitem(d, args[0])
        if name == "__setitem__":
            self.dict_set(d, args[0], args[1], fold)
            return None
        if name == "__delitem__":
            if not self.truth(self.dict_has(d, args[0], fold)):
                raise raises(KeyError)
            self.dict_del(d, args[0], fold)
            return None
        if name == "get":
            k = self.fold_key(d, args[0], fold)
            found, v = self.dict_value(d, k)
            return v if found else (args[1] if len(args) > 1 else kwargs.get("default"))
        if name == "pop":
            k = self.fold_key(d, args[0], fold)
            found, v = self.dict_value(d, k)
            if found:
                self.dict_del(d, k, fold)
                return v
            if len(args) > 1:
                return args[1]
            if "default" in kwargs:
                return kwargs["default"]
            raise raises(KeyError)
        if name == "setdefault":
            k = self.fold_key(d, args[0], fold)
            found, v = self.dict_value(d, k)
            if found:
                return v
            v = args[1] if len(args) > 1 else kwargs.get("default")
            if raw and d.dcls in self.interp_classes:
                self.setitem(d, k, v)           # OrderedDict.setdefault calls self.__setitem__ in subclasses
            else:
                self.dict_set(d, k, v, fold)
            return v
        if name == "update":
            if args:
                self.dict_update_method(d, args[0], raw)
            for k, v in kwargs.items():
                (self.setitem if raw and d.dcls in self.interp_classes else self.dict_set)(d, k, v)
            return None
        if name == "copy":
            return self.b_copy(d)
        if name == "clear":
            self.put(d, "base", None)
            self.put(d, "state", ())
            return None
        if name == "move_to_end":
            found, v = self.dict_value(d, self.fold_key(d, args[0], fold))
            if not found:
                raise raises(KeyError)
            if kwargs.get("last", args[1] if len(args) > 1 else True) is not True:
                raise Unsupported("move_to_end")
            self.dict_del(d, args[0], fold)
            self.dict_set(d, args[0], v, fold)
            return None
        if name == "popitem":
            raise Unsupported("popitem")
        if name == "__init__" and raw:
            if args:
                self.dict_update_method(d, args[0], True)
            for k, v in kwargs.items():
                (self.setitem if d.dcls in self.interp_classes else self.dict_set)(d, k, v)
            return None
        raise Unsupported("dict.%s" % name)

    def dict_update_method(self, d, o, raw):
        if raw and d.dcls in self.interp_classes:
            # OrderedDict.update stores the items with self[key] = value
            o = self.conc(o)
            it = IterView("items", [o]) if isinstance(o, (PDict, dict)) else o
            self.iterate(it, lambda kv: self.setitem(d, *self.pair(kv)))
            return
        self.dict_update(d, o, not raw)

    # ------------------------------------------------------------ regular expressions
    def regex_method(self, p, name, args, kwargs):
        s = self.conc(args[0])
        if isinstance(s, str) and len(args) == 1:
            r = getattr(p, name)(s)
            return self.from_native_value(list(r)) if name == "finditer" else self.from_native_value(r)
        if not isinstance(s, SStr):
            if name in ("match", "search", "fullmatch", "finditer", "findall"):
                raise raises(TypeError, "expected string")
        if len(args) != 1 or kwargs:
            raise Unsupported("regex with positions")
        key = "%s:%s" % (name, _re_key(p))
        self.used_assumptions.add("regular expression %s is an uninterpreted function of the text" % _re_key(p)[:60])
        if name in ("match", "search", "fullmatch"):
            if self.ctx.branch(uf(key, S, B)(s.z)):
                return SMatch(key, s.z, p)
            return None
        if name in ("finditer", "findall"):
            ty = TStr if name == "findall" else TObj(re.Match)
            return PList([OSeg(uf(key, S, U)(s.z), ty)])
        raise Unsupported("regex.%s" % name)

    def match_group(self, m, i=0):
        i = self.conc(i)
        if not isinstance(i, (int, str)):
            raise Unsupported("group")
        if i == 0:
            z = uf(m.key + ":group0", m.z.sort(), S)(m.z)
            return mk(z)
        return SVal(uf("%s:group%s" % (m.key, i), m.z.sort(), U)(m.z), TStr | TNone)

    def match_method(self, m, name, args):
        if name == "group":
            if len(args) > 1:
                return tuple(self.match_group(m, a) for a in args)
            return self.match_group(m, *args)
        if name == "groups" and m.pattern is not None:
            return tuple(self.match_group(m, i + 1) for i in range(m.pattern.groups))
        if name in ("end", "start"):
            z = uf("%s:%s%s" % (m.key, name, args[0] if args else ""), m.z.sort(), I)(m.z)
            if m.z.sort() == S:
                self.ctx.assume(z >= 0)
                self.ctx.assume(z <= z3.Length(m.z))
            return mk(z)
        raise Unsupported("match.%s" % name)

    # ------------------------------------------------------------ with
    def enter(self, m):
        f = getattr(m, "on_enter", None)
        return f(self) if f else m

    def leave(self, m):
        f = getattr(m, "on_leave", None)
        if f:
            f(self)


class Guarded:
    """an item that is only there when the key is not in the base of the dict"""

    def __init__(self, has, value):
        self.has, self.value = has, value

    def present(self, eng):
        return not eng.ctx.branch(self.has)


class FoldedItems(Src):
    """items of a dict with lower case keys"""

    def __init__(self, inner, lower):
        self.inner, self.lower = inner, lower
        self.t, self.key, self.consts, self.ty = inner.t, inner.key, inner.consts, inner.ty
        self.base, self.k, self.what = inner.base, inner.k, inner.what

    def make(self, eng, sub=None):
        return self.inner.make(eng, sub)

    def member(self, sub=None):
        k = _subst(self.k, sub)
        return self.inner.member(sub) + [self.lower(k) == k]


class OverlaySrc(Src):
    """items of the base of a dict, as they are after the writes"""

    def __init__(self, inner, written, what, eng):
        self.inner, self.written, self.what = inner, written, what
        self.t, self.key, self.consts, self.ty = inner.t, inner.key, inner.consts, inner.ty
        self.k = inner.k

    def make(self, eng, sub=None):
        k = SStr(_subst(self.k, sub))
        for ek, ev, w in reversed(self.written):
            e = eng.pyeq(ek, k)
            if e is True or (e is not False and eng.ctx.branch(e)):
                deleted = any(x[1] is DEL and eng.pyeq(x[0], ek) is True for x in self.written)
                if ev is DEL or deleted:
                    raise ContinueLoop()
                return {"items": (k, ev), "keys": k, "values": ev}[self.what]
        return self.inner.make(eng, sub)

    def member(self, sub=None):
        return self.inner.member(sub)


class ConstZip(Src):
    """zip_longest with an empty sequence"""

    def __init__(self, src, pos):
        self.src, self.pos = src, pos
        self.t, self.key, self.consts, self.ty = src.t, src.key, src.consts, getattr(src, "ty", TAny)

    def make(self, eng, sub=None):
        v = self.src.make(eng, sub)
        return (v, None) if self.pos == 0 else (None, v)

    def member(self, sub=None):
        return self.src.member(sub)
