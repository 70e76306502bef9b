"""Operations on engine values: kinds, truth, equality, terms, containers, abstract loops."""
import itertools
import re

import z3

from pyvc.core import *  # noqa: F401,F403
from pyvc.core import _MISSING, _serial, _subst

SCALAR = (SInt, SBool, SStr, SReal)
NATIVE_KIND = {bool: "bool", int: "int", float: "float", str: "str", type(None): "none", tuple: "tuple"}

kind_of = uf("kind", U, I)
u2 = {"bool": uf("u2bool", U, B), "int": uf("u2int", U, I), "float": uf("u2real", U, R), "str": uf("u2str", U, S)}
into = {"bool": uf("bool2u", B, U), "int": uf("int2u", I, U), "float": uf("real2u", R, U), "str": uf("str2u", S, U)}
slen = uf("len", U, I)
NIL, NONE = const("nil", U), const("none", U)
low, upp, strip_ = uf("lower", S, S), uf("upper", S, S), uf("strip", S, S)


class BreakLoop(BaseException):
    pass


class ContinueLoop(BaseException):
    pass


class ReturnEx(BaseException):
    def __init__(self, value):
        self.value = value


def is_true(z):
    return z3.is_true(z3.simplify(z))


def literals(c):
    """(ids of the positive literals, ids of the negated ones) of a conjunction"""
    pos, neg = set(), set()
    for x in c.children() if z3.is_and(c) else [c]:
        if z3.is_not(x):
            neg.add(x.arg(0).get_id())
        else:
            pos.add(x.get_id())
    return pos, neg


def disjoint(a, b):
    return bool(a[0] & b[1] or a[1] & b[0])


def match_terms(p, t, params):
    """substitution of the parameters that makes p equal to t: list of pairs, or None"""
    m = {}

    def go(p, t):
        if any(p.eq(x) for x in params):
            k = p.get_id()
            if k in m:
                return m[k][1].eq(t)
            if p.sort() != t.sort():
                return False
            m[k] = (p, t)
            return True
        if p.eq(t) and not mentions(p, params):
            return True
        if not (z3.is_app(p) and z3.is_app(t)) or p.decl() != t.decl() or p.num_args() != t.num_args() or not p.num_args():
            return False
        return all(go(a, b) for a, b in zip(p.children(), t.children()))

    if not params or not go(p, t):
        return None
    return [(a, b) for a, b in m.values() if not a.eq(b)]


class Ops(Engine):
    def __init__(self, *a, **k):
        Engine.__init__(self, *a, **k)
        self.length_vars = {}       # list variables of loops: (loop, variable)
        self.replaced = {}          # sequences with one item replaced: (sequence, index, item)
        self.elem_stack = []        # terms of the arbitrary elements and states of the enclosing loops
        self.subs = []              # active witness substitutions
        self.carried = set()        # variables known to be used from one iteration to the next, or after the loop
        self.havoc_names = {}

    # ------------------------------------------------------------ kinds
    def kinds(self, v):
        """possible kinds of a value"""
        if isinstance(v, SVal):
            return self.ctx.narrow.get(v.t.get_id(), v.ty.kinds)
        if isinstance(v, SBool):
            return frozenset(["bool"])
        if isinstance(v, SInt):
            return frozenset(["int"])
        if isinstance(v, SReal):
            return frozenset(["float"])
        if isinstance(v, SStr):
            return frozenset(["str"])
        if isinstance(v, PList):
            return frozenset([v.kind])
        if isinstance(v, PDict):
            return frozenset(["dict"])
        k = NATIVE_KIND.get(type(v))
        return frozenset([k or "obj"])

    def kind_in(self, v, wanted):
        """is the value of one of these kinds? (branches)"""
        ks = self.kinds(v)
        w = frozenset(wanted)
        if ks <= w:
            return True
        if not ks & w:
            return False
        assert isinstance(v, SVal)
        inside = ks & w
        self.ctx.assume(z3.Or([kind_of(v.t) == KCODE[k] for k in sorted(ks)]))
        r = self.ctx.branch(z3.Or([kind_of(v.t) == KCODE[k] for k in sorted(inside)]))
        self.ctx.narrow[v.t.get_id()] = inside if r else ks - inside
        self._keep(v.t)
        return r

    def _keep(self, t):
        self.__dict__.setdefault("_kept", []).append(t)     # ids stay valid while the term is alive

    def force(self, v):
        """decide the kind of a value and give its engine value"""
        if not isinstance(v, SVal):
            return v
        ks = self.kinds(v)
        order = [k for k in KINDS if k in ks]
        k = order[-1]
        for cand in order[:-1]:
            if self.kind_in(v, [cand]):
                k = cand
                break
        ks = self.kinds(v)
        if len(ks) != 1:
            if not self.kind_in(v, [k]):
                raise Infeasible()
        t, ty = v.t, v.ty
        if k == "none":
            if not t.eq(NONE):
                self.ctx.assume(t == NONE)
            return None
        if k in u2:
            self.ctx.assume(t == into[k](u2[k](t)))
            return mk(u2[k](t))
        key = (t.get_id(), k)
        if key in self.ctx.impls:
            return self.ctx.impls[key][1]
        if k in ("list", "tuple"):
            if k == "tuple" and ty.items is not None:
                return tuple(SVal(uf("item%d" % i, U, U)(t), it) for i, it in enumerate(ty.items))
            self.ctx.assume(slen(t) >= 0)
            o = PList([OSeg(t, ty.elem)], kind=k, serial=0, term=t)
        elif k == "dict" and ty.make is not None:
            o = ty.make(self, t)
            o.serial = 0
            if not self.term(o).eq(t):
                self.ctx.assume(t == self.term(o))
                o.origin = self.term(o)
        elif k == "dict":
            if ty.dcls is None:
                raise Unsupported("dict of unknown class")
            o = PDict(base=t, ty=ty, dcls=ty.dcls, serial=0, factory=ty.factory)
            for r in ty.required:
                self.ctx.assume(dhas(t, zstr(r)))
        else:
            if ty.cls is None:
                raise Unsupported("opaque object")
            o = SymObj(ty.cls, {}, term=t, ty=ty, serial=0)
        # the object exists for every context in which its term has a meaning
        if getattr(o, "origin", None) is None:
            o.origin = t
        c = self.ctx
        while True:
            c.impls[key] = (t, o)
            if c.parent is None or mentions(t, self.elem_stack[c.level:]):
                break
            c = c.parent
        return o

    def impl(self, t):
        """object of a term of a decided kind, if it was looked at"""
        ks = self.ctx.narrow.get(t.get_id())
        if ks is not None:
            if len(ks) != 1:
                return None
            e = self.ctx.impls.get((t.get_id(), next(iter(ks))))
            return e[1] if e else None
        for k in ("list", "tuple", "dict", "obj"):
            e = self.ctx.impls.get((t.get_id(), k))
            if e:
                return e[1]
        return None

    # ------------------------------------------------------------ scalars
    def z(self, v, sort):
        """z3 term of that sort"""
        if isinstance(v, Sym):
            z = v.z
        elif isinstance(v, bool):
            z = z3.BoolVal(v)
        elif isinstance(v, int):
            z = z3.IntVal(v)
        elif isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                raise Unsupported("non-finite float")
            z = mkreal(v)
        elif isinstance(v, str):
            z = zstr(v)
        elif isinstance(v, SVal):
            return self.z(self.force(v), sort)
        else:
            raise Unsupported("no term of sort %s for %r" % (sort, type(v)))
        if z.sort() == sort:
            return z
        if sort == R and z.sort() == I:
            return z3.ToReal(z)
        if sort == I and z.sort() == B:
            return z3.If(z, 1, 0)
        if sort == R and z.sort() == B:
            return z3.If(z, z3.RealVal(1), z3.RealVal(0))
        raise Unsupported("sort %s, wanted %s" % (z.sort(), sort))

    def truth_formula(self, v, ks):
        """truth of a value of several possible kinds"""
        t, out = v.t, []
        for k in sorted(ks):
            is_k = kind_of(t) == KCODE[k]
            if k == "bool":
                out.append(z3.And(is_k, u2["bool"](t)))
            elif k == "int" or k == "float":
                out.append(z3.And(is_k, u2[k](t) != 0))
            elif k == "str":
                out.append(z3.And(is_k, z3.Length(u2["str"](t)) > 0))
            elif k == "obj":
                if v.ty.cls is None:
                    raise Unsupported("truth of an opaque object")
                out.append(is_k)
            elif k != "none":
                self.ctx.assume(slen(t) >= 0)
                out.append(z3.And(is_k, slen(t) > 0))
        return z3.Or(out)

    def truth(self, v):
        if isinstance(v, SVal):
            ks = self.kinds(v)
            if len(ks) > 1 and self.impl(v.t) is None and not ("tuple" in ks and v.ty.items is not None):
                self.ctx.assume(z3.Or([kind_of(v.t) == KCODE[k] for k in sorted(ks)]))
                return self.ctx.branch(self.truth_formula(v, ks))
            v = self.force(v)
        if isinstance(v, SBool):
            return self.ctx.branch(v.z)
        if isinstance(v, SInt):
            return self.ctx.branch(v.z != 0)
        if isinstance(v, SReal):
            return self.ctx.branch(v.z != 0)
        if isinstance(v, SStr):
            return self.ctx.branch(z3.Length(v.z) > 0)
        if isinstance(v, (PList, PSet)):
            return self.nonempty_segs(v.state)
        if isinstance(v, PDict):
            if any(val is not DEL and (w or True) for k, val, w in v.state):
                return True
            if v.base is None:
                return False
            if v.state:
                raise Unsupported("truth of a partly unknown dict")
            self.ctx.assume(slen(v.base) >= 0)
            return self.ctx.branch(slen(v.base) > 0)
        if isinstance(v, SymObj):
            return True
        if isinstance(v, POISON):
            raise NeedHavoc(v.key)
        return bool(v)

    def nonempty_segs(self, state):
        if not state:
            return False
        if any(not isinstance(x, (OSeg, FSeg)) for x in state):
            return True
        if all(isinstance(x, OSeg) for x in state):
            for x in state:
                self.ctx.assume(slen(x.t) >= 0)
            return self.ctx.branch(z3.Or([slen(x.t) > 0 for x in state]))
        for x in state:
            if isinstance(x, OSeg):
                self.ctx.assume(slen(x.t) >= 0)
        return self.ctx.branch(self.nonempty_formula(state))

    def nonempty_formula(self, state):
        if any(not isinstance(x, (OSeg, FSeg)) for x in state):
            return z3.BoolVal(True)
        conds = [z3.BoolVal(False)]
        for x in state:
            if isinstance(x, OSeg):
                conds.append(slen(x.t) > 0)
            else:
                conds.append(self.exists(x.src, z3.Or([z3.And(c, self.nonempty_formula(suf)) for c, suf in x.cases if suf] or [z3.BoolVal(False)]), x.facts))
        return z3.Or(conds)

    # ------------------------------------------------------------ terms and equality
    def term(self, v):
        """term of sort U that determines the value"""
        if isinstance(v, SVal):
            ks = self.kinds(v)
            if len(ks) == 1:
                k = next(iter(ks))
                if k == "none":
                    if not v.t.eq(NONE):
                        self.ctx.assume(v.t == NONE)
                    return NONE
                if k in u2:
                    self.ctx.assume(v.t == into[k](u2[k](v.t)))
                    return into[k](u2[k](v.t))
                o = self.impl(v.t)
                if o is not None:
                    return self.term(o)
            return v.t
        if v is None:
            return NONE
        if isinstance(v, (bool, SBool)):
            return into["bool"](self.z(v, B))
        if isinstance(v, (int, SInt)):
            return into["int"](self.z(v, I))
        if isinstance(v, (float, SReal)):
            return into["float"](self.z(v, R))
        if isinstance(v, (str, SStr)):
            return into["str"](self.z(v, S))
        if isinstance(v, PList):
            t = self.seq_term(v.state)
            return t if v.kind == "list" or v.term is not None else uf("tuple", U, U)(t)
        if isinstance(v, tuple):
            return uf("tuple", U, U)(self.seq_term(v))
        if isinstance(v, PDict):
            t = v.base if v.base is not None else const("newdict:" + v.dcls.__name__, U)
            for k, val, w in v.state:
                kt = self.term(k)
                if not w and val is not DEL:
                    # only read: part of the term when the object itself was changed
                    if isinstance(val, SVal):
                        if self.is_changed(self.impl(val.t)):
                            t = uf("upd", U, U, U, U)(t, kt, self.term(val))
                    continue
                t = uf("del", U, U, U)(t, kt) if val is DEL else uf("upd", U, U, U, U)(t, kt, self.term(val))
            return t
        if isinstance(v, SymObj):
            if v.term is not None:
                t = v.term
                for a in sorted(v.attrs):
                    val = v.attrs[a]
                    if isinstance(val, SVal) and val.t.eq(uf("attr:" + a, U, U)(v.term)) and not self.is_changed_val(val):
                        continue
                    t = uf("setattr:" + a, U, U, U)(t, self.term(val))
                return t
            t = const("new:" + v.cls.__name__, U)
            for a in sorted(v.attrs):
                t = uf("setattr:" + a, U, U, U)(t, self.term(v.attrs[a]))
            return t
        if isinstance(v, PSet):
            return uf("set", U, U)(self.seq_term(v.state))
        if isinstance(v, POISON):
            raise NeedHavoc(v.key)
        if isinstance(v, (type, frozenset)) or callable(v):
            return const("native:%s" % getattr(v, "__qualname__", repr(v)), U)
        raise Unsupported("no term for %r" % type(v))

    def is_changed_val(self, val):
        return self.is_changed(self.impl(val.t))

    def is_changed(self, o):
        if isinstance(o, (PList, PDict, SymObj)):
            base = getattr(o, "origin", None)
            if base is None:
                base = o.base if isinstance(o, PDict) else o.term
            return base is None or not self.term(o).eq(base)
        return False

    def seq_term(self, state):
        t = None
        for x in state:
            if isinstance(x, OSeg):
                t = x.t if t is None else uf("cat", U, U, U)(t, x.t)
            elif isinstance(x, FSeg):
                f = self.flat_term(x)
                t = f if t is None else uf("cat", U, U, U)(t, f)
            else:
                t = uf("snoc", U, U, U)(NIL if t is None else t, self.term(x))
        return NIL if t is None else t

    def pyeq(self, a, b):
        """python == as a z3 formula or bool"""
        if isinstance(a, POISON) or isinstance(b, POISON):
            raise NeedHavoc((a if isinstance(a, POISON) else b).key)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SVal):
                ks = self.kinds(x)
                if len(ks) == 1:
                    return self.pyeq(self.force(x), y)
                if isinstance(y, SVal):
                    kt = self.kinds(y)
                    if len(kt) == 1:
                        return self.pyeq(x, self.force(y))
                    return self._eq_uf(x, y)
                if y is None:
                    return kind_of(x.t) == KCODE["none"] if "none" in ks else False
                if isinstance(y, (str, SStr)):
                    if "str" not in ks:
                        return False
                    return z3.And(kind_of(x.t) == KCODE["str"], u2["str"](x.t) == self.z(y, S))
                return self._eq_uf(x, y)
        num = (bool, int, float, SBool, SInt, SReal)
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return self.z(a, S) == self.z(b, S) if isinstance(a, Sym) or isinstance(b, Sym) else a == b
        if isinstance(a, num) and isinstance(b, num):
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return a == b
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                return self.z(a, B) == self.z(b, B)
            s = R if isinstance(a, (float, SReal)) or isinstance(b, (float, SReal)) else I
            return self.z(a, s) == self.z(b, s)
        if isinstance(a, (tuple, PList)) and isinstance(b, (tuple, PList)):
            if self.kinds(a) != self.kinds(b):
                return False
            xs, ys = a if isinstance(a, tuple) else a.state, b if isinstance(b, tuple) else b.state
            if any(isinstance(x, (OSeg, FSeg)) for x in itertools.chain(xs, ys)):
                if not xs or not ys:
                    return z3.Not(self._ne_formula(xs or ys))
                return self._eq_uf(a, b)
            if len(xs) != len(ys):
                return False
            return z3.And([self.zb(self.pyeq(x, y)) for x, y in zip(xs, ys)])
        if isinstance(a, (PDict, PList, tuple)) and isinstance(b, (PDict, PList, tuple)) and self.kinds(a) == self.kinds(b):
            if a is b:
                return True
            return self._eq_uf(a, b)
        if isinstance(a, (SymObj, PDict)) or isinstance(b, (SymObj, PDict)):
            return a is b
        if isinstance(a, (Sym, PList)) or isinstance(b, (Sym, PList)):
            return False        # different kinds
        return a == b

    def _ne_formula(self, xs):
        if all(isinstance(x, OSeg) for x in xs):
            for x in xs:
                self.ctx.assume(slen(x.t) >= 0)
            return z3.Or([slen(x.t) > 0 for x in xs])
        raise Unsupported("emptiness")

    def _eq_uf(self, a, b):
        x, y = self.term(a), self.term(b)
        if x.eq(y):
            return True
        if x.sexpr() > y.sexpr():
            x, y = y, x
        self.used_assumptions.add("== of values is reflexive and symmetric")
        return uf("pyeq", U, U, B)(x, y)

    def zb(self, b):
        return z3.BoolVal(b) if isinstance(b, bool) else b

    def same(self, a, b):
        """structural identity of two results, as a formula (False with self.abstract set when not comparable)"""
        if isinstance(a, SVal) and isinstance(b, SVal):
            if a.t.eq(b.t):
                return z3.BoolVal(True)
            if len(self.kinds(a)) == 1:
                return self.same(self.force(a), b)
            if len(self.kinds(b)) == 1:
                return self.same(a, self.force(b))
            return a.t == b.t
        if isinstance(a, SVal):
            return self.same(b, a)
        if isinstance(b, SVal):
            ks, ka = self.kinds(b), self.kinds(a)
            if not (ks & ka):
                return z3.BoolVal(False)
            k = next(iter(ka))
            if k == "none":
                return kind_of(b.t) == KCODE["none"]
            if k in u2:
                return z3.And(kind_of(b.t) == KCODE[k] if len(ks) > 1 else z3.BoolVal(True), u2[k](b.t) == self.z(a, u2[k].range()))
            if len(ks) == 1:
                return self.same(a, self.force(b))
            return z3.And(kind_of(b.t) == KCODE[k], self.term(a) == b.t)
        ka, kb = self.kinds(a), self.kinds(b)
        if ka != kb:
            return z3.BoolVal(False)
        k = next(iter(ka))
        if k in u2:
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return z3.BoolVal(a == b and type(a) is type(b))
            s = u2[k].range()
            return self.z(a, s) == self.z(b, s)
        if k == "none":
            return z3.BoolVal(True)
        if k in ("list", "tuple"):
            xs, ys = a if isinstance(a, tuple) else a.state, b if isinstance(b, tuple) else b.state
            return self.same_segs(xs, ys)
        if isinstance(a, PDict) and isinstance(b, PDict):
            if a is b:
                return z3.BoolVal(True)
            if a.dcls is not b.dcls:
                return z3.BoolVal(False)
            if (a.base is None) != (b.base is None):
                self.abstract = True
                return self.term(a) == self.term(b)
            if a.base is None and len(a.state) == len(b.state):
                xs, ys = [e for e in a.state if e[1] is not DEL], [e for e in b.state if e[1] is not DEL]
                if len(xs) != len(ys):
                    return z3.BoolVal(False)
                return z3.And([z3.And(self.same(x[0], y[0]), self.same(x[1], y[1])) for x, y in zip(xs, ys)] or [z3.BoolVal(True)])
            if a.base is not None and a.base.eq(b.base):
                wa, wb = [e for e in a.state if e[2]], [e for e in b.state if e[2]]
                if len(wa) == len(wb) and all((x[1] is DEL) == (y[1] is DEL) for x, y in zip(wa, wb)):
                    return z3.And([z3.And(self.same(x[0], y[0]), z3.BoolVal(True) if x[1] is DEL else self.same(x[1], y[1])) for x, y in zip(wa, wb)]
                                  or [z3.BoolVal(True)])
            ta, tb = self.term(a), self.term(b)
            if not ta.eq(tb):
                self.abstract = True
            return ta == tb
        if isinstance(a, SymObj) and isinstance(b, SymObj):
            if a is b:
                return z3.BoolVal(True)
            if a.cls is not b.cls:
                return z3.BoolVal(False)
            return self.term(a) == self.term(b)
        if isinstance(a, PSet) and isinstance(b, PSet):
            return self.same_segs(a.state, b.state)
        if isinstance(a, PExc) and isinstance(b, PExc):
            return z3.BoolVal(a.cls is b.cls)
        try:
            return z3.BoolVal(bool(a is b or a == b))
        except Exception:
            self.abstract = True
            return z3.BoolVal(False)

    def drop_empty(self, xs):
        """the items without segments known to be empty"""
        out = []
        for x in xs:
            n = slen(x.t) if isinstance(x, OSeg) else self.src_len(x.src) if isinstance(x, FSeg) else None
            if n is None or not self.ctx.mentions_len(n) or not self.ctx.implied(n <= 0):
                out.append(x)
        return tuple(out)

    def same_segs(self, xs, ys):
        if len(xs) != len(ys):
            xs, ys = self.drop_empty(xs), self.drop_empty(ys)
        # common lengths, or padding by segments that may be empty
        if len(xs) != len(ys):
            conc = not any(isinstance(x, (OSeg, FSeg)) for x in itertools.chain(xs, ys))
            if not conc:
                self.abstract = True
            return z3.BoolVal(False)
        out = []
        for x, y in zip(xs, ys):
            sx, sy = isinstance(x, (OSeg, FSeg)), isinstance(y, (OSeg, FSeg))
            if sx != sy:
                self.abstract = True
                return z3.BoolVal(False)
            if not sx:
                out.append(self.same(x, y))
            elif isinstance(x, OSeg) and isinstance(y, OSeg):
                out.append(x.t == y.t)
            elif isinstance(x, FSeg) and isinstance(y, FSeg):
                if not self.flat_same(x, y):
                    self.abstract = True
                    return z3.BoolVal(False)
            else:
                fx, fy = (self.seq_term((s,)) for s in (x, y))
                if not fx.eq(fy):
                    self.abstract = True
                out.append(fx == fy)
        return z3.And(out) if out else z3.BoolVal(True)

    # ------------------------------------------------------------ definition records
    def _params(self, exprs):
        out = []
        for t in self.elem_stack:
            if any(mentions(e, [t]) for e in exprs) and not any(t.eq(o) for o in out):
                out.append(t)
        return out

    def _fun(self, name, sort, params):
        return uf(name, *([p.sort() for p in params] + [sort]))(*params) if params else const(name, sort)

    def _candidates(self, recs, src):
        """records over the same source, with the substitution that makes them so"""
        for r in recs:
            for sub in [None] + self.subs:
                t = _subst(r.src.t, sub)
                if t.eq(src.t) or (sub is None and t.sort() == src.t.sort() and type(r.src) is type(src) and self.ctx.implied(t == src.t)):
                    # rename the element terms of the record to those of the source
                    pairs = [(_subst(a, sub), b) for a, b in zip(r.src.consts, src.consts) if not _subst(a, sub).eq(b)]
                    yield r, (lambda z, sub=sub, pairs=pairs: _subst(_subst(z, sub), pairs))
                    break
            else:
                # the record holds for all values of its parameters
                m = match_terms(r.src.t, src.t, getattr(r, "ps", []))
                if m:
                    pairs = [(_subst(a, m), b) for a, b in zip(r.src.consts, src.consts) if not _subst(a, m).eq(b)]
                    yield r, (lambda z, m=m, pairs=pairs: _subst(_subst(z, m), pairs))

    def assume_element(self, src):
        for c in src.member():
            self.ctx.assume(c)
        for f in self.ctx.facts.get(src.key, []):
            self.ctx.assume(f)

    def equivalent(self, src, f, g, facts=()):
        """f <-> g for an arbitrary element of src"""
        if f.eq(g):
            return True
        pcs = src.member() + self.ctx.facts.get(src.key, []) + list(facts)
        return self.ctx.check(z3.And(pcs + [f != g])) == z3.unsat

    def guarded_facts(self, outs, parts, src, extra=()):
        """facts of the paths of an iteration, as formulas that hold for every element"""
        allowed = list(src.consts) + list(extra)
        ps = self._params(parts)
        forbidden = [t for t in self.elem_stack if not any(t.eq(p) for p in ps) and not any(t.eq(c) for c in allowed)]
        g = self.ctx.guard()
        seen, out = set(), []
        for pc, res, facts in outs:
            for decs, c in facts:
                f = z3.simplify(z3.Implies(z3.And(g + list(decs)), c)) if g or decs else c
                if f.get_id() in seen or z3.is_true(f):
                    continue
                seen.add(f.get_id())
                if not (forbidden and mentions(f, forbidden)):
                    out.append(f)
        return tuple(out)

    def exists(self, src, f, facts=()):
        """Bool: some element of src satisfies f"""
        f = z3.simplify(f)
        if z3.is_false(f):
            return z3.BoolVal(False)
        if type(src) is EnumSrc and not mentions(f, [src.idx]):
            src, facts = src.inner, [x for x in facts if not mentions(x, [src.idx])]
        for r, ren in self._candidates(self.records["exists"], src):
            if self.equivalent(src, ren(r.f), f, list(facts) + [ren(x) for x in r.facts]):
                self.loop_used(r.name, False)
                return ren(r.b)
        r = Record()
        r.src, r.f, r.facts = src, f, tuple(facts)
        ps = [p for p in self._params([f, src.t]) if not any(p.eq(c) for c in src.consts)]
        r.ps = ps
        r.name = "exists%d" % len(self.records["exists"])
        self.loop_used(r.name, True)
        r.b = self._fun(r.name, B, ps)
        self.records["exists"].append(r)
        return r.b

    # which side of the comparison has a loop: "code" / "spec", or (while results are compared) the first / a further use
    side, loop_sides = None, {}
    LOOP_SYMBOL = re.compile(r"(exists|flat|fold)(?:exit|pre)?(\d+)(?:_\d+)?(?:/|$)")

    def loop_used(self, name, new):
        self.loop_sides.setdefault(name, set()).add(self.side or ("first" if new else "further"))

    def one_sided(self, formulas):
        """a loop that only the code or only the specification has occurs in the formulas: its symbol means nothing to the solver"""
        seen, todo = set(), list(formulas)
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    name = x.decl().name()
                    if name.startswith("unknown!"):
                        return name
                    m = self.LOOP_SYMBOL.match(name)
                    if m and len(self.loop_sides.get(m.group(1) + m.group(2), ())) < 2:
                        return name
                todo.extend(x.children())
            elif z3.is_quantifier(x):
                todo.append(x.body())
        return None

    def flat_same(self, a, b):
        for ren in self._flat_match(a, b):
            return True
        return False

    def _flat_match(self, a, b, ps=()):
        r = Record()
        r.src = a.src
        r.ps = ps
        for rec, ren in self._candidates([r], b.src):
            if self._cases_same(b.src, [(ren(c), s) for c, s in a.cases], b.cases, ren, [ren(f) for f in a.facts] + list(b.facts)):
                yield ren

    def _cases_same(self, src, ca, cb, ren, facts):
        pcs = src.member() + self.ctx.facts.get(src.key, []) + facts
        ca = [(c, [self.rename(x, ren) for x in s]) for c, s in ca]
        lits = [literals(d) for d, t in cb]
        for c, s in ca:
            lc = literals(c)
            for (d, t), ld in zip(cb, lits):
                if disjoint(lc, ld):
                    continue
                saved = self.abstract
                self.abstract = False
                try:
                    eq = z3.simplify(self.same_segs(s, t))
                finally:
                    self.abstract = saved
                if z3.is_true(eq):
                    continue
                with self.ctx.under(pcs):
                    if self.ctx.check(z3.And(c, d, z3.Not(eq))) != z3.unsat:
                        return False
        return True

    def rename(self, v, ren):
        """apply a renaming of terms to a value"""
        if isinstance(v, Sym):
            z = ren(v.z)
            return v if z.eq(v.z) else mk(z)
        if isinstance(v, SVal):
            z = ren(v.t)
            return v if z.eq(v.t) else SVal(z, v.ty)
        if isinstance(v, tuple):
            return tuple(self.rename(x, ren) for x in v)
        if isinstance(v, OSeg):
            z = ren(v.t)
            return v if z.eq(v.t) else OSeg(z, v.ty)
        if isinstance(v, FSeg):
            z = ren(v.src.t)
            if z.eq(v.src.t):
                return v
            raise Unsupported("renaming of a nested comprehension")
        if isinstance(v, (PList, PDict, SymObj)):
            z = self.term(v)
            if ren(z).eq(z):
                return v
            if isinstance(v, PList):
                return PList([self.rename(x, ren) for x in v.state], kind=v.kind)
            if isinstance(v, PDict):
                return PDict(None if v.base is None else ren(v.base), [(self.rename(k, ren), x if x is DEL else self.rename(x, ren), w) for k, x, w in v.state],
                             v.ty, v.dcls, factory=v.factory)
            return SymObj(v.cls, {a: self.rename(x, ren) for a, x in v.attrs.items()}, None if v.term is None else ren(v.term), v.ty)
        return v

    def flat_term(self, seg):
        for r in self.records["flat"]:
            for ren in self._flat_match(r.seg, seg, r.ps):
                self.loop_used(r.name, False)
                return ren(r.t)
        r = Record()
        r.seg = seg
        exprs = [seg.src.t] + [c for c, s in seg.cases]
        for c, s in seg.cases:
            exprs.append(self.seq_term(s))
        ps = [p for p in self._params(exprs) if not any(p.eq(c) for c in seg.src.consts)]
        r.ps = ps
        r.name = "flat%d" % len(self.records["flat"])
        self.loop_used(r.name, True)
        r.t = self._fun(r.name, U, ps)
        self.records["flat"].append(r)
        return r.t

    # ------------------------------------------------------------ abstract loops
    def src_len(self, src):
        """a term that is zero or less only if the sequence is empty"""
        if type(src) is Src:
            return slen(src.t)
        if type(src) is EnumSrc:
            return self.src_len(src.inner)
        if type(src) is ItemsSrc:
            return slen(src.base)
        if hasattr(src, "seg"):
            return self.src_len(src.seg.src)        # zero when this is empty
        return None

    def abstract_for(self, src, body, orelse=None):
        """for x in src: body(x); every loop variable and object changed by the body is generalised"""
        limit = next(_serial)
        if any(c.eq(x) for c in src.consts for x in self.elem_stack):
            raise Unsupported("nested loops over one sequence")
        n = self.src_len(src)
        if n is not None and self.ctx.mentions_len(n):
            self.ctx.assume(n >= 0)
            if self.ctx.check(n > 0) == z3.unsat:
                if orelse:
                    orelse()
                return None
        havoc = Havoc()                 # key -> (obj, field, item, mode)
        for attempt in range(40):
            need = []

            def once():
                consts, state = self._apply_havoc(src, havoc)
                for c in src.consts:
                    self.elem_stack.append(c)
                for c in consts:
                    self.elem_stack.append(c)
                n = len(src.consts) + len(consts)
                m2 = len(self.journal)
                try:
                    self.assume_element(src)
                    ctl = "next"
                    try:
                        body(src.make(self))
                    except ContinueLoop:
                        pass
                    except BreakLoop:
                        ctl = "break"
                    except ReturnEx:
                        ctl = "return"
                    except PyRaise:
                        ctl = "raise"
                    mods = self._modified(m2, limit, src, len(self.elem_stack) - n)
                    if any(k not in havoc for k in mods):
                        raise Grow(mods)
                    post = {}
                    for k, (obj, field, item) in mods.items():
                        if k in havoc:
                            post[k] = self._post(havoc, state, k)
                    for k in havoc:
                        if k not in post:
                            post[k] = self._post(havoc, state, k)
                    return ctl, mods, post, state
                finally:
                    del self.elem_stack[len(self.elem_stack) - n:]

            try:
                outs = self.explore(once)
            except Widen as ex:
                havoc.wide[ex.key] = TWide if havoc.wide.get(ex.key) is TAny else TAny
                continue
            except NeedLength as ex:
                k = self.length_vars.get(ex.t)
                if k is None or k[0] != src.key or k[1] not in havoc:
                    raise
                havoc.length.add(k[1])
                continue
            except Grow as ex:
                for k, (obj, field, item) in ex.mods.items():
                    if k not in havoc:
                        init = getattr(obj, field) if item is None else getattr(obj, field).get(item, _MISSING)
                        mode = "temp"
                        if item is None:
                            mode = "object"
                        elif init is not _MISSING and not isinstance(init, POISON):
                            # a variable that every iteration sets before use is not part of the state; found out by trying
                            name = (getattr(obj.func, "name", str(obj.func)), item, src.key) if isinstance(obj, Frame) else None
                            mode = "carried" if name is None or name in self.carried else "temp"
                            self.havoc_names[(src.key, k)] = name
                        havoc[k] = (obj, field, item, mode)
                continue
            except NeedHavoc as ex:
                k = ex.key[1]
                if ex.key[0] != src.key or k not in havoc or havoc[k][3] == "carried":
                    raise
                havoc[k] = havoc[k][:3] + ("carried",)
                self.carried.add(self.havoc_names.get(ex.key))
                continue
            break
        else:
            raise Unsupported("loop state does not stabilise")
        return self._conclude(src, body, orelse, havoc, outs, limit)

    def _modified(self, mark, limit, src, level):
        """variables and objects from before the loop that the iteration has changed"""
        mods, first = {}, {}
        for obj, field, item, old in self.journal[mark:]:
            if obj.serial < limit:
                first.setdefault((id(obj), field, item), (obj, field, item, old))
        for key, (obj, field, item, old) in first.items():
            if isinstance(obj, PDict) and field == "state":
                before, after = [e for e in old if e[2]], [e for e in obj.state if e[2]]
                if len(before) == len(after) and all(x is y or (x[0] is y[0] and x[1] is y[1]) for x, y in zip(before, after)):
                    continue                    # only read
            if obj.born >= limit and mentions(getattr(obj, "origin", src.consts[0]), self.elem_stack[level:]):
                # a part of the element, changed in place
                if not self.element_mutation:
                    raise Unsupported("the loop changes the elements of the sequence")
                self.used_assumptions.add("list items changed in place are compared through the result only")
                continue
            mods[key] = (obj, field, item)
        return mods

    element_mutation = False
    abstract_sets = False

    def freeze(self, v, memo=None):
        """copy of a value, so that undoing later changes does not change it"""
        memo = {} if memo is None else memo
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, tuple):
            return tuple(self.freeze(x, memo) for x in v)
        if isinstance(v, PList):
            n = PList((), kind=v.kind, term=v.term)
            memo[id(v)] = n
            n.state = tuple(x if isinstance(x, (OSeg, FSeg)) else self.freeze(x, memo) for x in v.state)
            return n
        if isinstance(v, PDict):
            n = PDict(v.base, (), v.ty, v.dcls, factory=v.factory)
            memo[id(v)] = n
            n.state = tuple((k, x if x is DEL else self.freeze(x, memo), w) for k, x, w in v.state)
            return n
        if isinstance(v, SymObj):
            n = SymObj(v.cls, {}, v.term, v.ty)
            memo[id(v)] = n
            n.attrs = {a: self.freeze(x, memo) for a, x in v.attrs.items()}
            return n
        if isinstance(v, SVal):
            o = self.impl(v.t)
            if self.is_changed(o):
                return self.freeze(o, memo)
        return v

    def _frozen_items(self, items):
        out = []
        for x in items:
            o = x
            if isinstance(x, SVal):
                o = self.impl(x.t)
            if isinstance(o, (PDict, SymObj, PList)) and o.serial == 0 and self.is_changed(o):
                x = self.freeze(o)
            out.append(x)
        return tuple(out)

    def _havoc_value(self, src, key, i, havoc, tag="h"):
        obj, field, item, mode = havoc[key]
        init = getattr(obj, field) if item is None else getattr(obj, field).get(item, _MISSING)
        name = "%s%d!%s" % (tag, i, src.key)
        if mode == "object":
            h = const(name, U)
            if isinstance(obj, PList):
                return h, (OSeg(h, self.obj_seg_type(init, key, havoc)),)
            if isinstance(obj, PDict):
                return h, "dict"
            raise Unsupported("loop changes %r" % obj)
        if mode == "temp":
            return None, POISON((src.key, key))
        if isinstance(init, (bool, SBool)):
            h = const(name, B)
            return h, SBool(h)
        if isinstance(init, (int, SInt)):
            h = const(name, I)
            return h, SInt(h)
        if isinstance(init, (float, SReal)):
            h = const(name, R)
            return h, SReal(h)
        if isinstance(init, (str, SStr)):
            h = const(name, S)
            return h, SStr(h)
        if isinstance(init, PList):
            h = const(name, U)
            return h, PList([OSeg(h, self.obj_seg_type(init.state, key, havoc))], kind=init.kind, serial=0, term=h)
        if init is None or isinstance(init, (SVal, SymObj, PDict, tuple)):
            h = const(name, U)
            return h, SVal(h, self.var_type(init, key, havoc))
        raise Unsupported("loop variable of type %r" % type(init))

    def var_type(self, init, key, havoc):
        """type of a generalised variable: the declared one where every iteration keeps it (see _post)"""
        ty = havoc.wide.get(key) or (init.ty if isinstance(init, SVal) else TAny)
        return ty if self.conforms(init, ty) else TWide

    def obj_seg_type(self, state, key, havoc):
        """type of the items of a generalised list"""
        tys = [x.ty for x in state if isinstance(x, OSeg)] + [TAny]
        ty = havoc.wide.get(key) or tys[0]
        for ty in (ty, TAny):
            if all(self.conforms(x, ty) for x in state):
                return ty
        return TWide

    def conforms(self, v, ty):
        """whether every value that v stands for has the type"""
        if isinstance(v, OSeg):
            return v.ty is ty or ty is TWide or (ty is TAny and not v.ty.has_objects())
        if isinstance(v, FSeg):
            return all(self.conforms(x, ty) for c, s in v.cases for x in s)
        if isinstance(v, SVal) and v.ty is ty:
            return True
        k = self.kinds(v)
        if ty is TWide:
            return True
        if ty is TAny:
            if not k <= ty.kinds:
                return False
            if isinstance(v, SVal):
                return k <= TScalar.kinds or not v.ty.has_objects()
            if isinstance(v, PList):
                return all(self.conforms(x, ty) for x in v.state)
            if isinstance(v, tuple) or isinstance(v, list):
                return all(self.conforms(x, ty) for x in v)
            if isinstance(v, PDict):
                return v.dcls is dict and not v.ty.has_objects() and all(x is DEL or self.conforms(x, ty) for _, x, _ in v.state)
            return True
        return k <= ty.kinds and k <= TScalar.kinds

    def _aliases(self, obj, havoc):
        """entries of a changed dict that hold other objects changed by the loop"""
        others = {id(o) for o, f, i, m in havoc.values() if m == "object" and o is not obj}
        return tuple(e for e in obj.state if e[2] and id(e[1]) in others and isinstance(e[0], str))

    def _generalise(self, obj, base, havoc):
        al = self._aliases(obj, havoc)
        self.put(obj, "base", base)
        self.put(obj, "state", al)

    def check_types(self, obj, state):
        """invariant: the declared types of the entries of a dict with that type hold for what is stored"""
        for name, ty in obj.ty.fields.items():
            for k, v, w in state:
                if not w or v is DEL or (isinstance(k, str) and k != name):
                    continue
                if self.kinds(v) <= ty.kinds and ("dict" not in self.kinds(v) or (v.dcls if isinstance(v, PDict) else v.ty.dcls if isinstance(v, SVal) else None) is ty.dcls):
                    continue
                if isinstance(k, str) or not isinstance(k, SStr) or not self.ctx.implied(k.z != zstr(name)):
                    raise Unsupported("the type of the entry %r is not an invariant" % name)

    def _apply_havoc(self, src, havoc, tag="h"):
        consts, state = [], {}
        havoc.src = src
        for i, key in enumerate(havoc):
            obj, field, item, mode = havoc[key]
            h, v = self._havoc_value(src, key, i, havoc, tag)
            if isinstance(v, tuple) and h is not None:
                self.length_vars[h.sexpr()] = (src.key, key)
                if key in havoc.length:
                    self.ctx.assume(slen(h) == self.z(self.state_len(obj.state), I))
            state[key] = (h, v)
            if h is not None:
                consts.append(h)
            if mode == "object":
                if isinstance(obj, PDict):
                    self.check_types(obj, obj.state)
                    if obj.base is not None and obj.ty.fields and obj.serial != 0 and not getattr(obj, "typed", False):
                        raise Unsupported("the types of the entries are not known")
                    self._generalise(obj, h, havoc)
                    state[("aliases", key)] = len(obj.state)
                else:
                    self.put(obj, field, v)
            else:
                self.put_item(obj, field, item, v)
        return consts, state

    def _post(self, havoc, state, key):
        """what became of a generalised variable: ('same',) / ('append', items) / ('term', z) / ('temp',)"""
        obj, field, item, mode = havoc[key]
        h, v0 = state[key]
        if mode == "temp":
            return ("temp",)
        if mode == "object":
            if isinstance(obj, PList):
                st = obj.state
                ty = v0[0].ty
                if not all(self.conforms(x, ty) for x in st):
                    raise Widen(key)
                if key in havoc.length and not self.ctx.implied(self.z(self.state_len(st), I) == slen(h)):
                    raise Unsupported("the loop changes the length of a list")
                if st and isinstance(st[0], OSeg) and st[0].t.eq(h):
                    return ("append", self._frozen_items(st[1:]))
                if len(st) == 1 and isinstance(st[0], OSeg):
                    r = self.replaced.get(st[0].t.sexpr())
                    if r is not None and r[0].eq(h):
                        return ("set", r[1], self._frozen_items((r[2],)), self.seq_term(st))
                return ("term", self.seq_term(st))
            al = self._aliases(obj, havoc)
            if any(x is not y for x, y in zip(al, [e for e in obj.state if e[2]])) or len(al) != state.get(("aliases", key), 0):
                raise Unsupported("the loop replaces an object it changes")
            rest = tuple(e for e in obj.state if not any(e is a for a in al))
            self.check_types(obj, rest)
            if len(rest) == 1 and type(havoc.src) is EnumSrc and havoc.src.start == 0 and isinstance(rest[0][0], SInt) and rest[0][0].z.eq(havoc.src.idx) and rest[0][2] and obj.base.eq(h) and not al:
                return ("index", self._frozen_items((rest[0][1],)))
            t = self.term(PDict(obj.base, rest, obj.ty, obj.dcls))
            return ("same",) if t.eq(h) else ("term", t)
        v = getattr(obj, field).get(item, _MISSING)
        if v is v0:
            return ("same",)
        if isinstance(v0, PList) and isinstance(v, PList) and not all(self.conforms(x, v0.state[0].ty) for x in v.state):
            raise Widen(key)
        if isinstance(v0, PList) and isinstance(v, PList) and v.state and isinstance(v.state[0], OSeg) and v.state[0].t.eq(h):
            return ("append", self._frozen_items(v.state[1:]))
        if isinstance(v, POISON) or v is _MISSING:
            raise Unsupported("loop variable becomes undefined")
        if h.sort() == U:
            if isinstance(v0, PList):
                if not isinstance(v, PList) or v.kind != v0.kind:
                    raise Unsupported("loop variable changes its kind")
            elif not self.conforms(v, v0.ty):
                raise Widen(key)
            return ("term", self.term(v))
        k = {B: (bool, SBool), I: (int, SInt), R: (float, int, SReal, SInt), S: (str, SStr)}[h.sort()]
        if isinstance(v, SVal):
            v = self.force(v)
        if not isinstance(v, k) or (h.sort() == I and isinstance(v, bool)):
            raise Unsupported("loop variable changes its kind")
        return ("term", self.z(v, h.sort()))

    def _conclude(self, src, body, orelse, havoc, outs, limit):
        keys = list(havoc)
        hs = {}
        for i, k in enumerate(keys):
            h, _ = self._havoc_value(src, k, i, havoc)
            if h is not None:
                hs[k] = h
        exits = [pc for pc, (ctl, m, p, s), _ in outs if ctl != "next"]
        nexts = [(pc, p) for pc, (ctl, m, p, s), _ in outs if ctl == "next"]
        f_exit = z3.simplify(z3.Or(exits)) if exits else z3.BoolVal(False)
        facts = self.guarded_facts(outs, [f_exit, src.t] + [pc for pc, p in nexts], src, hs.values())
        # ---- which variables only collect items, independently of the loop state
        group = {}
        allh = list(hs.values())
        state_dep = any(mentions(pc, allh) for pc, p in nexts) or mentions(f_exit, allh)
        for k in keys:
            posts = [p[k] for pc, p in nexts]
            if havoc[k][3] == "temp":
                group[k] = "temp"
            elif all(p[0] == "same" or (p[0] == "append" and not p[1]) for p in posts):
                group[k] = "same"
            elif not state_dep and all(p[0] in ("append", "same") for p in posts) and not any(
                    mentions(self.seq_term(p[1]), allh) for p in posts if p[0] == "append"):
                group[k] = "flat"
            elif not state_dep and self._indexed(src, havoc[k], posts, allh):
                group[k] = "indexed"
            elif not state_dep and self._pointwise(src, havoc[k], posts, allh):
                group[k] = "pointwise"
            else:
                group[k] = "fold"
        if any(p[k][0] == "index" and group[k] != "indexed" for k in keys for pc, p in nexts):
            raise Unsupported("a dict with numbers as keys")
        if state_dep:
            # the control of an iteration depends on the state: everything is one fold
            for k in keys:
                if group[k] in ("flat", "pointwise"):
                    group[k] = "fold"
        folded = [k for k in keys if group[k] == "fold"]
        # ---- exits
        rec = order = None
        need_rec = folded or mentions(f_exit, allh)
        if need_rec:
            rec, order = self._fold(src, havoc, hs, folded, nexts, f_exit, facts)
        if exits:
            facts_e = [f for f in facts if not mentions(f, allh)] if allh else facts
            b = rec.exit if (rec is not None and mentions(f_exit, allh)) else self.exists(src, f_exit, facts_e)
            if self.ctx.branch(b):
                self._run_exit(src, body, havoc, hs, f_exit, b, rec, order, folded, group, nexts, facts_e)
                return
            if not mentions(f_exit, allh):
                self.ctx.facts.setdefault(src.key, []).append(z3.simplify(z3.Not(f_exit)))
                if type(src) is EnumSrc and not mentions(f_exit, [src.idx]):
                    self.ctx.facts.setdefault(src.inner.key, []).append(z3.simplify(z3.Not(f_exit)))
        # ---- final state
        finals = {}
        if rec is not None:
            for k, c in zip(folded, rec.finals_for(order)):
                finals[k] = c
        for k in keys:
            obj, field, item, mode = havoc[k]
            g = group[k]
            if g == "temp":
                self.put_item(obj, field, item, POISON((src.key, k)))
            elif g == "flat":
                cases = [(pc, p[k][1] if p[k][0] == "append" else ()) for pc, p in nexts]
                fs = [f for f in facts if not mentions(f, allh)] if allh else facts
                seg = self.norm_flat(src, cases, fs)
                if mode == "object":
                    self.put(obj, field, obj.state + ((seg,) if seg is not None else ()))
                else:
                    old = getattr(obj, field)[item]
                    self.put_item(obj, field, item, PList(old.state + ((seg,) if seg is not None else ()), kind=old.kind))
            elif g == "indexed":
                seg = FSeg(src, [(pc, ((SInt(src.idx), p[k][1][0]),) if p[k][0] == "index" else ()) for pc, p in nexts], facts)
                self.put(obj, "base", self.flat_term(seg))
                self.put(obj, "indexed", seg)
            elif g == "pointwise":
                enum = self._enum(src)
                cases = [(pc, (p[k][2][0] if p[k][0] == "set" else enum.inner.make(self),)) for pc, p in nexts]
                s = enum if any(mentions(x, [enum.idx]) for pc, p in nexts for x in [pc] + ([self.seq_term(p[k][2])] if p[k][0] == "set" else [])) else enum.inner
                fs = [f for f in facts if not mentions(f, allh + ([] if s is enum else [enum.idx]))]
                self.put(obj, field, (FSeg(s, cases, fs),))
            elif g == "fold":
                c = finals[k]
                if mode == "object":
                    if isinstance(obj, PDict):
                        self._generalise(obj, c, havoc)
                    else:
                        self.put(obj, field, (OSeg(c, self.obj_seg_type(obj.state, k, havoc)),))
                else:
                    init = getattr(obj, field)[item]
                    if c.sort() == U:
                        v = PList([OSeg(c, self.obj_seg_type(init.state, k, havoc))], kind=init.kind, serial=0, term=c) if isinstance(init, PList) else SVal(c, self.var_type(init, k, havoc))
                    else:
                        v = mk(c)
                    self.put_item(obj, field, item, v)
        if orelse:
            orelse()

    def _enum(self, src):
        while type(src) is not EnumSrc and hasattr(src, "inner"):
            src = src.inner
        return src if type(src) is EnumSrc and src.start == 0 and type(src.inner) is Src else None

    def _indexed(self, src, var, posts, allh):
        """an empty dict gets, in some iterations, a value for the index of the iteration"""
        obj, field, item, mode = var
        return (mode == "object" and isinstance(obj, PDict) and obj.base is None and not obj.state and type(src) is EnumSrc and all(p[0] in ("same", "index") for p in posts)
                and not any(mentions(self.seq_term(p[1]), allh) for p in posts if p[0] == "index"))

    def _pointwise(self, src, var, posts, allh):
        """a list gets, in some iterations, a new item in place of the one at the index of the iteration"""
        obj, field, item, mode = var
        enum = self._enum(src)
        if not (mode == "object" and isinstance(obj, PList) and enum is not None and len(obj.state) == 1 and isinstance(obj.state[0], OSeg) and obj.state[0].t.eq(enum.inner.t)):
            return False
        return all((p[0] == "append" and not p[1]) or p[0] == "same" or (p[0] == "set" and p[1].eq(enum.idx) and not mentions(self.seq_term(p[2]), allh)) for p in posts)

    def norm_flat(self, src, cases, facts=()):
        cases = [(z3.simplify(c), tuple(s)) for c, s in cases]
        if all(not s for c, s in cases):
            return None
        if type(src) is EnumSrc and not any(mentions(x, [src.idx]) for c, s in cases for x in (c, self.seq_term(s))):
            src, facts = src.inner, [x for x in facts if not mentions(x, [src.idx])]
        if type(src) is Src and all(len(s) == 1 and isinstance(s[0], SVal) and s[0].t.eq(src.consts[0]) for c, s in cases):
            return OSeg(src.t, src.ty)
        if all(len(s) == 1 for c, s in cases) and len({repr(s[0]) for c, s in cases}) == 1 and len(cases) > 1:
            # the cases only split what the items are made of
            return FSeg(src, [(z3.simplify(z3.Or([c for c, s in cases])), cases[0][1])], facts)
        return FSeg(src, cases, facts)

    def _run_exit(self, src, body, havoc, hs, f_exit, b, rec, order, folded, group, nexts, facts):
        """the loop is left early: run the body on the witness, from an unknown state that leads to the exit"""
        ps = self._params([b])
        n = z3.simplify(b).sexpr()
        sub = []
        for i, c in enumerate(src.consts):
            sub.append((c, self._fun("w%d!%s" % (i, n), c.sort(), ps)))
        for c in src.member(sub) + [_subst(f, sub) for f in self.ctx.facts.get(src.key, [])]:
            self.ctx.assume(c)
        n = self.src_len(src)
        if n is not None:
            self.ctx.assume(n > 0)
        # state when the exit is reached: a function of the state before the loop, the iteration and the witness
        pres = dict(zip(folded, rec.pres_for(order))) if rec is not None else {}
        hsub = []
        for k in havoc:
            if k in hs and group[k] == "fold":
                hsub.append((hs[k], _subst(pres[k], [(p, w) for p, (c, w) in zip(rec.wit, sub)])))
            elif k in hs and group[k] == "same":
                hsub.append((hs[k], self._initial(havoc[k], hs[k].sort())))
        self.ctx.assume(_subst(f_exit, sub + hsub))
        for i, k in enumerate(havoc):
            obj, field, item, mode = havoc[k]
            if mode == "temp":
                self.put_item(obj, field, item, POISON((src.key, k)))
                continue
            if group.get(k) == "same":
                continue
            if group.get(k) == "flat":
                seg = self.norm_flat(src, [(pc, p[k][1] if p[k][0] == "append" else ()) for pc, p in nexts], facts)
                if seg is None:
                    continue
                t = seg.t if isinstance(seg, OSeg) else self.flat_term(seg)
                pre = OSeg(uf("before", U, *([w.sort() for c, w in sub] + [U]))(t, *[w for c, w in sub]), self.obj_seg_type(tuple(y for pc, p in nexts for y in (p[k][1] if p[k][0] == "append" else ())), k, havoc))
                if mode == "object":
                    self.put(obj, field, obj.state + (pre,))
                else:
                    old = getattr(obj, field)[item]
                    self.put_item(obj, field, item, PList(old.state + (pre,), kind=old.kind))
                continue
            w = _subst(hs[k], hsub)
            if group.get(k) in ("indexed", "pointwise"):
                w = const("unknown!%s!%d" % (src.key, next(_serial)), U)       # nothing is known about it
            if mode == "object":
                if isinstance(obj, PDict):
                    self._generalise(obj, w, havoc)
                else:
                    self.put(obj, field, (OSeg(w, self.obj_seg_type(obj.state, k, havoc)),))
            else:
                init = getattr(obj, field)[item]
                if w.sort() == U:
                    v = PList([OSeg(w, self.obj_seg_type(init.state, k, havoc))], kind=init.kind, serial=0, term=w) if isinstance(init, PList) else SVal(w, self.var_type(init, k, havoc))
                else:
                    v = mk(w)
                self.put_item(obj, field, item, v)
        self.subs.append(sub)
        for _, w in sub:
            self.elem_stack.append(w)
        try:
            try:
                body(src.make(self, sub))
            except ContinueLoop:
                raise Infeasible()
            except BreakLoop:
                return
            raise Infeasible()
        finally:
            del self.elem_stack[len(self.elem_stack) - len(sub):]
            # the substitution stays active: later loops over parts of the witness are matched with it

    def _initial(self, var, sort):
        """term of a loop variable before the loop"""
        obj, field, item, mode = var
        if mode == "object":
            return self.seq_term(obj.state) if isinstance(obj, PList) else self.term(obj)
        v = getattr(obj, field)[item]
        if isinstance(v, SVal) and sort != U:
            v = self.force(v)
        return self.term(v) if sort == U else self.z(v, sort)

    def _fold(self, src, havoc, hs, folded, nexts, f_exit, facts):
        """record of a loop with a state: initial terms, step by cases, exit condition"""
        init = []
        for k in folded:
            init.append(self._initial(havoc[k], hs[k].sort()))
        h = [hs[k] for k in folded]
        steps = []
        for pc, p in nexts:
            post = []
            for k in folded:
                q = p[k]
                if q[0] == "same":
                    post.append(hs[k])
                elif q[0] == "set":
                    post.append(q[3])
                elif q[0] == "append":
                    t = hs[k]
                    for x in q[1]:
                        if isinstance(x, (OSeg, FSeg)):
                            t = uf("cat", U, U, U)(t, self.seq_term((x,)))
                        else:
                            t = uf("snoc", U, U, U)(t, self.term(x))
                    post.append(t)
                else:
                    post.append(q[1])
            steps.append((pc, post))
        for r, ren in self._candidates(self.records["fold"], src):
            if len(r.h) != len(h) or sorted(str(x.sort()) for x in r.h) != sorted(str(x.sort()) for x in h):
                continue
            for perm in itertools.permutations(range(len(h))):
                # my variable i corresponds to variable perm[i] of the record
                if any(h[i].sort() != r.h[perm[i]].sort() for i in range(len(h))):
                    continue
                if len(h) > 4 and perm != tuple(range(len(h))):
                    break
                how = self._fold_match(src, r, ren, perm, h, init, steps, f_exit, facts)
                if how:
                    self.loop_used("fold%d" % r.number, False)
                    rr = Record()
                    if how == "shifted":
                        # the same steps from another start
                        start = [None] * len(h)
                        for i in range(len(h)):
                            start[perm[i]] = init[i]
                        at = lambda z, r=r, ren=ren, start=start: _subst(ren(z), list(zip(r.start, start)))  # noqa: E731
                    else:
                        at = lambda z, r=r, ren=ren: ren(_subst(z, list(zip(r.start, r.init))))  # noqa: E731
                    rr.exit = at(r.exit)
                    rr.finals_for = lambda order, r=r, at=at: [at(r.finals[j]) for j in order]
                    rr.pres_for = lambda order, r=r, at=at: [at(r.pres[j]) for j in order]
                    rr.wit = r.wit
                    return rr, perm
        r = Record()
        r.src, r.h, r.init, r.steps, r.f_exit, r.facts = src, h, init, steps, f_exit, facts
        n = r.number = len(self.records["fold"])
        self.loop_used("fold%d" % n, True)
        pick = lambda xs: [p for p in self._params(xs) if not any(p.eq(c) for c in src.consts) and not any(p.eq(c) for c in h)]  # noqa: E731
        r.ps = pick([src.t] + init + [x for pc, post in steps for x in [pc] + post])
        ps = pick([src.t] + [x for pc, post in steps for x in [pc] + post])
        # functions of the start, and of what the steps depend on
        r.start = [const("start%d_%d" % (n, i), x.sort()) for i, x in enumerate(h)]
        r.finals = [self._fun("fold%d_%d" % (n, i), x.sort(), r.start + ps) for i, x in enumerate(h)]
        r.exit = self._fun("foldexit%d" % n, B, r.start + ps)
        # the state in which an iteration on a given element leaves the loop
        r.wit = [const("wit%d_%d" % (n, i), c.sort()) for i, c in enumerate(src.consts)]
        r.pres = [self._fun("foldpre%d_%d" % (n, i), x.sort(), r.start + ps + r.wit) for i, x in enumerate(h)]
        self.records["fold"].append(r)
        rr = Record()
        rr.exit = _subst(r.exit, list(zip(r.start, init)))
        rr.finals_for = lambda order, r=r: [_subst(r.finals[j], list(zip(r.start, r.init))) for j in order]
        rr.pres_for = lambda order, r=r: [_subst(r.pres[j], list(zip(r.start, r.init))) for j in order]
        rr.wit = r.wit
        return rr, tuple(range(len(h)))

    def _fold_match(self, src, r, ren, perm, h, init, steps, f_exit, facts):
        shifted = False
        for i in range(len(h)):
            a, b = ren(r.init[perm[i]]), init[i]
            if not a.eq(b) and not self.ctx.implied(a == b):
                if h[i].sort() == U or not (mentions(a, self.elem_stack) or mentions(b, self.elem_stack) or mentions(r.init[perm[i]], r.ps)):
                    return False
                shifted = True
        # fresh common state
        pairs_r = [(ren(r.h[perm[i]]), const("g%d" % i, h[i].sort())) for i in range(len(h))]
        pairs_m = [(h[i], const("g%d" % i, h[i].sort())) for i in range(len(h))]
        R_ = lambda z: _subst(ren(z), pairs_r)  # noqa: E731
        M_ = lambda z: _subst(z, pairs_m)       # noqa: E731
        pcs = src.member() + self.ctx.facts.get(src.key, []) + ([] if shifted else [R_(f) for f in r.facts]) + [M_(f) for f in facts]
        fe, ge = R_(r.f_exit), M_(f_exit)
        rs = [(R_(c), [R_(post[perm[i]]) for i in range(len(h))]) for c, post in r.steps]
        ms = [(M_(d), [M_(x) for x in post]) for d, post in steps]
        lits = [literals(d) for d, post in ms]
        with self.ctx.under(pcs):
            if shifted and self.ctx.check(z3.Not(z3.Or([fe] + [c for c, post in rs]))) != z3.unsat:
                return False                    # the steps of the record are known for its own states only
            if not fe.eq(ge) and self.ctx.check(fe != ge) != z3.unsat:
                return False
            for c, post in rs:
                lc = literals(c)
                for (d, post2), ld in zip(ms, lits):
                    if disjoint(lc, ld):
                        continue
                    eqs = [x == y for x, y in zip(post, post2) if not x.eq(y)]
                    if not eqs:
                        continue
                    if self.ctx.check(z3.And(c, d, z3.Not(z3.And(eqs)))) != z3.unsat:
                        return False
        return "shifted" if shifted else "same"
