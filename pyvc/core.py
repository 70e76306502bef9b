"""Core of the verifier: symbolic values, path contexts, exploration, definition records.

All symbolic data is a z3 term: scalars have their own sorts, everything else is a term of the uninterpreted
sort U and is decomposed by uninterpreted selectors (kind, element, field, ...), so congruence closure does most
of the work.  Paths are explored by re-execution with a decision log.
"""
import contextlib
import itertools
import time

import z3

U = z3.DeclareSort("U")
S, I, B, R = z3.StringSort(), z3.IntSort(), z3.BoolSort(), z3.RealSort()
KINDS = ("none", "bool", "int", "float", "str", "list", "tuple", "dict", "obj")
KCODE = {k: i for i, k in enumerate(KINDS)}


class Unsupported(Exception):
    """outside the verified fragment: the obligation stays undecided"""


class Infeasible(BaseException):
    pass


class PyRaise(Exception):
    """a Python exception raised by the interpreted code"""

    def __init__(self, exc):
        Exception.__init__(self, repr(exc))
        self.exc = exc


class PExc:
    """an exception object of the interpreted program"""

    def __init__(self, cls, args=()):
        self.cls, self.args, self.attrs = cls, args, {}

    def __repr__(self):
        return "%s%r" % (self.cls.__name__, self.args)


_uf = {}


def uf(name, *sorts):
    key = (name,) + tuple(str(s) for s in sorts)
    if key not in _uf:
        _uf[key] = z3.Function(name + "/" + "_".join(str(s)[0] for s in sorts), *sorts)
    return _uf[key]


def const(name, sort):
    return z3.Const(name, sort)


def zstr(s):
    out = []
    for ch in s:
        o = ord(ch)
        if o < 32 or o > 126 or ch == "\\":
            out.append("\\u{%x}" % o)
        else:
            out.append(ch)
    return z3.StringVal("".join(out))


def unzstr(z):
    """python string of a z3 string literal"""
    s = z.as_string()
    out, i = [], 0
    while i < len(s):
        if s.startswith("\\u{", i):
            j = s.index("}", i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        elif s.startswith("\\x", i) and len(s) >= i + 4:
            out.append(chr(int(s[i + 2:i + 4], 16)))
            i += 4
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


class Sym:
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, self.z)

    def __bool__(self):
        raise Unsupported("truth value of a symbolic value in native code")

    __hash__ = None


class SInt(Sym):
    __slots__ = ()


class SBool(Sym):
    __slots__ = ()


class SStr(Sym):
    __slots__ = ()


class SReal(Sym):
    __slots__ = ()


def mk(z):
    """engine value of a z3 term (a native value when it is a literal)"""
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    s = z.sort()
    if s == I:
        return z.as_long() if z3.is_int_value(z) else SInt(z)
    if s == B:
        return SBool(z)
    if s == S:
        return unzstr(z) if z3.is_string_value(z) else SStr(z)
    if s == R:
        return SReal(z)
    raise Unsupported("sort %s" % s)


def mkreal(x):
    import fractions

    f = fractions.Fraction(x)
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator))


# ---------------------------------------------------------------- types of symbolic inputs


class Ty:
    """possible kinds of a symbolic value, with the types of its parts"""

    def __init__(self, kinds, elem=None, val=None, fields=None, cls=None, items=None, required=(), dcls=dict, keys=None):
        self.kinds = frozenset(kinds)
        self.elem, self.val, self.fields, self.cls, self.items = elem, val, fields or {}, cls, items
        self.required = tuple(required)
        self.dcls = dcls
        self.keys = keys            # for dicts whose keys are not strings
        self.factory = None         # default_factory of dicts
        self.make = None            # make(eng, term): the engine object of a dict with a known structure

    def has_objects(self, seen=()):
        """whether values of the type are, or contain, something else than builtin scalars, lists, tuples and plain dicts"""
        if any(self is x for x in seen):
            return False
        if "obj" in self.kinds or ("dict" in self.kinds and (self.dcls is not dict or self.make is not None)):
            return True
        parts = [self.elem, self.val] + list(self.fields.values()) + list(self.items or ())
        return any(p.has_objects(seen + (self,)) for p in parts if p is not None)

    def odd(self):
        """fields whose values need not be of the type of the other values"""
        if self._odd is None:
            v = self.val or TAny
            self._odd = [(n, f) for n, f in self.fields.items() if f is not v and not (not f.has_objects() if v is TAny else f.kinds <= v.kinds and f.kinds <= TScalar.kinds)]
        return self._odd

    _odd = None

    def __or__(self, o):
        f = dict(self.fields)
        f.update(o.fields)
        t = Ty(self.kinds | o.kinds, self.elem or o.elem, self.val or o.val, f, self.cls or o.cls, self.items or o.items,
               self.required or o.required, self.dcls if self.dcls is not dict else o.dcls)
        t.factory = self.factory or o.factory
        return t


TNone, TBool, TInt, TFloat, TStr = (Ty([k]) for k in ("none", "bool", "int", "float", "str"))
TScalar = Ty(["none", "bool", "int", "float", "str"])


class _Any(Ty):
    def __init__(self):
        Ty.__init__(self, KINDS[:-1])
        self.elem = self.val = self


TAny = _Any()
TWide = _Any()              # also objects of unknown class: most operations on those are outside the fragment
TWide.kinds = frozenset(KINDS)
TWide.dcls = None


def TList(elem):
    return Ty(["list"], elem=elem)


def TTuple(*items):
    return Ty(["tuple"], items=items)


def TDict(val=TAny, fields=None, required=(), dcls=dict, factory=None):
    t = Ty(["dict"], val=val, fields=fields, required=required, dcls=dcls)
    t.factory = factory
    return t


def TObj(cls, **fields):
    return Ty(["obj"], cls=cls, fields=fields)


# ---------------------------------------------------------------- heap objects

_serial = itertools.count(1)


class Heap:
    """object with journaled fields"""

    def __init__(self, serial=None):
        self.born = next(_serial)
        self.serial = self.born if serial is None else serial       # 0: a part of the input, whenever it is looked at


class Frame(Heap):
    def __init__(self, vars, func=None, parent=None):
        Heap.__init__(self)
        self.vars, self.func, self.parent = dict(vars), func, parent


class POISON:
    """value of a variable whose content before an iteration is not known yet"""

    def __init__(self, key):
        self.key = key


class NeedHavoc(BaseException):
    def __init__(self, key):
        self.key = key


class Widen(BaseException):
    """the declared type of a loop variable is not an invariant"""

    def __init__(self, key):
        self.key = key


class NeedLength(BaseException):
    """the length of a list that the loop changes is needed: assumed to be kept by every iteration, and checked"""

    def __init__(self, t):
        self.t = t


class Grow(BaseException):
    """the loop changes more variables than those generalised so far"""

    def __init__(self, mods):
        self.mods = mods


class Havoc(dict):
    """key -> (obj, field, item, mode) of what a loop changes; wide: the types in place of declared ones that are not kept"""

    def __init__(self):
        dict.__init__(self)
        self.wide = {}
        self.length = set()         # lists whose length every iteration keeps


class OSeg:
    """an unknown (sub)sequence, identified by a term"""

    def __init__(self, t, ty, src=None):
        self.t, self.ty = t, ty or TAny
        self.src = src or Src(t, ty or TAny)


class FSeg:
    """[suffix for each element of src], by cases (branches taken, suffix); facts hold for every element"""

    def __init__(self, src, cases, facts=()):
        self.src, self.cases, self.facts = src, cases, facts


class PList(Heap):
    """list (or tuple of unknown length): tuple of items and segments"""

    def __init__(self, state=(), kind="list", serial=None, term=None):
        Heap.__init__(self, serial)
        self.state, self.kind, self.term = tuple(state), kind, term

    def concrete(self):
        return not any(isinstance(x, (OSeg, FSeg)) for x in self.state)

    def __repr__(self):
        return "PList%r" % (self.state,)


class DEL:
    pass


class PDict(Heap):
    """dict: unknown base content (term) with an ordered overlay of (key, value) writes"""

    def __init__(self, base=None, entries=(), ty=None, dcls=dict, serial=None, factory=None):
        Heap.__init__(self, serial)
        self.base, self.ty, self.dcls = base, ty or TDict(), dcls
        self.state = tuple(entries)      # (key, value, written)
        self.factory = factory
        self.indexed = None              # (index, value) pairs, for a dict with a value for some indices of a sequence

    def __repr__(self):
        return "PDict(%s, %r)" % (self.base, self.state)


class PSet(Heap):
    def __init__(self, state=(), serial=None):
        Heap.__init__(self, serial)
        self.state = tuple(state)


class SymObj(Heap):
    def __init__(self, cls, attrs=None, term=None, ty=None, serial=None):
        Heap.__init__(self, serial)
        self.cls, self.attrs, self.term, self.ty = cls, dict(attrs or {}), term, ty

    def __repr__(self):
        return "SymObj(%s, %s)" % (self.cls.__name__, self.term if self.term is not None else self.attrs)


class SVal:
    """symbolic value of a kind that is not decided yet"""

    __slots__ = ("t", "ty")

    def __init__(self, t, ty=TAny):
        self.t, self.ty = t, ty

    def __repr__(self):
        return "SVal(%s)" % self.t

    def __bool__(self):
        raise Unsupported("truth value of a symbolic value in native code")

    __hash__ = None


class Src:
    """source of an abstract loop: identity term, constants of an arbitrary element, its engine value"""

    def __init__(self, t, ty=TAny):
        self.t, self.ty = t, ty
        self.key = t.sexpr()
        self.consts = [uf("elem", U, U)(t)]

    def make(self, eng, sub=None):
        return SVal(_subst(self.consts[0], sub), self.ty)

    def member(self, sub=None):
        return []


class EnumSrc(Src):
    def __init__(self, inner, start=0):
        self.inner = inner
        self.t = uf("enumerate", U, U)(inner.t)
        self.key = self.t.sexpr()
        self.idx = uf("index", U, I)(self.t)
        self.start = start
        self.consts = inner.consts + [self.idx]

    def make(self, eng, sub=None):
        i = _subst(self.idx, sub)
        return (SInt(i) if not self.start else mk(i + self.start), self.inner.make(eng, sub))

    def member(self, sub=None):
        i = _subst(self.idx, sub)
        return self.inner.member(sub) + [i >= 0] + ([i < uf("len", U, I)(self.inner.t)] if type(self.inner) is Src else [])


class ItemsSrc(Src):
    """(key, value) pairs / keys / values of a dict with unknown content"""

    def __init__(self, base, ty, what):
        self.base, self.ty, self.what = base, ty, what
        self.t = uf("items", U, U)(base)
        self.key = self.t.sexpr()
        self.k = uf("key", U, S)(self.t)
        self.consts = [self.k]

    def make(self, eng, sub=None):
        k = _subst(self.k, sub)
        v = dget(self.base, k)
        ty = self.ty.val or TAny
        if self.what != "keys":
            for name, f in self.ty.odd():
                if eng.ctx.branch(k == zstr(name)):
                    ty = f
                    break
        val = SVal(v, ty)
        return {"items": (SStr(k), val), "keys": SStr(k), "values": val}[self.what]

    def member(self, sub=None):
        return [dhas(self.base, _subst(self.k, sub))]


class ZipSrc(Src):
    def __init__(self, a, b, longest=False):
        self.a, self.b, self.longest = a, b, longest
        self.t = uf("zip_longest" if longest else "zip", U, U, U)(a.t, b.t)
        self.key = self.t.sexpr()
        self.consts = a.consts + [c for c in b.consts if not any(c.eq(x) for x in a.consts)]
        self.pa, self.pb = uf("present1", U, B)(self.t), uf("present2", U, B)(self.t)
        if longest:
            self.consts = self.consts + [self.pa, self.pb]

    def make(self, eng, sub=None):
        a, b = self.a.make(eng, sub), self.b.make(eng, sub)
        if self.longest:
            pa, pb = _subst(self.pa, sub), _subst(self.pb, sub)
            eng.ctx.assume(z3.Or(pa, pb))
            a = a if eng.ctx.branch(pa) else None
            b = b if eng.ctx.branch(pb) else None
        return (a, b)

    def member(self, sub=None):
        return self.a.member(sub) + self.b.member(sub)


def _subst(z, sub):
    return z3.substitute(z, *sub) if sub else z


def dhas(base, k):
    return uf("has", U, S, B)(base, k)


def dget(base, k):
    return uf("get", U, S, U)(base, k)


def mentions(z, consts):
    names = {c.get_id() for c in consts}
    seen, todo = set(), [z]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in names:
            return True
        todo.extend(x.children())
    return False


# ---------------------------------------------------------------- paths


class Ctx:
    def __init__(self, eng, parent, log):
        self.eng, self.parent, self.log = eng, parent, list(log)
        self.pos = 0
        self.own = []
        self.dec = []               # the branches with two possible outcomes
        self.own_facts = []         # what is known besides, guarded by the branches taken before
        self.alts = []
        self.forker = None
        self.narrow = dict(parent.narrow) if parent else {}
        self.level = len(eng.elem_stack)
        self.impls = dict(parent.impls) if parent else {}
        self.facts = {k: list(v) for k, v in parent.facts.items()} if parent else {}
        self.solver = z3.Solver()
        self.solver.set("timeout", eng.branch_ms)
        self.seen = set(parent.seen) if parent else set()      # identities of the assumptions (kept alive by the engine)
        self.more, self.key = [], None
        self.model = parent.model if parent else None
        if parent:
            for c in parent.pc():
                self.solver.add(c)

    def pc(self):
        return (self.parent.pc() if self.parent else []) + self.own

    def guard(self):
        return (self.parent.guard() if self.parent else []) + self.dec

    def assume(self, c, decision=False):
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        c = z3.simplify(c)
        if z3.is_true(c) or c.get_id() in self.seen:
            return
        if z3.is_false(c):
            raise Infeasible()
        self.seen.add(c.get_id())
        self.key = None
        if self.model is not None and not self.satisfied(c):
            self.model = None
        self.eng.alive.append(c)
        self.own.append(c)
        self.solver.add(c)
        if decision:
            self.dec.append(c)
        else:
            self.own_facts.append((tuple(self.dec), c))

    def check(self, c):
        eng = self.eng
        eng.queries += 1
        if self.key is None:
            self.key = frozenset(self.seen.union(*self.more)) if self.more else frozenset(self.seen)
        known = eng.answers.setdefault(self.key, {})
        r = known.get(c.get_id())
        if r is None:
            t = time.time()
            if self.satisfied(c):
                r = z3.sat
            else:
                self.solver.push()
                self.solver.add(c)
                r = self.solver.check()
                if r == z3.sat:
                    self.model = self.solver.model()
                self.solver.pop()
            eng.solver_time += time.time() - t
            known[c.get_id()] = r
            eng.alive.append(c)
        if eng.deadline and time.time() > eng.deadline:
            raise Unsupported("time limit")
        return r

    def satisfied(self, c):
        """the last model found (if any) is one of c: only used to leave an alternative open"""
        if self.model is None:
            return False
        try:
            return z3.is_true(self.model.eval(c, True))
        except z3.Z3Exception:
            return False

    @contextlib.contextmanager
    def under(self, cs):
        """with further assumptions"""
        cs = list(cs)
        self.eng.alive.extend(cs)
        self.solver.push()
        self.more.append({c.get_id() for c in cs})
        self.key, model, self.model = None, self.model, None
        try:
            for c in cs:
                self.solver.add(c)
            yield
        finally:
            self.solver.pop()
            self.more.pop()
            self.key, self.model = None, model

    def mentions_len(self, n):
        return any(mentions(c, [n]) for c in self.pc())

    def implied(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.check(z3.Not(c)) == z3.unsat

    def _decide(self, n):
        """index among n alternatives, by the log; None when the log is used up"""
        if self.pos < len(self.log):
            v = self.log[self.pos]
            self.pos += 1
            return v
        return None

    def branch(self, c):
        if isinstance(c, bool):
            return c
        if isinstance(c, SBool):
            c = c.z
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        d = self._decide(2)
        if d is None:
            t_ok = self.check(c) != z3.unsat
            f_ok = self.check(z3.Not(c)) != z3.unsat if t_ok else True
            if t_ok and f_ok:
                if self.forker is not None:
                    d = self.forker.split()
                else:
                    self.alts.append(self.log[:self.pos] + [0])
                    d = 1
            elif t_ok:
                d = 3
            else:
                d = 2
            self.log.append(d)
            self.pos += 1
        self.assume(c if d & 1 else z3.Not(c), decision=d < 2)
        return bool(d & 1)


class Record:
    pass


class Engine:
    def __init__(self, branch_ms=1500, vc_ms=10000, max_paths=600, seconds=60):
        self.answers, self.alive = {}, []       # answers of the solver, by the assumptions and the question
        self.branch_ms, self.vc_ms, self.max_paths = branch_ms, vc_ms, max_paths
        self.ctx = None
        self.journal = []
        self.records = {"exists": [], "flat": [], "fold": []}
        self.queries = 0
        self.solver_time = 0.0
        self.deadline = time.time() + seconds if seconds else None
        self.abstract = False      # a comparison failed for structural reasons
        self.paths = 0
        self.opaque = {}
        self.used_assumptions = set()
        self.externals = {}
        self.counter = itertools.count()

    # ---- journal
    def put(self, obj, field, value):
        old = getattr(obj, field)
        if old is value:
            return
        self.journal.append((obj, field, None, old))
        setattr(obj, field, value)

    def put_item(self, obj, field, key, value):
        """obj.field[key] = value for a native dict field (frame variables, attributes)"""
        d = getattr(obj, field)
        old = d.get(key, _MISSING)
        if old is value:
            return
        self.journal.append((obj, field, key, old))
        if value is _MISSING:
            d.pop(key, None)
        else:
            d[key] = value

    def undo(self, mark, limit):
        while len(self.journal) > mark:
            obj, field, key, old = self.journal.pop()
            if obj.serial >= limit:
                continue
            if key is None:
                setattr(obj, field, old)
            elif old is _MISSING:
                getattr(obj, field).pop(key, None)
            else:
                getattr(obj, field)[key] = old

    # ---- exploration
    def explore(self, fn, keep=True):
        """all paths of fn from the current state: list of (branches taken, result of fn, guarded facts)"""
        parent = self.ctx
        stack, results = [[]], []
        limit = next(_serial)
        while stack:
            log = stack.pop()
            self.paths += 1
            if self.paths > self.max_paths or len(results) > 250:
                raise Unsupported("too many paths")
            ctx = Ctx(self, parent, log)
            self.ctx = ctx
            mark = len(self.journal)
            try:
                out = fn()
                results.append((z3.And(ctx.dec) if ctx.dec else z3.BoolVal(True), out, ctx.own_facts))
            except Infeasible:
                pass
            finally:
                self.ctx = parent
                self.undo(mark, limit)
            stack.extend(ctx.alts)
        return results


class _Missing:
    def __repr__(self):
        return "<missing>"


_MISSING = _Missing()
