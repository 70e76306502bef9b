"""AST interpreter of the Python subset, over engine values."""
import ast
import builtins
import collections
import inspect
import logging
import os
import re
import string
import types

import z3

from pyvc.ops import *  # noqa: F401,F403
from pyvc.ops import Ops, _MISSING, BreakLoop, ContinueLoop, ReturnEx
from pyvc import models

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
VERIF = os.path.realpath(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
_trees = {}


def tree_of(filename):
    if filename not in _trees:
        with open(filename, encoding="utf-8") as f:
            src = f.read()
        t = ast.parse(src)
        index = {}
        for node in ast.walk(t):
            if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                line = node.lineno
                if isinstance(node, ast.FunctionDef) and node.decorator_list:
                    line = min([line] + [d.lineno for d in node.decorator_list])
                index.setdefault((line, getattr(node, "name", "<lambda>")), []).append(node)
        _trees[filename] = (t, index)
    return _trees[filename]


def node_of(func):
    code = func.__code__
    _, index = tree_of(code.co_filename)
    nodes = index.get((code.co_firstlineno, code.co_name))
    if not nodes or (len(nodes) > 1):
        raise Unsupported("source of %s" % func.__qualname__)
    return nodes[0]


def owner_of(func):
    """class whose body defines the function, and its name for mangling"""
    parts = func.__qualname__.split(".")
    if len(parts) < 2 or "<locals>" in parts[-2]:
        return None
    o = func.__globals__.get(parts[0])
    for p in parts[1:-1]:
        o = getattr(o, p, None)
    return o if isinstance(o, type) else None


class InterpFunc:
    """a function of the interpreted program"""

    def __init__(self, node, globals_, closure=None, defaults=(), kwdefaults=None, owner=None, name="<lambda>", native=None, cls_name=None):
        self.node, self.globals, self.closure = node, globals_, closure
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}
        self.owner, self.name, self.native, self.cls_name = owner, name, native, cls_name

    def __repr__(self):
        return "InterpFunc(%s)" % self.name


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class ModelMethod:
    """method of a modelled value"""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Star:
    """*value in a call, of unknown length"""

    def __init__(self, value):
        self.value = value


class SuperProxy:
    def __init__(self, owner, obj):
        self.owner, self.obj = owner, obj


class LazyGen:
    """generator expression: loops with a body, consumed once"""

    def __init__(self, run):
        self.run = run              # run(consumer)


_fcache = {}


def from_native(func):
    if func not in _fcache:
        owner = owner_of(func)
        cells = {}
        if func.__closure__:
            for n, c in zip(func.__code__.co_freevars, func.__closure__):
                try:
                    cells[n] = c.cell_contents
                except ValueError:
                    pass
        _fcache[func] = InterpFunc(node_of(func), func.__globals__, cells, func.__defaults__ or (), func.__kwdefaults__, owner, func.__qualname__, func,
                                   owner.__name__ if owner else None)
    return _fcache[func]


def is_ours(func):
    f = getattr(getattr(func, "__code__", None), "co_filename", "")
    f = os.path.realpath(f)
    return f.startswith(REPO + os.sep) or f.startswith(VERIF + os.sep + "contracts")


class Interp(Ops, models.Models):
    def __init__(self, *a, **k):
        Ops.__init__(self, *a, **k)
        self.depth = 0
        self.inlined = set()
        self.opaque_used = set()
        self.reached = set()          # statements executed
        self.new_types = {}           # class -> declared types of the entries of its new dicts
        self.model_classes = {}       # class -> PDict model (key folding)
        self.raise_opaque = True
        self.attr_guard = {}          # class -> check of attribute assignments

    # ------------------------------------------------------------ calls
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, SVal):
            f = self.force(f)
        if isinstance(f, Bound):
            return self.call(f.func, (f.self_,) + tuple(args), kwargs)
        if isinstance(f, ModelMethod):
            return self.call_method(f.obj, f.name, list(args), kwargs)
        if isinstance(f, models.Py):
            return f.fn(self, *args, **kwargs)
        if isinstance(f, InterpFunc):
            return self.call_interp(f, args, kwargs)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, (f.__self__,) + tuple(args), kwargs)
        if isinstance(f, (types.MethodDescriptorType, types.WrapperDescriptorType)) and args:
            a0 = self.conc(args[0])
            if isinstance(a0, PDict) and f.__objclass__ in (dict, collections.OrderedDict):
                return self.dict_method(a0, f.__name__, list(args[1:]), kwargs, raw=True)
            if isinstance(a0, (Sym, PList)):
                return self.call_method(a0, f.__name__, list(args[1:]), kwargs)
        if f in _SAFE_KEYS and f in self.builtin_models and f not in self.externals:
            return self.builtin_models[f](self, *args, **kwargs)
        if isinstance(f, types.FunctionType):
            if f in self.opaque:
                return self.call_opaque(f, args, kwargs)
            if f in self.externals:
                return self.externals[f](self, *args, **kwargs)
            if is_ours(f):
                fi = from_native(f)
                if not f.__code__.co_filename.startswith(VERIF):
                    self.inlined.add(f.__module__ + "." + f.__qualname__)
                return self.call_interp(fi, args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        try:
            if f in self.externals:
                return self.externals[f](self, *args, **kwargs)
        except TypeError:
            pass
        if isinstance(f, SymObj):
            m = self.class_attr(f, "__call__")
            if m is not None:
                return self.call(m, args, kwargs)
        return self.call_native(f, args, kwargs)

    def call_native(self, f, args, kwargs):
        try:
            nargs = [self.to_native(a) for a in args]
            nkw = {k: self.to_native(v) for k, v in kwargs.items()}
        except models.NotNative:
            raise Unsupported("call of %r with symbolic arguments" % (getattr(f, "__qualname__", f),))
        if not self.native_allowed(f):
            raise Unsupported("call of %r" % (getattr(f, "__qualname__", f),))
        try:
            return self.from_native_value(f(*nargs, **nkw))
        except Exception as ex:
            raise PyRaise(PExc(type(ex), ex.args))

    def bind(self, f, args, kwargs):
        """arguments by parameter name for an InterpFunc"""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        if any(isinstance(x, Star) for x in args[:len(names)]):
            raise Unsupported("parameters from *args of unknown length")
        for n, v in zip(names, args):
            out[n] = v
        if a.vararg is not None and any(isinstance(x, Star) for x in args):
            segs = []
            for x in args[len(names):]:
                segs += list(x.value.state) if isinstance(x, Star) else [x]
            args = args[:len(names)]
            kwargs[a.vararg.arg] = out[a.vararg.arg] = PList(segs, kind="tuple")
            del kwargs[a.vararg.arg]
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise(PExc(TypeError, ("too many arguments for %s" % f.name,)))
            out[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            out.setdefault(a.vararg.arg, ())
        posonly = {x.arg for x in a.posonlyargs}
        kwnames = set(names) - posonly | {x.arg for x in a.kwonlyargs}
        extra = {}
        for k, v in kwargs.items():
            if k in kwnames:
                if k in out:
                    raise PyRaise(PExc(TypeError, ("multiple values for %s" % k,)))
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyRaise(PExc(TypeError, ("unexpected argument %s for %s" % (k, f.name),)))
        if a.kwarg is not None:
            out[a.kwarg.arg] = PDict(entries=[(k, v, True) for k, v in extra.items()])
        d = dict(zip(names[len(names) - len(f.defaults):], f.defaults))
        for n in names:
            if n not in out:
                if n not in d:
                    raise PyRaise(PExc(TypeError, ("missing argument %s for %s" % (n, f.name),)))
                out[n] = self.from_native_value(d[n])
        for x in a.kwonlyargs:
            if x.arg not in out:
                if x.arg not in f.kwdefaults:
                    raise PyRaise(PExc(TypeError, ("missing argument %s" % x.arg,)))
                out[x.arg] = self.from_native_value(f.kwdefaults[x.arg])
        order = names + [x.arg for x in (a.vararg, *a.kwonlyargs, a.kwarg) if x is not None]
        return {k: out[k] for k in order if k in out}

    def call_interp(self, f, args, kwargs):
        if self.depth > 60:
            raise Unsupported("recursion without a contract")
        frame = Frame(self.bind(f, args, kwargs), f, None)
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, frame)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own_nodes(f.node)):
                raise Unsupported("generator function")
            for name in _locals(f.node):
                frame.vars.setdefault(name, _MISSING)
            try:
                self.exec_block(f.node.body, frame)
            except ReturnEx as r:
                return r.value
            return None
        finally:
            self.depth -= 1

    def call_opaque(self, f, args, kwargs):
        spec = self.opaque[f]
        bound = self.bind(from_native(f), args, kwargs)
        name = f.__qualname__
        self.opaque_used.add(name)
        if callable(spec):
            return spec(self, bound)
        ret, raises = spec
        terms = []
        for k in bound:
            if k == "self" and isinstance(bound[k], SymObj) and bound[k].term is not None and not self.is_changed(bound[k]):
                terms.append(bound[k].term)
            else:
                terms.append(self.term(bound[k]))
        if raises:
            r = uf("raises:" + name, *([t.sort() for t in terms] + [B]))(*terms)
            if self.ctx.branch(r):
                raise PyRaise(PExc(raises if isinstance(raises, type) else OpaqueError, (name,)))
        return self.opaque_result(name, ret, terms)

    def opaque_result(self, name, ret, terms):
        """value of type ret that is a function of the terms"""
        if ret is None:
            return None
        if isinstance(ret, Ty) and len(ret.kinds) == 1 and next(iter(ret.kinds)) in u2:
            k = next(iter(ret.kinds))
            s = u2[k].range()
            return mk(uf("call:" + name, *([t.sort() for t in terms] + [s]))(*terms))
        t = uf("call:" + name, *([t.sort() for t in terms] + [U]))(*terms)
        v = SVal(t, ret)
        if len(ret.kinds) == 1:
            o = self.force(v)
            return o
        return v

    def instantiate(self, cls, args, kwargs):
        if cls in self.builtin_models:
            return self.builtin_models[cls](self, *args, **kwargs)
        if cls in self.externals:
            return self.externals[cls](self, *args, **kwargs)
        if issubclass(cls, BaseException):
            return PExc(cls, tuple(args))
        if cls in self.interp_classes:
            d = PDict(dcls=cls)
            self.call(self.class_attr(d, "__init__"), args, kwargs)
            return d
        if cls in self.model_classes:
            return self.new_model_dict(cls, args, kwargs)
        init = inspect.getattr_static(cls, "__init__", None)
        if isinstance(init, types.FunctionType) and is_ours(init):
            o = SymObj(cls)
            self.call(init, (o,) + tuple(args), kwargs)
            return o
        raise Unsupported("instance of %s" % cls.__name__)

    # ------------------------------------------------------------ attributes
    def class_attr(self, o, name, start=None):
        """bound attribute from the class of an object, or None"""
        cls = o.cls if isinstance(o, SymObj) else o.dcls if isinstance(o, PDict) else type(o)
        mro = cls.__mro__
        if start is not None:
            mro = mro[mro.index(start) + 1:]
        for c in mro:
            if name in c.__dict__:
                a = c.__dict__[name]
                if isinstance(a, types.FunctionType):
                    return Bound(a, o)
                if isinstance(a, classmethod):
                    return Bound(a.__func__, cls)
                if isinstance(a, staticmethod):
                    return a.__func__
                if isinstance(a, property):
                    return self.call(a.fget, (o,))
                if isinstance(a, (types.BuiltinFunctionType, types.MethodDescriptorType, types.WrapperDescriptorType)):
                    return ModelMethod(o, name)
                if isinstance(a, (types.GetSetDescriptorType, types.MemberDescriptorType)):
                    return None
                return self.from_native_value(a)
        return None

    def getattr(self, o, name):
        if isinstance(o, POISON):
            raise NeedHavoc(o.key)
        if isinstance(o, SVal):
            o = self.restrict(o, name)
        if isinstance(o, (re.Pattern, frozenset)):
            return ModelMethod(o, name)
        if isinstance(o, SuperProxy):
            a = self.class_attr(o.obj, name, start=o.owner)
            if a is None:
                raise PyRaise(PExc(AttributeError, (name,)))
            if isinstance(a, ModelMethod):
                return ModelMethod(models.RawDict(o.obj), name)
            return a
        if isinstance(o, SymObj):
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, POISON):
                    raise NeedHavoc(v.key)
                return v
            if name == "__class__":
                return o.cls
            if o.term is not None and o.ty is not None and name in o.ty.fields:
                v = SVal(uf("attr:" + name, U, U)(o.term), o.ty.fields[name])
                if len(v.ty.kinds) == 1 and next(iter(v.ty.kinds)) in u2:
                    return self.force(v)
                return v
            a = self.class_attr(o, name)
            if a is None:
                if hasattr(o.cls, name):
                    raise Unsupported("attribute %s of %s" % (name, o.cls.__name__))
                raise PyRaise(PExc(AttributeError, (name,)))
            return a
        if isinstance(o, PDict):
            if name == "__class__":
                return o.dcls
            if o.dcls in self.interp_classes:
                if name in ("default_factory",):
                    return o.factory
                a = self.class_attr(o, name)
                if a is not None:
                    return a
            if name == "default_factory":
                return o.factory
            return ModelMethod(o, name)
        if isinstance(o, (Sym, PList, PSet, models.RawDict, str, tuple, models.SMatch, models.GhostOut)) or (isinstance(o, (list, dict, set, frozenset))):
            return ModelMethod(o, name)
        if isinstance(o, PExc):
            if name in o.attrs:
                return o.attrs[name]
            if name == "args":
                return tuple(o.args)
            raise PyRaise(PExc(AttributeError, (name,)))
        if isinstance(o, (InterpFunc, LazyGen)):
            raise Unsupported("attribute of a function")
        if isinstance(o, type) and is_ours_class(o):
            a = inspect.getattr_static(o, name, None)
            if isinstance(a, classmethod):
                return Bound(a.__func__, o)
            if isinstance(a, staticmethod):
                return a.__func__
            if isinstance(a, types.FunctionType):
                return a
        try:
            return self.from_native_value(getattr(o, name))
        except AttributeError as ex:
            raise PyRaise(PExc(AttributeError, ex.args))

    def restrict(self, o, name):
        """the value, of one of the kinds that have the attribute"""
        ks = self.kinds(o)
        if len(ks) > 1:
            good = set()
            for k in ks:
                c = models.KTYPES.get(k)
                if k == "dict":
                    c = o.ty.dcls
                if k == "obj" or (c is not None and hasattr(c, name)):
                    good.add(k)
            if not self.kind_in(o, good):
                raise PyRaise(PExc(AttributeError, (name,)))
        return self.force(o)

    def setattr(self, o, name, v):
        if isinstance(o, SVal):
            o = self.force(o)
        if isinstance(o, SymObj):
            if o.cls in self.attr_guard:
                self.attr_guard[o.cls](self, o, name, v)
            self.put_item(o, "attrs", name, v)
            return
        if isinstance(o, PDict) and name == "default_factory":
            self.put(o, "factory", v)
            return
        if isinstance(o, PExc):
            o.attrs[name] = v
            return
        raise Unsupported("assignment to an attribute of %r" % type(o))

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, frame):
        for s in stmts:
            self.exec(s, frame)

    def exec(self, s, frame):
        self.reached.add((frame.func.globals.get("__file__"), s.lineno) if frame.func is not None and hasattr(s, "lineno") else None)
        getattr(self, "s_" + type(s).__name__, self.s_unsupported)(s, frame)

    def s_unsupported(self, s, frame):
        raise Unsupported("statement %s at line %s" % (type(s).__name__, getattr(s, "lineno", "?")))

    def s_Expr(self, s, frame):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, frame)

    def s_Pass(self, s, frame):
        pass

    def s_Return(self, s, frame):
        raise ReturnEx(self.eval(s.value, frame) if s.value is not None else None)

    def s_Break(self, s, frame):
        raise BreakLoop()

    def s_Continue(self, s, frame):
        raise ContinueLoop()

    def s_Assign(self, s, frame):
        v = self.eval(s.value, frame)
        for t in s.targets:
            self.assign(t, v, frame)

    def s_AnnAssign(self, s, frame):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, frame), frame)

    def s_AugAssign(self, s, frame):
        t = s.target
        if isinstance(t, ast.Name):
            load = lambda: self.lookup(t.id, frame)  # noqa: E731
            store = lambda v: self.assign(t, v, frame)  # noqa: E731
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, frame)
            n = self.mangle(t.attr, frame)
            load = lambda: self.getattr(o, n)  # noqa: E731
            store = lambda v: self.setattr(o, n, v)  # noqa: E731
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, frame)
            i = self.eval(t.slice, frame)
            load = lambda: self.getitem(o, i)  # noqa: E731
            store = lambda v: self.setitem(o, i, v)  # noqa: E731
        else:
            raise Unsupported("augmented assignment")
        old = load()
        v = self.eval(s.value, frame)
        if isinstance(old, SVal):
            old = self.force(old)
        if isinstance(old, PList) and old.kind == "list" and isinstance(s.op, ast.Add):
            self.list_extend(old, v)
            store(old)
            return
        store(self.binop(type(s.op), old, v))

    def s_If(self, s, frame):
        if self.truth(self.eval(s.test, frame)):
            self.exec_block(s.body, frame)
        else:
            self.exec_block(s.orelse, frame)

    def s_Assert(self, s, frame):
        if not self.truth(self.eval(s.test, frame)):
            raise PyRaise(PExc(AssertionError))

    def s_Raise(self, s, frame):
        if s.exc is None:
            cur = frame.vars.get("%exc")
            if cur is None:
                raise Unsupported("bare raise")
            raise PyRaise(cur)
        e = self.eval(s.exc, frame)
        if isinstance(e, type):
            e = PExc(e)
        if isinstance(e, BaseException):
            e = PExc(type(e), e.args)
        if not isinstance(e, PExc):
            raise Unsupported("raise of %r" % e)
        raise PyRaise(e)

    def s_Try(self, s, frame):
        def handled():
            try:
                self.exec_block(s.body, frame)
            except PyRaise as ex:
                for h in s.handlers:
                    if h.type is None:
                        match = True
                    else:
                        c = self.eval(h.type, frame)
                        match = issubclass(ex.exc.cls, tuple(c) if isinstance(c, tuple) else c)
                    if match:
                        if h.name:
                            self.put_item(frame, "vars", h.name, ex.exc)
                        self.put_item(frame, "vars", "%exc", ex.exc)
                        self.exec_block(h.body, frame)
                        return
                raise
            self.exec_block(s.orelse, frame)

        try:
            handled()
        except (PyRaise, ReturnEx, BreakLoop, ContinueLoop):
            self.exec_block(s.finalbody, frame)
            raise
        self.exec_block(s.finalbody, frame)

    def s_With(self, s, frame):
        managers = []
        for item in s.items:
            m = self.eval(item.context_expr, frame)
            v = self.enter(m)
            managers.append(m)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, frame)
        try:
            self.exec_block(s.body, frame)
        finally:
            for m in managers:
                self.leave(m)

    def s_FunctionDef(self, s, frame):
        defaults = tuple(self.eval(d, frame) for d in s.args.defaults)
        if s.decorator_list:
            raise Unsupported("decorator")
        f = InterpFunc(s, self.globals_of(frame), frame, defaults, {}, None, s.name, None, frame.func.cls_name if frame.func else None)
        self.put_item(frame, "vars", s.name, f)

    def s_Import(self, s, frame):
        for a in s.names:
            self.put_item(frame, "vars", (a.asname or a.name).split(".")[0], __import__(a.name))

    def s_ImportFrom(self, s, frame):
        m = __import__(s.module, fromlist=[a.name for a in s.names])
        for a in s.names:
            self.put_item(frame, "vars", a.asname or a.name, getattr(m, a.name))

    def s_Delete(self, s, frame):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, frame), self.eval(t.slice, frame))
            elif isinstance(t, ast.Name):
                self.put_item(frame, "vars", t.id, _MISSING)
            else:
                raise Unsupported("del")

    def s_For(self, s, frame):
        it = self.eval(s.iter, frame)

        def body(x):
            self.assign(s.target, x, frame)
            self.exec_block(s.body, frame)

        self.iterate(it, body, (lambda: self.exec_block(s.orelse, frame)) if s.orelse else None)

    def padding(self, s, frame):
        """while len(xs) < n: xs.append(c)   is   xs += [c] * (n - len(xs)), when n does not depend on xs"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Call)
                and isinstance(t.left.func, ast.Name) and t.left.func.id == "len" and len(t.left.args) == 1 and len(s.body) == 1 and not s.orelse):
            return False
        b = s.body[0]
        if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) and b.value.func.attr == "append"
                and len(b.value.args) == 1 and not b.value.keywords and ast.dump(b.value.func.value) == ast.dump(t.left.args[0])):
            return False
        c = b.value.args[0]
        if not (isinstance(c, ast.Constant) or isinstance(c, ast.List) and not c.elts):
            return False
        xs = self.eval(t.left.args[0], frame)
        if isinstance(xs, SVal):
            xs = self.force(xs)
        if not isinstance(xs, PList) or xs.kind != "list" or xs.concrete() and isinstance(self.eval(t.comparators[0], frame), int):
            return False
        n = self.eval(t.comparators[0], frame)
        if not self.truth(self.eval(t, frame)):
            return True
        item = self.term(self.eval(c, frame))
        pad = uf("repeat", U, I, U)(item, self.z(n, I) - self.z(self.b_len(xs), I))
        self.put(xs, "state", xs.state + (OSeg(pad, TList(TAny) if isinstance(c, ast.List) else TAny),))
        if not self.z(self.eval(t.comparators[0], frame), I).eq(self.z(n, I)):
            raise Unsupported("loop that changes its own bound")
        return True

    def s_While(self, s, frame):
        if self.padding(s, frame):
            return
        n = 0
        while self.truth(self.eval(s.test, frame)):
            n += 1
            if n > 60:
                raise Unsupported("while loop without a bound")
            try:
                self.exec_block(s.body, frame)
            except ContinueLoop:
                continue
            except BreakLoop:
                return
        self.exec_block(s.orelse, frame)

    def assign(self, t, v, frame):
        if isinstance(t, ast.Name):
            self.put_item(self.owner_frame(frame, t.id), "vars", t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, t.elts)
            for a, b in zip(t.elts, items):
                self.assign(a.value if isinstance(a, ast.Starred) else a, b, frame)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, frame), self.mangle(t.attr, frame), v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, frame)
            if isinstance(t.slice, ast.Slice):
                self.set_slice(o, t.slice, v, frame)
            else:
                self.setitem(o, self.eval(t.slice, frame), v)
        else:
            raise Unsupported("assignment target")

    def set_slice(self, o, sl, v, frame):
        if isinstance(o, SVal):
            o = self.force(o)
        if isinstance(o, PList) and sl.lower is None and sl.upper is None and sl.step is None:
            self.put(o, "state", tuple(self.segments(v)))
            return
        raise Unsupported("slice assignment")

    def unpack(self, v, elts):
        if isinstance(v, SVal):
            v = self.force(v)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, PList):
            if not v.concrete():
                seq = v.state
                if len(seq) == 1 and isinstance(seq[0], OSeg) and not star:
                    # a sequence of unknown length: it must have exactly that many items
                    n = len(elts)
                    self.ctx.assume(slen(seq[0].t) >= 0)
                    if not self.ctx.branch(slen(seq[0].t) == n):
                        raise PyRaise(PExc(ValueError, ("unpack",)))
                    return [SVal(uf("at", U, I, U)(seq[0].t, z3.IntVal(i)), seq[0].ty) for i in range(n)]
                raise Unsupported("unpacking of an unknown sequence")
            v = tuple(v.state)
        if isinstance(v, list):
            v = tuple(v)
        if not isinstance(v, tuple):
            if isinstance(v, (PDict, SymObj)) or isinstance(v, (Sym, str)):
                raise Unsupported("unpacking of %r" % type(v))
            raise PyRaise(PExc(TypeError, ("cannot unpack",)))
        if star:
            i = star[0]
            after = len(elts) - i - 1
            if len(v) < len(elts) - 1:
                raise PyRaise(PExc(ValueError, ("unpack",)))
            return list(v[:i]) + [PList(v[i:len(v) - after])] + list(v[len(v) - after:])
        if len(v) != len(elts):
            raise PyRaise(PExc(ValueError, ("unpack",)))
        return list(v)

    # ------------------------------------------------------------ names
    def globals_of(self, frame):
        return frame.func.globals

    def owner_frame(self, frame, name):
        return frame

    def lookup(self, name, frame):
        f = frame
        while f is not None:
            if isinstance(f, Frame):
                if name in f.vars:
                    v = f.vars[name]
                    if isinstance(v, POISON):
                        raise NeedHavoc(v.key)
                    if v is _MISSING:
                        if f is frame:
                            raise PyRaise(PExc(UnboundLocalError, (name,)))
                    else:
                        return v
                nxt = f.parent if f.parent is not None else (f.func.closure if f.func is not None else None)
                f = nxt
            else:
                if name in f:
                    return self.from_native_value(f[name])
                f = None
        g = self.globals_of(frame)
        if name in g:
            return self.from_native_value(g[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(PExc(NameError, (name,)))

    def mangle(self, name, frame):
        c = frame.func.cls_name if frame.func else None
        if c and name.startswith("__") and not name.endswith("__"):
            return "_%s%s" % (c.lstrip("_"), name)
        return name

    # ------------------------------------------------------------ expressions
    def eval(self, e, frame):
        return getattr(self, "e_" + type(e).__name__, self.e_unsupported)(e, frame)

    def e_unsupported(self, e, frame):
        raise Unsupported("expression %s at line %s" % (type(e).__name__, getattr(e, "lineno", "?")))

    def e_Constant(self, e, frame):
        return e.value

    def e_Name(self, e, frame):
        return self.lookup(e.id, frame)

    def e_NamedExpr(self, e, frame):
        v = self.eval(e.value, frame)
        self.assign(e.target, v, frame)
        return v

    def e_Attribute(self, e, frame):
        return self.getattr(self.eval(e.value, frame), self.mangle(e.attr, frame))

    def e_Call(self, e, frame):
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name):
            try:
                o = self.lookup(e.func.value.id, frame)
            except PyRaise:
                o = None
            if isinstance(o, logging.Logger):
                self.used_assumptions.add("logging calls have no effect and do not raise")
                return None
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = frame
            while f.func is None or f.func.owner is None:
                f = f.parent if f.parent is not None else f.func.closure
            first = (f.func.node.args.posonlyargs + f.func.node.args.args)[0].arg
            return SuperProxy(f.func.owner, f.vars[first])
        if isinstance(e.func, ast.Name) and e.func.id == "locals":
            raise Unsupported("locals()")
        f = self.eval(e.func, frame)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, frame)
                if isinstance(v, SVal):
                    v = self.force(v)
                if isinstance(v, PList):
                    if not v.concrete():
                        args.append(Star(v))
                        continue
                    args += list(v.state)
                elif isinstance(v, (tuple, list)):
                    args += list(v)
                else:
                    raise Unsupported("*args")
            else:
                args.append(self.eval(a, frame))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, frame)
                if isinstance(d, SVal):
                    d = self.force(d)
                if isinstance(d, dict):
                    kwargs.update(d)
                elif isinstance(d, PDict) and d.base is None:
                    for kk, vv, w in d.state:
                        if vv is not DEL:
                            kwargs[kk] = vv
                elif isinstance(d, PDict) and isinstance(f, ModelMethod) and isinstance(f.obj, str) and f.name == "format":
                    # the named fields are all that is used
                    for _, n, _, _ in string.Formatter().parse(f.obj):
                        if n is not None and n not in kwargs:
                            if not n.isidentifier():
                                raise Unsupported("field of a format string")
                            kwargs[n] = self.getitem(d, n)
                elif isinstance(d, PDict) and not d.state:
                    kwargs["**"] = d
                else:
                    raise Unsupported("**kwargs")
            else:
                kwargs[k.arg] = self.eval(k.value, frame)
        if "**" in kwargs:
            kwargs.pop("**")
            raise Unsupported("** of an unknown dict")
        return self.call(f, args, kwargs)

    def e_BoolOp(self, e, frame):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, frame)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if t != isand:
                return v
        return v

    def e_UnaryOp(self, e, frame):
        v = self.eval(e.operand, frame)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, SVal):
            v = self.force(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, Sym):
                if isinstance(v, SBool):
                    raise Unsupported("minus bool")
                return mk(-v.z)
            return -v
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def e_BinOp(self, e, frame):
        return self.binop(type(e.op), self.eval(e.left, frame), self.eval(e.right, frame))

    def e_Compare(self, e, frame):
        left = self.eval(e.left, frame)
        res = True
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(c, frame)
            res = self.compare(type(op), left, right)
            if i < len(e.ops) - 1:
                if not self.truth(res):
                    return False
            left = right
        return res

    def e_IfExp(self, e, frame):
        return self.eval(e.body if self.truth(self.eval(e.test, frame)) else e.orelse, frame)

    def e_Lambda(self, e, frame):
        return InterpFunc(e, self.globals_of(frame), frame, tuple(self.eval(d, frame) for d in e.args.defaults), {}, None, "<lambda>", None,
                          frame.func.cls_name if frame.func else None)

    def e_Tuple(self, e, frame):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += self.concrete_items(self.eval(x.value, frame))
            else:
                out.append(self.eval(x, frame))
        return tuple(out)

    def e_List(self, e, frame):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += list(self.segments(self.eval(x.value, frame)))
            else:
                out.append(self.eval(x, frame))
        return PList(out)

    def e_Set(self, e, frame):
        return PSet([self.eval(x, frame) for x in e.elts])

    def e_Dict(self, e, frame):
        d = PDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, frame)
                self.dict_update(d, o)
            else:
                kk = self.eval(k, frame)
                self.setitem(d, kk, self.eval(v, frame))
        return d

    def e_Subscript(self, e, frame):
        o = self.eval(e.value, frame)
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(e.slice.lower, frame) if e.slice.lower is not None else None
            hi = self.eval(e.slice.upper, frame) if e.slice.upper is not None else None
            st = self.eval(e.slice.step, frame) if e.slice.step is not None else None
            return self.getslice(o, lo, hi, st)
        return self.getitem(o, self.eval(e.slice, frame))

    def e_JoinedStr(self, e, frame):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, frame)
                if v.format_spec is not None:
                    raise Unsupported("format specification")
                if v.conversion not in (-1, 115):
                    raise Unsupported("format conversion")
                parts.append(self.to_str(x))
        return self.concat(parts)

    def _comp(self, e, frame, emit):
        """run the loops of a comprehension; emit(frame) for each item"""
        inner = Frame({}, frame.func, frame)

        def level(i):
            if i == len(e.generators):
                emit(inner)
                return
            g = e.generators[i]
            it = self.eval(g.iter, frame if i == 0 else inner)

            def body(x):
                self.assign(g.target, x, inner)
                for c in g.ifs:
                    if not self.truth(self.eval(c, inner)):
                        raise ContinueLoop()
                level(i + 1)

            self.iterate(it, body)

        level(0)

    def e_ListComp(self, e, frame):
        out = PList()
        self._comp(e, frame, lambda f: self.list_append(out, self.eval(e.elt, f)))
        return out

    def e_SetComp(self, e, frame):
        out = PList()
        self._comp(e, frame, lambda f: self.list_append(out, self.eval(e.elt, f)))
        return PSet(out.state)

    def e_DictComp(self, e, frame):
        # the keys of these comprehensions are those of a dict, hence different
        out = PList()
        src = {}

        def emit(f):
            self.list_append(out, (self.eval(e.key, f), self.eval(e.value, f)))

        self._comp(e, frame, emit)
        return self.dict_from_pairs(out)

    def e_GeneratorExp(self, e, frame):
        # the outermost iterable is evaluated at once, the rest on consumption
        def run(consumer):
            self._comp(e, frame, lambda f: consumer(self.eval(e.elt, f)))

        return LazyGen(run)

    def e_Starred(self, e, frame):
        raise Unsupported("starred expression")


class OpaqueError(Exception):
    """some exception of a function known by its contract only"""


def is_ours_class(c):
    m = getattr(c, "__module__", "")
    return m.startswith("mappyfile")


class _Keys:
    def __contains__(self, f):
        try:
            hash(f)
            return True
        except TypeError:
            return False


_SAFE_KEYS = _Keys()


def _own_nodes(node):
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp)):
            todo.extend(ast.iter_child_nodes(n))


_lcache = {}


def _locals(node):
    if node not in _lcache:
        out = set()
        todo = list(node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
                continue
            if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            if isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            todo.extend(ast.iter_child_nodes(n))
        _lcache[node] = out
    return _lcache[node]
