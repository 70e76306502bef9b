"""Contracts of mappyfile.ordereddict: case-insensitive dicts against ordered dicts keyed by the folded keys."""
import copy
from collections import OrderedDict

import z3

from pyvc.core import TAny, TStr, TObj, SVal, SymObj, SStr, U, S, B, const, Ty, TList, TNone, TInt, TFloat, TBool, PDict, TDict, uf, TTuple
from pyvc.verify import Contract, word

PLURALS = frozenset(["layers", "classes", "styles", "symbols", "labels", "outputformats", "features", "scaletokens", "composites", "joins", "maps"])


def fold(key):
    return key.lower() if isinstance(key, str) else key


def missing(self, key):
    if self.default_factory is None:
        raise KeyError(key)
    if key in PLURALS:
        value = []
    else:
        value = self.default_factory()
    OrderedDict.__setitem__(self, key, value)
    return value


def s_getitem(self, key):
    k = fold(key)
    if OrderedDict.__contains__(self, k):
        return OrderedDict.__getitem__(self, k)
    return missing(self, k)


def s_setitem(self, key, value):
    OrderedDict.__setitem__(self, fold(key), value)


def s_delitem(self, key):
    OrderedDict.__delitem__(self, fold(key))


def s_contains(self, key):
    return OrderedDict.__contains__(self, fold(key))


def s_pop(self, key):
    k = fold(key)
    if not OrderedDict.__contains__(self, k):
        raise KeyError(k)
    v = OrderedDict.__getitem__(self, k)
    OrderedDict.__delitem__(self, k)
    return v


def s_pop_default(self, key, default):
    k = fold(key)
    if not OrderedDict.__contains__(self, k):
        return default
    v = OrderedDict.__getitem__(self, k)
    OrderedDict.__delitem__(self, k)
    return v


def s_get(self, key):
    k = fold(key)
    if OrderedDict.__contains__(self, k):
        return OrderedDict.__getitem__(self, k)
    return None


def s_get_default(self, key, default):
    k = fold(key)
    if OrderedDict.__contains__(self, k):
        return OrderedDict.__getitem__(self, k)
    return default


def s_setdefault(self, key, default):
    k = fold(key)
    if OrderedDict.__contains__(self, k):
        return OrderedDict.__getitem__(self, k)
    OrderedDict.__setitem__(self, k, default)
    return default


def s_setdefault_none(self, key):
    return s_setdefault(self, key, None)


def s_update(self, e):
    if e is not None:
        new = type(self)()
        for k, v in e.items():
            OrderedDict.__setitem__(new, fold(k), v)
        for k, v in new.items():
            OrderedDict.__setitem__(self, k, v)


def s_update_pairs(self, e):
    new = type(self)()
    for k, v in e:
        OrderedDict.__setitem__(new, fold(k), v)
    for k, v in new.items():
        OrderedDict.__setitem__(self, k, v)


def call_with_keywords(f, self, a, b):
    return f(self, Name=a, layers=b)


def s_update_keywords(self, Name, layers):
    OrderedDict.__setitem__(self, "name", Name)
    OrderedDict.__setitem__(self, "layers", layers)


def s_init(self, default_factory, e):
    if default_factory is not None and not callable(default_factory):
        raise TypeError("not callable")
    self.default_factory = None
    for k, v in e.items():
        OrderedDict.__setitem__(self, fold(k), v)
    self.default_factory = default_factory


def s_init_empty(self, default_factory):
    if default_factory is not None and not callable(default_factory):
        raise TypeError("not callable")
    self.default_factory = default_factory


def s_copy(self):
    new = type(self)(self.default_factory)
    for k, v in self.items():
        OrderedDict.__setitem__(new, k, v)
    return new


def s_deepcopy(self, memo):
    new = type(self)(self.default_factory)
    for k, v in copy.deepcopy(list(self.items())):
        OrderedDict.__setitem__(new, fold(k), v)
    return new


def deepcopy(eng, v, memo=None):
    eng.used_assumptions.add("copy.deepcopy of a list of pairs gives a list of pairs determined by it (the content and independence of the copy are checked natively)")
    return SVal(uf("deepcopy", U, U)(eng.term(v)), TList(TTuple(TKEY, TAny)))


def setup_deepcopy(eng):
    setup(eng)
    eng.externals[copy.deepcopy] = deepcopy


def call_reduce(f, self):
    r = f(self)
    return [r[0], r[1], r[2], r[3], list(r[4]), len(r)]


def s_reduce(self):
    if self.default_factory is None:
        return [type(self), (), None, None, list(self.items()), 5]
    return [type(self), (self.default_factory,), None, None, list(self.items()), 5]


def s_nothing(self):
    pass


def cls():
    from mappyfile.ordereddict import CaseInsensitiveOrderedDict

    return CaseInsensitiveOrderedDict


def setup(eng):
    from mappyfile.ordereddict import CaseInsensitiveOrderedDict, DefaultOrderedDict

    eng.interp_classes = frozenset([CaseInsensitiveOrderedDict, DefaultOrderedDict])
    eng.folded_classes = frozenset([CaseInsensitiveOrderedDict])

    def convert(e, bound):
        """contract of _convert_keys: the dict is unchanged when its keys are folded already, which every write of
        the class ensures (checked natively on generated dicts only)"""
        d = bound["self"]
        if d.base is not None or d.state:
            e.used_assumptions.add("CaseInsensitiveOrderedDict._convert_keys leaves a dict with folded keys unchanged (bounded check only)")
        return None

    eng.opaque[CaseInsensitiveOrderedDict._convert_keys] = convert


TKEY = Ty(["str", "int", "none"])


def cidict(eng, name="d", state=None):
    d = PDict(base=const(name, U), ty=TDict(TAny, dcls=cls()), dcls=cls())
    if eng.ctx.branch(const(name + "_hasfactory", B)):
        d.factory = cls()
    return d


def native_dict(rng, c=None):
    d = (c or cls())(rng.choice([None, cls()]))
    for i in range(rng.randrange(4)):
        d[word(rng, KEYS)] = rng.choice([1, "x", [1], {"a": 1}, None])
    return d


KEYS = ["a", "A", "Name", "name", "layers", "LAYERS", "classes", "points", "B b", "\u0130", "\u00c4x", 1, None, "STYLES", "metadata"]


def native_key(rng):
    return word(rng, KEYS)


def native_plain(rng):
    return {native_key(rng): rng.choice([1, "x", [1], {"a": 1}, None]) for i in range(rng.randrange(4))}


def contracts():
    out = []

    def add(name, method, spec, args, gen, **kw):
        out.append(Contract("CaseInsensitiveOrderedDict." + name, lambda: getattr(cls(), method), spec, lambda eng: [cidict(eng)] + args(eng), lambda rng: [native_dict(rng)] + gen(rng), public=True, **dict({"setup": setup}, **kw)))

    key = lambda eng: [SVal(const("key", U), TKEY)]  # noqa: E731
    key2 = lambda eng: [SVal(const("key", U), TKEY), SVal(const("val", U), TAny)]  # noqa: E731
    nkey = lambda rng: [native_key(rng)]  # noqa: E731
    nkey2 = lambda rng: [native_key(rng), rng.choice([None, 1, "x", [2]])]  # noqa: E731
    add("__getitem__", "__getitem__", s_getitem, key, nkey)
    add("__setitem__", "__setitem__", s_setitem, key2, nkey2)
    add("__delitem__", "__delitem__", s_delitem, key, nkey)
    add("__contains__", "__contains__", s_contains, key, nkey)
    add("has_key", "has_key", s_contains, key, nkey)
    add("pop", "pop", s_pop, key, nkey)
    add("pop (default)", "pop", s_pop_default, key2, nkey2)
    add("get", "get", s_get, key, nkey)
    add("get (default)", "get", s_get_default, key2, nkey2)
    add("setdefault", "setdefault", s_setdefault, key2, nkey2)
    add("setdefault (none)", "setdefault", s_setdefault_none, key, nkey)
    add("copy", "copy", s_copy, lambda eng: [], lambda rng: [])
    add("__copy__", "__copy__", s_copy, lambda eng: [], lambda rng: [])
    add("__deepcopy__", "__deepcopy__", s_deepcopy, lambda eng: [PDict()], lambda rng: [{}], setup=setup_deepcopy)
    add("__reduce__", "__reduce__", s_reduce, lambda eng: [], lambda rng: [], call=call_reduce)
    add("update (mapping)", "update", s_update, lambda eng: [SVal(const("other", U), TDict(TAny) | TNone)], lambda rng: [rng.choice([None, native_plain(rng)])])
    add("update (pairs)", "update", s_update_pairs, lambda eng: [SVal(const("other", U), TList(TTuple(TStr, TAny)))], lambda rng: [list(native_plain(rng).items())])
    add("update (nothing)", "update", s_nothing, lambda eng: [], lambda rng: [])
    out.append(Contract("CaseInsensitiveOrderedDict.update (keywords)", lambda: cls().update, s_update_keywords,
                        lambda eng: [cidict(eng), SVal(const("v1", U), TAny), SVal(const("v2", U), TAny)],
                        lambda rng: [native_dict(rng), 1, [2]], setup=setup, public=True, call=call_with_keywords))

    def new(eng):
        return PDict(dcls=cls())

    def bare(rng):
        return cls().__new__(cls())

    fac = lambda eng: [None if eng.ctx.branch(const("nofactory", B)) else (cls() if eng.ctx.branch(const("callable", B)) else 5)]  # noqa: E731
    nfac = lambda rng: [rng.choice([None, cls(), 5])]  # noqa: E731
    out.append(Contract("CaseInsensitiveOrderedDict.__init__", lambda: cls().__init__, s_init,
                        lambda eng: [new(eng)] + fac(eng) + [SVal(const("other", U), TDict(TAny))],
                        lambda rng: [bare(rng)] + nfac(rng) + [native_plain(rng)], setup=setup, public=True))
    out.append(Contract("CaseInsensitiveOrderedDict.__init__ (empty)", lambda: cls().__init__, s_init_empty,
                        lambda eng: [new(eng)] + fac(eng), lambda rng: [bare(rng)] + nfac(rng), setup=setup, public=True))
    return out
