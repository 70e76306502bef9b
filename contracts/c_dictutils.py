"""Contracts of mappyfile.dictutils."""
import copy
from itertools import zip_longest

import z3

from pyvc.core import PyRaise, PExc, TAny, TStr, TObj, SVal, SymObj, SStr, U, S, B, const, Ty, TList, TNone, TInt, TFloat, TBool, PDict, PList, OSeg, TDict, uf, TTuple, SBool
from pyvc.verify import Contract, word


def cls():
    from mappyfile.ordereddict import CaseInsensitiveOrderedDict

    return CaseInsensitiveOrderedDict


def s_find(lst, key, value):
    k = key.lower()
    for item in lst:
        if k in item:
            if item.get(k) == value:
                return item
    return None


def s_findall(lst, key, value):
    k = key.lower()
    many = isinstance(value, (list, tuple))
    out = []
    for item in lst:
        if k in item:
            found = item.get(k) == value
            if not found and many:
                for v in value:
                    if item.get(k) == v:
                        found = True
                        break
            if found:
                out.append(item)
    return out


def s_findunique(lst, key):
    k = key.lower()
    return sorted(set(item.get(k) if k in item else None for item in lst) - {None})


def s_findkey(d, *keys):
    from mappyfile.dictutils import findkey

    if len(keys) == 0:
        return d
    rest = list(keys)
    k = rest.pop(0)
    if isinstance(d, dict) and k not in d:
        return findkey(copy.copy(d)[k], *rest)
    return findkey(d[k], *rest)


def speaks_delete(v):
    return v.get("__delete__", False)


def s_update(d1, d2, overwrite=True):
    from mappyfile.dictutils import update

    if d2.get("__delete__", False):
        return {}
    for k, v in d2.items():
        if isinstance(v, dict):
            if v.get("__delete__", False):
                d1.pop(k, None)
            else:
                d1[k] = update(d1.get(k, {}), v, overwrite)
        elif isinstance(v, (tuple, list)) and all(li is None or isinstance(li, dict) for li in v):
            merged = []
            for old, new in zip_longest(d1.get(k, []), v):
                if old is None and new is None:
                    continue
                if new is None:
                    new = {}
                if old is None:
                    old = {}
                if not new.get("__delete__", False):
                    merged.append(update(old, new, overwrite))
            d1[k] = merged
        elif isinstance(v, str) and v == "__delete__":
            d1.pop(k, None)
        elif overwrite is True or k not in d1:
            d1[k] = v
    return d1


def s_dict_move_to_end(ordered_dict, key):
    if key not in ordered_dict:
        raise KeyError(key)
    v = ordered_dict[key]
    del ordered_dict[key]
    ordered_dict[key] = v


def setup_update(eng):
    setup(eng)
    eng.element_mutation = True


def setup(eng):
    eng.model_classes = {cls(): True}


def tci(val=TAny):
    return TDict(val, dcls=cls(), factory=cls())


# what d1 holds under a key, and what d2 says about it (scalars, lists of scalars, lists of dicts, dicts)
INNER = TDict(TAny)
MEMBER = Ty(["none", "str", "int", "list", "dict"], elem=INNER, val=TAny)
SCALARS = Ty(["none", "str", "bool", "int", "float"])


def native_items(rng):
    from contracts.c_ordereddict import native_dict

    out = []
    for i in range(rng.randrange(4)):
        d = cls()(cls())
        for j in range(rng.randrange(3)):
            d[word(rng, ["name", "group", "layers", "Type"])] = rng.choice(["a", "b", "A", 1, 2, [1], "x"])
        out.append(d)
    return out


def nkey(rng):
    return word(rng, ["name", "NAME", "group", "layers", "type", "x"])


def nval(rng):
    return rng.choice(["a", "b", "A", 1, ["a", "b"], ("a",), ["x", [1]], None, [1], []])


def native_items_strings(rng):
    out = native_items(rng)
    for d in out:
        for k in list(d):
            d[k] = rng.choice("abc")
    return out


def update_contract(eng, b):
    """contract of update used at its recursive calls"""
    if not eng.kind_in(b["d1"], ["dict"]) or not eng.kind_in(b["d2"], ["dict"]):
        raise PyRaise(PExc(AttributeError, ("not a dict",)))
    d1, d2, ow = eng.conc(b["d1"]), eng.conc(b["d2"]), b["overwrite"]
    if eng.truth(eng.dict_method(d2, "get", ["__delete__", False], {})):
        return PDict()
    t = uf("call:update", U, U, U, U)(eng.term(d1), eng.term(d2), eng.term(ow))
    eng.put(d1, "base", t)
    eng.put(d1, "state", ())
    return d1


def native_nested(rng, depth=2, ci=True):
    d = cls()(cls()) if ci else {}
    for i in range(rng.randrange(4)):
        k = word(rng, ["name", "type", "layers", "web", "metadata", "classes"])
        if k in ("layers", "classes") and depth:
            v = [native_nested(rng, depth - 1, ci) for j in range(rng.randrange(3))]
            if not ci and v and rng.random() < .4:
                v[rng.randrange(len(v))] = rng.choice([None, {"__delete__": True}])
            if not ci and not v:
                v = [None]
            d[k] = v
        elif k in ("web", "metadata") and depth:
            d[k] = native_nested(rng, depth - 1, ci)
        elif k in ("name", "type"):
            d[k] = word(rng, ["a", 1, [1, 2], None] + ([] if ci else ["__delete__"]))
    if not ci and rng.random() < .1 and depth < 2:
        d["__delete__"] = True
    return d


def contracts():
    from mappyfile import dictutils

    out = []
    lst = lambda eng: SVal(const("lst", U), TList(tci()))  # noqa: E731
    key = lambda: SVal(const("key", U), TStr)  # noqa: E731
    val = lambda: SVal(const("value", U), TAny)  # noqa: E731
    out.append(Contract("find", lambda: dictutils.find, s_find, lambda eng: [lst(eng), key(), val()],
                        lambda rng: [native_items(rng), nkey(rng), nval(rng)], setup=setup, public=True))
    out.append(Contract("findall", lambda: dictutils.findall, s_findall, lambda eng: [lst(eng), key(), val()],
                        lambda rng: [native_items(rng), nkey(rng), nval(rng)], setup=setup, public=True))
    out.append(Contract("findunique", lambda: dictutils.findunique, s_findunique, lambda eng: [SVal(const("lst", U), TList(tci(TStr))), key()],
                        lambda rng: [native_items_strings(rng), nkey(rng)], setup=setup, public=True))

    plain = lambda eng, ty=TAny: SVal(const("lst", U), TList(TDict(ty)))  # noqa: E731
    for what, f, spec in (("find", "find", s_find), ("findall", "findall", s_findall)):
        out.append(Contract(what + " (plain dicts)", lambda f=f: getattr(dictutils, f), spec, lambda eng: [plain(eng), key(), val()],
                            lambda rng: [[dict(d) for d in native_items(rng)], nkey(rng), nval(rng)], public=True))
    out.append(Contract("findunique (plain dicts)", lambda: dictutils.findunique, s_findunique, lambda eng: [plain(eng, TStr), key()],
                        lambda rng: [[dict(d) for d in native_items_strings(rng)], nkey(rng)], public=True))

    def fk_args(eng):
        return [SVal(const("d", U), tci() | TList(TAny)), PList([OSeg(const("keys", U), Ty(["str", "int"]))], kind="tuple")]

    out.append(Contract("findkey", lambda: dictutils.findkey, s_findkey, fk_args,
                        lambda rng: [native_nested(rng)] + [rng.choice(['layers', 'web', 'name', 0, 1, 'classes', 'x']) for i in range(rng.randrange(4))], setup=setup, public=True,
                        opaque=lambda: {dictutils.findkey: (TAny, Exception)}, star=True))
    out.append(Contract("findkey (plain dicts)", lambda: dictutils.findkey, s_findkey,
                        lambda eng: [SVal(const("d", U), TDict(TAny) | TList(TAny)), PList([OSeg(const("keys", U), Ty(["str", "int"]))], kind="tuple")],
                        lambda rng: [native_nested(rng, 2, False)] + [rng.choice(['layers', 'web', 'name', 0, 1, 'classes', 'x']) for i in range(rng.randrange(4))], public=True,
                        opaque=lambda: {dictutils.findkey: (TAny, Exception)}, star=True))
    # an iteration of update deals with one value of d2 and an arbitrary d1, so the cases are split by the kind of the values
    for what, speaks, member in (("scalars", SCALARS, MEMBER), ("lists of scalars", TList(Ty(["int", "str"])), Ty(["list"], elem=INNER)), ("objects", TDict(TAny), MEMBER), ("lists of objects", Ty(["list"], elem=TNone | TDict(TAny)), Ty(["list"], elem=INNER)),
                                 ("lists of anything", TList(Ty(["int", "str", "dict"], val=TAny)), Ty(["list"], elem=INNER))):
        out.append(Contract("update (%s)" % what, lambda: dictutils.update, s_update,
                            lambda eng, speaks=speaks, member=member: [SVal(const("d1", U), tci(member)), SVal(const("d2", U), TDict(speaks)), SBool(const("overwrite", B))],
                            lambda rng: [native_nested(rng), native_nested(rng, 2, False), rng.random() < .5], setup=setup_update, public=True, seconds=100,
                            opaque=lambda: {dictutils.update: update_contract}))
    out.append(Contract("update (plain dicts)", lambda: dictutils.update, s_update,
                        lambda eng: [SVal(const("d1", U), TDict(MEMBER)), SVal(const("d2", U), TDict(SCALARS | TDict(TAny))), SBool(const("overwrite", B))],
                        lambda rng: [native_nested(rng, 2, False), native_nested(rng, 2, False), rng.random() < .5], setup=lambda eng: setattr(eng, "element_mutation", True), public=True, seconds=100,
                        opaque=lambda: {dictutils.update: update_contract}))
    out.append(Contract("update (overwriting by default)", lambda: dictutils.update, s_update, lambda eng: [SVal(const("d1", U), tci(MEMBER)), SVal(const("d2", U), TDict(SCALARS))],
                        lambda rng: [native_nested(rng), native_nested(rng, 2, False)], setup=setup_update, public=True, opaque=lambda: {dictutils.update: update_contract}))
    out.append(Contract("dict_move_to_end", lambda: dictutils.dict_move_to_end, s_dict_move_to_end, lambda eng: [SVal(const("d", U), tci()), key()],
                        lambda rng: [native_nested(rng), nkey(rng)], setup=setup))
    return out
