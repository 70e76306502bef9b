"""Contracts of MapfileTransformer.composite: how the dict of a block is built from its keywords and blocks."""
import random
from collections import OrderedDict

import lark
import z3

from contracts import c_transformer as T
from contracts.c_expressions import flag, native_token, native_transformer, plain_transformer, text_token, transformer
from contracts.c_transformer import new_dict, s_create_position_dict
from pyvc.core import PyRaise, PExc, TAny, TStr, SVal, SymObj, SStr, SInt, U, S, B, I, const, Ty, TList, TNone, TInt, TFloat, TBool, TDict, TTuple, PDict, PList, OSeg, mk, uf, dget, dhas, zstr
from pyvc.models import low
from pyvc.ops import u2
from pyvc.verify import Contract, word

SINGLETONS = frozenset("cluster connectionoptions grid leader legend metadata pattern projection querymap reference scalebar validation values web".split())
REPEATED = ("processing", "formatoption", "include", "compfilter")


def plural(s):
    return s + ("es" if s.endswith("s") else "s")


def only_key(d):
    ks = list(d.keys())
    assert len(ks) == 1
    return ks[0]


def add_block(out, d):
    """blocks that can occur once are stored by their name, others in lists"""
    k = d["__type__"]
    if k in SINGLETONS:
        out[k] = d
        return
    name = plural(k)
    if name not in out:
        out[name] = []
    out[name].append(d)


def add_config(out, value, positions, pos):
    """settings of all CONFIG lines are merged"""
    if "config" not in out:
        out["config"] = new_dict()
    out["config"].update(value["config"])
    if positions is not None:
        if "config" not in positions:
            positions["config"] = OrderedDict()
        positions["config"][only_key(value["config"])] = pos


def depth(points):
    from mappyfile.transformer import calculate_depth

    return calculate_depth(points)


def add_points(out, value, positions, pos):
    """the second and later POINTS of a block are kept as a list of lists of points"""
    if "points" in out:
        before = out["points"]
        if depth(before[0][:1]) == 1:
            out["points"] = [before]
        out["points"].append(value["points"])
    else:
        out["points"] = value["points"]
    if positions is not None:
        if "points" in positions:
            p = positions["points"]
            if isinstance(p, dict):
                positions["points"] = [p]
            positions["points"].append(pos)
        else:
            positions["points"] = pos


def s_composite(self, t):
    if len(t) == 1:
        return t[0]
    key = t[0][0]
    items = t[1]
    if not isinstance(items, list):
        items = [items]
    out = new_dict()
    out["__type__"] = key.value.lower()
    positions = None
    if self.include_position:
        positions = s_create_position_dict(self, key, None)
        out["__position__"] = positions
    if self.include_comments:
        notes = OrderedDict()
        out["__comments__"] = notes
    for d in items:
        if "__type__" in d:
            add_block(out, d)
            continue
        pos = d["__position__"]
        del d["__position__"]
        if "__tokens__" in d:
            del d["__tokens__"]
        comments = d.pop("__comments__", None)
        name = only_key(d)
        keep = self.include_comments and comments
        if name == "config":
            add_config(out, d, positions, pos)
            if keep:
                if "config" not in notes:
                    notes["config"] = OrderedDict()
                notes["config"][only_key(d["config"])] = comments
        elif name == "points":
            add_points(out, d, positions, pos)
        elif name in REPEATED:
            if name not in out:
                out[name] = []
            out[name].append(d[name])
            if keep:
                if name not in notes:
                    notes[name] = []
                while len(notes[name]) < len(out[name]) - 1:
                    notes[name].append([])
                notes[name].append(comments)
            if positions:
                if name not in positions:
                    positions[name] = []
                positions[name].append(pos)
        else:
            if positions:
                positions[name] = pos
            if keep:
                notes[name] = comments
            out[name] = d[name]
    return out


# ---- inputs
def attribute(kinds):
    """an element of the body of a block"""
    def make(eng, t):
        fl = lambda n: eng.ctx.branch(uf(n, U, B)(t))  # noqa: E731
        if "block" in kinds and (len(kinds) == 1 or fl("is_block")):
            eng.ctx.assume(dhas(t, zstr("__type__")))
            k = u2["str"](dget(t, zstr("__type__")))
            # names of blocks are in lower case (transformer.composite), and are not names of keywords
            for x in (k, z3.Concat(k, zstr("s")), z3.Concat(k, zstr("es"))):
                eng.ctx.assume(low(x) == x)
            for w in ("config", "points", "__position__", "__comments__") + REPEATED:
                eng.ctx.assume(z3.And(k != zstr(w), z3.Concat(k, zstr("s")) != zstr(w), z3.Concat(k, zstr("es")) != zstr(w)))
            return PDict(base=t, ty=TDict(TAny, fields={"__type__": TStr}))
        d = [("__position__", SVal(uf("position", U, U)(t), TDict(TAny)), True)]
        if fl("has_tokens"):
            d.append(("__tokens__", SVal(uf("tokens", U, U)(t), TList(TAny)), True))
        if fl("has_comments"):
            d.append(("__comments__", SVal(uf("comments", U, U)(t), TList(TStr)), True))
        v = uf("value", U, U)(t)
        for k in ("config", "points"):
            if k in kinds and (set(kinds) <= {k, "block"} or fl("is_" + k)):
                if k == "config":
                    d.append((k, PDict(None, ((SStr(uf("setting", U, S)(t)), SVal(v, TAny), True),)), True))
                else:
                    d.append((k, SVal(v, TList(TList(TAny))), True))
                break
        else:
            rs = [k for k in REPEATED if k in kinds]
            if rs and (set(kinds) <= set(rs) or fl("is_repeated")):
                k = rs[-1]
                for r in rs[:-1]:
                    if fl("is_" + r):
                        k = r
                        break
            else:
                k = SStr(uf("keyword", U, S)(t))
                eng.ctx.assume(low(k.z) == k.z)
                for w in ("config", "points") + REPEATED + ("__type__", "__position__", "__tokens__", "__comments__"):
                    eng.ctx.assume(k.z != zstr(w))
            d.append((k, SVal(v, TAny), True))
        return PDict(None, d, dcls=OrderedDict)

    ty = Ty(["dict"])
    ty.make = make
    return ty


def composite_args(kinds, make=plain_transformer):
    def args(eng):
        items = PList([OSeg(const("items", U), attribute(kinds))])
        return [make(eng), PList([PList([text_token(eng, "key")]), items])]
    return args


def native_items(rng, kinds=()):
    """the body of a block as the other callbacks give it"""
    out = []
    for i in range(rng.choice([0, 1, 1, 2, 3, 5])):
        k = rng.choice([x for x in kinds if x != "simple"] or ["x"]) if rng.random() < .7 else rng.choice(["block", "config", "points", "x"] + list(REPEATED))
        if k == "block":
            d = new_dict()
            d["__type__"] = word(rng, ["layer", "class", "style", "metadata", "web", "points", "feature", "symbol", "grid"])
            d["n"] = i
        else:
            d = OrderedDict()
            d["__position__"] = OrderedDict([("line", i), ("column", rng.randrange(9))])
            if rng.random() < .5:
                d["__tokens__"] = [i]
            if rng.random() < .5:
                d["__comments__"] = rng.choice([[], ["# a"], ["# b", "# c"]])
            if k == "config":
                d[k] = {rng.choice(["a", "b", "C"]): i}
            elif k == "points":
                d[k] = [(rng.randrange(5), rng.randrange(5)) for j in range(rng.randrange(1, 4))]
            else:
                d[k if k in REPEATED else word(rng, ["name", "status", "offset"]).lower()] = rng.choice(["v", i, [1, 2], None])
        out.append(d)
    return out


def native_args(kinds=()):
    def gen(rng):
        items = native_items(rng, kinds)
        return [native_transformer(rng), [[native_token(rng, word(rng, ["LAYER", "Map"]))], items if len(items) != 1 or rng.random() < .5 else items[0]]]
    return gen


def setup(eng):
    T.setup(eng)
    eng.element_mutation = True
    from mappyfile.ordereddict import CaseInsensitiveOrderedDict

    tl = TList(TAny)
    eng.new_types = {CaseInsensitiveOrderedDict: TDict(TAny, fields=dict({"config": TDict(TAny, dcls=CaseInsensitiveOrderedDict), "points": TList(TList(TAny))}, **{k: tl for k in REPEATED})),
                     OrderedDict: TDict(TAny, fields=dict({"config": TDict(TAny, dcls=OrderedDict), "points": TDict(TAny) | tl}, **{k: tl for k in REPEATED}))}


def contracts():
    from mappyfile.transformer import MapfileTransformer, calculate_depth

    out = []

    def add(name, spec, args, gen, **kw):
        out.append(Contract("MapfileTransformer." + name, lambda: getattr(MapfileTransformer, name.split(" (")[0]), spec, args, gen,
                            **dict({"setup": setup, "opaque": lambda: {calculate_depth: (TInt, Exception)}}, **kw)))

    add("composite (finished)", s_composite, lambda eng: [plain_transformer(eng), PList([SVal(const("d", U), TDict(TAny))])], lambda rng: [native_transformer(rng), [{"__type__": "metadata"}]])
    for kinds in (("block",), ("simple",), ("config",), ("points",)) + tuple((k,) for k in REPEATED):
        add("composite (%s)" % " ".join(kinds), s_composite, composite_args(kinds, transformer), native_args(kinds), seconds=150)
    return out
