"""Contracts of mappyfile.transformer: blocks, attributes, positions and comments."""
import random
from collections import OrderedDict

import lark
import z3

from contracts import c_expressions as E
from contracts.c_expressions import TSCALAR, TTOKEN, flag, native_token, native_transformer, new_token, plain_transformer, position, text_token, token, token_class, transformer
from contracts.c_quoter import bare
from pyvc.core import PyRaise, PExc, TAny, TStr, TObj, SVal, SymObj, SStr, SInt, U, S, B, I, const, Ty, TList, TNone, TInt, TFloat, TBool, TDict, TTuple, PDict, PList, OSeg, mk, uf
from pyvc.verify import Contract, word

SINGLETONS = frozenset(["map", "web", "querymap", "reference", "scalebar", "legend", "cluster", "grid", "leader", "metadata", "validation", "connectionoptions", "values"])
REPEATED = frozenset(["processing", "formatoption", "include", "compfilter"])


def is_token(v):
    return isinstance(v, (lark.Token, token_class()))


# ---- small callbacks
def s_start(self, composites):
    return composites[0] if len(composites) == 1 else composites


def s_same(self, t):
    return t


def s_key_name(self, t):
    return t.value.lower()


def s_plural(self, s):
    return s + ("es" if s[-1:] == "s" else "s")


def s_flatten(self, values):
    out = []
    for v in values:
        if is_token(v):
            out.append(v)
        elif isinstance(v, (list, tuple)):
            out += v
        elif isinstance(v, dict):
            assert "__tokens__" in v
            out += v["__tokens__"]
        else:
            raise ValueError("not supported")
    return out


def s_create_position_dict(self, key_token, values):
    d = OrderedDict()
    d["line"] = key_token.line
    d["column"] = key_token.column
    if values:
        found = []
        for v in s_flatten(self, values):
            found.append((v.line, v.column))
        d["values"] = found
    return d


def s_get_single_key(self, d):
    ks = list(d)
    assert len(ks) == 1
    return ks[0]


def replaced(t, value):
    return lark.Token.new_borrow_pos(t.type, value, t)


def s_true(self, t):
    return replaced(t[0], True)


def s_false(self, t):
    return replaced(t[0], False)


def s_int(self, t):
    return replaced(t[0], int(t[0].value))


def s_float(self, t):
    return replaced(t[0], float(t[0].value))


def s_first(self, t):
    return t[0]


def s_pair(self, t):
    assert len(t) == 2
    return [t[0], t[1]]


def s_pair_tuple(self, t):
    a, b = t
    return (a, b)


def s_rgb(self, t):
    a, b, c = t
    return (a, b, c)


def s_two(self, t):
    assert len(t) == 2
    return t


def s_four(self, t):
    assert len(t) == 4
    return t


def s_six(self, t):
    assert len(t) == 6
    return t


def s_hexcolor(self, t):
    t[0].value = bare(t[0].value).lower()
    return t[0]


def s_attr_name(self, tokens):
    t = tokens[0]
    if is_token(t):
        return t
    assert t[0].value.lower() in ("symbol", "style")
    return t[0]


# ---- keywords
def s_attr(self, tokens):
    key = tokens[0]
    if isinstance(key, (list, tuple)):
        key = key[0]
        assert key.value.lower() in ("style", "symbol")
    name = key.value.lower()
    values = tokens[1:]
    if isinstance(values[0], (list, tuple)):
        assert len(values) == 1
        values = values[0]
    out = OrderedDict()
    out["__position__"] = s_create_position_dict(self, key, values)
    if len(values) == 1:
        v = values[0]
        out["__tokens__"] = [key, v]
        out[name] = bare(v.value)
    elif name == "config":
        assert len(values) == 2
        out[name] = {values[0].value: values[1].value}
    else:
        found = [v.value for v in values]
        out["__tokens__"] = [key] + list(values)
        out[name] = found
    return out


def s_config(self, t):
    assert len(t) == 3
    k = t[1].value.lower()
    v = t[2].value
    t[1].value = bare(k)
    t[2].value = bare(v)
    return s_attr(self, t)


def s_check_composite_tokens(self, name, tokens):
    assert len(tokens) >= 2
    assert tokens[0].value.lower() == name
    assert tokens[-1].value.lower() == "end"
    body = []
    for t in tokens[1:-1]:
        body.append(t["__tokens__"] if isinstance(t, dict) else t)
    return (tokens[0], body)


def s_process_value_pairs(self, tokens, type_):
    key, body = s_check_composite_tokens(self, type_, tokens)
    d = new_dict()
    for t in body:
        d[bare(t[0].value).lower()] = bare(t[1].value)
    if self.include_position:
        d["__position__"] = self.create_position_dict(key, body)
    d["__type__"] = key.value.lower()
    return d


def s_metadata(self, tokens):
    return s_process_value_pairs(self, tokens, "metadata")


def s_values(self, tokens):
    return s_process_value_pairs(self, tokens, "values")


def s_validation(self, tokens):
    return s_process_value_pairs(self, tokens, "validation")


def s_connectionoptions(self, tokens):
    return s_process_value_pairs(self, tokens, "connectionoptions")


def s_projection(self, tokens):
    key, body = s_check_composite_tokens(self, "projection", tokens)
    values = [bare(v.value) for v in body]
    return s_attr(self, [tokens[0], replaced(tokens[1], values)])


def s_process_pair_lists(self, name, tokens):
    key, body = s_check_composite_tokens(self, name, tokens)
    pairs = [(v[0].value, v[1].value) for v in body]
    t = tokens[1][0]
    t.value = pairs
    return s_attr(self, [tokens[0], t])


def s_points(self, tokens):
    return s_process_pair_lists(self, "points", tokens)


def s_pattern(self, tokens):
    return s_process_pair_lists(self, "pattern", tokens)


def new_dict():
    from mappyfile.ordereddict import CaseInsensitiveOrderedDict

    return CaseInsensitiveOrderedDict(CaseInsensitiveOrderedDict)


def quotes_contract(eng, bound):
    """calls of remove_quotes by its contract: a function of the text; other values are kept"""
    v = bound["val"]
    if eng.kind_in(v, ["str"]):
        return mk(uf("bare", S, S)(eng.z(eng.conc(v), S)))
    return v


def by_contract():
    from mappyfile.quoter import Quoter

    return {Quoter.remove_quotes: quotes_contract, bare: quotes_contract}


def setup(eng):
    E.setup(eng)
    from mappyfile.ordereddict import CaseInsensitiveOrderedDict

    eng.model_classes = {CaseInsensitiveOrderedDict: True}


def contracts():
    from mappyfile.transformer import MapfileTransformer

    out = []

    def add(name, spec, args, gen, **kw):
        out.append(Contract("MapfileTransformer." + name, lambda: getattr(MapfileTransformer, name.split(" (")[0]), spec, args, gen, **dict({"setup": setup}, **kw)))

    tokens = lambda n: (lambda eng: [plain_transformer(eng), PList([token(eng, "t%d" % i) for i in range(n)])])  # noqa: E731
    texts = lambda n: (lambda eng: [plain_transformer(eng), PList([text_token(eng, "t%d" % i) for i in range(n)])])  # noqa: E731
    ntokens = lambda n: (lambda rng: [native_transformer(rng), [native_token(rng) for i in range(n)]])  # noqa: E731
    add("start", s_start, lambda eng: [plain_transformer(eng), SVal(const("composites", U), TList(TDict(TAny)))], lambda rng: [native_transformer(rng), [{"a": i} for i in range(rng.randrange(4))]])
    for name in ("composite_body", "composite_type", "value"):
        add(name, s_same, lambda eng: [plain_transformer(eng), SVal(const("t", U), TList(TAny))], lambda rng: [native_transformer(rng), [1, 2]])
    add("key_name", s_key_name, lambda eng: [plain_transformer(eng), text_token(eng, "t")], lambda rng: [native_transformer(rng), native_token(rng, word(rng, ["LAYER", "x"]))])
    add("plural", s_plural, lambda eng: [plain_transformer(eng), SStr(const("s", S))], lambda rng: [native_transformer(rng), word(rng, ["class", "layer", "s", ""])])
    pos = lambda eng: SVal(const("v", U), TList(TTOKEN()))  # noqa: E731
    TVALUES = TTOKEN() | TList(TTOKEN()) | TDict(fields={"__tokens__": TList(TTOKEN())}) | TStr

    def native_values(rng):
        out = []
        for i in range(rng.randrange(4)):
            k = rng.randrange(9)
            ts = [native_token(rng) for j in range(rng.randrange(4))]
            out.append(native_token(rng) if k < 3 else ts if k < 5 else tuple(ts) if k < 6 else {"__tokens__": ts} if k < 7 else {} if k < 8 else "x")
        return out

    add("flatten", s_flatten, lambda eng: [plain_transformer(eng), SVal(const("values", U), TList(TVALUES))], lambda rng: [native_transformer(rng), native_values(rng)])
    add("create_position_dict", s_create_position_dict, lambda eng: [plain_transformer(eng), text_token(eng, "key"), SVal(const("values", U), TList(TVALUES) | TNone)],
        lambda rng: [native_transformer(rng), native_token(rng), rng.choice([None, native_values(rng)])])
    add("get_single_key", s_get_single_key, lambda eng: [plain_transformer(eng), SVal(const("d", U), TDict(TAny))], lambda rng: [native_transformer(rng), {i: 1 for i in range(rng.randrange(3))}])
    add("true", s_true, texts(1), ntokens(1))
    add("false", s_false, texts(1), ntokens(1))
    add("int", s_int, texts(1), lambda rng: [native_transformer(rng), [native_token(rng, rng.choice(["1", "-2", "+3", "007", "123456789012345678901"]))]])
    add("float", s_float, texts(1), lambda rng: [native_transformer(rng), [native_token(rng, rng.choice(["1.5", "-2.", ".3e4", "1", "0.12345678901234567", "-123456789.12345678", "1e-12", "2.5E+20"]))]])
    for name in ("bare_string", "name", "string", "path"):
        add(name, s_first, tokens(1), ntokens(1))
    add("string_pair", s_pair, tokens(2), ntokens(2))
    add("num_pair", s_pair_tuple, tokens(2), ntokens(2))
    add("int_pair", s_pair_tuple, tokens(2), ntokens(2))
    add("rgb", s_rgb, tokens(3), ntokens(3))
    for name, spec, n in (("attr_bind_pair", s_two, 2), ("attr_mixed_pair", s_two, 2), ("hexcolorrange", s_two, 2), ("extent", s_four, 4), ("colorrange", s_six, 6)):
        add(name, spec, tokens(n), ntokens(n))
    add("hexcolor", s_hexcolor, texts(1), lambda rng: [native_transformer(rng), [native_token(rng, rng.choice(["'#FF00aa'", '"#00FFBB"', "#AAA"]))]])
    add("attr_name", s_attr_name, lambda eng: [plain_transformer(eng), PList([text_token(eng, "t0") if flag(eng, "simple") else PList([text_token(eng, "t0")])])],
        lambda rng: [native_transformer(rng), rng.choice([[native_token(rng, "NAME")], [[native_token(rng, rng.choice(["STYLE", "Symbol", "x"]))]]])])

    def key(eng):
        t = text_token(eng, "key")
        return t if flag(eng, "simple") else PList([t])

    def attr_args(n):
        def args(eng):
            vs = [token(eng, "v%d" % i) for i in range(n)]
            return [plain_transformer(eng), PList([key(eng)] + vs)]
        return args

    def attr_seq(eng):
        return [plain_transformer(eng), PList([text_token(eng, "key"), PList([text_token(eng, "v0"), OSeg(const("values", U), TTOKEN())])])]

    def nattr(rng):
        k = native_token(rng, word(rng, ["NAME", "STYLE", "SYMBOL", "CONFIG", "Offset", "config"]))
        vs = [native_token(rng) for i in range(rng.choice([1, 1, 2, 3]))]
        return [native_transformer(rng), [k if rng.random() < .8 else [k]] + (vs if rng.random() < .6 else [rng.choice([tuple, list])(vs)])]

    for n in (1, 2, 3, 4):
        add("attr (%d value tokens)" % n, s_attr, attr_args(n), nattr)
    add("attr (list of tokens)", s_attr, attr_seq, nattr)
    add("config", s_config, texts(3), lambda rng: [native_transformer(rng), [native_token(rng, rng.choice(["CONFIG", "config"]))] + [native_token(rng, rng.choice(["'A b'", '"xY"', "z"])) for i in range(2)]])

    # KEY .. END blocks
    TPAIR = TList(TTOKEN()) | TDict(fields={"__tokens__": TList(TTOKEN())})

    positions = lambda: by_contract() | {MapfileTransformer.create_position_dict: (TDict(TAny), Exception)}  # noqa: E731

    def block(name, ty, first=None, position=False):
        def args(eng):
            k, e = text_token(eng, "key"), text_token(eng, "end")
            body = [OSeg(const("body", U), ty)] if first is None else first(eng) + [OSeg(const("body", U), ty)]
            return [transformer(eng) if position else plain_transformer(eng), PList([k] + body + [e])]
        return args

    def npairs(rng, name, n=0, strings=False, numbers=False):
        body = []
        for i in range(rng.randrange(n, 4)):
            ts = [native_token(rng, rng.choice(["'A b'", '"xY"', "z", "Z"])) if not numbers else native_token(rng, rng.choice([1, 2, -3.5])) for j in range(2)]
            body.append(ts[0] if strings else rng.choice([ts, {"__tokens__": ts}, tuple(ts)]) if not numbers else tuple(ts))
        return [native_token(rng, rng.choice([name, name.upper(), "x"]) if rng.random() < .2 else name.upper())] + body + [native_token(rng, rng.choice(["END", "end", "End"]) if rng.random() < .9 else "x")]

    add("check_composite_tokens", s_check_composite_tokens, lambda eng: [plain_transformer(eng), SStr(const("name", S)), block("points", TPAIR)(eng)[1]],
        lambda rng: [native_transformer(rng), rng.choice(["points", "metadata"]), npairs(rng, rng.choice(["points", "metadata"]))])
    for name, spec in (("metadata", s_metadata), ("values", s_values), ("validation", s_validation), ("connectionoptions", s_connectionoptions)):
        for what, ty in (("pairs of strings", TList(TTOKEN())), ("keywords", TDict(fields={"__tokens__": TList(TTOKEN())}, required=("__tokens__",)))):
            add("%s (%s)" % (name, what), spec, block(name, ty, position=True), lambda rng, name=name: [native_transformer(rng), npairs(rng, name)], opaque=positions)
    add("projection", s_projection, block("projection", TTOKEN(), lambda eng: [text_token(eng, "first")]), lambda rng: [native_transformer(rng), npairs(rng, "projection", strings=True)])

    def first_pair(eng):
        return [(token(eng, "x"), token(eng, "y"))]

    for name, spec in (("points", s_points), ("pattern", s_pattern)):
        add(name, spec, block(name, TTuple(TTOKEN(), TTOKEN()), first_pair), lambda rng, name=name: [native_transformer(rng), npairs(rng, name, 1, numbers=True)])
    return out
