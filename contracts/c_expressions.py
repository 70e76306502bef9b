"""Contracts of the expression callbacks of mappyfile.transformer.MapfileTransformer.

A token of type GROUPED holds text enclosed in a pair of matching brackets; the callbacks build the text of an
expression from the texts of its operands, which they keep unchanged and in order."""
import random

import lark
import z3

from pyvc.core import PyRaise, PExc, TAny, TStr, TObj, SVal, SymObj, SStr, SInt, U, S, B, I, const, Ty, TList, TNone, TInt, TFloat, TBool, PDict, PList, OSeg, uf
from pyvc.verify import Contract, word

TSCALAR = Ty(["str", "int", "float", "bool"])


def grouped(token, text):
    token.value = text
    token.type = "GROUPED"
    return token


def ungrouped(token, text):
    token.value = text
    token.type = "UNGROUPED"
    return token


def s_comparison(self, t):
    assert len(t) == 3
    return grouped(t[0], "( " + str(t[0].value) + " " + str(t[1].value) + " " + str(t[2].value) + " )")


def binary(op):
    pass


def s_and(self, t):
    assert len(t) == 2
    return grouped(t[0], "( " + str(t[0].value) + " AND " + str(t[1].value) + " )")


def s_or(self, t):
    assert len(t) == 2
    return grouped(t[0], "( " + str(t[0].value) + " OR " + str(t[1].value) + " )")


def s_mod(self, t):
    assert len(t) == 2
    return grouped(t[0], "( " + str(t[0].value) + " % " + str(t[1].value) + " )")


def s_add(self, t):
    assert len(t) == 2
    return ungrouped(t[0], str(t[0].value) + " + " + str(t[1].value))


def s_sub(self, t):
    assert len(t) == 2
    return ungrouped(t[0], str(t[0].value) + " - " + str(t[1].value))


def s_mul(self, t):
    assert len(t) == 2
    return ungrouped(t[0], str(t[0].value) + " * " + str(t[1].value))


def s_div(self, t):
    assert len(t) == 2
    return ungrouped(t[0], str(t[0].value) + " / " + str(t[1].value))


def s_power(self, t):
    assert len(t) == 2
    return ungrouped(t[0], str(t[0].value) + " ^ " + str(t[1].value))


def s_neg(self, t):
    assert len(t) == 1
    return ungrouped(t[0], "-" + str(t[0].value))


def s_not(self, t):
    x = t[0]
    if x.type == "GROUPED":
        return ungrouped(x, "NOT " + str(x.value))
    return ungrouped(x, "NOT (" + str(x.value) + ")")


def s_expression(self, t):
    assert len(t) == 1
    x = t[0]
    if x.type != "GROUPED":
        return grouped(x, "(" + str(x.value) + ")")
    return x


def s_first(self, t):
    return t[0]


def s_func_call(self, t):
    return grouped(t[0], "(" + t[0].value + "(" + t[1] + "))")


def s_func_params(self, t):
    return ",".join(str(p.value) for p in t)


def s_attr_bind(self, t):
    assert len(t) == 1
    t[0].value = "[" + t[0].value + "]"
    return t[0]


def s_list(self, t):
    t[0].value = "{" + ",".join(str(p.value) for p in t) + "}"
    return t[0]


def s_set_grouped(self, token, value):
    return grouped(token, value)


def s_set_ungrouped(self, token, value):
    return ungrouped(token, value)


# ---- inputs
def token_class():
    from mappyfile.parser import lark_cython

    return lark_cython.Token if lark_cython else lark.Token


def only_text(eng, o, name, v):
    """the value and type of a token of the lexer can only be text"""
    if name in ("value", "type") and not eng.kind_in(v, ["str"]):
        raise PyRaise(PExc(TypeError, ("Expected unicode",)))
    if name not in ("value", "type"):
        raise PyRaise(PExc(AttributeError, ("not writable",)))


def position(eng, name):
    return {k: SInt(const(name + "_" + k, I)) for k in ("line", "column", "end_line", "end_column", "start_pos", "end_pos")}


def new_token(eng, cls, type_, value, borrow_t):
    """contract of Token.new_borrow_pos: a token with the given type and value at the position of another"""
    eng.used_assumptions.add("lark.Token.new_borrow_pos gives a token with that type and value at the position of the other token")
    return SymObj(lark.Token, dict({"type": type_, "value": value}, **{k: eng.getattr(borrow_t, k) for k in ("line", "column", "end_line", "end_column", "start_pos", "end_pos")}))


def text_token(eng, name, typ=None):
    """a token of the lexer"""
    return SymObj(token_class(), dict({"type": SStr(const(name + "_type", S)) if typ is None else typ, "value": SStr(const(name + "_value", S))}, **position(eng, name)))


def token(eng, name):
    """a token of the lexer, or one with a number or a boolean"""
    if eng.ctx.branch(const(name + "_is_text", B)):
        return text_token(eng, name)
    return SymObj(lark.Token, dict({"type": SStr(const(name + "_type", S)), "value": SVal(const(name + "_number", U), Ty(["int", "float", "bool"]))}, **position(eng, name)))


def transformer(eng):
    from mappyfile.transformer import MapfileTransformer
    from mappyfile.quoter import Quoter

    return SymObj(MapfileTransformer, {"quoter": SymObj(Quoter, {"quote": '"', "altquote": "'"}), "include_position": flag(eng, "include_position"), "include_comments": flag(eng, "include_comments")})


def flag(eng, name):
    return bool(eng.ctx.branch(const(name, B)))


def plain_transformer(eng):
    from mappyfile.transformer import MapfileTransformer
    from mappyfile.quoter import Quoter

    return SymObj(MapfileTransformer, {"quoter": SymObj(Quoter, {"quote": '"', "altquote": "'"}), "include_position": False, "include_comments": False})


def setup(eng):
    c = token_class()
    if c is not lark.Token:
        eng.attr_guard[c] = only_text
    eng.externals[lark.Token.new_borrow_pos.__func__] = new_token


def native_token(rng, value=None, typ=None):
    v = value if value is not None else rng.choice(["[a]", "( [a] = 1 )", "'x'", '"y z"', "3", "-4", "[b] + 1", "a", "=", "~*", 3, -2.5, True, "(x)"])
    t = typ or word(rng, ["GROUPED", "UNGROUPED", "SIGNED_INT", "DOUBLE_QUOTED_STRING", "NAME"])
    if isinstance(v, str):
        c = token_class()
        if c is lark.Token:
            return c(t, v, 0, rng.randrange(9), rng.randrange(9))
        return lark_text(t, v, rng)
    return lark.Token(t, v, 0, rng.randrange(9), rng.randrange(9))


def lark_text(t, v, rng):
    """a lexer token; lark_cython does not let the position be given"""
    return token_class()(t, v)


def native_transformer(rng):
    from mappyfile.transformer import MapfileTransformer

    return MapfileTransformer(rng.random() < .5, rng.random() < .5)


TTOKEN = lambda: TObj(token_class(), type=TStr, value=TStr, line=TInt, column=TInt, end_line=TInt, end_column=TInt, start_pos=TInt, end_pos=TInt)  # noqa: E731


def contracts():
    from mappyfile.transformer import MapfileTransformer

    out = []

    def add(name, spec, n, args=None, gen=None, **kw):
        args = args or (lambda eng: [plain_transformer(eng), PList([token(eng, "t%d" % i) for i in range(n)])])
        gen = gen or (lambda rng: [native_transformer(rng), [native_token(rng) for i in range(n)]])
        out.append(Contract("MapfileTransformer." + name, lambda: getattr(MapfileTransformer, name.split(" (")[0]), spec, args, gen, setup=setup, **kw))

    add("comparison", s_comparison, 3)
    for name, spec in (("and_test", s_and), ("or_test", s_or), ("mod", s_mod), ("add", s_add), ("sub", s_sub), ("mul", s_mul), ("div", s_div), ("power", s_power)):
        add(name, spec, 2)
    add("neg", s_neg, 1)
    add("not_expression", s_not, 1)
    add("expression", s_expression, 1)
    for name in ("compare_op", "literal", "runtime_var", "regexp"):
        add(name, s_first, 1)
    add("func_call", s_func_call, 2, lambda eng: [plain_transformer(eng), PList([text_token(eng, "f"), SStr(const("params", S))])],
        lambda rng: [native_transformer(rng), [native_token(rng, "tostring"), word(rng, ["[a],'%.2f'", ""])]])
    seg = lambda eng: PList([OSeg(const("tokens", U), TObj(lark.Token, type=TStr, value=TSCALAR))])  # noqa: E731
    add("func_params", s_func_params, 0, lambda eng: [plain_transformer(eng), seg(eng)],
        lambda rng: [native_transformer(rng), [native_token(rng) for i in range(rng.randrange(4))]])
    add("attr_bind", s_attr_bind, 1, lambda eng: [plain_transformer(eng), PList([text_token(eng, "t0")])], lambda rng: [native_transformer(rng), [native_token(rng, "field")]])
    add("list", s_list, 1, lambda eng: [plain_transformer(eng), PList([token(eng, "t0"), OSeg(const("tokens", U), TObj(lark.Token, type=TStr, value=TSCALAR))])],
        lambda rng: [native_transformer(rng), [native_token(rng) for i in range(rng.randrange(1, 4))]])
    return out
