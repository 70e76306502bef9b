"""Contracts of mappyfile.quoter."""
from pyvc.core import TAny, TStr, TObj, SVal, SymObj, SStr, U, S, const, Ty, TList, TNone, TInt, TFloat, TBool
from pyvc.verify import Contract, word


# ---- specifications
def is_string(val):
    return isinstance(val, str)


def quoted_by(text, char):
    return text.startswith(char) and text.endswith(char)


def s_init(self, quote='"'):
    assert quote == "'" or quote == '"'
    self.quote = quote
    self.altquote = '"' if quote == "'" else "'"


def s_add_quotes(self, val):
    return self.quote + str(val) + self.quote


def s_add_altquotes(self, val):
    return self.altquote + str(val) + self.altquote


def unescaped(text, quote):
    return quote in text.replace("\\" + quote, "")


def s_quote_value(self, val):
    text = str(val)
    if unescaped(text, self.quote) and not unescaped(text, self.altquote):
        q = self.altquote
    else:
        q = self.quote
    return q + text + q


def s_in_quotes(self, val):
    return quoted_by(val, '"') or quoted_by(val, "'")


def s_escape_quotes(self, val):
    if isinstance(val, str) and quoted_by(val, self.quote):
        q = self.quote
        return q + val[1:-1].replace("\\" + q, q).replace(q, "\\" + q) + q
    return val


def bare(val):
    if isinstance(val, str) and (quoted_by(val, '"') or quoted_by(val, "'")):
        return val[1:-1]
    return val


def s_remove_quotes(self, val):
    if isinstance(val, str) and (quoted_by(val, '"') or quoted_by(val, "'")):
        return val[1:-1]
    return val


def s_remove_quotes_list(self, val):
    return [bare(v) for v in val]


def s_in_brackets(self, val):
    t = val.strip()
    return t.startswith("[") and t.endswith("]")


def s_in_parenthesis(self, val):
    t = val.strip()
    return t.startswith("(") and t.endswith(")")


def s_in_braces(self, val):
    t = val.strip()
    return t.startswith("{") and t.endswith("}")


def s_in_slashes(self, val):
    t = val.strip()
    return t.startswith("/") and t.endswith("/")


def s_standardise_quotes(self, val):
    if isinstance(val, str) and quoted_by(val, self.altquote):
        val = self.quote + val[1:-1] + self.quote
    if isinstance(val, str) and quoted_by(val, self.quote):
        q = self.quote
        return q + val[1:-1].replace("\\" + q, q).replace(q, "\\" + q) + q
    return val


# ---- inputs
def quoter(eng, name="q"):
    """a Quoter in either configuration"""
    from mappyfile.quoter import Quoter

    o = SymObj(Quoter)
    if eng.ctx.branch(const(name + "_single", __import__("z3").BoolSort())):
        o.attrs.update(quote="'", altquote='"')
    else:
        o.attrs.update(quote='"', altquote="'")
    return o


def native_quoter(rng):
    from mappyfile.quoter import Quoter

    return Quoter(rng.choice("'\""))


def native_text(rng):
    if rng.random() < .1:
        return word(rng, ["'ab'"])
    return "".join(rng.choice(["a", "B", "'", '"', "\\", " ", "[", "]", "(", ")", "{", "}", "/", "i", "\n", "#"]) for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 5, 6])))


def native_value(rng):
    k = rng.randrange(8)
    if k < 5:
        t = native_text(rng)
        q = rng.choice(["", "", "'", '"', "/"])
        return q + t + q
    return rng.choice([None, True, 3, 2.5, ["'a'", 'b']])


def contracts():
    from mappyfile.quoter import Quoter

    out = []

    def add(name, spec, ty, gen):
        out.append(Contract("Quoter." + name, lambda: getattr(Quoter, name), spec, lambda eng: [quoter(eng), SVal(const("val", U), ty)],
                            lambda rng: [native_quoter(rng), gen(rng)]))

    out.append(Contract("Quoter.__init__", lambda: Quoter.__init__, s_init, lambda eng: [SymObj(Quoter), SStr(const("quote", S))],
                        lambda rng: [Quoter(), rng.choice(["'", '"', "", "''", "\"'", "x"])]))
    add("add_quotes", s_add_quotes, TAny, native_value)
    add("add_altquotes", s_add_altquotes, TAny, native_value)
    add("quote_value", s_quote_value, TAny, native_value)
    add("in_quotes", s_in_quotes, TStr, native_text)
    add("escape_quotes", s_escape_quotes, TAny, native_value)
    add("is_string", lambda self, val: isinstance(val, str), TAny, native_value)
    add("remove_quotes", s_remove_quotes, Ty(["none", "bool", "int", "float", "str", "dict"], val=TAny), lambda rng: rng.choice([native_text(rng), 1, None]))
    out.append(Contract("Quoter.remove_quotes (list)", lambda: Quoter.remove_quotes, s_remove_quotes_list,
                        lambda eng: [quoter(eng), SVal(const("val", U), TList(Ty(["none", "bool", "int", "float", "str"])))],
                        lambda rng: [native_quoter(rng), [rng.choice([native_text(rng), native_text(rng), "'a'", 1, None, True, 2.5]) for i in range(rng.randrange(4))]]))
    out.append(Contract("Quoter.__init__ (default)", lambda: Quoter.__init__, s_init, lambda eng: [SymObj(Quoter)], lambda rng: [Quoter()]))
    for n, s in (("in_brackets", s_in_brackets), ("in_parenthesis", s_in_parenthesis), ("in_braces", s_in_braces), ("in_slashes", s_in_slashes)):
        add(n, s, TStr, native_text)
    add("standardise_quotes", s_standardise_quotes, TStr, native_text)
    return out
