"""Contracts of mappyfile.pprint."""
import numbers
import random
import re

import z3

from contracts import c_quoter as Q
from contracts.c_expressions import flag
from pyvc.ops import slen
from pyvc.core import dhas, Unsupported, PyRaise, PExc, TAny, TStr, TObj, SVal, SymObj, SStr, SInt, SBool, U, S, B, I, const, Ty, TList, TNone, TInt, TFloat, TBool, TDict, TTuple, PDict, PList, OSeg, mk, uf
from pyvc.verify import Contract, word

REPEATED = frozenset(["processing", "formatoption", "include", "compfilter"])
LISTS = frozenset(["layers", "classes", "styles", "symbols", "labels", "outputformats", "features", "composites", "joins", "scaletokens", "maps"])
BLOCKS = frozenset("symbolset projection points pattern values metadata validation connectionoptions class cluster composite feature grid join label leader legend map outputformat querymap reference "
                   "scalebar scaletoken style web layer symbol".split())
NOT_ALIGNED = frozenset(["metadata", "validation", "values", "connectionoptions", "pattern", "projection", "points", "config"])
BINDING = re.compile(r"\[[a-z0-9_\xc0-\xff\-:]+\]\Z", re.IGNORECASE)
REGEX = re.compile(r"""(/(?!\*.*\*/)[^/\n]*/i?|\\\\.*\\\\i?|"(\\"|[^"])*"i|'(\\'|[^'])*'i)\Z""")
RUNTIME = re.compile(r"%[^%\n]*%\Z")


# ---- specifications
def hidden(key):
    return key.startswith("__") and key.endswith("__")


def s_is_metadata(self, key):
    return hidden(key)


def s_compute_aligned_max_indent(self, n):
    i = self.indent if self.indent > 1 else 1
    return (n // i + 1) * i


def is_block(v):
    return isinstance(v, dict) and "__type__" in v


def is_container(key, v):
    return key in LISTS and isinstance(v, list)


def s_compute_max_key_length(self, composite):
    longest = 0
    for k, v in composite.items():
        if hidden(k) or k in NOT_ALIGNED or is_container(k, v) or is_block(v):
            continue
        longest = max(longest, len(k))
    return longest


def s_whitespace(self, level, indent):
    return self.spacer * (level + indent)


def pad(self, n):
    return self.spacer * n


def s_add_start_line(self, key, level):
    return pad(self, level + 1) + key.upper()


def s_add_end_line(self, level, indent, key):
    line = pad(self, level + indent) + "END"
    if self.end_comment:
        line += " # " + key.upper()
    return line


def s_format_line(self, spacer, key, value, aligned_max_indent=0):
    if not aligned_max_indent:
        gap = " "
    else:
        gap = " " * (aligned_max_indent - len(key))
    return spacer + key + gap + str(value)


def no_dict(value):
    if isinstance(value, dict) or value is None:
        raise ValueError("no representation")


def single(value):
    if isinstance(value, (dict, list, tuple)) or value is None:
        raise ValueError("no single value")


def s_check_representation(self, attr, value):
    no_dict(value)


def s_check_single_value(self, attr, value):
    single(value)


def quoted(self, v):
    return Q.s_quote_value(self.quoter, v)


def remark(comments, key):
    c = comments.get(key)
    if not c:
        return ""
    c = comments[key]
    if isinstance(c, list):
        c = " ".join(sorted(c, key=lambda t: t.startswith("#")))
    return " " + str(c)


def s_process_attribute_comment(self, comments, key):
    return remark(comments, key)


def s_format_comment(self, spacer, value):
    return spacer + str(value)


def s_process_composite_comment(self, level, comments, key):
    if key not in comments:
        return ""
    c = comments[key]
    s = pad(self, level)
    if isinstance(c, list):
        return self.newlinechar.join([s + str(v) for v in c])
    return s + str(c)


def s_add_type_comment(self, level, comments, lines):
    c = s_process_composite_comment(self, level, comments, "__type__")
    if c:
        lines.append(c)


def s_process_dict(self, d, level, comments):
    column = 0
    if self.align_values:
        column = s_compute_aligned_max_indent(self, max([len(k) for k in d if not hidden(k)], default=0) + 2)
    lines = []
    for k, v in d.items():
        if not hidden(k):
            single(v)
            lines.append(s_format_line(self, pad(self, level + 2), quoted(self, k), quoted(self, v), column) + self.process_attribute_comment(comments, k))
    return lines


def s_process_key_dict(self, key, d, level):
    comments = d.get("__comments__", {})
    lines = []
    s_add_type_comment(self, level + 1, comments, lines)
    lines.append(s_add_start_line(self, key, level))
    lines.extend(self.process_dict(d, level, comments))
    lines.append(s_add_end_line(self, level, 1, key))
    return lines


def s_process_config_dict(self, d, level, comments=None):
    if not isinstance(comments, dict):
        comments = {}
    lines = []
    for k, v in d.items():
        single(v)
        lines.append(pad(self, level + 1) + "CONFIG " + quoted(self, k.upper()) + " " + quoted(self, v) + self.process_attribute_comment(comments, k))
    return lines


def s_format_repeated_value(self, key, value):
    if isinstance(value, (bool, list, tuple)):
        return self.format_value(key, {}, value)
    no_dict(value)
    return quoted(self, value)


def s_is_binding(self, value):
    return isinstance(value, str) and bool(BINDING.match(value))


def s_is_regular_expression(self, value):
    return bool(REGEX.match(value))


def s_format_list_value(self, attr, value):
    if isinstance(value, bool):
        return "TRUE" if value else "FALSE"
    single(value)
    if isinstance(value, (int, float)) or s_is_binding(self, value):
        return value
    return quoted(self, value)


def s_format_value(self, attr, attr_props, value):
    if isinstance(value, bool):
        return "TRUE" if value else "FALSE"
    no_dict(value)
    if isinstance(value, (list, tuple)):
        if len(value) == 0:
            raise ValueError("empty")
        return " ".join(str(s_format_list_value(self, attr, v)) for v in value)
    if attr_props.get("type") == "string" and "enum" not in attr_props:
        return Q.s_add_quotes(self.quoter, value)
    if isinstance(value, str):
        return self.check_options_list(attr, self.get_options(attr_props), value)
    return value


def s_is_expression(self, option):
    return "description" in option and option["description"] == "expression"


def s_get_options(self, attr_props):
    found = []
    for key in ("allOf", "oneOf", "anyOf"):
        for option in attr_props.get(key, []):
            found += self.get_options(option)
    return found or [attr_props]


def s_check_options_list(self, attr, options_list, value):
    v = value.lower()
    for option in options_list:
        if "enum" in option and v in option["enum"]:
            if v == "end" or attr == "compop":
                return quoted(self, value)
            return value.upper()
    expressions = any("description" in o and o["description"] == "expression" for o in options_list)
    strings = any(o.get("type") == "string" and "enum" not in o and "pattern" not in o for o in options_list)
    if expressions and REGEX.match(value):
        return value
    if expressions or not strings:
        if self.is_parenthesised(value) or value.startswith("NOT ") and self.is_parenthesised(value[4:]):
            return value
    if not strings and RUNTIME.match(value):
        return value
    if attr in ("expression", "filter") and Q.s_in_braces(self.quoter, value):
        return value
    if attr != "text" and BINDING.match(value):
        return value
    return Q.s_escape_quotes(self.quoter, quoted(self, value))


def s_process_repeated_list(self, key, lst, level, aligned_max_indent=1, comments=None):
    notes = {}
    if isinstance(comments, (list, tuple)):
        notes = dict(enumerate(comments))
    if not isinstance(lst, (list, tuple)):
        lst = [lst]
    lines = []
    for i, v in enumerate(lst):
        lines.append(s_format_line(self, pad(self, level + 1), key.upper(), self.format_repeated_value(key, v), aligned_max_indent) + self.process_attribute_comment(notes, i))
    return lines


def s_process_projection(self, key, lst, level, projection_comments):
    no_dict(lst)
    s = pad(self, level + 2)
    lines = [s_add_start_line(self, key, level)]
    if projection_comments:
        lines.append(s + projection_comments.strip())
    if isinstance(lst, str):
        lines.append(s + quoted(self, lst))
    elif len(lst) == 1 and lst[0].upper() == "AUTO":
        lines.append(s + "AUTO")
    else:
        for v in lst:
            single(v)
            lines.append(s + quoted(self, v))
    lines.append(s_add_end_line(self, level, 1, key))
    return lines


def s_format_pair_list(self, key, pair_list, level):
    no_dict(pair_list)
    lines = [s_add_start_line(self, key, level)]
    s = pad(self, level + 2)
    for p in pair_list:
        x, y = p
        single(x)
        single(y)
        lines.append(s + str(x) + " " + str(y))
    lines.append(s_add_end_line(self, level, 1, key))
    return lines


def s_process_attribute(self, type_, attr, value, level, aligned_max_indent=1):
    text = self.format_value(attr, self.get_attribute_properties(type_, attr), value)
    return s_format_line(self, pad(self, level + 1), attr.upper(), text, aligned_max_indent)


def s_get_attribute_properties(self, type_, attr):
    props = self.validator.get_expanded_schema(type_)["properties"]
    if attr in props:
        return props[attr]
    return {}


def s_is_complex_type(self, composite, key, level):
    v = composite[key]
    return (key in BLOCKS and (isinstance(v, dict) or key in ("points", "pattern", "projection"))) or is_block(v) or is_container(key, v)


PART = re.compile(r"""\"(?:\\"|[^"])*\"|'(?:\\'|[^'])*'|`[^`]*`|~\*?\s*/[^/\n]*/|.""", re.DOTALL)


def s_is_parenthesised(self, value):
    if not Q.s_in_parenthesis(self.quoter, value):
        return False
    text = value.strip()
    open_brackets = 0
    for m in PART.finditer(text):
        c = m.group()
        if c == "(":
            open_brackets += 1
        if c == ")":
            open_brackets -= 1
            if open_brackets == 0:
                return m.end() == len(text)
    return True


def s_separate_complex(self, composite, level):
    if self.separate_complex_types:
        for k in list(composite):
            if self.is_complex_type(composite, k, level):
                v = composite.pop(k)
                composite[k] = v


def s_init(self, indent=4, spacer=" ", quote='"', newlinechar="\n", end_comment=False, align_values=False, separate_complex_types=False):
    from mappyfile.quoter import Quoter
    from mappyfile.validator import Validator

    assert quote == '"' or quote == "'"
    self.indent = indent
    self.spacer = spacer * indent
    self.quoter = Quoter(quote)
    self.newlinechar = newlinechar
    self.end_comment = end_comment
    self.end = "END"
    self.validator = Validator()
    self.align_values = align_values
    self.separate_complex_types = separate_complex_types


def depth(v):
    return isinstance(v, (list, tuple)) and max([depth(x) for x in v]) + 1


def s_format_repeated_pair_list(self, key, root_list, level):
    no_dict(root_list)
    parts = [root_list] if depth(root_list) == 2 else root_list
    lines = []
    for p in parts:
        lines.extend(self.format_pair_list(key, p, level))
    return lines


def s_pprint(self, composites):
    if composites and not isinstance(composites, list):
        composites = [composites]
    lines = []
    for c in composites:
        t = c["__type__"]
        if t in ("metadata", "validation", "connectionoptions"):
            lines.extend(self.process_key_dict(t, c, -1))
        else:
            lines.extend(self._format(c))
    return self.newlinechar.join(lines)


def s_format(self, composite, level=0):
    comments = composite.get("__comments__", {})
    lines = []
    typ = ""
    typed = "__type__" in composite
    if typed:
        typ = composite["__type__"]
        self._add_type_comment(level, comments, lines)
        lines.append(pad(self, level) + typ.upper())
    column = 0
    if self.align_values:
        column = self.compute_aligned_max_indent(self.compute_max_key_length(composite))
    self.separate_complex(composite, level)
    for k, v in composite.items():
        if hidden(k):
            continue
        if is_container(k, v):
            for x in v:
                lines.extend(self._format(x, level + 1))
        elif k == "pattern":
            lines.extend(self.format_pair_list(k, v, level))
        elif k in ("metadata", "validation", "values", "connectionoptions"):
            lines.extend(self.process_key_dict(k, v, level))
        elif k == "projection":
            lines.extend(self.process_projection(k, v, level, self.process_attribute_comment(comments, k)))
        elif k in REPEATED:
            lines.extend(self.process_repeated_list(k, v, level, column, comments.get(k)))
        elif k == "points":
            lines.extend(self.format_repeated_pair_list(k, v, level))
        elif k == "config":
            lines.extend(self.process_config_dict(v, level, comments.get(k)))
        elif is_block(v):
            lines.extend(self._format(v, level + 1))
        else:
            if not typ:
                raise UnboundLocalError("no type")
            lines.append(self.process_attribute(typ, k, v, level, column) + self.process_attribute_comment(comments, k))
    if not typed:
        raise UnboundLocalError("no type")
    lines.append(s_add_end_line(self, level, 0, typ))
    return lines


# ---- calls by contract
def quotes(eng, bound):
    """Quoter.quote_value is a function of the text of its argument, in either configuration"""
    return mk(uf("quote_value", S, S, S)(eng.z(eng.conc(bound["self"].attrs["quote"]), S), eng.z(eng.to_str(bound["val"]), S)))


def by_contract(more=None):
    from mappyfile.quoter import Quoter

    d = {Quoter.quote_value: quotes, Q.s_quote_value: quotes, Quoter.escape_quotes: escapes, Q.s_escape_quotes: escapes}
    for n in ("in_braces", "in_parenthesis"):
        d[getattr(Quoter, n)] = d[getattr(Q, "s_" + n)] = text_test(n)
    return d | (more() if more else {})


def columns():
    from mappyfile.pprint import PrettyPrinter

    return {PrettyPrinter.compute_aligned_max_indent: aligned, s_compute_aligned_max_indent: aligned}


def aligned(eng, bound):
    """compute_aligned_max_indent is a function of the indentation and of a length, which cannot be negative"""
    n = eng.z(eng.conc(bound.get("max_key_length", bound.get("n"))), I)
    if eng.ctx.check(n < 0) != z3.unsat:
        raise Unsupported("precondition of compute_aligned_max_indent")
    return mk(uf("aligned", I, I, I)(eng.z(eng.conc(bound["self"].attrs["indent"]), I), n))


def escapes(eng, bound):
    """Quoter.escape_quotes is a function of the text (other values are kept)"""
    v = bound["val"]
    if eng.kind_in(v, ["str"]):
        return mk(uf("escape_quotes", S, S, S)(eng.z(eng.conc(bound["self"].attrs["quote"]), S), eng.z(eng.conc(v), S)))
    return v


def text_test(name):
    def test(eng, bound):
        v = bound["val"]
        if not eng.kind_in(v, ["str"]):
            raise PyRaise(PExc(AttributeError, ("strip",)))
        return mk(uf(name, S, B)(eng.z(eng.conc(v), S)))

    return test


# ---- inputs
def quoter(eng):
    """a Quoter in either configuration, without a case distinction"""
    from mappyfile.quoter import Quoter

    q = const("quote", S)
    eng.ctx.assume(z3.Or(q == z3.StringVal("'"), q == z3.StringVal('"')))
    return SymObj(Quoter, {"quote": SStr(q), "altquote": SStr(z3.If(q == z3.StringVal("'"), z3.StringVal('"'), z3.StringVal("'")))})


def printer(eng, align=None, separate=False, cases=False):
    from mappyfile.pprint import PrettyPrinter
    from mappyfile.validator import Validator

    indent = SInt(const("indent", I))
    eng.ctx.assume(indent.z >= 0)
    return SymObj(PrettyPrinter, {"indent": indent, "spacer": SStr(const("spacer", S)), "quoter": Q.quoter(eng) if cases else quoter(eng), "newlinechar": SStr(const("newline", S)),
                                  "end_comment": SBool(const("end_comment", B)), "end": "END", "validator": SymObj(Validator, {}), "align_values": SBool(const("align", B)) if align is None else align,
                                  "separate_complex_types": separate})


def native_printer(rng):
    from mappyfile.pprint import PrettyPrinter

    return PrettyPrinter(indent=rng.choice([0, 1, 2, 4]), spacer=rng.choice([" ", "\t"]), quote=rng.choice("'\""), newlinechar=rng.choice(["\n", "\r\n"]), end_comment=rng.random() < .5,
                         align_values=rng.random() < .5, separate_complex_types=rng.random() < .3)


KEYS = ["name", "metadata", "layers", "points", "__type__", "__comments__", "_", "__", "____", "projection", "config", "style", "symbol", "classes", "pattern", "processing", "extent", "debug", "status"]


def native_key(rng):
    return word(rng, KEYS)


def native_scalar(rng):
    return rng.choice([True, False, 1, -2, 2.5, None, "abc", "it's", 'a "b" c', "[field]", "on", "END", "/a.*/i", "([a] = 1)", "NOT ([a])", "%x%", "{a,b}", "", "'", '"', "a\"b'c", "(a) + (b)", "'x'i",
                       word(rng, ["auto", "default"])])


def native_any(rng, d=2):
    k = rng.randrange(8)
    if k < 4 or d == 0:
        return native_scalar(rng)
    if k < 6:
        return rng.choice([list, tuple])(native_any(rng, d - 1) for i in range(rng.randrange(3)))
    return {native_key(rng): native_any(rng, d - 1) for i in range(rng.randrange(3))}


def native_comment(rng):
    return rng.choice(["# a", "/* b */", "", ["# a", "/* b */", "# c"], [], ["/* x */"]])


def native_comments(rng, keys=KEYS):
    return {k: native_comment(rng) for k in rng.sample(keys, rng.randrange(4))}


def contracts():
    from mappyfile.pprint import PrettyPrinter

    out = []

    def add(name, spec, args, gen, fn=None, opaque=None, **kw):
        kw["opaque"] = lambda: by_contract(opaque)
        out.append(Contract("PrettyPrinter." + name, lambda: getattr(PrettyPrinter, fn or name.split(" (")[0]), spec, args, gen, **kw))

    key = lambda eng: SStr(const("key", S))  # noqa: E731
    lev = lambda eng: SInt(const("level", I))  # noqa: E731
    val = lambda ty, n="value": (lambda eng: SVal(const(n, U), ty))  # noqa: E731
    a = lambda *fs: (lambda eng: [printer(eng)] + [f(eng) for f in fs])  # noqa: E731
    n = lambda *fs: (lambda rng: [native_printer(rng)] + [f(rng) for f in fs])  # noqa: E731
    nlev = lambda rng: rng.randrange(-1, 4)  # noqa: E731
    TComments = TDict(TStr | TList(TStr))
    TScalars = Ty(["none", "bool", "int", "float", "str", "dict", "list", "tuple"], val=TAny, elem=TAny)
    comments = val(TComments, "comments")
    comment = lambda: {PrettyPrinter.process_attribute_comment: (TStr, None)}  # noqa: E731

    add("__is_metadata", s_is_metadata, a(key), n(native_key), fn="_PrettyPrinter__is_metadata")

    def length(eng):
        v = SInt(const("length", I))
        eng.ctx.assume(v.z >= 0)
        return v

    add("compute_aligned_max_indent", s_compute_aligned_max_indent, a(length), n(lambda rng: rng.randrange(40)))
    add("compute_max_key_length", s_compute_max_key_length, a(val(TDict(TAny), "composite")), n(lambda rng: {native_key(rng): native_any(rng) for i in range(rng.randrange(5))}))
    add("whitespace", s_whitespace, a(lev, lambda eng: SInt(const("more", I))), n(nlev, nlev))
    add("add_start_line", s_add_start_line, a(key, lev), n(native_key, nlev))
    add("add_end_line", s_add_end_line, a(lev, lambda eng: SInt(const("more", I)), key), n(nlev, nlev, native_key))
    add("__format_line", s_format_line, a(lambda eng: SStr(const("sp", S)), key, val(TScalars), val(TInt | TNone, "column")), n(lambda rng: "  ", native_key, native_scalar, lambda rng: rng.choice([None, 0, 8, 16])),
        fn="_PrettyPrinter__format_line")
    add("__format_line (default)", s_format_line, a(lambda eng: SStr(const("sp", S)), key, val(TScalars)), n(lambda rng: "  ", native_key, native_scalar), fn="_PrettyPrinter__format_line")
    add("check_representation", s_check_representation, a(key, val(TScalars)), n(native_key, native_any))
    add("check_single_value", s_check_single_value, a(key, val(TScalars)), n(native_key, native_any))
    add("process_attribute_comment", s_process_attribute_comment, a(comments, key), n(native_comments, native_key))
    add("format_comment", s_format_comment, a(lambda eng: SStr(const("sp", S)), lambda eng: SStr(const("text", S))), n(lambda rng: " ", lambda rng: "# a"))
    add("process_composite_comment", s_process_composite_comment, a(lev, comments, key), n(nlev, native_comments, native_key))
    add("_add_type_comment", s_add_type_comment, a(lev, comments, lambda eng: PList([OSeg(const("lines", U), TStr)])), n(nlev, native_comments, lambda rng: ["x"]))
    TEntries = TDict(TScalars)
    add("process_dict", s_process_dict, a(val(TEntries, "d"), lev, comments), n(lambda rng: {native_key(rng): native_any(rng, 1) for i in range(rng.randrange(4))}, nlev, native_comments), opaque=lambda: comment() | columns())
    add("process_key_dict", s_process_key_dict, a(key, val(TDict(TScalars, fields={"__comments__": TComments}), "d"), lev),
        n(native_key, lambda rng: dict({native_key(rng): native_scalar(rng) for i in range(rng.randrange(4))}, **rng.choice([{}, {"__comments__": native_comments(rng)}])), nlev),
        opaque=lambda: {PrettyPrinter.process_dict: (TList(TStr), ValueError)})
    add("process_config_dict", s_process_config_dict, a(val(TEntries, "d"), lev, val(TComments | TNone | TStr | TList(TStr), "comments")),
        n(lambda rng: {native_key(rng): native_any(rng, 1) for i in range(rng.randrange(4))}, nlev, lambda rng: rng.choice([None, native_comments(rng), "# a", ["# b"]])), opaque=comment)
    TOption = TDict(TAny, fields={"type": TStr, "enum": TList(TStr), "description": TStr, "pattern": TStr})
    add("is_expression", s_is_expression, a(val(TOption, "option")), n(lambda rng: rng.choice([{}, {"description": "expression"}, {"description": "x"}])))
    noption = lambda rng: rng.choice([{}, {"type": "string"}, {"type": "string", "enum": ["on", "end", "abc"]}, {"enum": ["on"]}, {"type": "string", "pattern": "x"},  # noqa: E731
                                      {"type": "string", "description": "expression"}, {"type": "number"}, {"description": "expression"}])
    options = lambda: {PrettyPrinter.get_options: (TList(TOption), Exception)}  # noqa: E731
    add("get_options", s_get_options, a(val(TDict(TAny, fields={k: TList(TOption) for k in ("allOf", "oneOf", "anyOf")}), "props")),
        n(lambda rng: dict(noption(rng), **{k: [dict(noption(rng), **rng.choice([{}, {"anyOf": [noption(rng)]}])) for i in range(rng.randrange(3))] for k in rng.sample(["allOf", "oneOf", "anyOf"], rng.randrange(3))})), opaque=options)
    add("is_binding", s_is_binding, a(val(TScalars)), n(native_any))
    add("is_regular_expression", s_is_regular_expression, a(lambda eng: SStr(const("value", S))), n(lambda rng: str(native_scalar(rng))))
    add("format_list_value", s_format_list_value, a(key, val(TScalars)), n(native_key, native_any))
    add("check_options_list", s_check_options_list, a(key, val(TList(TOption), "options"), lambda eng: SStr(const("value", S))),
        n(native_key, lambda rng: [noption(rng) for i in range(rng.randrange(4))], lambda rng: str(native_scalar(rng))), opaque=lambda: {PrettyPrinter.is_parenthesised: (TBool, None)}, seconds=80)
    checked = lambda: {PrettyPrinter.check_options_list: (TStr, None), PrettyPrinter.get_options: (TList(TOption), Exception)}  # noqa: E731
    add("format_value", s_format_value, a(key, val(TOption, "props"), val(TScalars)), n(native_key, noption, native_any), opaque=checked, seconds=80)
    valued = lambda: {PrettyPrinter.format_value: (Ty(["int", "float", "str"]), ValueError)}  # noqa: E731
    add("format_repeated_value", s_format_repeated_value, a(key, val(TScalars)), n(native_key, native_any), opaque=valued)
    add("process_repeated_list", s_process_repeated_list, a(key, val(TScalars, "lst"), lev, val(TInt | TNone, "column"), val(TNone | TStr | TList(TStr | TList(TStr)), "comments")),
        n(native_key, native_any, nlev, lambda rng: rng.choice([0, 1, 12]), lambda rng: rng.choice([None, native_comment(rng), [native_comment(rng) for i in range(3)]])),
        opaque=lambda: {PrettyPrinter.format_repeated_value: (TStr, ValueError), PrettyPrinter.process_attribute_comment: (TStr, None)}, seconds=80)
    add("process_projection", s_process_projection, a(key, val(TStr | TNone | TDict(TAny) | TList(TStr), "lst"), lev, lambda eng: SStr(const("comment", S))),
        n(native_key, lambda rng: rng.choice([["auto"], ["init=epsg:4326"], ["a", "b"], "auto", "x y", [], None, {}, ["AUTO", "b"]]), nlev, lambda rng: rng.choice(["", " # a", "# b"])))
    TPairs = TList(TTuple(TScalars, TScalars) | TList(TScalars))
    add("format_pair_list", s_format_pair_list, a(key, val(TPairs | TNone | TDict(TAny), "pairs"), lev), n(native_key, lambda rng: rng.choice([None, {}, [(1, 2), (3.5, "a")], [[1, 2]], [(1, 2, 3)], [(None, 2)], []]), nlev))
    add("process_attribute", s_process_attribute, a(lambda eng: SStr(const("type", S)), key, val(TScalars), lev, val(TInt | TNone, "column")),
        n(lambda rng: rng.choice(["map", "layer", "style"]), native_key, native_any, nlev, lambda rng: rng.choice([0, 1, 12])),
        opaque=lambda: {PrettyPrinter.format_value: (Ty(["int", "float", "str"]), ValueError), PrettyPrinter.get_attribute_properties: (TDict(TAny), None)})
    from mappyfile.validator import Validator

    add("get_attribute_properties", s_get_attribute_properties, a(lambda eng: SStr(const("type", S)), key), n(lambda rng: rng.choice(["map", "layer", "style"]), native_key),
        opaque=lambda: {Validator.get_expanded_schema: (TDict(TAny, fields={"properties": TDict(TDict(TAny))}, required=("properties",)), None)})
    add("is_parenthesised", s_is_parenthesised, a(lambda eng: SStr(const("value", S))), n(lambda rng: rng.choice(["", "(", " "]) + "".join(rng.choice(["(", ")", "a", '"', "'", "`", " ", "~/", "/", "~* /", "\\"]) for i in range(rng.randrange(9))) + rng.choice([")", ""])))
    ncomposite = lambda rng: {k: native_any(rng) for k in rng.sample(KEYS, rng.randrange(6))}  # noqa: E731
    add("separate_complex", s_separate_complex, lambda eng: [printer(eng, separate=SBool(const("separate", B))), SVal(const("composite", U), TDict(TAny)), lev(eng)], n(ncomposite, nlev),
        opaque=lambda: {PrettyPrinter.is_complex_type: (TBool, None)})
    npairs = lambda rng: [tuple(rng.choice([1, 2.5, "a"]) for j in range(2)) for i in range(rng.randrange(1, 3))]  # noqa: E731
    TNumber = Ty(["int", "float", "str", "bool"])
    TPair = TTuple(TNumber, TNumber)
    pair_list = lambda: {PrettyPrinter.format_pair_list: (TList(TStr), ValueError)}  # noqa: E731
    for what, ty in (("one part", TList(TPair)), ("several parts", TList(TList(TPair))), ("lists of numbers", TList(TList(TInt))), ("no list", TNone | TDict(TAny))):
        add("format_repeated_pair_list (%s)" % what, s_format_repeated_pair_list, a(key, val(ty, "root"), lev), n(native_key, lambda rng: rng.choice([npairs(rng), [npairs(rng) for i in range(rng.randrange(1, 3))], None, {}, [[1, 2]], []]), nlev), opaque=pair_list, seconds=120)
    blocks = lambda: {PrettyPrinter.process_key_dict: (TList(TStr), ValueError), PrettyPrinter._format: (TList(TStr), Exception)}  # noqa: E731
    TBlock = TDict(TAny, fields={"__type__": TStr}, required=("__type__",))
    nmap = lambda rng: rng.choice([{"__type__": "map", "name": "x"}, {"__type__": "metadata", "a": "b"}, {"__type__": "layer", "classes": [{"__type__": "class", "name": "y"}]}, {}, {"name": "x"}])  # noqa: E731
    add("pprint", s_pprint, a(val(TBlock | TList(TBlock), "composites")), n(lambda rng: rng.choice([nmap(rng), [nmap(rng) for i in range(rng.randrange(3))]])), opaque=blocks, public=True)
    parts = lambda: {getattr(PrettyPrinter, name): (TList(TStr), Exception) for name in ("_format", "format_pair_list", "process_key_dict", "process_projection", "process_repeated_list", "format_repeated_pair_list",  # noqa: E731
                                                                                       "process_config_dict")} | {PrettyPrinter._add_type_comment: type_comment, PrettyPrinter.compute_max_key_length: longest,
                                                                                                                  PrettyPrinter.process_attribute: (TStr, Exception), PrettyPrinter.separate_complex: separate} | columns() | comment()
    def longest(eng, bound):
        z = uf("longest", U, I)(eng.term(bound["composite"]))
        eng.ctx.assume(z >= 0)
        return mk(z)

    def separate(eng, bound):
        d = eng.conc(bound["composite"])
        eng.put(d, "base", uf("separate", U, U, U)(eng.term(bound["self"]), d.base))

    def type_comment(eng, bound):
        t = uf("type_comment", U, I, U, U)(eng.term(bound["self"]), eng.z(eng.conc(bound["level"]), I), eng.term(bound["comments"]))
        eng.ctx.assume(slen(t) >= 0)
        eng.list_extend(bound["lines"], PList([OSeg(t, TStr)]))

    TSub = TDict(TAny, fields={"__type__": TStr})
    TComposite = lambda typed: TDict(TNone | TBool | TInt | TFloat | TStr | TSub | TList(TSub), fields={"__type__": TStr, "__comments__": TComments}, required=("__type__",) if typed else ())  # noqa: E731

    def composite(typed):
        def args(eng):
            d = SVal(const("composite", U), TComposite(typed))
            if typed:
                t = eng.conc(eng.getitem(eng.conc(d), "__type__"))
                from mappyfile.pprint import COMPOSITE_NAMES, SINGLETON_COMPOSITE_NAMES

                known = COMPOSITE_NAMES | SINGLETON_COMPOSITE_NAMES
                for names in [BLOCKS] + [known] * (BLOCKS <= known):
                    eng.ctx.assume(eng.z(eng.contains(frozenset(names), t), B))
                eng.ctx.assume(z3.Length(t.z) > 0)
            else:
                eng.ctx.assume(z3.Not(dhas(d.t, z3.StringVal("__type__"))))
            return [printer(eng), d, lev(eng)]
        return args

    nblock = lambda rng: rng.choice([nmap(rng), dict(ncomposite(rng), __type__=rng.choice(["map", "layer", "class"]), name="a", points=[npairs(rng)], extent=[1, 2], debug=5, __comments__=native_comments(rng))])  # noqa: E731
    def names_as_sets(eng):
        eng.abstract_sets = 15

    add("_format", s_format, composite(True), n(nblock, nlev), opaque=parts, setup=names_as_sets, seconds=320)
    add("_format (no type)", s_format, composite(False), n(nblock, nlev), opaque=parts, setup=names_as_sets, seconds=260)
    add("__init__", s_init, lambda eng: [SymObj(PrettyPrinter), SInt(const("indent", I)), SStr(const("spacer", S)), SStr(const("quote", S)), SStr(const("newline", S))] + [SBool(const(x, B)) for x in "abc"],
        lambda rng: [native_printer(rng), rng.randrange(5), " ", rng.choice(["'", '"', "x"]), "\n", rng.random() < .5, rng.random() < .5, rng.random() < .5])
    add("__init__ (default)", s_init, lambda eng: [SymObj(PrettyPrinter)], lambda rng: [native_printer(rng)])
    add("is_complex_type", s_is_complex_type, a(val(TDict(TAny), "composite"), key, lev), n(lambda rng: {k: native_any(rng) for k in KEYS[:10]}, native_key, nlev))
    return out
