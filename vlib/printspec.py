"""What the printed text of a dictionary must contain (C03), decided from the dictionary and the schema vocabulary."""
import re

from . import expr as X
from . import gen as G
from . import reader as R
from . import vocab as V


class Unspecified(Exception):
    """the dictionary is outside the domain the property speaks about (see DESIGN.md)"""


def hidden(k):
    return isinstance(k, str) and k.startswith("__") and k.endswith("__")


def enclosed(v):
    """one parenthesised group from the first to the last character"""
    if not (v.startswith("(") and v.endswith(")")):
        return False
    try:
        return R.scan_group(v, 0) == len(v)
    except R.ReadError:
        raise Unspecified("expression-like string %r" % v)


def num_same(text, v):
    try:
        x = float(text)
    except ValueError:
        return False
    if isinstance(v, int) and not re.search(r"[.eE]", text):
        return int(text) == v
    return x == float(v)


def lexical(t, key, value):
    """-> one of ('bare', TEXT) ('num', v) ('str', content) ('expr', text) ('raw', text) ('either', text)"""
    alts = V.slots().get(t, {}).get(key)
    if isinstance(value, bool):
        return ("bare", str(value))
    shapes = {s for s, _ in alts} if alts else set()
    plainstring = bool(alts) and shapes == {"string"} and len(alts) == 1
    if isinstance(value, (int, float)):
        return ("str", str(value)) if plainstring else ("num", value)
    if not isinstance(value, str):
        raise Unspecified("%r" % (value,))
    if plainstring:
        return ("str", value)
    for s, leaf in alts or []:
        if s == "enum" and value.lower() in [e for e in leaf["enum"] if isinstance(e, str)]:
            if key == "compop" or value.lower() == "end":
                return ("str", value)
            return ("bare", value)
    if re.fullmatch(r"\[[^\s\[\]]+\]", value):
        return ("either", value) if key == "text" else ("raw", value)
    if "expr" in shapes or not alts:
        if enclosed(value) or (value.startswith("NOT ") and enclosed(value[4:])):
            return ("expr", value)
        if key in ("expression", "filter") and value.startswith("{") and value.endswith("}"):
            return ("raw", value)
        if re.fullmatch(r"/[^/\n]*/i?", value) and not value.startswith("/*"):
            return ("raw", value)
        if re.fullmatch(r"\\\\.*\\\\i?", value):
            return ("raw", value)
        if re.fullmatch(r"\"[^\"]*\"i|'[^']*'i", value):
            return ("raw", value)
        if G.looks_like_expression(value) and not (value[0] in "([" and key == "text"):
            raise Unspecified("expression-like string %r" % value)
    return ("str", value)


def spec(d):
    """dictionary -> (type, [entries])"""
    t = dict.__getitem__(d, "__type__")
    out = []
    for k, v in dict.items(d):
        if hidden(k):
            continue
        if k in V.UNPLURAL and isinstance(v, list):
            for o in v:
                out.append(("obj", spec(o)))
        elif k in V.KVBLOCKS and isinstance(v, dict):
            out.append(("kv", k, [(a, b) for a, b in dict.items(v) if not hidden(a)]))
        elif k == "config":
            for a, b in dict.items(v):
                if not hidden(a):
                    out.append(("config", k, a, b))
        elif k == "projection":
            out.append(("projection", k, v if isinstance(v, list) else [v]))
        elif k in V.REPEATED:
            for x in v:
                out.append(("kw", k, [("str", str(x))]))
        elif k == "pattern":
            out.append(("points", k, v))
        elif k == "points":
            if v and isinstance(v[0][0], (list, tuple)):
                for p in v:
                    out.append(("points", k, p))
            else:
                out.append(("points", k, v))
        elif isinstance(v, dict):
            out.append(("obj", spec(v)))
        elif isinstance(v, (list, tuple)):
            vs = []
            for x in v:
                if isinstance(x, bool):
                    vs.append(("bare", str(x)))
                elif isinstance(x, (int, float)):
                    vs.append(("num", x))
                elif re.fullmatch(r"\[[^\s\[\]]+\]", x):
                    vs.append(("raw", x))
                else:
                    vs.append(("str", x))
            out.append(("kw", k, vs))
        else:
            out.append(("kw", k, [lexical(t, k, v)]))
    return (t, out)


def tok_matches(tok, s):
    kind, v = s
    if kind == "bare":
        return tok.cls == "word" and tok.text.lower() == v.lower()
    if kind == "num":
        return tok.cls == "num" and num_same(tok.text, v)
    if kind == "str":
        return tok.cls == "str" and string_same(tok, v)
    if kind == "raw":
        return tok.text == v and tok.cls in ("bind", "regex", "list", "istr", "word")
    if kind == "expr":
        return tok.cls == "expr" and (tok.text == v or X.same(tok.text, v))
    if kind == "either":
        return tok.cls in ("bind", "str") and v in (tok.text, tok.val)
    raise AssertionError(kind)


def string_same(tok, v):
    q = tok.text[0]
    return tok.val == v or tok.val.replace("\\" + q, q) == v


def match_node(node, sp, path):
    t, entries = sp
    if node.type != t:
        return "%s: block %s printed as %s" % (path, t, node.type)
    path = path + "." + t
    if len(node.entries) != len(entries):
        return "%s: %d entries printed, %d in the dictionary (%s vs %s)" % (
            path, len(node.entries), len(entries), [e.key for e in node.entries], [e[1] if e[0] != "obj" else e[1][0] for e in entries])
    for e, s in zip(node.entries, entries):
        r = match_entry(e, s, path)
        if r:
            return r
    return None


def match_entry(e, s, path):
    kind = s[0]
    if kind == "obj":
        if e.kind != "obj":
            return "%s: %s expected, keyword %s printed" % (path, s[1][0], e.key)
        return match_node(e.node, s[1], path)
    key = s[1]
    if e.key != key:
        return "%s: %s printed where %s is in the dictionary" % (path, e.key, key)
    path = path + "." + key
    if kind == "kw":
        if e.kind != "kw" or len(e.vals) != len(s[2]):
            return "%s: values %r printed for %r" % (path, e.vals, s[2])
        for tok, v in zip(e.vals, s[2]):
            if not tok_matches(tok, v):
                return "%s: %r printed for %r" % (path, tok, v)
        return None
    if kind == "config":
        if e.kind != "kw" or len(e.vals) != 2 or any(t.cls != "str" for t in e.vals):
            return "%s: %r printed for config %r" % (path, e.vals, s[2:])
        if e.vals[0].val.lower() != s[2].lower() or not string_same(e.vals[1], str(s[3])):
            return "%s: %r printed for config %r" % (path, e.vals, s[2:])
        return None
    if kind == "kv":
        flat = [x for p in s[2] for x in p]
        if e.kind != "kv" or len(e.vals) != len(flat):
            return "%s: %r printed for %r" % (path, e.vals, s[2])
        for tok, v in zip(e.vals, flat):
            if tok.cls != "str" or not string_same(tok, str(v)):
                return "%s: %r printed for %r" % (path, tok, v)
        return None
    if kind == "projection":
        vs = s[2]
        if e.kind != "projection" or len(e.vals) != len(vs):
            return "%s: %r printed for %r" % (path, e.vals, vs)
        if len(vs) == 1 and str(vs[0]).upper() == "AUTO":
            if e.vals[0].val.upper() != "AUTO":
                return "%s: %r printed for AUTO" % (path, e.vals)
            return None
        for tok, v in zip(e.vals, vs):
            if tok.cls != "str" or not string_same(tok, str(v)):
                return "%s: %r printed for %r" % (path, tok, v)
        return None
    if kind == "points":
        flat = [x for p in s[2] for x in p]
        if e.kind not in ("points", "pattern") or len(e.vals) != len(flat):
            return "%s: %r printed for %r" % (path, e.vals, s[2])
        for tok, v in zip(e.vals, flat):
            if tok.cls != "num" or not num_same(tok.text, v):
                return "%s: %r printed for %r" % (path, tok, v)
        return None
    raise AssertionError(kind)


def match_roots(roots, value):
    """None or a description of the first difference between printed roots and the dictionary"""
    ds = value if isinstance(value, list) else [value]
    if len(roots) != len(ds):
        return "%d roots printed for %d" % (len(roots), len(ds))
    for e, d in zip(roots, ds):
        t = dict.__getitem__(d, "__type__")
        if t in V.KVBLOCKS:
            r = match_entry(e, ("kv", t, [(a, b) for a, b in dict.items(d) if not hidden(a)]), "$")
        else:
            r = match_entry(e, ("obj", spec(d)), "$")
        if r:
            return r
    return None
