"""Comparison allowed by C01 and the classes of values recorded as known findings."""
import re

from . import vocab as V


def enum_word(t, key, v):
    for s, leaf in V.slots().get(t, {}).get(key, []):
        if s == "enum" and v.lower() in [e for e in leaf["enum"] if isinstance(e, str)]:
            return True
    return False


def string_slot(t, key):
    alts = V.slots().get(t, {}).get(key)
    return bool(alts) and all(s in ("string",) for s, _ in alts)


def same_value(t, key, a, b):
    if type(a) is type(b) and a == b:
        return True
    if isinstance(a, str) and isinstance(b, str) and a.lower() == b.lower() and enum_word(t, key, a):
        return True
    if key == "projection" and str(a).upper() == str(b).upper() == "AUTO":
        return True
    if isinstance(a, (int, float)) and not isinstance(a, bool) and isinstance(b, str) and str_typed(t, key):
        try:
            return float(b) == float(a)
        except ValueError:
            return False
    return False


def str_typed(t, key):
    if key in V.REPEATED:
        return True
    alts = V.slots().get(t, {}).get(key)
    return bool(alts) and any(s in ("string", "charref", "hex", "patword", "bind", "expr", "regex") for s, _ in alts)


def compare(a, b, path="$", t=None, key=None):
    """first difference (order, nesting, types) between loads(text) and loads(dumps(loads(text)))"""
    if isinstance(a, dict):
        if not isinstance(b, dict):
            return "%s: %r became %r" % (path, a, b)
        ka, kb = list(dict.keys(a)), list(dict.keys(b))
        if ka != kb:
            return "%s: keys %r became %r" % (path, ka, kb)
        tt = dict.get(a, "__type__", t)
        for k in ka:
            r = compare(dict.__getitem__(a, k), dict.__getitem__(b, k), path + "." + str(k), tt, k)
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return "%s: %r became %r" % (path, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            r = compare(x, y, "%s[%d]" % (path, i), t, key)
            if r:
                return r
        return None
    if same_value(t, key, a, b):
        return None
    return "%s: %r (%s) became %r (%s)" % (path, a, type(a).__name__, b, type(b).__name__)


OPERATOR_WORDS = set("in eq ne lt le gt ge like and or not".split())


def excluded(d, quote='"'):
    """name of the known-finding class (see known_findings.json) a loaded dictionary falls in, or None"""
    if isinstance(d, list):
        for x in d:
            r = excluded(x, quote)
            if r:
                return r
        return None
    t = dict.get(d, "__type__")
    for k, v in dict.items(d):
        if t not in V.KVBLOCKS and k in OPERATOR_WORDS:
            return "keyword-named-like-an-operator"
        if isinstance(v, dict):
            r = excluded(v, quote)
            if r:
                return r
        elif isinstance(v, list) and v and isinstance(v[0], dict):
            r = excluded(v, quote)
            if r:
                return r
        elif isinstance(v, str) and k != "__type__":
            r = excluded_value(t, k, v, quote)
            if r:
                return r
        elif isinstance(v, float) and v in (float("inf"), float("-inf")):
            return "infinite-number"
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, str) and x.endswith("\\"):
                    return "trailing-backslash"
                if k in V.REPEATED and isinstance(x, str) and x[:1] == "(" and "'" in x and '"' in x:
                    return "expression-in-repeated-keyword"
                if isinstance(x, float) and abs(x) == float("inf"):
                    return "infinite-number"
    return None


def excluded_value(t, k, v, quote='"'):
    if v.endswith("\\"):
        return "trailing-backslash"
    if t not in V.KVBLOCKS and string_slot(t, k) and quote in v.replace("\\" + quote, ""):
        return "quote-in-string-slot"
    if v.startswith("/*"):
        return "regex-comment"
    if v[:1] == "(" and "'" in v and '"' in v:
        alts = V.slots().get(t, {}).get(k)
        if alts and not any(s == "expr" for s, _ in alts) and any(s == "string" for s, _ in alts):
            return "expression-in-string-keyword"
    return None


def unknown_in_symbol(d):
    """a SYMBOL block holding a keyword that is no SYMBOL keyword: `SYMBOL word` is only read as a block when the word is one"""
    if isinstance(d, list):
        return any(map(unknown_in_symbol, d))
    if isinstance(d, dict):
        if dict.get(d, "__type__") == "symbol" and any(k not in V.slots()["symbol"] and not k.startswith("__") for k in dict.keys(d)):
            return True
        return any(unknown_in_symbol(v) for v in dict.values(d))
    return False
