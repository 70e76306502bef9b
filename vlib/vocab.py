"""Vocabulary of Mapfile keywords read straight from the JSON schemas of the tree under test.

Shares no code with mappyfile: plain json + own $ref resolution.  For every (object type, keyword)
it lists the *value alternatives* the schema admits, each reduced to a shape the renderer knows how
to write the way MapServer writes it.
"""
import copy
import functools
import json
import os

REPO = os.environ.get("VERIF_REPO", "/repo")
SCHEMA_DIR = os.path.join(REPO, "mappyfile", "schemas")

# block types by the documented contract (C02); spelled out here, not imported from mappyfile.tokens
BLOCKS = (
    "class cluster composite feature grid join label layer leader legend map outputformat "
    "querymap reference scalebar scaletoken style symbol web"
).split()
SINGLETONS = set("cluster grid leader legend querymap reference scalebar web".split())
KVBLOCKS = ("metadata", "validation", "values", "connectionoptions")
REPEATED = ("processing", "formatoption", "include", "compfilter")
PLURALS = {
    "layer": "layers", "class": "classes", "style": "styles", "symbol": "symbols", "label": "labels",
    "outputformat": "outputformats", "feature": "features", "scaletoken": "scaletokens",
    "composite": "composites", "join": "joins", "map": "maps",
}
UNPLURAL = {v: k for k, v in PLURALS.items()}
SPECIAL = ("points", "pattern", "projection", "config")

BIND = "^\\[(.*?)\\]$"
EXPR = "^\\((.*?)\\)$"
REGEX = "^/(.*?)/$"


@functools.lru_cache(None)
def raw(name):
    if not name.endswith(".json"):
        name += ".json"
    with open(os.path.join(SCHEMA_DIR, name), encoding="utf-8") as f:
        return json.load(f)


def is_object_schema(s):
    if s.get("type") == "object" and "properties" in s and "__type__" in s["properties"]:
        return True
    return False


def resolve(s):
    """one level: follow $ref and single allOf, keeping siblings"""
    s = dict(s)
    for _ in range(10):
        if "$ref" in s:
            r = s.pop("$ref")
            t = copy.deepcopy(raw(r))
            t["__ref__"] = r
            # draft4: $ref siblings are ignored by validators, but keep metadata/default/description
            for k, v in s.items():
                t.setdefault(k, v)
            s = t
        elif "allOf" in s and len(s["allOf"]) == 1:
            t = dict(s["allOf"][0])
            rest = {k: v for k, v in s.items() if k != "allOf"}
            for k, v in rest.items():
                t.setdefault(k, v)
            s = t
        else:
            break
    return s


def alternatives(s, outer=None):
    """flatten to leaf alternatives; every leaf is a dict with the key 'versions': list of metadata dicts"""
    s = resolve(s)
    versions = list((outer or {}).get("versions", []))
    cons = dict((outer or {}).get("cons", {}))
    if "metadata" in s and isinstance(s["metadata"], dict) and (
        "minVersion" in s["metadata"] or "maxVersion" in s["metadata"]
    ):
        versions.append(s["metadata"])
    for k in ("minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"):
        if k in s:
            cons.setdefault(k, s[k])
    for comb in ("oneOf", "anyOf"):
        if comb in s:
            out = []
            for a in s[comb]:
                out += alternatives(a, {"versions": versions, "cons": cons})
            return out
    leaf = dict(s)
    leaf["versions"] = versions
    for k, v in cons.items():
        leaf.setdefault(k, v)
    return [leaf]


def classify(key, leaf):
    """shape name for a leaf alternative"""
    ref = leaf.get("__ref__", "")
    if "enum" in leaf:
        return "enum"
    t = leaf.get("type")
    if t == "boolean":
        return "bool"
    if t == "integer":
        return "int"
    if t == "number":
        return "float"
    if t == "object":
        if is_object_schema(leaf):
            return "object"
        if key == "config":
            return "config"
        return "kv"
    if t == "array":
        if key in ("points", "pattern"):
            return "points"
        if key == "projection":
            return "projection"
        if key in REPEATED:
            return "repeated"
        items = leaf.get("items", {})
        if isinstance(items, dict) and ("$ref" in items) and is_object_schema(raw(items["$ref"])):
            return "objects"
        n = leaf.get("minItems")
        if isinstance(items, dict) and "oneOf" in items:
            return "mixedpair"
        if isinstance(items, list) and len(items) == 2:
            return "mixedpair_num_bind"
        if isinstance(items, dict) and items.get("type") == "string":
            return "bindpair" if items.get("pattern") == BIND else "hexpair"
        if isinstance(items, list):
            items = items[0]
        if ref == "points.json" or (isinstance(items, dict) and items.get("type") == "array"):
            return "pointlist"
        return "intlist" if items.get("type") == "integer" else "numlist"
    pat = leaf.get("pattern")
    if pat == BIND:
        return "bind"
    if pat == EXPR:
        return "expr"
    if pat == REGEX:
        return "regex"
    if pat and pat.startswith("^#"):
        return "hex"
    if pat and pat.startswith("^&#"):
        return "charref"
    if pat:
        return "patword"
    if t == "string":
        return "string"
    return "unknown"


@functools.lru_cache(None)
def slots():
    """{type: {keyword: [(shape, leaf), ...]}} for the 19 block types and symbolset"""
    out = {}
    for t in BLOCKS + ["symbolset"]:
        props = raw(t)["properties"]
        d = {}
        for k, s in props.items():
            if k.startswith("__"):
                continue
            d[k] = [(classify(k, l), l) for l in alternatives(s)]
        out[t] = d
    return out


def expression_capable(t, k):
    """MapServer / schema: keyword accepts something other than a literal string"""
    shapes = {s for s, _ in slots()[t].get(k, [])}
    if shapes & {"expr", "regex", "bind"}:
        return True
    return k in ("expression", "text", "filter", "geomtransform", "group") and "expr" in shapes


def simple_slots(t):
    """keywords written on one line as KEY value"""
    return {
        k: alts
        for k, alts in slots()[t].items()
        if k not in SPECIAL and k not in REPEATED and k not in KVBLOCKS
        and not any(s in ("objects", "kv", "config", "projection", "points", "repeated") for s, _ in alts)
        and not all(s == "object" for s, _ in alts)
    }


def children(t):
    """[(child type, plural?)] block children the schema allows"""
    out = []
    for k, alts in slots()[t].items():
        for s, l in alts:
            if s == "objects":
                out.append((UNPLURAL.get(k, k), True))
            elif s == "object" and l["properties"]["__type__"]["enum"][0] == k and k in SINGLETONS:
                out.append((k, False))
    return out


if __name__ == "__main__":
    from collections import Counter

    c = Counter()
    for t, ks in slots().items():
        for k, alts in ks.items():
            for s, l in alts:
                c[s] += 1
                if s in ("unknown", "pointlist", "mixedpair_num_bind", "patword"):
                    print(t, k, s, l)
    print(c, sum(len(v) for v in slots().values()))
    for t in slots():
        print(t, children(t))
