"""Independent evaluator of the published schemas (JSON Schema draft 4 subset they use), reading the JSON files directly.

Shares no code with mappyfile.validator, jsonschema or jsonref.
"""
import functools
import json
import os
import re

from . import vocab as V

raw = V.raw


def lower(x):
    """the lower-cased JSON form of a Mapfile dictionary"""
    if isinstance(x, dict):
        return {str(k).lower(): lower(v) for k, v in dict.items(x)}
    if isinstance(x, (list, tuple)):
        return [lower(v) for v in x]
    return x.lower() if isinstance(x, str) else x


def annotated(s, version):
    """False when the annotation of this schema excludes the version"""
    m = s.get("metadata")
    if version is None or not isinstance(m, dict):
        return True
    if "minVersion" in m and version < m["minVersion"]:
        return False
    if "maxVersion" in m and version > m["maxVersion"]:
        return False
    return True


def deref(s):
    """[s itself (its own annotations), the schema it refers to ...]"""
    return [s, raw(s["$ref"])] if "$ref" in s else [s]


@functools.lru_cache(None)
def _avail(key, version):
    return available(json.loads(key), version)


def available(s, version):
    """an entry exists for the version: its own annotation, and that of everything its value must conform to"""
    if version is None:
        return True
    for x in deref(s):
        if not annotated(x, version):
            return False
        if x is not s and "$ref" in x and not available(x, version):
            return False
        for a in x.get("allOf", []):
            if not available(a, version):
                return False
    return True


def is_type(v, t):
    if t == "object":
        return isinstance(v, dict)
    if t == "array":
        return isinstance(v, list)
    if t == "string":
        return isinstance(v, str)
    if t == "boolean":
        return isinstance(v, bool)
    if t == "integer":
        return isinstance(v, int) and not isinstance(v, bool)
    if t == "number":
        return isinstance(v, (int, float)) and not isinstance(v, bool)
    if t == "null":
        return v is None
    raise AssertionError(t)


def equal(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(equal, a, b))
    return type(a) in (int, float) and type(b) in (int, float) and a == b or type(a) is type(b) and a == b


KNOWN = {"type", "metadata", "$ref", "minVersion", "items", "default", "enum", "minimum", "description", "maxVersion", "oneOf",
         "additionalProperties", "exclusiveMinimum", "exclusiveMaximum", "pattern", "minItems", "properties", "maxItems", "allOf",
         "patternProperties", "maximum", "anyOf", "example", "$schema", "minLength", "maxLength", "required", "not", "title", "id"}


def errors(s, v, path=(), version=None):
    """[(path, kind)] kind: value | unknown | missing"""
    out = []
    if "$ref" in s:
        r = raw(s["$ref"])
        return errors(r, v, path, version)
    for k in s:
        if k not in KNOWN:
            raise AssertionError("schema keyword %s is not handled" % k)
    if "type" in s and not is_type(v, s["type"]):
        out.append((path, "value"))
    if "enum" in s and not any(equal(e, v) for e in s["enum"]):
        out.append((path, "value"))
    num = isinstance(v, (int, float)) and not isinstance(v, bool)
    if "minimum" in s and num:
        if v < s["minimum"] or (s.get("exclusiveMinimum") and v == s["minimum"]):
            out.append((path, "value"))
    if "maximum" in s and num:
        if v > s["maximum"] or (s.get("exclusiveMaximum") and v == s["maximum"]):
            out.append((path, "value"))
    if isinstance(v, str):
        if "pattern" in s and not re.search(s["pattern"], v):
            out.append((path, "value"))
        if "minLength" in s and len(v) < s["minLength"]:
            out.append((path, "value"))
        if "maxLength" in s and len(v) > s["maxLength"]:
            out.append((path, "value"))
    if isinstance(v, list):
        if "minItems" in s and len(v) < s["minItems"]:
            out.append((path, "value"))
        if "maxItems" in s and len(v) > s["maxItems"]:
            out.append((path, "value"))
        it = s.get("items")
        if isinstance(it, dict):
            for i, x in enumerate(v):
                out += errors(it, x, path + (i,), version)
        elif isinstance(it, list):
            for i, (sub, x) in enumerate(zip(it, v)):
                out += errors(sub, x, path + (i,), version)
    if isinstance(v, dict):
        props = {k: p for k, p in s.get("properties", {}).items() if available(p, version) and items_available(p, version)}
        pats = s.get("patternProperties", {})
        for k, x in v.items():
            known = False
            if k in props:
                known = True
                out += errors(props[k], x, path + (k,), version)
            for p, sub in pats.items():
                if re.search(p, k):
                    known = True
                    out += errors(sub, x, path + (k,), version)
            if not known:
                ap = s.get("additionalProperties", True)
                if ap is False:
                    out.append((path, "unknown"))
                elif isinstance(ap, dict):
                    out += errors(ap, x, path + (k,), version)
        for k in s.get("required", []):
            if k not in v:
                out.append((path, "missing"))
    for a in s.get("allOf", []):
        out += errors(a, v, path, version)
    if "anyOf" in s:
        alts = [a for a in s["anyOf"] if available(a, version)]
        if not any(not errors(a, v, path, version) for a in alts):
            out.append((path, "value"))
    if "oneOf" in s:
        alts = [a for a in s["oneOf"] if available(a, version)]
        if sum(not errors(a, v, path, version) for a in alts) != 1:
            out.append((path, "value"))
    return out


def items_available(p, version):
    """a keyword holding a list of objects exists when the objects do"""
    for x in deref(p):
        if isinstance(x.get("items"), dict) and not available(x["items"], version):
            return False
    return True


def root_errors(d, version=None):
    """errors of one root dictionary against the schema of its type"""
    j = lower(d)
    t = j.get("__type__", "map")
    s = raw(t)
    if not annotated(s, version):
        return [((), "value")] + errors(s, j, (), version)
    return errors(s, j, (), version)


def name_of(j, path):
    """keyword (or type of the enclosing object) an error at this path of the lower-cased form belongs to"""
    name = str(j.get("__type__", "map"))
    v = j
    for p in path:
        if isinstance(v, dict):
            name = p
            v = v.get(p)
        else:
            v = v[p]
            if isinstance(v, dict) and "__type__" in v:
                name = str(v["__type__"])
    return name
