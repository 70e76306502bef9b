"""C09 version-aware validation follows minVersion / maxVersion"""
import copy
import json
import random

from checks.common import *  # noqa: F401,F403
from checks.c03 import objects, to_dict
from checks.c07 import expected_names, inject, named
from vlib import d_layer, findings
from vlib import schema as S

LEVEL = "exploration"
_v = []


def shared():
    from mappyfile.validator import Validator

    if not _v:
        _v.append(Validator())
    return _v[0]


def bounds():
    out = set()

    def walk(x):
        if isinstance(x, dict):
            m = x.get("metadata")
            if isinstance(m, dict):
                out.update(m[k] for k in ("minVersion", "maxVersion") if k in m and isinstance(m[k], (int, float)))
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)

    import glob
    import os

    for f in glob.glob(os.path.join(V.SCHEMA_DIR, "*.json")):
        with open(f, encoding="utf-8") as fp:
            walk(json.load(fp))
    return sorted(out)


def versions():
    vs = set()
    for b in bounds():
        vs |= {b, round(b - 0.1, 3), round(b + 0.1, 3), b - 1e-9, b + 1e-9}
    return sorted(vs | {0.5, 4, 7, 8, 5.0, 99.0, 1000.0})


def chains():
    """block type -> ways to reach it from a root (each a list of (type, key))"""
    out = {}

    def go(path):
        t = path[-1]
        out.setdefault(t, []).append(list(path))
        if len(path) < 5:
            for c, plural in V.children(t):
                if c not in path:
                    go(path + [c])

    for t in V.BLOCKS + ["symbolset"]:
        go([t])
    return out


def wrap(d, chain):
    for p in reversed(chain[:-1]):
        t = d["__type__"]
        o = {"__type__": p}
        if p == "layer":
            o["type"] = "point"
        if t in V.SINGLETONS or t in V.KVBLOCKS:
            o[t] = d
        else:
            o[V.PLURALS[t]] = [d]
        d = o
    return d


def check(d, v, out, **payload):
    want, errs = expected_names(d, v)
    before = repr(d)
    try:
        msgs = shared().validate(d, version=v)
    except Exception as ex:
        out.viol("validate-raises", exc_str(ex), dictionary=before[:2500], version=v, **payload)
        return
    if repr(d) != before:
        out.viol("modified", "validate changed the dictionary", dictionary=before[:2500], version=v, **payload)
    if bool(msgs) != bool(errs) or named(msgs) != want:
        out.viol("verdict", "version %r: messages name %r, the schema finds %r" % (v, sorted(named(msgs)), sorted(want)),
                 dictionary=before[:2500], version=v, **payload)


def annotated_slots():
    """(type, keyword, alternative) with an annotation on the keyword, its schema, an alternative or the objects it holds"""
    out = []
    for t, ks in V.slots().items():
        props = V.raw(t)["properties"]
        for k, alts in ks.items():
            if "Version" in json.dumps(deep(props[k], 2)):
                for n in range(len(alts)):
                    out.append((t, k, n))
    return out


def deep(s, d):
    """schema with references opened to depth d, without the keywords of nested objects"""
    if isinstance(s, dict):
        if "$ref" in s and d:
            return [{k: v for k, v in s.items()}, {k: deep(v, d - 1) for k, v in V.raw(s["$ref"]).items() if k != "properties"}]
        return {k: deep(v, d) for k, v in s.items() if k != "properties"}
    if isinstance(s, list):
        return [deep(x, d) for x in s]
    return s


def case_slot(arg, out):
    """one annotated keyword and alternative, every boundary version, several contexts"""
    t, k, n, nctx, salt = arg
    rng = random.Random(repr(arg))
    shape, leaf = V.slots()[t][k][n]
    o = {"__type__": t}
    if t == "layer":
        o["type"] = "point"
    if shape == "objects":
        c = {"__type__": V.UNPLURAL[k]}
        if c["__type__"] == "layer":
            c["type"] = "point"
        o[k] = [c]
    elif shape in ("object", "kv"):
        o[k] = {"__type__": k}
    else:
        it = G.gen_item(rng, t, k, shape, leaf, 1)
        if it is None:
            return
        o.update(to_dict(G.expected(G.Obj(t, [it])), "dict"))
    cs = chains()[t]
    rng.shuffle(cs)
    for chain in cs[:nctx]:
        d = wrap(copy.deepcopy(o), chain)
        for v in versions():
            check(d, v, out, slot=[t, k, shape], chain=chain)
            out.n += 1
        out.feat(t, k, shape, len(chain), chain[0])


def case_doc(seed, out):
    rng = random.Random(seed)
    roots = G.gen_doc(rng)
    d = to_dict(G.expected_doc(roots), "ci")
    for x in d if isinstance(d, list) else [d]:
        if rng.random() < 0.4 and objects(x):
            inject(rng, x)
        for v in rng.sample(versions(), 4):
            check(x, v, out)
            out.feat("doc", str(dict.get(x, "__type__")), v)
    if not out.samples:
        out.samples.append(repr(d)[:300])


def plain(x):
    if hasattr(x, "__subject__"):
        x = x.__subject__
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(v) for v in x]
    return x


_fresh = {}


def fresh_schema(t, v):
    from mappyfile.validator import Validator

    if (t, v) not in _fresh:
        _fresh[t, v] = json.dumps(plain(Validator().get_versioned_schema(v, t)), sort_keys=True)
    return _fresh[t, v]


def fresh_verdict(d, v):
    from mappyfile.validator import Validator

    return Validator().validate(d, version=v)


def case_history(seed, out):
    """one Validator asked about many versions, objects and exported schemas"""
    from mappyfile.validator import Validator

    rng = random.Random(seed)
    val = Validator()
    docs = []
    for _ in range(3):
        x = to_dict(G.expected_doc(G.gen_doc(rng)), "dict")
        x = x if not isinstance(x, list) else x[0]
        if x["__type__"] not in V.BLOCKS:
            continue
        docs.append(x)
    trace = []
    for _ in range(rng.randrange(4, 12)):
        v = rng.choice([None, None, 4.0, 5.0, 6.4, 7.0, 7.6, 8.0, 8, 7, 5.4])
        if rng.random() < 0.35 or not docs:
            t = rng.choice(["map", "layer", "style", "label", "class", "outputformat", "web", "symbol", "composite"])
            trace.append(("schema", t, v))
            got = plain(val.get_versioned_schema(v, t))
            if json.dumps(got, sort_keys=True) != fresh_schema(t, v):
                out.viol("history", "the exported schema of %s %s depends on earlier calls %r" % (t, v, trace))
                return
            # what a caller does to an exported schema is seen by nobody
            if rng.random() < 0.3 and v is not None:
                s = val.get_versioned_schema(v, t)
                if isinstance(s, dict) and isinstance(s.get("properties"), dict) and s["properties"]:
                    s["properties"].clear()
                    trace.append(("clear", t, v))
        else:
            d = rng.choice(docs)
            trace.append(("validate", d["__type__"], v))
            a = val.validate(d, version=v) if v is not None else val.validate(d)
            want, errs = expected_names(d, v)
            if bool(a) != bool(errs) or named(a) != want:
                out.viol("history", "verdict for version %r depends on earlier calls %r: %r / %r" % (v, trace, sorted(named(a)), sorted(want)),
                         dictionary=repr(d)[:2000])
                return
        out.feat("history", trace[-1])


def case_exported(arg, out):
    """the exported schema decides like the annotated schema"""
    t, v, seed = arg
    rng = random.Random(repr(arg))
    s = json.loads(fresh_schema(t, v))
    for _ in range(12):
        o = G.gen_obj(rng, t, 1)
        d = to_dict(G.expected(o), "dict")
        j = S.lower(d)
        a = bool(S.errors(s, j) or ("not" in s))
        b = bool(S.root_errors(d, v))
        out.n += 1
        out.feat("exported", t, v, b)
        if a != b:
            out.viol("exported", "schema %s for version %s %s %r" % (t, v, "rejects" if a else "accepts", d), errors=S.root_errors(d, v)[:3])


def run(ctx):
    ctx.rules.append("every annotated (block, keyword, alternative), alone and nested in chains of parent blocks, for every version at, just below and just "
                     "above each minVersion / maxVersion; generated documents with faults; histories of one Validator against an independent "
                     "evaluator; exported schemas. non-trivial = distinct (slot, alternative, context), (version, history step).")
    d_layer.run(ctx, "C09")
    slots = annotated_slots()
    ctx.extra["annotated_slots"] = len(slots)
    ctx.extra["versions"] = len(versions())
    ctx.pmap(case_slot, [s + (ctx.scale(6, 100), ctx.seed) for s in slots], secs=300, chunk=2)
    ctx.pmap(case_doc, ctx.seeds(ctx.scale(2500), "doc"), secs=60)
    ctx.pmap(case_history, ctx.seeds(ctx.scale(60), "history"), secs=120, chunk=2)
    ctx.pmap(case_exported, [(t, v, ctx.seed) for t in V.BLOCKS for v in (None, 4.0, 5.0, 6.2, 7.0, 7.6, 8.0)], secs=120, chunk=4)
    findings.probe(ctx)


def replay(v):
    print(v["message"])
    print(v["payload"])
    return 1
