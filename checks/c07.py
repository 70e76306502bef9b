"""C07 validation verdict equals the schema's verdict"""
import copy
import random
import re
from collections import Counter, OrderedDict

from checks.common import *  # noqa: F401,F403
from checks.c03 import objects, to_dict
from vlib import d_layer, findings
from vlib import schema as S
from vlib import wild as W

LEVEL = "exploration"
_validator = []


def validate(d, **kw):
    """the public function with the object it creates kept between calls (its purity is C12's subject)"""
    from mappyfile.validator import Validator

    if not _validator:
        _validator.append(Validator())
    return _validator[0].validate(d, **kw)


def key_case(rng, d):
    """same dictionary, other letter case of keys and string values, plus hidden keys"""
    if isinstance(d, dict):
        out = OrderedDict((G.case(rng, k) if not k.startswith("__") else k, key_case(rng, v)) for k, v in dict.items(d))
        if rng.random() < 0.3 and "__type__" in d:
            out[rng.choice(["__foo__", "__position__", "__comments__"])] = rng.choice([{}, "x", 5, [1]]) if rng.random() < .5 else {}
        return out
    if isinstance(d, list):
        return [key_case(rng, v) for v in d]
    return G.case(rng, d) if isinstance(d, str) else d


def expected_names(d, version=None):
    j = S.lower(d)
    errs = S.root_errors(d, version)
    return {S.name_of(j, p).upper() for p, k in errs}, errs


def named(msgs):
    return {m["message"].replace("ERROR: Invalid value in ", "") for m in msgs}


def check(d, out, version=None, **payload):
    try:
        want, errs = expected_names(d, version)
    except RecursionError:
        return
    before = repr(d)
    try:
        msgs = validate(d, version=version) if version is not None else validate(d)
    except Exception as ex:
        out.viol("validate-raises", exc_str(ex), dictionary=before[:2500], version=version, **payload)
        return
    if repr(d) != before:
        out.viol("modified", "validate changed the dictionary", dictionary=before[:2500], **payload)
    if bool(msgs) != bool(errs):
        out.viol("verdict", "%d messages, the schema finds %d violations: %s / %s" % (len(msgs), len(errs), msgs[:3], errs[:3]),
                 dictionary=before[:2500], version=version, **payload)
    elif named(msgs) != want:
        out.viol("naming", "messages name %r, the violations are in %r" % (sorted(named(msgs)), sorted(want)),
                 dictionary=before[:2500], version=version, **payload)
    elif len(msgs) < len({p for p, k in errs}):
        out.viol("missing-message", "%d messages for %d violating places" % (len(msgs), len({p for p, k in errs})),
                 dictionary=before[:2500], version=version, **payload)
    return errs


WRONG = ["zzz", -99999, 99999999, 1.5, True, False, [], [1, 2, 3], [1], ["a", "b"], {}, {"a": 1}, None, "", "#ff0000", "[a]", "(1)", [-1, 0, 256],
         [1.5, 2], "on", "ON", "Yes", 0, 1, "TRUE", [[1, 2]], [[1, "a"]], "/x/", ["[a]", 3], -1, "É"]


def inject(rng, root):
    o = rng.choice(objects(root))
    c = rng.random()
    sl = V.slots().get(str(dict.get(o, "__type__")).lower(), {})
    ks = [k for k in dict.keys(o) if not k.startswith("__")]
    if c < 0.35 and ks:
        k = rng.choice(ks)
        dict.__setitem__(o, k, copy.deepcopy(rng.choice(WRONG))) if not isinstance(o, OrderedDict) else o.__setitem__(k, copy.deepcopy(rng.choice(WRONG)))
        return "value"
    if c < 0.6 and sl:
        o[rng.choice(list(sl))] = copy.deepcopy(rng.choice(WRONG))
        return "new"
    if c < 0.75:
        o[rng.choice(["foo", "x y", "__bar", "bar__", "TYPE_", "class", "layer", "points", "name"])] = copy.deepcopy(rng.choice(WRONG))
        return "unknown"
    if c < 0.85 and "type" in o:
        del o["type"]
        return "missing"
    if c < 0.9:
        o["__type__"] = rng.choice(["foo", "class", "layer", "LAYER", "map"]) if o is not root else o["__type__"]
        return "type"
    for k in ks:
        v = dict.get(o, k)
        if isinstance(v, list) and v:
            v[rng.randrange(len(v))] = copy.deepcopy(rng.choice(WRONG))
            return "item"
    return "none"


def case_doc(seed, out):
    rng = random.Random(seed)
    roots = G.gen_doc(rng)
    c = rng.random()
    if c < 0.5:
        d = mappyfile.loads(G.render_doc(rng, roots, mode="lines"), include_position=rng.random() < 0.2, include_comments=rng.random() < 0.2)
    else:
        d = to_dict(G.expected_doc(roots), rng.choice(["ci", "od", "dict"]))
    ds = d if isinstance(d, list) else [d]
    labels = []
    for x in ds:
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            if objects(x):
                labels.append(inject(rng, x))
    for x in ds:
        errs = check(x, out, labels=labels)
        for p, k in errs or []:
            out.feat(k, str(dict.get(x, "__type__")), S.name_of(S.lower(x), p))
    if isinstance(d, list):
        one = [m for x in d for m in validate(x)]
        if validate(d) != one:
            out.viol("list", "a list of roots is judged differently from its items", dictionary=repr(d)[:2000])
    # letter case and hidden keys are ignored
    v = key_case(rng, d)
    a = [sorted((m["message"].upper(), ) for m in validate(x)) for x in ds]
    try:
        b = [sorted((m["message"].upper(), ) for m in validate(x)) for x in (v if isinstance(v, list) else [v])]
    except Exception as ex:
        out.viol("validate-raises", exc_str(ex), dictionary=repr(v)[:2500])
        return
    if a != b:
        out.viol("case", "letter case or hidden keys change the verdict: %r / %r" % (a, b), dictionary=repr(v)[:2500], plain=repr(d)[:2500])
    if not out.samples:
        out.samples.append(repr(d)[:300])


def case_slot(arg, out):
    """every keyword with every wrong value, alone in its object and nested in a parent"""
    t, k = arg
    for w in WRONG:
        for nest in (False, True):
            d = {"__type__": t, k: copy.deepcopy(w)}
            if t == "layer":
                d["type"] = "point"
                d[k] = copy.deepcopy(w)
            if nest:
                p = next((p for p in V.BLOCKS if any(c == t for c, _ in V.children(p))), None)
                if not p:
                    continue
                d = {"__type__": p, (V.PLURALS[t] if t not in V.SINGLETONS else t): ([d] if t not in V.SINGLETONS else d)}
            errs = check(d, out, slot=[t, k])
            out.feat(t, k, bool(errs), nest)
            out.n += 1


def case_create(arg, out):
    t, v = arg
    d = mappyfile.create(t, version=v)
    check(d, out, created=t)
    check(d, out, version=v, created=t)
    out.feat("create", t, v)


def case_public(seed, out):
    """the public function itself"""
    rng = random.Random(seed)
    d = mappyfile.loads(G.render_doc(rng, G.gen_doc(rng), mode="lines"))
    if mappyfile.validate(d) != validate(d):
        out.viol("public", "mappyfile.validate differs from Validator.validate", dictionary=repr(d)[:2000])


def case_wild(seed, out):
    rng = random.Random(seed)
    try:
        d = mappyfile.loads(W.doc(rng), expand_includes=False)
    except LarkError:
        return
    for x in d if isinstance(d, list) else [d]:
        check(x, out)


def case_file(path, out):
    try:
        d = mappyfile.loads(corpus_text(path), expand_includes=False)
    except (LarkError, UnicodeDecodeError):
        return
    out.feat("file", path)
    for x in d if isinstance(d, list) else [d]:
        check(x, out, file=path)


def run(ctx):
    ctx.rules.append("valid and fault-injected dictionaries (wrong types, ranges, enumerations, unknown / missing keywords, wrong nesting, every keyword "
                     "with %d wrong values) are judged by an independent evaluator of the JSON schemas; verdict, named keywords, letter case, hidden "
                     "keys and lists of roots compared. non-trivial = distinct (violation kind, object, keyword)." % len(WRONG))
    d_layer.run(ctx, "C07")
    ctx.pmap(case_doc, ctx.seeds(ctx.scale(6000), "doc"))
    ctx.pmap(case_slot, [(t, k) for t, ks in V.slots().items() for k in ks])
    ctx.pmap(case_wild, ctx.seeds(ctx.scale(1500), "wild"))
    ctx.pmap(case_create, [(t, v) for t in V.BLOCKS + ["symbolset"] for v in (None, 4.0, 5.0, 6.0, 6.4, 7.0, 7.6, 8.0, 8.4)], chunk=4, secs=60)
    ctx.pmap(case_file, corpus(), chunk=8)
    ctx.pmap(case_public, ctx.seeds(ctx.scale(24), "public"))
    findings.probe(ctx)


def replay(v):
    print(v["message"])
    print(v["payload"])
    return 1
