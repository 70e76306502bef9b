"""C02 text -> dictionary contract: independent renderer knows the expected dictionary"""
import random

from checks.common import *  # noqa: F401,F403
from vlib import d_layer, findings

LEVEL = "exploration"


def types_ok(d, path="$"):
    """every object is a Mapfile dictionary, keys lower case"""
    if isinstance(d, dict):
        if type(d).__name__ != "CaseInsensitiveOrderedDict":
            return "%s is a %s" % (path, type(d).__name__)
        for k, v in dict.items(d):
            if k != k.lower():
                return "%s has the key %r" % (path, k)
            r = types_ok(v, path + "." + k)
            if r:
                return r
    elif isinstance(d, list):
        for i, v in enumerate(d):
            r = types_ok(v, "%s[%d]" % (path, i))
            if r:
                return r
    return None


def check(roots, text, out, **payload):
    try:
        d = mappyfile.loads(text, expand_includes=False)
    except Exception as ex:
        out.viol("rejected", "a valid Mapfile is not accepted: %s" % exc_str(ex), text=text, **payload)
        return
    m = G.diff(G.expected_doc(roots), d) or types_ok(d)
    if m:
        out.viol("contract", m, text=text, **payload)


def case(arg, out):
    seed, inner = arg
    rng = random.Random(seed)
    G.INNER_QUOTES = inner
    try:
        roots = G.gen_doc(rng)
        for f in G.doc_features(roots):
            out.feat(*f)
        text = G.render_doc(rng, roots, mode=rng.choice(["lines", "random", "random"]), comments=rng.random() < 0.3)
    finally:
        G.INNER_QUOTES = False
    check(roots, text, out, seed=seed, inner=inner)
    if not out.samples:
        out.samples.append(text[:400])


def dense_docs():
    """every (block, keyword, alternative) as the only, the first and the last keyword; repeated keys; nested blocks"""
    for t, ks in V.slots().items():
        for k, alts in ks.items():
            for n, (shape, leaf) in enumerate(alts):
                yield (t, k, n)


def case_dense(arg, out):
    t, k, n, salt = arg
    rng = random.Random(repr(arg))
    shape, leaf = V.slots()[t][k][n]
    if k == "include" or (t == "symbol" and k == "symbol"):
        return
    for rep in range(2):
        items = []
        for _ in range(1 + rep * 2):
            it = G.gen_item(rng, t, k, shape, leaf, 1)
            if it is None or (it.kind == "points" and items and t == "symbol"):
                continue
            items.append(it)
        o = G.Obj(t, items)
        roots = [o]
        if t != "symbolset" and rng.random() < 0.5:
            parent = rng.choice([p for p in V.BLOCKS if any(c == t for c, _ in V.children(p))] or ["map"])
            roots = [G.Obj(parent, [G.Item("obj", t, obj=o)])]
        text = G.render_doc(rng, roots, mode=rng.choice(["lines", "random"]))
        out.feat(t, k, shape, rep)
        check(roots, text, out, slot=[t, k, shape])


def run(ctx):
    ctx.rules.append("documents are generated together with the dictionary the documentation promises for them, rendered with random "
                     "letter case, layout, quotes and number spellings, and loaded; non-trivial = distinct (block, keyword, value shape).")
    d_layer.run(ctx, "C02")
    ctx.pmap(case, [(s, False) for s in ctx.seeds(ctx.scale(5000), "doc")])
    ctx.pmap(case, [(s, True) for s in ctx.seeds(ctx.scale(5000), "inner")])
    for salt in range(ctx.scale(2, 20)):
        ctx.pmap(case_dense, [a + (salt + ctx.seed * 1000,) for a in dense_docs()])
    findings.probe(ctx)


def replay(v):
    p = v["payload"]
    print(v["message"])
    try:
        print(mappyfile.loads(p["text"], expand_includes=False))
    except Exception as ex:
        print(exc_str(ex))
    return 1
