"""C01 parse -> print -> parse preserves content (bounded layer; contracts in contracts/)"""
import random

from checks.common import *  # noqa: F401,F403
from vlib import roundtrip as R
from vlib import wild as W
from vlib import d_layer

LEVEL = "exploration"


def options(rng):
    if rng.random() < 0.4:
        return {}
    return dict(indent=rng.choice([0, 1, 2, 4, 8]), spacer=rng.choice([" ", "\t"]), newlinechar=rng.choice(["\n", "\r\n"]),
                quote=rng.choice('"\''), end_comment=rng.random() < 0.3, align_values=rng.random() < 0.3)


def check_text(text, opts, out, tag, **payload):
    try:
        d = mappyfile.loads(text, expand_includes=False)
    except LarkError:
        out.count(tag + " rejected")
        return None
    exc = R.excluded(d, opts.get("quote", '"'))
    out.count(tag + " accepted")
    try:
        o = mappyfile.dumps(d, **opts)
    except Exception as ex:
        if exc:
            return None
        out.viol("dumps-fails", "dumps of a loaded dictionary raised %s" % exc_str(ex), text=text, opts=opts, **payload)
        return None
    try:
        d2 = mappyfile.loads(o, expand_includes=False)
    except Exception as ex:
        if exc:
            out.count("known class " + exc)
            return None
        out.viol("reload-fails", "the written text is not accepted: %s" % exc_str(ex), text=text, written=o, opts=opts, **payload)
        return None
    m = R.compare(d, d2)
    if m:
        if exc or reserved_key(d):
            out.count("known class " + str(exc))
            return None
        out.viol("roundtrip", m, text=text, written=o, opts=opts, **payload)
    return d


def reserved_key(d):
    """keys of the form __x__ written in a METADATA block are never printed (C03)"""
    if isinstance(d, list):
        return any(map(reserved_key, d))
    if isinstance(d, dict):
        return any((k.startswith("__") and k.endswith("__") and k not in ("__type__",)) or reserved_key(v) for k, v in dict.items(d))
    return False


def case_doc(seed, out):
    rng = random.Random(seed)
    roots = G.gen_doc(rng)
    text = G.render_doc(rng, roots, mode=rng.choice(["lines", "random"]), comments=rng.random() < 0.3)
    for f in G.doc_features(roots):
        out.feat(*f)
    d = check_text(text, options(rng), out, "generated", seed=seed)
    if not out.samples and d is not None:
        out.samples.append(text[:400])


def case_inner(seed, out):
    G.INNER_QUOTES = True
    try:
        case_doc(seed, out)
    finally:
        G.INNER_QUOTES = False


def case_wild(seed, out):
    rng = random.Random(seed)
    text = W.doc(rng)
    out.feat("wild", hash(text))
    check_text(text, options(rng), out, "wild", seed=seed)


def case_file(path, out):
    try:
        text = corpus_text(path)
    except UnicodeDecodeError:
        return
    out.feat("file", path)
    for opts in ({}, {"quote": "'"}, {"align_values": True, "indent": 2}):
        check_text(text, opts, out, "corpus", file=path)


def run(ctx):
    ctx.rules.append(
        "generated schema-directed documents, documents of random keyword/value tokens, and every .map file of the repository are loaded, "
        "written (random options) and loaded again; non-trivial = distinct (block, keyword, value shape) triples, distinct wild texts, files.")
    d_layer.run(ctx, "C01")
    ctx.pmap(case_doc, ctx.seeds(ctx.scale(2500), "doc"))
    ctx.pmap(case_inner, ctx.seeds(ctx.scale(1200), "inner"))
    ctx.pmap(case_wild, ctx.seeds(ctx.scale(6000), "wild"))
    ctx.pmap(case_file, corpus(), chunk=8)
    from vlib import findings

    findings.probe(ctx)


def replay(v):
    from vlib.harness import Out

    p = v["payload"]
    out = Out()
    check_text(p["text"], p.get("opts") or {}, out, "replay")
    for x in out.viols:
        print(x[0], x[1])
    return 1 if out.viols else 0
