"""C06 formatting options never change content"""
import copy
import itertools
import random

from checks.common import *  # noqa: F401,F403
from checks.c01 import reserved_key
from vlib import d_layer, findings
from vlib import roundtrip as R
from vlib import wild as W

LEVEL = "exploration"
FULL = [dict(zip(("indent", "spacer", "quote", "newlinechar", "end_comment", "align_values", "separate_complex_types"), v))
        for v in itertools.product((0, 1, 2, 4, 8), (" ", "\t"), ('"', "'"), ("\n", "\r\n"), (False, True), (False, True), (False, True))]


def usable(d):
    return not R.excluded(d, '"') and not R.excluded(d, "'") and not reserved_key(d) and not R.unknown_in_symbol(d)


def block_valued(k, v):
    if isinstance(v, dict):
        return True
    if isinstance(v, list) and v and isinstance(v[0], dict):
        return True
    return k in ("projection", "points", "pattern")


def partition_ok(base, sep, path="$"):
    """sep has the keys of base, simple ones first, the order inside both groups kept (CONFIG may count as either)"""
    if isinstance(base, dict):
        kb = [k for k in dict.keys(base)]
        ks = [k for k in dict.keys(sep)]
        if sorted(kb) != sorted(ks):
            return "%s: keys %r became %r" % (path, kb, ks)

        def group(keys, d, config):
            a = [k for k in keys if not (block_valued(k, d[k]) if k != "config" else config)]
            return a + [k for k in keys if k not in a]

        t = [k for k in kb if k == "__type__"]
        rest = [k for k in kb if k != "__type__"]
        opts = [t + group(rest, base, c) for c in (True, False)]
        if [k for k in ks if k != "__type__"] not in [o[len(t):] for o in opts]:
            return "%s: key order %r became %r" % (path, kb, ks)
        for k in kb:
            r = partition_ok(base[k], sep[k], path + "." + k)
            if r:
                return r
        return None
    if isinstance(base, list):
        if not isinstance(sep, list) or len(base) != len(sep):
            return "%s: %r became %r" % (path, base, sep)
        for i, (x, y) in enumerate(zip(base, sep)):
            r = partition_ok(x, y, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    return None if type(base) is type(sep) and base == sep else "%s: %r became %r" % (path, base, sep)


def check(d, opts, default, out, **payload):
    try:
        t = mappyfile.dumps(copy.deepcopy(d), **opts)
        e = mappyfile.loads(t, expand_includes=False)
    except Exception as ex:
        out.viol("option-fails", "%r: %s" % (opts, exc_str(ex)), opts=opts, dictionary=repr(d)[:2000], **payload)
        return
    m = partition_ok(default, e) if opts.get("separate_complex_types") else G.diff(default, e)
    if m:
        out.viol("content", "%r: %s" % (opts, m), opts=opts, written=t, dictionary=repr(d)[:2000], **payload)


def default_of(d):
    try:
        return mappyfile.loads(mappyfile.dumps(copy.deepcopy(d)), expand_includes=False)
    except Exception:
        return None


def case_doc(arg, out):
    seed, n, inner = arg
    rng = random.Random(seed)
    G.INNER_QUOTES = inner
    try:
        roots = G.gen_doc(rng)
    finally:
        G.INNER_QUOTES = False
    text = G.render_doc(rng, roots, mode="lines")
    d = mappyfile.loads(text)
    if not usable(d):
        out.count("known class")
        return
    base = default_of(d)
    if base is None:
        return
    for opts in rng.sample(FULL, n):
        out.feat(*sorted(opts.items()), str(roots[0].type))
        check(d, opts, base, out, source=text)
    if not out.samples:
        out.samples.append(text[:300])


def case_wild(seed, out):
    rng = random.Random(seed)
    text = W.doc(rng)
    try:
        d = mappyfile.loads(text, expand_includes=False)
    except LarkError:
        return
    if not usable(d):
        return
    base = default_of(d)
    if base is None:
        return
    for opts in rng.sample(FULL, 4):
        check(d, opts, base, out, source=text)


def case_file(path, out):
    try:
        text = corpus_text(path)
        d = mappyfile.loads(text, expand_includes=False)
    except (LarkError, UnicodeDecodeError):
        return
    if not usable(d):
        return
    base = default_of(d)
    if base is None:
        return
    rng = random.Random(path)
    out.feat("file", path)
    for opts in rng.sample(FULL, 6) + [{"separate_complex_types": True}, {"align_values": True}]:
        check(d, opts, base, out, file=path)


def case_edge(i, out):
    """long keywords, wide indents, many keys: alignment and indentation keep a blank between keyword and value"""
    rng = random.Random(i)
    d = {"__type__": "layer"}
    for _ in range(rng.randrange(1, 6)):
        n = rng.randrange(1, 20)
        d["k" + "x" * n] = rng.choice(["a b", 5, 1.5, "[b]", "(1 = 1)", True, "END", "#fff"])
    if rng.random() < 0.5:
        d["metadata"] = {"__type__": "metadata", "k" + "y" * rng.randrange(0, 30): "v w"}
    base = default_of(d)
    for opts in ({"indent": k, "spacer": s, "align_values": True} for k in (0, 1, 2, 3, 4, 5, 7, 16) for s in (" ", "\t")):
        check(d, opts, base, out)
        out.feat("edge", opts["indent"], opts["spacer"], i % 50)


def run(ctx):
    ctx.rules.append("dictionaries of generated documents, random keyword/value documents and the repository's .map files are written with samples of "
                     "the 320 option combinations; the reloaded dictionary must equal the one of the default formatting, or be its stable "
                     "partition under separate_complex_types. non-trivial = distinct (options, root type), files.")
    d_layer.run(ctx, "C06")
    ctx.pmap(case_doc, [(s, 10, False) for s in ctx.seeds(ctx.scale(1500), "doc")])
    ctx.pmap(case_doc, [(s, 10, True) for s in ctx.seeds(ctx.scale(500), "inner")])
    ctx.pmap(case_doc, [(s, len(FULL), False) for s in ctx.seeds(ctx.scale(16), "full")], secs=120, chunk=1)
    ctx.pmap(case_wild, ctx.seeds(ctx.scale(1500), "wild"))
    ctx.pmap(case_file, corpus(), chunk=8, secs=60)
    ctx.pmap(case_edge, range(ctx.scale(150)))
    findings.probe(ctx)


def replay(v):
    print(v["message"])
    print(v["payload"])
    return 1
