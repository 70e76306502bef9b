"""C04 formatting is a deterministic normal form"""
import copy
import random
import subprocess
import sys

from checks.common import *  # noqa: F401,F403
from checks.c01 import options, reserved_key
from vlib import d_layer, findings
from vlib import roundtrip as R
from vlib import wild as W

LEVEL = "exploration"


def all_options(rng):
    o = options(rng)
    if rng.random() < 0.3:
        o["separate_complex_types"] = True
    return o


def check_text(text, opts, out, **payload):
    try:
        d = mappyfile.loads(text, expand_includes=False)
    except LarkError:
        return None
    return check_dict(d, opts, out, source=text, **payload)


def check_dict(d, opts, out, **payload):
    if R.excluded(d, opts.get("quote", '"')) or reserved_key(d) or (opts.get("separate_complex_types") and R.unknown_in_symbol(d)):
        out.count("known class")
        return None
    try:
        d0 = copy.deepcopy(d)
        t = mappyfile.dumps(d, **opts)
        again = mappyfile.dumps(d0, **opts)
    except Exception as ex:
        out.viol("dumps-fails", exc_str(ex), opts=opts, **payload)
        return None
    if again != t:
        out.viol("not-deterministic", "two calls with equal dictionaries differ", first=t, second=again, opts=opts, **payload)
        return None
    try:
        d1 = mappyfile.loads(t, expand_includes=False)
        if R.excluded(d1, opts.get("quote", '"')):
            return t
        t2 = mappyfile.dumps(copy.deepcopy(d1), **opts)
    except Exception as ex:
        out.viol("reformat-fails", exc_str(ex), written=t, opts=opts, **payload)
        return None
    if t2 != t:
        out.viol("not-idempotent", first_diff(t, t2), first=t, second=t2, opts=opts, **payload)
        return None
    m = G.diff(d1, mappyfile.loads(t2, expand_includes=False))
    if m:
        out.viol("reload", m, first=t, opts=opts, **payload)
    return t


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a.split("\n"), b.split("\n"))):
        if x != y:
            return "line %d: %r became %r" % (i + 1, x, y)
    return "different lengths: %d and %d" % (len(a), len(b))


def case_doc(arg, out):
    seed, inner = arg
    rng = random.Random(seed)
    G.INNER_QUOTES = inner
    try:
        roots = G.gen_doc(rng)
        texts = [G.render_doc(rng, roots, mode=rng.choice(["lines", "random"])) for _ in range(2)]
    finally:
        G.INNER_QUOTES = False
    for f in G.doc_features(roots):
        out.feat(*f)
    opts = all_options(rng)
    a = check_text(texts[0], opts, out, seed=seed)
    if a is None:
        return
    # another rendering of the same dictionary is printed the same
    d = mappyfile.loads(texts[0])
    d2 = mappyfile.loads(texts[1])
    if G.diff(d, d2) is None:
        b = mappyfile.dumps(d2, **opts)
        if a != b:
            out.viol("not-deterministic", first_diff(a, b), first=a, second=b, texts=texts, opts=opts)
    if not out.samples:
        out.samples.append(a[:300])


def case_wild(seed, out):
    rng = random.Random(seed)
    text = W.doc(rng)
    out.feat("wild", hash(text))
    check_text(text, all_options(rng), out, seed=seed)


def case_file(path, out):
    try:
        text = corpus_text(path)
    except UnicodeDecodeError:
        return
    out.feat("file", path)
    for opts in ({}, {"quote": "'"}, {"align_values": True, "indent": 2, "end_comment": True}):
        check_text(text, opts, out, file=path)


SCRIPT = """
import sys, json, hashlib, copy, logging
logging.disable(50)
sys.path.insert(0, %r); sys.path.insert(0, %r)
from vlib import fast; fast.install()
import mappyfile
for n, (text, opts) in enumerate(json.load(sys.stdin)):
    print(json.dumps(mappyfile.dumps(mappyfile.loads(text), **opts)))
"""


def processes(ctx, n):
    """the text does not depend on the hash seed of the process"""
    import json
    import os

    rng = ctx.rng("processes")
    docs = []
    while len(docs) < n:
        text = G.render_doc(rng, G.gen_doc(rng), mode="lines")
        opts = all_options(rng)
        if not R.excluded(mappyfile.loads(text), opts.get("quote", '"')):
            docs.append((text, opts))
    outs = []
    for hs in ("0", "1", "4242"):
        r = subprocess.run([sys.executable, "-B", "-c", SCRIPT % (REPO, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))],
                           input=json.dumps(docs), capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED=hs), timeout=200)
        outs.append(r.stdout.split("\n") if r.returncode == 0 else None)
    if None in outs:
        ctx.violation("dumps-fails", "formatting in another process failed", no_input=False, docs=docs[:1])
        return
    for i, d in enumerate(docs):
        ctx.evaluations += 1
        if len({o[i] for o in outs}) > 1:
            ctx.violation("not-deterministic", "the text depends on the process", text=d[0], opts=d[1])
            return


def run(ctx):
    ctx.rules.append("texts written by dumps (generated documents in two renderings, random keyword/value documents, the repository's .map files; random "
                     "options) are loaded and formatted again: byte identity, and exact equality of the reloaded dictionary; equal dictionaries in "
                     "processes with other hash seeds give equal texts. non-trivial = distinct (block, keyword, shape), wild texts, files.")
    d_layer.run(ctx, "C04")
    ctx.pmap(case_doc, [(s, False) for s in ctx.seeds(ctx.scale(4000), "doc")])
    ctx.pmap(case_doc, [(s, True) for s in ctx.seeds(ctx.scale(2000), "inner")])
    ctx.pmap(case_wild, ctx.seeds(ctx.scale(8000), "wild"))
    ctx.pmap(case_file, corpus(), chunk=8)
    processes(ctx, ctx.scale(40, 200))
    findings.probe(ctx)


def replay(v):
    print(v["message"])
    print(v["payload"])
    return 1
