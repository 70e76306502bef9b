"""C13 position and comment bookkeeping is transparent"""
import copy
import random

from checks.common import *  # noqa: F401,F403
from checks.c01 import options
from checks.c08 import spoil
from vlib import d_layer, findings
from vlib import reader as RD
from vlib import wild as W

LEVEL = "exploration"
COMBOS = [(False, True), (True, False), (True, True)]


def strip_hidden(x):
    """remove the two bookkeeping keys, keeping class, order and everything else"""
    if isinstance(x, dict):
        return ("dict", type(x).__name__, [(k, strip_hidden(v)) for k, v in dict.items(x) if k not in ("__position__", "__comments__")])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [strip_hidden(v) for v in x])
    return (type(x).__name__, x)


def same(a, b):
    return repr(a) == repr(b)


def has_hidden(x, key):
    if isinstance(x, dict):
        return key in x or any(has_hidden(v, key) for v in dict.values(x))
    if isinstance(x, (list, tuple)):
        return any(has_hidden(v, key) for v in x)
    return False


def without_comments(text):
    """the text with its comments cut out; lines left empty by that disappear"""
    toks, comments = RD.tokenize(text)
    out, last = [], 0
    for c in comments:
        head = text[last:c.start]
        cut = head.rstrip(" \t")
        out.append(cut)
        so_far = "".join(out)
        line_start = so_far == "" or so_far.endswith("\n")
        last = c.end - (c.text.startswith("#") and c.text.endswith("\r"))
        m = re.compile(r"[ \t]*\r?\n").match(text, last)
        if line_start and m:
            last = m.end()
    out.append(text[last:])
    return "".join(out)


import re  # noqa: E402


def check(text, out, opts=None, **payload):
    def load(p, c):
        try:
            return mappyfile.loads(text, expand_includes=False, include_position=p, include_comments=c), None
        except LarkError as ex:
            return None, (getattr(ex, "line", None), getattr(ex, "column", None))

    base, err = load(False, False)
    if base is not None and (has_hidden(base, "__position__") or has_hidden(base, "__comments__")) and "__" not in text:
        out.viol("hidden", "a plain load has bookkeeping keys", text=text)
    for p, c in COMBOS:
        d, e = load(p, c)
        if (d is None) != (base is None):
            out.viol("accepted", "include_position=%s include_comments=%s: accepted %s, plain load %s (%s)" % (p, c, d is not None, base is not None, e or err),
                     text=text, **payload)
            return None
        if d is None:
            if e != err:
                out.viol("accepted", "include_position=%s include_comments=%s: rejected at %r, plain load at %r" % (p, c, e, err), text=text)
            continue
        a, b = strip_hidden(base), strip_hidden(d)
        if not same(a, b):
            out.viol("content", "include_position=%s include_comments=%s: %s" % (p, c, G.diff(G.plain(base), G.plain(strip2(d))) or "type or order differs"),
                     text=text, **payload)
            return None
        if opts is None:
            continue
        try:
            t0 = mappyfile.dumps(copy.deepcopy(base), **opts)  # separate_complex_types reorders its argument
        except Exception:
            t0 = None
        try:
            t = mappyfile.dumps(d, **opts)
        except Exception as ex:
            t = None
            if t0 is not None:
                out.viol("printed", "include_position=%s include_comments=%s: dumps raised %s" % (p, c, exc_str(ex)), text=text, opts=opts, **payload)
                return None
        if t0 is None or t is None:
            continue
        if not c:
            if t != t0:
                out.viol("printed", "include_position changes the text", text=text, opts=opts, plain=t0, printed=t, **payload)
                return None
        else:
            try:
                x, y = without_comments(t), without_comments(t0)
            except RD.ReadError:
                out.count("unreadable")
                continue
            if x != y:
                out.viol("printed", "include_comments changes more than comments", text=text, opts=opts, plain=t0, printed=t, **payload)
                return None
            if "__position__" in t and "__position__" not in t0:
                out.viol("printed", "__position__ is printed", text=text, printed=t)
    return base


def strip2(x):
    if isinstance(x, dict):
        return {k: strip2(v) for k, v in dict.items(x) if k not in ("__position__", "__comments__")}
    if isinstance(x, (list, tuple)):
        return [strip2(v) for v in x]
    return x


def opt(rng):
    o = options(rng)
    o.pop("end_comment", None)
    if rng.random() < 0.2:
        o["separate_complex_types"] = True
    return o


def case_doc(seed, out):
    rng = random.Random(seed)
    roots = G.gen_doc(rng)
    for r in roots:
        if r.type not in V.KVBLOCKS and rng.random() < 0.3:
            spoil(rng, r)
    for f in G.doc_features(roots):
        out.feat(*f)
    text = G.render_doc(rng, roots, mode=rng.choice(["lines", "random", "random"]), comments=rng.random() < 0.7)
    check(text, out, opt(rng), seed=seed)
    if not out.samples:
        out.samples.append(text[:300])


def case_comments(seed, out):
    from checks import c14

    rng = random.Random(seed)
    text, _, _ = c14.make(rng)
    out.feat("comments", hash(text))
    check(text, out, opt(rng), seed=seed)


def case_wild(seed, out):
    rng = random.Random(seed)
    text = W.doc(rng)
    out.feat("wild", hash(text))
    check(text, out, None)


def case_soup(seed, out):
    from checks import c11

    rng = random.Random(seed)
    text = " ".join(rng.choice(c11.WORDS) if rng.random() < 0.7 else rng.choice(["'a'", "1", "# c\n", "/* d */", "(1 = 1)", "[x]", "\n", "END", "1 2"]) for _ in range(rng.randrange(2, 14)))
    out.feat("soup", hash(text))
    check(text, out, None)


def case_file(path, out):
    try:
        text = corpus_text(path)
    except UnicodeDecodeError:
        return
    out.feat("file", path)
    check(text, out, {}, file=path)
    check(text, out, {"align_values": True, "indent": 2, "quote": "'"}, file=path)


def run(ctx):
    ctx.rules.append("documents (generated, with comments in every place, random keyword/value documents, token soups, the repository's files) loaded with "
                     "the four combinations of include_position / include_comments: same acceptance, same dictionary (class, order, types) once the two "
                     "hidden keys are removed, same printed text once comments are cut out. non-trivial = distinct (block, keyword, shape), texts.")
    d_layer.run(ctx, "C13")
    ctx.pmap(case_doc, ctx.seeds(ctx.scale(3000), "doc"))
    ctx.pmap(case_comments, ctx.seeds(ctx.scale(2500), "comments"))
    ctx.pmap(case_wild, ctx.seeds(ctx.scale(2500), "wild"))
    ctx.pmap(case_soup, ctx.seeds(ctx.scale(4000), "soup"))
    ctx.pmap(case_file, corpus(), chunk=8)
    findings.probe(ctx)


def replay(v):
    print(v["message"])
    print(v["payload"].get("text"))
    return 1
