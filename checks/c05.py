"""C05 surface syntax does not change meaning: equivalent texts load to equal dictionaries"""
import random
import re

from checks.common import *  # noqa: F401,F403
from vlib import d_layer, findings
from vlib import expr as X
from vlib import reader as RD

LEVEL = "exploration"


def load(text):
    return mappyfile.loads(text, expand_includes=False)


def same(base, text, out, kind, **payload):
    try:
        d = load(text)
    except Exception as ex:
        out.viol("rejected", "%s: an equivalent text is not accepted: %s" % (kind, exc_str(ex)), text=text, **payload)
        return
    m = G.diff(base, d)
    if m:
        out.viol("meaning", "%s: %s" % (kind, m), text=text, **payload)


def case_doc(arg, out):
    seed, inner = arg
    rng = random.Random(seed)
    G.INNER_QUOTES = inner
    try:
        roots = G.gen_doc(rng)
        t0 = G.render_doc(rng, roots, mode="lines")
        ts = [G.render_doc(rng, roots, mode="random", comments=True), G.render_doc(rng, roots, mode="lines", eol="\r\n")]
    finally:
        G.INNER_QUOTES = False
    for f in G.doc_features(roots):
        out.feat(*f)
    try:
        d = load(t0)
    except LarkError as ex:
        out.viol("rejected", exc_str(ex), text=t0, seed=seed)
        return
    for t in ts:
        same(d, t, out, "rendering", from_text=t0, seed=seed)
    if not out.samples:
        out.samples.append(ts[0][:400])


# ---- expressions: blanks, line breaks and comments between the tokens of an expression


def respace(rng, toks, glue=False):
    out = []
    for i, t in enumerate(toks):
        if i:
            c = rng.random()
            if c < 0.5:
                out.append(rng.choice([" ", "  ", "\t"]))
            elif c < 0.7:
                out.append(rng.choice(["\n", "\r\n  ", "\n\n"]))
            elif c < 0.8:
                out.append(" # note ( ' \" \n")
            elif c < 0.9:
                out.append(" /* ( ' \" */ ")
            else:
                out.append(" ")
        out.append(t)
    return "".join(out)


def case_expr(seed, out):
    rng = random.Random(seed)
    a = X.gen(rng, rng.randrange(1, 6))
    src = "(" + X.render(a, rng, extra=0.2) + ")"
    toks = [t[1] for t in X.tokenize(src)]
    if any(k == "re" for k, _ in X.tokenize(src)):
        return
    base = "CLASS EXPRESSION %s END" % " ".join(toks)
    try:
        d = load(base)
    except LarkError:
        return
    out.feat("expr", tuple(sorted({a[0], len(toks)}, key=str)), rng.random() < 0.5)
    same(d, "CLASS EXPRESSION %s END" % respace(rng, toks), out, "expression spacing", from_text=base)
    # the case of operator words and literals
    toks2 = [t.swapcase() if t.upper() in ("AND", "OR", "NOT") else t for t in toks]
    same(d, "CLASS EXPRESSION %s END" % " ".join(toks2), out, "operator case", from_text=base)


# ---- corpus files: re-indented, re-wrapped, commented, with other keyword case and line breaks


def retokenize(rng, toks, eol="\n", keys=None):
    """the tokens of a text written again with other separators (line structure is free in a Mapfile)"""
    parts = []
    for i, t in enumerate(toks):
        if i:
            prev = toks[i - 1]
            if t.start == prev.end:
                pass  # adjacent tokens stay adjacent
            else:
                parts.append(rng.choice([" ", "  ", eol, eol + "  ", "\t", " # c ' \" END" + eol, " /* c " + eol + " END ' */ ", eol * 3]))
        parts.append(t.text)
    return "".join(parts)


def case_file(arg, out):
    path, seed = arg
    rng = random.Random("%s %s" % (path, seed))
    try:
        text = corpus_text(path)
        base = load(text)
        toks, comments = RD.tokenize(text)
    except (LarkError, UnicodeDecodeError, RD.ReadError):
        out.count("not usable")
        return
    if any(t.cls == "expr" or "\n" in t.text or "\r" in t.text for t in toks) and rng.random() < 0.5:
        pass
    if text.startswith("\ufeff"):
        return
    # words, bindings and expressions that touch their neighbours are one token for the lexer: leave such files
    for a, b in zip(toks, toks[1:]):
        if a.end == b.start:
            out.count("adjacent tokens")
            return
    out.feat("file", path)
    for eol in ("\n", "\r\n"):
        same(base, retokenize(rng, toks, eol), out, "corpus tokens", file=path)
    # whole-line changes that keep everything else
    lines = text.split("\n")
    inner = set()
    for t in toks + comments:
        if t.eline > t.line:
            inner |= set(range(t.line, t.eline))
    new = []
    for i, l in enumerate(lines, 1):
        l0 = l
        if i not in inner and i - 1 not in inner:
            l = rng.choice(["", "  ", "\t"]) + l.strip(" \t")
            if "#" not in l and "/*" not in l and "*/" not in l:
                l = l.rstrip("\r") + rng.choice(["", " # x", " /* y */", "   "]) + ("\r" if l0.endswith("\r") else "")
            m = re.match(r"(\s*)([A-Za-z]+)(\s.*|)\Z", l, re.S)
            if m and m.group(2).lower() in KEYWORDS and i in KEYLINES(toks):
                l = m.group(1) + G.case(rng, m.group(2)) + m.group(3)
            l += rng.choice(["", "\n", "\n# c\n"]) if i < len(lines) else ""
        new.append(l)
    same(base, "\n".join(new), out, "corpus lines", file=path)


KEYWORDS = set()


def KEYLINES(toks):
    # lines that start with a keyword: the first token of the line is a word
    seen, out = set(), set()
    for t in toks:
        if t.line not in seen:
            seen.add(t.line)
            if t.cls == "word":
                out.add(t.line)
    return out


def fill():
    for t, ks in V.slots().items():
        KEYWORDS.add(t)
        KEYWORDS.update(ks)
    KEYWORDS.update(["end"])
    KEYWORDS.difference_update(["symbol", "style"])


def run(ctx):
    ctx.rules.append("the same document in several renderings (letter case of keywords, blanks, LF / CRLF, # and /* */ comments, quote kinds, bare words, "
                     "number layout), expressions re-spaced between their tokens, and the repository's .map files re-written token by token and line "
                     "by line must load to equal dictionaries. non-trivial = distinct (block, keyword, shape), expression forms, files.")
    d_layer.run(ctx, "C05")
    fill()
    ctx.pmap(case_doc, [(s, False) for s in ctx.seeds(ctx.scale(5000), "doc")])
    ctx.pmap(case_doc, [(s, True) for s in ctx.seeds(ctx.scale(2500), "inner")])
    ctx.pmap(case_expr, ctx.seeds(ctx.scale(6000), "expr"))
    ctx.pmap(case_file, [(p, ctx.seed * 100 + i) for i in range(ctx.scale(2, 12)) for p in corpus()], chunk=8)
    findings.probe(ctx)


def replay(v):
    print(v["message"])
    p = v["payload"]
    print(p.get("from_text"))
    print(p.get("text"))
    return 1
