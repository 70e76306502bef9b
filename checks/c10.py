"""C10 expression rewriting preserves structure"""
import itertools
import random

from checks.common import *  # noqa: F401,F403
from vlib import d_layer, findings
from vlib import expr as X

LEVEL = "exploration"
CONTEXTS = [("CLASS\nEXPRESSION %s\nEND", "expression"), ("LAYER\nFILTER %s\nEND", "filter"), ("LABEL\nTEXT %s\nEND", "text"),
            ("CLASS\nTEXT %s\nEND", "text"), ("LAYER\nGEOMTRANSFORM %s\nEND", "geomtransform"), ("LABEL\nEXPRESSION %s\nEND", "expression")]


def stored(text, ctx):
    d = mappyfile.loads(ctx[0] % text)
    v = d[ctx[1]]
    return v if isinstance(v, str) else None


def flat(s):
    """operands and operators in order, parentheses and the letter case / spelling of AND OR NOT aside"""
    out = []
    for k, t in X.tokenize(s):
        if k == "op" and t in "()":
            continue
        u = t.upper() if k in ("op", "word") else t
        if u in ("AND", "&&"):
            u = "AND"
        elif u in ("OR", "||"):
            u = "OR"
        elif u in ("NOT", "!"):
            u = "NOT"
        elif k in ("op", "word"):
            u = t
        out.append(u)
    return out


def joined(toks):
    """a sign belongs to the numeral that follows it"""
    return "\0".join(toks).replace("-\0", "-").replace("+\0", "+")


def check(src, out, tree=None, ctx=CONTEXTS[0], **payload):
    try:
        s = stored(src, ctx)
    except Exception as ex:
        out.viol("rejected", "%s: %s" % (src, exc_str(ex)), source=src, **payload)
        return
    if s is None:
        out.viol("structure", "%r is stored as something else" % src, source=src)
        return
    want = tree if tree is not None else X.parse(src)
    try:
        got = X.parse(s)
    except X.ExprError as ex:
        out.viol("structure", "%r is stored as %r: %s" % (src, s, ex), source=src)
        return
    if X.canon(got) != X.canon(want):
        out.viol("structure", "%r is stored as %r, which groups differently" % (src, s), source=src, want=repr(want), got=repr(got))
        return
    if joined(flat(s)) != joined(flat(src)):
        out.viol("spelling", "%r is stored as %r: other operands or operators" % (src, s), source=src)
        return
    if any(t in ("&&", "||", "!") for k, t in X.tokenize(s)):
        out.viol("spelling", "%r is stored as %r" % (src, s), source=src)
        return
    try:
        s2 = stored(s, ctx)
    except Exception as ex:
        out.viol("reparse", "%r is stored as %r, which is not accepted: %s" % (src, s, exc_str(ex)), source=src)
        return
    if s2 != s:
        out.viol("reparse", "%r is stored as %r, which is read as %r" % (src, s, s2), source=src)
        return
    return s


def printed(src, ctx, s, out):
    try:
        text = mappyfile.dumps(mappyfile.loads(ctx[0] % src))
    except Exception as ex:
        out.viol("printed", exc_str(ex), source=src)
        return
    if s not in text or ('"' + s + '"') in text:
        out.viol("printed", "%r is printed as %r" % (s, text), source=src)


KINDS = [("or",), ("and",), ("not",), ("neg",)] + [("cmp", o) for o in ("=", ">=", "LIKE")] + [("bin", o) for o in "+-*/^%"]


def shapes(n):
    """all expression shapes with n operators (leaf = None)"""
    if n == 0:
        yield None
        return
    for k in KINDS:
        if k[0] in ("not", "neg"):
            for a in shapes(n - 1):
                yield k + (a,)
        else:
            for i in range(n):
                for a in shapes(i):
                    for b in shapes(n - 1 - i):
                        yield k + (a, b)


LEAVES = [("bind", "[a]"), ("num", "1"), ("str", "'x y'"), ("bind", "[b_2]"), ("num", "2.50"), ("str", '"q"'), ("call", "f", (("bind", "[c]"), ("num", "3"))),
          ("num", "007"), ("bind", "[d]")]


def fill(s, it):
    if s is None:
        return next(it)
    n = 2 if s[0] in ("cmp", "bin") else 1
    return s[:n] + tuple(fill(x, it) for x in s[n:])


def writable(a):
    """forms the grammar of the property can express without a regular expression or list where a comparison is required"""
    return True


def case_shapes(arg, out):
    chunk, seed = arg
    rng = random.Random(seed)
    for sh in chunk:
        leaves = LEAVES[:]
        rng.shuffle(leaves)
        a = fill(sh, itertools.cycle(leaves))
        src = "(" + X.render(a) + ")"
        out.n += 1
        out.feat(repr(sh))
        check(src, out, tree=a)
        src = "(" + X.render(a, rng, extra=0.3) + ")"
        check(src, out, tree=a)
    if not out.samples:
        out.samples.append(src)


def case_random(seed, out):
    rng = random.Random(seed)
    a = X.gen(rng, rng.randrange(0, 12))
    src = "(" + X.render(a, rng, extra=rng.choice([0, 0.2, 0.5])) + ")"
    ctx = rng.choice(CONTEXTS)
    out.feat("random", a[0], len(src) // 20, ctx[1])
    s = check(src, out, tree=a, ctx=ctx)
    if s:
        printed(src, ctx, s, out)


def case_verbatim(seed, out):
    """list expressions, regular expressions, function calls and attribute bindings keep their elements"""
    rng = random.Random(seed)
    kind = rng.choice(["list", "regex", "call", "bind", "not"])
    out.feat("verbatim", kind, seed % 40)
    el = lambda: rng.choice(["a", "abc", "a b", "1", "12", "x-y", "two words", "é", "007", "1.50", "a_b:c"])
    if kind == "list":
        els = [el() for _ in range(rng.randrange(1, 5))]
        src = "{" + ",".join(els) + "}"
        for ctx in CONTEXTS[:2]:
            s = stored(src, ctx)
            if s != src:
                out.viol("verbatim", "%r is stored as %r" % (src, s), source=src)
            printed(src, ctx, s, out)
        src = "([a] IN %s)" % rng.choice(["'a,b'", '"x"', "{%s}" % ",".join(els)])
        check(src, out)
    elif kind == "regex":
        body = "".join(rng.choice(["a", "[0-9]", "^", "$", ".*", "(x|y)", "\\d", " ", "é", "\"", "'", "#", "{2}", ","]) for _ in range(rng.randrange(1, 6)))
        if body.startswith("*") or body.startswith(".*"):
            body = "x" + body
        src = "/" + body + "/" + rng.choice(["", "i"])
        s = stored(src, CONTEXTS[0])
        if s != src:
            out.viol("verbatim", "%r is stored as %r" % (src, s), source=src)
        printed(src, CONTEXTS[0], s, out)
        src2 = "(%s %s %s)" % (rng.choice(["[a]", "'[a]'", "\"[a]\""]), rng.choice(["~", "~*"]), "/" + body.replace("/", "") + "/")
        s = stored(src2, CONTEXTS[0])
        if s is None or src2[1:-1].split(" ", 2)[2] not in s or stored(s, CONTEXTS[0]) != s:
            out.viol("verbatim", "%r is stored as %r" % (src2, s), source=src2)
    elif kind == "call":
        args = [rng.choice(["[a]", "'x,y'", '"%.2f"', "1", "2.50", "-3", "[shape]", "'a b'"]) for _ in range(rng.randrange(1, 4))]
        call = "%s(%s)" % (rng.choice(["tostring", "f", "round", "buffer"]), ",".join(args))
        src = "(%s)" % call
        s = check(src, out)
        if s and s.replace("(", "").replace(")", "") != call.replace("(", "").replace(")", ""):
            out.viol("verbatim", "%r is stored as %r" % (src, s), source=src)
        src = "(%s = 1 AND %s > [z])" % (call, call)
        s = check(src, out)
        if s and s.count(call) != 2:
            out.viol("verbatim", "%r is stored as %r" % (src, s), source=src)
    elif kind == "bind":
        b = "[%s]" % rng.choice(["a", "ITEM", "a_b", "ms:x", "x-y", "é1", "1"])
        s = stored(b, ("LABEL\nTEXT %s\nEND", "text"))
        if s != b:
            out.viol("verbatim", "%r is stored as %r" % (b, s), source=b)
        check("(%s = 1)" % b, out)
    else:
        a = X.gen(rng, rng.randrange(0, 4))
        src = rng.choice(["NOT ", "! ", "not ", "!"]) + "(" + X.render(a, rng) + ")"
        s = check(src, out, tree=("not", a))
        if s and not s.startswith("NOT "):
            out.viol("spelling", "%r is stored as %r" % (src, s), source=src)


def case_file(path, out):
    """expressions of the repository's files"""
    from vlib import reader as RD

    try:
        toks, _ = RD.tokenize(corpus_text(path))
    except (UnicodeDecodeError, RD.ReadError):
        return
    for t in toks:
        if t.cls != "expr":
            continue
        try:
            want = X.parse(t.text)
            stored(t.text, CONTEXTS[0])
        except (X.ExprError, LarkError):
            continue
        out.feat("file", t.text)
        check(t.text, out, tree=want, file=path)


def run(ctx):
    ctx.rules.append("all expression shapes with up to %d operators (every operator class, every association), rendered with minimal and with extra "
                     "parentheses, random larger trees in six keywords, lists, regular expressions, calls and bindings, and the expressions of the "
                     "repository's files: an independent precedence parser must find the same tree in the stored string, the same operands and operators "
                     "in order, and the stored string must be read as itself. non-trivial = distinct shapes." % (4 if ctx.thorough else 3))
    d_layer.run(ctx, "C10")
    for n in range(0, 4):
        items = list(shapes(n))
        ctx.pmap(case_shapes, [(items[i:i + 40], ctx.seed * 7 + i) for i in range(0, len(items), 40)], chunk=4, secs=60)
    if ctx.thorough:
        items = list(shapes(4))
        ctx.rng("four").shuffle(items)
        items = items[:60000]
        ctx.pmap(case_shapes, [(items[i:i + 40], ctx.seed * 11 + i) for i in range(0, len(items), 40)], chunk=4, secs=60)
    ctx.pmap(case_random, ctx.seeds(ctx.scale(6000), "random"))
    ctx.pmap(case_verbatim, ctx.seeds(ctx.scale(2000), "verbatim"))
    ctx.pmap(case_file, corpus(), chunk=8)
    findings.probe(ctx)


def replay(v):
    src = v["payload"]["source"]
    from vlib.harness import Out

    o = Out()
    for c in CONTEXTS[:1]:
        check(src, o, ctx=c)
    for x in o.viols:
        print(x[1])
    return 1 if o.viols else 0
