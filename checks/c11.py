"""C11 any input is either parsed or rejected with a parse error, promptly"""
import random
import time

from checks.common import *  # noqa: F401,F403
from lark.exceptions import LarkError as LE, UnexpectedInput, UnexpectedToken, UnexpectedCharacters
from vlib import d_layer, findings
from vlib import expr as X
from vlib import wild as W

LEVEL = "exploration"
OPTS = [{}, {"include_position": True}, {"include_comments": True}, {"include_position": True, "include_comments": True}]


def check(text, out, opts=None, kind="", **payload):
    """True accepted / False rejected"""
    opts = opts or {}
    try:
        d = mappyfile.loads(text, expand_includes=False, **opts)
    except LE as ex:
        if isinstance(ex, (UnexpectedToken, UnexpectedCharacters)) or isinstance(ex, UnexpectedInput):
            m = located(ex, text)
            if m:
                out.viol("location", "%s: %s" % (kind, m), text=text[:3000], opts=opts, **payload)
        return False
    except Exception as ex:
        out.viol("exception", "%s: %s escapes for %r" % (kind, type(ex).__name__, text[:300]), text=text[:20000], opts=opts, error=repr(ex)[:300], **payload)
        return False
    if not (isinstance(d, dict) or (isinstance(d, list) and all(isinstance(x, dict) for x in d))):
        out.viol("result", "%s: %r is returned" % (kind, d), text=text[:3000], opts=opts, **payload)
    return True


def located(ex, text):
    line, col = getattr(ex, "line", None), getattr(ex, "column", None)
    tok = getattr(ex, "token", None)
    if tok is not None and tok.type == "$END":
        return None
    if not isinstance(line, int) or not isinstance(col, int) or line < 1 or col < 1:
        return "no line and column: %r %r" % (line, col)
    lines = text.split("\n")
    if line > len(lines):
        return "line %d of %d" % (line, len(lines))
    rest = "\n".join([lines[line - 1][col - 1:]] + lines[line:])
    if tok is not None:
        if not rest.startswith(str(tok.value)):
            return "the offending token %r is not at %d:%d" % (tok.value, line, col)
    elif not rest:
        return "nothing is at %d:%d" % (line, col)
    return None


WORDS = (V.BLOCKS + list(V.KVBLOCKS) + "points pattern projection config end END auto hilite selected include symbolset symbol style null true false".split()
         + "name type status data extent size color imagecolor font angle expression text filter classitem processing formatoption units".split())
PIECES = ["'", '"', "`", "(", ")", "[", "]", "{", "}", "/", "\\", "\\\\", "%", "#", "/*", "*/", "*", "<", ">", "=", "!", "~", "^", "+", "-", ",", ".", ";", ":",
          "1", "-1", "0.5", "1e5", "+3", ".5", "5.", "0x1", "99999999999999999999", "1e999", "'a'", '"b c"', "`2012`", "[x]", "(1 = 1)", "/re/", "/re/i", "%v%",
          "#fff", '"#ff0000"', "'#ff00ff80'", "\n", "\r\n", "\r", "\t", "\f", "\v", " ", "\0", "\ufeff", "é", "日", "\U0001F600", "\ud800", "\x85", "\u2028",
          "abc", "a.b", "a/b", "./x", "../y", "C:\\z", "http://x", "{a,b}", "{1}", "NOT", "AND", "OR", "IN", "&&", "||", "_", "-", "a-b", "a:b", "\x1b"]


def case_soup(seed, out):
    rng = random.Random(seed)
    parts = []
    for _ in range(rng.randrange(0, 25)):
        parts.append(rng.choice(WORDS) if rng.random() < 0.55 else rng.choice(PIECES))
        parts.append(rng.choice([" ", "\n", " ", "\n", ""]))
    text = "".join(parts)
    ok = check(text, out, rng.choice(OPTS), "soup")
    out.count("accepted" if ok else "rejected")
    out.feat("soup", hash(text))


def case_mutate(seed, out):
    rng = random.Random(seed)
    if rng.random() < 0.75:
        G.INNER_QUOTES = rng.random() < 0.3
        roots = G.gen_doc(rng, depth=2)
        text = G.render_doc(rng, roots, mode=rng.choice(["lines", "random"]), comments=rng.random() < 0.5)
        G.INNER_QUOTES = False
    else:
        text = W.doc(rng)
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        if not text:
            break
        c = rng.random()
        i = rng.randrange(len(text))
        j = min(len(text), i + rng.choice([1, 1, 2, 5, 20, 100]))
        if c < 0.35:
            text = text[:i] + text[j:]
        elif c < 0.6:
            text = text[:i] + rng.choice(PIECES + WORDS) + text[i:]
        elif c < 0.75:
            text = text[:i] + text[i:j] + text[i:j] + text[j:]
        elif c < 0.9:
            ws = text.split(" ")
            a, b = rng.randrange(len(ws)), rng.randrange(len(ws))
            ws[a], ws[b] = ws[b], ws[a]
            text = " ".join(ws)
        else:
            text = text[:i]
    ok = check(text, out, rng.choice(OPTS), "mutation")
    out.count("accepted" if ok else "rejected")
    out.feat("mutation", hash(text))


def case_expr(seed, out):
    rng = random.Random(seed)
    src = "(" + X.render(X.gen(rng, rng.randrange(0, 6)), rng, extra=0.3, glue=rng.choice([" ", ""])) + ")"
    toks = [src[i:i + 1] for i in range(len(src))]
    for _ in range(rng.choice([0, 1, 2])):
        i = rng.randrange(len(toks))
        toks[i] = rng.choice(["", "(", ")", "[", "]", "'", '"', "NOT ", "!", "=", "-", ",", "{", "}", "/", " ", "1"])
    text = "CLASS %s %s END" % (rng.choice(["EXPRESSION", "TEXT", "NAME", "FILTER", "SIZE"]), "".join(toks))
    out.feat("expr", hash(text))
    check(text, out, None, "expression")


def case_root(arg, out):
    """every block type alone, empty and with content"""
    t, seed = arg
    rng = random.Random("%s %s" % (t, seed))
    if t in V.KVBLOCKS:
        text = "%s %s END" % (t, "'a' 'b'" if seed % 2 else "")
    else:
        o = G.gen_obj(rng, t, 2, nkeys=[0, 1, 3, 8][seed % 4]) if t != "symbolset" else G.Obj(t)
        text = G.render_doc(rng, [o], mode=rng.choice(["lines", "random"]))
    out.feat("root", t, seed % 4)
    for opts in OPTS:
        if not check(text, out, opts, "root"):
            out.viol("root", "%s is not accepted as the root" % t, text=text)
    for body in ("%s\nEND", "%s END", "%s\r\nEND\r\n"):
        if t in V.KVBLOCKS and t == "values":
            continue
        if not check(body % t, out, None, "root"):
            out.viol("root", "an empty %s is not accepted as the root" % t, text=body % t)


FAMILIES = {
    "layers": lambda n: "MAP\n" + "LAYER\nNAME 'x'\nTYPE POINT\nEND\n" * n + "END",
    "keywords": lambda n: "LAYER\n" + "NAME 'x'\n" * (3 * n) + "END",
    "comments": lambda n: "LAYER\n" + "# comment\n" * (3 * n) + "NAME 'x'\nEND",
    "comments each": lambda n: "LAYER\n" + "PROCESSING 'x' # comment\n" * (2 * n) + "END",
    "ccomments": lambda n: "LAYER\n" + "/* c */\n" * (3 * n) + "NAME 'x'\nEND",
    "ccomment stars": lambda n: "LAYER\n/*" + "* /" * (9 * n) + "*/ END",
    "points": lambda n: "FEATURE\nPOINTS\n" + "1 2\n" * (4 * n) + "END\nEND",
    "repeated points": lambda n: "FEATURE\n" + "POINTS 1 2 3 4 END\n" * n + "END",
    "metadata": lambda n: "LAYER\nMETADATA\n" + "".join("'k%d' 'v'\n" % i for i in range(2 * n)) + "END\nEND",
    "string": lambda n: "LAYER\nNAME '" + "x" * (30 * n) + "'\nEND",
    "escapes": lambda n: 'LAYER\nNAME "' + '\\"' * (20 * n) + '"\nEND',
    "open string": lambda n: 'LAYER\nNAME "' + "x '" * (20 * n),
    "open escapes": lambda n: 'LAYER\nNAME "' + '\\"' * (20 * n),
    "open comment": lambda n: "LAYER\n/*" + "x *" * (20 * n),
    "slashes": lambda n: "LAYER\nDATA " + "/" * (20 * n) + "\nEND",
    "path": lambda n: "LAYER\nDATA " + "a/" * (20 * n) + "b\nEND",
    "dots": lambda n: "LAYER\nDATA " + "." * (20 * n) + "\nEND",
    "word": lambda n: "LAYER\nDATA " + "a" * (20 * n) + "\nEND",
    "dashes": lambda n: "LAYER\nDATA " + "-" * (20 * n) + "\nEND",
    "percent": lambda n: "LAYER\nDATA " + "%" * (20 * n) + "\nEND",
    "backslashes": lambda n: "LAYER\nDATA " + "\\" * (20 * n) + "\nEND",
    "brackets": lambda n: "LAYER\nDATA " + "[" * (20 * n) + "\nEND",
    "braces": lambda n: "LAYER\nDATA " + "{" * (20 * n) + "\nEND",
    "list": lambda n: "CLASS\nEXPRESSION {" + ",".join(["a b"] * (3 * n)) + "}\nEND",
    "or": lambda n: "CLASS\nEXPRESSION (" + " OR ".join(["[a] = 1"] * (n // 20)) + ")\nEND",
    "in": lambda n: "CLASS\nEXPRESSION ([a] IN '" + ",".join(["a"] * (10 * n)) + "')\nEND",
    "call": lambda n: "CLASS\nTEXT (f(" + ",".join(["[a]"] * (2 * n)) + "))\nEND",
    "digits": lambda n: "LAYER\nDEBUG " + "1" * min(20 * n, 4000) + "\nEND",
    "blank": lambda n: "LAYER\n" + " \n\t\r\n" * (10 * n) + "END",
    "projection": lambda n: "LAYER\nPROJECTION\n" + "'a=b'\n" * (3 * n) + "END\nEND",
    "config": lambda n: "MAP\n" + "CONFIG 'A' 'b'\n" * (2 * n) + "END",
    "styles": lambda n: "CLASS\n" + "STYLE\nCOLOR 1 2 3\nPATTERN 1 2 3 4 END\nEND\n" * n + "END",
    "roots": lambda n: "CLASS\nEND\n" * (2 * n),
    "ends": lambda n: "MAP " + "END " * (5 * n),
    "openers": lambda n: "MAP " * (5 * n),
    "nested": lambda n: "LAYER\nCLASS\nLABEL\nSTYLE\n" * (2 * n) + "END " * (8 * n),
    "nested parens": lambda n: "CLASS EXPRESSION " + "(" * (10 * n) + "1" + ")" * (10 * n) + " END",
    "open parens": lambda n: "CLASS EXPRESSION " + "(" * (10 * n),
    "nots": lambda n: "CLASS EXPRESSION (" + "NOT " * (10 * n) + "1) END",
    "negs": lambda n: "CLASS EXPRESSION (" + "-" * (10 * n) + "[a]) END",
    "calls": lambda n: "CLASS EXPRESSION " + "(f(" * (5 * n) + "1" + "))" * (5 * n) + " END",
    "crs": lambda n: "LAYER\r" + "NAME 'x'\r" * (2 * n) + "END",
}


def timed(text, opts, limit):
    t = time.process_time()
    try:
        mappyfile.loads(text, expand_includes=False, **opts)
    except LE:
        pass
    return time.process_time() - t


def case_time(arg, out):
    name, n, o = arg
    opts = OPTS[o]
    f = FAMILIES[name]
    for k in (3, 40):
        check(f(k), out, opts, name)
    check(f(n), out, opts, name)
    # growing the input four times may not cost much more than four times as much (best of two, with slack for noise)
    for attempt in range(3):
        a = min(timed(f(n), opts, 0) for _ in range(2))
        b = min(timed(f(4 * n), opts, 0) for _ in range(2))
        if b <= 4 * a * 2.2 + 0.35:
            break
    else:
        out.viol("time", "%s %r: %.2f s for %d characters, %.2f s for %d" % (name, opts, a, len(f(n)), b, len(f(4 * n))), family=name, n=n)
    out.feat("time", name, o)
    out.n += 1


OPENERS = ['"', "'", "`", "/", "/^", "\\\\", "%", "[", "{", "(", "/*", "#", "a", "1", "-", ".", "./", '"#', "f(", "{a", "('", '("', "(/", "/a/", "'a'"]
UNITS = ["\\", "a", "a ", "ab", "1", "0.", ".", "/", "_", "-", "\\'", '\\"', "\\a", "\\/", " ", "*", "%", "#", "'", '"', "''", ",", "a,", "\n", "é", ":", "`", "(", "[a]", "1 ", "\t ", "**/ "]
CLOSERS = ["", '"', "'", "^", "!", "\n", " END", "/\n", "\0"]


class Slow(BaseException):
    pass


def case_pump(arg, out):
    """an opening piece, one unit repeated, a closing piece: no combination may take long (a short text, so any time is a disproportionate one)"""
    import signal

    def over(signum, frame):
        raise Slow()

    o, n, limit = arg
    old = signal.signal(signal.SIGVTALRM, over)
    try:
        for u in UNITS:
            for c in CLOSERS:
                text = "CLASS EXPRESSION " + o + u * n + c
                signal.setitimer(signal.ITIMER_VIRTUAL, limit)
                try:
                    mappyfile.loads(text, expand_includes=False)
                except LE:
                    pass
                except Slow:
                    out.viol("time", "more than %d s for the %d characters %r + %d x %r + %r" % (limit, len(text), o, n, u, c), text=text)
                    return
                except Exception as ex:
                    out.viol("exception", "%s escapes for %r + %d x %r + %r" % (type(ex).__name__, o, n, u, c), text=text, error=repr(ex)[:300])
                finally:
                    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                out.n += 1
            out.feat("pump", o, u, n)
    finally:
        signal.signal(signal.SIGVTALRM, old)


def run(ctx):
    ctx.rules.append("token soups, mutated documents and expressions, every block type as the root, and %d families of long or deep inputs (cost of 4x the "
                     "input against the cost of the input) under the four bookkeeping options: a dictionary or a Lark error with the location of the "
                     "offending token. non-trivial = distinct texts, roots, families." % len(FAMILIES))
    d_layer.run(ctx, "C11")
    ctx.pmap(case_soup, ctx.seeds(ctx.scale(16000), "soup"))
    ctx.pmap(case_mutate, ctx.seeds(ctx.scale(16000), "mutate"))
    ctx.pmap(case_expr, ctx.seeds(ctx.scale(6000), "expr"))
    ctx.pmap(case_root, [(t, s) for t in V.BLOCKS + ["symbolset", "metadata", "validation", "connectionoptions"] for s in range(8)])
    n = 1200 if not ctx.thorough else 4000
    ctx.pmap(case_time, [(f, n, o) for f in FAMILIES for o in ((0, 3) if not ctx.thorough else range(4))], secs=200, chunk=1)
    ctx.pmap(case_pump, [(o, n, 5) for o in OPENERS for n in (50, 1000)], secs=200, chunk=1)
    findings.probe(ctx)


def replay(v):
    p = v["payload"]
    print(v["message"])
    if "text" in p:
        try:
            mappyfile.loads(p["text"], expand_includes=False, **(p.get("opts") or {}))
        except LE as ex:
            print(exc_str(ex))
            return 0
    return 1
