"""Schema-driven Mapfile documents: structure, independent renderer, expected dictionary, positions."""
import random
import re
from collections import OrderedDict

from . import expr as X
from . import vocab as V

# ---------------------------------------------------------------- values


class Tok:
    """one source token: kind 'str' (content, may be re-quoted), 'word' (bare, case-insensitive or not), 'raw'"""

    __slots__ = ("kind", "text", "pos", "quote")

    def __init__(self, kind, text, quote=None):
        self.kind, self.text, self.quote, self.pos = kind, text, quote, None

    def __repr__(self):
        return "Tok(%s,%r)" % (self.kind, self.text)


class ExprVal:
    """expected value: an expression string denoting this AST"""

    def __init__(self, src):
        self.src = src

    def __repr__(self):
        return "ExprVal(%s)" % self.src

    def matches(self, s):
        return isinstance(s, str) and X.same(self.src, s)


class AnyCase:
    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return "AnyCase(%s)" % self.s


WORDCH = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
STRINGS = [
    "", "a", "abc", "Layer 1", "end", "END", "MAP", "# not a comment", "a # b", "/* x */", "a//b", "C:/data/x.shp",
    "C:\\data\\x.shp", "\\w+", "été", "日本語", "\U0001F600 x", "a\nb", "line1\n  line2\n", "%var%", "a%b", "&#123;",
    "{a,b}x", "x(1)", "[a]-[b] x", "1", "1.5", "true", "null", "auto", "-5", "a,b", "key=value", "select * from t where a > 3",
    "init=epsg:4326", "+proj=utm +zone=11", "http://x.y/z?a=b&c=d", " lead", "trail ", "a\tb", "INCLUDE", "include x", "__a__",
    "TrueType", "polygon", "on", "$%^&", "~`!", "a\\b", "#zzz", "#ff", "i", "x i", "(x) y", "|", ";", "ß", "İ",
]


INNER_QUOTES = False  # strings may contain one kind of quote, or escaped quotes


def rand_string(rng, avoid="\"'", looks=False):
    c = rng.random()
    if INNER_QUOTES and avoid == "\"'":
        avoid = rng.choice(["\"'", '"', "'"])
        if rng.random() < 0.06:
            return rng.choice(['a \\"b\\" c', "x \\'y", '\\"', "it\\'s", "it's", 'say "x"', "'", '"', "''", "'a'", '"a"'])
    if c < 0.55:
        s = rng.choice(STRINGS)
    elif c < 0.9:
        s = "".join(rng.choice(WORDCH) for _ in range(rng.randrange(1, 9)))
    else:
        alpha = WORDCH + " .,;:/#%&{}()[]<>=+-*!?~^|$@\n\\é"
        s = "".join(rng.choice(alpha) for _ in range(rng.randrange(0, 40)))
    for ch in avoid:
        s = s.replace(ch, "")
    s = s.rstrip("\\")
    return s


def looks_like_expression(s):
    t = s.strip()
    if not t:
        return False
    if (t[0], t[-1]) in (("(", ")"), ("[", "]"), ("{", "}"), ("/", "/")):
        return True
    if len(t) > 1 and t[0] == "/" and t.endswith("/i"):
        return True
    if t.startswith("\\\\") and (t.endswith("\\\\") or t.endswith("\\\\i")):
        return True
    if s.startswith("NOT ") or s.lower().startswith("not ") or t.startswith("!"):
        return True
    return s.endswith("'i") or s.endswith('"i')


def is_hex(s):
    return bool(re.fullmatch(r"#(?:[0-9a-fA-F]{3}){1,2}([0-9a-fA-F]{2})?", s))


def num_tok(v):
    t = Tok("num", repr(v) if isinstance(v, float) else str(v))
    return t


def spell(rng, text):
    """another spelling of the same number"""
    if rng.random() < 0.8:
        return text
    if re.fullmatch(r"\d+", text):
        return rng.choice(["+" + text, "0" + text, "00" + text])
    if re.fullmatch(r"-\d+", text):
        return "-0" + text[1:]
    if re.fullmatch(r"0\.\d+", text):
        return rng.choice([text[1:], "+" + text, text + "0", "0" + text])
    if re.fullmatch(r"\d+\.0", text):
        return text[:-1]
    if re.fullmatch(r"\d+\.\d+", text):
        return rng.choice(["+" + text, text + "00", text + "e0", text + "E+0"])
    return text


def rand_int(rng, leaf):
    lo, hi = leaf.get("minimum", -3), leaf.get("maximum", 300)
    exl = leaf.get("exclusiveMinimum")
    if isinstance(exl, (int, float)) and not isinstance(exl, bool):
        lo = max(lo, int(exl) + 1)
    lo, hi = int(lo), int(hi)
    if hi < lo:
        hi = lo + 5
    return rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, hi)])


def rand_float(rng, leaf):
    i = rand_int(rng, leaf)
    if rng.random() < 0.4:
        return i
    hi = leaf.get("maximum", 1e9)
    f = i + rng.choice([0.5, 0.25, 0.125, 0.1, 0.12345678901234, rng.random(), rng.random() / 1e6])
    return f if f <= hi else float(hi)


def rand_bind(rng):
    return "[%s]" % rng.choice(["a", "item", "ROT_1", "ms:attr", "x2", "b-c"])


def rand_expr(rng):
    for _ in range(20):
        a = X.gen(rng, rng.randrange(0, 4))
        s = "(" + X.render(a, rng, extra=0.2) + ")"
        yield s


def gen_value(rng, t, key, shape, leaf):
    """-> (expected value, [Tok], lexical class) or None if nothing can be written"""
    if shape == "enum":
        v = rng.choice(leaf["enum"])
        if isinstance(v, str):
            s = v if rng.random() < 0.6 else rng.choice([v.upper(), v.capitalize()])
            if key == "compop":
                return s, [Tok("str", s)], "compop"
            if v.lower() == "end":
                return s, [Tok("str", s)], "string"
            if "-" in v or rng.random() < 0.15:
                # MapServer accepts quoted keywords too
                return s, [Tok("str", s)], "word"
            return s, [Tok("word", s)], "word"
        return v, [num_tok(v)], "num"
    if shape == "bool":
        v = rng.random() < 0.5
        s = rng.choice(["TRUE", "true", "True"] if v else ["FALSE", "false", "False"])
        return v, [Tok("word", s)], "bool"
    if shape == "int":
        v = rand_int(rng, leaf)
        return v, [num_tok(v)], "num"
    if shape == "float":
        v = rand_float(rng, leaf)
        return v, [num_tok(v)], "num"
    if shape in ("intlist", "numlist"):
        items = leaf.get("items")
        if isinstance(items, list):
            items = items[0]
        n = leaf.get("minItems", 2)
        if shape == "intlist":
            vs = [rand_int(rng, items) for _ in range(n)]
        else:
            vs = [rand_float(rng, items) for _ in range(n)]
            if n in (3, 6):  # rgb: the grammar (like MapServer) takes integers
                vs = [int(v) for v in vs]
        return vs, [num_tok(v) for v in vs], "nums"
    if shape == "pointlist":
        vs = [rng.randint(0, 5), rng.randint(0, 5)]
        return vs, [num_tok(v) for v in vs], "nums"
    if shape == "hexpair":
        vs = ["#" + "".join(rng.choice("0123456789abcdefABCDEF") for _ in range(6)) for _ in range(2)]
        return [v.lower() for v in vs], [Tok("str", v) for v in vs], "hexpair"
    if shape == "hex":
        v = "#" + "".join(rng.choice("0123456789abcdefABCDEF") for _ in range(rng.choice([3, 6, 8])))
        return v.lower(), [Tok("str", v)], "string"
    if shape == "bindpair":
        vs = [rand_bind(rng), rand_bind(rng)]
        return vs, [Tok("raw", v) for v in vs], "mixed"
    if shape in ("mixedpair", "mixedpair_num_bind"):
        if shape == "mixedpair" and rng.random() < 0.7:
            c = rng.choice([(0, 0), (0, 1), (1, 0), (1, 1)])
        elif shape == "mixedpair":
            c = (0, 0)
        else:
            c = rng.choice([(0, 1)])
        vs = [rand_bind(rng) if x else rng.randint(-5, 20) for x in c]
        return vs, [Tok("raw", v) if isinstance(v, str) else num_tok(v) for v in vs], "mixed"
    if shape == "bind":
        v = rand_bind(rng)
        return v, [Tok("raw", v)], "bind" if key != "text" else "string"
    if shape == "expr":
        for s in rand_expr(rng):
            return ExprVal(s), [Tok("raw", s)], "expr"
    if shape == "regex":
        body = rng.choice(["abc", "^[0-9]*$", "a b", "x|y", "\\d+", "#ff", "é"])
        if key == "expression":
            c = rng.random()
            if c < 0.3:
                v = "{%s}" % rng.choice(["a,b", "a b,c", "x", "1,2,3", "A,B-1,c_d"])
                return v, [Tok("raw", v)], "list"
            if c < 0.5:
                v = "/%s/i" % body
                return v, [Tok("raw", v)], "regex"
            if c < 0.6:
                q = rng.choice("\"'")
                v = q + "abc x" + q + "i"
                return v, [Tok("raw", v)], "istring"
        v = "/%s/" % body
        return v, [Tok("raw", v)], "regex"
    if shape == "charref":
        v = "&#%d;" % rng.randint(1, 99999)
        return v, [Tok("str", v)], "string"
    if shape == "patword":
        v = leaf["pattern"].strip("^$")
        return v, [Tok("str", v)], "string"
    if shape == "string":
        for _ in range(50):
            s = rand_string(rng)
            lo, hi = leaf.get("minLength", 0), leaf.get("maxLength", 10**6)
            if hi == 1:
                s = rng.choice(["a", "|", "#", " ", "é", "/", ";"])
            if len(s) < lo or len(s) > hi:
                continue
            if V.expression_capable(t, key) and looks_like_expression(s):
                continue
            if is_hex(s):
                continue
            return s, [Tok("str", s)], "string"
    return None


# ---------------------------------------------------------------- documents


class Item:
    """kind: kw | rep | obj | kv | projection | points | pattern | config"""

    def __init__(self, kind, key, **kw):
        self.kind, self.key = kind, key
        self.__dict__.update(kw)
        self.pos = None


class Obj:
    def __init__(self, type_, items=None):
        self.type, self.items, self.pos = type_, items or [], None


BARE = re.compile(r"[A-Za-z_][A-Za-z0-9_]*\Z")
NOTBARE = set(
    "true false null auto hilite selected not end and or in ne eq le lt ge gt like include".split()
) | set(V.BLOCKS) | set(V.KVBLOCKS) | {"points", "pattern", "projection", "config", "symbolset"}


def bare_ok(t, key, s):
    """a string value that may be left unquoted (a bare word that is not a Mapfile keyword)"""
    if not BARE.match(s) or s.lower() in NOTBARE:
        return False
    if key in ("symbol", "style"):
        # SYMBOL <word> is ambiguous with a SYMBOL block starting with a keyword
        for sub in ("symbol", "style", "querymap"):
            if s.lower() in V.slots()[sub]:
                return False
    return True


def kv_pairs(rng, n=None):
    out = []
    n = rng.randrange(0, 4) if n is None else n
    for _ in range(n):
        k = rng.choice(["wms_title", "ows_enable_request", "KEY", "a b", "k%d" % rng.randrange(9), "é_k", "1000", "0", "x.y"])
        if rng.random() < 0.3:
            k = rng.choice([" lead", "trail ", " a  b ", "#k", "a=b", "C:/x", "%k%", "end", "Map", "[k]", "(k)", "a\\b", "/k/", "Ünï", "__k", "k__"])
        v = rand_string(rng)
        out.append((k, v))
    return out


def rep_value(rng, key, i=0):
    if key == "compfilter":
        return rng.choice(["grayscale()", "blur(10)", "translate(8,-8)"])
    if key == "include":
        return rng.choice(["inc.map", "sub/dir/a b.inc", "c.map"])
    v = rng.choice(["BANDS=1", "CONTOUR_ITEM=elev", "A=b c", "GAMMA=0.75", "LOAD_WHOLE_IMAGE=NO", "x", "RESAMPLE=AVERAGE", rand_string(rng)])
    return v


def points_item(rng, key, n=None):
    n = n if n is not None else rng.randrange(1, 5)
    vals = [-99, -99.5, 0, 1, 2.5, 7, 1000, 3.25, 1e-07, -1e22, 100000]
    pairs = [(rng.choice(vals), rng.choice(vals)) for _ in range(n)]
    return Item(key, key, pairs=pairs)


def gen_item(rng, t, key, shape, leaf, depth):
    if shape == "repeated":
        return Item("rep", key, value=rep_value(rng, key))
    if shape == "kv" or key in V.KVBLOCKS:
        return Item("kv", key, pairs=kv_pairs(rng))
    if shape == "config":
        k = rng.choice(["PROJ_LIB", "MS_ERRORFILE", "ON_MISSING_DATA", "CGI_CONTEXT_URL", "Custom_Key"])
        return Item("config", key, ck=k, cv=rng.choice(["IGNORE", "/x/y", "LOG", rand_string(rng)]))
    if key == "projection":
        if rng.random() < 0.2:
            return Item("projection", key, strings=["AUTO"], auto=True)
        return Item("projection", key, auto=False, strings=[
            rng.choice(["init=epsg:4326", "proj=utm", "ellps=GRS80", "zone=15", "north", "no_defs", "auto b"])
            for _ in range(rng.randrange(1, 4))])
    if key in ("points", "pattern"):
        return points_item(rng, key)
    if shape == "objects":
        return Item("obj", V.UNPLURAL[key], obj=gen_obj(rng, V.UNPLURAL[key], depth - 1))
    if shape == "object":
        if key in V.SINGLETONS:
            return Item("obj", key, obj=gen_obj(rng, key, depth - 1))
        return None
    r = gen_value(rng, t, key, shape, leaf)
    if r is None:
        return None
    v, toks, cls = r
    return Item("kw", key, value=v, toks=toks, cls=cls, shape=shape)


def gen_obj(rng, t, depth=3, nkeys=None):
    items = []
    sl = V.slots()[t]
    keys = list(sl)
    if not keys:
        return Obj(t, items)
    n = nkeys if nkeys is not None else rng.choice([0, 1, 2, 3, 4, 6, 8])
    seen_points = 0
    for _ in range(n):
        key = rng.choice(keys)
        shape, leaf = rng.choice(sl[key])
        if shape in ("object", "objects") and depth <= 0:
            continue
        if key == "points":
            seen_points += 1
            if seen_points > 1 and t == "symbol":
                continue
        if key == "symbol" and not items and t == "symbol":
            continue
        if key == "include":
            # expansion is a separate property (C15): INCLUDE needs a file unless expand_includes=False
            continue
        it = gen_item(rng, t, key, shape, leaf, depth)
        if it is not None:
            items.append(it)
    fix_style_ambiguity(t, items)
    return Obj(t, items)


def fix_style_ambiguity(t, items):
    pass


def gen_doc(rng, depth=3):
    """root objects: one block of any type, or a list"""
    c = rng.random()
    if c < 0.5:
        roots = [gen_obj(rng, "map", depth, nkeys=rng.choice([3, 6, 10]))]
    elif c < 0.53:
        o = Obj("symbolset")
        for _ in range(rng.randrange(0, 4)):
            o.items.append(Item("obj", "symbol", obj=gen_obj(rng, "symbol", 0)))
        roots = [o]
    elif c < 0.56:
        roots = [Obj(rng.choice(["metadata", "validation", "connectionoptions"]))]
        roots[0].pairs = kv_pairs(rng)
    elif c < 0.93:
        roots = [gen_obj(rng, rng.choice(V.BLOCKS), depth)]
    else:
        roots = [gen_obj(rng, rng.choice(V.BLOCKS), 1) for _ in range(rng.randrange(2, 4))]
    return roots


def doc_features(roots):
    out = set()

    def walk(o):
        for i in o.items:
            out.add((o.type, i.key, getattr(i, "shape", i.kind)))
            if i.kind == "obj":
                walk(i.obj)

    for r in roots:
        walk(r)
    return out


# ---------------------------------------------------------------- expected dictionary (C02 contract)


def expected(o):
    d = OrderedDict()
    if o.type in V.KVBLOCKS:
        for a, b in o.pairs:
            d[a.lower()] = b
        d["__type__"] = o.type
        return d
    d["__type__"] = o.type
    npoints = 0
    for it in o.items:
        k = it.key
        if it.kind == "kw":
            d[k] = it.value
        elif it.kind == "rep":
            d.setdefault(k, []).append(it.value)
        elif it.kind == "kv":
            m = OrderedDict()
            for a, b in it.pairs:
                m[a.lower()] = b
            m["__type__"] = k
            d[k] = m
        elif it.kind == "config":
            d.setdefault("config", OrderedDict())[it.ck.lower()] = it.cv
        elif it.kind == "projection":
            d[k] = list(it.strings)
        elif it.kind == "pattern":
            d[k] = [list(p) for p in it.pairs]
        elif it.kind == "points":
            npoints += 1
            p = [list(p) for p in it.pairs]
            if npoints == 1:
                d[k] = p
            elif npoints == 2:
                d[k] = [d[k], p]
            else:
                d[k].append(p)
        elif it.kind == "obj":
            e = expected(it.obj)
            if it.obj.type in V.SINGLETONS:
                d[it.obj.type] = e
            else:
                d.setdefault(V.PLURALS[it.obj.type], []).append(e)
        else:
            raise AssertionError(it.kind)
    return d


def expected_doc(roots):
    es = [expected(r) for r in roots]
    return es[0] if len(es) == 1 else es


def plain(x, hidden=True):
    """any (Mapfile) value -> plain python with lists for tuples; order of keys kept as list of pairs via OrderedDict"""
    if isinstance(x, dict):
        return OrderedDict((k, plain(v, hidden)) for k, v in dict.items(x)
                           if hidden or not (k.startswith("__") and k.endswith("__") and k != "__type__"))
    if isinstance(x, (list, tuple)):
        return [plain(v, hidden) for v in x]
    return x


def diff(exp, act, path="$", types=True):
    """first difference between expected and actual (order and types included) or None"""
    if isinstance(exp, ExprVal):
        return None if exp.matches(act) else "%s: expected expression %r, got %r" % (path, exp.src, act)
    if isinstance(exp, dict):
        if not isinstance(act, dict):
            return "%s: expected a dict, got %r" % (path, act)
        ek, ak = list(exp.keys()), list(dict.keys(act))
        if ek != ak:
            return "%s: keys %r != %r" % (path, ek, ak)
        for k in ek:
            r = diff(exp[k], dict.__getitem__(act, k), path + "." + str(k), types)
            if r:
                return r
        return None
    if isinstance(exp, list):
        if not isinstance(act, (list, tuple)):
            return "%s: expected a list %r, got %r" % (path, exp, act)
        if len(exp) != len(act):
            return "%s: length %d != %d (%r vs %r)" % (path, len(exp), len(act), exp, act)
        for i, (a, b) in enumerate(zip(exp, act)):
            r = diff(a, b, "%s[%d]" % (path, i), types)
            if r:
                return r
        return None
    if type(exp) is not type(act) and types:
        return "%s: %r (%s) != %r (%s)" % (path, exp, type(exp).__name__, act, type(act).__name__)
    if exp != act:
        return "%s: %r != %r" % (path, exp, act)
    return None


# ---------------------------------------------------------------- rendering


class Style:
    """surface rendering choices, driven by rng"""

    def __init__(self, rng, mode="random", comments=False, eol="\n"):
        self.rng, self.mode, self.comments, self.eol = rng, mode, comments, eol


def case(rng, s):
    c = rng.random()
    if c < 0.5:
        return s.upper()
    if c < 0.75:
        return s.lower()
    return "".join(ch.upper() if rng.random() < 0.5 else ch.lower() for ch in s)


class Writer:
    def __init__(self, style):
        self.st = style
        self.parts = []
        self.line, self.col = 1, 1

    def raw(self, s):
        self.parts.append(s)
        n = s.count("\n")
        if n:
            self.line += n
            self.col = len(s) - s.rfind("\n")
        else:
            self.col += len(s)

    def sep(self, newline_ok=True):
        st, rng = self.st, self.st.rng
        if st.mode == "lines":
            self.raw(" ")
            return
        out = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            c = rng.random()
            if c < 0.4:
                out.append(rng.choice([" ", "  ", "\t", "    ", "\f", " \t "]))
            elif c < 0.75:
                out.append(rng.choice(["\n", "\r\n", "\n\n", "\n   ", "\r\n\t"]))
            elif st.comments and c < 0.88:
                out.append(" # " + rng.choice(["c", "END", "LAYER 'x'", "a \"b", "/* x", "été", "#", ""]) + rng.choice(["\n", "\r\n"]))
            elif st.comments:
                out.append(" /* " + rng.choice(["c", "multi\nline", "END # x", "'", "* /", "**"]) + " */ ")
            else:
                out.append(" ")
        self.raw("".join(out))

    def word(self, s):
        p = (self.line, self.col)
        self.raw(s)
        return p

    def text(self):
        return "".join(self.parts)


def quote_string(rng, s, allow_bare=False):
    if allow_bare and rng.random() < 0.5:
        return s
    qs = [q for q in "\"'" if q not in s.replace("\\" + q, "")]
    if not qs:
        raise AssertionError("both quotes in %r" % s)
    q = rng.choice(qs)
    return q + s + q


def render_tok(w, t, key, tok, sty_bare):
    rng = w.st.rng
    if tok.kind == "str":
        bare = sty_bare and bare_ok(t, key, tok.text)
        return w.word(quote_string(rng, tok.text, bare))
    if tok.kind == "num" and w.st.mode != "lines":
        return w.word(spell(rng, tok.text))
    return w.word(tok.text)


def render_obj(w, o, indent=0, bare=True):
    rng = w.st.rng
    lines = w.st.mode == "lines"

    def nl(level):
        if lines:
            w.raw(w.st.eol + "  " * level)
        else:
            w.sep()

    o.pos = w.word(case(rng, o.type) if not lines else o.type.upper())
    kw = (lambda s: case(rng, s)) if not lines else (lambda s: s.upper())
    for a, b in getattr(o, "pairs", []):
        nl(indent + 1)
        w.word(quote_string(rng, a, bare and bare_ok(o.type, o.type, a)))
        w.sep()
        w.word(quote_string(rng, b, bare and bare_ok(o.type, o.type, b)))
    for it in o.items:
        if it.kind == "obj":
            nl(indent + 1)
            render_obj(w, it.obj, indent + 1, bare)
            it.pos = it.obj.pos
            continue
        nl(indent + 1)
        it.pos = w.word(kw(it.key))
        if it.kind == "kw":
            for tok in it.toks:
                w.sep()
                tok.pos = render_tok(w, o.type, it.key, tok, bare)
        elif it.kind == "rep":
            w.sep()
            w.word(quote_string(rng, it.value, bare and bare_ok(o.type, it.key, it.value)))
        elif it.kind == "config":
            w.sep()
            w.word(quote_string(rng, it.ck, bare and bare_ok(o.type, it.key, it.ck)))
            w.sep()
            w.word(quote_string(rng, it.cv, bare and bare_ok(o.type, it.key, it.cv)))
        elif it.kind == "kv":
            for a, b in it.pairs:
                nl(indent + 2)
                it_b = bare
                w.word(quote_string(rng, a, it_b and bare_ok(o.type, it.key, a)))
                w.sep()
                w.word(quote_string(rng, b, it_b and bare_ok(o.type, it.key, b)))
            nl(indent + 1)
            w.word(kw("end"))
        elif it.kind == "projection":
            for s in it.strings:
                nl(indent + 2)
                w.word("AUTO" if it.auto else quote_string(rng, s))
            nl(indent + 1)
            w.word(kw("end"))
        elif it.kind in ("points", "pattern"):
            for a, b in it.pairs:
                nl(indent + 2)
                render_tok(w, o.type, it.key, num_tok(a), False)
                w.sep()
                render_tok(w, o.type, it.key, num_tok(b), False)
            nl(indent + 1)
            w.word(kw("end"))
    nl(indent)
    w.word(kw("end"))


def render_doc(rng, roots, mode="random", comments=False, bare=True, eol="\n"):
    w = Writer(Style(rng, mode, comments, eol))
    for i, r in enumerate(roots):
        if i:
            if mode == "lines":
                w.raw(eol)
            else:
                w.sep()
        render_obj(w, r, 0, bare)
    return w.text()
