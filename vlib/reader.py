"""Independent reader of printed Mapfile text (MapServer's lexical rules; shares no code with mappyfile)."""
import re

from . import vocab as V

BLOCKWORDS = set(V.BLOCKS) | {"symbolset"}


class ReadError(Exception):
    pass


class Tok:
    __slots__ = ("cls", "text", "val", "line", "col", "eline", "start", "end")

    def __repr__(self):
        return "%s:%s@%d:%d" % (self.cls, self.text, self.line, self.col)


NUM = re.compile(r"[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?\Z")
WORD = re.compile(r"[^\s\"'`#\[\](){}]+")
BINDRE = re.compile(r"\[[^\]\s\[]+\]")
REGEX = re.compile(r"/(?!\*)[^/\n]*/i?(?=\s|\Z)")
REGEX2 = re.compile(r"\\\\.*?\\\\i?(?=\s|\Z)")


def scan_string(s, i):
    q = s[i]
    j = i + 1
    while True:
        if j >= len(s):
            raise ReadError("unterminated string at %d: %r" % (i, s[i:i + 40]))
        if s[j] == "\\" and j + 1 < len(s) and s[j + 1] == q:
            j += 2
            continue
        if s[j] == q:
            break
        j += 1
    return j + 1


def scan_group(s, i):
    depth = 0
    j = i
    n = len(s)
    while j < n:
        c = s[j]
        if c in "\"'":
            j = scan_string(s, j)
            continue
        if c == "`":
            k = s.find("`", j + 1)
            if k < 0:
                raise ReadError("unterminated ` at %d" % j)
            j = k + 1
            continue
        if c == "[":
            k = s.find("]", j)
            if k > 0:
                j = k + 1
                continue
        if c == "/":
            m = re.compile(r"/[^/\n]*/").match(s, j)
            if m and s[i:j].rstrip().endswith(("~", "~*")):
                j = m.end()
                continue
        if c == "(":
            depth += 1
        elif c == ")":
            depth -= 1
            if depth == 0:
                return j + 1
        j += 1
    raise ReadError("unbalanced ( at %d: %r" % (i, s[i:i + 60]))


def tokenize(s):
    """tokens and comments, each with 1-based line / column"""
    toks, comments = [], []
    i, n = 0, len(s)
    starts = [0] + [m.end() for m in re.finditer("\n", s)]
    import bisect

    def emit(cls, a, b, val=None, out=toks):
        t = Tok()
        t.cls, t.text, t.start, t.end = cls, s[a:b], a, b
        t.val = val if val is not None else t.text
        ln = bisect.bisect_right(starts, a)
        t.line, t.col = ln, a - starts[ln - 1] + 1
        t.eline = bisect.bisect_right(starts, b - 1) if b > a else ln
        out.append(t)
        return t

    while i < n:
        c = s[i]
        if c in " \t\r\n\f":
            i += 1
            continue
        if c == "#":
            j = s.find("\n", i)
            j = n if j < 0 else j
            emit("comment", i, j, out=comments)
            i = j
            continue
        if s.startswith("/*", i):
            j = s.find("*/", i + 2)
            if j < 0:
                raise ReadError("unterminated /* at %d" % i)
            emit("comment", i, j + 2, out=comments)
            i = j + 2
            continue
        if c in "\"'":
            j = scan_string(s, i)
            if j < n and s[j] == "i" and (j + 1 == n or s[j + 1] in " \t\r\n\f"):
                emit("istr", i, j + 1)
                i = j + 1
                continue
            emit("str", i, j, s[i + 1:j - 1])
            i = j
            continue
        if c == "`":
            j = s.find("`", i + 1)
            if j < 0:
                raise ReadError("unterminated `")
            emit("bstr", i, j + 1)
            i = j + 1
            continue
        if c == "(":
            j = scan_group(s, i)
            emit("expr", i, j)
            i = j
            continue
        if c == "{":
            j = s.find("}", i)
            if j < 0:
                raise ReadError("unbalanced {")
            emit("list", i, j + 1)
            i = j + 1
            continue
        if c == "[":
            m = BINDRE.match(s, i)
            if not m:
                raise ReadError("bad binding at %d: %r" % (i, s[i:i + 30]))
            emit("bind", i, m.end())
            i = m.end()
            continue
        if c == "/":
            m = REGEX.match(s, i)
            if m:
                emit("regex", i, m.end())
                i = m.end()
                continue
        if c == "\\":
            m = REGEX2.match(s, i)
            if m:
                emit("regex", i, m.end())
                i = m.end()
                continue
        m = WORD.match(s, i)
        if not m:
            raise ReadError("unexpected %r at %d" % (c, i))
        w = m.group()
        if w.upper() == "NOT" and re.match(r"\s*\(", s[m.end():]):
            k = s.index("(", m.end())
            j = scan_group(s, k)
            emit("expr", i, j)
            i = j
            continue
        emit("num" if NUM.match(w) else "word", i, m.end())
        i = m.end()
    return toks, comments


class Node:
    """a block: type, opening line, END line, entries"""

    def __init__(self, type_, tok):
        self.type, self.tok, self.entries, self.end = type_, tok, [], None


class Entry:
    """kind: kw (key, vals) | kv | projection | points | pattern (key, vals, end) | obj (node)"""

    def __init__(self, kind, key, tok, vals=None, node=None):
        self.kind, self.key, self.tok, self.vals, self.node, self.end = kind, key, tok, vals or [], node, None


def read(text):
    """-> (list of root Node / Entry, comments)"""
    toks, comments = tokenize(text)
    pos = 0

    def body_until_end(kind, key, tok):
        nonlocal pos
        e = Entry(kind, key, tok)
        while True:
            if pos >= len(toks):
                raise ReadError("missing END of %s" % key)
            t = toks[pos]
            pos += 1
            if t.cls == "word" and t.text.upper() == "END":
                e.end = t
                return e
            e.vals.append(t)

    def entry():
        nonlocal pos
        t = toks[pos]
        if t.cls != "word":
            raise ReadError("keyword expected, got %r" % t)
        w = t.text.lower()
        nxt = toks[pos + 1] if pos + 1 < len(toks) else None
        alone = nxt is None or nxt.line > t.eline
        pos += 1
        if w in V.KVBLOCKS and alone:
            return body_until_end("kv", w, t)
        if w in ("points", "pattern", "projection") and alone:
            return body_until_end(w, w, t)
        if w in BLOCKWORDS and alone:
            n = Node(w, t)
            while True:
                if pos >= len(toks):
                    raise ReadError("missing END of %s" % w)
                x = toks[pos]
                if x.cls == "word" and x.text.upper() == "END":
                    n.end = x
                    pos += 1
                    break
                n.entries.append(entry())
            return Entry("obj", w, t, node=n)
        e = Entry("kw", w, t)
        line = t.eline
        while pos < len(toks) and toks[pos].line == line:
            e.vals.append(toks[pos])
            line = toks[pos].eline
            pos += 1
        if not e.vals:
            raise ReadError("keyword %r without a value" % t)
        return e

    roots = []
    while pos < len(toks):
        roots.append(entry())
    return roots, comments
