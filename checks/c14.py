"""C14 kept comments are verbatim, never invented or duplicated, and stay attached"""
import itertools
import random
import re
from collections import Counter

from checks.common import *  # noqa: F401,F403
from vlib import d_layer, findings
from vlib import reader as RD

LEVEL = "exploration"
ABOVE = ("metadata", "validation", "connectionoptions")


class Layout:
    """source lines with comments in chosen places, and what must become of them"""

    def __init__(self, rng, eol, dense):
        self.rng, self.eol, self.dense = rng, eol, dense
        self.lines = []
        self.n = 0
        self.comments = []
        self.trailing = {}   # id(item) -> comment
        self.above = {}      # id(obj or item) -> [comments]

    def comment(self, c_style=True, multi=True):
        rng = self.rng
        self.n += 1
        body = rng.choice(["note", "LAYER 'x'", "END", "a \"b\"", "été", "- x", "1 2 3", "(a)", "#", "##x", "it's", "NAME 'y' /*", "*", "a*b", "c_", "%x%", "&lt;"])
        if rng.random() < 0.06:
            text = "# same"
        elif c_style and rng.random() < 0.2:
            body = body.replace("/*", "")
            text = "/* %d %s %s*/" % (self.n, body, rng.choice(["", self.eol + "  more" + self.eol, " "]) if multi else "")
        else:
            text = "#%s%d %s" % (rng.choice(["", " ", "  "]), self.n, body)
        self.comments.append(text)
        return text

    def maybe_above(self, target=None, p=None):
        rng = self.rng
        got = []
        if rng.random() < (self.dense if p is None else p):
            for _ in range(rng.choice([1, 1, 2, 3])):
                c = self.comment()
                self.lines.append(rng.choice(["", "  ", "\t"]) + c)
                got.append(c)
        if target is not None and got:
            self.above[id(target)] = got

    def add(self, text, trailing_for=None, p=None):
        rng = self.rng
        c = ""
        if rng.random() < (self.dense if p is None else p):
            t = self.comment(c_style=trailing_for is None and False)
            c = rng.choice([" ", "  ", "\t"]) + t
            if trailing_for is not None:
                self.trailing[id(trailing_for)] = t
        if rng.random() < 0.15:
            self.lines.append("")
        self.lines.append("  " + text + c)

    def text(self):
        return self.eol.join(self.lines) + self.eol


def value_text(rng, o, it):
    class S:
        pass

    w = G.Writer(G.Style(rng, "lines"))
    for i, tok in enumerate(it.toks):
        if i:
            w.raw(" ")
        G.render_tok(w, o.type, it.key, tok, True)
    return w.text()


def lay(L, o, rng):
    L.maybe_above(o)
    kw = lambda s: G.case(rng, s)
    L.add(kw(o.type))
    for it in o.items:
        if it.kind == "obj":
            lay(L, it.obj, rng)
            continue
        if it.kind in ("kw", "rep", "config"):
            L.maybe_above(None, L.dense / 2)
            if it.kind == "kw":
                v = value_text(rng, o, it)
            elif it.kind == "rep":
                v = G.quote_string(rng, it.value)
            else:
                v = G.quote_string(rng, it.ck) + " " + G.quote_string(rng, it.cv)
            L.add(kw(it.key) + " " + v, it)
            continue
        L.maybe_above(it if it.key in ABOVE else None)
        L.add(kw(it.key), None, L.dense / 2)
        if it.kind == "kv":
            for a, b in it.pairs:
                L.maybe_above(None, L.dense / 3)
                L.add(G.quote_string(rng, a) + " " + G.quote_string(rng, b), None, L.dense / 2)
        elif it.kind == "projection":
            for s in it.strings:
                L.add("AUTO" if it.auto else G.quote_string(rng, s), None, L.dense / 2)
        else:
            for a, b in it.pairs:
                L.add("%s %s" % (G.num_tok(a).text, G.num_tok(b).text), None, L.dense / 3)
        L.maybe_above(None, L.dense / 4)
        L.add(kw("end"), None, L.dense / 3)
    L.maybe_above(None, L.dense / 4)
    L.add(kw("end"), None, L.dense / 3)


def dedupe(o):
    """each keyword and singleton block once (a keyword given twice keeps only its last value)"""
    seen, out = set(), []
    for it in o.items:
        k = (it.kind, it.key if it.kind != "config" else it.ck.lower())
        single = it.kind not in ("rep", "points") and not (it.kind == "obj" and it.obj.type not in V.SINGLETONS)
        if it.kind == "points":
            single = True
        if single and (it.key if it.kind != "config" else k) in seen:
            continue
        seen.add(it.key if it.kind != "config" else k)
        if it.kind == "obj":
            dedupe(it.obj)
        out.append(it)
    o.items = out


def make(rng):
    while True:
        roots = G.gen_doc(rng)
        if all(r.type not in V.KVBLOCKS for r in roots):
            break
    L = Layout(rng, rng.choice(["\n", "\r\n"]), rng.choice([0.15, 0.4, 0.8]))
    for r in roots:
        dedupe(r)
        lay(L, r, rng)
    return L.text(), L, roots


def norm(c):
    return c.strip()


def splits(text, source):
    """the ways to read a printed comment as source comments joined by blanks (joining is a known finding)"""
    if text in source:
        yield [text]
    for s in source:
        if text.startswith(s + " "):
            for r in splits(text[len(s) + 1:], source):
                yield [s] + r


def verbatim(comments, source, out, text, printed, **payload):
    src = Counter(norm(c) for c in source)
    alts = []
    for c in comments:
        a = list(itertools.islice(splits(norm(c.text), src), 50))
        if not a:
            out.viol("invented", "%r is no comment of the source" % c.text, text=text, printed=printed, **payload)
            return False
        alts.append(a)
    alts.sort(key=len)
    budget = [20000]

    def fit(i, left):
        if i == len(alts):
            return True
        for a in alts[i]:
            budget[0] -= 1
            if budget[0] < 0:
                return True
            need = Counter(a)
            if all(left[k] >= n for k, n in need.items()):
                rest = left.copy()
                rest.subtract(need)
                if fit(i + 1, rest):
                    return True
        return False

    if not fit(0, src):
        got = Counter(x for a in alts for x in a[0])
        out.viol("duplicated", "%r are written more often than they occur" % sorted(k for k in got if got[k] > src[k])[:4],
                 text=text, printed=printed, **payload)
        return False
    return True


def content(text, d, printed, opts, out, **payload):
    try:
        plain = mappyfile.loads(mappyfile.dumps(mappyfile.loads(text, expand_includes=False), **opts), expand_includes=False)
    except Exception:
        return None
    try:
        e = mappyfile.loads(printed, expand_includes=False)
    except LarkError as ex:
        out.viol("content", "the text with comments is not accepted: %s" % exc_str(ex), text=text, printed=printed, **payload)
        return None
    m = G.diff(plain, e)
    if m:
        out.viol("content", m, text=text, printed=printed, **payload)
        return None
    return e


OPTS = [{}, {"indent": 2, "align_values": True}, {"spacer": "\t", "indent": 1, "quote": "'"}, {"newlinechar": "\r\n"}]


def case(seed, out):
    rng = random.Random(seed)
    text, L, roots = make(rng)
    opts = rng.choice(OPTS)
    d = mappyfile.loads(text, include_comments=True, include_position=rng.random() < 0.3)
    try:
        printed = mappyfile.dumps(d, **opts)
    except Exception as ex:
        out.viol("dumps-fails", exc_str(ex), text=text)
        return
    if content(text, d, printed, opts, out) is None:
        return
    for f in G.doc_features(roots):
        out.feat(*f)
    try:
        tree, comments = RD.read(printed)
    except RD.ReadError as ex:
        out.viol("content", "cannot be read: %s" % ex, text=text, printed=printed)
        return
    if not verbatim(comments, L.comments, out, text, printed):
        return
    alone, trailing = {}, {}
    starts = {}
    plines = printed.split("\n")
    for c in comments:
        if plines[c.line - 1][:c.col - 1].strip() == "":
            alone[c.eline] = c
        else:
            trailing.setdefault(c.line, []).append(c)

    def above(tok):
        got, line = [], tok.line - 1
        while line in alone:
            got.insert(0, norm(alone[line].text))
            line = alone[line].line - 1
        return got

    def attached(o_id, tok, what):
        want = [norm(c) for c in L.above.get(o_id, [])]
        if not want:
            return None
        got = above(tok)
        for i in range(len(got) - len(want) + 1):
            if got[i:i + len(want)] == want:
                return None
        return "comments %r above %s are printed as %r" % (want, what, got)

    def walk(e, o):
        m = attached(id(o), e.tok, o.type)
        if m:
            return m
        entries = list(e.node.entries)
        # objects and keywords are printed in the order of their (first) keys; match them by kind
        pools = {}
        for x in entries:
            pools.setdefault(x.key, []).append(x)
        for it in o.items:
            key = it.key if it.kind != "obj" else it.obj.type
            if not pools.get(key):
                return "%s is not printed" % key
            if it.kind == "config":
                x = next((x for x in pools[key] if x.vals and x.vals[0].val.lower() == it.ck.lower()), None)
                if x is None:
                    return "CONFIG %s is not printed" % it.ck
                pools[key].remove(x)
            else:
                i = next((i for i, x in enumerate(pools[key]) if (x.kind == "obj") == (it.kind == "obj")), 0)
                x = pools[key].pop(i)
            if it.kind == "obj":
                m = walk(x, it.obj)
            elif it.key in ABOVE:
                m = attached(id(it), x.tok, it.key)
            else:
                m = None
                c = L.trailing.get(id(it))
                if c is not None and it.kind in ("kw", "rep", "config"):
                    line = max(t.eline for t in x.vals)
                    got = []
                    while trailing.get(line):
                        got += [norm(t.text) for t in trailing[line]]
                        nxt = trailing[line][-1].eline   # a C comment may run over several lines
                        if nxt == line:
                            break
                        line = nxt
                    if not got or not (got[-1] == norm(c) or got[-1].endswith(" " + norm(c))):
                        m = "the comment %r of %s is printed as %r" % (c, it.key, got)
            if m:
                return m
        return None

    for e, o in zip(tree, roots):
        m = walk(e, o)
        if m:
            out.viol("attached", m, text=text, printed=printed, seed=seed, opts=opts)
            return
    out.feat("layout", len(L.comments), len(roots))
    if not out.samples:
        out.samples.append(text[:300])


def case_inline(seed, out):
    """comments anywhere between tokens: verbatim, not duplicated, content kept"""
    rng = random.Random(seed)
    roots = G.gen_doc(rng)
    text = G.render_doc(rng, roots, mode="random", comments=True)
    generic(text, out, rng.choice(OPTS))
    out.feat("inline", hash(text))


def generic(text, out, opts, **payload):
    try:
        d = mappyfile.loads(text, include_comments=True, expand_includes=False)
        _, source = RD.tokenize(text)
    except (LarkError, RD.ReadError):
        return
    try:
        printed = mappyfile.dumps(d, **opts)
    except Exception as ex:
        try:
            mappyfile.dumps(mappyfile.loads(text, expand_includes=False), **opts)
        except Exception:
            return
        out.viol("dumps-fails", exc_str(ex), text=text, **payload)
        return
    if content(text, d, printed, opts, out, **payload) is None:
        return
    try:
        _, comments = RD.tokenize(printed)
    except RD.ReadError:
        return
    verbatim(comments, [c.text for c in source], out, text, printed, **payload)


def case_file(path, out):
    try:
        text = corpus_text(path)
    except UnicodeDecodeError:
        return
    out.feat("file", path)
    for o in OPTS[:3]:
        generic(text, out, o, file=path)


def run(ctx):
    ctx.rules.append("documents with numbered comments (# and /* */, single and multi line, unicode, quotes, keywords) above openers and keywords, at line ends, "
                     "inside key-value, projection and points blocks and after END: every printed comment is a source comment, none more often than it occurs, "
                     "end-of-line and above-block comments stay attached, content unchanged. non-trivial = distinct (block, keyword, shape), layouts, files.")
    d_layer.run(ctx, "C14")
    ctx.pmap(case, ctx.seeds(ctx.scale(6000), "layout"))
    ctx.pmap(case_inline, ctx.seeds(ctx.scale(3000), "inline"))
    ctx.pmap(case_file, corpus(), chunk=8)
    findings.probe(ctx)


def replay(v):
    print(v["message"])
    print(v["payload"].get("text"))
    print(v["payload"].get("printed"))
    return 1
