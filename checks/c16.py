"""C16 pretty-printer layout contract"""
import copy
import itertools
import random

from checks.common import *  # noqa: F401,F403
from vlib import d_layer, findings
from vlib import printspec as P
from vlib import reader as RD
from vlib import roundtrip as R
from vlib import wild as W

LEVEL = "exploration"
FULL = [dict(zip(("indent", "spacer", "quote", "newlinechar", "end_comment", "align_values", "separate_complex_types"), v))
        for v in itertools.product((0, 1, 2, 3, 4, 8), (" ", "\t"), ('"', "'"), ("\n", "\r\n"), (False, True), (False, True), (False, True))]


def entries_of(d):
    """keys of the lines and blocks a dictionary must be written as: (kind, key, n lines / nested)"""
    out = []
    for k, v in dict.items(d):
        if P.hidden(k):
            continue
        if k in V.UNPLURAL and isinstance(v, list):
            out += [("obj", V.UNPLURAL[k] if not isinstance(o, dict) else o["__type__"], o) for o in v]
        elif k in V.KVBLOCKS and isinstance(v, dict):
            out.append(("kv", k, [a for a in dict.keys(v) if not P.hidden(a)]))
        elif k == "config" and isinstance(v, dict):
            out += [("kw", k, 2) for a in dict.keys(v)]
        elif k == "projection":
            out.append(("projection", k, len(v) if isinstance(v, list) else 1))
        elif k in V.REPEATED and isinstance(v, (list, tuple)):
            out += [("kw", k, None) for _ in v]
        elif k == "pattern":
            out.append(("pattern", k, len(v)))
        elif k == "points":
            if v and isinstance(v[0][0], (list, tuple)):
                out += [("points", k, len(p)) for p in v]
            else:
                out.append(("points", k, len(v)))
        elif isinstance(v, dict):
            out.append(("obj", v["__type__"], v))
        else:
            out.append(("kw", k, None))
    return out


class Bad(Exception):
    pass


class Layout:
    def __init__(self, text, o):
        self.o = dict(indent=4, spacer=" ", newlinechar="\n", end_comment=False, align_values=False)
        self.o.update(o)
        self.text = text
        nl = self.o["newlinechar"]
        # every line break outside strings and comments is newlinechar
        toks, comments = RD.tokenize(text)
        spans = []
        for t in toks + comments:
            end = t.end
            if t.text.startswith("#"):  # the reader takes everything up to \n
                while end > t.start and text[end - 1] == "\r":
                    end -= 1
            spans.append((t.start, end))
        masked = list(text)
        for a, b in spans:
            for i in range(a, b):
                if masked[i] in "\r\n":
                    masked[i] = "\0"
        self.masked = "".join(masked)
        left = self.masked.replace(nl, "")
        if "\n" in left or "\r" in left:
            raise Bad("a line break that is not newlinechar %r" % nl)
        self.comment_at = {}
        for c in comments:
            self.comment_at[c.start] = c
        # logical lines: start offset -> (indentation, text)
        self.lines = []
        pos = 0
        for l in self.masked.split(nl):
            self.lines.append((pos, l))
            pos += len(l) + len(nl)
        self.starts = [p for p, _ in self.lines]
        self.unit = self.o["spacer"] * self.o["indent"]
        self.tree, _ = RD.read(text)
        self.toks = toks
        self.by_start = {t.start: i for i, t in enumerate(toks)}
        self.used = set()

    def line_of(self, tok):
        import bisect

        i = bisect.bisect_right(self.starts, tok.start) - 1
        return i

    def opens(self, tok, level, what):
        """tok is the first thing on its line, behind level indentations"""
        i = self.line_of(tok)
        start, line = self.lines[i]
        lead = line[:tok.start - start]
        if lead != self.unit * level:
            if lead.strip() == "":
                raise Bad("%s is indented by %r, expected %d x %r" % (what, lead, level, self.unit))
            raise Bad("%s does not sit on its own line: %r" % (what, line))
        if i in self.used:
            raise Bad("%s shares its line" % what)
        self.used.add(i)
        return i

    def rest(self, last, i, what, exact=None):
        """nothing but comments follows on line i behind token `last`"""
        start, line = self.lines[i]
        pos = last.end
        end = start + len(line)
        if pos > end:
            raise Bad("%s goes on beyond its line" % what)
        if exact is not None:
            got = self.text[pos:end]
            if got.strip().lower() != exact.lower() or (exact and not got.startswith(" ")):
                raise Bad("%s is followed by %r, expected %r" % (what, got, exact))
            return
        while pos < end:
            if self.text[pos] in " \t":
                pos += 1
            elif pos in self.comment_at:
                pos = self.comment_at[pos].end
            else:
                raise Bad("%s does not sit on its own line: %r" % (what, line))

    def end(self, tok, level, type_):
        i = self.opens(tok, level, "END of %s" % type_)
        self.rest(tok, i, "END of %s" % type_, "# " + type_ if self.o["end_comment"] else "")

    def block(self, e, d, level):
        n = e.node
        i = self.opens(n.tok, level, n.type)
        self.rest(n.tok, i, n.type)
        want = entries_of(d)
        got = [(x.kind, x.key) for x in n.entries]
        if got != [(k, key) for k, key, _ in want]:
            raise Bad("%s is written as %r, expected %r" % (n.type, got, [w[:2] for w in want]))
        cols = {}
        for x, (kind, key, info) in zip(n.entries, want):
            if kind == "obj":
                self.block(x, info, level + 1)
            elif kind == "kw":
                i = self.opens(x.tok, level + 1, key)
                for a, b in zip([x.tok] + x.vals, x.vals):
                    if self.text[a.end:b.start].strip(" \t") != "" or a.end == b.start:
                        raise Bad("%s: %r between the keyword and its values" % (key, self.text[a.end:b.start]))
                self.rest(x.vals[-1], i, key)
                if key != "config":
                    cols[key] = x.vals[0].start - x.tok.start
            else:
                self.inner(x, key, level + 1, 2 if kind != "projection" else 1)
        self.end(n.end, level, n.type)
        if self.o["align_values"] and cols:
            step = max(1, self.o["indent"])
            longest = max(map(len, cols))
            col = (longest // step + 1) * step
            for k, c in cols.items():
                if c != col:
                    raise Bad("%s: the value of %s starts %d characters behind the keyword, expected %d (%r)" % (n.type, k, c, col, cols))

    def inner(self, x, key, level, per_line):
        i = self.opens(x.tok, level, key)
        self.rest(x.tok, i, key)
        for a in range(0, len(x.vals), per_line):
            vs = x.vals[a:a + per_line]
            i = self.opens(vs[0], level + 1, "line of " + key)
            self.rest(vs[-1], i, "line of " + key)
        self.end(x.end, level, key)

    def check(self, value):
        ds = value if isinstance(value, list) else [value]
        if len(ds) != len(self.tree):
            raise Bad("%d root blocks written, expected %d" % (len(self.tree), len(ds)))
        for e, d in zip(self.tree, ds):
            t = d["__type__"]
            if e.kind == "kv":
                self.inner(e, t, 0, 2)
            elif e.kind == "obj":
                self.block(e, d, 0)
            else:
                raise Bad("a keyword outside of a block: %s" % e.key)
        return None



def check(d, opts, out, **payload):
    opts = {k: v for k, v in opts.items()}
    ex = R.excluded(d, opts.get("quote", chr(34)))
    if ex:
        out.count("known class %s" % ex)
        return
    d = copy.deepcopy(d)
    try:
        text = mappyfile.dumps(d, **opts)
    except Exception:
        return
    try:
        Layout(text, opts).check(d)
    except Bad as ex:
        out.viol("layout", "%r: %s" % (opts, ex), opts=opts, written=text, **payload)
    except RD.ReadError as ex:
        out.viol("layout", "%r: the text cannot be read line by line: %s" % (opts, ex), opts=opts, written=text, **payload)
    except (KeyError, TypeError, IndexError):
        out.count("unspecified")


def case_doc(arg, out):
    seed, n = arg
    rng = random.Random(seed)
    roots = G.gen_doc(rng, depth=rng.choice([3, 3, 5]))
    with_comments = rng.random() < 0.3
    text = G.render_doc(rng, roots, mode=rng.choice(["lines", "random"]), comments=with_comments)
    d = mappyfile.loads(text, include_comments=with_comments)
    for opts in (rng.sample(FULL, n) if n < len(FULL) else FULL):
        out.feat(*sorted(opts.items()), str(roots[0].type))
        check(d, opts, out, source=text)
    if not out.samples:
        out.samples.append(text[:300])


def case_comments(seed, out):
    from checks import c14

    rng = random.Random(seed)
    text, _, _ = c14.make(rng)
    d = mappyfile.loads(text, include_comments=True)
    out.feat("comments", hash(text))
    for opts in rng.sample(FULL, 4):
        check(d, opts, out, source=text)


def case_wild(seed, out):
    rng = random.Random(seed)
    text = W.doc(rng)
    try:
        d = mappyfile.loads(text, expand_includes=False)
    except LarkError:
        return
    out.feat("wild", hash(text))
    for opts in rng.sample(FULL, 4):
        check(d, opts, out, source=text)


def case_file(path, out):
    try:
        text = corpus_text(path)
        d = mappyfile.loads(text, expand_includes=False, include_comments=hash(path) % 2 == 0)
    except (LarkError, UnicodeDecodeError):
        return
    rng = random.Random(path)
    out.feat("file", path)
    for opts in rng.sample(FULL, 6) + [{"align_values": True}, {"end_comment": True}]:
        check(d, opts, out, file=path)


def case_edge(i, out):
    """keyword lengths around multiples of the indent, deep nesting, odd newline and spacer strings"""
    rng = random.Random(i)
    d = {"__type__": "layer"}
    for _ in range(rng.randrange(1, 7)):
        n = rng.randrange(0, 20)
        d["k" + "x" * n] = rng.choice(["a b", 5, 1.5, "[b]", "(1 = 1)", True, "END", "#fff", [1, 2]])
    if rng.random() < 0.5:
        d["processing"] = ["A=1", "B=2"]
    if rng.random() < 0.5:
        d["metadata"] = {"__type__": "metadata", "k" + "y" * rng.randrange(0, 30): "v w", "z": "1"}
    if rng.random() < 0.5:
        d["classes"] = [{"__type__": "class", "name": "c", "styles": [{"__type__": "style", "pattern": [[1, 2], [3, 4]]}]}]
    if rng.random() < 0.3:
        d["projection"] = rng.choice(["auto", ["init=epsg:4326"], ["proj=utm", "zone=11"]])
    for opts in ({"indent": k, "spacer": s, "align_values": a, "newlinechar": nl, "end_comment": rng.random() < 0.5}
                 for k in (0, 1, 2, 3, 4, 5, 7, 16) for s in (" ", "\t") for a in (True, False) for nl in ("\n", "\r\n", "\n\n")):
        check(d, opts, out)
        out.feat("edge", opts["indent"], opts["spacer"], opts["align_values"], i % 50)


def run(ctx):
    ctx.rules.append("generated documents, documents with comments, random keyword/value documents, the repository's files and hand-made dictionaries written with "
                     "samples of the option product; an independent tokenizer locates every opener, keyword line, block line and END and compares line, "
                     "indentation, END comment and value column with the contract. non-trivial = distinct (options, root type), texts, files.")
    d_layer.run(ctx, "C16")
    ctx.pmap(case_doc, [(s, 8) for s in ctx.seeds(ctx.scale(2500), "doc")])
    ctx.pmap(case_doc, [(s, len(FULL)) for s in ctx.seeds(ctx.scale(12), "full")], secs=120, chunk=1)
    ctx.pmap(case_comments, ctx.seeds(ctx.scale(800), "comments"))
    ctx.pmap(case_wild, ctx.seeds(ctx.scale(1500), "wild"))
    ctx.pmap(case_file, corpus(), chunk=8, secs=60)
    ctx.pmap(case_edge, range(ctx.scale(120)))
    findings.probe(ctx)


def replay(v):
    print(v["message"])
    print(v["payload"].get("opts"))
    print(v["payload"].get("written"))
    return 1
