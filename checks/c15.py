"""C15 INCLUDE expansion equals textual substitution, bounded at 5 levels"""
import os
import random
import re
import shutil
import tempfile

from checks.common import *  # noqa: F401,F403
from vlib import d_layer, findings
from vlib import reader as RD

LEVEL = "exploration"
SCRATCH = None
NAMES = ["a", "b", "layer", "inc lude", "été", "x#y", "include", "END", "a.b", "map", "It_s", "名", "(x)", "%v%", "a=b"]


def scratch():
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix="verif_c15_")
    return SCRATCH


def boundaries(text):
    """indices of lines that start outside every token and comment"""
    toks, comments = RD.tokenize(text)
    starts = [0] + [m.end() for m in re.finditer("\n", text)]
    bad = set()
    for t in toks + comments:
        if t.eline > t.line:
            bad.update(range(t.line, t.eline))  # 0-based index of the lines following
    return [i for i in range(len(starts)) if i not in bad], starts


class Tree:
    def __init__(self, rng, base, root_dir):
        self.rng, self.base, self.root_dir = rng, base, root_dir
        self.files = {}
        self.n = 0
        self.maxdepth = 0

    def new_name(self):
        rng = self.rng
        self.n += 1
        stem = rng.choice(NAMES) + str(self.n)
        sub = rng.choice(["", "", "inc", "inc/deep", "in c", "..", "../other"])
        ext = rng.choice([".map", ".inc", "", ".txt"])
        rel = os.path.join(sub, stem + ext) if sub else stem + ext
        if rng.random() < 0.15:
            rel = os.path.join(".", rel)
        return rel

    def directive(self, rel):
        rng = self.rng
        name = os.path.normpath(os.path.join(self.root_dir, rel)) if rng.random() < 0.25 else rel
        forms = []
        if '"' not in name:
            forms += ['"%s"' % name] * 2
        if "'" not in name:
            forms += ["'%s'" % name] * 2
        if not re.search(r"[\s#\"']", name) and not name.startswith("/*"):
            forms.append(name)
        f = rng.choice(forms)
        kw = G.case(rng, "include")
        sep = rng.choice([" ", "  ", "\t", " \t"])
        if f[0] in "\"'" and rng.random() < 0.1:
            sep = ""
        return rng.choice(["", "  ", "\t", "        "]) + kw + sep + f + rng.choice(["", "", " ", "\t"]) + \
            rng.choice(["", "", "", " # c", "#c", " # 'it' \"x\"", ' # INCLUDE "no.map"', "  # INCLUDE no", " ##"])

    def cut(self, lines, depth, want):
        """move random line ranges of `lines` to files; `want` = depth still to reach on one path"""
        rng = self.rng
        out = list(lines)
        k = rng.choice([1, 1, 2, 3, 4]) if want > 0 else 0
        deep = True
        spans = []
        for _ in range(k):
            if len(out) < 1:
                break
            i = rng.randrange(len(out) + 1)
            j = min(len(out), i + rng.choice([0, 1, 2, 5, 10, len(out)]))
            if any(a < j and i < b or a == i for a, b in spans):
                continue
            spans.append((i, j))
        spans.sort(reverse=True)
        for i, j in spans:
            part = out[i:j]
            sub = self.cut(part, depth + 1, want - 1 if deep or rng.random() < 0.5 else 0)
            deep = False
            rel = self.new_name()
            out[i:j] = [self.write(rel, sub, depth + 1)]
        return out

    def write(self, rel, lines, depth):
        self.maxdepth = max(self.maxdepth, depth)
        path = os.path.normpath(os.path.join(self.root_dir, rel))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        text = self.eol.join(l for l in lines)
        if lines and self.rng.random() < 0.6:
            text += self.eol
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(text)
        self.files[path] = text
        return self.directive(rel)


def tree_lines(text, rng):
    """split at boundaries that are outside tokens: a 'line' may contain line breaks inside strings / C comments"""
    ok, starts = boundaries(text)
    pieces = []
    for a, b in zip(ok, ok[1:] + [None]):
        s = text[starts[a]:starts[b] if b is not None else len(text)]
        if s.endswith("\n"):
            s = s[:-1]
            if s.endswith("\r"):
                s = s[:-1]
        pieces.append(s)
    return pieces


def no_include_lines(pieces):
    return not any(re.match(r"(?is)\s*include", l) for p in pieces for l in p.split("\n"))


def load_ways(root, root_dir, cwd, rng, **kw):
    """the ways of loading the same root file"""
    text = corpus_text(root)
    other = os.path.join(scratch(), "elsewhere")
    os.makedirs(other, exist_ok=True)
    ways = []

    def by_open():
        return mappyfile.open(root, **kw)

    def by_rel_open():
        return mappyfile.open(os.path.relpath(root), **kw)

    def by_load():
        with open(root, encoding="utf-8", newline="") as f:
            return mappyfile.load(f, **kw)

    def by_rel_load():
        with open(os.path.relpath(root), encoding="utf-8", newline="") as f:
            return mappyfile.load(f, **kw)

    def by_string():
        return mappyfile.loads(text, **kw)

    for name, fn, dirs in (("open", by_open, (other, root_dir, "/")), ("open relative", by_rel_open, (other, root_dir)),
                           ("load", by_load, (other, root_dir)), ("load relative", by_rel_load, (root_dir, other)),
                           ("loads", by_string, (root_dir,))):
        ways.append((name, fn, rng.choice(dirs)))
    return ways


def run_way(fn, where):
    old = os.getcwd()
    os.chdir(where)
    try:
        return fn()
    finally:
        os.chdir(old)


def case_tree(seed, out):
    rng = random.Random(seed)
    base = tempfile.mkdtemp(dir=scratch())
    try:
        _case_tree(seed, rng, base, out)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _case_tree(seed, rng, base, out):
    root_dir = os.path.join(base, rng.choice(["r", "r d", "é/map", "x/y/z"]))
    os.makedirs(root_dir)
    roots = G.gen_doc(rng)
    mode = rng.choice(["lines", "lines", "random"])
    text = G.render_doc(rng, roots, mode=mode, comments=rng.random() < 0.5)
    pieces = tree_lines(text, rng)
    if not no_include_lines(pieces):
        return
    for _ in range(rng.randrange(3)):  # commented directives are not directives
        pieces.insert(rng.randrange(len(pieces) + 1), rng.choice(['# INCLUDE "missing.map"', '  #include missing', '## include \'x\'', '/* INCLUDE "x" */']))
    t = Tree(rng, base, root_dir)
    t.eol = rng.choice(["\n", "\n", "\r\n"])
    want = rng.choice([0, 1, 1, 2, 2, 3, 4, 5])
    flat = "\n".join(pieces)
    lines = t.cut(pieces, 0, want)
    root = os.path.join(root_dir, "root.map")
    with open(root, "w", encoding="utf-8", newline="") as f:
        f.write(t.eol.join(lines))
    kw = rng.choice([{}, {}, {"include_comments": True}])
    expected = mappyfile.loads(flat, expand_includes=False, **kw)
    # the text passed to a loader never contains directives left over
    for name, fn, where in load_ways(root, root_dir, None, rng, **kw):
        try:
            d = run_way(fn, where)
        except Exception as ex:
            out.viol("expansion", "%s in %s raised %s" % (name, "the root's directory" if where == root_dir else "another directory", exc_str(ex)),
                     root=corpus_text(root), files=t.files, seed=seed)
            return
        m = G.diff(G.plain(expected), G.plain(d)) if not kw else (None if repr(expected) == repr(d) or same_but_crlf(expected, d) else "comments differ")
        if m:
            out.viol("expansion", "%s: %s" % (name, m), root=corpus_text(root), files=t.files, expected=flat, seed=seed)
            return
    out.feat("tree", t.maxdepth, len(t.files), name, mode)
    out.feat("text", hash(flat))
    if not out.samples and t.files:
        out.samples.append({"root": corpus_text(root)[:200], "files": len(t.files), "depth": t.maxdepth})
    # a changed file is seen by the next call (nothing is remembered between calls)
    if t.files and rng.random() < 0.3:
        p = rng.choice(sorted(t.files))
        os.remove(p)
        try:
            run_way(lambda: mappyfile.open(root), "/")
            out.viol("missing", "a file that no longer exists is included", root=corpus_text(root), files=t.files, seed=seed)
        except OSError:
            pass
        except Exception as ex:
            out.viol("missing", "a missing file raises %s instead of an I/O error" % exc_str(ex), root=corpus_text(root), files=t.files, seed=seed)


def same_but_crlf(a, b):
    return repr(a).replace("\\r", "") == repr(b).replace("\\r", "")


def case_depth(item, out):
    """chains of exactly n files, cycles"""
    n, fan, cyclic, seed = item
    rng = random.Random(seed)
    base = tempfile.mkdtemp(dir=scratch())
    try:
        def w(name, text):
            p = os.path.join(base, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="utf-8") as f:
                f.write(text)
            return p

        sub = rng.choice(["", "sub/"])
        q = rng.choice(["", "'", '"'])
        inc = lambda name: "INCLUDE %s%s%s%s" % (q, name, q, rng.choice(["", " # c"]))
        before = {}
        root_lines = ["MAP"]
        for i in range(fan):
            root_lines.append(inc("%sf%d_1.map" % (sub, i)) if n else "")
            for d in range(1, n + 1):
                body = ['  LAYER NAME "l%d_%d" TYPE POINT END' % (i, d)]
                nxt = inc("%sf%d_%d.map" % (sub, i, d + 1)) if d < n else None
                if cyclic is not None and d == n and i == fan - 1:
                    nxt = inc("root.map") if cyclic == 0 else inc("%sf%d_%d.map" % (sub, i, max(1, n - cyclic + 1)))
                # the directive may be the first, a middle or the last line of its file
                lines = rng.choice([body + [nxt], [nxt] + body, ["", nxt] + body, body + [nxt, ""]]) if nxt else body
                before[i, d] = lines.index(body[0]) < lines.index(nxt) if nxt else True
                w("%sf%d_%d.map" % (sub, i, d), "\n".join(lines))
        root_lines.append("END")
        root = w("root.map", "\n".join(root_lines))
        names = []
        for i in range(fan):
            part = []
            for d in range(n, 0, -1):
                part = ["l%d_%d" % (i, d)] + part if before[i, d] else part + ["l%d_%d" % (i, d)]
            names += part
        try:
            d = run_way(lambda: mappyfile.open(root), rng.choice(["/", base]))
            err = None
        except RecursionError as ex:
            out.viol("depth", "depth %d cyclic=%s: recursed until the interpreter gave up" % (n, cyclic), root="\n".join(root_lines))
            return
        except Exception as ex:
            d, err = None, ex
        out.feat("depth", n, fan, cyclic)
        if cyclic is None and n <= 5:
            if err is not None:
                out.viol("depth", "%d nested files are not expanded: %s" % (n, exc_str(err)), root="\n".join(root_lines))
            elif [l["name"] for l in d["layers"]] != names:
                out.viol("depth", "%d nested files: layers %r, expected %r" % (n, [l["name"] for l in d["layers"]], names), root="\n".join(root_lines))
        elif err is None:
            out.viol("depth", "%s raised no error" % ("cyclic inclusion" if cyclic is not None else "%d nested files" % n), root="\n".join(root_lines))
    finally:
        shutil.rmtree(base, ignore_errors=True)


def case_missing(seed, out):
    rng = random.Random(seed)
    base = tempfile.mkdtemp(dir=scratch())
    try:
        name = rng.choice(["missing.map", "sub/missing.map", "/nonexistent_dir_verif/x.map", "."])
        q = rng.choice(["", "'", '"'])
        text = "MAP\n  NAME 'x'\n  INCLUDE %s%s%s\nEND" % (q, name, q)
        root = os.path.join(base, "root.map")
        with open(root, "w") as f:
            f.write(text)
        for nm, fn in (("open", lambda: mappyfile.open(root)), ("loads", lambda: mappyfile.loads(text)), ("load", lambda: mappyfile.load(open(root)))):
            try:
                run_way(fn, base)
                out.viol("missing", "%s: including %r raised nothing" % (nm, name), text=text)
            except OSError:
                pass
            except Exception as ex:
                out.viol("missing", "%s: including %r raised %s instead of an I/O error" % (nm, name, exc_str(ex)), text=text)
        out.feat("missing", name, q)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def case_keep(seed, out):
    """expand_includes=False keeps the directives as data and writes them back"""
    rng = random.Random(seed)
    roots = G.gen_doc(rng)
    roots = [r for r in roots if r.type not in V.KVBLOCKS]
    if not roots:
        return
    want = {}

    def visit(o):
        o.items = [it for it in o.items if it.key != "include"]
        for it in o.items:
            if it.kind == "obj":
                visit(it.obj)
        if o.type in INCLUDERS and rng.random() < 0.6:
            names = []
            pos = sorted(rng.randrange(len(o.items) + 1) for _ in range(rng.choice([1, 1, 2, 3])))
            for p in reversed(pos):
                fn = rng.choice(["a.map", "inc/b c.map", "C:/x/é.map", "../d.map", "layer.map", "/abs/p.map", "a#b.map"])
                it = G.Item("rep", "include")
                it.value = fn
                o.items.insert(p, it)
                names.insert(0, fn)
            want[id(o)] = names

    for r in roots:
        visit(r)
    text = G.render_doc(rng, roots, mode="lines")
    cp = rng.choice([{}, {"include_position": True}, {"include_comments": True}])
    d = mappyfile.loads(text, expand_includes=False, **cp)
    ds = d if isinstance(d, list) else [d]
    exp = G.expected_doc(roots)
    m = G.diff(exp, G.plain(strip(d)))
    if m:
        out.viol("kept", m, text=text)
        return
    printed = mappyfile.dumps(d)
    try:
        tree, _ = RD.read(printed)
    except RD.ReadError as ex:
        out.viol("kept", "not readable: %s" % ex, text=text, printed=printed)
        return

    def walk(n, o):
        got = [e.vals[0].val for e in n.entries if e.kind == "kw" and e.key == "include"]
        if got != want.get(id(o), []):
            return "%s: INCLUDE %r is written as %r" % (o.type, want.get(id(o), []), got)
        kids = {}
        for e in n.entries:
            if e.kind == "obj":
                kids.setdefault(e.node.type, []).append(e.node)
        for it in o.items:
            if it.kind == "obj":
                if it.obj.type in V.SINGLETONS and sum(1 for x in o.items if x.kind == "obj" and x.obj.type == it.obj.type) > 1:
                    continue
                if not kids.get(it.obj.type):
                    continue
                m = walk(kids[it.obj.type].pop(0), it.obj)
                if m:
                    return m
        return None

    for n, o in zip(tree, roots):
        m = walk(n.node, o)
        if m:
            out.viol("kept", m, text=text, printed=printed)
            return
    out.feat("keep", hash(text))


def strip(x):
    if isinstance(x, dict):
        return {k: strip(v) for k, v in dict.items(x) if k not in ("__position__", "__comments__")}
    if isinstance(x, (list, tuple)):
        return [strip(v) for v in x]
    return x


INCLUDERS = {t for t, keys in V.slots().items() if "include" in keys}


def run(ctx):
    ctx.rules.append("include trees cut out of generated documents at lines outside tokens (fan-out <= 4, depth 0..5, sub/parent directories, absolute and relative "
                     "names, every quoting, trailing comments, LF/CRLF), loaded by open/load/loads from differing working directories against the single "
                     "text; chains of 0..8 files and cycles of length 1..6; missing files; INCLUDE kept as data. non-trivial = distinct trees, texts, chains.")
    d_layer.run(ctx, "C15")
    try:
        scratch()
        ctx.pmap(case_tree, ctx.seeds(ctx.scale(2500), "tree"))
        items = [(n, fan, None, s) for n in range(0, 9) for fan in (1, 2, 4) for s in range(3)]
        items += [(n, fan, c, s) for n in range(1, 7) for fan in (1, 2) for c in range(0, n + 1) for s in range(2)]
        ctx.pmap(case_depth, items)
        ctx.pmap(case_missing, ctx.seeds(60, "missing"))
        ctx.pmap(case_keep, ctx.seeds(ctx.scale(2500), "keep"))
    finally:
        if SCRATCH:
            shutil.rmtree(SCRATCH, ignore_errors=True)
    findings.probe(ctx)


def replay(v):
    print(v["message"])
    p = v["payload"]
    print(p.get("root") or p.get("text"))
    for k, t in (p.get("files") or {}).items():
        print("---", k)
        print(t)
    return 1
