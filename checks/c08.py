"""C08 recorded positions and validation error locations are exact: the renderer knows where it wrote every keyword"""
import random
from collections import Counter

from checks.common import *  # noqa: F401,F403
from checks.c07 import validate
from vlib import d_layer, findings
from vlib import schema as S

LEVEL = "exploration"


class PosTree(dict):
    """key -> (line, col) | list | PosTree, with .at the position of the opening keyword"""

    at = None


def positions(o):
    t = PosTree()
    t.at = o.pos
    if o.type in V.KVBLOCKS:
        return t
    npoints = 0
    for it in o.items:
        k = it.key
        if it.kind == "kw":
            t[k] = it.pos
        elif it.kind == "rep":
            t.setdefault(k, []).append(it.pos)
        elif it.kind == "kv":
            s = PosTree()
            s.at = it.pos
            t[k] = s
        elif it.kind == "config":
            t.setdefault(k, {})[it.ck.lower()] = it.pos
        elif it.kind in ("projection", "pattern"):
            t[k] = it.pos
        elif it.kind == "points":
            npoints += 1
            if npoints == 1:
                t[k] = it.pos
            elif npoints == 2:
                t[k] = [t[k], it.pos]
            else:
                t[k].append(it.pos)
        elif it.kind == "obj":
            s = positions(it.obj)
            if it.obj.type in V.SINGLETONS:
                t[it.obj.type] = s
            else:
                t.setdefault(V.PLURALS[it.obj.type], []).append(s)
    return t


def at(p):
    return (p.get("line"), p.get("column")) if isinstance(p, dict) else None


def match(t, d, path):
    """expected positions against the __position__ entries of a loaded dictionary"""
    p = dict.get(d, "__position__")
    if at(p) != tuple(t.at):
        return "%s: opened at %r, recorded %r" % (path, t.at, p and at(p))
    for k, e in t.items():
        here = "%s.%s" % (path, k)
        if isinstance(e, PosTree):
            r = match(e, d[k], here)
        elif isinstance(e, list) and e and isinstance(e[0], PosTree):
            r = next((m for i, (x, y) in enumerate(zip(e, d[k])) for m in [match(x, y, "%s[%d]" % (here, i))] if m), None)
        elif isinstance(e, list):
            a = p.get(k)
            r = None if isinstance(a, list) and [at(x) for x in a] == [tuple(x) for x in e] else "%s: at %r, recorded %r" % (here, e, a)
            r = r or next((m for x in a for m in [ordered(x, here)] if m), None)
        elif isinstance(e, dict):
            a = p.get(k)
            r = None if isinstance(a, dict) and {q: at(x) for q, x in a.items()} == {q: tuple(x) for q, x in e.items()} else \
                "%s: at %r, recorded %r" % (here, e, a)
        else:
            a = p.get(k)
            r = None if a and at(a) == tuple(e) else "%s: at %r, recorded %r" % (here, e, a)
            r = r or ordered(a, here)
        if r:
            return r
    extra = [k for k in p if k not in ("line", "column", "values") and k not in t]
    return "%s: positions of %r are invented" % (path, extra) if extra else None


def ordered(a, here):
    vs = [tuple(v) for v in a.get("values", [])]
    seq = [at(a)] + vs
    if seq != sorted(set(seq)):
        return "%s: value positions %r are not in source order after %r" % (here, vs, at(a))
    return None


def value_positions(o, d, path="$"):
    """plain values are recorded where they were written"""
    last = {}
    for it in o.items:
        if it.kind == "kw":
            last[it.key] = it
    for k, it in last.items():
        vs = [tuple(v) for v in d["__position__"][k].get("values", [])]
        if all(t.kind in ("num", "word", "str") for t in it.toks) and vs != [tuple(t.pos) for t in it.toks]:
            return "%s.%s: values written at %r, recorded %r" % (path, k, [t.pos for t in it.toks], vs)
    return None


def expected_location(t, path):
    """position a message for an error at this path must carry"""
    here = tuple(t.at)
    node = t
    for p in path:
        if isinstance(node, PosTree):
            node = node.get(p)
            if isinstance(node, PosTree):
                here = tuple(node.at)
            elif isinstance(node, tuple):
                here, node = node, None
            elif isinstance(node, list) and node and not isinstance(node[0], PosTree):
                # (an error on a whole list of objects is located at the enclosing block)
                here = tuple(node[0])
            elif isinstance(node, dict) and node:
                here = tuple(next(iter(node.values())))
        elif isinstance(node, list):
            node = node[p] if p < len(node) else None
            if isinstance(node, PosTree):
                here = tuple(node.at)
            elif isinstance(node, tuple):
                here, node = node, None
        elif isinstance(node, dict):
            node = node.get(p)
            if isinstance(node, tuple):
                here, node = node, None
        else:
            break
    return here


BADTOKS = [("num", "-99999"), ("num", "99999999"), ("str", "zzz zz"), ("num", "1.5"), ("word", "TRUE"), ("num", "7")]


def spoil(rng, o):
    """keywords with wrong values, unknown keywords"""
    for _ in range(rng.choice([0, 1, 2, 3])):
        sl = [k for k in V.simple_slots(o.type)] if o.type in V.slots() and o.type != "symbolset" else []
        if not sl:
            return
        k = rng.choice(sl)
        if rng.random() < 0.3:
            k = rng.choice(["foo", "unknown_key", "zz1"])
        if k == "symbol" or (o.type == "symbol" and k not in V.slots()["symbol"]):
            continue
        toks = [G.Tok(*rng.choice(BADTOKS)) for _ in range(rng.choice([1, 1, 1, 2]))]
        if len(toks) == 2:
            toks = [G.Tok("num", "5"), G.Tok("num", "-1")]
        val = [value(x) for x in toks]
        it = G.Item("kw", k, value=val[0] if len(val) == 1 else val, toks=toks, cls="x", shape="wrong")
        o.items.insert(rng.randrange(len(o.items) + 1) if not (o.items and o.type == "symbol") else len(o.items), it)
    for it in o.items:
        if it.kind == "obj" and rng.random() < 0.6:
            spoil(rng, it.obj)


def value(t):
    if t.kind == "num":
        return float(t.text) if "." in t.text else int(t.text)
    return True if t.kind == "word" else t.text


def case_doc(arg, out):
    seed, comments = arg
    rng = random.Random(seed)
    roots = G.gen_doc(rng)
    for r in roots:
        if r.type not in V.KVBLOCKS:
            spoil(rng, r)
    text = G.render_doc(rng, roots, mode=rng.choice(["lines", "random"]), comments=rng.random() < 0.4, eol=rng.choice(["\n", "\r\n"]))
    d = mappyfile.loads(text, include_position=True, include_comments=comments)
    ds = d if isinstance(d, list) else [d]
    out.feat(tuple(sorted({r.type for r in roots})), len(text) // 50)
    for f in G.doc_features(roots):
        out.feat(*f)
    for o, x in zip(roots, ds):
        t = positions(o)
        m = match(t, x, "$") or (value_positions(o, x) if o.type not in V.KVBLOCKS else None)
        if m:
            out.viol("position", m, text=text, seed=seed)
            return
        errs = S.root_errors(x)
        j = S.lower(x)
        want = Counter()
        for p in {p for p, k in errs}:
            want[(S.name_of(j, p).upper(),) + expected_location(t, p)] += 1
        msgs = validate(x)
        got = Counter((m["message"].replace("ERROR: Invalid value in ", ""), m.get("line"), m.get("column")) for m in msgs)
        if set(got) != set(want):
            out.viol("location", "messages at %r, violations at %r" % (sorted(got, key=str), sorted(want, key=str)), text=text, seed=seed)
            return
        for k in got:
            out.feat("error", o.type, k[0])
    if len(ds) > 1:
        a = [(m.get("line"), m.get("column")) for x in ds for m in validate(x)]
        b = [(m.get("line"), m.get("column")) for m in mappyfile_validate(d)]
        if a != b:
            out.viol("location", "a list of roots has other locations", text=text)
    if not out.samples:
        out.samples.append(text[:300])


def mappyfile_validate(d):
    return validate(d)


def case_public(seed, out):
    rng = random.Random(seed)
    roots = G.gen_doc(rng)
    for r in roots:
        if r.type not in V.KVBLOCKS:
            spoil(rng, r)
    text = G.render_doc(rng, roots, mode="random")
    d = mappyfile.loads(text, include_position=True)
    if mappyfile.validate(d) != validate(d):
        out.viol("public", "mappyfile.validate differs from Validator.validate", text=text)


def case_file(path, out):
    """corpus files: the text at each recorded position is the keyword"""
    try:
        text = corpus_text(path)
        d = mappyfile.loads(text, include_position=True, expand_includes=False)
    except (LarkError, UnicodeDecodeError):
        return
    out.feat("file", path)
    lines = text.split("\n")

    def word(line, col, w):
        return lines[line - 1][col - 1:col - 1 + len(w)].lower() == w.lower()

    def walk(x, path_):
        if isinstance(x, list):
            for i, y in enumerate(x):
                walk(y, "%s[%d]" % (path_, i))
            return
        if not isinstance(x, dict):
            return
        p = dict.get(x, "__position__")
        if p is None:
            if "__type__" in x:
                out.viol("position", "%s: no position" % path_, file=path)
            return
        if not word(p["line"], p["column"], x["__type__"]):
            out.viol("position", "%s: %s is not at %r" % (path_, x["__type__"], at(p)), file=path)
        for k, v in dict.items(x):
            if k.startswith("__"):
                continue
            if isinstance(v, dict) and "__type__" in v or isinstance(v, list) and v and isinstance(v[0], dict):
                walk(v, path_ + "." + k)
                continue
            if x["__type__"] in V.KVBLOCKS:
                continue
            e = p.get(k)
            for q in e if isinstance(e, list) else e.values() if k == "config" else [e]:
                if not isinstance(q, dict) or not word(q["line"], q["column"], k):
                    out.viol("position", "%s.%s: %r" % (path_, k, q), file=path)
                    return
                if ordered(q, path_):
                    out.viol("position", ordered(q, path_), file=path)

    walk(d, "$")


def run(ctx):
    ctx.rules.append("documents rendered with random layout (blanks, CRLF, comments, multi-line strings) with wrong values and unknown keywords; the "
                     "renderer's record of where each keyword starts is compared with __position__ and with the location of every message. "
                     "non-trivial = distinct (block, keyword, shape), (root, violated keyword), files.")
    d_layer.run(ctx, "C08")
    ctx.pmap(case_doc, [(s, False) for s in ctx.seeds(ctx.scale(5000), "doc")])
    ctx.pmap(case_doc, [(s, True) for s in ctx.seeds(ctx.scale(2500), "comments")])
    ctx.pmap(case_file, corpus(), chunk=8)
    ctx.pmap(case_public, ctx.seeds(ctx.scale(24), "public"))
    findings.probe(ctx)


def replay(v):
    print(v["message"])
    print(v["payload"].get("text"))
    return 1
