"""C19 grammar, keyword tables and schemas describe one vocabulary (finite product, enumerated)"""
import json
import os
import random
import re

from checks.common import *  # noqa: F401,F403
from mappyfile.pprint import PrettyPrinter
from mappyfile.validator import Validator
from vlib import d_layer, findings
from vlib import printspec as P
from vlib import reader as RD
from vlib import roundtrip as R
from vlib import schema as S

LEVEL = "exploration"
_obj = {}
VERSIONS = [None, 4.0, 4.6, 4.8, 5.0, 5.2, 5.4, 5.6, 6.0, 6.2, 6.4, 7.0, 7.2, 7.4, 7.6, 8.0, 8.2, 8.4, 8.6]


def validator():
    return _obj.setdefault("v", Validator())


def printer():
    return _obj.setdefault("p", PrettyPrinter())


def named(d, version=None):
    try:
        return {m["message"].replace("ERROR: Invalid value in ", "").lower() for m in validator().validate(d, version=version)}
    except Exception as ex:
        return {"validate raised " + exc_str(ex)}


# ------------------------------------------------------------- (a) block types


def words():
    out = set(V.BLOCKS) | set(V.KVBLOCKS) | {"symbolset", "points", "pattern", "projection", "config"}
    for f in os.listdir(V.SCHEMA_DIR):
        if f.endswith(".json"):
            s = V.raw(f)
            out.add(f[:-5])
            out |= {k for k in s.get("properties", {}) if not k.startswith("__")}
            t = s.get("properties", {}).get("__type__", {}).get("enum", [])
            out |= set(t)
    with open(os.path.join(REPO, "mappyfile", "mapfile.lark"), encoding="utf-8") as f:
        out |= {w.lower() for w in re.findall(r'"([A-Za-z]+)"i', f.read())}
    with open(os.path.join(REPO, "mappyfile", "tokens.py"), encoding="utf-8") as f:
        out |= {w.lower() for w in re.findall(r"[\"']([A-Za-z_]+)[\"']", f.read())}
    return sorted(w for w in out if re.fullmatch(r"[a-z]+", w))


def case_word(w, out):
    """a word that opens a block at the root has a schema and is printed and parsed again"""
    out.feat("word", w)
    opens = False
    for text in ("%s\nEND" % w.upper(), "%s END" % w, "%s\nNAME 'x'\nEND" % w, "%s 'a' 'b' END" % w, "%s\n1 2\nEND" % w, "%s\n'x'\nEND" % w):
        try:
            d = mappyfile.loads(text, expand_includes=False)
        except LarkError:
            continue
        if isinstance(d, list):
            d = d[0] if d else {}
        if not (isinstance(d, dict) and "__type__" in d):
            if w in V.BLOCKS:
                out.viol("block", "%r is loaded as %r" % (text, d))
            continue
        t = d["__type__"]
        if t != w and w.startswith(t) and w not in V.BLOCKS:
            continue  # at the root LABELCACHE is read as LABEL CACHE: not a block of its own
        opens = True
        if t != w:
            out.viol("block", "%r is loaded with the type %r" % (text, t))
            return
        try:
            s = V.raw(t)
        except OSError:
            if t not in V.KVBLOCKS:
                out.viol("block", "the block type %s has no schema" % t)
                return
        if t in V.KVBLOCKS and t == "values":
            continue
        try:
            p = mappyfile.dumps(d)
            e = mappyfile.loads(p)
        except Exception as ex:
            out.viol("block", "%r cannot be printed or read again: %s" % (text, exc_str(ex)))
            return
        m = R.compare(d, e)
        if m:
            out.viol("block", "%r: %s" % (text, m))
            return
        if t in V.BLOCKS:
            try:
                validator().validate(d)
            except Exception as ex:
                out.viol("block", "%r cannot be validated: %s" % (text, exc_str(ex)))
    if w in V.BLOCKS + ["symbolset"] and not opens:
        out.viol("block", "the block %s is not accepted at the root" % w)
    if opens and w not in V.BLOCKS and w not in V.KVBLOCKS and w != "symbolset":
        out.viol("block", "%s opens a block that is not among the documented types" % w)


# ------------------------------------------------------------- (b) storage of child blocks


def case_child(item, out):
    parent, child, plural = item
    out.feat("child", parent, child)
    key = V.PLURALS[child] if plural else child
    two = "%s\n%s\nEND\n%s\nEND\nEND" % (parent, child, child)
    for text, n in (("%s\n%s\nEND\nEND" % (parent, child), 1), (two, 2), ("%s %s END END" % (parent.upper(), child.upper()), 1)):
        try:
            d = mappyfile.loads(text)
        except LarkError as ex:
            out.viol("storage", "%r is not accepted: %s" % (text, exc_str(ex)))
            return
        keys = [k for k in dict.keys(d) if k != "__type__"]
        if keys != [key]:
            out.viol("storage", "%r is stored under %r, expected %r" % (text, keys, key))
            return
        v = d[key]
        ok = isinstance(v, list) and len(v) == n and all(x["__type__"] == child for x in v) if plural else isinstance(v, dict) and v["__type__"] == child
        if not ok:
            out.viol("storage", "%r gives %s = %r" % (text, key, v))
            return
        try:
            p = mappyfile.dumps(d)
            root = RD.read(p)[0][0]
            kids = [e.key for e in root.node.entries]
            e = mappyfile.loads(p)
        except Exception as ex:
            out.viol("storage", "%r cannot be printed or read again: %s" % (text, exc_str(ex)))
            return
        if kids != [child] * (n if plural else 1):
            out.viol("storage", "%r is printed with the blocks %r" % (text, kids))
            return
        m = R.compare(d, e)
        if m:
            out.viol("storage", "%r: %s" % (text, m))
            return
        bad = named(d)
        if parent in bad or parent + "s" in bad or any(b.startswith("validate raised") for b in bad):
            miss = {k for _, k in [(p, k) for p, k in S.root_errors(d) if k == "missing"]}
            if not miss:
                out.viol("storage", "%r does not validate: %r" % (text, bad))
                return
    # the auto-creating dict
    d = mappyfile.loads("%s END" % parent)
    v = d[key]
    if plural and (v != [] or not isinstance(v, list)):
        out.viol("storage", "reading the missing key %r of a %s gives %r" % (key, parent, v))
        return
    if not plural and not (isinstance(v, dict) and len(v) == 0):
        out.viol("storage", "reading the missing key %r of a %s gives %r" % (key, parent, v))
        return
    # children appended the documented way
    d = mappyfile.loads("%s END" % parent)
    c = mappyfile.loads("%s END" % child)
    if plural:
        d[key].append(c)
    else:
        d[key] = c
    try:
        p = mappyfile.dumps(d)
        got = [e.key for e in RD.read(p)[0][0].node.entries]
    except Exception as ex:
        out.viol("storage", "a %s with a %s under %r cannot be printed: %s" % (parent, child, key, exc_str(ex)))
        return
    if got != [child]:
        out.viol("storage", "a %s with a %s under %r is printed with %r" % (parent, child, key, got))
    # the schema of the parent knows the key, and judges what is stored under it by the schema of the child
    bogus = mappyfile.loads("%s END" % parent)
    c = mappyfile.loads("%s END" % child)
    c["__type__"] = "foo"
    bogus[key] = [c] if plural else c
    if not named(bogus):
        out.viol("storage", "the schema of %s accepts anything under %r" % (parent, key))


# ------------------------------------------------------------- (c) keyword slots


def fillers(rng, t, key, n):
    """other keywords of the type, one representative each"""
    out = []
    ks = [k for k in V.slots()[t] if k != key and k not in V.SINGLETONS]
    rng.shuffle(ks)
    for k in ks:
        if len(out) >= n:
            break
        shape, leaf = rng.choice(V.slots()[t][k])
        if shape in ("object", "objects"):
            continue
        it = G.gen_item(rng, t, k, shape, leaf, 1)
        if it is not None and k != "include":
            out.append(it)
    return out


def representatives(rng, t, key, shape, leaf, n=3):
    out = []
    if shape == "enum" and key != "projection":
        for v in leaf["enum"]:
            for w in ({v, v.upper()} if isinstance(v, str) else [v]):
                if isinstance(v, str):
                    if key == "compop" or v.lower() == "end" or "-" in v:
                        out.append(G.Item("kw", key, value=w, toks=[G.Tok("str", w)], cls="x", shape=shape))
                    else:
                        out.append(G.Item("kw", key, value=w, toks=[G.Tok("word", w)], cls="word", shape=shape))
                        out.append(G.Item("kw", key, value=w, toks=[G.Tok("str", w)], cls="word", shape=shape))
                else:
                    out.append(G.Item("kw", key, value=w, toks=[G.num_tok(w)], cls="num", shape=shape))
        return out
    if shape == "bool":
        for v, w in ((True, "TRUE"), (False, "FALSE"), (True, "true"), (False, "false")):
            out.append(G.Item("kw", key, value=v, toks=[G.Tok("word", w)], cls="bool", shape=shape))
        return out
    for _ in range(n):
        it = G.gen_item(rng, t, key, shape, leaf, 1)
        if it is not None:
            out.append(it)
    return out


def contexts(t):
    return sorted({p for p in V.BLOCKS for c, _ in V.children(p) if c == t})


def case_slot(item, out):
    t, key, i, seed = item
    rng = random.Random(seed)
    shape, leaf = V.slots()[t][key][i]
    reps = representatives(rng, t, key, shape, leaf, 4)
    if not reps:
        out.count("no representative")
        return
    for it in reps:
        others = fillers(rng, t, key, 2)
        if t == "symbol" and key == "points":
            others = [o for o in others if o.key != "points"]
        orders = [("only", [it]), ("first", [it] + others), ("last", others + [it])]
        if len(others) == 2:
            orders.append(("middle", [others[0], it, others[1]]))
        for where, items in orders:
            for mode in ("lines", "oneline"):
                check_slot(t, key, shape, leaf, it, items, where, mode, rng, out)
                if out.viols:
                    return
    out.feat("slot", t, key, i)
    if not out.samples:
        out.samples.append("%s.%s as %s" % (t, key, shape))


def check_slot(t, key, shape, leaf, it, items, where, mode, rng, out):
    o = G.Obj(t, items)
    w = G.Writer(G.Style(rng, "lines"))
    w.st.eol = "\n" if mode == "lines" else " "
    G.render_obj(w, o, 0, bare=False)
    text = w.text()
    say = lambda m: out.viol("slot", "%s.%s (%s) %s in the block: %s" % (t, key, shape, where, m), text=text)
    try:
        d = mappyfile.loads(text, expand_includes=False)
    except LarkError as ex:
        return say("not accepted: %s" % exc_str(ex))
    exp = G.expected(o)
    m = G.diff(exp, G.plain(d))
    if m:
        return say(m)
    # the printer's lookup
    name = key
    if shape not in ("objects", "object"):
        props = printer().get_attribute_properties(t, key)
        if not props:
            return say("the printer does not find the keyword")
    elif shape == "objects" and key not in printer().get_attribute_properties.__self__.validator.get_expanded_schema(t)["properties"]:
        return say("not in the expanded schema")
    bad = named(d)
    if key in bad or any(b.startswith("validate raised") for b in bad):
        errs = [(p, k) for p, k in S.root_errors(d) if p and p[0] == key]
        if not (shape in ("objects", "object") and errs and all(k == "missing" for _, k in errs)):
            return say("does not validate: %r" % sorted(bad))
    # in a version in which the alternative exists the value is accepted too
    if R.excluded(d):
        return None
    try:
        p = mappyfile.dumps(d)
        e = mappyfile.loads(p, expand_includes=False)
    except Exception as ex:
        return say("cannot be printed and read again: %s" % exc_str(ex))
    m = R.compare(d, e)
    if m:
        return say("printed and read again: %s" % m)
    try:
        r = P.match_roots(RD.read(p)[0], d)
    except P.Unspecified:
        r = None
    except RD.ReadError as ex:
        r = "cannot be read: %s" % ex
    if r:
        return say("printed: " + r)
    return None


def case_pair(item, out):
    """a keyword directly behind every other keyword of the block, on one line"""
    t, key, seed = item
    rng = random.Random(seed)
    alts = V.slots()[t]
    for prev in alts:
        for shape, leaf in alts[prev]:
            if prev == key or shape in ("objects", "object"):
                continue
            a = G.gen_item(rng, t, prev, shape, leaf, 1)
            s2, l2 = rng.choice(alts[key])
            b = G.gen_item(rng, t, key, s2, l2, 1)
            if a is None or b is None:
                continue
            o = G.Obj(t, [a, b])
            w = G.Writer(G.Style(rng, "lines"))
            w.st.eol = " " if rng.random() < 0.7 else "\n"
            G.render_obj(w, o, 0, bare=False)
            text = w.text()
            try:
                m = G.diff(G.expected(o), G.plain(mappyfile.loads(text, expand_includes=False)))
            except LarkError as ex:
                m = "not accepted: %s" % exc_str(ex)
            out.count("pairs")
            if m:
                out.viol("pair", "%s: %s behind %s: %s" % (t, key, prev, m), text=text)
                return
    out.feat("pair", t, key)


# ------------------------------------------------------------- (d) defaults


def known_default(t, k):
    return (t, k) in KNOWN_DEFAULTS


KNOWN_DEFAULTS = {("label", "backgroundshadowsize")}


def case_default(item, out):
    t, version = item
    out.feat("create", t, version)
    try:
        d = mappyfile.create(t) if version is None else mappyfile.create(t, version)
    except Exception as ex:
        return out.viol("create", "create(%r, %r) raised %s" % (t, version, exc_str(ex)))
    props = V.raw(t)["properties"]
    want = {}
    for k, p in props.items():
        # draft 4 ignores what stands beside a $ref
        if "default" in p and "$ref" not in p and S.available(p, version) and S.items_available(p, version):
            want[k] = p["default"]
    got = {k: v for k, v in dict.items(d) if k != "__type__"}
    if dict.get(d, "__type__") != t:
        return out.viol("create", "create(%r, %r) has the type %r" % (t, version, d.get("__type__")))
    if G.diff(dict(sorted(want.items())), dict(sorted(got.items()))):
        return out.viol("create", "create(%r, %r): %s" % (t, version, G.diff(dict(sorted(want.items())), dict(sorted(got.items())))))
    for k, v in got.items():
        errs = S.errors(props[k], S.lower(v), (k,), version)
        if errs and not known_default(t, k):
            return out.viol("default", "the default %r of %s.%s does not conform to its own schema (version %s)" % (v, t, k, version))
    bad = named(d, version)
    allowed = {k for tt, k in KNOWN_DEFAULTS if tt == t}
    if any(k == "missing" for _, k in S.root_errors(d, version)) or not S.available(V.raw(t), version):
        allowed.add(t)
    if bad - allowed:
        return out.viol("create", "create(%r, %r) does not validate: %r" % (t, version, sorted(bad - allowed)))
    # leave the recorded finding out and print
    for tt, k in KNOWN_DEFAULTS:
        if tt == t:
            d.pop(k, None)
    try:
        text = mappyfile.dumps(d)
        e = mappyfile.loads(text)
    except Exception as ex:
        return out.viol("create", "create(%r, %r) cannot be printed and loaded: %s" % (t, version, exc_str(ex)))
    m = R.compare(d, e)
    if m:
        return out.viol("create", "create(%r, %r): %s" % (t, version, m), printed=text)
    bad = named(e, version) - allowed
    if bad:
        return out.viol("create", "create(%r, %r) re-loaded does not validate: %r" % (t, version, sorted(bad)), printed=text)


def all_defaults(s, path=()):
    if isinstance(s, dict):
        if "default" in s and isinstance(s.get("default"), (str, int, float, bool, list, dict)) and not (path and path[-1] == "properties"):
            yield path, s
        for k, v in s.items():
            yield from all_defaults(v, path + (k,))
    elif isinstance(s, list):
        for i, v in enumerate(s):
            yield from all_defaults(v, path + (i,))


def case_schema_file(f, out):
    out.feat("schema", f)
    for path, s in all_defaults(V.raw(f)):
        errs = S.errors(s, S.lower(s["default"]), path) and S.errors(s, s["default"], path)
        if errs and not ((f[:-5], path[1] if len(path) > 1 else None) in KNOWN_DEFAULTS):
            out.viol("default", "%s: the default %r at %r does not conform to its own schema" % (f, s["default"], path))


# ------------------------------------------------------------- (e) the tables


def case_tables(_, out):
    """the words stored specially in the tables, by behaviour: repeated keywords become lists under their own name"""
    for t, keys in V.slots().items():
        if t == "symbolset":
            continue
        for key in keys:
            if key in V.REPEATED:
                text = "%s\n%s 'a'\n%s 'b'\nEND" % (t, key, key)
                d = mappyfile.loads(text, expand_includes=False)
                if list(d[key]) != ["a", "b"]:
                    out.viol("tables", "%r: %s = %r" % (text, key, d[key]))
                    return
                got = [(e.key, e.vals[0].val) for e in RD.read(mappyfile.dumps(d))[0][0].node.entries]
                if got != [(key, "a"), (key, "b")]:
                    out.viol("tables", "%r is printed as %r" % (text, got))
                    return
                if key in named(d):
                    out.viol("tables", "%r does not validate" % text)
                    return
                # with one value and built by hand
                got = [(e.key, e.vals[0].val) for e in RD.read(mappyfile.dumps({"__type__": t, key: ["z"]}))[0][0].node.entries]
                if got != [(key, "z")]:
                    out.viol("tables", "%s.%s = ['z'] is printed as %r" % (t, key, got))
                    return
    out.feat("tables")


def run(ctx):
    ctx.rules.append("exhaustive: every word of the grammar, tables and schemas as a root block; every (parent, child) block pair; every (type, keyword, "
                     "alternative) as only/first/middle/last keyword on separate lines and on one line (all enum words, several values of the other "
                     "shapes); every ordered pair of keywords of a block; every declared default; create(type, version) for all types and 19 versions. "
                     "values of unbounded shapes are sampled. non-trivial = distinct words, pairs, slots, (type, version).")
    d_layer.run(ctx, "C19")
    ctx.pmap(case_word, words())
    pairs = sorted({(p, c, pl) for p in V.BLOCKS for c, pl in V.children(p)})
    ctx.pmap(case_child, pairs)
    slots = [(t, k, i) for t in V.BLOCKS for k in V.slots()[t] for i in range(len(V.slots()[t][k]))]
    reps = 4 if ctx.thorough else 1
    ctx.pmap(case_slot, [(t, k, i, s) for (t, k, i), s in zip(slots * reps, ctx.seeds(len(slots) * reps, "slot"))], secs=60)
    kws = [(t, k) for t in V.BLOCKS for k in V.slots()[t] if not any(s in ("objects", "object") for s, _ in V.slots()[t][k])]
    ctx.pmap(case_pair, [(t, k, s) for (t, k), s in zip(kws * reps, ctx.seeds(len(kws) * reps, "pair"))], secs=60)
    ctx.pmap(case_default, [(t, v) for t in V.BLOCKS + ["symbolset"] for v in VERSIONS])
    ctx.pmap(case_schema_file, sorted(f for f in os.listdir(V.SCHEMA_DIR) if f.endswith(".json")))
    ctx.serial(case_tables, [0])
    ctx.extra["enumerated_completely"] = "words, block pairs, slots x alternatives x positions, keyword pairs, defaults and create(type, version) are enumerated completely"
    findings.probe(ctx)


def replay(v):
    print(v["message"])
    print(v["payload"])
    return 1
