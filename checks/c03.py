"""C03 printed text says exactly what the dictionary says: independent reader of the printed text"""
import copy
import random
from collections import OrderedDict

from checks.common import *  # noqa: F401,F403
from mappyfile.ordereddict import CaseInsensitiveOrderedDict as CI
from vlib import d_layer, findings
from vlib import printspec as P
from vlib import reader as R
from vlib import roundtrip as RT

LEVEL = "exploration"
OPTS = [{}, {"quote": "'"}, {"indent": 2, "align_values": True}, {"spacer": "\t", "indent": 1, "end_comment": True}, {"newlinechar": "\r\n"}]


def verdict(d, opts):
    """None / message; raises P.Unspecified outside the domain"""
    exc = RT.excluded(d, opts.get("quote", '"'))
    before = repr(d)
    try:
        text = mappyfile.dumps(d, **opts)
    except Exception as ex:
        if exc:
            raise P.Unspecified(exc)
        return "dumps raised %s" % exc_str(ex), None
    if exc:
        raise P.Unspecified(exc)
    try:
        roots, comments = R.read(text)
    except R.ReadError as ex:
        return "the text cannot be read: %s" % ex, text
    want = len(comments)
    m = P.match_roots(roots, d)
    if not m and not opts.get("end_comment") and want and not has_comments(d):
        m = "comments invented: %r" % comments[:3]
    if not m and repr(d) != before:
        m = "dumps changed the dictionary"
    return m, text


def has_comments(d):
    if isinstance(d, dict):
        return any(k == "__comments__" and v or has_comments(v) for k, v in dict.items(d))
    if isinstance(d, list):
        return any(map(has_comments, d))
    return False


def check(d, opts, out, **payload):
    try:
        m, text = verdict(d, opts)
    except P.Unspecified as ex:
        out.count("outside the domain")
        return
    if m:
        out.viol("printed", m, dictionary=repr(d)[:3000], text=text, opts=opts, **payload)


def to_dict(x, kind):
    """plain expected structure -> a dictionary as a user may build it"""
    if isinstance(x, G.ExprVal):
        return x.src
    if isinstance(x, dict):
        items = [(k, to_dict(v, kind)) for k, v in x.items()]
        if kind == "ci":
            d = CI(CI)
            for k, v in items:
                d[k] = v
            return d
        return OrderedDict(items) if kind == "od" else dict(items)
    if isinstance(x, list):
        return [to_dict(v, kind) for v in x]
    return x


def case_loaded(seed, out):
    rng = random.Random(seed)
    roots = G.gen_doc(rng)
    for f in G.doc_features(roots):
        out.feat(*f)
    text = G.render_doc(rng, roots, mode=rng.choice(["lines", "random"]))
    d = mappyfile.loads(text, include_position=rng.random() < 0.2)
    check(d, rng.choice(OPTS), out, source=text)
    if not out.samples:
        out.samples.append(text[:300])


def case_built(seed, out):
    rng = random.Random(seed)
    G.INNER_QUOTES = rng.random() < 0.4
    try:
        roots = G.gen_doc(rng)
    finally:
        G.INNER_QUOTES = False
    d = to_dict(G.expected_doc(roots), rng.choice(["ci", "od", "dict"]))
    for f in G.doc_features(roots):
        out.feat("built", *f)
    check(d, rng.choice(OPTS), out)


def objects(d):
    out = []
    if isinstance(d, dict) and "__type__" in d and d["__type__"] not in V.KVBLOCKS:
        out.append(d)
    it = dict.values(d) if isinstance(d, dict) else d if isinstance(d, list) else []
    for v in it:
        if isinstance(v, (dict, list)):
            out += objects(v)
    return out


def mixcase(rng, s, o=None):
    """keys of loaded dictionaries are case-insensitive; create() returns ordinary ordered dictionaries"""
    return G.case(rng, s) if isinstance(o, CI) else s


def edit(rng, root):
    """one random edit through the dict API; returns a label"""
    o = rng.choice(objects(root))
    t = o["__type__"]
    sl = V.slots().get(t, {})
    c = rng.random()
    keys = [k for k in sl if k != "include"]
    if c < 0.45 and keys:
        k = rng.choice(keys)
        shape, leaf = rng.choice(sl[k])
        it = G.gen_item(rng, t, k, shape, leaf, 1)
        if it is None:
            return "none"
        e = to_dict(G.expected(G.Obj(t, [it])), "ci")
        for kk in [x for x in e if x != "__type__"]:
            v = e[kk]
            how = rng.random()
            if isinstance(v, list) and v and isinstance(v[0], dict) and how < 0.7:
                if isinstance(o, CI):
                    o[mixcase(rng, kk, o)].append(v[0])  # auto-creates the list
                else:
                    o.setdefault(kk, []).append(v[0])
            elif how < 0.6:
                o[mixcase(rng, kk, o)] = v
            elif how < 0.75:
                o.update({mixcase(rng, kk, o): v})
            elif how < 0.9:
                mappyfile.update(o, {kk: v})
            else:
                o.setdefault(mixcase(rng, kk, o), v)
        return "set " + k
    if c < 0.6:
        ks = [k for k in dict.keys(o) if not k.startswith("__")]
        if ks:
            k = rng.choice(ks)
            if rng.random() < 0.5:
                del o[mixcase(rng, k, o)]
            else:
                o.pop(mixcase(rng, k, o))
            return "del"
        return "none"
    if c < 0.68:
        o[rng.choice(["__foo__", "__Type2__", "__x__", "____"])] = rng.choice(["x", 5, {"a": 1}, [1]])
        return "hidden"
    if c < 0.76:
        if not isinstance(o, CI):
            return "none"
        o[rng.choice(["layers", "classes", "styles", "symbols", "labels", "points_", "features"]) if rng.random() < 0.9 else "joins"]
        return "read"
    if c < 0.84 and "metadata" in sl:
        if not isinstance(o, CI) and "metadata" not in o:
            return "none"
        o["metadata"][rng.choice(["a", "WMS_Title", "x y"])] = rng.choice(["v", 5, 1.5, "é", "it's"])
        return "meta"
    if c < 0.92:
        for k in list(dict.keys(o)):
            if k in V.UNPLURAL and isinstance(o[k], list) and len(o[k]) > 1:
                o[k].reverse()
                return "reverse"
    return "none"


def fix_read(d):
    """reads of unknown missing keys leave an empty dictionary behind: that is refused, checked in case_refused"""
    for o in objects(d):
        for k in list(dict.keys(o)):
            if k == "points_":
                del o[k]


def case_edit(seed, out):
    rng = random.Random(seed)
    if rng.random() < 0.5:
        roots = G.gen_doc(rng)
        d = mappyfile.loads(G.render_doc(rng, roots, mode="lines"))
        while isinstance(d, list):
            d = d[0]
    else:
        d = mappyfile.create(rng.choice([t for t in V.BLOCKS]), version=rng.choice([None, 7.6, 8.0, 6.4]))
    if not objects(d):
        return
    labels = [edit(rng, d) for _ in range(rng.randrange(1, 7))]
    fix_read(d)
    for lab in labels:
        out.feat("edit", lab, d["__type__"])
    check(d, rng.choice(OPTS), out, edits=labels, seed=seed)


BAD = [
    ("empty dict", lambda: CI(CI)), ("empty plain dict", dict), ("dict without type", lambda: {"a": 1}), ("None", lambda: None),
    ("list with dict", lambda: [1, {}]), ("list with None", lambda: [1, None]), ("nested list", lambda: [[1, 2], 3]), ("empty list", list),
]


def case_refused(arg, out):
    t, k, i = arg
    name, mk = BAD[i]
    shapes = {s for s, _ in V.slots()[t].get(k, [])}
    if name == "empty list" and (k in V.UNPLURAL or k in V.REPEATED or k in ("projection", "points", "pattern")):
        return
    if k in V.KVBLOCKS or k == "config":
        # a key-value block may be empty; its values must be single values
        if isinstance(mk(), dict):
            return
        d = {"__type__": t, k: {"a": mk()}}
        if k != "config":
            d[k]["__type__"] = k
    elif name == "empty dict" and k not in V.UNPLURAL:
        d = CI(CI)
        d["__type__"] = t
        d[k]  # auto-created by reading
        if dict.__getitem__(d, k) != {}:
            return
    elif k in V.REPEATED and name in ("nested list", "list with dict", "list with None"):
        d = {"__type__": t, k: [mk()]}
    else:
        d = {"__type__": t, k: mk()}
    if k == "points" and name == "nested list":
        return
    out.feat("refused", t, k, name)
    try:
        text = mappyfile.dumps(d)
    except Exception:
        return
    out.viol("not-refused", "%s of %s with the value %r (%s) is written as %r" % (k, t, mk(), name, text), type=t, key=k, bad=name)


def unknown_keys(out):
    """keywords outside the schema follow the same lexical classes"""
    for k in ("foo", "x-y", "unknown_key"):
        for v in ["a b", 5, 1.5, True, "[a]", "([a] = 1)", "", "x'y", [1, 2], ["a", "b"], ["[a]", 3]]:
            check({"__type__": "layer", k: v}, {}, out)
            out.n += 1


def run(ctx):
    ctx.rules.append("dictionaries loaded, built by hand (three dict classes) and edited through the dict API are printed with several options; an "
                     "independent reader and the schema vocabulary decide what the text must contain; representation-less values must be refused "
                     "for every (block, keyword); non-trivial = distinct (block, keyword, value shape / edit / refused value).")
    d_layer.run(ctx, "C03")
    ctx.pmap(case_loaded, ctx.seeds(ctx.scale(3000), "loaded"))
    ctx.pmap(case_built, ctx.seeds(ctx.scale(5000), "built"))
    ctx.pmap(case_edit, ctx.seeds(ctx.scale(5000), "edit"))
    ctx.pmap(case_refused, [(t, k, i) for t, ks in V.slots().items() for k in ks for i in range(len(BAD))])
    from vlib.harness import Out

    o = Out()
    unknown_keys(o)
    ctx.absorb(o)
    findings.probe(ctx)


def replay(v):
    print(v["message"])
    print(v["payload"])
    return 1
