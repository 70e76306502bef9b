"""C18 update / find helpers obey their documented laws"""
import copy
import itertools
import random

from checks.common import *  # noqa: F401,F403
from mappyfile.ordereddict import CaseInsensitiveOrderedDict as CID
from vlib import d_layer, findings

LEVEL = "exploration"


class Unspec(Exception):
    pass


def is_delete(v):
    if isinstance(v, str):
        return v == "__delete__"
    return isinstance(v, dict) and bool(dict.get(v, "__delete__"))


def check_marker(v):
    if isinstance(v, dict) and "__delete__" in v and not dict.get(v, "__delete__"):
        raise Unspec()


def object_list(v):
    return isinstance(v, (list, tuple)) and len(v) > 0 and all(x is None or isinstance(x, dict) for x in v)


def merge(a, b, overwrite):
    """the documented result as plain data (ordered lists of pairs for dicts); a, b plain"""
    out = dict(a)
    for k, v in b.items():
        check_marker(v)
        if is_delete(v):
            out.pop(k, None)
        elif isinstance(v, dict):
            old = out.get(k, {})
            if not isinstance(old, dict):
                raise Unspec()
            out[k] = merge(old, v, overwrite)
        elif object_list(v):
            old = out.get(k, [])
            if not isinstance(old, (list, tuple)) or any(not isinstance(x, dict) for x in old):
                raise Unspec()
            new = []
            for i in range(max(len(old), len(v))):
                p = v[i] if i < len(v) else None
                check_marker(p)
                if i < len(old):
                    if p is None:
                        new.append(old[i])
                    elif not is_delete(p):
                        new.append(merge(old[i], p, overwrite))
                elif p is not None and not is_delete(p):
                    new.append(merge({}, p, overwrite))
            out[k] = new
        elif isinstance(v, (list, tuple)) and len(v) == 0:
            raise Unspec()
        elif overwrite or k not in out:
            out[k] = v
    return out


def fold(x):
    """plain data with lower-case keys (a Mapfile dictionary folds the keys of the patch)"""
    if isinstance(x, dict):
        return {k.lower() if isinstance(k, str) else k: fold(v) for k, v in dict.items(x)}
    if isinstance(x, list):
        return [fold(v) for v in x]
    if isinstance(x, tuple):
        return tuple(fold(v) for v in x)
    return x


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in dict.items(x)}
    if isinstance(x, list):
        return [plain(v) for v in x]
    if isinstance(x, tuple):
        return tuple(plain(v) for v in x)
    return x


def equal(a, b, order=True):
    """content, key order and types"""
    if isinstance(a, dict) and isinstance(b, dict):
        return list(dict.keys(a)) == list(dict.keys(b)) and all(equal(dict.__getitem__(a, k), dict.__getitem__(b, k)) for k in dict.keys(a))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


KEYS = ["name", "type", "layers", "classes", "web", "metadata", "extent", "a", "b"]


def rand_scalar(rng):
    return rng.choice([0, 1, 2.5, "x", "y", "", True, False, None, "__del", "delete", [1, 2], [0, 0, 0], ["a", None], [[1, 2], [3, 4]], (1, 2)])


def rand_obj(rng, depth):
    d = {}
    for k in rng.sample(KEYS, rng.randrange(0, 5)):
        c = rng.random()
        if depth and k in ("layers", "classes") and c < 0.9:
            d[k] = [rand_obj(rng, depth - 1) for _ in range(rng.randrange(0, 4))]
        elif depth and k in ("web", "metadata") and c < 0.9:
            d[k] = rand_obj(rng, depth - 1)
        elif k not in ("layers", "classes", "web", "metadata"):
            d[k] = rand_scalar(rng)
    return d


def rand_patch(rng, depth):
    d = {}
    for k in rng.sample(KEYS, rng.randrange(0, 5)):
        c = rng.random()
        if k in ("layers", "classes"):
            if c < 0.12:
                d[k] = "__delete__"
            elif depth:
                v = []
                for _ in range(rng.randrange(1, 5)):
                    x = rng.random()
                    v.append(None if x < 0.3 else {"__delete__": True} if x < 0.5 else dict(rand_patch(rng, depth - 1), __delete__=rng.choice([True, 1]))
                             if x < 0.55 else rand_patch(rng, depth - 1))
                d[k] = v if rng.random() < 0.85 else tuple(v)
        elif k in ("web", "metadata"):
            if c < 0.15:
                d[k] = {"__delete__": True}
            elif c < 0.25:
                d[k] = "__delete__"
            elif depth:
                d[k] = rand_patch(rng, depth - 1)
        else:
            d[k] = "__delete__" if c < 0.2 else rand_scalar(rng)
    return d


def as_cid(x):
    if isinstance(x, dict):
        d = CID(CID)
        for k, v in x.items():
            d[k] = as_cid(v)
        return d
    if isinstance(x, list):
        return [as_cid(v) for v in x]
    return x


def upcase(rng, x):
    if isinstance(x, dict):
        return {(G.case(rng, k) if k != "__delete__" else k): upcase(rng, v) for k, v in x.items()}
    if isinstance(x, list):
        return [upcase(rng, v) for v in x]
    return x


def check_update(d1, d2, ow, out, **payload):
    try:
        want = merge(plain(d1), fold(d2) if isinstance(d1, CID) else plain(d2), ow)
    except Unspec:
        out.count("unspecified")
        return
    a, b = copy.deepcopy(d1), copy.deepcopy(d2)
    ident = {}
    for k, v in dict.items(a):
        ident[k] = v
    folded = fold(d2) if isinstance(d1, CID) else d2
    msg = None
    try:
        r = mappyfile.update(a, b) if ow is True and len(repr(d2)) % 2 else mappyfile.update(a, b, overwrite=ow)
    except Exception as ex:
        out.viol("update", "raised %s" % exc_str(ex), d1=repr(d1), d2=repr(d2), overwrite=ow, **payload)
        return
    if r is not a:
        msg = "the result is not the dictionary that was passed in"
    elif not equal(want, fold(r) if isinstance(d1, CID) else plain(r)):  # dictionaries new in d1 are the plain ones of the patch
        msg = "the result is %r, expected %r" % (plain(r), want)
    elif any(dict.get(r, k) is not v for k, v in ident.items() if k not in folded):
        msg = "a key that is not mentioned was replaced"
    elif type(r) is not type(d1):
        msg = "the class changed"
    if msg:
        out.viol("update", msg, d1=repr(d1), d2=repr(d2), overwrite=ow, **payload)


def case_update(seed, out):
    rng = random.Random(seed)
    d1, d2 = rand_obj(rng, 3), rand_patch(rng, 3)
    kind = rng.random()
    if kind < 0.4:
        d1 = as_cid(d1)
        if rng.random() < 0.5:
            d2 = as_cid(d2)
        elif rng.random() < 0.5:
            d2 = upcase(rng, d2)
    for ow in (True, False):
        check_update(d1, d2, ow, out, seed=seed)
    out.feat("update", hash(repr((d1, d2))))
    if not out.samples:
        out.samples.append(repr((plain(d1), plain(d2)))[:300])


def case_loaded_update(seed, out):
    rng = random.Random(seed)
    roots = [r for r in G.gen_doc(rng) if r.type not in V.KVBLOCKS]
    if not roots:
        return
    d = mappyfile.loads(G.render_doc(rng, roots[:1], mode="lines"), **rng.choice([{}, {"include_position": True, "include_comments": True}]))

    def patch(x, depth):
        p = {}
        for k, v in list(dict.items(x)):
            if k.startswith("__") or rng.random() < 0.5:
                continue
            if isinstance(v, dict):
                p[k] = rng.choice([{"__delete__": True}, "__delete__"]) if rng.random() < 0.2 else patch(v, depth - 1)
            elif k in V.UNPLURAL:
                p[k] = [None if rng.random() < 0.4 else {"__delete__": True} if rng.random() < 0.3 else patch(o, depth - 1) for o in v]
                if rng.random() < 0.4:
                    p[k].append({"__type__": V.UNPLURAL[k], "name": "new"})
                if not p[k]:
                    del p[k]
            else:
                p[k] = rng.choice(["__delete__", "new", 3, [1, 2, 3]])
        if rng.random() < 0.5:
            p["name"] = "added"
        return p

    p = patch(d, 3)
    for ow in (True, False):
        check_update(d, p, ow, out, seed=seed)
    out.feat("loaded", hash(repr(p)))


def case_small(item, out):
    """exhaustive: one key, every kind of old value x every kind of new value"""
    cid, ow = item
    olds = ["absent", 1, "s", [1, 2], {"x": 1}, {}, [], [{"x": 1}], [{"x": 1}, {"y": 2}], [{"x": 1}, {"x": 2}, {"x": 3}]]
    pieces = [None, {"__delete__": True}, {"x": 9}, {"x": "__delete__"}, {"z": {"k": 1}}, {}, {"z": {"__delete__": True}}, {"z": [{"q": 1}, None]}]
    news = [2, "t", [3], ["__delete__"], "__delete__", {"__delete__": True}, {"x": 5}, {"x": "__delete__"}, {"n": {"m": "__delete__"}}, {}, None, True]
    news += [list(c) for n in (1, 2, 3) for c in itertools.product(pieces, repeat=n)] if not cid else [list(c) for n in (1, 2) for c in itertools.product(pieces, repeat=n)]
    for o in olds:
        for v in news:
            d1 = {"first": 0, "last": [1]}
            if o != "absent":
                d1 = {"first": 0, "k": copy.deepcopy(o), "last": [1]}
            d2 = {"k": copy.deepcopy(v)}
            if cid:
                d1, d2 = as_cid(d1), as_cid(d2)
            check_update(d1, d2, ow, out)
            out.count("small")
    out.feat("small", cid, ow)


# ---------------------------------------------------------------- queries


def snapshot(x):
    return repr(plain(x)), [(type(i), list(dict.keys(i))) for i in x if isinstance(i, dict)] if isinstance(x, list) else None


def case_query(seed, out):
    rng = random.Random(seed)
    key = rng.choice(["name", "group", "Type", "STATUS", "classes", "styles", "extent"])
    k = key.lower()
    pool = rng.choice([["a", "b", "A", "ab", "", "é", "b "], [0, 1, 2, -1, 2.5], ["a", 1, True, 0, False, 1.0, "1"], [[1, 2], [1], "x"]])
    items = []
    for _ in range(rng.randrange(0, 8)):
        d = {"__type__": "layer"}
        if rng.random() < 0.3:
            d["other"] = rng.choice(pool)
        if rng.random() < 0.7:
            d[k] = copy.deepcopy(rng.choice(pool))
        if rng.random() < 0.3:
            d["name2"] = "a"
        items.append(CID(CID, list(d.items())) if rng.random() < 0.7 else d)
    frozen = snapshot(items)
    value = copy.deepcopy(rng.choice(pool + ["zz", None]))
    has = [i for i in items if k in dict.keys(i)]

    def report(what, got, want):
        out.viol("query", "%s(%r, %r) gave %r, expected %r" % (what, key, value, got, want), items=repr(items), seed=seed)

    want = next((i for i in has if dict.get(i, k) == value), None)
    got = mappyfile.find(items, key, value)
    if got is not want:
        return report("find", got, want)
    if not isinstance(value, (list, tuple)):
        want = [i for i in has if dict.get(i, k) == value]
        got = mappyfile.findall(items, key, value)
        if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
            return report("findall", got, want)
    values = [copy.deepcopy(rng.choice(pool + ["zz"])) for _ in range(rng.randrange(0, 4))]
    want = [i for i in has if any(dict.get(i, k) == v for v in values)]
    if not any(dict.get(i, k) == values for i in has):
        value = values if rng.random() < 0.7 else tuple(values)
        got = mappyfile.findall(items, key, value)
        if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
            return report("findall", got, want)
    vals = [dict.get(i, k) for i in has]
    try:
        want = sorted(set(vals))
    except TypeError:
        want = None  # unhashable or not comparable
    if want is not None:
        got = mappyfile.findunique(items, key)
        if got != want or type(got) is not list:
            return report("findunique", got, want)
    if snapshot(items) != frozen:
        out.viol("query", "the items were changed: %s -> %s" % (frozen, snapshot(items)), seed=seed)
    out.feat("query", k, len(items), len(has), str(type(value)))


def case_findkey(seed, out):
    rng = random.Random(seed)
    d = as_cid(rand_obj(rng, 3)) if rng.random() < 0.6 else rand_obj(rng, 3)
    frozen = repr(plain(d))
    paths = [((), d)]

    def walk(x, p):
        if isinstance(x, dict):
            it = list(dict.items(x))
        elif isinstance(x, (list, tuple)):
            it = list(enumerate(x))
        else:
            return
        for k, v in it:
            paths.append((p + (k,), v))
            walk(v, p + (k,))

    walk(d, ())
    for p, v in paths:
        q = tuple(k.upper() if isinstance(k, str) and isinstance(d, CID) and rng.random() < 0.3 else k for k in p)
        got = mappyfile.findkey(d, *q)
        if got is not v and not (type(got) is type(v) and got == v and not isinstance(v, (dict, list))):
            out.viol("query", "findkey%r gave %r, expected %r" % (q, got, v), d=repr(plain(d)), seed=seed)
            return
    if repr(plain(d)) != frozen:
        out.viol("query", "findkey changed the dictionary", d=frozen, seed=seed)
    for k in ("layers", "missing", "classes"):
        try:
            mappyfile.findkey(d, k)
        except (KeyError, IndexError):
            pass
    if repr(plain(d)) != frozen:
        out.viol("query", "findkey changed the dictionary", d=frozen, seed=seed)
    out.feat("findkey", len(paths))


def run(ctx):
    ctx.rules.append("update: exhaustive kinds of (old value, new value) for one key, random nested dictionaries and patches (plain and Mapfile dicts, deletions, None "
                     "placeholders, new keys, both overwrite modes) and loaded documents against a reference merge (content, key order, types, identity of "
                     "untouched values); find/findall/findunique/findkey on random lists against comprehensions. non-trivial = distinct (d1, d2), query shapes.")
    d_layer.run(ctx, "C18")
    ctx.pmap(case_small, [(c, o) for c in (False, True) for o in (True, False)], chunk=1, secs=120)
    ctx.pmap(case_update, ctx.seeds(ctx.scale(12000), "update"))
    ctx.pmap(case_loaded_update, ctx.seeds(ctx.scale(1500), "loaded"))
    ctx.pmap(case_query, ctx.seeds(ctx.scale(12000), "query"))
    ctx.pmap(case_findkey, ctx.seeds(ctx.scale(3000), "findkey"))
    findings.probe(ctx)


def replay(v):
    print(v["message"])
    print(v["payload"])
    return 1
