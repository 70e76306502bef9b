"""C17 Mapfile dicts behave as case-insensitive, insertion-ordered dicts"""
import copy
import itertools
import pickle
import random
from collections import OrderedDict

from checks.common import *  # noqa: F401,F403
from mappyfile.ordereddict import CaseInsensitiveOrderedDict as CID
from vlib import d_layer, findings

LEVEL = "exploration"
LISTKEYS = tuple(V.UNPLURAL)  # layers, classes, ...
MISSING = object()


def low(k):
    return k.lower() if isinstance(k, str) else k


class Ref:
    """an ordinary ordered dict keyed by the lower-cased keys"""

    def __init__(self, factory):
        self.d, self.factory = {}, factory

    def get_item(self, k):
        k = low(k)
        if k in self.d:
            return self.d[k]
        if not self.factory:
            raise KeyError(k)
        v = [] if k in LISTKEYS else ("fresh dict",)
        self.d[k] = v
        return v


def variants(k):
    if not isinstance(k, str):
        return [k]
    return sorted({k.lower(), k.upper(), k.capitalize(), k.swapcase()})


def same(a, b):
    """value equality with ('fresh dict',) standing for a new empty Mapfile dict"""
    if b == ("fresh dict",):
        return isinstance(a, CID) and len(a) == 0
    return type(a) is type(b) and a == b


def state_diff(d, ref, keys):
    if type(d) is not CID:
        return "the class became %s" % type(d).__name__
    ks = list(ref.d)
    for name, got in (("keys()", list(d.keys())), ("iteration", list(d)), ("items()", [k for k, _ in d.items()]), ("dict.keys", list(dict.keys(d)))):
        if got != ks:
            return "%s is %r, expected %r" % (name, got, ks)
    if len(d) != len(ks):
        return "len is %d, expected %d" % (len(d), len(ks))
    for (k, v), w, x in zip(d.items(), d.values(), ref.d.values()):
        if not same(v, x) or not same(w, x):
            return "the value of %r is %r, expected %r" % (k, v, x)
    for k in keys:
        for kk in variants(k):
            if (kk in d) != (low(kk) in ref.d):
                return "%r in d is %s" % (kk, kk in d)
            if low(kk) in ref.d:
                for how, v in (("d[%r]" % (kk,), d[kk]), ("get(%r)" % (kk,), d.get(kk))):
                    if not same(v, ref.d[low(kk)]):
                        return "%s is %r, expected %r" % (how, v, ref.d[low(kk)])
            elif d.get(kk) is not None or d.get(kk, 7) != 7:
                return "get(%r) is %r for a missing key" % (kk, d.get(kk))
    return None


def apply(d, ref, op):
    """run op on both; -> description of a difference or None"""
    name, a = op[0], op[1:]

    def both(f, g):
        try:
            y, ey = g(), None
        except Exception as ex:
            y, ey = None, type(ex)
        try:
            x, ex_ = f(), None
        except Exception as ex:
            x, ex_ = None, type(ex)
        if ex_ is not ey:
            return "%r: %s, expected %s" % (op, ex_.__name__ if ex_ else "no error", ey.__name__ if ey else "no error")
        if ey is None and not same(x, y) and not (x is None and y is None):
            return "%r returned %r, expected %r" % (op, x, y)
        return None

    if name == "get":
        return both(lambda: d[a[0]], lambda: ref.get_item(a[0]))
    if name == "set":
        return both(lambda: d.__setitem__(*a), lambda: ref.d.__setitem__(low(a[0]), a[1]))
    if name == "del":
        return both(lambda: d.__delitem__(a[0]), lambda: ref.d.__delitem__(low(a[0])))
    if name == "getm":
        return both(lambda: d.get(*a), lambda: ref.d.get(low(a[0]), *a[1:]))
    if name == "pop":
        return both(lambda: d.pop(*a), lambda: ref.d.pop(low(a[0]), *a[1:]))
    if name == "setdefault":
        return both(lambda: d.setdefault(*a), lambda: ref.d.setdefault(low(a[0]), *a[1:]))
    if name == "in":
        return both(lambda: a[0] in d, lambda: low(a[0]) in ref.d)
    if name == "update":
        how, pairs = a
        for k, v in pairs:
            ref.d[low(k)] = v
        if how == "dict":
            # a plain dict keeps the first position and the last value of a key as well
            ref_pairs = dict(pairs)
            d.update(ref_pairs)
        elif how == "pairs":
            d.update(list(pairs))
        elif how == "iter":
            d.update(iter(list(pairs)))
        elif how == "od":
            d.update(OrderedDict(pairs))
        elif how == "cid":
            d.update(CID(CID, pairs))
        elif how == "cid0":
            d.update(CID(None, pairs))
        else:
            d.update(**dict(pairs))
        return None
    raise AssertionError(op)


def copies(d, ref, keys, rng=None):
    for name, f in COPIES:
        try:
            e = f(d)
        except Exception as ex:
            return "%s raised %s" % (name, exc_str(ex))
        m = state_diff(e, ref, keys)
        if m:
            return "%s: %s" % (name, m)
        if not (e == d and d == e):
            return "%s is not equal" % name
        if e is d:
            return "%s is the same object" % name
        # same behaviour: default factory, folding
        r2 = Ref(ref.factory)
        r2.d = dict(ref.d)
        for op in (("get", "LAYERS"), ("set", "NEW", 1), ("get", "Zz"), ("pop", "nEW")):
            m = apply(e, r2, op)
            if m:
                return "%s behaves differently: %s" % (name, m)
        m = state_diff(e, r2, keys)
        if m:
            return "%s behaves differently: %s" % (name, m)
        m = state_diff(d, ref, keys)
        if m:
            return "changing %s changed the original: %s" % (name, m)
    return None


COPIES = [("copy()", lambda d: d.copy()), ("copy.copy", copy.copy), ("copy.deepcopy", copy.deepcopy)] + [
    ("pickle protocol %d" % p, lambda d, p=p: pickle.loads(pickle.dumps(d, p))) for p in range(pickle.HIGHEST_PROTOCOL + 1)]


def ops_for(keys, values):
    out = []
    for k in keys:
        for kk in variants(k)[:3]:
            out += [("get", kk), ("del", kk), ("in", kk), ("getm", kk), ("getm", kk, 5), ("pop", kk), ("pop", kk, None), ("pop", kk, 5), ("setdefault", kk)]
            for v in values:
                out += [("set", kk, v), ("setdefault", kk, v)]
            out.append(("update", "dict", ((kk, values[0]),)))
            out.append(("update", "kw", ((kk, values[1]),)) if isinstance(kk, str) else ("update", "pairs", ((kk, values[1]),)))
    for ks in itertools.permutations(keys, 2):
        a, b = (k.upper() if isinstance(k, str) else k for k in ks)
        for how in ("dict", "pairs", "iter", "od", "cid", "cid0"):
            out.append(("update", how, ((a, values[1]), (b, values[0]))))
        if all(isinstance(k, str) for k in ks):
            out.append(("update", "pairs", ((a, 1), (b, 2), (a.lower(), 3))))
            out.append(("update", "dict", ((a, 1), (b, 2), (a.lower(), 3))))
            out.append(("update", "kw", ((a, 1), (b, 2), (a.lower(), 3))))
    return out


def build(factory, pairs, how):
    f = CID if factory else None
    if how == 0:
        d = CID(f)
        for k, v in pairs:
            d[k] = v
        return d
    if how == 1:
        return CID(f, list(pairs))
    if how == 2:
        return CID(f, OrderedDict(pairs))
    if how == 3:
        return CID(f, dict(pairs))
    if how == 4 and all(isinstance(k, str) for k, _ in pairs):
        return CID(f, **dict(pairs))
    if how == 5:
        return CID(f, iter(list(pairs)))
    return CID(f, CID(CID, pairs))


KEYSETS = [("a", "B", "layers"), ("Name", "classes", 7), ("é", "points", "Styles"), ("__type__", "x", "scaletokens")]


def case_states(item, out):
    """every operation in every reachable state over three keys"""
    keys, factory, how = item
    values = [1, "Ab", [1, 2]]
    vals2 = {0: 1, 1: [1, 2]}
    ops = ops_for(keys, values)
    for n in range(len(keys) + 1):
        for ks in itertools.permutations(keys, n):
            for vs in itertools.product(vals2.values(), repeat=n):
                pairs = [(k, copy.copy(v)) for k, v in zip(ks, vs)]
                ref = Ref(factory)
                for k, v in pairs:
                    ref.d[low(k)] = v
                d = build(factory, pairs, how)
                m = state_diff(d, ref, keys) or copies(d, ref, keys)
                if m:
                    out.viol("state", "built from %r (construction %d, default factory %s): %s" % (pairs, how, factory, m), pairs=repr(pairs))
                    return
                for op in ops:
                    d = build(factory, pairs, how)
                    ref = Ref(factory)
                    for k, v in pairs:
                        ref.d[low(k)] = v
                    m = apply(d, ref, op) or state_diff(d, ref, keys)
                    out.count("steps")
                    if m:
                        out.viol("step", "built from %r (construction %d, default factory %s), then %r: %s" % (pairs, how, factory, op, m), pairs=repr(pairs), op=repr(op))
                        return
                out.feat("state", ks, repr(vs), factory, how)


def rand_key(rng):
    k = rng.choice(["a", "b", "name", "layers", "classes", "metadata", "é", "ß", "İ", "x y", "", 3, None, (1, 2), "styles", "k%d" % rng.randrange(4)])
    if isinstance(k, str):
        k = rng.choice([k, k.upper(), k.swapcase(), k.capitalize()])
        if k.lower() != k.lower().lower() or len(k.lower()) != len(k):
            k = "i"
    return k


def rand_value(rng, depth=2):
    c = rng.random()
    if c < 0.3:
        return rng.choice([0, 1, -2.5, True, None, "x", "", "ABC"])
    if c < 0.6 or depth == 0:
        return [rng.randrange(5) for _ in range(rng.randrange(3))]
    if c < 0.8:
        return {"K": rand_value(rng, depth - 1)}
    return CID(CID, [("Key", rand_value(rng, depth - 1))])


def case_seq(seed, out):
    rng = random.Random(seed)
    factory = rng.random() < 0.7
    d, ref = CID(CID if factory else None), Ref(factory)
    trace = []
    keys = []
    for _ in range(rng.randrange(5, 60)):
        k = rand_key(rng)
        keys.append(k)
        name = rng.choice(["get", "set", "set", "set", "del", "getm", "pop", "setdefault", "in", "update", "copy", "del", "pop"])
        if name in ("get", "del", "in"):
            op = (name, k)
        elif name == "set":
            op = (name, k, rand_value(rng))
        elif name in ("getm", "pop", "setdefault"):
            op = (name, k) if rng.random() < 0.5 else (name, k, rand_value(rng))
        elif name == "update":
            pairs = tuple((rand_key(rng), rand_value(rng)) for _ in range(rng.randrange(4)))
            keys += [p[0] for p in pairs]
            how = rng.choice(["dict", "pairs", "iter", "od", "cid", "cid0", "kw"])
            if how == "kw" and not all(isinstance(p[0], str) for p in pairs):
                how = "pairs"
            op = (name, how, pairs)
        else:
            op = ("copy", rng.choice(COPIES))
        trace.append(op if name != "copy" else ("copy", op[1][0]))
        if name == "copy":
            d = op[1][1](d)
            m = None
        else:
            m = apply(d, ref, op)
        m = m or state_diff(d, ref, keys[-6:])
        if m:
            out.viol("sequence", "default factory %s: %s" % (factory, m), trace=repr(trace), seed=seed)
            return
    m = copies(d, ref, keys[-6:])
    if m:
        out.viol("sequence", "default factory %s: %s" % (factory, m), trace=repr(trace), seed=seed)
    out.feat("seq", tuple(t[0] for t in trace[:6]), factory)


def mutables(x, seen):
    if isinstance(x, dict):
        seen[id(x)] = x
        for v in dict.values(x):
            mutables(v, seen)
    elif isinstance(x, (list, tuple)):
        if isinstance(x, list):
            seen[id(x)] = x
        for v in x:
            mutables(v, seen)
    return seen


def dicts_of(x, out, path="$"):
    if isinstance(x, dict):
        out.append((path, x))
        for k, v in dict.items(x):
            if k in ("__position__", "__comments__"):
                continue
            dicts_of(v, out, path + "." + str(k))
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            dicts_of(v, out, "%s[%d]" % (path, i))
    return out


def case_loaded(seed, out):
    """every dictionary inside a loaded document"""
    rng = random.Random(seed)
    roots = G.gen_doc(rng)
    text = G.render_doc(rng, roots)
    kw = rng.choice([{}, {"include_position": True}, {"include_comments": True}])
    d = mappyfile.loads(text, **kw)
    for path, x in dicts_of(d, []):
        if not isinstance(x, CID):
            out.viol("loaded", "%s is a %s" % (path, type(x).__name__), text=text)
            return
        for k in list(dict.keys(x)):
            if isinstance(k, str) and k != k.lower():
                out.viol("loaded", "%s has the key %r" % (path, k), text=text)
                return
            for kk in variants(k):
                if kk.lower() == k and (kk not in x or x[kk] is not dict.__getitem__(x, k) or x.get(kk) is not dict.__getitem__(x, k)):
                    out.viol("loaded", "%s: key %r read as %r" % (path, k, kk), text=text)
                    return
    for name, f in COPIES:
        for r in (d if isinstance(d, list) else [d]):
            e = f(r)
            if e != r or repr(e) != repr(r) or type(e) is not type(r):
                out.viol("loaded", "%s is not equal" % name, text=text)
                return
            for (path, a), (_, b) in zip(dicts_of(r, []), dicts_of(e, [])):
                if type(a) is not type(b) or list(dict.keys(a)) != list(dict.keys(b)) or getattr(a, "default_factory", 0) is not getattr(b, "default_factory", 0):
                    out.viol("loaded", "%s: %s differs in class, order or default factory" % (name, path), text=text)
                    return
            if "deepcopy" in name or "pickle" in name:
                shared = set(mutables(r, {})) & set(mutables(e, {}))
                if shared:
                    out.viol("loaded", "%s shares %d mutable objects with the original" % (name, len(shared)), text=text)
                    return
    # a missing object list: new, stored, empty
    xs = [x for p, x in dicts_of(d, []) if "layers" not in x]
    for x in xs[:3]:
        k = rng.choice([k for k in LISTKEYS if k not in x] or ["layers"])
        if k in x:
            continue
        before = list(dict.keys(x))
        v = x[rng.choice(variants(k))]
        if v != [] or type(v) is not list or dict.get(x, k) is not v or list(dict.keys(x)) != before + [k]:
            out.viol("loaded", "reading the missing key %r gave %r, keys %r" % (k, v, list(dict.keys(x))), text=text)
            return
        if any(v is w for y in xs if y is not x for w in dict.values(y)):
            out.viol("loaded", "the new list is shared", text=text)
            return
        v.append(1)
        if x[k] is not v or CID(CID)[k] != []:
            out.viol("loaded", "the new list is shared or not kept", text=text)
            return
    out.feat("loaded", hash(text))


def run(ctx):
    ctx.rules.append("every listed operation (get/set/delete/membership/get()/pop/setdefault/update/construction, in several cases of each key) in every state over "
                     "three keys, with and without a default factory, for 7 ways of construction; random operation sequences; all dictionaries inside "
                     "loaded documents; copy/deepcopy/pickle (all protocols). reference = an ordered dict keyed by lower-cased keys. "
                     "non-trivial = distinct states, operation prefixes, documents.")
    d_layer.run(ctx, "C17")
    ctx.pmap(case_states, [(k, f, h) for k in (KEYSETS if ctx.thorough else KEYSETS[:2] + KEYSETS[3:]) for f in (True, False) for h in range(7)], chunk=1, secs=120)
    ctx.pmap(case_seq, ctx.seeds(ctx.scale(6000), "seq"))
    ctx.pmap(case_loaded, ctx.seeds(ctx.scale(800), "loaded"))
    findings.probe(ctx)


def replay(v):
    print(v["message"])
    print(v["payload"])
    return 1
