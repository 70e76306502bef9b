"""C12 calls are pure, history independent and safe to run concurrently"""
import copy
import io
import json
import multiprocessing as mp
import os
import random
import shutil
import sys
import tempfile
import threading

from checks.common import *  # noqa: F401,F403
from checks.c07 import inject
from checks.c03 import objects
from vlib import d_layer, fast, findings
from vlib import wild as W

LEVEL = "exploration"


def snap(x):
    """deep, typed, order-preserving description of a value"""
    if isinstance(x, dict):
        return (type(x).__name__, tuple((k, snap(v)) for k, v in dict.items(x)), id_default(x))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(map(snap, x)))
    return (type(x).__name__, repr(x))


def id_default(x):
    return getattr(x, "default_factory", None)


def outcome(fn, *a, **k):
    try:
        return ("ok", snap(fn(*a, **k)))
    except Exception as ex:
        return ("error", type(ex).__name__, getattr(ex, "line", None), getattr(ex, "column", None))


# ---- purity of every call


def case_pure(seed, out):
    from checks.c01 import options

    rng = random.Random(seed)
    if rng.random() < 0.8:
        text = G.render_doc(rng, G.gen_doc(rng), mode=rng.choice(["lines", "random"]), comments=rng.random() < 0.3)
    else:
        text = W.doc(rng)
    try:
        d = mappyfile.loads(text, expand_includes=False, include_position=rng.random() < 0.3, include_comments=rng.random() < 0.3)
    except LarkError:
        return
    roots = d if isinstance(d, list) else [d]
    if rng.random() < 0.4:
        for r in roots:
            if objects(r):
                inject(rng, r)
    calls = []
    opts = options(rng)
    calls.append(("dumps", lambda: mappyfile.dumps(d, **opts)))
    calls.append(("dumps comments", lambda: mappyfile.dumps(d, end_comment=True, align_values=True)))
    calls.append(("dump", lambda: mappyfile.dump(d, io.StringIO(), **opts)))
    v = rng.choice([None, 7.6, 8.0, 5.0])
    calls.append(("validate", lambda: mappyfile.validate(d, version=v) if v else mappyfile.validate(d)))
    for o in [o for r in roots for o in objects(r)][:6]:
        for k in list(dict.keys(o)) + ["layers", "classes"]:
            lst = dict.get(o, k)
            if not (isinstance(lst, list) and lst and isinstance(lst[0], dict)):
                continue
            key = rng.choice(["name", "NAME", "type", "classes", "styles", "nokey", "data", "status", "__type__"])
            val = rng.choice(["x", "a", 1, None, True, {}, []] + [dict.get(i, key.lower()) for i in lst if isinstance(i, dict)])
            calls.append(("find", lambda lst=lst, key=key, val=val: mappyfile.find(lst, key, val)))
            calls.append(("findall", lambda lst=lst, key=key, val=val: mappyfile.findall(lst, key, val)))
            calls.append(("findall list", lambda lst=lst, key=key, val=val: mappyfile.findall(lst, key, [val, "x"])))
            calls.append(("findall tuple", lambda lst=lst, key=key, val=val: mappyfile.findall(lst, key, val, "y")))
            calls.append(("findunique", lambda lst=lst, key=key: mappyfile.findunique(lst, key)))
            calls.append(("findkey", lambda o=o, k=k, key=key: mappyfile.findkey(o, k, 0, key)))
            calls.append(("findkey", lambda o=o, k=k: mappyfile.findkey(o, k)))
    rng.shuffle(calls)
    before = snap(d)
    for name, fn in calls:
        try:
            fn()
        except Exception:
            pass
        out.n += 1
        if snap(d) != before:
            out.viol("modified", "%s changed the dictionary passed to it" % name, before=repr(before)[:2000], after=repr(snap(d))[:2000], text=text)
            return
        out.feat("pure", name, seed % 50)
    # a second identical call has the same result
    for name, fn in calls[:4]:
        if outcome(fn) != outcome(fn):
            out.viol("repeat", "%s differs between two identical calls" % name, text=text)


# ---- histories


def work(text, opts, popts):
    """everything the public API says about one text"""
    res = [outcome(mappyfile.loads, text, expand_includes=False, **opts)]
    if res[0][0] == "ok":
        d = mappyfile.loads(text, expand_includes=False, **opts)
        res.append(outcome(mappyfile.dumps, d, **popts))
        res.append(outcome(mappyfile.validate, d))
        res.append(outcome(mappyfile.validate, d, version=popts.get("indent", 4) + 3.0))
    return res


def make_docs(rng, n):
    from checks.c01 import options

    docs = []
    corp = corpus()
    while len(docs) < n:
        c = rng.random()
        if c < 0.5:
            text = G.render_doc(rng, G.gen_doc(rng), mode="random" if rng.random() < 0.5 else "lines", comments=rng.random() < 0.6)
        elif c < 0.6:
            text = "# a\nMAP # b\n NAME 'x' # c\n /* d */ LAYER # e\n TYPE POINT # f\n METADATA # g\n 'a' 'b' # h\n END\n END\nEND # i"
            text = text.replace("x", "n%d" % rng.randrange(9))
        elif c < 0.75:
            text = rng.choice(["MAP NAME 'x'", "LAYER TYPE (", "# only\nfoo bar baz END", "MAP # c\n LAYER # d\n END END END", "'", "", "CLASS EXPRESSION ([a] = ) END",
                               "SYMBOL NAME 'a' # x", "LAYER # c1\n # c2\n NAME NAME NAME", "MAP\n/* open"])
        elif c < 0.9:
            try:
                text = corpus_text(rng.choice(corp))
            except UnicodeDecodeError:
                continue
            if len(text) > 6000:
                continue
        else:
            text = W.doc(rng)
        o = {}
        if rng.random() < 0.5:
            o["include_comments"] = True
        if rng.random() < 0.3:
            o["include_position"] = True
        docs.append((text, o, options(rng)))
    return docs


def _fresh(doc, q):
    import logging

    logging.disable(logging.CRITICAL)
    q.put(work(*doc))


def fresh_processes(docs):
    """the answers of new processes that did nothing else (forked from the main thread, eight at a time)"""
    c = mp.get_context("fork")
    out = []
    for i in range(0, len(docs), 8):
        batch = []
        for doc in docs[i:i + 8]:
            q = c.SimpleQueue()
            p = c.Process(target=_fresh, args=(doc, q))
            p.start()
            batch.append((p, q))
        for p, q in batch:
            out.append(q.get())
            p.join()
    return out


class Workers:
    """reused Parser / MapfileToDict / PrettyPrinter / Validator objects"""

    def __init__(self):
        from mappyfile.parser import Parser
        from mappyfile.validator import Validator

        self.parsers = {c: Parser(expand_includes=False, include_comments=c) for c in (False, True)}
        self.trans = {}
        self.printers = {}
        self.validator = Validator()

    def loads(self, text, include_comments=False, include_position=False):
        from mappyfile.transformer import MapfileToDict

        k = (include_comments, include_position)
        if k not in self.trans:
            self.trans[k] = MapfileToDict(include_position=include_position, include_comments=include_comments)
        return self.trans[k].transform(self.parsers[include_comments].parse(text))

    def dumps(self, d, **o):
        from mappyfile.pprint import PrettyPrinter

        k = tuple(sorted(o.items()))
        if k not in self.printers:
            self.printers[k] = PrettyPrinter(**o)
        return self.printers[k].pprint(d)

    def work(self, text, opts, popts):
        res = [outcome(self.loads, text, **opts)]
        if res[0][0] == "ok":
            d = self.loads(text, **opts)
            res.append(outcome(self.dumps, d, **popts))
            res.append(outcome(self.validator.validate, d))
            res.append(outcome(self.validator.validate, d, version=popts.get("indent", 4) + 3.0))
        return res


def case_history(arg, out):
    docs, expected, seed = arg
    rng = random.Random(seed)
    ws = Workers()
    trace = []
    for _ in range(40):
        i = rng.randrange(len(docs))
        trace.append(i)
        got = ws.work(*docs[i])
        out.n += 1
        out.feat("history", seed, tuple(trace[-2:]))
        if got != expected[i]:
            out.viol("history", "reused objects give another result for document %d after %r" % (i, trace[-4:-1]), text=docs[i][0], opts=docs[i][1:],
                     want=repr(expected[i])[:1500], got=repr(got)[:1500], earlier=[docs[j][0] for j in trace[-3:-1]])
            return
        # a caller that edits a result changes nobody else's
        if rng.random() < 0.3 and got[0][0] == "ok":
            d = ws.loads(docs[i][0], **docs[i][1])
            for x in d if isinstance(d, list) else [d]:
                scramble(x)


def scramble(x):
    if isinstance(x, dict):
        for v in list(dict.values(x)):
            scramble(v)
        x["zz"] = 1
    elif isinstance(x, list):
        for v in x:
            scramble(v)
        x.append("zz")


def case_public_history(arg, out):
    docs, expected, seed = arg
    rng = random.Random(seed)
    for _ in range(10):
        i = rng.randrange(len(docs))
        got = work(*docs[i])
        out.n += 1
        out.feat("public", seed, i)
        if got != expected[i]:
            out.viol("history", "the public functions give another result later in the process", text=docs[i][0], opts=docs[i][1:],
                     want=repr(expected[i])[:1500], got=repr(got)[:1500])
            return


def case_threads(arg, out):
    docs, expected, seed, nthreads, rounds = arg
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    bad = []
    try:
        barrier = threading.Barrier(nthreads)

        def run(k):
            rng = random.Random(seed * 100 + k)
            barrier.wait()
            for _ in range(rounds):
                i = rng.randrange(len(docs))
                got = work(*docs[i])
                if got != expected[i]:
                    bad.append((i, got))
                    return

        ts = [threading.Thread(target=run, args=(k,)) for k in range(nthreads)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        sys.setswitchinterval(old)
    out.n += nthreads * rounds
    out.feat("threads", seed)
    for i, got in bad[:1]:
        out.viol("threads", "concurrent calls give another result", text=docs[i][0], opts=docs[i][1:], want=repr(expected[i])[:1500], got=repr(got)[:1500])


def case_shared(seed, out):
    """threads that read, print, validate and query one dictionary"""
    rng = random.Random(seed)
    text = G.render_doc(rng, [G.gen_obj(rng, "map", 3, nkeys=10)], mode="lines")
    d = mappyfile.loads(text)
    before = snap(d)
    want = [outcome(mappyfile.dumps, d), outcome(mappyfile.validate, d), outcome(mappyfile.findall, d["layers"] if "layers" in d else [], "name", "x")]
    bad = []
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        def run():
            for _ in range(6):
                got = [outcome(mappyfile.dumps, d), outcome(mappyfile.validate, d),
                       outcome(mappyfile.findall, d["layers"] if "layers" in d else [], "name", "x")]
                if got != want:
                    bad.append(got)

        ts = [threading.Thread(target=run) for _ in range(4)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        sys.setswitchinterval(old)
    out.feat("shared", seed)
    if bad:
        out.viol("threads", "concurrent calls on one dictionary differ", text=text, want=repr(want)[:1000], got=repr(bad[0])[:1000])
    if snap(d) != before:
        out.viol("modified", "concurrent reading calls changed the dictionary", text=text)


def files(ctx):
    """open / load / save leave files, text and working directory alone; repeated opens agree, also with includes"""
    tmp = tempfile.mkdtemp(prefix="c12")
    try:
        for n in range(ctx.scale(6, 40)):
            rng = ctx.rng("files", n)
            text = G.render_doc(rng, [G.gen_obj(rng, "map", 2, nkeys=6)], mode="lines")
            inc = os.path.join(tmp, "inc.map")
            with open(inc, "w", encoding="utf-8") as f:
                f.write("NAME 'included %d'\n" % n)
            p = os.path.join(tmp, "root%d.map" % n)
            text = text.replace("\nEND", "\nINCLUDE 'inc.map'\nEND", 1) if text.count("\nEND") and n % 2 else text
            with open(p, "w", encoding="utf-8", newline="") as f:
                f.write(text)
            cwd = os.getcwd()
            a = outcome(mappyfile.open, p)
            outcome(mappyfile.open, os.path.join(tmp, "missing.map"))
            b = outcome(mappyfile.open, p)
            with open(p, encoding="utf-8", newline="") as f:
                if f.read() != text:
                    ctx.violation("modified", "open changed the file", text=text)
            ctx.evaluations += 2
            if a != b or os.getcwd() != cwd:
                ctx.violation("history", "two opens of one file differ", text=text)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def shared_keys():
    """keyword -> the types whose schemas have it, for the keywords of more than one type; and some of the words their enumerations list"""
    types, words = {}, {}
    for t in V.BLOCKS:
        for k, alts in V.slots().get(t, {}).items():
            types.setdefault(k, []).append(t)
            for alt in alts if isinstance(alts, list) else [alts]:
                leaf = alt[1] if isinstance(alt, tuple) and len(alt) > 1 else alt
                if isinstance(leaf, dict):
                    words.setdefault(k, set()).update(x for x in leaf.get("enum", []) if isinstance(x, str))
    return [(k, ts, sorted(words.get(k, ()))[:12]) for k, ts in sorted(types.items()) if len(ts) > 1]


def case_types(arg, out):
    """one printer / validator used for the same keyword in objects of different types, against new objects per call"""
    from mappyfile.pprint import PrettyPrinter
    from mappyfile.validator import Validator

    k, ts, words, seed = arg
    rng = random.Random("%s %s" % (k, seed))
    values = words + ["auto", "a b", "[x]", "(1 = 1)", "/re/", "%v%", "{a,b}", 5, 1.5, True, [1, 2, 3]]
    jobs = [(t, v) for t in ts for v in (values if len(ts) * len(values) < 60 else rng.sample(values, min(len(values), max(3, 60 // len(ts)))))]
    rng.shuffle(jobs)
    shared, checker = PrettyPrinter(), Validator()
    fresh_validators = {}
    for n, (t, v) in enumerate(jobs):
        mk = lambda: {"__type__": t, k: copy.deepcopy(v)}
        a, b = outcome(shared.pprint, mk()), outcome(PrettyPrinter().pprint, mk())
        if a != b:
            out.viol("history", "a PrettyPrinter prints %r as %r after %d other objects, a new one as %r" % (mk(), a, n, b), object=mk(), before=[list(j) for j in jobs[:n]])
            return
        version = rng.choice([None, None, 6.0, 7.6, 8.2]) if n % 4 == 0 else None
        if n % 4 == 0:
            a, b = outcome(checker.validate, mk(), version=version), outcome(Validator().validate, mk(), version=version)
            if a != b:
                out.viol("history", "a Validator judges %r (%s) as %r after %d other objects, a new one as %r" % (mk(), version, a, n, b), object=mk())
                return
        out.n += 1
    out.feat("types", k, seed)


def run(ctx):
    ctx.rules.append("deep snapshots of the arguments around every public call; histories of reused Parser / MapfileToDict / PrettyPrinter / Validator "
                     "objects and of the public functions, and 8 threads (switch interval 10 us), against the answers of a new process per document "
                     "(failing documents, comments and positions mixed in). non-trivial = distinct (call, document class), history steps.")
    d_layer.run(ctx, "C12")
    ctx.pmap(case_pure, ctx.seeds(ctx.scale(500), "pure"), secs=60)
    ctx.pmap(case_types, [(k, ts, ws, s) for k, ts, ws in shared_keys() for s in range(ctx.scale(1, 5))], secs=120)
    fast.uninstall()
    try:
        rng = ctx.rng("docs")
        docs = make_docs(rng, ctx.scale(28, 90))
        expected = fresh_processes(docs)
        ctx.samples.append(docs[0][0][:300])
        ctx.pmap(case_history, [(docs, expected, s) for s in range(ctx.scale(48, 400))], secs=200, chunk=2)
        ctx.pmap(case_public_history, [(docs, expected, s) for s in range(ctx.scale(16, 80))], secs=200, chunk=1)
        ctx.pmap(case_threads, [(docs, expected, s, 8, ctx.scale(4, 12)) for s in range(ctx.scale(8, 40))], secs=400, chunk=1)
        ctx.pmap(case_shared, ctx.seeds(ctx.scale(8), "shared"), secs=200, chunk=1)
        files(ctx)
    finally:
        fast.install()
    findings.probe(ctx)


def replay(v):
    print(v["message"])
    print(v["payload"])
    return 1
