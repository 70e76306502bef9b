"""C20 file, stream and command-line front ends agree with the string API"""
import io
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

from checks.common import *  # noqa: F401,F403
from checks.c01 import reserved_key
from vlib import d_layer, findings
from vlib import roundtrip as R
from vlib import wild as W

LEVEL = "exploration"
SCRATCH = None
CLI = "import sys; sys.path.insert(0, %r); sys.dont_write_bytecode = True; sys.argv[0] = 'mappyfile'; from mappyfile.cli import main; sys.exit(main())" % REPO


def scratch():
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix="verif_c20_")
    return SCRATCH


class tmpdir:
    def __enter__(self):
        self.p = tempfile.mkdtemp(dir=scratch())
        return self.p

    def __exit__(self, *a):
        shutil.rmtree(self.p, ignore_errors=True)


def write(path, text):
    with open(path, "wb") as f:
        f.write(text.encode("utf-8"))
    return path


def read_bytes(path):
    with open(path, "rb") as f:
        return f.read()


def outcome(f):
    try:
        return repr_all(f()), None
    except Exception as ex:
        return None, (type(ex).__name__, getattr(ex, "line", None), getattr(ex, "column", None))


def repr_all(x):
    if isinstance(x, dict):
        return (type(x).__name__, [(k, repr_all(v)) for k, v in dict.items(x)])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [repr_all(v) for v in x])
    return (type(x).__name__, x)


class NamelessIO(io.StringIO):
    pass


def loaders(text, path, kw, translate):
    yield "open", lambda: mappyfile.open(path, **kw)

    def by_file():
        with open(path, encoding="utf-8", **({} if translate else {"newline": ""})) as f:
            return mappyfile.load(f, **kw)

    yield "load of a file", by_file
    yield "load of a StringIO", lambda: mappyfile.load(io.StringIO(text, newline=""), **kw)

    def by_fd():
        fd = os.open(path, os.O_RDONLY)
        with open(fd, encoding="utf-8", newline="") as f:
            return mappyfile.load(f, **kw)

    yield "load of a file descriptor", by_fd


LOAD_KW = [{}, {"include_position": True}, {"include_comments": True}, {"include_position": True, "include_comments": True}, {"expand_includes": False}]


def check_load(text, out, rng, **payload):
    with tmpdir() as tmp:
        path = write(os.path.join(tmp, rng.choice(["a.map", "é x.map", "m"])), text)
        kw = rng.choice(LOAD_KW)
        want = outcome(lambda: mappyfile.loads(text, **kw))
        for name, f in loaders(text, path, kw, "\r" not in text):
            got = outcome(f)
            if got != want:
                out.viol("load", "%s differs from loads with %r: %s" % (name, kw, first_diff(want, got)), text=text, **payload)
                return


def first_diff(a, b):
    a, b = repr(a), repr(b)
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "%s | %s" % (a[max(0, i - 60):i + 80], b[max(0, i - 60):i + 80])


def rand_opts(rng):
    o = {}
    for k, vs in (("indent", [0, 1, 2, 4, 8]), ("spacer", [" ", "\t"]), ("quote", ['"', "'"]), ("newlinechar", ["\n", "\r\n"]),
                  ("end_comment", [True, False]), ("align_values", [True, False]), ("separate_complex_types", [False, True])):
        if rng.random() < 0.4:
            o[k] = rng.choice(vs)
    return o


def check_save(d, out, rng, **payload):
    import copy

    opts = rand_opts(rng)
    try:
        text = mappyfile.dumps(copy.deepcopy(d), **opts)
    except Exception as ex:
        text = None
    with tmpdir() as tmp:
        path = os.path.join(tmp, rng.choice(["a.map", "é x.map"]))
        if rng.random() < 0.5:
            write(path, "an older, much longer file " * 2000)
        try:
            mappyfile.save(copy.deepcopy(d), path, **opts)
            saved = read_bytes(path)
        except Exception as ex:
            saved = None
        buf = io.StringIO(newline="")
        try:
            mappyfile.dump(copy.deepcopy(d), buf, **opts)
            dumped = buf.getvalue()
        except Exception as ex:
            dumped = None
        try:
            with open(os.path.join(tmp, "b.map"), "w", encoding="utf-8", newline="") as f:
                mappyfile.dump(copy.deepcopy(d), f, **opts)
            dumped2 = read_bytes(os.path.join(tmp, "b.map"))
        except Exception:
            dumped2 = None
        want = None if text is None else text.encode("utf-8", "surrogatepass")
        if text is not None and (saved != want or dumped2 != want):
            out.viol("save", "save / dump to a file differ from dumps with %r: %s" % (opts, first_diff(want, saved if saved != want else dumped2)), dictionary=repr(d)[:1500], **payload)
            return
        if dumped != text:
            out.viol("save", "dump differs from dumps with %r: %s" % (opts, first_diff(text, dumped)), dictionary=repr(d)[:1500], **payload)
            return
        if text is None and saved is not None:
            out.viol("save", "dumps refuses what save writes with %r" % (opts,), dictionary=repr(d)[:1500], **payload)
            return
        if text is not None:
            a, b = outcome(lambda: mappyfile.open(path)), outcome(lambda: mappyfile.loads(text))
            if a != b:
                out.viol("save", "open(save) differs from loads(dumps) with %r: %s" % (opts, first_diff(b, a)), dictionary=repr(d)[:1500], **payload)


def case_doc(seed, out):
    rng = random.Random(seed)
    text = G.render_doc(rng, G.gen_doc(rng), mode=rng.choice(["lines", "random"]), comments=rng.random() < 0.4)
    check_load(text, out, rng, seed=seed)
    try:
        d = mappyfile.loads(text, **rng.choice(LOAD_KW))
    except LarkError:
        return
    check_save(d, out, rng, seed=seed)
    out.feat("doc", hash(text))
    if not out.samples:
        out.samples.append(text[:200])


def case_wild(seed, out):
    rng = random.Random(seed)
    text = W.doc(rng) if rng.random() < 0.7 else W.doc(rng)[:rng.randrange(1, 200)]
    check_load(text, out, rng, seed=seed)
    out.feat("wild", hash(text))


SPECIAL = "\x00\x01\x07\x08\t\n\x0b\x0c\r\x1a\x1b\x1c\x1d\x1e\x1f \x7f\x85\xa0\xad\u0300\u200b\u200d\u2028\u2029\u202e\u3000\ufeff\ufffd\uffff\U0001f600\U0001d11e\U0010ffff'\"\\#%[]{}()/`"


def rand_unicode(rng):
    n = rng.choice([1, 1, 2, 3, 8])
    out = []
    for _ in range(n):
        c = rng.random()
        if c < 0.35:
            ch = rng.choice(SPECIAL)
        elif c < 0.6:
            ch = chr(rng.randrange(0x20, 0x7f))
        elif c < 0.8:
            ch = chr(rng.randrange(0x80, 0xD800))
        else:
            ch = chr(rng.randrange(0xE000, 0x110000))
        out.append(ch)
    return "".join(out)


def representable(s, quote):
    """no unescaped output quote, no backslash before a closing quote"""
    return not s.endswith("\\") and not ('"' in s or "'" in s or "\\" in s and ("\\" + quote) in s)


def case_unicode(seed, out):
    rng = random.Random(seed)
    quote = rng.choice("\"'")
    vals = [s for s in (rand_unicode(rng) for _ in range(6)) if representable(s, quote)]
    if not vals:
        return
    d = mappyfile.loads("MAP METADATA 'a' 'b' END CONFIG 'x' 'y' LAYER NAME 'n' TYPE POINT PROCESSING 'A=1' CLASS NAME 'c' END END END")
    lay = d["layers"][0]
    lay["name"] = vals[0]
    d["metadata"]["a"] = vals[-1]
    lay["processing"] = [v for v in vals]
    lay["classes"][0]["name"] = vals[len(vals) // 2]
    d["config"]["x"] = vals[0]
    d["name"] = "map " + vals[-1]
    with tmpdir() as tmp:
        path = os.path.join(tmp, "u.map")
        mappyfile.save(d, path, quote=quote)
        if read_bytes(path) != mappyfile.dumps(d, quote=quote).encode("utf-8"):
            out.viol("unicode", "save differs from dumps", values=vals)
            return
        try:
            e = mappyfile.open(path)
        except Exception as ex:
            out.viol("unicode", "open after save raised %s for %r" % (exc_str(ex), vals), values=vals)
            return
        m = G.diff(G.plain(d), G.plain(e))
        if m:
            out.viol("unicode", "save and open: %s" % m, values=vals)
            return
        if repr_all(mappyfile.loads(read_bytes(path).decode("utf-8"))) != repr_all(e):
            out.viol("unicode", "open and loads differ", values=vals)
            return
    out.feat("unicode", hash(tuple(vals)))


def case_planes(k, out):
    """every code point of a block of 512"""
    cps = [c for c in range(k * 512, (k + 1) * 512) if not 0xD800 <= c <= 0xDFFF and c not in (0x22, 0x27, 0x5c)]
    if not cps:
        return
    d = {"__type__": "layer", "processing": ["a%sb" % chr(c) for c in cps], "name": "x" + "".join(map(chr, cps)) + "y"}
    with tmpdir() as tmp:
        path = os.path.join(tmp, "u.map")
        mappyfile.save(d, path)
        e = mappyfile.open(path)
        bad = [c for c, a, b in zip(cps, d["processing"], e["processing"]) if a != b]
        if bad or len(e["processing"]) != len(cps) or e["name"] != d["name"]:
            out.viol("unicode", "code points %s do not survive save and open" % [hex(c) for c in bad[:8]], first=k * 512)
    out.feat("plane", k)


# ------------------------------------------------------------- command line


def cli_process(args, cwd):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8", LC_ALL="C.UTF-8")
    p = subprocess.run([sys.executable, "-c", CLI] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    return p.returncode, p.stdout.decode("utf-8")


def cli_inprocess(args, cwd):
    from click.testing import CliRunner
    from mappyfile.cli import main

    old = os.getcwd()
    os.chdir(cwd)
    try:
        r = CliRunner().invoke(main, args)
    finally:
        os.chdir(old)
    code = r.exit_code
    if r.exception is not None and not isinstance(r.exception, SystemExit):
        code = 1
    return code & 0xFF, getattr(r, "stdout", r.output)


def faulty(rng, n):
    """a Mapfile with exactly n violations of the schema (each one message)"""
    kinds = [lambda i: "  LAYER NAME 'l%d' TYPE POINT STATUS 'zzz' END" % i, lambda i: "  LAYER NAME 'l%d' TYPE POINT MINSCALEDENOM 'abc' END" % i]
    return "MAP\n" + "\n".join(rng.choice(kinds)(i) for i in range(n)) + "\nEND\n"


BROKEN = ["MAP NAME END", "MAP\n  LAYER\nEND", "", "LAYER NAME 'x", "MAP INCLUDE 'missing_file.map' END", "FOO", "MAP\n INCLUDE 'missing_file.map'\nEND", "\x00"]


def case_validate(item, out):
    seed, proc, counts = item
    rng = random.Random(seed)
    run = cli_process if proc else cli_inprocess
    with tmpdir() as tmp:
        files, problems, lines = [], 0, 0
        if counts is None:
            counts = [rng.choice([0, 0, 0, 1, 2, 3, "broken", "latin", "doc"]) for _ in range(rng.randrange(0, 5))]
        version = rng.choice([None, None, 6.0, 7.6, 8.2])
        per_file = []
        for i, c in enumerate(counts):
            p = os.path.join(tmp, "%s%02d.map" % (rng.choice(["a", "b c", "é"]), i))
            if c == "broken":
                write(p, rng.choice(BROKEN))
            elif c == "latin":
                with open(p, "wb") as f:
                    f.write(b"MAP NAME '\xe9\xff' END")
            elif c == "doc":
                write(p, G.render_doc(rng, [r for r in G.gen_doc(rng)][:1], mode="lines"))
            else:
                write(p, faulty(rng, c) if c else "MAP NAME 'ok' LAYER NAME 'l' TYPE POINT END END")
            files.append(p)
            try:
                msgs = mappyfile.validate(mappyfile.open(p, include_position=True), version if version is not None else 8.2)
            except Exception:
                per_file.append((p, None))
                problems += 1
            else:
                per_file.append((p, msgs))
                problems += len(msgs)
        how = rng.choice(["names", "glob", "relative"]) if files else "names"
        if how == "glob":
            args = [os.path.join(tmp, "*.map")]
        elif how == "relative":
            args = [os.path.basename(f) for f in files]
        else:
            args = list(files) or [os.path.join(tmp, "none.map")]
        if version is not None:
            args = args + ["--version", str(version)] if rng.random() < 0.5 else ["--version=%s" % version] + args
        if rng.random() < 0.2:
            args.append("--no-expand") if all("INCLUDE" not in read_bytes(f).decode("latin-1") for f in files) else None
        code, stdout = run(["validate"] + args, tmp)
        tag = "validate %s (%s): " % (counts, "process" if proc else "in process")
        out.feat("validate", str(counts), proc, how, version)
        if (code == 0) != (problems == 0):
            out.viol("cli", tag + "exit status %d, %d problems" % (code, problems), output=stdout[:2000], seed=seed)
            return
        if problems <= 255 and code != problems:
            out.viol("cli", tag + "exit status %d, %d problems" % (code, problems), output=stdout[:2000], seed=seed)
            return
        lines = stdout.split("\n")
        for p, msgs in per_file:
            if not msgs:
                continue
            mine = [l for l in lines if os.path.basename(p) in l and "(Line" in l]
            if len(mine) != len(msgs):
                out.viol("cli", tag + "%d lines for %d messages of %s" % (len(mine), len(msgs), os.path.basename(p)), output=stdout[:2000], seed=seed)
                return
            for m in msgs:
                if not any(str(m["message"]) in l and str(m["error"]) in l and str(m.get("line", "")) in l for l in mine):
                    out.viol("cli", tag + "no line for the message %r" % (m,), output=stdout[:2000], seed=seed)
                    return


def case_format(item, out):
    seed, proc = item
    rng = random.Random(seed)
    run = cli_process if proc else cli_inprocess
    with tmpdir() as tmp:
        kind = rng.random()
        inc = False
        if kind < 0.15:
            text = rng.choice(BROKEN)
        elif kind < 0.3:
            text = "MAP\r\n  NAME 'a'\r\n  INCLUDE \"sub/x.map\"\r\nEND"
            os.mkdir(os.path.join(tmp, "sub"))
            write(os.path.join(tmp, "sub", "x.map"), "LAYER NAME 'é' # c\nTYPE POINT END")
        else:
            text = G.render_doc(rng, G.gen_doc(rng), mode=rng.choice(["lines", "random"]), comments=rng.random() < 0.5)
        src = write(os.path.join(tmp, "in é.map"), text)
        dst, ref = os.path.join(tmp, "out.map"), os.path.join(tmp, "ref.map")
        save, opn, args = {}, {}, []

        def opt(name, values):
            if rng.random() < 0.5:
                v, cli = rng.choice(values)
                save[name] = v
                args.append("--%s=%s" % (name, cli))

        opt("indent", [(i, str(i)) for i in (0, 1, 2, 8)])
        opt("spacer", [(" ", " "), ("\t", "\\t"), ("\t", "\t"), ("  ", "  ")])
        opt("quote", [('"', '"'), ("'", "'"), ('"', '\\"'), ("'", "\\'")])
        opt("newlinechar", [("\n", "\\n"), ("\r\n", "\\r\\n"), ("\n", "\n")])
        if rng.random() < 0.5:
            opn["expand_includes"] = rng.random() < 0.6
            args.append("--expand" if opn["expand_includes"] else "--no-expand")
        if rng.random() < 0.5:
            opn["include_comments"] = rng.random() < 0.7
            args.append("--comments" if opn["include_comments"] else "--no-comments")
        try:
            mappyfile.save(mappyfile.open(src, **opn), ref, **save)
            want = read_bytes(ref)
        except Exception:
            want = None
        rng.shuffle(args)
        if rng.random() < 0.3:
            write(dst, "x" * 100000)
        code, stdout = run(["format"] + [src, dst] + args if rng.random() < 0.5 else ["format"] + args + [src, dst], tmp)
        out.feat("format", str(sorted(save.items())), str(sorted(opn.items())), proc, want is None)
        if want is None:
            if code == 0:
                out.viol("cli", "format %r exits with 0 for a file that cannot be opened or written" % args, text=text, seed=seed)
            return
        got = read_bytes(dst) if os.path.exists(dst) else None
        if code != 0:
            out.viol("cli", "format %r exits with %d" % (args, code), text=text, output=stdout[:500], seed=seed)
        elif got != want:
            out.viol("cli", "format %r differs from save(open()): %s" % (args, first_diff(want, got)), text=text, seed=seed)


def case_schema(item, out):
    version, proc = item
    from mappyfile.validator import Validator

    run = cli_process if proc else cli_inprocess
    with tmpdir() as tmp:
        dst = os.path.join(tmp, "s.json")
        args = ["schema", dst] + ([] if version is None else ["--version=%s" % version])
        code, stdout = run(args, tmp)
        want = json.loads(json.dumps(Validator().get_versioned_schema(float(version) if version is not None else None), indent=1))
        out.feat("schema", version, proc)
        if code != 0:
            out.viol("cli", "%r exits with %d" % (args[2:], code), output=stdout[:500])
            return
        got = json.loads(read_bytes(dst).decode("utf-8"))
        if got != want:
            out.viol("cli", "schema %r differs from the versioned schema of the API: %s" % (version, first_diff(json.dumps(want, sort_keys=True), json.dumps(got, sort_keys=True))))


def case_file(path, out):
    rng = random.Random(path)
    try:
        text = corpus_text(path)
    except UnicodeDecodeError:
        return
    if "include" in text.lower():
        return
    check_load(text, out, rng, file=path)
    out.feat("file", path)


def case_include(seed, out):
    """open/load/loads and save also agree on files below the root's directory (full treatment in C15)"""
    rng = random.Random(seed)
    with tmpdir() as tmp:
        os.mkdir(os.path.join(tmp, "s"))
        write(os.path.join(tmp, "s", "i.map"), "NAME '%s'" % rng.choice(["a", "é", "\U0001f600"]))
        text = "MAP\nINCLUDE 's/i.map'\nEND"
        root = write(os.path.join(tmp, "r.map"), text)
        a = outcome(lambda: mappyfile.open(root))
        with open(root, encoding="utf-8") as f:
            b = outcome(lambda: mappyfile.load(f))
        old = os.getcwd()
        os.chdir(tmp)
        try:
            c = outcome(lambda: mappyfile.loads(text))
        finally:
            os.chdir(old)
        if not (a == b == c) or a[1]:
            out.viol("load", "open, load and loads of a file with an INCLUDE differ: %r %r %r" % (a, b, c))
    out.feat("include")


def run(ctx):
    ctx.rules.append("generated, random and repository texts: open, load (file, StringIO, descriptor) and loads give the same dictionary or the same error; save, dump "
                     "(StringIO, file) and dumps the same characters; every Unicode code point (and random strings) survives save/open; the command line "
                     "run in process and as real subprocesses (format, validate with 0..513 problems, schema) against the API. "
                     "non-trivial = distinct texts, strings, code point blocks, (command, options).")
    d_layer.run(ctx, "C20")
    try:
        scratch()
        q = not ctx.thorough
        procs = [(s, True, c) for s, c in zip(ctx.seeds(100, "vp"), [[0], [1], [255], [256], [257], [300], [512], [255, 1], [128, 128], [], ["broken"], ["broken", 0], [256, "broken"],
                                                                     [0, 0, 3], ["latin"]])]
        procs += [(s, True, None) for s in ctx.seeds(ctx.scale(8), "vpr")]
        ctx.pmap(case_validate, procs, chunk=1, secs=150)
        ctx.pmap(case_format, [(s, True) for s in ctx.seeds(ctx.scale(24), "fp")], chunk=1, secs=150)
        ctx.pmap(case_schema, [(None, True), ("7.6", True), ("8.2", True), ("5.0", True)], chunk=1, secs=150)
        ctx.pmap(case_validate, [(s, False, None) for s in ctx.seeds(ctx.scale(300), "vi")], secs=60)
        ctx.pmap(case_format, [(s, False) for s in ctx.seeds(ctx.scale(800), "fi")], secs=60)
        ctx.pmap(case_schema, [(v, False) for v in (None, "4.0", "4.6", "5.0", "5.6", "6.0", "6.2", "6.4", "7.0", "7.2", "7.4", "7.6", "8.0", "8.2", "8.4", "9")], secs=60, chunk=2)
        ctx.pmap(case_doc, ctx.seeds(ctx.scale(2000), "doc"))
        ctx.pmap(case_wild, ctx.seeds(ctx.scale(1200), "wild"))
        ctx.pmap(case_unicode, ctx.seeds(ctx.scale(1500), "unicode"))
        step = 1 if ctx.thorough else 7
        ctx.pmap(case_planes, sorted(set(range(0, 0x110000 // 512, step)) | set(range(0, 0x10000 // 512))), secs=60)
        ctx.pmap(case_file, corpus(), chunk=8, secs=60)
        ctx.pmap(case_include, ctx.seeds(20, "inc"))
    finally:
        if SCRATCH:
            shutil.rmtree(SCRATCH, ignore_errors=True)
    findings.probe(ctx)


def replay(v):
    print(v["message"])
    print(v["payload"])
    return 1
