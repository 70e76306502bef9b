"""Contracts for the public functions of mappyfile.utils, the command line, and the file handling of the parser.

Files are a ghost: opening, writing and closing go to a stand-in (Disk, Stream) whose log is part of the compared
state, so the text, the file name, the encoding and the order of the operations are postconditions."""
import codecs
import glob
import json
import os
import random
import sys

import click
import z3

from pyvc.core import TAny, TStr, TObj, SVal, SymObj, SStr, SInt, SBool, U, S, B, I, const, Ty, TList, TNone, TDict, PDict, PList, OSeg, mk, uf, PyRaise, PExc
from pyvc.ops import slen
from pyvc.verify import Contract, word


# ---- ghost files
class Disk:
    def __init__(self):
        self.log = []


class Stream:
    def __init__(self, disk, fn):
        self.disk, self.fn = disk, fn

    def write(self, text):
        self.disk.log.append(("write", self.fn, text))

    def read(self):
        self.disk.log.append(("read", self.fn))
        return text_of(self.fn)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.disk.log.append(("close", self.fn))


def text_of(fn):
    raise NotImplementedError       # modelled


class Given:
    """a file object handed in by the caller"""

    def read(self):
        raise NotImplementedError

    def write(self, text):
        raise NotImplementedError


def ghost(eng):
    """the file system, in the state before the call"""
    d = SymObj(Disk, {"log": PList([OSeg(const("log", U), TAny)], serial=0, term=const("log", U))}, term=const("disk", U), ty=TObj(Disk))
    eng.disk = d
    return d


def note(eng, *what):
    eng.list_append(eng.disk.attrs["log"], tuple(what))


def setup(eng):
    from mappyfile.ordereddict import DefaultOrderedDict

    ghost(eng)
    eng.interp_classes = frozenset([DefaultOrderedDict])

    def opened(eng, fn, mode="r", encoding=None, errors="strict", newline=None, **kw):
        if kw:
            raise PyRaise(PExc(TypeError, ("open",)))
        if eng.ctx.branch(uf("cannot-open", U, S, B)(eng.term(fn), eng.z(mode, S))):
            raise PyRaise(PExc(OSError, ("open",)))
        if mode in ("r", "rt") or "b" in mode:
            note(eng, "open", fn, mode, encoding, newline)
        else:
            note(eng, "open", fn, mode.replace("t", ""), encoding, newline)
        return SymObj(Stream, {"disk": eng.disk, "fn": fn})

    import io

    eng.externals[codecs.open] = opened
    eng.externals[io.open] = opened
    eng.externals[text_of] = lambda eng, fn: text(eng, fn)
    eng.externals[os.getcwd] = lambda eng: mk(const("cwd", S))
    eng.externals[os.path.isabs] = lambda eng, p: mk(uf("isabs", S, B)(eng.z(eng.conc(p), S)))
    eng.externals[os.path.isdir] = lambda eng, p: mk(uf("isdir", S, B)(eng.z(eng.conc(p), S)))
    eng.externals[os.path.abspath] = lambda eng, p: mk(uf("abspath", S, S)(eng.z(eng.conc(p), S)))
    eng.externals[os.path.dirname] = lambda eng, p: mk(uf("dirname", S, S)(eng.z(eng.conc(p), S)))
    eng.externals[os.path.join] = lambda eng, p, q: mk(uf("joinpath", S, S, S)(eng.z(eng.conc(p), S), eng.z(eng.conc(q), S)))
    eng.externals[codecs.decode] = lambda eng, s, how: mk(uf("decode:" + how, S, S)(eng.z(eng.conc(s), S)))
    eng.externals[glob.glob] = lambda eng, p: seq(eng, uf("glob", S, U)(eng.z(eng.conc(p), S)))
    eng.externals[click.echo] = lambda eng, s: note(eng, "echo", s)
    eng.externals[click.format_filename] = lambda eng, p: mk(uf("format_filename", S, S)(eng.z(eng.conc(p), S)))

    def dumps(eng, value, sort_keys=False, indent=None):
        return mk(uf("json.dumps:%r:%r" % (sort_keys, indent), U, S)(eng.term(value)))

    eng.externals[json.dumps] = dumps

    def leave(eng, code=None):
        note(eng, "exit", code)
        raise PyRaise(PExc(SystemExit, (code,)))

    eng.externals[sys.exit] = leave


def setup_in_place(eng):
    setup(eng)
    eng.element_mutation = True     # the messages, which are printed and dropped


def text(eng, fn):
    if eng.ctx.branch(uf("not-utf8", U, B)(eng.term(fn))):
        raise PyRaise(PExc(UnicodeDecodeError, ()))
    return mk(uf("text", U, S)(eng.term(fn)))


def seq(eng, t, ty=TStr):
    eng.ctx.assume(slen(t) >= 0)
    return PList([OSeg(t, ty)])


# ---- specifications
def s_open(fn, expand_includes=True, include_comments=False, include_position=False, **kwargs):
    from mappyfile.parser import Parser
    from mappyfile.transformer import MapfileToDict

    p = Parser(expand_includes, include_comments, **kwargs)
    tree = p.parse(p.open_file(fn), fn)
    return MapfileToDict(include_position, include_comments, **kwargs).transform(tree)


def s_loads(s, expand_includes=True, include_position=False, include_comments=False, **kwargs):
    from mappyfile.parser import Parser
    from mappyfile.transformer import MapfileToDict

    tree = Parser(expand_includes, include_comments, **kwargs).parse(s)
    return MapfileToDict(include_position, include_comments, **kwargs).transform(tree)


def s_load(fp, expand_includes=True, include_position=False, include_comments=False, **kwargs):
    from mappyfile.parser import Parser
    from mappyfile.transformer import MapfileToDict

    p = Parser(expand_includes, include_comments, **kwargs)
    text = fp.read()
    name = getattr(fp, "name", None)
    tree = p.parse(text, name if isinstance(name, str) else None)
    return MapfileToDict(include_position, include_comments, **kwargs).transform(tree)


def s_dumps(d, indent=4, spacer=" ", quote='"', newlinechar="\n", end_comment=False, align_values=False, separate_complex_types=False, **kwargs):
    from mappyfile.pprint import PrettyPrinter

    return PrettyPrinter(indent, spacer, quote, newlinechar, end_comment, align_values, separate_complex_types, **kwargs).pprint(d)


def s_dump(d, fp, indent=4, spacer=" ", quote='"', newlinechar="\n", end_comment=False, align_values=False, separate_complex_types=False):
    fp.write(s_dumps(d, indent, spacer, quote, newlinechar, end_comment, align_values, separate_complex_types))


def s_save(d, output_file, indent=4, spacer=" ", quote='"', newlinechar="\n", end_comment=False, align_values=False, separate_complex_types=False):
    text = s_dumps(d, indent, spacer, quote, newlinechar, end_comment, align_values, separate_complex_types)
    with codecs.open(output_file, "w", "utf-8") as f:
        f.write(text)
    return output_file


def s__save(output_file, string):
    with codecs.open(output_file, "w", "utf-8") as f:
        f.write(string)


def s_validate(d, version=None):
    from mappyfile.validator import Validator

    return Validator().validate(d, False, None, version)


def s_create(type, version=None):
    from mappyfile.ordereddict import DefaultOrderedDict
    from mappyfile.validator import Validator

    try:
        schema = Validator().get_versioned_schema(version, type)
    except OSError:
        raise SyntaxError("no such type")
    d = DefaultOrderedDict()
    d["__type__"] = type
    for key, value in sorted(schema["properties"].items()):
        if "default" in value:
            d[key] = value["default"]
    return d


# the command line
def s_get_mapfiles(mapfiles):
    out = []
    for pattern in mapfiles:
        for fn in glob.glob(pattern):
            if not os.path.isdir(fn):
                out.append(fn)
    return out


def s_format(_, input_mapfile, output_mapfile, indent, spacer, quote, newlinechar, expand, comments):
    import mappyfile

    quote = codecs.decode(quote, "unicode_escape")
    spacer = codecs.decode(spacer, "unicode_escape")
    newlinechar = codecs.decode(newlinechar, "unicode_escape")
    d = mappyfile.open(input_mapfile, expand, comments, True)
    mappyfile.save(d, output_mapfile, indent, spacer, quote, newlinechar)
    sys.exit(0)


def s_schema(_, output_file, version=None):
    from mappyfile.validator import Validator

    text = json.dumps(Validator().get_versioned_schema(version), sort_keys=True, indent=4)
    with codecs.open(output_file, "w", "utf-8") as f:
        f.write(text)
    sys.exit(0)


def s_cli_validate(_, mapfiles, expand, version):
    import mappyfile.cli

    files = mappyfile.cli.get_mapfiles(mapfiles)
    if not files:
        click.echo("No Mapfiles found at the following paths: " + ",".join(mapfiles))
        return
    valid = 0
    errors = 0
    for fn in files:
        fn = click.format_filename(fn)
        try:
            d = mappyfile.open(fn, expand, False, True)
        except Exception:
            click.echo(fn + " failed to parse successfully")
            errors += 1
            continue
        problems = mappyfile.validate(d, version)
        if len(problems) == 0:
            click.echo(fn + " validated successfully")
            valid += 1
        else:
            for v in problems:
                v["fn"] = fn
                if "line" not in v:
                    v["line"] = "unknown"
                if "column" not in v:
                    v["column"] = "unknown"
                click.echo(fn + " (Line: " + str(v["line"]) + " Column: " + str(v["column"]) + ") " + v["message"] + " - " + v["error"])
                errors += 1
    click.echo(str(len(files)) + " file(s) validated (" + str(valid) + " successfully)")
    sys.exit(errors if errors < 255 else 255)


# the parser
def s_string_to_boolean(string_value):
    v = string_value.lower()
    return not (v == "false" or v == "no" or v == "0" or v == "off")


def s_parser_load(self, fp):
    text = fp.read()
    fn = getattr(fp, "name", None)
    return self.parse(text, fn if isinstance(fn, str) else None)


def s_parse_file(self, fn):
    return self.parse(self.open_file(fn), fn)


def s_open_file(self, fn):
    # line endings are kept: newline=""
    with open_(fn, "r", encoding="utf-8", newline="") as f:
        return f.read()


from io import open as open_  # noqa: E402

def s_include_filename(self, line):
    from mappyfile.parser import INCLUDE_FILE

    m = INCLUDE_FILE.match(line)
    if not m:
        raise ValueError("no file name")
    for i in (1, 2, 3):
        if m.group(i) is not None:
            return m.group(i)
    raise StopIteration      # (every alternative of the pattern has its group)


def s_load_includes(self, text, fn=None, _nested_includes=0):
    from mappyfile.parser import INCLUDE_FILE

    where = fn if fn is not None else os.getcwd() + os.sep

    def expand(line):
        if not INCLUDE_FILE.match(line):
            return line
        if _nested_includes == 5:
            raise ValueError("too many nested includes")
        path = self._get_include_filename(line)
        if not os.path.isabs(path):
            path = os.path.abspath(os.path.join(os.path.dirname(where), path))
        return self.load_includes(self.open_file(path), where, _nested_includes + 1)

    return "\n".join([expand(line) for line in text.split("\n")])


SYMBOL_KEYWORDS = ("ANCHORPOINT", "ANTIALIAS", "FILLED", "FONT", "IMAGE", "NAME", "COLOR", "TYPE", "CHARACTER", "POINTS", "TRANSPARENT", "BACKGROUNDCOLOR", "INCLUDE")


def s_is_unquoted_value(self, token, value_stack):
    last = getattr(value_stack[-1], "type", None) if value_stack else None
    if token.type == "UNQUOTED_STRING":
        v = token.value.upper()
        if last == "SYMBOL":
            return v not in SYMBOL_KEYWORDS
        return last == "STYLE" and v == "NORMAL"
    if last != "UNQUOTED_STRING":
        return False
    if len(value_stack) >= 2 and getattr(value_stack[-2], "type", None) == "UNQUOTED_STRING":
        return False
    k = value_stack[-1].value.upper()
    return k == "NAME" and token.type == "GRID" or k == "IMAGEMODE" and token.type == "FEATURE"


def contracts():
    from mappyfile import cli, parser, utils
    from mappyfile.parser import Parser
    from mappyfile.pprint import PrettyPrinter
    from mappyfile.transformer import MapfileToDict
    from mappyfile.validator import Validator

    out = []

    def add(module, name, spec, args, gen=None, fn=None, **kw):
        out.append(Contract("%s.%s" % (module.__name__.split(".")[-1], name), fn or (lambda: getattr(module, name.split(" (")[0])), spec, args, gen, **dict({"setup": setup}, **kw)))

    val = lambda ty, name: (lambda eng: SVal(const(name, U), ty))  # noqa: E731
    text_ = lambda name: (lambda eng: SStr(const(name, S)))  # noqa: E731
    flag = lambda name: (lambda eng: SBool(const(name, B)))  # noqa: E731
    parsed = lambda: {Parser._create_lalr_parser: (TAny, None), Parser.parse: (TAny, Exception), MapfileToDict.transform: (TDict(TAny), Exception)}  # noqa: E731
    flags = [flag("expand"), flag("comments"), flag("position")]

    def given(named):
        def make(eng):
            f = SymObj(Given, {"name": SVal(const("name", U), TStr | TNone | Ty(["int"]))} if named else {}, term=const("fp", U), ty=TObj(Given))
            return f
        return make

    files = lambda: {Given.read: (TStr, OSError), Given.write: written} | parsed() | printed()  # noqa: E731

    def written(eng, bound):
        note(eng, "written", bound["text"])

    printed = lambda: {PrettyPrinter.pprint: (TStr, Exception)}  # noqa: E731

    def g(*fs):
        return lambda eng: [f(eng) for f in fs]

    options = [lambda eng: SInt(const("indent", I)), text_("spacer"), text_("quote"), text_("newlinechar"), flag("end_comment"), flag("align"), flag("separate")]
    add(utils, "open", s_open, g(val(TStr, "fn"), *flags), opaque=parsed)
    add(utils, "open (default)", s_open, g(val(TStr, "fn")), opaque=parsed)
    add(utils, "loads", s_loads, g(text_("s"), *flags), opaque=parsed)
    add(utils, "loads (default)", s_loads, g(text_("s")), opaque=parsed)
    for what, named in (("named", True), ("no name", False)):
        add(utils, "load (%s)" % what, s_load, g(given(named), *flags), opaque=files)
        add(utils, "load (%s, default)" % what, s_load, g(given(named)), opaque=files)
    d = val(TDict(TAny), "d")
    add(utils, "dumps", s_dumps, g(d, *options), opaque=printed)
    add(utils, "dumps (default)", s_dumps, g(d), opaque=printed)
    add(utils, "dump", s_dump, g(d, given(False), *options), opaque=files)
    add(utils, "dump (default)", s_dump, g(d, given(False)), opaque=files)
    add(utils, "save", s_save, g(d, text_("fn"), *options), opaque=printed)
    add(utils, "save (default)", s_save, g(d, text_("fn")), opaque=printed)
    add(utils, "_save", s__save, g(text_("fn"), text_("string")))
    checked = lambda: {Validator.validate: (TList(TAny), Exception), Validator.get_versioned_schema: (TDict(TAny, fields={"properties": TDict(TDict(TAny))}, required=("properties",)), OSError)}  # noqa: E731
    add(utils, "validate", s_validate, g(d, val(TNone | Ty(["int", "float"]), "version")), opaque=checked)
    add(utils, "validate (default)", s_validate, g(d), opaque=checked)
    add(utils, "create", s_create, g(text_("type"), val(TNone | Ty(["int", "float"]), "version")), opaque=checked)
    add(utils, "create (default)", s_create, g(text_("type")), opaque=checked)

    inner = lambda c: (lambda: getattr(getattr(cli, c).callback, "__wrapped__"))  # noqa: E731
    calls = lambda: {cli.get_mapfiles: (TList(TStr), None), utils.open: (TDict(TAny), Exception), utils.save: saved, Validator.get_versioned_schema: (TDict(TAny), OSError), utils.validate: (TList(TDict(TAny, fields={"message": TStr, "error": TStr, "line": Ty(["int"]), "column": Ty(["int"])}, required=("message", "error"))), Exception)}  # noqa: E731

    def saved(eng, bound):
        note(eng, "save", *[bound[k] for k in sorted(bound) if k != "kwargs"])
        return bound["output_file"]

    nothing = lambda eng: None  # noqa: E731
    add(cli, "get_mapfiles", s_get_mapfiles, g(val(TList(TStr), "mapfiles")))
    add(cli, "format", s_format, g(nothing, text_("input"), text_("output"), options[0], text_("spacer"), text_("quote"), text_("newlinechar"), flag("expand"), flag("comments")), fn=inner("format"), opaque=calls)
    add(cli, "schema", s_schema, g(nothing, text_("output"), val(TNone | Ty(["float"]), "version")), fn=inner("schema"), opaque=calls)

    add(cli, "validate", s_cli_validate, g(nothing, val(TList(TStr), "mapfiles"), flag("expand"), val(Ty(["float"]), "version")), fn=inner("validate"), opaque=calls, setup=setup_in_place)

    self_ = lambda eng: SymObj(Parser, {}, term=const("parser", U), ty=TObj(Parser))  # noqa: E731
    add(parser, "string_to_boolean", s_string_to_boolean, g(text_("value")), lambda rng: [rng.choice(["false", "No", "0", "OFF", "true", "", "x", "False ", "o", "of"])], public=True)
    for what, named in (("named", True), ("no name", False)):
        add(parser, "Parser.load (%s)" % what, s_parser_load, g(self_, given(named)), fn=lambda: Parser.load, opaque=files)
    add(parser, "Parser.parse_file", s_parse_file, g(self_, val(TStr, "fn")), fn=lambda: Parser.parse_file, opaque=lambda: {Parser.parse: (TAny, Exception), Parser.open_file: (TStr, OSError)})
    add(parser, "Parser.open_file", s_open_file, g(self_, val(TStr, "fn")), fn=lambda: Parser.open_file)

    def nline(rng):
        return [None, word(rng, ["INCLUDE ", " include", "'a.map'", '"b c.map"', "x.map", "#", "/* x */", "\t", " ", "INCLUDE 'x.map' # c"])]

    add(parser, "Parser._get_include_filename", s_include_filename, g(self_, text_("line")), nline, fn=lambda: Parser._get_include_filename)

    # the nested call by its contract, as every call
    nested = lambda: {Parser._get_include_filename: (TStr, ValueError), Parser.open_file: (TStr, OSError), Parser.load_includes: (TStr, ValueError)}  # noqa: E731
    add(parser, "Parser.load_includes", s_load_includes, g(self_, text_("text"), val(TStr | TNone, "fn"), lambda eng: SInt(const("depth", I))), fn=lambda: Parser.load_includes, opaque=nested)
    add(parser, "Parser.load_includes (default)", s_load_includes, g(self_, text_("text")), fn=lambda: Parser.load_includes, opaque=nested)

    class Node:
        """what lark keeps on its stack: a token, or a tree without a type"""

    from mappyfile.transformer import Token

    TTok = TObj(Token, type=TStr, value=TStr)

    def token(name):
        return lambda eng: SymObj(Token, {"type": SStr(const(name + ".type", S)), "value": SStr(const(name + ".value", S))})

    def tree(eng):
        return SymObj(Node, {})

    stacks = {"empty": [], "token": [token("a")], "tree": [tree], "token, token": [token("a"), token("b")], "tree, token": [tree, token("b")], "token, tree": [token("a"), tree]}
    for what, parts in stacks.items():
        def args(eng, parts=parts):
            rest = [] if len(parts) < 2 else [OSeg(const("rest", U), TAny)]
            return [self_(eng), token("t")(eng), PList(rest + [p(eng) for p in parts])]

        add(parser, "Parser._is_unquoted_value (%s)" % what, s_is_unquoted_value, args, fn=lambda: Parser._is_unquoted_value)
    return out
