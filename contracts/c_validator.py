"""Contracts of mappyfile.validator."""
import collections
import copy
import json
import random
from collections import OrderedDict

import jsonref
import jsonschema
import z3

from pyvc.core import KCODE, dhas, Unsupported, PyRaise, PExc, TAny, TStr, TObj, SVal, SymObj, SStr, SInt, SBool, SReal, U, S, B, I, const, Ty, TList, TNone, TInt, TFloat, TBool, TDict, TTuple, PDict, PList, OSeg, mk, uf
from pyvc.ops import kind_of, slen
from pyvc.verify import Contract, word

TYPES = ("class cluster composite connectionoptions feature grid join label layer leader legend map metadata outputformat querymap reference scalebar scaletoken style symbol symbolset "
         "validation web").split()


# ---- specifications
def s_is_valid_for_version(self, d, version):
    if "metadata" not in d:
        return True
    md = d["metadata"]
    return md.get("minVersion", 0.0) <= version and version <= md.get("maxVersion", 1000.0)


def s_is_available(self, d, version):
    if not self.is_valid_for_version(d, version):
        return False
    for r in d.get("allOf", []):
        if not self.is_available(r, version):
            return False
    items = d.get("items")
    if isinstance(items, dict):
        return self.is_available(items, version)
    return True


def kept(self, v, version):
    return not isinstance(v, dict) or self.is_available(v, version)


def s_get_versioned_properties(self, properties, version):
    if isinstance(properties, dict):
        return {k: self.get_versioned_properties(v, version) for k, v in properties.items() if kept(self, v, version)}
    if isinstance(properties, list):
        out = []
        for v in properties:
            if kept(self, v, version):
                out.append(self.get_versioned_properties(v, version))
        return out
    return properties


def s_get_versioned_schema(self, version, schema_name="map"):
    schema = self.get_expanded_schema(schema_name, version)
    if version is None:
        return schema
    out = self.get_versioned_properties(schema, version)
    if not self.is_available(schema, version):
        out["not"] = {}
    return out


def s_convert_lowercase(self, x):
    if isinstance(x, dict):
        return OrderedDict((k.lower(), self.convert_lowercase(v)) for k, v in x.items())
    if isinstance(x, list):
        return [self.convert_lowercase(v) for v in x]
    if isinstance(x, str):
        return x.lower()
    return x


def s_find_key_reversed(self, d, key):
    for k in reversed(list(d)):
        if k.lower() == key:
            return k
    return key


def s_find_position(self, positions):
    if isinstance(positions, dict):
        if isinstance(positions.get("line"), int):
            return positions
        items = list(positions.values())
        return self.find_position(items[0]) if items else None
    if isinstance(positions, list) and positions:
        return self.find_position(positions[0])
    return None


def s_find_error_location(self, rootdict, path):
    owner, value = rootdict, rootdict
    positions = rootdict.get("__position__")
    where = self.find_position(positions)
    name = str(rootdict.get(self.find_key(rootdict, "__type__"), "map"))
    for p in path:
        if isinstance(value, dict):
            owner = value
            name = self.find_key(value, p)
            value = value.get(name)
            if isinstance(positions, dict):
                positions = positions.get(p)
        else:
            value = value[p]
            if isinstance(value, dict) and "__type__" in value:
                owner = value
                name = str(value["__type__"])
            if isinstance(positions, list) and p < len(positions):
                positions = positions[p]
        if isinstance(value, dict) and "__position__" in value:
            positions = value["__position__"]
        where = self.find_position(positions) or where
    return owner, name, where


def s_create_message(self, rootdict, path, error, add_comments):
    d, key, position = self.find_error_location(rootdict, path)
    text = "ERROR: Invalid value in " + key.upper()
    if add_comments:
        if "__comments__" not in d:
            d["__comments__"] = OrderedDict()
        d["__comments__"][key] = "# " + text
    out = {"error": error.message, "message": text}
    if position:
        out["line"] = position.get("line")
        out["column"] = position.get("column")
    return out


def s_get_error_messages(self, d, errors, add_comments):
    return [self.create_message(d, list(e.absolute_path), e, add_comments) for e in errors]


def s__get_errors(self, d, validator, add_comments):
    instance = json.loads(json.dumps(self.convert_lowercase(d)), object_pairs_hook=OrderedDict)
    return self.get_error_messages(d, list(validator.iter_errors(instance)), add_comments)


def s_validate(self, value, add_comments=False, schema_name=None, version=None):
    out = []
    for d in value if isinstance(value, list) else [value]:
        v = self.get_validator(schema_name if schema_name else self.get_type(d), version)
        out.extend(self._get_errors(d, v, add_comments))
    return out


def s_get_type(self, d):
    t = d.get(self.find_key(d, "__type__"))
    if isinstance(t, str):
        t = t.lower()
        if t in TYPES:
            return t
    return "map"


def s_get_validator(self, schema_name, version=None):
    if version is None:
        return self.get_schema_validator(schema_name)
    return jsonschema.Draft4Validator(schema=self.get_versioned_schema(version, schema_name))


# ---- stand-ins for the objects of jsonschema
class Err:
    """an error of jsonschema: a message, and the path to the value"""

    def __init__(self, message, path):
        self.message, self.absolute_path = message, path


class Judge:
    """a validator of jsonschema"""

    def __init__(self, errors):
        self.errors = errors

    def iter_errors(self, instance):
        return iter([Err("%s %r" % (e.message, instance), e.absolute_path) for e in self.errors])


# ---- inputs
def validator(eng):
    from mappyfile.validator import Validator

    return SymObj(Validator, {}, term=const("validator", U), ty=TObj(Validator))


def setup(eng):
    def loads(eng, text, object_pairs_hook=None):
        return SVal(uf("json.loads", S, U, U)(eng.z(eng.conc(text), S), const("hook:" + getattr(object_pairs_hook, "__name__", "None"), U)), TAny)

    def dumps(eng, value):
        return mk(uf("json.dumps", U, S)(eng.term(value)))

    eng.externals[json.loads] = loads
    eng.externals[json.dumps] = dumps
    eng.externals[jsonschema.Draft4Validator] = lambda eng, schema: SymObj(Judge, {}, term=uf("Draft4Validator", U, U)(eng.term(schema)), ty=TObj(Judge))


def native_validator(rng):
    from mappyfile.validator import Validator

    return Validator()


def meta(rng):
    return {k: rng.choice([5.0, 6, 7.6, 8.0]) for k in rng.sample(["minVersion", "maxVersion"], rng.randrange(3))}


def native_schema(rng, d=3):
    out = {}
    if rng.random() < .5:
        out["metadata"] = meta(rng)
    if d:
        if rng.random() < .3:
            out["allOf"] = [native_schema(rng, d - 1) for i in range(rng.randrange(3))]
        if rng.random() < .3:
            out["items"] = rng.choice([native_schema(rng, d - 1), [native_schema(rng, d - 1)], {}])
        if rng.random() < .5:
            out["properties"] = {k: native_schema(rng, d - 1) for k in rng.sample("abc", rng.randrange(3))}
        if rng.random() < .3:
            out["oneOf"] = [rng.choice([native_schema(rng, d - 1), "x", 3]) for i in range(rng.randrange(3))]
        if rng.random() < .3:
            out["enum"] = ["a", "b"]
    return out


def native_version(rng):
    return rng.choice([5.0, 6, 6.0, 7.6, 8.0, 4.8])


def native_dict(rng, d=3):
    k = rng.randrange(7)
    if k < 3 or d == 0:
        return rng.choice(["Name", "X", 1, 2.5, None, True])
    if k < 5:
        return [native_dict(rng, d - 1) for i in range(rng.randrange(4))]
    return named(rng, d)


def named(rng, d=3):
    out = {}
    for k in rng.sample(["Name", "NAME", "name", "layers", "Layers", "__type__", "__TYPE__", "__position__", "points", "x"], rng.randrange(6)):
        out[k] = native_positions(rng) if k == "__position__" else rng.choice(["MAP", "Layer", "bogus", "symbolset"]) if k.lower() == "__type__" else native_dict(rng, d - 1)
    return out


def native_positions(rng, d=3):
    if d == 0 or rng.random() < .3:
        return {"line": rng.choice([1, 7, "x"]), "column": 3}
    if rng.random() < .3:
        return [native_positions(rng, d - 1) for i in range(rng.randrange(3))]
    if rng.random() < .2:
        return rng.choice([None, {}, [], 3])
    out = {k: native_positions(rng, d - 1) for k in rng.sample(["name", "layers", "points", "x"], rng.randrange(4))}
    if rng.random() < .6:
        out = dict({"line": 2, "column": 4}, **out)
    return out


def native_path(rng):
    return [rng.choice(["name", "layers", "points", "x", 0, 0, 1]) for i in range(rng.randrange(4))]


def contracts():
    from mappyfile.validator import Validator

    out = []

    def add(name, spec, args, gen, **kw):
        out.append(Contract("Validator." + name, lambda: getattr(Validator, name.split(" (")[0]), spec, args, gen, **dict({"setup": setup}, **kw)))

    a = lambda *fs: (lambda eng: [validator(eng)] + [f(eng) for f in fs])  # noqa: E731
    n = lambda *fs: (lambda rng: [native_validator(rng)] + [f(rng) for f in fs])  # noqa: E731
    val = lambda ty, name: (lambda eng: SVal(const(name, U), ty))  # noqa: E731
    text = lambda name: (lambda eng: SStr(const(name, S)))  # noqa: E731
    TNumber = Ty(["int", "float"])
    version = val(TNumber, "version")
    TMeta = TDict(TAny, fields={"minVersion": TNumber, "maxVersion": TNumber})
    TSchema = TDict(TAny, fields={"metadata": TMeta})
    add("is_valid_for_version", s_is_valid_for_version, a(val(TSchema, "d"), version), n(native_schema, native_version))
    TNode = TDict(TAny, fields={"allOf": TList(TDict(TAny)), "items": TDict(TAny) | TList(TAny) | TStr})
    available = lambda: {Validator.is_valid_for_version: (TBool, None), Validator.is_available: (TBool, None)}  # noqa: E731
    add("is_available", s_is_available, a(val(TNode, "d"), version), n(native_schema, native_version), opaque=available)
    versioned = lambda: {Validator.is_available: (TBool, None), Validator.get_versioned_properties: (TAny, None)}  # noqa: E731
    for what, ty in (("dict", TDict(TAny)), ("list", TList(TAny)), ("scalar", Ty(["none", "bool", "int", "float", "str"]))):
        add("get_versioned_properties (%s)" % what, s_get_versioned_properties, a(val(ty, "properties"), version), n(lambda rng: rng.choice([native_schema(rng), [native_schema(rng), "x", 1], "x", 1]), native_version), opaque=versioned)
    schemas = lambda: {Validator.get_expanded_schema: (TDict(TAny), None), Validator.is_available: (TBool, None), Validator.get_versioned_properties: new_dict}  # noqa: E731

    def new_dict(eng, bound):
        """get_versioned_properties of a dict is a new dict"""
        return PDict(base=uf("versioned", U, U, U)(eng.term(bound["properties"]), eng.term(bound["version"])), ty=TDict(TAny))

    add("get_versioned_schema", s_get_versioned_schema, a(val(TNumber | TNone, "version"), text("schema_name")), n(lambda rng: rng.choice([None, 5.0, 7.6]), lambda rng: rng.choice(["class", "style"])), opaque=schemas, trials=6)
    lowered = lambda: {Validator.convert_lowercase: (TAny, None)}  # noqa: E731
    for what, ty in (("dict", TDict(TAny)), ("list", TList(TAny)), ("scalar", Ty(["none", "bool", "int", "float", "str", "tuple"], elem=TAny))):
        add("convert_lowercase (%s)" % what, s_convert_lowercase, a(val(ty, "x")), n(native_dict), opaque=lowered)
    add("find_key", s_find_key_reversed, a(val(TDict(TAny), "d"), text("key")), n(named, lambda rng: rng.choice(["name", "__type__", "layers", "Name"])))
    found = lambda: {Validator.find_position: (TDict(TAny) | TNone, None)}  # noqa: E731
    TPositions = Ty(["none", "bool", "int", "float", "str", "dict", "list"], val=TAny, elem=TAny)
    add("find_position", s_find_position, a(val(TPositions, "positions")), n(native_positions), opaque=found)
    keys = lambda: {Validator.find_key: (TStr, None), Validator.find_position: (TDict(TAny) | TNone, None)}  # noqa: E731
    # a document as json has it
    TValue = Ty(["none", "bool", "int", "float", "str", "list", "dict"])
    TValue.elem = TValue.val = TValue

    def document(eng):
        d = SVal(const("root", U), TValue)
        eng.ctx.assume(kind_of(d.t) == KCODE["dict"])
        eng.kind_in(d, ["dict"])
        return d

    add("find_error_location", s_find_error_location, a(document, val(TList(TStr | TInt), "path")), n(named, native_path), opaque=keys, seconds=200)
    TError = TObj(Err, message=TStr, absolute_path=TList(TStr | TInt))
    location = lambda: {Validator.find_error_location: (TTuple(TDict(TAny, fields={"__comments__": TDict(TAny)}), TStr, TDict(TAny) | TNone), Exception)}  # noqa: E731
    nerr = lambda rng: Err("m%d" % rng.randrange(3), collections.deque(native_path(rng)))  # noqa: E731
    add("create_message", s_create_message, a(val(TDict(TAny), "root"), val(TList(TStr | TInt), "path"), val(TError, "error"), lambda eng: SBool(const("add_comments", B))), n(named, native_path, nerr, lambda rng: rng.random() < .5), opaque=location)
    messages = lambda: {Validator.create_message: (TDict(TAny), None)}  # noqa: E731
    add("get_error_messages", s_get_error_messages, a(val(TDict(TAny), "root"), val(TList(TError), "errors"), lambda eng: SBool(const("add_comments", B))),
        n(lambda rng: {"name": 1, "layers": [{"__type__": "layer"}, {}]}, lambda rng: [Err("m%d" % i, collections.deque(rng.choice([[], ["name"], ["layers"], ["layers", 0], ["layers", 1, "x"]]))) for i in range(rng.randrange(4))], lambda rng: rng.random() < .5), opaque=messages)
    errors = lambda: {Validator.convert_lowercase: (TAny, None), Validator.get_error_messages: (TList(TDict(TAny)), None), Judge.iter_errors: (TList(TError), None)}  # noqa: E731
    add("_get_errors", s__get_errors, a(val(TDict(TAny), "d"), lambda eng: SymObj(Judge, {}, term=const("judge", U), ty=TObj(Judge)), lambda eng: SBool(const("add_comments", B))),
        n(named, lambda rng: Judge([Err("m%d" % i, []) for i in range(rng.randrange(3))]), lambda rng: rng.random() < .5), opaque=errors)
    validators = lambda: {Validator.get_validator: (TObj(Judge), None), Validator.get_type: (TStr, None), Validator._get_errors: (TList(TDict(TAny)), None)}  # noqa: E731
    add("validate", s_validate, a(val(TDict(TAny) | TList(TDict(TAny)), "value"), lambda eng: SBool(const("add_comments", B)), val(TStr | TNone, "schema_name"), val(TNumber | TNone, "version")),
        n(lambda rng: rng.choice([named(rng), [named(rng) for i in range(rng.randrange(3))]]), lambda rng: False, lambda rng: rng.choice([None, "style", ""]), lambda rng: None), opaque=validators, trials=30)
    add("validate (default)", s_validate, a(val(TDict(TAny) | TList(TDict(TAny)), "value")), n(lambda rng: rng.choice([named(rng), [named(rng) for i in range(rng.randrange(3))]])), opaque=validators, trials=30)
    add("get_type", s_get_type, a(val(TDict(TAny), "d")), n(named), opaque=lambda: {Validator.find_key: (TStr, None)})
    judges = lambda: {Validator.get_schema_validator: (TObj(Judge), None), Validator.get_versioned_schema: (TDict(TAny), None)}  # noqa: E731
    add("get_validator", s_get_validator, a(text("schema_name"), val(TNumber | TNone, "version")), None, opaque=judges)
    return out
