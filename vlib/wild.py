"""Documents outside the schema: any keyword with any value token the lexer knows (accepted or not)."""
from . import expr as X
from . import gen as G
from . import vocab as V

WORDS = ["foo", "Bar_9", "x-y", "1abc", "a:b", "9", "polygon", "ON", "off", "default", "éa", "normal", "grid", "feature", "name", "type",
         "color", "points", "symbol", "style", "layer", "end", "projection", "auto", "hilite", "selected", "null", "true", "false", "TRUE",
         "in", "and", "not", "like", "metadata", "-5", "0x1F", "include_x", "UNION", "cc", "postgis"]
PATHS = ["data/x.shp", "./a/b.c", "/var/x.png", "a.b", "../up/x_1.map", "x/y-z"]
RAW = ["1", "-1", "+5", "007", "1.5", "-0.5", "+2.50", ".5", "5.", "1e5", "1e-07", "-1.5E+3", "0", "-0", "0.0", "123456789012345678901",
       "[a]", "[ms:x-1]", "%var%", "%a b%", "/abc/", "/a b/i", "\\\\abc\\\\", "\\\\x y\\\\i", "{a,b}", "{1,2,3}", "{a b,c}", "{'x','y'}", "{[a],b}",
       "`x y`", "`2012-01`i", '"abc"i', "'a b'i", "NULL", "null", '"#ff0000"', "'#FfF'", '"#12345678"', "NOT ([a] = 1)", "!([a])", "([a])",
       "(1)", "('x')", "(true)", "1 2", "1 2 3", "1 2 3 4", "1.5 2.5", "[a] [b]", "[a] 5", "5 [a]", "0.5 [a]", '"#ffffff" "#000000"', "1 2 3 4 5 6",
       "'#fff' '#000'", "1.0 2 3.5 4", "-1 -1", "/a(b/", "/*1/", "''", '""', "'a\"b'", '"a\'b"', "'a\\'b'", '"a\\"b"', "'a]'", "'%v%'", "'true'", "'5'", "'AUTO'", "' x '", "'end'", "'#notahex'"]


def value(rng):
    c = rng.random()
    if c < 0.2:
        return rng.choice(WORDS)
    if c < 0.27:
        return rng.choice(PATHS)
    if c < 0.7:
        return rng.choice(RAW)
    if c < 0.85:
        s = G.rand_string(rng)
        return G.quote_string(rng, s)
    if c < 0.9:
        s = G.rand_string(rng, avoid=rng.choice("\"'"))
        q = "'" if "'" not in s else '"'
        return q + s + q
    return "(" + X.render(X.gen(rng, rng.randrange(0, 4)), rng, extra=0.2) + ")"


def kv(rng):
    n = rng.randrange(0, 4)
    ks = ["a", "B", "'k e y'", '"x"', "k-1", "wms_title", "'__x'", "''", "éé", "end_"]

    def tok():
        c = rng.random()
        if c < 0.5:
            return rng.choice(ks)
        s = G.rand_string(rng, avoid=rng.choice("\"'"))
        q = "'" if "'" not in s else '"'
        return q + s + q
    return " ".join(tok() + " " + tok() for _ in range(n))


def body(rng, t, depth):
    out = []
    keys = list(V.slots().get(t, {"x": 0})) or ["x"]
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        c = rng.random()
        if c < 0.15 and depth > 0:
            out.append(block(rng, depth - 1))
        elif c < 0.22:
            k = rng.choice(["METADATA", "validation", "VALUES", "connectionoptions"])
            out.append(k + " " + kv(rng) + " END")
        elif c < 0.26:
            out.append("PROJECTION " + rng.choice(["AUTO", "'init=epsg:4326'", "'a' \"b\"", "", "'auto'", "auto", "'it''s'", "'a\"b'"]) + " END")
        elif c < 0.31:
            out.append(rng.choice(["POINTS", "pattern"]) + " " + " ".join(rng.choice(["1 2", "-1.5 3", "0 0.5", "1e3 2"]) for _ in range(rng.randrange(1, 4))) + " END")
        elif c < 0.35:
            out.append("CONFIG " + rng.choice(["PROJ_LIB", "'a b'", '"x"', "éa"]) + " " + rng.choice(["y", "'x y'", "'it\"s'", '""', "ON"]))
        elif c < 0.4:
            v = value(rng)
            out.append(rng.choice(["PROCESSING", "formatoption", "compfilter"]) + " " + v)
        else:
            k = rng.choice(keys) if rng.random() < 0.8 else rng.choice(["foo", "unknown_key", "a-b", "name2", "area"])
            if k in V.SPECIAL or k in V.KVBLOCKS or k == "include" or k in V.UNPLURAL or (k in V.BLOCKS and k not in ("symbol", "style")):
                continue
            out.append(k + " " + value(rng))
    return rng.choice(["\n", " ", "\n  "]).join(out)


def block(rng, depth=2):
    t = rng.choice(V.BLOCKS)
    return t + "\n" + body(rng, t, depth) + "\nEND"


def doc(rng):
    return block(rng, 2) if rng.random() < 0.9 else block(rng, 1) + "\n" + block(rng, 1)
