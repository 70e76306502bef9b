"""MapServer logical expressions: AST, renderer, and an independent precedence parser.

Precedence (C10): OR < AND < NOT < comparisons < + - < * / % ^ and unary minus.
AST: ('or',a,b) ('and',a,b) ('not',a) ('cmp',op,a,b) ('bin',op,a,b) ('neg',a)
     ('num',text) ('str',text-with-quotes) ('bind',name) ('call',name,[args]) ('re',text) ('list',text) ('var',text)
     ('word', text)
"""
import re

CMP = ["=", "==", "!=", "<", "<=", ">", ">=", "~", "~*", "=*", "IN", "EQ", "NE", "LT", "LE", "GT", "GE", "LIKE"]
ARITH = ["+", "-", "*", "/", "^", "%"]
PREC = {"or": 1, "and": 2, "not": 3, "cmp": 4}


def binprec(op):
    return 5 if op in "+-" else 6


class ExprError(Exception):
    pass


TOK = re.compile(
    r"""\s*(?:
    (?P<bind>\[[^\]]*\])
  | (?P<str>"(?:\\"|[^"])*"i?|'(?:\\'|[^'])*'i?|`[^`]*`i?)
  | (?P<var>%[A-Za-z_][^%\s]*%)
  | (?P<num>(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?(?![A-Za-z_]))
  | (?P<list>\{[^}]*\})
  | (?P<op>\|\||&&|==|!=|<=|>=|=\*|~\*|[=<>~!+*/^%(),-])
  | (?P<word>[A-Za-z_][A-Za-z0-9_:]*)
    )""",
    re.X,
)


def tokenize(s):
    i, out = 0, []
    s = s.rstrip()
    while i < len(s):
        # regexes are only operands: after an operator or opening parenthesis
        m0 = re.compile(r"\s*(/[^/\n]*/i?)").match(s, i)
        if m0 and (not out or (out[-1][0] == "op" and out[-1][1] not in (")",)) or
                   (out[-1][0] == "word" and out[-1][1].upper() in CMP)):
            out.append(("re", m0.group(1)))
            i = m0.end()
            continue
        m = TOK.match(s, i)
        if not m or m.end() == i:
            raise ExprError("cannot tokenize %r at %d" % (s, i))
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out


def parse(s):
    """strip every parenthesis, return the AST under MapServer's precedence"""
    toks = tokenize(s)
    pos = 0

    def peek():
        return toks[pos] if pos < len(toks) else (None, None)

    def take():
        nonlocal pos
        pos += 1
        return toks[pos - 1]

    def isop(*ops):
        k, v = peek()
        return (k == "op" and v in ops) or (k == "word" and v.upper() in ops)

    def p_or():
        a = p_and()
        while isop("OR", "||"):
            take()
            a = ("or", a, p_and())
        return a

    def p_and():
        a = p_not()
        while isop("AND", "&&"):
            take()
            a = ("and", a, p_not())
        return a

    def p_not():
        if isop("NOT", "!"):
            take()
            return ("not", p_not())
        return p_cmp()

    def p_cmp():
        a = p_sum()
        while isop(*CMP):
            k, op = take()
            a = ("cmp", op, a, p_sum())
        return a

    def p_sum():
        a = p_prod()
        while isop("+", "-"):
            op = take()[1]
            a = ("bin", op, a, p_prod())
        return a

    def p_prod():
        a = p_un()
        while isop("*", "/", "^", "%"):
            op = take()[1]
            a = ("bin", op, a, p_un())
        return a

    def p_un():
        if isop("-"):
            take()
            return ("neg", p_un())
        if isop("NOT", "!"):
            # NOT as an operand: extends as far as a comparison
            return p_not()
        return p_atom()

    def p_atom():
        k, v = take() if pos < len(toks) else (None, None)
        if k == "op" and v == "(":
            a = p_or()
            if not isop(")"):
                raise ExprError("missing ) in %r" % s)
            take()
            return a
        if k == "word":
            if isop("("):
                take()
                args = []
                if not isop(")"):
                    args.append(p_or())
                    while isop(","):
                        take()
                        args.append(p_or())
                if not isop(")"):
                    raise ExprError("missing ) in call %r" % s)
                take()
                return ("call", v, tuple(args))
            return ("word", v)
        if k in ("bind", "str", "num", "list", "re", "var"):
            return (k, v)
        raise ExprError("unexpected %r in %r" % (v, s))

    a = p_or()
    if pos != len(toks):
        raise ExprError("trailing %r in %r" % (toks[pos:], s))
    return a


def canon(a):
    """numbers by value (spelling of numerals is not compared outside lists); -<num> == negative numeral"""
    if a[0] == "num":
        t = a[1]
        v = float(t) if re.search(r"[.eE]", t) else int(t)
        return ("num", v)
    if a[0] == "word" and a[1].lower() in ("true", "false"):
        return ("word", a[1].lower())
    if a[0] == "cmp":
        return ("cmp", a[1], canon(a[2]), canon(a[3]))
    if a[0] == "bin":
        return ("bin", a[1], canon(a[2]), canon(a[3]))
    if a[0] in ("or", "and"):
        return (a[0], canon(a[1]), canon(a[2]))
    if a[0] == "neg":
        x = canon(a[1])
        if x[0] == "num":
            return ("num", -x[1])
        return ("neg", x)
    if a[0] == "not":
        return ("not", canon(a[1]))
    if a[0] == "call":
        return ("call", a[1], tuple(canon(x) for x in a[2]))
    return a


def same(s1, s2):
    try:
        return canon(parse(s1)) == canon(parse(s2))
    except ExprError:
        return False


def prec(a):
    k = a[0]
    if k in PREC:
        return PREC[k]
    if k == "bin":
        return binprec(a[1])
    if k == "neg":
        return 6
    return 9


def render(a, rng=None, extra=0.0, glue=" "):
    """source text of AST a with the minimal parentheses plus random redundant ones"""

    def par(x, need):
        t = r(x)
        if need or (rng and extra and rng.random() < extra and x[0] in ("or", "and", "not", "cmp", "bin", "neg")):
            return "(" + t + ")"
        return t

    def r(x):
        k = x[0]
        if k in ("or", "and"):
            p = prec(x)
            op = {"or": ["OR", "||", "or"], "and": ["AND", "&&", "and"]}[k]
            op = rng.choice(op) if rng else op[0]
            return par(x[1], prec(x[1]) < p) + glue + op + glue + par(x[2], prec(x[2]) <= p)
        if k == "not":
            op = rng.choice(["NOT ", "! ", "not ", "!"]) if rng else "NOT "
            return op + par(x[1], prec(x[1]) < 4 and x[1][0] != "not")
        if k == "cmp":
            return par(x[2], prec(x[2]) < 4) + glue + x[1] + glue + par(x[3], prec(x[3]) <= 4)
        if k == "bin":
            p = prec(x)
            return par(x[2], prec(x[2]) < p) + glue + x[1] + glue + par(x[3], prec(x[3]) <= p and x[3][0] != "neg")
        if k == "neg":
            return "-" + par(x[1], prec(x[1]) < 7)
        if k == "call":
            return x[1] + "(" + ",".join(r(y) for y in x[2]) + ")"
        if k == "bind":
            return x[1]
        return x[1]

    return r(a)


def outer(a, **kw):
    return "(" + render(a, **kw) + ")"


def operands(rng, in_call=False):
    c = rng.random()
    if c < 0.35:
        return ("bind", "[%s]" % rng.choice(["a", "pop_2", "NAME", "x1", "ms:id", "b"]))
    if c < 0.6:
        return ("num", rng.choice(["1", "0", "42", "3.5", "0.25", "100", "7", "2.0"]))
    if c < 0.85:
        q = rng.choice("\"'`" if not in_call else "\"'")
        return ("str", q + rng.choice(["abc", "a b", "[a]", "x,y", "%.2f", "(a)", "2012-01", "é", ""]) + q)
    if in_call:
        return ("bind", "[shape]")
    return ("call", rng.choice(["tostring", "length", "round", "upper", "buffer"]),
            tuple(operands(rng, True) for _ in range(rng.choice([1, 2]))))


def gen(rng, size, kind=None):
    """random AST with about `size` operators"""
    if size <= 0:
        return operands(rng)
    kinds = ["or", "and", "not", "cmp", "bin", "neg", "cmp", "bin"]
    k = kind or rng.choice(kinds)
    if k in ("not", "neg"):
        return (k, gen(rng, size - 1))
    s1 = rng.randrange(size)
    a, b = gen(rng, s1), gen(rng, size - 1 - s1)
    if k == "cmp":
        return ("cmp", rng.choice(CMP), a, b)
    if k == "bin":
        return ("bin", rng.choice(ARITH), a, b)
    return (k, a, b)
