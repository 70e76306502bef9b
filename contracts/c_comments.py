"""Contracts of mappyfile.transformer.CommentsTransformer and MapfileToDict: which comments end up where."""
from collections import OrderedDict

import lark
import z3

from contracts import c_transformer as T
from contracts.c_expressions import TTOKEN, native_token, native_transformer, plain_transformer, text_token, token, token_class
from contracts.c_quoter import bare
from pyvc.core import dhas, PyRaise, PExc, TAny, TStr, TObj, SVal, SymObj, SStr, SBool, U, S, B, I, const, Ty, TList, TNone, TDict, TTuple, PDict, PList, OSeg, mk, uf
from pyvc.verify import Contract, word


class Meta:
    """what lark keeps about a node of the tree"""


class Node:
    def __init__(self, data, children, meta):
        self.data, self.children, self.meta = data, children, meta


# ---- specifications
def s_get_comments(self, meta):
    try:
        return list(meta.comments)
    except AttributeError:
        return []


def s_pairs(self, d, metadata):
    # the first child is the name of the block, the last one its END
    for sp in metadata[1:-1]:
        t = sp.children[0]
        if not T.is_token(t):
            t = t.children[0]
        else:
            assert t.type == "UNQUOTED_STRING"
        key = bare(t.value).lower()
        assert key in d
        found = s_get_comments(self, sp.meta)
        if found:
            d["__comments__"][key] = found
    return d


def s_attr(self, tree):
    d = self._mapfile_todict.transform(tree)
    d["__comments__"] = s_get_comments(self, tree.meta)
    return d


def s_projection(self, tree):
    d = self._mapfile_todict.transform(tree)
    found = s_get_comments(self, tree.meta)
    if found:
        d["__comments__"] = found
    return d


def s_composite(self, tree):
    d = self._mapfile_todict.transform(tree)
    if "__comments__" not in d:
        d["__comments__"] = OrderedDict()
    found = s_get_comments(self, tree.meta)
    if found:
        d["__comments__"]["__type__"] = found
    if d["__type__"] == "metadata":
        self.add_metadata_comments(d, tree.children[0].children)
    return d


def s_todict_init(self, include_position=False, include_comments=False, **kwargs):
    from mappyfile.transformer import MapfileTransformer

    self.include_position = include_position
    self.include_comments = include_comments
    self.transformer_class = MapfileTransformer
    self.kwargs = kwargs


def s_todict_transform(self, tree):
    try:
        return self._transform(tree)
    except RecursionError:
        raise lark.ParseError("too deep")


def s_todict__transform(self, tree):
    from mappyfile.transformer import Canonize, CommentsTransformer, MapfileTransformer

    mt = MapfileTransformer(self.include_position, self.include_comments)
    tree = Canonize().transform(tree)
    self.mapfile_transformer = mt
    if self.include_comments:
        tree = CommentsTransformer(mt).transform(tree)
    return mt.transform(tree)


def s_symbolset(self, tree):
    tree.data = "composite"
    tree.children[0] = lark.Tree("composite_type", [tree.children[0]])
    return tree


def setup_trees(eng):
    from mappyfile.transformer import Canonize

    T.setup(eng)
    eng.externals[Canonize] = lambda eng: SymObj(Canonize, {}, term=const("canonize", U), ty=TObj(Canonize))
    eng.externals[lark.Transformer.transform] = visited
    eng.externals[lark.visitors.Transformer_InPlace.transform] = visited
    eng.externals[lark.Tree] = lambda eng, data, children, meta=None: SymObj(lark.Tree, {"data": data, "children": children, "meta": meta})


def visited(eng, self, tree):
    """lark's traversal: a function of the transformer and of the tree"""
    t = [eng.term(self), eng.term(tree)]
    k = self.cls.__name__
    if eng.ctx.branch(uf("visit-raises:" + k, U, U, B)(*t)):
        raise PyRaise(PExc(lark.exceptions.VisitError, ("transform",)))
    return SVal(uf("visit:" + k, U, U, U)(*t), TAny)


def setup(eng):
    T.setup(eng)
    eng.externals[lark.Transformer.transform] = transformed


def transformed(eng, self, tree):
    """the callbacks of MapfileTransformer, applied to the subtree"""
    t = eng.term(tree)
    if eng.ctx.branch(uf("transform-raises", U, B)(t)):
        raise PyRaise(PExc(lark.exceptions.VisitError, ("transform",)))
    tc = eng.transform_type
    return eng.force(SVal(uf("transform", U, U)(t), tc))


def contracts():
    from mappyfile.ordereddict import CaseInsensitiveOrderedDict
    from mappyfile.transformer import Canonize, CommentsTransformer, MapfileToDict, MapfileTransformer

    out = []
    raw = lambda name: (lambda: getattr(CommentsTransformer.__dict__[name], "base_func", CommentsTransformer.__dict__[name]))  # noqa: E731

    def add(name, spec, args, gen=None, **kw):
        out.append(Contract("CommentsTransformer." + name, raw(name.split(" (")[0]), spec, args, gen, **dict({"setup": setup}, **kw)))

    def self_(eng):
        return SymObj(CommentsTransformer, {"_mapfile_todict": plain_transformer(eng)}, term=const("comments_transformer", U), ty=TObj(CommentsTransformer))

    TMETA = TObj(Meta, comments=TList(TStr))
    with_comments = lambda name: SymObj(Meta, {"comments": SVal(const(name + ".comments", U), TList(TStr))}, term=const(name, U), ty=TObj(Meta))  # noqa: E731
    without = lambda name: SymObj(Meta, {}, term=const(name, U), ty=TObj(Meta))  # noqa: E731

    def meta(eng, name="meta"):
        return with_comments(name) if eng.ctx.branch(const(name + ":has", B)) else without(name)

    class NativeMeta:
        pass

    def nmeta(rng):
        m = NativeMeta()
        if rng.random() < .7:
            m.comments = [word(rng, ["# a", "# b", ""]) for i in range(rng.randrange(3))]
        return m

    def nself(rng):
        return CommentsTransformer(native_transformer(rng))

    add("get_comments", s_get_comments, lambda eng: [self_(eng), meta(eng)], lambda rng: [nself(rng), nmeta(rng)])

    def tree(eng, children=None):
        return SymObj(Node, {"meta": meta(eng), "children": children if children is not None else SVal(const("children", U), TList(TAny))}, term=const("tree", U), ty=TObj(Node))

    def typed(ty):
        def f(eng):
            setup(eng)
            eng.transform_type = ty
        return f

    attr = TDict(TAny, dcls=OrderedDict)
    block = TDict(TAny, fields={"__type__": TStr, "__comments__": TDict(TAny, dcls=OrderedDict)}, required=("__type__",), dcls=CaseInsensitiveOrderedDict)
    add("_save_attr_comments", s_attr, lambda eng: [self_(eng), tree(eng)], setup=typed(attr))
    add("_save_projection_comments", s_projection, lambda eng: [self_(eng), tree(eng)], setup=typed(attr))
    pairs = lambda: {CommentsTransformer.add_metadata_comments: changed}  # noqa: E731

    def changed(eng, bound):
        d = bound["d"]
        eng.dict_set(d, "__pairs__", SVal(uf("metadata comments", U, U)(eng.term(bound["metadata"])), TAny))
        return d

    def body(eng):
        return PList([SymObj(Node, {"children": SVal(const("md", U), TList(TAny))}, term=const("body", U), ty=TObj(Node))])

    add("_save_composite_comments", s_composite, lambda eng: [self_(eng), tree(eng, body(eng))], setup=typed(block), opaque=pairs)

    def more(name, spec, args, **kw):
        out.append(Contract("MapfileToDict." + name, lambda: getattr(MapfileToDict, name), spec, args, **dict({"setup": setup_trees}, **kw)))

    flag = lambda name: (lambda eng: SBool(const(name, B)))  # noqa: E731
    fresh = lambda eng: SymObj(MapfileToDict, {}, term=const("todict", U), ty=TObj(MapfileToDict))  # noqa: E731
    made = lambda eng: SymObj(MapfileToDict, {"include_position": SBool(const("position", B)), "include_comments": SBool(const("comments", B)), "transformer_class": MapfileTransformer, "kwargs": PDict()}, term=const("todict", U), ty=TObj(MapfileToDict))  # noqa: E731
    more("__init__", s_todict_init, lambda eng: [fresh(eng), flag("position")(eng), flag("comments")(eng)])
    more("transform", s_todict_transform, lambda eng: [made(eng), SVal(const("tree", U), TAny)], opaque=lambda: {MapfileToDict._transform: overflow})
    more("_transform", s_todict__transform, lambda eng: [made(eng), SVal(const("tree", U), TAny)])
    out.append(Contract("Canonize.symbolset", lambda: getattr(Canonize.__dict__["symbolset"], "base_func", Canonize.__dict__["symbolset"]), s_symbolset,
                        lambda eng: [SymObj(Canonize, {}, term=const("canonize", U), ty=TObj(Canonize)), SymObj(Node, {"data": SStr(const("data", S)), "children": PList([SVal(const("c0", U), TAny), OSeg(const("rest", U), TAny)])}, term=const("tree", U), ty=TObj(Node))], setup=setup_trees))

    def overflow(eng, bound):
        t = eng.term(bound["tree"])
        if eng.ctx.branch(uf("too-deep", U, B)(t)):
            raise PyRaise(PExc(RecursionError, ("depth",)))
        return SVal(uf("_transform", U, U)(t), TAny)

    TSTRING = TObj(Node, children=TTuple(TTOKEN()))
    for what, key in (("bare keys", TTOKEN()), ("quoted keys", TSTRING)):
        for has, m in (("commented", TObj(Meta, comments=TList(TStr))), ("not commented", TObj(Meta))):
            def args(eng, key=key, m=m):
                sp = TObj(Node, children=TTuple(key, TAny), meta=m)
                d = PDict(base=const("d", U), ty=TDict(TAny, fields={"__comments__": TDict(TAny, dcls=OrderedDict)}, required=("__comments__",), dcls=CaseInsensitiveOrderedDict), dcls=CaseInsensitiveOrderedDict)
                eng.ctx.assume(dhas(d.base, z3.StringVal("__comments__")))
                return [self_(eng), d, PList([SVal(const("first", U), TAny), OSeg(const("pairs", U), sp), SVal(const("last", U), TAny)])]

            add("add_metadata_comments (%s, %s)" % (what, has), s_pairs, args, opaque=T.by_contract)
    add("add_metadata_comments (nothing)", s_pairs, lambda eng: [self_(eng), PDict(base=const("d", U), ty=TDict(TAny)), PList([SVal(const("x%d" % i, U), TAny) for i in range(2)])])
    return out
