"""Memoise the compilation of the Lark grammar (and nothing else) so the public functions can be called cheaply.

mappyfile builds a new Parser (grammar compilation, ~0.1 s) for every public call.  The wrapper returns one Lark
object per distinct option set in this process; comment callbacks are forwarded to the most recently created Parser,
which is the one in use because each public call creates its own.  Not used where object reuse or threads are the
subject (C12) or in subprocesses (C20).
"""
import lark

_real = None
_cache = {}


def install():
    global _real
    if _real is not None:
        return
    _real = lark.Lark.open

    def cached(cls, grammar_filename, rel_to=None, **options):
        cbs = options.get("lexer_callbacks")
        key = (cls, grammar_filename, rel_to, tuple(sorted((k, repr(v)) for k, v in options.items() if k != "lexer_callbacks")),
               tuple(sorted(cbs)) if cbs else None)
        if key not in _cache:
            holder = {}
            if cbs:
                def fwd(name):
                    return lambda t: holder[name](t)
                options = dict(options, lexer_callbacks={n: fwd(n) for n in cbs})
            _cache[key] = (_real(grammar_filename, rel_to=rel_to, **options), holder)
        obj, holder = _cache[key]
        if cbs:
            holder.clear()
            holder.update(cbs)
        return obj

    lark.Lark.open = classmethod(cached)


def uninstall():
    global _real
    if _real is not None:
        lark.Lark.open = _real
        _real = None
        _cache.clear()
