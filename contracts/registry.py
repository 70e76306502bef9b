"""Which contracts carry which property, and how their outcomes count.

run(ctx, pid): the verifier discharges every obligation of every contract registered for the property, generated from
/repo's current source; each contract is also run natively against its specification on random inputs (replay).

 proved                                          discharged
 real function and specification differ on a
   concrete input, public function               VIOLATION with that input
   the same for an internal function             VIOLATION, no-failing-input-found (the input is one of the helper)
 refuted by the solver, no input found           VIOLATION, no-failing-input-found
 undecided (outside the fragment, time out, a
   function that no longer exists or has another
   signature)                                    reported as undischarged; the bounded check of the property decides
"""
import importlib
import multiprocessing
import random
import signal
import sys
import time
import traceback

BACKEND = "pyvc+z3"

def pp(*names):
    return ["PrettyPrinter." + n for n in names]


CONTENT = ("check_representation", "check_single_value", "process_dict", "process_key_dict", "process_config_dict", "is_", "get_", "format_list_value", "check_options_list", "format_value", "format_repeated_value",
           "process_repeated_list", "process_projection", "format_pair_list", "process_attribute", "separate_complex", "format_repeated_pair_list", "pprint", "_format", "__format_line", "__is_metadata")

# property -> [(module, contract name prefixes or None for all)]
PROPS = {
    "C06": [("c_pprint", None), ("c_frontend", ["utils.dump", "utils.save", "utils._save"])],
    "C07": [("c_validator", ["Validator." + n for n in ("convert_lowercase", "get_error_messages", "_get_errors", "validate", "get_type", "get_validator", "create_message", "find_key")])],
    "C09": [("c_validator", ["Validator." + n for n in ("is_valid_for_version", "is_available", "get_versioned_properties", "get_versioned_schema", "validate", "get_validator")])],
    "C14": [("c_pprint", pp("format_comment", "process_attribute_comment", "process_composite_comment", "_add_type_comment", "process_dict", "process_key_dict", "process_config_dict", "process_repeated_list",
                            "process_projection", "_format")), ("c_comments", None)],
    "C16": [("c_pprint", pp("compute_", "whitespace", "add_", "__format_line", "format_comment", "process_", "_add_type_comment", "format_pair_list", "format_repeated_pair_list", "_format", "pprint", "__init__"))],
    "C17": [("c_ordereddict", None)],
    "C18": [("c_dictutils", None)],
    "C01": [("c_quoter", None), ("c_pprint", pp(*CONTENT))],
    "C03": [("c_quoter", None), ("c_pprint", pp(*CONTENT))],
    "C04": [("c_quoter", None), ("c_pprint", pp(*CONTENT))],
    "C05": [("c_quoter", ["Quoter.remove_quotes", "Quoter.in_quotes"]),
            ("c_transformer", ["MapfileTransformer." + n for n in ("key_name", "attr", "config", "hexcolor", "projection", "metadata", "values", "validation", "connectionoptions", "check_composite_tokens")])],
    "C02": [("c_quoter", ["Quoter.remove_quotes", "Quoter.in_quotes"]), ("c_transformer", None), ("c_composite", None)],
    "C08": [("c_transformer", ["MapfileTransformer." + n for n in ("flatten", "create_position_dict", "attr", "metadata", "values", "validation", "connectionoptions", "check_composite_tokens", "config", "points",
                                                                  "pattern", "projection")]), ("c_composite", None),
            ("c_validator", ["Validator." + n for n in ("find_key", "find_position", "find_error_location", "create_message", "get_error_messages")])],
    "C10": [("c_expressions", None)],
    "C11": [("c_frontend", ["parser.Parser._is_unquoted", "parser.Parser.load (", "parser.Parser.parse_file", "parser.Parser.open_file", "utils.loads", "utils.open", "utils.load ("])],
    "C12": [("c_frontend", ["utils."]), ("c_pprint", pp("get_attribute_properties", "__init__")), ("c_validator", ["Validator." + n for n in ("validate", "get_versioned_schema", "get_versioned_properties", "get_validator", "get_schema")])],
    "C15": [("c_frontend", ["parser.Parser.load_includes", "parser.Parser._get_include", "parser.Parser.open_file", "parser.Parser.parse_file", "parser.Parser.load ", "utils.open", "utils.load"])],
    "C20": [("c_frontend", None)],
    "C13": [("c_transformer", ["MapfileTransformer." + n for n in ("attr", "metadata", "values", "validation", "connectionoptions", "check_composite_tokens", "config")]), ("c_composite", None),
            ("c_comments", None)],
}


def selected(pid):
    for mod, names in PROPS.get(pid, []):
        m = importlib.import_module("contracts." + mod)
        for i, c in enumerate(m.contracts()):
            if names is None or any(c.name.startswith(n) for n in names):
                yield mod, i, c


class Over(BaseException):
    pass


def _over(signum, frame):
    raise Over()


def job(a):
    from pyvc import forks

    got = forks.SLOTS is not None and forks.SLOTS.acquire(timeout=60)
    try:
        return job1(a)
    finally:
        if got:
            forks.SLOTS.release()


def job1(a):
    mod, i, name, seed, trials, dsecs, budget = a
    import logging

    logging.disable(logging.CRITICAL)
    sys.setrecursionlimit(12000)
    from pyvc import verify

    m = importlib.import_module("contracts." + mod)
    out = {"module": mod, "name": name, "status": "undecided", "reason": "", "paths": 0, "proved": 0, "seconds": 0.0, "solver": 0.0, "inlined": [], "opaque": [], "assumptions": [],
           "tried": 0, "difference": None, "model": None, "public": False, "missing": False, "kind": "contract"}
    try:
        c = m.contracts()[i]
        assert c.name == name
    except Exception as ex:
        out["reason"] = "the contract cannot be stated: %s: %s" % (type(ex).__name__, ex)
        return out
    out["public"], out["kind"] = c.public, c.kind
    try:
        fn = c.fn()
        out["function"] = "%s.%s" % (getattr(fn, "__module__", "?"), getattr(fn, "__qualname__", getattr(fn, "__name__", "?")))
        if fn is None:
            raise AttributeError("no such function")
    except Exception as ex:
        out["reason"], out["missing"] = "the function is gone: %s" % ex, True
        return out
    old = signal.signal(signal.SIGALRM, _over)
    c.seconds = min(c.seconds, budget)
    signal.setitimer(signal.ITIMER_REAL, c.seconds + 20)
    try:
        r = verify.verify(c)
        out.update(status=r.status, reason=r.reason[:1500], paths=r.paths, proved=r.proved, seconds=r.seconds, solver=r.solver, inlined=r.inlined, opaque=r.opaque, assumptions=r.assumptions)
        if r.refuted:
            out["model"] = [str(x)[:1500] for x in r.refuted[0]]
    except Over:
        out["reason"] = "time limit"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    # replay: real code against the specification, on inputs drawn also from the constants of the code and of the model
    signal.setitimer(signal.ITIMER_REAL, dsecs * 3 + 20)
    try:
        n = trials * (10 if out["status"] != "proved" else 1)
        verify.set_words(fn, out["model"])
        d, tried = verify.differential(c, seed, n, dsecs * (3 if out["status"] != "proved" else 1))
        out["tried"] = tried
        if d:
            args, a, b = d
            out["difference"] = {"args": repr(args)[:1500], "code": "%s %r" % (a[0], a[1]) if a[0] == "raise" else "returns %r" % (a[1],), "args_after": repr(a[2])[:700],
                                 "specification": "%s %r" % (b[0], b[1]) if b[0] == "raise" else "returns %r" % (b[1],), "args_after_specification": repr(b[2])[:700]}
            out["shape"] = a[0] == "raise" and b[0] != "raise" and issubclass(a[1], (TypeError, AttributeError)) or (
                a[0] == "raise" and issubclass(a[1], TypeError) and a[1] is not b[1])
    except Over:
        pass
    except Exception:
        out["replay_error"] = traceback.format_exc()[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return out


def wrong_in_braces(self, val):
    return val.strip().startswith("{")


def canary():
    """a wrong specification has to be refuted, and a contradictory precondition noticed"""
    import z3

    from contracts import c_quoter
    from pyvc import verify
    from pyvc.core import SVal, U, const, TStr
    from mappyfile.quoter import Quoter

    bad = verify.Contract("canary", lambda: Quoter.in_braces, wrong_in_braces, lambda eng: [c_quoter.quoter(eng), SVal(const("val", U), TStr)])
    r = verify.verify(bad)
    if r.status != "refuted":
        return "the wrong specification of in_braces was not refuted (%s %s)" % (r.status, r.reason)

    def contradiction(eng):
        a = [c_quoter.quoter(eng), SVal(const("val", U), TStr)]
        eng.ctx.assume(z3.BoolVal(False))
        return a

    r = verify.verify(verify.Contract("canary", lambda: Quoter.in_braces, c_quoter.s_in_braces, contradiction))
    if r.status == "proved":
        return "a contradictory precondition was not noticed"
    return None


def run(ctx, pid):
    jobs = []
    for mod, i, c in selected(pid):
        jobs.append((mod, i, c.name, ctx.seed, c.trials * (8 if ctx.thorough else 1), 60 if ctx.thorough else 8, c.seconds * (3 if ctx.thorough else 1), c.seconds))
    if not jobs:
        return
    jobs.sort(key=lambda j: -j[-1])
    nproc = min(8, len(jobs) + 1)
    from pyvc import forks

    forks.SLOTS = multiprocessing.get_context("fork").Semaphore(8)
    mp = multiprocessing.get_context("fork")
    results = []
    t0 = time.time()
    with mp.Pool(nproc, maxtasksperchild=1) as pool:
        can = pool.apply_async(canary)
        pend = [(j, pool.apply_async(job, (j[:-1],))) for j in jobs]
        for j, p in pend:
            try:
                results.append(p.get(timeout=max(5, 600 - (time.time() - t0))))
            except multiprocessing.TimeoutError:
                results.append({"module": j[0], "name": j[2], "status": "undecided", "reason": "time limit of the check", "paths": 0, "proved": 0, "seconds": 0, "solver": 0, "inlined": [], "opaque": [],
                                "assumptions": [], "tried": 0, "difference": None, "public": False, "model": None, "kind": "contract"})
            except Exception as ex:
                results.append({"module": j[0], "name": j[2], "status": "undecided", "reason": "verifier: %s %s" % (type(ex).__name__, ex), "paths": 0, "proved": 0, "seconds": 0, "solver": 0, "inlined": [],
                                "opaque": [], "assumptions": [], "tried": 0, "difference": None, "public": False, "model": None, "kind": "contract"})
        try:
            broken = can.get(timeout=100)
        except multiprocessing.TimeoutError:
            broken = None
        pool.terminate()
    record(ctx, pid, results, broken)


def record(ctx, pid, results, broken):
    inlined, opaque, assumptions = set(), set(), set()
    replayed = 0
    for r in results:
        if broken:
            r["status"], r["reason"] = "undecided", "the verifier failed its own test: " + broken
        n = max(1, r["paths"])
        ctx.obligations.append({"function": r.get("function", r["name"]), "name": r["name"], "status": r["status"], "backend": BACKEND, "seconds": round(r["solver"], 2), "wall": round(r["seconds"], 2),
                                "n": n, "k": r["proved"] if r["status"] == "proved" else 0, "reason": r["reason"][:300], "replayed": r["tried"]})
        replayed += r["tried"]
        inlined |= set(r["inlined"])
        opaque |= set(r["opaque"])
        assumptions |= set(r["assumptions"])
        if r.get("replay_error"):
            ctx.count_note("replay_errors", r["name"] + ": " + r["replay_error"][-300:])
        d = r["difference"]
        if d and r["public"]:
            ctx.violation("contract", "%s: the code %s, its specification %s, for the arguments %s" % (r["name"], d["code"][:300], d["specification"][:300], d["args"][:400]),
                          obligation=r["name"], status=r["status"], reason=r["reason"], model=r["model"], **d)
        elif d and not r.get("shape") and r["status"] != "proved":
            ctx.violation("contract of %s" % r["name"], "%s: the code %s, its specification %s, for the arguments %s (an internal function)" % (r["name"], d["code"][:300], d["specification"][:300], d["args"][:400]),
                          no_input=True, obligation=r["name"], status=r["status"], reason=r["reason"], model=r["model"], **d)
        elif r["status"] == "refuted" and not d:
            ctx.violation("obligation of %s" % r["name"], "%s: %s" % (r["name"], r["reason"][:500]), no_input=True, obligation=r["name"], reason=r["reason"], model=r["model"])
    ctx.evaluations += replayed
    ctx.extra["native_replays"] = replayed
    ctx.extra["inlined_functions"] = sorted(inlined)
    if opaque:
        ctx.extra["calls_by_contract"] = sorted(opaque)
    ctx.trusted += ["pyvc (symbolic execution of the functions' own AST, /verif/pyvc)", "z3 5.3.2", "pyvc's models of the builtins (str, list, dict, OrderedDict, re, sorted, ...)"]
    ctx.assumptions += sorted(assumptions)
