"""known_findings.json: genuine defects that are recorded rather than repaired, each identified by a specific input.

Entries {"property", "what", "probe": {"kind", ...}} are run on every check; an entry that still fails prints a
KNOWN-FINDING line.  Entries {"fixed": "fixed: property=... commit ..."} suppress nothing and print nothing.
"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def entries(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path, encoding="utf-8") as f:
        return [e for e in json.load(f)["findings"] if e.get("property") == pid]


def still_fails(e):
    import mappyfile

    p = e["probe"]
    try:
        if p["kind"] == "roundtrip":
            from vlib import roundtrip as R

            d = mappyfile.loads(p["text"], expand_includes=False)
            try:
                d2 = mappyfile.loads(mappyfile.dumps(d, **p.get("opts", {})), expand_includes=False)
            except Exception:
                return True
            return R.compare(d, d2) is not None
        if p["kind"] == "expr":
            # a python expression over mappyfile that is true when the property holds
            env = {"mappyfile": mappyfile}
            exec("import json, copy, os", env)
            try:
                return not eval(p["holds"], env)
            except Exception:
                return True
    except Exception:
        return True
    return False


def probe(ctx):
    for e in entries(ctx.pid):
        if still_fails(e):
            ctx.known(e["what"])
        else:
            ctx.extra.setdefault("known_findings_no_longer_failing", []).append(e["what"])
