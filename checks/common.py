"""shared by the checks: the code under test, corpus files, quick wrappers"""
import os
import random
import sys

from vlib import fast

fast.install()
import mappyfile  # noqa: E402
from lark.exceptions import LarkError  # noqa: E402
from vlib import gen as G  # noqa: E402
from vlib import vocab as V  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")


def corpus():
    out = []
    for top in ("tests", "docs"):
        for root, _, files in os.walk(os.path.join(REPO, top)):
            for f in sorted(files):
                if f.endswith(".map"):
                    out.append(os.path.join(root, f))
    return sorted(out)


def corpus_text(path):
    with open(path, encoding="utf-8", newline="") as f:
        return f.read()


def exc_str(ex):
    line = getattr(ex, "line", None)
    try:
        s = str(ex)
    except Exception:
        s = ""
    return "%s line %s: %s" % (type(ex).__name__, line, s[:150])


def ddmin_lines(text, fails, budget=120):
    """shrink a failing text by lines (best effort)"""
    lines = text.split("\n")
    n = 0
    step = max(1, len(lines) // 2)
    while step >= 1 and n < budget:
        i = 0
        changed = False
        while i < len(lines) and n < budget:
            cand = lines[:i] + lines[i + step:]
            n += 1
            try:
                ok = fails("\n".join(cand))
            except Exception:
                ok = False
            if ok:
                lines = cand
                changed = True
            else:
                i += step
        if not changed:
            step //= 2
    return "\n".join(lines)
