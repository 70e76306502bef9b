"""Shared machinery of the checks: seeds, parallel cases, violations, known findings, evidence."""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


class limit:
    """abort a case after n seconds of wall time"""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


class Out:
    """what one case (or chunk of cases) produced"""

    def __init__(self):
        self.n = 0
        self.feats = set()
        self.viols = []
        self.samples = []
        self.counts = {}

    def viol(self, kind, msg, **payload):
        if len(self.viols) < 5:
            self.viols.append((kind, msg, payload))

    def feat(self, *f):
        self.feats.add(hash(f) & 0xFFFFFFFFFFFF)

    def count(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + k


def _chunk(fn, items, secs):
    import logging

    logging.disable(logging.CRITICAL)
    out = Out()
    for it in items:
        try:
            with limit(secs):
                fn(it, out)
            out.n += 1
        except CaseTimeout:
            out.viol("timeout", "case did not finish in %s s" % secs, item=it)
        except Exception as ex:  # an error of the case function itself
            tb = traceback.format_exc()
            where = [f for f in traceback.extract_tb(ex.__traceback__) if "/mappyfile/" in f.filename]
            if where:
                out.viol("exception", "%s: %s at %s:%d" % (type(ex).__name__, str(ex)[:200], where[-1].filename, where[-1].lineno),
                         item=it, traceback=tb[-1500:])
            else:
                out.counts["harness_error"] = out.counts.get("harness_error", 0) + 1
                out.counts["harness_error: " + tb[-1200:]] = 1
    return out


class Ctx:
    def __init__(self, pid, level="exploration"):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.violations = []
        self.known_lines = []
        self.evaluations = 0
        self.feats = set()
        self.samples = []
        self.counts = {}
        self.rules = []
        self.assumptions = []
        self.obligations = []       # dicts: function, name, status, backend, seconds
        self.trusted = []
        self.extra = {}
        self.exhaustive = None

    def rng(self, *salt):
        h = hashlib.sha256(repr((self.pid, self.seed) + salt).encode()).digest()
        return random.Random(int.from_bytes(h[:8], "big"))

    def seeds(self, n, salt=""):
        r = self.rng("seeds", salt)
        return [r.randrange(2 ** 48) for _ in range(n)]

    def scale(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 12) if self.thorough else quick

    # ---- running cases
    def absorb(self, out):
        self.evaluations += out.n
        self.feats |= out.feats
        for s in out.samples:
            if len(self.samples) < 8:
                self.samples.append(s)
        for k, v in out.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        for v in out.viols:
            self.violation(*v[:2], **v[2])

    def pmap(self, fn, items, secs=20, chunk=None, max_viol=6):
        items = list(items)
        if not items:
            return
        if chunk is None:
            chunk = max(1, min(50, len(items) // (NPROC * 4) or 1))
        chunks = [items[i:i + chunk] for i in range(0, len(items), chunk)]
        import multiprocessing as mp

        ex = cf.ProcessPoolExecutor(NPROC, mp_context=mp.get_context("fork"))
        try:
            futs = {ex.submit(_chunk, fn, c, secs): c for c in chunks}
            for f in cf.as_completed(futs):
                try:
                    self.absorb(f.result())
                except cf.process.BrokenProcessPool:
                    self.violation("crash", "the interpreter crashed while running a case", items=[repr(c) for c in futs[f][:3]])
                    break
                if len(self.violations) >= max_viol:
                    for g in futs:
                        g.cancel()
                    break
        finally:
            ex.shutdown(wait=True, cancel_futures=True)

    def serial(self, fn, items, secs=30):
        self.absorb(_chunk(fn, list(items), secs))

    # ---- results
    def count_note(self, name, text):
        self.extra.setdefault(name, []).append(text)

    def violation(self, kind, msg, **payload):
        if len(self.violations) < 30:
            self.violations.append({"kind": kind, "message": msg, "payload": payload})

    def known(self, line):
        self.known_lines.append(line)

    def finish(self):
        errors = [k for k in self.counts if k.startswith("harness_error: ")]
        n_err = self.counts.pop("harness_error", 0)
        for k in errors:
            self.counts.pop(k)
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.feats),
            "rule": " ".join(self.rules),
            "samples": self.samples[:8] or ["none"],
        }
        if self.counts:
            cov["counts"] = self.counts
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        if self.obligations:
            ob = self.obligations
            cov["obligations"] = sum(o.get("n", 1) for o in ob)
            cov["discharged"] = sum(o.get("k", o["status"] == "proved") for o in ob)
            cov["contracts"] = len(ob)
            cov["contracts_proved"] = sum(o["status"] == "proved" for o in ob)
            cov["solver_seconds"] = round(sum(o.get("seconds", 0) for o in ob), 2)
            by = {}
            for o in ob:
                b = by.setdefault(o["function"], {"obligations": 0, "discharged": 0, "backends": []})
                b["obligations"] += o.get("n", 1)
                b["discharged"] += o.get("k", o["status"] == "proved")
                b["seconds"] = round(b.get("seconds", 0) + o.get("wall", 0), 2)
                if o.get("backend") and o["backend"] not in b["backends"]:
                    b["backends"].append(o["backend"])
            cov["functions_under_contract"] = by
            cov["undischarged"] = [
                {k: o.get(k) for k in ("function", "name", "status", "reason")} for o in ob if o["status"] != "proved"][:40]
            cov["checker_cmd"] = "/opt/venv/bin/python /verif/run_check.py %s" % self.pid
            cov["trusted_base"] = self.trusted or ["pyvc", "z3"]
        cov.update(self.extra)
        ev = {
            "property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed,
            "level": self.level, "coverage": cov, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
        }
        if self.level == "other":
            cov.setdefault("explanation", " ".join(self.rules))
        path = os.path.join(VERIF, "evidence", self.pid + ".json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        text = json.dumps(ev, indent=1, default=str)
        if len(text) > 60000:
            cov["samples"] = [str(s)[:500] for s in cov["samples"][:3]]
            cov.pop("undischarged", None)
            text = json.dumps(ev, indent=1, default=str)
        with open(path, "w") as f:
            f.write(text + "\n")
        for line in self.known_lines:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, line))
        seen = set()
        rdir = os.path.join(VERIF, "replays")
        real = [v for v in self.violations if not v["payload"].get("no_input")]
        noin = [v for v in self.violations if v["payload"].get("no_input")]
        for i, v in enumerate(real or noin):
            key = (v["kind"], re.sub(r"[0-9]+", "", v["message"])[:60])
            if key in seen or len(seen) >= 6:
                continue
            seen.add(key)
            os.makedirs(rdir, exist_ok=True)
            p = os.path.join(rdir, "%s-%d.json" % (self.pid, i))
            with open(p, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, **v}, f, indent=1, default=str)
            print("  %s: %s" % (v["kind"], v["message"][:600].replace("\n", "\\n")))
            print("VIOLATION property=%s replay=%s%s" % (self.pid, p, " no-failing-input-found" if not real else ""))
        print("%s %s: %d evaluations, %d distinct, obligations %d/%d, %d violations, %.1f s" % (
            self.pid, self.tier, self.evaluations, len(self.feats), cov.get("discharged", 0), cov.get("obligations", 0),
            len(self.violations), time.time() - self.t0))
        sys.stdout.flush()
        if self.violations:
            return 1
        if n_err:
            print("harness errors: %d" % n_err)
            for e in errors[:3]:
                print(e)
            return 3
        return 0
