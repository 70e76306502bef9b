"""Paths of a function explored in forked copies of the verifier, so that what two paths share is executed once.

At a branch with two possible outcomes the process forks: the copy takes the second outcome, explores everything below
it and sends its results back through a pipe.  SLOTS (a semaphore) bounds how many copies run at the same time; without
a free slot the process waits for its copy."""
import ctypes
import os
import pickle
import signal

SLOTS = None


def _die_with_parent():
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass


class Stop(BaseException):
    """a copy failed: there is no use in going on"""


class Forker:
    def __init__(self):
        self.children = []          # (pid, file to read from)
        self.results = []
        self.out = None             # of a copy: where its results go
        self.slot = False
        self.parent = os.getpid()
        self.level = 0

    def split(self):
        """1 in this process, 0 in the copy"""
        r, w = os.pipe()
        slot = SLOTS is not None and SLOTS.acquire(block=False)
        pid = os.fork()
        if pid == 0:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            _die_with_parent()
            os.close(r)
            for _, f in self.children:
                f.close()
            self.__init__()
            self.out, self.slot = w, slot
            return 0
        os.close(w)
        f = os.fdopen(r, "rb")
        self.children.append((pid, f))
        if not slot:
            self.collect(len(self.children) - 1)
            for r in flatten(self.results[-1:]):
                if r.get("error"):
                    raise Stop(r["error"])
        return 1

    def collect(self, first=0):
        for pid, f in self.children[first:]:
            data = f.read()
            f.close()
            os.waitpid(pid, 0)
            self.results.append(pickle.loads(data) if data else {"lost": True})
        del self.children[first:]

    def abandon(self):
        for pid, f in self.children:
            try:
                os.kill(pid, signal.SIGKILL)
                f.close()
                os.waitpid(pid, 0)
            except OSError:
                pass
        self.children = []

    def finish(self, res):
        """in a copy: send everything and end"""
        try:
            self.collect()
            data = pickle.dumps({"own": res, "below": self.results})
        except BaseException as ex:  # noqa: B036
            data = pickle.dumps({"own": dict(error=("Unsupported", "copy: %r" % (ex,)))})
        try:
            with os.fdopen(self.out, "wb") as f:
                f.write(data)
        finally:
            if self.slot:
                SLOTS.release()
            os._exit(0)


def flatten(results):
    out = []
    for r in results:
        if r.get("lost"):
            out.append({"error": ("Unsupported", "a copy of the verifier ended early")})
            continue
        out.append(r["own"])
        out.extend(flatten(r.get("below", [])))
    return out
