"""Simulator core: violations, run context, isolation, interruption at a line, cooperative thread scheduler."""
import collections
import hashlib
import os
import pickle
import random
import sys
import threading
import traceback

import numpy as np

from .parts import Boom, Interrupt

REPO = os.environ.get("GEM_REPO", "/repo")
SRC = os.path.join(REPO, "src") + os.sep


class Violation(Exception):
    def __init__(self, cls, msg, key=None):
        super().__init__(f"{cls}: {msg}")
        self.cls, self.msg, self.key = cls, msg, key


class Skip(Exception):
    """The scenario is outside of what the property speaks about."""


def canon(x):
    """Canonical bytes of a value."""
    if x is None:
        return b"N"
    if isinstance(x, (bool, np.bool_)):
        return b"B1" if x else b"B0"
    if isinstance(x, (str, bytes)):
        return x.encode() if isinstance(x, str) else x
    if isinstance(x, (int, float, np.integer, np.floating)):
        return np.float64(x).tobytes()
    if isinstance(x, np.ndarray):
        return b"A" + str(x.shape).encode() + np.ascontiguousarray(x, dtype=np.float64).tobytes()
    if isinstance(x, (list, tuple)):
        return b"(" + b",".join(canon(v) for v in x) + b")"
    if isinstance(x, dict):
        return b"{" + b",".join(canon(k) + b":" + canon(x[k]) for k in x) + b"}"
    return repr(x).encode()


class Ctx:
    def __init__(self):
        self.h = hashlib.blake2b(digest_size=16)
        self.steps = 0
        self.resets = 0
        self.sim_time = 0.0
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.states = set()
        self.nontrivial = False
        self.known = []
        self.tail = collections.deque(maxlen=12)

    def log(self, *items):
        self.h.update(canon(items))
        self.tail.append(items)

    def fault(self, kind, n=1):
        self.faults[kind] += n
        self.nontrivial = True

    def probe(self, kind, n=1):
        self.probes[kind] += n

    def state(self, *key):
        self.states.add(int.from_bytes(hashlib.blake2b(canon(key), digest_size=6).digest(), "big"))

    def obs_state(self, tag, state):
        """Visited state measure: configuration tag x observation quantised to fifths of the limits."""
        q = np.clip(np.nan_to_num(np.asarray(state, float), nan=9.0) * 5, -50, 50).round().astype(int)
        self.state(tag, q.tolist())

    def recognise(self, key, msg):
        """A deviation that is judged by the list of known findings; the run goes on."""
        if key not in [k for k, _ in self.known]:
            self.known.append((key, msg))

    def check(self, cond, cls, msg, key=None):
        if not cond:
            raise Violation(cls, msg() if callable(msg) else msg, key)


# ------------------------------------------------------------------------------------------------ isolation
_entropy = ["0", 0]


def seed_entropy(tag):
    """Puts the operating system's entropy behind a seam: what NumPy draws to seed an unseeded generator, and the
    process-wide generators, come from a stream that belongs to the scenario."""
    import random

    import numpy as np
    _entropy[:] = [tag, 0]
    np.random.bit_generator.randbits = random.Random(f"entropy:{tag}").getrandbits
    random.seed(f"process:{tag}")
    np.random.seed(random.getrandbits(32))


def isolated(fn, *args, timeout=120):
    """Runs fn in a forked child, so that nothing it does is visible here.  Returns its value; re-raises Violation."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    _entropy[1] += 1
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            seed_entropy(f"{_entropy[0]}/{_entropy[1]}")  # another process draws other entropy
            try:
                out = ("ok", fn(*args))
            except Violation as v:
                out = ("viol", (v.cls, v.msg, v.key))
            except BaseException as e:
                out = ("exc", (type(e).__name__, str(e), traceback.format_exc(limit=-6)))
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("isolated child died")
    kind, val = pickle.loads(data)
    if kind == "viol":
        raise Violation(*val)
    if kind == "exc":
        raise ChildError(*val)
    return val


class ChildError(Exception):
    def __init__(self, name, msg, tb):
        super().__init__(f"{name}: {msg}\n{tb}")
        self.name, self.msg, self.tb = name, msg, tb


# ------------------------------------------------------------------------------------------------ interruption
class LineCounter:
    """Counts executed repository lines of the current thread and optionally raises at the n-th."""

    def __init__(self, n=None, exc=Interrupt):
        self.count, self.n, self.exc, self.fired, self.where = 0, n, exc, False, None

    def _glob(self, frame, event, arg):
        return self._loc if frame.f_code.co_filename.startswith(SRC) else None

    def _loc(self, frame, event, arg):
        if event == "line":
            self.count += 1
            if self.count == self.n and not self.fired:
                self.fired = True
                self.where = f"{frame.f_code.co_filename[len(SRC):]}:{frame.f_lineno}"
                raise self.exc(self.where)
        return self._loc

    def __enter__(self):
        sys.settrace(self._glob)
        return self

    def __exit__(self, *_):
        sys.settrace(None)
        return False


def interrupt_at(fraction, fn):
    """Calls fn, interrupting it at the given fraction of the repository lines it would execute.

    Returns (fired, where).  fn must be deterministic; it is dry-run in a forked copy to learn its length."""
    def dry():
        with LineCounter() as c:
            try:
                fn()
            except (Boom, Interrupt, AssertionError):
                pass
        return c.count
    total = isolated(dry)
    if total == 0:
        fn()
        return False, None
    c = LineCounter(1 + min(int(fraction * total), total - 1))
    try:
        with c:
            fn()
    except Interrupt:
        pass
    finally:
        sys.settrace(None)
    return c.fired, c.where


# ------------------------------------------------------------------------------------------------ threads
class Scheduler:
    """Runs real threads one at a time; the seed decides after how many repository lines whom to run next.

    A thread is never parked inside foreign (numpy, scipy, gymnasium) code that may hold a lock."""

    def __init__(self, rng, quantum=(1, 200), limit=2_000_000, focus=()):
        # in files whose name contains one of the focus strings a switch is likely at every line, so that threads meet there
        self.focus = tuple(focus)
        self.rng, self.quantum, self.limit = rng, quantum, limit
        self.threads = []
        self.alive = []
        self.sem = {}
        self.budget = 1
        self.switches = 0
        self.lines = 0
        self.errors = {}
        self.results = {}
        self.order = hashlib.blake2b(digest_size=8)
        self.done = threading.Event()

    def spawn(self, name, fn):
        self.threads.append((name, fn))

    def _new_budget(self):
        a, b = self.quantum
        self.budget = self.rng.randint(a, b) if self.rng.random() < 0.8 else self.rng.randint(a, max(a, b * 20))

    def _trace(self, name):
        def glob(frame, event, arg):
            return loc if frame.f_code.co_filename.startswith(SRC) else None

        def loc(frame, event, arg):
            if event == "line":
                self.lines += 1
                self.budget -= 1
                if self.focus and self.rng.random() < 0.7 and any(f in frame.f_code.co_filename for f in self.focus):
                    self.budget = 0
                if self.budget <= 0 and self._parkable(frame):
                    self._switch(name, frame)
            return loc
        return glob

    @staticmethod
    def _parkable(frame):
        f = frame
        while f is not None:
            fn = f.f_code.co_filename
            if not (fn.startswith(SRC) or "/sim/" in fn or "threading.py" in fn or "/gymnasium/" in fn):
                return False
            f = f.f_back
        return True

    def _switch(self, name, frame):
        self._new_budget()
        nxt = self.rng.choice(self.alive)
        if nxt == name:
            return
        self.switches += 1
        self.order.update(f"{nxt}@{frame.f_lineno};".encode())
        self.sem[nxt].release()
        self.sem[name].acquire()

    def _body(self, name, fn):
        self.sem[name].acquire()
        sys.settrace(self._trace(name))
        try:
            self.results[name] = fn()
        except BaseException as e:  # noqa
            self.errors[name] = e
            e.__tbtext__ = traceback.format_exc(limit=-5)
        finally:
            sys.settrace(None)
            self.alive.remove(name)
            if self.alive:
                self._new_budget()
                self.sem[self.rng.choice(self.alive)].release()
            else:
                self.done.set()

    def run(self):
        ths = []
        for name, fn in self.threads:
            self.sem[name] = threading.Semaphore(0)
            self.alive.append(name)
            ths.append(threading.Thread(target=self._body, args=(name, fn), daemon=True))
        for t in ths:
            t.start()
        self._new_budget()
        self.sem[self.rng.choice(self.alive)].release()
        self.done.wait()
        for t in ths:
            t.join()
        return self.results, self.errors


def same(a, b, tol=0.0):
    """Structural equality of recorded values; floats up to tol (relative to max(1, |a|)); NaN equals NaN."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a, float), np.asarray(b, float)
        if a.shape != b.shape:
            return False
        if tol == 0:
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))
    if isinstance(a, (float, np.floating)) or isinstance(b, (float, np.floating)):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return a == b
        if a == b or (a != a and b != b):
            return True
        return tol > 0 and abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    return a == b


def rng_of(*key):
    return random.Random(":".join(str(k) for k in key))
