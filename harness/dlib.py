"""Helpers shared by the drivers."""
import contextlib
import hashlib
import io
import json
import multiprocessing
import os
import signal
import sys
import traceback
import types
from concurrent.futures import ProcessPoolExecutor

import numpy as np

REPO = os.environ.get("MEDIL_REPO", "/repo")


def light_medil():
    """Let submodules of medil be imported without the package's own
    __init__, which imports torch (15 s)."""
    if "medil" not in sys.modules:
        m = types.ModuleType("medil")
        m.__path__ = [os.path.join(REPO, "medil")]
        sys.modules["medil"] = m


def light_import(*names):
    import importlib

    light_medil()
    try:
        mods = [importlib.import_module("medil." + n) for n in names]
    except ImportError:  # some module needs the real package
        for k in [k for k in sys.modules if k == "medil" or k.startswith("medil.")]:
            del sys.modules[k]
        mods = [importlib.import_module("medil." + n) for n in names]
    return mods[0] if len(mods) == 1 else mods


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


@contextlib.contextmanager
def limit(seconds):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def call(fn, *args, seconds=60, **kwargs):
    """Returns (result, '') or (None, name of the exception)."""
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            with limit(seconds):
                return fn(*args, **kwargs), ""
        except Hang:
            return None, "Hang"
        except Exception as e:
            return None, type(e).__name__


def digest(*xs):
    """A short string that differs for different values (exactly, bit by bit)."""
    h = hashlib.sha256()

    def add(x):
        if x is None:
            h.update(b"N")
        elif isinstance(x, dict):
            for k in sorted(x):
                h.update(repr(k).encode())
                add(x[k])
        elif isinstance(x, (list, tuple)):
            h.update(b"[%d" % len(x))
            for y in x:
                add(y)
        elif isinstance(x, (str, bytes)):
            h.update(x.encode() if isinstance(x, str) else x)
        else:
            a = np.asarray(x)
            h.update(str(a.dtype).encode() + str(a.shape).encode())
            h.update(np.ascontiguousarray(a).tobytes())

    add(xs)
    return h.hexdigest()[:16]


def vdigest(*xs):
    """As digest, but of values only: the type does not matter."""
    return digest(*[np.asarray(x, float) for x in xs])


def is_bool_matrix(a):
    return isinstance(a, np.ndarray) and a.ndim == 2 and a.dtype == bool


def rows(a):
    """Rows of a 0/1 matrix as lists of 1-based column numbers."""
    return [[int(j) + 1 for j in np.flatnonzero(r)] for r in np.asarray(a)]


def nbrs(adj):
    """Open neighbourhoods, 1-based."""
    a = np.asarray(adj).astype(bool)
    return [[int(j) + 1 for j in np.flatnonzero(r) if j != i] for i, r in enumerate(a)]


def ints(a):
    return [[int(x) for x in r] for r in np.asarray(a)]


SCALE = 10**6


def fx(x, scale=SCALE, cap=2 * 10**9):
    """Fixed point for TLC, which has 32-bit integers; NaN and values out of
    range become the string "nan" resp. are capped."""
    x = float(x)
    if x != x:
        return cap
    v = round(x * scale) if abs(x) < 1e15 else (cap if x > 0 else -cap)
    return int(max(-cap, min(cap, v)))


def limbs(n, base=10**4):
    """A nonnegative integer as little-endian limbs."""
    n = int(n)
    out = []
    while n:
        out.append(n % base)
        n //= base
    return out


def all_graphs(n):
    """Every labelled graph on n vertices, with unit diagonal."""
    iu = np.triu_indices(n, 1)
    m = len(iu[0])
    for code in range(1 << m):
        a = np.eye(n, dtype=int)
        bits = np.array([(code >> i) & 1 for i in range(m)], int)
        a[iu] = bits
        a.T[iu] = bits
        yield a


def random_graph(rng, n, p):
    a = np.triu(rng.random((n, n)) < p, 1)
    a = (a | a.T).astype(int)
    np.fill_diagonal(a, 1)
    return a


def random_1pc(rng, n, k, p):
    """A one-pure-child structure with k latents and n measurements."""
    b = np.zeros((k, n), bool)
    b[:, :k] = np.eye(k, dtype=bool)
    for j in range(k, n):
        col = rng.random(k) < p
        if not col.any():
            col[rng.integers(k)] = True
        b[:, j] = col
    return b[:, rng.permutation(n)]


def udg_of(biadj):
    b = np.asarray(biadj).astype(int)
    a = (b.T @ b > 0).astype(int)
    np.fill_diagonal(a, 1)
    return a


_POOLED = {}


def guarded(fn, item):
    """A session, or if observing one is not even possible (e.g. a result is
    not of the kind that it is promised to be), what the matter was."""
    try:
        return fn(item)
    except (MemoryError, OSError):
        raise
    except Exception as e:
        where = traceback.extract_tb(e.__traceback__)[-1]
        return [{"e": "driver", "ok": False, "note": traceback.format_exc()[-1500:],
                 "what": f"unobservable, {type(e).__name__} at {os.path.basename(where.filename)}:{where.name}"}]


def _run(name, item):
    return guarded(_POOLED[name], item)


class Driver:
    def __init__(self, job):
        self.job = job
        self.tier, self.seed = job["tier"], job["seed"]
        self.quick = self.tier == "quick"
        self.scenarios = job.get("scenarios")
        self.params = job.get("params") or {}
        self.scratch = job["scratch"]
        self.workers = job["workers"]
        self.rng = np.random.default_rng([self.seed, int(job["prop"][1:])])
        self._out = open(job["out"], "w")

    def session(self, events):
        self._out.write(json.dumps(events) + "\n")

    def info(self, **coverage):
        self.session([{"e": "info", "coverage": coverage}])

    def pmap(self, fn, items, workers=None, chunk=None):
        """Sessions of all items, in order, from forked workers. fn(item)
        returns a session, or a list of them if it returns a list of lists."""
        items = list(items)
        workers = workers or self.workers
        if workers == 1 or len(items) < 2:
            results = (guarded(fn, i) for i in items)
            for s in results:
                self._put(s)
            return
        _POOLED["fn"] = fn
        ctx = multiprocessing.get_context("fork")
        chunk = chunk or max(1, min(64, len(items) // (4 * workers)))
        with ProcessPoolExecutor(workers, mp_context=ctx) as ex:
            for s in ex.map(_run, ["fn"] * len(items), items, chunksize=chunk):
                self._put(s)

    def _put(self, s):
        if s and isinstance(s[0], list):
            for x in s:
                self.session(x)
        elif s:
            self.session(s)

    def close(self):
        self._out.close()


def forked(fn, *args):
    """fn(*args), computed in a forked child."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            out = json.dumps([True, fn(*args)])
        except BaseException as e:
            import traceback

            out = json.dumps([False, "".join(traceback.format_exception(e))])
        with os.fdopen(w, "w") as h:
            h.write(out)
            h.flush()
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as h:
        text = h.read()
    os.waitpid(pid, 0)
    ok, value = json.loads(text) if text else (False, "child ended without a result")
    if not ok:
        raise RuntimeError(value)
    return value
