"""Seams: randomness, entropy, clock, numerical-library faults, streams."""
import contextlib
import logging
import random
import sys
import time
from _thread import get_ident

import numpy as np

from robsim import boot, sched

# ---------------------------------------------------------------- entropy / global generators


class Entropy:
    """Deterministic replacement of operating-system entropy, one stream per task."""

    def __init__(self, seed):
        self.seed = seed
        self.streams = {}
        self.calls = 0

    def stream(self):
        t = sched._by_thread.get(get_ident())
        k = getattr(t, "entropy_id", None) if t is not None else None
        k = t.id if (k is None and t is not None) else (k if k is not None else 0)
        s = self.streams.get(k)
        if s is None:
            s = self.streams[k] = random.Random(f"entropy-{self.seed}-{k}")
        return s

    def randbits(self, k):
        self.calls += 1
        return self.stream().getrandbits(k)


_entropy = None


def set_entropy(seed, ident=0):
    """Install the entropy seam and put the global generators into a state derived from `seed`."""
    global _entropy
    _entropy = Entropy(seed)
    import os
    import secrets
    import numpy.random.bit_generator as bg

    bg.randbits = lambda k: _entropy.randbits(k)
    secrets.randbits = lambda k: _entropy.randbits(k)
    os.urandom = lambda n: _entropy.randbits(8 * n).to_bytes(n, "little") if n else b""
    random._urandom = os.urandom
    np.random.seed(seed % (1 << 32))
    random.seed(seed)
    return _entropy


def entropy_ident(k):
    """Make the calling (non-task) context draw from stream `k` (to mimic task k alone)."""
    _entropy.streams = {0: random.Random(f"entropy-{_entropy.seed}-{k}"),
                        **{i: s for i, s in _entropy.streams.items() if i != 0}}


# ---------------------------------------------------------------- adversarial draws


def adversarial(mode, seed, bad=()):
    """Context manager: generators created by the library draw valid but adversarial subsets.

    same   every draw returns the same subset;   few  only three different subsets ever occur
    bad    draws prefer the given indices;       sticky consecutive draws differ in one element
    """
    bad = list(bad)

    def pick(self, n, size):
        st = self.__dict__.setdefault("_adv", {"k": 0})
        st["k"] += 1
        g = random.Random(f"{seed}-{n}-{size}-{0 if mode == 'same' else st['k'] % 3 if mode == 'few' else st['k']}")
        if mode == "bad" and bad:
            pref = [i for i in bad if i < n]
            rest = [i for i in range(n) if i not in set(pref)]
            g.shuffle(pref)
            g.shuffle(rest)
            out = (pref + rest)[:size]
        elif mode == "sticky":
            base = list(range(n))
            random.Random(seed).shuffle(base)
            out = base[:size]
            if size < n:
                out[st["k"] % size] = base[size + st["k"] % (n - size)]
        else:
            out = g.sample(range(n), size)
        return out

    def choice_impl(self, base, a, size=None, replace=True, p=None, **kw):
        arr = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        n = len(arr)
        if p is not None or replace and size is not None and np.ndim(size) > 0 or n == 0:
            return base(a, size=size, replace=replace, p=p, **kw)
        k = 1 if size is None else int(np.prod(size))
        if k > n:
            return base(a, size=size, replace=replace, p=p, **kw)
        idx = pick(self, n, k)
        if size is None:
            return arr[idx[0]]
        return arr[np.array(idx, dtype=int)].reshape(size)

    def perm_impl(self, base, x, **kw):
        arr = np.arange(x) if np.ndim(x) == 0 else np.asarray(x)
        if arr.ndim != 1:
            return base(x, **kw)
        return arr[np.array(pick(self, len(arr), len(arr)), dtype=int)]

    class AdvGenerator(np.random.Generator):
        def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
            if np.ndim(a) > 1:
                return super().choice(a, size, replace, p, axis, shuffle)
            return choice_impl(self, super().choice, a, size, replace, p)

        def permutation(self, x, axis=0):
            return perm_impl(self, super().permutation, x)

    class AdvRandomState(np.random.RandomState):
        def choice(self, a, size=None, replace=True, p=None):
            return choice_impl(self, super().choice, a, size, replace, p)

        def permutation(self, x):
            return perm_impl(self, super().permutation, x)

    real_rng, real_rs = np.random.default_rng, np.random.RandomState

    def default_rng(s=None):
        if isinstance(s, np.random.Generator):
            return s
        g = real_rng(s)
        return AdvGenerator(g.bit_generator)

    @contextlib.contextmanager
    def cm():
        np.random.default_rng = default_rng
        np.random.RandomState = AdvRandomState
        try:
            yield
        finally:
            np.random.default_rng, np.random.RandomState = real_rng, real_rs

    return cm()


# ---------------------------------------------------------------- clock


class Clock:
    """Virtual clock; every read advances it by a drawn amount (sometimes a jump, also backwards)."""

    def __init__(self, seed, jumps=True):
        self.rng = random.Random(f"clock-{seed}")
        self.now = 1.0e9 + self.rng.random() * 1e8
        self.mono = 1e5
        self.reads = 0
        self.jumped = 0
        self.jumps = jumps
        self.elapsed = 0.0

    def _tick(self):
        self.reads += 1
        dt = self.rng.choice([0.0, 1e-6, 1e-3, 0.2, 30.0])
        self.mono += dt
        self.elapsed += dt
        self.now += dt
        if self.jumps and self.rng.random() < 0.05:
            self.jumped += 1
            self.now += self.rng.choice([-86400.0, 86400.0, -1.0, 3600.0])

    def time(self):
        self._tick()
        return self.now

    def monotonic(self):
        self._tick()
        return self.mono


def install_clock(seed, jumps=True):
    c = Clock(seed, jumps)
    time.time = c.time
    time.monotonic = c.monotonic
    time.perf_counter = c.monotonic
    time.process_time = c.monotonic
    time.time_ns = lambda: int(c.time() * 1e9)
    time.monotonic_ns = lambda: int(c.monotonic() * 1e9)
    time.perf_counter_ns = lambda: int(c.monotonic() * 1e9)
    time.sleep = lambda s: setattr(c, "mono", c.mono + s)
    import tqdm.std

    tqdm.std.time = c.time
    return c


# ---------------------------------------------------------------- numerical library faults

LINALG = [("numpy.linalg", n) for n in
          ("inv", "pinv", "det", "slogdet", "eigh", "eig", "eigvalsh", "svd", "lstsq", "solve",
           "matrix_rank", "qr", "cholesky", "norm")]
LINALG += [("scipy.linalg", n) for n in
           ("pinvh", "pinv", "inv", "sqrtm", "lstsq", "eigh", "svd", "solve", "cholesky", "det")]
ALLOC = [("numpy", n) for n in ("zeros", "ones", "cov", "corrcoef", "argsort", "median", "mean",
                                "where", "sort", "unique", "full", "copy", "hstack", "append",
                                "percentile", "partition", "zeros_like", "argwhere", "repeat",
                                "array_split", "diag", "dot")]


def site(pkg):
    """The line of the library on whose behalf the current call is made."""
    f = sys._getframe(2)
    while f is not None and not f.f_code.co_filename.startswith(pkg):
        f = f.f_back
    return "?" if f is None else f"{f.f_code.co_filename[len(pkg):]}:{f.f_lineno}"


class LibFaults:
    """Counts numerical-library calls made directly or indirectly by robpy and fails the k-th ones."""

    def __init__(self, kinds, fail_at=(), exc="LinAlgError", record=False):
        self.kinds = kinds
        self.fail_at = set(fail_at)
        self.exc = exc
        self.count = 0
        self.fired = []
        self.names = [] if record else None
        self.depth = 0
        self.raised = []

    def make(self, name):
        e = {"LinAlgError": np.linalg.LinAlgError, "MemoryError": MemoryError,
             "FloatingPointError": FloatingPointError}[self.exc]
        x = e(f"injected failure in {name} (call {self.count})")
        self.raised.append(x)
        return x

    def targets(self):
        import importlib

        lst = []
        if "linalg" in self.kinds:
            lst += LINALG
        if "alloc" in self.kinds:
            lst += ALLOC
        for mod, n in lst:
            m = importlib.import_module(mod)
            if hasattr(m, n):
                yield m, n

    def __enter__(self):
        self.saved = []
        self.repl = {}
        for m, n in self.targets():
            f = getattr(m, n)
            self.saved.append((m, n, f))
            w = self.wrap(f, n, (m.__name__, n) in ALLOC)
            self.repl[id(f)] = (f, w)
            setattr(m, n, w)
        # names imported with "from ... import ..." by robpy, sklearn, statsmodels
        for name, mod in list(sys.modules.items()):
            if mod is None or not (name.startswith("robpy") or name.startswith("sklearn.linear_model")
                                   or name.startswith("statsmodels.regression")
                                   or name.startswith("sklearn.decomposition")):
                continue
            for k, v in list(vars(mod).items()):
                if id(v) in self.repl and self.repl[id(v)][0] is v:
                    self.saved.append((mod, k, v))
                    setattr(mod, k, self.repl[id(v)][1])
        return self

    def wrap(self, f, n, alloc=False):
        PKG = boot.PKG_DIR + "/"

        def wrapped(*a, **k):
            if self.depth or sched._by_thread.get(get_ident()) is None:
                return f(*a, **k)
            if alloc:
                # only allocations made by robpy itself; third-party code handles its own
                if not sys._getframe(1).f_code.co_filename.startswith(PKG):
                    return f(*a, **k)
            self.count += 1
            if self.names is not None:
                self.names.append((n, site(PKG)))
            if self.count in self.fail_at:
                self.fired.append((n, self.count))
                raise self.make(n)
            self.depth += 1
            try:
                return f(*a, **k)
            finally:
                self.depth -= 1

        wrapped.__name__ = getattr(f, "__name__", n)
        wrapped.__qualname__ = wrapped.__name__
        wrapped.__wrapped__ = f
        return wrapped

    def __exit__(self, *a):
        for m, n, f in reversed(self.saved):
            setattr(m, n, f)
        return False


# ---------------------------------------------------------------- log / progress streams


class FaultyStream:
    """Text stream that fails, stalls or shortens writes at chosen calls."""

    def __init__(self, fail_at=(), exc=OSError, every=0):
        self.fail_at = set(fail_at)
        self.every = every
        self.exc = exc
        self.calls = 0
        self.fired = 0
        self.text = []
        self.encoding = "utf-8"
        self.closed = False

    def _hit(self):
        self.calls += 1
        if self.calls in self.fail_at or (self.every and self.calls % self.every == 0):
            self.fired += 1
            raise self.exc(28, "No space left on device (injected)")

    def write(self, s):
        self._hit()
        self.text.append(s)
        return len(s)

    def flush(self):
        self._hit()

    def isatty(self):
        return False

    def fileno(self):
        raise OSError("no fileno")


class CaptureHandler(logging.Handler):
    def __init__(self, level=0):
        super().__init__(level)
        self.records = []

    def emit(self, record):
        self.records.append((record.name, record.levelno, record.getMessage()))


class ExplodingHandler(logging.Handler):
    """Application handler whose emit raises the given exception at the k-th record."""

    def __init__(self, at, make):
        super().__init__(0)
        self.at, self.make, self.n, self.fired = at, make, 0, 0

    def emit(self, record):
        self.n += 1
        if self.n == self.at:
            self.fired += 1
            raise self.make()


nullctx = contextlib.nullcontext
