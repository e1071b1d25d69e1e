"""The dynamic dataset builder with its surroundings replaced: random draws are solver-chosen values, the corpus is a
small model, the simulator hands out given responses and everything written is kept in memory (metadata through
checks/_json.py).  In symbolic runs the module's numpy is a shim that keeps floating arrays as object arrays."""
import contextlib
import math
import random

import numpy as np

from checks._json import Json
from checks._rng import ChoiceRng


class _F64(type):
    def __call__(cls, x=0.0):
        return x

    def __instancecheck__(cls, o):
        return isinstance(o, float)


class F64(metaclass=_F64):
    pass


def _sym(x):
    from engine.symt import SymBool, SymNum, SymTensor
    if isinstance(x, (SymNum, SymBool, SymTensor)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(_sym(v) for v in x.reshape(-1))
    if isinstance(x, (list, tuple)):
        return any(_sym(v) for v in x)
    return False


def _obj(x):
    """float arrays as object arrays of Python numbers"""
    if isinstance(x, np.ndarray) and x.dtype.kind == "f":
        return x.astype(object)
    return x


def _dt(dtype):
    if dtype is None:
        return None
    if dtype is F64 or dtype is float or (isinstance(dtype, type) and issubclass(dtype, np.floating)):
        return object
    if getattr(dtype, "__name__", "") == "ShadowFloat":
        return object
    return dtype


def _each(real, sym):
    def f(x, *a, **k):
        if isinstance(x, np.ndarray) and x.dtype == object:
            out = np.empty(x.shape, dtype=object)
            for i, v in np.ndenumerate(x):
                out[i] = f(v)
            return out
        if _sym(x):
            return sym(x)
        r = real(x, *a, **k)
        return _obj(r) if isinstance(r, np.ndarray) else float(r) if isinstance(r, np.floating) else r
    return f


def _extreme(real, sign):
    """max and min of several numbers as one term instead of a branch for every comparison"""
    def f(*xs, **k):
        from engine import symt, terms as T
        if k:
            return real(*xs, **k)
        es = list(xs[0]) if len(xs) == 1 else list(xs)
        if not es or not any(isinstance(e, symt.SymNum) for e in es):
            return real(es)
        ns = [symt._num(e) for e in es]
        if None in ns:
            return real(es)
        t = T.maxn([e if sign > 0 else T.neg(e) for e, _ in ns])
        return symt.wrap_num(t if sign > 0 else T.neg(t), all(i for _, i in ns))
    return f


class Shim:
    """numpy for code that works on symbolic numbers"""
    float64 = F64
    float32 = F64
    floating = F64

    def __init__(self, env, rng):
        self.env = env

        class Random:
            Generator = np.random.Generator
            default_rng = staticmethod(lambda seed=None: rng)
        self.random = Random

        class Linalg:
            norm = staticmethod(self._norm)
        self.linalg = Linalg
        for n in ("cos", "sin", "sqrt", "exp", "floor", "ceil"):
            setattr(self, n, _each(getattr(np, n), lambda v, n=n: getattr(v, n)()))
        self.rad2deg = self.degrees = _each(np.rad2deg, lambda v: v * (180.0 / math.pi))
        self.deg2rad = self.radians = _each(np.deg2rad, lambda v: v * (math.pi / 180.0))

    def _norm(self, x, ord=None, axis=None, keepdims=False):
        x = np.asarray(x, dtype=object)
        if ord not in (None, 2) or (axis is None and x.ndim != 1):
            from engine.explore import EngineUnsupported
            raise EngineUnsupported("norm")
        s = (x * x).sum(axis=axis, keepdims=keepdims)
        return self.sqrt(s)

    def _extreme(self, name, x, axis=None, **k):
        x = np.asarray(x)
        if axis is None and x.dtype == object and _sym(x):
            from engine import symt
            return getattr(symt.build_tensor(list(x.reshape(-1))), name)().item()
        return getattr(np, name)(x, axis=axis, **k)

    def max(self, x, axis=None, **k):
        return self._extreme("max", x, axis, **k)

    def min(self, x, axis=None, **k):
        return self._extreme("min", x, axis, **k)

    amax, amin = max, min

    def linspace(self, start, stop, num=50, endpoint=True, dtype=None, **k):
        if not _sym(start) and not _sym(stop):
            return _obj(np.linspace(start, stop, num, endpoint=endpoint, **k))
        d = max_(num - 1 if endpoint else num, 1)
        return np.array([start + (stop - start) * (i / d) for i in range(num)], dtype=object)

    def maximum(self, a, b):
        return np.frompyfunc(lambda p, q: p if p >= q else q, 2, 1)(a, b)

    def minimum(self, a, b):
        return np.frompyfunc(lambda p, q: p if p <= q else q, 2, 1)(a, b)

    def clip(self, a, lo, hi):
        return self.minimum(self.maximum(a, lo), hi)

    def isfinite(self, x):
        return np.ones(np.shape(x), dtype=bool) if np.shape(x) else True

    def __getattr__(self, n):
        real = getattr(np, n)
        if isinstance(real, type) or not callable(real):
            return real

        def f(*a, **k):
            if "dtype" in k:
                k["dtype"] = _dt(k["dtype"])
            a = tuple(_dt(x) if x is F64 else x for x in a)
            if n in ("zeros", "ones", "empty", "full", "eye") and "dtype" not in k and len(a) < 2 + (n == "full"):
                k["dtype"] = object
                if n == "zeros":
                    return np.full(a[0], 0.0, dtype=object)
            r = real(*a, **k)
            if n in ("zeros", "zeros_like", "ones", "ones_like") and isinstance(r, np.ndarray) and r.dtype == object:
                r = np.full(r.shape, 0.0 if n.startswith("z") else 1.0, dtype=object)
            return _obj(r)
        return f


max_ = max


class Gen:
    """numpy.random.Generator whose draws are chosen by the solver"""

    def __init__(self, env, trials=2, fixed_order=False):
        self.env, self.n, self.trials, self.perms, self.fixed = env, 0, trials, 0, fixed_order

    def _draw(self, low, high):
        self.n += 1
        if low > high:
            raise ValueError("high - low < 0")
        u = self.env.real(f"u{self.n}", 1e-7, 1.0 - 1e-7)
        if _sym(low) or _sym(high):
            from engine import symt, terms as T
            return symt.wrap_num(T.draw(symt._num(low)[0], symt._num(high)[0], u.e), False)
        return low + (high - low) * u

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is not None:
            out = np.empty(size, dtype=object if self.env.symbolic else np.float64)
            for i in np.ndindex(*out.shape):
                out[i] = self._draw(low, high)
            return out
        if isinstance(low, np.ndarray) or isinstance(high, np.ndarray):
            lo, hi = np.broadcast_arrays(low, high)
            return np.array([self._draw(a, b) for a, b in zip(lo.reshape(-1), hi.reshape(-1))],
                            dtype=object if self.env.symbolic else np.float64).reshape(lo.shape)
        return self._draw(low, high)

    def random(self, size=None):
        return self.uniform(0.0, 1.0, size)

    def _pick(self, k):
        self.n += 1
        return 0 if k == 1 else self.env.choice(f"d{self.n}", list(range(k)))

    def permutation(self, x):
        self.perms += 1
        if self.perms > self.trials:
            self.env.assume(False)
        pool = list(range(x)) if isinstance(x, int) else list(x)
        if self.fixed:
            return np.array(pool)
        return np.array([pool.pop(self._pick(len(pool))) for _ in range(len(pool))])

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        pool = list(range(a)) if isinstance(a, int) else list(np.asarray(a).tolist())
        if size is None:
            return pool[self._pick(len(pool))]
        if replace:
            return np.array([pool[self._pick(len(pool))] for _ in range(size)])
        if self.fixed:
            return np.array(pool[:size])
        return np.array([pool.pop(self._pick(len(pool))) for _ in range(size)])

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        if high is None:
            low, high = 0, low
        k = high - low + (1 if endpoint else 0)
        return low + self._pick(k) if size is None else np.array([low + self._pick(k) for _ in range(size)])


class Sentence:
    def __init__(self, u):
        self.utterance_id, self.text = u, "text " + u


class Corpus:
    """stands in for CmuArcticDataset"""

    def __init__(self, signals, fs, log=None, missing=()):
        self.signals, self.fs, self.log, self.missing = signals, fs, log if log is not None else [], missing

    def __call__(self, root=None, speaker="bdl", download=False):
        self.log.append(("open", speaker, download))
        if speaker in self.missing:
            raise FileNotFoundError("dataset not found")
        if speaker not in self.signals:
            raise ValueError(f"unsupported speaker: {speaker}")
        c = self

        class Handle:
            def __init__(self):
                self.speaker, self.root = speaker, root

            def available_sentences(self):
                return [Sentence(u) for u in c.signals[speaker]]

            sentences = available_sentences

            def load_audio(self, u):
                c.log.append(("load", speaker, u))
                fs = c.fs[speaker] if isinstance(c.fs, dict) else c.fs
                return c.signals[speaker][u].clone(), fs

            def attribution_info(self):
                from torchrir.datasets.attribution import attribution_for
                return attribution_for("cmu_arctic")
        return Handle()


class Kept:
    """what the builder did"""

    def __init__(self):
        self.sims, self.audio, self.log = [], [], []


@contextlib.contextmanager
def surroundings(env, corpus, responses, gen, rng=None, first=True):
    """responses(kept, src_traj, mic_traj, kwargs) gives the result of the n-th simulation"""
    import soundfile
    import torchrir.datasets.dynamic_cmu_arctic as mod
    kept = Kept()
    undo = []

    def put(o, n, v):
        undo.append((o, n, getattr(o, n) if hasattr(o, n) else undo))
        setattr(o, n, v)

    def simulate(**k):
        kept.sims.append(k)
        return responses(kept, k)

    def write(file, data, samplerate, *a, **k):
        import os
        with open(file, "wb"):
            pass
        kept.audio.append((os.fspath(file), data, samplerate, k))
    rp = rng or (FirstRng() if first else ChoiceRng(env, "pick"))
    put(mod, "CmuArcticDataset", corpus)
    put(mod, "simulate_dynamic_rir", simulate)
    put(soundfile, "write", write)
    put(random, "Random", lambda seed=None: rp)
    put(np.random, "default_rng", lambda seed=None: gen)
    if env.symbolic:
        put(mod, "np", Shim(env, gen))
        put(mod, "max", _extreme(max, 1))
        put(mod, "min", _extreme(min, -1))
    try:
        with Json(env) as js:
            kept.json = js
            yield kept
    finally:
        for o, n, v in reversed(undo):
            if v is undo:
                delattr(o, n)
            else:
                setattr(o, n, v)


class FirstRng:
    """random.Random that always takes what comes first"""

    def shuffle(self, x):
        pass

    def sample(self, p, k, *, counts=None):
        return list(p)[:k]

    def choice(self, s):
        return s[0]

    def randrange(self, a, b=None):
        return 0 if b is None else a

    def randint(self, a, b):
        return a

    def random(self):
        return 0.0
