"""Path exploration, harness environment, obligations, replay."""
from __future__ import annotations

import builtins
import contextlib
import json
import math
import os
import signal
import random
import sys
import time
import traceback
from fractions import Fraction

import torch

from . import terms as T
from . import solver
from . import symt
from .terms import Poly, Special, Bool, EngineUnsupported, PathAbort, P, TRUE, FALSE
from .symt import SymNum, SymBool, SymTensor, S

VAR_CAP = 400


class AssumeFailed(BaseException):
    pass


class HarnessViolation(Exception):
    """raised in concrete mode when a check fails"""


# ----------------------------------------------------------------------------- patches

class _MetaNum(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls._real) and not (cls._real is int and False) or (
            isinstance(o, SymNum) and o.isint == (cls._real is int)) or (
            isinstance(o, SymBool) and cls._real is int)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real)

    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)

    def __getattr__(cls, n):
        return getattr(cls._real, n)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


def _tofloat(x=0.0):
    if isinstance(x, SymNum):
        return SymNum(x.e, False)
    if isinstance(x, SymBool):
        return SymNum(T.ind(x.e), False)
    if isinstance(x, SymTensor):
        return _tofloat(x.item())
    if isinstance(x, symt.ExactFloat):
        return x
    hook = FLOAT_HOOK.get(type(x))
    if hook:
        return hook(x)
    return float(x)


def _toint(x=0, *a):
    if isinstance(x, SymNum):
        return symt.wrap_num(T.ptrunc(x.e), True)
    if isinstance(x, SymBool):
        return SymNum(T.ind(x.e), True)
    if isinstance(x, SymTensor):
        return _toint(x.item())
    hook = INT_HOOK.get(type(x))
    if hook:
        return hook(x, *a)
    return int(x, *a)


FLOAT_HOOK = {}
INT_HOOK = {}


class ShadowFloat(metaclass=_MetaNum):
    _real = float
    _conv = staticmethod(_tofloat)


class ShadowInt(metaclass=_MetaNum):
    _real = int
    _conv = staticmethod(_toint)


def _is_sym(*xs):
    return any(isinstance(x, (SymNum, SymBool)) or (isinstance(x, SymTensor)) for x in xs)


def _sc(x):
    if isinstance(x, SymTensor):
        x = x.item()
    return symt.entry_of(x)


def _m1(name, f):
    real = getattr(math, name)

    def w(x, *a):
        if _is_sym(x):
            return f(_sc(x))
        return real(x, *a)
    w.__name__ = name
    return real, w


def _fl(e):
    return symt.wrap_num(e, False)


def _it(e):
    return symt.wrap_num(e, True)


def _msqrt(e):
    neg = T.cmp("lt", e) if isinstance(e, Poly) else FALSE
    if T.branch(neg):
        raise ValueError("math domain error")
    return _fl(T.sqrt(e))


def _mlog(e):
    if T.branch(T.cmp("le", e)):
        raise ValueError("math domain error")
    return _fl(T.uf1("log", e))


def build_math():
    tab = {}
    for n, f in {
        "floor": lambda e: _it(T.pfloor(e)), "ceil": lambda e: _it(T.pceil(e)),
        "trunc": lambda e: _it(T.ptrunc(e)), "sqrt": _msqrt,
        "cos": lambda e: _fl(T.uf1("cos", e)), "sin": lambda e: _fl(T.uf1("sin", e)),
        "tan": lambda e: _fl(T.uf1("tan", e)), "exp": lambda e: _fl(T.uf1("exp", e)),
        "log": _mlog, "log10": lambda e: _fl(T.uf1("log10", e)),
        "acos": lambda e: _fl(T.uf1("acos", e)), "asin": lambda e: _fl(T.uf1("asin", e)),
        "atan": lambda e: _fl(T.uf1("atan", e)),
        "isinf": lambda e: isinstance(e, Special) and abs(e.v) == T.INF,
        "isnan": lambda e: isinstance(e, Special) and e.v != e.v,
        "isfinite": lambda e: not isinstance(e, Special),
        "fabs": lambda e: _fl(T.pabs(e)),
        "radians": lambda e: _fl(symt._deg2rad(e)), "degrees": lambda e: _fl(symt._rad2deg(e)),
    }.items():
        tab[n] = _m1(n, f)

    def m2(name, f):
        real = getattr(math, name)

        def w(*xs):
            if _is_sym(*xs):
                return f(*xs)
            return real(*xs)
        w.__name__ = name
        tab[name] = (real, w)
    m2("atan2", lambda a, b: _fl(symt.e_atan2(_sc(a), _sc(b))))
    m2("hypot", lambda *xs: _fl(T.sqrt(T.psum([symt._sq(_sc(x)) for x in xs]))))
    m2("pow", lambda a, b: _fl(symt.e_pow(_sc(a), _sc(b))))
    m2("copysign", lambda a, b: _fl(symt.BINARY["copysign"](_sc(a), _sc(b))))
    m2("fmod", lambda a, b: _fl(symt._fmod(_sc(a), _sc(b))))

    def w_seq(name, f):
        real = getattr(math, name)

        def w(xs, *a, **k):
            xs = list(xs)
            if _is_sym(*xs):
                return f(xs, *a, **k)
            return real(xs, *a, **k)
        tab[name] = (real, w)
    w_seq("fsum", lambda xs: _fl(T.psum([_sc(x) for x in xs])))

    def _prod(xs, start=1):
        r = start
        for x in xs:
            r = r * x
        return r
    w_seq("prod", _prod)
    rd = math.dist
    tab["dist"] = (rd, lambda p, q: _msqrt(T.psum(
        [symt._sq(T.sub(_sc(a), _sc(b))) for a, b in zip(p, q)])) if _is_sym(*p, *q) else rd(p, q))
    ric = math.isclose

    def isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
        if _is_sym(a, b):
            return abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol)
        return ric(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    tab["isclose"] = (ric, isclose)
    return tab


def _has_sym(x, depth=0):
    if isinstance(x, (SymNum, SymBool, SymTensor)):
        return True
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(_has_sym(y, depth + 1) for y in x)
    import numpy as np
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(_has_sym(y, depth + 1) for y in x.ravel())
    return False


_real_tensor = torch.tensor
_real_as_tensor = torch.as_tensor
_real_from_numpy = torch.from_numpy


def sym_tensor_ctor(data, *a, dtype=None, device=None, requires_grad=False, pin_memory=False, **k):
    if a:
        dtype = a[0]
    if isinstance(data, SymTensor):
        r = data.detach().clone()
        return r.to(dtype=dtype or r.dtype, device=device or r.device)
    return symt.build_tensor(_flatten_real(data), dtype=dtype, device=_dev(device))


def _flatten_real(x):
    if isinstance(x, torch.Tensor) and not isinstance(x, SymTensor):
        return symt.lift_tensor(x)
    import numpy as np
    if isinstance(x, np.ndarray):
        return x.tolist() if x.dtype != object else list(x)
    if isinstance(x, (list, tuple)):
        return [_flatten_real(y) for y in x]
    return x


def _dev(d):
    return "cpu" if d is None else (str(d) if not isinstance(d, str) else d)


def sym_tensor(data, *a, **k):
    import numpy as np
    if isinstance(data, np.ndarray) and data.dtype != object and k.get("dtype") is None and not a:
        k["dtype"] = getattr(torch, str(data.dtype)) if data.dtype != bool else torch.bool
    return sym_tensor_ctor(data, *a, **k)


def sym_as_tensor(data, dtype=None, device=None, **k):
    import numpy as np
    if isinstance(data, SymTensor):
        if (dtype is None or dtype == data.dtype) and (
                device is None or torch.device(device) == data.device):
            return data
        return data.to(dtype=dtype or data.dtype, device=device or data.device)
    if isinstance(data, torch.Tensor):
        return sym_as_tensor(symt.lift_tensor(data), dtype=dtype, device=device)
    if isinstance(data, np.ndarray) and data.dtype != object and dtype is None:
        dtype = getattr(torch, str(data.dtype)) if data.dtype != bool else torch.bool
    return sym_tensor_ctor(data, dtype=dtype, device=device)


def sym_from_numpy(a):
    import numpy as np
    if a.dtype == object:
        dt = torch.float64
        return symt.build_tensor(list(a) if a.ndim else a.item(), dtype=dt)
    return sym_as_tensor(a)


class Patches:
    """Installs the symbolic stand-ins; undone on exit."""

    def __init__(self, extra=()):
        self.undo = []
        self.extra = list(extra)

    def set(self, obj, name, val):
        had = name in vars(obj) if isinstance(obj, type(sys)) else hasattr(obj, name)
        old = getattr(obj, name, None)
        self.undo.append((obj, name, had, old))
        setattr(obj, name, val)

    def everywhere(self, orig, repl):
        """replace every module attribute of torchrir that *is* orig"""
        for m in torchrir_modules():
            for k, v in list(vars(m).items()):
                if v is orig:
                    self.set(m, k, repl)

    def __enter__(self):
        for n, (real, w) in build_math().items():
            self.set(math, n, w)
            self.everywhere(real, w)
        self.set(torch, "tensor", sym_tensor)
        self.set(torch, "as_tensor", sym_as_tensor)
        self.set(torch, "asarray", sym_as_tensor)
        self.set(torch, "from_numpy", sym_from_numpy)
        for r, w in ((_real_tensor, sym_tensor), (_real_as_tensor, sym_as_tensor),
                     (_real_from_numpy, sym_from_numpy)):
            self.everywhere(r, w)
        for m in torchrir_modules():
            if "float" not in vars(m):
                self.set(m, "float", ShadowFloat)
            if "int" not in vars(m):
                self.set(m, "int", ShadowInt)
        for f in self.extra:
            f(self)
        self.mode = symt.SymMode()
        self.ng = torch.no_grad()
        self.ng.__enter__()
        self.mode.__enter__()
        return self

    def __exit__(self, *a):
        self.mode.__exit__(None, None, None)
        self.ng.__exit__(None, None, None)
        for obj, name, had, old in reversed(self.undo):
            if had:
                setattr(obj, name, old)
            else:
                try:
                    delattr(obj, name)
                except AttributeError:
                    pass
        self.undo = []
        return False


def torchrir_modules():
    return [m for n, m in list(sys.modules.items())
            if m is not None and (n == "torchrir" or n.startswith("torchrir."))]


@contextlib.contextmanager
def fresh_module_state():
    """Module-level mutable containers of torchrir are snapshotted and restored, so caches
    filled in one run are not seen by the next."""
    saved = []
    for m in torchrir_modules():
        for k, v in list(vars(m).items()):
            if k.startswith("__"):
                continue
            if type(v) in (dict, list, set):
                saved.append((v, v.copy()))
        for k, v in list(vars(m).items()):
            cc = getattr(v, "cache_clear", None)
            if callable(cc) and hasattr(v, "cache_info"):
                cc()
    try:
        yield
    finally:
        for v, c in saved:
            v.clear()
            if isinstance(v, list):
                v.extend(c)
            else:
                v.update(c)
        for m in torchrir_modules():
            for k, v in list(vars(m).items()):
                cc = getattr(v, "cache_clear", None)
                if callable(cc) and hasattr(v, "cache_info"):
                    cc()


# ----------------------------------------------------------------------------- outcomes

class Outcome:
    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *types):
        return self.exc is not None and isinstance(self.exc, types or (Exception,))

    def __repr__(self):
        return f"Outcome(ok)" if self.ok else f"Outcome({type(self.exc).__name__}: {self.exc})"


# ----------------------------------------------------------------------------- symbolic env

class Obligation:
    __slots__ = ("label", "how", "status")


class SymEnv:
    symbolic = True

    def __init__(self, ctx, cfg):
        self.ctx = ctx
        self.cfg = cfg
        self.inputs = {}      # name -> (kind, lo, hi)
        self.obs = []

    # -- inputs
    def real(self, name, lo=None, hi=None):
        self.inputs[name] = ("real", lo, hi)
        return SymNum(T.var(name, lo, hi), False)

    def int(self, name, lo=None, hi=None):
        self.inputs[name] = ("int", lo, hi)
        if lo is not None and lo == hi:
            return int(lo)
        return SymNum(T.var(name, lo, hi, isint=True), True)

    def bool(self, name):
        self.inputs[name] = ("int", 0, 1)
        return SymBool(T.boolvar(name))

    def choice(self, name, options):
        """one of the options, forking"""
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        return options[i if isinstance(i, int) else i.__index__()]

    def tensor(self, name, shape, lo=None, hi=None, dtype=torch.float64, device="cpu"):
        es = []
        import itertools
        isint = not dtype.is_floating_point
        for pos in itertools.product(*[range(s) for s in shape]):
            n = name + "_" + "_".join(map(str, pos))
            self.inputs[n] = ("int" if isint else "real", lo, hi)
            es.append(T.var(n, lo, hi, isint=isint))
        return symt.mk(es, shape, dtype, device)

    def tensor_of(self, vals, dtype=torch.float64):
        return symt.build_tensor(vals, dtype=dtype)

    # -- logic
    def assume(self, c):
        e = _cond(c)
        self.ctx.assume(e)

    def lemma(self, c, label="lemma"):
        """prove c, then use it"""
        e = _cond(c)
        if e is TRUE:
            return True
        r, _ = solver.check(self.ctx.slice(e) + [T.bnot(e)], 5000, want_model=False)
        if r == "unsat":
            self.ctx.add(e)
            self.ctx.counts["lemmas"] = self.ctx.counts.get("lemmas", 0) + 1
            return True
        return False

    def check(self, label, c):
        self.obs.append((label, c))
        self.ctx.oblige(label, _cond(c))

    def eq(self, label, a, b, tol=1e-6):
        ea, sa = _entries(a)
        eb, sb = _entries(b)
        if sa != sb:
            self.ctx.oblige(label + f": shape {sa} != {sb}", FALSE)
            return
        self.obs.append((label + "/a", a))
        self.obs.append((label + "/b", b))
        self.ctx.oblige_eq(label, ea, eb, tol)

    def finite(self, label, x):
        es, _ = _entries(x)
        self.obs.append((label, x))
        self.ctx.oblige_finite(label, es)

    def observe(self, label, x):
        self.obs.append((label, x))

    def fail(self, label):
        self.ctx.oblige(label, FALSE)

    def call(self, f, *a, **k):
        try:
            return Outcome(f(*a, **k))
        except Exception as exc:  # noqa: BLE001  engine exceptions are BaseException
            return Outcome(exc=exc)

    # -- maths usable in harness reference models
    def sqrt(self, x): return _fl(T.sqrt(_sc(x)))
    def floor(self, x): return _it(T.pfloor(_sc(x)))
    def ceil(self, x): return _it(T.pceil(_sc(x)))
    def sinc(self, x): return _fl(T.uf1("sinc", _sc(x)))
    def cos(self, x): return _fl(T.uf1("cos", _sc(x)))
    def sin(self, x): return _fl(T.uf1("sin", _sc(x)))
    def exp(self, x): return _fl(T.uf1("exp", _sc(x)))

    def ite(self, c, a, b):
        e = _cond(c)
        if e.op == "const":
            return a if e.args[0] else b
        ea, eb = _sc(a), _sc(b)
        old = S.decide_hook
        S.decide_hook = None
        try:
            isint = all(not isinstance(x, float) and not (isinstance(x, SymNum) and not x.isint)
                        for x in (a, b))
            return symt.wrap_num(T.ite(e, ea, eb), isint)
        finally:
            S.decide_hook = old

    def And(self, *cs): return symt.wrap_bool(T.band(*[_cond(c) for c in cs]))
    def Or(self, *cs): return symt.wrap_bool(T.bor(*[_cond(c) for c in cs]))
    def Not(self, c): return symt.wrap_bool(T.bnot(_cond(c)))
    def Implies(self, a, b): return symt.wrap_bool(T.bor(T.bnot(_cond(a)), _cond(b)))
    def Iff(self, a, b): return symt.wrap_bool(T.eq(_cond(a), _cond(b)))
    def sum(self, xs): return _fl(T.psum([_sc(x) for x in xs]) if xs else T.ZERO)
    def isfinite(self, x):
        return all(not isinstance(e, Special) for e in _entries(x)[0])

    def truth(self, c):
        """python bool of c, forking"""
        return T.branch(_cond(c))

    def close(self, a, b, tol=1e-6):
        ea, sa = _entries(a)
        eb, sb = _entries(b)
        if sa != sb:
            return False
        cs = []
        for x, y in zip(ea, eb):
            d = T.sub(symt._num_e(x), symt._num_e(y))
            cs.append(T.band(T.le(d, P(tol)), T.le(T.neg(d), P(tol))))
        return symt.wrap_bool(T.band(*cs))


def _cond(c):
    if isinstance(c, bool):
        return TRUE if c else FALSE
    if isinstance(c, SymBool):
        return c.e
    if isinstance(c, Bool):
        return c
    if isinstance(c, SymTensor):
        return T.band(*[T.tobool(e) for e in symt.ents(c)])
    if isinstance(c, torch.Tensor):
        return TRUE if bool(c.all()) else FALSE
    if isinstance(c, SymNum):
        return T.tobool(c.e)
    return TRUE if bool(c) else FALSE


def _entries(x):
    """flatten to (entries, shape)"""
    if isinstance(x, SymTensor):
        if x.g is not None:
            raise EngineUnsupported("observing a data-dependent selection")
        return symt.ents(x), tuple(x.shape)
    if isinstance(x, torch.Tensor):
        t = symt.lift_tensor(x)
        return symt.ents(t), tuple(x.shape)
    if isinstance(x, (list, tuple)):
        es, shapes = [], []
        for y in x:
            e, s = _entries(y)
            es.extend(e)
            shapes.append(s)
        if all(s == shapes[0] for s in shapes):
            return es, (len(x),) + (shapes[0] if shapes else ())
        return es, tuple([len(x)] + shapes)
    try:
        import numpy as np
        if isinstance(x, np.ndarray):
            return [symt.entry_of(v) for v in x.ravel()], tuple(x.shape)
    except ImportError:
        pass
    return [symt.entry_of(x)], ()


# ----------------------------------------------------------------------------- context

class Stuck(BaseException):
    """the code under test did not come back"""


@contextlib.contextmanager
def watchdog(sig, timer, first, late=lambda: True):
    """raise Stuck in the running code once the timer has run down"""
    def ring(_s, _f):
        if late():
            raise Stuck()
    try:
        old = signal.signal(sig, ring)
    except ValueError:      # not in the main thread
        yield
        return
    signal.setitimer(timer, first, 5.0)
    try:
        yield
    finally:
        signal.setitimer(timer, 0)
        signal.signal(sig, old)


FINISH_S = 30.0     # processor time a replay may take; they take milliseconds


class Ctx:
    """State of one path."""

    def __init__(self, explorer, prefix):
        self.ex = explorer
        self.prefix = prefix
        self.trace = []
        self.conds = []
        self.npre = 0
        self.counts = explorer.counts
        self.decide_cache = {}
        self.decide_unknown = 0
        self.deadline = explorer.deadline
        self.pins = {}

    # -- conditions
    def slice(self, *extra):
        """path conditions sharing inputs (transitively) with extra."""
        want = set()
        for b in extra:
            want |= bool_vars(b)
        items = [(c, bool_vars(c)) for c in self.conds]
        out = [False] * len(items)
        ch = True
        while ch:
            ch = False
            for i, (c, v) in enumerate(items):
                if not out[i] and v & want:
                    out[i] = True
                    want |= v
                    ch = True
        return [items[i][0] for i in range(len(items)) if out[i]]

    def add(self, c):
        c = resimplify(c)
        if c is TRUE:
            return
        for x in (c.args if c.op == "and" else (c,)):
            self.conds.append(x)
        T.add_fact(c)

    def assume(self, c):
        if c is TRUE:
            return
        if c is FALSE:
            raise PathAbort("assumption false")
        self.add(c)

    def feasible(self, c, timeout=700):
        if c is FALSE:
            return False
        r, _ = solver.check(self.slice(c) + [c], timeout, want_model=False)
        if r == "unknown":
            self.counts["feas_unknown"] += 1
        return r != "unsat"

    def branch(self, c):
        if time.time() > self.deadline:
            raise PathAbort("deadline")
        if c.op == "const":
            return c.args[0]
        n = len(self.trace)
        if n < len(self.prefix):
            kind, v = self.prefix[n]
            if kind != "b":
                raise EngineUnsupported("non-deterministic replay of a path")
            self.trace.append(("b", v))
            c = resimplify(c)
            self.add(c if v else T.bnot(c))
            return v
        c = resimplify(c)
        if c.op == "const":
            self.trace.append(("b", c.args[0]))
            return c.args[0]
        t = self.feasible(c)
        f = self.feasible(T.bnot(c)) if t else True
        if not t:
            v = False
        elif not f:
            v = True
        else:
            v = True
            self.ex.push(self.trace + [("b", False)])
            self.counts["forks"] += 1
        self.trace.append(("b", v))
        self.add(c if v else T.bnot(c))
        return v

    def unconstrained_int(self, e):
        """e is an integer input that no condition of this path mentions"""
        if len(e.d) != 1:
            return False
        (m, c), = e.d.items()
        if c != 1 or len(m) != 1 or m[0][1] != 1:
            return False
        a = S.atoms[m[0][0]]
        if a.kind != "var" or not a.isint or a.lo is None or a.hi is None:
            return False
        want = poly_vars(e)
        return not any(bool_vars(c) & want for c in self.conds)

    def concretize(self, e, what):
        n = len(self.trace)
        excluded = []
        if n < len(self.prefix):
            kind, v = self.prefix[n]
            if kind == "v":
                self.trace.append(("v", v))
                self.add(T.cmp("eq", T.sub(e, P(v))))
                return v
            excluded = list(v)
        conds = [T.ne(e, P(x)) for x in excluded]
        val = free = None
        lo, hi = T.iv(e)
        if lo is not None and hi is not None and hi - lo <= 64:
            for j in range(int(math.ceil(lo)), int(math.floor(hi)) + 1):
                if j in excluded:
                    continue
                c = T.cmp("eq", T.sub(e, P(j)))
                if free is None:
                    free = self.unconstrained_int(e)
                if free or self.feasible(c):
                    val = j
                    break
        else:
            lim = self.ex.opts.get("concretize_limit", 64)
            if len(excluded) >= lim:
                self.counts["truncated"] += 1
                raise PathAbort("concretisation limit")
            base = T.cmp("eq", T.sub(e, T.var("_conc", isint=True)))
            r, m = solver.check(self.slice(base, *conds) + conds + [base], 2000)
            if r == "sat":
                val = int(m["_conc"])
            elif r == "unknown":
                self.counts["truncated"] += 1
        if val is None:
            raise PathAbort("no further value")
        self.ex.push(self.trace + [("x", excluded + [val])])
        self.counts["forks"] += 1
        self.trace.append(("v", val))
        self.add(T.cmp("eq", T.sub(e, P(val))))
        return val

    def decide(self, c):
        """prove c or not c under the path (used to prune ITEs)."""
        if not self.ex.opts.get("decide", True) or self.decide_unknown > self.ex.opts.get("decide_budget", 40):
            return None
        c = resimplify(c)
        if c.op == "const":
            return c.args[0]
        if c in self.decide_cache:
            return self.decide_cache[c]
        tmo = self.ex.opts.get("decide_ms", 150)
        sl = self.slice(c)
        d = None
        r, _ = solver.check(sl + [T.bnot(c)], tmo, want_model=False)
        if r == "unsat":
            d = True
        elif True:
            r2, _ = solver.check(sl + [c], tmo, want_model=False)
            if r2 == "unsat":
                d = False
            elif r == "unknown" or r2 == "unknown":
                self.decide_unknown += 1
        self.decide_cache[c] = d
        return d

    # -- obligations
    def oblige(self, label, c):
        self.counts["obligations"] += 1
        c = resimplify(c)
        if c is TRUE:
            solver.STATS.trivial += 1
            self.ex.trivial.append(label)
            self.counts["discharged"] += 1
            return
        n = T.bnot(c)
        r, m = self.refute(n, label)
        if r == "unsat":
            self.counts["discharged"] += 1
            self.counts["by_solver"] += 1
        elif r == "sat":
            self.failed = n
            self.ex.candidate(label, m, self)
        else:
            self.ex.undecided(label, self, n)

    def oblige_eq(self, label, ea, eb, tol):
        pend = []
        tolf = T.snap(tol)
        for i, (x, y) in enumerate(zip(ea, eb)):
            self.counts["obligations"] += 1
            if isinstance(x, Bool) or isinstance(y, Bool):
                c = T.eq(T.tobool(x), T.tobool(y))
                if c is TRUE:
                    self.counts["discharged"] += 1
                    self.counts["by_normal_form"] += 1
                else:
                    pend.append((i, T.bnot(c), None))
                continue
            if isinstance(x, Special) or isinstance(y, Special):
                same = x == y
                if same:
                    self.counts["discharged"] += 1
                    self.counts["by_normal_form"] += 1
                else:
                    pend.append((i, TRUE, None))
                continue
            d = T.cancel(T.sub(x, y))
            if d.is_const() and abs(d.const()) <= tolf:
                self.counts["discharged"] += 1
                self.counts["by_normal_form"] += 1
                continue
            lo, hi = T.iv(d)
            if lo is not None and hi is not None and lo >= -tolf and hi <= tolf:
                self.counts["discharged"] += 1
                self.counts["by_interval"] += 1
                continue
            big = T.bor(T.lt(P(tol), d), T.lt(d, P(-tol)))
            big = resimplify(big)
            if big is FALSE:
                self.counts["discharged"] += 1
                self.counts["by_interval"] += 1
                continue
            if os.environ.get("SYM_DUMP"):
                print(f"PEND {label}[{i}] d = {T.show(d)}"[:3000], file=sys.stderr)
            pend.append((i, big, d))
        if not pend:
            # the residue (false) still goes to the solver
            solver.check([FALSE], 100, want_model=False)
            return
        # try to refute by evaluation of the encoded terms at solver/domain points first
        for i, b, d in pend:
            if d is not None:
                m = self.search(b)
                if m is not None:
                    self.failed = b
                    self.ex.candidate(f"{label}[{i}]", m, self)
                    return
        allb = T.bor(*[b for _i, b, _d in pend]) if len(pend) <= 12 else None
        if allb is not None and len(pend) > 1:
            r, m = self.refute(allb, label, search=False)
            if r == "unsat":
                self.counts["discharged"] += len(pend)
                self.counts["by_solver"] += len(pend)
                return
            if r == "sat":
                self.failed = allb
                self.ex.candidate(label, m, self)
                return
        for i, b, d in pend:
            r, m = self.refute(b, f"{label}[{i}]", search=False)
            if r == "unsat":
                self.counts["discharged"] += 1
                self.counts["by_solver"] += 1
            elif r == "sat":
                self.failed = b
                self.ex.candidate(f"{label}[{i}]", m, self)
                return
            else:
                self.ex.undecided(f"{label}[{i}]", self, b)

    def oblige_finite(self, label, es):
        """no division by zero / sqrt of a negative number / inf / nan in the values"""
        seen = {}
        for idx, e in enumerate(es):
            self.counts["obligations"] += 1
            if isinstance(e, Special):
                r, m = self.refute(TRUE, label)
                self.ex.candidate(f"{label}[{idx}] is {e.v}", m or {}, self)
                return
            if isinstance(e, Bool):
                self.counts["discharged"] += 1
                continue
            bad = finite_bad(e)
            ok = True
            for b in bad:
                if b in seen:
                    if not seen[b]:
                        ok = False
                    continue
                b2 = resimplify(b)
                if b2 is FALSE:
                    seen[b] = True
                    continue
                r, m = self.refute(b2, f"{label}[{idx}]")
                seen[b] = r == "unsat"
                if r == "sat":
                    self.ex.candidate(f"{label}[{idx}] not finite", m, self)
                    return
                if r != "unsat":
                    ok = False
                    self.ex.undecided(f"{label}[{idx}]", self)
            if ok:
                self.counts["discharged"] += 1
                self.counts["by_solver"] += 1

    def search(self, b, tries=24):
        """evaluate the encoded condition at points of the input domain (refutation only)"""
        rng = self.ex.rng
        bv = None
        for t in range(tries):
            pt = self.ex.sample_point(self, rng)
            if pt is None:
                return None
            ev = T.Evaluator(pt)
            try:
                if not all(ev.bool(c) for c in self.conds):
                    continue
                if ev.margin < 1e-9:
                    continue
                ev2 = T.Evaluator(pt)
                if ev2.bool(b) and ev2.margin > 1e-9:
                    return {k: (v if isinstance(v, Fraction) else Fraction(v)) for k, v in pt.items()}
            except T.EvalFail:
                return None
            except (OverflowError, ValueError, ZeroDivisionError):
                continue
        return None

    def hunt(self, b, budget=3.0):
        """a longer search for a point of this path at which b holds: random walks towards more satisfied conditions.  Finds points the
        solver cannot give because it knows sin, cos, exp, ... only by a few of their properties (refutation only)"""
        rng = random.Random(7)
        names = [a for a in S.atoms if a.kind == "var" and a.name != "_conc"]
        conds = list(self.conds) + [b]
        end = time.time() + budget

        def amount(ev, c, neg):
            """how far c (or its negation) is from holding"""
            if c.op == "not":
                return amount(ev, c.args[0], not neg)
            if c.op in ("and", "or"):
                xs = [amount(ev, x, neg) for x in c.args]
                return sum(xs) if (c.op == "and") != neg else min(xs, default=1.0)
            if c.op == "const":
                return 0.0 if c.args[0] != neg else 1.0
            v = float(ev.poly(c.args[0]))
            if v != v:
                return 1e6
            if c.op in ("le", "lt"):
                v = -v if neg else v
                return 0.0 if v < -1e-9 or v == 0 and (c.op == "le") != neg else v + 1e-8
            return abs(v) if not neg else (1.0 if v == 0 else 0.0)

        def score(pt):
            ev = T.Evaluator(pt)
            try:
                return sum(min(amount(ev, c, False), 1e6) for c in conds)
            except T.EvalFail:
                return None
            except (OverflowError, ValueError, ZeroDivisionError):
                return 1e9

        def draw(a, old=None):
            lo = a.lo if a.lo is not None else Fraction(-3)
            hi = a.hi if a.hi is not None else max(lo + 3, Fraction(3))
            if a.isint:
                return Fraction(rng.randint(math.ceil(lo), math.floor(hi)))
            lo, hi = float(lo), float(hi)
            if old is None or rng.random() < 0.4:
                return rng.choice((lo, hi)) if rng.random() < 0.1 else lo + (hi - lo) * rng.random()
            return min(hi, max(lo, float(old) + (hi - lo) * rng.gauss(0, 10 ** -rng.uniform(0.5, 3))))
        if not names:
            return None
        while time.time() < end:
            best = self.ex.sample_point(self, rng)
            top = score(best)
            if top is None:
                return None
            for _ in range(300):
                if top == 0:
                    return {k: Fraction(v) for k, v in best.items()}
                if time.time() > end:
                    break
                pt = dict(best)
                for a in rng.sample(names, min(len(names), rng.choice((1, 1, 2, 3)))):
                    pt[a.name] = draw(a, pt.get(a.name))
                k = score(pt)
                if k is None:
                    return None
                if k <= top:
                    best, top = pt, k
        return None

    def refute(self, n, label, search=True):
        """is n (the negated obligation) satisfiable under the path?"""
        tmo = self.ex.opts.get("query_ms", 8000)
        if search:
            m = self.search(n)
            if m is not None:
                return "sat", m
        r, m = solver.check(self.slice(n) + [n], tmo)
        if r == "sat":
            # complete the model with the unrelated conditions
            r2, m2 = solver.check(self.conds + [n], tmo)
            if r2 == "sat":
                m = m2
            return "sat", m
        return r, m


def finite_bad(e):
    """conditions under which a term with inverses/roots is undefined"""
    bad = []
    done = set()

    def visit(p):
        for a in sorted(p.atoms()):
            at = S.atoms[a]
            negs = [m for m in p.d if any(x == a and ex < 0 for x, ex in m)]
            if negs:
                # group by non-indicator monomial
                groups = {}
                for m in negs:
                    key = tuple(t for t in m if S.atoms[t[0]].kind != "ind")
                    rest = tuple(t for t in m if S.atoms[t[0]].kind == "ind")
                    groups.setdefault(key, {})
                    groups[key][rest] = groups[key].get(rest, 0) + p.d[m]
                base = at.args[0] if at.kind in ("box", "sqrt") else T.atom_poly(at)
                z = T.cmp("eq", base)
                for key, ks in groups.items():
                    k = Poly({m: c for m, c in ks.items() if c})
                    live = T.bnot(T.cmp("eq", k)) if not k.is_const() else TRUE
                    if not k.is_const():
                        live = ne_zero_ind(k)
                    b = T.band(live, z)
                    if b is not FALSE:
                        bad.append(b)
            if at.kind == "sqrt" and a not in done:
                done.add(a)
                q = at.args[0]
                if not q.is_const():
                    lo, _ = T.iv(q)
                    if lo is None or lo < 0:
                        # sums of squares are non-negative by construction; ask the solver
                        bad.append(T.cmp("lt", q))
            if a not in done and at.kind in ("uf", "floor", "round", "sqrt", "box", "max", "draw"):
                done.add(a)
                for q in at.args:
                    visit(q)
    visit(e)
    return bad


def off_edge(b, d, neg=False):
    """b (or its negation) with every inequality holding by at least d"""
    if b.op == "not":
        return off_edge(b.args[0], d, not neg)
    if b.op in ("and", "or"):
        xs = [off_edge(x, d, neg) for x in b.args]
        return (T.band if (b.op == "and") != neg else T.bor)(*xs)
    if b.op in ("le", "lt"):
        p = b.args[0]
        return T.cmp("le", T.sub(Poly({(): Fraction(d)}), p) if neg else T.add(p, Poly({(): Fraction(d)})))
    return T.bnot(b) if neg else b


def ne_zero_ind(k):
    return T.bnot(T.cmp("eq", k))


_bv_cache = {}


def atom_vars(aid):
    k = ("a", aid)
    r = _bv_cache.get(k)
    if r is None:
        a = S.atoms[aid]
        if a.kind == "var":
            r = frozenset((aid,))
        elif a.kind == "ind":
            r = bool_vars(a.args[0])
        else:
            r = frozenset()
            for q in a.args:
                r = r | poly_vars(q)
        _bv_cache[k] = r
    return r


def poly_vars(p):
    r = frozenset()
    if isinstance(p, Poly):
        for a in p.atoms():
            r = r | atom_vars(a)
    return r


def bool_vars(b):
    r = _bv_cache.get(b)
    if r is None:
        if b.op == "const":
            r = frozenset()
        elif b.op in ("le", "lt", "eq"):
            r = poly_vars(b.args[0])
        else:
            r = frozenset()
            for x in b.args:
                r = r | bool_vars(x)
        _bv_cache[b] = r
    return r


def resimplify(c):
    if c.op in ("le", "lt", "eq"):
        p = c.args[0]
        p._iv = None if not p.is_const() else p._iv
        return T.cmp(c.op, p)
    if c.op == "not":
        return T.bnot(resimplify(c.args[0]))
    if c.op == "and":
        return T.band(*[resimplify(x) for x in c.args])
    if c.op == "or":
        return T.bor(*[resimplify(x) for x in c.args])
    return c


# ----------------------------------------------------------------------------- explorer

class CaseResult(dict):
    pass


class Explorer:
    def __init__(self, body, cfg, opts, seed=1):
        self.body = body
        self.cfg = cfg
        self.opts = opts
        self.rng = random.Random(seed)
        self.work = [[]]
        self.counts = dict(paths=0, aborted=0, forks=0, obligations=0, discharged=0,
                           by_normal_form=0, by_interval=0, by_solver=0, undecided=0,
                           feas_unknown=0, truncated=0, validated=0, validation_skipped=0,
                           concretised=0)
        self.trivial = []
        self.violations = []
        self.inconclusive = []
        self.deadline = time.time() + opts.get("time_s", 120)
        self.inputs = {}
        self.functions = set()
        self.samples = []
        self.reached = 0

    def push(self, prefix):
        self.work.append(prefix)

    def sample_point(self, ctx, rng):
        pt = {}
        for a in S.atoms:
            if a.kind == "var" and a.name != "_conc":
                lo = a.lo if a.lo is not None else Fraction(-3)
                hi = a.hi if a.hi is not None else max(lo + 3, Fraction(3))
                if a.isint:
                    pt[a.name] = Fraction(rng.randint(math.ceil(lo), math.floor(hi)))
                else:
                    pt[a.name] = float(lo) + (float(hi) - float(lo)) * rng.random()
        # equalities pinned by the path
        return pt

    def candidate(self, label, model, ctx):
        self.counts["candidates"] = self.counts.get("candidates", 0) + 1
        raise CandidateFound(label, dict(model))

    hunts = 0

    def undecided(self, label, ctx, n=None):
        if n is not None and self.hunts < 12:
            self.hunts += 1
            m = ctx.hunt(n)
            if m is not None:
                ctx.failed = n
                self.candidate(label, m, ctx)
        self.counts["undecided"] += 1
        if len(self.inconclusive) < 20:
            self.inconclusive.append(f"solver undecided: {label}")

    def run(self):
        o = self.opts
        max_paths = o.get("max_paths", 400)
        while self.work:
            if time.time() > self.deadline:
                self.inconclusive.append("time budget reached with unexplored paths")
                break
            if self.counts["paths"] >= max_paths:
                self.inconclusive.append("path budget reached with unexplored paths")
                break
            prefix = self.work.pop()
            self.run_path(prefix)
            if self.violations and not o.get("collect_all"):
                break
        return self

    def run_path(self, prefix):
        symt.reset()
        symt._RNG["n"] = 0
        symt._RNG["gens"].clear()
        _bv_cache.clear()
        ctx = Ctx(self, prefix)
        env = SymEnv(ctx, self.cfg)
        T.BRANCH = ctx.branch
        symt.CONCRETIZE = ctx.concretize
        S.decide_hook = ctx.decide
        S.decide_hook = ctx.decide if self.opts.get("decide", True) else None
        pins = {}

        def pin(es):
            # concretise to a model of the path
            self.counts["concretised"] += 1
            r, m = solver.check(ctx.conds, 3000)
            if r != "sat":
                raise EngineUnsupported("cannot concretise")
            ctx.pin_model = m

        def pinval(e):
            if symt.is_const_entry(e):
                return e
            m = dict(ctx.pin_model)
            for a in S.atoms:
                if a.kind == "var" and a.name not in m:
                    lo = a.lo if a.lo is not None else F(0)
                    m[a.name] = lo
            ev = T.Evaluator(m)
            # pin every input the value depends on
            vs = poly_vars(e) if isinstance(e, Poly) else bool_vars(e)
            for aid in vs:
                at = S.atoms[aid]
                ctx.add(T.cmp("eq", T.sub(T.atom_poly(at), P(m[at.name]))))
            v = ev.poly(e)
            if isinstance(e, Bool):
                return TRUE if v else FALSE
            return P(v) if isinstance(v, Fraction) else T.lift(float(v))
        symt.PIN = pin
        symt.PINVAL = pinval
        cand = None
        finished = False
        self.ctx = ctx
        self.env = env
        try:
            with fresh_module_state(), Patches(self.opts.get("patches", ())), \
                    self.opts.get("ctx", contextlib.nullcontext)(), \
                    watchdog(signal.SIGALRM, signal.ITIMER_REAL, 10.0, lambda: time.time() > self.deadline + 120):
                self.body(env, self.cfg)
            finished = True
            self.counts["paths"] += 1
        except (PathAbort, Stuck) as e:
            self.counts["aborted"] += 1
            if isinstance(e, Stuck) or str(e) == "deadline":
                self.inconclusive.append("time budget reached inside a path")
                self.unfinished(ctx, env)
            return
        except CandidateFound as c:
            cand = (c.label, c.model)
            self.counts["paths"] += 1
        except EngineUnsupported as e:
            self.counts["paths"] += 1
            self.inconclusive.append(f"unsupported: {e}")
            if os.environ.get("SYM_DEBUG"):
                traceback.print_exc()
        except RecursionError as e:
            if os.environ.get("SYM_DEBUG"):
                traceback.print_exc(limit=-14); traceback.print_exc(limit=12)
            self.counts["paths"] += 1
            self.inconclusive.append("unsupported: recursion limit")
        except Exception as e:  # raised by the code under test outside env.call
            self.counts["paths"] += 1
            if os.environ.get("SYM_DEBUG"):
                traceback.print_exc()
            r, m = solver.check(ctx.conds, 5000)
            tb = traceback.extract_tb(e.__traceback__)
            where = next((f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}" for f in reversed(tb)
                          if "torchrir" in f.filename), "")
            cand = (f"unexpected {type(e).__name__}: {e} at {where}", m or {})
            cand_exc = True
        for k, v in env.inputs.items():
            self.inputs[k] = v
        if cand is not None:
            self.try_candidate(cand, ctx, env)
            return
        # concretised / fallback work
        if finished:
            self.validate(ctx, env)
        else:
            self.fallback_runs(ctx, env)

    # -- replay
    def complete(self, model, env):
        m = {}
        for k, (kind, lo, hi) in env.inputs.items():
            v = model.get(k)
            if v is None:
                v = lo if lo is not None else (hi if hi is not None else 0)
            v = Fraction(v)
            m[k] = int(v) if kind == "int" else float(v)
        for k, v in model.items():
            if k.startswith("rand"):
                m[k] = float(v)
        return m

    def try_candidate(self, cand, ctx, env):
        label, model = cand
        tried = []
        models = []
        models.append(self.complete(model, env))
        # other, more robust points of the same path
        for seed in range(6):
            pt = self.sample_point(ctx, self.rng)
            ev = T.Evaluator(pt)
            try:
                if all(ev.bool(c) for c in ctx.conds) and ev.margin > 1e-6:
                    models.append(self.complete({k: Fraction(v) for k, v in pt.items()}, env))
            except Exception:
                pass
        def more():
            # models away from the edges of every comparison: rounding does not turn them around
            for d in (Fraction(1, 100), Fraction(1, 10000)):
                try:
                    cs = [off_edge(c, d) for c in ctx.conds + ([failed] if failed is not None else [])]
                    r, q = solver.check(cs, 3000)
                except Exception:
                    continue
                if r == "sat":
                    models.append(self.complete(q, env))
                    yield models[-1]
            if failed is not None and any(a.kind == "uf" for a in S.atoms) and self.hunts < 12:
                self.hunts += 1
                q = ctx.hunt(failed, 4.0)
                if q is not None:
                    models.append(self.complete(q, env))
                    yield models[-1]
        failed = getattr(ctx, "failed", None)
        import itertools
        for m in itertools.chain(list(models), more()):
            res = concrete_run(self.body, self.cfg, m, self.opts)
            if res["status"] == "violation":
                self.violations.append(dict(label=label, detail=res["detail"], model=m))
                return
            tried.append(res["status"])
        if os.environ.get("SYM_DEBUG"):
            print("candidates", label, models, file=sys.stderr)
        self.inconclusive.append(f"counterexample not reproduced on the real code: {label} {tried}")
        if os.environ.get("SYM_DEBUG"):
            print("NOT REPRODUCED", label, models[0], file=sys.stderr)

    def unfinished(self, ctx, env):
        """The path did not end within the budget: does the real code end there?"""
        try:
            r, m = solver.check(ctx.conds, 5000)
        except Exception:
            return
        if r != "sat":
            return
        m = self.complete(m, env)
        res = concrete_run(self.body, self.cfg, m, self.opts)
        if res["status"] == "violation":
            self.violations.append(dict(label="the code does not finish", detail=res["detail"], model=m))

    def fallback_runs(self, ctx, env):
        """The path could not be encoded.  Run the real code at points of the domain so that a
        plain failure is still seen; the case stays inconclusive."""
        for _ in range(self.opts.get("fallback_runs", 12)):
            pt = self.sample_point(ctx, self.rng)
            m = self.complete({k: Fraction(v) for k, v in pt.items()}, env)
            res = concrete_run(self.body, self.cfg, m, self.opts)
            self.counts["fallback_runs"] = self.counts.get("fallback_runs", 0) + 1
            if res["status"] == "violation":
                self.violations.append(dict(label="concrete fallback", detail=res["detail"], model=m))
                return

    def validate(self, ctx, env):
        """Push one point of this path through the real code and compare every observed value
        with the encoding."""
        if self.counts["validated"] >= self.opts.get("validate_max", 4) or not env.obs:
            return
        pt = None
        for _ in range(30):
            p = self.sample_point(ctx, self.rng)
            ev = T.Evaluator(p)
            try:
                if all(ev.bool(c) for c in ctx.conds) and ev.margin > 1e-6:
                    pt = p
                    break
            except Exception:
                break
        if pt is None:
            r, m = solver.check(ctx.conds, 3000)
            if r == "unsat":
                return
            if r != "sat":
                self.counts["validation_skipped"] += 1
                return
            pt = dict(m)
            for a in S.atoms:
                if a.kind == "var" and a.name not in pt:
                    pt[a.name] = a.lo if a.lo is not None else Fraction(0)
        m = self.complete({k: Fraction(v) for k, v in pt.items()}, env)
        for k, (kind, lo, hi) in env.inputs.items():
            pt[k] = Fraction(m[k])
        ev = T.Evaluator(pt)
        expected = []
        try:
            if not all(ev.bool(c) for c in ctx.conds):      # realised only by the solver's reading of sin, cos, exp, ...
                self.counts["validation_skipped"] += 1
                return
        except Exception:
            pass
        ev = T.Evaluator(pt)
        try:
            for lab, x in env.obs:
                es, sh = _entries(x)
                expected.append((lab, sh, [ev.poly(e) for e in es]))
        except (T.EvalFail, OverflowError, ValueError, EngineUnsupported):
            self.counts["validation_skipped"] += 1
            return
        if ev.margin < 1e-7:
            self.counts["validation_skipped"] += 1
            return
        un = {i for i, a in enumerate(S.atoms) if a.kind == "var" and a.name.startswith("uninit")}
        if un and any(not un.isdisjoint(poly_vars(e) if isinstance(e, Poly) else bool_vars(e) if isinstance(e, Bool) else ())
                      for _l, x in env.obs for e in _entries(x)[0]):
            self.counts["validation_skipped"] += 1
            res = concrete_run(self.body, self.cfg, m, self.opts, profile=self.functions)
            if res["status"] == "violation":
                self.violations.append(dict(label="validation run", detail=res["detail"], model=m))
            return
        res = concrete_run(self.body, self.cfg, m, self.opts, profile=self.functions)
        if res["status"] == "violation":
            # all obligations held symbolically, yet the real code violates: rounding or a
            # mismatch of the encoding.  It is a real failure of the real code.
            self.violations.append(dict(label="validation run", detail=res["detail"], model=m))
            return
        if res["status"] != "ok":
            self.inconclusive.append(f"validation run ended with {res['status']}: {res.get('detail')}")
            return
        got = res["obs"]
        if len(got) != len(expected):
            self.inconclusive.append("validation: different number of observations")
            return
        for (lab, sh, vals), (lab2, x) in zip(expected, got):
            v2 = conc_flat(x)
            if len(v2) != len(vals):
                self.inconclusive.append(f"validation: {lab} has a different shape in the real run")
                return
            for a, b in zip(vals, v2):
                a, b = float(a), float(b)
                if a != a and b != b:
                    continue
                if abs(a) == T.INF or abs(b) == T.INF or a != a or b != b:
                    if a != b:
                        self.inconclusive.append(f"validation: {lab}: encoded {a}, real {b} at {m}")
                        return
                    continue
                if abs(a - b) > self.opts.get("validate_tol", 2e-5) * max(1.0, abs(a), abs(b)):
                    self.inconclusive.append(f"validation: {lab}: encoded {a}, real {b} at {m}")
                    return
        self.counts["validated"] += 1
        if len(self.samples) < 2:
            self.samples.append(dict(inputs={k: (round(v, 6) if isinstance(v, float) else v)
                                             for k, v in list(m.items())[:12]},
                                     observed=[(lab, [round(float(t), 6) for t in vals[:6]])
                                               for lab, _s, vals in expected[:3]]))


F = Fraction


class CandidateFound(BaseException):
    def __init__(self, label, model):
        self.label = label
        self.model = model


# ----------------------------------------------------------------------------- concrete env

def conc_flat(x):
    import numpy as np
    if isinstance(x, torch.Tensor):
        return [float(v) for v in x.detach().reshape(-1).to(torch.float64).tolist()]
    if isinstance(x, np.ndarray):
        return [float(v) for v in x.reshape(-1)]
    if isinstance(x, (list, tuple)):
        r = []
        for y in x:
            r.extend(conc_flat(y))
        return r
    return [float(x)]


def conc_shape(x):
    import numpy as np
    if isinstance(x, (torch.Tensor, np.ndarray)):
        return tuple(x.shape)
    if isinstance(x, (list, tuple)):
        sh = [conc_shape(y) for y in x]
        if all(s == sh[0] for s in sh):
            return (len(x),) + (sh[0] if sh else ())
        return tuple([len(x)] + sh)
    return ()


class ConcEnv:
    symbolic = False

    def __init__(self, model, cfg):
        self.m = model
        self.cfg = cfg
        self.obs = []

    def real(self, name, lo=None, hi=None):
        if name not in self.m:      # a draw the symbolic run did not reach on this path
            a = float(lo) if lo is not None else 0.0
            self.m[name] = (a + float(hi)) / 2 if hi is not None else a
        v = float(self.m[name])
        if lo is not None:
            v = max(v, float(lo))
        if hi is not None:
            v = min(v, float(hi))
        return v

    def int(self, name, lo=None, hi=None):
        return int(self.m[name]) if name in self.m else int(lo)

    def bool(self, name):
        return bool(int(self.m[name]))

    def choice(self, name, options):
        return list(options)[self.int(name, 0, 0)]

    def tensor(self, name, shape, lo=None, hi=None, dtype=torch.float64, device="cpu"):
        import itertools
        vals = []
        for pos in itertools.product(*[range(s) for s in shape]):
            n = name + "_" + "_".join(map(str, pos))
            vals.append(self.int(n, lo, hi) if not dtype.is_floating_point else self.real(n, lo, hi))
        return torch.tensor(vals, dtype=dtype).reshape(tuple(shape))

    def tensor_of(self, vals, dtype=torch.float64):
        return torch.tensor(vals, dtype=dtype)

    def assume(self, c):
        if not self._b(c):
            raise AssumeFailed()

    def lemma(self, c, label=""):
        return True

    def _b(self, c):
        if isinstance(c, torch.Tensor):
            return bool(c.all())
        return bool(c)

    def check(self, label, c):
        self.obs.append((label, c if not isinstance(c, torch.Tensor) else c))
        if not self._b(c):
            raise HarnessViolation(label)

    def eq(self, label, a, b, tol=1e-6):
        sa, sb = conc_shape(a), conc_shape(b)
        if sa != sb:
            raise HarnessViolation(f"{label}: shape {sa} != {sb}")
        self.obs.append((label + "/a", a))
        self.obs.append((label + "/b", b))
        fa, fb = conc_flat(a), conc_flat(b)
        for i, (x, y) in enumerate(zip(fa, fb)):
            if x != x and y != y:
                continue
            if x == y:
                continue
            if not abs(x - y) <= max(tol * 0.5, CONC_RTOL * max(abs(x), abs(y))):
                raise HarnessViolation(f"{label}[{i}]: {x} != {y}")

    def finite(self, label, x):
        self.obs.append((label, x))
        for i, v in enumerate(conc_flat(x)):
            if v != v or abs(v) == T.INF:
                raise HarnessViolation(f"{label}[{i}] is {v}")

    def observe(self, label, x):
        self.obs.append((label, x))

    def fail(self, label):
        raise HarnessViolation(label)

    def call(self, f, *a, **k):
        try:
            return Outcome(f(*a, **k))
        except Exception as exc:  # noqa: BLE001
            return Outcome(exc=exc)

    def sqrt(self, x): return math.sqrt(x) if x >= 0 else float("nan")
    def floor(self, x): return math.floor(x)
    def ceil(self, x): return math.ceil(x)
    def sinc(self, x): return T._np_sinc(x)
    def cos(self, x): return math.cos(x)
    def sin(self, x): return math.sin(x)
    def exp(self, x): return math.exp(x)
    def ite(self, c, a, b): return a if self._b(c) else b
    def And(self, *cs): return all(self._b(c) for c in cs)
    def Or(self, *cs): return any(self._b(c) for c in cs)
    def Not(self, c): return not self._b(c)
    def Implies(self, a, b): return (not self._b(a)) or self._b(b)
    def Iff(self, a, b): return self._b(a) == self._b(b)
    def sum(self, xs): return sum(xs)
    def truth(self, c): return self._b(c)

    def isfinite(self, x):
        return all(v == v and abs(v) != T.INF for v in conc_flat(x))

    def close(self, a, b, tol=1e-6):
        if conc_shape(a) != conc_shape(b):
            return False
        return all(abs(x - y) <= max(tol, CONC_RTOL * max(abs(x), abs(y)))
                   for x, y in zip(conc_flat(a), conc_flat(b)))


CONC_RTOL = 1e-6


def concrete_run(body, cfg, model, opts, profile=None):
    """Run the harness on the unpatched code."""
    env = ConcEnv(model, cfg)
    st = dict(status="ok", detail=None, obs=env.obs)
    prof = None
    if profile is not None:
        def prof(frame, event, arg):
            if event == "call":
                fn = frame.f_code.co_filename
                if "/torchrir/" in fn and "/verif/" not in fn:
                    profile.add(fn.split("/torchrir/", 1)[1].rsplit(".py", 1)[0].replace("/", ".")
                                + ":" + frame.f_code.co_name)
    try:
        with fresh_module_state(), contextlib.ExitStack() as es:
            symt._RNG["n"] = 0
            symt._RNG["gens"].clear()
            if any(str(k).startswith("rand") for k in model):
                es.enter_context(symt.RandMode(model))
            cp = opts.get("ctx")
            if cp:
                es.enter_context(cp())
            cp = opts.get("concrete_ctx")
            if cp:
                es.enter_context(cp())
            if prof:
                sys.setprofile(prof)
            try:
                with watchdog(signal.SIGVTALRM, signal.ITIMER_VIRTUAL, FINISH_S):
                    body(env, cfg)
            finally:
                if prof:
                    sys.setprofile(None)
    except Stuck:
        st.update(status="violation", detail=f"the code does not finish within {FINISH_S:.0f} s of processor time")
    except HarnessViolation as e:
        st.update(status="violation", detail=str(e))
    except AssumeFailed:
        st.update(status="assumption failed")
    except Exception as e:  # the code under test failed unexpectedly
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}" for f in reversed(tb)
                      if "torchrir" in f.filename), None)
        if where is None:
            st.update(status="harness error", detail=f"{type(e).__name__}: {e}")
        else:
            st.update(status="violation", detail=f"unexpected {type(e).__name__}: {e} ({where})")
    return st
