"""SymTensor: a torch.Tensor subclass whose elements are terms.

The tensor carries an int64 *handle* tensor (indices into the term table).  Data movement
ATen ops run on the handles themselves, so views, aliasing and in-place writes behave exactly
as in torch; arithmetic ops are interpreted element by element.
"""
from __future__ import annotations

import itertools
import math
import sys
from fractions import Fraction

import torch
import torch.fx.experimental.symbolic_shapes  # noqa: F401  (imports sympy, which must not load while math is patched)
from torch.utils._python_dispatch import TorchDispatchMode

from . import terms as T
from .terms import Poly, Special, Bool, EngineUnsupported, P, TRUE, FALSE, S

aten = torch.ops.aten


class Spec:
    """k-th real-FFT bin of a real vector (its coefficient vector of length n)."""
    __slots__ = ("vec", "k")

    def __init__(self, vec, k):
        self.vec = vec
        self.k = k


class SpecVec:
    __slots__ = ("c", "muls")

    def __init__(self, c):
        self.c = c          # tuple of entries
        self.muls = {}


_const_h = {}
UNSUPPORTED = {}     # op name -> count of concretised uses
CONCRETISED = [0]


def reset():
    _const_h.clear()
    T.reset_store()


def H(e):
    """entry -> handle"""
    if isinstance(e, Poly) and e.is_const():
        k = e.const()
        h = _const_h.get(k)
        if h is None:
            h = len(S.entries)
            S.entries.append(e)
            _const_h[k] = h
        return h
    if e is TRUE or e is FALSE:
        h = _const_h.get(e)
        if h is None:
            h = len(S.entries)
            S.entries.append(e)
            _const_h[e] = h
        return h
    S.entries.append(e)
    return len(S.entries) - 1


def is_const_entry(e):
    return (isinstance(e, Poly) and e.is_const()) or isinstance(e, Special) or (
        isinstance(e, Bool) and e.op == "const")


def const_val(e):
    if isinstance(e, Poly):
        return e.const()
    if isinstance(e, Special):
        return e.v
    return e.args[0]


_RT = torch.tensor
_nomode = torch.utils._python_dispatch._disable_current_modes


def HL(t):
    """flat list of handles"""
    with _nomode():
        return t.h.reshape(-1).tolist()


CPU = torch.device("cpu")


class SymTensor(torch.Tensor):
    @staticmethod
    def __new__(cls, h, dtype, device="cpu", g=None):
        lab = None
        if device != "cpu":
            # the storage always lives on the CPU; other devices are a label
            lab = torch.device(device) if isinstance(device, str) else device
            if lab.type == "cpu":
                lab = None
        r = torch.Tensor._make_wrapper_subclass(
            cls, h.shape, strides=h.stride(), storage_offset=0,
            dtype=dtype, device="cpu", requires_grad=False)
        r.lab = lab
        r.h = h
        r.g = g          # optional guard handles (presence condition per element)
        return r

    __torch_function__ = torch._C._disabled_torch_function_impl

    @property
    def device(self):
        return CPU if self.lab is None else self.lab

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})

    def resolved(self):
        """a data-dependent selection with its presence conditions decided"""
        if self.g is None:
            return self
        if self.g.dim() != 1 or self.g.shape != self.h.shape:
            raise EngineUnsupported("a data-dependent selection of rows")
        with _nomode():
            keep = [i for i, gj in enumerate(self.g.tolist()) if T.branch(S.entries[gj])]
            h = self.h[_T(keep, dtype=torch.int64)]
        return SymTensor(h, self.dtype, self.device)

    def numel(self):
        if self.g is not None and sys._getframe(1).f_globals.get("__name__", "").startswith("torchrir"):
            return torch.Tensor.numel(self.resolved())
        return torch.Tensor.numel(self)

    def __len__(self):
        if self.g is not None and sys._getframe(1).f_globals.get("__name__", "").startswith("torchrir"):
            return len(self.resolved())
        return torch.Tensor.__len__(self)

    # ---- python scalar boundary
    def item(self):
        if self.numel() != 1:
            raise RuntimeError(
                f"a Tensor with {self.numel()} elements cannot be converted to Scalar")
        return to_py(S.entries[HL(self)[0]], self.dtype)

    def tolist(self):
        def rec(x):
            if not isinstance(x, list):
                return to_py(S.entries[x], self.dtype)
            return [rec(y) for y in x]
        with _nomode():
            hs = self.h.tolist()
        return rec(hs)

    def __bool__(self):
        if self.numel() != 1:
            raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        return T.branch(T.tobool(S.entries[HL(self)[0]]))

    def __float__(self):
        v = self.item()
        return float(v)

    def __int__(self):
        return int(self.item())

    def __index__(self):
        return self.item().__index__()

    def __format__(self, spec):
        if self.dim() == 0:
            return format(self.item(), spec)
        return object.__format__(self, "") if not spec else "<symtensor>"

    def __repr__(self):
        return f"SymTensor(shape={tuple(self.shape)}, dtype={self.dtype})"

    __str__ = __repr__

    def numpy(self, *a, **k):
        import numpy as np
        flat = [to_py(S.entries[int(x)], self.dtype) for x in HL(self)]
        if all(not isinstance(x, (SymNum, SymBool)) for x in flat):
            return np.array(flat, dtype=_np_dtype(self.dtype)).reshape(tuple(self.shape))
        out = np.empty((len(flat),), dtype=object)
        for i, x in enumerate(flat):
            out[i] = x
        return out.reshape(tuple(self.shape))

    def __array__(self, dtype=None, **k):
        return self.numpy()

    def __getitem__(self, idx):
        return torch.Tensor.__getitem__(self, _conc_index(idx))

    def __setitem__(self, idx, v):
        if isinstance(v, (SymNum, SymBool)):
            v = scalar_tensor(v, dtype=self.dtype)
        with torch.no_grad():
            return torch.Tensor.__setitem__(self, _conc_index(idx), v)

    def __deepcopy__(self, memo):
        return self.clone()

    def __reduce_ex__(self, proto):
        raise EngineUnsupported("pickle of a symbolic tensor")

    def data_ptr(self):
        return self.h.data_ptr()

    def type(self, dtype=None, **k):
        if dtype is None:
            return "torch.SymTensor"
        return self.to(dtype)


def _np_dtype(dt):
    import numpy as np
    return {torch.bool: np.bool_, torch.int64: np.int64, torch.int32: np.int32,
            torch.float32: np.float32, torch.float64: np.float64}.get(dt, np.float64)


def _conc_index(idx):
    if isinstance(idx, SymNum):
        return idx.__index__()
    if isinstance(idx, slice):
        return slice(*(x.__index__() if isinstance(x, SymNum) else x
                       for x in (idx.start, idx.stop, idx.step)))
    if isinstance(idx, tuple):
        return tuple(_conc_index(i) for i in idx)
    if isinstance(idx, list) and any(isinstance(i, SymNum) for i in idx):
        return [_conc_index(i) for i in idx]
    return idx


def to_py(e, dtype=None):
    """entry -> python value (SymNum/SymBool when not constant)."""
    if isinstance(e, Special):
        return e.v
    if isinstance(e, Bool):
        return e.args[0] if e.op == "const" else SymBool(e)
    if isinstance(e, Poly):
        isint = dtype is not None and not dtype.is_floating_point and dtype is not torch.bool
        if e.is_const():
            c = e.const()
            if isint:
                return int(c)
            return ExactFloat(c)
        return SymNum(e, isint)
    raise EngineUnsupported("complex entry as scalar")


class ExactFloat(float):
    """A python float that remembers the exact rational it stands for."""
    def __new__(cls, c):
        r = float.__new__(cls, float(c))
        r.exact = c
        T.S.constcache.setdefault(float(c), c)
        return r

    def __reduce__(self):
        return (float, (float(self),))


def entry_of(v):
    """python value -> entry"""
    if isinstance(v, (SymNum, SymBool)):
        return v.e
    if isinstance(v, (Poly, Special, Bool)):
        return v
    if isinstance(v, SymTensor):
        return S.entries[HL(v)[0]]
    if isinstance(v, torch.Tensor):
        return T.lift(v.item())
    if isinstance(v, (bool, int, float, Fraction)):
        return T.lift(v) if not isinstance(v, Fraction) else P(v)
    try:
        import numpy as np
        if isinstance(v, np.generic):
            return T.lift(v.item())
    except ImportError:
        pass
    raise EngineUnsupported(f"value {type(v)}")


def cast_entry(e, dtype):
    """dtype conversion of an entry."""
    if dtype is torch.bool:
        return T.tobool(e)
    if isinstance(e, Bool):
        return T.ind(e)
    if dtype.is_floating_point or dtype.is_complex:
        return e
    if isinstance(e, Special):
        return P(-(2 ** 63))
    return T.ptrunc(e)


def mk(entries, shape, dtype, device="cpu", g=None):
    with _nomode():
        h = _RT([H(e) for e in entries], dtype=torch.int64).reshape(tuple(shape))
    return SymTensor(h, dtype, device, g)


def _T(x, dtype=None):
    """a real tensor, even while torch.tensor is replaced and the mode is active"""
    with _nomode():
        return _RT(x, dtype=dtype)


def scalar_tensor(v, dtype=None, device="cpu"):
    e = entry_of(v)
    if dtype is None:
        if isinstance(e, Bool):
            dtype = torch.bool
        elif isinstance(v, SymNum) and v.isint:
            dtype = torch.int64
        else:
            dtype = torch.get_default_dtype()
    return mk([cast_entry(e, dtype)], (), dtype, device)


def build_tensor(data, dtype=None, device="cpu"):
    """torch.tensor replacement for nested lists holding symbolic values."""
    shape = []
    flat = []

    def rec(x, d):
        if isinstance(x, SymTensor) and x.dim() > 0:
            x = [x[i] for i in range(x.shape[0])]
        if not isinstance(x, (list, tuple, torch.Tensor, SymNum, SymBool, int, float)):
            try:
                import numpy as np
                if isinstance(x, np.ndarray):
                    x = list(x) if x.ndim else x.item()
                elif isinstance(x, np.generic):
                    x = x.item()
            except ImportError:
                pass
        if isinstance(x, (list, tuple)):
            if len(shape) == d:
                shape.append(len(x))
            elif shape[d] != len(x):
                raise ValueError("expected sequence of equal length")
            for y in x:
                rec(y, d + 1)
        else:
            flat.append(x)
    rec(data, 0)
    es = [entry_of(x) for x in flat]
    if dtype is None:
        if all(isinstance(e, Bool) for e in es) and es:
            dtype = torch.bool
        elif es and all((isinstance(x, int) or (isinstance(x, SymNum) and x.isint)
                         or (isinstance(x, torch.Tensor) and not x.dtype.is_floating_point)
                         ) for x in flat):
            dtype = torch.int64
        else:
            dtype = torch.get_default_dtype()
    es = [cast_entry(e, dtype) for e in es]
    return mk(es, shape, dtype, device or "cpu")


# --------------------------------------------------------------------------- python scalars

def concretize_int(e, what="size"):
    """Fork over the feasible integer values of e."""
    if e.is_const():
        return int(e.const())
    return CONCRETIZE(e, what)


def CONCRETIZE(e, what):      # installed by explore.py
    raise EngineUnsupported("concretisation outside exploration")


def _num(v):
    if isinstance(v, (SymNum,)):
        return v.e, v.isint
    if isinstance(v, SymBool):
        return T.ind(v.e), True
    if isinstance(v, bool):
        return P(int(v)), True
    if isinstance(v, int):
        return P(v), True
    if isinstance(v, (float, Fraction)):
        return T.lift(v) if isinstance(v, float) else P(v), False
    try:
        import numpy as np
        if isinstance(v, np.generic):
            x = v.item()
            return T.lift(x), isinstance(x, int)
    except ImportError:
        pass
    return None


def wrap_num(e, isint):
    if isinstance(e, Special):
        return e.v
    if e.is_const():
        return int(e.const()) if isint else ExactFloat(e.const())
    return SymNum(e, isint)


def wrap_bool(b):
    return b.args[0] if b.op == "const" else SymBool(b)


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return T.branch(self.e)

    def __repr__(self):
        return f"SymBool({T.showb(self.e)})"

    def __and__(self, o):
        return wrap_bool(T.band(self.e, entry_bool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return wrap_bool(T.bor(self.e, entry_bool(o)))
    __ror__ = __or__

    def __invert__(self):
        return wrap_bool(T.bnot(self.e))

    def logical_not(self):
        return ~self

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return wrap_bool(T.eq(self.e, entry_bool(o)))
        return NotImplemented

    def __hash__(self):
        return hash(self.e)

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __add__(self, o):
        return SymNum(T.ind(self.e), True) + o
    __radd__ = __add__

    def __mul__(self, o):
        return SymNum(T.ind(self.e), True) * o
    __rmul__ = __mul__

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        return scalar_torch_function(func, args, kwargs or {})


def entry_bool(o):
    e = entry_of(o)
    return T.tobool(e)


class SymNum:
    """Symbolic python int/float."""
    __slots__ = ("e", "isint")

    def __init__(self, e, isint=False):
        self.e = e
        self.isint = isint

    def __repr__(self):
        return f"<sym {T.show(self.e, 1)}>"

    def __format__(self, spec):
        return "<sym>"

    def _bin(self, o, f, rev=False, forcefloat=False):
        n = _num(o)
        if n is None:
            return NotImplemented
        a, b = (n[0], self.e) if rev else (self.e, n[0])
        return wrap_num(f(a, b), self.isint and n[1] and not forcefloat)

    def __add__(self, o): return self._bin(o, T.add)
    def __radd__(self, o): return self._bin(o, T.add, True)
    def __sub__(self, o): return self._bin(o, T.sub)
    def __rsub__(self, o): return self._bin(o, T.sub, True)
    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            return o * self.__index__()
        return self._bin(o, T.mul)

    __rmul__ = __mul__

    def __truediv__(self, o): return self._bin(o, py_div, False, True)
    def __rtruediv__(self, o): return self._bin(o, py_div, True, True)
    def __floordiv__(self, o): return self._bin(o, py_floordiv)
    def __rfloordiv__(self, o): return self._bin(o, py_floordiv, True)
    def __mod__(self, o): return self._bin(o, py_mod)
    def __rmod__(self, o): return self._bin(o, py_mod, True)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __pow__(self, o, mod=None): return self._bin(o, e_pow)
    def __rpow__(self, o): return self._bin(o, e_pow, True)
    def __neg__(self): return wrap_num(T.neg(self.e), self.isint)
    def __pos__(self): return self
    def __abs__(self): return wrap_num(T.pabs(self.e), self.isint)

    def _cmp(self, o, f):
        n = _num(o)
        if n is None:
            return NotImplemented
        return wrap_bool(f(self.e, n[0]))

    def __lt__(self, o): return self._cmp(o, T.lt)
    def __le__(self, o): return self._cmp(o, T.le)
    def __gt__(self, o): return self._cmp(o, T.gt)
    def __ge__(self, o): return self._cmp(o, T.ge)

    def __eq__(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        return wrap_bool(T.eq(self.e, n[0]))

    def __ne__(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        return wrap_bool(T.ne(self.e, n[0]))

    def __hash__(self):
        if self.isint:
            return hash(self.__index__())
        return hash(self.e)

    def __bool__(self):
        return T.branch(T.tobool(self.e))

    def __floor__(self): return wrap_num(T.pfloor(self.e), True)
    def __ceil__(self): return wrap_num(T.pceil(self.e), True)
    def __trunc__(self): return wrap_num(T.ptrunc(self.e), True)

    def __round__(self, nd=None):
        if nd is None:
            return wrap_num(T.pround(self.e), True)
        if nd == 0:
            return wrap_num(T.pround(self.e), False)
        raise EngineUnsupported("round with digits")

    def __index__(self):
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return concretize_int(self.e, "index")

    def __int__(self):
        # only reached by the builtin int() in unpatched code: concretise
        return concretize_int(T.ptrunc(self.e), "int()")

    def __float__(self):
        try:
            return float(T.Evaluator({}).poly(self.e))      # a closed term such as sqrt(3)
        except T.EvalFail:
            raise EngineUnsupported("float() of a symbolic value at a C boundary") from None

    def is_integer(self):
        return wrap_bool(T.eq(self.e, T.pfloor(self.e)))

    def bit_length(self):
        return self.__index__().bit_length()

    # numpy ufuncs on object arrays call these
    def sqrt(self): return sm_sqrt(self)
    def cos(self): return wrap_num(T.uf1("cos", self.e), False)
    def sin(self): return wrap_num(T.uf1("sin", self.e), False)
    def exp(self): return wrap_num(T.uf1("exp", self.e), False)
    def log(self): return wrap_num(T.uf1("log", self.e), False)
    def arctan2(self, o): return wrap_num(e_atan2(self.e, entry_of(o)), False)
    def floor(self): return wrap_num(T.pfloor(self.e), False)
    def ceil(self): return wrap_num(T.pceil(self.e), False)
    def rint(self): return wrap_num(T.pround(self.e), False)
    def log10(self): return wrap_num(T.uf1("log10", self.e), False)
    def tan(self): return wrap_num(T.uf1("tan", self.e), False)
    def tanh(self): return wrap_num(T.uf1("tanh", self.e), False)
    def arctan(self): return wrap_num(T.uf1("atan", self.e), False)
    def arcsin(self): return wrap_num(T.uf1("asin", self.e), False)
    def arccos(self): return wrap_num(T.uf1("acos", self.e), False)
    def fabs(self): return wrap_num(T.pabs(self.e), False)
    def square(self): return wrap_num(T.mul(self.e, self.e), self.isint)
    def deg2rad(self): return wrap_num(T.mul(self.e, P(Fraction(math.pi / 180.0))), False)
    def rad2deg(self): return wrap_num(T.mul(self.e, P(Fraction(180.0 / math.pi))), False)
    radians, degrees = deg2rad, rad2deg

    def hypot(self, o):
        b = entry_of(o)
        return wrap_num(T.sqrt(T.add(T.mul(self.e, self.e), T.mul(b, b))), False)

    def __rhypot__(self, o): return self.hypot(o)
    def conjugate(self): return self
    def item(self): return self

    @property
    def real(self): return self

    @property
    def imag(self): return 0

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        return scalar_torch_function(func, args, kwargs or {})


def py_div(a, b):
    if isinstance(b, Poly):
        z = T.cmp("eq", b)
        if z.op == "const":
            if z.args[0]:
                raise ZeroDivisionError("division by zero")
        elif T.branch(z):
            raise ZeroDivisionError("division by zero")
    return T.div(a, b)


def py_floordiv(a, b):
    return T.pfloor(py_div(a, b))


def py_mod(a, b):
    if isinstance(a, Special) or isinstance(b, Special):
        raise EngineUnsupported("mod of inf")
    return T.sub(a, T.mul(b, T.pfloor(py_div(a, b))))


def t_mod(a, b):
    """torch.remainder"""
    return T.sub(a, T.mul(b, T.pfloor(T.div(a, b))))


def e_pow(a, b):
    if isinstance(b, Poly) and b.is_const():
        c = b.const()
        if isinstance(a, Special):
            return T.lift(a.v ** float(c))
        if c.denominator == 1:
            n = int(c)
            if n >= 0:
                return T.powi(a, n)
            if a.is_const() and a.const() == 0:
                return Special(T.INF)
            return T.powi(a, n)
        if c.denominator == 2:
            r = T.sqrt(a)
            n = int(c.numerator)
            return T.powi(r, n)
    if isinstance(a, Poly) and isinstance(b, Poly):
        if a.is_const() and b.is_const():
            return P(T._snapt(float(a.const()) ** float(b.const())))
        if a.is_const() and a.const() == 1:
            return T.ONE
        if b.is_int():
            lo, hi = T.iv(b)
            if lo is not None and hi is not None and hi - lo <= 16:
                r = None
                for n in range(int(hi), int(lo) - 1, -1):
                    v = e_pow(a, P(n))
                    r = v if r is None else T.ite(T.eq(b, P(n)), v, r)
                return r
        return T.atom_poly(T.uf_atom("pow", (a, b)))
    raise EngineUnsupported("pow")


def e_atan2(a, b):
    if a.is_const() and b.is_const():
        return P(T._snapt(math.atan2(float(a.const()), float(b.const()))))
    return T.atom_poly(T.uf_atom("atan2", (a, b)))


def sm_sqrt(x):
    if isinstance(x, SymNum):
        e = x.e
        neg = T.cmp("lt", e)
        if neg.op != "const" or neg.args[0]:
            if T.branch(neg):
                raise ValueError("math domain error")
        return wrap_num(T.sqrt(e), False)
    if isinstance(x, ExactFloat) and x.exact >= 0:
        return wrap_num(T.sqrt(P(x.exact)), False) if T._isq(x.exact.numerator) is not None and \
            T._isq(x.exact.denominator) is not None else math_sqrt(x)
    return math_sqrt(x)


math_sqrt = math.sqrt


# --------------------------------------------------------------------------- torch functions
# called with a symbolic scalar argument

_SIZE_FUNCS = {
    "zeros", "ones", "empty", "randn", "rand", "view", "reshape", "expand", "repeat", "narrow",
    "roll", "unfold", "select", "chunk", "split", "tile", "eye", "randint", "hann_window",
    "rfft", "irfft", "fft", "ifft", "unflatten", "new_zeros", "new_ones", "new_empty", "topk",
    "repeat_interleave", "pad", "movedim", "transpose", "permute", "unsqueeze", "squeeze",
    "flip", "tensor_split", "diagonal", "cumsum", "sum", "resize_", "randperm", "manual_seed",
}


def scalar_torch_function(func, args, kwargs):
    name = getattr(func, "__name__", str(func))
    if name == "__get__":
        raise EngineUnsupported("attribute of symbolic scalar")

    def conc(x):
        if isinstance(x, (SymNum, SymBool)):
            return x.__index__()
        if isinstance(x, (list, tuple)):
            return type(x)(conc(y) for y in x)
        return x

    def ten(x):
        if isinstance(x, (SymNum, SymBool)):
            return scalar_tensor(x)
        if isinstance(x, (list, tuple)) and any(isinstance(y, (SymNum, SymBool)) for y in x):
            return type(x)(ten(y) for y in x)
        return x
    if name in _SIZE_FUNCS:
        return func(*conc(args), **{k: conc(v) for k, v in kwargs.items()})
    if name in ("full", "full_like", "new_full"):
        a = list(args)
        kw = dict(kwargs)
        if "fill_value" in kw:
            v = kw.pop("fill_value")
        else:
            v = a.pop(-1) if len(a) > (2 if name == "new_full" else 1) else a.pop()
        if name == "full":
            size = kw.pop("size", a[0] if a else None)
            dt = kw.get("dtype")
            t = scalar_tensor(v, dtype=dt, device=str(kw.get("device") or "cpu"))
            return t.expand(conc(size)).clone()
        base = a[0] if a else kw.pop("input", None)
        dt = kw.get("dtype") or base.dtype
        t = scalar_tensor(v, dtype=dt, device=kw.get("device") or base.device)
        size = base.shape if name == "full_like" else conc(kw.pop("size", a[1] if len(a) > 1 else None))
        return t.expand(size).clone()
    if name in ("clamp", "clip", "clamp_", "clamp_min", "clamp_max", "clamp_min_", "clamp_max_"):
        a = list(args)
        x = a[0]
        lo = kwargs.get("min", a[1] if len(a) > 1 else None)
        hi = kwargs.get("max", a[2] if len(a) > 2 else None)
        if "max" in name:
            lo, hi = None, lo if lo is not None else hi
        r = x
        # scalars do not promote within a category
        def st(v):
            if v is None or isinstance(v, torch.Tensor):
                return v
            return scalar_tensor(v, dtype=x.dtype if x.dtype.is_floating_point else None)
        if lo is not None:
            r = torch.maximum(*_prom(r, st(lo)))
        if hi is not None:
            r = torch.minimum(*_prom(r, st(hi)))
        if name.endswith("_"):
            x.copy_(r)
            return x
        return r
    if name == "linspace":
        a = list(args)
        kw = dict(kwargs)
        start = kw.pop("start", a[0] if a else None)
        end = kw.pop("end", a[1] if len(a) > 1 else None)
        steps = conc(kw.pop("steps", a[2] if len(a) > 2 else None))
        dt = kw.get("dtype") or torch.get_default_dtype()
        s, e = entry_of(start), entry_of(end)
        es = []
        for i in range(steps):
            if steps == 1:
                es.append(s)
            else:
                w = Fraction(i, steps - 1)
                es.append(T.add(T.scale(s, 1 - w), T.scale(e, w)))
        return mk(es, (steps,), dt, str(kw.get("device") or "cpu"))
    if name == "arange":
        if all((not isinstance(x, SymNum)) or x.isint for x in args):
            return func(*conc(args), **{k: conc(v) for k, v in kwargs.items()})
        a = list(args)
        if len(a) == 1:
            a = [0] + a
        step = kwargs.get("step", a[2] if len(a) > 2 else 1)
        n = concretize_int(T.pceil(T.div(T.sub(entry_of(a[1]), entry_of(a[0])), entry_of(step))),
                           "arange length")
        es = [T.add(entry_of(a[0]), T.mul(P(i), entry_of(step))) for i in range(max(0, n))]
        return mk(es, (len(es),), kwargs.get("dtype") or torch.get_default_dtype())
    if name in ("fill_", "masked_fill", "masked_fill_"):
        return func(*[ten(x) for x in args], **{k: ten(v) for k, v in kwargs.items()})
    if name in ("__setitem__",):
        x, idx, v = args
        x[_conc_index(idx)] = ten(v)
        return None
    if name in ("__getitem__",):
        return args[0][_conc_index(args[1])]
    if name in ("add", "sub", "add_", "sub_") and "alpha" in kwargs:
        al = ten(kwargs["alpha"])
        o = ten(args[1]) * al
        return func(ten(args[0]), o)
    if name == "isinf" or name == "isnan":
        return False
    # arithmetic: a python scalar does not promote the dtype within its category
    dts = [x.dtype for x in args if isinstance(x, torch.Tensor)]
    fl = next((d for d in dts if d.is_floating_point), None)

    def ten2(x):
        if isinstance(x, SymBool):
            return scalar_tensor(x)
        if isinstance(x, SymNum):
            if fl is not None:
                return scalar_tensor(x, dtype=fl)
            if x.isint and dts and not any(d is torch.bool for d in dts):
                return scalar_tensor(x, dtype=dts[0])
            return scalar_tensor(x)
        return x
    if name in ("mul", "div", "sub", "add", "__rsub__", "rsub", "__rdiv__", "__rtruediv__",
                "__rpow__", "pow", "__mul__", "lt", "gt", "le", "ge", "eq", "ne") or True:
        a2 = [ten2(x) for x in args]
        k2 = {k: ten2(v) for k, v in kwargs.items()}
        return func(*a2, **k2)


def _prom(a, b):
    dt = torch.promote_types(a.dtype, b.dtype)
    return a.to(dt), b.to(dt)


# --------------------------------------------------------------------------- dispatch

class SymMode(TorchDispatchMode):
    """Makes factories return SymTensors and routes every ATen op to the interpreter."""

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


def lift_tensor(t):
    """real tensor -> SymTensor of constants"""
    if isinstance(t, SymTensor):
        return t
    d = t.detach()
    with torch.utils._python_dispatch._disable_current_modes():
        flat = d.cpu().reshape(-1).tolist()
        f32 = t.dtype in (torch.float32, torch.float16)
        es = []
        for v in flat:
            if f32 and isinstance(v, float) and v == v and abs(v) not in (T.INF,):
                es.append(P(snap32(v)))
            else:
                es.append(T.lift(v) if not isinstance(v, complex) else _cx(v))
        h = _T([H(e) for e in es], dtype=torch.int64).reshape(d.shape)
    return SymTensor(h, t.dtype, t.device)


def _cx(v):
    raise EngineUnsupported("complex constant")


def snap32(v):
    if v == int(v):
        return Fraction(int(v))
    f = Fraction(v).limit_denominator(100000)
    if abs(float(f) - v) <= 6e-8 * max(abs(v), 1e-30):
        return f
    return Fraction(v)


def ents(t):
    if not isinstance(t, SymTensor):
        t = lift_tensor(t)
    E = S.entries
    return [E[i] for i in HL(t)]


def all_const(ts):
    E = S.entries
    for t in ts:
        if isinstance(t, SymTensor):
            if t.g is not None:
                return False
            for i in HL(t):
                if not is_const_entry(E[i]):
                    return False
    return True


def to_real(t):
    """constant SymTensor -> real tensor (float64 for floats)."""
    if not isinstance(t, SymTensor):
        return t
    es = ents(t)
    if t.dtype is torch.bool:
        v = [bool(const_val(e)) for e in es]
    elif t.dtype.is_floating_point:
        v = [float(const_val(e)) for e in es]
    else:
        v = [int(const_val(e)) for e in es]
    dt = torch.float64 if t.dtype.is_floating_point else t.dtype
    return _T(v, dtype=dt).reshape(tuple(t.shape))


def tree_map(f, x):
    if isinstance(x, (list, tuple)):
        return type(x)(tree_map(f, y) for y in x) if not hasattr(x, "_fields") else type(x)(
            *(tree_map(f, y) for y in x))
    if isinstance(x, dict):
        return {k: tree_map(f, v) for k, v in x.items()}
    return f(x)


def flat_tensors(x, out):
    if isinstance(x, torch.Tensor):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for y in x:
            flat_tensors(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            flat_tensors(y, out)
    return out


def meta_of(func, args, kwargs):
    def f(x):
        if isinstance(x, torch.Tensor):
            return torch.empty_strided(tuple(x.shape), tuple(x.stride()), dtype=x.dtype, device="meta")
        if isinstance(x, torch.device):
            return torch.device("meta")
        return x
    kw = {k: v for k, v in kwargs.items() if k not in ("generator",)}
    with torch.utils._python_dispatch._disable_current_modes():
        return func(*tree_map(f, list(args)), **tree_map(f, kw))


def bshape(ts):
    return torch.broadcast_shapes(*[t.shape for t in ts])


def bents(t, shape):
    """entries of t broadcast to shape, flattened"""
    if not isinstance(t, torch.Tensor):
        n = 1
        for s in shape:
            n *= s
        return [entry_of(t)] * n
    if not isinstance(t, SymTensor):
        t = lift_tensor(t)
    h = t.h.expand(shape) if tuple(t.h.shape) != tuple(shape) else t.h
    E = S.entries
    return [E[i] for i in h.reshape(-1).tolist()]


def dev_of(ts):
    for t in ts:
        if t.dim() > 0:
            return t.device
    return ts[0].device if ts else "cpu"


def guard_of(ts, shape):
    g = None
    for t in ts:
        if isinstance(t, SymTensor) and t.g is not None:
            tg = t.g.expand(shape)
            if g is None or torch.equal(g, tg):
                g = tg
            else:
                E = S.entries
                g = _T([H(T.band(E[a], E[b])) for a, b in
                                  zip(g.reshape(-1).tolist(), tg.reshape(-1).tolist())],
                                 dtype=torch.int64).reshape(tuple(shape))
    return g


def _num_e(e):
    return T.ind(e) if isinstance(e, Bool) else e


# elementwise interpreters: name -> f(entries..., kwargs) on already numeric entries
def _sign(e):
    if isinstance(e, Special):
        return P((e.v > 0) - (e.v < 0))
    return T.sub(T.ind(T.gt(e, T.ZERO)), T.ind(T.lt(e, T.ZERO)))


def _isfin(e):
    return bconst_fin(e)


def bconst_fin(e):
    return T.bconst(not isinstance(e, Special))


def _rsqrt(e):
    return T.div(T.ONE, T.sqrt(e))


def _deg2rad(e):
    return T.mul(e, P(Fraction(math.pi / 180.0)))


def _log1p(e):
    return T.uf1("log", T.add(T.ONE, e))


def _expm1(e):
    return T.sub(T.uf1("exp", e), T.ONE)


def _sigmoid(e):
    return T.div(T.ONE, T.add(T.ONE, T.uf1("exp", T.neg(e))))


def _rad2deg(e):
    return T.mul(e, P(Fraction(180.0 / math.pi)))


UNARY = {
    "neg": T.neg, "abs": T.pabs, "sqrt": T.sqrt, "rsqrt": _rsqrt,
    "reciprocal": lambda e: T.div(T.ONE, e),
    "floor": T.pfloor, "ceil": T.pceil, "round": T.pround,
    "trunc": lambda e: e if isinstance(e, Special) else T.ptrunc(e),
    "frac": lambda e: T.sub(e, T.ptrunc(e)),
    "exp": lambda e: T.uf1("exp", e), "log": lambda e: T.uf1("log", e),
    "log10": lambda e: T.uf1("log10", e), "log2": lambda e: T.uf1("log2", e),
    "sin": lambda e: T.uf1("sin", e), "cos": lambda e: T.uf1("cos", e),
    "tan": lambda e: T.uf1("tan", e), "sinc": lambda e: T.uf1("sinc", e),
    "special_sinc": lambda e: T.uf1("sinc", e),
    "acos": lambda e: T.uf1("acos", e), "asin": lambda e: T.uf1("asin", e),
    "atan": lambda e: T.uf1("atan", e), "tanh": lambda e: T.uf1("tanh", e),
    "sign": _sign, "sgn": _sign, "deg2rad": _deg2rad, "rad2deg": _rad2deg,
    "log1p": _log1p, "expm1": _expm1, "sigmoid": _sigmoid,
    "relu": lambda e: T.pmax(e, T.ZERO), "positive": lambda e: e, "square": lambda e: T.mul(e, e),
    "angle": None,
}
UNARY_BOOL = {
    "isnan": lambda e: T.bconst(isinstance(e, Special) and e.v != e.v),
    "isinf": lambda e: T.bconst(isinstance(e, Special) and abs(e.v) == T.INF),
    "isfinite": bconst_fin,
    "isposinf": lambda e: T.bconst(isinstance(e, Special) and e.v == T.INF),
    "isneginf": lambda e: T.bconst(isinstance(e, Special) and e.v == -T.INF),
    "logical_not": lambda e: T.bnot(T.tobool(e)),
    "signbit": lambda e: T.lt(e, T.ZERO),
}


def _fmod(a, b):
    q = T.div(a, b)
    return T.sub(a, T.mul(b, T.ptrunc(q)))


BINARY = {
    "mul": T.mul, "multiply": T.mul, "pow": e_pow, "maximum": T.pmax, "minimum": T.pmin,
    "fmax": T.pmax, "fmin": T.pmin, "remainder": t_mod, "fmod": _fmod,
    "floor_divide": lambda a, b: T.pfloor(T.div(a, b)),
    "atan2": e_atan2, "true_divide": T.div,
    "hypot": lambda a, b: T.sqrt(T.add(T.mul(a, a), T.mul(b, b))),
    "copysign": lambda a, b: T.ite(T.lt(b, T.ZERO), T.neg(T.pabs(a)), T.pabs(a)),
}
CMP = {
    "lt": T.lt, "le": T.le, "gt": T.gt, "ge": T.ge, "eq": T.eq, "ne": T.ne,
    "less": T.lt, "greater": T.gt, "less_equal": T.le, "greater_equal": T.ge,
}
LOGIC = {
    "logical_and": lambda a, b: T.band(a, b), "logical_or": lambda a, b: T.bor(a, b),
    "logical_xor": lambda a, b: T.bor(T.band(a, T.bnot(b)), T.band(b, T.bnot(a))),
}
BITS = {"bitwise_and": "logical_and", "__and__": "logical_and", "bitwise_or": "logical_or",
        "__or__": "logical_or", "bitwise_xor": "logical_xor", "__xor__": "logical_xor"}

# ops that only move data (run on the handle tensors)
MOVE = {
    "view", "_unsafe_view", "reshape", "expand", "permute", "transpose", "t", "unsqueeze",
    "squeeze", "slice", "select", "alias", "clone", "cat", "stack", "unbind", "split",
    "split_with_sizes", "chunk", "flip", "roll", "repeat", "diagonal", "unfold", "as_strided",
    "narrow", "movedim", "contiguous", "lift_fresh", "lift", "detach", "expand_as",
    "_reshape_alias", "view_as", "swapaxes", "hsplit", "flatten", "ravel", "concatenate", "concat",
    "lift_fresh_copy", "unsafe_chunk", "unsafe_split", "slice_copy", "select_copy", "hstack",
    "vstack", "mT", "numpy_T", "tile", "_reshape_copy", "view_copy", "detach_", "unsqueeze_",
    "squeeze_", "t_", "transpose_", "rot90", "fliplr", "flipud", "unflatten",
    "pin_memory", "swapdims", "tensor_split", "reshape_as", "squeeze_copy", "expand_copy", "T",
    "column_stack", "atleast_1d", "atleast_2d", "moveaxis", "swapaxes_", "narrow_copy",
    "matrix_H", "mH", "H", "resolve_neg", "resolve_conj",
}
INPLACE_META = {"unsqueeze_", "squeeze_", "t_", "transpose_", "detach_"}


def wrap_like(hres, dtype, device, gres=None):
    return SymTensor(hres, dtype, device, gres)


def opname(func):
    return func._schema.name.split("::")[-1]


def dispatch(func, args, kwargs):
    with torch.utils._python_dispatch._disable_current_modes():
        return _dispatch(func, args, kwargs)


def _dispatch(func, args, kwargs):
    ns = func._schema.name.split("::")[0]
    name = opname(func)
    if ns == "prim" or ns == "prims":
        if name == "device":
            return args[0].device
    if "out" in kwargs and kwargs["out"] is not None:
        out = kwargs["out"]
        kw = dict(kwargs)
        del kw["out"]
        base = _find_functional(func)
        r = _dispatch(base, args, kw)
        if not isinstance(out, SymTensor):
            raise EngineUnsupported("out= on a real tensor")
        if tuple(out.shape) != tuple(r.shape):
            out_h = r.h.clone()
            out.h = out_h
            raise EngineUnsupported("out= with resize")
        _copy_into(out, r)
        return out
    f = HANDLERS.get(name)
    if f is not None:
        r = f(func, name, args, kwargs)
        if r is not NotImplemented:
            return r
    if name in MOVE:
        return do_move(func, name, args, kwargs)
    if name.endswith("_") and not name.endswith("__"):
        base = name[:-1]
        if base in UNARY or base in UNARY_BOOL or base in BINARY or base in CMP or base in LOGIC \
                or base in ("add", "sub", "div", "clamp", "clamp_min", "clamp_max", "where",
                            "addcmul", "addcdiv", "lerp", "masked_fill", "cumsum", "divide",
                            "subtract", "nan_to_num", "index_add", "index_fill",
                            "scatter", "scatter_add", "tril", "triu", "addmm", "baddbmm",
                            "bitwise_and", "bitwise_or", "bitwise_not", "index_copy",
                            "masked_scatter", "scatter_reduce", "put"):
            fb = getattr(aten, base)
            ov = func._overloadname
            fn = getattr(fb, ov, None) if ov != "default" else fb.default
            if fn is not None:
                r = _dispatch(fn, args, kwargs)
                tgt = args[0]
                if not isinstance(tgt, SymTensor):
                    raise EngineUnsupported("in-place on a real tensor")
                if tuple(r.shape) != tuple(tgt.shape):
                    raise RuntimeError(
                        f"output with shape {list(tgt.shape)} doesn't match the broadcast shape "
                        f"{list(r.shape)}")
                if not torch.can_cast(r.dtype, tgt.dtype):
                    raise RuntimeError(
                        f"result type {r.dtype} can't be cast to the desired output type {tgt.dtype}")
                _copy_into(tgt, r)
                return tgt
    if name in UNARY and UNARY[name] is not None or name in UNARY_BOOL:
        return do_unary(func, name, args, kwargs)
    if name in BINARY or name in CMP or name in LOGIC or name in BITS:
        return do_binary(func, name, args, kwargs)
    ts = flat_tensors([list(args), kwargs], [])
    # constants: run the real op in float64
    if all_const(ts):
        return run_const(func, name, args, kwargs, ts)
    if func._can_decompose():
        r = func.decompose(*args, **kwargs)
        if r is not NotImplemented:
            return r
    return fallback(func, name, args, kwargs, ts)


def _find_functional(func):
    """The overload that takes the same arguments without out=."""
    packet = func._overloadpacket

    def sig(f):
        return [(a.name, str(a.type)) for a in f._schema.arguments if not a.is_out]
    want = sig(func)
    for c in packet.overloads():
        f = getattr(packet, c)
        if not any(a.is_out for a in f._schema.arguments) and sig(f) == want:
            return f
    raise EngineUnsupported("out variant of " + str(func))


def fallback(func, name, args, kwargs, ts):
    """No encoding for this op: concretise its symbolic inputs along this path (the run then
    covers only those values; reported in the evidence)."""
    UNSUPPORTED[name] = UNSUPPORTED.get(name, 0) + 1
    for t in ts:
        if isinstance(t, SymTensor):
            if t.g is not None:
                raise EngineUnsupported(f"{name} on a data-dependent selection")
            PIN(ents(t))
    ts2 = flat_tensors([list(args), kwargs], [])

    def f(x):
        if isinstance(x, SymTensor):
            es = [PINVAL(e) for e in ents(x)]
            return mk(es, x.shape, x.dtype, x.device)
        return x
    args = tree_map(f, list(args))
    kwargs = tree_map(f, kwargs)
    if name.endswith("_"):
        raise EngineUnsupported(f"in-place {name}")
    return run_const(func, name, args, kwargs, flat_tensors([args, kwargs], []))


def PIN(es):
    raise EngineUnsupported("no encoding")


def PINVAL(e):
    raise EngineUnsupported("no encoding")


def run_const(func, name, args, kwargs, ts):
    dev = dev_of(ts) if ts else kwargs.get("device") or "cpu"
    try:
        m = meta_of(func, args, kwargs)
    except NotImplementedError:
        m = None
    inplace = name.endswith("_") and not name.endswith("__")

    def f(x):
        if isinstance(x, SymTensor):
            return to_real(x)
        if isinstance(x, torch.device):
            return torch.device("cpu")
        if isinstance(x, torch.Tensor) and x.is_floating_point():
            return x.double()
        if isinstance(x, torch.dtype) and x.is_floating_point:
            return torch.float64
        return x
    kw = dict(kwargs)
    if "dtype" in kw and kw["dtype"] is None and not ts:
        pass
    r = func(*tree_map(f, list(args)), **tree_map(f, kw))

    def back(x, mm):
        if isinstance(x, torch.Tensor):
            dt = mm.dtype if isinstance(mm, torch.Tensor) else (
                x.dtype if not x.dtype.is_floating_point else _default_float(ts))
            if x.dtype.is_complex:
                raise EngineUnsupported("complex result of " + name)
            if x.dtype.is_floating_point:
                xd = x.double()
                h = _T([H(T.lift(T._snapt(v)) if v == v and abs(v) != T.INF else Special(v))
                                  for v in xd.reshape(-1).tolist()],
                                 dtype=torch.int64).reshape(tuple(x.shape))
            else:
                h = _T([H(T.lift(v)) for v in x.reshape(-1).tolist()],
                                 dtype=torch.int64).reshape(tuple(x.shape))
            return SymTensor(h, dt, dev)
        if isinstance(x, (list, tuple)):
            return type(x)(back(a, b) for a, b in zip(x, mm if mm is not None else [None] * len(x))) \
                if not hasattr(x, "_fields") else tuple(
                    back(a, b) for a, b in zip(x, mm if mm is not None else [None] * len(x)))
        return x
    if inplace:
        tgt = args[0]
        res = back(r, m)
        _copy_into(tgt, res)
        return tgt
    return back(r, m)


def _default_float(ts):
    for t in ts:
        if t.dtype.is_floating_point:
            return t.dtype
    return torch.get_default_dtype()


def _copy_into(tgt, src):
    """tgt.copy_(src) on handles with dtype conversion"""
    if not isinstance(src, SymTensor):
        src = lift_tensor(src)
    h = src.h
    if src.dtype != tgt.dtype:
        h = _T([H(cast_entry(e, tgt.dtype)) for e in ents(src)],
                         dtype=torch.int64).reshape(tuple(src.h.shape))
    if src.g is not None:
        raise EngineUnsupported("copy of a data-dependent selection")
    tgt.h.copy_(h.expand(tgt.h.shape))


def do_move(func, name, args, kwargs):
    ts = [t for t in flat_tensors([list(args), kwargs], [])]
    dev = dev_of(ts)
    dt = ts[0].dtype
    for t in ts[1:]:
        if t.dtype != dt and name in ("cat", "stack", "concatenate", "concat", "hstack", "vstack"):
            dt = torch.promote_types(dt, t.dtype)
    hasg = any(isinstance(t, SymTensor) and t.g is not None for t in ts)

    def f(x):
        if isinstance(x, torch.Tensor):
            t = lift_tensor(x)
            if t.dtype != dt and name in ("cat", "stack", "concatenate", "concat", "hstack", "vstack"):
                return _T([H(cast_entry(e, dt)) for e in ents(t)],
                                    dtype=torch.int64).reshape(tuple(t.h.shape))
            return t.h
        return x
    kw = {k: v for k, v in kwargs.items() if k not in ("dtype", "device")}
    if name in INPLACE_META:
        raise EngineUnsupported(name)
    r = func(*tree_map(f, list(args)), **tree_map(f, kw))
    rg = None
    if hasg:
        def fg(x):
            if isinstance(x, torch.Tensor):
                x = lift_tensor(x)
                if x.g is not None:
                    return x.g
                return torch.full(tuple(x.h.shape), H(TRUE), dtype=torch.int64)
            return x
        rg = func(*tree_map(fg, list(args)), **tree_map(fg, kw))

    def back(x, gg=None):
        if isinstance(x, torch.Tensor):
            return SymTensor(x, dt, dev, gg)
        if isinstance(x, (list, tuple)):
            return type(x)(back(y, gg[i] if gg is not None else None) for i, y in enumerate(x))
        return x
    return back(r, rg)


def do_unary(func, name, args, kwargs):
    x = args[0]
    m = meta_of(func, args, kwargs)
    if name in UNARY_BOOL:
        fn = UNARY_BOOL[name]
        es = [fn(e) for e in ents(x)]
    else:
        fn = UNARY[name]
        if name == "round" and (kwargs.get("decimals") or len(args) > 1 and args[1]):
            raise EngineUnsupported("round decimals")
        es = [fn(_num_e(e)) for e in ents(x)]
    return mk(es, x.shape, m.dtype, x.device, getattr(x, "g", None))


def do_binary(func, name, args, kwargs):
    m = meta_of(func, args, kwargs)
    a, b = args[0], args[1]
    ts = [t for t in (a, b) if isinstance(t, torch.Tensor)]
    if m.dtype.is_complex:
        return spec_binary(name, a, b, m)
    shape = tuple(m.shape)
    ea, eb = bents(a, shape), bents(b, shape)
    if name in CMP:
        fn = CMP[name]
        if name in ("eq", "ne"):
            es = [fn(x, y) if isinstance(x, Bool) and isinstance(y, Bool) else fn(_num_e(x), _num_e(y))
                  for x, y in zip(ea, eb)]
        else:
            es = [fn(_num_e(x), _num_e(y)) for x, y in zip(ea, eb)]
    elif name in LOGIC or name in BITS:
        if name in BITS and m.dtype is not torch.bool:
            return fallback(func, name, args, kwargs, ts) if not all_const(ts) else \
                run_const(func, name, args, kwargs, ts)
        fn = LOGIC[BITS.get(name, name)]
        es = [fn(T.tobool(x), T.tobool(y)) for x, y in zip(ea, eb)]
    else:
        fn = BINARY[name]
        if name == "mul" and m.dtype is torch.bool:
            es = [T.band(T.tobool(x), T.tobool(y)) for x, y in zip(ea, eb)]
        else:
            if name in ("remainder", "fmod", "floor_divide") and not m.dtype.is_floating_point:
                for y in eb:
                    _int_div_guard(y)
            es = [fn(_num_e(x), _num_e(y)) for x, y in zip(ea, eb)]
        if m.dtype is not torch.bool and not m.dtype.is_floating_point:
            es = [cast_entry(e, m.dtype) for e in es]
    return mk(es, shape, m.dtype, dev_of(ts), guard_of(ts, shape))


def _int_div_guard(y):
    z = T.cmp("eq", _num_e(y))
    if z.op == "const":
        if z.args[0]:
            raise RuntimeError("ZeroDivisionError")
    elif T.branch(z):
        raise RuntimeError("ZeroDivisionError")


HANDLERS = {}


def handler(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return deco


@handler("add", "sub", "rsub", "subtract")
def h_add(func, name, args, kwargs):
    m = meta_of(func, args, kwargs)
    a, b = args[0], args[1]
    alpha = kwargs.get("alpha", args[2] if len(args) > 2 else 1)
    ts = [t for t in (a, b) if isinstance(t, torch.Tensor)]
    if m.dtype.is_complex:
        return spec_binary(name, a, b, m)
    shape = tuple(m.shape)
    ea, eb = bents(a, shape), bents(b, shape)
    if name == "rsub":
        ea, eb = eb, ea
    al = entry_of(alpha)
    one = isinstance(al, Poly) and al.is_const() and al.const() == 1
    fn = T.add if name == "add" else T.sub
    if name == "rsub" and not one:
        raise EngineUnsupported("rsub alpha")
    if m.dtype is torch.bool:
        es = [T.bor(T.tobool(x), T.tobool(y)) for x, y in zip(ea, eb)]
    else:
        es = [fn(_num_e(x), _num_e(y) if one else T.mul(al, _num_e(y))) for x, y in zip(ea, eb)]
    return mk(es, shape, m.dtype, dev_of(ts), guard_of(ts, shape))


@handler("div", "divide")
def h_div(func, name, args, kwargs):
    m = meta_of(func, args, kwargs)
    a, b = args[0], args[1]
    ts = [t for t in (a, b) if isinstance(t, torch.Tensor)]
    if m.dtype.is_complex:
        return spec_binary("div", a, b, m)
    shape = tuple(m.shape)
    rm = kwargs.get("rounding_mode")
    es = []
    for x, y in zip(bents(a, shape), bents(b, shape)):
        x, y = _num_e(x), _num_e(y)
        if rm and not m.dtype.is_floating_point:
            _int_div_guard(y)
        q = T.div(x, y)
        if rm == "floor":
            q = T.pfloor(q)
        elif rm == "trunc":
            q = T.ptrunc(q)
        es.append(q)
    return mk(es, shape, m.dtype, dev_of(ts), guard_of(ts, shape))


def spec_binary(name, a, b, m):
    shape = tuple(m.shape)
    ea, eb = bents(a, shape), bents(b, shape)
    es = []
    for x, y in zip(ea, eb):
        es.append(_spec2(name, x, y))
    ts = [t for t in (a, b) if isinstance(t, torch.Tensor)]
    return mk(es, shape, m.dtype, dev_of(ts))


def _spec2(name, x, y):
    if isinstance(x, Spec) and isinstance(y, Spec):
        n = len(x.vec.c)
        if len(y.vec.c) != n or x.k != y.k:
            raise EngineUnsupported("mixing different FFT bins")
        key = (name, id(y.vec))
        got = x.vec.muls.get(key)
        if got is None:
            cx, cy = x.vec.c, y.vec.c
            if name == "mul":
                acc = [[] for _ in range(n)]
                ny = [j for j in range(n) if _nz(cy[j])]
                for j in range(n):
                    if _nz(cx[j]):
                        for k in ny:
                            acc[(j + k) % n].append(T.mul(cx[j], cy[k]))
                out = [T.psum(t) for t in acc]
            elif name == "add":
                out = [T.add(p, q) for p, q in zip(cx, cy)]
            elif name == "sub":
                out = [T.sub(p, q) for p, q in zip(cx, cy)]
            else:
                raise EngineUnsupported("FFT " + name)
            got = (SpecVec(tuple(out)), y.vec)
            x.vec.muls[key] = got
        return Spec(got[0], x.k)
    if isinstance(y, Spec) and name in ("mul",):
        x, y = y, x
    if isinstance(x, Spec) and isinstance(y, (Poly,)):
        if name not in ("mul", "div"):
            if isinstance(y, Poly) and y.is_const() and y.const() == 0 and name in ("add", "sub"):
                return x
            raise EngineUnsupported("FFT bin " + name + " scalar")
        key = (name, y)
        got = x.vec.muls.get(key)
        if got is None:
            f = T.mul if name == "mul" else T.div
            got = (SpecVec(tuple(f(p, y) for p in x.vec.c)), y)
            x.vec.muls[key] = got
        return Spec(got[0], x.k)
    if isinstance(x, Poly) and x.is_const() and x.const() == 0 and isinstance(y, Spec) and name == "add":
        return y
    raise EngineUnsupported("complex arithmetic")


def _nz(e):
    return not (isinstance(e, Poly) and not e.d)


def _mul2(x, y):
    if isinstance(x, Spec) or isinstance(y, Spec):
        return _spec2("mul", x, y)
    return T.mul(x, y)


def _sum2(es):
    if any(isinstance(e, Spec) for e in es):
        r = None
        for e in es:
            if isinstance(e, Spec) or _nz(e):
                r = e if r is None else _spec2("add", r, e)
        return r
    return T.psum(es)


@handler("_fft_c2c")
def h_c2c(func, name, args, kwargs):
    x, dims, norm, forward = args[:4]
    if len(dims) != 1:
        raise EngineUnsupported("fft mode")
    d = dims[0] % x.dim()
    h = x.h.movedim(d, -1)
    n = h.shape[-1]
    out = []
    for r in h.reshape(-1, n).tolist():
        es = [S.entries[i] for i in r]
        if forward and norm == 0 and all(isinstance(e, Poly) for e in es):
            sv = SpecVec(tuple(es))
            out.append([H(Spec(sv, k)) for k in range(n)])
        elif not forward and norm in (0, 2) and all(isinstance(e, Spec) for e in es) and all(e.vec is es[0].vec for e in es) \
                and [e.k for e in es] == list(range(n)) and len(es[0].vec.c) == n:
            out.append([H(e if norm == 2 else T.mul(P(n), e)) for e in es[0].vec.c])
        else:
            raise EngineUnsupported("fft mode")
    ho = _T(out, dtype=torch.int64).reshape(h.shape).movedim(-1, d)
    return SymTensor(ho, x.dtype, x.device)


@handler("real", "imag", "view_as_real")
def h_real(func, name, args, kwargs):
    x = args[0]
    if not x.dtype.is_complex:
        return x
    es = ents(x)
    if any(isinstance(e, Spec) for e in es):
        raise EngineUnsupported("parts of a spectrum")
    dt = {torch.complex64: torch.float32, torch.complex128: torch.float64}[x.dtype]
    if name == "real":
        return mk(es, x.shape, dt, x.device)
    if name == "imag":
        return mk([T.ZERO] * len(es), x.shape, dt, x.device)
    return mk([v for e in es for v in (e, T.ZERO)], tuple(x.shape) + (2,), dt, x.device)


@handler("_fft_r2c")
def h_r2c(func, name, args, kwargs):
    x, dims, norm, onesided = args[:4]
    if norm != 0 or len(dims) != 1:
        raise EngineUnsupported("fft mode")
    m = meta_of(func, args, kwargs)
    d = dims[0] % x.dim()
    x = lift_tensor(x)
    h = x.h.movedim(d, -1)
    n = h.shape[-1]
    rows = h.reshape(-1, n).tolist()
    nb = n // 2 + 1 if onesided else n
    out = []
    cache = {}
    for r in rows:
        key = tuple(r)
        hs = cache.get(key)
        if hs is None:
            sv = SpecVec(tuple(S.entries[i] for i in r))
            hs = [H(Spec(sv, k)) for k in range(nb)]
            cache[key] = hs
        out.append(hs)
    ho = _T(out, dtype=torch.int64).reshape(tuple(h.shape[:-1]) + (nb,)).movedim(-1, d)
    return SymTensor(ho, m.dtype, x.device)


@handler("_fft_c2r")
def h_c2r(func, name, args, kwargs):
    x, dims, norm, last = args[:4]
    if len(dims) != 1:
        raise EngineUnsupported("fft mode")
    d = dims[0] % x.dim()
    h = x.h.movedim(d, -1)
    rows = h.reshape(-1, h.shape[-1]).tolist()
    out = []
    for r in rows:
        es = [S.entries[i] for i in r]
        if not all(isinstance(e, Spec) for e in es):
            raise EngineUnsupported("irfft of a mixed spectrum")
        v = es[0].vec
        if any(e.vec is not v for e in es) or [e.k for e in es] != list(range(len(es))) \
                or len(v.c) != last or len(es) != last // 2 + 1:
            raise EngineUnsupported("irfft of a rearranged spectrum")
        sc = T.ONE
        if norm == 0:
            sc = P(last)       # unnormalised inverse
        elif norm == 2:
            sc = T.ONE
        else:
            raise EngineUnsupported("fft norm")
        out.append([H(T.mul(sc, e)) for e in v.c])
    ho = _T(out, dtype=torch.int64).reshape(tuple(h.shape[:-1]) + (last,)).movedim(-1, d)
    dt = {torch.complex64: torch.float32, torch.complex128: torch.float64}[x.dtype]
    return SymTensor(ho, dt, x.device)


@handler("_to_copy", "to", "type_as")
def h_to(func, name, args, kwargs):
    x = lift_tensor(args[0])
    if name == "to":
        return NotImplemented
    dt = kwargs.get("dtype") or x.dtype
    dev = kwargs.get("device") or x.device
    if dt == x.dtype:
        return SymTensor(x.h.clone(), dt, dev, x.g)
    if dt.is_complex:
        raise EngineUnsupported("cast to complex")
    es = [cast_entry(e, dt) for e in ents(x)]
    r = mk(es, x.shape, dt, dev, x.g)
    return r


@handler("copy_")
def h_copy_(func, name, args, kwargs):
    tgt, src = args[0], args[1]
    if not isinstance(tgt, SymTensor):
        if not isinstance(src, SymTensor):
            return func(*args, **kwargs)
        raise EngineUnsupported("copy_ into a real tensor")
    if not isinstance(src, torch.Tensor):
        src = scalar_tensor(src)
    torch.broadcast_shapes(tgt.shape, src.shape)
    try:
        torch.empty(tuple(src.shape), device="meta").expand(tuple(tgt.shape))
    except RuntimeError:
        torch.empty(tuple(tgt.shape), device="meta").copy_(torch.empty(tuple(src.shape), device="meta"))
        raise
    s = lift_tensor(src)
    # guard against overlapping views
    s = SymTensor(s.h.clone(), s.dtype, s.device, s.g)
    _copy_into(tgt, s)
    return tgt


@handler("copy")
def h_copy(func, name, args, kwargs):
    t = SymTensor(lift_tensor(args[0]).h.clone(), args[0].dtype, args[0].device)
    return h_copy_(func, name, (t, args[1]), {})


@handler("fill_", "zero_")
def h_fill_(func, name, args, kwargs):
    tgt = args[0]
    v = entry_of(args[1]) if name == "fill_" else T.ZERO
    tgt.h.fill_(H(cast_entry(v, tgt.dtype)))
    return tgt


_uninit = [0]


def factory(size, e, kwargs, dt=None, dev=None):
    dt = kwargs.get("dtype") or dt or torch.get_default_dtype()
    dev = kwargs.get("device") or dev or "cpu"
    size = [concretize_int(x.e) if isinstance(x, SymNum) else int(x) for x in size]
    if any(s < 0 for s in size):
        raise RuntimeError(f"Trying to create tensor with negative dimension {size}")
    h = torch.full(tuple(size), H(cast_entry(e, dt)), dtype=torch.int64)
    return SymTensor(h, dt, dev)


@handler("promote_types", "result_type", "can_cast", "get_default_dtype", "finfo", "iinfo")
def h_dtype_query(func, name, args, kwargs):
    if name == "result_type":
        def d(x):
            if isinstance(x, SymTensor):
                return torch.empty(tuple(x.shape), dtype=x.dtype)
            if isinstance(x, SymNum):
                return 1 if x.isint else 1.0
            return True if isinstance(x, SymBool) else x
        args = [d(x) for x in args]
    return func(*args, **kwargs)


@handler("zeros", "ones", "empty", "full", "new_zeros", "new_ones", "new_empty", "new_full",
         "zeros_like", "ones_like", "empty_like", "full_like", "scalar_tensor", "empty_strided",
         "new_empty_strided")
def h_factory(func, name, args, kwargs):
    a = list(args)
    base = None
    if name.startswith("new_") or name.endswith("_like"):
        base = a.pop(0)
    dt = base.dtype if base is not None else None
    dev = base.device if base is not None else None
    if name.endswith("_like"):
        size = base.shape
    elif name == "scalar_tensor":
        size = ()
    else:
        size = a.pop(0)
    if "full" in name or name == "scalar_tensor":
        v = a[0] if a else kwargs.get("fill_value")
        e = entry_of(v)
        if dt is None and not kwargs.get("dtype") and name == "full":
            if isinstance(v, bool):
                dt = torch.bool
            elif isinstance(v, int):
                dt = torch.int64
    elif "ones" in name:
        e = T.ONE
    elif "empty" in name:
        d = kwargs.get("dtype") or dt or torch.get_default_dtype()
        e = T.var("uninit") if d.is_floating_point else T.ZERO
    else:
        e = T.ZERO
    return factory(size, e, kwargs, dt, dev)


def _rng_key(name, gen):
    if gen is None:
        key = ("global", _RNG["n"])
        _RNG["n"] += 1
    else:
        k = id(gen)
        st = _RNG["gens"].get(k)
        if st is None or st[0] is not gen or st[1] != gen.initial_seed() or (
                st[3] is not None and not torch.equal(st[3], gen.get_state())):
            st = [gen, gen.initial_seed(), 0, None]
        key = (f"seed{st[1]}", st[2])
        # advance the real generator so that re-seeding is visible
        torch.empty(1).normal_(generator=gen) if gen.device.type == "cpu" else None
        st[2] += 1
        st[3] = gen.get_state()
        _RNG["gens"][k] = st
    kind = "n" if "n" in name.replace("uniform", "") and "rand_" not in name and name != "rand" \
        and name != "uniform_" and name != "rand_like" else "u"
    return key, kind


class RandMode(TorchDispatchMode):
    """Concrete replays: random draws take the values of the model."""

    def __init__(self, model):
        super().__init__()
        self.model = model

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = func.__name__.split(".")[0]
        if name not in ("normal_", "uniform_", "randn", "rand", "randn_like", "rand_like"):
            return func(*args, **kwargs)
        with torch.utils._python_dispatch._disable_current_modes():
            key, kind = _rng_key(name, kwargs.get("generator"))
            if name in ("normal_", "uniform_"):
                r = args[0]
            elif name.endswith("_like"):
                r = torch.empty_like(args[0], dtype=kwargs.get("dtype"))
            else:
                r = torch.empty(tuple(args[0]), dtype=kwargs.get("dtype"), device=kwargs.get("device"))
            vals = []
            for i in range(r.numel()):
                nm = f"rand{kind}_{key[0]}_{key[1]}_{i}"
                v = self.model.get(nm)
                if v is None:
                    h = (hash_str(nm) % 9973 + 0.5) / 9973
                    v = h if kind == "u" else 4 * h - 2
                vals.append(float(v))
            t = torch.tensor(vals, dtype=torch.float64).reshape(r.shape).to(r.dtype)
            if name in ("normal_", "uniform_"):
                a, b = (list(args[1:]) + [0.0, 1.0][len(args) - 1:])[:2]
                t = t * (b - a) + a if kind == "u" else t * b + a
            r.copy_(t)
            return r


def hash_str(s):
    import zlib
    return zlib.crc32(s.encode())


@handler("normal_", "uniform_", "random_", "randn", "rand", "normal", "randint", "randperm",
         "randn_like", "rand_like", "bernoulli", "multinomial")
def h_random(func, name, args, kwargs):
    if name in ("random_", "randint", "randperm", "bernoulli", "multinomial", "normal"):
        raise EngineUnsupported("random op " + name)
    key, kind = _rng_key(name, kwargs.get("generator"))
    if name in ("normal_", "uniform_"):
        x = args[0]
        size, dt, dev = x.shape, x.dtype, x.device
    elif name.endswith("_like"):
        x = args[0]
        size, dt, dev = x.shape, kwargs.get("dtype") or x.dtype, x.device
    else:
        size = args[0]
        dt = kwargs.get("dtype") or torch.get_default_dtype()
        dev = kwargs.get("device") or "cpu"
    n = 1
    for s in size:
        n *= int(s)
    es = []
    for i in range(n):
        nm = f"rand{kind}_{key[0]}_{key[1]}_{i}"
        es.append(T.var(nm, -10, 10) if kind == "n" else T.var(nm, 0, 1))
    r = mk(es, tuple(size), dt, dev)
    if name in ("normal_", "uniform_"):
        a, b = (list(args[1:]) + [0.0, 1.0][len(args) - 1:])[:2]
        if kind == "u":
            r = r * (b - a) + a
        else:
            r = r * b + a
        _copy_into(args[0], r)
        return args[0]
    return r


_RNG = {"n": 0, "gens": {}}


@handler("where")
def h_where(func, name, args, kwargs):
    if len(args) == 1:
        return NotImplemented
    m = meta_of(func, args, kwargs)
    shape = tuple(m.shape)
    c, a, b = args
    ts = [t for t in args if isinstance(t, torch.Tensor)]
    es = [T.ite(T.tobool(x), cast_entry(y, m.dtype), cast_entry(z, m.dtype))
          for x, y, z in zip(bents(c, shape), bents(a, shape), bents(b, shape))]
    return mk(es, shape, m.dtype, dev_of(ts), guard_of(ts, shape))


@handler("masked_fill")
def h_masked_fill(func, name, args, kwargs):
    x, mask, v = args
    m = meta_of(func, args[:2] + (v if isinstance(v, torch.Tensor) else v,), kwargs)
    shape = tuple(m.shape)
    es = [T.ite(T.tobool(c), cast_entry(z, m.dtype), y)
          for y, c, z in zip(bents(x, shape), bents(mask, shape), bents(v, shape))]
    return mk(es, shape, m.dtype, x.device)


@handler("clamp", "clamp_min", "clamp_max", "clip")
def h_clamp(func, name, args, kwargs):
    m = meta_of(func, args, kwargs)
    shape = tuple(m.shape)
    x = args[0]
    lo = kwargs.get("min", args[1] if len(args) > 1 else None)
    hi = kwargs.get("max", args[2] if len(args) > 2 else None)
    if name == "clamp_max":
        lo, hi = None, kwargs.get("max", args[1] if len(args) > 1 else None)
    es = [_num_e(e) for e in bents(x, shape)]
    if lo is not None:
        es = [T.pmax(a, _num_e(b)) for a, b in zip(es, bents(lo, shape))]
    if hi is not None:
        es = [T.pmin(a, _num_e(b)) for a, b in zip(es, bents(hi, shape))]
    ts = [t for t in (x, lo, hi) if isinstance(t, torch.Tensor)]
    return mk(es, shape, m.dtype, dev_of(ts), guard_of(ts, shape))


@handler("addcmul", "addcdiv", "lerp")
def h_addc(func, name, args, kwargs):
    m = meta_of(func, args, kwargs)
    shape = tuple(m.shape)
    a, b, c = (bents(t, shape) for t in args[:3])
    v = entry_of(kwargs.get("value", 1))
    if name == "addcmul":
        es = [T.add(x, T.mul(v, T.mul(y, z))) for x, y, z in zip(a, b, c)]
    elif name == "addcdiv":
        es = [T.add(x, T.mul(v, T.div(y, z))) for x, y, z in zip(a, b, c)]
    else:
        es = [T.add(x, T.mul(z, T.sub(y, x))) for x, y, z in zip(a, b, c)]
    return mk(es, shape, m.dtype, args[0].device)


@handler("nan_to_num")
def h_nan_to_num(func, name, args, kwargs):
    x = lift_tensor(args[0])
    es = []
    for e in ents(x):
        if isinstance(e, Special):
            v = e.v
            if v != v:
                e = P(kwargs.get("nan") or (args[1] if len(args) > 1 and args[1] else 0.0))
            else:
                raise EngineUnsupported("nan_to_num(inf)")
        es.append(e)
    return mk(es, x.shape, x.dtype, x.device)


@handler("bitwise_not")
def h_bnot(func, name, args, kwargs):
    x = args[0]
    if x.dtype is torch.bool:
        return mk([T.bnot(e) for e in ents(x)], x.shape, x.dtype, x.device)
    return mk([T.sub(T.neg(e), T.ONE) for e in ents(x)], x.shape, x.dtype, x.device)


# ---- reductions

def _reduce(x, dims, keepdim, fn, dtype, with_guard=None):
    x = lift_tensor(x)
    nd = x.dim()
    if dims is None or dims == []:
        dims = list(range(nd))
    if isinstance(dims, int):
        dims = [dims]
    if nd == 0:
        dims = []
    dims = [d % nd for d in dims] if nd else []
    keep = [d for d in range(nd) if d not in dims]
    h = x.h.permute(keep + dims)
    kshape = [x.shape[d] for d in keep]
    rn = 1
    for d in dims:
        rn *= x.shape[d]
    rows = h.reshape(-1, rn) if rn else h.reshape(int(_T(kshape).prod()) if kshape else 1, 0)
    grows = None
    if x.g is not None:
        if with_guard is None:
            return _reduce(x.resolved(), dims, keepdim, fn, dtype)
        grows = x.g.permute(keep + dims).reshape(-1, rn).tolist()
    E = S.entries
    out = []
    for i, r in enumerate(rows.tolist()):
        es = [E[j] for j in r]
        if grows is not None:
            es = [T.mul(T.ind(E[gj]), _num_e(e)) for e, gj in zip(es, grows[i])]
        out.append(fn(es))
    shape = kshape
    if keepdim:
        shape = [1 if d in dims else x.shape[d] for d in range(nd)]
    return mk(out, shape, dtype, x.device)


def _dims(func, args, kwargs):
    ov = func._overloadname
    d = kwargs.get("dim", None)
    k = kwargs.get("keepdim", False)
    return d, k


@handler("sum", "mean", "nansum")
def h_sum(func, name, args, kwargs):
    m = meta_of(func, args, kwargs)
    dims = args[1] if len(args) > 1 else kwargs.get("dim")
    keep = args[2] if len(args) > 2 else kwargs.get("keepdim", False)

    def f(es):
        if any(isinstance(e, Spec) for e in es) and name == "sum":
            return _sum2(es)
        r = T.psum([_num_e(e) for e in es]) if es else T.ZERO
        if name == "mean":
            return T.div(r, P(len(es))) if es else Special(float("nan"))
        return r
    return _reduce(args[0], dims, keep, f, m.dtype, with_guard=True if name == "sum" else None)


@handler("prod")
def h_prod(func, name, args, kwargs):
    m = meta_of(func, args, kwargs)
    dims = args[1] if len(args) > 1 else kwargs.get("dim")
    keep = args[2] if len(args) > 2 else kwargs.get("keepdim", False)

    def f(es):
        r = T.ONE
        for e in es:
            r = T.mul(r, _num_e(e))
        return r
    return _reduce(args[0], dims, keep, f, m.dtype)


@handler("any", "all")
def h_any(func, name, args, kwargs):
    dims = args[1] if len(args) > 1 else kwargs.get("dim")
    keep = args[2] if len(args) > 2 else kwargs.get("keepdim", False)
    f = (lambda es: T.bor(*[T.tobool(e) for e in es])) if name == "any" else (
        lambda es: T.band(*[T.tobool(e) for e in es]))
    return _reduce(args[0], dims, keep, f, torch.bool)


def _maxf(es):
    return T.maxn([_num_e(e) for e in es])


def _minf(es):
    es = [_num_e(e) for e in es]
    if len(es) > 2 and not any(isinstance(e, Special) for e in es):
        return T.neg(T.maxn([T.neg(e) for e in es]))
    r = es[0]
    for e in es[1:]:
        r = T.pmin(r, e)
    return r


def _argf(es, better):
    best, bi = _num_e(es[0]), P(0)
    for i, e in enumerate(es[1:], 1):
        e = _num_e(e)
        c = better(e, best)
        bi = T.ite(c, P(i), bi)
        best = T.ite(c, e, best)
    return bi


@handler("amax", "amin", "max", "min", "aminmax", "argmax", "argmin")
def h_max(func, name, args, kwargs):
    ov = func._overloadname
    if name in ("max", "min") and ov == "other":
        return do_binary(getattr(aten, "maximum" if name == "max" else "minimum").default,
                         "maximum" if name == "max" else "minimum", args, {})
    if name == "aminmax":
        return NotImplemented
    m = meta_of(func, args, kwargs)
    x = args[0]
    if x.numel() == 0 and name in ("max", "min") and ov == "default":
        raise RuntimeError(f"{name}(): Expected reduction dim to be specified for input.numel() == 0.")
    f = _maxf if "max" in name else _minf
    cmpf = T.gt if "max" in name else T.lt
    dims = args[1] if len(args) > 1 else kwargs.get("dim")
    keep = args[2] if len(args) > 2 else kwargs.get("keepdim", False)
    if name in ("argmax", "argmin"):
        return _reduce(x, dims, keep, lambda es: _argf(es, cmpf), torch.int64)
    if name in ("max", "min") and ov == "dim":
        v = _reduce(x, dims, keep, f, x.dtype)
        i = _reduce(x, dims, keep, lambda es: _argf(es, cmpf), torch.int64)
        return v, i
    return _reduce(x, dims, keep, f, m.dtype)


@handler("linalg_vector_norm", "norm", "linalg_norm")
def h_norm(func, name, args, kwargs):
    if name == "linalg_norm":
        return NotImplemented
    m = meta_of(func, args, kwargs)
    o = kwargs.get("ord", args[1] if len(args) > 1 else 2)
    o = 2 if o is None else o
    dims = args[2] if len(args) > 2 else kwargs.get("dim")
    keep = args[3] if len(args) > 3 else kwargs.get("keepdim", False)

    def f(es):
        if o == 2:
            return T.sqrt(T.psum([T.mul(e, e) for e in es]))
        if o == 1:
            return T.psum([T.pabs(e) for e in es])
        if o == T.INF:
            return _maxf([T.pabs(e) for e in es])
        raise EngineUnsupported("norm order")
    return _reduce(args[0], dims, keep, f, m.dtype)


@handler("block_diag")
def h_block_diag(func, name, args, kwargs):
    ts = [lift_tensor(t if t.dim() == 2 else t.reshape(1, -1)) for t in args[0]]
    R, C = sum(t.shape[0] for t in ts), sum(t.shape[1] for t in ts)
    h = torch.full((R, C), H(T.ZERO), dtype=torch.int64)
    r = c = 0
    for t in ts:
        h[r:r + t.shape[0], c:c + t.shape[1]] = t.h
        r, c = r + t.shape[0], c + t.shape[1]
    return SymTensor(h, meta_of(func, args, kwargs).dtype, ts[0].device)


@handler("diag_embed")
def h_diag_embed(func, name, args, kwargs):
    x = lift_tensor(args[0])
    m = meta_of(func, args, kwargs)
    off, d1, d2 = (list(args[1:]) + [0, -2, -1][len(args) - 1:])[:3]
    off, d1, d2 = kwargs.get("offset", off), kwargs.get("dim1", d1), kwargs.get("dim2", d2)
    h = torch.full(tuple(m.shape), H(T.ZERO), dtype=torch.int64)
    h.diagonal(off, d1, d2).copy_(x.h)
    return SymTensor(h, x.dtype, x.device)


@handler("trace")
def h_trace(func, name, args, kwargs):
    return mk([T.psum([_num_e(e) for e in ents(lift_tensor(args[0]).diagonal())])], (), args[0].dtype, args[0].device)


@handler("aminmax")
def h_aminmax(func, name, args, kwargs):
    d, k = kwargs.get("dim"), kwargs.get("keepdim", False)
    dims = None if d is None else [d]
    return (_reduce(args[0], dims, k, _minf, args[0].dtype), _reduce(args[0], dims, k, _maxf, args[0].dtype))


@handler("dist")
def h_dist(func, name, args, kwargs):
    return torch.linalg.vector_norm((args[0] - args[1]).reshape(-1), ord=args[2] if len(args) > 2 else 2)


@handler("index_fill", "index_fill_")
def h_index_fill(func, name, args, kwargs):
    x, dim, idx, v = args[:4]
    if not isinstance(x, SymTensor):
        if name.endswith("_"):
            raise EngineUnsupported("in-place on a real tensor")
        x = lift_tensor(x)
    hv = H(cast_entry(entry_of(v), x.dtype))
    idx = _const_idx(idx)
    if idx is False:
        raise EngineUnsupported("index_fill with symbolic indices")
    if name.endswith("_"):
        x.h.index_fill_(dim, idx, hv)
        return x
    return SymTensor(x.h.index_fill(dim, idx, hv), x.dtype, x.device)


@handler("cumsum", "cumprod")
def h_cum(func, name, args, kwargs):
    m = meta_of(func, args, kwargs)
    x = lift_tensor(args[0])
    d = args[1] % max(1, x.dim())
    if x.dim() == 0:
        return x.clone()
    h = x.h.movedim(d, -1)
    rows = h.reshape(-1, h.shape[-1]).tolist()
    out = []
    for r in rows:
        acc = None
        o = []
        for i in r:
            e = _num_e(S.entries[i])
            acc = e if acc is None else (T.add(acc, e) if name == "cumsum" else T.mul(acc, e))
            o.append(H(acc))
        out.append(o)
    ho = _T(out, dtype=torch.int64).reshape(tuple(h.shape)).movedim(-1, d)
    return SymTensor(ho, m.dtype, x.device)


@handler("count_nonzero")
def h_cnz(func, name, args, kwargs):
    dims = args[1] if len(args) > 1 else kwargs.get("dim")
    return _reduce(args[0], dims, False, lambda es: T.psum([T.ind(T.tobool(e)) for e in es]) if es else T.ZERO, torch.int64)


@handler("equal")
def h_equal(func, name, args, kwargs):
    a, b = args
    if tuple(a.shape) != tuple(b.shape):
        return False
    return T.branch(T.band(*[T.eq(x, y) for x, y in zip(ents(a), ents(b))]))


@handler("allclose")
def h_allclose(func, name, args, kwargs):
    a, b = args[:2]
    rtol = kwargs.get("rtol", args[2] if len(args) > 2 else 1e-5)
    atol = kwargs.get("atol", args[3] if len(args) > 3 else 1e-8)
    shape = torch.broadcast_shapes(a.shape, b.shape)
    cs = []
    for x, y in zip(bents(a, shape), bents(b, shape)):
        d = T.pabs(T.sub(x, y))
        cs.append(T.le(d, T.add(P(atol), T.mul(P(rtol), T.pabs(y)))))
    return T.branch(T.band(*cs))


@handler("isclose")
def h_isclose(func, name, args, kwargs):
    a, b = args[:2]
    rtol = kwargs.get("rtol", args[2] if len(args) > 2 else 1e-5)
    atol = kwargs.get("atol", args[3] if len(args) > 3 else 1e-8)
    shape = torch.broadcast_shapes(a.shape, b.shape)
    cs = []
    for x, y in zip(bents(a, shape), bents(b, shape)):
        d = T.pabs(T.sub(x, y))
        cs.append(T.le(d, T.add(P(atol), T.mul(P(rtol), T.pabs(y)))))
    return mk(cs, shape, torch.bool, a.device)


# ---- linear algebra

def _matmul(A, B):
    # lists of lists of entries
    n, k, mcol = len(A), len(B), len(B[0]) if B else 0
    return [[_sum2([_mul2(A[i][t], B[t][j]) for t in range(k)]) if k else T.ZERO
             for j in range(mcol)] for i in range(n)]


def _rows(t):
    es = ents(t)
    c = t.shape[-1]
    return [es[i * c:(i + 1) * c] for i in range(len(es) // c)] if c else [[] for _ in range(t.shape[0])]


@handler("mm", "dot", "mv", "bmm", "addmm", "baddbmm", "vdot")
def h_mm(func, name, args, kwargs):
    m = meta_of(func, args, kwargs)
    if m.dtype.is_complex and name not in ("mm", "bmm"):
        raise EngineUnsupported("complex matmul")
    dev = args[0].device
    if name in ("dot", "vdot"):
        e = T.psum([T.mul(x, y) for x, y in zip(ents(args[0]), ents(args[1]))])
        return mk([e], (), m.dtype, dev)
    if name == "mv":
        v = ents(args[1])
        return mk([T.psum([T.mul(x, y) for x, y in zip(r, v)]) for r in _rows(args[0])], m.shape, m.dtype, dev)
    if name == "mm":
        R = _matmul(_rows(args[0]), _rows(args[1]))
        return mk([e for r in R for e in r], m.shape, m.dtype, dev)
    if name == "bmm":
        A, B = lift_tensor(args[0]), lift_tensor(args[1])
        es = []
        for i in range(A.shape[0]):
            a = SymTensor(A.h[i], A.dtype, "cpu")
            b = SymTensor(B.h[i], B.dtype, "cpu")
            for r in _matmul(_rows(a), _rows(b)):
                es.extend(r)
        return mk(es, m.shape, m.dtype, dev)
    beta = entry_of(kwargs.get("beta", 1))
    alpha = entry_of(kwargs.get("alpha", 1))
    f = aten.mm.default if name == "addmm" else aten.bmm.default
    r = _dispatch(f, (args[1], args[2]), {})
    es = [T.add(T.mul(beta, x), T.mul(alpha, y)) for x, y in zip(bents(args[0], m.shape), ents(r))]
    return mk(es, m.shape, m.dtype, dev)


@handler("linalg_cross", "cross")
def h_cross(func, name, args, kwargs):
    if name == "cross":
        a, b = args[:2]
        dim = kwargs.get("dim", args[2] if len(args) > 2 else None)
        if dim is None:
            sh = torch.broadcast_shapes(a.shape, b.shape)
            dim = next(i for i, s in enumerate(sh) if s == 3)
    else:
        a, b = args[:2]
        dim = kwargs.get("dim", -1)
    shape = torch.broadcast_shapes(a.shape, b.shape)
    A, B = lift_tensor(a), lift_tensor(b)
    ha = A.h.expand(shape).movedim(dim, -1)
    hb = B.h.expand(shape).movedim(dim, -1)
    out = []
    for x, y in zip(ha.reshape(-1, 3).tolist(), hb.reshape(-1, 3).tolist()):
        x = [S.entries[i] for i in x]
        y = [S.entries[i] for i in y]
        out.extend([T.sub(T.mul(x[1], y[2]), T.mul(x[2], y[1])),
                    T.sub(T.mul(x[2], y[0]), T.mul(x[0], y[2])),
                    T.sub(T.mul(x[0], y[1]), T.mul(x[1], y[0]))])
    h = _T([H(e) for e in out], dtype=torch.int64).reshape(tuple(ha.shape)).movedim(-1, dim)
    return SymTensor(h, torch.promote_types(a.dtype, b.dtype), a.device)


@handler("_cdist_forward", "_euclidean_dist")
def h_cdist(func, name, args, kwargs):
    a, b = args[:2]
    m = meta_of(func, args, kwargs)
    A, B = lift_tensor(a), lift_tensor(b)
    p, q, d = a.shape[-2], b.shape[-2], a.shape[-1]
    ha = A.h.reshape(-1, p, d).tolist()
    hb = B.h.reshape(-1, q, d).tolist()
    out = []
    for x, y in zip(ha, hb):
        for r in x:
            for s in y:
                out.append(T.sqrt(T.psum([_sq(T.sub(S.entries[i], S.entries[j])) for i, j in zip(r, s)])))
    return mk(out, m.shape, m.dtype, a.device)


def _sq(e):
    return T.mul(e, e)


@handler("convolution", "_convolution")
def h_conv(func, name, args, kwargs):
    x, w, b, stride, pad, dil, transposed, outpad, groups = args[:9]
    if transposed or groups not in (1,) or x.dim() != 3:
        if not (x.dim() == 3 and not transposed):
            raise EngineUnsupported("convolution form")
    m = meta_of(func, args, kwargs)
    X, W = lift_tensor(x), lift_tensor(w)
    E = S.entries
    N, C, L = x.shape
    O, Cg, K = w.shape
    hx, hw = X.h.tolist(), W.h.tolist()
    be = ents(b) if b is not None else None
    st, pd, dl = stride[0], pad[0], dil[0]
    outL = m.shape[-1]
    es = []
    og = O // groups
    for n in range(N):
        for o in range(O):
            gi = o // og
            for i in range(outL):
                ps = [be[o]] if be else []
                for c in range(Cg):
                    for k in range(K):
                        j = i * st + k * dl - pd
                        if 0 <= j < L:
                            ps.append(T.mul(E[hx[n][gi * Cg + c][j]], E[hw[o][c][k]]))
                es.append(T.psum(ps) if ps else T.ZERO)
    return mk(es, m.shape, m.dtype, x.device)


@handler("constant_pad_nd")
def h_pad(func, name, args, kwargs):
    x = lift_tensor(args[0])
    v = args[2] if len(args) > 2 else kwargs.get("value", 0)
    h = aten.constant_pad_nd(x.h, args[1], H(cast_entry(entry_of(v), x.dtype)))
    return SymTensor(h, x.dtype, x.device)


@handler("tril", "triu")
def h_tri(func, name, args, kwargs):
    x = lift_tensor(args[0])
    k = args[1] if len(args) > 1 else 0
    ones = torch.ones(tuple(x.shape), dtype=torch.bool)
    mask = torch.tril(ones, k) if name == "tril" else torch.triu(ones, k)
    h = torch.where(mask, x.h, _T(H(cast_entry(T.ZERO, x.dtype))))
    return SymTensor(h, x.dtype, x.device)


# ---- indexing

def _const_idx(t):
    """index tensor -> real tensor or None when symbolic"""
    if t is None:
        return None
    if not isinstance(t, SymTensor):
        return t
    if t.g is None and all_const([t]):
        return to_real(t)
    return False


def _sel(cands, p, size, wrap=True, what="index"):
    """value selected at symbolic integer p; cands: list of entries"""
    lo, hi = T.iv(p)
    check_range(p, size, wrap)
    res = None
    a = max(-size if wrap else 0, int(lo) if lo is not None else -size)
    a = max(a, -size if wrap else 0)
    b = min(size - 1, int(hi) if hi is not None else size - 1)
    out = []
    num = all(not isinstance(c, Bool) for c in cands)
    if num:
        for j in range(a, b + 1):
            e = cands[j]
            c = T.eq(p, P(j))
            if c is T.FALSE:
                continue
            out.append(T.mul(T.ind(c), e))
        return T.psum(out) if out else T.ZERO
    r = FALSE
    for j in range(a, b + 1):
        r = T.bor(r, T.band(T.eq(p, P(j)), T.tobool(cands[j])))
    return r


def check_range(p, size, wrap, guard=TRUE):
    lo, hi = T.iv(p)
    mn = -size if wrap else 0
    if lo is not None and hi is not None and lo >= mn and hi <= size - 1:
        return
    bad = T.band(guard, T.bor(T.lt(p, P(mn)), T.gt(p, P(size - 1))))
    if guard is not TRUE:
        b1 = T.band(guard, T.lt(p, P(mn)))
        b2 = T.band(guard, T.gt(p, P(size - 1)))
        bad = T.bor(b1, b2)
    if bad is FALSE:
        return
    if T.branch(bad):
        raise IndexError(f"index out of range for dimension with size {size}")


@handler("take")
def h_take(func, name, args, kwargs):
    x, idx = lift_tensor(args[0]), args[1]
    ci = _const_idx(idx)
    if ci is not False:
        return SymTensor(torch.take(x.h, ci), x.dtype, x.device)
    cands = ents(x)
    cache = {}
    es = []
    for p in ents(idx):
        if p not in cache:
            cache[p] = _sel(cands, p, len(cands))
        es.append(cache[p])
    return mk(es, idx.shape, x.dtype, x.device, getattr(idx, "g", None))


@handler("index_select", "gather", "embedding")
def h_gather(func, name, args, kwargs):
    if name == "embedding":
        x, idx, d = args[0], args[1], 0
        return aten.index.Tensor(x, [idx])
    x, d, idx = lift_tensor(args[0]), args[1], args[2]
    d = d % max(1, x.dim())
    ci = _const_idx(idx)
    if ci is not False:
        f = torch.index_select if name == "index_select" else torch.gather
        return SymTensor(f(x.h, d, ci), x.dtype, x.device)
    if name == "index_select":
        sl = [slice(None)] * x.dim()
        h = x.h.movedim(d, 0)
        rest = tuple(h.shape[1:])
        cols = h.reshape(h.shape[0], -1).t().tolist()
        out = []
        for p in ents(idx):
            out.append([H(_sel([S.entries[i] for i in col], p, h.shape[0], wrap=False)) for col in cols])
        ho = _T(out, dtype=torch.int64).reshape((len(out),) + rest).movedim(0, d)
        return SymTensor(ho, x.dtype, x.device)
    es = []
    ids = lift_tensor(idx)
    for pos in itertools.product(*[range(s) for s in idx.shape]):
        p = S.entries[int(ids.h[pos])]
        col = [S.entries[int(x.h[pos[:d] + (j,) + pos[d + 1:]])] for j in range(x.shape[d])]
        es.append(_sel(col, p, x.shape[d], wrap=False))
    return mk(es, idx.shape, x.dtype, x.device, getattr(idx, "g", None))


@handler("index", "masked_select", "_unsafe_index")
def h_index(func, name, args, kwargs):
    x = lift_tensor(args[0])
    idx = [args[1]] if name == "masked_select" else list(args[1])
    if name == "masked_select":
        mk_ = args[1]
        shape = torch.broadcast_shapes(x.shape, mk_.shape)
        x = SymTensor(x.h.expand(shape), x.dtype, x.device, None if x.g is None else x.g.expand(shape))
        idx = [SymTensor(lift_tensor(mk_).h.expand(shape), torch.bool)]
    cis = [_const_idx(t) for t in idx]
    if all(c is not False for c in cis):
        h = x.h[tuple(slice(None) if c is None else c for c in cis)] if False else aten.index(x.h, cis)
        g = aten.index(x.g, cis) if x.g is not None else None
        return SymTensor(h, x.dtype, x.device, g)
    # symbolic boolean mask
    if len(idx) >= 1 and idx[0] is not None and idx[0].dtype is torch.bool and all(
            t is None for t in idx[1:]):
        mask = idx[0]
        nd = mask.dim()
        if tuple(mask.shape) != tuple(x.shape[:nd]):
            raise IndexError("The shape of the mask does not match the shape of the indexed tensor")
        me = ents(mask)
        nsym = [i for i, e in enumerate(me) if e.op != "const"]
        rows = x.h.reshape((len(me),) + tuple(x.shape[nd:]))
        if nd == x.dim() and len(nsym) > 6 or (nd == x.dim() and GUARD_ALWAYS[0]):
            keep = [i for i, e in enumerate(me) if e is not FALSE]
            h = rows[_T(keep, dtype=torch.int64)]
            g = _T([H(me[i]) for i in keep], dtype=torch.int64)
            if x.g is not None:
                raise EngineUnsupported("mask of a selection")
            return SymTensor(h, x.dtype, x.device, g)
        keep = [i for i, e in enumerate(me) if T.branch(e)]
        return SymTensor(rows[_T(keep, dtype=torch.int64)], x.dtype, x.device)
    # symbolic integer index on one dim, others None/const
    symd = [i for i, c in enumerate(cis) if c is False]
    if len(symd) == 1 and all(t is None for i, t in enumerate(idx) if i != symd[0]):
        d = symd[0]
        it = idx[d]
        h = x.h.movedim(d, 0)
        rest = tuple(h.shape[1:])
        cols = h.reshape(h.shape[0], -1).t().tolist()
        out = []
        for p in ents(it):
            out.append([H(_sel([S.entries[i] for i in col], p, h.shape[0])) for col in cols])
        n = it.dim()
        ho = _T(out, dtype=torch.int64).reshape(tuple(it.shape) + rest)
        if d:
            ho = ho.movedim(list(range(n)), list(range(d, d + n)))
        return SymTensor(ho, x.dtype, x.device)
    # several integer indices: broadcast and select over the product
    if all(t is not None and t.dtype is not torch.bool for t in idx):
        shape = torch.broadcast_shapes(*[t.shape for t in idx])
        cols = [bents(t, shape) for t in idx]
        k = len(idx)
        lead = tuple(x.shape[:k])
        rest = tuple(x.shape[k:])
        rows = x.h.reshape((-1,) + rest)
        n0 = rows.shape[0]
        flat = rows.reshape(n0, -1)
        out = []
        for ps in zip(*cols):
            lin = T.ZERO
            for p, s in zip(ps, lead):
                check_range(p, s, True)
                p = T.ite(T.lt(p, T.ZERO), T.add(p, P(s)), p)
                lin = T.add(T.mul(lin, P(s)), p)
            out.append([H(_sel([S.entries[i] for i in flat[:, c].tolist()], lin, n0))
                        for c in range(flat.shape[1])])
        ho = _T(out, dtype=torch.int64).reshape(tuple(shape) + rest)
        return SymTensor(ho, x.dtype, x.device)
    raise EngineUnsupported("symbolic indexing form")


GUARD_ALWAYS = [True]


def _scatter_1(tgt_entries, size, p, v, guard, mode):
    """update list tgt_entries at symbolic p under guard."""
    if isinstance(p, Poly) and p.is_const():
        j = int(p.const())
        if j < -size or j >= size:
            bad = guard
            if bad is TRUE or T.branch(bad):
                raise IndexError(f"index {j} is out of bounds for dimension 0 with size {size}")
            return
        cand = [(j % size if j < 0 else j, guard)]
    else:
        check_range(p, size, False, guard)
        lo, hi = T.iv(p)
        a = 0 if lo is None else max(0, int(lo))
        b = size - 1 if hi is None else min(size - 1, int(hi))
        cand = []
        for j in range(a, b + 1):
            c = T.band(guard, T.eq(p, P(j)))
            if c is not FALSE:
                cand.append((j, c))
    for j, c in cand:
        if mode == "add":
            tgt_entries[j].append(T.mul(T.ind(c), v) if c is not TRUE else v)
        else:
            old = _flush(tgt_entries[j])
            tgt_entries[j] = [v if c is TRUE else T.ite(c, v, old)]


def _flush(lst):
    if len(lst) == 1:
        return lst[0]
    if any(isinstance(x, Bool) for x in lst):
        return lst[-1]
    return T.psum(lst)


@handler("put_", "put")
def h_put(func, name, args, kwargs):
    x, idx, src = args[:3]
    acc = args[3] if len(args) > 3 else kwargs.get("accumulate", False)
    if not isinstance(x, SymTensor) and name == "put_":
        raise EngineUnsupported("put_ into a real tensor")
    y = lift_tensor(x).clone() if name == "put" or not x.is_contiguous() else x
    flat = y.view(-1)
    flat.index_put_((idx.reshape(-1),), src.reshape(-1), accumulate=bool(acc))
    if name == "put":
        return y
    if y is not x:
        x.copy_(y)
    return x


@handler("scatter_add_", "scatter_add", "scatter_", "scatter", "index_add_", "index_add",
         "index_copy_", "index_copy", "scatter_reduce_", "scatter_reduce")
def h_scatter(func, name, args, kwargs):
    inplace = name.endswith("_")
    base = name.rstrip("_")
    x, dim, idx, src = args[:4]
    alpha = kwargs.get("alpha", args[4] if len(args) > 4 and "index_add" in base else 1)
    mode = "add" if "add" in base else "set"
    if base == "scatter_reduce":
        red = args[4] if len(args) > 4 else kwargs.get("reduce")
        if red != "sum" or kwargs.get("include_self", True) is not True:
            raise EngineUnsupported("scatter_reduce mode")
        mode = "add"
    if not isinstance(x, SymTensor):
        if inplace:
            raise EngineUnsupported("scatter into a real tensor")
        x = lift_tensor(x)
    if not inplace:
        x = SymTensor(x.h.clone(), x.dtype, x.device)
    dim = dim % max(1, x.dim())
    if not isinstance(src, torch.Tensor):
        src = scalar_tensor(src, dtype=x.dtype).expand(idx.shape)
    if "index" in base:
        # idx 1-D, src matches x except dim: expand the index
        shp = [1] * src.dim()
        shp[dim] = -1
        I = lift_tensor(idx)
        idx = SymTensor(I.h.reshape(shp).expand(tuple(src.shape)), I.dtype, I.device,
                        None if I.g is None else I.g.reshape(shp).expand(tuple(src.shape)))
        if alpha != 1:
            src = src * alpha
    if mode == "add" and src.dtype != x.dtype and "index" not in base:
        raise RuntimeError("scatter(): Expected self.dtype to be equal to src.dtype")
    I, V = lift_tensor(idx), lift_tensor(src)
    if idx.numel() == 0:
        return x
    g = guard_of([I, V], tuple(I.shape)) if tuple(I.shape) == tuple(V.shape) else None
    E = S.entries
    hx = x.h.movedim(dim, -1)
    hi_ = I.h.movedim(dim, -1)
    hv = V.h.movedim(dim, -1)
    hg = g.movedim(dim, -1) if g is not None else None
    size = hx.shape[-1]
    for pos in itertools.product(*[range(s) for s in hi_.shape[:-1]]):
        row = hx[pos] if pos else hx
        lst = [[E[i]] for i in row.tolist()]
        irow = (hi_[pos] if pos else hi_).tolist()
        vrow = (hv[pos] if pos else hv).tolist()
        grow = (hg[pos] if pos else hg).tolist() if hg is not None else None
        for t in range(len(irow)):
            _scatter_1(lst, size, E[irow[t]], cast_entry(E[vrow[t]], x.dtype),
                       E[grow[t]] if grow is not None else TRUE, mode)
        new = _T([H(_flush(q)) for q in lst], dtype=torch.int64)
        row.copy_(new)
    return x


@handler("index_put_", "index_put", "_index_put_impl_", "_unsafe_index_put")
def h_index_put(func, name, args, kwargs):
    x, idx, v = args[:3]
    acc = args[3] if len(args) > 3 else kwargs.get("accumulate", False)
    inplace = name.endswith("_")
    if not isinstance(x, SymTensor):
        if inplace:
            raise EngineUnsupported("index_put into a real tensor")
        x = lift_tensor(x)
    if not inplace:
        x = SymTensor(x.h.clone(), x.dtype, x.device)
    V = lift_tensor(v)
    if V.dtype != x.dtype:
        if V.dim() == 0 or True:
            V = mk([cast_entry(e, x.dtype) for e in ents(V)], V.shape, x.dtype, x.device, V.g)
    cis = [_const_idx(t) for t in idx]
    if all(c is not False for c in cis) and V.g is None:
        if not acc:
            aten.index_put_(x.h, cis, V.h)
            return x
        pos = torch.arange(x.h.numel()).reshape(tuple(x.h.shape))
        tgt = aten.index(pos, cis)
        vals = V.h.expand(tuple(tgt.shape)).reshape(-1).tolist()
        flat = HL(x)
        lst = {}
        E = S.entries
        for t, h in zip(tgt.reshape(-1).tolist(), vals):
            lst.setdefault(t, [E[flat[t]]]).append(E[h])
        for t, q in lst.items():
            flat[t] = H(T.psum(q))
        x.h.copy_(_T(flat, dtype=torch.int64).reshape(tuple(x.h.shape)))
        return x
    # boolean mask assignment
    if idx[0] is not None and idx[0].dtype is torch.bool and all(t is None for t in idx[1:]):
        mask = lift_tensor(idx[0])
        nd = mask.dim()
        me = ents(mask)
        rest = tuple(x.shape[nd:])
        if V.numel() == 1 or (V.dim() <= len(rest) and V.g is None):
            vh = V.h.expand(rest) if rest else V.h.reshape(())
            E = S.entries
            n = len(me)
            vflat = vh.reshape(-1).tolist() if rest else [int(vh)]
            oldrows = x.h.reshape(n, -1).tolist()
            new = []
            for i in range(n):
                new.append([H(T.ite(me[i], E[b], E[a]) if not acc else
                              T.add(E[a], T.mul(T.ind(me[i]), E[b])))
                            for a, b in zip(oldrows[i], vflat)])
            x.h.copy_(_T(new, dtype=torch.int64).reshape(tuple(x.h.shape)))
            return x
        if V.g is not None and V.dim() == 1 and nd == x.dim():
            keep = [i for i, e in enumerate(me) if e is not FALSE]
            if len(keep) == V.numel():
                flat = HL(x)
                ve = ents(V)
                for i, e in zip(keep, ve):
                    old = S.entries[flat[i]]
                    flat[i] = H(T.ite(me[i], e, old) if not acc else T.add(old, T.mul(T.ind(me[i]), e)))
                x.h.copy_(_T(flat, dtype=torch.int64).reshape(tuple(x.h.shape)))
                return x
        # concretise the mask
        m2 = _T([T.branch(e) for e in me], dtype=torch.bool).reshape(tuple(mask.shape))
        return h_index_put(func, name, (x, [m2], V, acc), {})
    if all(t is not None and t.dtype is not torch.bool for t in idx):
        shape = torch.broadcast_shapes(*[t.shape for t in idx])
        k = len(idx)
        lead = tuple(x.shape[:k])
        rest = tuple(x.shape[k:])
        n0 = 1
        for s in lead:
            n0 *= s
        cols = [bents(t, shape) for t in idx]
        g = guard_of([lift_tensor(t) for t in idx] + ([V] if tuple(V.shape) == tuple(shape) else []), shape)
        gl = [S.entries[i] for i in g.reshape(-1).tolist()] if g is not None else None
        vh = V.h.expand(tuple(shape) + rest).reshape(-1, max(1, int(_T(rest).prod()) if rest else 1)).tolist()
        rows = x.h.reshape(n0, -1)
        nc = rows.shape[1]
        E = S.entries
        for c in range(nc):
            lst = [[E[i]] for i in rows[:, c].tolist()]
            for t, ps in enumerate(zip(*cols)):
                gd = gl[t] if gl is not None else TRUE
                lin = T.ZERO
                for p, s in zip(ps, lead):
                    check_range(p, s, True, gd)
                    lin = T.add(T.mul(lin, P(s)), p if (T.iv(p)[0] is not None and T.iv(p)[0] >= 0)
                                else T.ite(T.lt(p, T.ZERO), T.add(p, P(s)), p))
                _scatter_1(lst, n0, lin, E[vh[t][c]], gd, "add" if acc else "set")
            rows[:, c] = _T([H(_flush(q)) for q in lst], dtype=torch.int64)
        x.h.copy_(rows.reshape(tuple(x.h.shape)))
        return x
    raise EngineUnsupported("index_put form")


@handler("slice_scatter", "select_scatter")
def h_slice_scatter(func, name, args, kwargs):
    x, src = lift_tensor(args[0]), lift_tensor(args[1])
    h = func(x.h, src.h, *args[2:], **kwargs)
    return SymTensor(h, x.dtype, x.device)


@handler("nonzero", "argwhere")
def h_nonzero(func, name, args, kwargs):
    x = lift_tensor(args[0])
    m = _T([T.branch(T.tobool(e)) for e in ents(x)], dtype=torch.bool).reshape(tuple(x.shape))
    r = torch.nonzero(m)
    return lift_tensor(r)


@handler("_local_scalar_dense", "item")
def h_lsd(func, name, args, kwargs):
    e = ents(args[0])[0]
    if is_const_entry(e):
        v = const_val(e)
        if isinstance(v, Fraction):
            return int(v) if not args[0].dtype.is_floating_point else ExactFloat(v)
        return v
    if isinstance(e, Bool):
        return T.branch(e)
    if not args[0].dtype.is_floating_point:
        return concretize_int(e, "scalar argument")
    raise EngineUnsupported("scalar value of a symbolic tensor at a C boundary")


@handler("is_nonzero")
def h_isnz(func, name, args, kwargs):
    return T.branch(T.tobool(ents(args[0])[0]))


@handler("sort", "argsort", "topk", "median", "unique", "_unique2", "bucketize", "searchsorted",
         "unique_dim", "unique_consecutive")
def h_sort(func, name, args, kwargs):
    if name in ("bucketize", "searchsorted"):
        if name == "bucketize":
            vals, seq = args[0], args[1]
        else:
            seq, vals = args[0], args[1]
        right = kwargs.get("right", False) or kwargs.get("side") == "right"
        if seq.dim() != 1:
            return NotImplemented
        se = ents(seq)
        if not isinstance(vals, torch.Tensor):
            vals = scalar_tensor(vals)
        es = []
        for v in ents(vals):
            f = T.le if right else T.lt
            es.append(T.psum([T.ind(f(s, v)) for s in se]) if se else T.ZERO)
        return mk(es, vals.shape, torch.int64, vals.device)
    if name in ("sort", "argsort"):
        x = lift_tensor(args[0])
        if all_const([x]):
            return NotImplemented
        dim = kwargs.get("dim", -1)
        for a in args[1:]:
            if not isinstance(a, bool) and isinstance(a, int):
                dim = a
        desc = kwargs.get("descending", False)
        for a in args[1:]:
            if isinstance(a, bool):
                desc = a
        h = x.h.movedim(dim, -1)
        rows = h.reshape(-1, h.shape[-1]).tolist()
        vo, io = [], []
        for r in rows:
            order = list(range(len(r)))
            # insertion sort with forks
            out = []
            for i in order:
                e = S.entries[r[i]]
                k = len(out)
                while k > 0:
                    f = S.entries[r[out[k - 1]]]
                    if T.branch(T.gt(e, f) if desc else T.lt(e, f)):
                        k -= 1
                    else:
                        break
                out.insert(k, i)
            vo.append([r[i] for i in out])
            io.append(out)
        hv = _T(vo, dtype=torch.int64).reshape(tuple(h.shape)).movedim(-1, dim)
        ii = _T(io, dtype=torch.int64).reshape(tuple(h.shape)).movedim(-1, dim)
        I = lift_tensor(ii)
        if name == "argsort":
            return I
        return SymTensor(hv, x.dtype, x.device), I
    return NotImplemented


@handler("is_same_size", "sym_size", "sym_numel", "sym_stride")
def h_meta(func, name, args, kwargs):
    if name == "is_same_size":
        return tuple(args[0].shape) == tuple(args[1].shape)
    return NotImplemented


@handler("record_stream", "_assert_async", "set_", "resize_")
def h_none(func, name, args, kwargs):
    raise EngineUnsupported(name)


@handler("sum_to_size")
def h_s2s(func, name, args, kwargs):
    return NotImplemented


@handler("std", "var", "var_mean", "std_mean")
def h_var(func, name, args, kwargs):
    if name in ("var_mean", "std_mean"):
        return NotImplemented
    m = meta_of(func, args, kwargs)
    ov = func._overloadname
    dims = args[1] if len(args) > 1 and not isinstance(args[1], bool) else kwargs.get("dim")
    corr = kwargs.get("correction", None)
    ub = kwargs.get("unbiased", args[1] if len(args) > 1 and isinstance(args[1], bool) else True)
    if corr is None:
        corr = 1 if ub else 0
    keep = kwargs.get("keepdim", False)

    def f(es):
        n = len(es)
        mu = T.div(T.psum(es), P(n))
        v = T.div(T.psum([_sq(T.sub(e, mu)) for e in es]), P(n - corr))
        return T.sqrt(v) if name == "std" else v
    return _reduce(args[0], dims, keep, f, m.dtype)


@handler("bincount")
def h_bincount(func, name, args, kwargs):
    x = lift_tensor(args[0])
    w = args[1] if len(args) > 1 else kwargs.get("weights")
    ml = args[2] if len(args) > 2 else kwargs.get("minlength", 0)
    es = ents(x)
    if all_const([x]) and (w is None or all_const([w])):
        return NotImplemented
    # output length depends on the maximum value: concretise it
    mx = _maxf(es) if es else P(-1)
    n = max(ml, concretize_int(mx, "bincount length") + 1)
    lst = [[T.ZERO] for _ in range(n)]
    ws = ents(w) if w is not None else [T.ONE] * len(es)
    g = x.g if x.g is not None else None
    gl = [S.entries[i] for i in g.reshape(-1).tolist()] if g is not None else [TRUE] * len(es)
    for p, v, gd in zip(es, ws, gl):
        _scatter_1(lst, n, p, v, gd, "add")
    return mk([_flush(q) for q in lst], (n,), w.dtype if w is not None else torch.int64, x.device)
