"""Symbolic strings: ordinary strings whose symbolic characters are private-use placeholders, one per symbolic code
point.  Native operations (join, formatting, paths) carry the placeholders along; `wrap` turns the result back into
a SymStr, whose operations fork on what the symbolic characters are."""
import builtins
import contextlib
import io
import os
import pathlib
import re

from . import symt
from . import terms as T
from .explore import EngineUnsupported, _cond
from .symt import SymBool

BASE, TOP = 0xE000, 0xF8FF
_chars = []          # placeholder index -> SymNum code point
_names = []          # strings that hashed containers may hold

SPACES = [(9, 13), (28, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029), (0x202F, 0x202F),
          (0x205F, 0x205F), (0x3000, 0x3000)]


def fresh():
    _chars.clear()
    _names.clear()


def has_ph(s):
    return any(BASE <= ord(c) <= TOP for c in s)


def code(ch):
    """code point of one character: int or SymNum"""
    o = ord(ch)
    if BASE <= o <= TOP and o - BASE < len(_chars):
        return _chars[o - BASE]
    return o


def codes(s):
    """length and code points, for observation"""
    return [len(s)] + [code(c) for c in str.__str__(s)]


def _all(cs):
    return symt.wrap_bool(T.band(*[_cond(c) for c in cs])) if cs else True


def _any(cs):
    return symt.wrap_bool(T.bor(*[_cond(c) for c in cs])) if cs else False


def ceq(a, b):
    ca, cb = code(a), code(b)
    if isinstance(ca, int) and isinstance(cb, int):
        return ca == cb
    if ca is cb:
        return True
    return ca == cb


def in_ranges(ch, ranges):
    c = code(ch)
    if isinstance(c, int):
        return any(lo <= c <= hi for lo, hi in ranges)
    return _any([_all([c >= lo, c <= hi]) if lo != hi else c == lo for lo, hi in ranges])


def in_set(ch, chars):
    return _any([ceq(ch, x) for x in chars])


def text_eq(a, b):
    """equality of two strings as a condition (no forking)"""
    if len(a) != len(b):
        return False
    return _all([ceq(x, y) for x, y in zip(a, b)])


def lift(s):
    """the SymStr of a string that may hold placeholders"""
    if isinstance(s, SymStr):
        return s
    return SymStr(s) if isinstance(s, str) and has_ph(s) else s


def native(s):
    return "".join(list(str.__iter__(s))) if isinstance(s, SymStr) else s


def _w(s):
    return SymStr(s)


class SymStr(str):
    """a string with symbolic characters"""

    def _n(self):
        return str.__getitem__(self, slice(None)) + ""

    def __str__(self):
        return self

    def __repr__(self):
        return "SymStr(" + str.__repr__(self._n()) + ")"

    def __format__(self, spec):
        if spec:
            raise EngineUnsupported("format specification on a symbolic string")
        return self._n()

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return bool(text_eq(self._n(), native(o)))

    def __ne__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return not bool(text_eq(self._n(), native(o)))

    def __hash__(self):
        n = self._n()
        for c in _names:
            if bool(text_eq(n, native(c))):
                return str.__hash__(native(c))
        _names.append(n)
        return str.__hash__(n)

    def _lt(self, o):
        a, b = self._n(), native(o)
        for x, y in zip(a, b):
            if not bool(ceq(x, y)):
                return bool(code(x) < code(y))
        return len(a) < len(b)

    def __lt__(self, o):
        return self._lt(o)

    def __gt__(self, o):
        return not self._lt(o) and not self == o

    def __le__(self, o):
        return self._lt(o) or self == o

    def __ge__(self, o):
        return not self._lt(o)

    def __iter__(self):
        for c in self._n():
            yield lift(c)

    def __getitem__(self, i):
        return lift(self._n()[i])

    def __add__(self, o):
        return _w(self._n() + native(o)) if isinstance(o, str) else NotImplemented

    def __radd__(self, o):
        return _w(native(o) + self._n()) if isinstance(o, str) else NotImplemented

    def __mul__(self, k):
        return _w(self._n() * k)

    __rmul__ = __mul__

    def __mod__(self, args):
        if "%" in self._n():
            raise EngineUnsupported("formatting with a symbolic string")
        return self

    def __rmod__(self, o):
        return _w(native(o) % self._n())

    def __rtruediv__(self, path):
        return path / self._n() if isinstance(path, pathlib.PurePath) else NotImplemented

    # -- searching
    def _at(self, sub, i):
        n = self._n()
        if i + len(sub) > len(n) or i < 0:
            return False
        return _all([ceq(x, y) for x, y in zip(n[i:i + len(sub)], sub)])

    def _span(self, a, b):
        n = len(self)
        a = 0 if a is None else (max(0, n + a) if a < 0 else a)
        b = n if b is None else (max(0, n + b) if b < 0 else min(b, n))
        return a, b

    def find(self, sub, start=None, end=None):
        sub = native(sub)
        a, b = self._span(start, end)
        for i in range(a, b - len(sub) + 1):
            if bool(self._at(sub, i)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = native(sub)
        a, b = self._span(start, end)
        for i in range(b - len(sub), a - 1, -1):
            if bool(self._at(sub, i)):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def count(self, sub, start=None, end=None):
        sub = native(sub)
        if not sub:
            return len(self) + 1
        a, b = self._span(start, end)
        k = 0
        while a <= b - len(sub):
            if bool(self._at(sub, a)):
                k += 1
                a += len(sub)
            else:
                a += 1
        return k

    def startswith(self, p, start=None, end=None):
        s = self[slice(start, end)] if start is not None or end is not None else self
        s = lift(s)
        if isinstance(p, tuple):
            return any(s.startswith(q) for q in p)
        if not isinstance(s, SymStr):
            return str.startswith(s, p)
        return bool(s._at(native(p), 0))

    def endswith(self, p, start=None, end=None):
        s = self[slice(start, end)] if start is not None or end is not None else self
        s = lift(s)
        if isinstance(p, tuple):
            return any(s.endswith(q) for q in p)
        if not isinstance(s, SymStr):
            return str.endswith(s, p)
        return bool(s._at(native(p), len(s) - len(p)))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if p and self.endswith(p) else self

    # -- cutting
    def _test(self, chars):
        if chars is None:
            return lambda c: bool(in_ranges(c, SPACES))
        chars = native(chars)
        return lambda c: bool(in_set(c, chars))

    def lstrip(self, chars=None):
        n, t, i = self._n(), self._test(chars), 0
        while i < len(n) and t(n[i]):
            i += 1
        return lift(n[i:])

    def rstrip(self, chars=None):
        n, t = self._n(), self._test(chars)
        j = len(n)
        while j > 0 and t(n[j - 1]):
            j -= 1
        return lift(n[:j])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, "", ""
        return self[:i], sep, self[i + len(sep):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return "", "", self
        return self[:i], sep, self[i + len(sep):]

    def split(self, sep=None, maxsplit=-1):
        n, out = self._n(), []
        if sep is not None:
            sep = native(sep)
            if not sep:
                raise ValueError("empty separator")
            i = 0
            while maxsplit < 0 or len(out) < maxsplit:
                j = self.find(sep, i)
                if j < 0:
                    break
                out.append(lift(n[i:j]))
                i = j + len(sep)
            return out + [lift(n[i:])]
        sp = [None] * len(n)

        def space(i):
            if sp[i] is None:
                sp[i] = bool(in_ranges(n[i], SPACES))
            return sp[i]
        i = 0
        while True:
            while i < len(n) and space(i):
                i += 1
            if i == len(n):
                return out
            if 0 <= maxsplit <= len(out):
                return out + [lift(n[i:]).rstrip()]
            j = i
            while j < len(n) and not space(j):
                j += 1
            out.append(lift(n[i:j]))
            i = j

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        n = self._n()
        if sep is None:
            out, j = [], len(n)
            sp = lambda i: bool(in_ranges(n[i], SPACES))  # noqa: E731
            while True:
                while j > 0 and sp(j - 1):
                    j -= 1
                if j == 0:
                    return out[::-1]
                if len(out) >= maxsplit:
                    return (out + [lift(n[:j]).lstrip()])[::-1]
                i = j
                while i > 0 and not sp(i - 1):
                    i -= 1
                out.append(lift(n[i:j]))
                j = i
        sep = native(sep)
        out, j = [], len(n)
        while len(out) < maxsplit:
            i = self.rfind(sep, 0, j)
            if i < 0:
                break
            out.append(lift(n[i + len(sep):j]))
            j = i
        return (out + [lift(n[:j])])[::-1]

    def splitlines(self, keepends=False):
        n, out, i = self._n(), [], 0
        k = 0
        ends = [(10, 13), (28, 30), (0x85, 0x85), (0x2028, 0x2029)]
        while k < len(n):
            if bool(in_ranges(n[k], ends)):
                e = k + 1
                if bool(ceq(n[k], "\r")) and e < len(n) and bool(ceq(n[e], "\n")):
                    e += 1
                out.append(lift(n[i:e] if keepends else n[i:k]))
                i = k = e
            else:
                k += 1
        if i < len(n):
            out.append(lift(n[i:]))
        return out

    def replace(self, old, new, count=-1):
        old, new, n = native(old), native(new), self._n()
        if not old:
            raise EngineUnsupported("replace of an empty string")
        out, i, k = [], 0, 0
        while i < len(n):
            if (count < 0 or k < count) and bool(self._at(old, i)):
                out.append(new)
                i += len(old)
                k += 1
            else:
                out.append(n[i])
                i += 1
        return lift("".join(out))

    def join(self, xs):
        return lift(str.join(self._n(), [native(x) for x in xs]))

    # -- characters
    def isspace(self):
        return len(self) > 0 and bool(_all([in_ranges(c, SPACES) for c in self._n()]))

    def isdigit(self):
        self._ascii()
        return len(self) > 0 and bool(_all([in_ranges(c, [(48, 57)]) for c in self._n()]))

    isdecimal = isnumeric = isdigit

    def _ascii(self):
        for c in self._n():
            if not bool(in_ranges(c, [(0, 127)])):
                raise EngineUnsupported("character class of a non-ASCII symbolic character")

    def isalpha(self):
        self._ascii()
        return len(self) > 0 and bool(_all([in_ranges(c, [(65, 90), (97, 122)]) for c in self._n()]))

    def isalnum(self):
        self._ascii()
        return len(self) > 0 and bool(_all([in_ranges(c, [(48, 57), (65, 90), (97, 122)]) for c in self._n()]))

    def _case(self, lo, d):
        self._ascii()
        out = []
        for c in self._n():
            if bool(in_ranges(c, [(lo, lo + 25)])):
                out.append(symbol(code(c) + d) if not isinstance(code(c), int) else chr(ord(c) + d))
            else:
                out.append(c)
        return lift("".join(out))

    def lower(self):
        return self._case(65, 32)

    casefold = lower

    def upper(self):
        return self._case(97, -32)


def _refuse(name):
    def f(self, *a, **k):
        raise EngineUnsupported(f"str.{name} on a symbolic string")
    return f


for _m in ("capitalize center encode expandtabs format format_map isidentifier islower isprintable istitle isupper isascii ljust "
           "rjust swapcase title translate zfill").split():
    setattr(SymStr, _m, _refuse(_m))


def symbol(c):
    """placeholder character of a code point"""
    if isinstance(c, int):
        return chr(c)
    _chars.append(c)
    return chr(BASE + len(_chars) - 1)


ENDS = [(10, 13), (28, 31), (0x85, 0x85), (0x2028, 0x2029)]


def text(env, name, n, lo=9, hi=0xD7FF, exclude="", lines=False):
    """a string of n symbolic characters (line ends excluded unless lines)"""
    cs = [env.int(f"{name}_{i}", lo, hi) for i in range(n)]
    if not env.symbolic:
        s = "".join(chr(int(c)) for c in cs)
        if not lines:
            env.assume(not any(a <= ord(c) <= b for c in s for a, b in ENDS))
        env.assume(not any(c in exclude for c in s))
        return s
    s = "".join(symbol(c) for c in cs)
    for c in s:
        if not lines:
            env.assume(env.Not(in_ranges(c, ENDS)))
        if exclude:
            env.assume(env.Not(in_set(c, exclude)))
    return lift(s)


def eq(env, a, b):
    """equality of two strings as a condition"""
    if env.symbolic:
        return text_eq(native(a), native(b))
    return a == b


def register(*names):
    """strings that sets and dictionaries may hold beside a symbolic string"""
    _names.extend(names)


# ------------------------------------------------------------------ files

def resolve_path(p):
    """a path with placeholders, decided against what is on disk"""
    s = os.fspath(p)
    if not isinstance(s, str) or not has_ph(s):
        return p
    here = "/" if s.startswith("/") else "."
    for comp in s.split("/"):
        if not comp:
            continue
        if has_ph(comp):
            if bool(SymStr(comp).__contains__("/")):
                raise EngineUnsupported("a symbolic path separator")
            for e in [".", ".."] + sorted(_real_listdir(here)):
                if bool(text_eq(comp, e)):
                    comp = e
                    break
            else:
                return os.path.join(here, "\0missing".replace("\0", "-no-such-"))
        here = os.path.join(here, comp)
    return here


_real_listdir = os.listdir
_real_stat, _real_lstat, _real_open = os.stat, os.lstat, io.open


class TextFile:
    """an open text file with symbolic lines"""

    def __init__(self, lines):
        self.lines, self.i = list(lines), 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def __iter__(self):
        return self

    def __next__(self):
        if self.i >= len(self.lines):
            raise StopIteration
        self.i += 1
        return self.lines[self.i - 1]

    def readline(self, *a):
        return next(self, "")

    def readlines(self, *a):
        return list(self)

    def read(self, *a):
        if a and a[0] not in (None, -1):
            raise EngineUnsupported("partial read of a symbolic file")
        return lift("".join(native(x) for x in self))


@contextlib.contextmanager
def files(contents):
    """paths resolve symbolic components; `contents` maps real paths to lists of symbolic lines"""
    contents = {os.path.realpath(k): v for k, v in contents.items()}

    def op(f, mode="r", *a, **k):
        if isinstance(f, (str, os.PathLike)):
            f = resolve_path(f)
            c = contents.get(os.path.realpath(f))
            if c is not None:
                if "b" in mode or "w" in mode or "+" in mode:
                    raise EngineUnsupported("binary access to a symbolic file")
                return TextFile(c)
        return _real_open(f, mode, *a, **k)

    def refuse(real):
        def f(pat, s, *a, **k):
            if isinstance(s, str) and has_ph(s):
                raise EngineUnsupported("regular expression on a symbolic string")
            return real(pat, s, *a, **k)
        return f

    saved = [(os, "stat", _real_stat), (os, "lstat", _real_lstat), (io, "open", _real_open), (builtins, "open", builtins.open)]
    saved += [(re, n, getattr(re, n)) for n in ("match", "search", "fullmatch", "split", "findall", "finditer", "sub", "compile")]
    rc = re.compile

    class Pattern:
        def __init__(self, *a):
            self.r = rc(*a)

        def __getattr__(self, n):
            v = getattr(self.r, n)
            if not callable(v):
                return v

            def f(*a, **k):
                if any(isinstance(x, str) and has_ph(x) for x in a):
                    raise EngineUnsupported("regular expression on a symbolic string")
                return v(*a, **k)
            return f
    pa = vars(pathlib.PurePath)["_parse_args"]
    pathlib.PurePath._parse_args = classmethod(lambda cls, args: pa.__func__(cls, [native(a) for a in args]))
    saved.append((pathlib.PurePath, "_parse_args", pa))
    os.stat = lambda p, *a, **k: _real_stat(resolve_path(p) if isinstance(p, (str, os.PathLike)) else p, *a, **k)
    os.lstat = lambda p, *a, **k: _real_lstat(resolve_path(p) if isinstance(p, (str, os.PathLike)) else p, *a, **k)
    io.open = builtins.open = op
    for n in ("match", "search", "fullmatch", "split", "findall", "finditer"):
        setattr(re, n, refuse(getattr(re, n)))
    rsub = re.sub

    def sub(p, r, s, *a, **k):
        if isinstance(s, str) and has_ph(s):
            raise EngineUnsupported("regular expression on a symbolic string")
        return rsub(p, r, s, *a, **k)
    re.sub = sub
    re.compile = Pattern
    try:
        yield
    finally:
        for o, n, v in saved:
            setattr(o, n, v)
