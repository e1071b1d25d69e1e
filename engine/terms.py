"""Terms of the symbolic interpreter.

Real/int values are polynomials with rational coefficients over *atoms* (inputs,
square roots, floors, indicators of conditions, uninterpreted function
applications, inverses).  Booleans are small ASTs over atomic comparisons.  The
normal form is only a simplifier: every obligation is finally put to z3.
"""
from __future__ import annotations

import math
from fractions import Fraction

F0 = Fraction(0)
F1 = Fraction(1)
HALF = Fraction(1, 2)
INF = float("inf")


class EngineUnsupported(BaseException):
    """The interpreter cannot encode this operation (BaseException: the code under
    test must not be able to swallow it)."""


class PathAbort(BaseException):
    """The current path is infeasible / cut."""


# ----------------------------------------------------------------------------- atoms

class Atom:
    __slots__ = ("id", "kind", "args", "isint", "lo", "hi", "name", "z3", "deps", "sub")

    def __init__(self, id, kind, args, isint, lo, hi, name):
        self.id = id
        self.kind = kind
        self.args = args
        self.isint = isint
        self.lo = lo
        self.hi = hi
        self.name = name
        self.z3 = None
        self.deps = frozenset()   # integer atoms the value is built from (including itself)
        self.sub = None           # indicator of [x == v]: (x, v)


class Store:
    """Global term store, reset per harness case."""

    def __init__(self):
        self.atoms = []
        self.key2atom = {}
        self.facts = {}        # canonical nonconst key -> (lo, hi)
        self.linfacts = []     # list of linear Polys known <= 0
        self.lincache = {}
        self.entries = []      # handle table
        self.constcache = {}
        self.decide_hook = None
        self.generation = 0

    def atom(self, kind, args, isint=False, lo=None, hi=None, name=None):
        key = (kind, args, name)
        a = self.key2atom.get(key)
        if a is None:
            a = Atom(len(self.atoms), kind, args, isint, lo, hi, name)
            self.atoms.append(a)
            self.key2atom[key] = a
            dep = set()
            for q in args:
                if isinstance(q, Poly):
                    for x in q.atoms():
                        dep |= self.atoms[x].deps
                elif isinstance(q, Bool):
                    dep |= bool_deps(q)
            if isint and kind in ("var", "floor", "round"):
                dep.add(a.id)
            a.deps = frozenset(dep)
            if kind == "ind" and args[0].op == "eq":
                q = args[0].args[0]
                ms = [m for m in q.d if m]
                if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and q.d[ms[0]] == 1 \
                        and self.atoms[ms[0][0][0]].kind in ("var", "floor", "round") \
                        and self.atoms[ms[0][0][0]].isint:
                    a.sub = (ms[0][0][0], -q.const())
        return a


S = Store()


def reset_store():
    global S
    S.__init__()
    return S


def snap(v):
    """Float constant -> rational; floats within rounding of a small rational become it."""
    if isinstance(v, Fraction):
        return v
    if isinstance(v, bool):
        return F1 if v else F0
    if isinstance(v, int):
        return Fraction(v)
    v = float(v)
    c = S.constcache.get(v)
    if c is not None:
        return c
    if v == int(v) and abs(v) < 1e15:
        r = Fraction(int(v))
    else:
        f = Fraction(v).limit_denominator(1000000)
        if abs(f - Fraction(v)) <= Fraction(4e-16) * max(1, abs(f)):
            r = f
        else:
            # small decimal constants such as 1e-8
            f2 = Fraction(repr(v))
            r = f2
    S.constcache[v] = r
    return r


# ----------------------------------------------------------------------------- intervals
# (lo, hi): Fraction or None for unbounded

def _iadd(a, b):
    return (
        None if a[0] is None or b[0] is None else a[0] + b[0],
        None if a[1] is None or b[1] is None else a[1] + b[1],
    )


def _iscale(a, c):
    if c == 0:
        return (F0, F0)
    lo = None if a[0] is None else a[0] * c
    hi = None if a[1] is None else a[1] * c
    return (lo, hi) if c > 0 else (hi, lo)


def _imul(a, b):
    if None in (a[0], a[1], b[0], b[1]):
        # handle the common sign cases
        def sg(i):
            if i[0] is not None and i[0] >= 0:
                return 1
            if i[1] is not None and i[1] <= 0:
                return -1
            return 0
        sa, sb = sg(a), sg(b)
        if sa == 0 or sb == 0:
            return (None, None)
        if sa < 0:
            a = _iscale(a, -1)
        if sb < 0:
            b = _iscale(b, -1)
        lo = (a[0] or F0) * (b[0] or F0)
        hi = None if a[1] is None or b[1] is None else a[1] * b[1]
        r = (lo, hi)
        return r if sa * sb > 0 else _iscale(r, -1)
    ps = (a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1])
    return (min(ps), max(ps))


def _isect(a, b):
    lo = a[0] if b[0] is None else (b[0] if a[0] is None else max(a[0], b[0]))
    hi = a[1] if b[1] is None else (b[1] if a[1] is None else min(a[1], b[1]))
    return (lo, hi)


def _ipow(a, e):
    if e == 1:
        return a
    if e < 0:
        p = _ipow(a, -e)
        if p[0] is not None and p[0] > 0:
            return (F0 if p[1] is None else 1 / p[1], 1 / p[0])
        if p[1] is not None and p[1] < 0:
            return (1 / p[1], F0 if p[0] is None else 1 / p[0])
        if p[0] is not None and p[0] >= 0:
            return (F0 if p[1] is None else 1 / p[1], None)
        return (None, None)
    if e % 2 == 0:
        lo, hi = a
        if lo is not None and lo >= 0:
            return (lo ** e, None if hi is None else hi ** e)
        if hi is not None and hi <= 0:
            return (hi ** e, None if lo is None else lo ** e)
        if lo is None or hi is None:
            return (F0, None)
        return (F0, max(lo ** e, hi ** e))
    return (None if a[0] is None else a[0] ** e, None if a[1] is None else a[1] ** e)


def _sqrt_down(x):
    if x <= 0:
        return F0
    n = x.numerator * (10 ** 24) // x.denominator
    return Fraction(math.isqrt(n), 10 ** 12)


def _sqrt_up(x):
    if x <= 0:
        return F0
    n = -((-x.numerator * (10 ** 24)) // x.denominator)
    return Fraction(math.isqrt(n) + 1, 10 ** 12)


# ----------------------------------------------------------------------------- Poly

class Poly:
    __slots__ = ("d", "_h", "_iv", "_int", "gen")

    def __init__(self, d, iv=None):
        self.d = d
        self._h = None
        self._iv = iv
        self._int = None

    # -- identity
    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and (self is o or (hash(self) == hash(o) and self.d == o.d))

    def is_const(self):
        d = self.d
        return not d or (len(d) == 1 and () in d)

    def const(self):
        return self.d.get((), F0)

    def is_int(self):
        if self._int is None:
            ok = True
            for m, c in self.d.items():
                if c.denominator != 1:
                    ok = False
                    break
                for (a, e) in m:
                    if e < 0 or not S.atoms[a].isint:
                        ok = False
                        break
                if not ok:
                    break
            self._int = ok
        return self._int

    def atoms(self):
        s = set()
        for m in self.d:
            for (a, _e) in m:
                s.add(a)
        return s

    def __repr__(self):
        return show(self)


def P(v):
    if isinstance(v, Poly):
        return v
    f = snap(v)
    return Poly({(): f} if f else {}, (f, f))


ZERO = Poly({}, (F0, F0))
ONE = Poly({(): F1}, (F1, F1))


class Special:
    """inf / -inf / nan constants."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = float(v)

    def __repr__(self):
        return f"Special({self.v})"

    def __eq__(self, o):
        return isinstance(o, Special) and repr(self.v) == repr(o.v)

    def __hash__(self):
        return hash(repr(self.v))


def lift(v):
    """Python number -> entry."""
    if isinstance(v, (Poly, Special, Bool)):
        return v
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, float) and (v != v or v in (INF, -INF)):
        return Special(v)
    return P(v)


def atom_poly(a):
    return Poly({((a.id, 1),): F1})


def var(name, lo=None, hi=None, isint=False):
    a = S.atom("var", (), isint=isint, lo=None if lo is None else snap(lo),
               hi=None if hi is None else snap(hi), name=name)
    return atom_poly(a)


# -- interval of atoms & polys

def atom_iv(a):
    if a.kind == "ind":
        return (F0, F1)
    return (a.lo, a.hi)


def mono_iv(m):
    r = (F1, F1)
    for (a, e) in m:
        r = _imul(r, _ipow(atom_iv(S.atoms[a]), e))
        if r == (None, None):
            return r
    return r


def canon_nonconst(p):
    """(key, scale, const): p = scale*key + const with key's leading coeff 1."""
    items = [(m, c) for m, c in p.d.items() if m]
    if not items:
        return None, F0, p.const()
    m0, c0 = min(items, key=lambda t: t[0])
    key = frozenset((m, c / c0) for m, c in items)
    return key, c0, p.const()


def iv(p):
    if p._iv is not None and p._iv[0] is not None and p._iv[0] == p._iv[1]:
        return p._iv
    r = p._iv
    if r is None or getattr(p, "gen", -1) != S.generation:
        nat = (F0, F0)
        if len(p.d) <= 60:
            for m, c in p.d.items():
                nat = _iadd(nat, _iscale(mono_iv(m), c))
                if nat == (None, None):
                    break
        else:
            nat = (None, None)
        r = nat if r is None else _isect(r, nat)
        if len(p.d) <= 60:
            key, sc, c0 = canon_nonconst(p)
            if key is not None:
                f = S.facts.get(key)
                if f is not None:
                    r = _isect(r, _iadd(_iscale(f, sc), (c0, c0)))
        p._iv = r
        p.gen = S.generation
    return r


def lin_iv(p):
    """Tighten the interval of a linear form in >=2 inputs using the linear assumptions."""
    r = iv(p)
    if not S.linfacts or len(p.d) > 8:
        return r
    ats = set()
    for m in p.d:
        if m == ():
            continue
        if len(m) != 1 or m[0][1] != 1:
            return r
        ats.add(m[0][0])
    if len(ats) < 2:
        return r
    key, sc, c0 = canon_nonconst(p)
    got = S.lincache.get(key)
    if got is None:
        from . import solver
        got = solver.lp_bounds(key)
        S.lincache[key] = got
    r = _isect(r, _iadd(_iscale(got, sc), (c0, c0)))
    p._iv = r
    return r


# -- arithmetic

def add(a, b):
    if isinstance(a, Special) or isinstance(b, Special):
        return _special2(a, b, lambda x, y: x + y)
    if not a.d:
        return b
    if not b.d:
        return a
    if len(a.d) < len(b.d):
        a, b = b, a
    d = dict(a.d)
    for m, c in b.d.items():
        n = d.get(m)
        if n is None:
            d[m] = c
        else:
            n = n + c
            if n:
                d[m] = n
            else:
                del d[m]
    r = Poly(d)
    if len(d) <= 60:
        r._iv = _iadd(iv(a), iv(b))
        if not d:
            r._iv = (F0, F0)
    return r


def scale(a, c):
    if c == 0:
        return ZERO
    if c == 1:
        return a
    r = Poly({m: v * c for m, v in a.d.items()})
    if a._iv is not None:
        r._iv = _iscale(a._iv, c)
    return r


def neg(a):
    if isinstance(a, Special):
        return Special(-a.v)
    return scale(a, Fraction(-1))


def sub(a, b):
    if isinstance(a, Special) or isinstance(b, Special):
        return _special2(a, b, lambda x, y: x - y)
    return add(a, scale(b, Fraction(-1)))


def psum(ps):
    d = {}
    for p in ps:
        if isinstance(p, Special):
            r = ZERO
            for q in ps:
                r = add(r, q)
            return r
        for m, c in p.d.items():
            n = d.get(m)
            if n is None:
                d[m] = c
            else:
                n = n + c
                if n:
                    d[m] = n
                else:
                    del d[m]
    r = Poly(d)
    if len(ps) <= 8 and len(d) <= 60:
        t = (F0, F0)
        for p in ps:
            t = _iadd(t, iv(p))
        r._iv = t
    return r


def _mono_mul(m1, m2):
    """Product of monomials; returns (mono, reductions) where reductions is a list of
    Polys to multiply in (for sqrt/indicator/trig reductions), or None when zero."""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    clash = False
    for a, e in m2:
        if a in d:
            d[a] += e
            clash = True
        else:
            d[a] = e
    extra = None
    if clash:
        for a, e in list(d.items()):
            if e == 0:
                del d[a]
                continue
            if e in (1, -1):
                continue
            at = S.atoms[a]
            k = at.kind
            if k == "ind":
                d[a] = 1
            elif k == "sqrt":
                if e >= 2:
                    q, r = divmod(e, 2)
                    if r:
                        d[a] = r
                    else:
                        del d[a]
                    if extra is None:
                        extra = []
                    extra.extend([at.args[0]] * q)
                elif e <= -2:
                    q, r = divmod(-e, 2)
                    if r:
                        d[a] = -r
                    else:
                        del d[a]
                    if extra is None:
                        extra = []
                    extra.extend([inv(at.args[0])] * q)
            elif k == "uf" and at.name == "sin" and e >= 2:
                q, r = divmod(e, 2)
                if r:
                    d[a] = r
                else:
                    del d[a]
                c = atom_poly(uf_atom("cos", at.args))
                if extra is None:
                    extra = []
                extra.extend([sub(ONE, mul(c, c))] * q)
            elif k == "box" and e > 0:
                del d[a]
                if extra is None:
                    extra = []
                extra.extend([at.args[0]] * e)
    # contradictory equality indicators
    at_ = S.atoms
    inds = [a for a in d if at_[a].kind == "ind"]
    for i in inds:
        sb = at_[i].sub
        if sb is None or i not in d:
            continue
        x, v = sb
        for b in list(d):
            if b != i and x in at_[b].deps and not (at_[b].sub is not None and at_[b].sub[0] == x):
                e = d.pop(b)
                if extra is None:
                    extra = []
                extra.append(powi(P(v) if b == x else rebuild_atom(at_[b], x, v, {}), e))
    inds = [a for a in inds if a in d]
    if len(inds) > 1:
        r = ind_conflict(inds)
        if r is None:
            return None, None
        for a in r:
            d.pop(a, None)
    return tuple(sorted(d.items())), extra


_conf_cache = {}


def ind_conflict(inds):
    """None if contradictory; else list of redundant indicator atoms to drop."""
    eqs = {}
    for a in inds:
        c = S.atoms[a].args[0]
        if c.op == "eq":
            key = c.key
            prev = eqs.get(key)
            if prev is not None and prev[0] != c.val:
                return None
            eqs[key] = (c.val, a)
    if not eqs:
        return []
    drop = []
    for a in inds:
        c = S.atoms[a].args[0]
        if c.op in ("le", "lt") and c.key in eqs:
            v = c.sc * eqs[c.key][0] + c.val   # p = sc*key + val ; key value = eq val
            ok = v <= 0 if c.op == "le" else v < 0
            if not ok:
                return None
            drop.append(a)
    return drop


def mul(a, b):
    if isinstance(a, Special) or isinstance(b, Special):
        return _special2(a, b, lambda x, y: x * y)
    if not a.d or not b.d:
        return ZERO
    if a.is_const():
        return scale(b, a.const())
    if b.is_const():
        return scale(a, b.const())
    if len(a.d) > len(b.d):
        a, b = b, a
    d = {}
    pend = []
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m, extra = _mono_mul(m1, m2)
            if m is None:
                continue
            c = c1 * c2
            if extra:
                pend.append((m, c, extra))
                continue
            n = d.get(m)
            if n is None:
                d[m] = c
            else:
                n = n + c
                if n:
                    d[m] = n
                else:
                    del d[m]
    r = Poly(d)
    if pend:
        parts = [r]
        for m, c, extra in pend:
            q = Poly({m: c})
            for x in extra:
                q = mul(q, x)
            parts.append(q)
        r = psum(parts)
    if len(r.d) <= 60:
        if a is b or a == b:
            r._iv = _ipow(lin_iv(a), 2)
        else:
            r._iv = _imul(iv(a), iv(b))
    return r


def powi(a, n):
    if n < 0:
        return powi(inv(a), -n)
    r = ONE
    for _ in range(n):
        r = mul(r, a)
    if n and n % 2 == 0 and not r.is_const():
        r._iv = _ipow(lin_iv(a), n)
    return r


def _special2(a, b, f):
    def num(x):
        if isinstance(x, Special):
            return x.v
        if x.is_const():
            return float(x.const())
        return None
    x, y = num(a), num(b)
    if x is None or y is None:
        s = x if x is not None else y
        if s != s:
            return Special(float("nan"))
        o = a if x is None else b
        lo, hi = iv(o)
        cand = []
        if lo is not None and lo > 0:
            cand = [1.0]
        elif hi is not None and hi < 0:
            cand = [-1.0]
        if not cand:
            # sums do not depend on the sign of a finite operand
            r1 = f(x if x is not None else 1.0, y if y is not None else 1.0)
            r2 = f(x if x is not None else -1.0, y if y is not None else -1.0)
            if r1 == r2:
                return Special(r1) if r1 in (INF, -INF) else P(r1)
            raise EngineUnsupported("inf/nan combined with a symbolic value of unknown sign")
        v = f(x if x is not None else cand[0], y if y is not None else cand[0])
        return lift(v)
    return lift(f(x, y))


def indicator_conds(p):
    s = []
    for a in sorted(p.atoms()):
        if S.atoms[a].kind == "ind":
            s.append(a)
    return s


def subst_ind(p, aid, val):
    d = {}
    for m, c in p.d.items():
        has = False
        for (x, e) in m:
            if x == aid:
                has = True
                break
        if has:
            if not val:
                continue
            m = tuple(t for t in m if t[0] != aid)
        n = d.get(m, F0) + c
        if n:
            d[m] = n
        else:
            d.pop(m, None)
    return Poly(d)


def assume_ind(p, aid, val):
    """p under indicator aid := val, also simplifying the other indicators it decides."""
    p = subst_ind(p, aid, val)
    if val:
        c0 = S.atoms[aid].args[0]
        for b in indicator_conds(p):
            c = S.atoms[b].args[0]
            if getattr(c, "key", None) is not None and c0.op == "eq" and c.key == c0.key:
                if c.op == "eq":
                    p = subst_ind(p, b, c.val == c0.val)
                elif c.op in ("le", "lt"):
                    v = c.sc * c0.val + c.val
                    p = subst_ind(p, b, v <= 0 if c.op == "le" else v < 0)
    return p


def map_cases(p, f, limit=6):
    """Apply f to p, splitting over the indicators in p."""
    if isinstance(p, Special):
        return f(p)
    inds = indicator_conds(p)
    if not inds:
        return f(p)
    if len(inds) > limit:
        return f(p)
    a = inds[0]
    ip = Poly({((a, 1),): F1})
    t = map_cases(assume_ind(p, a, True), f, limit)
    e = map_cases(assume_ind(p, a, False), f, limit)
    if t == e:
        return t
    if isinstance(t, Special) or isinstance(e, Special):
        return SpecialITE(S.atoms[a].args[0], t, e)
    return add(e, mul(ip, sub(t, e)))


def SpecialITE(c, t, e):
    # decide by forking
    return t if branch(c) else e


def inv(p):
    if isinstance(p, Special):
        return P(0) if p.v in (INF, -INF) else Special(float("nan"))
    if p.is_const():
        c = p.const()
        if c == 0:
            return Special(INF)
        return P(1 / c)
    return map_cases(p, _inv1)


def _inv1(p):
    if p.is_const():
        c = p.const()
        if c == 0:
            return Special(INF)
        return P(1 / c)
    p = cancel(p)
    if isinstance(p, Special) or p.is_const():
        return inv(p)
    if len(p.d) == 1:
        (m, c), = p.d.items()
        q = Poly({(): 1 / c})
        for (a, e) in m:
            at = S.atoms[a]
            if at.kind == "box" and e < 0:
                q = mul(q, powi(at.args[0], -e))
            elif at.kind == "sqrt" and e == 1:
                q = mul(q, Poly({((a, -1),): F1}))
            else:
                q = mul(q, Poly({((a, -e),): F1}))
        if p._iv is not None and len(q.d) <= 60:
            q._iv = _ipow(iv(p), -1)
        return q
    # canonical positive-lead boxed polynomial
    m0 = min(p.d)
    c0 = p.d[m0]
    q = scale(p, 1 / c0)
    blo = _iscale(iv(p), 1 / c0)
    at = S.atom("box", (q,), lo=blo[0], hi=blo[1])
    r = Poly({((at.id, -1),): 1 / c0})
    r._iv = _ipow(iv(p), -1)
    return r


def div(a, b):
    if isinstance(b, Poly) and b.is_const() and b.const() == 0:
        if isinstance(a, Special):
            return Special(float("nan")) if a.v != a.v else a
        if a.is_const():
            c = a.const()
            return Special(float("nan") if c == 0 else (INF if c > 0 else -INF))
        lo, hi = iv(a)
        if lo is not None and lo > 0:
            return Special(INF)
        if hi is not None and hi < 0:
            return Special(-INF)
        if branch(cmp("eq", a)):
            return Special(float("nan"))
        return Special(INF) if branch(cmp("lt", neg(a))) else Special(-INF)
    return mul(a, inv(b))


def bool_deps(b):
    r = set()
    for x in b.args:
        if isinstance(x, Poly):
            for a in x.atoms():
                r |= S.atoms[a].deps
        elif isinstance(x, Bool):
            r |= bool_deps(x)
    return r


def subst_atom(p, a, v, memo=None):
    """p with the integer atom a replaced by the constant v, rebuilt through the constructors."""
    if memo is None:
        memo = {}
    if isinstance(p, Special):
        return p
    k = memo.get(p)
    if k is not None:
        return k
    at = S.atoms
    if not any(a in at[x].deps for x in p.atoms()):
        return p
    r = ZERO
    for m, c in p.d.items():
        t = P(c)
        keep = []
        for (x, e) in m:
            if a in at[x].deps:
                q = P(v) if x == a else rebuild_atom(at[x], a, v, memo)
                t = mul(t, powi(q, e))
            else:
                keep.append((x, e))
        if keep:
            t = mul(t, Poly({tuple(keep): F1}))
        r = add(r, t)
    memo[p] = r
    return r


def rebuild_atom(at, a, v, memo):
    if at.kind == "ind":
        return ind(subst_bool(at.args[0], a, v, memo))
    args = [subst_atom(q, a, v, memo) for q in at.args]
    if at.kind == "sqrt":
        return sqrt(args[0])
    if at.kind == "box":
        return args[0]
    if at.kind == "floor":
        return pfloor(args[0])
    if at.kind == "round":
        return pround(args[0])
    if at.kind == "max":
        return maxn(args)
    if at.kind == "draw":
        return draw(*args)
    if at.kind == "uf" and len(args) == 1 and at.name in UF_PY:
        return uf1(at.name, args[0])
    if at.kind == "uf":
        return atom_poly(uf_atom(at.name, args, lo=at.lo, hi=at.hi, isint=at.isint))
    raise EngineUnsupported(f"substitution in {at.kind}")


def subst_bool(b, a, v, memo):
    if b.op == "const":
        return b
    if b.op in ("le", "lt", "eq"):
        return cmp(b.op, subst_atom(b.args[0], a, v, memo))
    if b.op == "not":
        return bnot(subst_bool(b.args[0], a, v, memo))
    f = band if b.op == "and" else bor
    return f(*[subst_bool(x, a, v, memo) for x in b.args])


def uf_atom(name, args, lo=None, hi=None, isint=False):
    b = UF_BOUNDS.get(name)
    if b:
        lo = b[0] if lo is None else lo
        hi = b[1] if hi is None else hi
    return S.atom("uf", tuple(args), isint=isint, lo=lo, hi=hi, name=name)


UF_BOUNDS = {
    "sinc": (Fraction(-218, 1000), F1),
    "cos": (Fraction(-1), F1),
    "sin": (Fraction(-1), F1),
    "exp": (F0, None),
    "tanh": (Fraction(-1), F1),
    "acos": (F0, Fraction(3141592653589794, 10 ** 15)),
    "asin": (Fraction(-15707963267948967, 10 ** 16), Fraction(15707963267948967, 10 ** 16)),
    "atan2": (Fraction(-3141592653589794, 10 ** 15), Fraction(3141592653589794, 10 ** 15)),
    "atan": (Fraction(-15707963267948967, 10 ** 16), Fraction(15707963267948967, 10 ** 16)),
}

UF_EVEN = {"sinc", "cos"}
UF_ODD = {"sin", "tanh", "atan", "asin"}


def _np_sinc(x):
    return 1.0 if x == 0 else math.sin(math.pi * x) / (math.pi * x)


UF_PY = {
    "sinc": _np_sinc, "cos": math.cos, "sin": math.sin, "exp": math.exp, "log": math.log,
    "tanh": math.tanh, "acos": math.acos, "asin": math.asin, "atan": math.atan,
    "atan2": math.atan2, "log10": math.log10, "log2": math.log2, "tan": math.tan,
    "pow": lambda a, b: a ** b,
}


def uf1(name, p):
    if isinstance(p, Special):
        try:
            import torch
            return lift(float(getattr(torch, name)(torch.tensor(p.v, dtype=torch.float64))))
        except Exception:
            raise EngineUnsupported(f"{name}({p.v})")
    return map_cases(p, lambda q: _uf1(name, q))


def _lead_neg(p):
    items = [(m, c) for m, c in p.d.items()]
    m0, c0 = max(items, key=lambda t: t[0])
    return c0 < 0


def _uf1(name, p):
    if p.is_const():
        try:
            return P(_snapt(UF_PY[name](float(p.const()))))
        except (ValueError, OverflowError):
            return Special(float("nan"))
    sign = 1
    if name in UF_EVEN or name in UF_ODD:
        if _lead_neg(p):
            p = neg(p)
            if name in UF_ODD:
                sign = -1
    if name in ("cos", "sin"):
        # constant phase shifts are kept inside; exact multiples of pi/2 are not special-cased
        pass
    lo = hi = None
    if name == "exp":
        b = iv(p)
        try:
            if b[1] is not None:
                hi = Fraction(math.exp(float(b[1])) * (1 + 1e-9))
            if b[0] is not None:
                lo = Fraction(max(0.0, math.exp(float(b[0])) * (1 - 1e-9)))
        except OverflowError:
            pass
    q = atom_poly(uf_atom(name, (p,), lo=lo, hi=hi))
    return neg(q) if sign < 0 else q


def _snapt(v):
    f = Fraction(v).limit_denominator(10000)
    if abs(float(f) - v) <= 1e-15 * max(1.0, abs(v)) * 4:
        return f
    return v


def _lexkey(m):
    return tuple(m)


def _lead(d):
    """lead monomial under the lexicographic order on exponent vectors"""
    best = None
    for m in d:
        if best is None or _lexcmp(m, best) > 0:
            best = m
    return best


def _lexcmp(a, b):
    da, db = dict(a), dict(b)
    for x in sorted(set(da) | set(db)):
        ea, eb = da.get(x, 0), db.get(x, 0)
        if ea != eb:
            return 1 if ea > eb else -1
    return 0


def pdivide(k, q, limit=24):
    """exact quotient of (Laurent) polynomials, or None"""
    lq = _lead(q.d)
    cq = q.d[lq]
    rem = k
    quot = {}
    for _ in range(limit):
        if not rem.d:
            return Poly(quot)
        lk = _lead(rem.d)
        e = dict(lk)
        for a, x in lq:
            e[a] = e.get(a, 0) - x
            if e[a] == 0:
                del e[a]
        for a, x in e.items():
            at = S.atoms[a]
            if x < 0 and at.kind not in ("box", "sqrt"):
                return None
        t = tuple(sorted(e.items()))
        c = rem.d[lk] / cq
        quot[t] = quot.get(t, F0) + c
        if not quot[t]:
            return None
        rem = sub(rem, mul(Poly({t: c}), q))
        if len(rem.d) > 80:
            return None
    return Poly(quot) if not rem.d else None


def cancel(p):
    """replace K * box(q)^-1 by K/q where q divides K"""
    if isinstance(p, Special) or len(p.d) < 2 or len(p.d) > 60:
        return p
    boxes = {}
    for m in p.d:
        for a, e in m:
            if e < 0 and S.atoms[a].kind == "box":
                boxes.setdefault(a, min(e, boxes.get(a, 0)))
    if not boxes:
        return p
    for a in sorted(boxes):
        q = S.atoms[a].args[0]
        for ex in range(boxes[a], 0):
            k, rest = {}, {}
            for m, c in p.d.items():
                dm = dict(m)
                if dm.get(a) == ex:
                    dm.pop(a)
                    k[tuple(sorted(dm.items()))] = c
                else:
                    rest[m] = c
            if len(k) < len(q.d):
                continue
            d = pdivide(Poly(k), q)
            if d is not None:
                if ex + 1:
                    d = mul(d, Poly({((a, ex + 1),): F1}))
                p = add(Poly(rest), d)
                if isinstance(p, Special) or p.is_const():
                    return p
    return p


def sqrt(p):
    if isinstance(p, Special):
        return Special(INF) if p.v == INF else Special(float("nan"))
    return map_cases(p, _sqrt1)


def _isq(n):
    r = math.isqrt(n)
    return r if r * r == n else None


def _sqrt1(p):
    p = cancel(p)
    if p.is_const():
        c = p.const()
        if c < 0:
            return Special(float("nan"))
        a, b = _isq(c.numerator), _isq(c.denominator)
        if a is not None and b is not None:
            return P(Fraction(a, b))
        # keep irrational roots symbolic-exact
        at = S.atom("sqrt", (P(c),), lo=_sqrt_down(c), hi=_sqrt_up(c))
        return atom_poly(at)
    # pull out a rational square content so that sqrt(c*p) normalises
    m0 = min(p.d)
    c0 = abs(p.d[m0])
    q = p
    s = ONE
    if c0 != 1:
        q = scale(p, 1 / c0)
        s = _sqrt1(P(c0))
    if len(q.d) == 1:
        (m, c), = q.d.items()
        if c == 1 and all(e % 2 == 0 for _a, e in m):
            r = ONE
            for (a, e) in m:
                x = Poly({((a, e // 2),): F1})
                if (e // 2) % 2 == 1 or (e // 2) % 2 == -1:
                    x = pabs(x)
                r = mul(r, x)
            return mul(s, r)
    if len(q.d) > 1:
        # common even powers come out of the root
        com = None
        for m in q.d:
            d = {a: e for a, e in m}
            com = d if com is None else {a: (min(e, d[a]) if e > 0 else max(e, d[a])) for a, e in com.items()
                                         if a in d and (e > 0) == (d[a] > 0)}
            if not com:
                break
        com = {a: (e // 2 if e > 0 else -(-e // 2)) for a, e in (com or {}).items()}
        com = {a: e for a, e in com.items() if e and S.atoms[a].kind != "ind"}
        if com:
            r = s
            div_ = Poly({tuple(sorted((a, -2 * e) for a, e in com.items())): F1})
            for a, e in com.items():
                r = mul(r, pabs(Poly({((a, e),): F1})))
            b0 = q._iv
            return mul(r, sqrt(mul(q, div_)))
    b = iv(q)
    lo = F0 if b[0] is None else _sqrt_down(b[0])
    hi = None if b[1] is None else _sqrt_up(b[1])
    at = S.atom("sqrt", (q,), lo=lo, hi=hi)
    return mul(s, atom_poly(at)) if s is not ONE else atom_poly(at)


def pfloor(p):
    if isinstance(p, Special):
        return p
    return map_cases(p, _floor1)


def _floor1(p):
    if p.is_const():
        return P(math.floor(p.const()))
    if p.is_int():
        return p
    # split the integer part off
    ip, rest = {}, {}
    for m, c in p.d.items():
        if m == ():
            k = math.floor(c)
            if k:
                ip[m] = Fraction(k)
            if c - k:
                rest[m] = c - k
        elif c.denominator == 1 and all(S.atoms[a].isint and e > 0 for a, e in m):
            ip[m] = c
        else:
            rest[m] = c
    ipart = Poly(ip)
    r = Poly(rest)
    whole = iv(p)
    if not ip:
        r._iv = p._iv
    b = iv(r)
    if b[0] is not None and b[1] is not None and math.floor(b[0]) == math.floor(b[1]):
        return add(ipart, P(math.floor(b[0])))
    at = S.atom("floor", (r,), isint=True,
                lo=None if b[0] is None else Fraction(math.floor(b[0])),
                hi=None if b[1] is None else Fraction(math.floor(b[1])))
    ap = atom_poly(at)
    key, sc, c0 = canon_nonconst(sub(r, ap))
    if key not in S.facts:
        f = _iscale((-c0, 1 - c0), 1 / sc)
        S.facts[key] = f
    out = add(ipart, ap)
    out._iv = _isect(iv(out), (None if whole[0] is None else Fraction(math.floor(whole[0])),
                               None if whole[1] is None else Fraction(math.floor(whole[1]))))
    return out


def pceil(p):
    if isinstance(p, Special):
        return p
    return neg(pfloor(neg(p)))


def ptrunc(p):
    if isinstance(p, Special):
        raise EngineUnsupported("int of inf/nan")
    if p.is_int():
        return p
    b = iv(p)
    if b[0] is not None and b[0] >= 0:
        return pfloor(p)
    if b[1] is not None and b[1] <= 0:
        return pceil(p)
    return ite(cmp("le", neg(p)), pfloor(p), pceil(p))


def pround(p):
    if isinstance(p, Special):
        return p
    return map_cases(p, _round1)


def _round1(p):
    if p.is_const():
        return P(round(p.const()))
    if p.is_int():
        return p
    b = iv(p)
    at = S.atom("round", (p,), isint=True,
                lo=None if b[0] is None else Fraction(math.floor(b[0])),
                hi=None if b[1] is None else Fraction(math.ceil(b[1])))
    return atom_poly(at)


def pabs(p):
    if isinstance(p, Special):
        return Special(abs(p.v))
    b = lin_iv(p)
    if b[0] is not None and b[0] >= 0:
        return p
    if b[1] is not None and b[1] <= 0:
        return neg(p)
    r = map_cases(p, lambda q: ite(cmp("le", neg(q)), q, neg(q)))
    if not r.is_const():
        if len(_ABS) > 20000:
            _ABS.clear()
        _ABS[r] = p
    return r


_ABS = {}       # |p| -> p, for maxima of magnitudes


def maxn(es):
    """the largest of several terms; more than two undecided ones become one atom"""
    todo, lo = [], None
    for e in es:
        if isinstance(e, Special):
            todo = None
            break
        l = lin_iv(e)[0]
        if l is not None and (lo is None or l > lo):
            lo = l
        todo.append(e)
    if todo is not None:
        live, seen = [], set()
        for e in todo:
            h = lin_iv(e)[1]
            if e in seen or (h is not None and lo is not None and h < lo):
                continue
            seen.add(e)
            live.append(e)
        cs = [e for e in live if e.is_const()]
        if len(cs) > 1:
            top = max(cs, key=lambda c: c.const())
            live = [e for e in live if not e.is_const() or e is top]
        if len(live) > 2:
            bounds = [lin_iv(e) for e in live]
            hi = None if any(b[1] is None for b in bounds) else max(b[1] for b in bounds)
            args = {}
            for e in live:
                base = _ABS.get(e)
                for q in ((e,) if base is None else (base, neg(base))):
                    args[q] = 1
            at = S.atom("max", tuple(sorted(args, key=lambda q: sorted(q.d.items()))), lo=lo, hi=hi,
                        isint=all(e.is_int() for e in live))
            r = atom_poly(at)
            r._iv = _isect(iv(r), (lo, hi))
            return r
        es = live
    r = es[0]
    for e in es[1:]:
        r = pmax(r, e)
    return r


def draw(lo, hi, u):
    """lo + (hi - lo) u for a draw u in (0, 1); the solver only sees a value between lo and hi (every such value is drawn for some u)"""
    d = sub(hi, lo)
    if d.is_const():
        return add(lo, mul(d, u))
    ul, uh = iv(u)
    at = S.atom("draw", (lo, hi, u), lo=iv(lo)[0], hi=iv(hi)[1])
    return atom_poly(at)


def pmax(a, b):
    return ite(ge(a, b), a, b)


def pmin(a, b):
    return ite(le(a, b), a, b)


# ----------------------------------------------------------------------------- Bool

class Bool:
    """op: const/le/lt/eq (p <= 0, p < 0, p == 0)/not/and/or/opaque."""
    __slots__ = ("op", "args", "_h", "key", "sc", "val", "z3")

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self._h = hash((op, args))
        self.key = None
        self.sc = None
        self.val = None
        self.z3 = None

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (
            isinstance(o, Bool) and self._h == o._h and self.op == o.op and self.args == o.args
        )

    def __repr__(self):
        return showb(self)


TRUE = Bool("const", (True,))
FALSE = Bool("const", (False,))


def bconst(v):
    return TRUE if v else FALSE


def boolvar(name):
    v = var(name, 0, 1, isint=True)
    return cmp("le", sub(ONE, v))


def cmp(op, p):
    """p (op) 0 for op in le, lt, eq."""
    if isinstance(p, Special):
        v = p.v
        return bconst(v <= 0 if op == "le" else v < 0 if op == "lt" else v == 0)
    if p.is_const():
        c = p.const()
        return bconst(c <= 0 if op == "le" else c < 0 if op == "lt" else c == 0)
    inds = indicator_conds(p)
    if inds and len(inds) <= 6:
        a = inds[0]
        c = S.atoms[a].args[0]
        t = cmp(op, assume_ind(p, a, True))
        e = cmp(op, assume_ind(p, a, False))
        return bite(c, t, e)
    q = cancel(p)
    if q is not p:
        return cmp(op, q)
    lo, hi = lin_iv(p)
    if op == "le":
        if hi is not None and hi <= 0:
            return TRUE
        if lo is not None and lo > 0:
            return FALSE
    elif op == "lt":
        if hi is not None and hi < 0:
            return TRUE
        if lo is not None and lo >= 0:
            return FALSE
    else:
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return FALSE
    # sqrt(q) compared with 0 : same as q compared with 0
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if len(m) == 1 and S.atoms[m[0][0]].kind == "sqrt" and m[0][1] == 1:
            q = S.atoms[m[0][0]].args[0]
            if op == "eq":
                return cmp("eq", q)
            if op == "le":
                return TRUE if c < 0 else cmp("eq", q)
            return FALSE if c > 0 else bnot(cmp("eq", q))
    # integer tightening / sign normalisation
    key, sc, c0 = canon_nonconst(p)
    if op == "eq":
        q = scale(p, 1 / sc)
        v = -c0 / sc       # key == v
        if q.is_int() or (Poly(dict(key)).is_int()):
            if v.denominator != 1:
                return FALSE
        b = Bool("eq", (q,))
        b.key, b.val = key, v
        return b
    s = abs(sc)
    q = scale(p, 1 / s)
    if Poly(dict(key)).is_int():
        # key integral (leading coeff 1, all integer): tighten
        k = q.const()
        if op == "lt":
            # q = ±key + k < 0  <=>  ±key <= ceil(-k)-1
            bound = math.ceil(-k) - 1
        else:
            bound = math.floor(-k)
        d = {m: c for m, c in q.d.items() if m}
        if bound:
            d[()] = Fraction(-bound)
        q = Poly(d)
        op = "le"
    b = Bool(op, (q,))
    b.key = key
    b.sc = F1 if sc > 0 else Fraction(-1)
    b.val = q.const()
    return b


def le(a, b):
    if isinstance(a, Special) or isinstance(b, Special):
        return _spcmp(a, b, lambda x, y: x <= y)
    return cmp("le", sub(a, b))


def lt(a, b):
    if isinstance(a, Special) or isinstance(b, Special):
        return _spcmp(a, b, lambda x, y: x < y)
    return cmp("lt", sub(a, b))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if isinstance(a, Bool) or isinstance(b, Bool):
        a, b = tobool(a), tobool(b)
        return bor(band(a, b), band(bnot(a), bnot(b)))
    if isinstance(a, Special) or isinstance(b, Special):
        return _spcmp(a, b, lambda x, y: x == y)
    return cmp("eq", sub(a, b))


def ne(a, b):
    return bnot(eq(a, b))


def _spcmp(a, b, f):
    def num(x):
        return x.v if isinstance(x, Special) else 0.0   # any finite value behaves alike
    return bconst(f(num(a), num(b)))


def tobool(x):
    if isinstance(x, Bool):
        return x
    if isinstance(x, Special):
        return TRUE
    return bnot(cmp("eq", x))


def bnot(b):
    if b.op == "const":
        return FALSE if b.args[0] else TRUE
    if b.op == "not":
        return b.args[0]
    if b.op == "le":          # not p<=0 -> -p<0
        return cmp("lt", neg(b.args[0]))
    if b.op == "lt":
        return cmp("le", neg(b.args[0]))
    return Bool("not", (b,))


def _flat(op, bs):
    out = []
    seen = set()
    for b in bs:
        items = b.args if b.op == op else (b,)
        for x in items:
            if x not in seen:
                seen.add(x)
                out.append(x)
    return out


def band(*bs):
    out = _flat("and", bs)
    res = []
    eqs = {}
    for b in out:
        if b.op == "const":
            if not b.args[0]:
                return FALSE
            continue
        if b.op == "eq":
            p = eqs.get(b.key)
            if p is not None and p != b.val:
                return FALSE
            eqs[b.key] = b.val
        res.append(b)
    if len(res) > 1:
        bnds = {}
        for b in res:
            if b.op in ("le", "lt"):
                bd = -b.val / b.sc
                lo, hi = bnds.get(b.key, (None, None))
                if b.sc > 0:
                    hi = (bd, b.op == "lt") if hi is None or bd < hi[0] or (
                        bd == hi[0] and b.op == "lt") else hi
                else:
                    lo = (bd, b.op == "lt") if lo is None or bd > lo[0] or (
                        bd == lo[0] and b.op == "lt") else lo
                if lo is not None and hi is not None and (
                        lo[0] > hi[0] or (lo[0] == hi[0] and (lo[1] or hi[1]))):
                    return FALSE
                bnds[b.key] = (lo, hi)
    if eqs:
        r2 = []
        for b in res:
            if b.op in ("le", "lt") and b.key in eqs:
                v = b.sc * eqs[b.key] + b.val
                if not (v <= 0 if b.op == "le" else v < 0):
                    return FALSE
                continue
            r2.append(b)
        res = r2
    s = set(res)
    for b in res:
        if b.op != "const" and bnot(b) in s:
            return FALSE
    if not res:
        return TRUE
    if len(res) == 1:
        return res[0]
    return Bool("and", tuple(res))


def bor(*bs):
    out = _flat("or", bs)
    res = []
    for b in out:
        if b.op == "const":
            if b.args[0]:
                return TRUE
            continue
        res.append(b)
    s = set(res)
    for b in res:
        if bnot(b) in s:
            return TRUE
    if not res:
        return FALSE
    if len(res) == 1:
        return res[0]
    return Bool("or", tuple(res))


def bite(c, t, e):
    if c.op == "const":
        return t if c.args[0] else e
    if t == e:
        return t
    return bor(band(c, t), band(bnot(c), e))


def ind(b):
    """0/1-valued Poly of a Bool."""
    if b.op == "const":
        return ONE if b.args[0] else ZERO
    if b.op == "not":
        return sub(ONE, ind(b.args[0]))
    if b.op == "and":
        r = ONE
        for x in b.args:
            r = mul(r, ind(x))
        return r
    if b.op == "or" and len(b.args) <= 4:
        r = ONE
        for x in b.args:
            r = mul(r, sub(ONE, ind(x)))
        return sub(ONE, r)
    if b.op in ("le", "lt"):
        # canonical polarity: represent via the one whose lead coeff is positive
        if b.sc is not None and b.sc < 0:
            n = bnot(b)
            if n.op == "const":
                return sub(ONE, ind(n))
            return sub(ONE, atom_poly(S.atom("ind", (n,), isint=True, lo=F0, hi=F1)))
    return atom_poly(S.atom("ind", (b,), isint=True, lo=F0, hi=F1))


def ite(c, a, b):
    if c.op == "const":
        return a if c.args[0] else b
    if isinstance(a, Bool) or isinstance(b, Bool):
        return bite(c, tobool(a), tobool(b))
    if not isinstance(a, (Poly, Special)) or not isinstance(b, (Poly, Special)):
        raise EngineUnsupported("ite on non-numeric entries")
    if a == b:
        return a
    if isinstance(a, Special) or isinstance(b, Special):
        return a if branch(c) else b
    d = S.decide_hook(c) if S.decide_hook else None
    if d is not None:
        return a if d else b
    r = add(b, mul(ind(c), sub(a, b)))
    ia, ib = iv(a), iv(b)
    if len(r.d) <= 60:
        lo = None if ia[0] is None or ib[0] is None else min(ia[0], ib[0])
        hi = None if ia[1] is None or ib[1] is None else max(ia[1], ib[1])
        r._iv = _isect(iv(r), (lo, hi))
    return r


def b2p(x):
    return ind(x) if isinstance(x, Bool) else x


# branching is installed by explore.py
def branch(c):
    if c.op == "const":
        return c.args[0]
    return BRANCH(c)


def BRANCH(c):  # replaced at run time
    raise EngineUnsupported("branch outside exploration")


def add_fact(b):
    """Record an assumed condition as interval information."""
    if b.op == "and":
        for x in b.args:
            add_fact(x)
        return
    if b.op not in ("le", "lt", "eq"):
        return
    p = b.args[0]
    key, sc, c0 = canon_nonconst(p)
    if key is None:
        return
    v = -c0 / sc
    lo, hi = S.facts.get(key, (None, None))
    if b.op == "eq":
        n = (v, v)
    elif sc > 0:
        n = (None, v)
    else:
        n = (v, None)
    S.facts[key] = _isect((lo, hi), n)
    lin = all(len(m) <= 1 and all(e == 1 for _a, e in m) for m in p.d)
    if lin:
        S.linfacts.append(p)
        if b.op == "eq":
            S.linfacts.append(neg(p))
        S.lincache.clear()
    if len(key) == 1:
        (m, c), = key
        if len(m) == 1 and m[0][1] == 1 and S.atoms[m[0][0]].kind == "var":
            a = S.atoms[m[0][0]]
            a.lo, a.hi = _isect((a.lo, a.hi), S.facts[key])
            if a.isint:
                a.lo = None if a.lo is None else Fraction(math.ceil(a.lo))
                a.hi = None if a.hi is None else Fraction(math.floor(a.hi))
    S.generation += 1


# ----------------------------------------------------------------------------- numeric evaluation

class EvalFail(Exception):
    pass


class Evaluator:
    """Evaluate terms at a concrete assignment {var name: float}.  Tracks the smallest
    margin of any floor/comparison so that boundary points can be recognised."""

    def __init__(self, env):
        self.env = env
        self.cache = {}
        self.margin = float("inf")

    def atom(self, aid):
        v = self.cache.get(aid)
        if v is not None:
            return v
        a = S.atoms[aid]
        k = a.kind
        if k == "var":
            if a.name not in self.env:
                raise EvalFail(a.name)
            v = self.env[a.name]
            v = v if isinstance(v, Fraction) else float(v)
        elif k == "sqrt":
            x = float(self.poly(a.args[0]))
            v = math.sqrt(x) if x >= 0 else (0.0 if x > -1e-12 else float("nan"))
        elif k == "box":
            v = self.poly(a.args[0])
        elif k == "floor":
            x = self.poly(a.args[0])
            if x != x or abs(x) == INF:
                raise EvalFail("floor of non-finite")
            if not isinstance(x, Fraction):
                self.margin = min(self.margin, abs(x - round(x)))
            v = Fraction(math.floor(x))
        elif k == "round":
            x = self.poly(a.args[0])
            self.margin = min(self.margin, abs(float(x) - math.floor(x) - 0.5))
            v = Fraction(round(x))
        elif k == "ind":
            v = F1 if self.bool(a.args[0]) else F0
        elif k == "max":
            v = max(self.poly(x) for x in a.args)
        elif k == "draw":
            lo, hi, u = (self.poly(x) for x in a.args)
            v = lo + (hi - lo) * u
        elif k == "uf":
            try:
                v = UF_PY[a.name](*[float(self.poly(x)) for x in a.args])
            except KeyError:
                raise EvalFail(a.name)
            except (ValueError, OverflowError, ZeroDivisionError):
                v = float("nan")
        else:
            raise EvalFail(k)
        self.cache[aid] = v
        return v

    def poly(self, p):
        if isinstance(p, Special):
            return p.v
        if isinstance(p, Bool):
            return 1.0 if self.bool(p) else 0.0
        t = F0
        for m, c in p.d.items():
            x = c
            # indicators first: a false guard hides undefined factors
            ms = m
            if len(m) > 1:
                ms = sorted(m, key=lambda q: 0 if S.atoms[q[0]].kind == "ind" else 1)
            for (a, e) in ms:
                v = self.atom(a)
                if S.atoms[a].kind == "ind" and v == 0:
                    x = F0
                    break
                if e < 0 and v == 0:
                    x = float("nan")
                    break
                if isinstance(x, Fraction) and not isinstance(v, Fraction):
                    x = float(x)
                elif isinstance(v, Fraction) and not isinstance(x, Fraction):
                    v = float(v)
                x = x * v ** e
            if isinstance(t, Fraction) and not isinstance(x, Fraction):
                t = float(t)
            elif isinstance(x, Fraction) and not isinstance(t, Fraction):
                x = float(x)
            t = t + x
        return t

    def bool(self, b):
        if b.op == "const":
            return b.args[0]
        if b.op == "not":
            return not self.bool(b.args[0])
        if b.op == "and":
            return all(self.bool(x) for x in b.args)
        if b.op == "or":
            return any(self.bool(x) for x in b.args)
        v = self.poly(b.args[0])
        if isinstance(v, float) and v != v:
            raise EvalFail("nan")
        if not isinstance(v, Fraction):
            self.margin = min(self.margin, abs(v))
        return v <= 0 if b.op == "le" else v < 0 if b.op == "lt" else v == 0


# ----------------------------------------------------------------------------- printing

def show(p, depth=3):
    if isinstance(p, Special):
        return str(p.v)
    if isinstance(p, Bool):
        return showb(p, depth)
    if not p.d:
        return "0"
    parts = []
    for i, (m, c) in enumerate(sorted(p.d.items())):
        if i > 12:
            parts.append(f"...[{len(p.d)} terms]")
            break
        fs = []
        if c != 1 or not m:
            fs.append(str(c) if c.denominator < 10 ** 6 else f"{float(c):.9g}")
        for a, e in m:
            s = show_atom(S.atoms[a], depth - 1)
            fs.append(s if e == 1 else f"{s}^{e}")
        parts.append("*".join(fs))
    return " + ".join(parts)


def show_atom(a, depth):
    if a.kind == "var":
        return a.name
    if depth < 0:
        return f"{a.kind}#{a.id}"
    if a.kind == "ind":
        return f"[{showb(a.args[0], depth)}]"
    nm = a.name if a.kind == "uf" else a.kind
    return f"{nm}({', '.join(show(x, depth) for x in a.args)})"


def showb(b, depth=3):
    if b.op == "const":
        return str(b.args[0])
    if b.op in ("le", "lt", "eq"):
        return f"{show(b.args[0], depth)} {dict(le='<=', lt='<', eq='==')[b.op]} 0"
    if b.op == "not":
        return f"!({showb(b.args[0], depth)})"
    return "(" + f" {b.op} ".join(showb(x, depth) for x in b.args[:6]) + ")"
