"""z3 back end: translation of terms and the queries."""
from __future__ import annotations

import time
from fractions import Fraction

from .z3shim import z3
from . import terms as T
from .terms import Poly, Special, Bool, EngineUnsupported


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.trivial = 0      # residue already a constant after normalisation

    def as_dict(self):
        return dict(queries=self.queries, unsat=self.unsat, sat=self.sat,
                    unknown=self.unknown, solver_s=round(self.time, 4),
                    closed_by_normal_form=self.trivial)


STATS = Stats()


def rv(c):
    c = Fraction(c)
    return z3.RatVal(c.numerator, c.denominator)


class Tr:
    """Translator.  Collects definitional constraints of the atoms it meets."""

    def __init__(self, abstract=False):
        self.abstract = abstract      # products become fresh variables: sound for unsat only
        self.monos = {}
        self.atoms = {}
        self.defs = []
        self.draws = []
        self.polys = {}
        self.bools = {}
        self.ufs = {}
        self.nonlinear = False
        self.hasint = False
        self.trig = {}

    def atom(self, aid):
        z = self.atoms.get(aid)
        if z is not None:
            return z
        a = T.S.atoms[aid]
        k = a.kind
        if k == "ind":
            z = z3.If(self.bool(a.args[0]), z3.RealVal(1), z3.RealVal(0))
            self.atoms[aid] = z
            return z
        if k == "box" and self.abstract:
            z = z3.Real(f"box_{aid}")
            self.atoms[aid] = z
            self.defs.append(z == self.poly(a.args[0]))
            lo, hi = T.atom_iv(a)
            if lo is not None:
                self.defs.append(z >= rv(lo))
            if hi is not None:
                self.defs.append(z <= rv(hi))
            return z
        if k == "box":
            z = self.poly(a.args[0])
            self.atoms[aid] = z
            return z
        if a.isint:
            zi = z3.Int(f"{a.name or k}_{aid}")
            z = z3.ToReal(zi)
            self.hasint = True
        else:
            zi = None
            z = z3.Real(f"{a.name or k}_{aid}")
        self.atoms[aid] = z
        if k == "var":
            pass
        elif k == "sqrt":
            p = self.poly(a.args[0])
            self.defs.append(z >= 0)
            self.defs.append(z * z == p)
            self.nonlinear = True
        elif k == "draw":
            lo, hi, u = (self.poly(x) for x in a.args)
            ul, uh = T.iv(a.args[2])
            self.draws.append((z, lo, hi, u))
            self.defs.append(z >= lo + (hi - lo) * rv(ul))
            self.defs.append(z <= lo + (hi - lo) * rv(uh))
        elif k == "max":
            ps = [self.poly(x) for x in a.args]
            self.defs.extend(z >= x for x in ps)
            self.defs.append(z3.Or(*[z == x for x in ps]))
        elif k == "floor":
            p = self.poly(a.args[0])
            self.defs.append(z <= p)
            self.defs.append(p < z + 1)
        elif k == "round":
            p = self.poly(a.args[0])
            self.defs.append(z - rv("1/2") <= p)
            self.defs.append(p <= z + rv("1/2"))
            # half to even
            self.defs.append(z3.Implies(z3.Or(p == z + rv("1/2"), p == z - rv("1/2")),
                                        zi % 2 == 0))
        elif k == "uf":
            f = self.ufs.get((a.name, len(a.args)))
            if f is None:
                f = z3.Function("uf_" + a.name, *([z3.RealSort()] * (len(a.args) + 1)))
                self.ufs[(a.name, len(a.args))] = f
            args = [self.poly(x) for x in a.args]
            if not self.abstract:
                self.defs.append(z == f(*args))
            if a.name in ("cos", "sin"):
                self.trig.setdefault(a.args, {})[a.name] = z
                if len(self.trig[a.args]) == 2 and not self.abstract:
                    t = self.trig[a.args]
                    self.defs.append(t["cos"] * t["cos"] + t["sin"] * t["sin"] == 1)
                    self.nonlinear = True
            if a.name == "sinc":
                self.defs.append(z3.Implies(args[0] == 0, z == 1))
            if a.name == "exp":
                self.defs.append(z > 0)
                self.defs.append(z3.Implies(args[0] == 0, z == 1))
                self.defs.append(z3.Implies(args[0] <= 0, z <= 1))
                self.defs.append(z3.Implies(args[0] >= 0, z >= 1 + args[0]))
        else:
            raise EngineUnsupported("atom " + k)
        if a.lo is not None:
            self.defs.append(z >= rv(a.lo))
        if a.hi is not None:
            self.defs.append(z <= rv(a.hi))
        return z

    def inv_atom(self, aid, e):
        """z^(-e) as a fresh variable i with z != 0 => i*z == 1."""
        key = ("inv", aid)
        i = self.atoms.get(key)
        if i is None:
            z = self.atom(aid)
            i = z3.Real(f"inv_{aid}")
            self.atoms[key] = i
            if not self.abstract:
                self.defs.append(z3.Implies(z != 0, i * z == 1))
            lo, hi = T._ipow(T.atom_iv(T.S.atoms[aid]), -1)
            if lo is not None:
                self.defs.append(i >= rv(lo))
            if hi is not None:
                self.defs.append(i <= rv(hi))
            self.nonlinear = True
        return i

    def poly(self, p):
        if isinstance(p, Special):
            raise EngineUnsupported("inf/nan reached the solver")
        z = self.polys.get(p)
        if z is not None:
            return z
        ts = []
        for m, c in sorted(p.d.items()):
            fs = []
            if c != 1 or not m:
                fs.append(rv(c))
            if self.abstract and sum(abs(e) for _a, e in m) > 1:
                self.nonlinear = True
                inds = [a for a, _e in m if T.S.atoms[a].kind == "ind"]
                rest = tuple((a, e) for a, e in m if T.S.atoms[a].kind != "ind")
                t = self.mono(rest) if rest else z3.RealVal(1)
                if c != 1:
                    t = rv(c) * t
                if inds:
                    t = z3.If(z3.And([self.bool(T.S.atoms[a].args[0]) for a in inds]), t, z3.RealVal(0))
                ts.append(t)
                continue
            for (a, e) in m:
                if e > 0:
                    x = self.atom(a)
                    fs.extend([x] * e)
                else:
                    x = self.inv_atom(a, e)
                    fs.extend([x] * (-e))
            nn = sum(1 for (a, e) in m if T.S.atoms[a].kind != "ind" for _ in range(abs(e)))
            if nn > 1:
                self.nonlinear = True
            t = fs[0]
            for x in fs[1:]:
                t = t * x
            ts.append(t)
        if not ts:
            z = z3.RealVal(0)
        elif len(ts) == 1:
            z = ts[0]
        else:
            z = z3.Sum(ts)
        self.polys[p] = z
        return z

    def mono(self, m):
        if len(m) == 1 and m[0][1] == 1:
            return self.atom(m[0][0])
        z = self.monos.get(m)
        if z is None:
            z = z3.Real(f"mono_{len(self.monos)}")
            self.monos[m] = z
            if all(e == 1 and T.S.atoms[a].kind == "sqrt" for a, e in m):
                var = [T.S.atoms[a].args[0] for a, _e in m]
                con = [q for q in var if q.is_const()]
                var = [q for q in var if not q.is_const()]
                if len(var) == 1:          # sqrt(c)*sqrt(p) = sqrt(c*p)
                    c = Fraction(1)
                    for q in con:
                        c *= q.const()
                    self.defs.append(z >= 0)
                    self.defs.append(z * z == rv(c) * self.poly(var[0]))
            lo, hi = T.iv(Poly({m: Fraction(1)}))
            if all(e % 2 == 0 for _a, e in m) and (lo is None or lo < 0):
                lo = Fraction(0)
            if lo is not None:
                self.defs.append(z >= rv(lo))
            if hi is not None:
                self.defs.append(z <= rv(hi))
        return z

    def bool(self, b):
        z = self.bools.get(b)
        if z is not None:
            return z
        if b.op == "const":
            z = z3.BoolVal(b.args[0])
        elif b.op == "not":
            z = z3.Not(self.bool(b.args[0]))
        elif b.op == "and":
            z = z3.And([self.bool(x) for x in b.args])
        elif b.op == "or":
            z = z3.Or([self.bool(x) for x in b.args])
        else:
            p = self.poly(b.args[0])
            z = p <= 0 if b.op == "le" else p < 0 if b.op == "lt" else p == 0
        self.bools[b] = z
        return z


def _model_of(m, tr, names=None):
    """Values of input variables: {name: Fraction or float}."""
    out = {}
    for aid, z in tr.atoms.items():
        if isinstance(aid, tuple):
            continue
        a = T.S.atoms[aid]
        if a.kind != "var":
            continue
        v = m.eval(z, model_completion=True)
        out[a.name] = z2f(v)
    _draws_of(m, tr, out)
    return out


def _draws_of(m, tr, out):
    """the draws that give the values of the model"""
    for aid, z in tr.atoms.items():
        if isinstance(aid, tuple) or T.S.atoms[aid].kind != "draw":
            continue
        lo, hi, u = T.S.atoms[aid].args
        v, a, b = (z2f(m.eval(x, model_completion=True)) for x in (z, tr.poly(lo), tr.poly(hi)))
        ua = [T.S.atoms[i] for i in u.atoms()]
        if len(ua) == 1 and ua[0].kind == "var" and b > a:
            out[ua[0].name] = (v - a) / (b - a)


def z2f(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        q = v.approx(20)
        return Fraction(q.numerator_as_long(), q.denominator_as_long())
    try:
        return Fraction(str(v).rstrip("?"))
    except Exception:
        return Fraction(0)


def check(conds, timeout_ms=2000, want_model=True, fixed=None):
    """Satisfiability of a conjunction of Bools.  -> ('sat'|'unsat'|'unknown', model)"""
    t0 = time.perf_counter()
    tr = Tr()
    s = z3.SolverFor("QF_UFNIRA") if False else z3.Solver()
    s.set("timeout", int(timeout_ms))
    s.set("random_seed", 1)
    zs = [tr.bool(c) for c in conds]
    for z in zs:
        s.add(z)
    done = 0
    while done < len(tr.defs):
        s.add(tr.defs[done])
        done += 1
    if fixed:
        for z, lo, hi, u in tr.draws:
            s.add(z == lo + (hi - lo) * u)
        for aid, z in list(tr.atoms.items()):
            if isinstance(aid, tuple):
                continue
            a = T.S.atoms[aid]
            if a.kind == "var" and a.name in fixed:
                s.add(z == rv(Fraction(fixed[a.name])))
    if tr.nonlinear and not fixed:
        ta = Tr(abstract=True)
        sa = z3.Solver()
        sa.set("timeout", int(min(timeout_ms, 600)))
        sa.set("random_seed", 1)
        for c in conds:
            sa.add(ta.bool(c))
        for d in ta.defs:
            sa.add(d)
        STATS.queries += 1
        try:
            ra = sa.check()
        except z3.Z3Exception:
            ra = z3.unknown
        if ra == z3.unsat:
            STATS.unsat += 1
            STATS.time += time.perf_counter() - t0
            return "unsat", None
    STATS.queries += 1
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    if r == z3.unknown and tr.nonlinear and not tr.hasint and not tr.ufs:
        s2 = z3.Tactic("qfnra-nlsat").solver()
        s2.set("timeout", int(timeout_ms))
        for z in s.assertions():
            s2.add(z)
        try:
            r = s2.check()
            s = s2
        except z3.Z3Exception:
            r = z3.unknown
    STATS.time += time.perf_counter() - t0
    if r == z3.unsat:
        STATS.unsat += 1
        return "unsat", None
    if r == z3.sat:
        STATS.sat += 1
        return "sat", (_model_of(s.model(), tr) if want_model else None)
    STATS.unknown += 1
    return "unknown", None


def lp_bounds(key):
    """Bounds of the linear form `key` (frozenset of (mono, coeff)) under variable bounds and
    the linear facts."""
    t0 = time.perf_counter()
    p = Poly(dict(key))
    ats = p.atoms()
    facts = []
    # transitive closure of related facts
    changed = True
    pool = list(T.S.linfacts)
    rel = set(ats)
    used = [False] * len(pool)
    while changed:
        changed = False
        for i, f in enumerate(pool):
            if used[i]:
                continue
            fa = f.atoms()
            if fa & rel:
                used[i] = True
                rel |= fa
                facts.append(f)
                changed = True
    xs = {a: z3.Real(f"x{a}") for a in rel}

    def lin(q):
        return z3.Sum([rv(c) * xs[m[0][0]] if m else rv(c) for m, c in q.d.items()])
    res = []
    for sense in (0, 1):
        o = z3.Optimize()
        o.set("timeout", 500)
        for a in rel:
            at = T.S.atoms[a]
            lo, hi = T.atom_iv(at)
            if lo is not None:
                o.add(xs[a] >= rv(lo))
            if hi is not None:
                o.add(xs[a] <= rv(hi))
        for f in facts:
            o.add(lin(f) <= 0)
        h = o.minimize(lin(p)) if sense == 0 else o.maximize(lin(p))
        STATS.queries += 1
        r = o.check()
        if r == z3.sat:
            STATS.sat += 1
            v = o.lower(h) if sense == 0 else o.upper(h)
            s = str(v)
            if "oo" in s or "epsilon" in s:
                res.append(None)
            else:
                res.append(z2f(v))
        else:
            STATS.unknown += 1
            res.append(None)
    STATS.time += time.perf_counter() - t0
    return (res[0], res[1])
