"""Solver back end: z3 decides feasibility of paths and validity of claims.

A claim |residual| <= tol over a box is decided by linear real arithmetic over
monomial abstraction (every monomial of the exact residual polynomial becomes a
bounded real; unsat means the claim holds for every value), and by nonlinear
real arithmetic where that is not conclusive.
"""
from __future__ import annotations

import time
from fractions import Fraction

import z3

from .poly import EB, GENS, ZERO, Poly, Rat, Unsupported, mono_divides, mono_items

STATS = {"queries": 0, "solver_s": 0.0, "unsat": 0, "sat": 0, "unknown": 0}


def reset_stats():
    for k in STATS:
        STATS[k] = 0


def _check(s):
    t = time.time()
    r = s.check()
    STATS["solver_s"] += time.time() - t
    STATS["queries"] += 1
    STATS[str(r)] += 1
    return r


def zfrac(c):
    c = Fraction(c)
    return z3.RealVal(f"{c.numerator}/{c.denominator}")


def round_frac(c, bits=80):
    """Nearby fraction with small numerator/denominator; returns (c', |c-c'| bound)."""
    if c.numerator.bit_length() <= bits and c.denominator.bit_length() <= bits:
        return c, Fraction(0)
    # scale to `bits` significant bits
    e = c.numerator.bit_length() - c.denominator.bit_length()
    sh = bits - e
    if sh >= 0:
        n = (c.numerator << sh) // c.denominator
        r = Fraction(n, 1 << sh)
    else:
        n = c.numerator // (c.denominator << -sh)
        r = Fraction(n << -sh)
    return r, abs(c - r)


def gen_bounds(ctx):
    """Bounds per generator, tightened by univariate linear path constraints."""
    b = {}
    for i, (lo, hi) in enumerate(GENS.bounds):
        b[i] = [lo, hi]
    if ctx is not None:
        for p, op in ctx.path:
            g = p.gens()
            if len(g) != 1:
                continue
            gi, = g
            if p.degree(gi) != 1:
                continue
            c1 = Fraction(p.n[1 << (EB * gi)], p.d)
            c0 = p.const_value()
            x = -c0 / c1
            o = op if c1 > 0 else {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le",
                                   "eq": "eq", "ne": "ne"}[op]
            if o in ("lt", "le", "eq") and (b[gi][1] is None or x < b[gi][1]):
                b[gi][1] = x
            if o in ("gt", "ge", "eq") and (b[gi][0] is None or x > b[gi][0]):
                b[gi][0] = x
    return b


def _ipow(lo, hi, e):
    if lo is None or hi is None:
        if e % 2 == 0:
            return Fraction(0), None
        if lo is not None:
            return lo ** e, None
        if hi is not None:
            return None, hi ** e
        return None, None
    a, b = lo ** e, hi ** e
    if e % 2 == 0:
        if lo <= 0 <= hi:
            return Fraction(0), max(a, b)
        return min(a, b), max(a, b)
    return a, b


def _imul(x, y):
    if x == (0, 0) or y == (0, 0):
        return Fraction(0), Fraction(0)
    c = []
    inf = False
    for a in x:
        for b in y:
            if a is None or b is None:
                inf = True
            else:
                c.append(a * b)
    if not inf:
        return min(c), max(c)
    # only handle the nonnegative case precisely
    if x[0] is not None and y[0] is not None and x[0] >= 0 and y[0] >= 0:
        return x[0] * y[0], (None if x[1] is None or y[1] is None else x[1] * y[1])
    return None, None


def sign_interval(p, ctx, bounds=None):
    b = bounds if bounds is not None else gen_bounds(ctx)
    lo = hi = Fraction(0)
    for m, c in p.terms():
        t = (Fraction(1), Fraction(1))
        for gi, e in mono_items(m):
            t = _imul(t, _ipow(b[gi][0], b[gi][1], e))
        if c < 0:
            t = (t[1], t[0])
        l = None if t[0] is None else t[0] * c
        h = None if t[1] is None else t[1] * c
        lo = None if lo is None or l is None else lo + l
        hi = None if hi is None or h is None else hi + h
    return lo, hi


# {{{ nonlinear encoding

class NEnc:
    def __init__(self):
        self.vars = {}

    def v(self, gi):
        x = self.vars.get(gi)
        if x is None:
            x = self.vars[gi] = z3.Real(f"g{gi}")
        return x

    def poly(self, p, bits=None):
        # bits: round coefficients (only for refutation searches)
        ts = []
        for m, c in p.terms():
            if bits:
                c, _ = round_frac(c, bits)
            t = zfrac(c)
            for gi, e in mono_items(m):
                x = self.v(gi)
                for _ in range(e):
                    t = t * x
            ts.append(t)
        return z3.Sum(ts) if ts else z3.RealVal(0)

    def con(self, p, op):
        e = self.poly(p)
        return {"lt": e < 0, "le": e <= 0, "gt": e > 0, "ge": e >= 0,
                "eq": e == 0, "ne": e != 0}[op]

    def context(self, ctx, gens=None):
        """Bounds, algebraic rules, facts and path condition over the generators."""
        cons = []
        cons += [self.con(p, op) for p, op in (ctx.path if ctx else [])]
        cons += [self.con(p, op) for p, op in GENS.facts]
        done = set()
        while True:
            todo = set(self.vars) - done
            if not todo:
                break
            for gi in todo:
                lo, hi = GENS.bounds[gi]
                x = self.v(gi)
                if lo is not None:
                    cons.append(x >= zfrac(lo))
                if hi is not None:
                    cons.append(x <= zfrac(hi))
                if gi in GENS.alg:
                    k, rhs = GENS.alg[gi]
                    t = x
                    for _ in range(k - 1):
                        t = t * x
                    cons.append(t == self.poly(rhs))
                done.add(gi)
        return cons


def feasible(ctx, extra, timeout=None):
    """True/False/None: is path + extra satisfiable?"""
    s = z3.Solver()
    s.set("timeout", timeout or ctx.feas_timeout)
    enc = NEnc()
    ex = [enc.con(p, op) for p, op in extra]
    for c in enc.context(ctx):
        s.add(c)
    s.add(*ex)
    r = _check(s)
    if r == z3.sat:
        return True
    if r == z3.unsat:
        return False
    return None


def model_of(s, enc):
    m = s.model()
    out = {}
    for gi, x in enc.vars.items():
        v = m.eval(x, model_completion=True)
        if z3.is_rational_value(v):
            out[gi] = Fraction(v.numerator_as_long(), v.denominator_as_long())
        elif z3.is_algebraic_value(v):
            a = v.approx(30)
            out[gi] = Fraction(a.numerator_as_long(), a.denominator_as_long())
    return out


def path_model(ctx, extra=(), timeout=4000, prefer=None):
    s = z3.Solver()
    s.set("timeout", timeout)
    enc = NEnc()
    ex = [enc.con(p, op) for p, op in extra]
    for c in enc.context(ctx):
        s.add(c)
    s.add(*ex)
    if prefer:
        s.push()
        for gi, val in prefer.items():
            if gi in enc.vars:
                s.add(enc.v(gi) == zfrac(val))
        if _check(s) == z3.sat:
            m = model_of(s, enc)
            return {**prefer, **m}
        s.pop()
    if _check(s) == z3.sat:
        return {**(prefer or {}), **model_of(s, enc)}
    return None

# }}}


class Verdict:
    def __init__(self, kind, model=None, how=""):
        self.kind = kind        # "proved" | "refuted" | "unknown"
        self.model = model
        self.how = how


def prove_bound(res, tol, ctx, two_sided=True, timeout=8000, refute=True):
    """Decide  |res| <= tol (two_sided)  or  res <= tol  on the current path."""
    tol = Fraction(tol)
    if res.is_zero() and tol >= 0 and _const_query(Fraction(0), tol, two_sided):
        return Verdict("proved", how="identically zero")
    if not res.den:
        p = res.num
        v = _prove_poly(p, tol, ctx, two_sided)
        if v is not None:
            return v
        neg = [("gt", p - Poly.const(tol))]
        if two_sided:
            neg.append(("lt", p + Poly.const(tol)))
    else:
        # sign of the denominator
        d = Poly.const(1)
        for q, e in res.den.values():
            d = d * q ** e
        lo, hi = sign_interval(d, ctx)
        if lo is not None and lo >= 0:
            pass
        elif hi is not None and hi <= 0:
            d = -d
            res = Rat(-res.num)
        else:
            f = feasible(ctx, [(d, "lt")])
            if f is not False:
                g = feasible(ctx, [(d, "gt")])
                if g is not False:
                    return Verdict("unknown", how="denominator of unknown sign")
                d = -d
                res = Rat(-res.num)
        n = res.num
        up = n - d.scale(tol)
        v1 = _prove_poly(up, Fraction(0), ctx, False)
        v2 = _prove_poly(-n - d.scale(tol), Fraction(0), ctx, False) if two_sided \
            else Verdict("proved")
        if v1 is not None and v2 is not None:
            return Verdict("proved", how="LRA")
        neg = [("gt", up)]
        if two_sided:
            neg.append(("gt", -n - d.scale(tol)))
    if not refute:
        return Verdict("unknown", how="LRA inconclusive")
    allun = True
    for op, p in neg:
        k, m = decide_nra(p, op, ctx, timeout)
        if k == "sat":
            return Verdict("refuted", m, "NRA")
        if k != "unsat":
            allun = False
    if allun:
        return Verdict("proved", how="NRA")
    return Verdict("unknown", how="NRA timeout")


def _const_query(c, tol, two_sided):
    """The residual simplified to a constant: the solver refutes its violation."""
    s = z3.SolverFor("QF_LRA")
    r = z3.Real("r")
    s.add(r == zfrac(c))
    s.add(z3.Or(r > zfrac(tol), r < zfrac(-tol)) if two_sided else r > zfrac(tol))
    return _check(s) == z3.unsat


def _prove_poly(p, tol, ctx, two_sided):
    """LRA over monomial abstraction; Verdict('proved') or None."""
    if p.is_const():
        c = p.const_value()
        if (abs(c) if two_sided else c) <= tol and _const_query(c, tol, two_sided):
            return Verdict("proved", how="constant")
        # constant violation: only real if the path is feasible
        return None
    b = gen_bounds(ctx)
    sub = {}
    for gi in p.gens():
        lo, hi = b[gi]
        if lo is None or hi is None:
            continue
        if (lo, hi) == (0, 1):
            continue
        if lo > hi:
            return None     # handled by feasibility
        sub[gi] = Poly.const(lo) + Poly.gen(gi).scale(hi - lo)
    mp = [(q, op) for q, op in ctx.path if len(q.gens()) > 1
          or (q.gens() and q.degree() > 1)] + GENS.facts if ctx else []
    q = p.subs(sub) if sub else p
    cons = []
    for r, op in mp:
        s2 = {}
        for gi in r.gens():
            lo, hi = b[gi]
            if lo is None or hi is None or (lo, hi) == (0, 1) or lo > hi:
                continue
            s2[gi] = Poly.const(lo) + Poly.gen(gi).scale(hi - lo)
        cons.append((r.subs(s2) if s2 else r, op))

    mono = {}

    def mv(m):
        v = mono.get(m)
        if v is None:
            v = mono[m] = z3.Real(f"m{len(mono)}")
        return v

    slack = Fraction(0)
    ts = []
    for m, c in q.terms():
        if m == 0:
            ts.append(zfrac(c))
            continue
        c2, err = round_frac(c, 48)
        if err:
            for gi, _ in mono_items(m):
                if b[gi][0] is None or b[gi][1] is None:
                    c2, err = c, Fraction(0)
                    break
        slack += err
        ts.append(zfrac(c2) * mv(m))
    t2 = tol - slack
    s = z3.SolverFor("QF_LRA")
    s.set("timeout", 10000)
    e = z3.Sum(ts)
    cz = []
    for r, op in cons:
        rt = [zfrac(c) * mv(m) if m else zfrac(c) for m, c in r.terms()]
        re = z3.Sum(rt) if rt else z3.RealVal(0)
        if op != "ne":
            cz.append({"lt": re <= 0, "le": re <= 0, "gt": re >= 0, "ge": re >= 0,
                       "eq": re == 0}[op])
    for m, v in mono.items():
        # every substituted generator lies in [0, 1]; others keep their bounds
        lo, hi = Fraction(1), Fraction(1)
        t = (Fraction(1), Fraction(1))
        for gi, ex in mono_items(m):
            l, h = b[gi]
            if l is not None and h is not None and l <= h:
                l, h = Fraction(0), Fraction(1)
            t = _imul(t, _ipow(l, h, ex))
        lo, hi = t
        if lo is not None:
            s.add(v >= zfrac(lo))
        if hi is not None:
            s.add(v <= zfrac(hi))
    if cz:
        s.add(*cz)
        cm = set()
        for r, _ in cons:
            cm |= {m for m in r.n if m}
        unit = {gi for gi, (l, h) in b.items() if l is not None and h is not None and l <= h}
        for m in list(mono):
            for m2 in cm:
                if m2 != m and mono_divides(m2, m) \
                        and all(gi in unit for gi, _ in mono_items(m)):
                    s.add(mono[m] <= mono[m2])
    if two_sided:
        s.add(z3.Or(e > zfrac(t2), e < zfrac(-t2)))
    else:
        s.add(e > zfrac(t2))
    if _check(s) == z3.unsat:
        return Verdict("proved", how="LRA")
    if all(l is not None and h is not None for l, h in (b[g] for g in q.gens())) \
            and _prove_bernstein(q, tol, two_sided):
        return Verdict("proved", how="LRA (Bernstein)")
    return None


def _prove_bernstein(q, tol, two_sided, limit=5000):
    """Over the unit box the polynomial is a convex combination of its Bernstein
    coefficients; the solver refutes that a combination exceeds the tolerance."""
    from math import comb, lcm

    import numpy as np
    gens = sorted(q.gens())
    degs = [q.degree(g) for g in gens]
    size = 1
    for d in degs:
        size *= d + 1
    if size > limit or not gens:
        return False
    # integers over a common denominator
    den = q.d
    a = np.zeros([d + 1 for d in degs], dtype=object)
    for m, c in q.n.items():
        a[tuple((m >> (EB * g)) & ((1 << EB) - 1) for g in gens)] = c
    for k, d in enumerate(degs):
        l = lcm(*(comb(d, j) for j in range(d + 1)))
        t = np.zeros((d + 1, d + 1), dtype=object)
        for i in range(d + 1):
            for j in range(i + 1):
                t[i, j] = comb(i, j) * (l // comb(d, j))
        a = np.moveaxis(np.tensordot(t, a, axes=(1, k)), 0, k)
        den *= l
    co = [Fraction(int(v), den) for v in a.flat]
    s = z3.SolverFor("QF_LRA")
    s.set("timeout", 10000)
    ws = [z3.Real(f"w{i}") for i in range(len(co))]
    up, dn = [], []
    for c, w in zip(co, ws):
        s.add(w >= 0)
        c2, err = round_frac(c, 60)
        up.append(zfrac(c2 + err - tol) * w)
        dn.append(zfrac(c2 - err + tol) * w)
    s.add(z3.Or(z3.Sum(up) > 0, z3.Sum(dn) < 0) if two_sided else z3.Sum(up) > 0)
    return _check(s) == z3.unsat


def decide_nra(p, op, ctx, timeout):
    """Is path && p op 0 satisfiable? -> ('sat', model)/('unsat', None)/('unknown', None)"""
    import random
    # 1. restrictions to lines (univariate problems are cheap for nlsat)
    base = path_model(ctx) or {}
    gens = sorted(p.gens())
    rnd = random.Random(1)
    b = gen_bounds(ctx)
    if not gens:
        c = p.const_value()
        bad = c > 0 if op == "gt" else c < 0
        if not bad:
            return "unsat", None
        m = path_model(ctx)
        return ("sat", m) if m is not None else ("unsat", None)
    # full problem, short
    if len(gens) <= 3 and p.degree() <= 6:
        s = z3.Solver()
        s.set("timeout", timeout)
        enc = NEnc()
        q = enc.poly(p)
        for c in enc.context(ctx):
            s.add(c)
        s.add(q > 0 if op == "gt" else q < 0)
        r = _check(s)
        if r == z3.sat:
            return "sat", model_of(s, enc)
        if r == z3.unsat:
            return "unsat", None
    t0 = time.time()
    for attempt in range(40):
        if (time.time() - t0) * 1000 > timeout:
            break
        free = gens[attempt % len(gens)]
        fix = {}
        for gi in gens:
            if gi == free or gi in GENS.alg:
                continue
            lo, hi = b[gi]
            if lo is not None and hi is not None:
                fix[gi] = lo + (hi - lo) * Fraction(rnd.randint(0, 64), 64) \
                    if attempt % 4 else rnd.choice([lo, hi])
            else:
                x = base.get(gi, Fraction(1))
                fix[gi] = x if attempt < len(gens) else x * Fraction(rnd.randint(32, 128), 64)
        s = z3.Solver()
        s.set("timeout", 1000)
        enc = NEnc()
        ps = p.subs({gi: Poly.const(v) for gi, v in fix.items()})
        q = enc.poly(ps, bits=60)
        for gi in fix:
            enc.v(gi)
        for c in enc.context(ctx):
            s.add(c)
        for gi, v in fix.items():
            s.add(enc.v(gi) == zfrac(v))
        s.add(q > 0 if op == "gt" else q < 0)
        r = _check(s)
        if r == z3.sat:
            m = model_of(s, enc)
            m.update(fix)
            return "sat", m
    return "unknown", None


def linear_sup(row, tol):
    """Is there c in [-1,1]^K with |sum c_k row_k| > tol?  None / list / 'unknown'."""
    tol = Fraction(tol)
    nz = [(k, Fraction(float(v))) for k, v in enumerate(row) if v]
    s = z3.SolverFor("QF_LRA")
    s.set("timeout", 60000)
    slack = Fraction(0)
    ts = []
    vs = {}
    # coefficients on a grid much finer than the tolerance, the error added to the slack
    grid = Fraction(1, 2 ** (4096 * len(row) / tol).__ceil__().bit_length()) if tol else None
    for k, v in nz:
        if grid:
            v2 = round(v / grid) * grid
            err = abs(v - v2)
        else:
            v2, err = round_frac(v, 53)
        slack += err
        if not v2:
            continue
        x = vs[k] = z3.Real(f"c{k}")
        s.add(x >= -1, x <= 1)
        ts.append(zfrac(v2) * x)
    e = z3.Sum(ts) if ts else z3.RealVal(0)
    t2 = tol - slack
    s.add(z3.Or(e > zfrac(t2), e < zfrac(-t2)))
    r = _check(s)
    if r == z3.unsat:
        return None
    if r == z3.unknown:
        return "unknown"
    # a wide-margin counterexample replays best
    for mult in (10**8, 10**5, 1000, 10):
        s.push()
        s.add(z3.Or(e > zfrac(t2 * mult), e < zfrac(-t2 * mult)))
        if _check(s) == z3.sat:
            break
        s.pop()
        _check(s)
    m = s.model()
    out = [Fraction(0)] * len(row)
    for k, x in vs.items():
        v = m.eval(x, model_completion=True)
        out[k] = Fraction(v.numerator_as_long(), v.denominator_as_long())
    return out
