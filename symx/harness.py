"""Harness layer: bodies written once, run symbolically (to decide) and
concretely (to validate and to replay), in parallel, with evidence."""
from __future__ import annotations

import importlib
import json
import math
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import time
import traceback
import warnings
from fractions import Fraction
from pathlib import Path

import numpy as np

from . import solve, sym
from .poly import GENS, Poly, Rat, Unsupported, mono_items
from .sym import Ctx, Sym, SymBool, const, has_sym, patched, to_fraction

VERIF = Path(__file__).resolve().parent.parent
PYTHON = sys.executable


class ClaimFailed(Exception):
    def __init__(self, label, detail):
        super().__init__(f"{label}: {detail}")
        self.label = label
        self.detail = detail


class Candidate(BaseException):
    """A solver counterexample on the current path."""

    def __init__(self, label, model, detail, values=None):
        self.label, self.model, self.detail = label, model, detail
        self.values = values


class Timeout(BaseException):
    pass


# {{{ function tracing (which modepy functions were executed symbolically)

FUNCS = set()
_TOOL = 4
_mon_on = False


def _py_start(code, off):
    fn = code.co_filename
    if "/modepy/" in fn:
        FUNCS.add(f"{fn.split('/modepy/', 1)[1]}:{code.co_qualname}")
    return sys.monitoring.DISABLE


def trace_functions(on):
    global _mon_on
    m = sys.monitoring
    if on and not _mon_on:
        if m.get_tool(_TOOL) is None:
            m.use_tool_id(_TOOL, "symx")
            m.register_callback(_TOOL, m.events.PY_START, _py_start)
        m.restart_events()
        m.set_events(_TOOL, m.events.PY_START)
        _mon_on = True
    elif not on and _mon_on:
        m.set_events(_TOOL, 0)
        _mon_on = False

# }}}


class BaseEnv:
    tol_factor = 1.0

    def value(self, x):
        return x

    def reals(self, name, shape, lo=None, hi=None):
        if isinstance(shape, int):
            shape = (shape,)
        out = np.empty(shape, dtype=object if self.symbolic else np.float64)
        for i in np.ndindex(out.shape):
            out[i] = self.real(name + "_" + "_".join(map(str, i)), lo, hi)
        return out


class SymEnv(BaseEnv):
    symbolic = True

    def __init__(self, c):
        self.c = c
        self.names = {}
        self.nclaims = 0
        self.nscalars = 0
        self.how = {}
        self.margin = 0.0
        self.undecided = []
        self._den_ok = {}

    def canonical_sqrt(self):
        """Exact square roots of constants and of products, factor by factor."""
        self.c.factor_sqrt = True

    # inputs
    def real(self, name, lo=None, hi=None):
        if name in GENS.index:
            i = GENS.index[name]
            self.names[name] = i
            return Sym(Rat(Poly.gen(i)))
        v = sym.var(name, lo, hi)
        self.names[name] = GENS.index[name]
        return v

    def assume(self, cond):
        if isinstance(cond, SymBool):
            self.c.path.append((cond.poly, cond.op))
        elif not cond:
            raise sym.PathInfeasible

    def call(self, fn, *args, **kwargs):
        """Run code under test on symbolic values."""
        trace_functions(True)
        try:
            with patched(extra=PATCH_EXTRA), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return fn(*args, **kwargs)
        finally:
            trace_functions(False)

    def run(self, fn, *args, **kwargs):
        """Run code under test none of whose inputs is symbolic (its result is the matrix
        of a linear map whose arguments are the symbolic values of a later claim)."""
        trace_functions(True)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return fn(*args, **kwargs)
        finally:
            trace_functions(False)

    # claims
    def _scalar(self, x):
        if isinstance(x, np.ndarray) and x.shape == ():
            x = x[()]
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return const(int(bool(x)))
        if isinstance(x, (complex, np.complexfloating)):
            if x.imag:
                raise Unsupported("complex value in claim")
            x = x.real
        if isinstance(x, (bool, np.bool_)):
            x = int(x)
        x = float(x) if not isinstance(x, (int, Fraction, np.integer)) else x
        if x != x or x in (math.inf, -math.inf):
            raise Candidate("finite", self.any_model(), f"non-finite value {x}")
        return const(x)

    def any_model(self):
        return solve.path_model(self.c) or {}

    def _defined(self, t, label):
        for i in t:
            key = (i, len(self.c.path))
            if key in self._den_ok:
                continue
            r, kind = self.c.dens[i]
            lo, hi = solve.sign_interval(r.num, self.c) if not r.den else (None, None)
            if kind == "nz" and ((lo is not None and lo > 0) or (hi is not None and hi < 0)):
                self._den_ok[key] = True
                continue
            if kind == "ge0" and lo is not None and lo >= 0:
                self._den_ok[key] = True
                continue
            p = r.num
            if kind == "ge0":
                for q, e in r.den.values():
                    if e % 2:
                        p = p * q
            bad = (p, "eq" if kind == "nz" else "lt")
            f = solve.feasible(self.c, [bad])
            if f is False:
                self._den_ok[key] = True
                continue
            if f is True:
                m = solve.path_model(self.c, [bad])
                if m is not None:
                    raise Candidate(label, m, "operation undefined "
                        + ("(division by zero)" if kind == "nz" else "(sqrt of negative)"))
            self.undecided.append((label, "definedness"))
            self._den_ok[key] = True

    def _one(self, d, tol, label, two_sided):
        self.nscalars += 1
        self._defined(d.t, label)
        v = solve.prove_bound(d.r, tol, self.c, two_sided)
        self.how[v.how] = self.how.get(v.how, 0) + 1
        if v.kind == "proved":
            return
        if v.kind == "refuted":
            # prefer a counterexample that violates the claim by a wide margin
            m = v.model
            t = Fraction(tol)
            for mult in (10**6, 1000, 10):
                big = t * mult if t else Fraction(mult, 10**9)
                if big > 10:
                    continue
                w = solve.prove_bound(d.r, big, self.c, two_sided, timeout=3000)
                if w.kind == "refuted":
                    m = w.model
                    break
            raise Candidate(label, m, f"residual {d.r!r}"[:600])
        self.undecided.append((label, v.how))

    def eq(self, a, b, tol=1e-9, label=""):
        self.nclaims += 1
        aa, bb = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        if aa.shape != bb.shape:
            raise Candidate(label, self.any_model(), f"shape {aa.shape} != {bb.shape}")
        for i in np.ndindex(aa.shape):
            d = self._scalar(aa[i]) - self._scalar(bb[i])
            self._one(d, tol, f"{label}{list(i) if i else ''}", True)

    def le(self, a, b, tol=0, label=""):
        self.nclaims += 1
        aa, bb = np.broadcast_arrays(np.asarray(a, dtype=object),
                                     np.asarray(b, dtype=object))
        for i in np.ndindex(aa.shape):
            d = self._scalar(aa[i]) - self._scalar(bb[i])
            self._one(d, tol, f"{label}{list(i) if i else ''}", False)

    def true(self, cond, label=""):
        self.nclaims += 1
        self.nscalars += 1
        if isinstance(cond, SymBool):
            t = solve.feasible(self.c, [(cond.poly, sym.NEG[cond.op])])
            if t is False:
                return
            if t is True:
                raise Candidate(label, solve.path_model(self.c,
                    [(cond.poly, sym.NEG[cond.op])]), "condition fails")
            self.undecided.append((label, "condition"))
            return
        if not cond:
            raise Candidate(label, self.any_model(), "condition fails")

    def never(self, clauses, label="", timeout=60000):
        """Claim that no values satisfy every clause; a clause is a list of alternatives
        (expression, op) with op in lt, le, gt, ge meaning expression op 0."""
        self.nclaims += 1
        self.nscalars += 1
        import z3
        enc = solve.NEnc()
        s = z3.Solver()
        s.set("timeout", timeout)
        for cl in clauses:
            alts = []
            for e, op in cl:
                e = self._scalar(e)
                self._defined(e.t, label)
                if e.r.den:
                    raise Unsupported("rational function in a clause")
                alts.append(enc.con(e.r.num, op))
            s.add(z3.Or(*alts))
        for c in enc.context(self.c):
            s.add(c)
        r = solve._check(s)
        if r == z3.unsat:
            self.how["LRA"] = self.how.get("LRA", 0) + 1
        elif r == z3.sat:
            m = solve.model_of(s, enc)
            raise Candidate(label, m, "clauses are satisfiable")
        else:
            self.undecided.append((label, "clauses: timeout"))

    def lin(self, e, tol=1e-9, label="", prefix="c"):
        """Claim |sum_k c_k e[..., k]| <= tol for all coefficients c in [-1,1]^K, where
        e[..., k] is what the code under test makes of the k-th basis vector."""
        e = np.asarray(e, dtype=np.float64)
        e2 = e.reshape(-1, e.shape[-1])
        self.nclaims += 1
        for r, row in enumerate(e2):
            self.nscalars += 1
            lab = f"{label}[{r}]" if len(e2) > 1 else label
            if not np.all(np.isfinite(row)):
                k = int(np.argmax(~np.isfinite(row)))
                raise Candidate(lab, {}, f"non-finite at basis vector {k}",
                                {f"{prefix}{j}": float(j == k) for j in range(len(row))})
            if tol:
                self.margin = max(self.margin, float(np.sum(np.abs(row))) / float(tol))
            m = solve.linear_sup(row, tol)
            if m is None:
                self.how["LRA"] = self.how.get("LRA", 0) + 1
            elif m == "unknown":
                self.undecided.append((lab, "LRA unknown"))
            else:
                raise Candidate(lab, {}, "linear functional exceeds tolerance",
                                {f"{prefix}{j}": float(v) for j, v in enumerate(m)})

    def enumerates(self, tuples, d, cons, label="", name="k"):
        """Claim: *tuples* lists, once each, exactly the integer vectors x of length d
        with a . x <= b for every (a, b) in cons."""
        import z3
        self.nclaims += 1
        self.nscalars += 1
        tuples = [tuple(int(v) for v in t) for t in tuples]
        if any(len(t) != d for t in tuples):
            raise Candidate(label, {}, "tuple of the wrong length")
        x = [z3.Int(f"{name}{i}") for i in range(d)]
        s = z3.Solver()
        s.set("timeout", 20000)
        ok = z3.And([sum(int(c) * v for c, v in zip(a, x)) <= int(b) for a, b in cons])
        hits = sum([z3.If(z3.And([v == e for v, e in zip(x, t)]), 1, 0) for t in tuples])
        s.add(z3.If(ok, hits != 1, hits != 0))
        r = solve._check(s)
        if r == z3.unsat:
            self.how["LIA"] = self.how.get("LIA", 0) + 1
        elif r == z3.sat:
            m = s.model()
            raise Candidate(label, {}, "integer vector listed wrongly", {
                f"{name}{i}": m.eval(v, model_completion=True).as_long()
                for i, v in enumerate(x)})
        else:
            self.undecided.append((label, "LIA unknown"))

    def generic(self, fn, args, at):
        """Run code under test on free symbolic *args*, with every branch taken as at
        the generic point *at* (no path condition is recorded): the rational function
        the code computes around that point."""
        self.c.generic = {}
        for v, w in at:
            gi, = v.r.num.gens()
            self.c.generic[gi] = to_fraction(w)
        try:
            return self.call(fn, *args)
        finally:
            self.c.generic = None

    # formal operations for oracles
    def value(self, x):
        """A value that must not depend on the symbolic inputs."""
        if not isinstance(x, Sym):
            return x
        if not x.r.is_const():
            raise Unsupported("value depends on symbolic inputs")
        return x.r.const_value()

    def exact(self, x):
        return x if isinstance(x, Sym) else const(x)

    def diff(self, x, v):
        gi, = v.r.num.gens()
        if isinstance(x, np.ndarray):
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(x.shape):
                out[i] = self.diff(x[i], v)
            return out
        if not isinstance(x, Sym):
            return const(0)
        return Sym(x.r.diff(gi), x.t)

    def total_diff(self, x, v):
        """Derivative with respect to *v*, through opaque functions with a known rule."""
        gi, = v.r.num.gens()
        memo = {}

        def dgen(g):
            if g == gi:
                return const(1)
            if g not in memo:
                info = GENS.info[g]
                if not info:
                    return const(0)
                a = Sym(info[1])
                da = rec(a)
                if isinstance(da, Sym) and da.r.is_zero():
                    memo[g] = da
                else:
                    if info[0] not in sym.DERIVATIVE:
                        raise Unsupported(f"derivative of {info[0]}")
                    memo[g] = sym.DERIVATIVE[info[0]](a, Sym(Rat(Poly.gen(g)))) * da
            return memo[g]

        def rec(x):
            out = const(0)
            for g in x.r.gens():
                d = dgen(g)
                if not d.r.is_zero():
                    out = out + Sym(x.r.diff(g)) * d
            return out
        return rec(x if isinstance(x, Sym) else const(x))

    def cleared(self, x, like):
        """x times its denominators (which the claims on x show to be non-zero), in units
        of the largest coefficient of *like* times the same."""
        d = Rat(Poly.const(1))
        for p, e in x.r.den.values():
            d = d * Rat(p) ** e
        y = like.r * d
        if y.den:
            raise Unsupported("denominators do not match")
        big = max(abs(c) for _, c in y.num.terms())
        return Sym(Rat(x.r.num.scale(1 / Fraction(big))), x.t)

    def coeffs(self, x, v):
        """Coefficients of the powers of variable *v* (denominators free of v)."""
        gi, = v.r.num.gens()
        for q, _ in x.r.den.values():
            if gi in q.gens():
                raise Unsupported("coefficients of a rational function")
        n = max(x.r.num.degree(gi), 0)
        out = []
        for k in range(n + 1):
            out.append(Sym(Rat(x.r.num.coeff(gi, k), dict(x.r.den)), x.t))
        return out

    def poly_terms(self, x, vs):
        """x as a polynomial in vs: {exponent tuple: Fraction}."""
        gis = [v.r.num.gens().copy().pop() for v in vs]
        if x.r.den:
            raise Unsupported("not a polynomial")
        out = {}
        for m, c in x.r.num.terms():
            ex = dict(mono_items(m))
            t = tuple(ex.pop(g, 0) for g in gis)
            if ex:
                raise Unsupported("not a polynomial in the point alone")
            out[t] = out.get(t, 0) + c
        return out

    def opaque_terms(self, x, name):
        """x = constant + sum of weight * name(argument): (constant, [(weight, argument)])."""
        if x.r.den:
            raise Unsupported("not a combination of " + name)
        const_, out = Fraction(0), []
        for m, c in x.r.num.terms():
            it = list(mono_items(m))
            if not it:
                const_ += c
                continue
            if len(it) != 1 or it[0][1] != 1:
                raise Unsupported("not a combination of " + name)
            info = GENS.info[it[0][0]]
            if not info or info[0] != name:
                raise Unsupported("not a combination of " + name)
            out.append((c, Sym(info[1])))
        return const_, out

    def subs(self, x, mapping):
        """mapping: list of (variable Sym, value Sym)."""
        mp_ = {}
        for v, w in mapping:
            gi, = v.r.num.gens()
            mp_[gi] = (w if isinstance(w, Sym) else const(w)).r
        if isinstance(x, np.ndarray):
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(x.shape):
                out[i] = self.subs(x[i], mapping)
            return out
        if not isinstance(x, Sym):
            return x
        return Sym(x.r.subs(mp_))


PATCH_EXTRA = []


class ConcEnv(BaseEnv):
    """Plain execution of the real code; claims compare floats."""
    symbolic = False

    def __init__(self, values=None, rnd=None, mode=0):
        self.values = dict(values or {})
        self.rnd = rnd
        self.mode = mode
        self.nclaims = 0

    def real(self, name, lo=None, hi=None):
        if name in self.values:
            return float(self.values[name])
        lo_ = -1.0 if lo is None else float(lo)
        hi_ = lo_ + 2.0 if hi is None else float(hi)
        if lo is None and hi is not None:
            lo_ = hi_ - 2
        if self.rnd is None:
            v = (lo_ + hi_) / 2
        elif self.mode == 1:
            v = self.rnd.choice([lo_, hi_, (lo_ + hi_) / 2])
        else:
            v = self.rnd.uniform(lo_, hi_)
        self.values[name] = v
        return v

    def canonical_sqrt(self):
        pass

    def assume(self, cond):
        if not cond:
            raise sym.PathInfeasible

    def call(self, fn, *args, **kwargs):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn(*args, **kwargs)

    run = call

    def eq(self, a, b, tol=1e-9, label=""):
        self.nclaims += 1
        aa, bb = np.asarray(a), np.asarray(b)
        if aa.shape != bb.shape:
            raise ClaimFailed(label, f"shape {aa.shape} != {bb.shape}")
        if aa.size == 0:
            return
        if aa.dtype == object or bb.dtype == object:
            aa = np.array([complex(v) for v in aa.flat]).reshape(aa.shape)
            bb = np.array([complex(v) for v in bb.flat]).reshape(bb.shape)
        d = np.abs(aa - bb)
        if not np.all(d <= float(tol)):
            i = np.unravel_index(np.argmax(np.where(np.isnan(d), np.inf, d)), d.shape)
            raise ClaimFailed(f"{label}{[int(k) for k in i] if i else ''}",
                f"{aa[i]!r} vs {bb[i]!r}, |difference| {d[i]!r} > {tol}")

    def le(self, a, b, tol=0, label=""):
        self.nclaims += 1
        d = np.asarray(a, dtype=float) - np.asarray(b, dtype=float)
        # rounding allowance for inequalities that are tight in exact arithmetic
        if not np.all(d <= float(tol) + 1e-11):
            raise ClaimFailed(label, f"{np.max(d)!r} > {tol}")

    def lin(self, e, tol=1e-9, label="", prefix="c"):
        self.nclaims += 1
        e = np.asarray(e, dtype=np.float64)
        e2 = e.reshape(-1, e.shape[-1])
        c = np.array([self.real(f"{prefix}{k}", -1, 1) for k in range(e2.shape[1])])
        v = e2 @ c if e2.size else np.zeros(len(e2))
        if not np.all(np.abs(v) <= float(tol)):
            raise ClaimFailed(label, f"{np.max(np.abs(v))!r} > {tol} for the given "
                              "coefficients")

    def enumerates(self, tuples, d, cons, label="", name="k"):
        self.nclaims += 1
        tuples = [tuple(int(v) for v in t) for t in tuples]
        for t in tuples:
            if len(t) != d or tuples.count(t) != 1 or any(
                    sum(c * v for c, v in zip(a, t)) > b for a, b in cons):
                raise ClaimFailed(label, f"{t} is listed wrongly")
        x = tuple(int(self.values.get(f"{name}{i}", 0)) for i in range(d))
        ok = all(sum(c * v for c, v in zip(a, x)) <= b for a, b in cons)
        if d and ok != (tuples.count(x) == 1):
            raise ClaimFailed(label, f"{x} is listed wrongly")
        if not d and len(tuples) != 1:
            raise ClaimFailed(label, "one empty tuple expected")

    def never(self, clauses, label="", timeout=None):
        self.nclaims += 1
        ops = {"lt": lambda v: v < 0, "le": lambda v: v <= 0, "gt": lambda v: v > 0,
               "ge": lambda v: v >= 0}
        if all(any(ops[op](float(e)) for e, op in cl) for cl in clauses):
            raise ClaimFailed(label, "the given values satisfy every clause")

    def true(self, cond, label=""):
        self.nclaims += 1
        if not cond:
            raise ClaimFailed(label, "condition fails")


def fail_label(e):
    if isinstance(e, ClaimFailed):
        return e.label
    return f"raises {type(e).__name__}"


def run_concrete(body, kwargs, values=None, rnd=None, mode=0):
    """-> (None | (label, detail), values used)"""
    env = ConcEnv(values, rnd, mode)
    sym.set_ctx(None)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            body(env, **kwargs)
        return None, env
    except sym.PathInfeasible:
        return None, env
    except ClaimFailed as e:
        return (e.label, e.detail), env
    except Exception as e:
        if isinstance(e, Unsupported):
            return None, env
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/modepy/" in f.filename]
        w = f" at {where[-1].filename.split('/modepy/')[-1]}:{where[-1].lineno}" if where else ""
        return (fail_label(e), f"{type(e).__name__}: {e}{w}"), env


def model_values(env, model):
    out = {}
    for name, gi in env.names.items():
        if gi in model:
            out[name] = float(model[gi])
        else:
            lo, hi = GENS.bounds[gi]
            if lo is not None and hi is not None:
                out[name] = float((lo + hi) / 2)
            else:
                out[name] = float(lo if lo is not None else (hi if hi is not None else 1))
    return out


def run_obligation(body, kwargs, budget=60, seed=1, max_paths=400):
    """Decide one obligation. Returns a JSON-able record."""
    rec = {"status": "decided", "paths": 0, "branches": 0, "claims": 0, "scalars": 0,
           "how": {}, "validated": 0, "undecided": [], "violation": None, "sample": None}
    solve.reset_stats()
    FUNCS.clear()
    t0 = time.time()
    rnd = random.Random(seed)
    stack = [()]
    cands = []
    witnesses = []
    feas_any = False
    try:
        signal.signal(signal.SIGALRM, _on_alarm)
        signal.setitimer(signal.ITIMER_REAL, budget)
        while stack:
            prefix = stack.pop()
            GENS.reset()
            c = Ctx(prefix)
            sym.set_ctx(c)
            env = SymEnv(c)
            try:
                body(env, **kwargs)
                feas_any = True
            except sym.PathInfeasible:
                pass
            except Candidate as e:
                cands.append((e.label, {**model_values(env, e.model or {}),
                                        **(e.values or {})}, str(e.detail)))
            except (Unsupported, RecursionError) as e:
                rec["undecided"].append(f"unsupported: {e}")
            except ClaimFailed:
                raise
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                loc = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-3:])
                rec["undecided"].append(f"{type(e).__name__}: {e} [{loc}]"[:300])
            rec["paths"] += 1
            rec["branches"] += len(c.taken)
            rec["claims"] += env.nclaims
            rec["scalars"] += env.nscalars
            rec["margin"] = max(rec.get("margin", 0.0), env.margin)
            for k, v in env.how.items():
                rec["how"][k] = rec["how"].get(k, 0) + v
            rec["undecided"] += [f"{a}: {b}" for a, b in env.undecided]
            if len(witnesses) < 40:
                prefer = {}
                for name, gi in env.names.items():
                    lo, hi = GENS.bounds[gi]
                    if lo is not None and hi is not None:
                        prefer[gi] = lo + (hi - lo) * Fraction(rnd.randint(1, 255), 256)
                try:
                    m = solve.path_model(c, prefer=prefer)
                except Exception:
                    m = None
                if m is not None:
                    witnesses.append(model_values(env, m))
            for i in range(len(prefix), len(c.taken)):
                val, forked = c.taken[i]
                if forked:
                    stack.append(tuple(c.taken[:i]) + ((not val, False),))
            if rec["paths"] >= max_paths and stack:
                rec["undecided"].append(f"path limit {max_paths}")
                break
            if len(cands) >= 4:
                break
    except Timeout:
        rec["undecided"].append("time budget")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sym.set_ctx(None)
    rec["t_sym"] = time.time() - t0
    # counterexamples: keep what the real code reproduces
    viol = None
    unrepro = []
    for label, values, detail in cands:
        r, env = run_concrete(body, kwargs, values)
        rec["validated"] += 1
        if r is not None:
            viol = {"label": r[0], "detail": r[1], "values": env.values,
                    "solver": f"{label}: {detail}"[:500]}
            break
        unrepro.append(f"{label}: {detail}"[:200])
    # validation: one witness per path through the real code, plus corner draws
    if viol is None:
        runs = [("w", w, None, 0) for w in witnesses]
        n = 2 if not rec["undecided"] and not unrepro else 8
        runs += [("r", None, random.Random(seed * 1000 + i), i % 2) for i in range(n)]
        for _, w, rn, mode in runs:
            if time.time() - t0 > 2 * budget + 20:
                break
            r, env = run_concrete(body, kwargs, w, rn, mode)
            rec["validated"] += 1
            if rec["sample"] is None:
                rec["sample"] = {k: env.values[k] for k in list(env.values)[:6]}
            if r is not None:
                viol = {"label": r[0], "detail": r[1], "values": env.values,
                        "solver": "solver witness of a path / bound corner"}
                break
    if viol is not None:
        rec["violation"] = viol
        rec["status"] = "violated"
    elif unrepro:
        rec["status"] = "undecided"
        rec["undecided"] += [f"unreproduced counterexample {u}" for u in unrepro]
    elif rec["undecided"]:
        rec["status"] = "undecided"
    elif not feas_any or not rec["claims"]:
        rec["status"] = "undecided"
        rec["undecided"].append("vacuous: no path reached a claim")
    rec["undecided"] = rec["undecided"][:6]
    rec.update(queries=solve.STATS["queries"], unsat=solve.STATS["unsat"],
               sat=solve.STATS["sat"], solver_s=solve.STATS["solver_s"],
               wall=time.time() - t0, funcs=sorted(FUNCS))
    return rec


def _on_alarm(*a):
    raise Timeout


# {{{ parallel driver

def load(prop):
    return importlib.import_module(f"props.{prop.lower()}")


def _worker(job):
    prop, name, fn, kwargs, budget, seed = job
    try:
        mod = load(prop)
        body = getattr(mod, fn)
        t0 = time.time()
        rec = run_obligation(body, kwargs, budget, seed)
    except BaseException as e:   # noqa: BLE001
        rec = {"status": "undecided", "paths": 0, "branches": 0, "claims": 0, "scalars": 0,
               "how": {}, "validated": 0, "violation": None, "sample": None,
               "undecided": [f"engine: {type(e).__name__}: {e} "
                             f"{traceback.format_exc()[-400:]}"],
               "queries": 0, "unsat": 0, "sat": 0, "solver_s": 0, "wall": 0, "funcs": []}
        if isinstance(e, KeyboardInterrupt):
            raise
    rec["name"] = name
    rec["fn"] = fn
    rec["kwargs"] = kwargs
    return rec


def expand(mod, tier, seed):
    obs = []
    for o in mod.obligations(tier, seed):
        name, fn, kwargs = o[:3]
        budget = o[3] if len(o) > 3 else (120 if tier == "quick" else 240)
        obs.append((name, fn, kwargs, budget))
    names = [o[0] for o in obs]
    assert len(set(names)) == len(names), "duplicate obligation names"
    return obs


def read_findings():
    """known-findings.txt: 'known: property=<id> key=<obligation>::<label prefix> <text>'"""
    out = []
    p = VERIF / "known-findings.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            if line.startswith("known: "):
                parts = line[7:].split(" ", 2)
                out.append((parts[0].split("=", 1)[1], parts[1].split("=", 1)[1], parts[2]))
    return out


def main(prop, only=None, verbose=False):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    mod = load(prop)
    obs = expand(mod, tier, seed)
    if only:
        obs = [o for o in obs if only in o[0]]
    total = 600 if tier == "quick" else 3 * 3600
    jobs = [(prop, n, f, k, b, seed) for n, f, k, b in obs]
    recs = []
    nproc = int(os.environ.get("VERIF_JOBS", "8"))
    if verbose and len(jobs) == 1:
        recs = [_worker(jobs[0])]
    else:
        # longest budgets first
        with mp.get_context("fork").Pool(nproc, maxtasksperchild=50) as pool:
            it = [(j, pool.apply_async(_worker, (j,))) for j in jobs]
            for j, a in it:
                left = max(1.0, total - (time.time() - t0))
                try:
                    recs.append(a.get(left))
                except mp.TimeoutError:
                    recs.append({"status": "undecided", "paths": 0, "branches": 0,
                        "claims": 0, "scalars": 0, "how": {}, "validated": 0,
                        "violation": None, "sample": None,
                        "undecided": ["total time budget"], "queries": 0, "unsat": 0,
                        "sat": 0, "solver_s": 0, "wall": 0, "funcs": [],
                        "name": j[1], "fn": j[2], "kwargs": j[3]})
            pool.terminate()
    return report(prop, mod, tier, seed, recs, t0, verbose, partial=bool(only))


def report(prop, mod, tier, seed, recs, t0, verbose, partial=False):
    findings = [f for f in read_findings() if f[0] == prop]
    exit_code = 0
    nviol = 0
    rdir = VERIF / "replays"
    hit = set()
    for r in recs:
        if verbose:
            print(f"{r['status']:10s} {r['wall']:6.1f}s p={r['paths']} c={r['scalars']} "
                  f"q={r['queries']} v={r['validated']} {r['how']} m={r.get('margin', 0):.1e} {r['name']}")
        if r["status"] == "undecided":
            for u in r["undecided"][:3]:
                print(f"INCONCLUSIVE {prop} {r['name']}: {u}"[:400])
        if r["status"] != "violated":
            continue
        v = r["violation"]
        key = f"{r['name']}::{v['label']}"
        k = next((f for f in findings if key.startswith(f[1])), None)
        if k is not None:
            hit.add(k)
            r["status"] = "known-finding"
            continue
        if nviol >= 3:
            continue
        rdir.mkdir(exist_ok=True)
        path = rdir / f"{prop}_{abs(hash_str(key)) % 10**8:08d}.json"
        path.write_text(json.dumps({"property": prop, "obligation": r["name"],
            "fn": r["fn"], "kwargs": r["kwargs"], "values": v["values"],
            "label": v["label"], "detail": v["detail"], "solver": v["solver"]}, indent=1))
        pr = subprocess.run([PYTHON, str(VERIF / "check.py"), "--replay", str(path)],
                            capture_output=True, text=True, timeout=300)
        if pr.returncode == 1:
            nviol += 1
            print(f"violated: {r['name']} {v['label']}: {v['detail']}"[:500])
            print(f"VIOLATION property={prop} replay={path}")
            exit_code = 1
        else:
            r["status"] = "undecided"
            r["undecided"].append("not reproduced in a clean process")
            print(f"INCONCLUSIVE {prop} {r['name']}: not reproduced in a clean process: "
                  f"{pr.stdout[-200:]}{pr.stderr[-300:]}")
    for f in findings:
        if f in hit:
            print(f"KNOWN-FINDING: property={prop} {f[2]}")
    decided = [r for r in recs if r["status"] == "decided"]
    und = [r for r in recs if r["status"] == "undecided"]
    samples = [{"obligation": r["name"], "witness": r["sample"], "closed_by": r["how"]}
               for r in decided[:: max(1, len(decided) // 5)][:5]]
    funcs = sorted({f for r in recs for f in r["funcs"]})
    how = {}
    for r in recs:
        for k, v in r["how"].items():
            how[k or "other"] = how.get(k or "other", 0) + v
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(r["paths"] for r in recs),
            "transitions": sum(r["branches"] for r in recs),
            "traces_validated_against_impl": sum(r["validated"] for r in recs),
            "samples": samples,
            "obligations": len(recs),
            "discharged": len(decided),
            "undecided": [{"obligation": r["name"], "why": r["undecided"][:2]} for r in und],
            "scalar_claims": sum(r["scalars"] for r in recs),
            "claims_closed_by": how,
            "solver_queries": sum(r["queries"] for r in recs),
            "solver_unsat": sum(r["unsat"] for r in recs),
            "solver_sat": sum(r["sat"] for r in recs),
            "solver_seconds": round(sum(r["solver_s"] for r in recs), 3),
            "functions_encoded": funcs,
            "bounds": getattr(mod, "BOUNDS", ""),
            "explanation": "states = symbolic paths, transitions = symbolic branch "
                "decisions on them; every scalar claim is decided for all values of "
                "the symbolic inputs within the bounds",
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
            "IEEE doubles are treated as reals: every constant, table entry and "
            "precomputed node is the exact double, arithmetic on symbolic values is "
            "exact; roundoff and overflow of the arithmetic itself are outside the claim"],
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
    }
    if not partial:
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1))
    print(f"{prop} [{tier}]: {len(recs)} obligations, {len(decided)} decided, {len(und)} "
          f"undecided, {nviol} violations; {ev['coverage']['scalar_claims']} scalar claims, "
          f"{ev['coverage']['solver_queries']} queries, "
          f"{ev['coverage']['solver_seconds']} s solver, {ev['wall_s']} s wall")
    if exit_code == 0 and not decided:
        print(f"{prop}: nothing was decided")
        exit_code = 2
    return exit_code


def _self_body(env, good):
    x = env.reals("x", 3, -1, 1)
    y = env.call(lambda: np.dot(np.ones(3), x * x))
    env.le(y, 3 if good else 2, label="bound")
    env.eq((x[0] + x[1]) ** 2 - x[0] ** 2, x[1] ** 2 + 2 * x[0] * x[1] if good else x[1] ** 2,
           1e-12, "identity")


def selftest():
    """The engine proves a true claim and refutes a false one."""
    ok = (run_obligation(_self_body, {"good": True})["status"] == "decided"
          and run_obligation(_self_body, {"good": False})["status"] == "violated")
    print("selftest", "passed" if ok else "FAILED")
    return 0 if ok else 1


def hash_str(s):
    import zlib
    return zlib.crc32(s.encode())


def replay(path):
    d = json.loads(Path(path).read_text())
    mod = load(d["property"])
    r, _ = run_concrete(getattr(mod, d["fn"]), d["kwargs"], d["values"])
    if r is None:
        print("not reproduced")
        return 0
    print(f"reproduced: {d['property']} {d['obligation']} {r[0]}: {r[1]}")
    return 1

# }}}
