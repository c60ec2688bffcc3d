"""Symbolic scalars and the path-forking executor.

`SymReal` is a rational function over real-valued z3 symbols: a z3 numerator and a
multiset of z3 denominator factors.  NumPy arrays with `dtype=object` carry these
through the *unmodified* code of `matrix` and of LAB, so the code under test is run, not
re-modelled.  Whenever the code turns a comparison into a Python `bool`, the executor
forks: both outcomes that z3 finds feasible are explored by re-executing the case with a
recorded decision prefix.
"""
import itertools
import random
import sys
import time
from fractions import Fraction

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import numpy as np
import z3
from lab.shape import Dimension

R0 = z3.RealVal(0)
R1 = z3.RealVal(1)


class EngineStop(BaseException):
    """Internal control flow; a `BaseException` so that code under test cannot eat it."""


class Unsupported(EngineStop):
    """The encoding does not cover an operation that was reached: inconclusive."""


class Infeasible(EngineStop):
    """The current path was found to be infeasible."""


class Budget(EngineStop):
    """The case ran out of its path or time budget."""


class Undefined(EngineStop):
    """An operation on this path may be undefined (e.g. a division by zero)."""

    def __init__(self, why, cond):
        super().__init__(why)
        self.why = why
        self.cond = cond


STATS = {"queries": 0, "solver_s": 0.0, "unknown": 0, "paths": 0, "forks": 0, "sat_by_witness": 0}


def check_sat(assertions, timeout_ms=4000, want_model=False):
    """One solver query over the conjunction of `assertions`."""
    t0 = time.time()
    result, model = z3.unknown, None
    makes = (lambda: z3.SolverFor("QF_NRA"), lambda: z3.Solver())
    if CUR is not None and CUR.integers:
        makes = makes[1:]
    for make in makes:
        s = make()
        s.set("timeout", timeout_ms)
        s.add(*assertions)
        try:
            result = s.check()
        except z3.Z3Exception:
            result = z3.unknown
        if result == z3.sat and want_model:
            model = s.model()
        if result != z3.unknown:
            break
    STATS["queries"] += 1
    STATS["solver_s"] += time.time() - t0
    if result == z3.unknown:
        STATS["unknown"] += 1
    return (result, model) if want_model else result


class Path:
    """State of one execution path."""

    def __init__(self, prefix=(), deadline=None, fork_timeout_ms=1500):
        self.prefix = list(prefix)
        self.trail = []  # Decisions taken on this path.
        self.alternatives = []  # Prefixes that remain to be explored.
        self.pc = []  # Path condition (assumptions and branch decisions).
        self.assumed = []  # Stated assumptions (text).
        self.obligations = []  # (label, z3 Bool that must hold)
        self.fresh = itertools.count()
        self.deadline = deadline
        self.fork_timeout_ms = fork_timeout_ms
        self.symbols = {}  # name -> z3 expr
        self.div_mode = "check"  # How to treat symbolic denominators.
        self.div_seen = set()
        self.uncertain = False
        self.samples = []
        self.seeded = False
        self.pc_checked = 0
        self.n_symbols = 0
        self.rng = random.Random(12345)
        self.psd_roots = []  # Registered (matrix, root) parametrisations.
        self.integers = False  # Are there integer symbols?
        self.isolver = None
        self.imodels = []
        self.ipos = 0
        self.idecided = {}

    def assume(self, cond):
        cond = z3.simplify(cond) if not isinstance(cond, bool) else z3.BoolVal(cond)
        if z3.is_false(cond):
            raise Infeasible()
        if not z3.is_true(cond):
            self.pc.append(cond)

    def branch(self, cond, neg=None):
        """Decide a branch condition; `neg` defaults to its negation."""
        cond = z3.simplify(cond, som=True)
        if z3.is_true(cond):
            return True
        if neg is None and z3.is_false(cond):
            return False
        if neg is None:
            neg = z3.Not(cond)
        if self.integers:
            known = self.idecided.get(cond.get_id())
            if known is not None:
                return known[1]
        if self.deadline and time.time() > self.deadline:
            raise Budget("time")
        k = len(self.trail)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            can_t = self.feasible(cond)
            can_f = self.feasible(neg)
            if can_t == z3.unknown or can_f == z3.unknown:
                self.uncertain = True
            t, f = can_t != z3.unsat, can_f != z3.unsat
            if not t and not f:
                raise Infeasible()
            if t and f:
                STATS["forks"] += 1
                self.alternatives.append(self.trail + [False])
            d = t
        self.trail.append(d)
        self.pc.append(cond if d else neg)
        if self.integers:
            self.idecided[cond.get_id()] = (cond, d)
        return d

    def isync(self):
        if self.isolver is None:
            self.isolver = z3.Solver()
            self.isolver.set("timeout", self.fork_timeout_ms)
        new = self.pc[self.ipos :]
        self.ipos = len(self.pc)
        for c in new:
            self.isolver.add(c)
        self.imodels = [m for m in self.imodels if all(z3.is_true(m.eval(c, True)) for c in new)]

    def icheck(self, cond):
        """Incremental query in the presence of integer symbols."""
        self.isync()
        for m in self.imodels:
            if z3.is_true(m.eval(cond, True)):
                STATS["sat_by_witness"] += 1
                return z3.sat
        t0 = time.time()
        self.isolver.push()
        self.isolver.add(cond)
        r = self.isolver.check()
        if r == z3.sat:
            self.imodels.append(self.isolver.model())
            self.imodels = self.imodels[-6:]
        self.isolver.pop()
        STATS["queries"] += 1
        STATS["solver_s"] += time.time() - t0
        if r == z3.unknown:
            r = check_sat(self.pc + [cond], self.fork_timeout_ms)
        return r

    def feasible(self, cond):
        """Is `cond` feasible here?  Witnesses of earlier queries are tried first."""
        if self.integers:
            return self.icheck(cond)
        for m in self.pool():
            if self.holds(m, [cond]):
                STATS["sat_by_witness"] += 1
                return z3.sat
        r, model = check_sat(self.pc + [cond], self.fork_timeout_ms, want_model=True)
        if r == z3.sat:
            m = {}
            for v in model.decls():
                if v.arity() == 0 and z3.is_rational_value(model[v]):
                    m[v.name()] = model[v]
                else:
                    m = None
                    break
            if m is not None:
                self.samples.append(m)
        return r

    def holds(self, m, conds):
        subs = [(z3.Real(n), v) for n, v in m.items()]
        for c in conds:
            if not z3.is_true(z3.simplify(z3.substitute(c, *subs))):
                return False
        return True

    def pool(self):
        """Assignments that satisfy the path condition."""
        names = {n for n in self.symbols}
        if len(self.samples) == 0 and not self.seeded:
            self.seeded = True
            for k in range(10):
                self.samples.append({})
        while self.pc_checked < len(self.pc) or self.n_symbols != len(names):
            self.n_symbols = len(names)
            new = self.pc[self.pc_checked :]
            self.pc_checked = len(self.pc)
            keep = []
            for m in self.samples:
                for n in names:
                    if n not in m:
                        m[n] = z3.RealVal(self.rng.choice((-3, -2, -1, 0, 1, 1, 2, 2, 3, 4)))
                if self.holds(m, new):
                    keep.append(m)
            self.samples = keep
        return self.samples

    def choose(self, n, label="choice"):
        """Fork over `n` discrete alternatives: a symbolic index decided by the path."""
        k = len(self.trail)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            d = 0
            for other in range(n - 1, 0, -1):
                self.alternatives.append(self.trail + [other])
        self.trail.append(d)
        return d

    def fresh_real(self, stem):
        name = f"!{stem}{next(self.fresh)}"
        # Witness pools do not cover constrained auxiliary symbols.
        self.samples, self.seeded = [], True
        return z3.Real(name)


CUR = None  # The current path.


def cur():
    if CUR is None:
        raise Unsupported("symbolic operation outside a path")
    return CUR


def set_cur(p):
    global CUR
    CUR = p


class SymBool(Dimension):
    """A symbolic Boolean; asking for its truth value forks the path."""

    __iter__ = None
    __len__ = None
    __hash__ = object.__hash__
    dtype = np.dtype(bool)
    shape = ()
    ndim = 0

    @property
    def dim(self):
        return self

    def __repr__(self):
        return f"SymBool({self.c})"

    __str__ = __repr__

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __init__(self, c, neg=None):
        self.c = c
        self.neg = neg

    def __bool__(self):
        return cur().branch(self.c, self.neg)

    def __invert__(self):
        return SymBool(z3.Not(self.c))

    def __and__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else SymBool(z3.BoolVal(False))
        if isinstance(o, SymBool):
            return SymBool(z3.And(self.c, o.c))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return SymBool(z3.BoolVal(True)) if o else self
        if isinstance(o, SymBool):
            return SymBool(z3.Or(self.c, o.c))
        return NotImplemented

    __ror__ = __or__


def _frac(x):
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported(f"non-finite constant {x}")
        # Read a float that is the closest one to a simple fraction, such as `1 / 3`, as
        # that fraction: all arithmetic here is real arithmetic.
        simple = Fraction(x).limit_denominator(1000)
        return simple if float(simple) == x else Fraction(x)
    return None


def _rv(f):
    return z3.RealVal(f"{f.numerator}/{f.denominator}" if f.denominator != 1 else str(f.numerator))


def _surd(x):
    """Read a float that is the closest one to the root of a simple fraction as that root."""
    if not 1e-6 < abs(x) < 1e6 or CUR is None:
        return None
    if float(Fraction(x).limit_denominator(1000)) == x:
        return None
    q = Fraction(x * x).limit_denominator(100)
    if q > 0 and abs(float(q) ** 0.5 - abs(x)) <= 2e-16 * abs(x):
        r = SymReal(None, (), q).sqrt()
        return r if x > 0 else -r
    return None


def lift(x):
    """Lift a Python/NumPy number to a `SymReal`, or return `None`."""
    if isinstance(x, SymReal):
        return x
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    if isinstance(x, (float, np.floating)):
        r = _surd(float(x))
        if r is not None:
            return r
    f = _frac(x)
    if f is None:
        return None
    return SymReal(None, (), f)


def _den_mul(d1, d2):
    if not d1:
        return d2
    if not d2:
        return d1
    out = {}
    for e, p in d1:
        out[e.get_id()] = [e, p]
    for e, p in d2:
        if e.get_id() in out:
            out[e.get_id()][1] += p
        else:
            out[e.get_id()] = [e, p]
    return tuple((e, p) for e, p in out.values())


def _den_lcm(d1, d2):
    """Return the least common multiple and the cofactors of both."""
    if not d1 and not d2:
        return (), None, None
    m1 = {e.get_id(): (e, p) for e, p in d1}
    m2 = {e.get_id(): (e, p) for e, p in d2}
    out, c1, c2 = [], [], []
    for i in {**m1, **m2}:
        e = (m1.get(i) or m2.get(i))[0]
        p1 = m1[i][1] if i in m1 else 0
        p2 = m2[i][1] if i in m2 else 0
        p = max(p1, p2)
        out.append((e, p))
        c1 += [e] * (p - p1)
        c2 += [e] * (p - p2)
    return tuple(out), c1, c2


def _prod(es):
    if not es:
        return None
    out = es[0]
    for e in es[1:]:
        out = out * e
    return out


TOL_MAX = Fraction(1, 10**6)


class SymReal(Dimension):
    """A symbolic real number `num / prod(den)`, or a constant `const`."""

    __slots__ = ("_num", "den", "const", "tiny", "sos")
    __iter__ = None
    __len__ = None
    __hash__ = object.__hash__
    dtype = np.dtype(object)
    shape = ()
    ndim = 0

    def __init__(self, num, den=(), const=None, tiny=False):
        self._num = num
        self.den = den
        self.const = const
        self.tiny = tiny  # Is this a symbolic value scaled by a numerical tolerance?
        # If not `None`, then this is a positive combination of the squares or absolute
        # values of these, so it vanishes exactly if all of them do.
        self.sos = None

    @property
    def is_tiny(self):
        if self.const is not None:
            return 0 < self.const <= TOL_MAX
        return self.tiny

    @property
    def dim(self):
        return self

    @property
    def num(self):
        if self.const is not None:
            return _rv(self.const)
        return self._num

    # Comparison with zero and conversion to a condition:

    def den_expr(self):
        fs = [e for e, p in self.den for _ in range(p)]
        return _prod(fs)

    def cond(self, op, other):
        """z3 condition `self op other` for `op` in `eq`, `lt`, `le`."""
        if op == "gt0":
            return z3.Not(self.cond("le", ZERO))
        if other.const == 0 and op in ("eq", "le") and self.sos is not None:
            return z3.And(*[x.cond("eq", ZERO) for x in self.sos])
        if self.const == 0 and op == "eq" and other.sos is not None:
            return other.cond("eq", self)
        if self.const == 0 and op == "lt" and other.sos is not None:
            return z3.Or(*[z3.Not(x.cond("eq", ZERO)) for x in other.sos])
        if self.const is not None and other.const is not None:
            a, b = self.const, other.const
            return z3.BoolVal({"eq": a == b, "lt": a < b, "le": a <= b}[op])
        lcm, c1, c2 = _den_lcm(self.den, other.den)
        p1, p2 = _prod(c1 or []), _prod(c2 or [])
        l = self.num if p1 is None else self.num * p1
        r = other.num if p2 is None else other.num * p2
        if op == "eq":
            return l == r
        # The sign of the common denominator matters.
        odd = _prod([e for e, p in lcm if p % 2 == 1])
        if odd is not None:
            l, r = l * odd, r * odd
        return l < r if op == "lt" else l <= r

    def _cmp(self, op, other):
        o = lift(other)
        if o is None:
            return NotImplemented
        return SymBool(self.cond(op, o))

    def __eq__(self, other):
        o = lift(other)
        if o is None:
            return NotImplemented
        if self.const is not None and o.const is not None:
            return self.const == o.const
        return SymBool(self.cond("eq", o))

    def __ne__(self, other):
        r = self.__eq__(other)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else SymBool(z3.Not(r.c))

    def __lt__(self, other):
        o = lift(other)
        if o is None:
            return NotImplemented
        if self.const is not None and o.const is not None:
            return self.const < o.const
        if o.is_tiny and not self.is_tiny and cur().tol_band:
            # A numerical tolerance.  Read `x < tol` as "x is exactly zero"; values in
            # the open band (0, tol) are excluded by assumption (and covered by the
            # check that is about the tolerance itself).  Negative `x` stays `True`.
            cur().tol_used = True
            return SymBool(
                z3.And(self.cond("le", ZERO), self.cond("lt", o)),
                z3.Not(self.cond("lt", o)),
            )
        return SymBool(self.cond("lt", o))

    def __le__(self, other):
        o = lift(other)
        if o is None:
            return NotImplemented
        if self.const is not None and o.const is not None:
            return self.const <= o.const
        if o.is_tiny and not self.is_tiny and cur().tol_band:
            cur().tol_used = True
            return SymBool(
                z3.And(self.cond("le", ZERO), self.cond("le", o)),
                z3.Not(self.cond("le", o)),
            )
        return SymBool(self.cond("le", o))

    def __gt__(self, other):
        o = lift(other)
        if o is None:
            return NotImplemented
        if self.const is not None and o.const is not None:
            return self.const > o.const
        if self.is_tiny and not o.is_tiny:
            return o.__lt__(self)
        if o.is_tiny and not self.is_tiny and cur().tol_band:
            r = self.__le__(o)
            return SymBool(r.neg, r.c)
        return SymBool(o.cond("lt", self))

    def __ge__(self, other):
        o = lift(other)
        if o is None:
            return NotImplemented
        if self.const is not None and o.const is not None:
            return self.const >= o.const
        if self.is_tiny and not o.is_tiny:
            return o.__le__(self)
        if o.is_tiny and not self.is_tiny and cur().tol_band:
            r = self.__lt__(o)
            return SymBool(r.neg, r.c)
        return SymBool(o.cond("le", self))

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __index__(self):
        if self.const is not None and self.const.denominator == 1:
            return int(self.const)
        raise Unsupported("symbolic value used as an index")

    def __float__(self):
        if self.const is not None:
            return float(self.const)
        raise Unsupported("symbolic value converted to float")

    def __int__(self):
        if self.const is not None and self.const.denominator == 1:
            return int(self.const)
        raise Unsupported("symbolic value converted to int")

    # Arithmetic:

    def __neg__(self):
        if self.const is not None:
            return SymReal(None, (), -self.const)
        return SymReal(-self._num, self.den)

    def __pos__(self):
        return self

    def __add__(self, other):
        if isinstance(other, SymLog):
            return NotImplemented
        o = lift(other)
        if o is None:
            return NotImplemented
        if self.const is not None:
            if o.const is not None:
                return SymReal(None, (), self.const + o.const)
            if self.const == 0:
                return o
        elif o.const is not None and o.const == 0:
            return self
        tiny = self.is_tiny and o.is_tiny
        if not self.den and not o.den:
            out = SymReal(self.num + o.num, tiny=tiny)
        else:
            lcm, c1, c2 = _den_lcm(self.den, o.den)
            p1, p2 = _prod(c1), _prod(c2)
            l = self.num if p1 is None else self.num * p1
            r = o.num if p2 is None else o.num * p2
            out = SymReal(l + r, lcm, tiny=tiny)
        if self.sos is not None and o.sos is not None:
            out.sos = self.sos + o.sos
        return out

    __radd__ = __add__

    def __sub__(self, other):
        if isinstance(other, SymLog):
            return NotImplemented
        o = lift(other)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, other):
        o = lift(other)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, other):
        if isinstance(other, SymLog):
            return NotImplemented
        o = lift(other)
        if o is None:
            return NotImplemented
        if self.const is not None:
            if o.const is not None:
                return SymReal(None, (), self.const * o.const)
            if self.const == 0:
                return self
            if self.const == 1:
                return o
            if self.const == -1:
                return -o
        elif o.const is not None:
            if o.const == 0:
                return o
            if o.const == 1:
                return self
            if o.const == -1:
                return -self
        n, den = self.num * o.num, _den_mul(self.den, o.den)
        # Cancel syntactically equal factors of numerator and denominator.
        if den:
            for x, d in ((self, o.den), (o, self.den)):
                if x.const is None and d:
                    for e, p in d:
                        if e.get_id() == x._num.get_id():
                            y = o if x is self else self
                            den = _den_mul(
                                x.den,
                                tuple((e2, p2 - (e2.get_id() == e.get_id())) for e2, p2 in y.den if p2 - (e2.get_id() == e.get_id()) > 0),
                            )
                            return SymReal(y.num, den)
        out = SymReal(n, den, tiny=self.is_tiny or o.is_tiny)
        if o is self or (self.const is None and o.const is None and not self.den and not o.den and self._num.eq(o._num)):
            out.sos = [self]
        elif self.sos is not None and o.const is not None and o.const > 0:
            out.sos = self.sos
        elif o.sos is not None and self.const is not None and self.const > 0:
            out.sos = o.sos
        return out

    __rmul__ = __mul__

    def inverse(self):
        if self.const is not None:
            if self.const == 0:
                raise Undefined("division by the constant zero", z3.BoolVal(True))
            return SymReal(None, (), 1 / self.const)
        _note_div(self._num)
        return SymReal(self.den_expr() if self.den else R1, ((self._num, 1),))

    def __truediv__(self, other):
        o = lift(other)
        if o is None:
            return NotImplemented
        return self * o.inverse()

    def __rtruediv__(self, other):
        o = lift(other)
        if o is None:
            return NotImplemented
        return o * self.inverse()

    def __pow__(self, k):
        if isinstance(k, np.ndarray):
            return NotImplemented
        f = k.const if isinstance(k, SymReal) else _frac(k)
        if f is None:
            raise Unsupported("power with a symbolic exponent")
        if f.denominator == 1:
            n = int(f)
            if n == 0:
                return SymReal(None, (), Fraction(1))
            base = self if n > 0 else self.inverse()
            out = base
            for _ in range(abs(n) - 1):
                out = out * base
            return out
        if f == Fraction(1, 2):
            return self.sqrt()
        if f.denominator == 2:
            return self.sqrt() ** f.numerator
        if f.denominator == 4:
            return self.sqrt().sqrt() ** f.numerator
        raise Unsupported("fractional power")

    def __rpow__(self, o):
        raise Unsupported("power with a symbolic exponent")

    def __abs__(self):
        if self.const is not None:
            return SymReal(None, (), abs(self.const))
        a = lambda e: z3.If(e >= 0, e, -e)
        out = SymReal(a(self._num), tuple((e if p % 2 == 0 else a(e), p) for e, p in self.den))
        out.sos = [self]
        return out

    def absolute(self):
        return abs(self)

    def conjugate(self):
        return self

    conj = conjugate

    def sqrt(self):
        if self.const is not None:
            from math import isqrt

            n, d = self.const.numerator, self.const.denominator
            if n < 0:
                raise Undefined("square root of a negative constant", z3.BoolVal(True))
            if isqrt(n) ** 2 == n and isqrt(d) ** 2 == d:
                return SymReal(None, (), Fraction(isqrt(n), isqrt(d)))
        p = cur()
        zero = lift(0)
        _require(zero.cond("le", self), "square root of a negative value")
        key = (self.num.get_id(), tuple(sorted((e.get_id(), q) for e, q in self.den)))
        if key in p.sqrt_cache:
            return p.sqrt_cache[key][0]
        known = None
        # Perfect square of a parameter that is declared nonnegative?
        if not self.den and self.const is None:
            e = z3.simplify(self._num)
            known = p.known_squares.get(e.get_id())
        if known is not None:
            s = known[1]
        else:
            v = p.fresh_real("sqrt")
            s = SymReal(v)
            p.pc.append(v >= 0)
            p.pc.append((s * s).cond("eq", self))
        p.sqrt_cache[key] = (s, self)
        return s

    def log(self):
        zero = lift(0)
        _require(zero.cond("lt", self), "logarithm of a nonpositive value")
        return SymLog([(self, Fraction(1))], Fraction(0))

    def exp(self):
        raise Unsupported("exp")

    def __repr__(self):
        if self.const is not None:
            return str(self.const)
        return f"({self._num})" + (f"/{self.den}" if self.den else "")

    __str__ = __repr__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


ZERO = SymReal(None, (), Fraction(0))


def _require(cond, why):
    """Definedness side condition: must follow from the path condition."""
    p = cur()
    cond = z3.simplify(cond, som=True)
    if z3.is_true(cond):
        return
    if p.div_mode == "assume":
        p.pc.append(cond)
        p.defs_assumed += 1
        return
    key = cond.get_id()
    if key in p.div_seen:
        return
    r = check_sat(p.pc + [z3.Not(cond)], p.fork_timeout_ms)
    if r == z3.sat:
        raise Undefined(why, z3.Not(cond))
    if r == z3.unknown:
        p.uncertain_defs += 1
    p.div_seen.add(key)
    p.keep.append(cond)
    p.pc.append(cond)


def _note_div(num):
    _require(num != 0, "division by zero")


class SymLog(Dimension):
    """A formal sum `sum_i coef_i log(arg_i) + const`."""

    __iter__ = None
    __len__ = None
    __hash__ = object.__hash__
    dtype = np.dtype(object)
    shape = ()
    ndim = 0

    def __init__(self, terms, const):
        self.terms = terms
        self.const = const

    @property
    def dim(self):
        return self

    def __neg__(self):
        return self * -1

    def __add__(self, other):
        if isinstance(other, SymLog):
            return SymLog(self.terms + other.terms, self.const + other.const)
        o = lift(other)
        if o is None:
            return NotImplemented
        if o.const is None:
            raise Unsupported("sum of a logarithm and a symbolic value")
        return SymLog(self.terms, self.const + o.const)

    __radd__ = __add__

    def __sub__(self, other):
        return self + (-1) * other

    def __rsub__(self, other):
        return (self * -1) + other

    def __mul__(self, other):
        if isinstance(other, np.ndarray):
            return NotImplemented
        o = lift(other)
        if o is None:
            return NotImplemented
        if o.const is None:
            raise Unsupported("product of a logarithm and a symbolic value")
        return SymLog([(a, c * o.const) for a, c in self.terms], self.const * o.const)

    __rmul__ = __mul__

    def __truediv__(self, other):
        o = lift(other)
        if o is None or o.const is None:
            raise Unsupported("quotient with a logarithm")
        return self * (1 / o.const)

    def __repr__(self):
        return " + ".join(f"{c}*log({a})" for a, c in self.terms) + f" + {self.const}"

    def eq_cond(self, other):
        d = self - other
        if d.const != 0:
            raise Unsupported("logarithms with a constant offset")
        scale = 1
        for _, c in d.terms:
            scale = scale * c.denominator // __import__("math").gcd(scale, c.denominator)
        l, r = lift(1), lift(1)
        for a, c in d.terms:
            k = int(c * scale)
            if k > 0:
                l = l * a**k
            elif k < 0:
                r = r * a ** (-k)
        return l.cond("eq", r)


def eq_cond(a, b):
    """z3 condition that two scalars are equal."""
    if isinstance(a, SymLog) or isinstance(b, SymLog):
        if not isinstance(a, SymLog):
            a = SymLog([], lift(a).const)
        if not isinstance(b, SymLog):
            b = SymLog([], lift(b).const)
        return a.eq_cond(b)
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        raise Unsupported(f"cannot compare {type(a)} and {type(b)}")
    return la.cond("eq", lb)
