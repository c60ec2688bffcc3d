"""Cases: the same function runs symbolically (to be decided) and concretely (replay)."""
import contextlib
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np


class ReplayInvalid(BaseException):
    """The recorded values do not meet the assumptions of the case."""


class Mismatch(Exception):
    def __init__(self, label, detail):
        super().__init__(f"{label}: {detail}")
        self.label = label
        self.detail = detail


class Case:
    __slots__ = ("id", "fn", "kw", "fork_ms", "query_ms", "max_paths", "budget_s", "div", "cost", "tol_band")

    def __init__(self, id, fn, kw=None, query_ms=4000, fork_ms=1500, max_paths=900, budget_s=25.0, div="check", cost=1.0, tol_band=True):
        self.id = id
        self.fn = fn
        self.kw = kw or {}
        self.query_ms = query_ms
        self.fork_ms = fork_ms
        self.max_paths = max_paths
        self.budget_s = budget_s
        self.div = div
        self.cost = cost
        self.tol_band = tol_band


class MkBase:
    symbolic = False


def _dense(x):
    import lab as B
    from matrix import AbstractMatrix

    return B.dense(x) if isinstance(x, AbstractMatrix) else x


class MkSym(MkBase):
    symbolic = True
    dtype = object

    def __init__(self, path):
        from . import sym

        self.sym = sym
        self.path = path
        self.names = {}
        self.choices = []

    # Inputs:

    def real(self, name, *shape, pos=False, nonneg=False, nonzero=False):
        import z3

        out = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            n = name + "".join(f"_{i}" for i in idx)
            assert n not in self.names, f"duplicate symbol {n}"
            v = z3.Real(n)
            self.names[n] = v
            self.path.symbols[n] = v
            if pos:
                self.path.pc.append(v > 0)
            if nonneg:
                self.path.pc.append(v >= 0)
            if nonzero:
                self.path.pc.append(v != 0)
            out[idx] = self.sym.SymReal(v)
        return out

    def scalar(self, name, **kw):
        return self.real(name, **kw)[()]

    def int(self, name, lo=0):
        """An integer that is at least `lo`, such as a dimension."""
        import z3

        from .symint import SymInt

        assert name not in self.names, f"duplicate symbol {name}"
        v = z3.Int(name)
        self.names[name] = v
        self.path.integers = True
        self.path.pc.append(v >= lo)
        return SymInt(v)

    def tensor(self, *shape):
        """A tensor of which only the shape matters."""
        from .symint import SymTensor

        return SymTensor(shape)

    def ite(self, cond, a, b):
        from . import symint

        return symint.ite(cond, a, b)

    def all(self, *conds):
        import z3

        return self.sym.SymBool(z3.And(*[c.c if isinstance(c, self.sym.SymBool) else z3.BoolVal(bool(c)) for c in conds]))

    def any(self, *conds):
        import z3

        return self.sym.SymBool(z3.Or(*[c.c if isinstance(c, self.sym.SymBool) else z3.BoolVal(bool(c)) for c in conds]))

    def no(self, cond):
        import z3

        return self.sym.SymBool(z3.Not(cond.c)) if isinstance(cond, self.sym.SymBool) else not cond

    def same(self, a, b):
        """Equality as a condition, without deciding it."""
        from . import symint

        return symint.same(a, b)

    def zeros(self, *shape):
        out = np.empty(shape, dtype=object)
        out.fill(self.sym.lift(0))
        return out

    def const(self, arr):
        a = np.asarray(arr)
        out = np.empty(a.shape, dtype=object)
        for idx in np.ndindex(*a.shape):
            out[idx] = self.sym.lift(a[idx].item())
        return out

    def choose(self, n, label="choice"):
        k = self.path.choose(n, label)
        self.choices.append(k)
        return k

    def assume(self, cond, text=None):
        if isinstance(cond, np.ndarray):
            for c in cond.ravel():
                self.assume(c)
            return
        if isinstance(cond, self.sym.SymBool):
            self.path.assume(cond.c)
        elif not cond:
            raise self.sym.Infeasible()

    def ne(self, a, b):
        return a != b

    def gt(self, a, b):
        import z3

        la, lb = self.sym.lift(a), self.sym.lift(b)
        return self.sym.SymBool(lb.cond("lt", la))

    def ge(self, a, b):
        la, lb = self.sym.lift(a), self.sym.lift(b)
        return self.sym.SymBool(lb.cond("le", la))

    def det_nonzero(self, m):
        """Assume that a (batch of) matrices is nonsingular."""
        from . import stubs

        m = np.asarray(m, dtype=object)
        for idx in np.ndindex(*m.shape[:-2]):
            d = stubs.det_poly(stubs.row_scaled(m[idx])[1])
            self.path.assume(__import__("z3").Not(d.cond("eq", self.sym.lift(0))))

    def known_root(self, mat, root):
        """Register `root` as the Cholesky factor of `mat = root root^T`."""
        mat, root = np.asarray(mat, dtype=object), np.asarray(root, dtype=object)
        for idx in np.ndindex(*mat.shape[:-2]):
            self.path.psd_roots.append((mat[idx], root[idx]))

    def known_sqrt(self, square, root):
        import z3

        for s, r in zip(np.ravel(square), np.ravel(root)):
            e = z3.simplify(s.num)
            self.path.known_squares[e.get_id()] = (e, r)

    # Obligations:

    def eq(self, impl, ref, label, structured=True, atol=0.0):
        impl = _dense(impl)
        si, sr = np.shape(impl), np.shape(ref)
        if tuple(si) != tuple(sr):
            self.path.obligations.append((f"{label}: shape {si} instead of {sr}", False))
            return
        if si == ():
            a = impl[()] if isinstance(impl, np.ndarray) else impl
            b = ref[()] if isinstance(ref, np.ndarray) else ref
            self.path.obligations.append((label, self.sym.eq_cond(a, b)))
            return
        impl, ref = np.asarray(impl, dtype=object), np.asarray(ref, dtype=object)
        for idx in np.ndindex(*si):
            if impl[idx] is ref[idx]:
                continue
            self.path.obligations.append((f"{label}{list(idx)}", self.sym.eq_cond(impl[idx], ref[idx])))

    def true(self, cond, label):
        import z3

        if isinstance(cond, self.sym.SymBool):
            self.path.obligations.append((label, cond.c))
        else:
            self.path.obligations.append((label, bool(cond)))

    def true_all(self, conds, label):
        for c in np.ravel(np.asarray(conds, dtype=object)):
            self.true(c, label)

    def log(self, x):
        return np.log(x)

    def sqrt_of(self, x):
        return np.sqrt(x)

    @contextlib.contextmanager
    def must_raise(self, label, *types):
        types = types or (Exception,)
        try:
            yield
        except types:
            return
        self.path.obligations.append((f"{label}: no error was raised", False))

    def spec(self, f):
        """Reference computation."""
        return f()


class MkConc(MkBase):
    """Concrete replay with float64 values against the unpatched code."""

    symbolic = False
    dtype = float

    def __init__(self, values, choices, tol=1e-7):
        self.values = values
        self.choices = list(choices)
        self.tol = tol
        self.magnitude = 0.0  # Of the inputs, to judge rounding errors.

    def real(self, name, *shape, pos=False, nonneg=False, nonzero=False):
        out = np.empty(shape, dtype=float)
        for idx in np.ndindex(*shape):
            n = name + "".join(f"_{i}" for i in idx)
            v = float(Fraction(self.values.get(n, "1")))
            if (pos and not v > 0) or (nonneg and not v >= 0) or (nonzero and v == 0):
                raise ReplayInvalid(n)
            out[idx] = v
            self.magnitude = max(self.magnitude, abs(v))
        return out

    def scalar(self, name, **kw):
        return float(self.real(name, **kw)[()])

    def int(self, name, lo=0):
        v = int(Fraction(self.values.get(name, "1")))
        if v < lo:
            raise ReplayInvalid(name)
        if v > 300:
            raise ReplayInvalid(f"{name} is too large to replay")
        return v

    def tensor(self, *shape):
        return np.ones(shape)

    def ite(self, cond, a, b):
        return a if cond else b

    def all(self, *conds):
        return all(bool(c) for c in conds)

    def any(self, *conds):
        return any(bool(c) for c in conds)

    def no(self, cond):
        return not cond

    def same(self, a, b):
        return a == b

    def zeros(self, *shape):
        return np.zeros(shape)

    def const(self, arr):
        return np.asarray(arr, dtype=float)

    def choose(self, n, label="choice"):
        return self.choices.pop(0) if self.choices else 0

    def assume(self, cond, text=None):
        if not np.all(cond):
            raise ReplayInvalid("assumption")

    def ne(self, a, b):
        return a != b

    def gt(self, a, b):
        return a > b

    def ge(self, a, b):
        return a >= b - 1e-9 * max(1.0, self.magnitude)

    def det_nonzero(self, m):
        if np.any(np.abs(np.linalg.det(np.asarray(m, dtype=float))) < 1e-9):
            raise ReplayInvalid("singular")

    def known_root(self, mat, root):
        pass

    def known_sqrt(self, square, root):
        pass

    def eq(self, impl, ref, label, structured=True, atol=0.0):
        impl = _dense(impl)
        si, sr = np.shape(impl), np.shape(ref)
        if tuple(si) != tuple(sr):
            raise Mismatch(label, f"shape {si} instead of {sr}")
        impl = np.asarray(impl, dtype=float)
        ref = np.asarray(ref, dtype=float)
        if impl.size == 0:
            return
        scale = max(np.max(np.abs(ref[np.isfinite(ref)]), initial=0), 1e-300)
        atol = max(atol, self.tol * scale, 1e-11 * max(self.magnitude, self.magnitude**2))
        ok = np.isclose(impl, ref, rtol=self.tol, atol=atol, equal_nan=True)
        if not np.all(ok):
            raise Mismatch(label, f"got {impl.tolist()} instead of {ref.tolist()}")

    def true(self, cond, label):
        if not np.all(cond):
            raise Mismatch(label, "does not hold")

    def true_all(self, conds, label):
        self.true(conds, label)

    def log(self, x):
        return np.log(x)

    def sqrt_of(self, x):
        return np.sqrt(x)

    @contextlib.contextmanager
    def must_raise(self, label, *types):
        types = types or (Exception,)
        try:
            yield
        except types:
            return
        raise Mismatch(label, "no error was raised")

    def spec(self, f):
        return f()


def run_concrete(case, values, choices, tol=1e-7):
    """Return (verdict, detail), with verdict one of ok, violation, invalid."""
    mk = MkConc(values, choices, tol)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            case.fn(mk, **case.kw)
        except ReplayInvalid as e:
            return "invalid", str(e)
        except Mismatch as e:
            return "violation", str(e)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb[-3:]]
            return "violation", f"unexpected {type(e).__name__}: {str(e)[:300]} at {where}"
    return "ok", ""


def run_symbolic(case, seed=0):
    """Decide a case: explore all paths and discharge all obligations."""
    import random

    import z3

    from . import sym

    stats0 = dict(sym.STATS)
    t0 = time.time()
    res = {
        "id": case.id,
        "status": "proved",
        "paths": 0,
        "feasible_paths": 0,
        "obligations": 0,
        "candidates": [],
        "notes": [],
        "witness": None,
    }
    deadline = t0 + case.budget_s
    stack = [[]]
    inconclusive = []
    rng = random.Random(seed)
    while stack:
        if res["paths"] >= case.max_paths or time.time() > deadline:
            inconclusive.append(f"budget: {len(stack)} path prefixes unexplored")
            break
        prefix = stack.pop()
        path = sym.Path(prefix, deadline, case.fork_ms)
        path.div_mode = case.div
        path.tol_band = case.tol_band
        path.tol_used = False
        path.sqrt_cache = {}
        path.known_squares = {}
        path.keep = []
        path.defs_assumed = 0
        path.uncertain_defs = 0
        path.svd_facts = []
        sym.set_cur(path)
        mk = MkSym(path)
        res["paths"] += 1
        cand = None
        feasible = True
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                case.fn(mk, **case.kw)
        except sym.Infeasible:
            feasible = False
        except sym.Undefined as e:
            cand = ("undefined: " + e.why, [e.cond])
        except sym.Unsupported as e:
            inconclusive.append(f"not encoded: {e} {_loc(e)}")
            _witness(case, path, mk, res, rng)
        except sym.Budget as e:
            inconclusive.append(f"budget: {e}")
        except Mismatch as e:
            cand = (str(e), [])
        except RecursionError as e:
            cand = ("exception RecursionError", [])
        except Exception as e:
            cand = (f"exception {type(e).__name__}: {str(e)[:200]} {_loc(e)}", [])
        finally:
            sym.set_cur(None)
        stack.extend(path.alternatives)
        if not feasible:
            continue
        sym.set_cur(path)
        try:
            _discharge(case, path, mk, cand, res, inconclusive, rng)
        except sym.Unsupported as e:
            inconclusive.append(f"not encoded: {e}")
        finally:
            sym.set_cur(None)
        if len(res["candidates"]) >= 6:
            inconclusive.append("stopped after several candidates")
            break
    if res["candidates"]:
        res["status"] = "candidate"
    elif inconclusive:
        res["status"] = "inconclusive"
    elif res["feasible_paths"] == 0:
        res["status"] = "vacuous"
    res["notes"] = sorted(set(inconclusive))[:5]
    for k in sym.STATS:
        res["s_" + k] = sym.STATS[k] - stats0[k]
    res["wall_s"] = time.time() - t0
    return res


def _loc(e):
    tb = traceback.extract_tb(e.__traceback__)
    return "@" + ",".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb[-2:])


def _discharge(case, path, mk, cand, res, inconclusive, rng):
    import z3

    from . import sym

    pc = path.pc
    # Reachability witness.
    if path.integers:
        w = path.icheck(z3.BoolVal(True))
    else:
        w = sym.check_sat(pc, case.query_ms) if pc else z3.sat
    if w == z3.unsat:
        return
    if w == z3.unknown:
        path.uncertain = True
        if not cand:
            # Proofs on a path that may be infeasible are still sound.
            pass
    res["feasible_paths"] += 1
    if cand:
        label, extra = cand
        _candidate(case, path, mk, label, extra, res, inconclusive, rng)
        return
    hard = [(l, c) for l, c in path.obligations if c is False]
    if hard:
        _candidate(case, path, mk, hard[0][0], [], res, inconclusive, rng)
        return
    _witness(case, path, mk, res, rng)
    obs = [(l, c) for l, c in path.obligations if c is not True]
    res["obligations"] += len(path.obligations)
    if not obs:
        return
    neg = z3.Or(*[z3.Not(c) for _, c in obs])
    if path.integers:
        obs = list({c.get_id(): (l, c) for l, c in reversed(obs)}.values())[::-1]
        r = path.icheck(z3.Or(*[z3.Not(c) for _, c in obs]))
    else:
        r = sym.check_sat([neg], min(case.query_ms, 700))
    if r == z3.unsat:
        return
    if pc and not path.integers and (r != z3.unknown or len(obs) <= 2):
        r = sym.check_sat(pc + [neg], min(case.query_ms, 1500))
        if r == z3.unsat:
            return
    # Decide the obligations one by one.
    for label, c in obs:
        if path.deadline and time.time() > path.deadline:
            inconclusive.append("budget: time")
            return
        n = z3.Not(c)
        if z3.is_true(z3.simplify(c, som=True)):
            continue
        r = sym.check_sat([n], min(case.query_ms, 300)) if pc and not path.integers else z3.unknown
        if r != z3.unsat:
            r = sym.check_sat(pc + [n], case.query_ms)
        if r == z3.unsat:
            continue
        if r == z3.unknown:
            r2 = _refute(path, n)
            if r2 == z3.unsat:
                continue
            got = _find_model(case, path, mk, [n], rng, certain=False)
            if got is None:
                inconclusive.append(f"solver gave no answer for {label}")
                continue
            res["candidates"].append({"label": label, "models": got, "choices": mk.choices})
            return
        _candidate(case, path, mk, label, [n], res, inconclusive, rng)
        return


def _witness(case, path, mk, res, rng):
    """A concrete instance of a feasible path, to be run on the real code."""
    if res["witness"] is None:
        got = _find_model(case, path, mk, [], rng, certain=True, want=1)
        if got:
            res["witness"] = {"values": got[0], "choices": list(mk.choices)}


def _refute(path, n):
    """A second attempt, by cvc5, at a query that z3 left open."""
    import z3

    from . import sym

    try:
        import cvc5
    except ImportError:
        return z3.unknown
    import time as _t

    t0 = _t.time()
    s = z3.Solver()
    s.add(*path.pc)
    s.add(n)
    text = "(set-logic QF_NRA)\n" + s.to_smt2()
    try:
        tm = cvc5.TermManager()
        solver = cvc5.Solver(tm)
        solver.setOption("tlimit-per", "4000")
        parser = cvc5.InputParser(solver)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
        sm = parser.getSymbolManager()
        out = ""
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            out += str(cmd.invoke(solver, sm))
    except Exception:
        out = "unknown"
    sym.STATS["queries"] += 1
    sym.STATS["solver_s"] += _t.time() - t0
    return z3.unsat if "unsat" in out else z3.unknown


def _candidate(case, path, mk, label, extra, res, inconclusive, rng):
    got = _find_model(case, path, mk, extra, rng, certain=True)
    if got is None:
        inconclusive.append(f"no model found for {label}")
        return
    res["candidates"].append({"label": label, "models": got, "choices": list(mk.choices)})


def _val(model, v):
    import z3

    x = model.eval(v, model_completion=True)
    if z3.is_int_value(x):
        return str(x.as_long())
    if z3.is_rational_value(x):
        return f"{x.numerator_as_long()}/{x.denominator_as_long()}"
    if z3.is_algebraic_value(x):
        x = x.approx(20)
        return f"{x.numerator_as_long()}/{x.denominator_as_long()}"
    return "1"


def _find_model(case, path, mk, extra, rng, certain, want=2):
    """Concrete models for `pc and extra`; well-conditioned ones first."""
    import z3

    from . import sym

    base = list(path.pc) + list(extra)
    names = mk.names
    models = []
    # Well-conditioned: pin the inputs to small integers and let the solver decide.
    goal = z3.And(*base) if base else z3.BoolVal(True)
    for attempt in range(24):
        pins = []
        for n, v in names.items():
            if attempt % 3 == 0:
                c = rng.choice([1, 2, 3, 4, 5, 7])
            elif attempt % 3 == 1:
                c = rng.choice([-3, -2, -1, 1, 2, 3, 5])
            else:
                c = rng.choice([0, 0, 1, 2, 3])
            if z3.is_int(v):
                c = rng.choice([0, 1, 1, 2, 2, 3, 4])
            pins.append((v, z3.IntVal(c) if z3.is_int(v) else z3.RealVal(c)))
        g = z3.simplify(z3.substitute(goal, *pins))
        if z3.is_false(g):
            continue
        if not z3.is_true(g):
            if sym.check_sat([g], 500) != z3.sat:
                continue
        models.append({str(v): str(c) for v, c in pins})
        if len(models) >= want:
            return models
    bounded = [z3.And(v >= -8, v <= 8) for v in names.values()]
    for cons in (bounded, []):
        r, m = sym.check_sat(base + cons, 4000, want_model=True)
        if r == z3.sat:
            models.append({n: _val(m, v) for n, v in names.items()})
            break
    return models or None
