"""Installs the symbolic semantics of the numerical primitives.

Only applied to arrays with `dtype=object`; every other call reaches the original.  The
primitives are given by their exact real-arithmetic contracts: inverses by the adjugate,
triangular solves by substitution, Cholesky by the pivot recurrence, and so on.  This is
the trusted model of NumPy/SciPy/LAPACK; `matrix` and LAB are run as they are.
"""
import itertools
import sys
from fractions import Fraction

import numpy as np
import scipy.linalg as sla

from . import sym
from .sym import SymReal, SymLog, Unsupported, lift, eq_cond, check_sat, cur

_ORIG = {}


def is_obj(*xs):
    for x in xs:
        if isinstance(x, (SymReal, SymLog)):
            return True
        if isinstance(x, np.ndarray) and x.dtype == object:
            return True
        if isinstance(x, (list, tuple)) and is_obj(*x):
            return True
    return False


def obj_array(shape, f):
    out = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        out[idx] = f(*idx)
    return out


def _vec(f):
    def g(a):
        if isinstance(a, np.ndarray):
            return obj_array(a.shape, lambda *i: f(lift_any(a[i])))
        return f(lift_any(a))

    return g


def lift_any(x):
    return x if isinstance(x, SymLog) else lift(x)


def _batched(f, n_core_out):
    """Loop `f` over the leading batch dimensions of matrices, with broadcasting."""

    def g(*args):
        args = [np.asarray(a, dtype=object) for a in args]
        batch = np.broadcast_shapes(*(a.shape[:-2] for a in args))
        args = [np.broadcast_to(a, batch + a.shape[-2:]) for a in args]
        if batch == ():
            return f(*args)
        outs = {i: f(*(a[i] for a in args)) for i in np.ndindex(*batch)}
        if not outs:
            raise Unsupported("empty batch")
        first = next(iter(outs.values()))
        res = np.empty(batch + np.shape(first), dtype=object)
        for i, o in outs.items():
            res[i] = o
        return res

    return g


def row_scaled(m):
    """Clear denominators row by row: `m = diag(1/s) p` with `p` polynomial."""
    n, k = m.shape
    scale, p = [], np.empty((n, k), dtype=object)
    for i in range(n):
        lcm = ()
        for j in range(k):
            lcm = sym._den_lcm(lcm, lift(m[i, j]).den)[0]
        s = sym._prod([e for e, q in lcm for _ in range(q)])
        scale.append(lift(1) if s is None else SymReal(s))
        for j in range(k):
            x = lift(m[i, j])
            _, c1, c2 = sym._den_lcm(lcm, x.den)
            c = sym._prod(c2 or [])
            p[i, j] = SymReal(None, (), x.const) if x.const is not None and c is None else (
                SymReal(x.num) if c is None else (lift(0) if x.const == 0 else SymReal(x.num * c))
            )
    return scale, p


def det_poly(p):
    """Determinant by cofactor expansion along the sparsest row."""
    n = p.shape[0]
    if n == 0:
        return lift(1)
    if n == 1:
        return lift(p[0, 0])
    zero = lambda x: lift(x).const == 0
    i = min(range(n), key=lambda r: sum(not zero(x) for x in p[r]))
    out = lift(0)
    for j in range(n):
        if zero(p[i, j]):
            continue
        minor = np.delete(np.delete(p, i, 0), j, 1)
        t = p[i, j] * det_poly(minor)
        out = out + (t if (i + j) % 2 == 0 else -t)
    return out


def det(m):
    s, p = row_scaled(m)
    d = det_poly(p)
    for x in s:
        d = d / x if x.const != 1 else d
    return d


def inv(m):
    n = m.shape[0]
    if m.shape[1] != n:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    if n > 4:
        raise Unsupported("inverse of a matrix larger than 4 x 4")
    s, p = row_scaled(m)
    d = det_poly(p)
    if d.const == 0:
        raise np.linalg.LinAlgError("Singular matrix")
    dinv = d.inverse()
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(p, j, 0), i, 1)
            c = det_poly(minor)
            c = c if (i + j) % 2 == 0 else -c
            out[i, j] = (c * dinv) * s[j]
    return out


def solve(a, b):
    if a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    if a.shape[0] != b.shape[0]:
        raise ValueError("solve: mismatch in core dimension")
    return np.matmul(inv(a), b)


def cholesky(m):
    n = m.shape[0]
    if m.shape[1] != n:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    p = cur()
    # Only the lower triangle is read, as LAPACK does.
    for mat, root in p.psd_roots:
        if mat.shape == m.shape:
            import z3

            bad = z3.simplify(
                z3.Or(*[z3.Not(eq_cond(mat[i, j], m[i, j])) for i in range(n) for j in range(i + 1)]),
                som=True,
            )
            if z3.is_false(bad) or check_sat([bad], 2000) == z3.unsat:
                return root
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            if j > i:
                out[i, j] = lift(0)
                continue
            acc = lift(m[i, j])
            for k in range(j):
                acc = acc - out[i, k] * out[j, k]
            if i == j:
                sym._require(lift(0).cond("lt", acc), "Cholesky pivot not positive")
                out[i, j] = acc.sqrt()
            else:
                out[i, j] = acc / out[j, j]
    return out


def slogdet(m):
    d = det(m)
    if d.const is not None and d.const == 0:
        raise Unsupported("log-determinant of a singular matrix")
    sym._require(__import__("z3").Not(d.cond("eq", lift(0))), "log-determinant of a singular matrix")
    lg = SymLog([(d * d, Fraction(1, 2))], Fraction(0))
    return lg


def solve_triangular(a, b, trans=0, lower=False, **kw):
    if not is_obj(a, b):
        return _ORIG["solve_triangular"](a, b, trans=trans, lower=lower, **kw)
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    if trans not in (0, "N") or kw.get("unit_diagonal"):
        raise Unsupported("triangular solve with flags")
    n = a.shape[0]
    if a.ndim != 2 or a.shape[1] != n:
        raise ValueError("expected square matrix")
    if b.shape[0] != n:
        raise ValueError("shapes of a and b are incompatible")
    out = np.empty(b.shape, dtype=object)
    vec = b.ndim == 1
    b2 = b[:, None] if vec else b
    o2 = out[:, None] if vec else out
    order = range(n) if lower else range(n - 1, -1, -1)
    for c in range(b2.shape[1]):
        for i in order:
            acc = lift(b2[i, c])
            for k in range(i) if lower else range(i + 1, n):
                acc = acc - lift(a[i, k]) * o2[k, c]
            o2[i, c] = acc / lift(a[i, i])
    return out


def svd(a, full_matrices=True, compute_uv=True, **kw):
    """Contract of the SVD, via a registered parametrisation `a = u diag(s) v^T`."""
    p = cur()
    for mat, u, s, vt in p.svd_facts:
        if mat.shape == a.shape:
            import z3

            bad = z3.Or(*[z3.Not(eq_cond(x, y)) for x, y in zip(mat.ravel(), a.ravel())])
            if check_sat([z3.simplify(bad, som=True)] + list(p.pc), 3000) == z3.unsat:
                return (u, s, vt) if compute_uv else s
    raise Unsupported("singular value decomposition without a parametrisation")


def install():
    if _ORIG:
        return

    def wrap(mod, name, f):
        orig = getattr(mod, name)
        _ORIG[name] = orig

        def g(*args, **kw):
            if is_obj(*args):
                return f(*args, **kw)
            return orig(*args, **kw)

        g.__name__ = name
        g.__wrapped__ = orig
        setattr(mod, name, g)

    wrap(np.linalg, "inv", _batched(inv, 2))
    wrap(np.linalg, "solve", _batched(solve, 2))
    wrap(np.linalg, "cholesky", _batched(cholesky, 2))

    def _scalar(f):
        def g(a):
            a = np.asarray(a, dtype=object)
            if a.ndim == 2:
                return f(a)
            return obj_array(a.shape[:-2], lambda *i: f(a[i]))

        return g

    wrap(np.linalg, "det", _scalar(det))
    wrap(np.linalg, "slogdet", lambda a: (None, _scalar(slogdet)(a)))
    wrap(np.linalg, "svd", svd)
    _ORIG["solve_triangular"] = sla.solve_triangular
    sla.solve_triangular = solve_triangular

    wrap(np, "sqrt", lambda a: _vec(lambda x: x.sqrt())(a))
    wrap(np, "log", lambda a: _vec(lambda x: x.log())(a))

    def isnan(a):
        # Numbers that may be missing say so (harness/c25.py); all others are not missing.
        if not np.ndim(a):
            return getattr(a, "nan", False)
        if not any(hasattr(x, "nan") for x in np.ravel(a)):
            return np.zeros(np.shape(a), dtype=bool)
        return obj_array(np.shape(a), lambda *i: getattr(a[i], "nan", False))

    wrap(np, "isnan", isnan)
    wrap(np, "isfinite", lambda a: np.ones(np.shape(a), dtype=bool) if np.ndim(a) else True)
    ufdiv = np.divide

    def divide(a, b):
        return ufdiv(_vec(lambda x: x)(a), _vec(lambda x: x)(b))

    wrap(np, "divide", divide)
    ufpow = np.power

    def power(a, b):
        return ufpow(_vec(lambda x: x)(a), b)

    wrap(np, "power", power)

    # Arrays created with `dtype=object` hold exact constants rather than Python ints.
    def creator(name, value):
        orig = getattr(np, name)
        _ORIG["np." + name] = orig

        def g(*args, **kw):
            out = orig(*args, **kw)
            if out.dtype == object:
                out = obj_array(out.shape, lambda *i: lift(out[i]))
            return out

        setattr(np, name, g)

    for name in ("zeros", "ones", "eye"):
        creator(name, None)

    import lab as B
    import lab.linear_algebra as la

    B.epsilon = 0
