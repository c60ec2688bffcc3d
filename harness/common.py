"""Operands and dense reference semantics shared by the harnesses.

Every operand comes with a dense reference that is assembled here from its factors with
plain NumPy, independently of the code under test.
"""
import itertools

import warnings

warnings.filterwarnings("ignore", category=DeprecationWarning)
import lab as B
import numpy as np
from engine.case import Case  # noqa: F401
from matrix import (
    AbstractMatrix,
    Constant,
    Dense,
    Diagonal,
    Kronecker,
    LowerTriangular,
    LowRank,
    TiledBlocks,
    UpperTriangular,
    Woodbury,
    Zero,
)

T = lambda x: np.swapaxes(x, -1, -2)


def mm(*xs):
    out = xs[0]
    for x in xs[1:]:
        out = np.matmul(out, x)
    return out


def diag_embed(d, mk):
    """Dense diagonal matrices from (batches of) vectors."""
    d = np.asarray(d)
    n = d.shape[-1]
    out = np.empty(d.shape + (n,), dtype=d.dtype)
    z = mk.zeros()[()]
    for idx in np.ndindex(*out.shape):
        out[idx] = d[idx[:-1]] if idx[-1] == idx[-2] else z
    return out


def mask_tri(x, lower, mk):
    x = np.array(x)
    z = mk.zeros()[()]
    for idx in np.ndindex(*x.shape):
        if (idx[-1] > idx[-2]) if lower else (idx[-1] < idx[-2]):
            x[idx] = z
    return x


def full(shape, value, mk):
    out = np.empty(shape, dtype=mk.dtype)
    value = np.asarray(value)
    if value.ndim == 0:
        out[...] = value[()]
    else:
        out[...] = value[..., None, None]
    return out


def kron_ref(a, b):
    batch = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a = np.broadcast_to(a, batch + a.shape[-2:])
    b = np.broadcast_to(b, batch + b.shape[-2:])
    m, n = a.shape[-2:]
    p, q = b.shape[-2:]
    out = np.empty(batch + (m * p, n * q), dtype=a.dtype)
    for i in range(m):
        for j in range(n):
            out[..., i * p : (i + 1) * p, j * q : (j + 1) * q] = (
                a[..., i : i + 1, j : j + 1] * b
            )
    return out


def bc(x, shape):
    return np.broadcast_to(x, shape)


DT = {True: np.object_, False: np.float64}


class Op:
    """An operand: the structured matrix and its dense reference."""

    def __init__(self, mat, ref, kind):
        self.mat = mat
        self.ref = ref
        self.kind = kind


# Splits of a size into Kronecker factors.
def factor(n):
    for k in range(2, n):
        if n % k == 0:
            return k, n // k
    return 1, n


def make(mk, kind, name, m, n, batch=(), **kw):
    """Build an operand of shape `batch + (m, n)`."""
    o = _make(mk, kind, name, m, n, tuple(batch), **kw)
    # The reference of every operand has the full batch shape.
    assert o.ref.shape == tuple(batch) + (m, n), (kind, o.ref.shape, batch, m, n)
    return o


def _make(mk, kind, name, m, n, batch, pos=False, nonzero=False):
    R = lambda s, *shape, **k: mk.real(f"{name}{s}", *shape, **k)
    dt = DT[mk.symbolic]
    if kind == "num":  # A plain numerical array.
        x = R("", *batch, m, n, nonzero=nonzero)
        return Op(x, x, kind)
    if kind == "zero":
        return Op(Zero(dt, *batch, m, n), mk.zeros(*batch, m, n), kind)
    if kind == "dense":
        x = R("", *batch, m, n, nonneg=pos, nonzero=nonzero)
        return Op(Dense(x), x, kind)
    if kind == "diag":
        assert m == n
        d = R("d", *batch, n, nonneg=pos)
        return Op(Diagonal(d), diag_embed(d, mk), kind)
    if kind == "const":  # The constant carries the batch.
        c = R("c", *batch, nonneg=pos, nonzero=nonzero)
        c = c if batch else c[()]
        if not batch and not mk.symbolic:
            c = float(c)
        return Op(Constant(c, m, n), full(batch + (m, n), c, mk), kind)
    if kind == "constb":  # A scalar constant with an explicit batch shape.
        c = R("c", nonneg=pos, nonzero=nonzero)[()]
        return Op(Constant(c, *batch, m, n), full(batch + (m, n), c, mk), kind)
    if kind in ("lt", "ut"):
        x = mask_tri(R("", *batch, m, n, nonneg=pos), kind == "lt", mk)
        return Op((LowerTriangular if kind == "lt" else UpperTriangular)(x), x, kind)
    if kind in ("lr1", "lr2"):  # All factors given; dense middle.
        r = int(kind[2])
        l, mid, rt = R("l", *batch, m, r), R("m", *batch, r, r), R("r", *batch, n, r)
        return Op(LowRank(l, rt, mid), mm(l, mid, T(rt)), kind)
    if kind == "lrs":  # Symmetric: default right and middle factors.
        assert m == n
        l = R("l", *batch, m, 1)
        return Op(LowRank(l), mm(l, T(l)), kind)
    if kind == "lrd":  # Diagonal middle, unbatched left factor, default right factor.
        assert m == n
        l, d = R("l", m, 2), R("m", *batch, 2)
        ref = mm(l, diag_embed(d, mk), T(l))
        return Op(LowRank(l, middle=Diagonal(d)), bc(ref, batch + (m, n)), kind)
    if kind == "lrx":  # Structured factors; only the right factor carries the batch.
        l, c, rt = R("l", m, 2), R("c")[()], R("r", *batch, n, 2)
        mid = full((2, 2), c, mk)
        return Op(
            LowRank(Dense(l), Dense(rt), Constant(c, 2, 2)), mm(l, mid, T(rt)), kind
        )
    if kind == "lrm":  # Non-square middle factor.
        l, mid, rt = R("l", *batch, m, 2), R("m", 2, 1), R("r", n, 1)
        return Op(LowRank(l, rt, mid), mm(l, mid, T(rt)), kind)
    if kind == "wb":
        assert m == n
        d, l, mid, rt = R("d", *batch, n), R("l", *batch, n, 1), R("m", *batch, 1, 1), R("r", *batch, n, 1)
        return Op(
            Woodbury(Diagonal(d), LowRank(l, rt, mid)),
            diag_embed(d, mk) + mm(l, mid, T(rt)),
            kind,
        )
    if kind == "wbb":  # Only the low-rank part carries the batch.
        assert m == n
        d, l = R("d", n), R("l", *batch, n, 1)
        return Op(
            Woodbury(Diagonal(d), LowRank(l)),
            diag_embed(d, mk) + mm(l, T(l)),
            kind,
        )
    if kind == "wbd":  # Only the diagonal part carries the batch.
        assert m == n
        d, l, mid, rt = R("d", *batch, n), R("l", n, 2), R("m", 2), R("r", n, 2)
        return Op(
            Woodbury(Diagonal(d), LowRank(l, rt, Diagonal(mid))),
            diag_embed(d, mk) + mm(l, diag_embed(mid, mk), T(rt)),
            kind,
        )
    if kind in ("kron", "kron2", "kronb"):
        m1, m2 = factor(m)
        n1, n2 = factor(n)
        if kind == "kron2":  # Swap, which makes the factors non-square.
            n1, n2 = n2, n1
        b1 = () if kind == "kronb" else batch
        l, r = (
            R("l", *b1, m1, n1, nonneg=pos, nonzero=nonzero),
            R("r", *batch, m2, n2, nonneg=pos, nonzero=nonzero),
        )
        return Op(Kronecker(Dense(l), Dense(r)), kron_ref(l, r), kind)
    if kind == "krons":  # Structured factors.
        m1, m2 = factor(m)
        assert m == n
        l, d = mask_tri(R("l", *batch, m1, m1, nonneg=pos), True, mk), R("d", *batch, m2, nonneg=pos)
        return Op(
            Kronecker(LowerTriangular(l), Diagonal(d)), kron_ref(l, diag_embed(d, mk)), kind
        )
    if kind == "tiled":  # Tiled along the rows.
        x, y = R("x", *batch, 1, n), R("y", *batch, 1, n)
        if m == 1:
            return Op(TiledBlocks((x, 1), axis=-2), x, kind)
        parts = [x] * (m - 1) + [y]
        blocks = ((x, m - 1), (Dense(y), 1))
        return Op(TiledBlocks(*blocks, axis=-2), np.concatenate(parts, axis=-2), kind)
    # Nested representations:
    if kind == "kron3":  # Product of a product.
        assert (m, n) == (4, 4)
        l, r = R("l", *batch, 1, 2), R("r", 2, 1, nonneg=pos)
        x = R("x", *batch, 2, 2)
        return Op(
            Kronecker(Kronecker(Dense(l), Dense(r)), Dense(x)),
            kron_ref(kron_ref(l, r), x),
            kind,
        )
    if kind == "kronlr":  # Low-rank and constant factors.
        assert (m, n) == (4, 4)
        l, r, c = R("l", 2, 1), R("r", *batch, 2, 1), R("c")[()]
        return Op(
            Kronecker(LowRank(l, r), Constant(c, 2, 2)),
            kron_ref(mm(l, T(r)), full((2, 2), c, mk)),
            kind,
        )
    if kind == "kronwb":  # Woodbury and upper-triangular factors.
        assert (m, n) == (4, 4)
        d, l, u = R("d", 2), R("l", *batch, 2, 1), mask_tri(R("u", 2, 2), False, mk)
        return Op(
            Kronecker(Woodbury(Diagonal(d), LowRank(l)), UpperTriangular(u)),
            kron_ref(diag_embed(d, mk) + mm(l, T(l)), u),
            kind,
        )
    if kind == "lrt":  # Triangular and diagonal factors.
        assert m == n == 2
        l, d, r = mask_tri(R("l", *batch, m, m), True, mk), R("d", m), mask_tri(R("r", n, n), False, mk)
        return Op(
            LowRank(LowerTriangular(l), UpperTriangular(r), Diagonal(d)),
            mm(l, diag_embed(d, mk), T(r)),
            kind,
        )
    if kind == "kronx":  # The same object twice.
        assert m == n and m in (1, 4)
        x = R("x", *batch, m // 2 or 1, n // 2 or 1, nonneg=pos, nonzero=nonzero)
        d = Dense(x)
        return Op(Kronecker(d, d), kron_ref(x, x), kind)
    if kind == "lrn":  # Different factors and no middle factor.
        l, rt = R("l", *batch, m, 1), R("r", *batch, n, 1)
        return Op(LowRank(l, rt), mm(l, T(rt)), kind)
    if kind == "lrl":  # The same object twice, with an asymmetric middle factor.
        assert m == n
        l, mid = R("l", *batch, m, 2), R("m", 2, 2)
        d = Dense(l)
        return Op(LowRank(d, d, mid), mm(l, mid, T(l)), kind)
    if kind == "wbn":  # Different factors and no middle factor.
        assert m == n
        d, l, rt = R("d", *batch, n), R("l", *batch, n, 1), R("r", n, 1)
        return Op(Woodbury(Diagonal(d), LowRank(l, rt)), diag_embed(d, mk) + mm(l, T(rt)), kind)
    if kind == "tiledc":  # Tiled along the columns, from structured blocks.
        assert n % 2 == 1 and m == 2
        d, x = R("d", m), R("x", *batch, m, 1)
        k = (n - 1) // 2
        blocks = ((Diagonal(d), k), (x, 1))
        if not batch:
            blocks = ((Diagonal(d), k), (LowRank(x, mk.const([[1.0]])), 1))
        parts = [bc(diag_embed(d, mk), batch + (m, m))] * k + [x]
        return Op(TiledBlocks(*blocks, axis=-1), np.concatenate(parts, axis=-1), kind)
    raise ValueError(kind)


NESTED = {"kron3": (4, 4), "kronlr": (4, 4), "kronwb": (4, 4), "lrt": (2, 2), "tiledc": (2, 3), "kronx": (4, 4), "lrn": (2, 3), "lrl": (2, 2), "wbn": (2, 2)}


SQUARE_ONLY = {"diag", "lrs", "lrd", "wb", "wbb", "wbd", "krons", "lt", "ut", "lrl", "wbn", "kronx"}


def ok_kind(kind, m, n):
    if kind in ("lt", "ut"):
        return True
    if kind == "kronx" and m not in (1, 4):
        return False
    if kind in SQUARE_ONLY and m != n:
        return False
    return True


# Larger sizes and batches, which make results depend on thresholds in sizes visible.
BIG = [(5, 5), (8, 8), (9, 9), (6, 9), (9, 5), (1, 11), (12, 1)]
BIG_BATCHES = [(2, 2, 2), (5,), (1, 2, 1, 2), (3, 3)]
BIG_PAIRS = [((2, 2, 2), ()), ((), (2, 1, 2)), ((5,), (5,)), ((3, 1, 1), (2, 4)), ((4, 1), (1, 1, 3))]


def big_kind(kind, s):
    """Whether there is an operand of this kind of this large size."""
    return ok_kind(kind, *s) and not (kind[:4] == "kron" and (min(s) % 2 and min(s) % 3 or kind == "kronx"))
