"""Matrices of which all dimensions are symbolic integers.

The tensors inside have a symbolic shape and unknown elements (engine/symint.py).
"""
import importlib

from .common import *

ms = importlib.import_module("matrix.shape")


def rule(mk, *shapes):
    """The NumPy rule: the condition that it applies and the dimensions."""
    n = max(len(s) for s in shapes)
    conds, dims = [], []
    for i in range(-n, 0):
        ds = [s[i] for s in shapes if len(s) >= -i]
        out = 1
        for d in ds:
            conds.append(mk.any(mk.same(d, 1), mk.same(out, 1), mk.same(d, out)))
            out = mk.ite(mk.same(out, 1), d, out)
        dims.append(out)
    return mk.all(*conds), tuple(dims)


def dims_eq(mk, got, want, label):
    got = tuple(got)
    if len(got) != len(want):
        mk.true(False, f"{label}: rank {len(got)} instead of {len(want)}")
        return
    for i, (x, y) in enumerate(zip(got, want)):
        mk.true(mk.same(x.dim if hasattr(x, "dim") else x, y), f"{label}[{i}]")


def shapes_of(mk, ranks, prefix="s"):
    return [tuple(mk.int(f"{prefix}{i}_{j}") for j in range(r)) for i, r in enumerate(ranks)]


ERRORS = (RuntimeError, ValueError, AssertionError)


def decide(mk, f, ok, dims, label):
    """`f` must raise exactly if `ok` does not hold, and otherwise give `dims`."""
    try:
        out = f()
    except Exception as e:
        if not isinstance(e, ERRORS):
            raise
        mk.true(mk.no(ok), f"{label} raised although the shapes fit: {type(e).__name__}")
        return None
    mk.true(ok, f"{label} did not raise although the shapes do not fit")
    if dims is not None:
        dims_eq(mk, out, dims, label)
    return out


class Spec:
    """How to construct a matrix, when that is right, and its shape."""

    def __init__(self, build, ok, dims):
        self.build = build
        self.ok = ok
        self.dims = tuple(dims)


LO = [0]  # The smallest dimension.


def ints(mk, name, n):
    return tuple(mk.int(f"{name}{i}", lo=LO[0]) for i in range(n))


# Dimensions of the ranks of low-rank matrices, and repetitions, are named as well.


def build(mk, kind, name, b=0, nonempty=False):
    """`kind` may carry arguments: `kind:arg:arg`.  `b` is the number of batch dimensions."""
    kind, *args = kind.split(":")
    args = [int(a) for a in args]
    I = lambda s, n: ints(mk, name + s, n)
    K = I
    if kind.endswith("1"):  # A concrete rank.
        kind, K = kind[:-1], lambda s, n: (1,) * n
    if kind in ("num", "dense", "lt", "ut"):
        s = I("", b + 2)
        if kind == "num":
            return Spec(lambda: mk.tensor(*s), True, s)
        c = {"dense": Dense, "lt": LowerTriangular, "ut": UpperTriangular}[kind]
        return Spec(lambda: c(mk.tensor(*s)), True, s)
    if kind == "diag":
        s = I("", b + 1)
        return Spec(lambda: Diagonal(mk.tensor(*s)), True, s + s[-1:])
    if kind == "zero":
        s = I("", b + 2)
        return Spec(lambda: Zero(float, *s), True, s)
    if kind == "const":  # The constant carries the batch.
        s, m = I("b", b), I("", 2)
        return Spec(lambda: Constant(mk.tensor(*s), *m), True, s + m)
    if kind == "constb":  # Explicit batch: `args[0]` is the rank of the constant.
        s, e, m = I("b", args[0]), I("e", b), I("", 2)
        ok, batch = rule(mk, s, e)
        return Spec(lambda: Constant(mk.tensor(*s), *e, *m), ok, batch + m)
    if kind in ("lr", "lrs", "lrm", "lrsm", "lrd", "lrsd"):
        # Batch ranks of the factors.
        bl, br, bm = args if args else (b, b, b)
        l, k = I("lb", bl) + I("l", 1), K("k", 1)
        parts = [l[:-1]]
        conds = []
        middle, cols, n = None, k, None
        if kind in ("lrm", "lrsm"):
            mb, kk = I("mb", bm), K("m", 2)
            conds.append(mk.same(kk[0], k[0]))
            parts.append(mb)
            cols = kk[1:]
            middle = lambda: mk.tensor(*mb, *kk)
        if kind in ("lrd", "lrsd"):
            mb, kk = I("mb", bm), K("m", 1)
            conds.append(mk.same(kk[0], k[0]))
            parts.append(mb)
            middle = lambda: Diagonal(mk.tensor(*mb, *kk))
        if kind in ("lrs", "lrsm", "lrsd"):
            n = l[-1:]
            conds.append(mk.same(cols[0], k[0]))
            right = None
        else:
            r, kr = I("rb", br) + I("r", 1), K("kr", 1)
            conds.append(mk.same(cols[0], kr[0]))
            parts.append(r[:-1])
            n = r[-1:]
            right = lambda: mk.tensor(*r, *kr)
        ok, batch = rule(mk, *parts) if len(parts) > 1 else (True, parts[0])
        ok = mk.all(ok, *conds)

        def go():
            kw = {}
            if middle is not None:
                kw["middle"] = middle()
            if right is not None:
                kw["right"] = right()
            return LowRank(Dense(mk.tensor(*l, *k)), **kw)

        return Spec(go, ok, batch + l[-1:] + n)
    if kind == "wb":  # Batch ranks of the diagonal and of the low-rank part.
        bd, bl = args if args else (b, b)
        d = build(mk, "diag", name + "d", bd)
        lr = build(mk, f"lrs{'' if K is I else 1}:{bl}:0:0", name + "l")
        ok, batch = rule(mk, d.dims[:-2], lr.dims[:-2])
        ok = mk.all(ok, lr.ok, mk.same(d.dims[-1], lr.dims[-1]))
        return Spec(lambda: Woodbury(d.build(), lr.build()), ok, batch + d.dims[-2:])
    if kind == "wbr":  # With a right factor.
        d = build(mk, "diag", name + "d", b)
        lr = build(mk, "lr:0:0:0", name + "l")
        ok = mk.all(lr.ok, mk.same(d.dims[-1], lr.dims[-1]), mk.same(d.dims[-2], lr.dims[-2]))
        return Spec(lambda: Woodbury(d.build(), lr.build()), ok, d.dims)
    if kind in ("kron", "kronlt", "kronz", "kronlr", "kronn"):
        bl, br = args if args else (b, b)
        l = build(mk, {"kronz": "zero", "kronlr": f"lrs:{bl}:0:0", "kronn": "num"}.get(kind, "dense"), name + "l", bl)
        r = build(mk, {"kronlt": "lt"}.get(kind, "dense"), name + "r", br)
        ok, batch = rule(mk, l.dims[:-2], r.dims[:-2])
        ok = mk.all(ok, l.ok, r.ok)
        dims = tuple(x * y for x, y in zip(l.dims[-2:], r.dims[-2:]))
        return Spec(lambda: Kronecker(l.build(), r.build()), ok, batch + dims)
    if kind == "kronk":  # One factor has a concrete size, which keeps the queries linear.
        l = build(mk, "dense", name + "l", b)
        return Spec(
            lambda: Kronecker(l.build(), Dense(np.ones((2, 3)))),
            True,
            l.dims[:-2] + (l.dims[-2] * 2, l.dims[-1] * 3),
        )
    raise ValueError(kind)
