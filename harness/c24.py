"""C24: matrices made from matrices are as documented."""
from .c20 import again
from .common import *

META = dict(
    level="other",
    explanation="Symbolic execution of the real `B.eye`, `B.zeros`, `B.ones`, `B.zero`, `B.one`, "
    "`B.fill_diag`, `B.cast`, `B.to_numpy`, `B.dense`, `B.uprank`, and `B.rank` on matrices of every "
    "representation whose entries are z3 reals; z3 proves all entries of the results, also after "
    "the results have been used together with the matrix that they were made from. Casts are to the "
    "type of symbolic entries; the data types themselves are compared when paths are replayed on "
    "floating-point numbers.",
    bounds="sizes one to four, ranks one and two, batches (), (2,), (2, 1), (1,), (3, 2)"
    "; in separate cases also sizes up to 12 (such as 5 x 5, 9 x 9, 6 x 9, 1 x 11), batches "
    "of up to four dimensions or of size five, and the same object given as both operands or "
    "as several parts of one",
    assumptions=["real arithmetic instead of floating point", "casts do not round"],
)


def constructors(mk, k, s, batch):
    a = make(mk, k, "a", *s, batch)
    x, ref = a.mat, a.ref
    full_shape = tuple(batch) + s
    zero, one = mk.const(0)[()], mk.const(1)[()]
    mk.eq(B.zero(x), zero, "zero(a)")
    mk.eq(B.one(x), one, "one(a)")
    z = B.zeros(x)
    mk.true(isinstance(z, Zero), f"zeros(a) is {type(z).__name__}")
    mk.true(z.dtype == B.dtype(x), f"dtype of zeros(a) is {z.dtype}")
    mk.eq(again(mk, z), mk.zeros(*full_shape), "zeros(a)")
    o = B.ones(x)
    mk.true(isinstance(o, Constant), f"ones(a) is {type(o).__name__}")
    mk.eq(B.dense(o), full(full_shape, one, mk), "ones(a)")
    if k[:5] not in ("tiled",):
        mk.eq(again(mk, x * o), ref, "a * ones(a)")
        mk.eq(again(mk, x + z), ref, "a + zeros(a)")
    if s[0] == s[1]:
        e = B.eye(x)
        mk.true(isinstance(e, Diagonal), f"eye(a) is {type(e).__name__}")
        eye = mk.const(np.eye(s[0], dtype=int))
        mk.eq(bc(again(mk, e), full_shape), bc(eye, full_shape), "eye(a)")
        if k[:5] != "tiled":
            mk.eq(again(mk, e @ x), ref, "eye(a) @ a")
            mk.eq(again(mk, x @ e), ref, "a @ eye(a)")
    else:
        with mk.must_raise("eye(a) of a matrix that is not square", AssertionError):
            B.eye(x)
    mk.eq(again(mk, x), ref, "the matrix itself")


def conversions(mk, k, s, batch):
    a = make(mk, k, "a", *s, batch)
    x, ref = a.mat, a.ref
    mk.eq(B.dense(x), ref, "dense(a)")
    mk.true(isinstance(B.dense(x), np.ndarray), "dense(a) is an array")
    mk.eq(B.dense(B.dense(x)), ref, "dense(dense(a))")
    mk.eq(B.to_numpy(x), ref, "to_numpy(a)")
    mk.true(isinstance(B.to_numpy(x), np.ndarray), "to_numpy(a) is an array")
    mk.true(B.rank(x) == len(ref.shape), f"rank(a) is {B.rank(x)}")
    mk.true(B.uprank(x) is x, "uprank(a) is a")
    mk.true(B.uprank(x, rank=2) is x, "uprank(a, 2) is a")
    for r in (1, 3):
        with mk.must_raise(f"uprank(a, {r})", ValueError):
            B.uprank(x, rank=r)


def same_parts(mk, x, y, label):
    """The representations, and all parts of them, are the same."""
    mk.true(type(x) is type(y), f"{label} is {type(y).__name__} instead of {type(x).__name__}")
    if not isinstance(x, AbstractMatrix):
        mk.eq(np.asarray(y), np.asarray(x), label)
    elif isinstance(x, Zero):
        mk.true(tuple(x.batch) + (x.rows, x.cols) == tuple(y.batch) + (y.rows, y.cols), f"shape of {label}")
    elif isinstance(x, (Dense, LowerTriangular, UpperTriangular)):
        mk.eq(y.mat, x.mat, label)
    elif isinstance(x, Diagonal):
        mk.eq(y.diag, x.diag, label)
    elif isinstance(x, Constant):
        mk.eq(np.asarray(y.const), np.asarray(x.const), label)
        mk.true((x.rows, x.cols) == (y.rows, y.cols), f"shape of {label}")
    elif isinstance(x, TiledBlocks):
        mk.true(tuple(x.reps) == tuple(y.reps) and x.axis == y.axis, f"tiling of {label}")
        for i, (p, q) in enumerate(zip(x.blocks, y.blocks)):
            same_parts(mk, p, q, f"block {i} of {label}")
    else:
        for name in ("left", "middle", "right", "diag", "lr"):
            if hasattr(x, name):
                same_parts(mk, getattr(x, name), getattr(y, name), f"{name} of {label}")


def casts(mk, k, s, batch):
    a = make(mk, k, "a", *s, batch)
    x, ref = a.mat, a.ref
    for t in [DT[mk.symbolic]] if mk.symbolic else [np.float64, np.complex128]:
        y = B.cast(t, x)
        if k == "constb":
            mk.true(isinstance(y, Constant), f"cast(a) is {type(y).__name__}")
        elif k == "lrs" or k == "wbb":
            mk.true(type(y) is type(x), f"cast(a) is {type(y).__name__}")
        else:
            same_parts(mk, x, y, "cast(a)")
        mk.eq(B.dense(y), ref, "cast(a)")
        mk.eq(B.dense(B.transpose(y)), T(ref), "transpose(cast(a))")
        mk.true(B.dtype(y) == t, f"dtype of cast(a) is {B.dtype(y)}")
        mk.eq(B.dense(x), ref, "the matrix itself")
        if s[0] == s[1] and k[:5] != "tiled" and k[:2] != "wb" and k not in ("kron2", "kron3"):
            mk.eq(B.dense(y @ x), mm(ref, ref), "cast(a) @ a")


def filled(mk, shape, n, kind):
    """Filling a diagonal with a (batch of) scalars."""
    c = mk.real("c", *shape)
    value = c if shape else c[()]
    x = B.fill_diag(value, n)
    mk.true(isinstance(x, Diagonal), f"fill_diag(c, n) is {type(x).__name__}")
    eye = mk.const(np.eye(n, dtype=int))
    ref = eye * c[..., None, None]
    mk.eq(again(mk, x), ref, "fill_diag(c, n)")
    if kind:
        a = make(mk, kind, "a", n, n, shape)
        mk.eq(again(mk, x @ a.mat), a.ref * c[..., None, None], "fill_diag(c, n) @ a")
        mk.eq(again(mk, a.mat @ x), a.ref * c[..., None, None], "a @ fill_diag(c, n)")


KINDS = ["zero", "dense", "diag", "const", "constb", "lt", "ut", "lr1", "lr2", "lrs", "lrd", "lrx", "lrm", "wb", "wbb", "wbd", "kron", "kron2", "kronb", "krons", "tiled"]


def CASES(tier):
    out = []

    def go(id, fn, **kw):
        out.append(Case(id.replace(" ", ""), fn, kw, div="assume"))

    batches = [(), (2,), (2, 1), (1,), (3, 2)]
    for k in KINDS + list(NESTED):
        for s in [(1, 1), (2, 2), (3, 3), (4, 4), (2, 3), (3, 1), (1, 3)] if k not in NESTED else [NESTED[k]]:
            for batch in batches if k not in NESTED else batches[:2]:
                if k not in NESTED and not ok_kind(k, *s) or k == "tiledc" and batch:
                    continue
                go(f"constructors:{k}{s}{batch}", constructors, k=k, s=s, batch=batch)
                go(f"conversions:{k}{s}{batch}", conversions, k=k, s=s, batch=batch)
                go(f"casts:{k}{s}{batch}", casts, k=k, s=s, batch=batch)
    for shape in batches:
        for n in [1, 2, 3, 5]:
            go(f"filled:{shape}{n}", filled, shape=shape, n=n, kind=None)
            for kind in ["dense", "diag", "const", "lt", "lrs", "wb", "kron"]:
                if ok_kind(kind, n, n) and n < 5:
                    go(f"filled:{shape}{n}{kind}", filled, shape=shape, n=n, kind=kind)
    for k in KINDS:
        for s in BIG:
            if big_kind(k, s):
                go(f"constructors:{k}{s}", constructors, k=k, s=s, batch=())
                go(f"casts:{k}{s}", casts, k=k, s=s, batch=())
        for batch in BIG_BATCHES:
            go(f"constructors:{k}:{batch}", constructors, k=k, s=(2, 2), batch=batch)
            go(f"conversions:{k}:{batch}", conversions, k=k, s=(2, 2), batch=batch)
            go(f"casts:{k}:{batch}", casts, k=k, s=(2, 2), batch=batch)
    for shape in BIG_BATCHES:
        go(f"filled:{shape}8", filled, shape=shape, n=8, kind=None)
    return out
