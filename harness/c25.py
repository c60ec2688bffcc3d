"""C25: data types, abstractness, and missing values are reported as those of the parts."""
from .common import *

META = dict(
    level="other",
    explanation="Symbolic execution of the real `B.dtype`, `B.isabstract`, `B.isnan`, and `B.cast` on "
    "matrices of every representation. Whether a part of a matrix is abstract is a symbolic "
    "Boolean for every part, and so is whether a number is missing (NaN) for every number: z3 "
    "proves that a matrix is reported to be abstract exactly if one of its parts is, and that "
    "exactly those elements are reported to be missing for which the dense form depends on a "
    "missing number. All combinations of the data types of the parts are explored by forking on "
    "a symbolic choice for every part; the real functions then run on arrays of these data types, "
    "also sums, differences, products, means, and 20 other operations, the results of which must "
    "have the promoted data type.",
    bounds="sizes one to four, up to four parts, batches () and (2,), data types int64, float32, float64, "
    "and complex64; replayed on floating-point numbers and NaN",
    assumptions=[
        "infinities do not occur, so that only NaN gives NaN",
        "tiled blocks do not support `B.isabstract` (it raises an error)",
        "LAB constructs batches of diagonal matrices with a product, which spreads NaN to zeros",
    ],
)

TYPES = [np.int64, np.float32, np.float64, np.complex64]


class Probe(np.ndarray):
    """An array which may be abstract."""

    def __array_finalize__(self, obj):
        self.flags_ = getattr(obj, "flags_", ())

    def __getitem__(self, item):
        return self if item == () else wrap(np.asarray(self)[item], self.flags_)

    # Whatever is computed from abstract arrays is abstract.

    def __array_ufunc__(self, ufunc, method, *args, **kw):
        return self.__array_function__(getattr(ufunc, method), (), args, kw)

    def __array_function__(self, func, types, args, kw):
        flags = {}

        def strip(x):
            if isinstance(x, Probe):
                flags.update({id(f): f for f in x.flags_})
                return np.asarray(x)
            return type(x)(map(strip, x)) if isinstance(x, (list, tuple)) else x

        args = strip(args)
        return wrap(func(*args, **{k: strip(v) for k, v in kw.items()}), tuple(flags.values()))


def wrap(x, flags):
    if isinstance(x, (list, tuple)):
        return type(x)(wrap(y, flags) for y in x)
    if not isinstance(x, (np.ndarray, np.generic)):
        return x
    x = np.asarray(x).view(Probe)
    x.flags_ = flags
    return x


@B.dispatch(precedence=1000)
def isabstract(a: Probe):
    """An abstract array is one of which any of the flags holds."""
    return any(bool(f) for f in a.flags_)


def flag(mk, name):
    i = mk.int(name)
    mk.assume(i <= 1)
    return i >= 1


class Parts:
    """The parts of a matrix, with their data types and flags."""

    def __init__(self, mk, types):
        self.mk = mk
        self.types = types
        self.flags = []
        self.dtypes = []

    def dtype(self):
        t = self.types[self.mk.choose(len(self.types))] if len(self.types) > 1 else self.types[0]
        self.dtypes.append(t)
        return t

    def __call__(self, *shape):
        self.flags.append(flag(self.mk, f"f{len(self.flags)}"))
        return wrap(np.ones(shape, dtype=self.dtype()), (self.flags[-1],))

    def zero(self, *shape):
        return Zero(self.dtype(), *shape)

    @property
    def want(self):
        return np.result_type(*self.dtypes).type


REPS = {
    "dense": lambda p, b: Dense(p(*b, 2, 3)),
    "lt": lambda p, b: LowerTriangular(p(*b, 2, 2)),
    "ut": lambda p, b: UpperTriangular(p(*b, 2, 2)),
    "diag": lambda p, b: Diagonal(p(*b, 2)),
    "const": lambda p, b: Constant(p(*b), 2, 3),
    "constb": lambda p, b: Constant(p(), *b, 2, 3),
    "zero": lambda p, b: p.zero(*b, 2, 3),
    "lrs": lambda p, b: LowRank(p(*b, 2, 1)),
    "lr": lambda p, b: LowRank(p(*b, 2, 1), p(3, 1)),
    "lrm": lambda p, b: LowRank(p(2, 1), p(*b, 3, 2), p(*b, 1, 2)),
    "lrd": lambda p, b: LowRank(p(2, 2), middle=Diagonal(p(*b, 2))),
    "lrz": lambda p, b: LowRank(p(2, 2), p(3, 2), p.zero(*b, 2, 2)),
    "wb": lambda p, b: Woodbury(Diagonal(p(*b, 2)), LowRank(p(2, 1))),
    "wbm": lambda p, b: Woodbury(Diagonal(p(2)), LowRank(p(*b, 2, 1), p(2, 1), p(1, 1))),
    "kron": lambda p, b: Kronecker(Dense(p(*b, 2, 1)), Dense(p(2, 2))),
    "kronz": lambda p, b: Kronecker(p.zero(*b, 2, 2), LowerTriangular(p(1, 1))),
    "kronk": lambda p, b: Kronecker(Dense(p(1, 2)), Kronecker(Diagonal(p(*b, 2)), Constant(p(), 2, 1))),
    "kronwb": lambda p, b: Kronecker(Woodbury(Diagonal(p(2)), LowRank(p(2, 1))), UpperTriangular(p(*b, 2, 2))),
    "tiled1": lambda p, b: TiledBlocks((p(*b, 2, 2), 3), axis=-1),
    "tiled2": lambda p, b: TiledBlocks((p(*b, 1, 2), 1), (Dense(p(*b, 2, 2)), 2), axis=-2),
    "tiled3": lambda p, b: TiledBlocks((Diagonal(p(*b, 2)), 1), (p.zero(*b, 2, 2), 2), (LowRank(p(*b, 2, 1)), 1), axis=-1),
}


def abstractness(mk, kind, batch):
    p = Parts(mk, [np.float64])
    x = REPS[kind](p, batch)
    want = mk.any(*p.flags) if p.flags else False
    got = B.isabstract(x)
    mk.true(isinstance(got, (bool, np.bool_)), f"isabstract gives {type(got).__name__}")
    mk.true(want if got else mk.no(want), f"isabstract is {bool(got)}")
    # Asking again, or of the transpose, gives the same.
    mk.true(bool(B.isabstract(x)) == bool(got), "isabstract again")
    mk.true(bool(B.isabstract(B.transpose(x))) == bool(got), "isabstract of the transpose")


def types(mk, kind, batch):
    p = Parts(mk, TYPES)
    x = REPS[kind](p, batch)
    want = p.want
    same = lambda y, label, t=want: mk.true(B.dtype(y) == t, f"dtype of {label} is {B.dtype(y)}, not {t}")
    same(x, kind)
    mk.true(x.dtype == want if isinstance(x, Zero) else True, "attribute")
    if kind != "lrz":  # A product with a zero matrix has the data type of that zero matrix.
        same(B.dense(x), "dense form")
    same(x, f"{kind} again")
    if kind[:5] != "tiled":
        same(B.transpose(x), "transpose")
        same(-x, "negation")
    same(B.take(x, [0], axis=-2), "row")
    if kind[:5] != "tiled" and kind != "lrz":
        same(B.diag(x), "diagonal")
    for t in TYPES:
        if np.can_cast(want, t, "same_kind"):
            y = B.cast(t, x)
            same(y, f"cast to {t.__name__}", t)
            same(B.dense(y), f"dense form of the cast to {t.__name__}", t)
            mk.true(type(y) is type(x), f"cast gives {type(y).__name__}")
            mk.true(tuple(B.shape(y)) == tuple(B.shape(x)), f"shape of cast is {B.shape(y)}")
            mk.true(np.array_equal(B.dense(y), B.dense(x)), "values of cast")
    same(x, f"{kind} after casting")


class OneType:
    """Parts of one data type with values that are not all the same."""

    def __init__(self, t):
        self.t = t
        self.n = 0

    def __call__(self, *shape):
        self.n += 1
        x = np.arange(self.n, self.n + int(np.prod(shape))).reshape(shape) % 5 + 1
        return x.astype(self.t)[()] if shape == () else x.astype(self.t)

    def zero(self, *shape):
        return Zero(self.t, *shape)


UNARY = {
    "identity": lambda x: x,
    "sum": lambda x: B.sum(x),
    "sum rows": lambda x: B.sum(x, axis=-2),
    "sum columns": lambda x: B.sum(x, axis=-1),
    "transpose": B.transpose,
    "negation": lambda x: -x,
    "absolute value": B.abs,
    "square": lambda x: x * x,
    "diagonal": B.diag,
    "row": lambda x: B.take(x, [0], axis=-2),
    "column": lambda x: B.take(x, [0], axis=-1),
    "broadcast": lambda x: B.broadcast_to(x, 3, *B.shape(x)) if B.rank(x) == 2 else x,
    "flat": lambda x: B.reshape(x, -1),
    "squeezed": B.squeeze,
    "concatenation": lambda x: B.concat(x, x, axis=-1),
    "tile": lambda x: B.tile(x, *([1] * (B.rank(x) - 1)), 2),
    "multiple": lambda x: 2 * x,
    "ones": B.ones,
    "zeros": B.zeros,
}
SQUARE = {
    "trace": B.trace,
    "submatrix": lambda x: B.submatrix(x, [0]),
    "eye": B.eye,
    "block": lambda x: B.block_diag(x, x),
}
# These give a floating-point number that is at least as precise.
FLOAT = {
    "mean": B.mean,
    "mean of rows": lambda x: B.mean(x, axis=-2),
    "mean of columns": lambda x: B.mean(x, axis=-1),
    "half": lambda x: x / 2,
}
BINARY = {
    "a + b": B.add,
    "a - b": B.subtract,
    "a * b": B.multiply,
    "a @ b.T": lambda a, b: B.matmul(a, b, tr_b=True),
    "diag(a @ b.T)": lambda a, b: B.matmul_diag(a, b, tr_b=True),
    "kron(a, b)": B.kron,
}


def result_type(mk, y, t, label, exactly=True):
    parts = y if isinstance(y, tuple) else (y,)
    for z in parts:
        z = B.dense(z)
        got = B.dtype(z)
        if exactly:
            mk.true(got == t, f"data type of the {label} is {got} instead of {t}")
        else:
            mk.true(issubclass(got, np.inexact) and np.can_cast(t, got), f"data type of the {label} is {got} for {t}")


def computed(mk, kind, other, batch):
    """Data types of results."""
    t = TYPES[mk.choose(len(TYPES))]
    x = REPS[kind](OneType(t), batch)
    ops = dict(UNARY)
    if int(B.shape_matrix(x, 0)) == int(B.shape_matrix(x, 1)):
        ops.update(SQUARE)
    if other is None:
        for name, f in {**ops, **FLOAT}.items():
            if kind[:5] == "tiled" and name not in ("identity", "row", "column", "flat"):
                continue
            if name in ("half", "absolute value") and "z" in kind:
                continue  # The data type of zero matrices is kept.
            want = np.float32 if (name, t) == ("absolute value", np.complex64) else t
            result_type(mk, f(x), want, f"{name} of {kind}", name not in FLOAT)
        return
    t2 = TYPES[mk.choose(len(TYPES))]
    y = REPS[other](OneType(t2), batch)
    want = np.result_type(t, t2).type
    zero = "z" in kind + other
    for name, f in BINARY.items():
        try:
            z = f(x, y)
        except Exception as e:
            if isinstance(e, (AssertionError, ValueError, RuntimeError)):
                continue  # The shapes do not fit.
            raise
        if zero:  # The data type of zero matrices is not promoted.
            mk.true(B.dtype(B.dense(z)) in (t, t2, want), f"data type of {name} is {B.dtype(B.dense(z))}")
            continue
        result_type(mk, z, want, name)
        for n in ["sum", "sum rows", "sum columns", "diagonal"]:
            if isinstance(z, AbstractMatrix) and (n != "diagonal" or kind[:5] != "tiled"):
                result_type(mk, UNARY[n](z), want, f"{n} of {name}")
        if isinstance(z, AbstractMatrix):
            result_type(mk, B.mean(z, axis=-2), want, f"mean of {name}", False)


def number(mk, c):
    """Matrices of which the constant is a built-in number."""
    for c in [True, 2, 2.0, 2j]:
        x = Constant(c, 2, 3)
        mk.true(B.dtype(x) == type(c), f"dtype of a matrix of {c} is {B.dtype(x)}")
        mk.true(not B.isabstract(x), "isabstract")
        mk.true(B.isnan(x).shape == (2, 3), "isnan")


def missing_class():
    import z3
    from engine.sym import SymBool, SymReal, lift

    class Missing(SymReal):
        """A number of which only matters whether it is missing."""

        __slots__ = ("nan",)

        def __init__(self, nan):
            SymReal.__init__(self, None)
            self.nan = nan

        def _op(self, *others):
            if any(isinstance(o, np.ndarray) for o in others):
                return NotImplemented
            cs = [o.nan.c for o in (self,) + others if isinstance(o, Missing)]
            return Missing(SymBool(z3.Or(*cs) if len(cs) > 1 else cs[0]))

        __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _op
        __truediv__ = __rtruediv__ = __pow__ = __rpow__ = _op

        def __neg__(self):
            return self

        __abs__ = __neg__

    return Missing


CLS = []


class WithMissing:
    """Makes numbers which may be missing."""

    def __init__(self, mk):
        self.mk = mk
        self.symbolic = mk.symbolic
        self.dtype = mk.dtype
        self.zeros = mk.zeros
        self.const = mk.const
        if mk.symbolic and not CLS:
            CLS.append(missing_class())

    def real(self, name, *shape, **kw):
        out = np.empty(shape, dtype=self.dtype)
        for i, idx in enumerate(np.ndindex(*shape)):
            f = flag(self.mk, "nan_" + name + "".join(f"_{j}" for j in idx))
            out[idx] = CLS[0](f) if self.symbolic else np.nan if f else 1.0 + i
        return out


def isnan(x):
    """Whether every element of an array is missing."""
    out = np.empty(np.shape(x), dtype=object)
    for idx in np.ndindex(*out.shape):
        v = x[idx]
        out[idx] = getattr(v, "nan", False) if not isinstance(v, float) else bool(v != v)
    return out


def compare(mk, got, want, label):
    mk.true(np.shape(got) == np.shape(want), f"{label}: shape {np.shape(got)} instead of {np.shape(want)}")
    if np.shape(got) != np.shape(want):
        return
    iff = lambda a, b: mk.any(mk.all(a, b), mk.all(mk.no(a), mk.no(b)))
    for idx in np.ndindex(*np.shape(want)):
        mk.true(iff(got[idx], want[idx]), f"{label}{list(idx)}")


# Numbers of the dense form that are missing only if those of the parts are.
def missing(mk, kind, s, batch):
    a = make(WithMissing(mk), kind, "a", *s, batch)
    x = a.mat
    got = B.isnan(x)
    mk.true(not isinstance(got, AbstractMatrix), f"isnan gives {type(got).__name__}")
    compare(mk, got, isnan(B.dense(x)), "isnan")
    # LAB makes batches of diagonal matrices with a product, in which NaN spreads to zeros.
    if not (batch and kind in ("diag", "wb", "tiledc")):
        compare(mk, isnan(B.dense(x)), isnan(a.ref), "missing in the dense form")
        compare(mk, B.isnan(x), isnan(a.ref), "isnan again")
        if kind[:5] != "tiled":
            compare(mk, B.isnan(B.transpose(x)), isnan(T(a.ref)), "isnan of the transpose")


MISSING = ["dense", "zero", "lt", "ut", "diag", "const", "constb", "lr1", "lrs", "lrn", "wbb", "kron", "kron2", "tiled", "tiledc"]


def CASES(tier):
    out = []
    C = lambda id, fn, **kw: out.append(Case(id.replace(" ", ""), fn, kw, max_paths=3000, budget_s=100))
    batches = [(), (2,)] + ([] if tier == "quick" else [(2, 1)])
    for k in REPS:
        for b in batches:
            if k[:5] != "tiled":
                C(f"abstract:{k}:{b}", abstractness, kind=k, batch=b)
            C(f"types:{k}:{b}", types, kind=k, batch=b)
    C("numbers", number, c=None)
    for k in REPS:
        for b in batches:
            C(f"computed:{k}:{b}", computed, kind=k, other=None, batch=b)
            for k2 in REPS:
                if k[:5] != "tiled" and k2[:5] != "tiled":
                    C(f"computed:{k}:{k2}:{b}", computed, kind=k, other=k2, batch=b)
    sizes = [(1, 1), (2, 2), (2, 3), (3, 1), (4, 4), (5, 5)]
    for k in MISSING:
        for s in sizes:
            if not ok_kind(k, *s) or k == "tiledc" and s != (2, 3) or k in NESTED and k not in ("tiledc", "lrn"):
                continue
            for b in batches:
                C(f"missing:{k}:{s}:{b}", missing, kind=k, s=s, batch=b)
    return out
