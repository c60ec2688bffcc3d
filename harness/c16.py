"""C16: reported shapes and the acceptance of constructor arguments."""
import itertools

from .dims import *

META = dict(
    level="other",
    explanation="Symbolic execution of the real constructors and of `B.shape`, `B.shape_batch`, "
    "`B.shape_matrix`, `B.rank`, and the `shape` attribute on arguments of which every dimension is "
    "a z3 integer; on every path, z3 proves that the arguments are rejected exactly if they do not "
    "denote a matrix, and that otherwise all reported dimensions are those of the denoted matrix.",
    bounds="every nonnegative integer dimension; up to three batch dimensions per part (two for "
    "most combinations of parts); tiles of up to three blocks with symbolic repetitions",
    assumptions=["dimensions are nonnegative integers that are known when the code runs"],
)


def queries(mk, a, dims, label):
    dims_eq(mk, B.shape(a), dims, f"shape({label})")
    dims_eq(mk, a.shape, dims, f"{label}.shape")
    dims_eq(mk, B.shape_batch(a), dims[:-2], f"shape_batch({label})")
    dims_eq(mk, B.shape_matrix(a), dims[-2:], f"shape_matrix({label})")
    mk.true(B.rank(a) == len(dims), f"rank({label})")
    if not isinstance(a, TiledBlocks):
        for i in range(2):
            dims_eq(mk, [B.shape_matrix(a, i)], [dims[-2 + i]], f"shape_matrix({label}, {i})")
            dims_eq(mk, [B.shape(a, -2 + i)], [dims[-2 + i]], f"shape({label}, {-2 + i})")
        for i in range(len(dims) - 2):
            dims_eq(mk, [B.shape_batch(a, i)], [dims[i]], f"shape_batch({label}, {i})")
        dims_eq(mk, B.shape_matrix(a, 1, 0), [dims[-1], dims[-2]], f"shape_matrix({label}, 1, 0)")
    str(a)


def construct(mk, kind, b):
    s = build(mk, kind, "a", b)
    made = []

    def f():
        made.append(s.build())
        return B.shape(made[-1])

    if decide(mk, f, mk.all(s.ok), s.dims, kind) is not None:
        queries(mk, made[-1], s.dims, "a")


def low(mk, which):
    """Arguments of too few dimensions."""
    n, m = mk.int("n"), mk.int("m")
    v, c = mk.tensor(n), mk.tensor()
    x = mk.tensor(n, m)
    if which == "vectors":
        for C in [LowerTriangular, UpperTriangular, LowRank]:
            for y in [v, c]:
                with mk.must_raise(f"{C.__name__}({B.rank(y)}-tensor)", *ERRORS):
                    C(y)
        with mk.must_raise("Diagonal(scalar)", *ERRORS):
            Diagonal(c)
        with mk.must_raise("LowRank(x, right=v)", *ERRORS):
            LowRank(x, v)
        with mk.must_raise("LowRank(x, middle=v)", *ERRORS):
            LowRank(x, middle=v)
        for p, q in [(x, v), (v, x), (x, c), (c, x)]:
            with mk.must_raise("Kronecker of vectors", *ERRORS):
                B.shape(Kronecker(p, q))
        for y in [v, c]:
            with mk.must_raise("TiledBlocks of vectors", *ERRORS):
                B.shape(TiledBlocks((y, 2)))
    if which == "sizes":
        for args in [(), (n,)]:
            with mk.must_raise("Zero of too few dimensions", *ERRORS):
                Zero(float, *args)
            with mk.must_raise("Constant of too few dimensions", *ERRORS):
                Constant(c, *args)
    if which == "dense":
        dims_eq(mk, B.shape(Dense(v)), (n, 1), "Dense(vector)")
        dims_eq(mk, B.shape(Dense(c)), (1, 1), "Dense(scalar)")


def tiled(mk, kinds, batches, axis):
    """`axis` refers to the axes of the block of the highest rank."""
    specs = [build(mk, k, f"a{i}", b) for i, (k, b) in enumerate(zip(kinds, batches))]
    reps = ints(mk, "rep", len(kinds))
    rank = max(len(s.dims) for s in specs)
    full = [(1,) * (rank - len(s.dims)) + s.dims for s in specs]
    ax = axis if axis < 0 else axis - rank
    drop = lambda s: tuple(x for i, x in enumerate(s) if i != rank + ax)
    ok, other = rule(mk, *[drop(s) for s in full])
    ok = mk.all(ok, *[s.ok for s in specs])
    total = 0
    for s, r in zip(full, reps):
        total = s[rank + ax] * r + total
    dims = other[: rank + ax] + (total,) + other[rank + ax :]
    made = []

    def f():
        made.append(TiledBlocks(*[(s.build(), r) for s, r in zip(specs, reps)], axis=axis))
        return B.shape(made[-1])

    if decide(mk, f, ok, dims, "tiled") is not None:
        queries(mk, made[-1], dims, "a")


def nested(mk, which):
    """Representations in representations."""
    n, m, k, b = mk.int("n"), mk.int("m"), mk.int("k"), mk.int("b")
    t = mk.tensor
    wb = lambda: Woodbury(Diagonal(t(b, n)), LowRank(t(n, k)))
    lr = lambda: LowRank(t(b, n, k), t(m, k))
    a, dims = {
        "kron(wb,lr)": lambda: (Kronecker(wb(), LowRank(t(2, k))), (b, n * 2, n * 2)),
        "kron(kron,zero)": lambda: (Kronecker(Kronecker(Dense(t(b, n, 2)), Dense(t(1, 3))), Zero(float, 2, 1)), (b, n * 2, 6)),
        "kron(const,lr)": lambda: (Kronecker(Constant(t(b), 2, 3), lr()), (b, n * 2, m * 3)),
        "lowrank(lr,wb)": lambda: (LowRank(lr(), wb() if False else Dense(t(n, m)), Zero(float, m, m)), (b, n, n)),
        "lowrank(dense,diag)": lambda: (LowRank(Dense(t(n, k)), Dense(t(m, k)), Diagonal(t(b, k))), (b, n, m)),
        "dense(lt)": lambda: (LowRank(LowerTriangular(t(n, k)), middle=Constant(t(b), k, k)), (b, n, n)),
        "lt(dense)": lambda: (LowerTriangular(Dense(t(b, n, m))), (b, n, m)),
        "ut(dense)": lambda: (UpperTriangular(Dense(t(b, n, m))), (b, n, m)),
    }[which]()
    queries(mk, a, dims, which)


NESTED_ = ["kron(wb,lr)", "kron(kron,zero)", "kron(const,lr)", "lowrank(lr,wb)", "lowrank(dense,diag)", "dense(lt)", "lt(dense)", "ut(dense)"]


def CASES(tier):
    out = []
    deep = tier != "quick"
    C = lambda id, fn, cost=1, **kw: out.append(Case(id.replace(" ", ""), fn, kw, max_paths=6000, budget_s=120, query_ms=15000, cost=cost))
    for k in ["dense", "lt", "ut", "diag", "zero", "const", "lrs", "kronk"]:
        for b in range(4):
            C(f"{k}:{b}", construct, kind=k, b=b)
    for cr in range(4):
        for b in range(4):
            C(f"constb:{cr}:{b}", construct, kind=f"constb:{cr}", b=b)
    R = range(3)
    for bl, br, bm in itertools.product(R, repeat=3):
        for k in ["lr", "lrs", "lrm", "lrsm", "lrd", "lrsd"]:
            if k[2:3] == "s" and br or k in ("lr", "lrs") and bm:
                continue
            C(f"{k}:{bl}:{br}:{bm}", construct, cost=bl + br + bm, kind=f"{k}:{bl}:{br}:{bm}", b=0)
    for bd, bl in itertools.product(range(4 if deep else 3), repeat=2):
        C(f"wb:{bd}:{bl}", construct, cost=bd + bl, kind=f"wb:{bd}:{bl}", b=0)
    for b in R:
        C(f"wbr:{b}", construct, kind="wbr", b=b)
    for bl, br in itertools.product(range(4 if deep else 3), repeat=2):
        for k in ["kron", "kronlt", "kronz", "kronlr", "kronn"]:
            C(f"{k}:{bl}:{br}", construct, cost=bl + br, kind=f"{k}:{bl}:{br}", b=0)
    for w in ["vectors", "sizes", "dense"]:
        C(f"low:{w}", low, which=w)
    for w in NESTED_:
        C(f"nested:{w}", nested, which=w)
    kinds = ["dense", "zero", "diag", "lrs", "num"]
    for n in [1, 2, 3]:
        for ks in itertools.product(kinds, repeat=n):
            if n == 2 and not deep and "dense" not in ks or n == 3 and set(ks) not in ({"dense"}, {"dense", "zero"}):
                continue
            for bs in itertools.product(range(3 if n < 3 else 2), repeat=n):
                if n > 1 and sum(bs) > 2 and not deep:
                    continue
                for axis in range(-max(bs) - 2, max(bs) + 2):
                    if not deep and n > 1 and axis >= 0 and ks[0] != "dense":
                        continue
                    C(f"tiled:{','.join(ks)}:{bs}:{axis}", tiled, cost=sum(bs) + n, kinds=ks, batches=bs, axis=axis)
    return out
