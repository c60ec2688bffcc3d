"""C19: operations do not change their operands, and caches are transparent."""
from .c11 import invertible, pd
from .common import *
from plum import NotFoundLookupError

META = dict(
    level="other",
    explanation="Symbolic execution of sequences of the real operations on one shared object whose "
    "entries are z3 reals.  Which two operations run is a choice of the path.  Every result must "
    "equal that of the same operation on a fresh object, a result that was obtained earlier must "
    "still have its value afterwards, and all arrays given to constructors must be unchanged; "
    "all equalities are decided by z3.",
    bounds="all ordered pairs of about forty operations, and sequences of all of them in two "
    "orders, on a shared object, for every representation; sizes two to four, batches () and (2,)",
    assumptions=[
        "real arithmetic instead of floating point",
        "positive definiteness where the operation requires it",
    ],
)


class Memo:
    """Gives the same entries, in new arrays, if an object is constructed again."""

    def __init__(self, mk):
        self.mk = mk
        self.memo = {}
        self.given = []

    def __getattr__(self, name):
        return getattr(self.mk, name)

    def real(self, name, *shape, **kw):
        if name not in self.memo:
            self.memo[name] = self.mk.real(name, *shape, **kw)
        x = self.memo[name].copy()
        self.given.append((x, self.memo[name]))
        return x

    def const(self, arr):
        x = self.mk.const(arr)
        self.given.append((x, x.copy()))
        return x


GENERAL = {
    "dense": lambda x, o: B.dense(x),
    "transpose": lambda x, o: B.transpose(x),
    "transpose_dense": lambda x, o: B.dense(B.transpose(x)),
    "negative": lambda x, o: -x,
    "add_self": lambda x, o: x + x,
    "add_scalar": lambda x, o: x + 2,
    "subtract_from": lambda x, o: 2 - x,
    "subtract_transposed": lambda x, o: B.subtract(x, B.transpose(x)) if sq(x) else x,
    "add_array": lambda x, o: B.add(x, o["num"]),
    "add_diag": lambda x, o: B.add(x, o["diag"]) if sq(x) else x,
    "add_lr": lambda x, o: B.add(x, o["lr"]),
    "multiply_self": lambda x, o: x * x,
    "multiply_scalar": lambda x, o: 3 * x,
    "multiply_array": lambda x, o: B.multiply(x, o["num"]),
    "multiply_diag": lambda x, o: B.multiply(x, o["diag"]) if sq(x) else x,
    "divide_const": lambda x, o: x / 2,
    "power": lambda x, o: x**2,
    "matmul_t": lambda x, o: B.matmul(x, x, tr_b=True),
    "t_matmul": lambda x, o: B.matmul(x, x, tr_a=True),
    "matmul_array": lambda x, o: B.matmul(x, o["num"], tr_b=True),
    "array_matmul": lambda x, o: B.matmul(o["num"], x, tr_a=True),
    "matmul_diag": lambda x, o: B.matmul_diag(x, x, tr_a=True),
    "sum": lambda x, o: B.sum(x),
    "sum_rows": lambda x, o: B.sum(x, axis=-2),
    "sum_cols": lambda x, o: B.sum(x, axis=-1),
    "mean": lambda x, o: B.mean(x, axis=-1),
    "diag": lambda x, o: B.diag(x),
    "diag_times": lambda x, o: B.diag(x) * 2,
    "take": lambda x, o: B.take(x, [1, 0], axis=-2),
    "take_cols": lambda x, o: B.take(x, [1], axis=-1),
    "submatrix": lambda x, o: B.submatrix(x, [1, 0]) if sq(x) else x,
    "index": lambda x, o: x[..., 0, :],
    "kron": lambda x, o: B.kron(x, x) if B.shape(x, -1) < 4 else x,
    "concat": lambda x, o: B.concat(x, x, axis=-1),
    "block_diag": lambda x, o: B.block_diag(x, x),
    "block": lambda x, o: B.block([x, x], [x, x]),
    "reshape": lambda x, o: B.reshape(x, -1),
    "broadcast": lambda x, o: B.broadcast_to(x, 2, *B.shape(x)),
    "broadcast_batch": lambda x, o: B.transpose(B.broadcast_batch_to(x, 2, *B.shape_batch(x))),
    "parts": lambda x, o: [B.dense(p) for p in parts(x)],
    "parts_transposed": lambda x, o: [B.dense(B.transpose(p)) for p in parts(x)],
}
INVERSE = {
    "inv": lambda x, o: B.inv(x),
    "inv_dense": lambda x, o: B.dense(B.inv(x)),
    "pd_inv": lambda x, o: B.pd_inv(x),
    "cholesky": lambda x, o: B.cholesky(x),
    "cholesky_dense": lambda x, o: B.dense(B.cholesky(x)),
    "logdet": lambda x, o: B.logdet(x),
    "solve": lambda x, o: B.solve(x, o["num"]),
    "iqf": lambda x, o: B.iqf(x, o["num"]),
    "iqf_diag": lambda x, o: B.iqf_diag(x, o["num"]),
    "ratio": lambda x, o: B.ratio(x, o["dense"]),
    "ratio_of": lambda x, o: B.ratio(o["dense"], x),
    "inv_transposed": lambda x, o: B.inv(B.transpose(x)),
    "inv_twice_as_large": lambda x, o: B.inv(2 * x),
    "pd_inv_twice_as_large": lambda x, o: B.pd_inv(2 * x),
    "logdet_twice_as_large": lambda x, o: B.logdet(2 * x),
    "cholesky_twice_as_large": lambda x, o: B.cholesky(2 * x),
    "logdet_transposed": lambda x, o: B.logdet(B.transpose(x)),
    "logdet_shifted": lambda x, o: B.logdet(x + o["eye"]),
    "schur": lambda x, o: B.schur(x) if isinstance(x, Woodbury) else x,
    "pd_schur": lambda x, o: B.pd_schur(x) if isinstance(x, Woodbury) else x,
    "inv_broadcast": lambda x, o: B.inv(B.broadcast_batch_to(x, 2, *B.shape_batch(x))),
    "inv_parts": lambda x, o: [B.inv(p) for p in square_parts(x)],
    "cholesky_parts": lambda x, o: [B.cholesky(p) for p in square_parts(x)],
    "take_batch": lambda x, o: B.logdet(B.take(x, [1], axis=0)) if B.rank(x) > 2 else x,
    "cholesky_of_lr": lambda x, o: B.cholesky(x.lr) if isinstance(x, Woodbury) else x,
}
# Structures that can be in the cache when an inverse is computed:
GENERAL_FEW = ["dense", "transpose_dense", "add_diag", "multiply_scalar", "matmul_t", "diag", "parts", "broadcast_batch", "negative"]


# Adding low-rank matrices decides on the values, which multiplies the paths.
FORKING = {"add_self", "add_scalar", "subtract_from", "subtract_transposed", "add_lr"}
FORKING_WB = {"matmul_t", "t_matmul", "multiply_self", "matmul_diag", "kron", "logdet_shifted"}
INVERTIBLE = ["inv", "inv_dense", "solve", "inv_transposed", "inv_twice_as_large", "schur", "inv_broadcast", "inv_parts"]
FIRST = ["dense", "transpose", "negative", "add_array", "add_diag", "multiply_self", "matmul_t", "matmul_diag", "sum", "diag", "take", "submatrix", "broadcast_batch", "parts_transposed"]


def sq(x):
    return B.shape(x, -1) == B.shape(x, -2)


def parts(x):
    if isinstance(x, Woodbury):
        return [x.diag, x.lr, *parts(x.lr)]
    if isinstance(x, LowRank):
        return [x.left, x.right, x.middle]
    if isinstance(x, Kronecker):
        return [x.left, x.right, *parts(x.left), *parts(x.right)]
    if isinstance(x, TiledBlocks):
        return list(x.blocks)
    return []


def square_parts(x):
    if isinstance(x, Woodbury):
        return [x.diag, x.lr.middle]
    if isinstance(x, Kronecker):
        return [x.left, x.right]
    return []


class Unsupported:
    """The operation is not available for this representation."""


def run(f, x, o):
    try:
        return f(x, o)
    except NotFoundLookupError:
        return Unsupported


def compare(mk, a, b, label):
    if a is Unsupported or b is Unsupported:
        mk.true(a is b, f"{label}: supported or not")
        return
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            compare(mk, x, y, f"{label}[{i}]")
    else:
        mk.true(type(a) == type(b), f"{label}: same representation")
        mk.eq(a, B.dense(b), label)


def builder(mk, kind, s, batch, positive):
    """Operands are constructed anew by every call."""
    m, n = s

    def go(memo):
        x = (
            pd(memo, kind, n, batch)
            if positive
            else invertible(memo, kind, "a", n, batch)
            if positive is None
            else make(memo, kind, "a", m, n, batch)
        )
        o = {
            "num": memo.real("onum", m, 1) if positive else memo.real("onum", m, n),
            "diag": Diagonal(memo.real("odiag", n)),
            "lr": LowRank(memo.real("ol", m, 1), memo.real("or", n, 1)),
            "dense": Dense(mm(memo.real("od", m, n), np.eye(n, dtype=int))) if not positive else None,
            "eye": Diagonal(memo.const(np.ones(n, dtype=int))),
        }
        if positive:
            l = memo.real("od", n, pos=True)
            o["dense"] = Dense(diag_embed(l * l, mk))
            memo.known_root(diag_embed(l * l, mk), diag_embed(l, mk))
        return x.mat, x.ref, o

    return go


def unchanged(mk, memo, label):
    for i, (x, y) in enumerate(memo.given):
        mk.eq(x, y, f"array {i} given to a constructor after {label}")


def pair(mk, kind, s, batch, first, seconds, positive):
    memo = Memo(mk)
    go = builder(mk, kind, s, batch, positive)
    ops = {**GENERAL, **INVERSE}
    second = seconds[mk.choose(len(seconds), "second operation")]
    x, ref, o = go(memo)
    p = run(ops[first], x, o)
    q = run(ops[second], x, o)
    again = run(ops[first], x, o)
    unchanged(mk, memo, f"{first} and {second}")
    y, _, oy = go(memo)
    fresh_p = run(ops[first], y, oy)
    z, _, oz = go(memo)
    fresh_q = run(ops[second], z, oz)
    compare(mk, p, fresh_p, f"{first}, looked at after {second}")
    compare(mk, q, fresh_q, f"{second} after {first}")
    compare(mk, again, fresh_p, f"{first} after {first} and {second}")
    mk.eq(x, ref, f"operand after {first} and {second}")
    for k, v in o.items():
        mk.eq(v, B.dense(oz[k]), f"other operand {k} after {first} and {second}")


def sequence(mk, kind, s, batch, names, positive):
    memo = Memo(mk)
    go = builder(mk, kind, s, batch, positive)
    ops = {**GENERAL, **INVERSE}
    names = names[::-1] if mk.choose(2, "order") else names
    x, ref, o = go(memo)
    results = [run(ops[n], x, o) for n in names]
    unchanged(mk, memo, "all operations")
    for n, r in zip(names, results):
        y, _, oy = go(memo)
        compare(mk, r, run(ops[n], y, oy), f"{n} in a sequence of all operations")
    mk.eq(x, ref, "operand after all operations")


def CASES(tier):
    out = []
    deep = tier != "quick"
    C = lambda id, fn, **kw: out.append(
        Case(id.replace(" ", ""), fn, kw, div="assume", max_paths=3000, budget_s=120 if deep else 40)
    )
    general = list(GENERAL)
    sizes = {"zero": (2, 3), "dense": (2, 2), "const": (2, 3), "constb": (2, 2), "kron": (4, 4), "kron2": (2, 2), "krons": (4, 4), "kronb": (4, 4), "tiled": (3, 2)}
    kinds = ["zero", "dense", "diag", "const", "constb", "lt", "ut", "lr1", "lr2", "lrs", "lrd", "lrx", "lrm", "wb", "wbb", "wbd", "kron", "kron2", "kronb", "krons", "tiled"]
    for k in kinds:
        s = sizes.get(k, (2, 2))
        low = k[:2] in ("lr", "wb") or k[:5] == "const"
        for batch in [(), (2,)]:
            names = [
                n
                for n in general
                if not (k == "tiled" and n == "kron")  # Does not have a dense form.
                and not (low and n in FORKING)
                and not (k[:2] == "wb" and n in FORKING_WB)
            ]
            C(f"sequence:{k}:{batch}", sequence, kind=k, s=s, batch=batch, names=names, positive=False)
            if batch and not deep:
                continue
            for n in names if deep else FIRST:
                if n in names:
                    C(f"pair:{k}:{batch}:{n}", pair, kind=k, s=s, batch=batch, first=n, seconds=names, positive=False)
            if low and k in ("const", "lrs", "wbb") and not batch:
                for n in ["add_self", "add_scalar", "add_lr"]:
                    some = ["dense", "parts", "matmul_t", "diag", "transpose_dense"]
                    C(f"forking:{k}:{batch}:{n}", pair, kind=k, s=s, batch=batch, first=n, seconds=some, positive=False)
    for k, n in [("dense", 2), ("diag", 2), ("kron", 2), ("kron_dd", 4), ("wb", 2), ("wb_right", 2), ("wb_default", 2), ("wb_bat", 2), ("wb_mid2", 2)]:
        for batch in [(), (2,)]:
            names = [x for x in [*GENERAL_FEW, *INVERSE] if not (k[:2] == "wb" and x in FORKING_WB)]
            C(f"pd_sequence:{k}:{batch}", sequence, kind=k, s=(n, n), batch=batch, names=names, positive=True)
            if batch and not deep or k == "wb_mid2":
                continue
            for m in names:
                C(f"pd_pair:{k}:{batch}:{m}", pair, kind=k, s=(n, n), batch=batch, first=m, seconds=names, positive=True)
    for k, n in [("dense", 2), ("diag", 2), ("lt", 2), ("ut", 2), ("wb", 2), ("wbd", 2), ("wbb", 2), ("kron_dd", 2), ("kron_wd", 2)]:
        for batch in [(), (2,)]:
            if k == "kron_wd" and batch:
                continue
            names = [x for x in [*GENERAL_FEW, *INVERTIBLE] if not (k[:2] == "wb" and x in FORKING_WB)]
            C(f"inv_sequence:{k}:{batch}", sequence, kind=k, s=(n, n), batch=batch, names=names, positive=None)
            if batch and not deep:
                continue
            for m in names:
                C(f"inv_pair:{k}:{batch}:{m}", pair, kind=k, s=(n, n), batch=batch, first=m, seconds=names, positive=None)
    return out
