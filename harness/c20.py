"""C20: claimed structure is true, and structure is kept where promised."""
from .c11 import invertible, pd
from .common import *

META = dict(
    level="other",
    explanation="Symbolic execution of the real operations on matrices whose entries are z3 reals. "
    "Each result is put together again from its parts (the diagonal, the constant, the factors) "
    "without the code under test and z3 proves that this equals the dense result; entries that a "
    "triangular result claims to be zero are proved to be zero. For operands that do not broadcast, "
    "the representation must be the one that the table in the harness promises.",
    bounds="sizes one to four, ranks one and two, batches () and (2,), index lists up to three"
    "; in separate cases also sizes up to 12 (such as 5 x 5, 9 x 9, 6 x 9, 1 x 11), batches "
    "of up to four dimensions or of size five, and the same object given as both operands or "
    "as several parts of one",
    assumptions=[
        "real arithmetic instead of floating point",
        "columns of low-rank factors are equal or differ by more than the tolerance (C21)",
        "matrices are invertible or positive definite where the operation requires it",
    ],
)


def again(mk, x):
    """Put a matrix together from its parts."""
    if not isinstance(x, AbstractMatrix):
        return np.asarray(x)
    if isinstance(x, Zero):
        return mk.zeros(*(int(d) for d in x.batch), int(x.rows), int(x.cols))
    if isinstance(x, (Dense, LowerTriangular, UpperTriangular)):
        return np.asarray(x.mat)
    if isinstance(x, Diagonal):
        return diag_embed(x.diag, mk)
    if isinstance(x, Constant):
        return full(np.shape(x.const) + (int(x.rows), int(x.cols)), x.const, mk)
    if isinstance(x, LowRank):
        return mm(again(mk, x.left), again(mk, x.middle), T(again(mk, x.right)))
    if isinstance(x, Woodbury):
        return again(mk, x.diag) + again(mk, x.lr)
    if isinstance(x, Kronecker):
        return kron_ref(again(mk, x.left), again(mk, x.right))
    if isinstance(x, TiledBlocks):
        return np.concatenate([again(mk, b) for b, r in zip(x.blocks, x.reps) for _ in range(r)], axis=x.axis)
    raise ValueError(type(x))


def claims(mk, x, label):
    """Claims that are not implied by the parts."""
    if isinstance(x, (LowerTriangular, UpperTriangular)):
        mat = np.asarray(x.mat)
        for idx in np.ndindex(*mat.shape):
            if (idx[-1] > idx[-2]) if isinstance(x, LowerTriangular) else (idx[-1] < idx[-2]):
                mk.eq(mat[idx], mk.zeros()[()], f"{label} is triangular at {idx}")
    elif isinstance(x, LowRank):
        mk.true(x.rank >= 0 and x.rank == min(B.shape_matrix(x.middle)), f"rank of {label}")
        for p in (x.left, x.middle, x.right):
            claims(mk, p, f"part of {label}")
    elif isinstance(x, Woodbury):
        mk.true(isinstance(x.diag, Diagonal) and isinstance(x.lr, LowRank), f"parts of {label}")
        claims(mk, x.lr, f"low-rank part of {label}")
    elif isinstance(x, Kronecker):
        for p in (x.left, x.right):
            claims(mk, p, f"part of {label}")


def truth(mk, x, ref, label, types=None):
    mk.eq(again(mk, x), ref, f"{label} from its parts")
    claims(mk, x, label)
    if types is not None:
        mk.true(isinstance(x, types), f"{label} is {type(x).__name__}")


D, LT, UT, LR, WB, KR, C, Z = Diagonal, LowerTriangular, UpperTriangular, LowRank, Woodbury, Kronecker, Constant, Zero
TYPES = {
    "zero": Z, "dense": Dense, "diag": D, "const": C, "constb": C, "lt": LT, "ut": UT, "lr1": LR, "lr2": LR, "lrs": LR,
    "lrd": LR, "lrx": LR, "lrm": LR, "wb": WB, "wbb": WB, "wbd": WB, "kron": KR, "kron2": KR, "kronb": KR, "krons": KR,
}


def sum_type(a, b):
    for x, y in [(a, b), (b, a)]:
        if x is Z:
            return y
        if x is D and y in (D, LT, UT):
            return y
        if x is D and y in (LR, C, WB) or x is WB and y in (LR, C, WB):
            return WB
        if x is LR and y in (LR, C):
            return (LR, Z)
        if x is y and x in (C, LT, UT):
            return x
    return None


def product_type(a, b):
    for x, y in [(a, b), (b, a)]:
        if Z in (x, y):
            return Z
        if x is D:
            return D
        if x is C and y is not Dense:
            return y
        if x is y and x in (LT, UT, LR, KR):
            return x
        if {x, y} == {LT, UT}:
            return D
    for x, y in [(a, b), (b, a)]:
        if x is WB and y in (WB, LR):
            return WB
        if x in (LT, UT) and y in (Dense, LR, KR):
            return x
    return None


def matmul_type(a, b):
    for x, y in [(a, b), (b, a)]:
        if x is Z:
            return Z
        if x is D and y in (D, LT, UT):
            return y
        if x is D and y in (C, LR):
            return LR
        if x is y and x in (C, LT, UT, KR):
            return x
        if x is D and y is WB or x is WB and y is WB:
            return WB
    for x, y in [(a, b), (b, a)]:
        if x is LR and y not in ():
            return LR
        if x is C:
            return LR
    return None


def tr(t, do):
    return {LT: UT, UT: LT}.get(t, t) if do else t


def binary(mk, op, ka, kb, sa, sb, ba, bb, tr_a=False, tr_b=False):
    a, b = make(mk, ka, "a", *sa, ba), make(mk, kb, "b", *sb, bb)
    ta, tb = TYPES[ka], TYPES[kb]
    same = sa == sb
    if op == "add":
        truth(mk, B.add(a.mat, b.mat), a.ref + b.ref, "a + b", sum_type(ta, tb) if same else None)
    elif op == "subtract":
        truth(mk, B.subtract(a.mat, b.mat), a.ref - b.ref, "a - b", sum_type(ta, tb) if same else None)
    elif op == "multiply":
        types = product_type(ta, tb) if same else None
        if types is D and not {ta, tb} & {D} and sa[0] != sa[1]:
            types = None
        if {ta, tb} == {KR} and sa != sb:
            return  # The shapes of the factors may not fit.
        truth(mk, B.multiply(a.mat, b.mat), a.ref * b.ref, "a * b", types)
    elif op == "matmul":
        ra, rb = T(a.ref) if tr_a else a.ref, T(b.ref) if tr_b else b.ref
        types = matmul_type(tr(ta, tr_a), tr(tb, tr_b))
        if types in (LT, UT) and ta is not tb and D not in (ta, tb):
            types = None  # Structure is only kept for operands of the same type.
        truth(mk, B.matmul(a.mat, b.mat, tr_a=tr_a, tr_b=tr_b), mm(ra, rb), "a @ b", types)
    elif op == "kron":
        types = Z if Z in (ta, tb) else C if ta is tb is C else KR
        truth(mk, B.kron(a.mat, b.mat), kron_ref(a.ref, b.ref), "kron(a, b)", types)
    elif op == "block_diag":
        types = D if ta is tb is D else Z if ta is tb is Z else None
        z = lambda x, y: mk.zeros(*x.shape[:-2], x.shape[-2], y.shape[-1])
        x, y = bc(a.ref, np.broadcast_shapes(ba, bb) + sa), bc(b.ref, np.broadcast_shapes(ba, bb) + sb)
        ref = np.concatenate([np.concatenate([x, z(x, y)], -1), np.concatenate([z(y, x), y], -1)], -2)
        truth(mk, B.block_diag(a.mat, b.mat), ref, "block_diag(a, b)", types)
    elif op == "block":
        types = D if {ta, tb} <= {D, Z} and sa[0] == sa[1] and sb[0] == sb[1] and D in (ta, tb) else Z if ta is tb is Z else None
        x, y = bc(a.ref, np.broadcast_shapes(ba, bb) + sa), bc(b.ref, np.broadcast_shapes(ba, bb) + sb)
        p, q = mk.zeros(*x.shape[:-2], sa[0], sb[1]), mk.zeros(*x.shape[:-2], sb[0], sa[1])
        zero = lambda x: Zero(DT[mk.symbolic], *x.shape[-2:])
        ref = np.concatenate([np.concatenate([x, p], -1), np.concatenate([q, y], -1)], -2)
        truth(mk, B.block([a.mat, zero(p)], [zero(q), b.mat]), ref, "block(a, b)", types)
        ref = np.concatenate([np.concatenate([p, x], -1), np.concatenate([y, q], -1)], -2)
        truth(mk, B.block([zero(p), a.mat], [b.mat, zero(q)]), ref, "block(0, a, b, 0)", types if types is Z else None)


def unary(mk, k, s, batch):
    a = make(mk, k, "a", *s, batch)
    t = TYPES[k]
    x, ref = a.mat, a.ref
    truth(mk, B.transpose(x), T(ref), "transpose(a)", tr(t, True))
    truth(mk, B.negative(x), -ref, "-a", t)
    truth(mk, B.multiply(x, 2), ref * 2, "a * 2", t)
    truth(mk, B.multiply(3, x), ref * 3, "3 * a", t)
    c = mk.scalar("c")
    truth(mk, B.multiply(c, x), ref * c, "c * a", (t, Z))
    truth(mk, B.divide(x, 2), ref / mk.const(2)[()], "a / 2", t)
    truth(mk, B.multiply(x, 0), ref * 0, "a * 0", Z)
    if t is not Dense:
        truth(mk, B.add(x, 0), ref, "a + 0", t)
        truth(mk, B.subtract(x, 0), ref, "a - 0", t)
    for b in [(2,), (3, 2), (1,), (2, *batch), (1, 1, *batch)]:
        if b[len(b) - len(batch) :] == batch or len(b) >= len(batch) and all(p in (1, q) for p, q in zip(batch, b[len(b) - len(batch) :])):
            truth(mk, B.broadcast_batch_to(x, *b), bc(ref, b + s), f"broadcast_batch_to(a, {b})", t)
            truth(mk, B.broadcast_to(x, *b, *s), bc(ref, b + s), f"broadcast_to(a, {b + s})", t)
    if batch:
        truth(mk, B.take(x, [-1, 0], axis=0), ref[[-1, 0]], "take(a, [-1, 0], axis=0)", t)
        mask = [i % 2 == 0 for i in range(batch[-1])]
        truth(mk, B.take(x, mask, axis=-3), ref[..., mask, :, :], "take(a, mask, axis=-3)", t)
        keep = t if t in (D, C) else None
        truth(mk, B.sum(x, axis=0), np.sum(ref, axis=0), "sum(a, axis=0)", keep)


def power(mk, k, s, batch, b):
    a = make(mk, k, "a", *s, batch, pos=k not in ("lr1", "lrs", "wb"))
    t = TYPES[k]
    keep = t if t in (C, KR) or t in (Z, D, LT, UT) and b > 0 else None
    if b == 0.5:
        truth(mk, B.sqrt(a.mat), np.vectorize(mk.sqrt_of, otypes=[mk.dtype])(a.ref), "sqrt(a)", keep)
        return
    if b < 0:
        for e in np.ravel(again(mk, a.mat)):
            mk.assume(mk.ne(e, 0))
    ref = np.ones_like(a.ref)
    for _ in range(abs(b)):
        ref = ref * a.ref
    ref = 1 / ref if b < 0 else ref
    truth(mk, B.power(a.mat, b), ref + mk.zeros()[()], f"a ** {b}", keep)
    if b == 1:
        truth(mk, B.abs(a.mat), np.abs(a.ref), "abs(a)", keep)


def select(mk, k, n, batch, iom):
    a = make(mk, k, "a", n, n, batch)
    t = TYPES[k]
    i = np.array(iom)
    if i.dtype == bool:
        i = np.nonzero(i)[0]
    j = i % n
    distinct, rising = len(set(j)) == len(j), all(p < q for p, q in zip(j[:-1], j[1:]))
    ref = a.ref[..., i, :][..., i]
    keep = t if t in (Z, C, LR) or t in (D, WB) and distinct or t in (LT, UT) and rising else None
    truth(mk, B.submatrix(a.mat, iom), ref, f"submatrix(a, {iom})", keep)
    truth(mk, B.take(a.mat, iom, axis=-2), a.ref[..., i, :], f"take(a, {iom}, axis=-2)", t if t in (Z, C, LR) else None)
    truth(mk, B.take(a.mat, iom, axis=-1), a.ref[..., i], f"take(a, {iom}, axis=-1)", t if t in (Z, C, LR) else None)


def expand(mk, k, s, batch, target):
    """Expansion of the matrix dimensions."""
    a = make(mk, k, "a", *s, batch)
    truth(mk, B.broadcast_to(a.mat, *target), np.broadcast_to(a.ref, target), f"broadcast_to(a, {target})", TYPES[k] if TYPES[k] in (Z, C) else None)


def inverse(mk, k, n, batch):
    a = invertible(mk, k, "a", n, batch)
    eye = mk.const(np.broadcast_to(np.eye(n, dtype=int), a.ref.shape))
    x = B.inv(a.mat)
    mk.eq(mm(again(mk, x), a.ref), eye, "inv(a) from its parts")
    claims(mk, x, "inv(a)")
    mk.true(type(x) is type(a.mat), f"inv(a) is {type(x).__name__}")


def positive(mk, k, n, batch):
    a = pd(mk, k, n, batch)
    t = type(a.mat)
    eye = mk.const(np.broadcast_to(np.eye(n, dtype=int), a.ref.shape))
    x = B.pd_inv(a.mat)
    mk.eq(mm(again(mk, x), a.ref), eye, "pd_inv(a) from its parts")
    claims(mk, x, "pd_inv(a)")
    mk.true(isinstance(x, {Woodbury: WB, Diagonal: D, Kronecker: KR}.get(t, AbstractMatrix)), f"pd_inv(a) is {type(x).__name__}")
    x = B.cholesky(a.mat)
    mk.eq(mm(again(mk, x), T(again(mk, x))), a.ref, "cholesky(a) from its parts")
    claims(mk, x, "cholesky(a)")
    mk.true(isinstance(x, {Woodbury: LT, Diagonal: D, Kronecker: KR, Dense: LT}[t]), f"cholesky(a) is {type(x).__name__}")


SIMPLE = ["zero", "dense", "diag", "const", "constb", "lt", "ut", "kron", "krons"]
LOW = ["lr1", "lrs", "wb", "wbb", "lrd", "wbd", "lrx", "lrm"]


def CASES(tier):
    out = []
    deep = tier != "quick"

    def go(id, fn, **kw):
        cost = kw.pop("cost", 1)
        out.append(Case(id.replace(" ", ""), fn, kw, div="assume", cost=cost, budget_s=60, max_paths=2000))

    def pair(op, ka, kb, sa, sb, ba, bb, cost=1, **kw):
        if ok_kind(ka, *sa) and ok_kind(kb, *sb):
            name = "".join(f":{k}" for k, v in kw.items() if v)
            go(f"{op}:{ka}{sa}{ba}/{kb}{sb}{bb}{name}", binary, op=op, ka=ka, kb=kb, sa=sa, sb=sb, ba=ba, bb=bb, cost=cost, **kw)

    batches = [((), ()), ((2,), ()), ((), (2,)), ((2,), (2,))]
    for ka, kb in itertools.product(SIMPLE + LOW, repeat=2):
        low = ka in LOW + ["const", "constb"] and kb in LOW + ["const", "constb"]
        aligned = low and (ka in LOW or kb in LOW)
        odd = {ka, kb} & {"lrd", "lrx", "lrm", "wbd"}
        n = 4 if {ka, kb} & {"kron", "krons"} else 2
        for i, (ba, bb) in enumerate(batches if deep else batches[:3]):
            heavy = aligned and (odd or ba or bb or "wb" in ka + kb)
            if not (heavy and not deep) and not (deep and aligned and odd and i):
                pair("add", ka, kb, (n, n), (n, n), ba, bb, cost=5 if aligned else 1)
                if i == 0 and not aligned:
                    pair("subtract", ka, kb, (n, n), (n, n), ba, bb)
            if not (odd and i and not deep):
                # Woodbury times low-rank matrices also aligns.
                woods = "wb" in ka and (kb in LOW) or "wb" in kb and (ka in LOW)
                if not (woods and (not deep or i or odd)):
                    pair("multiply", ka, kb, (n, n), (n, n), ba, bb)
                for tr_a, tr_b in itertools.product([False, True], repeat=2):
                    if "wb" in ka + kb and (ka in LOW + ["const", "constb"] and kb in LOW + ["const", "constb"]) and (not deep or i or odd):
                        continue
                    if not deep and i and tr_a != tr_b:
                        continue
                    pair("matmul", ka, kb, (n, n), (n, n), ba, bb, tr_a=tr_a, tr_b=tr_b)
        pair("kron", ka, kb, (2, 2), (2, 2), (2,), ())
        pair("block_diag", ka, kb, (2, 2), (2, 2), (), (2,))
        pair("block", ka, kb, (2, 2), (2, 2), (2,), ())
        # Broadcasting of the matrix dimensions, and matrices that are not square:
        for sa, sb in [((1, 1), (2, 2)), ((1, 2), (2, 2)), ((2, 1), (2, 2)), ((2, 2), (1, 1)), ((2, 2), (1, 2)), ((2, 2), (2, 1)), ((1, 1), (2, 3)), ((2, 3), (2, 3)), ((3, 2), (3, 2)), ((1, 2), (2, 1)), ((1, 3), (3, 3))]:
            if aligned and not (deep and not odd):
                continue
            if odd and not deep:
                continue
            b = (2,) if sa[0] == 2 else ()
            pair("add", ka, kb, sa, sb, b, ())
            if not ("wb" in ka + kb and low):
                pair("multiply", ka, kb, sa, sb, b, ())
        for s in [(2, 3), (3, 2), (1, 2), (2, 1)]:
            if "wb" not in ka + kb:
                pair("matmul", ka, kb, s, s[::-1], (), ())
    for k in TYPES:
        n = 4 if k[:4] == "kron" else 2
        for batch in [(), (2,)]:
            for s in [(n, n), (2, 3), (3, 1)]:
                if ok_kind(k, *s):
                    go(f"unary:{k}{s}{batch}", unary, k=k, s=s, batch=batch)
            for b in [-1, 0, 0.5, 1, 2, 3]:
                if b == 0.5 and k in ("lr1", "lr2", "lrs", "lrd", "lrx", "lrm", "wb", "wbb", "wbd") or b < 0 and k[:4] == "kron" and not deep:
                    continue
                if b < 0 and k not in ("dense", "const", "constb", "kron", "kronb"):
                    continue
                go(f"power:{k}{batch}:{b}", power, k=k, s=(n, n), batch=batch, b=b)
            for iom in [[0], [1, 0], [0, 1, 2], [2, 2], [0, 0, 1], [0, 2], [-1, 0], [-3, -1], [-1, 2], [True, False, True], [2, 0, 1], (1, 2)]:
                if k[:4] != "kron" and (deep or not batch):
                    go(f"select:{k}{batch}:{iom}", select, k=k, n=3, batch=batch, iom=iom)
            for s, t in [((1, 1), (2, 2)), ((1, 1), (2, 3)), ((1, 2), (2, 2)), ((2, 1), (2, 2)), ((1, 1), (1, 2)), ((1, 1), (2, 1))]:
                if ok_kind(k, *s):
                    go(f"expand:{k}{s}{batch}:{t}", expand, k=k, s=s, batch=batch, target=batch + t)
    for batch in [(), (2,)]:
        for k, n in [("diag", 2), ("dense", 2), ("wb", 2), ("wbb", 2), ("wbd", 2), ("kron_dd", 2), ("kron_di", 4), ("kron_wd", 2), ("wb", 1), ("kron_kd", 2)]:
            go(f"inv:{k}{n}{batch}", inverse, k=k, n=n, batch=batch)
        for k, n in [("diag", 2), ("dense", 2), ("wb", 2), ("wb_right", 2), ("wb_default", 2), ("wb_bat", 2), ("kron", 2), ("kron_dd", 4), ("wb", 1)]:
            go(f"pd:{k}{n}{batch}", positive, k=k, n=n, batch=batch)
    # Larger operands.
    for ka, kb in itertools.product(SIMPLE + LOW, repeat=2):
        low = ka in LOW + ["const", "constb"] and kb in LOW + ["const", "constb"]
        if low or {ka, kb} & {"lrd", "lrx", "lrm", "wbd"}:
            continue
        for s in [(5, 5), (8, 8), (6, 9)]:
            if big_kind(ka, s) and big_kind(kb, s):
                pair("add", ka, kb, s, s, (), ())
                if not (ka[:4] == kb[:4] == "kron" and ka != kb):
                    pair("multiply", ka, kb, s, s, (), ())
                if s[0] == s[1] and not (ka[:4] == kb[:4] == "kron" and ka != kb):
                    pair("matmul", ka, kb, s, s, (), ())
                    pair("matmul", ka, kb, s, s, (), (), tr_a=True)
                    pair("matmul", ka, kb, s, s, (), (), tr_b=True)
        for ba, bb in BIG_PAIRS:
            if "kron" not in ka + kb:
                pair("add", ka, kb, (2, 2), (2, 2), ba, bb)
                pair("multiply", ka, kb, (2, 2), (2, 2), ba, bb)
                pair("matmul", ka, kb, (2, 2), (2, 2), ba, bb)
    for k in TYPES:
        for s in [(5, 5), (8, 8), (6, 9), (9, 5)]:
            if big_kind(k, s) and k != "kronx":
                go(f"unary:{k}{s}", unary, k=k, s=s, batch=())
        for batch in BIG_BATCHES:
            if k[:4] != "kron":
                go(f"unary:{k}:{batch}", unary, k=k, s=(2, 2), batch=batch)
        if k[:4] != "kron":
            for iom in [[0, 1, 2, 3, 4], [1, 2, 3], [0, 2, 4], [4, 2, 0], [1, 4], [3, 2], [0, 1, 2, 4, 3], [-5, -3, -2], [True, True, False, True, False], [2, 3, 2], [0, 0], [1, 0, 2, 3, 4]]:
                go(f"select5:{k}:{iom}", select, k=k, n=5, batch=(), iom=iom)
    return out
