"""C18: operations reject operands whose shapes do not fit."""
import itertools
import re

from .dims import *

LO[0] = 1

META = dict(
    level="other",
    explanation="Symbolic execution of the real operations on matrices of which every dimension is "
    "a z3 integer (elements are unknown): on every path, z3 proves that the operation raises exactly "
    "if the shapes do not fit, and that the result otherwise has the right shape. Where code depends "
    "on elements, sizes are concrete and the elements are z3 reals: all incompatible combinations of "
    "sizes and batches within the bounds must raise on every path.",
    bounds="every positive integer dimension with up to two batch dimensions (symbolic shapes); "
    "sizes one to three and batches up to (2, 3) (symbolic elements)",
    assumptions=["dimensions are positive integers that are known when the code runs"],
)


def vec(mk, ok):
    return mk.all(*ok) if isinstance(ok, (tuple, list)) else mk.all(ok)


def op_decide(mk, f, ok, dims, label):
    """The operation itself must raise, or else its result must have the right shape."""
    try:
        out = f()
    except Exception as e:
        if not isinstance(e, ERRORS):
            raise
        mk.true(mk.no(ok), f"{label} raised although the shapes fit: {type(e).__name__}")
        return
    mk.true(ok, f"{label} did not raise although the shapes do not fit")
    got = tuple(B.shape(out))
    dims_eq(mk, got, dims, f"shape({label})")


def pair(mk, ka, ba, kb, bb):
    a, b = build(mk, ka, "a", ba), build(mk, kb, "b", bb)
    mk.assume(mk.all(a.ok, b.ok))
    x = a.build()
    y = b.build()
    return a, b, x, y


def elementwise(mk, op, ka, ba, kb, bb):
    a, b, x, y = pair(mk, ka, ba, kb, bb)
    ok, dims = rule(mk, a.dims, b.dims)
    f = {"add": B.add, "subtract": B.subtract, "multiply": B.multiply, "divide": B.divide}[op]
    op_decide(mk, lambda: f(x, y), ok, dims, op)


def matmul(mk, ka, ba, kb, bb, tr_a, tr_b):
    a, b, x, y = pair(mk, ka, ba, kb, bb)
    da, db = a.dims[-2:], b.dims[-2:]
    da = da[::-1] if tr_a else da
    db = db[::-1] if tr_b else db
    ok, batch = rule(mk, a.dims[:-2], b.dims[:-2])
    ok = mk.all(ok, mk.same(da[1], db[0]))
    op_decide(mk, lambda: B.matmul(x, y, tr_a=tr_a, tr_b=tr_b), ok, batch + (da[0], db[1]), "matmul")


def kron(mk, ka, ba, kb, bb):
    a, b, x, y = pair(mk, ka, ba, kb, bb)
    ok, batch = rule(mk, a.dims[:-2], b.dims[:-2])
    dims = batch + tuple(p * q for p, q in zip(a.dims[-2:], b.dims[-2:]))
    op_decide(mk, lambda: B.kron(x, y), mk.all(ok), dims, "kron")


def broadcast(mk, k, b, rank, batch_only):
    a = build(mk, k, "a", b)
    mk.assume(mk.all(a.ok))
    x = a.build()
    t = ints(mk, "t", rank)
    src = a.dims[:-2] if batch_only else a.dims
    if len(src) > len(t):
        ok = mk.all(False)
    else:
        ok, dims = rule(mk, src, t)
        ok = mk.all(ok, *[mk.same(p, q) for p, q in zip(dims, t)])
    if batch_only:
        op_decide(mk, lambda: B.broadcast_batch_to(x, *t), ok, t + a.dims[-2:], "broadcast_batch_to")
    else:
        op_decide(mk, lambda: B.broadcast_to(x, *t), ok, t, "broadcast_to")


def unary(mk, k, b):
    a = build(mk, k, "a", b)
    mk.assume(mk.all(a.ok))
    x = a.build()
    tr = a.dims[:-2] + a.dims[-1:] + a.dims[-2:-1]
    op_decide(mk, lambda: B.transpose(x), mk.all(True), tr, "transpose")
    op_decide(mk, lambda: B.negative(x), mk.all(True), a.dims, "negative")
    op_decide(mk, lambda: B.dense(x), mk.all(True), a.dims, "dense")
    op_decide(mk, lambda: B.sum(x, axis=-1), mk.all(True), a.dims[:-1], "sum(-1)")
    op_decide(mk, lambda: B.sum(x, axis=-2), mk.all(True), a.dims[:-2] + a.dims[-1:], "sum(-2)")


# Concrete shapes and symbolic elements:


def rejects(mk, op, ka, sa, ba, kb, sb, bb):
    a, b = make(mk, ka, "a", *sa, ba), make(mk, kb, "b", *sb, bb)
    x, y = a.mat, b.mat
    with mk.must_raise(f"{op}({ka}, {kb})"):
        if op in ("add", "subtract", "multiply"):
            getattr(B, op)(x, y)
        elif op.startswith("matmul"):
            B.matmul(x, y, tr_a="1" in op, tr_b="2" in op)
        elif op == "kron":
            B.kron(x, y)
        elif op == "concat":
            B.shape(B.concat(x, y, axis=-2))  # Tiled blocks are checked when used.
        elif op == "solve":
            B.solve(x, y)
        elif op == "iqf":
            B.iqf(x, y)
        elif op == "ratio":
            B.ratio(x, y)
        elif op == "block_diag":
            B.block_diag(x, y)
        elif op == "matmul3":
            B.matmul(x, y, y)


def square_only(mk, k, s, batch, op):
    """Operations that are defined only for square matrices."""
    a = make(mk, k, "a", *s, batch)
    with mk.must_raise(f"{op}({k})"):
        getattr(B, op)(a.mat)


def needs_rank(op, ka, kb):
    """Aligning columns requires a concrete number of columns."""
    low = lambda k: k[:2] in ("lr", "wb") or k[:5] == "const"
    return low(ka) and low(kb)


def skip(op, ka, kb):
    """Not encoded: computed sizes in a reshape; values that select the method."""
    if op == "matmul" and "kronk" in (ka, kb):
        return not {ka, kb} & {"zero"} and not {ka, kb} & {"diag"}
    return False


DEFINED = {"solve", "iqf", "ratio", "inv", "pd_inv", "cholesky", "logdet", "root", "schur", "pd_schur"}  # Where defined.
KINDS = ["num", "zero", "dense", "diag", "const", "constb:0", "lt", "ut", "lrs", "lrm", "lrd", "wb", "kronk"]


def CASES(tier):
    out = []
    deep = tier != "quick"
    def C(id, fn, cost=1, **kw):
        if "kb" in kw and fn is not rejects:
            op = fn.__name__
            if skip(op, kw["ka"], kw["kb"]):
                return
            if not deep:  # In one part only is there a batch.
                for x in "ab":
                    if kw["k" + x] in ("lrs", "lrm", "lrd"):
                        kw["k" + x] += f":{kw['b' + x]}:0:{kw['b' + x] if kw['k' + x] == 'lrd' else 0}"
            if needs_rank(op, kw["ka"], kw["kb"]):
                kw["ka"], kw["kb"] = [re.sub("^(lrs|lrm|lrd|wb)", r"\g<1>1", k) for k in (kw["ka"], kw["kb"])]
        div = dict(div="assume") if kw.get("op") in DEFINED else {}
        out.append(Case(id.replace(" ", ""), fn, kw, **div, max_paths=20000, budget_s=300 if deep else 60, query_ms=15000, cost=cost))

    for k in KINDS:
        for b in range(3):
            if k != "num":
                C(f"unary:{k}:{b}", unary, k=k, b=b) if b < 2 or deep else None
            for r in range(4):
                if k != "num" and not (not deep and b == 2 and k in ("lrm", "lrd")):
                    C(f"broadcast_batch_to:{k}:{b}:{r}", broadcast, k=k, b=b, rank=r, batch_only=True)
                    if r >= 2 or deep:
                        C(f"broadcast_to:{k}:{b}:{r}", broadcast, k=k, b=b, rank=r, batch_only=False)
    for ka, kb in itertools.product(KINDS, repeat=2):
        if ka == kb == "num":
            continue
        heavy = needs_rank("", ka, kb)
        for ba, bb in [(0, 0), (1, 0), (0, 1), (1, 1)] + [(2, 1), (1, 2), (2, 2)] * deep:
            if not deep and (ba, bb) != (0, 0) and (heavy or (ba, bb) != (1, 1)):
                continue
            if heavy and ba + bb > 2:
                continue
            if not deep and ba and {"lrm", "lrd"} & {ka, kb}:
                continue
            for op in ["add", "multiply", "subtract"]:
                if op == "subtract" and not deep and (heavy or (ba, bb) != (0, 0)):
                    continue
                C(f"{op}:{ka}{ba}/{kb}{bb}", elementwise, cost=10 * heavy + ba + bb, op=op, ka=ka, ba=ba, kb=kb, bb=bb)
            C(f"kron:{ka}{ba}/{kb}{bb}", kron, ka=ka, ba=ba, kb=kb, bb=bb)
            for tr_a, tr_b in itertools.product([False, True], repeat=2):
                if not deep and (ba and tr_a != tr_b or ka == kb == "wb" or heavy and tr_a):
                    continue
                C(f"matmul:{ka}{ba}{'T' * tr_a}/{kb}{bb}{'T' * tr_b}", matmul, cost=5 * heavy + ba + bb, ka=ka, ba=ba, kb=kb, bb=bb, tr_a=tr_a, tr_b=tr_b)
    ALL = ["num", "zero", "dense", "diag", "const", "constb", "lt", "ut", "lr1", "lrs", "lrx", "lrd", "wb", "wbb", "wbd", "kron", "kronb", "krons"]
    R = lambda op, ka, sa, ba, kb, sb, bb: (
        C(f"{op}!{ka}{sa}{ba}/{kb}{sb}{bb}", rejects, op=op, ka=ka, sa=sa, ba=ba, kb=kb, sb=sb, bb=bb)
        if ok_kind(ka, *sa) and ok_kind(kb, *sb) and not ka == kb == "num"
        else None
    )
    # Kinds that the symbolic shapes above do not include, against all:
    SOME = ["lrx", "wbb", "wbd", "kron", "kronb", "krons", "tiled"]
    REST = ALL + ["tiled"] if deep else ["num", "zero", "dense", "diag", "const", "lt", "lrs", "wb", "kron", "tiled"]
    for ka, kb in dict.fromkeys([*itertools.product(SOME, REST), *itertools.product(REST, SOME)]):
        heavy = {ka, kb} <= {"lrx", "lr1", "lrs", "lrd", "wb", "wbb", "wbd", "const", "constb"}
        for op in ["add", "subtract", "multiply"]:
            for sa, sb, ba, bb in [
                ((2, 2), (3, 3), (), ()), ((2, 3), (3, 2), (), ()), ((2, 3), (2, 2), (), ()),
                ((2, 2), (2, 2), (2,), (3,)), ((2, 2), (1, 1), (2,), (3,)), ((2, 3), (2, 3), (2,), (3,)), ((4, 4), (4, 4), (3, 2), (2, 1)),
            ]:
                if (op == "subtract" or heavy) and not deep and ba or heavy and len(ba) > 1:
                    continue
                R(op, ka, sa, ba, kb, sb, bb)
        for tr in ["", "1", "2", "12"]:
            for sa, sb, ba, bb in [
                ((2, 2), (3, 3), (), ()), ((2, 3), (2, 3), (), ()), ((1, 1), (2, 2), (), ()), ((2, 2), (1, 1), (), ()), ((2, 1), (2, 2), (), ()),
                ((2, 2), (2, 2), (2,), (3,)), ((3, 3), (3, 3), (3, 2), (2, 1)),
            ]:
                p, q = sa[::-1] if "1" in tr else sa, sb[::-1] if "2" in tr else sb
                if p[1] == q[0] and not ba:
                    continue
                if not deep and (tr in ("1", "12") and ba or tr == "12"):
                    continue
                R("matmul" + tr, ka, sa, ba, kb, sb, bb)
        R("kron", ka, (2, 2), (2,), kb, (2, 2), (3,))
    for ka, kb in itertools.product(ALL + ["tiled"], repeat=2):
        if "num" not in (ka, kb):
            R("concat", ka, (2, 2), (), kb, (3, 3), ())
            R("concat", ka, (2, 2), (2,), kb, (2, 2), (3,))
    for ka, kb in itertools.product(["dense", "diag", "lt", "ut", "wb", "wbb", "kron"], ALL):
        for sb, ba, bb in [((3, 1), (), ()), ((1, 2), (), ()), ((2, 2), (2,), (3,))]:
            R("solve", ka, (2, 2), ba, kb, sb, bb)
            if ka not in ("lt", "ut"):
                R("iqf", ka, (2, 2), ba, kb, sb, bb)
    for ka, kb in itertools.product(["dense", "diag", "wb", "kron"], repeat=2):
        R("ratio", ka, (2, 2), (), kb, (3, 3), ())
        R("ratio", ka, (2, 2), (2,), kb, (2, 2), (3,))
    for k in ALL + ["tiled"]:
        if k == "num" or k.startswith("kron"):
            continue
        for op in ["inv", "pd_inv", "cholesky", "logdet", "root", "schur", "pd_schur"]:
            for s in [(2, 3), (3, 2), (2, 1), (1, 2)]:
                if ok_kind(k, *s):
                    C(f"square:{op}:{k}{s}", square_only, op=op, k=k, s=s, batch=())
    return out
