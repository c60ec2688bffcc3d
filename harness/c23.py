"""C23: operators and methods agree with the functions on the dense forms."""
import operator

from .c20 import again
from .common import *

META = dict(
    level="other",
    explanation="Symbolic execution of the real operator methods of matrices (`+`, `-`, `*`, `/`, `@`, "
    "`**`, unary minus, augmented assignment) with a scalar, a zero-dimensional array, an array, or "
    "another matrix on either side, and of the other methods (`T`, `shape`, `squeeze`, `reshape`, "
    "`flatten`, `diagonal`, indexing). Entries and scalars are z3 reals; z3 proves that every entry of "
    "the result equals that of the same operator on the dense forms, and that the result is a matrix.",
    bounds="sizes one to four, ranks one and two, batches (), (2,), (2, 1), (3,), arrays that broadcast "
    "from 1 x 1, 1 x n, n x 1"
    "; in separate cases also sizes up to 12 (such as 5 x 5, 9 x 9, 6 x 9, 1 x 11), batches "
    "of up to four dimensions or of size five, and the same object given as both operands or "
    "as several parts of one",
    assumptions=[
        "real arithmetic instead of floating point",
        "columns of low-rank factors are equal or differ by more than the tolerance (C21)",
        "divisors are nonzero",
    ],
)

OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "@": operator.matmul}
AUGMENTED = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv, "@": operator.imatmul}


def reference(op, a, b):
    return mm(a, b) if op == "@" else OPS[op](a, b)


def scalar(mk, kind):
    """A scalar and its value."""
    if kind == "real":
        x = mk.scalar("s", nonzero=True)
        return x, x
    if kind == "zero_dim":
        x = mk.real("s", nonzero=True)
        return x, x[()]
    if kind.startswith("int"):
        return int(kind[3:]), mk.const(int(kind[3:]))[()]
    if kind.startswith("np"):
        return np.int64(kind[2:]), mk.const(int(kind[2:]))[()]
    if kind == "half":
        return 0.5, 1 / mk.const(2)[()]
    if kind == "true":
        return True, mk.const(1)[()]
    raise ValueError(kind)


def with_scalar(mk, op, k, s, batch, kind, left):
    a = make(mk, k, "a", *s, batch, nonzero=op == "/" and left)
    if op == "/" and left:
        for e in np.ravel(a.ref):
            mk.assume(mk.ne(e, 0))
    x, value = scalar(mk, kind)
    c = full(a.ref.shape, value, mk)
    out = OPS[op](x, a.mat) if left else OPS[op](a.mat, x)
    mk.true(isinstance(out, AbstractMatrix), f"the result is {type(out).__name__}")
    mk.eq(again(mk, out), reference(op, c, a.ref) if left else reference(op, a.ref, c), f"{kind} {op} {k}")


def with_other(mk, op, k, s, batch, kind, t, tbatch, left):
    """With an array or another matrix."""
    a = make(mk, k, "a", *s, batch, nonzero=op == "/" and left)
    b = make(mk, kind, "b", *t, tbatch, nonzero=op == "/" and not left)
    for o, divisor in [(a, left), (b, not left)]:
        if op == "/" and divisor:
            for e in np.ravel(o.ref):
                mk.assume(mk.ne(e, 0))
    before = np.array(b.mat) if kind == "num" else None
    out = OPS[op](b.mat, a.mat) if left else OPS[op](a.mat, b.mat)
    mk.true(isinstance(out, AbstractMatrix), f"the result is {type(out).__name__}")
    ref = reference(op, b.ref, a.ref) if left else reference(op, a.ref, b.ref)
    mk.eq(again(mk, out), ref, f"{kind} {op} {k}")
    if kind == "num":
        mk.eq(b.mat, before, "the array")
    # Augmented assignment does not change the operand.
    x = a.mat
    if not left:
        x = AUGMENTED[op](x, b.mat)
        mk.eq(again(mk, x), ref, f"{k} {op}= {kind}")
        mk.eq(again(mk, a.mat), a.ref, "the operand")


def powers(mk, k, s, batch, p):
    a = make(mk, k, "a", *s, batch, nonzero=p < 0)
    if p < 0:
        for e in np.ravel(a.ref):
            mk.assume(mk.ne(e, 0))
    ref = mk.const(np.ones(a.ref.shape, dtype=int))
    for _ in range(abs(p)):
        ref = ref * a.ref
    if p < 0:
        ref = 1 / ref
    for q in (p, np.int64(p)) if p >= 0 else (p,):
        out = a.mat**q
        mk.true(isinstance(out, AbstractMatrix), f"the result is {type(out).__name__}")
        mk.eq(again(mk, out), ref, f"{k} ** {p}")


def methods(mk, k, s, batch):
    a = make(mk, k, "a", *s, batch)
    x, ref = a.mat, a.ref
    if k[:5] != "tiled":
        mk.eq(again(mk, -x), -ref, "-a")
        mk.eq(again(mk, -(-x)), ref, "-(-a)")
    mk.eq(again(mk, x.T), T(ref), "a.T")
    mk.eq(again(mk, x.T.T), ref, "a.T.T")
    mk.true(tuple(int(d) for d in x.shape) == ref.shape, f"a.shape is {x.shape}")
    mk.true(B.dtype(x) == x.dtype, "a.dtype")
    mk.eq(x.flatten(), ref.reshape(-1), "a.flatten()")
    size = int(np.prod(ref.shape))
    mk.eq(x.reshape(-1), ref.reshape(-1), "a.reshape(-1)")
    mk.eq(x.reshape(1, size), ref.reshape(1, size), "a.reshape(1, size)")
    mk.eq(x.reshape((size, 1)), ref.reshape(size, 1), "a.reshape((size, 1))")
    mk.eq(x.reshape([-1, s[1]]), ref.reshape(-1, s[1]), "a.reshape([-1, n])")
    mk.eq(x.squeeze(), ref.squeeze(), "a.squeeze()")
    if k[:5] != "tiled":
        mk.eq(x.diagonal(), np.diagonal(ref, axis1=-2, axis2=-1), "a.diagonal()")
    inds = [0, -1, slice(None), slice(0, 1), slice(None, None, -1), (Ellipsis, 0), (Ellipsis, slice(None), -1), None, (0, 0), [0, 0], (Ellipsis, [0, -1], 0)]
    for i in inds:
        mk.eq(x[i], ref[i], f"a[{i}]")


def indexing(mk, k, s, batch):
    """Indices into one, two, and three batch dimensions, and into rows and columns."""
    a = make(mk, k, "a", *s, batch)
    x, ref = a.mat, a.ref
    ref = ref + mk.zeros()[()]
    m = ref.shape[0]
    mask = np.arange(m) % 2 == 0
    last = [0, -1, ref.shape[-1] - 1, slice(None, None, 2), slice(-1, None), slice(None), slice(0, 0), [0, -1]]
    first = list(range(-m, m)) + [np.int64(m - 1), np.array(m - 1), slice(1, None), slice(m - 1, None, -1), [m - 1, 0], np.array([0, m - 1, 0]), mask, list(mask), True, slice(None)]
    inds = list(first)
    inds += [(i,) for i in first] + [(i, Ellipsis) for i in first]
    inds += [(Ellipsis, i) for i in last] + [(Ellipsis, i, 0) for i in last if i != ref.shape[-1] - 1] + [(Ellipsis, None, slice(None), i) for i in last[:4]]
    inds += [(i, 0) for i in first] + [(0, i) for i in [0, -1, slice(None), slice(0, 1), None]]
    inds += [(0, Ellipsis, i) for i in last] + [(slice(None),) * ref.ndim, (0,) * ref.ndim, (-1,) * ref.ndim, (None, 0), (), Ellipsis, None]
    inds += [np.arange(ref.size).reshape(ref.shape) % 3 == 0]
    for i in inds:
        mk.eq(x[i], ref[i], f"a[{i}]")


def mixed(mk, k, l, n, batch, form):
    """Expressions with several operators, scalars, and arrays."""
    a, b = make(mk, k, "a", n, n, batch), make(mk, l, "b", n, n)
    x, y = a.mat, b.mat
    c = mk.real("c", n, n)
    s = mk.scalar("s", nonzero=True)
    p, q = a.ref, b.ref
    if form == 0:
        out, ref = 2 * x @ c - y / 4 + c @ y, mm(2 * p, c) - q / 4 + mm(c, q)
    elif form == 1:
        out, ref = -(c - x) * 3 + s * y.T, -(c - p) * 3 + T(q) * s
    elif form == 2:
        out, ref = (c * x + y) @ c.T, mm(c * p + q, T(c))
    elif form == 3:
        out, ref = c @ (x @ y) @ c - c, mm(c, mm(p, q), c) - c
    elif form == 4:
        out, ref = (x - c) * (c - y), (p - c) * (c - q)
    mk.eq(again(mk, out), ref + mk.zeros()[()], f"expression {form}")


KINDS = ["zero", "dense", "diag", "const", "constb", "lt", "ut", "lr1", "lr2", "lrs", "lrd", "lrx", "lrm", "wb", "wbb", "wbd", "kron", "kron2", "kronb", "krons", "tiled", "tiledc", "lrn", "lrl", "wbn", "kronx"]
LOW = ["lr1", "lr2", "lrs", "lrd", "lrx", "lrm", "wb", "wbb", "wbd", "lrn", "lrl", "wbn"]


def CASES(tier):
    out = []
    deep = tier != "quick"

    def go(id, fn, cost=1, **kw):
        out.append(Case(id.replace(" ", ""), fn, kw, div="assume", cost=cost, budget_s=60, max_paths=2000))

    for k in KINDS:
        for s in [(1, 1), (2, 2), (3, 3), (4, 4), (2, 3), (3, 1)] if k != "tiledc" else [(2, 3)]:
            for batch in [(), (1,), (2,), (3, 2), (2, 1, 3)]:
                if (not ok_kind(k, *s) and k != "tiledc") or k == "tiledc" and batch or k == "tiled" and len(batch) > 1:
                    continue
                if not deep and (len(batch) > 2 and s != (2, 2) or k in LOW and s == (4, 4) or k[:4] != "kron" and s == (4, 4)):
                    continue
                go(f"indexing:{k}{s}{batch}", indexing, k=k, s=s, batch=batch)
        n = 4 if k[:4] == "kron" else 2
        shapes = [(n, n), (2, 3), (3, 1)] if k != "tiledc" else [(2, 3)]
        for s in shapes:
            if not (ok_kind(k, *s) or k == "tiledc"):
                continue
            for batch in [(), (2,)] + ([(2, 1)] if deep else []):
                if k == "tiledc" and batch:
                    continue
                go(f"methods:{k}{s}{batch}", methods, k=k, s=s, batch=batch)
                for p in [0, 1, 2, 3, -1]:
                    if p < 0 and k not in ("dense", "const", "constb", "kron", "kronb"):
                        continue
                    if p < 0 and k[:4] == "kron" and s == (n, n) and not deep:
                        continue
                    if k[:5] != "tiled":
                        go(f"power:{k}{s}{batch}:{p}", powers, k=k, s=s, batch=batch, p=p)
                # Scalars:
                for op in "+-*/":
                    for kind in ["real", "zero_dim", "int0", "int1", "int2", "int-1", "np3", "np0", "half", "true"] if deep or s == (n, n) else ["real", "int0", "int2"]:
                        for left in [False, True]:
                            if op == "/" and (left and k not in ("dense", "const", "constb", "kron", "lr1") or not left and kind in ("int0", "np0")):
                                continue
                            if (k in LOW or k[:5] == "const") and op in "+-" and (s != (n, n) or batch) and not deep and kind != "int2":
                                continue
                            if (k in LOW and k[-1] in "2dxmln" or k == "wb") and op in "+-" and (kind != "int1" or k in ("lr2", "wbd", "lrx") or s != (n, n) or batch):
                                continue
                            if kind in ("np3", "half", "true", "int-1", "np0") and s != (n, n) and not deep:
                                continue
                            if k[:5] == "tiled" and (op in "+-" or left and op == "/" or kind in ("zero_dim", "int0", "np0")):
                                continue
                            go(f"scalar:{op}{k}{s}{batch}:{kind}:{left}", with_scalar, op=op, k=k, s=s, batch=batch, kind=kind, left=left)
                # Arrays:
                if k[:5] == "tiled" and batch:
                    continue
                for op in "+-*/":
                    for t, tb in dict.fromkeys([(s, ()), (s, (2,)), ((1, 1), ()), ((1, s[1]), ()), ((s[0], 1), (3, 1)), (s, (3, 1))]):
                        for left in [False, True]:
                            if op == "/" and left and k not in ("dense", "const", "constb", "kron", "lr1"):
                                continue
                            if k[:5] == "tiled" and (t != s or tb or op == "-" and left):
                                continue
                            go(f"array:{op}{k}{s}{batch}:{t}{tb}:{left}", with_other, op=op, k=k, s=s, batch=batch, kind="num", t=t, tbatch=tb, left=left)
                for r in [1, 2] if k[:5] != "tiled" else []:
                    for tb in [(), (2,), (3, 1)]:
                        go(f"array:@{k}{s}{batch}:{r}{tb}:right", with_other, op="@", k=k, s=s, batch=batch, kind="num", t=(s[1], r), tbatch=tb, left=False)
                        go(f"array:@{k}{s}{batch}:{r}{tb}:left", with_other, op="@", k=k, s=s, batch=batch, kind="num", t=(r, s[0]), tbatch=tb, left=True)
        # Expressions:
        if k[:5] != "tiled":
            for l in ["zero", "dense", "diag", "const", "lt", "lrs", "wbb", "krons"]:
                m = 4 if "kron" in k + l else 2
                if m == 4 and k in LOW + ["const", "constb", "dense"] and not deep:
                    continue
                for batch in [(), (2,)] if deep else [(2,)]:
                    for form in range(5):
                        if form == 0 and k in LOW + ["const", "constb"] and l in LOW + ["const", "constb"]:
                            continue
                        if form == 3 and (k in LOW and l in LOW + ["const"] or m == 4 and not deep):
                            continue
                        go(f"mixed:{k}{l}{m}{batch}:{form}", mixed, k=k, l=l, n=m, batch=batch, form=form)
        # Matrices:
        for l in KINDS:
            m = 4 if "kron" in k + l else 2
            if not (ok_kind(k, m, m) and ok_kind(l, m, m)) or k[:5] == "tiled" or l[:5] == "tiled":
                continue
            low = (k in LOW or k[:5] == "const") and (l in LOW or l[:5] == "const")
            for op in "+-*/@":
                if low and (op in "+-" or "wb" in k + l) and not (deep and k in ("const", "lrs", "wbb") and l in ("const", "lrs", "wbb")):
                    continue
                if op == "/" and l not in ("dense", "const", "constb"):
                    continue
                if op == "*" and k[:4] == l[:4] == "kron" and k != l:
                    continue
                if op == "@" and k[:4] == l[:4] == "kron" and k != l:
                    continue
                for batch, tb in [((2,), ()), ((), (2,))]:
                    go(f"matrix:{op}{k}{l}{m}{batch}{tb}", with_other, op=op, k=k, s=(m, m), batch=batch, kind=l, t=(m, m), tbatch=tb, left=False)
    for k in KINDS:
        for s in [(5, 5), (8, 8), (6, 9), (9, 5)] if k != "tiledc" else []:
            if not big_kind(k, s) or k == "kronx":
                continue
            go(f"methods:{k}{s}", methods, k=k, s=s, batch=())
            if k[:5] == "tiled":
                continue
            go(f"power:{k}{s}:2", powers, k=k, s=s, batch=(), p=2)
            for op in "+-*/":
                if not (k in LOW + ["const", "constb"] and op in "+-"):
                    for kind in ["real", "int2", "np3", "half"]:
                        for left in [False, True] if op != "/" else [False]:
                            go(f"scalar:{op}{k}{s}:{kind}:{left}", with_scalar, op=op, k=k, s=s, batch=(), kind=kind, left=left)
                if s != (8, 8):
                    for t in [s, (1, s[1]), (s[0], 1), (1, 1)]:
                        for left in [False, True] if op != "/" else [False]:
                            go(f"array:{op}{k}{s}:{t}:{left}", with_other, op=op, k=k, s=s, batch=(), kind="num", t=t, tbatch=(), left=left)
            go(f"array:@{k}{s}:right", with_other, op="@", k=k, s=s, batch=(), kind="num", t=(s[1], 3), tbatch=(), left=False)
            go(f"array:@{k}{s}:left", with_other, op="@", k=k, s=s, batch=(), kind="num", t=(5, s[0]), tbatch=(), left=True)
        for batch in BIG_BATCHES:
            if k[:5] != "tiled" and k != "kronx":
                go(f"methods:{k}:{batch}", methods, k=k, s=(2, 2), batch=batch)
                for op in "+-*/":
                    if not (k in LOW + ["const", "constb"] and op in "+-"):
                        go(f"scalar:{op}{k}:{batch}", with_scalar, op=op, k=k, s=(2, 2), batch=batch, kind="real", left=False)
                        go(f"array:{op}{k}:{batch}", with_other, op=op, k=k, s=(2, 2), batch=(), kind="num", t=(2, 2), tbatch=batch, left=False)
    return out
