"""C14: quadratic forms and ratios."""
from .c11 import batch_of, pd, spd
from .common import *

META = dict(
    level="other",
    explanation="Symbolic execution of the real `B.iqf`, `B.iqf_diag`, and `B.ratio` methods on "
    "matrices whose entries are z3 reals; z3 proves that the quadratic form equals `b' x` for the "
    "solution `x` of `a x = c` (by the adjugate of the dense matrix), that the diagonal is its "
    "diagonal, and that the ratio is the trace of the product with the inverse.",
    bounds="dense matrices up to 3 x 3, Kronecker products up to 4 x 4, Woodbury matrices up to "
    "2 x 2, other arguments of every representation with up to two columns, batch shapes (), "
    "(2,), (2, 1), (3,)"
    "; in separate cases also structured matrices of larger sizes and batches of up to four "
    "dimensions, and the same object given as several operands or parts",
    assumptions=[
        "real arithmetic instead of floating point",
        "the inverted matrix is positive definite; LAPACK is exact",
    ],
)


def inv_ref(a):
    a = np.asarray(a)
    if a.shape[-1] > 4:  # Diagonal.
        out = np.array(a)
        for i in range(a.shape[-1]):
            out[..., i, i] = 1 / a[..., i, i]
        return out
    return np.linalg.inv(a)


def forms(mk, ka, kb, kc, n, m, k, ba, bb, bc_):
    a = pd(mk, ka, n, ba)
    b = make(mk, kb, "b", n, m, bb)
    if kc in ("same", "omitted"):
        c = b
        args = (a.mat, b.mat, b.mat) if kc == "same" else (a.mat, b.mat)
    else:
        c = make(mk, kc, "c", n, k, bc_)
        args = (a.mat, b.mat, c.mat)
    ref = mm(T(b.ref), inv_ref(a.ref), c.ref)
    mk.eq(B.iqf(*args), ref, "iqf")
    if ref.shape[-1] == ref.shape[-2]:
        d = np.stack([ref[..., i, i] for i in range(ref.shape[-1])], axis=-1)
        mk.eq(B.iqf_diag(*args), d, "iqf_diag")


def ratio(mk, ka, kb, n, ba, bb):
    a = pd2(mk, ka, "a", n, ba)
    b = pd(mk, kb, n, bb)
    p = mm(a.ref, inv_ref(b.ref))
    mk.eq(B.ratio(a.mat, b.mat), sum(p[..., i, i] for i in range(n)), "ratio")


def ratio_self(mk, kind, n, batch):
    a = pd(mk, kind, n, batch)
    mk.eq(B.ratio(a.mat, a.mat), full(batch + (1, 1), n, mk)[..., 0, 0], "ratio(a, a)")


def pd2(mk, kind, name, n, batch):
    """A positive (semi)definite numerator."""
    R = lambda s, *shape, **k: mk.real(name + s, *shape, **k)
    if kind in ("dense", "num"):
        a, _ = spd(mk, name, n, batch)
        return Op(Dense(a) if kind == "dense" else a, a, kind)
    if kind == "diag":
        d = R("d", *batch, n, pos=True)
        return Op(Diagonal(d), diag_embed(d, mk), kind)
    if kind == "zero":
        return Op(Zero(DT[mk.symbolic], *batch, n, n), mk.zeros(*batch, n, n), kind)
    if kind == "const":
        c = R("c", *batch, nonneg=True)
        return Op(Constant(c if batch else c[()], n, n), full(batch + (n, n), c, mk), kind)
    if kind == "lr":
        l = R("l", *batch, n, 1)
        return Op(LowRank(l), mm(l, T(l)), kind)
    if kind == "lrd":
        l, d = R("l", n, 1), R("d", *batch, 1, pos=True)
        return Op(LowRank(l, middle=Diagonal(d)), bc(mm(l, diag_embed(d, mk), T(l)), batch + (n, n)), kind)
    if kind == "wb":
        d, l = R("d", *batch, n, pos=True), R("l", *batch, n, 1)
        return Op(Woodbury(Diagonal(d), LowRank(l)), diag_embed(d, mk) + mm(l, T(l)), kind)
    if kind == "wbb":
        d, l = R("d", n, pos=True), R("l", *batch, n, 1)
        return Op(Woodbury(Diagonal(d), LowRank(l)), diag_embed(d, mk) + mm(l, T(l)), kind)
    if kind == "kron":
        a, _ = spd(mk, name + "k", n // 2, batch)
        d = R("d", 2, pos=True)
        return Op(Kronecker(Dense(a), Diagonal(d)), kron_ref(a, diag_embed(d, mk)), kind)
    raise ValueError(kind)


def iqf_self(mk, kind, n, batch):
    """The inverted matrix itself on either side."""
    a = pd(mk, kind, n, batch)
    m = a.ref.shape[-1]
    b = make(mk, "dense", "b", m, 2)
    x, y, p, q = a.mat, b.mat, a.ref, bc(b.ref, batch + b.ref.shape[-2:])
    d = lambda z: np.stack([z[..., i, i] for i in range(z.shape[-1])], axis=-1)
    mk.eq(B.iqf(x, x), p, "iqf(a, a)")
    mk.eq(B.iqf(x, x, x), p, "iqf(a, a, a)")
    mk.eq(B.iqf_diag(x, x), d(p), "iqf_diag(a, a)")
    mk.eq(B.iqf_diag(x, x, x), d(p), "iqf_diag(a, a, a)")
    mk.eq(B.iqf(x, x, y), q, "iqf(a, a, b)")
    mk.eq(B.iqf(x, y, x), T(q), "iqf(a, b, a)")


RHS = ["zero", "dense", "num", "diag", "const", "constb", "lt", "ut", "lr1", "lrd", "wb", "krons"]
PD = ["num", "dense", "diag", "wb", "wb_right", "wb_default", "wb_bat", "kron"]
B3 = [((), (), ()), ((2,), (), ()), ((), (2,), (2,)), ((2,), (2,), ()), ((2, 1), (3,), ())]


def CASES(tier):
    out = []
    deep = tier != "quick"
    C = lambda id, fn, **kw: out.append(Case(id.replace(" ", ""), fn, kw, div="assume", cost=kw.get("n", 1)))
    LOW = {"lr1", "lrd", "wb"}
    for ka in PD:
        wb = ka.startswith("wb")
        for kb in RHS:
            for kc in ["same", "omitted"] + (RHS if deep else ["dense", "diag", "const", "lr1", "lt", "zero"]):
                for n, m, k in [(1, 1, 1), (2, 2, 2), (2, 1, 2), (2, 3, 1)] + [(3, 1, 1)]:
                    if kc in ("same", "omitted") and k != m:
                        continue
                    if not ok_kind(kb, n, m) or kc in RHS and not ok_kind(kc, n, k):
                        continue
                    if ka == "kron" and n != 2:
                        continue
                    if ka == kb == "num" and kc in ("same", "omitted", "num"):
                        continue
                    if n == 3 and (ka not in ("dense", "diag") or kb not in ("dense", "const", "lt", "zero")):
                        continue
                    L = LOW | {"const", "constb"} if wb else LOW
                    low = (kb in L) + (kc in L or kc in ("same", "omitted") and kb in L)
                    for i, (ba, bb, bc_) in enumerate(B3):
                        if kc in ("same", "omitted") and bb != bc_ and i != 4:
                            continue
                        if n > 1 and not deep and i not in ((0, 2) if m == k == n else (1, 3)):
                            continue
                        if i == 4 and (n > 1 or ka not in ("dense", "diag", "wb_bat") or low or wb and (kb not in ("dense", "num", "zero") or kc not in ("dense", "same"))):
                            continue
                        if wb and (low and n > 1 or low == 2 and (ka != "wb_right" or kb not in ("lr1", "const") or kc == "const" or i > 0) or low and i > 0 and kb != "lr1"):
                            continue
                        if low and n > 1 and m != k or low and i > 1:
                            continue
                        if wb and not deep and (ka != "wb" and kc == "omitted" or n > 1 and i > 1 or n > 1 and kb in ("constb", "krons") or n > 1 and ka == "wb_default" or low and ka not in ("wb_right", "wb_bat")):
                            continue
                        if wb and n > 1 and not deep and "diag" in (kb, kc) and not (kc == "same"):
                            continue
                        zero = kb == "zero" and kc in ("same", "omitted", "zero") and not wb and np.broadcast_shapes(bb, bc_) != np.broadcast_shapes(ba, bb, bc_)
                        name = "iqf_batched_zero" if zero else "iqf"
                        C(f"{name}:{ka}{ba}/{kb}{bb}/{kc}{bc_}{n},{m},{k}", forms, ka=ka, kb=kb, kc=kc, n=n, m=m, k=k, ba=ba, bb=bb, bc_=bc_)
    for ka in ["num", "dense", "diag", "zero", "const", "lr", "lrd", "wb", "wbb", "kron"]:
        for kb in PD:
            if ka == "num" and kb == "num":
                continue
            for n in [1, 2, 3]:
                if "kron" in (ka, kb) and n != 2 or n == 3 and (ka in ("dense", "num", "wb", "wbb", "lrd") or kb != "diag"):
                    continue
                for ba, bb in [((), ()), ((2,), ()), ((), (2,)), ((2,), (2,)), ((2, 1), (3,))]:
                    if n > 1 and len(ba) > 1:
                        continue
                    name = "ratio_batched_zero" if ka == "zero" and not kb.startswith("wb") and np.broadcast_shapes(ba, bb) != ba else "ratio"
                    C(f"{name}:{ka}{ba}/{kb}{bb}{n}", ratio, ka=ka, kb=kb, n=n, ba=ba, bb=bb)
    for kind in PD:
        for n in [1, 2]:
            for batch in [(), (2,)]:
                if kind != "num" and not (kind == "kron" and n == 1):
                    C(f"ratio_self:{kind}{n}{batch}", ratio_self, kind=kind, n=n, batch=batch)
    for n in [4, 5, 8]:
        for kb, m in [("dense", 1), ("dense", 2), ("diag", n), ("zero", 2), ("const", 2), ("lr1", 2), ("lt", 3)]:
            for kc in ["same", "omitted", "dense"]:
                C(f"iqf:diag()/{kb}()/{kc}(){n},{m},{m}", forms, ka="diag", kb=kb, kc=kc, n=n, m=m, k=m, ba=(), bb=(), bc_=())
        for ka in ["diag", "const", "lr"]:
            C(f"ratio:{ka}()/diag(){n}", ratio, ka=ka, kb="diag", n=n, ba=(), bb=())
    for ka in ["dense", "diag"]:
        for kb in ["dense", "diag", "const", "lt"]:
            for kc in ["same", "omitted", "dense", "diag"]:
                for b3 in [((2, 2, 2), (), ()), ((), (5,), (5,)), ((3, 1, 1), (2, 1), (2, 1)), ((4,), (), (4,))]:
                    if kc in ("same", "omitted") and b3[1] != b3[2]:
                        continue
                    C(f"iqf:{ka}/{kb}/{kc}{b3}", forms, ka=ka, kb=kb, kc=kc, n=2, m=2, k=2, ba=b3[0], bb=b3[1], bc_=b3[2])
    for kind in ["dense", "diag", "wb", "kron"]:
        for n in [1, 2]:
            for batch in [(), (2,)]:
                if not (kind == "kron" and n == 1):
                    C(f"iqf_self:{kind}{n}{batch}", iqf_self, kind=kind, n=n, batch=batch)
    return out
