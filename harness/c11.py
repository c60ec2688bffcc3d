"""C11: inverses and linear solves."""
from .common import *

META = dict(
    level="other",
    explanation="Symbolic execution of the real `B.inv`, `B.pd_inv`, `B.solve`, "
    "`B.cholesky_solve`, `B.triangular_solve`, `B.schur`, and `B.pd_schur` methods on matrices "
    "whose entries are z3 reals; z3 proves that the result satisfies the defining equation "
    "(inverse times matrix is the identity; matrix times solution is the right-hand side).",
    bounds="matrices up to 4 x 4 (Kronecker), 3 x 3 (dense), Woodbury matrices up to 3 x 3 with "
    "rank up to two, batch shapes (), (2,), (2, 1), (3,) for either operand"
    "; in separate cases also structured matrices of larger sizes and batches of up to four "
    "dimensions, and the same object given as several operands or parts",
    assumptions=[
        "real arithmetic instead of floating point",
        "the matrix, and the parts through which it is inverted, are invertible (inverse, solve) "
        "or positive definite (positive-definite inverse)",
        "LAPACK's inverse, solve, and Cholesky decomposition are exact",
    ],
)


def eye(mk, n, batch=()):
    return mk.const(np.broadcast_to(np.eye(n, dtype=int), tuple(batch) + (n, n)))


def batch_of(*xs):
    return np.broadcast_shapes(*(x.shape[:-2] for x in xs))


def spd(mk, name, n, batch=()):
    """Positive-definite matrices with their Cholesky factors."""
    l = mask_tri(mk.real(name, *batch, n, n), True, mk)
    for idx in np.ndindex(*batch):
        for i in range(n):
            mk.assume(mk.gt(l[idx + (i, i)], 0))
    a = mm(l, T(l))
    mk.known_root(a, l)
    return a, l


def invertible(mk, kind, name, n, batch=()):
    """Operands that have an inverse; also nested ones."""
    R = lambda s, *shape, **k: mk.real(f"{name}{s}", *shape, **k)
    if kind == "diag":
        d = R("d", *batch, n, nonzero=True)
        return Op(Diagonal(d), diag_embed(d, mk), kind)
    if kind in ("lt", "ut"):
        x = mask_tri(R("x", *batch, n, n), kind == "lt", mk)
        for idx in np.ndindex(*batch):
            for i in range(n):
                mk.assume(mk.ne(x[idx + (i, i)], 0))
        return Op((LowerTriangular if kind == "lt" else UpperTriangular)(x), x, kind)
    if kind in ("kron_dd", "kron_di", "kron_id", "kron_wd", "kron_kd", "kron_bb"):
        a, b = kind[-2:]
        names = {"d": "dense", "i": "diag", "w": "wb", "k": "kron_id", "b": "dense"}
        na, nb = (n // 2, 2) if n > 1 else (1, 1)
        if a == "k":
            na, nb = n, 1
        x = invertible(mk, names[a], name + "x", na, batch if kind != "kron_bb" else batch[1:])
        y = invertible(mk, names[b], name + "y", nb, batch if kind != "kron_di" else ())
        ref = kron_ref(x.ref, y.ref)
        return Op(Kronecker(x.mat, y.mat), bc(ref, tuple(batch) + ref.shape[-2:]), kind)
    o = make(mk, kind, name, n, n, batch)
    if kind == "dense" or kind == "num":
        mk.det_nonzero(o.ref)
    return o


def inv(mk, kind, n, batch):
    a = invertible(mk, kind, "a", n, batch)
    res = B.inv(a.mat)
    mk.eq(mm(B.dense(res), a.ref), eye(mk, n, batch), "inv(a) @ a")
    mk.eq(B.transpose(res), T(B.dense(res)), "transpose(inv(a))")


def inv_twice(mk, kind, n, batch):
    a = invertible(mk, kind, "a", n, batch)
    mk.eq(B.inv(B.inv(a.mat)), a.ref, "inv(inv(a))")


def schur(mk, kind, n, batch):
    a = invertible(mk, kind, "a", n, batch)
    # Determinant lemma: checks that the Schur complement is the right one.
    s = B.dense(B.schur(a.mat))
    w = a.mat
    lhs = mm(B.dense(w.lr.left), np.linalg.inv(np.asarray(s)), T(B.dense(w.lr.right)))
    d = B.dense(w.diag)
    mk.eq(mm(a.ref, np.linalg.inv(d), d - lhs), bc(d, a.ref.shape), "a inv(diag) (diag - left inv(schur) right')")


def pd(mk, kind, n, batch):
    R = lambda s, *shape, **k: mk.real(s, *shape, **k)
    if kind == "num":
        a, _ = spd(mk, "l", n, batch)
        return Op(a, a, kind)
    if kind == "dense":
        a, _ = spd(mk, "l", n, batch)
        return Op(Dense(a), a, kind)
    if kind == "diag":
        d = R("d", *batch, n, pos=True)
        return Op(Diagonal(d), diag_embed(d, mk), kind)
    if kind in ("kron", "kron_dd", "kron_kb"):
        na, nb = (n // 2, 2) if n > 1 else (1, 1)
        a, _ = spd(mk, "k", na, batch)
        if kind == "kron":
            d = R("d", *batch, nb, pos=True)
            return Op(Kronecker(Dense(a), Diagonal(d)), kron_ref(a, diag_embed(d, mk)), kind)
        b, _ = spd(mk, "m", nb, batch if kind == "kron_dd" else ())
        if kind == "kron_kb":
            ref = kron_ref(b, a)
            return Op(Kronecker(Dense(b), Dense(a)), ref, kind)
        return Op(Kronecker(Dense(a), Dense(b)), kron_ref(a, b), kind)
    if kind in ("wb", "wb_right", "wb_default", "wb_mid2", "wb_bat"):
        r = 2 if kind == "wb_mid2" else 1
        bd, bl = (batch, batch) if kind != "wb_bat" else ((), batch)
        d = R("d", *bd, n, pos=True)
        l = R("l", *bl, n, r)
        if kind == "wb_default":
            lr, low = LowRank(l), mm(l, T(l))
        elif kind == "wb_mid2":
            m = R("m", r, pos=True)
            lr, low = LowRank(l, middle=Diagonal(m)), mm(l, diag_embed(m, mk), T(l))
        else:
            m = R("m", *batch, r, pos=True)
            lr = LowRank(l, l if kind == "wb_right" else None, diag_embed(m, mk))
            low = mm(l, diag_embed(m, mk), T(l))
        ref = diag_embed(d, mk) + low
        return Op(Woodbury(Diagonal(d), lr), ref, kind)
    raise ValueError(kind)


def pd_inv(mk, kind, n, batch):
    a = pd(mk, kind, n, batch)
    mk.eq(mm(B.dense(B.pd_inv(a.mat)), a.ref), eye(mk, a.ref.shape[-1], batch), "pd_inv(a) @ a")


def pd_then(mk, n, batch):
    """The cached Schur complement serves both kinds of inverse."""
    a = pd(mk, "wb_default", n, batch)
    B.schur(a.mat)
    mk.eq(mm(B.dense(B.pd_inv(a.mat)), a.ref), eye(mk, n, batch), "pd_inv(a) @ a after schur")
    a.mat.schur = None
    B.pd_schur(a.mat)
    mk.eq(mm(B.dense(B.inv(a.mat)), a.ref), eye(mk, n, batch), "inv(a) @ a after pd_schur")


def rhs(mk, kind, n, cols, batch):
    return make(mk, kind, "b", n, cols, batch)


def solve(mk, ka, kb, n, cols, ba, bb):
    a = invertible(mk, ka, "a", n, ba)
    b = rhs(mk, kb, n, cols, bb)
    res = B.solve(a.mat, b.mat)
    batch = batch_of(a.ref, b.ref)
    x = np.asarray(B.dense(res))
    if kb == "zero" and x.shape != batch + (n, cols) and x.shape == tuple(bb) + (n, cols):
        # A known finding: only the batch dimensions of the right-hand side.
        mk.eq(x, b.ref, "solve(a, 0)")
        mk.true(False, "batch of solve(a, 0) is that of the right-hand side")
        return
    if x.shape != batch + (n, cols):
        mk.true(False, f"shape of solve(a, b): {x.shape} instead of {batch + (n, cols)}")
        return
    mk.eq(mm(a.ref, x), bc(b.ref, batch + (n, cols)), "a @ solve(a, b)")
    if isinstance(res, AbstractMatrix):
        mk.true(tuple(B.shape(res)) == batch + (n, cols), "shape(solve(a, b))")
        mk.eq(B.transpose(res), T(x), "transpose(solve(a, b))")


def solve_self(mk, kind, n, batch):
    """The same object on both sides."""
    a = invertible(mk, kind, "a", n, batch)
    b = B.transpose(a.mat)
    mk.eq(mm(a.ref, np.asarray(B.dense(B.solve(a.mat, a.mat)))), a.ref, "a @ solve(a, a)")
    mk.eq(mm(a.ref, np.asarray(B.dense(B.solve(a.mat, b)))), T(a.ref), "a @ solve(a, a')")
    mk.eq(mm(T(a.ref), np.asarray(B.dense(B.solve(b, a.mat)))), a.ref, "a' @ solve(a', a)")
    if kind in ("lt", "ut"):
        mk.eq(mm(a.ref, np.asarray(B.dense(B.triangular_solve(a.mat, a.mat, lower_a=kind == "lt")))), a.ref, "a @ triangular_solve(a, a)")
    if kind in ("lt", "ut", "diag"):
        mk.eq(mm(a.ref, T(a.ref), np.asarray(B.dense(B.cholesky_solve(a.mat, a.mat)))), a.ref, "a @ a' @ cholesky_solve(a, a)")


def trisolve(mk, ka, kb, cols, ba, bb):
    n = 2
    a = invertible(mk, ka, "a", n, ba)
    b = rhs(mk, kb, n, cols, bb)
    batch = batch_of(a.ref, b.ref)
    for flag in [True, False, None]:
        kw = {} if flag is None else dict(lower_a=flag)
        x = np.asarray(B.dense(B.triangular_solve(a.mat, b.mat, **kw)))
        mk.eq(mm(a.ref, x), bc(b.ref, batch + (n, cols)), f"a @ triangular_solve(a, b, lower_a={flag})")


def cholsolve(mk, ka, kb, n, cols, ba, bb):
    a = invertible(mk, ka, "a", n, ba)
    b = rhs(mk, kb, n, cols, bb)
    batch = batch_of(a.ref, b.ref)
    x = np.asarray(B.dense(B.cholesky_solve(a.mat, b.mat)))
    mk.eq(mm(a.ref, T(a.ref), x), bc(b.ref, batch + (n, cols)), "a @ a' @ cholesky_solve(a, b)")


def cholsolve_kron(mk, ka, kb, ba, bb):
    a1, a2 = invertible(mk, ka, "p", 2, ba), invertible(mk, kb, "q", 2, bb)
    b1, b2 = rhs(mk, "dense", 2, 1, ba), make(mk, "dense", "c", 2, 2)
    a, b = kron_ref(a1.ref, a2.ref), kron_ref(b1.ref, b2.ref)
    x = np.asarray(B.dense(B.cholesky_solve(Kronecker(a1.mat, a2.mat), Kronecker(b1.mat, b2.mat))))
    mk.eq(mm(a, T(a), x), bc(b, batch_of(a, b) + b.shape[-2:]), "a @ a' @ cholesky_solve(a, b)")


ALL = ["zero", "dense", "num", "diag", "const", "constb", "lt", "ut", "lr1", "lrm", "lrd", "wb", "wbb", "krons"]
WB = ["wb", "wbb", "wbd", "wbn"]
BATCHES = [((), ()), ((2,), ()), ((), (2,)), ((2, 1), (3,))]


def CASES(tier):
    out = []
    C = lambda id, fn, **kw: out.append(Case(id.replace(" ", ""), fn, kw, div="assume", cost=kw.get("n", 1)))
    for kind in ["dense", "diag", "kron_dd", "kron_di", "kron_id", "kron_bb", "kronx"] + WB:
        for n in [1, 2, 3, 4]:
            for batch in [(), (1,), (2,), (2, 1)]:
                if kind == "kronx" and not ok_kind(kind, n, n) or kind[:5] == "kron_" and n % 2 or kind == "dense" and n > 3 or kind in WB and n > 3:
                    continue
                if n == 3 and len(batch) > 1 or kind == "wbd" and n != 2:
                    continue
                C(f"inv:{kind}{n}{batch}", inv, kind=kind, n=n, batch=batch)
                if n < 3 and kind != "wbd" and not (kind in WB and (n > 1 or batch)):
                    C(f"inv_twice:{kind}{n}{batch}", inv_twice, kind=kind, n=n, batch=batch)
                if kind in WB and n < 3:
                    C(f"schur:{kind}{n}{batch}", schur, kind=kind, n=n, batch=batch)
    C("inv:kron_wd4", inv, kind="kron_wd", n=4, batch=())
    C("inv:kron_wd4(2,)", inv, kind="kron_wd", n=4, batch=(2,))
    C("inv:kron_kd2", inv, kind="kron_kd", n=2, batch=())
    for kind in ["num", "dense", "diag", "kron", "kron_dd", "kron_kb", "wb", "wb_right", "wb_default", "wb_mid2", "wb_bat"]:
        for n in [1, 2, 3, 4]:
            for batch in [(), (2,), (2, 1)]:
                if kind.startswith("kron") and n % 2 or not kind.startswith("kron") and n > 3:
                    continue
                if kind == "wb_mid2" and (n > 1 and tier == "quick" or n > 2) or n == 3 and len(batch) > 1 or kind == "wb_bat" and n == 3 and batch:
                    continue
                C(f"pd_inv:{kind}{n}{batch}", pd_inv, kind=kind, n=n, batch=batch)
    for n in [1, 2]:
        C(f"pd_then:{n}", pd_then, n=n, batch=())
    for ka in ["dense", "num", "diag", "lt", "ut", "wb", "wbb", "kron_dd", "kron_id"]:
        for kb in ALL:
            if ka == "num" and kb == "num":
                continue
            for n in [1, 2, 4] + ([3] if ka in ("lt", "ut", "diag") and kb in ("dense", "lt", "zero", "wb") else []):
                for cols in sorted({n, 1, 3}):
                    if not ok_kind(kb, n, cols):
                        continue
                    for ba, bb in BATCHES:
                        if ka.startswith("kron") != (n == 4) or n == 4 and (ba and bb or kb not in ("dense", "zero", "diag", "krons", "lr1")):
                            continue
                        if ka in ("wb", "wbb") and (ba and bb or n == 2 and kb in ("wb", "wbb", "lrd", "lrm", "constb", "krons", "ut") and (tier == "quick" or ba)):
                            continue
                        if ka in ("wb", "wbb") and (ba or bb) and tier == "quick" and (kb not in ("zero", "dense", "num", "diag", "lt", "lr1") or kb == "lr1" and n > 1):
                            continue
                        if ka == "wbb" and kb == "const" and n == 2 and tier == "quick":
                            continue
                        name = "solve_batched_zero" if kb == "zero" and np.broadcast_shapes(ba, bb) != bb else "solve"
                        C(f"{name}:{ka}{ba}/{kb}{n}x{cols}{bb}", solve, ka=ka, kb=kb, n=n, cols=cols, ba=ba, bb=bb)
    for ka in ["lt", "ut"]:
        for kb in ALL:
            for cols in [1, 2]:
                if ok_kind(kb, 2, cols):
                    for ba, bb in BATCHES:
                        C(f"trisolve:{ka}{ba}/{kb}{cols}{bb}", trisolve, ka=ka, kb=kb, cols=cols, ba=ba, bb=bb)
    for ka in ["lt", "ut", "diag"]:
        for kb in ALL:
            for cols in [1, 2]:
                if ok_kind(kb, 2, cols):
                    for ba, bb in BATCHES:
                        C(f"cholsolve:{ka}{ba}/{kb}{cols}{bb}", cholsolve, ka=ka, kb=kb, n=2, cols=cols, ba=ba, bb=bb)
    for ka in ["lt", "ut", "diag"]:
        for kb in ["lt", "ut", "diag"]:
            for ba, bb in BATCHES:
                C(f"cholsolve_kron:{ka}{ba}/{kb}{bb}", cholsolve_kron, ka=ka, kb=kb, ba=ba, bb=bb)
    # Larger matrices and batches, and the same object more than once.
    for k in ["diag", "lt", "ut"]:
        for n in [5, 6, 8]:
            for kb, cols in [("dense", 1), ("dense", n), ("zero", 2), ("const", 2), ("diag", n), ("lr1", 3), ("num", 4)]:
                if k == "diag" or n == 5 and kb in ("dense", "zero", "const", "num") and cols < 5:
                    C(f"solve:{k}()/{kb}{n}x{cols}()", solve, ka=k, kb=kb, n=n, cols=cols, ba=(), bb=())
            if k == "diag":
                C(f"inv:{k}{n}()", inv, kind=k, n=n, batch=())
                C(f"pd_inv:{k}{n}()", pd_inv, kind=k, n=n, batch=())
        for ba, bb in [((2, 2, 2), ()), ((), (2, 2, 2)), ((5,), (5,)), ((3, 1, 1), (2, 1)), ((1,), (4,))]:
            for kb in ["dense", "num", "diag", "lr1", "const"]:
                C(f"solve:{k}{ba}/{kb}2x2{bb}", solve, ka=k, kb=kb, n=2, cols=2, ba=ba, bb=bb)
    for batch in [(2, 2, 2), (5,), (3, 3)]:
        for k in ["dense", "diag", "wb", "kron_dd"]:
            C(f"inv:{k}2{batch}", inv, kind=k, n=2, batch=batch)
            C(f"pd_inv:{'kron' if k == 'kron_dd' else k}2{batch}", pd_inv, kind="kron" if k == "kron_dd" else k, n=2, batch=batch)
    for k in ["dense", "diag", "lt", "ut", "wb", "kron_dd", "kron_id"]:
        for n in [1, 2, 3, 4]:
            for batch in [(), (2,)]:
                if (k[:4] == "kron") == (n == 4) and not (k == "wb" and n > 1 and batch) and not (k == "dense" and n > 2 or k == "wb" and n > 1):
                    C(f"solve_self:{k}{n}{batch}", solve_self, kind=k, n=n, batch=batch)
    return out
