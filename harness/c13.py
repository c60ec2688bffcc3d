"""C13: Cholesky factors and roots."""
from .c11 import pd, spd
from .common import *

META = dict(
    level="other",
    explanation="Symbolic execution of the real `B.cholesky` and `B.root` methods on positive-"
    "(semi)definite matrices whose entries are z3 reals (parametrised by their Cholesky factors "
    "or eigendecompositions, which reaches every such matrix); z3 proves that the factor times its "
    "transpose, or the square of the root, is the dense matrix, and that factors are triangular.",
    bounds="dense matrices up to 3 x 3 (roots: 2 x 2), Kronecker products of two factors, Woodbury "
    "and low-rank matrices up to 3 x 3 with rank up to two, batch shapes (), (2,), (2, 1), also "
    "differing between the parts; also factors of sums, multiples, and products of such matrices"
    "; in separate cases also structured matrices of larger sizes and batches of up to four "
    "dimensions, and the same object given as several operands or parts",
    assumptions=[
        "real arithmetic instead of floating point",
        "LAPACK's Cholesky decomposition is exact; the singular value decomposition of a positive-"
        "semidefinite matrix gives an eigendecomposition, with eigenvectors in any signs",
    ],
)


def psd_extra(mk, kind, n, batch):
    """Operands that are only semidefinite or have no inverse."""
    R = lambda s, *shape, **k: mk.real(s, *shape, **k)
    if kind == "zero":
        return Op(Zero(DT[mk.symbolic], *batch, n, n), mk.zeros(*batch, n, n), kind)
    if kind == "const":
        c = R("c", *batch, nonneg=True)
        return Op(Constant(c if batch else c[()], n, n), full(batch + (n, n), c, mk), kind)
    if kind == "constb":
        c = R("c", nonneg=True)[()]
        return Op(Constant(c, *batch, n, n), full(batch + (n, n), c, mk), kind)
    if kind == "lr1":
        l = R("l", *batch, n, 1)
        return Op(LowRank(l), mm(l, T(l)), kind)
    if kind == "lr_same":
        l = R("l", *batch, n, 2)
        return Op(LowRank(l, l), mm(l, T(l)), kind)
    if kind == "lr_diag":
        l, m = R("l", n, 2), R("m", *batch, 2, nonneg=True)
        ref = mm(l, diag_embed(m, mk), T(l))
        return Op(LowRank(l, middle=Diagonal(m)), ref, kind)
    if kind == "lr_const":
        l, c = R("l", *batch, n, 2), R("c", nonneg=True)[()]
        return Op(LowRank(l, middle=Constant(c, 2, 2)), mm(l, full((2, 2), c, mk), T(l)), kind)
    if kind == "lr_dense":
        m, _ = spd(mk, "m", 2, batch)
        l = R("l", n, 2)
        return Op(LowRank(l, middle=m), mm(l, m, T(l)), kind)
    if kind == "lr_kron":
        m, _ = spd(mk, "m", 2)
        d, l = R("d", 1, nonneg=True), R("l", *batch, n, 2)
        return Op(LowRank(l, middle=Kronecker(Diagonal(d), Dense(m))), mm(l, m * d[0], T(l)), kind)
    if kind == "lr_right":  # The factors are different, but the matrix is symmetric.
        l = R("l", *batch, n, 1)
        k = R("k", nonneg=True)[()]
        return Op(LowRank(k * l, l), k * mm(l, T(l)), kind)
    return pd(mk, kind, n, batch)


def upper_zero(mk, x, label):
    x = np.asarray(B.dense(x))
    n = x.shape[-1]
    for i in range(n):
        for j in range(i + 1, n):
            mk.eq(x[..., i, j], np.zeros(x.shape[:-2]), f"{label}[..., {i}, {j}]")


def check_chol(mk, a, label):
    f = B.cholesky(a.mat)
    d = np.asarray(B.dense(f))
    mk.eq(mm(d, T(d)), a.ref, f"{label} @ {label}'")
    mk.true(tuple(B.shape(f)) == d.shape, f"shape of {label}")
    mk.eq(B.transpose(f), T(d), f"transpose({label})")
    return f


TRI = ["num", "dense", "diag", "kron", "kron_dd", "kron_kb", "wb", "wb_right", "wb_default", "wb_mid2", "wb_bat"]


def chol(mk, kind, n, batch):
    a = psd_extra(mk, kind, n, batch)
    f = check_chol(mk, a, "cholesky(a)")
    if kind in TRI:
        upper_zero(mk, f, "cholesky(a)")
    # Once more, from the cache.
    g = np.asarray(B.dense(B.cholesky(a.mat)))
    mk.eq(mm(g, T(g)), a.ref, "cholesky(a) @ cholesky(a)' the second time")


DERIVED = {
    "neg_neg": lambda a: -(-a),
    "twice": lambda a: 2 * a,
    "sum": lambda a: a + a,
    "transpose": lambda a: B.transpose(a),
    "batch": lambda a: B.broadcast_batch_to(a, 2, *B.shape_batch(a)),
    "kron": lambda a: B.kron(a, a),
    "square": lambda a: B.matmul(a, a, tr_b=True),
    "multiply": lambda a: B.multiply(a, B.ones(a)),
    "take": lambda a: B.submatrix(a, [0]),
}
DREF = {
    "neg_neg": lambda mk, a: a,
    "twice": lambda mk, a: a + a,
    "sum": lambda mk, a: a + a,
    "transpose": lambda mk, a: T(a),
    "batch": lambda mk, a: bc(a, (2,) + a.shape),
    "kron": lambda mk, a: kron_ref(a, a),
    "square": lambda mk, a: mm(a, T(a)),
    "multiply": lambda mk, a: a,
    "take": lambda mk, a: a[..., :1, :1],
}


def derived(mk, kind, op, n, batch):
    """Factor of the result of another operation."""
    a = psd_extra(mk, kind, n, batch)
    d = DERIVED[op](a.mat)
    check_chol(mk, Op(d, DREF[op](mk, a.ref), op), f"cholesky({op}(a))")


def rotation(mk, name, batch):
    """Any orthogonal 2 x 2 matrix."""
    out = mk.zeros(*batch, 2, 2)
    for idx in np.ndindex(*batch):
        t = mk.real(name + "".join(map(str, idx)))[()]
        c, s = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
        out[idx + (0, 0)], out[idx + (1, 1)], out[idx + (0, 1)], out[idx + (1, 0)] = c, c, -s, s
    k = mk.choose(4, "signs")
    return out * mk.const([[1 - 2 * (k % 2), 1 - 2 * (k // 2)]])


def spectral(mk, name, n, batch):
    """Positive-semidefinite matrices with their eigendecompositions and roots."""
    s = mk.real(name + "s", *batch, n, nonneg=True)
    if n == 1:
        u = mk.const(np.broadcast_to(np.array([[1 - 2 * mk.choose(2, "sign")]]), tuple(batch) + (1, 1)))
    else:
        u = rotation(mk, name + "t", batch)
        # Singular values are sorted.
        for idx in np.ndindex(*batch):
            mk.assume(mk.gt(s[idx + (0,)], s[idx + (1,)]))
    v = s * s  # So that the roots are known.
    a = mm(u, diag_embed(v, mk), T(u))
    if mk.symbolic:
        mk.path.svd_facts.append((a, u, v, T(u)))
        mk.known_sqrt(v, s)
    return a


def roots(mk, kind, n, batch):
    R = lambda s, *shape, **k: mk.real(s, *shape, **k)
    if kind == "dense":
        a = spectral(mk, "a", n, batch)
        return Op(Dense(a), a, kind)
    if kind == "num":
        a = spectral(mk, "a", n, batch)
        return Op(a, a, kind)
    if kind in ("zero", "const", "constb", "diag"):
        return psd_extra(mk, kind, n, batch)
    if kind == "kron":
        a, d = spectral(mk, "a", n, batch), R("d", 2, nonneg=True)
        return Op(Kronecker(Dense(a), Diagonal(d)), kron_ref(a, diag_embed(d, mk)), kind)
    if kind == "kron_dd":
        a, b = spectral(mk, "a", 1, ()), spectral(mk, "b", n, batch)
        return Op(Kronecker(Dense(a), Dense(b)), kron_ref(a, b), kind)
    if kind == "kron_c":
        c, d = R("c", *batch, nonneg=True), R("d", n, nonneg=True)
        ref = kron_ref(diag_embed(d, mk), full(batch + (2, 2), c, mk))
        return Op(Kronecker(Diagonal(d), Constant(c if batch else c[()], 2, 2)), ref, kind)
    # Low-rank and Woodbury matrices of size two, by their eigendecompositions: the
    # eigenvectors are `l` and its perpendicular.
    l = R("l", *batch, n, 1)
    if kind == "lr":
        mat, ref = LowRank(l), mm(l, T(l))
        e = R("e")[()] * 0
    else:
        d = R("e", pos=True)[()]
        e = d * d
        mat = Woodbury(Diagonal(full(batch + (n,), 0, mk) * 0 + e if not mk.symbolic else full(batch + (n,), e, mk)), LowRank(l))
        ref = mm(l, T(l)) + diag_embed(full((n,), e, mk), mk)
    if mk.symbolic:
        # `|l|^2 = q^2` for a new `q`.
        sq = np.sum(l * l, axis=-2)[..., 0]
        q = np.empty(batch, dtype=object)
        for idx in np.ndindex(*batch):
            q[idx] = np.sqrt(sq[idx])
            mk.assume(mk.gt(q[idx], 0))
        l0, l1 = l[..., 0, 0] / q, l[..., 1, 0] / q
        u = np.stack([np.stack([l0, -l1], axis=-1), np.stack([l1, l0], axis=-1)], axis=-2)
        s = np.stack([q * q + e, q * 0 + e], axis=-1)
        mk.path.svd_facts.append((ref, u, s, T(u)))
    return Op(mat, ref, kind)


def root(mk, kind, n, batch):
    a = roots(mk, kind, n, batch)
    r = B.root(a.mat)
    d = np.asarray(B.dense(r))
    mk.eq(mm(d, d), a.ref, "root(a) @ root(a)")
    mk.eq(d, T(d), "root(a) symmetric")
    # Positive: a sum of squares bounds every quadratic form in one direction.
    for i in range(d.shape[-1]):
        for idx in np.ndindex(*d.shape[:-2]):
            mk.true(mk.ge(d[idx + (i, i)], 0), f"root(a)[{idx}, {i}, {i}] is nonnegative")


def CASES(tier):
    out = []
    C = lambda id, fn, **kw: out.append(Case(id.replace(" ", ""), fn, kw, div="assume", cost=kw.get("n", 1)))
    BATCH = [(), (1,), (2,), (2, 1)]
    for kind in TRI + ["zero", "const", "constb", "lr1", "lr_same", "lr_diag", "lr_const", "lr_dense", "lr_kron", "lr_right"]:
        for n in [1, 2, 3, 4]:
            for batch in BATCH:
                if kind.startswith("kron") and n % 2 or n == 4 and kind not in ("kron", "kron_dd", "kron_kb", "diag", "const", "lr1"):
                    continue
                if kind == "wb_mid2" and n > 2 or kind == "constb" and not batch:
                    continue
                name = "chol_right" if kind == "lr_right" else "chol"
                C(f"{name}:{kind}{n}{batch}", chol, kind=kind, n=n, batch=batch)
                if n < 3 and len(batch) < 2 and kind not in ("num", "lr_right"):
                    for op in DERIVED:
                        if kind.startswith(("wb", "dense")) and op in ("square", "kron") and (n > 1 or batch):
                            continue
                        if kind.startswith("wb") and op in ("square", "kron", "sum") and n > 1:
                            continue
                        if kind.startswith("lr") and op in ("kron",):
                            continue
                        # The middle factor must be positive definite.
                        if op == "square" and n == 1 and kind.startswith("lr") and kind != "lr1":
                            continue
                        if op == "multiply" and kind == "lr_const" and batch:
                            continue
                        if kind == "constb" and op != "twice":
                            continue
                        C(f"derived:{op}:{kind}{n}{batch}", derived, kind=kind, op=op, n=n, batch=batch)
    for kind in ["num", "dense", "zero", "const", "constb", "diag", "kron", "kron_dd", "kron_c", "lr", "wb"]:
        for n in [1, 2]:
            for batch in BATCH:
                if kind == "constb" and not batch or kind in ("lr", "wb") and n == 1:
                    continue
                C(f"root:{kind}{n}{batch}", root, kind=kind, n=n, batch=batch)
    for kind in ["diag", "const", "constb", "zero", "lr1", "lr_same", "lr_diag"]:
        for n in [5, 6, 8]:
            C(f"chol:{kind}{n}", chol, kind=kind, n=n, batch=(2,) if kind == "constb" else ())
            if kind in ("diag", "const", "zero"):
                C(f"root:{kind}{n}", root, kind=kind, n=n, batch=())
        for batch in [(2, 2, 2), (5,), (3, 3)]:
            C(f"chol:{kind}{batch}", chol, kind=kind, n=2, batch=batch)
            if kind[:2] != "lr":
                C(f"root:{kind}{batch}", root, kind=kind, n=2, batch=batch)
    for kind in ["dense", "num", "kron", "kron_dd"]:
        for batch in [(2, 2, 2), (5,), (3, 3)]:
            C(f"chol:{kind}{batch}", chol, kind=kind, n=2, batch=batch)
    return out
