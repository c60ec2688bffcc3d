"""C12: log-determinants."""
from .c11 import pd, spd
from .common import *

META = dict(
    level="other",
    explanation="Symbolic execution of the real `B.logdet` methods on positive-definite "
    "matrices whose entries are z3 reals; log-determinants are formal sums of logarithms, and z3 "
    "proves that the product of their arguments equals the determinant (by cofactor expansion) of "
    "the dense matrix.",
    bounds="dense matrices up to 3 x 3, Kronecker factors up to 3 x 3 and products up to 6 x 6 "
    "of diagonal or triangular factors, Woodbury matrices up to 3 x 3 with rank up to two, batch "
    "shapes (), (2,), (2, 1), (3,), also differing between the parts of a matrix"
    "; in separate cases also structured matrices of larger sizes and batches of up to four "
    "dimensions, and the same object given as several operands or parts",
    assumptions=[
        "real arithmetic instead of floating point; log(a) + log(b) = log(a b)",
        "the matrix (and the parts through which the determinant is computed) are positive definite",
    ],
)


def dets(mk, x):
    x = np.asarray(x)
    return np.linalg.det(x)


def positive(mk, kind, name, n, batch=()):
    """Positive-definite (or triangular with a positive diagonal) operands with determinants."""
    R = lambda s, *shape, **k: mk.real(f"{name}{s}", *shape, **k)
    if kind == "dense":
        a, l = spd(mk, name, n, batch)
        d = np.prod(np.stack([l[..., i, i] for i in range(n)], axis=-1), axis=-1)
        return Dense(a), a, d * d
    if kind == "diag":
        d = R("d", *batch, n, pos=True)
        return Diagonal(d), diag_embed(d, mk), np.prod(d, axis=-1)
    if kind in ("lt", "ut"):
        x = mask_tri(R("x", *batch, n, n), kind == "lt", mk)
        for idx in np.ndindex(*batch):
            for i in range(n):
                mk.assume(mk.gt(x[idx + (i, i)], 0))
        d = np.prod(np.stack([x[..., i, i] for i in range(n)], axis=-1), axis=-1)
        return (LowerTriangular if kind == "lt" else UpperTriangular)(x), x, d
    if kind == "const":
        assert n == 1
        c = R("c", *batch, pos=True)
        return Constant(c if batch else c[()], 1, 1), c[..., None, None], c
    if kind in ("lr", "lrd"):
        l = R("l", *batch, n, n)
        mk.det_nonzero(l)
        if kind == "lr":
            return LowRank(l), mm(l, T(l)), dets(mk, l) ** 2
        m = R("m", n, pos=True)
        return LowRank(l, middle=Diagonal(m)), mm(l, diag_embed(m, mk), T(l)), dets(mk, l) ** 2 * np.prod(m)
    if kind == "wb":
        o = pd_named(mk, name, n, batch)
        return o.mat, o.ref, dets(mk, o.ref)
    if kind == "kron1":  # Nested Kronecker product.
        d, e = R("d", 1, pos=True), R("e", *batch, n, pos=True)
        mat = Kronecker(Diagonal(d), Diagonal(e))
        ref = kron_ref(diag_embed(d, mk), diag_embed(e, mk))
        return mat, ref, np.prod(e, axis=-1) * d[0] ** n
    raise ValueError(kind)


def pd_named(mk, name, n, batch):
    d = mk.real(name + "d", *batch, n, pos=True)
    l = mk.real(name + "l", *batch, n, 1)
    return Op(Woodbury(Diagonal(d), LowRank(l)), diag_embed(d, mk) + mm(l, T(l)), "wb")


def logdet(mk, kind, n, batch):
    mat, ref, det = positive(mk, kind, "a", n, batch)
    mk.eq(B.logdet(mat), mk.log(np.asarray(det)), "logdet(a)", atol=1e-6)


def twice(mk, kind, n, batch):
    """Again after caching, and of the transposed and the scaled matrix."""
    mat, ref, det = positive(mk, kind, "a", n, batch)
    B.cholesky(mat)
    mk.eq(B.logdet(mat), mk.log(np.asarray(det)), "logdet(a) after cholesky(a)", atol=1e-6)
    mk.eq(B.logdet(B.transpose(mat)), mk.log(np.asarray(det)), "logdet(a')", atol=1e-6)
    mk.eq(B.logdet(2 * mat), mk.log(np.asarray(det * 2**n)), "logdet(2 a)", atol=1e-6)


def woodbury(mk, kind, n, batch):
    a = pd(mk, kind, n, batch)
    mk.eq(B.logdet(a.mat), mk.log(np.asarray(dets(mk, a.ref))), "logdet(a)", atol=1e-6)


def kron(mk, ka, kb, na, nb, ba, bb):
    a, _, da = positive(mk, ka, "a", na, ba)
    b, _, db = positive(mk, kb, "b", nb, bb)
    ref = np.asarray(da) ** nb * np.asarray(db) ** na
    mk.eq(B.logdet(Kronecker(a, b)), mk.log(np.asarray(ref)), "logdet(kron(a, b))", atol=1e-6)


def kron_self(mk, kind, n, batch):
    """The same object twice."""
    a, _, d = positive(mk, kind, "a", n, batch)
    ref = mk.log(np.asarray(np.asarray(d) ** (2 * n)))
    mk.eq(B.logdet(Kronecker(a, a)), ref, "logdet(kron(a, a))", atol=1e-6)
    mk.eq(B.logdet(Kronecker(a, B.transpose(a))), ref, "logdet(kron(a, a'))", atol=1e-6)


def CASES(tier):
    out = []
    C = lambda id, fn, cost=1, **kw: out.append(Case(id.replace(" ", ""), fn, kw, div="assume", cost=cost))
    for kind in ["dense", "diag", "lt", "ut", "const", "lr", "lrd", "wb", "kron1"]:
        for n in [1, 2, 3, 4]:
            for batch in [(), (1,), (2,), (2, 1), (3,)]:
                if kind == "const" and n > 1 or kind in ("lr", "lrd") and n > 2 or kind in ("dense", "wb") and n > 3:
                    continue
                if n > 2 and kind in ("lr", "wb") and len(batch) > 1:
                    continue
                if kind in ("lr", "lrd") and n == 2 and batch and (tier == "quick" or batch != (2,)):
                    continue
                C(f"logdet:{kind}{n}{batch}", logdet, kind=kind, n=n, batch=batch)
                if kind in ("dense", "diag", "wb", "kron1") and n < 3 and batch in [(), (2,)]:
                    if not (kind == "wb" and n * max(1, len(batch)) > 1):
                        C(f"twice:{kind}{n}{batch}", twice, kind=kind, n=n, batch=batch)
    for kind in ["wb", "wb_right", "wb_default", "wb_mid2", "wb_bat"]:
        for n in [1, 2, 3]:
            for batch in [(), (2,), (2, 1)]:
                if kind == "wb_mid2" and (n > 2 or batch and n > 1) or n == 3 and batch:
                    continue
                C(f"woodbury:{kind}{n}{batch}", woodbury, cost=3, kind=kind, n=n, batch=batch)
    for ka in ["dense", "diag", "lt", "const", "wb", "kron1", "lr"]:
        for kb in ["dense", "diag", "ut", "const", "wb", "kron1"]:
            for na, nb in [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (1, 3)]:
                if ka == "const" and na > 1 or kb == "const" and nb > 1 or ka == "lr" and na > 1:
                    continue
                if "wb" in (ka, kb) and (na > 2 or nb > 2 or na * nb > 2):
                    continue
                for ba, bb in [((), ()), ((2,), ()), ((), (2,)), ((2, 1), (3,))]:
                    C(f"kron:{ka}{na}{ba}/{kb}{nb}{bb}", kron, ka=ka, kb=kb, na=na, nb=nb, ba=ba, bb=bb)
    for kind in ["diag", "lt", "ut", "kron1"]:
        for n in [5, 6, 8, 9]:
            C(f"logdet:{kind}{n}", logdet, kind=kind, n=n, batch=())
    for kind in ["dense", "diag", "lt", "ut", "const", "wb", "kron1"]:
        for batch in [(2, 2, 2), (5,), (3, 3)]:
            C(f"logdet:{kind}{batch}", logdet, kind=kind, n=1 if kind in ("const", "wb") else 2, batch=batch)
    for ka, na, kb, nb in [("diag", 4, "diag", 3), ("diag", 1, "lt", 5), ("lt", 3, "ut", 3), ("diag", 5, "dense", 2), ("dense", 2, "diag", 4), ("const", 1, "diag", 6)]:
        for ba, bb in [((), ()), ((2,), (3, 1))]:
            if na * nb < 12 or not ba:
                C(f"kron_large:{ka}{na}{ba}/{kb}{nb}{bb}", kron, ka=ka, kb=kb, na=na, nb=nb, ba=ba, bb=bb)
    for kind in ["dense", "diag", "lt", "ut", "const", "wb", "kron1"]:
        for n in [1, 2, 3]:
            for batch in [(), (2,)]:
                if not (kind == "const" and n > 1 or kind in ("wb", "dense") and n > 2 or kind == "wb" and n > 1):
                    C(f"kron_self:{kind}{n}{batch}", kron_self, kind=kind, n=n, batch=batch)
    return out
