"""C05: every representation densifies, transposes, and reports its shape faithfully."""
from .common import *
from matrix.matrix import structured

META = dict(
    level="other",
    explanation="Symbolic execution of the real densification, transposition, and shape "
    "methods for every representation, including nested ones, with z3 reals as factors; "
    "every dense entry is proved equal to the entry that the definition prescribes.",
    bounds="matrices up to 4 x 6, low-rank factors with at most two columns, batch shapes "
    "(), (1,), (2,), (2, 1), (3,) and mixtures within one matrix, tiles along all axes with "
    "one to three repetitions"
    "; in separate cases also sizes up to 12 (such as 5 x 5, 9 x 9, 6 x 9, 1 x 11), batches "
    "of up to four dimensions or of size five, and the same object given as both operands or "
    "as several parts of one",
    assumptions=["real arithmetic instead of floating point"],
)


def check(mk, mat, ref, label="a"):
    dense = B.dense(mat)
    mk.true(not isinstance(dense, AbstractMatrix), f"dense({label}) is numeric")
    mk.eq(dense, ref, f"dense({label})")
    mk.true(tuple(int(x) for x in B.shape(mat)) == ref.shape, f"shape({label})")
    mk.true(tuple(int(x) for x in mat.shape) == ref.shape, f"{label}.shape")
    mk.true(tuple(int(x) for x in B.shape_batch(mat)) == ref.shape[:-2], f"shape_batch({label})")
    mk.true(tuple(int(x) for x in B.shape_matrix(mat)) == ref.shape[-2:], f"shape_matrix({label})")
    mk.true(B.rank(mat) == ref.ndim, f"rank({label})")


def both(mk, mat, ref):
    check(mk, mat, ref)
    t = B.transpose(mat)
    check(mk, t, T(ref), "a^T")
    mk.eq(mat.T, T(ref), "a.T")
    mk.eq(B.transpose(t), ref, "a^T^T")
    # Results that are kept must not be affected.
    mk.eq(B.dense(mat), ref, "dense(a) again")


def one(mk, k, s, batch):
    a = make(mk, k, "a", *s, batch)
    both(mk, a.mat, a.ref)


def tiled(mk, axis, shapes, reps, kinds):
    rank = max(len(s) for s in shapes)
    ax = axis if axis < 0 else axis - rank
    xs = [make(mk, k, f"x{i}", *s[-2:], s[:-2]) for i, (s, k) in enumerate(zip(shapes, kinds))]
    refs = [o.ref.reshape((1,) * (rank - o.ref.ndim) + o.ref.shape) for o in xs]
    target = np.broadcast_shapes(*[r.shape[:ax] + ((1,) if ax == -1 else (1,) + r.shape[ax + 1 :]) for r in refs])
    parts = []
    for r, rep in zip(refs, reps):
        sh = list(target)
        sh[ax] = r.shape[ax]
        parts += [np.broadcast_to(r, sh)] * rep
    ref = np.concatenate(parts, axis=ax)
    both(mk, TiledBlocks(*zip((o.mat for o in xs), reps), axis=axis), ref)


def tiled_ctor(mk, form, axis):
    x, y = mk.real("x", 1, 2), mk.real("y", 1, 2)
    if axis == -1:
        x, y = x.T, y.T
    if form == "plain":
        both(mk, TiledBlocks(x, Dense(y), axis=axis), np.concatenate([x, y], axis=axis))
    elif form == "rep":
        both(mk, TiledBlocks(x, 3, axis=axis), np.concatenate([x] * 3, axis=axis))
    elif form == "default":
        both(mk, TiledBlocks((x, 2), (y, 1)), np.concatenate([x, x, y], axis=-2))


def diag_from_mat(mk, k, n, batch):
    """A diagonal matrix constructed from the diagonal of another matrix."""
    a = make(mk, k, "a", n, n, batch)
    d = np.einsum("...ii->...i", a.ref)
    both(mk, Diagonal(a.mat), diag_embed(d, mk))


def lr_default(mk, s, batch, which):
    """Default right and middle factors."""
    l, r, m = mk.real("l", *batch, s, 2), mk.real("r", 3, 2), mk.real("m", *batch, 2, 2)
    if which == "l":
        both(mk, LowRank(l), mm(l, T(l)))
    elif which == "lr":
        both(mk, LowRank(l, r), mm(l, T(r)))
    elif which == "lm":
        both(mk, LowRank(l, middle=m), mm(l, m, T(l)))
    elif which == "lrm":
        both(mk, LowRank(l, r, m), mm(l, m, T(r)))
    elif which == "ldm":
        both(mk, LowRank(Dense(l), middle=LowerTriangular(mask_tri(m, True, mk))), mm(l, mask_tri(m, True, mk), T(l)))


def wrap(mk, k, s, batch):
    """Dense and triangular matrices can wrap other matrices."""
    a = make(mk, k, "a", *s, batch)
    both(mk, Dense(a.mat), a.ref)
    if k in ("lt", "diag"):
        both(mk, LowerTriangular(a.mat), a.ref)
    if k in ("ut", "diag"):
        both(mk, UpperTriangular(a.mat), a.ref)


def const_shape(mk, cb, batch):
    """The shape of the constant and the specified batch shape broadcast."""
    c = mk.real("c", *cb)
    target = np.broadcast_shapes(cb, batch)
    both(mk, Constant(c if cb else c[()], *batch, 2, 3), bc(full(cb + (2, 3), c, mk), target + (2, 3)))


def two_level(mk, ka, kb, batch):
    """Kronecker products of arbitrary factors."""
    a, b = make(mk, ka, "a", 2, 2, batch), make(mk, kb, "b", 2, 2)
    both(mk, Kronecker(a.mat, b.mat), kron_ref(a.ref, b.ref))


def lr_factors(mk, ka, kb, kc, batch):
    """Low-rank matrices with arbitrary factors."""
    a, b, c = make(mk, ka, "a", 2, 2, batch), make(mk, kb, "b", 2, 2), make(mk, kc, "c", 2, 2, batch)
    both(mk, LowRank(a.mat, c.mat, b.mat), mm(a.ref, b.ref, T(c.ref)))


SIMPLE = ["zero", "dense", "diag", "const", "constb", "lt", "ut", "kron", "kron2", "kronb", "krons", "tiled"]
LOW = ["lr1", "lr2", "lrs", "lrd", "lrx", "lrm", "wb", "wbb", "wbd"]
BASE = ["dense", "diag", "const", "zero", "lt", "ut", "lr1", "wb"]


def CASES(tier):
    out = []
    for k in SIMPLE + LOW:
        for s in [(1, 1), (2, 2), (3, 3), (4, 4), (2, 3), (3, 1), (1, 4), (4, 6), (2, 4)]:
            for batch in [(), (1,), (2,), (2, 1), (3, 2)]:
                if ok_kind(k, *s) and (s[0] * s[1] < 16 or len(batch) < 2):
                    out.append(Case(f"one:{k}{s}{batch}".replace(" ", ""), one, dict(k=k, s=s, batch=batch)))
    for k, s in NESTED.items():
        for batch in [(), (1,), (2,)]:
            out.append(Case(f"one:{k}{s}{batch}".replace(" ", ""), one, dict(k=k, s=s, batch=batch)))
    i = 0
    for axis, shapes in [
        (-2, [(1, 2), (2, 2)]), (-2, [(2, 1, 2), (1, 2)]), (-2, [(1, 2), (2, 1, 2)]), (-2, [(2, 1, 2, 2), (3, 1, 2)]),
        (-1, [(2, 1), (2, 2)]), (-1, [(2, 2, 1), (2, 2)]), (-1, [(2, 1), (3, 1, 2, 2), (2, 2, 1)]),
        (0, [(2, 2), (3, 2)]), (1, [(2, 2), (2, 1)]), (0, [(1, 2, 2), (2, 2, 2)]), (1, [(2, 1, 2), (2, 2, 2)]), (2, [(2, 2), (1, 2, 1)]),
        (-3, [(1, 2, 2), (2, 2, 2)]), (-3, [(2, 2), (2, 2, 2)]), (-3, [(3, 1, 2, 2), (2, 2, 2)]), (0, [(1, 2, 2, 1), (2, 1, 2, 1)]), (-4, [(1, 2, 2, 1), (2, 1, 2, 1)]),
        (1, [(2, 1, 2, 1), (1, 2, 2, 1)]), (-2, [(1, 1)]), (-2, [(2, 3, 2), (1, 1, 2), (2, 2)]),
    ]:
        for reps in [(1, 1, 1), (2, 1, 3), (1, 3, 2)]:
            for kinds in [("num",) * 3, ("dense", "num", "dense"), ("dense", "const", "lr1"), ("lr1", "dense", "const")]:
                out.append(Case(f"tiled:{axis}:{shapes}:{reps}:{'-'.join(kinds)}".replace(" ", ""), tiled, dict(axis=axis, shapes=shapes, reps=reps[: len(shapes)], kinds=kinds)))
    for form in ["plain", "rep", "default"]:
        for axis in [-2, -1]:
            out.append(Case(f"tiled_ctor:{form}:{axis}", tiled_ctor, dict(form=form, axis=axis)))
    for k in ["zero", "dense", "diag", "const", "lt", "ut", "lr1", "lrx", "wb", "kron"]:
        for batch in [(), (2,)]:
            n = 4 if k == "kron" else 2
            out.append(Case(f"diag_from_mat:{k}:{batch}", diag_from_mat, dict(k=k, n=n, batch=batch)))
            out.append(Case(f"wrap:{k}:{batch}", wrap, dict(k=k, s=(n, n), batch=batch)))
    for which in ["l", "lr", "lm", "lrm", "ldm"]:
        for s in [2, 3]:
            for batch in [(), (2,), (2, 1)]:
                out.append(Case(f"lr_default:{which}:{s}:{batch}", lr_default, dict(s=s, batch=batch, which=which)))
    for cb in [(), (1,), (2,), (2, 1)]:
        for batch in [(), (2,), (3, 2) if cb != (2, 1) else (2, 3), (1, 2), (2, 2)]:
            out.append(Case(f"const_shape:{cb}:{batch}", const_shape, dict(cb=cb, batch=batch)))
    for ka in BASE:
        for kb in BASE:
            for batch in [(), (2,)]:
                out.append(Case(f"two_level:{ka}:{kb}:{batch}", two_level, dict(ka=ka, kb=kb, batch=batch)))
    for ka, kb, kc in itertools.product(["dense", "lt", "ut", "diag", "const", "zero"], ["dense", "diag", "lt", "const", "lr1"], ["dense", "ut", "diag", "const"]):
        for batch in [(), (2,)]:
            out.append(Case(f"lr_factors:{ka}:{kb}:{kc}:{batch}", lr_factors, dict(ka=ka, kb=kb, kc=kc, batch=batch)))
    for k in SIMPLE + LOW:
        for s in BIG + [(16, 16), (12, 18)]:
            if big_kind(k, s):
                out.append(Case(f"one:{k}{s}".replace(" ", ""), one, dict(k=k, s=s, batch=())))
        for batch in BIG_BATCHES:
            if k != "kronx":
                out.append(Case(f"one:{k}:{batch}".replace(" ", ""), one, dict(k=k, s=(2, 2), batch=batch)))
    return out
