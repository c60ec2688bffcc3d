"""C08: taking rows, columns, batch elements, and submatrices, and indexing."""
from .common import *

META = dict(
    level="other",
    explanation="Symbolic execution of the real `B.take`, `B.submatrix`, and `__getitem__` on "
    "matrices whose entries are z3 reals, for index lists (sorted, unsorted, repeated, "
    "negative, empty) and masks along every axis; every entry of the result (and of its "
    "transpose, so that claimed structure is exercised) is proved equal to the selection "
    "from the dense matrix by z3.",
    bounds="matrices up to 4 x 4, low-rank factors with at most two columns, batch shapes "
    "(), (2,), (3,), (2, 3); index vectors with up to four elements from the list in the harness, and all "
    "index vectors of up to two or three indices (also negative) and all masks for sizes up to three"
    "; in separate cases also sizes up to 12 (such as 5 x 5, 9 x 9, 6 x 9, 1 x 11), batches "
    "of up to four dimensions or of size five, and the same object given as both operands or "
    "as several parts of one",
    assumptions=["real arithmetic instead of floating point"],
)


def INDICES(n, tier="quick"):
    out = [("first", [0]), ("last", [-1]), ("all", list(range(n)))]
    if n >= 2:
        out += [("rev", list(range(n))[::-1]), ("dup", [0, n - 1, 0]), ("dup1", [n - 1] * n), ("neg", [-1, 0])]
        out += [("mask", [i != 0 for i in range(n)]), ("maskf", [i == 0 for i in range(n)])]
    if n >= 3:
        out += [("skip", [0, 2]), ("rot", [2, 0, 1]), ("unsorted", [2, 0]), ("mask2", [i != 1 for i in range(n)])]
    return out


FORMS = {"list": lambda x: list(x), "tuple": lambda x: tuple(x), "array": lambda x: np.array(x)}


def np_take(ref, idx, axis):
    idx = np.array(idx)
    idx = np.nonzero(idx)[0] if idx.dtype == bool else idx
    return np.take(ref, idx, axis=axis)


def check(mk, mat, ref, label):
    mk.eq(mat, ref, label)
    # The structure that the result claims has to be true, also further on.
    if isinstance(mat, AbstractMatrix):
        mk.eq(B.transpose(mat), T(ref), f"transpose({label})")
        x = np.arange(1, ref.shape[-1] + 1).reshape(-1, 1)
        mk.eq(B.matmul(mat, mk.const(x)), mm(ref, mk.const(x)), f"{label} @ x")


def structure_ok(mk, mat, label):
    """Triangular matrices really are triangular."""
    if isinstance(mat, (LowerTriangular, UpperTriangular)):
        x = mat.mat
        lower = isinstance(mat, LowerTriangular)
        for idx in np.ndindex(*x.shape):
            if (idx[-1] > idx[-2]) if lower else (idx[-1] < idx[-2]):
                mk.eq(np.asarray(x[idx]), np.asarray(mk.zeros()[()]), f"{label}: structural zero")


def take(mk, k, s, batch, axis, form):
    a = make(mk, k, "a", *s, batch)
    n = a.ref.shape[axis]
    for name, idx in INDICES(n):
        label = f"take(a, {name}, axis={axis})"
        res = B.take(a.mat, FORMS[form](idx), axis=axis) if axis is not None else B.take(a.mat, FORMS[form](idx))
        ref = np_take(a.ref, idx, axis)
        check(mk, res, ref, label)
        structure_ok(mk, res, label)


def take_default(mk, k, s, batch):
    """The default axis is that of the rows."""
    a = make(mk, k, "a", *s, batch)
    for name, idx in INDICES(s[0]):
        check(mk, B.take(a.mat, idx), np_take(a.ref, idx, -2), f"take(a, {name})")


def submatrix(mk, k, n, batch, form):
    a = make(mk, k, "a", n, n, batch)
    for name, idx in INDICES(n):
        label = f"submatrix(a, {name})"
        res = B.submatrix(a.mat, FORMS[form](idx))
        check(mk, res, np_take(np_take(a.ref, idx, -1), idx, -2), label)
        structure_ok(mk, res, label)


def all_selections(n, longest):
    """All index vectors up to a length, also with negative indices, and all masks."""
    for m in range(1, longest + 1):
        yield from (list(x) for x in itertools.product(range(-n, n), repeat=m))
    for m in itertools.product([True, False], repeat=n):
        if any(m):
            yield list(m)


def exhaustive(mk, k, s, batch, axis, longest):
    """Every selection; `axis` is `None` for submatrices."""
    a = make(mk, k, "a", *s, batch)
    for idx in all_selections(min(s) if axis is None else a.ref.shape[axis], longest):
        if axis is None:
            if s[0] != s[1] and isinstance(idx[0], bool):
                continue
            res = B.submatrix(a.mat, idx)
            ref = np_take(np_take(a.ref, idx, -1), idx, -2)
        else:
            res = B.take(a.mat, idx, axis=axis)
            ref = np_take(a.ref, idx, axis)
        label = f"selection {idx}, axis {axis}"
        mk.eq(res, ref, label)
        structure_ok(mk, res, label)
        if isinstance(res, (Diagonal, LowRank, Kronecker, Constant)):
            mk.eq(B.transpose(res), T(ref), f"transpose({label})")


def patterns(n):
    """Progressions, permutations, repetitions, and masks of longer axes."""
    for step in [1, 2, 3, -1, -2]:
        for start in range(n) if step in (1, -1) else range(0, n, 2):
            for length in range(1, n + 1):
                x = [start + step * i for i in range(length)]
                if 0 <= min(x) and max(x) < n:
                    yield x
                    yield [i - n for i in x] if length < 4 else x + [x[0]]
    for i in range(1, n):
        yield list(range(i, n)) + list(range(i))
        yield [i, i - 1, i]
        yield [j for j in range(n) if j != i]
        x = list(range(n))
        x[i], x[i - 1] = x[i - 1], x[i]
        yield x
    yield sorted(list(range(n)) * 2)
    yield [n - 1] * (n + 3)
    for i in range(n):
        for j in range(i, n):
            yield [k in (i, j) for k in range(n)]
            if n > 2:
                yield [k not in (i, j) for k in range(n)]
    yield [True] * n


def longer(mk, k, s, batch, axis):
    a = make(mk, k, "a", *s, batch)
    n = s[0] if axis is None else a.ref.shape[axis]
    for i, idx in enumerate(patterns(n)):
        idx = (list, tuple, np.array)[i % 3](idx)
        if axis is None:
            res, ref = B.submatrix(a.mat, idx), np_take(np_take(a.ref, idx, -1), idx, -2)
        else:
            res, ref = B.take(a.mat, idx, axis=axis), np_take(a.ref, idx, axis)
        label = f"selection {idx}, axis {axis}"
        mk.eq(res, ref, label)
        structure_ok(mk, res, label)
        if isinstance(res, AbstractMatrix):
            mk.eq(B.transpose(res), T(ref), f"transpose({label})")
        if isinstance(res, AbstractMatrix) and ref.shape[-1] == ref.shape[-2]:
            mk.eq(B.diag(res), np.einsum("...ii->...i", ref), f"diag({label})")


ITEMS = {
    "element": np.s_[1, -1],
    "element_neg": np.s_[-2, 0],
    "int64": np.s_[np.int64(1)],
    "array": np.s_[np.array([1, 0])],
    "cols": np.s_[..., [1, 0, 1]],
    "rows_mask": np.s_[[True, False]],
    "step": np.s_[::2, ::-1],
    "negstep": np.s_[-1::-1, -2:],
    "two_none": np.s_[None, ..., None],
    "full": np.s_[...],
    "empty": np.s_[:0],
    "int": np.s_[0],
    "neg": np.s_[-1],
    "slice": np.s_[:1],
    "rev": np.s_[::-1],
    "pair": np.s_[1, 0],
    "col": np.s_[:, 0],
    "ell": np.s_[..., -1],
    "ell2": np.s_[..., ::-1, 1:],
    "none": np.s_[None, :, 1],
    "list": np.s_[[1, 0, 0]],
    "grid": np.s_[[0, 1], [1, 0]],
}


def index(mk, k, s, batch):
    a = make(mk, k, "a", *s, batch)
    for name, item in ITEMS.items():
        if name == "rows_mask" and a.ref.shape[0] != 2:
            continue
        mk.eq(a.mat[item], a.ref[item], f"a[{name}]")


def submatrix_rect(mk, k, s, batch):
    """Submatrices of non-square matrices: the indices select both rows and columns."""
    a = make(mk, k, "a", *s, batch)
    for name, idx in INDICES(min(s)):
        if not name.startswith("mask"):
            label = f"submatrix(a, {name})"
            res = B.submatrix(a.mat, idx)
            check(mk, res, np_take(np_take(a.ref, idx, -1), idx, -2), label)
            structure_ok(mk, res, label)


def factors(mk, ka, kb, what, batch):
    """Nested structured factors."""
    a, b = make(mk, ka, "a", 2, 2, batch), make(mk, kb, "b", 2, 2, ())
    if what == "kron":
        mat, ref = Kronecker(a.mat, b.mat), kron_ref(a.ref, b.ref)
    elif what == "lr":
        mat, ref = LowRank(a.mat, b.mat), mm(a.ref, T(b.ref))
    elif what == "lrm":
        d = mk.real("d", 2)
        mat, ref = LowRank(a.mat, b.mat, Diagonal(d)), mm(a.ref, diag_embed(d, mk), T(b.ref))
    elif what == "wb":
        d = mk.real("d", *batch, 2)
        mat, ref = Woodbury(Diagonal(d), LowRank(a.mat, b.mat)), diag_embed(d, mk) + mm(a.ref, T(b.ref))
    for axis in range(-ref.ndim, ref.ndim):
        for name, idx in INDICES(ref.shape[axis]):
            if name in ("rev", "dup", "last", "mask", "rot"):
                check(mk, B.take(mat, idx, axis=axis), np_take(ref, idx, axis), f"take(a, {name}, axis={axis})")
    for name, idx in INDICES(ref.shape[-1]):
        check(mk, B.submatrix(mat, idx), np_take(np_take(ref, idx, -1), idx, -2), f"submatrix(a, {name})")


SIMPLE = ["zero", "dense", "diag", "const", "constb", "lt", "ut", "kron", "kron2", "kronb", "krons", "tiled"]
LOW = ["lr1", "lr2", "lrs", "lrd", "lrx", "lrm", "wb", "wbb", "wbd"]


def CASES(tier):
    out = []
    for k in SIMPLE + LOW:
        for s in [(1, 1), (2, 2), (3, 3), (4, 4), (2, 3), (3, 2), (4, 2)]:
            for batch in [(), (2,), (3,), (2, 3)]:
                if tier == "quick" and (s in [(3, 2), (4, 2)] and batch or batch == (3,) or s == (4, 4) and batch):
                    continue
                if tier == "quick" and batch == (2, 3) and s not in [(1, 1), (2, 2), (2, 3)]:
                    continue
                if not ok_kind(k, *s) or s[0] * s[1] * len(batch) > 18:
                    continue
                if k == "tiled" and s[0] == 1:
                    continue
                b = f"{k}{s}{batch}".replace(" ", "")
                nd = len(batch) + 2
                forms = ["list"] if s != (3, 3) or batch and tier == "quick" else list(FORMS)
                for form in forms:
                    for axis in range(-nd, nd):
                        if axis >= 0 and s not in [(2, 3), (3, 3)]:
                            continue
                        out.append(Case(f"take:{b}:{axis}:{form}", take, dict(k=k, s=s, batch=batch, axis=axis, form=form)))
                    if s[0] == s[1]:
                        out.append(Case(f"submatrix:{b}:{form}", submatrix, dict(k=k, n=s[0], batch=batch, form=form)))
                if s[0] != s[1]:
                    out.append(Case(f"submatrix_rect:{b}", submatrix_rect, dict(k=k, s=s, batch=batch)))
                out.append(Case(f"default:{b}", take_default, dict(k=k, s=s, batch=batch)))
                if s[0] > 1 and s[1] > 1:
                    out.append(Case(f"index:{b}", index, dict(k=k, s=s, batch=batch)))
    for k in SIMPLE + LOW + list(NESTED):
        for s in [(3, 3), (2, 3), (3, 2), (4, 4)] if k not in NESTED else [NESTED[k]]:
            if k not in NESTED and not ok_kind(k, *s) or s == (4, 4) and k[:4] != "kron" and tier == "quick":
                continue
            for batch in [(), (2,)]:
                if k == "tiledc" and batch:
                    continue
                for axis in [None, -2, -1] + ([-3] if batch else []):
                    if axis is None and s[0] != s[1] and k[:4] == "kron":
                        continue
                    longest = 3 if max(s) <= 3 and (not batch or axis == -3) else 2
                    out.append(Case(f"exhaustive:{k}{s}{batch}:{axis}".replace(" ", ""), exhaustive, dict(k=k, s=s, batch=batch, axis=axis, longest=longest), cost=5))
    base = ["dense", "diag", "const", "zero", "lt", "ut", "lr1"]
    for ka in base:
        for kb in base:
            for what in ["kron", "lr", "lrm", "wb"]:
                for batch in [(2,)] if tier == "quick" else [(), (2,)]:
                    out.append(Case(f"nested:{what}:{ka}:{kb}:{batch}", factors, dict(ka=ka, kb=kb, what=what, batch=batch)))
    for k in SIMPLE + LOW:
        for s in [(5, 5), (7, 7), (6, 4), (4, 6)]:
            if big_kind(k, s) or k[:4] == "kron" and s == (6, 4) and k != "krons":
                for axis in [None, -2, -1]:
                    if axis is not None or s[0] == s[1]:
                        out.append(Case(f"longer:{k}{s}:{axis}".replace(" ", ""), longer, dict(k=k, s=s, batch=(), axis=axis), cost=5))
        for batch in [(5,), (1, 6), (2, 2, 3)]:
            if k not in ("kronx", "tiled"):
                for axis in [-3, len(batch) - 1] + ([-4, 0] if len(batch) > 1 else []):
                    out.append(Case(f"longer:{k}{batch}:{axis}".replace(" ", ""), longer, dict(k=k, s=(1, 1), batch=batch, axis=axis), cost=2))
    return out
