"""C06: sums, means, and traces over any axis agree with the dense matrix."""
from .common import *

META = dict(
    level="other",
    explanation="Symbolic execution of the real `B.sum`, `B.mean`, and `B.trace` methods, over "
    "every axis (positive and negative), on matrices whose entries are z3 reals; every entry "
    "of the result is proved equal to the sum/mean/trace of the dense matrix by z3.",
    bounds="matrices up to 4 x 6, low-rank factors with at most two columns, batch shapes "
    "(), (1,), (2,), (2, 1), (3, 2), also different batch shapes of the parts of a matrix"
    "; in separate cases also sizes up to 12 (such as 5 x 5, 9 x 9, 6 x 9, 1 x 11), batches "
    "of up to four dimensions or of size five, and the same object given as both operands or "
    "as several parts of one",
    assumptions=["real arithmetic instead of floating point"],
)


def sums(mk, k, s, batch, f):
    a = make(mk, k, "a", *s, batch)
    nd = a.ref.ndim
    for axis in [None] + list(range(-nd, nd)):
        if f == "sum":
            ref = np.sum(a.ref, axis=axis)
            res = B.sum(a.mat, axis=axis) if axis is not None or k != "dense" else B.sum(a.mat)
        else:
            n = a.ref.size if axis is None else a.ref.shape[axis]
            ref = np.sum(a.ref, axis=axis) * mk.const(1) / n
            res = B.mean(a.mat, axis=axis) if axis is not None else B.mean(a.mat)
        mk.eq(res, ref, f"{f}(a, axis={axis})")


def nested(mk, ka, kb, ba, bb, what):
    """Kronecker products and low-rank matrices with structured factors."""
    a, b = make(mk, ka, "a", 2, 2, ba), make(mk, kb, "b", 2, 2, bb)
    if what == "kron":
        mat, ref = Kronecker(a.mat, b.mat), kron_ref(a.ref, b.ref)
    elif what == "lr":
        mat, ref = LowRank(a.mat, b.mat), mm(a.ref, T(b.ref))
    elif what == "lrm":
        d = mk.real("d", 2)
        mat, ref = LowRank(a.mat, b.mat, Diagonal(d)), mm(a.ref, diag_embed(d, mk), T(b.ref))
    elif what == "wb":
        d = mk.real("d", *ba, 2)
        mat, ref = Woodbury(Diagonal(d), LowRank(a.mat, b.mat)), diag_embed(d, mk) + mm(a.ref, T(b.ref))
    for axis in [None] + list(range(-ref.ndim, 0)) + [0]:
        mk.eq(B.sum(mat, axis=axis), np.sum(ref, axis=axis), f"sum(a, axis={axis})")
    mk.eq(B.trace(mat), np.einsum("...ii->...", ref), "trace(a)")


def trace(mk, k, n, batch):
    a = make(mk, k, "a", n, n, batch)
    mk.eq(B.trace(a.mat), np.einsum("...ii->...", a.ref), "trace(a)")


def trace_rect(mk, k, s, batch):
    a = make(mk, k, "a", *s, batch)
    ref = sum(a.ref[..., i, i] for i in range(min(s)))
    mk.eq(B.trace(a.mat), ref, "trace(a)")


SIMPLE = ["zero", "dense", "diag", "const", "constb", "lt", "ut", "kron", "kron2", "kronb", "krons", "kronx"]
LOW = ["lr1", "lr2", "lrs", "lrd", "lrx", "lrm", "wb", "wbb", "wbd", "lrn", "lrl", "wbn"]
BASE = ["dense", "diag", "const", "zero", "lt", "lr1", "wb"]


def CASES(tier):
    out = []
    for k in SIMPLE + LOW:
        for s in [(1, 1), (2, 2), (3, 3), (4, 4), (2, 3), (3, 1), (1, 4), (4, 6), (2, 4)]:
            for batch in [(), (1,), (2,), (2, 1), (3, 2)]:
                if ok_kind(k, *s) and (s[0] * s[1] < 16 or len(batch) < 2):
                    for f in ["sum", "mean"]:
                        if f == "mean" and s not in [(2, 3), (2, 2), (4, 4), (4, 6)]:
                            continue
                        out.append(Case(f"{f}:{k}{s}{batch}".replace(" ", ""), sums, dict(k=k, s=s, batch=batch, f=f)))
                    g = trace if s[0] == s[1] else trace_rect
                    kw = dict(n=s[0]) if s[0] == s[1] else dict(s=s)
                    out.append(Case(f"trace:{k}{s}{batch}".replace(" ", ""), g, dict(k=k, batch=batch, **kw)))
    for ka in BASE:
        for kb in BASE:
            for ba, bb in [((), ()), ((2,), ()), ((), (2,)), ((2, 1), (3,))]:
                for what in ["kron", "lr", "lrm", "wb"]:
                    if what != "kron" and ka == "wb" or kb == "wb" and what != "kron":
                        continue
                    out.append(Case(f"nested:{what}:{ka}{ba}:{kb}{bb}".replace(" ", ""), nested, dict(ka=ka, kb=kb, ba=ba, bb=bb, what=what)))
    for k in SIMPLE + LOW:
        for s in BIG + [(16, 16), (12, 18)]:
            if big_kind(k, s):
                out.append(Case(f"sum:{k}{s}".replace(" ", ""), sums, dict(k=k, s=s, batch=(), f="sum")))
                if s[0] == s[1]:
                    out.append(Case(f"trace:{k}{s}".replace(" ", ""), trace, dict(k=k, n=s[0], batch=())))
        for batch in BIG_BATCHES:
            if k != "kronx":
                out.append(Case(f"sum:{k}:{batch}".replace(" ", ""), sums, dict(k=k, s=(2, 2), batch=batch, f="sum")))
                out.append(Case(f"mean:{k}:{batch}".replace(" ", ""), sums, dict(k=k, s=(2, 2), batch=batch, f="mean")))
                out.append(Case(f"trace:{k}:{batch}".replace(" ", ""), trace, dict(k=k, n=2, batch=batch)))
    return out
