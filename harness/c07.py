"""C07: diagonals and diagonals of products agree with the dense matrices."""
from .common import *

META = dict(
    level="other",
    explanation="Symbolic execution of the real `B.diag`, `B.diag_extract`, and "
    "`B.matmul_diag` methods on matrices whose entries are z3 reals; every entry of the "
    "result is proved equal to the entry of the diagonal of the dense (product of) matrices.",
    bounds="matrices up to 4 x 6, low-rank factors with at most two columns, batch shapes "
    "(), (1,), (2,), (2, 1), (3, 2) and mixtures, all transposition flags"
    "; in separate cases also sizes up to 12 (such as 5 x 5, 9 x 9, 6 x 9, 1 x 11), batches "
    "of up to four dimensions or of size five, and the same object given as both operands or "
    "as several parts of one",
    assumptions=[
        "real arithmetic instead of floating point",
        "columns of low-rank factors are equal or differ by more than the declared relative "
        "merging tolerance; C21 covers the tolerance",
    ],
)


def dref(x):
    n = min(x.shape[-2:])
    return np.stack([x[..., i, i] for i in range(n)], axis=-1)


def diag(mk, k, s, batch):
    a = make(mk, k, "a", *s, batch)
    mk.eq(B.diag(a.mat), dref(a.ref), "diag(a)")
    mk.eq(B.diag_extract(a.mat), dref(a.ref), "diag_extract(a)")
    mk.eq(a.mat.diagonal(), dref(a.ref), "a.diagonal()")
    mk.eq(B.diag(B.transpose(a.mat)), dref(a.ref), "diag(a^T)")


def nested(mk, ka, kb, sa, sb, ba, bb, what):
    a, b = make(mk, ka, "a", *sa, ba), make(mk, kb, "b", *sb, bb)
    if what == "kron":
        mat, ref = Kronecker(a.mat, b.mat), kron_ref(a.ref, b.ref)
    else:
        mat, ref = LowRank(a.mat, b.mat), mm(a.ref, T(b.ref))
    mk.eq(B.diag(mat), dref(ref), "diag(a)")


def product(mk, ka, kb, sa, sb, ba, bb, trs):
    a, b = make(mk, ka, "a", *sa, ba), make(mk, kb, "b", *sb, bb)
    for ta, tb in trs:
        ref = mm(T(a.ref) if ta else a.ref, T(b.ref) if tb else b.ref)
        mk.eq(B.matmul_diag(a.mat, b.mat, tr_a=ta, tr_b=tb), dref(ref), f"matmul_diag tr_a={ta} tr_b={tb}")


def same(mk, k, s, batch, view):
    """The same object, or a view or transpose of it, on both sides."""
    a = make(mk, k, "a", *s, batch)
    x = a.mat
    for ta, tb in ALL4:
        if s[0] != s[1] and ta == tb:
            continue
        y, r = (x, a.ref) if view == 0 else (B.transpose(x), T(a.ref))
        if view == 1 and s[0] != s[1]:
            tb = ta
        ref = mm(T(a.ref) if ta else a.ref, T(r) if tb else r)
        mk.eq(B.matmul_diag(x, y, tr_a=ta, tr_b=tb), dref(ref), f"matmul_diag tr_a={ta} tr_b={tb}")


SIMPLE = ["zero", "dense", "diag", "const", "constb", "lt", "ut", "kron", "kron2", "kronb", "krons", "kronx"]
LOW = ["lr1", "lr2", "lrs", "lrd", "lrx", "lrm", "wb", "wbb", "wbd", "lrn", "lrl", "wbn"]
BASE = ["dense", "diag", "const", "zero", "lt", "ut", "lr1", "wb"]
ALL4 = [(False, False), (True, False), (False, True), (True, True)]


def CASES(tier):
    th = tier == "thorough"
    out = []
    for k in SIMPLE + LOW:
        for s in [(1, 1), (2, 2), (3, 3), (4, 4), (2, 3), (3, 1), (1, 4), (4, 6), (2, 4), (6, 4), (9, 4), (4, 9)]:
            for batch in [(), (1,), (2,), (2, 1), (3, 2)]:
                if ok_kind(k, *s) and (s[0] * s[1] < 16 or len(batch) < 2):
                    out.append(Case(f"diag:{k}{s}{batch}".replace(" ", ""), diag, dict(k=k, s=s, batch=batch)))
    for k, s in NESTED.items():
        if k != "tiledc":
            for batch in [(), (1,), (2,)]:
                out.append(Case(f"diag:{k}{s}{batch}".replace(" ", ""), diag, dict(k=k, s=s, batch=batch)))
    for ka in BASE:
        for kb in BASE:
            for ba, bb in [((), ()), ((2,), ()), ((), (2,)), ((2, 1), (3,))]:
                for what in ["kron", "lr"]:
                    if what == "lr" and "wb" in (ka, kb):
                        continue
                    for sa, sb in [((2, 2), (2, 2)), ((2, 3), (3, 2)), ((1, 2), (2, 1)), ((3, 1), (1, 2)), ((2, 2), (1, 2)), ((2, 1), (3, 1))]:
                        if what == "lr" and sa[1] != sb[1]:
                            continue
                        if ok_kind(ka, *sa) and ok_kind(kb, *sb):
                            out.append(Case(f"nested:{what}:{ka}{sa}{ba}:{kb}{sb}{bb}".replace(" ", ""), nested, dict(ka=ka, kb=kb, sa=sa, sb=sb, ba=ba, bb=bb, what=what)))

    def go(ka, kb, sa, sb, ba, bb, trs=ALL4):
        if ok_kind(ka, *sa) and ok_kind(kb, *sb):
            id = f"product:{ka}{sa}{ba}:{kb}{sb}{bb}:{len(trs)}{int(trs[0][0])}{int(trs[0][1])}"
            out.append(Case(id.replace(" ", ""), product, dict(ka=ka, kb=kb, sa=sa, sb=sb, ba=ba, bb=bb, trs=trs), cost=2))

    for k in SIMPLE + LOW:
        for s in [(2, 2), (3, 3), (4, 4), (2, 3), (3, 1)]:
            for batch in [(), (2,)]:
                for view in [0, 1]:
                    if k == "kron2" or not ok_kind(k, *s) or k in LOW and s == (4, 4) or k in LOW and k[:2] == "wb" and s[0] > 2:
                        continue
                    out.append(Case(f"same:{k}{s}{batch}:{view}".replace(" ", ""), same, dict(k=k, s=s, batch=batch, view=view), cost=2))

    WB = {"wb", "wbb", "wbd", "wbn"}
    for ka in SIMPLE + LOW:
        for kb in SIMPLE + LOW:
            n = 4 if {ka[:4], kb[:4]} & {"kron"} else 2
            if ka[:4] == kb[:4] == "kron" and ka != kb:
                continue
            if {ka, kb} & {"kron2"} and kb != "dense" and ka != "dense":
                continue
            heavy = {ka, kb} & WB and (ka in LOW and kb in LOW) and not th
            bs = [((), ()), ((2,), ()), ((), (2,)), ((2, 1), (3,))]
            if n == 4 or (ka in LOW and kb in LOW):
                bs = bs[:1] if heavy else bs[:3] if th else bs[:2]
            for ba, bb in bs:
                go(ka, kb, (n, n), (n, n), ba, bb, ALL4 if th or not heavy else ALL4[:2])
            if n == 2 and not heavy:
                go(ka, kb, (2, 3), (3, 2), (), (), ALL4[:1])
                go(ka, kb, (3, 2), (2, 3), (2,), (), ALL4[:1])
                go(ka, kb, (3, 2), (3, 2), (), (2,), ALL4[1:2])
                go(ka, kb, (2, 3), (2, 3), (), (), ALL4[2:3])
                go(ka, kb, (3, 2), (2, 3), (), (), ALL4[3:])
    for k in SIMPLE + LOW:
        for s in BIG + [(16, 16), (12, 18)]:
            if big_kind(k, s):
                out.append(Case(f"diag:{k}{s}".replace(" ", ""), diag, dict(k=k, s=s, batch=())))
        for batch in BIG_BATCHES:
            if k != "kronx":
                out.append(Case(f"diag:{k}:{batch}".replace(" ", ""), diag, dict(k=k, s=(2, 2), batch=batch)))
        for l in BASE:
            for sa, sb in [((5, 5), (5, 5)), ((9, 8), (8, 9)), ((2, 9), (9, 2)), ((9, 1), (1, 9))]:
                if big_kind(k, sa) and big_kind(l, sb) and not (k in LOW and l in LOW):
                    go(k, l, sa, sb, (), (), ALL4[:1])
                    go(k, l, sa[::-1], sb[::-1], (), (), ALL4[3:])
            for ba, bb in BIG_PAIRS:
                if k[:4] != "kron" and not (k in LOW and l in LOW):
                    go(k, l, (2, 2), (2, 2), ba, bb, ALL4[:1])
    return list({c.id: c for c in out}.values())
