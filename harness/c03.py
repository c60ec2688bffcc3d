"""C03: matrix products agree with the dense matrices, for all types and transpositions."""
from .common import *

META = dict(
    level="other",
    explanation="Symbolic execution of the real `B.matmul`/`B.mm` methods, with all "
    "transposition flags, on operands whose entries are z3 reals; every entry of the "
    "densified result is proved equal to the entry of the reference product by z3.",
    bounds="matrices up to 4 x 4, low-rank factors with at most two columns, batch shapes "
    "(), (1,), (2,), (2, 1), (3,) and mixtures, products of two and three factors"
    "; in separate cases also sizes up to 12 (such as 5 x 5, 9 x 9, 6 x 9, 1 x 11), batches "
    "of up to four dimensions or of size five, and the same object given as both operands or "
    "as several parts of one",
    assumptions=[
        "real arithmetic instead of floating point",
        "columns of low-rank factors are equal or differ by more than the declared relative "
        "merging tolerance; C21 covers the tolerance",
    ],
)

SIMPLE = ["zero", "dense", "diag", "const", "constb", "lt", "ut", "kron", "krons", "kronx"]
LOW = ["lr1", "lr2", "lrs", "lrd", "lrx", "lrm", "wb", "wbb", "wbd", "lrn", "lrl", "wbn"]
BATCHES = [((), ()), ((2,), ()), ((), (2,)), ((2,), (2,)), ((2, 1), (3,)), ((1,), (2,))]


def two(mk, ka, kb, sa, sb, ba, bb, tr):
    a = make(mk, ka, "a", *sa, ba)
    b = make(mk, kb, "b", *sb, bb)
    for ta, tb in tr:
        ref = mm(T(a.ref) if ta else a.ref, T(b.ref) if tb else b.ref)
        mk.eq(B.matmul(a.mat, b.mat, tr_a=ta, tr_b=tb), ref, f"matmul tr_a={ta} tr_b={tb}")


def selfs(mk, k, n, batch):
    a = make(mk, k, "a", n, n, batch)
    mk.eq(a.mat @ a.mat, mm(a.ref, a.ref), "a @ a")
    mk.eq(a.mat.T @ a.mat, mm(T(a.ref), a.ref), "a^T @ a")
    mk.eq(B.matmul(a.mat, a.mat, tr_b=True), mm(a.ref, T(a.ref)), "a @ a^T")


def three(mk, ks, shapes, batches, trs, names="abc"):
    made = {}
    for k, n, s, b in zip(ks, names, shapes, batches):
        if n not in made:
            made[n] = make(mk, k, n, *s, b)
    # Equal names are the same object.
    os = [made[n] for n in names]
    for tr in trs:
        refs = [T(o.ref) if t else o.ref for o, t in zip(os, tr)]
        kw = dict(zip(("tr_a", "tr_b", "tr_c"), tr))
        mk.eq(B.mm(*(o.mat for o in os), **kw), mm(*refs), f"mm {kw}")


def ops(mk, ka, kb, batch):
    a = make(mk, ka, "a", 2, 3, batch)
    b = make(mk, kb, "b", 3, 2)
    mk.eq(B.matmul(a.mat, b.mat), mm(a.ref, b.ref), "a @ b")
    mk.eq(B.matmul(b.mat, a.mat), mm(b.ref, a.ref), "b @ a")


ALL4 = [(False, False), (True, False), (False, True), (True, True)]


def CASES(tier):
    th = tier == "thorough"
    out = []

    def go(ka, kb, sa, sb, ba, bb, tr=ALL4, **kw):
        if not (ok_kind(ka, *sa) and ok_kind(kb, *sb)):
            return
        id = f"two:{ka}{sa}{ba}:{kb}{sb}{bb}:{''.join(str(int(x)) + str(int(y)) for x, y in tr)}"
        out.append(Case(id.replace(" ", ""), two, dict(ka=ka, kb=kb, sa=sa, sb=sb, ba=ba, bb=bb, tr=tr), **kw))

    WB = {"wb", "wbb", "wbd", "wbn"}
    for ka in SIMPLE + LOW:
        for kb in SIMPLE + LOW:
            n = 4 if {ka, kb} & {"kron", "krons", "kronx"} else 2
            low = [k in LOW for k in (ka, kb)]
            # Products that involve the addition of low-rank matrices.
            heavy = (ka in WB and kb in LOW + ["const", "constb"]) or (kb in WB and ka in LOW + ["const", "constb"])
            heavy = heavy or (ka in WB and kb in WB)
            if heavy:
                if not th and not ({ka, kb} <= {"wb", "const", "lrs"} or (ka == kb == "wbb")):
                    continue
                trs = ALL4 if th else [(False, False), (True, True)]
                for tr in trs:
                    go(ka, kb, (n, n), (n, n), (), (), [tr], cost=8, budget_s=60)
                if th:
                    go(ka, kb, (n, n), (n, n), (2,), (), ALL4[:1], cost=8, budget_s=60)
                continue
            bs = BATCHES if th or "dense" in (ka, kb) or ka == kb else BATCHES[:4]
            if all(low) or n == 4:
                bs = bs[: 3 if th else 2]
            for ba, bb in bs:
                go(ka, kb, (n, n), (n, n), ba, bb, cost=3)
            if th or not all(low):
                go(ka, kb, (3, 3), (3, 3), (), (), ALL4[:1])
            for sa, sb in [((2, 3), (3, 2)), ((1, 2), (2, 3)), ((3, 2), (2, 2)), ((2, 4), (4, 2))]:
                go(ka, kb, sa, sb, (), (2,) if sa == (2, 3) else (), ALL4[:1])
                if th or sa == (2, 3):
                    go(ka, kb, sa[::-1], sb, (), (), ALL4[1:2])
                    go(ka, kb, sa, sb[::-1], (), (), ALL4[2:3])
                    go(ka, kb, sa[::-1], sb[::-1], (2,), (), ALL4[3:])
    for k in ["kron", "kron2"]:
        go(k, "dense", (4, 2), (2, 3), (2,), (), ALL4[:1])
        go(k, "dense", (6, 4), (4, 1), (), (), ALL4[:1])
        go("dense", k, (3, 4), (4, 6), (), (2,), ALL4[:1])
        go(k, "dense", (6, 4), (6, 2), (), (), ALL4[1:2])
        go(k, "lr1", (4, 6), (6, 2), (), (), ALL4[:1])
        go("kron", "kron", (4, 6), (6, 4), (), (), ALL4[:1])
    out = list({c.id: c for c in out}.values())
    for k in SIMPLE + LOW:
        if k in WB and not th:
            continue
        for batch in [(), (2,)] if k not in WB else [()]:
            out.append(Case(f"self:{k}{batch}", selfs, dict(k=k, n=4 if k.startswith("kron") else 2, batch=batch), cost=4, budget_s=60))
    for ka in ["num", "dense", "const", "zero", "lr1"]:
        for kb in ["num", "dense", "const", "zero", "lr1"]:
            if ka != "num" or kb != "num":
                out.append(Case(f"ops:{ka}:{kb}", ops, dict(ka=ka, kb=kb, batch=(2,))))
    tr8 = list(itertools.product([False, True], repeat=3))
    sq = (2, 2)
    for ks in [("dense",) * 3, ("lr1", "dense", "lr1"), ("diag", "lt", "ut"), ("const", "dense", "diag"), ("ut", "lr1", "dense"), ("zero", "dense", "lt"), ("dense", "diag", "dense"), ("num", "dense", "num"), ("const", "lt", "const")]:
        for bs in [((), (), ()), ((2,), (), (2,)), ((), (2,), ())]:
            out.append(Case(f"three:{'-'.join(ks)}:{bs}", three, dict(ks=ks, shapes=(sq,) * 3, batches=bs, trs=tr8 if "num" != ks[0] else tr8), cost=2))
    # The same object more than once, in both association orders.
    for k, o in [("dense", "dense"), ("num", "dense"), ("dense", "num"), ("const", "dense"), ("dense", "const"), ("lr1", "dense"), ("lrx", "lt"), ("diag", "dense"), ("ut", "num"), ("kron", "dense")]:
        for names in ["abb", "aab", "aba", "aaa"]:
            for fits in [0, 1, 2]:
                for trs in tr8:
                    # The sizes that a product of this form needs: every object is `r` x `c`.
                    dims = {"a": [2, 3], "b": [3, 2]} if fits == 0 else {"a": [1, 3], "b": [3, 3]} if fits == 1 else {"a": [3, 3], "b": [3, 1]}
                    sh = [tuple(dims[n]) for n in names]
                    eff = [x[::-1] if t else x for x, t in zip(sh, trs)]
                    if eff[0][1] != eff[1][0] or eff[1][1] != eff[2][0]:
                        continue
                    ks = tuple(k if n == "a" else o for n in names)
                    if not all(ok_kind(x, *y) for x, y in zip(ks, sh)) or set(ks) == {"num"}:
                        continue
                    out.append(Case(f"again:{'-'.join(ks)}:{names}:{fits}:{[int(t) for t in trs]}", three, dict(ks=ks, shapes=sh, batches=((2,),) * 3, trs=[trs], names=names)))
    # Both association orders.
    for ks in [("dense",) * 3, ("lr1", "dense", "dense"), ("const", "dense", "lr1"), ("dense", "const", "dense")]:
        for shapes in [((1, 3), (3, 2), (2, 3)), ((3, 1), (1, 3), (3, 1)), ((3, 2), (2, 3), (3, 1)), ((2, 1), (1, 3), (3, 3)), ((1, 4), (4, 1), (1, 4))]:
            for tr in tr8 if th else [tr8[0], tr8[3], tr8[5], tr8[6], tr8[7]]:
                sh = tuple(s[::-1] if t else s for s, t in zip(shapes, tr))
                out.append(Case(f"assoc:{'-'.join(ks)}:{shapes}:{[int(t) for t in tr]}", three, dict(ks=ks, shapes=sh, batches=((), (2,), ()), trs=[tr])))
    # Larger operands.
    for ka in SIMPLE + LOW:
        for kb in SIMPLE + LOW:
            if "kronx" in (ka, kb) or {ka, kb} & WB and ({ka, kb} & {"const", "constb"} or ka in LOW and kb in LOW):
                continue
            for sa, sb in [((5, 5), (5, 5)), ((8, 8), (8, 8)), ((7, 5), (5, 6)), ((6, 9), (9, 4)), ((2, 9), (9, 1)), ((1, 8), (8, 8)), ((9, 9), (9, 2))]:
                if big_kind(ka, sa) and big_kind(kb, sb) and not ("kron" == ka[:4] == kb[:4]) and (th or sa[0] != 8 or not (ka in LOW and kb in LOW)):
                    go(ka, kb, sa, sb, (), (), [(False, False)])
                    if th or sa != (8, 8):
                        go(ka, kb, sa[::-1], sb[::-1], (), (), [(True, True)])
            for ba, bb in BIG_PAIRS:
                if ka in ("zero", "dense", "diag", "const", "lt", "lr1") and "kron" not in (ka + kb):
                    go(ka, kb, (2, 2), (2, 2), ba, bb, [(False, False)])
    for c in out:
        c.id = c.id.replace(" ", "")
    return list({c.id: c for c in out}.values())
