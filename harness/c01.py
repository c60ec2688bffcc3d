"""C01: addition and subtraction agree with the dense matrices they denote."""
from .common import *

META = dict(
    level="other",
    explanation="Symbolic execution of the real `B.add`/`B.subtract` methods on operands "
    "whose entries are z3 reals; the entries of the densified result are proved equal to "
    "the entrywise sum/difference of the operands by z3, on every feasible path.",
    bounds="matrices up to 4 x 4 (quick: mostly 2 x 2, 2 x 3 and 3 x 3), low-rank factors "
    "with at most two columns, batch shapes (), (1,), (2,), (2, 1), (3,) and mixtures"
    "; in separate cases also sizes up to 12 (such as 5 x 5, 9 x 9, 6 x 9, 1 x 11), batches "
    "of up to four dimensions or of size five, and the same object given as both operands or "
    "as several parts of one",
    assumptions=[
        "real arithmetic instead of floating point",
        "columns of low-rank factors (and joint middle entries) are equal or differ by "
        "more than the declared relative merging tolerance; C21 covers the tolerance",
    ],
)


def add(mk, ka, kb, sa, sb, ba, bb, op="add"):
    a = make(mk, ka, "a", *sa, ba)
    b = make(mk, kb, "b", *sb, bb)
    if op == "add":
        mk.eq(B.add(a.mat, b.mat), a.ref + b.ref, "a + b")
    elif op == "sub":
        mk.eq(B.subtract(a.mat, b.mat), a.ref - b.ref, "a - b")
    elif op == "ops":
        mk.eq(a.mat + b.mat, a.ref + b.ref, "a + b")
        mk.eq(a.mat - b.mat, a.ref - b.ref, "a - b")


def self_ops(mk, k, n, batch):
    """Operands that share factors: `a + a`, `a - a`, `(a + b) - b`."""
    a = make(mk, k, "a", n, n, batch)
    mk.eq(a.mat + a.mat, a.ref + a.ref, "a + a")
    mk.eq(a.mat - a.mat, a.ref - a.ref, "a - a")


def chain(mk, ka, kb, kc, n, batch):
    a = make(mk, ka, "a", n, n, batch)
    b = make(mk, kb, "b", n, n)
    c = make(mk, kc, "c", n, n, batch)
    mk.eq((a.mat + b.mat) + c.mat, a.ref + b.ref + c.ref, "(a + b) + c")
    mk.eq(a.mat - (b.mat + c.mat), a.ref - b.ref - c.ref, "a - (b + c)")


SIMPLE = ["zero", "dense", "diag", "const", "constb", "lt", "ut", "kron", "krons", "kronx", "tiled"]
LOW = ["lr1", "lrs", "lrd", "lrx", "lrm", "wb", "wbb", "wbd", "lrn", "lrl", "wbn"]
MERGES = {"const", "constb"}  # Convert to low-rank matrices when added to these.
BATCHES = [((), ()), ((2,), ()), ((), (2,)), ((2,), (2,)), ((2, 1), (3,)), ((1,), (2,))]


def CASES(tier):
    th = tier == "thorough"
    out = []

    def go(ka, kb, sa, sb, ba, bb, op="add", **kw):
        if not (ok_kind(ka, *sa) and ok_kind(kb, *sb)):
            return
        if kb == "tiled" and op != "add":  # Negation of tiles is not offered.
            return
        if {ka, kb} == {"zero", "tiled"} and ba != bb:  # Nor is broadcasting of tiles.
            return
        out.append(
            Case(f"{op}:{ka}{sa}{ba}:{kb}{sb}{bb}".replace(" ", ""), add,
                 dict(ka=ka, kb=kb, sa=sa, sb=sb, ba=ba, bb=bb, op=op), **kw)
        )

    # All pairs of types that do not need the alignment of low-rank factors.
    for ka in SIMPLE + LOW:
        for kb in SIMPLE + LOW:
            low = [k in LOW for k in (ka, kb)]
            if all(low) or (any(low) and (ka in MERGES or kb in MERGES)):
                continue
            n = 4 if {ka, kb} & {"kron", "krons", "kronx"} else 2
            bs = BATCHES if th or "dense" in (ka, kb) or ka == kb else BATCHES[:4]
            for ba, bb in bs:
                if (n == 4 or any(low)) and (ba, bb) not in BATCHES[: 4 if th else 3]:
                    continue
                go(ka, kb, (n, n), (n, n), ba, bb)
            go(ka, kb, (n, n), (n, n), (2,), (), op="sub")
            go(ka, kb, (3, 3), (3, 3), (), ())
            for s in [(2, 3), (3, 2), (4, 2)]:
                go(ka, kb, s, s, (), ())
                go(ka, kb, s, s, (), (2,), op="sub")
    # Broadcasting of the matrix dimensions.
    for ka in ["zero", "dense", "const", "constb"]:
        for kb in ["zero", "dense", "const", "diag", "lt", "ut", "lr1", "wb", "krons"]:
            if kb in LOW and ka in MERGES:  # See below.
                continue
            n = 4 if kb == "krons" else 3
            for s in [(1, 1), (1, n), (n, 1)]:
                for ba, bb in [((), ()), ((2,), ()), ((), (2,))]:
                    go(ka, kb, s, (n, n), ba, bb, op="ops")
                    go(kb, ka, (n, n), s, bb, ba)
    for ka in ["zero", "dense", "const"]:
        for kb in ["zero", "dense", "const"]:
            go(ka, kb, (1, 3), (2, 1), (2,), (), op="ops")
    for ka in ["zero", "dense", "const", "lr1", "lt", "ut", "diag", "wb"]:
        for kb in ["zero", "dense", "const", "lr1", "lt", "ut", "diag"]:
            if {ka, kb} <= {"const", "lr1", "wb"} and {ka, kb} != {"const"}:
                continue
            for sa, sb in [((1, 3), (2, 1)), ((2, 1), (1, 3)), ((1, 1), (3, 3)), ((1, 1), (2, 3)), ((3, 3), (1, 1))]:
                go(ka, kb, sa, sb, (2,), ())
                go(kb, ka, sb, sa, (), (2,), op="sub")
    out = list({c.id: c for c in out}.values())
    # Low-rank and Woodbury matrices, whose factors are aligned.
    pairs = [(a, b) for a in ("const", "constb") for b in LOW]
    pairs += [("lr1", "lr1"), ("lrs", "lrs"), ("lrs", "lr1"), ("lrm", "lr1"), ("lr1", "lrm")]
    pairs += [("wb", "lrs"), ("wb", "wb"), ("lrs", "wbb"), ("wbb", "wbb"), ("wbb", "wb"), ("lrx", "lrs")]
    for ka, kb in pairs:
        slow = {ka, kb} & {"lrd", "lrx", "lrm", "wbd", "lrl"}
        bs = [((), ()), ((2,), ()), ((), (2,)), ((2,), (2,))]
        if not th:
            bs = [] if slow and ka != "const" else bs[:1] if slow else bs[:3:2]
        for ba, bb in bs:
            go(ka, kb, (2, 2), (2, 2), ba, bb, cost=5, budget_s=120, max_paths=3000)
        if not slow and th:
            go(kb, ka, (2, 2), (2, 2), (2,), (), op="sub", cost=5, budget_s=60)
            go(ka, kb, (3, 2), (3, 2), (), (), cost=5, budget_s=60)
    for kb in ["lr1", "lrs"]:
        for s in [(1, 1), (1, 3)]:
            go("const", kb, s, (3, 3), (), (), cost=5)
            go(kb, "const", (3, 3), s, (2,), (), cost=5, op="sub" if s[1] == 1 else "add")
    for k in ["diag", "const", "lt", "lrs", "lr1", "wb", "krons", "zero", "dense", "kronx", "lrn"]:
        for batch in [(), (2,)]:
            out.append(Case(f"self:{k}{batch}", self_ops, dict(k=k, n=4 if k[:4] == "kron" else 2, batch=batch), cost=4, budget_s=60))
    for t in [("diag", "const", "diag"), ("diag", "lrs", "diag"), ("const", "diag", "const"), ("lt", "diag", "ut"), ("zero", "wb", "diag"), ("diag", "dense", "lt"), ("dense", "const", "zero")]:
        for batch in [(), (2,)]:
            out.append(Case("chain:" + "-".join(t) + f":{batch}", chain, dict(ka=t[0], kb=t[1], kc=t[2], n=2, batch=batch), cost=6, budget_s=60))
    # Larger operands.
    for ka in SIMPLE + LOW:
        for kb in SIMPLE + LOW:
            low = [k in LOW for k in (ka, kb)]
            if all(low) or (any(low) and (ka in MERGES or kb in MERGES)) or "kronx" in (ka, kb):
                continue
            for s in BIG:
                if big_kind(ka, s) and big_kind(kb, s) and (th or s[0] != 8 or not low[0]):
                    go(ka, kb, s, s, (), (), op="add" if ka > kb else "sub")
            for ba, bb in BIG_PAIRS:
                s = (2, 2) if "kron" not in ka[:4] + kb[:4] else (4, 4)
                if ka in ("zero", "dense", "diag", "const", "lt", "lr1", "wb") and s == (2, 2) and "tiled" not in (ka, kb):
                    go(ka, kb, s, s, ba, bb, op="add" if ka > kb else "sub")
    return out
