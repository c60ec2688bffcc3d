"""C02: element-wise multiplication and division agree with the dense matrices."""
from .common import *

META = dict(
    level="other",
    explanation="Symbolic execution of the real `B.multiply`/`B.divide` methods on operands "
    "whose entries are z3 reals; every entry of the densified result is proved equal to the "
    "entrywise product/quotient of the operands by z3, on every feasible path.",
    bounds="matrices up to 4 x 4, low-rank factors with at most two columns, batch shapes "
    "(), (1,), (2,), (2, 1), (3,) and mixtures, broadcasting from 1 x 1, 1 x n and n x 1"
    "; in separate cases also sizes up to 12 (such as 5 x 5, 9 x 9, 6 x 9, 1 x 11), batches "
    "of up to four dimensions or of size five, and the same object given as both operands or "
    "as several parts of one",
    assumptions=["real arithmetic instead of floating point", "divisors are nonzero"],
)


def mul(mk, ka, kb, sa, sb, ba, bb):
    a = make(mk, ka, "a", *sa, ba)
    b = make(mk, kb, "b", *sb, bb)
    mk.eq(B.multiply(a.mat, b.mat), a.ref * b.ref, "a * b")


def square(mk, k, n, batch):
    a = make(mk, k, "a", n, n, batch)
    mk.eq(a.mat * a.mat, a.ref * a.ref, "a * a")


def div(mk, ka, kb, sa, sb, ba, bb):
    a = make(mk, ka, "a", *sa, ba)
    b = make(mk, kb, "b", *sb, bb, nonzero=True)
    if kb in LOW:
        for x in b.ref.ravel():
            mk.assume(mk.ne(x, 0))
    mk.eq(B.divide(a.mat, b.mat), a.ref / b.ref, "a / b")


def chain(mk, ka, kb, kc, n, batch):
    a = make(mk, ka, "a", n, n, batch)
    b = make(mk, kb, "b", n, n)
    c = make(mk, kc, "c", n, n, batch)
    mk.eq((a.mat * b.mat) * c.mat, a.ref * b.ref * c.ref, "(a * b) * c")
    mk.eq(a.mat * (b.mat * c.mat), a.ref * b.ref * c.ref, "a * (b * c)")


SIMPLE = ["zero", "dense", "diag", "const", "constb", "lt", "ut", "kron", "krons", "kronx", "tiled"]
LOW = ["lr1", "lr2", "lrs", "lrd", "lrx", "lrm", "wb", "wbb", "wbd", "lrn", "lrl", "wbn"]
BATCHES = [((), ()), ((2,), ()), ((), (2,)), ((2,), (2,)), ((2, 1), (3,)), ((1,), (2,))]


def CASES(tier):
    th = tier == "thorough"
    out = []

    def go(f, ka, kb, sa, sb, ba, bb, **kw):
        if not (ok_kind(ka, *sa) and ok_kind(kb, *sb)):
            return
        ks = {ka, kb}
        # Neither diagonals of tiles nor broadcasting of tiles is offered.
        if "tiled" in ks and ks & {"diag", "zero", "wb", "wbb", "wbd", "wbn"}:
            return
        # Kronecker products are only multiplied if their factors align.
        if len(ks) == 2 and ks == {"kron", "krons"} and sa != (4, 4):
            return
        id = f"{f.__name__}:{ka}{sa}{ba}:{kb}{sb}{bb}".replace(" ", "")
        out.append(Case(id, f, dict(ka=ka, kb=kb, sa=sa, sb=sb, ba=ba, bb=bb), **kw))

    for ka in SIMPLE + LOW:
        for kb in SIMPLE + LOW:
            low = [k in LOW for k in (ka, kb)]
            n = 4 if {ka, kb} & {"kron", "krons", "kronx"} else 2
            bs = BATCHES if th or "dense" in (ka, kb) or ka == kb else BATCHES[:4]
            if all(low) and not th:
                bs = BATCHES[:1] if ka != kb else BATCHES[:3]
            for ba, bb in bs:
                if (n == 4 or any(low)) and (ba, bb) not in BATCHES[: 4 if th else 3]:
                    continue
                go(mul, ka, kb, (n, n), (n, n), ba, bb)
            if all(low) and not th:
                continue
            go(mul, ka, kb, (3, 3), (3, 3), (), ())
            for s in [(2, 3), (3, 2), (4, 2)]:
                go(mul, ka, kb, s, s, (), ())
    # Broadcasting of the matrix dimensions.
    for ka in ["zero", "dense", "const", "constb"]:
        for kb in ["zero", "dense", "const", "diag", "lt", "ut", "lr1", "wb", "krons", "kron"]:
            n = 4 if kb in ("krons", "kron") else 3
            for s in [(1, 1), (1, n), (n, 1)]:
                for ba, bb in [((), ()), ((2,), ()), ((), (2,))]:
                    go(mul, ka, kb, s, (n, n), ba, bb)
                    go(mul, kb, ka, (n, n), s, bb, ba)
    for ka in ["zero", "dense", "const", "lr1", "lt", "ut", "diag"]:
        for kb in ["zero", "dense", "const", "lr1", "lt", "ut"]:
            for sa, sb in [((1, 3), (2, 1)), ((2, 1), (1, 3)), ((1, 1), (3, 3)), ((1, 1), (2, 3)), ((3, 3), (1, 1))]:
                go(mul, ka, kb, sa, sb, (2,), ())
                go(mul, kb, ka, sb, sa, (), (2,))
    out = list({c.id: c for c in out}.values())
    for k in SIMPLE + LOW:
        if k == "tiled":
            continue
        for batch in [(), (2,)]:
            out.append(Case(f"square:{k}{batch}", square, dict(k=k, n=4 if k.startswith("kron") else 2, batch=batch)))
    for t in [("diag", "const", "dense"), ("const", "lr1", "diag"), ("lt", "ut", "const"), ("wb", "const", "diag"), ("lrs", "lr1", "const"), ("dense", "diag", "lt"), ("zero", "wb", "const")]:
        for batch in [(), (2,)]:
            out.append(Case("chain:" + "-".join(t) + f":{batch}", chain, dict(ka=t[0], kb=t[1], kc=t[2], n=2, batch=batch)))
    for ka in SIMPLE + LOW:
        for kb in ["dense", "num", "const", "constb", "kron", "lr1", "tiled"]:
            if kb == "tiled" or (kb == "kron" and "kron" in ka and ka != "kron"):
                continue
            n = 4 if {ka, kb} & {"kron", "krons", "kronx"} else 2
            for ba, bb in BATCHES[:4]:
                go(div, ka, kb, (n, n), (n, n), ba, bb)
            go(div, ka, kb, (2, 3), (2, 3), (), ())
            if kb in ("const", "dense", "constb", "num") and not (ka == "tiled" or n == 4):
                go(div, ka, kb, (2, 2), (1, 1), (2,), ())
                go(div, ka, kb, (2, 2), (1, 2), (), (2,))
    # Larger operands.
    for ka in SIMPLE + LOW:
        for kb in SIMPLE + LOW:
            low = [k in LOW for k in (ka, kb)]
            if "kronx" in (ka, kb):
                continue
            for s in BIG:
                if all(low) and s != (5, 5) and s != (6, 9):
                    continue
                if big_kind(ka, s) and big_kind(kb, s) and (th or s[0] != 8 or not low[0]) and not (ka[:4] == kb[:4] == "kron" and ka != kb):
                    go(mul, ka, kb, s, s, (), ())
                    if kb in ("const", "dense") and s[0] == 9:
                        go(div, ka, kb, s, s, (), ())
            for ba, bb in BIG_PAIRS:
                if ka in ("zero", "dense", "diag", "const", "lt", "lr1", "wb") and "kron" not in (ka + kb) and "tiled" not in (ka, kb) and not all(low):
                    go(mul, ka, kb, (2, 2), (2, 2), ba, bb)
    out = list({c.id: c for c in out}.values())
    return out
