"""C21: low-rank terms merge and cancel exactly when they are equal, at any scale."""
from .c20 import again, claims
from .common import *

META = dict(
    level="other",
    explanation="Symbolic execution of the real `add`, `subtract`, and `align` on low-rank, constant, "
    "and Woodbury matrices whose entries are z3 reals. Sequences of additions and subtractions are run "
    "and z3 proves for every path that each intermediate result is exact, that its rank is the number "
    "of different columns, and that the low-rank part is dropped once all terms are subtracted again. "
    "The tolerance is not idealised in the cases `tolerance` and `scale`: z3 proves a bound on the "
    "error for all reals, and that decisions are the same when all entries are scaled.",
    bounds="sizes one to three, ranks one to three, sequences of up to four additions and "
    "subtractions, batches (), (2,), (2, 1), (2, 2)",
    assumptions=[
        "real arithmetic instead of floating point",
        "for the rank and for cancellation: the columns of a factor have different lengths in the "
        "first batch element (the algorithm sorts by length), and are equal or differ by more than the tolerance",
    ],
)


def sq(u):
    return sum(x * x for x in u)


def columns(mk, n, k, batch, names="uvw"):
    """Columns of increasing length in the first batch element."""
    cols = [mk.real(names[i], *batch, n) for i in range(k)]
    first = [c[(0,) * len(batch)] for c in cols]
    for i in range(k):
        mk.assume(mk.gt(sq(first[i]), sq(first[i - 1]) if i else 0))
    return cols


def rank_of(x):
    if isinstance(x, Woodbury):
        return x.lr.rank
    return x.rank if isinstance(x, LowRank) else 0


def term(mk, kind, name, cols, batch=()):
    """A low-rank term with given columns: the term, its dense form, and the columns."""
    c = lambda *inds: np.stack([cols[i] for i in inds], axis=-1)
    n = cols[0].shape[-1]
    if kind in ("u", "v", "w"):
        i = "uvw".index(kind)
        m = mk.real(name, *batch, 1, nonzero=True)
        left = c(i)
        return LowRank(left, left, Diagonal(m)), mm(left, diag_embed(m, mk), T(left)), {i}
    if kind in ("uv", "vu", "uw", "vw", "wuv"):
        inds = ["uvw".index(k) for k in kind]
        m = mk.real(name, *batch, len(inds), len(inds))
        for e in np.ravel(m):
            mk.assume(mk.ne(e, 0))
        left = c(*inds)
        return LowRank(left, left, Dense(m)), mm(left, m, T(left)), set(inds)
    if kind in ("u1", "v1"):  # The middle factor is omitted.
        left = c("uvw".index(kind[0]))
        return LowRank(left), mm(left, T(left)), {"uvw".index(kind[0])}
    if kind in ("u|v", "v|w", "u|w"):  # Different factors on the left and right
        i, j = "uvw".index(kind[0]), "uvw".index(kind[2])
        m = mk.real(name, *batch, 1, nonzero=True)
        return LowRank(c(i), c(j), Diagonal(m)), mm(c(i), diag_embed(m, mk), T(c(j))), None
    if kind == "c":
        k = mk.scalar(name, nonzero=True)
        return Constant(k, n, n), full((n, n), k, mk), {"one"}
    raise ValueError(kind)


def starting(mk, start, n, batch):
    if start == "diag":
        d = mk.real("d", *batch, n)
        return Diagonal(d), diag_embed(d, mk)
    if start == "lt":
        x = mask_tri(mk.real("d", *batch, n, n), True, mk)
        return LowerTriangular(x), x
    return None, mk.zeros(*batch, n, n)


def sequence(mk, start, n, kinds, ops, batch=(), term_batch=(), negated=False):
    """Add and subtract terms. Operations are indices of terms, with a sign."""
    ncols = 1 + max(["uvw".index(x) for k in kinds for x in k if x in "uvw"], default=0)
    cols = columns(mk, n, ncols, batch)
    if any(k == "c" for k in kinds):
        # Constants have a column of ones.
        for c in cols:
            mk.assume(mk.ne(sq(c), n))
    terms = [term(mk, k, f"m{i}", cols, term_batch) for i, k in enumerate(kinds)]
    x, ref = starting(mk, start, n, batch)
    base = x
    seen, live = set(), [0] * len(kinds)
    for step, (sign, i) in enumerate(ops):
        t, tref, tcols = terms[i]
        if x is None:
            assert sign > 0
            x = t
        elif negated:
            x = B.add(x, t if sign > 0 else B.negative(t))
        else:
            x = (B.add if sign > 0 else B.subtract)(x, t)
        ref = ref + tref if sign > 0 else ref - tref
        live[i] += sign
        seen |= tcols if tcols is not None else set()
        label = f"after step {step + 1}"
        mk.eq(again(mk, x), ref, label)
        if not any(live):
            seen = set()
            if base is None:
                mk.true(isinstance(x, Zero), f"everything cancels {label}, but {type(x).__name__}")
            else:
                mk.true(type(x) is type(base), f"the original representation is back {label}, but {type(x).__name__}")
        elif tcols is not None:
            bound = len(seen)
            mk.true(rank_of(x) <= bound if not isinstance(x, Constant) else True, f"rank {rank_of(x)} {label} instead of {bound}")


def difference(mk, n, k, batch, mode):
    """A Woodbury matrix or low-rank matrix minus its own low-rank part."""
    left = mk.real("l", *batch, n, k)
    right = left if mode == "sym" else mk.real("r", *batch, n, k)
    # With many entries, leave out that some of them are zero.
    mid = mk.real("m", *batch, k, k, nonzero=bool(k > 1 and batch) or k > 2)
    d = mk.real("d", *batch, n)
    lr = LowRank(left, right, mid)
    wb = B.add(Diagonal(d), lr)
    x = B.subtract(wb, lr)
    mk.true(isinstance(x, Diagonal), f"Woodbury matrix minus its low-rank part is {type(x).__name__}")
    mk.eq(again(mk, x), diag_embed(d, mk), "Woodbury matrix minus its low-rank part")
    x = B.subtract(lr, lr)
    mk.true(isinstance(x, Zero), f"low-rank matrix minus itself is {type(x).__name__}")
    mk.eq(again(mk, x), mk.zeros(*batch, n, n), "low-rank matrix minus itself")
    x = B.add(lr, lr)
    mk.true(rank_of(x) in ((0, k) if k else (0,)), f"rank of the sum with itself is {rank_of(x)}")
    mk.eq(again(mk, x), again(mk, lr) * 2, "low-rank matrix plus itself")
    x = B.subtract(wb, Diagonal(d))
    mk.eq(again(mk, x), again(mk, lr), "Woodbury matrix minus its diagonal part")


def batched(mk, n, batch, differ):
    """Columns that are equal in some batch elements only are not merged."""
    u = mk.real("u", *batch, n)
    v = np.array(u)
    for idx in differ:
        w = mk.real("w" + "".join(map(str, idx)), n)
        v[idx] = w
        mk.assume(mk.any(*[mk.ne(a, b) for a, b in zip(w, u[idx])]))
    m = mk.scalar("m", nonzero=True)
    a = LowRank(u[..., None], u[..., None], Diagonal(np.reshape(m, (1,))))
    b = LowRank(v[..., None], v[..., None], Diagonal(np.reshape(m, (1,))))
    x = B.subtract(a, b)
    mk.eq(again(mk, x), again(mk, a) - again(mk, b), "difference")
    mk.true(isinstance(x, LowRank), f"the difference is {type(x).__name__}")
    x = B.add(a, b)
    mk.eq(again(mk, x), again(mk, a) + again(mk, b), "sum")
    mk.true(rank_of(x) == 2, f"the rank of the sum is {rank_of(x)}")


def readme(mk, n, batch, const):
    d = mk.real("d", *batch, n, pos=True)
    k = mk.scalar("k", pos=True) if const == "symbolic" else const
    x = B.add(B.multiply(2, Diagonal(d)), k)
    mk.true(isinstance(x, Woodbury), f"2 * d + 1 is {type(x).__name__}")
    y = B.inv(x)
    mk.true(isinstance(y, Woodbury) and y.lr.rank == 1, f"inv(2 * d + 1) is {type(y).__name__}")
    z = B.inv(y)
    mk.true(isinstance(z, Woodbury) and z.lr.rank == 1, f"inv(inv(2 * d + 1)) is {type(z).__name__}")
    w = B.subtract(z, k)
    mk.eq(again(mk, w), diag_embed(2 * d, mk), "inv(inv(2 * d + 1)) - 1")
    mk.true(isinstance(w, Diagonal), f"inv(inv(2 * d + 1)) - 1 is {type(w).__name__}")


def tolerance(mk, n, sub, equal_mid):
    """For all reals: what is lost is small relative to the operands."""
    u, v = mk.real("u", n), mk.real("v", n)
    ma = mk.scalar("m")
    mb = ma if equal_mid else mk.scalar("k")
    a = LowRank(u[:, None], u[:, None], Diagonal(np.reshape(ma, (1,))))
    b = LowRank(v[:, None], v[:, None], Diagonal(np.reshape(mb, (1,))))
    x = again(mk, (B.subtract if sub else B.add)(a, b))
    exact = again(mk, a) - again(mk, b) if sub else again(mk, a) + again(mk, b)
    scale = (np.abs(ma) + np.abs(mb)) * (sq(u) + sq(v))
    bound = scale / mk.const(10000)[()]
    for i, j in np.ndindex(n, n):
        mk.true(mk.ge(bound, np.abs(x[i, j] - exact[i, j])), f"error of entry {i}, {j}")


def scaled(mk, n, what):
    """Decisions do not depend on the scale."""
    u, v = mk.real("u", n), mk.real("v", n)
    m, k = mk.scalar("m"), mk.scalar("k")
    s = mk.scalar("s", pos=True)

    def ranks(su, sm):
        one = np.reshape
        a = LowRank((u * su)[:, None], (u * su)[:, None], Diagonal(one(m * sm, (1,))))
        if what == "columns":
            b = LowRank((v * su)[:, None], (v * su)[:, None], Diagonal(one(m * sm, (1,))))
        else:
            b = LowRank((u * su)[:, None], (u * su)[:, None], Diagonal(one(k * sm, (1,))))
        x = B.add(a, b)
        return type(x).__name__, rank_of(x)

    ref = ranks(1, 1)
    out = ranks(s, 1) if what == "columns" else ranks(1, s)
    mk.true(ref == out, f"{out} instead of {ref} after scaling")


def CASES(tier):
    out = []
    deep = tier != "quick"

    def go(id, fn, cost=1, **kw):
        tol_band = kw.pop("tol_band", True)
        out.append(Case(id.replace(" ", ""), fn, kw, div="assume", cost=cost, budget_s=120 if deep else 60, max_paths=3000, tol_band=tol_band))

    P, M = 1, -1
    for start in ["none", "diag", "lt"]:
        for n in ([1, 2, 3] if deep else [1, 2]):
            for kinds in [("u",), ("uv",), ("u1",), ("u|v",), ("wuv",), ("c",)]:
                if n == 2 or kinds != ("wuv",):
                    if start == "lt" and kinds != ("u",):
                        continue
                    if start == "none" and kinds == ("c",):
                        continue
                    go(f"seq:{start}{n}:{kinds}", sequence, start=start, n=n, kinds=kinds, ops=[(P, 0), (M, 0)] if start != "lt" else [(P, 0)])
                    if start == "lt":
                        continue
                    go(f"twice:{start}{n}:{kinds}", sequence, start=start, n=n, kinds=kinds, ops=[(P, 0), (P, 0), (M, 0), (M, 0)])
            if start == "lt":
                continue
            for kinds in [("u", "v"), ("u", "u"), ("uv", "u"), ("vu", "uv"), ("uv", "w"), ("uw", "v"), ("u|v", "u|v"), ("u|v", "u|w"), ("u1", "v1"), ("u", "c"), ("uv", "c"), ("uv", "vw"), ("wuv", "v")]:
                if "c" in kinds and (start == "none" or n == 1) or kinds[0] == kinds[1] == "u" and start == "none":
                    # With two terms that may cancel in part.
                    if kinds[0] != "u" or kinds[1] != "u":
                        continue
                heavy = "".join(kinds).count("w") or kinds == ("vu", "uv")
                if n == 3 and heavy:
                    continue
                for o1 in [(0, 1), (1, 0)] if deep else [(0, 1)]:
                    for o2 in [(0, 1), (1, 0)]:
                        ops = [(P, i) for i in o1] + [(M, i) for i in o2]
                        if kinds == ("u", "u"):
                            continue
                        go(f"seq:{start}{n}:{kinds}:{o1}{o2}", sequence, start=start, n=n, kinds=kinds, ops=ops, cost=5)
    for batch, tb in [((2,), ()), ((2,), (2,)), ((), (2,)), ((2, 1), ()), ((2, 2), (2,)), ((2,), (1,))]:
        for start in ["none", "diag"]:
            for kinds, ops in [
                (("u",), [(P, 0), (M, 0)]),
                (("u|v",), [(P, 0), (M, 0)]),
                (("uv",), [(P, 0), (M, 0)]),
                (("u", "v"), [(P, 0), (P, 1), (M, 0), (M, 1)]),
                (("u", "v"), [(P, 0), (P, 1), (M, 1), (M, 0)]),
                (("u",), [(P, 0), (P, 0), (M, 0), (M, 0)]),
            ]:
                go(f"batch:{start}{batch}{tb}:{kinds}{ops}", sequence, start=start, n=2, kinds=kinds, ops=ops, batch=batch, term_batch=tb, cost=3)
                if deep or batch == (2,):
                    go(f"neg:{start}{batch}{tb}:{kinds}{ops}", sequence, start=start, n=2, kinds=kinds, ops=ops, batch=batch, term_batch=tb, negated=True, cost=3)
    for n, k in [(1, 1), (2, 1), (2, 2), (1, 2), (3, 1)] + ([(3, 2)] if deep else []):
        for batch in [(), (2,), (2, 2)]:
            for mode in ["sym", "gen"]:
                if k < 2 or not batch or deep and batch == (2,):
                    go(f"difference:{n}x{k}{batch}:{mode}", difference, n=n, k=k, batch=batch, mode=mode, cost=5)
    for n in [1, 2]:
        for batch, differ in [((2,), [(0,)]), ((2,), [(1,)]), ((3,), [(2,)]), ((3,), [(1,)]), ((2, 2), [(0, 1)]), ((2, 2), [(1, 0)]), ((2, 1), [(1, 0)]), ((1, 2), [(0, 1)])]:
            go(f"batched:{n}{batch}{differ}", batched, n=n, batch=batch, differ=differ)
    for n in [1, 2, 3]:
        for batch in [(), (2,)]:
            for const in [1, 2, "symbolic"]:
                go(f"readme:{n}{batch}:{const}", readme, n=n, batch=batch, const=const, cost=4)
    for n in [1, 2]:
        for sub in [False, True]:
            for equal_mid in [False, True] if n == 1 else []:
                go(f"tolerance:{n}:{sub}:{equal_mid}", tolerance, n=n, sub=sub, equal_mid=equal_mid, tol_band=False, cost=10)
        for what in ["columns", "middle"]:
            go(f"scale:{n}:{what}", scaled, n=n, what=what, tol_band=False, cost=10)
    return out
