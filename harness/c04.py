"""C04: element-wise functions of one matrix agree with the dense matrix."""
from .common import *

META = dict(
    level="other",
    explanation="Symbolic execution of the real `B.negative`, `B.abs`, `B.sqrt`, and "
    "`B.power` methods on matrices whose entries are z3 reals; every entry of the densified "
    "result is proved equal to the function of the dense entry by z3.",
    bounds="matrices up to 4 x 4, low-rank factors with at most two columns, batch shapes "
    "(), (1,), (2,), (2, 1); integer exponents from -2 to 3 (of "
    "any type, also one for every element or batch element) and the exponents 1/2, 3/2, -1/2, 1/4"
    "; in separate cases also sizes up to 12 (such as 5 x 5, 9 x 9, 6 x 9, 1 x 11), batches "
    "of up to four dimensions or of size five, and the same object given as both operands or "
    "as several parts of one",
    assumptions=[
        "real arithmetic instead of floating point",
        "square roots of nonnegative numbers; non-positive powers of nonzero numbers",
        "square roots of Kronecker products are taken of products of nonnegative factors: "
        "see the known findings",
    ],
)


def neg(mk, k, s, batch):
    a = make(mk, k, "a", *s, batch)
    mk.eq(B.negative(a.mat), -a.ref, "-a")
    mk.eq(-(-a.mat), a.ref, "-(-a)")


def abs_(mk, k, s, batch):
    a = make(mk, k, "a", *s, batch)
    mk.eq(B.abs(a.mat), np.abs(a.ref), "abs(a)")


def sqrt(mk, k, s, batch, root):
    a = make(mk, k, "a", *s, batch, pos=True)
    if k in LOW or k in NESTED or k in ("kronn",):
        for x in a.ref.ravel():
            mk.assume(x >= 0)
    f = (lambda x: B.sqrt(x)) if root == "sqrt" else (lambda x: x**0.5)
    res = f(a.mat)
    res = B.dense(res)
    # Independent specification of the square root.
    mk.eq(res * res, a.ref, f"{root}(a)^2")
    mk.true_all(res >= 0, f"{root}(a) >= 0")


def power(mk, k, s, batch, p, zeros=False):
    a = make(mk, k, "a", *s, batch, **({} if zeros or p > 0 else {"nonzero": True}))
    if p <= 0 and k in LOW:
        for x in a.ref.ravel():
            mk.assume(mk.ne(x, 0))
    ref = a.ref * 0 + 1
    for _ in range(abs(p)):
        ref = ref * a.ref
    if p < 0:
        ref = 1 / ref
    mk.eq(a.mat**p, ref, f"a ** {p}")


def power_array(mk, k, s, ps):
    """An exponent for every element."""
    a = make(mk, k, "a", *s, nonzero=True)
    ref = np.array(a.ref)
    for idx in np.ndindex(*s):
        ref[idx] = np.prod([a.ref[idx]] * ps[idx[-1]])
    mk.eq(B.power(a.mat, np.array(ps)), ref, f"a ** {ps}")


EXPONENTS = {
    "2.0": 2.0,
    "float2": np.float64(2),
    "int2": np.int64(2),
    "array2": np.array(2),
    "array3.0": np.array(3.0),
    "3.0": 3.0,
    "1.0": 1.0,
    "0.0": 0.0,
    "-1.0": -1.0,
    "float-2": np.float64(-2),
    "array0": np.array(0),
    "array-1.0": np.array(-1.0),
}


def power_typed(mk, k, s, batch, p):
    """Exponents that are not Python integers."""
    p = EXPONENTS[p]
    n = int(p)
    a = make(mk, k, "a", *s, batch, **({} if n > 0 else {"nonzero": True}))
    if n <= 0 and k in LOW:
        for x in a.ref.ravel():
            mk.assume(mk.ne(x, 0))
    ref = a.ref * 0 + 1
    for _ in range(abs(n)):
        ref = ref * a.ref
    mk.eq(B.power(a.mat, p), 1 / ref if n < 0 else ref, f"a ** {p}")


def power_frac(mk, k, s, batch, num, den):
    """Powers `num / den`: the power `den` of the result is the power `num` of the matrix."""
    kw = {"pos": True} if num > 0 else {"pos": True, "nonzero": True}
    a = make(mk, k, "a", *s, batch, **kw)
    res = B.dense(a.mat ** (num / den))
    lhs, rhs = res, a.ref
    for _ in range(den - 1):
        lhs = lhs * res
    for _ in range(abs(num) - 1):
        rhs = rhs * a.ref
    mk.eq(lhs, 1 / rhs if num < 0 else rhs, f"(a ** ({num} / {den})) ** {den}")
    mk.true_all(res >= 0, f"a ** ({num} / {den}) >= 0")


def power_batched(mk, k, s, batch, ps):
    """An exponent for every batch element."""
    a = make(mk, k, "a", *s, batch, nonzero=True)
    ref = np.stack([np.prod(np.stack([a.ref[i] if batch else a.ref] * p), axis=0) for i, p in enumerate(ps)])
    mk.eq(B.power(a.mat, np.array(ps)[:, None, None]), ref, f"a ** {ps}")


def root_of_square(mk, k, s, batch):
    """Structured intermediate results; the root of a square is the absolute value."""
    a = make(mk, k, "a", *s, batch)
    mk.eq(B.sqrt(B.multiply(a.mat, a.mat)), np.abs(a.ref), "sqrt(a * a)")
    mk.eq(B.sqrt(a.mat**2), np.abs(a.ref), "sqrt(a ** 2)")


def chain(mk, k, s, batch):
    a = make(mk, k, "a", *s, batch)
    mk.eq(B.abs(-a.mat), np.abs(a.ref), "abs(-a)")
    mk.eq(-(a.mat**2), -(a.ref * a.ref), "-(a ** 2)")
    mk.eq((a.mat**2) * a.mat, a.ref * a.ref * a.ref, "a ** 2 * a")


def sqrt_kron_signs(mk, root):
    """A product that is nonnegative, although its factors may not be."""
    l, r = mk.real("l", 1, 1), mk.real("r", 2, 2)
    ref = kron_ref(l, r)
    for x in ref.ravel():
        mk.assume(x >= 0)
    a = Kronecker(Dense(l), Dense(r))
    res = B.dense(B.sqrt(a) if root == "sqrt" else a**0.5)
    mk.eq(res * res, ref, f"{root}(a)^2")


SIMPLE = ["zero", "dense", "diag", "const", "constb", "lt", "ut", "kron", "krons"]
LOW = ["lr1", "lr2", "lrs", "lrd", "lrx", "lrm", "wb", "wbb", "wbd"]


def CASES(tier):
    th = tier == "thorough"
    out = []

    def go(f, k, s, batch=(), tag="", **kw):
        if k in SIMPLE + LOW + ["tiled"] and not ok_kind(k, *s):
            return
        ckw = {x: kw.pop(x) for x in list(kw) if x in ("cost", "budget_s", "max_paths")}
        out.append(Case(f"{f.__name__}:{k}{s}{batch}{tag}".replace(" ", ""), f, dict(k=k, s=s, batch=batch, **kw), **ckw))

    kinds = [(k, s) for k in SIMPLE + LOW for s in ([(4, 4), (2, 4)] if k.startswith("kron") else [(2, 2), (3, 3), (2, 3), (4, 2), (1, 3), (1, 1)])]
    kinds += list(NESTED.items())
    for k, s in kinds:
        for batch in [(), (1,), (2,), (2, 1)] if s[0] <= 2 else [(), (2,)]:
            if k not in ("tiledc", "tiled"):
                go(neg, k, s, batch)
            if k in LOW or k in NESTED:
                if s in [(2, 2), (2, 3)] and batch in [(), (2,)] or s == (4, 4):
                    go(abs_, k, s, batch, cost=3)
            else:
                go(abs_, k, s, batch)
            if k not in LOW and k not in NESTED:
                for root in ["sqrt", "power"]:
                    go(sqrt, k, s, batch, f":{root}", root=root)
            elif s == (2, 2) and not batch:
                go(sqrt, k, s, batch, root="sqrt")
            for p in [1, 2, 3]:
                if p == 3 and (k in LOW or k in NESTED) and s != (2, 2):
                    continue
                go(power, k, s, batch, f":{p}", p=p)
            if k in ("dense", "const", "constb", "kron") or (k in LOW and s == (2, 2)):
                for p in [0, -1, -2]:
                    go(power, k, s, batch, f":{p}", p=p)
            if k in ("zero", "diag", "lt", "ut", "krons") and s != (4, 2):
                # The zeros of the structure are raised to the power zero, too.
                go(power, k, s, batch, ":0z", p=0, zeros=True)
        if k not in ("tiledc",):
            go(chain, k, s, (2,) if k not in LOW else (), cost=2)
    for k in ["dense", "diag", "lt", "ut", "const", "zero", "lr1"]:
        for s, ps in [((2, 2), (1, 2)), ((2, 2), (2, 2)), ((3, 3), (1, 3, 2))]:
            out.append(Case(f"power_array:{k}:{ps}", power_array, dict(k=k, s=s, ps=ps)))
    for ps in [(1, 2, 3, 2)]:
        out.append(Case(f"power_array:kron:{ps}", power_array, dict(k="kron", s=(4, 4), ps=ps)))
    for k, s in kinds:
        if not ok_kind(k, *s) or k in NESTED or s not in ((2, 2), (2, 3), (4, 4), (1, 1)):
            continue
        for batch in [(), (2,)]:
            for p in EXPONENTS:
                n = int(EXPONENTS[p])
                if n > 0 or k in ("dense", "const", "constb", "kron") or k in LOW and s == (2, 2):
                    if k in LOW and (n == 3 or n < 0):
                        continue
                    go(power_typed, k, s, batch, f":{p}", p=p)
            if k in SIMPLE and k != "constb":
                for num, den in [(3, 2), (-1, 2), (1, 4)]:
                    if num < 0 and k not in ("dense", "const", "kron"):
                        continue
                    go(power_frac, k, s, batch, f":{num}/{den}", num=num, den=den)
                if k != "kron" and k != "krons":
                    go(root_of_square, k, s, batch)
        if k in SIMPLE and k not in ("zero", "constb") and k[:4] != "kron":
            go(power_batched, k, s, (), ":21", ps=(2, 1))
            go(power_batched, k, s, (2,), ":13", ps=(1, 3))
    for root in ["sqrt", "power"]:
        out.append(Case(f"sqrt_kron_signs:{root}", sqrt_kron_signs, dict(root=root)))
    # Larger operands.
    for k in SIMPLE + LOW:
        for s in BIG:
            if big_kind(k, s) and k != "kronx":
                go(neg, k, s, ())
                go(power, k, s, (), ":2", p=2)
                if k not in LOW:
                    go(abs_, k, s, ())
                    go(sqrt, k, s, (), ":sqrt", root="sqrt")
        for batch in BIG_BATCHES:
            if k[:4] != "kron":
                go(neg, k, (2, 2), batch)
                go(power, k, (2, 2), batch, ":3", p=3)
                if k not in LOW:
                    go(abs_, k, (2, 2), batch)
    return out
