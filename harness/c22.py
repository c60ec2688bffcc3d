"""C22: recording decisions and replaying them, as compiled functions do."""
import importlib
import re

from lab.control_flow import control_flow

from .c19 import Memo as _Memo
from .c20 import again
from .c21 import sq
from .common import *

META = dict(
    level="other",
    explanation="Symbolic execution of the real operations, recorded and replayed with the control-flow "
    "cache and with lazy shapes, which is what `B.jit` does. (`again`) Programs of the other checks are "
    "recorded and then replayed on the same symbolic inputs; all their assertions must hold in both "
    "runs, and the replay must take exactly the recorded decisions. (`other`) Programs that decide on "
    "values are recorded on one set of symbolic inputs and replayed on another set for which the same "
    "decisions are right: z3 proves that the replay gives the result of running the program directly "
    "and does not decide on any value of its inputs.",
    bounds="one program for every group of cases in C01 to C15 and C21 (operation and "
    "representations; the smallest sizes); for other inputs: sequences of up to four deciding "
    "operations, sizes one to three, ranks one and two, batches () and (2,)",
    assumptions=[
        "real arithmetic instead of floating point",
        "columns of low-rank factors are equal or differ by more than the tolerance (C21)",
        "tracing by TensorFlow, PyTorch, or JAX itself is not modelled (C91)",
    ],
)


class Memo(_Memo):
    """Gives the same inputs and makes the same choices in every run."""

    def __init__(self, mk):
        super().__init__(mk)
        self.made, self.at = [], 0

    def scalar(self, name, **kw):
        return self.real(name, **kw)[()]

    def int(self, name, lo=0):
        if name not in self.memo:
            self.memo[name] = self.mk.int(name, lo)
        return self.memo[name]

    def choose(self, n, label="choice"):
        self.at += 1
        if self.at > len(self.made):
            self.made.append(self.mk.choose(n, label))
        return self.made[self.at - 1]

    def again(self):
        self.at = 0


def settle(cache):
    """Decide all recorded outcomes, so that replaying does not need to."""
    for k, v in cache.outcomes.items():
        if not isinstance(v, (list, tuple, np.ndarray)) or np.shape(v) == ():
            cache.outcomes[k] = bool(v) if k[0] == "add:is_zero" else v


def again_(mk, fn, kw):
    memo = Memo(mk)
    cache = B.ControlFlowCache()
    with cache:
        with B.lazy_shapes():
            fn(memo, **kw)
    settle(cache)
    memo.again()
    with cache:
        with B.lazy_shapes():
            fn(memo, **kw)
    mk.true(
        control_flow._counter == len(cache.outcomes) - 1,
        f"the replay took {control_flow._counter + 1} of {len(cache.outcomes)} decisions",
    )


# Programs that decide on values. They get a function that makes inputs.


def lr(real, name, n, r=1, batch=(), mid=True):
    left = real(f"{name}l", *batch, n, r)
    return LowRank(left, left, Dense(real(f"{name}m", *batch, r, r))) if mid else LowRank(left)


def p_sum(real, n, batch):
    return B.add(B.add(lr(real, "a", n, batch=batch), lr(real, "b", n)), lr(real, "c", n, mid=False))


def p_difference(real, n, batch):
    a = lr(real, "a", n, batch=batch)
    x = B.add(Diagonal(real("d", *batch, n)), a)
    return B.subtract(B.subtract(x, lr(real, "b", n, batch=batch)), a)


def p_two(real, n, batch):
    a, b = lr(real, "a", n, batch=batch), lr(real, "b", n)
    x = B.subtract(a, b)
    return [x, B.add(x, Diagonal(real("d", n))), B.subtract(b, a)]


def p_rank2(real, n, batch):
    return B.add(lr(real, "a", n, r=2, batch=batch), lr(real, "b", n, r=1))


def p_const(real, n, batch):
    x = B.add(B.multiply(2, Diagonal(real("d", *batch, n))), 1)
    return B.subtract(B.subtract(x, B.multiply(real("k"), Constant(np.ones((), dtype=int), n, n))), 1)


def p_wb(real, n, batch):
    x = B.add(Diagonal(real("d", *batch, n)), lr(real, "a", n, batch=batch))
    y = B.add(Diagonal(real("e", n)), lr(real, "b", n))
    return B.subtract(x, y)


def p_matmul(real, n, batch):
    x = B.add(Diagonal(real("d", *batch, n)), lr(real, "a", n, batch=batch))
    return B.subtract(B.matmul(x, lr(real, "b", n)), lr(real, "b", n))


def p_wb_product(real, n, batch):
    x = B.add(Diagonal(real("d", *batch, n)), lr(real, "a", n, batch=batch, mid=False))
    y = B.add(Diagonal(real("e", n)), lr(real, "b", n, mid=False))
    return B.matmul(x, y)


def p_take(real, n, batch):
    x = B.take(Constant(real("k", *batch), n, n), [True] + [False] * (n - 1), axis=-2)
    y = B.take(LowRank(real("al", n, 1), real("ar", n, 1)), [True] + [False] * (n - 1), axis=-2)
    z = B.add(x, y)
    return [z, B.take(Constant(real("j"), n, n), [False] * (n - 1) + [True], axis=-1), B.subtract(z, y)]


def p_submatrix(real, n, batch):
    inds = np.array([n - 1, 0][: min(n, 2)])
    x = B.submatrix(Diagonal(real("d", *batch, n)), inds)
    a = B.submatrix(lr(real, "a", n), inds)
    l = B.submatrix(LowerTriangular(np.tril(np.ones((n, n), dtype=int)) * real("t", n, n)), np.arange(n))
    return [B.subtract(B.add(x, a), lr(real, "b", len(inds))), l, B.submatrix(Zero(object, n, n), np.array([True] * n))]


def p_inverse(real, n, batch):
    x = B.inv(B.add(Diagonal(real("d", *batch, n)), LowRank(real("al", n, 1))))
    return B.subtract(x, x.lr)


def p_chain(real, n, batch):
    x = B.add(Diagonal(real("d", *batch, n)), lr(real, "a", n, batch=batch))
    x = B.add(x, 1)
    x = B.subtract(x, lr(real, "b", n))
    return B.submatrix(B.subtract(x, 1), np.array([0]))


PROGRAMS = dict(
    sum=p_sum, difference=p_difference, two=p_two, rank2=p_rank2, const=p_const, wb=p_wb, matmul=p_matmul,
    wb_product=p_wb_product, take=p_take, submatrix=p_submatrix, inverse=p_inverse, chain=p_chain,
)


def flatten(x):
    return x if isinstance(x, list) else [x]


class Watch:
    """Notes whether values are decided upon."""

    def __init__(self, mk):
        self.mk = mk
        self.looked = []

    def __enter__(self):
        if self.mk.symbolic:
            path = self.mk.path
            branch = path.branch

            def watched(cond, neg=None):
                import z3

                c = z3.simplify(cond)
                if not (z3.is_true(c) or z3.is_false(c)):
                    self.looked.append(str(c)[:80])
                return branch(cond, neg)

            path.branch = watched
        return self

    def __exit__(self, *_):
        if self.mk.symbolic:
            del self.mk.path.branch


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.shape(a) == np.shape(b) and bool(np.all(np.asarray(a) == np.asarray(b)))
    return a == b


def other(mk, name, n, batch, lazy, shared, rising):
    import contextlib

    program = PROGRAMS[name]
    memo = Memo(mk)

    def inputs(real, tag):
        """All entries are nonzero, and columns have ordered lengths or are the same."""
        last = []

        def go(k, *shape):
            k = shared.get(k, k)
            x = real(f"{tag}_{k}", *shape, **({"pos": True} if k == "d" else {"nonzero": True}))
            if k[-1] == "l":
                for i in range(shape[-1]):
                    new = sq(x[(0,) * (len(shape) - 2)][:, i])
                    if last and k not in go.seen:
                        mk.assume(mk.gt(new, last[-1]) if rising else mk.gt(last[-1], new))
                    last.append(new)
                go.seen.add(k)
            return x

        go.seen = set()
        return go

    shapes = B.lazy_shapes if lazy else contextlib.nullcontext
    caches = {}
    for tag in "xy":
        caches[tag] = B.ControlFlowCache()
        with caches[tag]:
            with shapes():
                result = program(inputs(memo.real, tag), n, batch)
        settle(caches[tag])
    x, y = caches["x"].outcomes, caches["y"].outcomes
    if list(x) != list(y) or not all(same(x[k], y[k]) for k in x):
        mk.true(True, "different decisions")
        return
    with Watch(mk) as watch:
        with caches["x"]:
            with shapes():
                replayed = program(inputs(memo.real, "y"), n, batch)
    mk.true(not watch.looked, f"the replay decides on {watch.looked[:1]}")
    if not mk.symbolic:
        traced(mk, program, memo, shared, caches["x"], n, batch)
    mk.true(control_flow._counter == len(x) - 1, f"the replay took {control_flow._counter + 1} of {len(x)} decisions")
    for i, (p, q) in enumerate(zip(flatten(replayed), flatten(result))):
        mk.true(type(p) is type(q), f"result {i} is {type(p).__name__} instead of {type(q).__name__}")
        mk.eq(again(mk, p), again(mk, q), f"result {i}")


def traced(mk, program, memo, shared, cache, n, batch):
    """Replay with arrays that refuse to be looked at."""
    with cache:
        program(lambda k, *s: np.asarray(memo.memo[f"y_{shared.get(k, k)}"]).view(Blind), n, batch)


class Blind(np.ndarray):
    """An array that must not be decided upon, like those of a compiled function."""

    def __bool__(self):
        raise AssertionError("The replay decides on a value.")

    def __array_wrap__(self, obj, context=None, return_scalar=False):
        return obj.view(Blind)  # Also for scalars.


# Findings that are reported by the checks that these cases are from:
KNOWN = ("sqrt_kron_signs", "solve_batched_zero", "chol_right", "iqf_batched_zero", "ratio_batched_zero")
SOURCES = [f"c{i:02d}" for i in range(1, 16)] + ["c21"]


def CASES(tier):
    out = []
    deep = tier != "quick"
    for src in SOURCES:
        groups = {}
        for c in importlib.import_module(f"harness.{src}").CASES("quick"):
            if c.tol_band and not c.id.startswith(KNOWN):
                key = re.sub(r"[\(\[].*?[\)\]]+|\d|\s", "", c.id)
                groups.setdefault(key, []).append(c)
        for cases in groups.values():
            # Variations of programs that other groups already have.
            if not deep and cases[0].id.startswith(("exhaustive:", "again:", "grid", "power_typed:")):
                continue
            # The case in the middle usually has batches and is not square.
            if src == "c01" and not deep and re.search("const.*(wb|lr)[dxm]|(wb|lr)[dxm].*const|(lr1|wb).*3,3.*const", cases[0].id):
                continue
            picks = {0, len(cases) // 2, len(cases) - 1} if deep else {0 if src == "c01" else len(cases) // 2}
            for i in sorted(picks):
                c = cases[i]
                out.append(
                    Case(f"again:{src}:{c.id}", again_, dict(fn=c.fn, kw=c.kw), c.query_ms, c.fork_ms, c.max_paths, 2 * c.budget_s, c.div, c.cost)
                )
    for name in PROGRAMS:
        for n in [1, 2, 3] if deep else [1, 2]:
            for batch in [(), (2,)]:
                for shared in [{}, {"bl": "al"}] + ([{"cl": "al"}, {"cl": "bl"}] if name == "sum" else []):
                    for rising in [True, False]:
                        if shared and name in ("const", "take", "inverse"):
                            continue
                        if name == "rank2" and shared or batch and (name in ("matmul", "wb_product", "chain") or name == "sum" and shared):
                            continue
                        if name == "wb_product" and n > 1:
                            continue
                        if not deep and (name == "take" and n > 1 or name in ("take", "matmul", "wb_product", "chain") and not rising):
                            continue
                        out.append(
                            Case(
                                f"other:{name}:{n}:{batch}:{'-'.join(sum(shared.items(), ()))}:{rising}".replace(" ", ""),
                                other,
                                dict(name=name, n=n, batch=batch, lazy=n < 3, shared=shared, rising=rising),
                                div="assume",
                                cost=20,
                                budget_s=60,
                                max_paths=3000,
                            )
                        )
    return out
