"""C17: broadcasting of shapes."""
import itertools

from lab.shape import Shape

from .dims import *

META = dict(
    level="other",
    explanation="Symbolic execution of the real broadcasting functions of `matrix.shape` and of "
    "`B.shape_broadcast`, `B.shape_batch_broadcast`, and `B.shape_matrix_broadcast` on shapes of "
    "which every dimension is a z3 integer; on every path, z3 proves that an error is raised "
    "exactly if the NumPy rule does not apply, and that otherwise all dimensions are those of the rule.",
    bounds="every nonnegative integer dimension; shapes of rank zero to four (two shapes), zero to "
    "two (three shapes), zero to one (four shapes)",
    assumptions=["dimensions are nonnegative integers that are known when the code runs"],
)


KIND = {"shape": lambda s: Shape(*s), "tuple": tuple}


def expand(mk, ranks, kinds):
    ss = shapes_of(mk, ranks)
    ok, dims = rule(mk, *ss)
    args = [KIND[k](s) for k, s in zip(kinds, ss)]
    decide(mk, lambda: ms.expand_and_broadcast(*args), ok, dims, "expand_and_broadcast")


def plain(mk, ranks, kinds):
    """Without expansion, shapes of different ranks are rejected."""
    ss = shapes_of(mk, ranks)
    ok, dims = rule(mk, *ss)
    if len(set(ranks)) > 1:
        ok = mk.all(False)
    args = [KIND[k](s) for k, s in zip(kinds, ss)]
    decide(mk, lambda: ms.broadcast(*args), ok, dims, "broadcast")


def compat(mk, ranks, kinds):
    ss = shapes_of(mk, ranks)
    ok, _ = rule(mk, *ss)
    args = [KIND[k](s) for k, s in zip(kinds, ss)]
    got = ms.compatible(*args)
    mk.true(ok if got else mk.no(ok), f"compatible is {bool(got)}")
    decide(mk, lambda: ms.assert_compatible(*args), ok, None, "assert_compatible")


def laws(mk, ranks):
    """Commutativity, associativity, and idempotence, on the results themselves."""
    ss = [Shape(*s) for s in shapes_of(mk, ranks)]
    f = ms.expand_and_broadcast

    def run(g):
        try:
            return tuple(g())
        except Exception:
            return None

    dims_eq(mk, f(ss[0], ss[0]), tuple(ss[0]), "idempotent")
    x = run(lambda: f(*ss))
    for label, y in [
        ("commutative", run(lambda: f(*reversed(ss)))),
        ("associative", run(lambda: f(ss[0], f(*ss[1:])) if len(ss) > 2 else f(*ss))),
        ("absorbing", run(lambda: f(ss[-1], f(*ss)))),
    ]:
        if x is None or y is None:
            mk.true(x is None and y is None, f"{label}: one order is rejected")
        else:
            dims_eq(mk, x, [getattr(d, "dim", d) for d in y], label)


def single(mk, rank):
    s = shapes_of(mk, [rank])[0]
    dims_eq(mk, ms.expand_and_broadcast(s), s, "expand_and_broadcast(s)")
    dims_eq(mk, ms.broadcast(s), s, "broadcast(s)")
    with mk.must_raise("expand_and_broadcast()", ValueError):
        ms.expand_and_broadcast()
    with mk.must_raise("broadcast()", ValueError):
        ms.broadcast()


def queries(mk, which, ranks, kinds):
    """Broadcast shapes of matrices and tensors."""
    ss = shapes_of(mk, ranks)
    dt = float
    xs = []
    for k, s in zip(kinds, ss):
        xs.append(Zero(dt, *s) if k == "zero" else Dense(mk.tensor(*s)) if k == "dense" else mk.tensor(*s))
    f, cut = {
        "shape_broadcast": (B.shape_broadcast, lambda s: s),
        "shape_batch_broadcast": (B.shape_batch_broadcast, lambda s: s[:-2]),
        "shape_matrix_broadcast": (B.shape_matrix_broadcast, lambda s: s[-2:]),
        "shape_matrix": (B.shape_matrix, lambda s: s[-2:]),
    }[which]
    ok, dims = rule(mk, *[cut(s) for s in ss])
    decide(mk, lambda: f(*xs), ok, dims, which)


def asserts(mk, rank):
    s = shapes_of(mk, [rank])[0]
    for k in ["tensor", "zero"]:
        if k == "zero" and rank < 2:
            continue
        x = mk.tensor(*s) if k == "tensor" else Zero(float, *s)
        decide(mk, lambda: ms.assert_vector(x, "m"), mk.all(rank >= 1), None, "assert_vector")
        decide(mk, lambda: ms.assert_matrix(x, "m"), mk.all(rank >= 2), None, "assert_matrix")
        sq = mk.all(rank >= 2, mk.same(s[-1], s[-2]) if rank >= 2 else False)
        decide(mk, lambda: ms.assert_square(x, "m"), sq, None, "assert_square")


def CASES(tier):
    out = []
    deep = tier != "quick"
    C = lambda id, fn, **kw: out.append(Case(id.replace(" ", ""), fn, kw, max_paths=6000, budget_s=60, query_ms=10000, cost=sum(kw.get("ranks", [0]))))
    two = list(itertools.product(range(5 if deep else 4), repeat=2)) + ([] if deep else [(4, 4), (4, 2), (2, 4), (4, 3), (0, 4)])
    for r in two:
        for kinds in itertools.product(["shape", "tuple"], repeat=2):
            if kinds[0] != kinds[1] and max(r) > 2:
                continue
            C(f"expand:{r}{','.join(kinds)}", expand, ranks=r, kinds=kinds)
            C(f"broadcast:{r}{','.join(kinds)}", plain, ranks=r, kinds=kinds)
            C(f"compatible:{r}{','.join(kinds)}", compat, ranks=r, kinds=kinds)
        if max(r) < 4:
            C(f"laws:{r}", laws, ranks=r)
    for r in itertools.product(range(4 if deep else 3), repeat=3):
        if sum(r) > 7:
            continue
        for kinds in [("shape",) * 3, ("tuple", "shape", "tuple")]:
            if sum(r) > 5 and kinds[0] == "tuple" and not deep:
                continue
            C(f"expand:{r}{','.join(kinds)}", expand, ranks=r, kinds=kinds)
            C(f"broadcast:{r}{','.join(kinds)}", plain, ranks=r, kinds=kinds)
        if sum(r) < 5:
            C(f"laws:{r}", laws, ranks=r)
    for r in itertools.product(range(2), repeat=4):
        C(f"expand:{r}", expand, ranks=r, kinds=("shape",) * 4)
        C(f"broadcast:{r}", plain, ranks=r, kinds=("shape",) * 4)
    for r in range(5):
        C(f"single:{r}", single, rank=r)
        C(f"asserts:{r}", asserts, rank=r)
    for which in ["shape_broadcast", "shape_batch_broadcast", "shape_matrix_broadcast", "shape_matrix"]:
        for kinds in itertools.product(["zero", "dense", "tensor"], repeat=2):
            if which == "shape_matrix" and "tensor" in kinds:
                continue
            for r in itertools.product([2, 3, 4], repeat=2):
                if sum(r) > 7 and not deep:
                    continue
                C(f"{which}:{r}{','.join(kinds)}", queries, which=which, ranks=r, kinds=kinds)
    return out
