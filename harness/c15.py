"""C15: sampling."""
from .c13 import psd_extra
from .common import *

META = dict(
    level="other",
    explanation="Symbolic execution of the real `B.sample` methods with the standard normal "
    "noise given by a purely functional random state (every draw must use the state that the "
    "previous draw returned, or it gets the same noise again). z3 proves for all entries and all "
    "noise values that the sample is the linear map of the noise given by its columns, and for "
    "all entries that this map times its transpose is the covariance of independent samples for "
    "every batch element and every column.",
    bounds="matrices up to 3 x 3, up to two samples, batch shapes (), (2,), (2, 1), also differing "
    "between the parts; with an explicit and with the global random state"
    "; in separate cases also structured matrices of larger sizes and batches of up to four "
    "dimensions, and the same object given as several operands or parts",
    assumptions=[
        "real arithmetic instead of floating point; LAPACK's Cholesky decomposition is exact",
        "`B.randn` gives independent standard normal values and advances the state",
    ],
)


class State(np.random.RandomState):
    """Random state of which the noise only depends on the position."""

    def __init__(self, noise, pos=0):
        super().__init__(0)
        self.noise = noise
        self.pos = pos


@B.dispatch
def randn(state: State, dtype: B.NPDType, *shape: B.Int):
    shape = tuple(int(x) for x in shape)
    n = int(np.prod(shape, dtype=int))
    return State(state.noise, state.pos + n), state.noise(state.pos, n).reshape(shape)


def draw(mk, make_mat, num, noise, explicit, total=None):
    """Sample once; return the sample and the number of noise values consumed."""
    mat = make_mat()
    state = State(noise, 5)
    if explicit:
        kw = {} if num is None else dict(num=num)
        out = B.sample(state, mat, **kw)
        mk.true(isinstance(out, tuple) and len(out) == 2, "sample returns the state and the sample")
        new, x = out
        mk.true(isinstance(new, State), "returned state")
    else:
        saved = B.global_random_state, B.set_global_random_state
        holder = [state]
        B.global_random_state = lambda *a: holder[0]

        def setter(s):
            holder[0] = s

        B.set_global_random_state = setter
        try:
            x = B.sample(mat) if num is None else B.sample(mat, num=num)
        finally:
            B.global_random_state, B.set_global_random_state = saved
        new = holder[0]
    return np.asarray(B.dense(x)), new.pos - 5


def sample(mk, kind, n, batch, num, explicit):
    a = cov(mk, kind, n, batch)
    k = 1 if num is None else num
    batch = a.ref.shape[:-2]
    used = []

    def unit(j):
        def noise(pos, m):
            used.append((pos - 5, m))
            out = mk.zeros(m)
            if 0 <= j - (pos - 5) < m:
                out[j - (pos - 5)] = mk.const([1])[0]
            return out

        return noise

    _, count = draw(mk, lambda: a.mat, num, unit(-1), explicit)
    draws, used = used, []
    # Every value is drawn once, and the returned state is past all of them.
    expect = 0
    for pos, m in sorted(draws):
        mk.true(pos == expect, "every draw advances the state")
        expect = pos + m
    mk.true(count == expect and count > 0, "the returned state is past all the noise")
    eps = mk.real("eps", count)
    cols = [draw(mk, lambda: a.mat, num, unit(j), explicit)[0] for j in range(count)]
    x, _ = draw(mk, lambda: a.mat, num, lambda pos, m: eps[pos - 5 : pos - 5 + m], explicit)
    if x.shape != batch + (n, k):
        mk.true(False, f"shape of the sample: {x.shape} instead of {batch + (n, k)}")
        return
    # Linear in the noise:
    acc = mk.zeros(*x.shape)
    for j in range(count):
        acc = acc + cols[j] * eps[j]
    mk.eq(x, acc, "sample as a linear map of the noise")
    # Covariance:
    jac = np.stack([c.reshape(-1) for c in cols], axis=-1)
    got = mm(jac, T(jac))
    size = len(jac)
    ref = mk.zeros(size, size)
    index = list(np.ndindex(*x.shape))
    for p, i in enumerate(index):
        for q, j in enumerate(index):
            if i[:-2] == j[:-2] and i[-1] == j[-1]:
                ref[p, q] = a.ref[i[:-2] + (i[-2], j[-2])]
    mk.eq(got, ref, "covariance of the samples")


def cov(mk, kind, n, batch):
    R = lambda s, *shape, **k: mk.real(s, *shape, **k)
    if kind == "wb_diag":  # Only the diagonal carries the batch.
        d, l = R("d", *batch, n, pos=True), R("l", n, 1)
        return Op(Woodbury(Diagonal(d), LowRank(l)), diag_embed(d, mk) + mm(l, T(l)), kind)
    if kind == "wb_cross":  # Both carry different batches.
        d, l = R("d", 2, 1, n, pos=True), R("l", 1, 2, n, 1)
        return Op(Woodbury(Diagonal(d), LowRank(l)), diag_embed(d, mk) + mm(l, T(l)), kind)
    if kind == "wb_r2":
        d, l = R("d", *batch, n, pos=True), R("l", *batch, n, 2)
        return Op(Woodbury(Diagonal(d), LowRank(l)), diag_embed(d, mk) + mm(l, T(l)), kind)
    if kind == "zero_pos":
        return psd_extra(mk, "zero", n, batch)
    return psd_extra(mk, kind, n, batch)


KINDS = ["num", "dense", "diag", "zero", "const", "constb", "lr1", "lr_same", "lr_diag", "lr_const", "lr_dense", "lr_kron",
         "kron", "kron_dd", "kron_kb", "wb", "wb_right", "wb_default", "wb_mid2", "wb_bat", "wb_diag", "wb_cross", "wb_r2"]


def CASES(tier):
    out = []
    C = lambda id, fn, **kw: out.append(Case(id.replace(" ", ""), fn, kw, div="assume", cost=kw.get("n", 1) * len(kw["batch"]) * (kw["num"] or 1)))
    for kind in KINDS:
        for n in [1, 2, 3, 4]:
            for batch in [(), (1,), (2,), (2, 1), (2, 2)]:
                if kind == "constb" and not batch or kind == "wb_cross" and (batch or n > 2):
                    continue
                if kind.startswith("kron") and n % 2 or n == 4 and not kind.startswith("kron"):
                    continue
                if n > 2 and len(batch) > 0 and tier == "quick" or len(batch) > 1 and n > 1 and tier == "quick":
                    continue
                for num in [None, 1, 2] + ([3] if tier != "quick" else []):
                    for explicit in [True, False]:
                        if n > 2 and num == 2 and tier == "quick":
                            continue
                        C(f"sample:{kind}{n}{batch},{num},{'state' if explicit else 'global'}", sample, kind=kind, n=n, batch=batch, num=num, explicit=explicit)
    for kind in ["diag", "const", "zero", "lr1", "lr_diag", "dense", "wb"]:
        for n, batch, num in [(1, (2, 2, 2), None), (1, (5,), 1), (2, (3,), 3), (1, (), 5), (5, (), 2), (6, (), 1), (1, (1, 3), 4)]:
            if n > 2 and kind in ("dense", "wb"):
                continue
            for explicit in [True, False]:
                C(f"sample:{kind}{n}{batch},{num},{'state' if explicit else 'global'}", sample, kind=kind, n=n, batch=batch, num=num, explicit=explicit)
    out = list({c.id: c for c in out}.values())
    return out
