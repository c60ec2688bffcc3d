"""C10: broadcasting, reshaping, squeezing, flattening, aligning batches, promoting ranks."""
from .common import *
from matrix.ops.util import align_batch

META = dict(
    level="other",
    explanation="Symbolic execution of the real `B.broadcast_to`, `B.broadcast_batch_to`, "
    "`align_batch`, `B.reshape`, `B.squeeze`, and `B.uprank` methods on matrices whose entries "
    "are z3 reals; every entry of the result is proved equal to the NumPy result by z3, also "
    "after using the result further (transposing, multiplying).",
    bounds="matrices up to 3 x 3, all target shapes listed in the harness"
    "; in separate cases also sizes up to 12 (such as 5 x 5, 9 x 9, 6 x 9, 1 x 11), batches "
    "of up to four dimensions or of size five, and the same object given as both operands or "
    "as several parts of one",
    assumptions=["real arithmetic instead of floating point"],
)


def check(mk, mat, ref, label):
    mk.eq(mat, ref, label)
    if isinstance(mat, AbstractMatrix):
        mk.true(tuple(B.shape(mat)) == ref.shape, f"shape({label})")
        if not isinstance(mat, TiledBlocks):
            mk.eq(B.transpose(mat), T(ref), f"transpose({label})")
            x = mk.const(np.arange(1, ref.shape[-1] + 1).reshape(-1, 1))
            mk.eq(B.matmul(mat, x), mm(ref, x), f"{label} @ x")
            if ref.shape[-1] == ref.shape[-2]:
                mk.eq(B.diag(mat), np.einsum("...ii->...i", ref), f"diag({label})")


def bt(mk, k, s, batch, target):
    a = make(mk, k, "a", *s, batch)
    check(mk, B.broadcast_to(a.mat, *target), np.broadcast_to(a.ref, target), "broadcast_to")


def bbt(mk, k, s, batch, target):
    a = make(mk, k, "a", *s, batch)
    res = B.broadcast_batch_to(a.mat, *target)
    check(mk, res, np.broadcast_to(a.ref, tuple(target) + s), "broadcast_batch_to")
    if k not in ("num",):
        mk.true(type(res) == type(a.mat), "broadcasting the batch keeps the type")


def align(mk, ka, kb, ba, bb):
    a, b = make(mk, ka, "a", 2, 2, ba), make(mk, kb, "b", 2, 2, bb)
    batch = np.broadcast_shapes(ba, bb)
    for x, y in [(a, b), (b, a)]:
        p, q = align_batch(x.mat, y.mat)
        check(mk, p, np.broadcast_to(x.ref, batch + (2, 2)), "align_batch[0]")
        check(mk, q, np.broadcast_to(y.ref, batch + (2, 2)), "align_batch[1]")
    (p, q), (r,) = align_batch([a.mat, b.mat], [b.mat])
    check(mk, r, np.broadcast_to(b.ref, batch + (2, 2)), "align_batch[1][0]")
    check(mk, q, np.broadcast_to(b.ref, batch + (2, 2)), "align_batch[0][1]")


def reshape(mk, k, s, batch, targets):
    a = make(mk, k, "a", *s, batch)
    for t in targets:
        mk.eq(B.reshape(a.mat, *t), np.reshape(a.ref, t), f"reshape(a, {t})")
        mk.eq(a.mat.reshape(*t), np.reshape(a.ref, t), f"a.reshape(*{t})")
        mk.eq(a.mat.reshape(t), np.reshape(a.ref, t), f"a.reshape({t})")
        mk.eq(a.mat.reshape(list(t)), np.reshape(a.ref, t), f"a.reshape({list(t)})")
    mk.eq(a.mat.flatten(), np.reshape(a.ref, (-1,)), "a.flatten()")
    mk.eq(B.squeeze(a.mat), np.squeeze(a.ref), "squeeze(a)")
    mk.eq(a.mat.squeeze(), np.squeeze(a.ref), "a.squeeze()")
    mk.eq(B.uprank(a.mat), a.ref, "uprank(a)")
    mk.eq(B.uprank(a.mat, rank=2), a.ref, "uprank(a, rank=2)")


ALL = ["zero", "dense", "diag", "const", "constb", "lt", "ut", "lr1", "lr2", "lrs", "lrd", "lrx", "lrm", "wb", "wbb", "wbd", "kron", "kron2", "kronb", "krons", "num", "lrn", "lrl", "wbn", "kronx"]


def CASES(tier):
    out = []
    sizes = [(1, 1), (2, 2), (1, 2), (2, 1), (2, 3), (3, 3)] if tier == "quick" else [(1, 1), (2, 2), (1, 2), (2, 1), (2, 3), (3, 3), (4, 4), (1, 4), (4, 1)]
    for k in ALL + ["tiled"]:
        for s in sizes:
            if not ok_kind(k, *s):
                continue
            for batch in [(), (1,), (2,), (2, 1), (1, 3)]:
                full_batches = [b for b in [(), (1,), (2,), (3, 2), (2, 3), (1, 2, 3)] if _can(batch, b)]
                targets = set()
                for b in full_batches:
                    ms = [s]
                    if s[0] == 1:
                        ms.append((3, s[1]))
                    if s[1] == 1:
                        ms.append((s[0], 2))
                    if s == (1, 1):
                        ms.append((2, 2))
                    targets |= {b + m for m in ms}
                for t in sorted(targets):
                    if k == "tiled" and t != batch + s and t[-2:] == s:
                        continue  # Not supported: raises.
                    if k == "num":
                        continue
                    out.append(Case(f"broadcast_to:{k}{s}{batch}:{t}", bt, dict(k=k, s=s, batch=batch, target=t)))
                for b in full_batches:
                    if k != "tiled":
                        out.append(Case(f"broadcast_batch_to:{k}{s}{batch}:{b}", bbt, dict(k=k, s=s, batch=batch, target=b)))
                if k != "num":
                    n = int(np.prod(batch + s))
                    ts = [(n,), (-1,), (1, n), (-1, s[1]), batch + (s[1], s[0]), (s[1], -1)]
                    out.append(Case(f"reshape:{k}{s}{batch}", reshape, dict(k=k, s=s, batch=batch, targets=ts)))
    for ka in [k for k in ALL if k != "kronx"]:
        for kb in ["num", "dense", "zero", "lrd", "wbb", "kronb", "const"]:
            for ba, bb in [((), ()), ((2,), ()), ((), (2,)), ((2, 1), (3,)), ((1,), (2,))]:
                out.append(Case(f"align:{ka}{ba}/{kb}{bb}", align, dict(ka=ka, kb=kb, ba=ba, bb=bb)))
    for k in ALL + ["tiled"]:
        for s in BIG:
            if big_kind(k, s) and k != "num":
                n = s[0] * s[1]
                out.append(Case(f"reshape:{k}{s}", reshape, dict(k=k, s=s, batch=(), targets=[(n,), (-1,), (1, n), (s[1], s[0]), (s[1], -1)])))
                if k != "tiled":
                    out.append(Case(f"broadcast_batch_to:{k}{s}:4", bbt, dict(k=k, s=s, batch=(), target=(4,))))
        for b, t in [((), (2, 1, 3)), ((1, 1, 1), (2, 2, 2)), ((5,), (2, 5)), ((2, 1, 2), (2, 3, 2)), ((1, 2, 1, 2), (2, 2, 3, 2))]:
            if k not in ("num", "kronx", "tiled"):
                out.append(Case(f"broadcast_batch_to:{k}:{b}{t}", bbt, dict(k=k, s=(2, 2), batch=b, target=t)))
                out.append(Case(f"broadcast_to:{k}:{b}{t}", bt, dict(k=k, s=(2, 2), batch=b, target=t + (2, 2))))
                out.append(Case(f"align:{k}{b}{t}", align, dict(ka=k, kb="dense", ba=b, bb=t)))
    for c in out:
        c.id = c.id.replace(" ", "")
    return out


def _can(a, b):
    try:
        return np.broadcast_shapes(a, b) == tuple(b)
    except ValueError:
        return False
