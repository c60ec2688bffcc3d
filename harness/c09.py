"""C09: block matrices, block-diagonal matrices, concatenation, tiling, Kronecker products."""
from .common import *

META = dict(
    level="other",
    explanation="Symbolic execution of the real `B.block`, `B.block_diag`, `B.concat`, `B.tile`, "
    "`B.kron`, and `TiledBlocks` code on blocks of every representation (and plain arrays) "
    "whose entries are z3 reals; every entry of the assembled matrix is proved equal to the "
    "dense assembly by z3, and so is the result of using it further.",
    bounds="grids up to 3 x 3 blocks, blocks up to 2 x 3, Kronecker factors up to 2 x 3, batch "
    "shapes (), (2,), (2, 1), (3,) that may differ between the blocks, up to three repetitions"
    "; in separate cases also sizes up to 12 (such as 5 x 5, 9 x 9, 6 x 9, 1 x 11), batches "
    "of up to four dimensions or of size five, and the same object given as both operands or "
    "as several parts of one",
    assumptions=["real arithmetic instead of floating point"],
)


def check(mk, mat, ref, label):
    mk.eq(mat, ref, label)
    if isinstance(mat, AbstractMatrix) and not isinstance(mat, TiledBlocks):
        mk.eq(B.transpose(mat), T(ref), f"transpose({label})")
        mk.eq(B.negative(mat), -ref, f"-({label})")
    if isinstance(mat, AbstractMatrix):
        x = mk.const(np.arange(1, ref.shape[-1] + 1).reshape(-1, 1))
        if not isinstance(mat, TiledBlocks):
            mk.eq(B.matmul(mat, x), mm(ref, x), f"{label} @ x")
        mk.true(tuple(B.shape(mat)) == ref.shape, f"shape({label})")


def cat(xs, axis):
    """Concatenation of references with broadcasting of the batch dimensions."""
    batch = np.broadcast_shapes(*(x.shape[:-2] for x in xs))
    return np.concatenate([bc(x, batch + x.shape[-2:]) for x in xs], axis=axis)


def grid_ref(rows):
    return cat([cat([x for x in row], -1) for row in rows], -2)


def block(mk, kinds, hs, ws, batches):
    """A grid of blocks; `kinds` and `batches` are per block."""
    ops = [
        [make(mk, kinds[i][j], f"a{i}{j}", hs[i], ws[j], batches[i][j]) for j in range(len(ws))]
        for i in range(len(hs))
    ]
    res = B.block(*[[o.mat for o in row] for row in ops])
    check(mk, res, grid_ref([[o.ref for o in row] for row in ops]), "block")


def block_diag(mk, kinds, shapes, batches):
    ops = [make(mk, k, f"a{i}", *s, b) for i, (k, s, b) in enumerate(zip(kinds, shapes, batches))]
    rows = [
        [o.ref if i == j else mk.zeros(o.ref.shape[-2], p.ref.shape[-1]) for j, p in enumerate(ops)]
        for i, o in enumerate(ops)
    ]
    check(mk, B.block_diag(*(o.mat for o in ops)), grid_ref(rows), "block_diag")


def concat(mk, kinds, shapes, axis, batch):
    ops = [make(mk, k, f"a{i}", *s, batch) for i, (k, s) in enumerate(zip(kinds, shapes))]
    kw = {} if axis is None else dict(axis=axis)
    ref = np.concatenate([o.ref for o in ops], axis=0 if axis is None else axis)
    check(mk, B.concat(*(o.mat for o in ops), **kw), ref, "concat")


def tile(mk, k, s, batch, reps):
    a = make(mk, k, "a", *s, batch)
    check(mk, B.tile(a.mat, *reps), np.tile(a.ref, reps), "tile")


def kron(mk, ka, kb, sa, sb, ba, bb):
    a, b = make(mk, ka, "a", *sa, ba), make(mk, kb, "b", *sb, bb)
    mat, ref = B.kron(a.mat, b.mat), kron_ref(a.ref, b.ref)
    mk.eq(mat, ref, "kron")
    mk.eq(B.transpose(mat), T(ref), "transpose(kron)")
    mk.true(tuple(B.shape(mat)) == ref.shape, "shape(kron)")


def kron_mixed(mk, ka, sa, sb, ba):
    """Kronecker products of Kronecker products mix with further factors."""
    a = make(mk, ka, "a", *sa, ba)
    b, c = make(mk, "dense", "b", *sb), make(mk, "dense", "c", 2, 1)
    mat, ref = B.kron(B.kron(a.mat, b.mat), c.mat), kron_ref(kron_ref(a.ref, b.ref), c.ref)
    mk.eq(mat, ref, "kron(kron, c)")
    mk.eq(B.kron(c.mat, B.kron(a.mat, b.mat)), kron_ref(c.ref, kron_ref(a.ref, b.ref)), "kron(c, kron)")


def tiled(mk, kinds, reps, axis, batches, form, s):
    shapes = [s] * len(kinds)
    ops = [make(mk, k, f"a{i}", *sh, b) for i, (k, sh, b) in enumerate(zip(kinds, shapes, batches))]
    if form == "pairs":
        mat = TiledBlocks(*((o.mat, r) for o, r in zip(ops, reps)), axis=axis)
    elif form == "one":
        mat, ops, reps = TiledBlocks(ops[0].mat, reps[0], axis=axis), ops[:1], reps[:1]
    elif form == "plain":
        mat, reps = TiledBlocks(*(o.mat for o in ops), axis=axis), [1] * len(ops)
    ref = cat(sum(([o.ref] * r for o, r in zip(ops, reps)), []), axis)
    mk.eq(mat, ref, "tiled blocks")
    mk.true(tuple(B.shape(mat)) == ref.shape, "shape")
    rows = []
    exp = sum(([o.ref] * r for o, r in zip(ops, reps)), [])
    zero = lambda i, j: mk.zeros(exp[i].shape[-2], exp[j].shape[-1])
    rows = [[x if i == j else zero(i, j) for j in range(len(exp))] for i, x in enumerate(exp)]
    mk.eq(B.block_diag(mat), grid_ref(rows), "block_diag(tiled blocks)")
    for other in [axis, -1 if axis == -2 else -2]:
        # Along the same axis the tiles are joined, along the other they are not.
        res = B.concat(mat, mat, axis=other)
        mk.eq(res, np.concatenate([ref, ref], axis=other), f"concat(tiled, tiled, axis={other})")


def repeated(mk, k, s, batch):
    """The same object more than once."""
    a = make(mk, k, "a", *s, batch)
    b = make(mk, "dense", "b", *s)
    x, y, p, q = a.mat, b.mat, a.ref, bc(b.ref, a.ref.shape)
    z = mk.zeros(*p.shape)
    check(mk, B.block_diag(x, x), grid_ref([[p, z], [z, p]]), "block_diag(a, a)")
    check(mk, B.block_diag(x, y, x), grid_ref([[p, z, z], [z, q, z], [z, z, p]]), "block_diag(a, b, a)")
    check(mk, B.block([x, x], [x, x]), grid_ref([[p, p], [p, p]]), "block([[a, a], [a, a]])")
    check(mk, B.block([x, y], [y, x]), grid_ref([[p, q], [q, p]]), "block([[a, b], [b, a]])")
    check(mk, B.block([x, y, x]), grid_ref([[p, q, p]]), "block([[a, b, a]])")
    check(mk, B.block([x], [y], [x]), grid_ref([[p], [q], [p]]), "block([[a], [b], [a]])")
    check(mk, B.block([x, B.zeros(x)], [B.zeros(x), x]), grid_ref([[p, z], [z, p]]), "block([[a, 0], [0, a]])")
    row = [x, y]
    check(mk, B.block(row, row), grid_ref([[p, q], [p, q]]), "block([row, row])")
    for axis in [-1, -2]:
        check(mk, B.concat(x, x, axis=axis), cat([p, p], axis), f"concat(a, a, axis={axis})")
        check(mk, B.concat(x, x, x, x, axis=axis), cat([p] * 4, axis), f"concat(a, a, a, a, axis={axis})")
        mk.eq(TiledBlocks((x, 2), (y, 1), (x, 3), axis=axis), cat([p, p, q, p, p, p], axis), f"tiles, axis {axis}")
    if k != "num":
        check(mk, B.kron(x, x), kron_ref(p, p), "kron(a, a)")
        check(mk, B.kron(x, B.kron(y, x)), kron_ref(p, kron_ref(q, p)), "kron(a, kron(b, a))")


def larger(mk, kinds, sizes, batch, off):
    """Many blocks of various sizes; `off` is a block that is not on the diagonal."""
    n = len(sizes)
    ops = [make(mk, k, f"a{i}", *s, batch if i % 2 else ()) for i, (k, s) in enumerate(zip(kinds, sizes))]
    grid = [[ops[i].mat if i == j else Zero(DT[mk.symbolic], sizes[i][0], sizes[j][1]) for j in range(n)] for i in range(n)]
    refs = [[ops[i].ref if i == j else mk.zeros(sizes[i][0], sizes[j][1]) for j in range(n)] for i in range(n)]
    check(mk, B.block_diag(*(o.mat for o in ops)), grid_ref(refs), "block_diag")
    if off:
        i, j = off
        o = make(mk, "dense", "o", sizes[i][0], sizes[j][1])
        grid[i][j], refs[i][j] = o.mat, o.ref
    check(mk, B.block(*grid), grid_ref(refs), "block")


ALL = ["zero", "dense", "diag", "const", "lt", "ut", "lr1", "wb", "krons", "num", "constb"]
RECT = ["zero", "dense", "const", "lr1", "kron", "num", "lt"]


def CASES(tier):
    out = []
    rep = lambda x, n, m: [[x] * m for _ in range(n)]
    # Blocks:
    for k in ALL:
        for o in ["zero", "dense", "diag"]:
            for b1, b2 in [((), ()), ((2,), ()), ((), (2,)), ((2, 1), (3,))]:
                kinds = [[k, o], [o, k]]
                out.append(Case(f"block:{k}/{o}:{b1}{b2}", block, dict(kinds=kinds, hs=[2, 2], ws=[2, 2], batches=[[b1, b2], [b2, b1]])))
                kinds = [[k, o], ["zero", "diag"]]
                out.append(Case(f"block2:{k}/{o}:{b1}{b2}", block, dict(kinds=kinds, hs=[2, 2], ws=[2, 2], batches=[[b1, b1], [(), b2]])))
                kinds = [["diag", "zero"], ["zero", k]]
                if o == "zero":
                    out.append(Case(f"block3:{k}:{b1}{b2}", block, dict(kinds=kinds, hs=[2, 2], ws=[2, 2], batches=[[b1, b1], [(), b2]])))
                    kinds = [["diag", "zero"], [k, "diag"]]
                    out.append(Case(f"block4:{k}:{b1}{b2}", block, dict(kinds=kinds, hs=[2, 2], ws=[2, 2], batches=[[b1, b1], [(), b2]])))
                    kinds = [["diag", k], ["zero", "diag"]]
                    out.append(Case(f"block5:{k}:{b1}{b2}", block, dict(kinds=kinds, hs=[2, 2], ws=[2, 2], batches=[[b1, b1], [b2, ()]])))
    for k in RECT:
        for o in RECT:
            for b1, b2 in [((), ()), ((2,), ()), ((2, 1), (3,))]:
                out.append(Case(f"rect:{k}/{o}:{b1}{b2}", block, dict(kinds=[[k, o], ["zero", k]], hs=[2, 1], ws=[1, 3], batches=[[b1, b2], [(), ()]])))
                out.append(Case(f"row:{k}/{o}:{b1}{b2}", block, dict(kinds=[[k, o, "zero"]], hs=[2], ws=[2, 1, 3], batches=[[b1, b2, ()]])))
                out.append(Case(f"col:{k}/{o}:{b1}{b2}", block, dict(kinds=[[k], [o], ["zero"]], hs=[2, 1, 1], ws=[2], batches=[[b1], [b2], [()]])))
    z = "zero"
    for k in ["diag", "zero", "dense", "lt"]:
        for b1, b2 in [((), ()), ((2,), ()), ((), (2,)), ((2, 1), (3,))]:
            for pos in range(3):
                kinds = [[("diag" if i != pos else k) if i == j else z for j in range(3)] for i in range(3)]
                out.append(Case(f"block3x3:{k}{pos}:{b1}{b2}", block, dict(kinds=kinds, hs=[1, 2, 3], ws=[1, 2, 3], batches=[[b1] * 3, [b2] * 3, [()] * 3])))
            for i in range(3):
                for j in range(3):
                    if i != j and not (k == "diag" and i != j) and b1 in [(), (2,)]:
                        kinds = [["diag" if x == y else (k if (x, y) == (i, j) else z) for y in range(3)] for x in range(3)]
                        out.append(Case(f"off3x3:{k}{i}{j}:{b1}{b2}", block, dict(kinds=kinds, hs=[2, 2, 2], ws=[2, 2, 2], batches=[[b1] * 3, [b2] * 3, [()] * 3])))
    # All arrangements of zero, diagonal, and dense blocks in a grid of two by two:
    for hs in [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3)]:
        for ws in [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3)]:
            for ks in itertools.product(["zero", "diag", "dense"], repeat=4):
                if ks.count("dense") > 1 or not all(ok_kind(ks[2 * i + j], hs[i], ws[j]) for i in range(2) for j in range(2)):
                    continue
                for bs in [((),) * 4, ((2,), (), (), ())]:
                    if bs[0] and "dense" in ks:
                        continue
                    out.append(Case(f"grid:{'-'.join(ks)}:{hs}{ws}{bs}", block, dict(kinds=[ks[:2], ks[2:]], hs=hs, ws=ws, batches=[bs[:2], bs[2:]])))
    # Almost block-diagonal grids of three by three:
    for hs in itertools.permutations([1, 2, 3]):
        for ws in itertools.permutations([1, 2, 3]):
            for b in [(), (2,)]:
                kinds = [["diag" if i == j and hs[i] == ws[j] else z for j in range(3)] for i in range(3)]
                out.append(Case(f"grid3:{hs}{ws}{b}", block, dict(kinds=kinds, hs=hs, ws=ws, batches=[[b] * 3, [()] * 3, [()] * 3])))
    for hs, ws in [((2,), (1, 1)), ((1, 1), (2,)), ((2, 1), (1, 1, 1)), ((1, 1, 1), (2, 1)), ((2, 2), (2, 1, 1))]:
        for k in ["zero", "diag", "const"]:
            kinds = [[k if hs[i] == ws[j] else z for j in range(len(ws))] for i in range(len(hs))]
            out.append(Case(f"grid-uneven:{k}:{hs}{ws}", block, dict(kinds=kinds, hs=hs, ws=ws, batches=[[()] * len(ws)] * len(hs))))
    # Zero blocks on the diagonal that are not square:
    out.append(Case("block-offgrid", block, dict(kinds=[["zero", "dense"], ["zero", "zero"]], hs=[1, 2], ws=[2, 1], batches=rep((), 2, 2))))
    out.append(Case("block-nonsquare-diag", block, dict(kinds=[["zero", "zero"], ["diag", "zero"]], hs=[1, 2], ws=[2, 1], batches=rep((), 2, 2))))
    out.append(Case("block-single", block, dict(kinds=[["diag"]], hs=[2], ws=[2], batches=[[(2,)]])))
    # Block-diagonal:
    for k in ALL:
        for b in [(), (2,)]:
            out.append(Case(f"block_diag1:{k}:{b}", block_diag, dict(kinds=[k], shapes=[(2, 2)], batches=[b])))
            out.append(Case(f"block_diag3:{k}:{b}", block_diag, dict(kinds=["diag", k, "zero"], shapes=[(2, 2), (2, 2), (1, 1)], batches=[b, (2,), ()])))
        for o in ALL:
            for b1, b2 in [((), ()), ((2,), ()), ((2, 1), (3,))]:
                out.append(Case(f"block_diag:{k}/{o}:{b1}{b2}", block_diag, dict(kinds=[k, o], shapes=[(2, 2), (2, 2)], batches=[b1, b2])))
    for k in RECT:
        for o in RECT:
            for b1, b2 in [((), ()), ((2,), (1,))]:
                out.append(Case(f"block_diag_rect:{k}/{o}:{b1}{b2}", block_diag, dict(kinds=[k, o, k], shapes=[(2, 1), (1, 3), (2, 2)], batches=[b1, b2, ()])))
    # Concatenation:
    for k in ALL:
        for o in ALL:
            for batch in [(), (2,)]:
                for axis in [None, 0, 1, -1, -2] + ([-3, 2] if batch else []):
                    if axis not in (None, 0, -1) and not (k in ("dense", "diag") or o in ("dense", "lr1")):
                        continue
                    if "num" in (k, o) or not batch and axis in (1, -2):
                        if k == o:
                            continue
                    out.append(Case(f"concat:{k}/{o}:{batch}:{axis}", concat, dict(kinds=[k, o], shapes=[(2, 2), (2, 2)], axis=axis, batch=batch)))
    # Tiling:
    for k in ALL:
        if k == "num":
            continue
        for s in [(2, 2), (1, 3)]:
            if not ok_kind(k, *s):
                continue
            for batch, reps in [((), (1, 1)), ((), (2, 1)), ((), (1, 3)), ((2,), (1, 2, 2)), ((2,), (2, 1, 2)), ((2, 1), (1, 3, 2, 1))]:
                out.append(Case(f"tile:{k}{s}{batch}:{reps}", tile, dict(k=k, s=s, batch=batch, reps=reps)))
    # Kronecker products:
    for k in ALL:
        for o in ALL:
            if k == "num" and o == "num":
                continue
            for b1, b2 in [((), ()), ((2,), ()), ((), (2,)), ((2, 1), (3,))]:
                out.append(Case(f"kron:{k}/{o}:{b1}{b2}", kron, dict(ka=k, kb=o, sa=(2, 2), sb=(2, 2), ba=b1, bb=b2)))
    for k in RECT:
        for o in RECT:
            if k == "num" and o == "num":
                continue
            for sa, sb in [((2, 1), (1, 3)), ((1, 2), (2, 3)), ((2, 3), (3, 1))]:
                out.append(Case(f"kron_rect:{k}/{o}:{sa}{sb}", kron, dict(ka=k, kb=o, sa=sa, sb=sb, ba=(), bb=())))
    for k in ALL:
        if k != "num":
            for ba in [(), (2,)]:
                out.append(Case(f"kron_mixed:{k}{ba}", kron_mixed, dict(ka=k, sa=(2, 2), sb=(1, 2), ba=ba)))
    # Tiled blocks:
    for k in ALL:
        for o in ["num", "dense", "zero", "diag"]:
            for axis in [-2, -1]:
                for b1, b2 in [((), ()), ((2,), ()), ((), (2,)), ((2, 1), (3,))]:
                    for form, reps in [("pairs", (2, 1)), ("pairs", (1, 3)), ("one", (3, 1)), ("plain", (1, 1))]:
                        if form == "one" and o != "num" or form == "plain" and o not in ("diag", "num"):
                            continue
                        out.append(Case(f"tiled:{k}/{o}:{b1}{b2}:{axis}:{form}{reps}", tiled, dict(kinds=[k, o], reps=reps, axis=axis, batches=[b1, b2], form=form, s=(2, 2))))
    for k in ALL + ["lrn", "kron"]:
        for s in [(1, 1), (2, 2), (2, 3), (3, 1)]:
            for batch in [(), (2,), (2, 1)]:
                if ok_kind(k, *s) and not (k == "kron" and s == (3, 1)):
                    out.append(Case(f"repeated:{k}{s}{batch}", repeated, dict(k=k, s=s, batch=batch), cost=2))
    for sizes in [((1, 1),) * 4, ((2, 2), (1, 1), (3, 3), (1, 1), (2, 2)), ((1, 2), (2, 1), (1, 1), (2, 2)), ((5, 5), (4, 4)), ((2, 1), (1, 2), (3, 2), (2, 3), (1, 1), (1, 1))]:
        for k in ["diag", "dense", "zero", "lt", "const", "lr1"]:
            for l in ["diag", "dense", "zero"]:
                kinds = [(k, l)[i % 2] if ok_kind((k, l)[i % 2], *s) else "dense" for i, s in enumerate(sizes)]
                for batch in [(), (2,)]:
                    for off in [None, (0, 1), (len(sizes) - 1, 0)]:
                        out.append(Case(f"larger:{k}{l}{sizes}{batch}{off}", larger, dict(kinds=kinds, sizes=sizes, batch=batch, off=off)))
    for c in out:
        c.id = c.id.replace(" ", "").replace("'", "")
    return out
