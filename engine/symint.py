"""Symbolic integers and tensors of which only the (symbolic) shape is known."""
from typing import Union

import lab as B
import numpy as np
import z3
from lab.shape import Dimension

from .sym import SymBool, Unsupported, cur


def lift(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return None
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if type(x) is Dimension:
        return lift(x.dim)
    return None


def ite(cond, a, b):
    if not isinstance(cond, SymBool):
        return a if cond else b
    return SymInt(z3.If(cond.c, lift(a), lift(b)))


def same(a, b):
    return SymBool(lift(a) == lift(b))


def _bin(f):
    def g(self, other):
        o = lift(other)
        if o is None:
            return NotImplemented
        return SymInt(z3.simplify(f(self.e, o)))

    return g


def _cmp(f):
    def g(self, other):
        o = lift(other)
        if o is None:
            return NotImplemented
        return SymBool(f(self.e, o))

    return g


class SymInt(Dimension):
    """A symbolic integer."""

    __iter__ = None
    __len__ = None
    __hash__ = object.__hash__

    def __init__(self, e):
        self.e = e

    @property
    def dim(self):
        return self

    __add__ = _bin(lambda a, b: a + b)
    __radd__ = _bin(lambda a, b: b + a)
    __sub__ = _bin(lambda a, b: a - b)
    __rsub__ = _bin(lambda a, b: b - a)
    __mul__ = _bin(lambda a, b: a * b)
    __rmul__ = _bin(lambda a, b: b * a)
    __eq__ = _cmp(lambda a, b: a == b)
    __ne__ = _cmp(lambda a, b: a != b)
    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)

    def __neg__(self):
        return SymInt(-self.e)

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        raise Unsupported("symbolic integer used as a concrete one")

    __int__ = __float__ = __index__

    def __floordiv__(self, other):
        raise Unsupported("integer division of symbolic integers")

    __mod__ = __truediv__ = __rtruediv__ = __rfloordiv__ = __pow__ = __floordiv__

    def __repr__(self):
        return f"SymInt({self.e})"

    __str__ = __repr__


def broadcast_shapes(s1, s2):
    """Forking reference: raises if the shapes cannot be broadcast."""
    s1, s2 = tuple(s1), tuple(s2)
    n = max(len(s1), len(s2))
    s1, s2 = (1,) * (n - len(s1)) + s1, (1,) * (n - len(s2)) + s2
    out = []
    for a, b in zip(s1, s2):
        if a == b:
            out.append(a)
        elif a == 1:
            out.append(b)
        elif b == 1:
            out.append(a)
        else:
            raise ValueError("shapes cannot be broadcast")
    return tuple(out)


class SymTensor(Dimension):
    """A tensor of a symbolic shape, the elements of which are not known."""

    __iter__ = None
    __len__ = None
    __hash__ = object.__hash__
    __array_ufunc__ = None
    dtype = np.dtype(float)

    def __init__(self, shape):
        self.shape = tuple(s.dim if type(s) is Dimension else s for s in shape)

    @property
    def dim(self):
        return self

    def _unknown(self, *a):
        raise Unsupported("value of a tensor of which only the shape is known")

    __float__ = __int__ = __index__ = _unknown

    def __bool__(self):
        """The truth of something unknown: both are explored."""
        n = 1
        for d in self.shape:
            if not (d == 1):
                raise ValueError("The truth value of an array is ambiguous")
        return bool(SymBool(z3.Bool(f"!b{next(cur().fresh)}")))

    def __getitem__(self, item):
        item = item if isinstance(item, tuple) else (item,)
        taken = sum(1 for i in item if i is not None and i is not Ellipsis)
        if Ellipsis in [i for i in item if isinstance(i, type(Ellipsis))]:
            k = [i is Ellipsis for i in item].index(True)
            item = item[:k] + (slice(None),) * (len(self.shape) - taken) + item[k + 1 :]
        else:
            item = item + (slice(None),) * (len(self.shape) - taken)
        shape, rest = [], list(self.shape)
        for i in item:
            if i is None:
                shape.append(1)
                continue
            d = rest.pop(0)
            if isinstance(i, slice):
                if i.start is None and i.stop is None and i.step is None:
                    shape.append(d)
                elif i.start is None and i.step is None:
                    shape.append(i.stop if i.stop <= d else d)
                else:
                    raise Unsupported("slice of a symbolic dimension")
            elif isinstance(i, (int, np.integer)):
                if not (i < d if i >= 0 else -i <= d):
                    raise IndexError("index is out of bounds")
            else:
                raise Unsupported("index into a symbolic dimension")
        return SymTensor(shape)

    def _ew(self, other):
        return SymTensor(broadcast_shapes(self.shape, np.shape(other) if not isinstance(other, SymTensor) else other.shape))

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _ew
    __pow__ = __rpow__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _ew

    def __neg__(self):
        return self

    __abs__ = __neg__

    def __repr__(self):
        return f"SymTensor{self.shape}"

    __str__ = __repr__


def install():
    """Register the tensors of symbolic shape with the functions of LAB."""
    from lab.shape import Shape

    f = B.dispatch(precedence=1000)

    @f
    def shape(a: SymTensor):
        return Shape(*a.shape)

    @f
    def shape(a: SymTensor, dim: B.Int):
        return a.shape[dim]

    @f
    def rank(a: SymTensor):
        return len(a.shape)

    @f
    def dtype(a: SymTensor):
        return float

    @f
    def dense(a: SymTensor):
        return a

    @f
    def is_scalar(a: SymTensor):
        return len(a.shape) == 0

    @f
    def one(a: SymTensor):
        return np.float64(1)

    @f
    def zero(a: SymTensor):
        return np.float64(0)

    @f
    def broadcast_to(a: SymTensor, *shape: B.Int):
        s = tuple(x.dim if type(x) is Dimension else x for x in shape)
        if len(s) < len(a.shape):
            raise ValueError("input operand has more dimensions than allowed")
        full = (1,) * (len(s) - len(a.shape)) + a.shape
        for x, y in zip(full, s):
            if not (x == y or x == 1):
                raise ValueError("operands could not be broadcast")
        return SymTensor(s)

    @f
    def _expand_dims(a: SymTensor, axis: B.Int = 0):
        r = len(a.shape)
        axis = axis if axis >= 0 else r + 1 + axis
        return SymTensor(a.shape[:axis] + (1,) + a.shape[axis:])

    @f
    def expand_dims(a: SymTensor, axis: B.Int = 0, times: B.Int = 1, ignore_scalar: bool = False):
        if ignore_scalar and not a.shape:
            return a
        for _ in range(times):
            a = _expand_dims(a, axis)
        return a

    @f
    def squeeze(a: SymTensor, axis: Union[B.Int, None] = None):
        if axis is None:
            return SymTensor([s for s in a.shape if s != 1])
        axis = axis % len(a.shape)
        if a.shape[axis] != 1:
            raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
        return SymTensor(a.shape[:axis] + a.shape[axis + 1 :])

    @f
    def uprank(a: SymTensor, rank: B.Int = 2):
        return SymTensor(a.shape + (1,) * (rank - len(a.shape)))

    @f
    def transpose(a: SymTensor, perm: Union[tuple, list, None] = None):
        if perm is None:
            if len(a.shape) < 2:
                return a
            return SymTensor(a.shape[:-2] + (a.shape[-1], a.shape[-2]))
        return SymTensor([a.shape[i] for i in perm])

    for name in ["negative", "abs", "sqrt", "exp", "log", "identity"]:

        def unary(a: SymTensor):
            return a

        unary.__name__ = unary.__qualname__ = name
        f(unary)

    shp = lambda x: x.shape if isinstance(x, SymTensor) else tuple(np.shape(x))

    for name in ["add", "subtract", "multiply", "divide", "power", "minimum", "maximum"]:
        for t0, t1 in [(SymTensor, SymTensor), (SymTensor, B.Numeric), (B.Numeric, SymTensor)]:

            def binary(a: t0, b: t1):
                return SymTensor(broadcast_shapes(shp(a), shp(b)))

            binary.__name__ = binary.__qualname__ = name
            f(binary)

    def mm(a, b, tr_a, tr_b):
        sa, sb = shp(a), shp(b)
        if len(sa) < 2 or len(sb) < 2:
            raise Unsupported("product with a vector")
        (p, q), (r, s) = sa[-2:], sb[-2:]
        if tr_a:
            p, q = q, p
        if tr_b:
            r, s = s, r
        if q != r:
            raise ValueError("matmul: mismatch in the core dimension")
        return SymTensor(broadcast_shapes(sa[:-2], sb[:-2]) + (p, s))

    for t0, t1 in [(SymTensor, SymTensor), (SymTensor, B.Numeric), (B.Numeric, SymTensor)]:

        @f
        def matmul(a: t0, b: t1, tr_a: bool = False, tr_b: bool = False):
            return mm(a, b, tr_a, tr_b)

    for name in ["sum", "mean", "prod", "min", "max"]:

        def reduce(a: SymTensor, axis: Union[B.Int, None] = None, squeeze: bool = True):
            if axis is None:
                return SymTensor(()) if squeeze else SymTensor((1,) * len(a.shape))
            axis = range(len(a.shape))[axis]
            return SymTensor(a.shape[:axis] + (() if squeeze else (1,)) + a.shape[axis + 1 :])

        reduce.__name__ = reduce.__qualname__ = name
        f(reduce)

    @f
    def diag_extract(a: SymTensor):
        r, c = a.shape[-2:]
        return SymTensor(a.shape[:-2] + ((r if r <= c else c),))

    @f
    def diag_construct(a: SymTensor):
        if not a.shape:
            raise ValueError("Input must have at least rank 1.")
        return SymTensor(a.shape + a.shape[-1:])

    @f
    def diag(a: SymTensor):
        return diag_extract(a) if len(a.shape) == 2 else diag_construct(a)

    @f
    def cast(dtype: B.DType, a: SymTensor):
        return a

    @f
    def reg(a: SymTensor, *, diag=None, clip: bool = True):
        return a

    @f
    def argsort(a: SymTensor, axis: B.Int = -1):
        n = a.shape[axis]
        if not isinstance(n, (int, np.integer)):
            raise Unsupported("order of a symbolic number of elements")
        # Any order: the first one is free, and the remaining ones stay in place.
        perm = list(range(n))
        if n > 1:
            k = cur().choose(n, "argsort")
            perm = [perm[k]] + perm[:k] + perm[k + 1 :]
        return np.array(perm)

    for name in ["all", "any"]:

        def quantor(a: SymTensor, axis: Union[B.Int, None] = None, squeeze: bool = True):
            return SymTensor(()) if axis is None else B.sum(a, axis=axis, squeeze=squeeze)

        quantor.__name__ = quantor.__qualname__ = name
        f(quantor)

    @f
    def take(a: SymTensor, inds: Union[tuple, list], axis: B.Int = 0):
        axis = range(len(a.shape))[axis]
        d = a.shape[axis]
        for i in inds:
            if not (i < d if i >= 0 else -i <= d):
                raise IndexError("index is out of bounds")
        return SymTensor(a.shape[:axis] + (len(inds),) + a.shape[axis + 1 :])

    orig_concat = B.concat

    def concat(*xs, axis=0):
        if not any(isinstance(x, SymTensor) for x in xs):
            return orig_concat(*xs, axis=axis)
        if any(not isinstance(x, SymTensor) and type(x).__module__.startswith("matrix") for x in xs):
            return orig_concat(*xs, axis=axis)
        ss = [shp(x) for x in xs]
        if len({len(s) for s in ss}) > 1:
            raise ValueError("all the input array dimensions must match")
        axis = range(len(ss[0]))[axis]
        for s in ss[1:]:
            for i, (p, q) in enumerate(zip(ss[0], s)):
                if i != axis and p != q:
                    raise ValueError("all the input array dimensions must match exactly")
        total = ss[0][axis]
        for s in ss[1:]:
            total = total + s[axis]
        return SymTensor(ss[0][:axis] + (total,) + ss[0][axis + 1 :])

    concat.invoke = orig_concat.invoke
    B.concat = concat

    orig_stack = B.stack

    def stack(*xs, axis=0):
        if not any(isinstance(x, SymTensor) for x in xs):
            return orig_stack(*xs, axis=axis)
        ss = [shp(x) for x in xs]
        for s in ss[1:]:
            if len(s) != len(ss[0]) or any(p != q for p, q in zip(s, ss[0])):
                raise ValueError("all input arrays must have the same shape")
        axis = range(len(ss[0]) + 1)[axis]
        return SymTensor(ss[0][:axis] + (len(xs),) + ss[0][axis:])

    stack.invoke = orig_stack.invoke
    B.stack = stack

    @f
    def unstack(a: SymTensor, axis: B.Int = 0, squeeze: bool = True):
        axis = range(len(a.shape))[axis]
        n = a.shape[axis]
        if not isinstance(n, (int, np.integer)):
            raise Unsupported("taking apart a symbolic dimension")
        return [SymTensor(a.shape[:axis] + (() if squeeze else (1,)) + a.shape[axis + 1 :]) for _ in range(n)]

    orig_bt = B.broadcast_to

    def broadcast_to(a, *shape):
        if not isinstance(a, SymTensor) and isinstance(a, B.Numeric) and any(isinstance(getattr(x, "dim", x), SymInt) for x in shape):
            a = SymTensor(np.shape(a))
        return orig_bt(a, *shape)

    broadcast_to.invoke = orig_bt.invoke
    B.broadcast_to = broadcast_to

    @f
    def reshape(a: SymTensor, *shape: B.Int):
        if any(isinstance(x, (int, np.integer)) and x < 0 for x in shape):
            raise Unsupported("reshape to a computed size")
        # That the number of elements is right is not checked.
        return SymTensor(shape)

    def square(a):
        if len(a.shape) < 2 or a.shape[-1] != a.shape[-2]:
            raise ValueError("must be square")

    @f
    def cholesky(a: SymTensor):
        square(a)
        return a

    @f
    def inv(a: SymTensor):
        square(a)
        return a

    for t0, t1 in [(SymTensor, SymTensor), (SymTensor, B.Numeric), (B.Numeric, SymTensor)]:

        @f
        def solve(a: t0, b: t1):
            square(a)
            return mm(a, b, False, False)

        @f
        def triangular_solve(a: t0, b: t1, lower_a: bool = True):
            square(a)
            return mm(a, b, False, False)

        @f
        def cholesky_solve(a: t0, b: t1):
            square(a)
            return mm(a, b, False, False)

    orig = B.ones

    def ones(*args):
        if any(isinstance(x, SymInt) or type(x) is Dimension and isinstance(x.dim, SymInt) for x in args):
            return SymTensor([x for x in args if isinstance(x, (int, np.integer, Dimension))])
        return orig(*args)

    ones.invoke = orig.invoke
    B.ones = ones

    orig_zeros = B.zeros

    def zeros(*args):
        if any(isinstance(x, SymInt) or type(x) is Dimension and isinstance(x.dim, SymInt) for x in args):
            return SymTensor([x for x in args if isinstance(x, (int, np.integer, Dimension))])
        return orig_zeros(*args)

    zeros.invoke = orig_zeros.invoke
    B.zeros = zeros
