"""Assumed contracts of the torch / numpy operations the repository calls, over symbolic tensors.

A SymTensor has a concrete rank, symbolic extents and an element function index -> term.
Floating point is treated as real arithmetic (listed as an assumption in every evidence file).
"""
import math, itertools
import z3
from .symcore import *
from .symcore import _num, _SymNum
from . import symcore


class CVal:
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = to_real(re), to_real(im)

    @staticmethod
    def lift(x):
        if isinstance(x, CVal):
            return x
        if isinstance(x, complex):
            return CVal(realval(x.real), realval(x.imag))
        return CVal(x, z3.RealVal(0))


def _val(x):
    if isinstance(x, CVal):
        return x
    if isinstance(x, complex):
        return CVal.lift(x)
    return to_z3(x)


def v_add(a, b):
    if isinstance(a, CVal) or isinstance(b, CVal):
        a, b = CVal.lift(a), CVal.lift(b)
        return CVal(a.re + b.re, a.im + b.im)
    return s_add(a, b)


def v_neg(a):
    if isinstance(a, CVal):
        return CVal(-a.re, -a.im)
    a = to_z3(a)
    return -(to_int(a) if z3.is_bool(a) else a)


def v_sub(a, b):
    return v_add(a, v_neg(b))


def v_mul(a, b):
    if isinstance(a, CVal) or isinstance(b, CVal):
        if not isinstance(a, CVal):
            a, b = b, a
        if not isinstance(b, CVal):
            b = to_real(b)
            return CVal(a.re * b, a.im * b)
        return CVal(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)
    return s_mul(a, b)


def v_div(a, b):
    if isinstance(b, CVal):
        raise Unsupported("complex division")
    if isinstance(a, CVal):
        b = to_real(b)
        return CVal(a.re / b, a.im / b)
    return s_div(a, b)


def v_ite(c, a, b):
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, CVal) or isinstance(b, CVal):
        a, b = CVal.lift(a), CVal.lift(b)
        return CVal(z3.If(c, a.re, b.re), z3.If(c, a.im, b.im))
    a, b = to_z3(a), to_z3(b)
    if a.sort() != b.sort():
        if z3.is_bool(a) or z3.is_bool(b):
            a, b = to_int(a), to_int(b)
        if a.sort() != b.sort():
            a, b = to_real(a), to_real(b)
    return z3.If(c, a, b)


def v_cmp(f):
    def g(a, b):
        if isinstance(a, CVal) or isinstance(b, CVal):
            raise Unsupported("complex comparison")
        a, b = to_z3(a), to_z3(b)
        if z3.is_bool(a):
            a = to_int(a)
        if z3.is_bool(b):
            b = to_int(b)
        if a.sort() != b.sort():
            a, b = to_real(a), to_real(b)
        return f(a, b)

    return g


class DType:
    def __init__(self, name, kind):
        self.name, self.kind = name, kind
        self.is_complex = kind == "c"
        self.is_floating_point = kind == "r"

    def __repr__(self):
        return "torch." + self.name

    def __deepcopy__(self, memo):
        return self

    @property
    def itemsize(self):
        return {"float32": 4, "float64": 8, "int64": 8, "int32": 4}.get(self.name, 2)


float32 = DType("float32", "r")
float64 = DType("float64", "r")
float16 = DType("float16", "r")
bfloat16 = DType("bfloat16", "r")
int64 = DType("int64", "i")
int32 = DType("int32", "i")
bool_ = DType("bool", "b")
complex64 = DType("complex64", "c")
complex128 = DType("complex128", "c")
_RANK = {"bool": 0, "int32": 1, "int64": 2, "float16": 3, "bfloat16": 3, "float32": 4, "float64": 5, "complex64": 6, "complex128": 7}


def promote(a, b):
    if a is None:
        return b
    if b is None:
        return a
    r = a if _RANK[a.name] >= _RANK[b.name] else b
    if r is complex64 and (a is float64 or b is float64):
        return complex128
    return r


def kind_of(v):
    if isinstance(v, (CVal, complex)):
        return complex64
    if isinstance(v, bool) or (isinstance(v, SymBool)):
        return bool_
    if isinstance(v, (int, SymInt)):
        return int64
    if isinstance(v, (float, SymReal)):
        return float32
    if isinstance(v, z3.ExprRef):
        return bool_ if z3.is_bool(v) else int64 if z3.is_int(v) else float32
    raise Unsupported(f"scalar kind {type(v)}")


class Device:
    type = "cpu"
    index = None

    def __repr__(self):
        return "cpu"

    def __eq__(self, o):
        return True

    def __hash__(self):
        return 0

    def __deepcopy__(self, memo):
        return self


CPU = Device()


class Size(tuple):
    def numel(self):
        r = 1
        for s in self:
            r = r * s
        return r

    def __getitem__(self, i):
        r = tuple.__getitem__(self, i)
        return Size(r) if isinstance(i, slice) else r


def dimeq(a, b):
    a, b = to_int(a), to_int(b)
    if z3.eq(z3.simplify(a), z3.simplify(b)):
        return True
    return Ctx.cur.entails(a == b)


def lit(x):
    """Python int if x is a literal."""
    if isinstance(x, int):
        return x
    e = z3.simplify(to_int(x))
    return e.as_long() if z3.is_int_value(e) else None


def norm_size(s):
    l = lit(s)
    return l if l is not None else wrap(z3.simplify(to_int(s)))


class SymTensor:
    __hash__ = None
    __array_priority__ = 1000

    def __init__(self, shape, fn, dtype=float64, view=None, tainted=False):
        self._shape = Size(norm_size(s) for s in shape)
        self._fn = fn
        self._memo = {}
        self.dtype = dtype
        self._view = view  # (base, to_base, inv)
        self._ver = None
        self._aliases_unknown = tainted
        self.requires_grad = False
        self.device = CPU
        self.layout_contig = True
        self._version = 0

    # -------- basics
    @staticmethod
    def input(name, shape, dtype=float64, free=True):
        """Arbitrary tensor: uninterpreted function of its index (free: a true program input)."""
        n = len(shape)
        if free:
            INPUT_FUNS.update((name, name + "_re", name + "_im"))
        if dtype.kind == "c":
            fr = z3.Function(name + "_re", *([INT] * n + [REAL])) if n else None
            fi = z3.Function(name + "_im", *([INT] * n + [REAL])) if n else None
            if n == 0:
                return SymTensor((), lambda: CVal(z3.Real(name + "_re"), z3.Real(name + "_im")), dtype)
            return SymTensor(shape, lambda *i: CVal(fr(*i), fi(*i)), dtype)
        so = {"r": REAL, "i": INT, "b": BOOL}[dtype.kind]
        if n == 0:
            c = z3.Const(name, so)
            return SymTensor((), lambda: c, dtype)
        f = z3.Function(name, *([INT] * n + [so]))
        return SymTensor(shape, lambda *i: f(*i), dtype)

    def at(self, *idx):
        idx = tuple(z3.simplify(to_int(i)) for i in idx)
        if len(idx) != len(self._shape):
            raise Unsupported("rank mismatch in element access")
        if self._view is not None:
            base, tb, _ = self._view
            return base.at(*tb(idx))
        key = tuple(i.get_id() for i in idx)
        h = self._memo.get(key)
        if h is None:
            h = (_val(self._fn(*idx)), idx)
            self._memo[key] = h
        return h[0]

    def _set_fn(self, fn):
        self._fn = fn
        self._memo = {}
        self._version += 1

    def _snapshot(self):
        """Element function frozen at this point (views read through otherwise)."""
        if self._view is not None:
            base, tb, _ = self._view
            f = base._snapshot()
            return lambda *idx: f(*tb(idx))
        fn, memo = self._fn, self._memo

        def f(*idx):
            idx = tuple(z3.simplify(to_int(i)) for i in idx)
            key = tuple(i.get_id() for i in idx)
            h = memo.get(key)
            if h is None:
                h = (_val(fn(*idx)), idx)
                memo[key] = h
            return h[0]

        return f

    def _write(self, region, val):
        """region(idx)->z3 cond, val(idx)->value : in-place update."""
        if self._aliases_unknown:
            raise Unsupported("in-place write through a possibly aliasing reshape")
        if self._view is not None:
            base, tb, inv = self._view
            if inv is None:
                raise Unsupported("in-place write through this view")

            def breg(*bidx):
                c, vi = inv(bidx)
                return z3.And(c, region(*vi)) if c is not None else region(*vi)

            def bval(*bidx):
                c, vi = inv(bidx)
                return val(*vi)

            base._write(breg, bval)
            return
        old = self._snapshot()
        kind = self.dtype.kind

        def fn(*idx):
            c = z3.simplify(region(*idx))
            if z3.is_false(c):
                return old(*idx)
            v = cast_val(val(*idx), kind)
            if z3.is_true(c):
                return v
            return v_ite(c, v, old(*idx))

        self._set_fn(fn)

    @property
    def shape(self):
        return self._shape

    def size(self, d=None):
        return self._shape if d is None else self._shape[d]

    @property
    def ndim(self):
        return len(self._shape)

    def dim(self):
        return len(self._shape)

    def numel(self):
        return self._shape.numel()

    nelement = numel

    def __len__(self):
        n = self._shape[0]
        if isinstance(n, int):
            return n
        raise Unsupported("len() outside shim")

    def vp_len(self):
        return self._shape[0]

    def is_floating_point(self):
        return self.dtype.kind == "r"

    def is_complex(self):
        return self.dtype.kind == "c"

    @property
    def is_cuda(self):
        return False

    def get_device(self):
        return -1

    def is_contiguous(self, *a, **k):
        return True

    def contiguous(self, *a, **k):
        # a fresh value or the same tensor: aliasing is kept only for non-views
        if self._view is None:
            return self
        return self.clone()

    def clone(self, *a, **k):
        return SymTensor(self._shape, self._snapshot(), self.dtype)

    def detach(self):
        return self

    def cpu(self):
        return self

    def requires_grad_(self, *a):
        return self

    def __deepcopy__(self, memo):
        return self.clone()

    def to(self, *a, **k):
        dt = k.get("dtype")
        for x in a:
            if isinstance(x, DType):
                dt = x
            elif isinstance(x, SymTensor):
                dt = x.dtype
        if dt is None or dt is self.dtype:
            return self
        return self.astype(dt)

    type = to

    def type_as(self, o):
        return self.astype(o.dtype)

    def astype(self, dt):
        if dt is self.dtype:
            return self
        f = self._snapshot()
        return SymTensor(self._shape, lambda *i: cast_val(f(*i), dt.kind), dt)

    def float(self):
        return self.astype(float32)

    def double(self):
        return self.astype(float64)

    def long(self):
        return self.astype(int64)

    def int(self):
        return self.astype(int32)

    def bool(self):
        return self.astype(bool_)

    def item(self):
        if self.ndim == 0:
            v = self.at()
        else:
            v = self.at(*([0] * self.ndim))
        return wrap(v) if not isinstance(v, CVal) else v

    def _scalar_z3(self):
        v = self.item()
        return to_z3(v)

    def __bool__(self):
        n = self.numel()
        if lit(n) == 1:
            return Ctx.cur.decide(as_z3bool(to_z3(self.item())))
        raise Unsupported("truth value of a tensor")

    def __float__(self):
        raise Unsupported("float(tensor)")

    def tolist(self):
        if self.ndim == 1:
            n = lit(self._shape[0])
            if n is None:
                f = self._snapshot()
                return SymList([(to_int(self._shape[0]), lambda i: wrap(f(i)))])
            return [wrap(self.at(i)) for i in range(n)]
        raise Unsupported("tolist")

    def __iter__(self):
        n = lit(self._shape[0])
        if n is None:
            raise Unsupported("iteration over a tensor of symbolic length")
        for i in range(n):
            yield self[i]

    # -------- elementwise
    def _ew(self, o, f, dt=None, swap=False):
        if isinstance(o, SymTensor):
            return ewise(lambda a, b: f(a, b), [o, self] if swap else [self, o], dt)
        if o is None or isinstance(o, str):
            return NotImplemented
        if isinstance(o, (float,)) and o in (math.inf, -math.inf):
            raise Unsupported("infinite literal")
        ov = _val(o)
        g = self._snapshot()
        d = dt
        if d is None:
            od = kind_of(o)
            order = {"b": 0, "i": 1, "r": 2, "c": 3}
            if order[od.kind] > order[self.dtype.kind]:
                d = od
                if od.kind == "c" and self.dtype is float64:
                    d = complex128
            else:
                d = self.dtype
        if swap:
            return SymTensor(self._shape, lambda *i: f(ov, g(*i)), d)
        return SymTensor(self._shape, lambda *i: f(g(*i), ov), d)

    def __add__(self, o):
        return self._ew(o, v_add)

    def __radd__(self, o):
        return self._ew(o, v_add, swap=True)

    def __sub__(self, o):
        return self._ew(o, v_sub)

    def __rsub__(self, o):
        return self._ew(o, v_sub, swap=True)

    def __mul__(self, o):
        return self._ew(o, v_mul)

    def __rmul__(self, o):
        return self._ew(o, v_mul, swap=True)

    def _divdt(self, o):
        if self.dtype.kind in "ib":
            if isinstance(o, SymTensor) and o.dtype.kind in "rc":
                return o.dtype
            return float32
        return None

    def __truediv__(self, o):
        return self._ew(o, v_div, self._divdt(o))

    def __rtruediv__(self, o):
        return self._ew(o, v_div, self._divdt(o), swap=True)

    def __floordiv__(self, o):
        return self._ew(o, v_floordiv)

    def __mod__(self, o):
        return self._ew(o, v_mod)

    def __pow__(self, n):
        if isinstance(n, SymTensor):
            return ewise(lambda a, b: rfun("pow", a, b), [self, n])
        f = self._snapshot()
        return SymTensor(self._shape, lambda *i: v_pow(f(*i), n), self.dtype)

    def __rpow__(self, a):
        return self._ew(a, lambda x, y: rfun("pow", x, y), swap=True)

    def __neg__(self):
        return self._map(v_neg)

    def __invert__(self):
        return self._map(lambda a: z3.Not(as_z3bool(a)), bool_)

    def __lt__(self, o):
        return self._ew(o, v_cmp(lambda a, b: a < b), bool_)

    def __le__(self, o):
        return self._ew(o, v_cmp(lambda a, b: a <= b), bool_)

    def __gt__(self, o):
        return self._ew(o, v_cmp(lambda a, b: a > b), bool_)

    def __ge__(self, o):
        return self._ew(o, v_cmp(lambda a, b: a >= b), bool_)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._ew(o, v_cmp(lambda a, b: a == b), bool_)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._ew(o, v_cmp(lambda a, b: a != b), bool_)

    def __and__(self, o):
        return self._ew(o, lambda a, b: z3.And(as_z3bool(a), as_z3bool(b)), bool_)

    def __or__(self, o):
        return self._ew(o, lambda a, b: z3.Or(as_z3bool(a), as_z3bool(b)), bool_)

    __rand__ = __and__
    __ror__ = __or__

    def logical_and(self, o):
        return self & o

    def logical_or(self, o):
        return self | o

    def __matmul__(self, o):
        return matmul(self, o)

    def _map(self, f, dt=None):
        g = self._snapshot()
        return SymTensor(self._shape, lambda *i: f(g(*i)), dt or self.dtype)

    def _inplace(self, r):
        f = r._snapshot()
        if len(r._shape) != len(self._shape):
            raise Unsupported("in-place op changing rank")
        self._write(lambda *i: z3.BoolVal(True), f)
        return self

    def __iadd__(self, o):
        return self._inplace(bcast_to(self + o, self._shape))

    def __isub__(self, o):
        return self._inplace(bcast_to(self - o, self._shape))

    def __imul__(self, o):
        return self._inplace(bcast_to(self * o, self._shape))

    def __itruediv__(self, o):
        return self._inplace(bcast_to(self / o, self._shape))

    def add_(self, o, alpha=1):
        return self._inplace(bcast_to(self + (o if alpha == 1 else o * alpha), self._shape))

    def sub_(self, o):
        return self._inplace(bcast_to(self - o, self._shape))

    def mul_(self, o):
        return self._inplace(bcast_to(self * o, self._shape))

    def div_(self, o):
        return self._inplace(bcast_to(self / o, self._shape))

    def copy_(self, o):
        return self._inplace(bcast_to(o, self._shape))

    def zero_(self):
        self._write(lambda *i: z3.BoolVal(True), lambda *i: zero_of(self.dtype))
        return self

    def fill_(self, v):
        vz = _val(v)
        self._write(lambda *i: z3.BoolVal(True), lambda *i: vz)
        return self

    def add(self, o):
        return self + o

    def sub(self, o):
        return self - o

    def mul(self, o):
        return self * o

    def div(self, o):
        return self / o

    def neg(self):
        return -self

    def pow(self, n):
        return self**n

    def square(self):
        return self * self

    def sqrt(self):
        return self._map(v_sqrt, _fl(self.dtype))

    def rsqrt(self):
        return self._map(lambda a: 1 / v_sqrt(a), _fl(self.dtype))

    def reciprocal(self):
        return 1.0 / self

    def exp(self):
        return self._map(v_fun("exp"), _fl(self.dtype))

    def log(self):
        return self._map(v_fun("log"), _fl(self.dtype))

    def sin(self):
        return self._map(v_fun("sin"), _fl(self.dtype))

    def cos(self):
        return self._map(v_fun("cos"), _fl(self.dtype))

    def abs(self):
        return self._map(v_abs)

    __abs__ = abs

    def floor(self):
        return self._map(lambda a: z3.ToReal(opaque("rfloor", REAL, INT)(to_real(a))))

    def clamp(self, min=None, max=None):
        def f(a):
            if min is not None:
                m = to_z3(min)
                a, m = _same(a, m)
                a = z3.If(a < m, m, a)
            if max is not None:
                m = to_z3(max)
                a, m = _same(a, m)
                a = z3.If(a > m, m, a)
            return a

        return self._map(f)

    clip = clamp

    def conj(self):
        return self._map(lambda a: CVal(a.re, -a.im) if isinstance(a, CVal) else a)

    @property
    def real(self):
        if self.dtype.kind != "c":
            return self
        f = self._snapshot()
        return _part_view(self, 0)

    @property
    def imag(self):
        if self.dtype.kind != "c":
            raise RuntimeError("imag is not implemented for tensors with non-complex dtypes.")
        return _part_view(self, 1)

    @imag.setter
    def imag(self, v):
        g = bcast_to(v, self._shape) if isinstance(v, SymTensor) else None
        vz = None if g is not None else to_real(v)
        old = self._snapshot()
        self._write(lambda *i: z3.BoolVal(True), lambda *i: CVal(old(*i).re, g.at(*i) if g is not None else vz))

    @real.setter
    def real(self, v):
        g = bcast_to(v, self._shape) if isinstance(v, SymTensor) else None
        vz = None if g is not None else to_real(v)
        old = self._snapshot()
        self._write(lambda *i: z3.BoolVal(True), lambda *i: CVal(g.at(*i) if g is not None else vz, old(*i).im))

    # -------- reductions
    def sum(self, dim=None, keepdim=False, keepdims=False, dtype=None, axis=None):
        if axis is not None:
            dim = axis
        return reduce_sum(self, dim, keepdim or keepdims)

    def mean(self, dim=None, keepdim=False, keepdims=False):
        n = 1
        dims = range(self.ndim) if dim is None else ([dim] if isinstance(dim, int) else dim)
        for d in dims:
            n = n * self._shape[d]
        return reduce_sum(self, dim, keepdim or keepdims) / n

    def any(self, *a):
        return quant(self, True)

    def all(self, *a):
        return quant(self, False)

    # -------- shape ops (views where torch makes views)
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, v):
        setitem(self, key, v)

    def permute(self, *dims):
        if len(dims) == 1 and isinstance(dims[0], (tuple, list)):
            dims = tuple(dims[0])
        n = self.ndim
        dims = [d % n for d in dims]
        if sorted(dims) != list(range(n)):
            raise RuntimeError("permute: repeated or missing dims")

        def tb(vi):
            out = [None] * n
            for k, d in enumerate(dims):
                out[d] = vi[k]
            return tuple(out)

        return SymTensor([self._shape[d] for d in dims], None, self.dtype, view=(self, tb, lambda bi: (None, tuple(bi[d] for d in dims))))

    def transpose(self, a, b):
        n = self.ndim
        dims = list(range(n))
        a, b = a % n, b % n
        dims[a], dims[b] = dims[b], dims[a]
        return self.permute(*dims)

    swapaxes = transpose

    @property
    def T(self):
        return self.permute(*reversed(range(self.ndim)))

    def t(self):
        return self.T

    def movedim(self, s, d):
        n = self.ndim
        dims = list(range(n))
        x = dims.pop(s % n)
        dims.insert(d % n, x)
        return self.permute(*dims)

    def unsqueeze(self, d):
        n = self.ndim + 1
        d = d % n
        sh = list(self._shape)
        sh.insert(d, 1)
        return SymTensor(sh, None, self.dtype, view=(self, lambda vi: tuple(vi[:d]) + tuple(vi[d + 1 :]), lambda bi: (None, tuple(bi[:d]) + (z3.IntVal(0),) + tuple(bi[d:]))))

    def squeeze(self, d=None):
        if d is None:
            ds = [i for i, s in enumerate(self._shape) if lit(s) == 1]
            for i, s in enumerate(self._shape):
                if lit(s) is None and not Ctx.cur.entails(to_int(s) != 1):
                    if SymBool(to_int(s) == 1).__bool__():
                        ds.append(i)
        else:
            d = d % self.ndim
            if lit(self._shape[d]) is None:
                if wrap(z3.simplify(to_int(self._shape[d]) == 1)):
                    ds = [d]
                else:
                    ds = []
            else:
                ds = [d] if lit(self._shape[d]) == 1 else []
        keep = [i for i in range(self.ndim) if i not in ds]
        n = self.ndim

        def tb(vi):
            out = [z3.IntVal(0)] * n
            for k, d in enumerate(keep):
                out[d] = vi[k]
            return tuple(out)

        return SymTensor([self._shape[i] for i in keep], None, self.dtype, view=(self, tb, lambda bi: (None, tuple(bi[d] for d in keep))))

    def narrow(self, dim, start, length):
        key = [slice(None)] * self.ndim
        s, l = to_int(start), to_int(length)
        n = to_int(self._shape[dim])
        Ctx.cur.prove("narrow-in-bounds", z3.And(s >= 0, l >= 0, s + l <= n))
        dim = dim % self.ndim
        sh = list(self._shape)
        sh[dim] = norm_size(l)

        def tb(vi):
            vi = list(vi)
            vi[dim] = vi[dim] + s
            return tuple(vi)

        def inv(bi):
            b = list(bi)
            b[dim] = b[dim] - s
            return z3.And(b[dim] >= 0, b[dim] < l), tuple(b)

        return SymTensor(sh, None, self.dtype, view=(self, tb, inv))

    def select(self, dim, i):
        key = [slice(None)] * self.ndim
        key[dim] = i
        return self[tuple(key)]

    def index_select(self, dim, idx):
        key = [slice(None)] * self.ndim
        key[dim] = idx
        return self[tuple(key)]

    def expand(self, *sh):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = tuple(sh[0])
        off = len(sh) - self.ndim
        sh2 = []
        for i, s in enumerate(sh):
            if lit(s) == -1:
                sh2.append(self._shape[i - off])
            else:
                sh2.append(s)
        return bcast_to(self, sh2)

    def expand_as(self, o):
        return bcast_to(self, o._shape)

    def broadcast_to(self, sh):
        return bcast_to(self, sh)

    def view(self, *sh):
        return self.reshape(*sh)

    def reshape(self, *sh):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = tuple(sh[0])
        return reshape(self, sh)

    def flatten(self, start_dim=0, end_dim=-1):
        n = self.ndim
        s, e = start_dim % n, end_dim % n
        p = 1
        for d in range(s, e + 1):
            p = p * self._shape[d]
        return reshape(self, tuple(self._shape[:s]) + (p,) + tuple(self._shape[e + 1 :]))

    def unflatten(self, d, sizes):
        d = d % self.ndim
        return reshape(self, tuple(self._shape[:d]) + tuple(sizes) + tuple(self._shape[d + 1 :]))

    def tile(self, *reps):
        if len(reps) == 1 and isinstance(reps[0], (tuple, list)):
            reps = tuple(reps[0])
        return repeat(self, reps)

    def repeat(self, *reps):
        if len(reps) == 1 and isinstance(reps[0], (tuple, list)):
            reps = tuple(reps[0])
        return repeat(self, reps)

    def flip(self, *dims):
        return flip(self, dims[0] if len(dims) == 1 and isinstance(dims[0], (tuple, list)) else dims)

    def roll(self, shifts, dims=None):
        return roll(self, shifts, dims)

    def split(self, sizes, dim=0):
        return split(self, sizes, dim)

    def new_zeros(self, *sh, dtype=None, device=None):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = tuple(sh[0])
        return const_tensor(sh, 0, dtype or self.dtype)

    def new_empty(self, *sh, dtype=None, device=None):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = tuple(sh[0])
        return SymTensor.input(f"uninit{next(symcore._ctr)}", sh, dtype or self.dtype)

    def __repr__(self):
        return f"SymTensor{tuple(self._shape)}:{self.dtype.name}"


def _part_view(t, which):
    f = t

    def tb(vi):
        return vi

    class PV(SymTensor):
        def at(self, *idx):
            v = CVal.lift(f.at(*idx))
            return v.im if which else v.re

        def _snapshot(self):
            g = f._snapshot()

            def h(*i):
                v = CVal.lift(g(*i))
                return v.im if which else v.re

            return h

        def _write(self, region, val):
            g = f._snapshot()

            def nv(*i):
                v = CVal.lift(g(*i))
                return CVal(v.re, val(*i)) if which else CVal(val(*i), v.im)

            f._write(region, nv)

    r = PV(t._shape, None, float64 if t.dtype is complex128 else float32)
    r._view = None
    r.contiguous = lambda *a, **k: SymTensor(r._shape, r._snapshot(), r.dtype)
    return r


def _fl(dt):
    return dt if dt.kind in "rc" else float32


def _same(a, b):
    a, b = to_z3(a), to_z3(b)
    if z3.is_bool(a):
        a = to_int(a)
    if z3.is_bool(b):
        b = to_int(b)
    if a.sort() != b.sort():
        return to_real(a), to_real(b)
    return a, b


def cast_val(v, kind):
    if kind == "c":
        return CVal.lift(v)
    if isinstance(v, CVal):
        if kind == "r":
            return v.re
        raise Unsupported("complex to integer cast")
    v = to_z3(v)
    if kind == "r":
        return to_real(v)
    if kind == "i":
        if z3.is_bool(v):
            return to_int(v)
        if z3.is_real(v):
            v = z3.simplify(v)
            if v.decl().kind() == z3.Z3_OP_TO_REAL:
                return v.arg(0)
            fl = opaque("rfloor", REAL, INT)
            iv = _real_as_int(v)
            if iv is not None:
                return iv
            return z3.If(v >= 0, fl(v), -fl(-v))
        return v
    if kind == "b":
        return as_z3bool(v)
    raise Unsupported(kind)


def _real_as_int(v):
    """Syntactic inverse of ToReal over +,-,* and If."""
    if z3.is_rational_value(v):
        f = v.as_fraction()
        return z3.IntVal(f.numerator) if f.denominator == 1 else None
    k = v.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return v.arg(0)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        ch = [_real_as_int(c) for c in v.children()]
        if any(c is None for c in ch):
            return None
        if k == z3.Z3_OP_ADD:
            return z3.Sum(ch)
        if k == z3.Z3_OP_MUL:
            return z3.Product(ch)
        if k == z3.Z3_OP_UMINUS:
            return -ch[0]
        r = ch[0]
        for c in ch[1:]:
            r = r - c
        return r
    if k == z3.Z3_OP_ITE:
        a, b = _real_as_int(v.arg(1)), _real_as_int(v.arg(2))
        if a is None or b is None:
            return None
        return z3.If(v.arg(0), a, b)
    return None


def v_sqrt(a):
    if isinstance(a, CVal):
        raise Unsupported("complex sqrt")
    a = z3.simplify(to_real(a))
    if z3.is_rational_value(a):
        f = a.as_fraction()
        if f >= 0:
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return z3.RealVal(f"{n}/{d}")
    return rfun("sqrt", a)


def v_fun(n):
    def f(a):
        if isinstance(a, CVal):
            raise Unsupported("complex " + n)
        return rfun(n, a)

    return f


def v_abs(a):
    if isinstance(a, CVal):
        return rfun("sqrt", a.re * a.re + a.im * a.im)
    a = to_z3(a)
    if z3.is_bool(a):
        return to_int(a)
    return z3.If(a >= 0, a, -a)


def v_pow(a, n):
    if isinstance(a, CVal):
        if n == 2:
            return v_mul(a, a)
        raise Unsupported("complex pow")
    return s_pow(a, n)


def v_floordiv(a, b):
    a, b = to_z3(a), to_z3(b)
    if z3.is_int(a) and z3.is_int(b):
        return fdivmod(a, b)[0]
    return z3.ToReal(opaque("rfloor", REAL, INT)(to_real(a) / to_real(b)))


def v_mod(a, b):
    a, b = to_z3(a), to_z3(b)
    if z3.is_int(a) and z3.is_int(b):
        return fdivmod(a, b)[1]
    a, b = to_real(a), to_real(b)
    return a - b * z3.ToReal(opaque("rfloor", REAL, INT)(a / b))


def zero_of(dt):
    return {"r": z3.RealVal(0), "i": z3.IntVal(0), "b": z3.BoolVal(False), "c": CVal(0, 0)}[dt.kind]


def bshape(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for d in range(n):
        cur = 1
        for s in shapes:
            k = d - (n - len(s))
            if k < 0:
                continue
            v = s[k]
            if lit(v) == 1:
                continue
            if lit(cur) == 1 and isinstance(cur, int):
                cur = v
            elif not dimeq(cur, v):
                # could still be a broadcast of an extent equal to one
                if Ctx.cur.entails(to_int(v) == 1):
                    continue
                if Ctx.cur.entails(to_int(cur) == 1):
                    cur = v
                    continue
                Ctx.cur.prove("broadcast-extents-agree", to_int(cur) == to_int(v))
                Ctx.cur.assume(to_int(cur) == to_int(v))
        out.append(cur)
    return out


def bidx(t, oshape, idx):
    off = len(oshape) - t.ndim
    r = []
    for d in range(t.ndim):
        i = idx[d + off]
        if lit(t._shape[d]) == 1 and lit(oshape[d + off]) != 1:
            i = z3.IntVal(0)
        elif lit(t._shape[d]) is None and lit(oshape[d + off]) != 1 and not dimeq(t._shape[d], oshape[d + off]):
            i = z3.IntVal(0)
        r.append(i)
    return r


def ewise(f, ts, dt=None):
    sh = bshape([t._shape for t in ts])
    fs = [t._snapshot() for t in ts]
    d = dt
    if d is None:
        d = None
        for t in ts:
            # 0-dim tensors do not promote within a category
            d = promote(d, t.dtype)
    return SymTensor(sh, lambda *i: f(*[g(*bidx(t, sh, i)) for g, t in zip(fs, ts)]), d)


def bcast_to(t, sh):
    if not isinstance(t, SymTensor):
        v = _val(t)
        return SymTensor(sh, lambda *i: v, kind_of(t))
    off = len(sh) - t.ndim
    if off < 0:
        # leading unit dims may be dropped
        for k in range(-off):
            if lit(t._shape[k]) != 1:
                raise RuntimeError("shape mismatch: value cannot be broadcast")
        for k in range(-off):
            t = t[0]
        off = 0
    for d in range(t.ndim):
        if lit(t._shape[d]) != 1 and not dimeq(t._shape[d], sh[d + off]):
            a, b = to_int(t._shape[d]), to_int(sh[d + off])
            Ctx.cur.prove("broadcast-extents-agree", z3.Or(a == b, a == 1))
            Ctx.cur.assume(a == b)
    f = t._snapshot()
    return SymTensor(sh, lambda *i: f(*bidx(t, sh, i)), t.dtype)


# --------------------------------------------------------------------------- indexing
def slice_bounds(sl, n):
    n = to_int(n)
    ctx = Ctx.cur
    step = 1 if sl.step is None else sl.step
    if not isinstance(step, int):
        step = lit(step)
        if step is None:
            raise Unsupported("symbolic slice step")
    if step <= 0:
        raise ValueError("slice step must be positive")

    def clampb(v, default):
        if v is None:
            return default
        v = z3.simplify(to_int(v))
        if z3.is_int_value(v):
            k = v.as_long()
            if k == 0:
                return z3.IntVal(0)
            if k > 0:
                return v if ctx.entails(v <= n) else z3.If(v < n, v, n)
            return z3.simplify(n + v) if ctx.entails(n + v >= 0) else z3.If(n + v > 0, n + v, z3.IntVal(0))
        if ctx.entails(v >= 0):
            return v if ctx.entails(v <= n) else z3.If(v < n, v, n)
        if ctx.entails(v < 0):
            return n + v if ctx.entails(n + v >= 0) else z3.If(n + v > 0, n + v, z3.IntVal(0))
        return z3.If(v >= 0, z3.If(v < n, v, n), z3.If(n + v > 0, n + v, z3.IntVal(0)))

    lo = clampb(sl.start, z3.IntVal(0))
    hi = clampb(sl.stop, n)
    span = z3.simplify(hi - lo)
    if ctx.entails(span >= 0):
        ln = span
    else:
        ln = z3.If(span > 0, span, z3.IntVal(0))
    if step != 1:
        ln = (ln + (step - 1)) / step
    return z3.simplify(lo), z3.simplify(ln), step


def expand_key(key, ndim):
    if not isinstance(key, tuple):
        key = (key,)
    n = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, SymTensor) and k.dtype.kind == "b":
            n += k.ndim
        else:
            n += 1
    out = []
    seen = False
    for k in key:
        if k is Ellipsis:
            if seen:
                raise IndexError
            seen = True
            out += [slice(None)] * (ndim - n)
        else:
            out.append(k)
    if not seen:
        out += [slice(None)] * (ndim - n)
    if n > ndim:
        raise IndexError("too many indices for tensor")
    return out


def check_index(i, n, what="index"):
    i = z3.simplify(to_int(i))
    n = to_int(n)
    ok = z3.And(i >= -n, i < n)
    if z3.is_int_value(i) and z3.is_int_value(z3.simplify(n)):
        if not (-z3.simplify(n).as_long() <= i.as_long() < z3.simplify(n).as_long()):
            raise IndexError("index out of range")
    elif not Ctx.cur.entails(ok):
        Ctx.cur.prove(f"{what}-in-bounds", ok)
        Ctx.cur.assume(ok)
    if Ctx.cur.entails(i >= 0):
        return i
    if Ctx.cur.entails(i < 0):
        return z3.simplify(i + n)
    return z3.If(i < 0, i + n, i)


def getitem(t, key):
    key = expand_key(key, t.ndim)
    adv = [k for k in key if isinstance(k, (SymTensor, list)) and not (isinstance(k, SymTensor) and k.ndim == 0 and k.dtype.kind == "i")]
    plan = []  # per base dim
    shape = []
    d = 0
    vdim = 0
    items = []
    for k in key:
        if k is None:
            items.append(("new",))
            shape.append(1)
            continue
        if isinstance(k, slice):
            lo, ln, st = slice_bounds(k, t._shape[d])
            items.append(("sl", d, lo, ln, st))
            shape.append(ln)
            d += 1
        elif isinstance(k, (int, SymInt)) and not isinstance(k, bool) or (isinstance(k, SymTensor) and k.ndim == 0 and k.dtype.kind == "i"):
            iv = k.at() if isinstance(k, SymTensor) else k
            items.append(("ix", d, check_index(iv, t._shape[d])))
            d += 1
        elif isinstance(k, list):
            kk = list(k)
            items.append(("adv", d, as_index_tensor(kk)))
            d += 1
        elif isinstance(k, SymTensor):
            if k.dtype.kind == "b":
                if k.ndim == 1:
                    items.append(("adv", d, mask_to_index(k)))
                    d += 1
                    continue
                raise Unsupported("boolean mask indexing (rank > 1)")
            items.append(("adv", d, k))
            d += 1
        else:
            raise Unsupported(f"index {type(k)}")
    if not any(i[0] == "adv" for i in items):
        nb = t.ndim

        def tb(vi):
            out = [None] * nb
            p = 0
            for it in items:
                if it[0] == "new":
                    p += 1
                elif it[0] == "sl":
                    out[it[1]] = vi[p] * it[4] + it[2] if it[4] != 1 else vi[p] + it[2]
                    p += 1
                else:
                    out[it[1]] = it[2]
            return tuple(out)

        def inv(bi):
            cs, vi = [], []
            for it in items:
                if it[0] == "new":
                    vi.append(z3.IntVal(0))
                elif it[0] == "sl":
                    b = bi[it[1]]
                    rel = z3.simplify(b - it[2])
                    if it[4] != 1:
                        cs.append(rel % it[4] == 0)
                        cs.append(rel >= 0)
                        rel = rel / it[4]
                        cs.append(rel < to_int(it[3]))
                        vi.append(rel)
                    else:
                        cs += [rel >= 0, rel < to_int(it[3])]
                        vi.append(rel)
                else:
                    cs.append(bi[it[1]] == it[2])
            return (z3.And(cs) if cs else None), tuple(vi)

        return SymTensor(shape, None, t.dtype, view=(t, tb, inv))
    # advanced indexing -> copy
    advs = [it for it in items if it[0] == "adv"]
    ash = bshape([it[2]._shape for it in advs])
    pos = [i for i, it in enumerate(items) if it[0] in ("adv", "ix")]
    advpos = [i for i, it in enumerate(items) if it[0] == "adv"]
    contiguous = pos == list(range(pos[0], pos[-1] + 1))
    oshape = []
    where = None
    for i, it in enumerate(items):
        if it[0] in ("adv", "ix"):
            if contiguous and where is None:
                where = len(oshape)
                oshape += ash
        elif it[0] == "new":
            oshape.append(1)
        else:
            oshape.append(it[3])
    if not contiguous:
        where = 0
        oshape = list(ash) + oshape
    na = len(ash)
    src = t._snapshot()
    isn = {id(it): it[2]._snapshot() for it in advs}
    # obligation: all indices in bounds (checked at access with the element's own index)

    def fn(*oi):
        ai = oi[where : where + na]
        rest = list(oi[:where]) + list(oi[where + na :])
        out = [None] * t.ndim
        p = 0
        for it in items:
            if it[0] == "adv":
                v = isn[id(it)](*bidx(it[2], ash, ai))
                n = to_int(t._shape[it[1]])
                v = z3.simplify(to_int(v))
                if not Ctx.cur.entails(v >= 0, 1500):
                    v = z3.If(v < 0, v + n, v)
                out[it[1]] = v
            elif it[0] == "ix":
                out[it[1]] = it[2]
            elif it[0] == "new":
                p += 1
            else:
                out[it[1]] = rest[p] * it[4] + it[2]
                p += 1
        return src(*out)

    r = SymTensor(oshape, fn, t.dtype)
    # bounds obligation with a generic index
    ctx = Ctx.cur
    gi = [ctx.fresh("ai") for _ in ash]
    hyp = [z3.And(g >= 0, g < to_int(s)) for g, s in zip(gi, ash)]
    for it in advs:
        v = to_int(isn[id(it)](*bidx(it[2], ash, gi)))
        n = to_int(t._shape[it[1]])
        ctx.prove("gather-index-in-bounds", z3.And(v >= -n, v < n), hyps=hyp)
    return r


def as_index_tensor(lst):
    vals = [to_int(v) for v in lst]

    def fn(i):
        r = vals[-1]
        for k in range(len(vals) - 2, -1, -1):
            r = z3.If(i == k, vals[k], r)
        return r

    return SymTensor((len(vals),), fn, int64)


def mask_to_index(m):
    raise Unsupported("boolean mask indexing")


def setitem(t, key, v):
    reg = getitem(t, key) if not _has_adv(key) else None
    if reg is None:
        raise Unsupported("indexed assignment with index tensors")
    if isinstance(v, SymTensor):
        vv = bcast_to(v, reg._shape)
        f = vv._snapshot()
        reg._write(lambda *i: z3.BoolVal(True), f)
    else:
        vz = _val(v)
        reg._write(lambda *i: z3.BoolVal(True), lambda *i: vz)


def _has_adv(key):
    if not isinstance(key, tuple):
        key = (key,)
    return any(isinstance(k, list) or (isinstance(k, SymTensor) and k.ndim > 0) for k in key)


def unravel(j, shape):
    """Row-major index tuple of flat position j."""
    out = []
    for s in reversed(list(shape)[1:]):
        j, r = fdivmod(j, to_int(s))
        out.append(r)
    out.append(j)
    return tuple(reversed(out))


def ravel(idx, shape):
    r = z3.IntVal(0)
    for i, s in zip(idx, shape):
        r = r * to_int(s) + i
    return z3.simplify(r)


def reshape(t, sh):
    sh = list(sh)
    neg = [i for i, s in enumerate(sh) if lit(s) == -1]
    old = list(t._shape)
    # match common prefix / suffix so that index arithmetic stays local
    if neg:
        k = neg[0]
        known = 1
        for i, s in enumerate(sh):
            if i != k:
                known = known * s
        # cancel factors
        rem = list(old)
        rest = []
        for i, s in enumerate(sh):
            if i == k:
                continue
            for j, o in enumerate(rem):
                if dimeq(o, s):
                    rem.pop(j)
                    break
            else:
                rest.append(s)
        num = 1
        for o in rem:
            num = num * o
        den = 1
        for r in rest:
            den = den * r
        if lit(den) == 1:
            sh[k] = num
        else:
            sh[k] = num // den
            Ctx.cur.prove("reshape-divisible", to_int(sh[k]) * to_int(den) == to_int(num))
            Ctx.cur.assume(to_int(sh[k]) * to_int(den) == to_int(num))
    sh = [norm_size(s) for s in sh]
    p = 0
    while p < len(sh) and p < len(old) and dimeq(sh[p], old[p]):
        p += 1
    q = 0
    while q < len(sh) - p and q < len(old) - p and dimeq(sh[len(sh) - 1 - q], old[len(old) - 1 - q]):
        q += 1
    mo, mn = old[p : len(old) - q], sh[p : len(sh) - q]
    a = z3.IntVal(1)
    for s in mo:
        a = a * to_int(s)
    b = z3.IntVal(1)
    for s in mn:
        b = b * to_int(s)
    if not z3.eq(z3.simplify(a, som=True), z3.simplify(b, som=True)) and not Ctx.cur.entails(a == b):
        Ctx.cur.prove("reshape-same-numel", a == b)
        Ctx.cur.assume(a == b)
    f = t._snapshot()
    nn = len(sh)

    # split the middle into independent groups where partial products agree
    groups = []
    i = j = 0
    ci, cj = [], []
    while i < len(mo) or j < len(mn):
        if not ci and not cj:
            if i < len(mo):
                ci.append(i); i += 1
            if j < len(mn):
                cj.append(j); j += 1
        pa = z3.Product([to_int(mo[x]) for x in ci]) if ci else z3.IntVal(1)
        pb = z3.Product([to_int(mn[x]) for x in cj]) if cj else z3.IntVal(1)
        if z3.eq(z3.simplify(pa, som=True), z3.simplify(pb, som=True)) or Ctx.cur.entails(pa == pb):
            groups.append((ci, cj)); ci, cj = [], []
            continue
        # extend the shorter side
        la, lb = lit(wrap(z3.simplify(pa))), lit(wrap(z3.simplify(pb)))
        if i >= len(mo) and j >= len(mn):
            break
        if j < len(mn) and (i >= len(mo) or (la is not None and lb is not None and lb < la) or (la is None and _fac(pb) < _fac(pa)) or Ctx.cur.entails(pb < pa)):
            cj.append(j); j += 1
        elif i < len(mo):
            ci.append(i); i += 1
        else:
            cj.append(j); j += 1
    if ci or cj:
        groups = [(list(range(len(mo))), list(range(len(mn))))]

    def fn(*ni):
        mid = ni[p : nn - q]
        res = [None] * len(mo)
        for gi, gj in groups:
            if len(gi) == 1 and len(gj) == 1:
                res[gi[0]] = mid[gj[0]]
                continue
            # a new axis of extent one carries index 0
            if len(gj) == 0:
                for x in gi:
                    res[x] = z3.IntVal(0)
                continue
            j = ravel([mid[x] for x in gj], [mn[x] for x in gj])
            if gi:
                # in-range facts help the division
                ctx = Ctx.cur
                u = unravel_safe(j, [mo[x] for x in gi], [(mid[x], mn[x]) for x in gj])
                for x, v in zip(gi, u):
                    res[x] = v
        return f(*(tuple(ni[:p]) + tuple(res) + tuple(ni[nn - q :])))

    return SymTensor(sh, fn, t.dtype, tainted=True)


def _fac(e):
    e = z3.simplify(e)
    return len(e.children()) if z3.is_mul(e) else (0 if z3.is_int_value(e) else 1)


def unravel_safe(j, shape, ranges):
    """unravel with the (generic) in-range hypotheses of the index made available to the divider."""
    ctx = Ctx.cur
    n0 = len(ctx.pc)
    try:
        for i, s in ranges:
            ctx.pc.append(z3.And(i >= 0, i < to_int(s)))
        ctx.kcache_save = ctx.kcache
        ctx.kcache = {}
        return unravel(j, shape)
    finally:
        del ctx.pc[n0:]
        ctx.kcache = ctx.kcache_save


def repeat(t, reps):
    reps = list(reps)
    off = len(reps) - t.ndim
    if off < 0:
        reps = [1] * (-off) + reps
        off = 0
    sh = []
    for d, r in enumerate(reps):
        if d < off:
            sh.append(r)
        else:
            sh.append(t._shape[d - off] * r)
    f = t._snapshot()

    def fn(*i):
        out = []
        for d in range(t.ndim):
            x = i[d + off]
            if lit(t._shape[d]) == 1:
                x = z3.IntVal(0)
            elif lit(reps[d + off]) != 1:
                x = fdivmod(x, to_int(t._shape[d]))[1]
            out.append(x)
        return f(*out)

    return SymTensor(sh, fn, t.dtype)


def flip(t, dims):
    if isinstance(dims, int):
        dims = (dims,)
    ds = {d % t.ndim for d in dims}
    f = t._snapshot()
    return SymTensor(t._shape, lambda *i: f(*[to_int(t._shape[d]) - 1 - x if d in ds else x for d, x in enumerate(i)]), t.dtype)


def roll(t, shifts, dims=None):
    if dims is None:
        raise Unsupported("roll without dims")
    if not isinstance(shifts, (tuple, list)):
        shifts, dims = [shifts], [dims]
    f = t._snapshot()
    m = {d % t.ndim: s for d, s in zip(dims, shifts)}

    def fn(*i):
        out = []
        for d, x in enumerate(i):
            if d in m:
                x = fdivmod(x - to_int(m[d]), to_int(t._shape[d]))[1]
            out.append(x)
        return f(*out)

    return SymTensor(t._shape, fn, t.dtype)


def split(t, sizes, dim=0):
    dim = dim % t.ndim
    n = t._shape[dim]
    if isinstance(sizes, SymList):
        tot = sizes.total()
        Ctx.cur.prove("split-sizes-sum-to-extent", tot == to_int(n))
        Ctx.cur.assume(tot == to_int(n))

        def chunk(i):
            off = sizes.prefix(i)
            ln = to_int(sizes.at(i))
            return _slab(t, dim, off, ln)

        return SymList([(to_int(sizes.length()), chunk)])
    if isinstance(sizes, (int, SymInt)):
        raise Unsupported("split by chunk size")
    out = []
    off = 0
    for s in sizes:
        out.append(_slab(t, dim, to_int(off), to_int(s)))
        off = off + s
    ok = to_int(off) == to_int(n)
    if not Ctx.cur.entails(ok):
        Ctx.cur.prove("split-sizes-sum-to-extent", ok)
        Ctx.cur.assume(ok)
    return tuple(out)


def _slab(t, dim, off, ln):
    sh = list(t._shape)
    sh[dim] = norm_size(ln)

    def tb(vi):
        vi = list(vi)
        vi[dim] = vi[dim] + off
        return tuple(vi)

    def inv(bi):
        b = list(bi)
        b[dim] = b[dim] - off
        return z3.And(b[dim] >= 0, b[dim] < ln), tuple(b)

    return SymTensor(sh, None, t.dtype, view=(t, tb, inv))


def const_tensor(sh, v, dt):
    vz = cast_val(_val(v), dt.kind)
    if not isinstance(sh, (tuple, list)):
        sh = (sh,)
    return SymTensor(sh, lambda *i: vz, dt)


def cat(ts, dim=0, axis=None):
    if axis is not None:
        dim = axis
    if isinstance(ts, SymList):
        return cat_symlist(ts, dim)
    ts = list(ts)
    if not ts:
        raise RuntimeError("torch.cat(): expected a non-empty list of Tensors")
    dim = dim % ts[0].ndim
    for t in ts[1:]:
        for d in range(t.ndim):
            if d != dim and not dimeq(t._shape[d], ts[0]._shape[d]):
                Ctx.cur.prove("cat-extents-agree", to_int(t._shape[d]) == to_int(ts[0]._shape[d]))
    tot = 0
    offs = []
    for t in ts:
        offs.append(tot)
        tot = tot + t._shape[dim]
    sh = list(ts[0]._shape)
    sh[dim] = tot
    fs = [t._snapshot() for t in ts]
    dt = None
    for t in ts:
        dt = promote(dt, t.dtype)

    def fn(*i):
        i = list(i)
        x = i[dim]
        res = None
        for f, o in reversed(list(zip(fs, offs))):
            j = list(i)
            j[dim] = z3.simplify(x - to_int(o))
            v = f(*j)
            res = v if res is None else v_ite(x < to_int(onext), v, res)
            onext = o
        return res

    return SymTensor(sh, fn, dt)


def cat_symlist(sl, dim):
    """cat of a symbolic-length list of chunks whose extents along dim are the balanced sizes of some
    extent (proved), every other extent being the same for all chunks (proved)."""
    from . import symdist as sd
    ctx = Ctx.cur
    if len(sl.segs) != 1:
        raise Unsupported("cat of a symbolic-length list")
    n, f = sl.segs[0]
    n = to_int(n)
    p, p2 = ctx.idx("chunk", n), ctx.idx("chunk", n)
    proto, proto2 = f(p), f(p2)
    dim = dim % proto.ndim
    for d in range(proto.ndim):
        if d != dim:
            ctx.prove("cat-extents-agree", to_int(proto._shape[d]) == to_int(proto2._shape[d]))
    ext = to_int(proto._shape[dim])
    sizes = None
    for g in sd.GSizes.reg.values():
        if z3.eq(z3.simplify(ext), z3.simplify(g.S(p))) and ctx.entails(g.p == n):
            sizes = g
            break
    if sizes is None:
        for g in sd.GSizes.reg.values():
            if ctx.entails(z3.And(g.p == n, ext == g.S(p))):
                sizes = g
                break
    if sizes is None:
        raise Unsupported("cat of a symbolic-length list")
    sh = [d if not isinstance(d, SymInt) or not mentions(d.e, p) else to_int(proto._shape[i]) for i, d in enumerate(proto._shape)]
    sh[dim] = wrap(sizes.n)
    for i, d in enumerate(sh):
        if i != dim and mentions(to_int(d), p):
            sh[i] = wrap(z3.substitute(to_int(d), (p, z3.IntVal(0))))
    memo = {}

    def chunk(s):
        h = memo.get(s.get_id())
        if h is None:
            memo[s.get_id()] = h = (f(s), s)
        return h[0]

    def fn(*i):
        s = sizes.own(i[dim])
        j = list(i)
        j[dim] = i[dim] - sizes.prefix(s)
        return chunk(s).at(*j)

    return SymTensor(sh, fn, proto.dtype)


def stack(ts, dim=0):
    ts = list(ts)
    n = ts[0].ndim + 1
    dim = dim % n
    for t in ts[1:]:
        for d in range(t.ndim):
            if not dimeq(t._shape[d], ts[0]._shape[d]):
                Ctx.cur.prove("stack-extents-agree", to_int(t._shape[d]) == to_int(ts[0]._shape[d]))
    fs = [t._snapshot() for t in ts]
    sh = list(ts[0]._shape)
    sh.insert(dim, len(ts))
    dt = None
    for t in ts:
        dt = promote(dt, t.dtype)

    def fn(*i):
        k = i[dim]
        r = i[:dim] + i[dim + 1 :]
        res = fs[-1](*r)
        for m in range(len(fs) - 2, -1, -1):
            res = v_ite(k == m, fs[m](*r), res)
        return res

    return SymTensor(sh, fn, dt)


def v_sum(lo, hi, f):
    """Sum of possibly complex values."""
    k0 = z3.Int(f"k!p{next(symcore._ctr)}")
    v = f(k0)
    if isinstance(v, CVal):
        return CVal(mk_sum(lo, hi, lambda k: z3.substitute(v.re, (k0, k))), mk_sum(lo, hi, lambda k: z3.substitute(v.im, (k0, k))))
    v = to_real(v)
    return mk_sum(lo, hi, lambda k: z3.substitute(v, (k0, k)))


def with_range(k, n, f):
    """Evaluate f with the hypothesis 0 <= k < n available to index simplification."""
    ctx = Ctx.cur
    n0 = len(ctx.pc)
    sv = ctx.kcache
    ctx.kcache = {}
    ctx.pc.append(z3.And(k >= 0, k < to_int(n)))
    try:
        return f()
    finally:
        del ctx.pc[n0:]
        ctx.kcache = sv


def nested_sum(dims, f):
    """dims: list of extents; f(list of indices) -> value."""
    def go(ks, ds):
        if not ds:
            return f(ks)
        n = ds[0]
        k0 = z3.Int(f"k!e{next(symcore._ctr)}")
        v = with_range(k0, n, lambda: go(ks + [k0], ds[1:]))
        if isinstance(v, CVal):
            re, im = v.re, v.im
            return CVal(mk_sum(0, to_int(n), lambda k: z3.substitute(re, (k0, k))), mk_sum(0, to_int(n), lambda k: z3.substitute(im, (k0, k))))
        v = to_real(v)
        return mk_sum(0, to_int(n), lambda k: z3.substitute(v, (k0, k)))

    return go([], list(dims))


def reduce_sum(t, dim, keepdim):
    n = t.ndim
    if dim is None:
        dims = list(range(n))
    elif isinstance(dim, (tuple, list)):
        dims = [d % n for d in dim]
    else:
        dims = [dim % n]
    keep = [d for d in range(n) if d not in dims]
    f = t._snapshot()
    if keepdim:
        sh = [1 if d in dims else t._shape[d] for d in range(n)]
    else:
        sh = [t._shape[d] for d in keep]
    sd = sorted(dims)

    def fn(*i):
        base = [None] * n
        if keepdim:
            for d in keep:
                base[d] = i[d]
        else:
            for k, d in enumerate(keep):
                base[d] = i[k]

        def g(ks):
            b = list(base)
            for d, k in zip(sd, ks):
                b[d] = k
            return f(*b)

        return nested_sum([t._shape[d] for d in sd], g)

    dt = t.dtype if t.dtype.kind in "rc" else int64
    r = SymTensor(sh, fn, dt)
    if dt is int64:
        r.dtype = float64
    return r


def quant(t, exists):
    ks = [z3.Int(f"q!{next(symcore._ctr)}") for _ in range(t.ndim)]
    f = t._snapshot()
    v = as_z3bool(f(*ks))
    rng = z3.And([z3.And(k >= 0, k < to_int(s)) for k, s in zip(ks, t._shape)]) if ks else z3.BoolVal(True)
    if exists:
        return SymTensor((), lambda: z3.Exists(ks, z3.And(rng, v)) if ks else v, bool_)
    return SymTensor((), lambda: z3.ForAll(ks, z3.Implies(rng, v)) if ks else v, bool_)


def einsum(eq, *ops):
    if len(ops) == 1 and isinstance(ops[0], (list, tuple)):
        ops = tuple(ops[0])
    eq = eq.replace(" ", "")
    lhs, _, rhs = eq.partition("->")
    ins = lhs.split(",")
    if len(ins) != len(ops):
        raise RuntimeError("einsum operand count")
    ell_n = 0
    labels = []
    for s, t in zip(ins, ops):
        if "..." in s:
            k = t.ndim - (len(s) - 3)
            ell_n = max(ell_n, k)
    sizes = {}
    for s, t in zip(ins, ops):
        if "..." in s:
            pre, post = s.split("...")
            k = t.ndim - len(pre) - len(post)
            lab = list(pre) + [f"#{ell_n - k + j}" for j in range(k)] + list(post)
        else:
            lab = list(s)
        if len(lab) != t.ndim:
            raise RuntimeError("einsum rank mismatch")
        labels.append(lab)
        for l, d in zip(lab, t._shape):
            if l in sizes and lit(sizes[l]) != 1:
                if lit(d) != 1 and not dimeq(sizes[l], d):
                    Ctx.cur.prove("einsum-extents-agree", to_int(sizes[l]) == to_int(d))
                    Ctx.cur.assume(to_int(sizes[l]) == to_int(d))
            else:
                sizes[l] = d
    if "->" not in eq:
        raise Unsupported("implicit einsum output")
    if "..." in rhs:
        pre, post = rhs.split("...")
        out = list(pre) + [f"#{j}" for j in range(ell_n)] + list(post)
    else:
        out = list(rhs)
    order = []
    for lab in labels:
        for l in lab:
            if l not in out and l not in order:
                order.append(l)
    fs = [t._snapshot() for t in ops]
    dt = None
    for t in ops:
        dt = promote(dt, t.dtype)

    def fn(*oi):
        env = dict(zip(out, oi))

        def g(ks):
            e = dict(env)
            e.update(zip(order, ks))
            r = None
            for f, lab, t in zip(fs, labels, ops):
                v = f(*[e[l] if not (lit(d) == 1 and lit(sizes[l]) != 1) else z3.IntVal(0) for l, d in zip(lab, t._shape)])
                r = v if r is None else v_mul(r, v)
            return r

        return nested_sum([sizes[l] for l in order], g) if order else g([])

    return SymTensor([sizes[l] for l in out], fn, dt)


def matmul(a, b):
    if a.ndim == 2 and b.ndim == 2:
        return einsum("ik,kj->ij", a, b)
    if a.ndim == 1 and b.ndim == 1:
        return einsum("k,k->", a, b)
    if b.ndim == 1:
        return einsum("...k,k->...", a, b)
    if a.ndim >= 2 and b.ndim >= 2:
        return einsum("...ik,...kj->...ij", a, b)
    raise Unsupported("matmul rank")


def pad(x, p, mode="constant", value=0.0):
    p = list(p)
    if mode != "constant":
        raise Unsupported("pad mode " + str(mode))
    n = x.ndim
    lo = [0] * n
    hi = [0] * n
    for k in range(len(p) // 2):
        lo[n - 1 - k] = p[2 * k]
        hi[n - 1 - k] = p[2 * k + 1]
    sh = [x._shape[d] + lo[d] + hi[d] for d in range(n)]
    f = x._snapshot()
    vz = cast_val(_val(value if value is not None else 0.0), x.dtype.kind)

    def fn(*i):
        j = [z3.simplify(i[d] - to_int(lo[d])) for d in range(n)]
        cs = []
        for d in range(n):
            if lit(lo[d]) == 0 and lit(hi[d]) == 0:
                continue
            cs += [j[d] >= 0, j[d] < to_int(x._shape[d])]
        if not cs:
            return f(*j)
        return v_ite(z3.And(cs), f(*j), vz)

    for d in range(n):
        if lit(sh[d]) is None and not Ctx.cur.entails(to_int(sh[d]) >= 0):
            Ctx.cur.prove("pad-result-nonnegative", to_int(sh[d]) >= 0)
    return SymTensor(sh, fn, x.dtype)


def arange(*a, dtype=None, device=None, requires_grad=False, out=None):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    if not isinstance(st, int):
        raise Unsupported("arange step")
    n = to_int(hi) - to_int(lo)
    if st != 1:
        n = (n + (st - 1)) / st if st > 0 else None
        if n is None:
            raise Unsupported("negative arange step")
    if not Ctx.cur.entails(n >= 0):
        n = z3.If(n >= 0, n, z3.IntVal(0))
    dt = dtype or int64
    loz = to_int(lo)
    return SymTensor((n,), lambda i: cast_val(loz + i * st, dt.kind), dt)


def linspace(a, b, n, dtype=None, device=None, requires_grad=False, endpoint=True):
    a, b, nz = to_real(a), to_real(b), to_int(n)
    den = z3.ToReal(nz - 1) if endpoint is True else z3.ToReal(nz)
    if not isinstance(endpoint, bool):
        den = z3.If(as_z3bool(endpoint), z3.ToReal(nz - 1), z3.ToReal(nz))
    return SymTensor((n,), lambda i: z3.If(i == 0, a, a + (b - a) * z3.ToReal(i) / den), dtype or float64)


def where(c, a=None, b=None):
    if a is None:
        raise Unsupported("where with one argument")
    ts = []
    for x in (c, a, b):
        if not isinstance(x, SymTensor):
            v = _val(x)
            x = SymTensor((), (lambda v: (lambda: v))(v), kind_of(x))
        ts.append(x)
    dt = promote(ts[1].dtype, ts[2].dtype)
    return ewise(lambda p, x, y: v_ite(as_z3bool(p), x, y), ts, dt)


def lerp(a, b, w):
    if not isinstance(w, SymTensor):
        return a + (b - a) * w
    return ewise(lambda x, y, v: v_add(x, v_mul(v, v_sub(y, x))), [a, b, w], a.dtype)


def DFT(f, n, m, sign):
    """sum_j f(j) exp(sign*2*pi*i*j*m/n) as CVal; trig opaque in the phase index (j*m, n)."""
    def g(ks):
        j = ks[0]
        v = CVal.lift(f(j))
        ph = opaque("cosph", INT, INT, REAL)(j * m, to_int(n)), opaque("sinph", INT, INT, REAL)(j * m, to_int(n))
        c, s = ph
        if sign < 0:
            s = -s
        return v_mul(v, CVal(c, s))

    return nested_sum([n], g)


def fft_scale(norm, n, forward):
    if norm in (None, "backward"):
        return z3.RealVal(1) if forward else 1 / to_real(to_int(n))
    if norm == "forward":
        return 1 / to_real(to_int(n)) if forward else z3.RealVal(1)
    if norm == "ortho":
        return 1 / rfun("sqrt", to_real(to_int(n)))
    raise RuntimeError(f"Invalid normalization mode: {norm}")


def rfft(x, n=None, dim=-1, norm=None):
    if n is not None:
        raise Unsupported("rfft n")
    d = dim % x.ndim
    N = x._shape[d]
    if x.dtype.kind == "c":
        raise RuntimeError("rfft expects a real input tensor")
    sh = list(x._shape)
    sh[d] = N // 2 + 1
    f = x._snapshot()
    sc = fft_scale(norm, N, True)
    opr = opaque("RFFT_re", z3.ArraySort(INT, REAL), INT, INT, REAL)

    def fn(*i):
        v = DFT(lambda j: f(*(list(i[:d]) + [j] + list(i[d + 1 :]))), N, i[d], -1)
        return v_mul(v, sc)

    return SymTensor(sh, fn, complex128 if x.dtype is float64 else complex64)


def irfft(x, n=None, dim=-1, norm=None):
    """Hermitian synthesis with truncation / zero padding to n//2+1 modes; imag of DC and Nyquist ignored."""
    d = dim % x.ndim
    K = x._shape[d]
    if n is None:
        n = 2 * (K - 1)
    sh = list(x._shape)
    sh[d] = n
    f = x._snapshot()
    sc = fft_scale(norm, n, False)
    nz = to_int(n)
    half = fdivmod(nz, z3.IntVal(2))[0]
    par = fdivmod(nz, z3.IntVal(2))[1]

    def fn(*i):
        def g(ks):
            m = ks[0]
            v = CVal.lift(f(*(list(i[:d]) + [m] + list(i[d + 1 :]))))
            c = opaque("cosph", INT, INT, REAL)(i[d] * m, nz)
            s = opaque("sinph", INT, INT, REAL)(i[d] * m, nz)
            self_conj = z3.Or(m == 0, z3.And(par == 0, m == half))
            # backends differ on the imaginary part of self-conjugate bins: unspecified unless it is zero
            art = opaque("c2r_artifact", REAL, REAL)(v.im)
            return z3.If(m <= half, z3.If(self_conj, v.re * c + art, 2 * (v.re * c - v.im * s)), z3.RealVal(0))

        return v_mul(nested_sum([K], g), sc)

    return SymTensor(sh, fn, float64 if x.dtype is complex128 else float32)


def searchsorted(a, v, side=None, right=False, out_int32=False, **k):
    """torch.searchsorted by contract: for a sorted sequence, the position p with a[p-1] <= v < a[p] (side right)
    or a[p-1] < v <= a[p] (side left)."""
    if a.ndim != 1:
        raise Unsupported("searchsorted on a batch of sequences")
    ctx = Ctx.cur
    rt = right or side == "right"
    n = to_int(a._shape[0])
    fa = a._snapshot()
    g = ctx.fresh("so")
    ctx.prove("searchsorted precondition: sorted sequence", to_real(fa(g)) <= to_real(fa(z3.simplify(g + 1))), hyps=[g >= 0, g + 1 < n])
    scalar = not isinstance(v, SymTensor)
    sh = () if scalar else v._shape
    fv = (lambda: to_z3(v)) if scalar else v._snapshot()
    # a function of its arguments: the same sequence and values give the same positions
    key = (rt, n.sexpr(), z3.simplify(to_real(fa(z3.Int("ss!a")))).sexpr(), z3.simplify(to_real(fv(*[z3.Int(f"ss!{k}") for k in range(len(sh))]))).sexpr())
    tab = ctx.__dict__.setdefault("_searchpos", {})
    if key not in tab:
        ctx.fresh_n += 1
        tab[key] = (z3.Function(f"searchpos{ctx.fresh_n}", *([INT] * len(sh) + [INT])) if sh else None, z3.Int(f"searchposc{ctx.fresh_n}"))
    pf, pc = tab[key]

    def fn(*i):
        r = pf(*i) if sh else pc
        x = to_real(fv(*i))
        lo = to_real(fa(z3.simplify(r - 1)))
        hi = to_real(fa(r))
        c = Ctx.cur
        c.axiom(z3.And(r >= 0, r <= n))
        c.axiom(z3.Implies(r > 0, (lo <= x) if rt else (lo < x)))
        c.axiom(z3.Implies(r < n, (x < hi) if rt else (x <= hi)))
        # consequences of sortedness (the precondition)
        c.axiom(z3.Implies(r < n, hi <= to_real(fa(z3.simplify(n - 1)))))
        c.axiom(z3.Implies(r > 0, to_real(fa(z3.IntVal(0))) <= lo))
        return r

    return SymTensor(sh, fn, int64)
