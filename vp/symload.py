"""Loads repository modules for symbolic execution: the source text is taken from /repo on every
run, compiled unmodified except for one mechanical AST rewrite (loops get a hook so that a loop
over a symbolic range is cut at its contract), and executed with torch / numpy / math replaced by
their assumed contracts.  Nothing else is dropped or changed."""
import ast, builtins, types, os, math, functools, itertools, sys
import z3
from .symcore import *
from . import symtorch as st
from .symtorch import SymTensor, CVal

REPO = os.environ.get("VP_REPO", "/repo")


# ------------------------------------------------------------------ torch namespace
class Stub:
    """Placeholder for names that are only mentioned (annotations, decorators, registration)."""

    def __init__(self, name):
        self._n = name

    def __getattr__(self, k):
        if k.startswith("__") and k.endswith("__"):
            raise AttributeError(k)
        return Stub(self._n + "." + k)

    def __call__(self, *a, **k):
        raise Unsupported(f"call of unmodelled {self._n}")

    def __or__(self, o):
        return self

    def __ror__(self, o):
        return self

    def __getitem__(self, k):
        return self

    def __repr__(self):
        return f"<stub {self._n}>"

    def __hash__(self):
        return hash(self._n)

    def __eq__(self, o):
        return isinstance(o, Stub) and o._n == self._n


def passthrough_decorator(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


class NullCtx:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f=None):
        return f


class Module:
    def __init__(self, *a, **k):
        object.__setattr__(self, "_buffers", {})
        object.__setattr__(self, "_parameters", {})
        self.training = True

    def register_buffer(self, name, t, persistent=True):
        self._buffers[name] = t
        setattr(self, name, t)

    def register_parameter(self, name, t):
        setattr(self, name, t)

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def _apply(self, fn):
        return self

    def to(self, *a, **k):
        return self

    def modules(self):
        return [self]

    def eval(self):
        return self


class FnCtx:
    """the ctx object of a torch.autograd.Function"""

    def __init__(self, n):
        self.needs_input_grad = (True,) * n
        self.saved_tensors = ()

    def save_for_backward(self, *t):
        self.saved_tensors = t

    def mark_non_differentiable(self, *t):
        pass

    def mark_dirty(self, *t):
        raise Unsupported("in-place autograd function")

    def set_materialize_grads(self, v):
        pass


class Function:
    log = []

    @classmethod
    def apply(cls, *a):
        c = FnCtx(len(a))
        if "setup_context" in dir(cls):
            out = cls.forward(*a)
            cls.setup_context(c, a, out)
        else:
            out = cls.forward(c, *a)
        Function.log.append((cls, c, a, out))
        return out


def Parameter(t, requires_grad=True):
    return t


class NS(types.SimpleNamespace):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Stub(self.__dict__.get("_name", "torch") + "." + k)


def t_check(cond, msg=None):
    if isinstance(cond, SymTensor):
        cond = wrap(as_z3bool(cond._scalar_z3()))
    if not cond:
        raise RuntimeError("torch._check failed")


def t_zeros(*sh, dtype=None, device=None, requires_grad=False, size=None):
    if size is not None:
        sh = size
    if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
        sh = tuple(sh[0])
    return st.const_tensor(sh, 0, dtype or st.float32)


def t_ones(*sh, dtype=None, device=None, requires_grad=False):
    if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
        sh = tuple(sh[0])
    return st.const_tensor(sh, 1, dtype or st.float32)


def t_full(sh, v, dtype=None, device=None):
    if isinstance(v, float) and v in (math.inf, -math.inf):
        raise Unsupported("infinite fill")
    return st.const_tensor(tuple(sh) if isinstance(sh, (tuple, list)) else (sh,), v, dtype or st.kind_of(v))


def t_empty(*sh, dtype=None, device=None, requires_grad=False, pin_memory=False, memory_format=None):
    if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
        sh = tuple(sh[0])
    from . import symcore
    return SymTensor.input(f"uninit{next(symcore._ctr)}", sh, dtype or st.float32)


def t_tensor(v, dtype=None, device=None, requires_grad=False):
    if isinstance(v, SymTensor):
        return v.astype(dtype) if dtype else v
    if isinstance(v, SymList):
        dt = dtype or st.kind_of(v.at(z3.Int("i!k")))
        return SymTensor((v.length(),), lambda i: st.cast_val(to_z3(v.at(i)), dt.kind), dt)
    if isinstance(v, (list, tuple)):
        vals = [st._val(x) for x in v]
        dt = dtype
        if dt is None:
            for x in v:
                dt = st.promote(dt, st.kind_of(x))

        def fn(i):
            r = vals[-1]
            for k in range(len(vals) - 2, -1, -1):
                r = st.v_ite(i == k, vals[k], r)
            return st.cast_val(r, dt.kind)

        return SymTensor((len(vals),), fn, dt or st.float32)
    vz = st._val(v)
    dt = dtype or st.kind_of(v)
    return SymTensor((), lambda: st.cast_val(vz, dt.kind), dt)


def _un(name):
    def f(x, *a, **k):
        if isinstance(x, SymTensor):
            return x._map(st.v_fun(name), st._fl(x.dtype))
        return wrap(rfun(name, x))

    return f


def t_complex(re, im):
    return st.ewise(lambda a, b: CVal(a, b), [re, im], st.complex128 if re.dtype is st.float64 else st.complex64)


def t_sqrt(x):
    if isinstance(x, SymTensor):
        return x.sqrt()
    return wrap(st.v_sqrt(to_z3(x)))


def t_diff(x, dim=-1):
    n = x._shape[dim]
    a = [slice(None)] * x.ndim
    b = [slice(None)] * x.ndim
    a[dim] = slice(1, None)
    b[dim] = slice(None, -1)
    return x[tuple(a)] - x[tuple(b)]


def t_randn(*sh, dtype=None, device=None, requires_grad=False, size=None, generator=None):
    """arbitrary values"""
    if size is not None:
        sh = size
    if len(sh) == 1 and isinstance(sh[0], (list, tuple)):
        sh = tuple(sh[0])
    n = Ctx.cur.fresh("randn").decl().name()
    return SymTensor.input(n, list(sh), dtype=dtype or st.float32)


def t_tri(x, d, lower):
    f = x._snapshot()
    z = st.cast_val(z3.IntVal(0), x.dtype.kind)
    return SymTensor(x._shape, lambda *i: st.v_ite((i[-1] - i[-2] <= to_int(d)) if lower else (i[-1] - i[-2] >= to_int(d)), f(*i), z), x.dtype)


def t_view_as_complex(x):
    if st.lit(x._shape[-1]) != 2:
        raise RuntimeError("view_as_complex: last dimension must have size 2")
    f = x._snapshot()
    return SymTensor(x._shape[:-1], lambda *i: CVal(f(*i, z3.IntVal(0)), f(*i, z3.IntVal(1))), st.complex128 if x.dtype is st.float64 else st.complex64)


class NormalStub:
    """torch.distributions.Normal by contract: an arbitrary draw, loc + scale * z"""

    log = []

    def __init__(self, loc, scale, **k):
        self.loc, self.scale = loc, scale

    def sample(self, shape=()):
        shape = list(shape)
        n = Ctx.cur.fresh("noise").decl().name()
        z = SymTensor.input(n, shape + list(self.loc._shape), dtype=self.loc.dtype)
        NormalStub.log.append((self, shape, z))
        return self.loc + self.scale * z


def make_torch():
    T = NS(_name="torch")
    T.Tensor = SymTensor
    T.Size = st.Size
    T.dtype = st.DType
    T.device = lambda *a, **k: st.CPU
    for n in ("float32", "float64", "float16", "bfloat16", "int64", "int32", "complex64", "complex128"):
        setattr(T, n, getattr(st, n))
    T.float, T.double, T.half, T.long, T.int, T.bool, T.cfloat, T.cdouble = st.float32, st.float64, st.float16, st.int64, st.int32, st.bool_, st.complex64, st.complex128
    T.pi = math.pi
    T.inf = math.inf
    T._check = t_check
    T.zeros, T.ones, T.full, T.empty, T.tensor, T.as_tensor = t_zeros, t_ones, t_full, t_empty, t_tensor, t_tensor
    T.zeros_like = lambda x, **k: st.const_tensor(x._shape, 0, k.get("dtype") or x.dtype)
    T.ones_like = lambda x, **k: st.const_tensor(x._shape, 1, k.get("dtype") or x.dtype)
    T.empty_like = lambda x, **k: t_empty(*x._shape, dtype=k.get("dtype") or x.dtype)
    T.full_like = lambda x, v, **k: st.const_tensor(x._shape, v, k.get("dtype") or x.dtype)
    T.randn = T.rand = t_randn
    T.arange, T.linspace, T.where, T.lerp, T.einsum = st.arange, st.linspace, st.where, st.lerp, st.einsum
    T.cat, T.concat, T.concatenate, T.stack, T.split = st.cat, st.cat, st.cat, st.stack, st.split
    T.flip, T.roll = st.flip, st.roll
    T.matmul, T.mm, T.bmm = st.matmul, st.matmul, lambda a, b: st.einsum("bik,bkj->bij", a, b)
    T.sum = lambda x, dim=None, keepdim=False, **k: x.sum(dim, keepdim)
    T.mean = lambda x, dim=None, keepdim=False, **k: x.mean(dim, keepdim)
    T.sqrt = t_sqrt
    T.sin, T.cos, T.tan, T.exp, T.log = _un("sin"), _un("cos"), _un("tan"), _un("exp"), _un("log")
    T.arccos = T.acos = _un("acos")
    T.arctan2 = T.atan2 = lambda a, b: st.ewise(lambda x, y: rfun("atan2", x, y), [a, b])
    T.abs = lambda x: x.abs()
    T.square = lambda x: x * x
    T.pow = lambda x, n: x**n
    T.clamp = T.clip = lambda x, min=None, max=None: x.clamp(min, max)
    T.complex = t_complex
    T.real = lambda x: x.real
    T.imag = lambda x: x.imag
    T.conj = lambda x: x.conj()
    T.diff = t_diff
    T.searchsorted = lambda a, v, *x, **k: st.searchsorted(a, v, **k)
    T.bucketize = lambda v, a, right=False, **k: st.searchsorted(a, v, right=right)
    T.permute = lambda x, dims: x.permute(*dims)
    T.transpose = lambda x, a, b: x.transpose(a, b)
    T.reshape = lambda x, sh: x.reshape(sh)
    T.unsqueeze = lambda x, d: x.unsqueeze(d)
    T.squeeze = lambda x, d=None: x.squeeze(d)
    T.narrow = lambda x, d, s, l: x.narrow(d, s, l)
    T.tile = lambda x, r: x.repeat(*r)
    T.multiply = T.mul = lambda a, b: a * b
    T.add = lambda a, b: a + b
    T.sub = T.subtract = lambda a, b: a - b
    T.div = T.divide = T.true_divide = lambda a, b: a / b
    T.logical_and = lambda a, b: a & b
    T.logical_or = lambda a, b: a | b
    T.any = lambda x: x.any()
    T.all = lambda x: x.all()
    T.is_tensor = lambda x: isinstance(x, SymTensor)
    T.is_complex = lambda x: x.is_complex()
    T.is_floating_point = lambda x: x.is_floating_point()
    T.numel = lambda x: x.numel()
    T.tril = lambda x, diagonal=0: t_tri(x, diagonal, True)
    T.triu = lambda x, diagonal=0: t_tri(x, diagonal, False)
    T.view_as_complex = t_view_as_complex
    T.view_as_real = lambda x: st.stack([x.real, x.imag], dim=-1)
    T.distributions = NS(_name="torch.distributions", normal=NS(_name="torch.distributions.normal", Normal=NormalStub))
    T.distributions.Normal = NormalStub
    T.outer = lambda a, b: st.einsum("i,j->ij", a, b)
    T.meshgrid = t_meshgrid
    T.isclose = Stub("torch.isclose")
    T.no_grad = NullCtx
    T.inference_mode = NullCtx
    T.set_grad_enabled = NullCtx
    T.compile = passthrough_decorator
    T.compiler = NS(_name="torch.compiler", disable=passthrough_decorator, is_compiling=lambda: False)
    T.jit = NS(_name="torch.jit", script=passthrough_decorator, ignore=passthrough_decorator, export=passthrough_decorator)
    T.autocast = NullCtx
    T.amp = NS(_name="torch.amp", autocast=NullCtx, custom_fwd=passthrough_decorator, custom_bwd=passthrough_decorator)
    T.is_autocast_enabled = lambda *a: False
    T.get_autocast_dtype = lambda *a: st.float32
    T.autograd = NS(_name="torch.autograd", Function=Function)
    T.cuda = NS(_name="torch.cuda", is_available=lambda: False)
    reg = types.SimpleNamespace(fakes={}, autograd={}, ops={})
    T.registered = reg

    def register_fake(name, *a, **k):
        return lambda f: (reg.fakes.__setitem__(name, f), f)[1]

    def register_autograd(name, backward, setup_context=None, **k):
        reg.autograd[name] = (backward, setup_context)

    def custom_op(name, *a, **k):
        def deco(f):
            reg.ops[name] = OpStub(f)
            return reg.ops[name]

        return deco

    T.library = NS(_name="torch.library", custom_op=custom_op, register_fake=register_fake, register_autograd=register_autograd, Library=lambda *a, **k: Stub("lib"), impl=lambda *a, **k: (lambda f: f), define=lambda *a, **k: None)
    T.ops = Stub("torch.ops")
    F = NS(_name="torch.nn.functional", pad=lambda x, pad=None, mode="constant", value=0.0: st.pad(x, pad, mode, value))
    T.nn = NS(_name="torch.nn", Module=Module, Parameter=Parameter, functional=F, init=NS(_name="torch.nn.init"))
    T.fft = NS(_name="torch.fft", rfft=st.rfft, irfft=st.irfft)
    T.distributed = NS(_name="torch.distributed")
    return T


class OpStub:
    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def register_fake(self, f=None):
        return f

    def register_kernel(self, *a, **k):
        return lambda f: f

    def register_autograd(self, *a, **k):
        return None


def t_meshgrid(*ts, indexing="ij"):
    if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
        ts = ts[0]
    if indexing != "ij":
        raise Unsupported("meshgrid indexing")
    sh = [t._shape[0] for t in ts]
    return tuple(SymTensor(sh, (lambda f, d: (lambda *i: f(i[d])))(t._snapshot(), d), t.dtype) for d, t in enumerate(ts))


class MathShim:
    pi = math.pi
    inf = math.inf
    e = math.e

    @staticmethod
    def sqrt(x):
        if is_sym(x):
            return wrap(st.v_sqrt(to_z3(x)))
        if isinstance(x, (int, float)):
            # keep exact meaning: sqrt of a literal stays symbolic when irrational
            r = st.v_sqrt(to_z3(x))
            if z3.is_rational_value(r):
                f = r.as_fraction()
                return float(f) if f.denominator != 1 else float(f.numerator)
            return SymReal(r)
        return x.sqrt()

    @staticmethod
    def _f(n):
        def g(x):
            if is_sym(x):
                return wrap(rfun(n, x))
            return getattr(math, n)(x)

        return staticmethod(g)

    @staticmethod
    def ceil(x):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymReal):
            return wrap(-opaque("rfloor", REAL, INT)(-x.e))
        return math.ceil(x)

    @staticmethod
    def floor(x):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymReal):
            return wrap(opaque("rfloor", REAL, INT)(x.e))
        return math.floor(x)

    @staticmethod
    def prod(xs):
        r = 1
        for x in xs:
            r = r * x
        return r

    @staticmethod
    def gcd(a, b):
        if is_sym(a) or is_sym(b):
            raise Unsupported("gcd")
        return math.gcd(a, b)

    @staticmethod
    def factorial(x):
        if is_sym(x):
            return wrap(opaque("factorial", INT, INT)(to_int(x)))
        return math.factorial(x)

    isinf = staticmethod(lambda x: False if is_sym(x) else math.isinf(x))
    isnan = staticmethod(lambda x: False if is_sym(x) else math.isnan(x))


for _n in ("sin", "cos", "tan", "exp", "log", "acos", "asin"):
    setattr(MathShim, _n, MathShim._f(_n))


def make_numpy():
    N = NS(_name="numpy")
    N.pi = math.pi
    N.linspace = lambda a, b, n, endpoint=True, **k: st.linspace(a, b, n, endpoint=endpoint)
    N.ndarray = Stub("numpy.ndarray")
    N.ceil = MathShim.ceil
    N.sqrt = MathShim.sqrt
    N.polynomial = NS(_name="numpy.polynomial", legendre=NS(_name="numpy.polynomial.legendre"))
    return N


# ------------------------------------------------------------------ builtins
class SymRange:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def conc(self):
        a, b = st.lit(self.lo), st.lit(self.hi)
        if a is None:
            a = concretise(to_int(self.lo))
        if b is None:
            b = concretise(to_int(self.hi))
        if a is None or b is None or not isinstance(self.step, int):
            return None
        return range(a, b, self.step)

    def __iter__(self):
        c = self.conc()
        if c is None:
            raise Unsupported("iteration over a symbolic range without a loop contract")
        return iter(c)

    def vp_len(self):
        n = to_int(self.hi) - to_int(self.lo)
        return wrap(z3.If(n > 0, n, z3.IntVal(0)))

    def __getitem__(self, i):
        return self.lo + i * self.step


def b_range(*a):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if len(a) == 1:
        return SymRange(0, a[0])
    return SymRange(*a)


def b_len(x):
    if hasattr(x, "vp_len"):
        return x.vp_len()
    if isinstance(x, SymList):
        return x.length()
    return builtins.len(x)


def _mm(which):
    def f(*a, **k):
        if len(a) == 1 and isinstance(a[0], SymTensor) and not k:
            # extremum of a whole tensor: an unconstrained value (over-approximation)
            return wrap(Ctx.cur.fresh("extremum", z3.RealSort()))
        key = k.get("key")
        if len(a) == 1 and not is_sym(a[0]):
            x = a[0]
            if isinstance(x, SymList):
                return x_minmax(x, which)
            a = list(x)
        if key is not None or not any(is_sym(x) for x in a):
            return getattr(builtins, which)(a, **k)
        r = a[0]
        for x in a[1:]:
            p, q = st._same(r, x)
            c = (q < p) if which == "min" else (q > p)
            if Ctx.cur.entails(c):
                r = x
            elif Ctx.cur.entails(z3.Not(c)):
                pass
            else:
                r = wrap(z3.If(c, q, p))
        return r

    return f


def x_minmax(l, which):
    """min / max over the non-empty segments of a piecewise-constant symbolic list."""
    if hasattr(l, "minmax"):
        return l.minmax(which)
    r = None
    ne = None
    for n, f in l.segs:
        v = to_int(f(z3.Int("i!x")))
        c = to_int(n) > 0
        if r is None:
            r, ne = v, c
        else:
            better = (v < r) if which == "min" else (v > r)
            r = z3.If(z3.And(c, z3.Or(z3.Not(ne), better)), v, r)
            ne = z3.Or(ne, c)
    return wrap(z3.simplify(r))


def b_int(x=0, *a):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return wrap(to_int(x.e))
    if isinstance(x, SymReal):
        return wrap(st.cast_val(x.e, "i"))
    if isinstance(x, SymTensor):
        return wrap(st.cast_val(x._scalar_z3(), "i"))
    return builtins.int(x, *a)


def b_float(x=0.0):
    if is_sym(x):
        return wrap(to_real(x.e))
    if isinstance(x, SymTensor):
        return wrap(to_real(x._scalar_z3()))
    return builtins.float(x)


def b_bool(x=False):
    return builtins.bool(x)


def b_abs(x):
    return builtins.abs(x)


def b_sum(xs, start=0):
    if isinstance(xs, SymList):
        return wrap(z3.simplify(xs.total())) + start
    r = start
    for x in xs:
        r = r + x
    return r


def b_round(x, *a):
    if is_sym(x):
        raise Unsupported("round")
    return builtins.round(x, *a)


def b_isinstance(x, c):
    cs = c if isinstance(c, tuple) else (c,)
    out = []
    for k in cs:
        if k in (b_int, int):
            if isinstance(x, (int, SymInt)):
                return True
        elif k in (b_float, float):
            if isinstance(x, (float, SymReal)):
                return True
        elif k in (b_list, list):
            if isinstance(x, (list, SymList)):
                return True
        elif k is b_bool or k is bool:
            if isinstance(x, (bool, SymBool)):
                return True
        elif isinstance(k, type):
            if isinstance(x, k):
                return True
    return False


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (list, SymList))


def b_list(x=()):
    if isinstance(x, SymList):
        return SymList(list(x.segs))
    return builtins.list(x)


def b_divmod(a, b):
    if isinstance(a, SymInt):
        return a.__divmod__(b)
    if isinstance(b, SymInt):
        return b.__rdivmod__(a)
    return builtins.divmod(a, b)


def b_enumerate(x, start=0):
    return builtins.enumerate(x, start)


def b_print(*a, **k):
    return None


# ------------------------------------------------------------------ loops
class LoopContracts:
    """(module, function, ordinal) -> contract object with methods
    state(k, env) -> dict name -> value at the start of iteration k (closed form)."""

    table = {}


class LoopTransformer(ast.NodeTransformer):
    """for T in I: B   ==>   handled by __vp_for__ when I is a symbolic range with a contract."""

    def __init__(self, modname):
        self.mod = modname
        self.fn = []
        self.count = {}

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        self.count[".".join(self.fn)] = 0
        self.generic_visit(n)
        self.fn.pop()
        return n

    def visit_ListComp(self, n):
        """[e for v in I]  ==>  __vp_comp__(lambda v: e, I): a list of symbolic length when I is a symbolic range"""
        self.generic_visit(n)
        if not self.fn or len(n.generators) != 1:
            return n
        g = n.generators[0]
        if g.ifs or g.is_async or not isinstance(g.target, ast.Name) or any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(n)):
            return n
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=g.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=n.elt)
        return ast.copy_location(ast.Call(func=ast.Name(id="__vp_comp__", ctx=ast.Load()), args=[lam, g.iter], keywords=[]), n)

    def visit_For(self, n):
        if not self.fn:
            return self.generic_visit(n)
        key = ".".join(self.fn)
        o = self.count[key]
        self.count[key] += 1
        self.generic_visit(n)
        if not isinstance(n.target, ast.Name) or n.orelse:
            return n
        for s in ast.walk(ast.Module(body=n.body, type_ignores=[])):
            if isinstance(s, (ast.Break, ast.Return, ast.Yield, ast.Continue)):
                return n
        assigned = sorted({s.id for b in n.body for s in ast.walk(b) if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store)} - {n.target.id})
        mutated, opaque_mut = set(), False
        for b in n.body:
            for s in ast.walk(b):
                if isinstance(s, (ast.Subscript, ast.Attribute)) and isinstance(s.ctx, (ast.Store, ast.Del)):
                    if isinstance(s, ast.Subscript) and isinstance(s.value, ast.Name):
                        mutated.add(s.value.id)
                    else:
                        opaque_mut = True
                if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in ("append", "extend", "insert", "pop", "clear", "update", "add", "remove"):
                    if isinstance(s.func.value, ast.Name):
                        mutated.add(s.func.value.id)
                    else:
                        opaque_mut = True
        carried = sorted(set(assigned) | mutated)
        rname, lname = f"__vp_it_{o}", f"__vp_l_{o}"
        names = ast.List(elts=[ast.Constant(a) for a in assigned], ctx=ast.Load())
        src = f"""
{rname} = __ITER__
{lname} = __vp_loop__({self.mod!r}, {key!r}, {o}, {rname}, locals())
if {lname} is None:
    for {n.target.id} in {rname}:
        pass
elif {lname}.is_map:
    {lname}.start(locals(), {carried!r}, {opaque_mut!r})
    while {lname}.next():
        {n.target.id} = {lname}.index
        pass
        {lname}.done(locals())
else:
    {lname}.begin(locals())
    {n.target.id} = {lname}.index
    pass
    {lname}.end(locals())
"""
        tree = ast.parse(src).body
        tree[0].value = n.iter
        iff = tree[2]
        iff.body[0].body = n.body
        import copy as _c

        mp = iff.orelse[0]
        sym = mp.orelse
        w = mp.body[1]
        w.body = [ast.parse(f"{a} = {lname}.pre({a!r})").body[0] for a in carried] + w.body[:1] + _c.deepcopy(n.body) + w.body[2:]
        mp.body += [ast.parse(f"{a} = {lname}.out({a!r})").body[0] for a in carried]
        mp.body += [ast.parse(f"{n.target.id} = {lname}.poison").body[0]]
        pre = [ast.parse(f"{a} = {lname}.get({a!r})").body[0] for a in assigned]
        post = [ast.parse(f"{a} = {lname}.out({a!r})").body[0] for a in assigned]
        mp.orelse = sym[:2] + pre + _c.deepcopy(n.body) + [sym[3]] + post
        out = [ast.copy_location(x, n) for x in tree]
        for x in out:
            ast.fix_missing_locations(x)
        return out


class Poison:
    """a value carried over from another iteration of a loop treated as a map: may not be used"""

    def _no(self, *a, **k):
        raise Unsupported("loop-carried value in a loop without a contract")

    __getattr__ = __getitem__ = __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __call__ = __iter__ = __bool__ = __lt__ = __gt__ = __le__ = __ge__ = __index__ = __len__ = _no

    def __deepcopy__(self, memo):
        return self


POISON = Poison()


class MapLoop:
    """A loop over a range or list of symbolic length whose iterations are independent: the body is
    run once for an arbitrary index k on every branch; each list grown by exactly one element per
    iteration becomes the list of those elements, every other carried value is unusable."""

    is_map = True
    poison = POISON

    def __init__(self, key, it, env):
        self.key = key
        ctx = Ctx.cur
        self.n = to_int(it.length() if isinstance(it, SymList) else it.vp_len())
        self.k = ctx.fresh("mk")
        if isinstance(it, SymList):
            v = it.at(self.k)
            self.index = v
        else:
            self.index = wrap(z3.simplify(to_int(it.lo) + self.k))

    def start(self, env, carried, opaque_mut):
        if opaque_mut:
            raise Unsupported("loop body mutates an attribute")
        ctx = Ctx.cur
        self.env0 = {a: env.get(a, POISON) for a in carried}
        self.allenv = [(n, v) for n, v in env.items() if isinstance(v, SymTensor)]
        self.vers = [st_root(v)._version for n, v in self.allenv]
        for a in carried:
            v = self.env0[a]
            if isinstance(v, (list, dict, set)) and sum(1 for n, w in env.items() if w is v and not n.startswith("__vp")) > 1:
                raise Unsupported("aliased list mutated in a loop")
            if not isinstance(v, (list, Poison)) and isinstance(v, (dict, set, SymList)):
                raise Unsupported("container mutated in a loop")
        self.carried = carried
        self.written = {}
        self.mode = "discover"
        self.leaves = []
        self.work = [[]]
        self.passes = 0
        self.npc0 = None

    def next(self):
        ctx = Ctx.cur
        if not self.work:
            self.finish()
            return False
        self.script = self.work.pop()
        self.pos = 0
        self.conds = []
        self.passes += 1
        if self.passes > 40:
            raise Unsupported("too many branches in a loop body")
        self.npc = len(ctx.pc)
        self.nob = len(ctx.obligations)
        ctx.pc.append(z3.And(self.k >= 0, self.k < self.n))
        ctx.kcache = {}
        ctx.maploops.append(self)
        self.cur = {}
        return True

    def decide(self, ctx, c):
        if self.pos < len(self.script):
            d = self.script[self.pos]
        else:
            t, f = ctx.feasible(c), ctx.feasible(z3.Not(c))
            if t != f:
                return t
            if not t:
                raise PathDone()
            d = True
            self.work.append(self.script + [False])
            self.script = self.script + [True]
        self.pos += 1
        self.conds.append((c, d))
        ctx.pc.append(c if d else z3.Not(c))
        return d

    def pre(self, a):
        v = self.env0[a]
        if self.mode == "discover":
            w = v.copy() if isinstance(v, list) else v
        elif isinstance(v, list):
            w = v.copy()
            for i in self.written.get(a, ()):
                w[i] = POISON
        else:
            w = POISON if a in self.written else v
        self.cur[a] = w
        return w

    def done(self, env):
        ctx = Ctx.cur
        ctx.maploops.pop()
        new = ctx.pc[self.npc :]
        keep = [c for c in new if not mentions(c, self.k)]
        del ctx.pc[self.npc :]
        ctx.pc.extend(keep)
        ctx.axioms[:] = [c for c in ctx.axioms if not mentions(c, self.k)]
        ctx.kcache = {}
        for (n, v), ver in zip(self.allenv, self.vers):
            if st_root(v)._version != ver:
                raise Unsupported("tensor written in a loop without a contract")
        if self.mode == "discover":
            # which carried names / slots does the body write?
            for a in self.carried:
                v0, v1, c = self.env0[a], env.get(a, POISON), self.cur[a]
                if isinstance(v0, list):
                    if v1 is not c:
                        raise Unsupported("list rebound in a loop")
                    s = self.written.setdefault(a, set())
                    for i in range(min(len(v0), len(v1))):
                        if v0[i] is not v1[i]:
                            s.add(i)
                elif v1 is not v0:
                    self.written[a] = True
            if not self.work or self.passes == 1:
                pass
            self.disc = getattr(self, "disc", 0) + 1
            if not self.work:
                self.mode = "run"
                self.work = [[]]
                self.passes = 0
            return
        leaf = {}
        for a in self.carried:
            v0, v1 = self.env0[a], env.get(a, POISON)
            if isinstance(v0, list):
                if len(v1) < len(v0) or v1 is not self.cur[a]:
                    raise Unsupported("list shrinks in a loop")
                for i in range(len(v0)):
                    if v1[i] is not self.cur[a][i]:
                        raise Unsupported("list")
                    if v1[i] is not v0[i] and i not in self.written.get(a, ()):
                        raise Unsupported("list slot written on some branches only")
                leaf[a] = v1[len(v0) :]
        self.leaves.append((list(self.conds), leaf))

    def finish(self):
        self.res = {}
        k = self.k
        for a in self.carried:
            v0 = self.env0[a]
            if isinstance(v0, list):
                cnt = {len(l[a]) for _, l in self.leaves}
                if cnt == {0}:
                    if not self.written.get(a):
                        self.res[a] = v0
                    else:
                        w = v0.copy()
                        for i in self.written[a]:
                            w[i] = POISON
                        self.res[a] = w
                elif cnt == {1} and not self.written.get(a):
                    leaves = [(z3.And([c if d else z3.Not(c) for c, d in cs]) if cs else z3.BoolVal(True), l[a][0]) for cs, l in self.leaves]
                    self.res[a] = SymList(SymList.of(v0).segs + [(self.n, (lambda lv: (lambda i: map_value(lv, k, to_int(i))))(leaves))])
                else:
                    raise Unsupported("list grown by a varying number of elements in a loop")
            else:
                self.res[a] = POISON if a in self.written else v0

    def out(self, a):
        return self.res[a]


def st_root(t):
    while t._view is not None:
        t = t._view[0]
    return t


def map_value(leaves, k, i):
    """the element recorded for index k, at index i; alternatives merged by their branch condition"""
    from . import symdist as sd
    pairs = [(k, i)]
    vals = [(z3.simplify(z3.substitute(c, *pairs)), v) for c, v in leaves]
    if all(isinstance(v, SymTensor) for _, v in vals):
        ts = [(c, sd.subst_tensor(sd.freeze(v), pairs)) for c, v in vals]
        if len(ts) == 1:
            return ts[0][1]
        r = ts[-1][1]
        for c, t in reversed(ts[:-1]):
            if t.ndim != r.ndim:
                raise Unsupported("rank depends on the iteration")
            sh = [a if st.dimeq(a, b) else wrap(z3.simplify(z3.If(c, to_int(a), to_int(b)))) for a, b in zip(t._shape, r._shape)]
            r = SymTensor(sh, (lambda c, f, g: (lambda *ix: st.v_ite(c, f(*ix), g(*ix))))(c, t._snapshot(), r._snapshot()), t.dtype)
        return r
    if all(isinstance(v, (int, float, SymInt, SymReal, SymBool)) for _, v in vals):
        r = z3.substitute(to_z3(vals[-1][1]), *pairs)
        for c, v in reversed(vals[:-1]):
            r = z3.If(c, z3.substitute(to_z3(v), *pairs), r)
        return wrap(z3.simplify(r))
    raise Unsupported("list element of this type in a loop")


class LoopRun:
    is_map = False
    """One symbolic loop cut at its contract: init, preservation, and state after the loop."""

    def __init__(self, key, contract, rng, env):
        self.key, self.c, self.rng, self.env0 = key, contract, rng, dict(env)
        ctx = Ctx.cur
        self.lo, self.hi = to_int(rng.lo), to_int(rng.hi)
        if rng.step != 1:
            raise Unsupported("symbolic loop step")
        self.index = None

    def begin(self, env):
        ctx = Ctx.cur
        self.trip = ctx.entails(self.hi >= self.lo)
        lo = self.lo
        hi = self.hi if self.trip else z3.If(self.hi >= self.lo, self.hi, self.lo)
        self.end_k = hi
        # initiation
        tensors = self.c.tensors(env)
        st0 = self.c.state(lo, env)
        for name, t in tensors.items():
            gi = [ctx.fresh("i") for _ in t._shape]
            hyps = [z3.And(g >= 0, g < to_int(s)) for g, s in zip(gi, t._shape)]
            self.c.facts(ctx, lo, gi)
            ctx.prove_eq(f"loop{self.key[2]}-init:{name}", t.at(*gi), st0[name](*gi), hyps)
        # havoc to iteration k
        k = ctx.fresh("it")
        self.npc = len(ctx.pc)
        self.nax = len(ctx.axioms)
        self.ndef = len(ctx.defs)
        ctx.pc.append(z3.And(k >= lo, k < hi))
        ctx.kcache = {}
        self.k = k
        self.index = SymInt(k)
        self.tensors = tensors
        stk = self.c.state(k, env)
        for name, t in tensors.items():
            f = stk[name]
            t._set_fn(f)

    def get(self, name):
        if name in self.c.locals_free():
            return None
        return self.env0.get(name)

    def end(self, env):
        ctx = Ctx.cur
        k1 = self.k + 1
        stn = self.c.state(k1, env)
        for name, t in self.tensors.items():
            gi = [ctx.fresh("i") for _ in t._shape]
            hyps = [z3.And(g >= 0, g < to_int(s)) for g, s in zip(gi, t._shape)]
            self.c.facts(ctx, self.k, gi)
            self.c.split(ctx, self.k, gi, lambda nm, h: ctx.prove_eq(f"loop{self.key[2]}-step:{name}{nm}", t.at(*gi), stn[name](*gi), hyps + h))
        # after the loop
        del ctx.pc[self.npc :]
        del ctx.axioms[self.nax :]
        del ctx.defs[self.ndef :]
        ctx.kcache = {}
        fin = self.c.state(self.end_k, env)
        for name, t in self.tensors.items():
            t._set_fn(fin[name])

    def out(self, name):
        return self.env0.get(name)


def vp_comp(f, it):
    if isinstance(it, SymRange) and it.conc() is None and it.step == 1:
        n = to_int(it.vp_len())
        return SymList([(n, lambda i: f(wrap(z3.simplify(to_int(it.lo) + i))))])
    if isinstance(it, SymList) and concretise(to_int(it.length())) is None:
        return SymList([(n, (lambda g: (lambda i: f(wrap(g(i)) if isinstance(g(i), z3.ExprRef) else g(i))))(g)) for n, g in it.segs])
    return [f(x) for x in it]


def vp_loop(mod, fn, ordinal, it, env):
    if isinstance(it, SymList):
        if concretise(to_int(it.length())) is not None:
            return None
        return MapLoop((mod, fn, ordinal), it, env)
    if not isinstance(it, SymRange):
        return None
    if it.conc() is not None:
        return None
    c = LoopContracts.table.get((mod, fn, ordinal))
    if c is None:
        if it.step != 1:
            raise Unsupported(f"symbolic loop {mod}:{fn}#{ordinal} has no contract")
        return MapLoop((mod, fn, ordinal), it, env)
    return LoopRun((mod, fn, ordinal), c, it, env)


# ------------------------------------------------------------------ loader
class Loader:
    def __init__(self, overrides=None, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.torch = make_torch()
        self.numpy = make_numpy()
        self.overrides = overrides or {}
        self.sources = {}
        # modules whose names are defined only when compiled kernels are available
        self.optional = {"torch_harmonics.disco.optimized.disco_optimized", "torch_harmonics.attention.optimized.attention_optimized"}

    def builtins(self):
        d = dict(vars(builtins))
        d.update(range=b_range, len=b_len, min=_mm("min"), max=_mm("max"), sum=b_sum, isinstance=b_isinstance, divmod=b_divmod, print=b_print, round=b_round)
        d["int"] = b_int
        d["float"] = b_float
        d["list"] = b_list
        d["__import__"] = self.imp
        d["__vp_loop__"] = vp_loop
        d["__vp_comp__"] = vp_comp
        return d

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"].split(".")
            base = pkg[: len(pkg) - (level - 1)]
            name = ".".join(base + ([name] if name else []))
        root = name.split(".")[0]
        if root == "torch":
            if fromlist:
                o = self.torch
                for p in name.split(".")[1:]:
                    o = getattr(o, p)
                return o
            if "." in name:
                return self.torch
            return self.torch
        if root == "numpy":
            return self.numpy
        if root == "math":
            return MathShim
        if root == "itertools":
            return types.SimpleNamespace(**{**vars(itertools), "accumulate": self.accumulate})
        if root == "warnings":
            return types.SimpleNamespace(warn=lambda *a, **k: None, simplefilter=lambda *a, **k: None, catch_warnings=NullCtx)
        if root == "functools":
            return types.SimpleNamespace(lru_cache=lambda *a, **k: (a[0] if a and callable(a[0]) else (lambda f: f)), partial=functools.partial, wraps=functools.wraps, reduce=functools.reduce)
        if root in ("disco_helpers", "attention_helpers"):
            return self.overrides.get(root, Stub(root))
        if root in ("scipy",):
            return Stub(root)
        if root == "torch_harmonics":
            if fromlist:
                m = self.load(name)
                for f in fromlist:
                    if not hasattr(m, f):
                        sub = name + "." + f
                        if self.path_of(sub):
                            setattr(m, f, self.load(sub))
                        elif name in self.optional:
                            setattr(m, f, Stub(f"{name}.{f}"))
                return m
            self.load(name)
            return self.load("torch_harmonics")
        return builtins.__import__(name, globals, locals, fromlist, 0)

    @staticmethod
    def accumulate(xs):
        if isinstance(xs, SymList):
            n = xs.length()
            return SymList([(to_int(n), lambda i: wrap(z3.simplify(xs.prefix(i + 1))))])
        return itertools.accumulate(xs)

    def path_of(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isfile(p + ".py"):
            return p + ".py"
        if os.path.isdir(p):
            i = os.path.join(p, "__init__.py")
            return i if os.path.isfile(i) else p
        return None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        p = self.path_of(name)
        if p is None:
            raise ImportError(name)
        m = types.ModuleType(name)
        self.mods[name] = m
        ispkg = p.endswith("__init__.py") or os.path.isdir(p)
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        m.__file__ = p
        if ispkg:
            # packages are namespaces only: their __init__ re-exports are resolved lazily
            ld = self

            def ga(k, name=name, p=p):
                if k.startswith("__"):
                    raise AttributeError(k)
                if ld.path_of(name + "." + k):
                    return ld.load(name + "." + k)
                # re-export: find "from X import k"
                src = open(p).read() if p.endswith(".py") else ""
                for n in ast.walk(ast.parse(src)):
                    if isinstance(n, ast.ImportFrom):
                        for a in n.names:
                            if (a.asname or a.name) == k:
                                base = name.split(".")[: len(name.split(".")) - (n.level - 1)] if n.level else []
                                tgt = ".".join(base + ([n.module] if n.module else []))
                                try:
                                    return getattr(ld.load(tgt), a.name)
                                except ImportError:
                                    return Stub(f"{tgt}.{a.name}")
                return Stub(f"{name}.{k}")

            m.__getattr__ = ga
            return m
        src = open(p).read()
        self.sources[name] = src
        tree = ast.parse(src, p)
        tree = LoopTransformer(name).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, p, "exec")
        m.__dict__["__builtins__"] = self.builtins()
        exec(code, m.__dict__)
        for k, v in self.overrides.get(name, {}).items():
            m.__dict__[k] = v
        return m
