"""P18: layout conversion and head folding move every element to its one documented place and are inverse pairs.

Python conversion functions run on tensors with ghost storage identity and ghost memory format (whether the bytes are
already packed is unknown, both cases are explored); the compiled operators by contract (packed argument required,
fresh packed result), which the C++ functions are proved to satisfy."""
import types
from .common import *
from vp.cxx import *
from .attnspec import FWD, NS

ML = "torch_harmonics.attention._layout"
PERM = "torch_harmonics/attention/optimized/kernels_cpu/attention_cpu_permute.cpp"
NHWC, NCHW = (0, 2, 3, 1), (0, 3, 1, 2)


class LT(SymTensor):
    """tensor with ghost storage and ghost memory format"""

    @staticmethod
    def of(t, contig, store=None):
        t.__class__ = LT
        t.contig = contig
        t.store = object() if store is None else store
        return t

    def is_contiguous(self, *a, **k):
        if a or k:
            raise Unsupported("is_contiguous with a memory format")
        return Ctx.cur.decide(self.contig)

    def contiguous(self, *a, **k):
        if a or k:
            raise Unsupported("contiguous with a memory format")
        if Ctx.cur.decide(self.contig):
            return self
        return LT.of(SymTensor.clone(self), z3.BoolVal(True))

    def clone(self, *a, **k):
        if k and "contiguous_format" not in str(k.get("memory_format")):
            raise Unsupported("clone with a memory format")
        return LT.of(SymTensor.clone(self), z3.BoolVal(True) if k else self.contig)

    def permute(self, *d):
        return LT.of(SymTensor.permute(self, *d), Ctx.cur.fresh("packed", z3.BoolSort()), self.store)

    def transpose(self, *d):
        return LT.of(SymTensor.transpose(self, *d), Ctx.cur.fresh("packed", z3.BoolSort()), self.store)

    def detach(self):
        return self


def permuted(t, dims):
    return LT.of(SymTensor.clone(SymTensor.permute(t, *dims)), z3.BoolVal(True))


def loaded(ctx, opt):
    L = Loader({"attention_helpers": types.SimpleNamespace(optimized_kernels_is_available=lambda: opt)})

    def op(dims):
        def f(x):
            ctx.prove("the compiled operator gets a four-dimensional tensor", x.dim() == 4)
            ctx.prove("the compiled operator gets a packed tensor", getattr(x, "contig", False))
            return permuted(x, dims)

        return types.SimpleNamespace(default=f)

    L.torch.ops = types.SimpleNamespace(attention_kernels=types.SimpleNamespace(permute_to_nhwc=op(NHWC), permute_to_nchw=op(NCHW)))
    return L, L.load(ML)


def result(ctx, name, y, x, dims):
    if not isinstance(y, LT):
        raise Unsupported("layout ghost lost")
    ctx.prove(f"{name}: fresh storage", y.store is not x.store)
    ctx.prove(f"{name}: packed", y.contig)
    ctx.prove(f"{name}: precision kept", y.dtype is x.dtype)
    sh = [x.shape[d] for d in dims]
    if prove_shape(ctx, name, y, sh):
        i = [ctx.idx("i", s) for s in sh]
        j = [None] * 4
        for k, d in enumerate(dims):
            j[d] = i[k]
        ctx.prove_eq(f"{name}: every element in its place", y.at(*map(wrap, i)), x.at(*map(wrap, j)))


def convert(opt, fn, dims):
    def proof(ctx):
        L, m = loaded(ctx, opt)
        ctx.functions.update([f"attention._layout.{fn}"] + ([] if opt else ["attention._layout._permuted_copy"]))
        ctx.assumptions.add("permute is a view, contiguous() returns the tensor itself exactly when it is already packed and a packed copy otherwise, clone() of a packed tensor is a packed copy")
        x = LT.of(SymTensor.input("x", tuple(ctx.int(n, lo=0) for n in "abcd")), ctx.fresh("x_packed", z3.BoolSort()))
        fr = Frame(None, x)
        y = getattr(m, fn)(x)
        result(ctx, fn, y, x, dims)
        fr.prove(ctx)
        # inverse pair
        back = getattr(m, "to_nchw" if fn == "to_nhwc" else "to_nhwc")(y)
        if prove_shape(ctx, f"inverse of {fn}", back, x.shape):
            i = [wrap(ctx.idx("i", s)) for s in x.shape]
            ctx.prove_eq(f"inverse of {fn} restores every element", back.at(*i), x.at(*i))
        ctx.canary()

    return proof


def rank(opt, fn):
    def proof(ctx):
        L, m = loaded(ctx, opt)
        for r in (2, 3, 5):
            x = LT.of(SymTensor.input("x", tuple(ctx.int(f"n{k}", lo=0) for k in range(r))), z3.BoolVal(True))
            try:
                getattr(m, fn)(x)
                ok = False
            except (RuntimeError, ValueError, AssertionError):
                ok = True
            ctx.prove(f"{fn} refuses rank {r}", ok)

    return proof


def backward(fn, dims, inv):
    def proof(ctx):
        L, m = loaded(ctx, True)
        name = f"attention_kernels::permute_{fn}"
        reg = L.torch.registered
        ctx.prove(f"{fn}: a backward is registered", name in reg.autograd)
        bwd, setup = reg.autograd[name]
        ctx.functions.add(f"attention._layout.backward of permute_{fn}")
        ctx.assumptions.add("torch.library autograd calls the registered setup and backward functions")
        x = LT.of(SymTensor.input("x", tuple(ctx.int(n, lo=0) for n in "abcd")), z3.BoolVal(True))
        y = permuted(x, dims)
        c = types.SimpleNamespace(needs_input_grad=(True,))
        if setup is not None:
            setup(c, (x,), y)
        g = LT.of(SymTensor.input("g", y.shape), ctx.fresh("g_packed", z3.BoolSort()))
        r = bwd(c, g)
        r = r[0] if isinstance(r, tuple) else r
        result(ctx, f"gradient of {fn}", r, g, inv)
        prove_shape(ctx, f"gradient of {fn} has the argument's shape", r, x.shape)
        fk = reg.fakes.get(name)
        if fk is not None:
            x.new_empty = lambda s, **k: SymTensor.input("empty", tuple(s), k.get("dtype", x.dtype))
            f = fk(x)
            prove_shape(ctx, f"declared shape of permute_{fn}", f, y.shape)
            ctx.prove(f"declared precision of permute_{fn}", f.dtype is x.dtype)
        ctx.canary()

    return proof


def compiled(fn, dims):
    def proof(ctx):
        tu = TU(PERM, NS)
        f = tu.get(f"permute_{fn}_cpu")
        ctx.functions.add(f"attention_cpu_permute.cpp:permute_{fn}_cpu")
        x = SymTensor.input("x", tuple(ctx.int(n, lo=0) for n in "abcd"), float32)
        fr = Frame(None, x)
        m = Machine(ctx, tu)
        y = m.call(f, [Cell(x)])
        root = y
        while root._view is not None:
            root = root._view[0]
        ctx.prove(f"permute_{fn}: the result is freshly allocated", root is not x)
        ctx.prove(f"permute_{fn}: the result is packed", y._view is None)
        ctx.prove(f"permute_{fn}: precision kept", y.dtype is x.dtype)
        sh = [x.shape[d] for d in dims]
        if prove_shape(ctx, f"permute_{fn}", y, sh):
            i = [ctx.idx("i", s) for s in sh]
            j = [None] * 4
            for k, d in enumerate(dims):
                j[d] = i[k]
            ctx.prove_eq(f"permute_{fn}: every element in its place", y.at(*map(wrap, i)), x.at(*map(wrap, j)))
        fr.prove(ctx)
        ctx.canary()

    return proof


def folding(ctx):
    """heads are the consecutive channel blocks; folding and unfolding are inverse for every head count"""
    tu = TU(FWD, NS)
    for n in ("fold_heads", "unfold_heads"):
        ctx.functions.add(f"attention_cpu_fwd.cpp:{n}")
    B, H, W, C, nh, X, Y = [ctx.int(n, lo=1).e for n in ("B", "H", "W", "C", "nh", "X", "Y")]
    ctx.assume(X == nh * C)
    ctx.assume(Y == B * nh)
    b, h, w, c, n = [ctx.idx(k, s) for k, s in (("b", B), ("h", H), ("w", W), ("c", C), ("n", nh))]
    W_ = lambda *a: tuple(wrap(z3.simplify(x)) for x in a)
    m = Machine(ctx, tu)
    t = SymTensor.input("t", W_(B, H, W, X), float32)
    f = m.call(tu.get("fold_heads"), [Cell(t), nh])
    if prove_shape(ctx, "fold_heads", f, (B * nh, H, W, C)):
        ctx.prove_eq("fold_heads: head n of sample b is batch entry b*nh+n", f.at(*W_(b * nh + n, h, w, c)), t.at(*W_(b, h, w, n * C + c)))
    u = m.call(tu.get("unfold_heads"), [Cell(f), nh])
    if prove_shape(ctx, "unfold_heads after fold_heads", u, t.shape):
        ctx.prove_eq("unfold_heads undoes fold_heads", u.at(*W_(b, h, w, n * C + c)), t.at(*W_(b, h, w, n * C + c)))
    s = SymTensor.input("s", W_(Y, H, W, C), float32)
    g = m.call(tu.get("unfold_heads"), [Cell(s), nh])
    if prove_shape(ctx, "unfold_heads", g, (B, H, W, nh * C)):
        ctx.prove_eq("unfold_heads: batch entry b*nh+n becomes channel block n", g.at(*W_(b, h, w, n * C + c)), s.at(*W_(b * nh + n, h, w, c)))
    v = m.call(tu.get("fold_heads"), [Cell(g), nh])
    if prove_shape(ctx, "fold_heads after unfold_heads", v, s.shape):
        ctx.prove_eq("fold_heads undoes unfold_heads", v.at(*W_(b * nh + n, h, w, c)), s.at(*W_(b * nh + n, h, w, c)))
    ctx.canary()


PROOFS = [(f"{fn}{'' if o else ' without compiled kernels'}", convert(o, fn, d)) for o in (True, False) for fn, d in (("to_nhwc", NHWC), ("to_nchw", NCHW))]
PROOFS += [(f"{fn} refuses other ranks ({'compiled' if o else 'fallback'})", rank(o, fn)) for o in (True, False) for fn in ("to_nhwc", "to_nchw")]
PROOFS += [("gradient of to_nhwc", backward("to_nhwc", NHWC, NCHW)), ("gradient of to_nchw", backward("to_nchw", NCHW, NHWC))]
PROOFS += [("permute_to_nhwc_cpu", compiled("to_nhwc", NHWC)), ("permute_to_nchw_cpu", compiled("to_nchw", NCHW)), ("fold_heads/unfold_heads", folding)]
from .attnspec import BACKWARD_OPS, FORWARD_OPS, fwd_wrapper
PROOFS += [(f"C++ s2_attention_fwd_cpu [float32, {'up' if u else 'down'}]", fwd_wrapper(float32, u)) for u in (False, True)]
PROOFS += [p for p in FORWARD_OPS + BACKWARD_OPS if "float16" not in p[0]]
