EXTS = ["attention_helpers", "torch_harmonics.attention._C"]
from .base import *
from .attnc import *

DT = [torch.float32, torch.float64, torch.bfloat16, torch.float16, torch.int64]


def layouts(shape, dt):
    a, b = need("torch_harmonics.attention._layout", "to_nhwc", "to_nchw")
    B, C, H, W = shape
    x = torch.arange(B * C * H * W).reshape(shape)
    x = x.to(dt) if dt not in (torch.bfloat16, torch.float16) else (x % 251).to(dt)
    forms = {
        "contiguous": x.clone(),
        "channels last": x.clone().contiguous(memory_format=torch.channels_last),
        "transposed": x.transpose(-1, -2).contiguous().transpose(-1, -2),
        "sliced": torch.cat([x, x], 1)[:, C:] if C else x,
        "flipped batch": x.transpose(0, 1).contiguous().transpose(0, 1),
        "expanded": x[:1].expand(B, C, H, W),
    }
    for n, t in forms.items():
        what = f"to_nhwc of a {n} {shape} {dt} tensor"
        keep = t.clone()
        with must(what):
            y = a(t)
        same(y.double(), npa(keep.double()).transpose(0, 2, 3, 1), what)
        check(y.is_contiguous() and y.dtype == dt, f"{what}: not contiguous or {y.dtype}")
        with must(f"to_nchw after {what}"):
            z = b(y)
        same(z.double(), keep.double(), f"to_nchw after {what}")
        check(z.is_contiguous() and z.dtype == dt, f"to_nchw after {what}: not contiguous or {z.dtype}")
        if y.numel():
            # fresh storage: writing into the result leaves the argument alone
            y.zero_()
            same(t.double(), keep.double(), f"{what}: result shares memory with the argument")
            z.zero_()
        u = keep.permute(0, 2, 3, 1)
        with must(f"to_nchw of a permuted {n} {shape} {dt} view"):
            w = b(u)
        same(w.double(), keep.double(), f"to_nchw of a permuted {n} {shape} {dt} view")
        v = a(w)
        same(v.double(), u.double(), f"to_nhwc after to_nchw of a {n} {shape} tensor")
        if w.numel():
            w.zero_()
            same(u.double(), npa(keep.double()).transpose(0, 2, 3, 1), f"to_nchw of a {n} {shape} view shares memory with it")


def gradients(shape):
    a, b = need("torch_harmonics.attention._layout", "to_nhwc", "to_nchw")
    B, C, H, W = shape
    x = torch.randn(shape, dtype=torch.float64, requires_grad=True)
    for strided in (False, True):
        g = torch.randn(B, H, W, C, dtype=torch.float64)
        if strided:
            g = torch.randn(C, W, H, B, dtype=torch.float64).permute(3, 2, 1, 0)
        with must(f"gradient of to_nhwc {shape}"):
            (d,) = torch.autograd.grad(a(x), x, g)
        same(d, npa(g).transpose(0, 3, 1, 2), f"gradient of to_nhwc {shape}")
        y = torch.randn(B, H, W, C, dtype=torch.float64, requires_grad=True)
        g = torch.randn(shape, dtype=torch.float64)
        if strided:
            g = torch.randn(W, H, C, B, dtype=torch.float64).permute(3, 2, 1, 0)
        with must(f"gradient of to_nchw {shape}"):
            (d,) = torch.autograd.grad(b(y), y, g)
        same(d, npa(g).transpose(0, 2, 3, 1), f"gradient of to_nchw {shape}")


def heads(kind, a, direction):
    """a call with several heads equals the calls head by head: heads are the consecutive channel blocks"""
    nh = a[1]
    col, off, M, k, v, q, w = oplevel(11, *a, 0.7, 1.0)
    ish, osh = a[4], a[5]
    if not live(M).all():
        return
    if kind == "compiled":
        F = need("torch_harmonics.attention.optimized.attention_optimized", "_neighborhood_s2_attention_optimized")
    else:
        F = need("torch_harmonics.attention.kernels_torch.attention_torch", "_neighborhood_s2_attention_torch")
    f = lambda k, v, q, n: F(k, v, q, w, col, off, n, ish[1], osh[0], osh[1])
    blk = lambda t, h: t.reshape(*t.shape[:3], nh, -1)[..., h, :].contiguous()
    what = f"{kind} attention with {nh} heads {a}"
    xs = [t.clone().requires_grad_(True) for t in (k, v, q)]
    gy = torch.randn(a[0], *osh, nh * a[3])
    with must(what):
        y = f(*xs, nh)
        g = torch.autograd.grad(y, xs, gy)
    for h in range(nh):
        hs = [blk(t, h).requires_grad_(True) for t in (k, v, q)]
        with must(what + " head by head"):
            z = f(*hs, 1)
            d = torch.autograd.grad(z, hs, blk(gy, h))
        if direction == "forward":
            close_rel(blk(y, h), z, f"{what}: head {h}", 1e-5)
        else:
            for n, p, r in zip(("key", "value", "query"), g, d):
                close_rel(blk(p, h), r, f"{what}: {n} gradient of head {h}", 2e-5)
    # batch entries do not mix either
    for b in range(a[0]):
        with must(what + " batch by batch"):
            z = f(*(t[b : b + 1].contiguous() for t in (k, v, q)), nh)
        close_rel(y[b : b + 1], z, f"{what}: batch entry {b}", 1e-5)


def autocast(shape):
    a, b = need("torch_harmonics.attention._layout", "to_nhwc", "to_nchw")
    for dt in DT[:4]:
        x = torch.randn(shape).to(dt)
        with must("layout conversion under autocast"), torch.autocast("cpu", torch.bfloat16):
            y = a(x)
            z = b(y)
        check(y.dtype == dt and z.dtype == dt, f"layout conversion under autocast turns {dt} into {y.dtype}, {z.dtype}")
        same(z.double(), x.double(), "layout round trip under autocast")


def fallback(shape, dt):
    """conversion used when the compiled kernels are absent"""
    p = need("torch_harmonics.attention._layout", "_permuted_copy")
    x = torch.randn(shape).to(dt)
    for dims in ((0, 2, 3, 1), (0, 3, 1, 2)):
        with must("permuted copy"):
            y = p(x, dims)
        same(y.double(), npa(x.double()).transpose(dims), f"permuted copy {shape} {dims}")
        check(y.is_contiguous(), f"permuted copy {shape} {dims} is not contiguous")
        if y.numel():
            k = x.clone()
            y.zero_()
            same(x.double(), k.double(), f"permuted copy {shape} {dims} shares memory")


def refused():
    a, b = need("torch_harmonics.attention._layout", "to_nhwc", "to_nchw")
    for f in (a, b):
        for n in (3, 5):
            raises("layout conversion of another rank", RuntimeError, lambda: f(torch.randn([2] * n)))


def run(R):
    shapes = [(1, 1, 1, 1), (2, 3, 4, 5), (1, 7, 1, 1), (3, 1, 4, 5), (2, 8, 1, 6), (2, 8, 6, 1), (1, 64, 3, 5), (2, 33, 17, 31), (4, 2, 2, 2), (1, 5, 5, 5), (0, 3, 4, 5), (2, 0, 3, 4), (1, 65, 32, 33)]
    for _ in range(40 if R.thorough else 10):
        shapes.append(tuple(R.rng.randrange(1, 9) for _ in range(4)))
    cs = []
    for s in shapes:
        for dt in DT:
            cs.append((f"layout[{s} {dt}]", layouts, s, dt))
        cs.append((f"gradients[{s}]", gradients, s))
        cs.append((f"fallback[{s}]", fallback, s, torch.float32))
    cs.append(("autocast", autocast, (2, 3, 4, 5)))
    cs.append(("rank", refused))
    for a in ((2, 2, 3, 2, (3, 4), (3, 4)), (1, 3, 2, 5, (3, 6), (2, 3)), (2, 4, 1, 2, (2, 3), (3, 6)), (3, 5, 2, 1, (2, 2), (2, 2)), (2, 2, 1, 3, (2, 1), (2, 3))):
        for kind in ("compiled", "reference"):
            for d in ("forward", "backward"):
                cs.append((f"heads[{kind} {a} {d}]", heads, kind, a, d))
    R.batch(cs)
    R.batch([("threads:" + c[0], *c[1:]) for c in cs if c[0].startswith(("heads", "layout"))][:: 6], threads=4)
