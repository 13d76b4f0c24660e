EXTS = ["disco_helpers", "torch_harmonics.disco._C"]
from .base import *
from .discoc import *
from . import p14


def grads(cfg, which="all"):
    c, L, D, W, bias = layer(cfg)
    x = field(c)
    gy = torch.randn(c["b"], c["cout"], *c["osh"], dtype=torch.float64).to(c["dt"])
    if which == "strided":
        gy = torch.randn(c["b"], c["osh"][1], c["osh"][0], c["cout"], dtype=torch.float64).to(c["dt"]).permute(0, 3, 2, 1)
    if which == "expanded":
        gy = torch.ones((), dtype=c["dt"]).expand(c["b"], c["cout"], *c["osh"])
    what = f"gradients of layer {name(cfg)} ({which})"
    xg = x.detach().requires_grad_(which != "weight only")
    L.weight.requires_grad_(which != "input only")
    ps = [("input", xg), ("weight", L.weight)] + ([("bias", L.bias)] if c["bias"] else [])
    ps = [p for p in ps if p[1].requires_grad]
    with must(what):
        y = L(xg)
        gs = torch.autograd.grad(y, [p for _, p in ps], gy)
    want = dict(zip(("input", "weight", "bias"), apply_adjoint(c, D, W, npa(x).astype(np.float64), npa(gy).astype(np.float64))))
    for (n, p), g in zip(ps, gs):
        check(g.dtype == p.dtype and g.shape == p.shape, f"{what}: gradient of the {n} is {tuple(g.shape)} {g.dtype}")
        close_rel(g, want[n], f"{what}: gradient of the {n}", TOL[c["dt"]] * 4)


def split(seed, B, G, Og, Cg, K, Ho, Hi, Wi, s, dens):
    """operators with saved / recomputed expansion on arbitrary filter tensors"""
    m = need("torch_harmonics.disco.optimized.disco_optimized")
    need("torch_harmonics.disco.optimized.disco_optimized", "_build_kernel_split_csr", "_disco_s2_fused_conv_optimized", "_disco_s2_conv_save_x_optimized", "_split_csr_python_offsets")
    D, roff, ker, row, col, val = psi(seed, K, Ho, Hi, Wi, dens)
    Wo = Wi // s
    c = dict(ish=(Hi, Wi), osh=(Ho, Wo), tr=False)
    W = torch.randn(G, Og, Cg, K, dtype=torch.float64)
    x = torch.randn(B, G * Cg, Hi, Wi, dtype=torch.float64)
    gy = torch.randn(B, G * Og, Ho, Wo, dtype=torch.float64)
    with must("kernel-split filter tensor"):
        sp = m._build_kernel_split_csr(roff, ker, row, col, val, K, Ho)
        offs = m._split_csr_python_offsets(sp[1])
    gx, gw, _ = apply_adjoint(c, D, npa(W), npa(x), npa(gy))
    for nm, f in (("fused", m._disco_s2_fused_conv_optimized), ("save_x", m._disco_s2_conv_save_x_optimized)):
        for o in (offs, ((), ())):
            what = f"{nm} operator G={G} Og={Og} Cg={Cg} K={K} in={Hi}x{Wi} out={Ho}x{Wo} offsets={'given' if o[0] else 'read'}"
            xg, wg = x.clone().requires_grad_(True), W.clone().requires_grad_(True)
            with must(what):
                y = f(xg, wg, roff, ker, row, col, val, *sp, K, Ho, Wo, G, Cg, list(o[0]), list(o[1]))
                a, b = torch.autograd.grad(y, [xg, wg], gy)
            close_rel(y, apply(c, D, npa(W), np.zeros(G * Og), npa(x)), what)
            close_rel(a, gx, what + ": input gradient")
            close_rel(b, gw.reshape(W.shape), what + ": weight gradient")


def opgrad(seed, B, C, K, Ho, Hi, Wi, s, dens):
    F, T = need("torch_harmonics.disco.optimized.disco_optimized", "_disco_s2_contraction_optimized", "_disco_s2_transpose_contraction_optimized")
    D, roff, ker, row, col, val = psi(seed, K, Ho, Hi, Wi, dens)
    Wo = Wi // s
    x = torch.randn(B, C, Hi, Wi, dtype=torch.float64)
    adjoint(lambda v: F(v, roff, ker, row, col, val, K, Ho, Wo), x, "contraction operator", 1e-10)
    g = torch.randn(B, C, K, Ho, Wo, dtype=torch.float64)
    adjoint(lambda v: T(v, roff, ker, row, col, val, K, Hi, Wi), g, "transposed contraction operator", 1e-10)


def accumulate(cfg):
    """gradients of two uses of one layer add up, and a second backward pass through a fresh graph gives the same"""
    c, L, D, W, bias = layer(cfg)
    xs = [field(c) for _ in range(2)]
    gy = torch.randn(c["b"], c["cout"], *c["osh"], dtype=c["dt"])
    with must("two uses"):
        L.zero_grad()
        (L(xs[0]) * gy).sum().backward()
        (L(xs[1]) * gy).sum().backward()
    want = sum(apply_adjoint(c, D, W, npa(x).astype(np.float64), npa(gy).astype(np.float64))[1] for x in xs)
    close_rel(L.weight.grad, want, f"accumulated weight gradient {name(cfg)}", TOL[c["dt"]] * 4)


def run(R):
    rng = R.rng
    cs = []
    for c in configs(R):
        cs.append((f"gradients[{name(c)}]", grads, c))
    base = configs(R)[:12]
    for c in base:
        for w in ("input only", "weight only", "strided", "expanded"):
            cs.append((f"gradients[{name(c)} {w}]", grads, c, w))
        cs.append((f"accumulate[{name(c)}]", accumulate, c))
    for i in range(40 if R.thorough else 16):
        s = rng.choice([1, 2, 3, 4])
        a = (100 * R.seed + i, rng.randrange(1, 3), rng.choice([1, 2]), rng.choice([1, 2]), rng.choice([1, 2, 4]), rng.randrange(1, 5), rng.randrange(1, 6), rng.randrange(1, 6), s * rng.randrange(1, 5), s, rng.choice([0.05, 0.3, 1.0]))
        cs.append((f"split[{a}]", split, *a))
        b = (a[0], a[1], a[2]) + a[5:]
        cs.append((f"operators[{b}]", opgrad, *b))
        k = (a[0], a[1], a[2]) + a[5:] + (torch.float64,)
        cs.append((f"kernels[{k}]", p14.raw, *k))
    R.batch(cs)
    R.batch([("threads:" + c[0], *c[1:]) for c in cs[:: 3 if R.thorough else 5]], threads=4)
