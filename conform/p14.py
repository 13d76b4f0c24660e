EXTS = ["disco_helpers", "torch_harmonics.disco._C"]
from .base import *
from .discoc import *


def raw(seed, B, C, K, Ho, Hi, Wi, s, dens, dt, pat=None):
    dk = need("torch_harmonics.disco", "disco_kernels")
    D, roff, ker, row, col, val = psi(seed, K, Ho, Hi, Wi, dens, pat=pat)
    Wo = Wi // s
    cd = dt if dt in (torch.float32, torch.float64) else torch.float32
    x = torch.randn(B, C, Hi, Wi, dtype=torch.float64).to(dt)
    what = f"forward kernel B={B} C={C} K={K} in={Hi}x{Wi} out={Ho}x{Wo} {len(val)} entries {dt}"
    with must(what):
        y = dk.forward.default(x, roff, ker, row, col, val.to(cd), K, Ho, Wo)
    check(y.dtype == dt, f"{what}: result type {y.dtype}")
    close_rel(y, contract(D, npa(x).astype(np.float64), Wo), what, TOL[dt])
    g = torch.randn(B, C, K, Ho, Wo, dtype=torch.float64).to(dt)
    what = "transposed " + what
    with must(what):
        z = dk.backward.default(g, roff, ker, row, col, val.to(cd), K, Hi, Wi)
    check(z.dtype == dt, f"{what}: result type {z.dtype}")
    close_rel(z, adjoint_contract(D, npa(g).astype(np.float64), Wi), what, TOL[dt])


def ops(seed, B, C, K, Ho, Hi, Wi, s, dens, dt):
    """the contraction operators the layers call, on non-contiguous input, against the reference implementation"""
    F, T = need("torch_harmonics.disco.optimized.disco_optimized", "_disco_s2_contraction_optimized", "_disco_s2_transpose_contraction_optimized")
    D, roff, ker, row, col, val = psi(seed, K, Ho, Hi, Wi, dens)
    Wo = Wi // s
    x = torch.randn(B, C, Wi, Hi, dtype=dt).transpose(-1, -2)
    with must("contraction operator on a strided input"):
        y = F(x, roff, ker, row, col, val, K, Ho, Wo)
    close_rel(y, contract(D, npa(x).astype(np.float64), Wo), "contraction operator on a strided input", TOL[dt])
    g = torch.randn(B, K, C, Ho, Wo, dtype=dt).transpose(1, 2)
    with must("transposed contraction operator on a strided input"):
        z = T(g, roff, ker, row, col, val, K, Hi, Wi)
    close_rel(z, adjoint_contract(D, npa(g).astype(np.float64), Wi), "transposed contraction operator on a strided input", TOL[dt])


def reference(seed, B, C, K, Ho, Hi, Wi, s, dens, dt):
    F, T = need("torch_harmonics.disco.kernels_torch.disco_torch", "_disco_s2_contraction_torch", "_disco_s2_transpose_contraction_torch")
    gp = need("torch_harmonics.disco._disco_utils", "_get_psi")
    D, roff, ker, row, col, val = psi(seed, K, Ho, Hi, Wi, dens)
    idx = torch.stack([ker, row, col])
    Wo = Wi // s
    x = torch.randn(B, C, Hi, Wi, dtype=dt)
    what = f"reference contraction K={K} in={Hi}x{Wi} out={Ho}x{Wo} {dt}"
    with must(what):
        y = F(x, gp(K, idx, val, Hi, Wi, Ho, Wo), Wo)
    check(y.dtype == dt, f"{what}: result type {y.dtype}")
    close_rel(y, contract(D, npa(x).astype(np.float64), Wo), what, TOL[dt])
    g = torch.randn(B, C, K, Ho, Wo, dtype=dt)
    what = "transposed " + what
    with must(what):
        z = T(g, gp(K, idx, val, Ho, Wo, Hi, Wi, semi_transposed=True), Wi)
    close_rel(z, adjoint_contract(D, npa(g).astype(np.float64), Wi), what, TOL[dt])


def fwd(cfg):
    c, L, D, W, bias = layer(cfg)
    x = field(c)
    what = f"layer {name(cfg)}"
    for i, v in enumerate([x, x[:1]]):
        with must(what):
            y = L(v)
        check(tuple(y.shape) == (v.shape[0], c["cout"], *c["osh"]) and y.dtype == c["dt"], f"{what}: result {tuple(y.shape)} {y.dtype}")
        close_rel(y, apply(c, D, W, bias, npa(v).astype(np.float64)), what, TOL[c["dt"]] * 3)


def amp(cfg):
    c, L, D, W, bias = layer(dict(cfg, dt=torch.float32))
    x = field(c)
    with must(f"layer under autocast {name(cfg)}"), torch.autocast("cpu", torch.bfloat16):
        y = L(x)
    close_rel(y, apply(c, D, W, bias, npa(x).astype(np.float64)), f"layer under autocast {name(cfg)}", 6e-2)


def refused(cls, cin, cout, ish, osh, kw):
    Cls = need("torch_harmonics.disco", cls)
    raises(f"{cls} in={ish} out={osh} {kw}", (ValueError, RuntimeError), lambda: Cls(cin, cout, ish, osh, (3, 2), **kw))


def kernel_refuses():
    dk = need("torch_harmonics.disco", "disco_kernels")
    D, roff, ker, row, col, val = psi(1, 2, 3, 4, 6, 0.3)
    raises("forward kernel with a fractional longitude ratio", RuntimeError, lambda: dk.forward.default(torch.randn(1, 1, 4, 6, dtype=torch.float64), roff, ker, row, col, val, 2, 3, 4))
    raises("transposed kernel with a fractional longitude ratio", RuntimeError, lambda: dk.backward.default(torch.randn(1, 1, 2, 3, 4, dtype=torch.float64), roff, ker, row, col, val, 2, 4, 6))


def state(cfg):
    """the filter tensor is determined by the construction arguments: a layer restored from another one's state acts the same"""
    c, L, D, W, bias = layer(cfg)
    c2, L2, *_ = layer(cfg)
    with must("restoring the state"):
        L2.load_state_dict(L.state_dict())
        x = field(c)
        same(L2(x), L(x), "layer restored from state")


def run(R):
    f64, f32, bf, f16 = torch.float64, torch.float32, torch.bfloat16, torch.float16
    rng = R.rng
    shapes = [(1, 1, 1, 1, 1, 1, 1), (2, 3, 4, 5, 6, 12, 1), (1, 2, 3, 5, 4, 12, 2), (2, 1, 2, 4, 3, 12, 3), (1, 2, 3, 3, 5, 12, 4), (2, 2, 2, 3, 5, 12, 6), (1, 1, 3, 2, 4, 12, 12), (3, 1, 2, 6, 2, 7, 7), (1, 4, 5, 3, 3, 10, 5), (1, 1, 2, 9, 1, 4, 2), (2, 2, 1, 1, 7, 9, 3)]
    for _ in range(60 if R.thorough else 20):
        s = rng.choice([1, 2, 3, 4, 5])
        shapes.append((rng.randrange(1, 4), rng.randrange(1, 4), rng.randrange(1, 6), rng.randrange(1, 8), rng.randrange(1, 8), s * rng.randrange(1, 7), s))
    cs = []
    for i, (B, C, K, Ho, Hi, Wi, s) in enumerate(shapes):
        for dens in (0.1, 0.5, 1.0):
            dt = f64 if i % 4 else (f64, f32, bf, f16)[(i // 4 + int(dens * 10)) % 4]
            a = (100 * R.seed + i, B, C, K, Ho, Hi, Wi, s, dens, dt)
            cs.append((f"kernels[{a}]", raw, *a))
            if dens == 0.5:
                b = a[:-1] + (dt if dt in (f32, f64) else f64,)
                cs.append((f"operators[{b}]", ops, *b))
                cs.append((f"reference[{b}]", reference, *b))
    # no entries at all; entries of one filter only; filters meeting in one row
    for pat in ([], [(0, 1, 3)], [(1, 0, 2), (1, 0, 5)], [(0, 2, 1), (1, 2, 4)], [(0, 0, 0), (1, 0, 0), (0, 1, 1), (1, 1, 11)]):
        cs.append((f"pattern[{pat}]", raw, 5, 1, 2, 2, 3, 2, 6, 1, 0.0, f64, pat))
        cs.append((f"pattern[{pat} stride 2]", raw, 5, 1, 2, 2, 3, 2, 6, 2, 0.0, f64, pat))
    cs.append(("ratio", kernel_refuses))
    full = configs(R)
    for c in full:
        cs.append((f"layer[{name(c)}]", fwd, c))
    for c in full[:10]:
        if c.get("opt", True):
            cs.append((f"autocast[{name(c)}]", amp, c))
    for c in full[:4]:
        cs.append((f"state[{name(c)}]", state, c))
    cs += [
        ("refused[ratio]", refused, "DiscreteContinuousConvS2", 2, 2, (4, 6), (4, 4), {}),
        ("refused[ratio2]", refused, "DiscreteContinuousConvS2", 2, 2, (4, 6), (4, 12), {}),
        ("refused[ratio tr]", refused, "DiscreteContinuousConvTransposeS2", 2, 2, (4, 4), (4, 6), {}),
        ("refused[cutoff]", refused, "DiscreteContinuousConvS2", 2, 2, (4, 6), (4, 6), dict(theta_cutoff=0.0)),
        ("refused[cutoff tr]", refused, "DiscreteContinuousConvTransposeS2", 2, 2, (4, 6), (4, 6), dict(theta_cutoff=-1.0)),
        ("refused[groups]", refused, "DiscreteContinuousConvS2", 3, 2, (4, 6), (4, 6), dict(groups=2)),
        ("refused[groups out]", refused, "DiscreteContinuousConvS2", 2, 3, (4, 6), (4, 6), dict(groups=2)),
    ]
    R.batch(cs)
    th = [c for c in cs if c[0].startswith(("kernels", "layer"))][:: 2 if R.thorough else 4]
    R.batch([("threads:" + c[0], *c[1:]) for c in th], threads=4)
