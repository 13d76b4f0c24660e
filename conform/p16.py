EXTS = ["attention_helpers", "torch_harmonics.attention._C"]
from .base import *
from .attnc import *


def ops(kind, a, dens, mag, dt=torch.float32):
    nh = a[1]
    col, off, M, k, v, q, w = oplevel(sum(a[:4]) * 37 + a[4][1] * 7 + a[5][1] + 7, *a, dens, mag, dt)
    ish, osh = a[4], a[5]
    if kind == "compiled":
        f = need("torch_harmonics.attention.optimized.attention_optimized", "_neighborhood_s2_attention_optimized")
    elif kind == "kernel":
        f = need("torch_harmonics.attention", "attention_kernels").forward.default
    else:
        f = need("torch_harmonics.attention.kernels_torch.attention_torch", "_neighborhood_s2_attention_torch")
    what = f"{kind} attention B={a[0]} heads={nh} channels={a[2]},{a[3]} in={ish} out={osh} density={dens} magnitude={mag} {dt}"
    keep = [t.clone() for t in (k, v, q, w, col, off)]
    with must(what):
        y = f(k, v, q, w, col, off, nh, ish[1], osh[0], osh[1])
    check(tuple(y.shape) == (a[0], *osh, nh * a[3]) and y.dtype == dt, f"{what}: result {tuple(y.shape)} {y.dtype}")
    for t, s in zip((k, v, q, w, col, off), keep):
        check(torch.equal(t, s), f"{what}: an argument was modified")
    want = dense(split(k, nh), split(v, nh), split(q, nh), w.double(), M).reshape(y.shape)
    lv = live(M)
    close_rel(npa(y)[:, lv], npa(want)[:, lv], what, TOL[dt] * (1 if abs(mag) < 10 else 50))
    if kind == "compiled":
        with must(what + " strided"):
            z = f(*(t.transpose(1, 2).contiguous().transpose(1, 2) for t in (k, v, q)), w, col, off, nh, ish[1], osh[0], osh[1])
        close_rel(npa(z)[:, lv], npa(want)[:, lv], what + " on strided inputs", TOL[dt] * (1 if abs(mag) < 10 else 50))


def mod(cfg):
    c, L, args = module(cfg)
    want, lv = reference(c, L, args)
    what = f"attention layer {name(cfg)}"
    L.eval()
    with must(what):
        y = L(*args)
    check(tuple(y.shape) == tuple(want.shape) and y.dtype == torch.float32, f"{what}: result {tuple(y.shape)} {y.dtype}")
    close_rel(npa(y)[:, :, lv], npa(want)[:, :, lv], what, 5e-5 * (1 if c["mag"] < 10 else 20))


def amp(cfg):
    c, L, args = module(cfg)
    want, lv = reference(c, L, args)
    L.eval()
    with must(f"attention layer under autocast {name(cfg)}"), torch.autocast("cpu", torch.bfloat16):
        y = L(*args)
    close_rel(npa(y.float())[:, :, lv], npa(want)[:, :, lv], f"attention layer under autocast {name(cfg)}", 8e-2)


def tscale(cfg, sc):
    c, L, args = module(dict(cfg, scale=sc))
    want, lv = reference(dict(c, scale=sc.double() if sc.dim() == 0 else sc.double().reshape(-1)), L, args)
    with must(f"attention layer with a tensor scale {name(cfg)}"):
        y = L(*args)
    close_rel(npa(y)[:, :, lv], npa(want)[:, :, lv], f"attention layer with a tensor scale {name(cfg)}", 5e-5)


def refused(cls, ish, osh, kw, call=None):
    C = need("torch_harmonics.attention", cls)
    a = (4, 1) if cls == "AttentionS2" else (4,)

    def f():
        L = C(*a, ish, osh, **kw)
        if call:
            call(L)

    raises(f"{cls} in={ish} out={osh} {kw}", (ValueError, RuntimeError), f)


def weights(gi, ish):
    """constant values are reproduced whatever the weights, and with constant queries the output is the quadrature average"""
    c, L, args = module(dict(ish=ish, osh=ish, gi=gi, go=gi, cut=3.3, bias=True))
    with torch.no_grad():
        L.q_weights.zero_()
        L.q_bias.zero_()
    q, k, v = args
    w = torch.from_numpy(np.array(O.lats(gi, ish[0])[1])).double() / 2 / ish[1]
    with must("attention with zero queries"):
        y = L(q, k, v)
    vv = torch.einsum("bchw,oc->bohw", v.double(), L.v_weights.double()[:, :, 0, 0]) + L.v_bias.double()[None, :, None, None]
    m = torch.einsum("bohw,h->bo", vv, w)
    want = m @ L.proj_weights.double()[:, :, 0, 0].T + L.proj_bias.double()
    close_rel(y, npa(want)[:, :, None, None] * np.ones(ish), f"attention with zero queries on {gi} {ish} is the quadrature mean of the values", 5e-5)


def run(R):
    cs = []
    for a in OPSHAPES:
        for kind in ("compiled", "kernel", "reference"):
            if kind == "reference" and a[4][1] > 20:
                continue
            for dens in (0.1, 0.6, 1.0):
                cs.append((f"{kind}[{a} density={dens}]", ops, kind, a, dens, 1.0))
            for mag in (200.0, -300.0, 3000.0, -3000.0):
                cs.append((f"{kind}[{a} magnitude={mag}]", ops, kind, a, 0.5, mag))
    for a in OPSHAPES[1:4] + OPSHAPES[5:7]:
        for dt in (torch.bfloat16, torch.float16):
            for kind in ("compiled", "reference"):
                cs.append((f"{kind}[{a} {dt}]", ops, kind, a, 0.5, 1.0, dt))
    full = modconfigs(R)
    for c in full:
        cs.append((f"layer[{name(c)}]", mod, c))
    for c in full[:16:3]:
        cs.append((f"autocast[{name(c)}]", amp, c))
    for c in (full[0], full[8], full[14]):
        for sc in (torch.tensor(0.7), torch.tensor([0.25])):
            cs.append((f"scale[{name(c)} {sc.dim()}]", tscale, c, sc))
    for gi in ("equiangular", "legendre-gauss", "lobatto"):
        cs.append((f"mean[{gi}]", weights, gi, (5, 6)))
    x = torch.randn(1, 4, 4, 6)
    N = "NeighborhoodAttentionS2"
    cs += [
        ("refused[ratio]", refused, N, (4, 6), (4, 4), {}),
        ("refused[global ratio]", refused, "AttentionS2", (4, 6), (4, 4), {}),
        ("refused[cutoff]", refused, N, (4, 6), (4, 6), dict(theta_cutoff=0.0)),
        ("refused[heads k]", refused, N, (4, 6), (4, 6), dict(num_heads=2, k_channels=3)),
        ("refused[heads v]", refused, N, (4, 6), (4, 6), dict(num_heads=2, out_channels=3)),
        ("refused[dtype]", refused, N, (4, 6), (4, 6), {}, lambda L: L(x, x.double(), x)),
        ("refused[query extent]", refused, N, (4, 6), (4, 6), {}, lambda L: L(x[..., :5], x, x)),
        ("refused[key extent]", refused, N, (4, 6), (4, 6), {}, lambda L: L(x, x[..., :3, :], x)),
        ("refused[value extent]", refused, N, (4, 6), (4, 6), {}, lambda L: L(x, x, x[..., :3])),
        ("refused[rank]", refused, N, (4, 6), (4, 6), {}, lambda L: L(x[0])),
    ]
    R.batch(cs)
    th = [c for c in cs if c[0].startswith(("compiled", "layer"))][:: 2 if R.thorough else 4]
    R.batch([("threads:" + c[0], *c[1:]) for c in th], threads=4)
