EXTS = ["attention_helpers", "torch_harmonics.attention._C"]
from .base import *
from .attnc import *


def ops(kind, a, dens, mag, need_g=(True, True, True), dt=torch.float32, strided=False):
    nh = a[1]
    col, off, M, k, v, q, w = oplevel(sum(a[:4]) * 37 + a[4][1] * 7 + a[5][1] + 7, *a, dens, mag, dt)
    ish, osh = a[4], a[5]
    lv = live(M)
    gy = torch.randn(a[0], *osh, nh * a[3], dtype=torch.float64).to(dt)
    gy[:, torch.from_numpy(~lv)] = 0
    if not lv.all():
        return  # points without neighbours have no output
    what = f"{kind} attention gradients B={a[0]} heads={nh} channels={a[2]},{a[3]} in={ish} out={osh} density={dens} magnitude={mag} {dt} needs={need_g}"
    K, V, Q = (t.double().requires_grad_(True) for t in (k, v, q))
    y = dense(split(K, nh), split(V, nh), split(Q, nh), w.double(), M).reshape(gy.shape)
    want = torch.autograd.grad(y, [K, V, Q], gy.double())
    if kind == "kernel":
        f = need("torch_harmonics.attention", "attention_kernels").backward.default
        with must(what):
            got = f(k, v, q, gy, w, col, off, nh, ish[1], osh[0], osh[1])
        need_g = (True, True, True)
    else:
        f = need("torch_harmonics.attention.optimized.attention_optimized", "_neighborhood_s2_attention_optimized") if kind == "compiled" else need("torch_harmonics.attention.kernels_torch.attention_torch", "_neighborhood_s2_attention_torch")
        leaves = [t.clone().requires_grad_(n) for t, n in zip((k, v, q), need_g)]
        xs = leaves
        if strided:
            xs = [t.transpose(1, 2).contiguous().transpose(1, 2) for t in leaves]
            gy = gy.transpose(0, 3).contiguous().transpose(0, 3)
        with must(what):
            z = f(*xs, w, col, off, nh, ish[1], osh[0], osh[1])
            g = iter(torch.autograd.grad(z, [t for t in leaves if t.requires_grad], gy))
            got = [next(g) if t.requires_grad else None for t in leaves]
    tol = TOL[dt] * (1 if abs(mag) < 10 else 200) * 2
    for n, t, g, wa, ng in zip(("key", "value", "query"), (k, v, q), got, want, need_g):
        if not ng:
            continue
        check(g.dtype == t.dtype and g.shape == t.shape, f"{what}: gradient of the {n} is {tuple(g.shape)} {g.dtype}")
        # the scale of cancelling contributions, so that rounding in nearly saturated softmaxes is not an alarm
        s = float(wa.abs().max())
        big = float(gy.abs().max()) * max(1.0, abs(mag)) ** 0.5
        close(g, wa, f"{what}: gradient of the {n}", atol=tol * max(s, 1e-2 * big, 1e-3), rtol=0)


def mod(cfg, which=None):
    c, L, args = module(cfg)
    P = {n: p.detach().double().requires_grad_(True) for n, p in L.named_parameters()}
    uniq = []
    for t in args:
        if not any(t is u for u in uniq):
            uniq.append(t)
    D = [t.double().requires_grad_(True) for t in uniq]
    F = [t.clone().requires_grad_(which is None or i in which) for i, t in enumerate(uniq)]
    pick = lambda src: [src[[t is u for u in uniq].index(True)] for t in args]
    y, lv = reference(c, L, pick(D), P)
    if not lv.all():
        raise Skip("points without neighbours")
    gy = torch.randn(y.shape, dtype=torch.float32)
    want = torch.autograd.grad(y, D + list(P.values()), gy.double(), allow_unused=True)
    what = f"gradients of attention layer {name(cfg)}" + (f" (inputs {which} need gradients)" if which is not None else "")
    ps = [p for p in L.parameters()]
    leaves = [t for t in F if t.requires_grad] + ps
    with must(what):
        z = L(*pick(F))
        got = torch.autograd.grad(z, leaves, gy, allow_unused=True)
    want = [w for t, w in zip(F, want) if t.requires_grad] + list(want[len(D) :])
    big = 0.1 * max(float(w.abs().max()) for w in want if w is not None)
    nm = [f"input {i}" for i, t in enumerate(F) if t.requires_grad] + list(P)
    for n, g, w, t in zip(nm, got, want, leaves):
        check((g is None) == (w is None), f"{what}: gradient of {n} missing")
        if g is None:
            continue
        check(g.dtype == t.dtype and g.shape == t.shape, f"{what}: gradient of {n} is {tuple(g.shape)} {g.dtype}")
        close(g, w, f"{what}: gradient of {n}", atol=1e-4 * (1 if c["mag"] < 10 else 30) * max(float(w.abs().max()), big), rtol=0)


def run(R):
    cs = []
    for a in OPSHAPES:
        for kind in ("compiled", "kernel", "reference"):
            if kind == "reference" and a[4][1] > 20:
                continue
            for dens in (0.3, 1.0):
                cs.append((f"{kind}[{a} density={dens}]", ops, kind, a, dens, 1.0))
            for mag in (100.0, -300.0, 3000.0):
                cs.append((f"{kind}[{a} magnitude={mag}]", ops, kind, a, 0.5, mag))
    for a in OPSHAPES[1:8]:
        for kind in ("compiled", "reference"):
            for ng in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 0, 1)):
                cs.append((f"{kind}[{a} needs={ng}]", ops, kind, a, 0.7, 1.0, tuple(map(bool, ng))))
        cs.append((f"compiled[{a} strided]", ops, "compiled", a, 0.7, 1.0, (True,) * 3, torch.float32, True))
        for dt in (torch.bfloat16, torch.float16):
            cs.append((f"compiled[{a} {dt}]", ops, "compiled", a, 0.7, 1.0, (True,) * 3, dt))
    full = modconfigs(R)
    for c in full:
        cs.append((f"layer[{name(c)}]", mod, c))
    for c in full[:20:2]:
        if c.get("mode", "cross") == "cross":
            for w in ((0,), (1,), (2,), (1, 2), ()):
                cs.append((f"layer[{name(c)} inputs {w}]", mod, c, w))
    R.batch(cs)
    th = [c for c in cs if c[0].startswith(("compiled", "layer"))][:: 2 if R.thorough else 4]
    R.batch([("threads:" + c[0], *c[1:]) for c in th], threads=4)
