"""Shared concrete machinery for the DISCO contraction properties (P14 forward, P15 adjoint)."""
from .base import *

TOL = {torch.float64: 1e-10, torch.float32: 2e-5, torch.bfloat16: 3e-2, torch.float16: 5e-3}


def pattern(rng, K, Ho, Hi, Wi, dens):
    out = []
    for h in range(Ho):
        for k in range(K):
            if rng.random() < 0.15:
                continue
            n = max(0, min(Hi * Wi, int(dens * Hi * Wi * (0.5 + rng.random())) or rng.randrange(0, 2)))
            out += [(k, h, c) for c in sorted(rng.sample(range(Hi * Wi), n))]
    return out


def psi(seed, K, Ho, Hi, Wi, dens, dt=torch.float64, pat=None):
    """random filter tensor: dense array [K, Ho, Hi, Wi] and its preprocessed sparse form"""
    P = need("disco_helpers", "preprocess_psi")
    rng = random.Random(seed)
    pat = pattern(rng, K, Ho, Hi, Wi, dens) if pat is None else pat
    ker, row, col = (torch.tensor([p[i] for p in pat], dtype=torch.int64) for i in range(3))
    val = torch.from_numpy(np.random.RandomState(seed).randn(len(pat)))
    D = np.zeros((K, Ho, Hi, Wi))
    for p, v in zip(pat, val.tolist()):
        D[p[0], p[1], p[2] // Wi, p[2] % Wi] += v
    roff = P(K, Ho, ker, row, col, val)
    return D, roff, ker, row, col, val


def contract(D, x, nlon_out):
    """out[b,c,k,ho,wo] = sum_{hi,wi} D[k,ho,hi,wi] x[b,c,hi,(wi + s*wo) mod Wi]"""
    s = x.shape[-1] // nlon_out
    return np.stack([np.einsum("khij,bcij->bckh", D, np.roll(x, -s * w, axis=-1)) for w in range(nlon_out)], axis=-1)


def adjoint_contract(D, g, Wi):
    """exact transpose of `contract`"""
    s = Wi // g.shape[-1]
    out = np.zeros(g.shape[:2] + D.shape[2:])
    for w in range(g.shape[-1]):
        out += np.roll(np.einsum("khij,bckh->bcij", D, g[..., w]), s * w, axis=-1)
    return out


def coo(fb, ish, osh, K, **kw):
    C = need("torch_harmonics.disco.convolution", "_precompute_convolution_tensor_s2")
    idx, v, _ = C(ish, osh, fb, **kw)
    i = npa(idx)
    D = np.zeros((K, osh[0], ish[0], ish[1]))
    np.add.at(D, (i[0], i[1], i[2] // ish[1], i[2] % ish[1]), npa(v).astype(np.float64))
    return D


def layer(cfg):
    """(layer, dense filter tensor, weight as float64 numpy [G,Og,Cg,K], bias)"""
    c = dict(shape=(3, 2), basis="piecewise linear", mode="nodal", groups=1, gi="equiangular", go="equiangular", bias=True, cut=None, opt=True, fused=False, tr=False, dt=torch.float64, cin=2, cout=3, b=2, nc=False)
    c.update(cfg)
    names = ("DiscreteContinuousConvS2", "DiscreteContinuousConvTransposeS2")
    Cls = need("torch_harmonics.disco", names[1] if c["tr"] else names[0])
    G = need("torch_harmonics.filter_basis", "get_filter_basis")
    kw = {} if c["tr"] else dict(fused=c["fused"])
    with must(f"construction of {names[c['tr']]} {cfg}"):
        L = Cls(c["cin"], c["cout"], c["ish"], c["osh"], c["shape"], basis_type=c["basis"], basis_norm_mode=c["mode"], groups=c["groups"], grid_in=c["gi"], grid_out=c["go"], bias=c["bias"], theta_cutoff=c["cut"], optimized_kernel=c["opt"], **kw)
        L = L.to(c["dt"])
    fb = G(c["shape"], c["basis"])
    K = fb.kernel_size
    kw = dict(grid_in=c["gi"], grid_out=c["go"], theta_cutoff=c["cut"] if c["cut"] is not None else math.pi / (c["osh"][0] - 1), transpose_normalization=False, basis_norm_mode=c["mode"], merge_quadrature=True)
    a, o = c["ish"], c["osh"]
    if c["tr"]:
        kw.update(grid_in=c["go"], grid_out=c["gi"], transpose_normalization=True)
        if c["cut"] is None:
            kw["theta_cutoff"] = math.pi / (c["ish"][0] - 1)
        a, o = o, a
    D = coo(fb, a, o, K, **kw)
    with torch.no_grad():
        for p in L.parameters():
            p.copy_(torch.randn(p.shape, dtype=torch.float64).to(p.dtype))
    W = npa(L.weight).astype(np.float64)
    check(W.shape == (c["cout"], c["cin"] // c["groups"], K), f"weight shape {W.shape}")
    W = W.reshape(c["groups"], c["cout"] // c["groups"], c["cin"] // c["groups"], K)
    bias = npa(L.bias).astype(np.float64) if c["bias"] else np.zeros(c["cout"])
    check((L.bias is not None) == bool(c["bias"]), "bias parameter present exactly when requested")
    return c, L, D, W, bias


def apply(c, D, W, bias, x):
    """documented layer action in float64"""
    B = x.shape[0]
    g = W.shape[0]
    if not c["tr"]:
        e = contract(D, x, c["osh"][1])
        e = e.reshape(B, g, -1, *e.shape[2:])
        y = np.einsum("bgckxy,gock->bgoxy", e, W).reshape(B, -1, *c["osh"])
    else:
        e = np.einsum("bgcxy,gock->bgokxy", x.reshape(B, g, -1, *x.shape[2:]), W)
        y = adjoint_contract(D, e.reshape(B, -1, *e.shape[3:]), c["osh"][1])
    return y + bias[None, :, None, None]


def apply_adjoint(c, D, W, x, gy):
    """derivatives of <gy, layer(x)> with respect to x, weight, bias"""
    B, g = x.shape[0], W.shape[0]
    gr = gy.reshape(B, g, -1, *gy.shape[2:])
    if not c["tr"]:
        ge = np.einsum("bgoxy,gock->bgckxy", gr, W)
        gx = adjoint_contract(D, ge.reshape(B, -1, *ge.shape[3:]), x.shape[-1])
        e = contract(D, x, c["osh"][1])
        e = e.reshape(B, g, -1, *e.shape[2:])
        gw = np.einsum("bgoxy,bgckxy->gock", gr, e)
    else:
        e = contract(D, gy, c["ish"][1])
        e = e.reshape(B, g, -1, *e.shape[2:])  # b g o k x y
        gx = np.einsum("bgokxy,gock->bgcxy", e, W).reshape(x.shape)
        gw = np.einsum("bgokxy,bgcxy->gock", e, x.reshape(B, g, -1, *x.shape[2:]))
    return gx, gw.reshape(-1, *gw.shape[2:]), gy.sum((0, 2, 3))


def field(c):
    x = torch.randn(c["b"], c["cin"], *c["ish"], dtype=torch.float64).to(c["dt"])
    if c["nc"]:
        x = x.transpose(-1, -2).contiguous().transpose(-1, -2)
    return x


def configs(R):
    f32, bf, f16 = torch.float32, torch.bfloat16, torch.float16
    out = [
        dict(ish=(8, 12), osh=(8, 12)),
        dict(ish=(8, 12), osh=(5, 6), cin=4, cout=2, groups=2),
        dict(ish=(8, 12), osh=(5, 4), cin=4, cout=4, groups=4, gi="legendre-gauss", go="lobatto"),
        dict(ish=(9, 12), osh=(4, 3), cin=6, cout=3, groups=3, nc=True),
        dict(ish=(7, 10), osh=(6, 2), cin=3, cout=3, shape=3, basis="zernike"),
        dict(ish=(6, 7), osh=(5, 7), cin=2, cout=2, basis="harmonic", mode="modal"),
        dict(ish=(6, 7), osh=(8, 1), cin=2, cout=2, cut=1.0),
        dict(ish=(4, 4), osh=(9, 4), cin=2, cout=2, cut=0.9),
        dict(ish=(8, 12), osh=(8, 12), cin=8, cout=2, shape=(2, 2)),
        dict(ish=(8, 12), osh=(4, 6), cin=8, cout=4, groups=2, shape=(3, 3), mode="none"),
        dict(ish=(8, 12), osh=(6, 4), cin=6, cout=3, shape=1, basis="piecewise linear"),
        dict(ish=(8, 12), osh=(8, 12), bias=False, mode="mean", gi="legendre-gauss"),
        dict(ish=(8, 12), osh=(4, 12), cin=4, cout=1, mode="support", b=1, cut=2.0),
        dict(ish=(5, 8), osh=(6, 4), cin=4, cout=1, cut=0.2, mode="none"),
        dict(ish=(6, 8), osh=(3, 8), cin=2, cout=2, b=3, shape=(2, 4), basis="fourier-bessel"),
    ]
    full = []
    for c in out:
        for opt in (True, False):
            full.append(dict(c, opt=opt))
        full.append(dict(c, fused=True))
        t = dict(c, ish=c["osh"], osh=c["ish"], tr=True, gi=c.get("go", "equiangular"), go=c.get("gi", "equiangular"))
        for opt in (True, False):
            full.append(dict(t, opt=opt))
    for dt in (f32, bf, f16):
        for c in out[1:3] + out[8:10]:
            full += [dict(c, dt=dt), dict(c, dt=dt, fused=True), dict(c, dt=dt, ish=c["osh"], osh=c["ish"], tr=True)]
            if dt == f32:
                full.append(dict(c, dt=dt, opt=False))
    rng = R.rng
    for _ in range(60 if R.thorough else 12):
        s = rng.choice([1, 2, 3, 4, 5])
        wo = rng.choice([1, 2, 3, 4, 6])
        g = rng.choice([1, 1, 2, 3])
        c = dict(ish=(rng.randrange(3, 10), s * wo), osh=(rng.randrange(2, 9), wo), groups=g, cin=g * rng.randrange(1, 5), cout=g * rng.randrange(1, 3), shape=rng.choice([(2, 2), (3, 3), 2, (3, 1)]), mode=rng.choice(["nodal", "none", "mean"]), gi=rng.choice(["equiangular", "legendre-gauss", "lobatto"]), go=rng.choice(["equiangular", "legendre-gauss"]), cut=rng.choice([0.3, 0.7, 1.3]), fused=rng.random() < 0.3, opt=rng.random() < 0.8, b=rng.randrange(1, 3), bias=rng.random() < 0.7)
        if c["ish"][1] < 2:
            continue
        c["fused"] = c["fused"] and c["opt"]
        full.append(c)
        if rng.random() < 0.5:
            c = dict(c, ish=c["osh"], osh=c["ish"], gi=c["go"], go=c["gi"], tr=True, fused=False)
            full.append(c)
    return full


def name(c):
    return " ".join(f"{k}={str(v).replace('torch.', '')}" for k, v in c.items())
