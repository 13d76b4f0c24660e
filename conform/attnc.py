"""Shared concrete machinery for the attention properties (P16 forward, P17 gradients, P18 layout)."""
from .base import *
from . import oracle as O

TOL = {torch.float64: 2e-5, torch.float32: 2e-5, torch.bfloat16: 3e-2, torch.float16: 5e-3}


def rows(seed, nrows, ncols, dens, ensure=True):
    """random neighbourhood lists: (col_idx, row_off, [list of columns per row])"""
    rng = random.Random(seed)
    out, off, lists = [], [0], []
    for _ in range(nrows):
        n = max(1 if ensure else 0, min(ncols, int(round(dens * ncols * (0.5 + rng.random())))))
        c = sorted(rng.sample(range(ncols), n))
        lists.append(c)
        out += c
        off.append(len(out))
    return torch.tensor(out, dtype=torch.int64), torch.tensor(off, dtype=torch.int64), lists


def mask_of(lists, ish, osh):
    """M[ho,wo,hi,wi]: input point (hi,wi) belongs to the neighbourhood of the output point (ho,wo)"""
    (Hi, Wi), (Ho, Wo) = ish, osh
    M = np.zeros((Ho, Wo, Hi, Wi), bool)
    if Wi % Wo == 0:
        s = Wi // Wo
        for ho, cs in enumerate(lists):
            for c in cs:
                for wo in range(Wo):
                    M[ho, wo, c // Wi, (c % Wi + s * wo) % Wi] = True
    else:
        s = Wo // Wi
        for hi, cs in enumerate(lists):
            for c in cs:
                for wi in range(Wi):
                    M[c // Wo, (c % Wo + s * wi) % Wo, hi, wi] = True
    return M


def geo_mask(ish, osh, gi, go, cut):
    """(surely inside, possibly inside) by geodesic distance"""
    ti, to = O.lats(gi, ish[0])[0], O.lats(go, osh[0])[0]
    li, lo = 2 * math.pi * np.arange(ish[1]) / ish[1], 2 * math.pi * np.arange(osh[1]) / osh[1]
    pt = lambda t, l: np.stack([np.sin(t)[:, None] * np.cos(l), np.sin(t)[:, None] * np.sin(l), np.cos(t)[:, None] + 0 * l])
    a, b = pt(ti, li), pt(to, lo)
    d = np.arctan2(np.linalg.norm(np.cross(b.reshape(3, -1).T[:, None], a.reshape(3, -1).T[None]), axis=-1), b.reshape(3, -1).T @ a.reshape(3, -1))
    d = d.reshape(osh[0], osh[1], ish[0], ish[1])
    return d <= cut * (1 - 1e-6), d <= cut * (1 + 2.1e-3), d


def dense(k, v, q, w, M):
    """documented attention in float64 torch: k,v [B,Hi,Wi,h,c], q [B,Ho,Wo,h,c], w [Hi], M bool mask"""
    B, Hi, Wi, h, _ = k.shape
    Ho, Wo = q.shape[1:3]
    s = torch.einsum("bxyhc,bijhc->bhxyij", q, k)
    lw = torch.log(w)[:, None].expand(Hi, Wi)
    Mt = torch.from_numpy(M)
    s = s + lw
    s = torch.where(Mt, s, torch.full_like(s, -math.inf)).reshape(B, h, Ho, Wo, Hi * Wi)
    a = torch.softmax(s, -1).reshape(B, h, Ho, Wo, Hi, Wi)
    return torch.einsum("bhxyij,bijhc->bxyhc", a, v)


def oplevel(seed, B, nh, ck, cv, ish, osh, dens, mag, dt=torch.float32):
    up = ish[1] % osh[1] != 0
    big, small = (osh, ish) if up else (ish, osh)
    col, off, lists = rows(seed, small[0], big[0] * big[1], dens)
    M = mask_of(lists, ish, osh)
    g = torch.Generator().manual_seed(seed)
    rnd = lambda *s: torch.randn(*s, generator=g, dtype=torch.float64).to(dt)
    k, v, q = rnd(B, *ish, nh * ck), rnd(B, *ish, nh * cv), rnd(B, *osh, nh * ck)
    k, q = k * math.sqrt(abs(mag)), q * math.sqrt(abs(mag))
    if mag < 0:  # every product strongly negative
        k, q = k.abs() + 1, -(q.abs() + 1)
    w = (torch.rand(ish[0], generator=g) + 0.1).float()
    return col, off, M, k, v, q, w


def split(t, nh):
    return t.double().reshape(*t.shape[:3], nh, -1)


def live(M):
    return M.any((2, 3))


OPSHAPES = [
    (1, 1, 1, 1, (1, 1), (1, 1)),
    (2, 1, 3, 2, (3, 4), (3, 4)),
    (1, 2, 2, 3, (4, 6), (3, 3)),
    (2, 3, 1, 2, (3, 8), (4, 2)),
    (1, 4, 2, 1, (2, 6), (5, 1)),
    (1, 2, 2, 2, (2, 3), (4, 6)),
    (2, 1, 3, 2, (3, 2), (3, 8)),
    (1, 1, 2, 4, (2, 1), (3, 5)),
    (1, 2, 9, 17, (2, 65), (2, 65)),
    (1, 1, 2, 2, (2, 130), (1, 65)),
    (1, 1, 2, 2, (2, 35), (1, 70)),
    (1, 1, 3, 2, (2, 64), (2, 128)),
    (1, 1, 3, 2, (1, 192), (2, 64)),
]


def module(cfg):
    c = dict(cin=4, nh=1, gi="equiangular", go="equiangular", cut=None, scale=None, qknorm=False, bias=True, ck=None, co=None, opt=True, b=2, glob=False, mode="cross", mag=1.0, dt=torch.float32)
    c.update(cfg)
    kw = dict(grid_in=c["gi"], grid_out=c["go"], num_heads=c["nh"], scale=c["scale"], use_qknorm=c["qknorm"], bias=c["bias"], k_channels=c["ck"], out_channels=c["co"])
    if c["glob"]:
        L = need("torch_harmonics.attention", "AttentionS2")
        kw.pop("num_heads")
        with must(f"construction of AttentionS2 {cfg}"):
            L = L(c["cin"], c["nh"], c["ish"], c["osh"], **kw)
    else:
        L = need("torch_harmonics.attention", "NeighborhoodAttentionS2")
        with must(f"construction of NeighborhoodAttentionS2 {cfg}"):
            L = L(c["cin"], c["ish"], c["osh"], theta_cutoff=c["cut"], optimized_kernel=c["opt"], **kw)
    with torch.no_grad():
        for n, p in L.named_parameters():
            p.copy_(torch.randn(p.shape) * (0.3 if "norm" in n else 0.7))
        for n in ("q_weights", "k_weights"):
            getattr(L, n).mul_(math.sqrt(c["mag"]))
    g = torch.randn
    q = g(c["b"], c["cin"], *c["osh"])
    k = g(c["b"], c["cin"], *c["ish"])
    v = g(c["b"], c["cin"], *c["ish"])
    args = dict(self=(q,), cross=(q, k, v), kv=(q, k, k), qk=(q, q, v), key=(q, k))[c["mode"]]
    return c, L, args


def reference(c, L, args, params=None):
    """documented module action in float64; params: dict of float64 tensors (for differentiation)"""
    P = params or {n: p.detach().double() for n, p in L.named_parameters()}
    a = [t.double() if not t.dtype == torch.float64 else t for t in args]
    q = a[0]
    k = a[1] if len(a) > 1 else q
    v = a[2] if len(a) > 2 else q
    ish, osh, nh = c["ish"], c["osh"], c["nh"]
    lin = lambda x, n: torch.einsum("bchw,oc->bhwo", x, P[n + "_weights"].reshape(P[n + "_weights"].shape[0], -1)) + (P[n + "_bias"] if n + "_bias" in P else 0.0)
    q, k, v = (lin(x, n) for x, n in ((q, "q"), (k, "k"), (v, "v")))
    q, k, v = (t.reshape(*t.shape[:3], nh, -1) for t in (q, k, v))
    if c["qknorm"]:
        eps = torch.finfo(torch.float32).eps
        nrm = lambda t, w: t / torch.sqrt((t * t).mean(-1, keepdim=True) + eps) * (1 + w)
        q, k = nrm(q, P["q_norm_weights"]), nrm(k, P["k_norm_weights"])
    d = q.shape[-1]
    s = c["scale"] if c["scale"] is not None else 1 / math.sqrt(d)
    q = q * s
    w = torch.from_numpy(np.array(O.lats(c["gi"], ish[0])[1])) * 2 * math.pi / ish[1]
    if c["glob"]:
        M = np.ones(osh + ish, bool)
    else:
        up = ish[1] % osh[1] != 0
        cut = c["cut"] if c["cut"] is not None else math.pi / ((ish[0] if up else osh[0]) - 1)
        sure, maybe, _ = geo_mask(ish, osh, c["gi"], c["go"], cut)
        if (sure != maybe).any():
            raise Skip("a grid point lies on the rim of a neighbourhood")
        M = sure
    y = dense(k, v, q, w.clamp_min(0), M)
    y = y.reshape(*y.shape[:3], -1)
    y = torch.einsum("bhwc,oc->bohw", y, P["proj_weights"].reshape(P["proj_weights"].shape[0], -1))
    if "proj_bias" in P:
        y = y + P["proj_bias"][None, :, None, None]
    return y, live(M) if M.any() else np.zeros(osh, bool)


def modconfigs(R):
    base = [
        dict(ish=(5, 8), osh=(5, 8), mode="self", cut=0.9),
        dict(ish=(5, 8), osh=(5, 8), mode="kv", nh=2, cut=1.1, ck=6, co=2),
        dict(ish=(5, 8), osh=(5, 8), mode="qk", cut=0.95, scale=0.3),
        dict(ish=(5, 8), osh=(5, 8), mode="key", cut=0.95, qknorm=True, nh=2) | dict(mode="self"),
        dict(ish=(6, 8), osh=(4, 4), nh=4, gi="legendre-gauss", cut=1.2),
        dict(ish=(6, 9), osh=(4, 3), nh=2, go="legendre-gauss", cut=1.3, bias=False, qknorm=True),
        dict(ish=(6, 5), osh=(4, 1), cut=1.0, ck=3, co=5),
        dict(ish=(4, 4), osh=(6, 8), nh=2, cut=1.1),
        dict(ish=(4, 3), osh=(5, 9), gi="legendre-gauss", go="lobatto", cut=1.3, nh=2, qknorm=True),
        dict(ish=(3, 5), osh=(4, 10), cut=1.9, scale=2.0, bias=False),
        dict(ish=(6, 8), osh=(4, 8), cut=1.45, gi="lobatto", b=1),
        dict(ish=(4, 8), osh=(7, 8), cut=1.05, b=3),
        dict(ish=(6, 8), osh=(4, 4), gi="legendre-gauss", go="legendre-gauss"),
        dict(ish=(4, 4), osh=(6, 8), gi="legendre-gauss", go="legendre-gauss"),
        dict(ish=(5, 8), osh=(5, 8), mode="self", cut=3.3),
        dict(ish=(5, 8), osh=(5, 8), cut=0.9, mag=300.0),
        dict(ish=(4, 4), osh=(5, 8), cut=1.3, mag=300.0),
    ]
    out = []
    for c in base:
        for opt in (True, False):
            out.append(dict(c, opt=opt))
    for c in (
        dict(ish=(5, 8), osh=(5, 8), mode="self"),
        dict(ish=(5, 8), osh=(4, 4), nh=2, ck=6, co=2),
        dict(ish=(5, 6), osh=(4, 3), nh=2, gi="legendre-gauss", qknorm=True, scale=0.4),
        dict(ish=(4, 6), osh=(6, 6), nh=1, gi="lobatto", bias=False, mag=50.0),
        dict(ish=(4, 6), osh=(3, 2), nh=4, b=1, scale=1.7),
    ):
        out.append(dict(c, glob=True))
    rng = R.rng
    for _ in range(30 if R.thorough else 10):
        s, w = rng.choice([1, 2, 3]), rng.choice([1, 2, 3, 4])
        a, b = (rng.randrange(2, 7), s * w), (rng.randrange(2, 7), w)
        if rng.random() < 0.5:
            a, b = b, a
        nh = rng.choice([1, 2, 3])
        out.append(dict(ish=a, osh=b, nh=nh, ck=nh * rng.randrange(1, 4), co=nh * rng.randrange(1, 4), cut=rng.choice([0.83, 1.237, 2.031, 3.3]), gi=rng.choice(["equiangular", "legendre-gauss"]), go=rng.choice(["equiangular", "legendre-gauss"]), qknorm=rng.random() < 0.3, bias=rng.random() < 0.7, opt=rng.random() < 0.7, b=rng.randrange(1, 3)))
    return out


def name(c):
    return " ".join(f"{k}={str(v).replace('torch.', '')}" for k, v in c.items())
