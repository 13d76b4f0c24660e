import os

os.environ.setdefault("TORCHDYNAMO_DISABLE", "1")
from .base import *
from . import fakedist as D
from .p19 import sizes, parts

GR = ["legendre-gauss", "lobatto", "equiangular"]


def pair(name):
    return need("torch_harmonics", name), need("torch_harmonics.distributed", "Distributed" + name)


def cut(a, h, w, i, j, dy=-2, dx=-1):
    return parts(parts(a, dy, h)[i], dx, w)[j]


def compare(what, h, w, serial, mk, x, tol, oy=-2, ox=-1, grid=None, scalar=False, pre=None):
    """serial(x) against the distributed module on every rank, with input gradients; returns the per-rank modules"""
    polar = True if grid is None else grid[0]
    azim = True if grid is None else grid[1]
    x = x.detach().clone().requires_grad_(True)
    with must(what + " (serial)"):
        y = serial(x)
        g = torch.randn_like(y)
        ps = [p for p in serial.parameters()]
        gs = torch.autograd.grad(y, [x] + ps, g)
    xn, gn = npa(x), npa(g)
    yn, gx = npa(y), npa(gs[0])

    def rank(i, j):
        with must(f"{what} rank ({i},{j})"):
            m = mk(i, j)
            if pre:
                pre(m, i, j)
            xi = torch.from_numpy(np.ascontiguousarray(cut(xn, h, w, i, j))).to(x.dtype).requires_grad_(True)
            x0 = xi.detach().clone()
            yi = m(xi)
            gi = gn if scalar else cut(gn, h, w, i, j, oy, ox)
            gi = torch.from_numpy(np.ascontiguousarray(gi)).to(y.dtype)
            out = [yi.detach().clone()]
            if not torch.equal(x0, xi.detach()):
                raise Violation(f"{what}: rank ({i},{j}) modified its input")
            if yi.shape == gi.shape:
                pp = [p for p in m.parameters()]
                r = torch.autograd.grad(yi, [xi] + pp, gi)
                out += [r[0], r[1:], m]
                y2 = m(xi.detach())
                out.append(y2.detach())
            return out

    try:
        res = D.run(h, w, rank, polar=polar, azimuth=azim)
    except D.Mismatch as e:
        raise Violation(f"{what}: {e}")
    for i in range(h):
        for j in range(w):
            r = res[i][j]
            wy = yn if scalar else cut(yn, h, w, i, j, oy, ox)
            check(r[0].dtype == y.dtype, f"{what}: rank ({i},{j}) returns {r[0].dtype}, serial {y.dtype}")
            s = max(np.abs(yn).max(), 1e-3)
            close(r[0], wy, f"{what}: rank ({i},{j}) against the serial result", atol=tol * s, rtol=0)
            check(len(r) > 1, f"{what}: rank ({i},{j}): output shape")
            close(r[1], cut(gx, h, w, i, j), f"{what}: input gradient on rank ({i},{j})", atol=tol * max(np.abs(gx).max(), 1e-3), rtol=0)
            close(r[4], wy, f"{what}: rank ({i},{j}), second call", atol=tol * s, rtol=0)
    return res, gs[1:]


def sht(name, h, w, nlat, nlon, lmax, mmax, grid, lead, dt, norm="ortho", csp=True, reg=None):
    S, X = pair(name)
    what = f"Distributed{name}({nlat},{nlon},lmax={lmax},mmax={mmax},{grid},{norm},{csp}) on {h}x{w}, lead={lead}, {dt}"
    vec = (2,) if "Vector" in name else ()
    kw = dict(lmax=lmax, mmax=mmax, grid=grid, norm=norm, csphase=csp)
    with must(what):
        s = S(nlat, nlon, **kw)
        if "Inverse" in name:
            x = torch.randn(*lead, *vec, s.lmax, s.mmax, dtype=torch.complex128 if dt == torch.float64 else torch.complex64)
        else:
            x = torch.randn(*lead, *vec, nlat, nlon, dtype=dt)
    compare(what, h, w, s, lambda i, j: X(nlat, nlon, **kw), x, 1e-10 if dt == torch.float64 else 5e-5, grid=reg)


def quad(h, w, nlat, nlon, grid, norm, lead):
    S, X = pair("QuadratureS2")
    what = f"DistributedQuadratureS2(({nlat},{nlon}),{grid},{norm}) on {h}x{w}, lead={lead}"
    with must(what):
        s = S((nlat, nlon), grid=grid, normalize=norm)
    compare(what, h, w, s, lambda i, j: X((nlat, nlon), grid=grid, normalize=norm), torch.randn(*lead, nlat, nlon), 2e-6, scalar=True)


def resample(h, w, a, b, c, d, gi, go, mode, lead):
    S, X = pair("ResampleS2")
    what = f"DistributedResampleS2({a},{b},{c},{d},{gi},{go},{mode}) on {h}x{w}, lead={lead}"
    kw = dict(grid_in=gi, grid_out=go, mode=mode)
    with must(what):
        s = S(a, b, c, d, **kw)
    compare(what, h, w, s, lambda i, j: X(a, b, c, d, **kw), torch.randn(*lead, a, b, dtype=torch.float64), 1e-5)


def spectral(h, w, ish, osh, cin, cout, groups, gi, go, bias):
    S, X = pair("SpectralConvS2")
    what = f"DistributedSpectralConvS2({ish},{osh},{cin},{cout},groups={groups},{gi},{go},bias={bias}) on {h}x{w}"
    kw = dict(num_groups=groups, grid_in=gi, grid_out=go, bias=bias)
    with must(what):
        s = S(ish, osh, cin, cout, **kw)
        with torch.no_grad():
            for p in s.parameters():
                p.copy_(torch.randn_like(p))
        if not hasattr(s, "weight"):
            raise Skip("no weight")
        Wn = npa(s.weight)
        Bn = npa(s.spectral_bias) if bias else None

    def pre(m, i, j):
        with torch.no_grad():
            m.weight.copy_(torch.from_numpy(np.ascontiguousarray(parts(Wn, -1, h)[i])))
            if bias:
                m.spectral_bias.copy_(torch.from_numpy(np.ascontiguousarray(cut(Bn, h, w, i, j))))

    res, gs = compare(what, h, w, s, lambda i, j: X(ish, osh, cin, cout, **kw), torch.randn(2, cin, *ish, dtype=torch.float64 if (h + w + cin) % 2 else torch.float32), 2e-4, pre=pre)
    names = [n for n, _ in s.named_parameters()]
    gw = dict(zip(names, gs))
    for i in range(h):
        dn = [dict(zip([n for n, _ in res[i][j][3].named_parameters()], res[i][j][2])) for j in range(w)]
        tot = sum(npa(q["weight"]) for q in dn)
        close_rel(tot, parts(npa(gw["weight"]), -1, h)[i], f"{what}: weight gradient summed over the azimuth group, polar rank {i}", 5e-4)
        if bias:
            for j in range(w):
                close_rel(npa(dn[j]["spectral_bias"]), cut(npa(gw["spectral_bias"]), h, w, i, j), f"{what}: bias gradient on rank ({i},{j})", 5e-4)


def disco(h, w, tr, ish, osh, cin, cout, shape, basis, groups, gi, go, cutoff, opt, mode, bias):
    S, X = pair("DiscreteContinuousConvTransposeS2" if tr else "DiscreteContinuousConvS2")
    kw = dict(basis_type=basis, basis_norm_mode=mode, groups=groups, grid_in=gi, grid_out=go, bias=bias, theta_cutoff=cutoff, optimized_kernel=opt)
    what = f"Distributed{S.__name__}({cin},{cout},{ish},{osh},{shape},{kw}) on {h}x{w}"
    with must(what):
        s = S(cin, cout, ish, osh, shape, **kw).double()
        with torch.no_grad():
            for p in s.parameters():
                p.copy_(torch.randn_like(p))
    sd = {k: v.detach().clone() for k, v in s.named_parameters()}

    def pre(m, i, j):
        m.double()
        with torch.no_grad():
            for k, p in m.named_parameters():
                p.copy_(sd[k])

    res, gs = compare(what, h, w, s, lambda i, j: X(cin, cout, ish, osh, shape, **kw), torch.randn(2, cin, *ish, dtype=torch.float64), 1e-5, pre=pre)
    names = [n for n, _ in s.named_parameters()]
    for n, g in zip(names, gs):
        tot = sum(npa(dict(zip([q for q, _ in res[i][j][3].named_parameters()], res[i][j][2]))[n]) for i in range(h) for j in range(w))
        close_rel(tot, npa(g), f"{what}: gradient of {n} summed over all ranks", 1e-5)


def split_entries(h, seed):
    """the local filter tensors partition the global one"""
    F = need("torch_harmonics.distributed.distributed_convolution", "_split_distributed_convolution_tensor_s2")
    rng = np.random.default_rng(seed)
    Hi, Wi, Ho = int(rng.integers(h, 9)), int(rng.integers(1, 6)), int(rng.integers(1, 5))
    n = int(rng.integers(0, 12))
    e = sorted({(int(rng.integers(0, 3)), int(rng.integers(0, Ho)), int(rng.integers(0, Hi * Wi))) for _ in range(n)}, key=lambda t: t[1])
    idx = torch.tensor(e, dtype=torch.int64).reshape(-1, 3).T.contiguous()
    vals = torch.randn(len(e), dtype=torch.float64)
    what = f"_split_distributed_convolution_tensor_s2 of {e} ({Hi}x{Wi}) on {h} ranks"
    with must(what):
        out = D.run(h, 1, lambda i, j: F(idx, vals, (Hi, Wi), (Ho, Wi)))
    off = np.cumsum([0] + sizes(Hi, h))
    got = []
    for i in range(h):
        I, V = npa(out[i][0][0]), npa(out[i][0][1])
        check(I.ndim == 2 and I.shape[0] == 3 and V.shape == (I.shape[1],), f"{what}: rank {i} shapes {I.shape} {V.shape}")
        check(((I[2] >= 0) & (I[2] < sizes(Hi, h)[i] * Wi)).all(), f"{what}: rank {i}: column out of its local range")
        got += [(int(a), int(b), int(c) + int(off[i]) * Wi, float(v)) for a, b, c, v in zip(*I, V)]
    want = [(*t, float(v)) for t, v in zip(e, vals.tolist())]
    check(sorted(got) == sorted(want), f"{what}: the local tensors are not a partition of the entries")


def run(R):
    rng = R.rng
    C = []
    f8, f4 = torch.float64, torch.float32
    G = [(2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (1, 1), (4, 2), (1, 5), (3, 1), (1, 3)]
    if R.thorough:
        G += [(5, 3), (3, 4), (4, 4)]
    for name in ("RealSHT", "InverseRealSHT", "RealVectorSHT", "InverseRealVectorSHT"):
        for n, (h, w) in enumerate(G * (3 if R.thorough else 1)):
            g = GR[(n + len(name)) % 3]
            nlat = max(h, 3) + rng.randrange(1, 7)
            nlon = 2 * max(w, 2) + rng.randrange(0, 7)
            if n % 2:
                lm, mm = None, None
            else:
                lm = mm = rng.randrange(max(h, w), max(h, w) + 4)
            lead = rng.choice([(1,), (2, 3), (5,), (1, 1, 2), (h * w + 1,), (2,)])
            # cut-offs below the number of ranks cannot be split (documented)
            th = need("torch_harmonics", "RealSHT")
            t = th(nlat, nlon, lmax=lm, mmax=mm, grid=g)
            if t.lmax < h or t.mmax < w:
                continue
            C.append((f"{name}[{h}x{w},{nlat},{nlon},{lm},{mm},{g},{lead}]", sht, name, h, w, nlat, nlon, lm, mm, g, lead, f8 if n % 4 != 3 else f4, rng.choice(["ortho", "four-pi", "schmidt"]), rng.random() < 0.7))
        C.append((f"{name}[unregistered]", sht, name, 1, 1, 6, 12, None, None, "equiangular", (2, 1), f8, "ortho", True, (False, False)))
        C.append((f"{name}[polar only]", sht, name, 2, 1, 6, 12, None, None, "equiangular", (1,), f8, "ortho", True, (True, False)))
        C.append((f"{name}[azimuth only]", sht, name, 1, 3, 6, 12, None, None, "equiangular", (2, 2), f8, "ortho", True, (False, True)))
    for n, (h, w) in enumerate(G):
        C.append((f"quadrature[{h}x{w}]", quad, h, w, max(h, 2) + n % 4, w + n % 5, GR[n % 3], bool(n % 2), (2, 3)))
        for mode in ("bilinear", "bilinear-spherical"):
            a, b, c, d = max(h, 3) + rng.randrange(0, 5), max(w, 2) + rng.randrange(0, 6), max(h, 3) + rng.randrange(0, 6), max(w, 2) + rng.randrange(0, 7)
            C.append((f"resample[{h}x{w},{mode}]", resample, h, w, a, b, c, d, GR[n % 3], GR[(n + n // 3) % 3], mode, rng.choice([(2, max(h, w)), (1, max(h, w) + 1), (max(h, w) * 2 + 1,)])))
        if n < (len(G) if R.thorough else 6):
            cin, cout, gr = rng.choice([(2, 2, 1), (2, 4, 2), (3, 2, 1), (4, 2, 2)])
            a = (2 * max(h, w) + rng.randrange(1, 5), 4 * max(h, w) + rng.randrange(0, 5))
            b = (2 * max(h, w) + rng.randrange(1, 5), 4 * max(h, w) + rng.randrange(0, 5))
            C.append((f"spectral[{h}x{w}]", spectral, h, w, a, b, cin, cout, gr, GR[n % 3], GR[(n + 1) % 3], bool(n % 2)))
    for n, (h, w) in enumerate(G * 2):
        tr = n >= len(G)
        Wo = max(w, 2) * rng.choice([1, 2]) + rng.randrange(0, 2)
        r = rng.choice([1, 2, 3])
        big, small = (max(h, 3) + rng.randrange(0, 5), Wo * r), (max(h, 3) + rng.randrange(0, 4), Wo)
        ish, osh = (small, big) if tr else (big, small)
        gr = rng.choice([1, 2])
        cin, cout = gr * max(w, 1), gr * rng.choice([1, 2]) * max(w, 1)
        basis, shp = rng.choice([("piecewise linear", (3, 2)), ("piecewise linear", (2, 3)), ("harmonic", (2, 2)), ("zernike", 2)])
        C.append((f"disco[{h}x{w},{tr}]", disco, h, w, tr, ish, osh, cin, cout, shp, basis, gr, GR[n % 3], GR[(n + 1) % 3], rng.choice([0.7, 1.3, 0.4]), n % 3 != 2, rng.choice(["nodal", "modal", "none", "mean"]) , bool(n % 2)))
    C.append(("disco[one entry]", disco, 3, 1, False, (3, 1), (3, 1), 1, 1, 1, "piecewise linear", 1, "equiangular", "equiangular", 0.01, True, "none", False))
    for h in (1, 2, 3, 4):
        for k in range(12):
            C.append((f"split entries[{h},{k}]", split_entries, h, 100 * h + k))
    for c in C:
        R.case(*c)
