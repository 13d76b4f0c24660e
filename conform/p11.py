from .base import *

PI = math.pi


def cdist(a, b):
    d = np.abs(a - b) % (2 * PI)
    return np.minimum(d, 2 * PI - d)


def hat(d, w):
    return np.maximum(0.0, 1 - d / w)


def basis_size(shape, b):
    if b == "piecewise linear":
        nr, nphi = shape
        return (nr // 2) * nphi + nr % 2
    if b in ("harmonic", "morlet"):
        return shape[0] * shape[1]
    if b == "zernike":
        return shape * (shape + 1) // 2
    return len(fb_index(*shape))


def fb_index(nr, nphi):
    from scipy.special import jn_zeros

    amax = jn_zeros(0, nr)[-1]
    e = []
    for m in range(nphi + 1):
        for a in jn_zeros(m, nr):
            if a <= amax:
                e.append((a, m, True))
                if m:
                    e.append((a, m, False))
    e.sort(key=lambda q: q[0])
    return e


def norm_shape(shape, b):
    if b == "piecewise linear":
        s = (shape,) if isinstance(shape, int) else tuple(shape)
        return s if len(s) == 2 else (s[0], 1)
    if b == "zernike":
        return shape if isinstance(shape, int) else shape[0]
    if isinstance(shape, int):
        return (shape, shape)
    return tuple(shape) if len(shape) == 2 else (shape[0], shape[0])


def oracle(shape, b, r, phi, rc):
    """(values, strict support, closed support) per basis function; strict/closed differ only on the edge"""
    s = norm_shape(shape, b)
    out = []
    eps = 1e-9 * rc
    inr, inr_c = r <= rc - eps, r <= rc + eps
    if b == "piecewise linear":
        nr, nphi = s
        dr = 2 * rc / (nr + 1)
        dphi = 2 * PI / nphi
        for k in range(basis_size(s, b)):
            if nphi == 1:
                c = k * dr if nr % 2 else (k + 0.5) * dr
                d = np.abs(r - c)
                out.append((hat(d, dr), inr & (d < dr - eps), inr_c & (d <= dr + eps)))
            elif nr % 2 == 1:
                if k == 0:
                    out.append((hat(r, dr), inr & (r < dr - eps), inr_c & (r <= dr + eps)))
                else:
                    c, a = ((k - 1) // nphi + 1) * dr, ((k - 1) % nphi) * dphi - PI
                    d, q = np.abs(r - c), cdist(phi, a)
                    out.append((hat(d, dr) * hat(q, dphi), inr & (d < dr - eps) & (q < dphi - 1e-9), inr_c & (d <= dr + eps) & (q <= dphi + 1e-9)))
            else:
                c, a = (k // nphi + 0.5) * dr, (k % nphi) * dphi - PI
                d, q, dn, qn = np.abs(r - c), cdist(phi, a), np.abs(-r - c), cdist(phi + PI, a)
                st = (inr & (d < dr - eps) & (q < dphi - 1e-9)) | ((dn < dr - eps) & (qn < dphi - 1e-9))
                cl = (inr_c & (d <= dr + eps) & (q <= dphi + 1e-9)) | ((dn <= dr + eps) & (qn <= dphi + 1e-9))
                out.append((hat(d, dr) * hat(q, dphi) + hat(dn, dr) * hat(qn, dphi), st, cl))
        return out
    u = r / rc
    if b in ("harmonic", "morlet"):
        def f(k, u, p):
            n, m = k % s[1], k // s[1]
            x, y = u * np.sin(p), u * np.cos(p)
            fx, fy = math.ceil(n / 2), math.ceil(m / 2)
            h = np.sin(fx * PI * x) if n % 2 else np.cos(fx * PI * x)
            h = h * (np.sin(fy * PI * y) if m % 2 else np.cos(fy * PI * y))
            return np.cos(0.5 * PI * u) ** 2 * h

        for k in range(s[0] * s[1]):
            v = f(k, u, phi)
            if b == "harmonic":
                uu = (np.arange(50) + 0.5) / 50
                pp = np.arange(200) * 2 * PI / 200
                U, P = np.meshgrid(uu, pp, indexing="ij")
                v = v / max(np.sqrt(np.sum(f(k, U, P) ** 2 * U) / 50 * 2 * PI / 200), 1e-12)
            out.append((v, inr, inr_c))
        return out
    if b == "zernike":
        for n in range(s):
            for l in range(n + 1):
                m = 2 * l - n
                R = sum((-1) ** k * math.factorial(n - k) / (math.factorial(k) * math.factorial((n + abs(m)) // 2 - k) * math.factorial((n - abs(m)) // 2 - k)) * u ** (n - 2 * k) for k in range((n - abs(m)) // 2 + 1))
                v = R * (np.sin(m * phi) if m < 0 else np.cos(m * phi)) / math.sqrt(PI * (2 if m == 0 else 1) / (2 * (n + 1)))
                out.append((v, inr, inr_c))
        return out
    from scipy.special import jn

    for a, m, cs in fb_index(*s):
        nrm = abs(jn(m + 1, a)) / math.sqrt(2) * math.sqrt((2 if m == 0 else 1) * PI)
        out.append((jn(m, a * u) * (np.cos(m * phi) if cs else np.sin(m * phi)) / nrm, inr, inr_c))
    return out


def isotropic(shape, b):
    s = norm_shape(shape, b)
    n = basis_size(s, b)
    if b == "piecewise linear":
        return [True] * n if s[1] == 1 else [k == 0 and s[0] % 2 == 1 for k in range(n)]
    if b in ("harmonic", "morlet"):
        return [k == 0 for k in range(n)]
    if b == "zernike":
        return [2 * l == q for q in range(s) for l in range(q + 1)]
    return [m == 0 for _, m, _ in fb_index(*s)]


def points(kind, rc, s, gen):
    """evaluation points: general, and exactly on the collocation grid / cut-off / seams"""
    if kind == "random":
        r = gen.uniform(0, 1.3 * rc, size=(9, 11))
        p = gen.uniform(0, 2 * PI, size=(9, 11))
    elif kind == "one":
        r = gen.uniform(0, rc, size=(1, 1))
        p = gen.uniform(0, 2 * PI, size=(1, 1))
    elif kind == "outside":
        r = gen.uniform(1.05 * rc, 2 * rc, size=(3, 4))
        p = gen.uniform(0, 2 * PI, size=(3, 4))
    else:
        nr, nphi = s if isinstance(s, tuple) else (s, 4)
        dr = 2 * rc / (nr + 1)
        rr = np.concatenate([[0.0], (np.arange(nr + 2)) * dr / 2, [rc, rc * (1 + 1e-12), rc * 0.999999]])
        pp = np.concatenate([np.arange(2 * nphi) * PI / nphi, [2 * PI - 1e-13, PI, 1e-300]]) % (2 * PI)
        r, p = np.meshgrid(rr, pp, indexing="ij")
    return r, p


def one(shape, b, rc, kind, dt):
    G = need("torch_harmonics.filter_basis", "get_filter_basis")
    s = norm_shape(shape, b)
    what = f"get_filter_basis({shape!r}, {b!r}) at {kind} points, r_cutoff={rc}, {dt}"
    gen = np.random.default_rng(abs(hash((str(shape), b, kind))) % 1000 if False else np.random.randint(1 << 30))
    r, p = points(kind, rc, s, gen)
    rt, pt = torch.tensor(r, dtype=dt), torch.tensor(p, dtype=dt)
    r, p = npa(rt).astype(np.float64), npa(pt).astype(np.float64)
    with must(what):
        fb = G(shape, b)
        n = fb.kernel_size
        mask = list(fb.isotropic_mask)
        r0, p0 = rt.clone(), pt.clone()
        iidx, vals = fb.compute_support_vals(rt, pt, r_cutoff=rc)
    same(rt, r0, what + ": modified its argument")
    same(pt, p0, what + ": modified its argument")
    check(n == basis_size(s, b), f"{what}: kernel_size {n}, documented {basis_size(s, b)}")
    check([bool(q) for q in mask] == isotropic(shape, b), f"{what}: isotropic_mask {mask}, expected {isotropic(shape, b)}")
    check(iidx.ndim == 2 and iidx.shape[1] == 3 and vals.shape == (iidx.shape[0],), f"{what}: shapes {iidx.shape} {vals.shape}")
    ii = npa(iidx)
    check(len({tuple(q) for q in ii.tolist()}) == len(ii), f"{what}: a (function, point) pair is listed twice")
    check(len(ii) == 0 or (ii.min() >= 0 and (ii < np.array([n, r.shape[0], r.shape[1]])).all()), f"{what}: index out of range")
    listed = np.zeros((n,) + r.shape, dtype=bool)
    dense = np.zeros((n,) + r.shape)
    listed[ii[:, 0], ii[:, 1], ii[:, 2]] = True
    dense[ii[:, 0], ii[:, 1], ii[:, 2]] = npa(vals)
    O = oracle(shape, b, r, p, rc)
    single = dt == torch.float32
    for k, (v, st, cl) in enumerate(O):
        if single:  # only points well away from the support's edge are decided in single precision
            amb = st != (r <= rc)
            st, cl = st & (np.abs(r - rc) > 1e-4 * rc), cl | (np.abs(r - rc) <= 1e-4 * rc)
            if b == "piecewise linear":
                st = st & (v > 1e-4)
                cl = np.ones_like(cl)
        miss, extra = st & ~listed[k], listed[k] & ~cl
        if miss.any() or extra.any():
            i = np.argwhere(miss | extra)[0]
            raise Violation(f"{what}: basis function {k} at r={r[tuple(i)]!r} phi={p[tuple(i)]!r} is {'missing' if miss[tuple(i)] else 'listed though outside the support'}")
        tol = 3e-4 if single else 1e-8
        lim = tol * max(1.0, np.abs(v).max() if v.size else 1.0)
        bad = listed[k] & (np.abs(dense[k] - v) > lim)
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            raise Violation(f"{what}: basis function {k} at r={r[i]!r} phi={p[i]!r} is {dense[k][i]!r}, documented value {v[i]!r}")
    if b == "piecewise linear" and not single:
        check(dense.min() >= -1e-12, f"{what}: negative value {dense.min()}")


def partition(shape, rc):
    """collocation grid: each function is one at its own node and zero at the others; they sum to one in between"""
    G = need("torch_harmonics.filter_basis", "get_filter_basis")
    nr, nphi = norm_shape(shape, "piecewise linear")
    dr = 2 * rc / (nr + 1)
    last = rc - dr
    what = f"piecewise linear {shape}, r_cutoff={rc}"
    with must(what):
        fb = G(shape, "piecewise linear")
        r = torch.rand(40, 7, dtype=torch.float64) * last
        if nphi == 1 and nr % 2 == 0:
            r = r.clamp(min=dr / 2 * (1 + 1e-12))
        p = torch.rand(40, 7, dtype=torch.float64) * 2 * PI
        i, v = fb.compute_support_vals(r, p, r_cutoff=rc)
        tot = torch.zeros_like(r)
        tot.index_put_((i[:, 1], i[:, 2]), v, accumulate=True)
    if nr >= 3 or (nphi > 1 and nr == 2):
        if nr == 2:
            return
        close(tot, np.ones(tot.shape), what + ": sum of the basis functions inside the collocation grid", atol=1e-9)


def bad_type():
    G = need("torch_harmonics.filter_basis", "get_filter_basis")
    raises("unknown basis type", ValueError, lambda: G((2, 2), "no such basis"))


SH = {
    "piecewise linear": [1, 2, 3, 5, (1,), (4,), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 4), (5, 4), (4, 5), (6, 3), (7, 6), (1, 4)],
    "harmonic": [1, 2, 3, (1, 4), (3, 2), (2, 5), (4, 4)],
    "morlet": [1, 3, (3, 2), (2, 5)],
    "zernike": [1, 2, 3, 5, (4,), 7],
    "fourier-bessel": [1, 2, 3, (1, 3), (3, 1), (3, 2), (2,)],
}


def run(R):
    import warnings

    warnings.filterwarnings("ignore")
    R.case("unknown basis", bad_type)
    for b, L in SH.items():
        for s in L + ([(9, 8), (8, 7)] if R.thorough and b == "piecewise linear" else []):
            for kind in ("random", "nodes", "one", "outside"):
                for rc in (1.0, 0.3, 0.0123, 2.7):
                    R.case(f"basis[{b},{s},{kind},{rc}]", one, s, b, rc, kind, torch.float64)
            R.case(f"basis single[{b},{s}]", one, s, b, 0.7, "random", torch.float32)
            if b == "piecewise linear":
                for rc in (1.0, 0.3, 2.7):
                    R.case(f"partition[{s},{rc}]", partition, s, rc)
