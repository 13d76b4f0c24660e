from .base import *
from . import oracle as O
from . import p11

PI = math.pi
MODES = ["none", "nodal", "modal", "mean", "support", "geometric"]


def geometry(ti, to, nlon):
    """geodesic distance and local bearing (from south, towards east) of every input point seen from (theta_out, 0)"""
    lam = 2 * PI * np.arange(nlon) / nlon
    TI, L = np.meshgrid(ti, lam, indexing="ij")
    p = np.stack([np.sin(TI) * np.cos(L), np.sin(TI) * np.sin(L), np.cos(TI)])
    n = np.array([np.sin(to), 0, np.cos(to)])
    es, ee = np.array([np.cos(to), 0, -np.sin(to)]), np.array([0.0, 1, 0])
    x, y, z = (np.tensordot(e, p, 1) for e in (es, ee, n))
    return np.arctan2(np.hypot(x, y), z), np.arctan2(y, x) % (2 * PI)


def oracle(ish, osh, shape, b, gi, go, cut, eps, tr, mode, merge):
    ti, wi = O.lats(gi, ish[0])
    to, wo = O.lats(go, osh[0])
    cut_eff = (1 + eps) * cut
    K = p11.basis_size(p11.norm_shape(shape, b), b)
    V = np.zeros((K, osh[0], ish[0], ish[1]))
    ST, CL = np.zeros(V.shape, bool), np.zeros(V.shape, bool)
    for t in range(osh[0]):
        r, phi = geometry(ti, to[t], ish[1])
        for k, (v, st, cl) in enumerate(p11.oracle(shape, b, r, phi, cut_eff)):
            edge = np.abs(r - cut_eff) < 1e-6
            V[k, t], ST[k, t], CL[k, t] = v, st & ~edge, cl | edge
            if b == "piecewise linear":
                ST[k, t] &= v > 1e-6
                CL[k, t] |= v > -1
                CL[k, t] &= r <= cut_eff + 1e-6
    return V, ST, CL, wi, wo


def normalise(V, S, wi, wo, ish, osh, cut, tr, mode, merge, iso):
    """documented normalisation of the listed entries S"""
    q = (wo / osh[1] / 2.0) if tr else (wi / ish[1] / 2.0)  # weights integrating to one over the sphere
    Q = q[None, :, None, None] if tr else q[None, None, :, None]
    # neighbourhood sums: over everything except (filter, latitude of the point the filter is centred on for the normalisation)
    ax = (1, 3) if tr else (2, 3)
    f = ish[1] / osh[1] if tr else 1.0
    # sums in transpose mode run over the listed points, weighted with the input grid's longitude count
    Qs = Q / f if tr else Q
    sh = (slice(None), None, slice(None), None) if tr else (slice(None), slice(None), None, None)
    sup = (S * Qs).sum(ax)
    W = np.where(S, V, 0.0)
    bias = np.zeros_like(sup)
    if mode == "modal":
        bias = np.where(np.abs(sup) > 1e-9, (W * Qs).sum(ax) / np.maximum(sup, 1e-9), 0.0)
        bias[np.array(iso)] = 0.0
    scale = (np.where(S, np.abs(V - bias[sh]), 0) * Qs).sum(ax)
    if mode in ("nodal", "modal"):
        W = (W - bias[sh]) / np.maximum(scale, 1e-9)[sh]
    elif mode == "mean":
        W = W / np.maximum(scale.mean(1), 1e-9)[:, None, None, None]
    elif mode == "support":
        W = W / np.maximum(sup, 1e-9)[sh]
    elif mode == "geometric":
        W = W / max((1 - math.cos(cut)) / 4, 1e-9)
    if merge:
        W = W * Q
    return np.where(S, W, 0.0)


def one(ish, osh, shape, b, gi, go, cut, tr, mode, merge, eps=1e-3):
    C = need("torch_harmonics.disco.convolution", "_precompute_convolution_tensor_s2")
    G = need("torch_harmonics.filter_basis", "get_filter_basis")
    what = f"filter tensor in={ish} {gi} out={osh} {go} basis={b} {shape} cutoff={cut} transpose={tr} mode={mode} merge={merge}"
    kw = {} if eps == 1e-3 else dict(theta_eps=eps)
    with must(what):
        fb = G(shape, b)
        idx, vals, roff = C(ish, osh, fb, grid_in=gi, grid_out=go, theta_cutoff=cut, transpose_normalization=tr, basis_norm_mode=mode, merge_quadrature=merge, **kw)
    K = fb.kernel_size
    i, v = npa(idx), npa(vals)
    check(i.shape == (3, v.shape[0]), f"{what}: shapes {i.shape} {v.shape}")
    check(vals.dtype == torch.float64 and idx.dtype == torch.int64, f"{what}: types {vals.dtype} {idx.dtype}")
    if i.size:
        check(i.min() >= 0 and (i.max(axis=1) < [K, osh[0], ish[0] * ish[1]]).all(), f"{what}: index out of range")
    check(len({tuple(c) for c in i.T.tolist()}) == i.shape[1], f"{what}: an entry is listed twice")
    check(np.all(np.diff(i[1]) >= 0), f"{what}: entries not in the order of the output rows")
    ro = npa(roff)
    check(ro.shape == (osh[0] + 1,) and ro[0] == 0 and ro[-1] == i.shape[1] and all((i[1, ro[t] : ro[t + 1]] == t).all() for t in range(osh[0])), f"{what}: row offsets do not delimit the rows")
    V, ST, CL, wi, wo = oracle(ish, osh, shape, b, gi, go, cut, eps, tr, mode, merge)
    L = np.zeros(V.shape, bool)
    D = np.zeros(V.shape)
    hi, w = i[2] // ish[1], i[2] % ish[1]
    L[i[0], i[1], hi, w] = True
    D[i[0], i[1], hi, w] = v
    for nm, bad in (("missing", ST & ~L), ("listed though outside the support", L & ~CL)):
        if bad.any():
            k, t, a, c = np.argwhere(bad)[0]
            raise Violation(f"{what}: filter {k}, output row {t}, input point ({a},{c}) is {nm}")
    if b == "harmonic" or b == "fourier-bessel" or b == "zernike" or b == "morlet" or b == "piecewise linear":
        want = normalise(V, L, wi, wo, ish, osh, cut, tr, mode, merge, p11.isotropic(shape, b))
        s = np.abs(want).max() + 1e-30
        bad = np.abs(D - want) > 2e-5 * s + 1e-9
        if bad.any():
            k, t, a, c = np.argwhere(bad)[0]
            raise Violation(f"{what}: filter {k}, output row {t}, input point ({a},{c}): value {D[k, t, a, c]!r}, documented {want[k, t, a, c]!r}")
    if mode == "nodal" and merge:
        # promised: absolute values integrate to one around every point with a non-trivial neighbourhood
        tot = np.abs(D).sum((1, 3) if tr else (2, 3))
        f = osh[1] / ish[1] if tr else 1.0
        live = (np.abs(np.where(L, V, 0)).sum((1, 3) if tr else (2, 3))) > 1e-3
        ok = np.abs(tot * f * (1 if not tr else 1) - (1.0 if not tr else 1.0 * f * (ish[1] / osh[1]))) < 1e-4
        if not tr and (live & ~ok).any():
            k, t = np.argwhere(live & ~ok)[0]
            raise Violation(f"{what}: filter {k} row {t} integrates to {tot[k, t]} in absolute value instead of 1")


def roles(ish, osh, shape, b, gi, go, cut):
    """swapping the grids swaps the roles: same point pairs, same unnormalised values"""
    C = need("torch_harmonics.disco.convolution", "_precompute_convolution_tensor_s2")
    G = need("torch_harmonics.filter_basis", "get_filter_basis")
    fb = G(shape, b)
    a = C(ish, osh, fb, grid_in=gi, grid_out=go, theta_cutoff=cut, transpose_normalization=False, basis_norm_mode="none", merge_quadrature=False)
    t = C(ish, osh, fb, grid_in=gi, grid_out=go, theta_cutoff=cut, transpose_normalization=True, basis_norm_mode="none", merge_quadrature=False)
    same(a[0], t[0], "transposed tensor has the same pattern")
    same(a[1], t[1], "transposed tensor has the same unnormalised values")


def badmode():
    C = need("torch_harmonics.disco.convolution", "_precompute_convolution_tensor_s2")
    G = need("torch_harmonics.filter_basis", "get_filter_basis")
    raises("unknown normalisation mode", ValueError, lambda: C((4, 8), (4, 8), G((3, 2), "piecewise linear"), theta_cutoff=1.0, basis_norm_mode="nosuch"))


def alias(old, new):
    C = need("torch_harmonics.disco.convolution", "_precompute_convolution_tensor_s2")
    G = need("torch_harmonics.filter_basis", "get_filter_basis")
    fb = G((3, 2), "piecewise linear")
    with must("deprecated mode names"):
        a = C((5, 8), (4, 8), fb, theta_cutoff=1.0, basis_norm_mode=old)[1]
        b = C((5, 8), (4, 8), fb, theta_cutoff=1.0, basis_norm_mode=new)[1]
    same(a, b, f"basis_norm_mode={old} is {new}")


def run(R):
    import warnings

    warnings.filterwarnings("ignore")
    R.case("unknown mode", badmode)
    R.case("alias[individual]", alias, "individual", "nodal")
    R.case("alias[area ratio]", alias, "area ratio", "geometric")
    E, LG, LO = "equiangular", "legendre-gauss", "lobatto"
    geo = [((6, 12), (6, 12), LG, LO, 0.63), ((5, 8), (5, 8), E, E, 0.81), ((8, 12), (4, 6), LG, E, 0.9), ((6, 10), (5, 5), LO, E, 1.21), ((4, 6), (7, 3), LG, LG, 1.4), ((7, 7), (3, 7), E, LG, 0.57), ((3, 4), (6, 4), LO, LG, 1.7), ((5, 9), (4, 3), LG, E, 3.0), ((4, 6), (6, 6), LG, E, 0.17), ((2, 4), (1, 4), LG, LG, 1.3), ((1, 4), (2, 4), LG, LG, 1.3)]
    bases = [((3,), "piecewise linear"), ((4,), "piecewise linear"), ((3, 4), "piecewise linear"), ((3, 3), "piecewise linear"), ((4, 3), "piecewise linear"), ((2, 3), "harmonic"), ((3, 2), "morlet"), (3, "zernike"), ((2, 1), "fourier-bessel")]
    for n, (i, o, gi, go, cut) in enumerate(geo):
        for s, b in bases:
            if s == (4, 3) and gi == go:
                continue  # bearing of a coincident point is undefined
            ms = MODES if R.thorough or n < 4 else ["none", MODES[1 + (n + hash_(b)) % 5], "modal"]
            for mode in ms:
                for tr in (False, True):
                    for merge in (False, True):
                        if s == (4, 3) and mode == "modal" and not R.thorough and n > 1:
                            continue
                        R.case(f"tensor[{n},{b},{s},{mode},{tr},{merge}]", one, i, o, s, b, gi, go, cut, tr, mode, merge)
        R.case(f"roles[{n}]", roles, i, o, (3, 4), "piecewise linear", gi, go, cut)
    for eps in (0.0137, 0.31):
        R.case(f"eps[{eps}]", one, (6, 12), (5, 6), (3, 4), "piecewise linear", LG, E, 0.7, False, "nodal", True, eps)


def hash_(s):
    return sum(map(ord, s))
