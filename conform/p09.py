from .base import *
from . import oracle as O

GR = ["legendre-gauss", "lobatto", "equiangular", "equiangular-trapezoidal"]


def interp_w(tin, tout):
    """bracketing node and weight of each output position; tin increasing"""
    j = np.clip(np.searchsorted(tin, tout, side="right") - 1, 0, len(tin) - 2)
    d = tin[j + 1] - tin[j]
    return j, np.where(d > 0, (tout - tin[j]) / np.where(d > 0, d, 1), 0.0)


def mix(a, b, w, mode):
    if mode == "bilinear":
        return (1 - w) * a + w * b
    om = b - a
    so = np.sin(om)
    small = np.abs(so) <= 1e-4
    so1 = np.where(small, 1.0, so)
    return np.where(small, 1 - w, np.sin((1 - w) * om) / so1) * a + np.where(small, w, np.sin(w * om) / so1) * b


def oracle(x, tin, tout, no, mode):
    n = x.shape[-1]
    if (tout > tin[-1]).any() or (tout < tin[0]).any():
        north, south = x[..., :1, :].mean(-1, keepdims=True), x[..., -1:, :].mean(-1, keepdims=True)
        o = np.ones(n)
        x = np.concatenate([north * o, x, south * o], axis=-2)
        tin = np.concatenate([[0.0], tin, [np.pi]])
    j, w = interp_w(tin, tout)
    y = mix(x[..., j, :], x[..., j + 1, :], w[:, None], mode)
    k = np.arange(no)
    l = (k * n) // no
    wl = (k * n) / no - l
    return mix(y[..., l], y[..., (l + 1) % n], wl, mode)


def lat(n, g):
    return O.lats(g, n)[0] if g != "equiangular-trapezoidal" else np.sort(np.arccos(np.linspace(-1, 1, n)))


def one(a, b, c, d, gi, go, mode, lead, dt):
    C = need("torch_harmonics", "ResampleS2")
    what = f"ResampleS2({a},{b},{c},{d},{gi},{go},{mode}) {dt} lead={lead}"
    with must(what):
        m = C(a, b, c, d, grid_in=gi, grid_out=go, mode=mode)
        # angles kept away from the small-angle switch so that it does not amplify rounding
        x = torch.randn(*lead, a, b, dtype=dt)
        x0 = x.clone()
        y = m(x)
        y2 = m(x)
    same(x, x0, what + ": modified its input")
    check(y.dtype == dt, f"{what}: output type {y.dtype}")
    if (a, b, gi) == (c, d, go):
        same(y, x0, what + ": same grid must return the input")
        return
    want = oracle(npa(x).astype(np.float64), lat(a, gi), lat(c, go), d, mode)
    if mode == "bilinear":
        close_rel(y, want, what, 3e-5)
        with must(what + " constants"):
            k = m(torch.full((*lead, a, b), -2.5, dtype=dt))
        close_rel(k, np.full((*lead, c, d), -2.5), what + " constant field", 1e-5)
        adjoint(m, x, what, 1e-4)
    else:
        # where the slerp weights are ill-conditioned, rounding of the weights is amplified: compare on a field of small angles
        x = (0.3 * torch.rand(*lead, a, b, dtype=dt) + 0.002 * torch.arange(a * b, dtype=dt).reshape(a, b)) * (-1.0 if (a + d) % 2 else 1.0)
        with must(what):
            y = m(x)
            z = m(-x)
        close_rel(y, oracle(npa(x).astype(np.float64), lat(a, gi), lat(c, go), d, mode), what, 2e-4)
        close_rel(z, -npa(y).astype(np.float64), what + " is odd", 2e-4)
    same(y2, m(x0) if mode == "bilinear" else y2, what + ": second call differs")


def nodes(a, b, gi, go, r):
    """output nodes that coincide with input nodes get the input value"""
    C = need("torch_harmonics", "ResampleS2")
    what = f"ResampleS2({a},{b},{a},{r * b},{gi})"
    with must(what):
        m = C(a, b, a, r * b, grid_in=gi, grid_out=gi)
        x = torch.randn(3, a, b, dtype=torch.float64)
        y = m(x)
    close_rel(y[..., ::r], x, what + " coinciding nodes", 1e-5)
    if gi == "equiangular":
        with must(what):
            y = C(a, b, 2 * a - 1, b, grid_in=gi, grid_out=gi)(x)
        close_rel(y[..., ::2, :], x, f"ResampleS2({a},{b},{2 * a - 1},{b},{gi}) coinciding nodes", 1e-5)


def reject():
    C = need("torch_harmonics", "ResampleS2")
    for md in ("nearest", "", "cubic"):
        raises(f"mode {md}", Exception, lambda: C(4, 8, 6, 8, mode=md))
    raises("unknown grid", Exception, lambda: C(4, 8, 6, 8, grid_in="nope"))


def run(R):
    sh = [(4, 8, 8, 16), (8, 16, 4, 8), (5, 9, 7, 12), (2, 3, 9, 10), (9, 10, 2, 3), (6, 1, 4, 5), (4, 6, 4, 6), (7, 12, 7, 18), (12, 5, 12, 5), (3, 4, 10, 4), (10, 7, 5, 1), (16, 32, 9, 30), (2, 2, 3, 3), (8, 4, 8, 64), (6, 5, 6, 6)]
    if R.thorough:
        sh += [(R.rng.randint(2, 30), R.rng.randint(1, 40), R.rng.randint(2, 30), R.rng.randint(1, 40)) for _ in range(60)]
    for h in R.hints:
        v = [h.get(k) for k in ("nlat_in", "nlon_in", "nlat_out", "nlon_out")]
        if all(isinstance(q, int) and 1 <= q <= 64 for q in v) and v[0] > 1 and v[2] > 1:
            sh.insert(0, tuple(v))
    k = 0
    for gi in GR:
        for go in GR:
            for s in sh:
                for mode in ("bilinear", "bilinear-spherical"):
                    k += 1
                    R.case(f"resample[{s},{gi},{go},{mode}]", one, *s, gi, go, mode, ((2,), (), (2, 3))[k % 3], torch.float64 if k % 4 else torch.float32)
    for g in GR:
        for a, b, r in [(4, 6, 2), (5, 7, 3), (9, 16, 4)]:
            R.case(f"nodes[{a},{b},{g},{r}]", nodes, a, b, g, g, r)
    R.case("reject", reject)
