from .base import *
from . import oracle as O
from numpy.polynomial import legendre as L

M = "torch_harmonics.quadrature"
FN = {"legendre-gauss": "legendre_gauss_weights", "lobatto": "lobatto_weights", "equiangular": "clenshaw_curtiss_weights", "equiangular-trapezoidal": "trapezoidal_weights"}
DEG = {"legendre-gauss": lambda n: 2 * n - 1, "lobatto": lambda n: 2 * n - 3, "equiangular": lambda n: n - 1, "equiangular-trapezoidal": lambda n: 1}


def rule(grid, n, a, b, via):
    what = f"{grid} rule n={n} on [{a},{b}]"
    with must(what):
        if via:
            x, w = need(M, "_precompute_quadrature_weights")(n, grid=grid, a=a, b=b)
        else:
            x, w = need(M, FN[grid])(n, a=a, b=b)
    x, w = npa(x), npa(w)
    check(x.dtype == np.float64 and w.dtype == np.float64, f"{what}: not double precision ({x.dtype},{w.dtype})")
    check(x.shape == (n,) and w.shape == (n,), f"{what}: shapes {x.shape},{w.shape}")
    check(np.all(np.diff(x) > 0), f"{what}: nodes not increasing")
    check(x[0] >= a - 1e-12 * (b - a) and x[-1] <= b + 1e-12 * (b - a), f"{what}: nodes outside the interval")
    y = (2 * x - (a + b)) / (b - a)
    u = 2 * w / (b - a)
    d = DEG[grid](n)
    # Legendre moments: sum u P_k(y) = 2 delta_k0 for k <= d
    V = L.legvander(y, d)
    mom = u @ V
    want = np.zeros(d + 1)
    want[0] = 2.0
    close(mom, want, f"{what}: Legendre moments 0..{d}", atol=5e-12, rtol=0)
    if grid in ("equiangular", "lobatto", "equiangular-trapezoidal"):
        check(abs(y[0] + 1) < 1e-12 and abs(y[-1] - 1) < 1e-12, f"{what}: end points missing")
    xo, wo = O.rule(grid, n)
    close(y, xo, f"{what}: nodes", atol=1e-11, rtol=0)
    close(u, wo, f"{what}: weights", atol=1e-11, rtol=0)


def periodic(n, a, b):
    f = need(M, "trapezoidal_weights")
    with must("periodic trapezoidal"):
        x, w = f(n, a=a, b=b, periodic=True)
    close(x, a + (b - a) * np.arange(n) / n, f"periodic nodes n={n}", atol=1e-12)
    close(w, np.full(n, (b - a) / n), f"periodic weights n={n}", atol=1e-12)


def latlon(grid, n):
    f, g = need(M, "precompute_latitudes", "precompute_longitudes")
    with must("latitudes"):
        la, w = f(n, grid)
        lo = g(n)
    lo_, w_ = O.lats(grid, n)
    close(la, lo_, f"latitudes {grid} n={n}", atol=1e-7)
    close(np.cos(npa(la)), np.cos(lo_), f"cos latitudes {grid} n={n}", atol=1e-11)
    close(w, w_, f"latitude weights {grid} n={n}", atol=1e-11)
    check(np.all(np.diff(npa(la)) > 0), f"latitudes {grid} n={n} not north to south")
    close(lo, O.lons(n), f"longitudes n={n}", atol=1e-12)


def quad(grid, shape, normalize, lead, dt):
    C = need("torch_harmonics", "QuadratureS2")
    what = f"QuadratureS2({shape},{grid},normalize={normalize}) lead={lead}"
    with must(what):
        q = C(shape, grid=grid, normalize=normalize)
        x = torch.randn(*lead, *shape, dtype=dt)
        got = q(x)
        one = q(torch.ones(*lead, *shape, dtype=dt))
    _, w = O.rule(grid, shape[0])
    W = np.outer(w[::-1], np.full(shape[1], 2 * np.pi / shape[1]))
    if normalize:
        W = W / (4 * np.pi)
    want = np.sum(npa(x).astype(np.float64) * W, axis=(-2, -1))
    bshape = np.broadcast_shapes(tuple(lead) + (1, 1), (1, 1, 1, 1))[:-2] if False else None
    g = npa(got)
    want = want.reshape(g.shape) if want.size == g.size else want
    close(g, want, what, atol=2e-5, rtol=2e-5)
    c = 1.0 if normalize else 4 * np.pi
    close(npa(one), np.full(g.shape, c), what + " constant", atol=2e-5, rtol=2e-6)


def bad():
    f = need(M, "_precompute_quadrature_weights")
    raises("periodic non-trapezoidal", ValueError, lambda: f(4, grid="legendre-gauss", periodic=True))
    raises("unknown grid", ValueError, lambda: f(4, grid="nope"))
    raises("unknown grid", ValueError, lambda: need("torch_harmonics", "QuadratureS2")((4, 8), grid="nope"))
    raises("Clenshaw-Curtis n=1", ValueError, lambda: need(M, "clenshaw_curtiss_weights")(1))


def run(R):
    ns = list(range(2, 42)) + [49, 50, 63, 64, 65, 90, 91, 128, 129, 181]
    if R.thorough:
        ns = list(range(2, 130)) + [180, 181, 255, 256, 257, 361]
    for h in R.hints:
        if isinstance(h.get("n"), int) and 2 <= h["n"] <= 400:
            ns.insert(0, h["n"])
    for g in FN:
        for n in ns:
            R.case(f"rule[{g},{n}]", rule, g, n, -1.0, 1.0, False)
            if n < 30:
                R.case(f"rule_ab[{g},{n}]", rule, g, n, 0.5, 3.25, True)
                R.case(f"rule_ab2[{g},{n}]", rule, g, n, -2.0, 5.0, False)
                R.case(f"rule_01[{g},{n}]", rule, g, n, 0.0, 1.0, True)
            R.case(f"latlon[{g},{n}]", latlon, g, n)
    R.case("rule[legendre-gauss,1]", rule, "legendre-gauss", 1, -1.0, 1.0, False)
    for n in range(1, 12):
        R.case(f"periodic[{n}]", periodic, n, -1.0, 2.5)
    for g in FN:
        for shape in [(2, 1), (3, 5), (4, 8), (5, 4), (8, 16), (9, 18), (17, 6)]:
            for nz in (False, True):
                for lead in [(2, 3), (1, 1), (4,), (3, 2, 2), ()]:
                    for dt in (torch.float32, torch.float64):
                        R.case(f"quad[{g},{shape},{nz},{lead},{dt}]", quad, g, shape, nz, lead, dt)
    R.case("reject", bad)
