import warnings
from .base import *
from . import oracle as O

GRIDS = ["legendre-gauss", "lobatto", "equiangular", "equiangular-trapezoidal"]


def one(nlat, nlon, lmax, mmax, grid):
    f = need("torch_harmonics", "truncate_sht")
    with must(f"truncate_sht({nlat},{nlon},{lmax},{mmax},{grid!r})"):
        kw = {} if grid is None else dict(grid=grid)
        got = f(nlat, nlon, lmax, mmax, **kw)
    want = O.trunc(nlat, nlon, lmax, mmax, grid or "equiangular")
    check(tuple(int(v) for v in got) == want, f"truncate_sht(nlat={nlat}, nlon={nlon}, lmax={lmax}, mmax={mmax}, grid={grid!r}) = {tuple(got)}, contract requires {want}")


def module(cls, nlat, nlon, lmax, mmax, grid):
    C = getattr(need("torch_harmonics"), cls)
    want = O.trunc(nlat, nlon, lmax, mmax, grid)
    with must(f"{cls}"):
        m = C(nlat, nlon, lmax=lmax, mmax=mmax, grid=grid)
        # observable truncation: shape of the coefficients accepted / produced
        if cls == "RealSHT":
            sh = tuple(m(torch.zeros(nlat, nlon, dtype=torch.float64)).shape[-2:])
        elif cls == "RealVectorSHT":
            sh = tuple(m(torch.zeros(2, nlat, nlon, dtype=torch.float64)).shape[-2:])
        elif cls == "InverseRealSHT":
            m(torch.zeros(*want, dtype=torch.complex128)); sh = want
        else:
            m(torch.zeros(2, *want, dtype=torch.complex128)); sh = want
    check(sh == want, f"{cls}(nlat={nlat}, nlon={nlon}, lmax={lmax}, mmax={mmax}, grid={grid!r}) uses coefficients of shape {sh}, contract requires {want}")
    check((m.lmax, m.mmax) == want, f"{cls}(nlat={nlat}, nlon={nlon}, lmax={lmax}, mmax={mmax}, grid={grid!r}): cut-offs {(m.lmax, m.mmax)}, contract requires {want}")


def spectral(ins, outs, gi, go):
    C = need("torch_harmonics", "SpectralConvS2")
    a, b = O.trunc(*ins, None, None, gi), O.trunc(*outs, None, None, go)
    want = min(a[0], b[0])
    with must("SpectralConvS2"):
        m = C(ins, outs, 1, 1, grid_in=gi, grid_out=go)
    check((m.lmax, m.mmax) == (want, want), f"SpectralConvS2({ins},{outs},{gi},{go}): cut-offs {(m.lmax, m.mmax)}, contract requires {(want, want)}")


def bad(nlat, nlon, grid):
    f = need("torch_harmonics", "truncate_sht")
    raises(f"unknown grid {grid!r}", Exception, lambda: f(nlat, nlon, grid=grid))


def run(R):
    for h in R.hints:
        try:
            for g in GRIDS:
                R.case(f"replay[{h}]", one, max(1, int(h.get("nlat", 5))), max(1, int(h.get("nlon", 8))), int(h["lmax"]) if h.get("lmax") else None, int(h["mmax"]) if h.get("mmax") else None, g)
        except Exception:
            pass
    N = 80 if R.thorough else 40
    for g in GRIDS + [None]:
        for nlat in range(2, N):
            for nlon in range(1, N):
                R.case(f"default[{g},{nlat},{nlon}]", one, nlat, nlon, None, None, g)
    for _ in range(20000 if R.thorough else 6000):
        big = R.rng.choice([6, 30, 500, 100000])
        nlat, nlon = R.rng.randint(2, big), R.rng.randint(1, big)
        lm = R.rng.choice([None, R.rng.randint(1, big), R.rng.randint(1, big)])
        mm = R.rng.choice([None, R.rng.randint(1, big), R.rng.randint(1, big)])
        R.case(f"explicit[{nlat},{nlon},{lm},{mm}]", one, nlat, nlon, lm, mm, R.rng.choice(GRIDS))
    for cls in ["RealSHT", "InverseRealSHT", "RealVectorSHT", "InverseRealVectorSHT"]:
        for g in GRIDS[:3]:
            for nlat, nlon in [(3, 4), (4, 7), (5, 10), (6, 5), (7, 14), (8, 3), (9, 8), (12, 24), (13, 9)]:
                for lm, mm in [(None, None), (3, None), (None, 2), (2, 3), (9, 9), (20, 4), (4, 20), (30, 30)]:
                    R.case(f"module[{cls},{g},{nlat},{nlon},{lm},{mm}]", module, cls, nlat, nlon, lm, mm, g)
    for i, o in [((6, 12), (8, 16)), ((8, 16), (6, 12)), ((7, 4), (5, 20)), ((9, 18), (9, 7))]:
        for gi in GRIDS[:3]:
            for go in GRIDS[:3]:
                R.case(f"spectral[{i},{o},{gi},{go}]", spectral, i, o, gi, go)
    for g in ["", "gauss", "healpix", "Equiangular", "equiangular ", "legendre_gauss"]:
        R.case(f"badgrid[{g}]", bad, 6, 12, g)
