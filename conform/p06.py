from .base import *
from . import oracle as O

GR = ["legendre-gauss", "lobatto", "equiangular"]
NM = ["ortho", "schmidt", "unnorm"]


def mods():
    return need("torch_harmonics", "RealSHT", "InverseRealSHT")


def fourier(x, mmax):
    """2 pi / N sum_j x_j e^{-i m phi_j}, zero above Nyquist; x (..., N) -> (..., mmax)"""
    N = x.shape[-1]
    m = np.arange(mmax)
    E = np.exp(-2j * np.pi * ((np.outer(np.arange(N), m)) % N) / N)
    E[:, m > N // 2] = 0
    return 2 * np.pi / N * (x @ E)


def synth(c, N):
    """real signal of N points of half spectrum c (..., M)"""
    M = c.shape[-1]
    m = np.arange(M)
    ph = 2 * np.pi * (np.outer(m, np.arange(N)) % N) / N
    sc = (m == 0) | ((N % 2 == 0) & (m == N // 2))
    keep = m <= N // 2
    re = np.where(sc, 1.0, 2.0) * keep
    im = np.where(sc, 0.0, 2.0) * keep
    return (c.real * re) @ np.cos(ph) - (c.imag * im) @ np.sin(ph)


def fwd_oracle(x, L, grid, norm, cs):
    th, w = O.lats(grid, x.shape[-2])
    P = O.legendre_table(L, L, np.cos(th), norm, False, cs)
    F = fourier(x, L)  # ... k m
    return np.einsum("...km,mlk,k->...lm", F, P, w)


def inv_oracle(c, nlat, nlon, grid, norm, cs):
    th, _ = O.lats(grid, nlat)
    L = c.shape[-2]
    P = O.legendre_table(c.shape[-1], L, np.cos(th), norm, True, cs)
    return synth(np.einsum("...lm,mlk->...km", c, P), nlon)


def cases(R):
    sizes = [(2, 1), (2, 4), (3, 5), (4, 8), (5, 4), (5, 10), (6, 3), (8, 16), (9, 7), (12, 24), (16, 15), (7, 40)]
    if R.thorough:
        sizes += [(a, b) for a in range(2, 20) for b in (1, 2, 3, 6, 9, 13, 16, 31)] + [(32, 64), (33, 65)]
    for h in R.hints:
        a, b = h.get("nlat"), h.get("nlon")
        if isinstance(a, int) and isinstance(b, int) and 2 <= a <= 60 and 1 <= b <= 120:
            for g in GR:
                for lm in (None, h.get("lmax") if isinstance(h.get("lmax"), int) and h["lmax"] < 80 else None):
                    for mm in (None, h.get("mmax") if isinstance(h.get("mmax"), int) and h["mmax"] < 80 else None):
                        yield a, b, lm, mm, g, "schmidt", True, (2,)
    for g in GR:
        for n in NM:
            for cs in (True, False):
                for i, (a, b) in enumerate(sizes):
                    yield a, b, None, None, g, n, cs, ((2,), (), (2, 3), (1, 1, 2))[(i + len(g) + len(n)) % 4]
        for a, b in sizes:
            for lm, mm in [(1, None), (None, 1), (3, None), (None, 3), (4, 2), (2, 4), (a + 2, b), (5, 5), (b // 2 + 4, b // 2 + 3)]:
                yield a, b, lm, mm, g, NM[(a + b) % 3], bool(b % 2), (2,)


def one(a, b, lm, mm, g, n, cs, lead, dt):
    F, I = mods()
    L, _ = O.trunc(a, b, lm, mm, g)
    if L < 1:
        return
    what = f"(nlat={a},nlon={b},lmax={lm},mmax={mm},{g},{n},csphase={cs})"
    with must("RealSHT" + what):
        f = F(a, b, lmax=lm, mmax=mm, grid=g, norm=n, csphase=cs)
        i = I(a, b, lmax=lm, mmax=mm, grid=g, norm=n, csphase=cs)
    check((f.lmax, f.mmax, i.lmax, i.mmax) == (L,) * 4, f"{what}: cut-offs {(f.lmax, f.mmax, i.lmax, i.mmax)}, contract {L}")
    tol = 1e-9 if dt == torch.float64 else 3e-4
    x = torch.randn(*lead, a, b, dtype=dt)
    c = torch.randn(*lead, L, L, dtype=torch.complex128 if dt == torch.float64 else torch.complex64)
    x0, c0 = x.clone(), c.clone()
    with must("forward" + what):
        y = f(x)
        z = i(c)
    same(x, x0, "forward modified its input" + what)
    same(c, c0, "inverse modified its input" + what)
    check(y.dtype == c.dtype and z.dtype == x.dtype, f"{what}: result types {y.dtype},{z.dtype}")
    close_rel(y, fwd_oracle(npa(x).astype(np.float64), L, g, n, cs), "RealSHT" + what, tol)
    close_rel(z, inv_oracle(npa(c).astype(np.complex128), a, b, g, n, cs), "InverseRealSHT" + what, tol)
    up = np.triu(np.ones((L, L), bool), 1)
    check(np.all(npa(y)[..., up] == 0), f"RealSHT{what}: nonzero coefficient with order above degree")


def roundtrip(a, b, g, n, cs, lm):
    """band-limited below the rule's exactness: inverse undoes forward"""
    F, I = mods()
    deg = {"legendre-gauss": 2 * a - 1, "lobatto": 2 * a - 3, "equiangular": a - 1}[g]
    L = min(lm, deg // 2 + 1, (b - 1) // 2 + 1)
    if L < 1:
        return
    with must("roundtrip"):
        f = F(a, b, lmax=L, mmax=L, grid=g, norm=n, csphase=cs)
        i = I(a, b, lmax=L, mmax=L, grid=g, norm=n, csphase=cs)
        c = torch.tril(torch.randn(3, L, L, dtype=torch.complex128))
        c[..., 0] = c[..., 0].real.to(c.dtype)
        x = i(c)
        y = f(x)
        z = i(y)
    what = f"(nlat={a},nlon={b},lmax=mmax={L},{g},{n},csphase={cs})"
    close_rel(y, c, "forward(inverse(c)) = c" + what, 1e-8)
    close_rel(z, x, "inverse(forward(x)) = x" + what, 1e-8)


def reject(a, b):
    F, I = mods()
    f, i = F(a, b), I(a, b)
    E = Exception
    for sh in [(a + 1, b), (a, b + 1), (b, a) if a != b else (a + 2, b), (2, a - 1, b), (b,)]:
        raises(f"RealSHT({a},{b}) on {sh}", E, lambda: f(torch.randn(*sh)))
    for sh in [(i.lmax + 1, i.mmax), (i.lmax, i.mmax + 1), (2, i.lmax - 1, i.mmax), (i.mmax,)]:
        raises(f"InverseRealSHT({a},{b}) on {sh}", E, lambda: i(torch.randn(*sh, dtype=torch.complex64)))
    for C in (F, I):
        raises("unknown grid", E, lambda: C(a, b, grid="nope"))


def layout(a, b, g):
    """non-contiguous inputs, repeated use of the same module"""
    F, I = mods()
    L, _ = O.trunc(a, b, None, None, g)
    with must("non-contiguous"):
        f, i = F(a, b, grid=g), I(a, b, grid=g)
        x = torch.randn(b, a, 2, dtype=torch.float64).permute(2, 1, 0)
        c = torch.randn(L, 2, L, dtype=torch.complex128).permute(1, 2, 0)
        for _ in range(2):
            close_rel(f(x), fwd_oracle(npa(x), L, g, "ortho", True), "RealSHT on a permuted view", 1e-9)
            close_rel(i(c), inv_oracle(npa(c), a, b, g, "ortho", True), "InverseRealSHT on a permuted view", 1e-9)
        cc = c.conj()
        close_rel(i(cc), inv_oracle(npa(c).conj(), a, b, g, "ortho", True), "InverseRealSHT on a conjugate view", 1e-9)


def history(a, b, g):
    """the result does not depend on earlier calls (precision, batch shape) of the same module"""
    F, I = mods()
    L, _ = O.trunc(a, b, None, None, g)
    with must("history"):
        f, i = F(a, b, grid=g), I(a, b, grid=g)
        x = torch.randn(2, a, b, dtype=torch.float64)
        c = torch.randn(2, L, L, dtype=torch.complex128)
        f(x.float()), i(c.to(torch.complex64)), f(x[0].float()), i(c[:1])
        close_rel(f(x), fwd_oracle(npa(x), L, g, "ortho", True), "RealSHT (double) after a single-precision call", 1e-9)
        close_rel(i(c), inv_oracle(npa(c), a, b, g, "ortho", True), "InverseRealSHT (double) after a single-precision call", 1e-9)
        close_rel(f(x[:, None]), fwd_oracle(npa(x)[:, None], L, g, "ortho", True), "RealSHT after other batch shapes", 1e-9)
        close_rel(i(c[:, None]), inv_oracle(npa(c)[:, None], a, b, g, "ortho", True), "InverseRealSHT after other batch shapes", 1e-9)
    adjoint(f, x, f"RealSHT({a},{b},{g})")
    adjoint(i, c, f"InverseRealSHT({a},{b},{g})")


def run(R):
    for g in GR:
        R.case(f"history[{g}]", history, 6, 12, g)
    for k, cs in enumerate(cases(R)):
        R.case(f"sht[{','.join(map(str, cs))},f64]", one, *cs, torch.float64)
        if k % 5 == 0:
            R.case(f"sht[{','.join(map(str, cs))},f32]", one, *cs, torch.float32)
    for g in GR:
        for n in NM:
            for cs in (True, False):
                for a, b in [(4, 8), (5, 9), (8, 16), (9, 12), (12, 30), (17, 33)]:
                    for lm in (3, 100):
                        R.case(f"roundtrip[{a},{b},{g},{n},{cs},{lm}]", roundtrip, a, b, g, n, cs, lm)
        R.case(f"layout[{g}]", layout, 6, 11, g)
        R.case(f"layout2[{g}]", layout, 7, 12, g)
    R.case("reject", reject, 6, 12)
    R.case("reject2", reject, 5, 5)
