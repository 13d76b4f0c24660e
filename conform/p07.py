from .base import *
from . import oracle as O
from .p06 import fourier, synth, cases, GR, NM


def mods():
    return need("torch_harmonics", "RealVectorSHT", "InverseRealVectorSHT")


def fwd_oracle(x, L, grid, norm, cs):
    th, w = O.lats(grid, x.shape[-2])
    D = O.dlegendre_table(L, L, th, norm, False, cs)
    F = fourier(x, L)
    l = np.arange(L)
    nf = np.where(l > 0, 1.0 / np.maximum(l * (l + 1), 1), 0.0)
    F0, F1 = F[..., 0, :, :], F[..., 1, :, :]
    e = lambda f, d: np.einsum("...km,mlk,k,l->...lm", f, d, w, nf)
    s = e(F0, D[0]) - 1j * e(F1, D[1])
    t = -1j * e(F0, D[1]) - e(F1, D[0])
    return np.stack([s, t], -3)


def inv_oracle(c, nlat, nlon, grid, norm, cs):
    th, _ = O.lats(grid, nlat)
    L = c.shape[-2]
    D = O.dlegendre_table(c.shape[-1], L, th, norm, True, cs)
    s, t = c[..., 0, :, :], c[..., 1, :, :]
    e = lambda f, d: np.einsum("...lm,mlk->...km", f, d)
    a = e(s, D[0]) + 1j * e(t, D[1])
    b = 1j * e(s, D[1]) - e(t, D[0])
    return np.stack([synth(a, nlon), synth(b, nlon)], -3)


def one(a, b, lm, mm, g, n, cs, lead, dt):
    F, I = mods()
    L, _ = O.trunc(a, b, lm, mm, g)
    if L < 1:
        return
    what = f"(nlat={a},nlon={b},lmax={lm},mmax={mm},{g},{n},csphase={cs})"
    with must("RealVectorSHT" + what):
        f = F(a, b, lmax=lm, mmax=mm, grid=g, norm=n, csphase=cs)
        i = I(a, b, lmax=lm, mmax=mm, grid=g, norm=n, csphase=cs)
    check((f.lmax, f.mmax, i.lmax, i.mmax) == (L,) * 4, f"{what}: cut-offs {(f.lmax, f.mmax, i.lmax, i.mmax)}, contract {L}")
    tol = TOL if dt == torch.float64 else 3e-4
    x = torch.randn(*lead, 2, a, b, dtype=dt)
    c = torch.randn(*lead, 2, L, L, dtype=torch.complex128 if dt == torch.float64 else torch.complex64)
    x0, c0 = x.clone(), c.clone()
    with must("forward" + what):
        y = f(x)
        z = i(c)
    same(x, x0, "forward modified its input" + what)
    same(c, c0, "inverse modified its input" + what)
    check(y.dtype == c.dtype and z.dtype == x.dtype, f"{what}: result types {y.dtype},{z.dtype}")
    want = fwd_oracle(npa(x).astype(np.float64), L, g, n, cs)
    if L == 1:
        close(y, want, "RealVectorSHT" + what, atol=1e-12)
    else:
        close_rel(y, want, "RealVectorSHT" + what, tol)
    want = inv_oracle(npa(c).astype(np.complex128), a, b, g, n, cs)
    close(z, want, "InverseRealVectorSHT" + what, atol=tol * max(1.0, np.abs(want).max()), rtol=0)
    up = np.triu(np.ones((L, L), bool), 1)
    check(np.all(npa(y)[..., up] == 0), f"RealVectorSHT{what}: nonzero coefficient with order above degree")
    check(np.all(npa(y)[..., 0, :] == 0), f"RealVectorSHT{what}: degree-zero coefficient not zero")


TOL = 1e-9


def roundtrip(a, b, g, n, cs, lm):
    F, I = mods()
    deg = {"legendre-gauss": 2 * a - 1, "lobatto": 2 * a - 3, "equiangular": a - 1}[g]
    L = min(lm, (deg - 1) // 2 + 1, (b - 1) // 2 + 1)
    if L < 2:
        return
    what = f"(nlat={a},nlon={b},lmax=mmax={L},{g},{n},csphase={cs})"
    with must("roundtrip"):
        f = F(a, b, lmax=L, mmax=L, grid=g, norm=n, csphase=cs)
        i = I(a, b, lmax=L, mmax=L, grid=g, norm=n, csphase=cs)
        c = torch.tril(torch.randn(3, 2, L, L, dtype=torch.complex128))
        c[..., 0] = c[..., 0].real.to(c.dtype)
        c[..., 0, :] = 0
        x = i(c)
        y = f(x)
        z = i(y)
        gr = c.clone()
        gr[:, 1] = 0
        yg = f(i(gr))
    close_rel(y, c, "forward(inverse(c)) = c" + what, 1e-8)
    close_rel(z, x, "inverse(forward(x)) = x" + what, 1e-8)
    close(yg[:, 1], np.zeros(yg[:, 1].shape), "gradient field has no toroidal part" + what, atol=1e-7)


def reject(a, b):
    F, I = mods()
    f, i = F(a, b), I(a, b)
    E = Exception
    for sh in [(2, a + 1, b), (2, a, b + 1), (3, a, b), (1, a, b), (a, b), (2, a - 1, b)]:
        raises(f"RealVectorSHT({a},{b}) on {sh}", E, lambda: f(torch.randn(*sh)))
    for sh in [(2, i.lmax + 1, i.mmax), (2, i.lmax, i.mmax + 1), (3, i.lmax, i.mmax), (1, i.lmax, i.mmax), (i.lmax, i.mmax)]:
        raises(f"InverseRealVectorSHT({a},{b}) on {sh}", E, lambda: i(torch.randn(*sh, dtype=torch.complex64)))
    for C in (F, I):
        raises("unknown grid", E, lambda: C(a, b, grid="nope"))


def layout(a, b, g):
    F, I = mods()
    L, _ = O.trunc(a, b, None, None, g)
    with must("non-contiguous"):
        f, i = F(a, b, grid=g), I(a, b, grid=g)
        x = torch.randn(b, a, 3, 2, dtype=torch.float64).permute(2, 3, 1, 0)
        c = torch.randn(L, 2, 3, L, dtype=torch.complex128).permute(2, 1, 3, 0)
        for _ in range(2):
            close_rel(f(x), fwd_oracle(npa(x), L, g, "ortho", True), "RealVectorSHT on a permuted view", TOL)
            close_rel(i(c), inv_oracle(npa(c), a, b, g, "ortho", True), "InverseRealVectorSHT on a permuted view", TOL)
        close_rel(i(c.conj()), inv_oracle(npa(c).conj(), a, b, g, "ortho", True), "InverseRealVectorSHT on a conjugate view", TOL)


def history(a, b, g):
    """the result does not depend on earlier calls (precision, batch shape) of the same module"""
    F, I = mods()
    L, _ = O.trunc(a, b, None, None, g)
    with must("history"):
        f, i = F(a, b, grid=g), I(a, b, grid=g)
        x = torch.randn(2, 2, a, b, dtype=torch.float64)
        c = torch.randn(2, 2, L, L, dtype=torch.complex128)
        f(x.float()), i(c.to(torch.complex64)), f(x[0].float()), i(c[:1])
        close_rel(f(x), fwd_oracle(npa(x), L, g, "ortho", True), "RealVectorSHT (double) after a single-precision call", TOL)
        close_rel(i(c), inv_oracle(npa(c), a, b, g, "ortho", True), "InverseRealVectorSHT (double) after a single-precision call", TOL)
        close_rel(f(x[:, None]), fwd_oracle(npa(x)[:, None], L, g, "ortho", True), "RealVectorSHT after other batch shapes", TOL)
    adjoint(f, x, f"RealVectorSHT({a},{b},{g})")
    adjoint(i, c, f"InverseRealVectorSHT({a},{b},{g})")


def run(R):
    for g in GR:
        R.case(f"history[{g}]", history, 6, 12, g)
    for k, cs in enumerate(cases(R)):
        R.case(f"vsht[{','.join(map(str, cs))},f64]", one, *cs, torch.float64)
        if k % 5 == 0:
            R.case(f"vsht[{','.join(map(str, cs))},f32]", one, *cs, torch.float32)
    for g in GR:
        for n in NM:
            for cs in (True, False):
                for a, b in [(4, 8), (5, 9), (8, 16), (9, 12), (12, 30), (17, 33)]:
                    for lm in (3, 100):
                        R.case(f"roundtrip[{a},{b},{g},{n},{cs},{lm}]", roundtrip, a, b, g, n, cs, lm)
        R.case(f"layout[{g}]", layout, 6, 11, g)
        R.case(f"layout2[{g}]", layout, 7, 12, g)
    R.case("reject", reject, 6, 12)
    R.case("reject2", reject, 5, 5)
