from .base import *
from . import oracle as O
from .p06 import inv_oracle, GR


def eig(L, alpha, tau, sigma, radius):
    if sigma is None:
        sigma = tau ** (alpha - 1)
    l = np.arange(L, dtype=np.float64)
    e = sigma * (l * (l + 1) / radius**2 + tau**2) ** (-alpha / 2)
    e[0] = 0
    return e


def one(nlat, alpha, tau, sigma, radius, g, dt, N):
    C = need("torch_harmonics.random_fields", "GaussianRandomFieldS2")
    what = f"GaussianRandomFieldS2(nlat={nlat},alpha={alpha},tau={tau},sigma={sigma},radius={radius},{g},{dt})"
    L, _ = O.trunc(nlat, 2 * nlat, None, None, g)
    if L < 1:
        return
    with must(what):
        f = C(nlat, alpha=alpha, tau=tau, sigma=sigma, radius=radius, grid=g, dtype=dt)
        cd = torch.complex128 if dt == torch.float64 else torch.complex64
        xi = torch.randn(N, L, L, dtype=cd)
        x0 = xi.clone()
        u = f(N, xi)
    same(xi, x0, what + ": modified the noise")
    check(u.dtype == dt, f"{what}: field type {u.dtype}")
    e = eig(L, alpha, tau, sigma, radius)
    c = np.tril(npa(xi)) * e[:, None]
    close_rel(u, inv_oracle(c.astype(np.complex128), nlat, 2 * nlat, g, "unnorm", True), what, 2e-4)
    with must(what + " sampling"):
        torch.manual_seed(11)
        a = f(N)
        torch.manual_seed(11)
        b = f(N)
        w = f(N, xi)
    same(a, b, what + ": same seed, different field")
    same(w, u, what + ": same noise, different field after sampling")
    check(tuple(a.shape) == (N, nlat, 2 * nlat) and a.dtype == dt, f"{what}: field shape {tuple(a.shape)} {a.dtype}")
    with must(what + " linearity"):
        xj = torch.randn(N, L, L, dtype=cd)
        close_rel(f(N, xi + 2.5 * xj), npa(f(N, xi)) + 2.5 * npa(f(N, xj)), what + ": not linear in the noise", 2e-4)
        g2 = f.to(torch.float64)
        close_rel(g2(N, xi.to(torch.complex128)), inv_oracle(c.astype(np.complex128), nlat, 2 * nlat, g, "unnorm", True), what + " after .to(float64)", 2e-4)


def moments(nlat, g):
    """second moments of the drawn coefficients: independent, variance 1 in the real and imaginary part, mean 0"""
    C = need("torch_harmonics.random_fields", "GaussianRandomFieldS2")
    with must("sampling"):
        f = C(nlat, alpha=2.5, tau=3.0, grid=g, dtype=torch.float64)
        got = []
        isht = f.isht

        class Rec(torch.nn.Module):
            lmax, mmax = isht.lmax, isht.mmax

            def forward(self, c):
                got.append(c.detach().clone())
                return isht(c)

        f.isht = Rec()
        f(4000)
    if len(got) != 1:
        raise Skip("transform not called through the module")
    c = npa(got[0])
    L = c.shape[-1]
    e = eig(L, 2.5, 3.0, None, 1.0)
    for l in range(1, L):
        for m in range(l + 1):
            z = c[:, l, m] / e[l]
            check(abs(z.real.mean()) < 0.12 and abs(z.imag.mean()) < 0.12 and abs(z.real.var() - 1) < 0.25 and abs(z.imag.var() - 1) < 0.25, f"noise at (l={l},m={m}): mean {z.mean()}, variances {z.real.var()},{z.imag.var()}")
            check(abs((z.real * z.imag).mean()) < 0.12, f"noise at (l={l},m={m}): real and imaginary parts correlated")
    check(np.all(c[:, 0, 0] == 0), "degree zero not removed")


def reject():
    C = need("torch_harmonics.random_fields", "GaussianRandomFieldS2")
    for a in (1.0, 0.5, -2.0):
        raises(f"alpha={a} without sigma", Exception, lambda: C(8, alpha=a))
    with must("alpha<=1 with sigma"):
        C(8, alpha=0.5, sigma=1.0)(2)


def run(R):
    sizes = [2, 3, 4, 5, 8, 9, 16] + ([6, 7, 12, 17, 32] if R.thorough else [])
    for h in R.hints:
        if isinstance(h.get("nlat"), int) and 2 <= h["nlat"] < 64:
            sizes.insert(0, h["nlat"])
    k = 0
    for n in sizes:
        for g in GR:
            for al, tau, sg, rad in [(2.0, 3.0, None, 1.0), (1.5, 0.7, None, 2.0), (3.0, 2.0, 1.3, 0.5), (0.5, 1.0, 2.0, 3.0), (2.5, 7.0, 0.0, 1.0), (4.0, 0.1, None, 6.37)]:
                k += 1
                R.case(f"grf[{n},{al},{tau},{sg},{rad},{g}]", one, n, al, tau, sg, rad, g, torch.float64 if k % 2 else torch.float32, 1 + k % 3)
    for g in GR:
        R.case(f"moments[{g}]", moments, 8, g)
    R.case("reject", reject)
