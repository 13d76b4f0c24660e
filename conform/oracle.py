"""Independent NumPy oracles (no repository code)."""
import functools, math
import numpy as np
from numpy.polynomial import legendre as L


@functools.lru_cache(None)
def _dcoef(l, m):
    c = np.zeros(l + 1)
    c[l] = 1.0
    return L.legder(c, m) if m else c


def norm_ortho(l, m):
    # sqrt((2l+1)/(4pi) (l-m)!/(l+m)!)
    return math.exp(0.5 * (math.log((2 * l + 1) / (4 * math.pi)) + math.lgamma(l - m + 1) - math.lgamma(l + m + 1)))


def scale(l, norm, inverse):
    if norm == "ortho":
        return 1.0
    f = math.sqrt(4 * math.pi)
    if norm == "schmidt":
        f /= math.sqrt(2 * l + 1)
    return 1.0 / f if inverse else f


def legendre_table(mmax, lmax, x, norm="ortho", inverse=False, csphase=True):
    x = np.asarray(x, dtype=np.float64)
    s = np.sqrt(np.maximum((1 - x) * (1 + x), 0))
    out = np.zeros((mmax, lmax, len(x)))
    for m in range(mmax):
        for l in range(m, lmax):
            out[m, l] = norm_ortho(l, m) * s**m * L.legval(x, _dcoef(l, m)) * scale(l, norm, inverse) * ((-1) ** m if csphase else 1)
    return out


def dlegendre_table(mmax, lmax, theta, norm="ortho", inverse=False, csphase=True):
    """[0]: d/dtheta P(cos theta);  [1]: m P / sin theta."""
    theta = np.asarray(theta, dtype=np.float64)
    c, s = np.cos(theta), np.sin(theta)
    out = np.zeros((2, mmax, lmax, len(theta)))
    for m in range(mmax):
        for l in range(m, lmax):
            q = L.legval(c, _dcoef(l, m))
            dq = L.legval(c, L.legder(_dcoef(l, m), 1)) if l > m else np.zeros_like(c)
            k = norm_ortho(l, m) * scale(l, norm, inverse) * ((-1) ** m if csphase else 1)
            a = (m * s ** (m - 1) * c * q) if m >= 1 else 0.0
            out[0, m, l] = k * (a - s ** (m + 1) * dq)
            out[1, m, l] = k * (m * s ** (m - 1) * q if m >= 1 else 0.0)
    return out


def trunc(nlat, nlon, lmax, mmax, grid):
    d = {"legendre-gauss": nlat, "lobatto": nlat - 1, "equiangular": (nlat + 1) // 2, "equiangular-trapezoidal": (nlat + 1) // 2}
    a = lmax if lmax else d[grid]
    b = mmax if mmax else nlon // 2 + 1
    return min(a, b), min(a, b)


@functools.lru_cache(None)
def rule(grid, n):
    """(x ascending, w) on [-1,1] by independent means."""
    if grid == "legendre-gauss":
        # Golub-Welsch + Newton polish
        k = np.arange(1, n)
        b = k / np.sqrt(4.0 * k * k - 1)
        x = np.linalg.eigvalsh(np.diag(b, 1) + np.diag(b, -1)) if n > 1 else np.zeros(1)
        c = np.zeros(n + 1)
        c[n] = 1
        for _ in range(3):
            x = x - L.legval(x, c) / L.legval(x, L.legder(c))
        x = np.sort(x)
        w = 2 / ((1 - x**2) * L.legval(x, L.legder(c)) ** 2)
        return x, w
    if grid == "lobatto":
        c = np.zeros(n)
        c[n - 1] = 1
        d = L.legder(c)
        inner = np.sort(np.real(L.legroots(d))) if n > 2 else np.zeros(0)
        d2 = L.legder(d) if n > 2 else None
        for _ in range(3):
            if n > 2:
                inner = inner - L.legval(inner, d) / L.legval(inner, d2)
        x = np.concatenate([[-1.0], inner, [1.0]])
        w = 2 / (n * (n - 1) * L.legval(x, c) ** 2)
        return x, w
    if grid == "equiangular":
        th = np.pi - np.arange(n) * np.pi / (n - 1)
        x = np.cos(th)
        N = n - 1
        w = np.zeros(n)
        for k in range(n):
            acc = 0.0
            for j in range(0, N // 2 + 1):
                b = 1.0 if (2 * j == 0 or 2 * j == N) else 2.0
                acc += b / (1 - 4.0 * j * j) * math.cos(2 * j * k * math.pi / N)
            w[k] = acc * (1.0 if k in (0, N) else 2.0) / N
        return x, w
    if grid == "equiangular-trapezoidal":
        x = np.array([-1 + 2.0 * i / (n - 1) for i in range(n)])
        w = np.full(n, 2.0 / (n - 1))
        w[0] *= 0.5
        w[-1] *= 0.5
        return x, w
    raise ValueError(grid)


def lats(grid, n):
    x, w = rule(grid, n)
    return np.arccos(np.clip(x, -1, 1))[::-1].copy(), w[::-1].copy()


def lons(n):
    return 2 * np.pi * np.arange(n) / n
