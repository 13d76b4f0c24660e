from .base import *

M = "torch_harmonics.fft"


def dft_fwd(x, norm):
    n = x.shape[-1]
    k = np.arange(n // 2 + 1)
    F = np.exp(-2j * np.pi * np.outer(np.arange(n), k) / n)
    y = x @ F
    return y / {"forward": n, "ortho": np.sqrt(n), "backward": 1.0, None: 1.0}[norm]


def dft_inv(X, n, norm):
    """real signal of length n from half-spectrum X (any number of modes)."""
    K = n // 2 + 1
    Y = np.zeros(X.shape[:-1] + (K,), dtype=np.complex128)
    c = min(K, X.shape[-1])
    Y[..., :c] = X[..., :c]
    Y[..., 0] = Y[..., 0].real
    if n % 2 == 0:
        Y[..., n // 2] = Y[..., n // 2].real
    w = np.full(K, 2.0)
    w[0] = 1.0
    if n % 2 == 0:
        w[-1] = 1.0
    ph = 2 * np.pi * np.outer(np.arange(K), np.arange(n)) / n
    y = (Y.real * w) @ np.cos(ph) - (Y.imag * w) @ np.sin(ph)
    return y / {"forward": 1.0, "ortho": np.sqrt(n), "backward": n, None: n}[norm]


def fwd(shape, dim, nm, norm, dt, contig):
    f = need(M, "rfft")
    x = torch.randn(*shape, dtype=dt)
    if not contig:
        x = x.transpose(0, -1).contiguous().transpose(0, -1)
    kw = {} if norm is None else dict(norm=norm)
    keep = x.clone()
    with must(f"rfft(shape={shape}, nmodes={nm}, dim={dim}, norm={norm})"):
        y = f(x, nmodes=nm, dim=dim, **kw)
    want = dft_fwd(np.moveaxis(npa(x).astype(np.float64), dim, -1), norm)
    K = nm if nm is not None else want.shape[-1]
    W = np.zeros(want.shape[:-1] + (K,), dtype=np.complex128)
    c = min(K, want.shape[-1])
    W[..., :c] = want[..., :c]
    tol = 1e-4 if dt == torch.float32 else 1e-10
    close(np.moveaxis(npa(y), dim, -1), W, f"rfft(shape={shape}, nmodes={nm}, dim={dim}, norm={norm}, {dt})", atol=tol * max(1.0, float(np.abs(W).max()) if W.size else 1), rtol=0)
    same(x, keep, "rfft input unchanged")


def inv(shape, dim, n, norm, dt, contig):
    f = need(M, "irfft")
    x = torch.randn(*shape, dtype=dt)
    if not contig:
        x = x.transpose(0, -1).contiguous().transpose(0, -1)
    kw = {} if norm is None else dict(norm=norm)
    keep = x.clone()
    with must(f"irfft(shape={shape}, n={n}, dim={dim}, norm={norm})"):
        y = f(x, n=n, dim=dim, **kw)
    X = np.moveaxis(npa(x).astype(np.complex128), dim, -1)
    nn = n if n is not None else 2 * (X.shape[-1] - 1)
    W = dft_inv(X, nn, norm)
    tol = 1e-4 if dt == torch.complex64 else 1e-10
    check(not y.is_complex(), "irfft returns a real signal")
    close(np.moveaxis(npa(y), dim, -1), W, f"irfft(shape={shape}, n={n}, dim={dim}, norm={norm}, {dt})", atol=tol * max(1.0, float(np.abs(W).max())), rtol=0)
    same(x, keep, "irfft input unchanged")


def grads(shape, n, nm):
    rf, irf = need(M, "rfft", "irfft")
    x = torch.randn(*shape, n, dtype=torch.float64, requires_grad=True)
    with must("autograd through rfft/irfft"):
        y = irf(rf(x, nmodes=nm, dim=-1, norm="forward"), n=n, dim=-1, norm="forward")
        g = torch.randn_like(y)
        (gx,) = torch.autograd.grad(y, x, g)
    # projection onto the retained modes is self-adjoint
    want = dft_inv(dft_fwd(npa(g), "forward")[..., : nm], n, "forward")
    close_rel(gx, want, f"gradient of mode projection n={n} nmodes={nm}", 1e-9)


def pad(shape, dim, target, dt, value):
    f = need(M, "_pad_dim_right")
    x = torch.randn(*shape, dtype=dt)
    with must("_pad_dim_right"):
        y = f(x, dim, target, value)
    w = [(0, 0)] * len(shape)
    w[dim] = (0, target - shape[dim])
    same(y, np.pad(npa(x), w, constant_values=value), f"_pad_dim_right(shape={shape},dim={dim},target={target},value={value})")


def reject():
    f = need(M, "rfft")
    raises("rfft(n=..)", ValueError, lambda: f(torch.zeros(4), n=4))


def run(R):
    for h in R.hints:
        N, Mm = h.get("N"), h.get("M")
        if isinstance(N, int) and 1 <= N <= 4000:
            for nm in {None, Mm if isinstance(Mm, int) and Mm >= 1 else 3}:
                R.case(f"replay_f[{N},{nm}]", fwd, (2, N), -1, nm, "forward", torch.float64, True)
            R.case(f"replay_i[{N},{Mm}]", inv, (2, Mm if isinstance(Mm, int) and Mm >= 1 else N // 2 + 1), -1, N, "forward", torch.complex128, True)
    T = 40 if R.thorough else 21
    for n in range(1, T):
        for nm in [None] + list(range(1, n + 4)):
            for norm in ("forward", None, "ortho"):
                R.case(f"rfft[{n},{nm},{norm}]", fwd, (2, n), -1, nm, norm, torch.float64, True)
    for n in list(range(1, T)) + [None]:
        for k in range(1, (n or 8) + 3):
            if n is None and k == 1:
                continue
            for norm in ("forward", None, "ortho"):
                R.case(f"irfft[{n},{k},{norm}]", inv, (2, k), -1, n, norm, torch.complex128, True)
    for shape, dim in [((5, 3, 4), 0), ((3, 7, 4), 1), ((3, 7, 4), -2), ((2, 3, 4, 9), -1), ((2, 3, 4, 9), 3), ((8,), 0), ((8,), -1), ((6, 5, 3), -3)]:
        for nm in (None, 2, 3, 5, 9):
            for c in (True, False):
                for dt in (torch.float32, torch.float64):
                    R.case(f"rfft_dim[{shape},{dim},{nm}]", fwd, shape, dim, nm, "forward", dt, c)
        for n in (None, 4, 5, 8, 9, 16):
            for c in (True, False):
                for dt in (torch.complex64, torch.complex128):
                    R.case(f"irfft_dim[{shape},{dim},{n}]", inv, shape, dim, n, "forward", dt, c)
    for n in (1, 2, 5, 6, 8, 9):
        for nm in range(1, n // 2 + 2):
            R.case(f"grad[{n},{nm}]", grads, (2, 3), n, nm)
    for shape, dim in [((3,), 0), ((3, 4), 0), ((3, 4), 1), ((3, 4), -2), ((2, 3, 4), 1), ((2, 3, 4), -1), ((2, 3, 4, 5), 2)]:
        for extra in (0, 1, 5):
            for v in (0.0, 1.5):
                R.case(f"pad[{shape},{dim},{extra}]", pad, shape, dim, shape[dim] + extra, torch.float64, v)
    R.case("reject_n", reject)
