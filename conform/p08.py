import os
os.environ["TORCHDYNAMO_DISABLE"] = "1"
from .base import *
from . import oracle as O
from .p06 import fwd_oracle, inv_oracle, GR


def oracle(x, W, bias, gi, go, out, L):
    B, C = x.shape[:2]
    G, ci, co, _ = W.shape
    c = fwd_oracle(x, L, gi, "ortho", True)
    if bias is not None:
        _, w = O.rule(gi, x.shape[-2])
        q = np.sum(x * w[:, None], axis=(-2, -1)) * 2 * np.pi / x.shape[-1]
        c = c + q[:, :, None, None] * bias
    y = np.zeros((B, G * co, L, L), complex)
    for g in range(G):
        for o in range(co):
            for i in range(ci):
                y[:, g * co + o] += c[:, g * ci + i] * W[g, i, o][:, None]
    return inv_oracle(y, out[0], out[1], go, "ortho", True)


def one(shi, sho, gi, go, G, ci, co, bias, dt, B):
    C = need("torch_harmonics", "SpectralConvS2")
    what = f"SpectralConvS2({shi},{sho},{G * ci},{G * co},num_groups={G},{gi},{go},bias={bias}) {dt} B={B}"
    L = min(O.trunc(*shi, None, None, gi)[0], O.trunc(*sho, None, None, go)[0])
    if L < 1:
        return
    with must(what):
        m = C(shi, sho, G * ci, G * co, num_groups=G, grid_in=gi, grid_out=go, bias=bias)
    check(m.lmax == L and m.mmax == L, f"{what}: cut-offs {m.lmax},{m.mmax}, contract {L}")
    check(tuple(m.weight.shape) == (G, ci, co, L), f"{what}: weight shape {tuple(m.weight.shape)}")
    with torch.no_grad():
        m.weight.copy_(torch.randn(*m.weight.shape, dtype=m.weight.dtype))
        if bias:
            m.spectral_bias.copy_(torch.randn(*m.spectral_bias.shape, dtype=m.weight.dtype))
    x = torch.randn(B, G * ci, *shi).to(dt)
    x0 = x.clone()
    with must(what):
        with torch.no_grad():
            y = m(x)
            y2 = m(x)
    same(x, x0, what + ": modified its input")
    check(y.dtype == dt, f"{what}: output type {y.dtype}")
    want = oracle(npa(x.double()), npa(m.weight), npa(m.spectral_bias)[0] if bias else None, gi, go, sho, L)
    tol = 5e-4 if dt in (torch.float32, torch.float64) else 2e-2
    close_rel(npa(y.double()), want, what, tol)
    same(npa(y.double()), npa(y2.double()), what + ": second call differs")
    if dt == torch.float32 and B == 1:
        adjoint(m, x, what, 1e-4)


def reject():
    C = need("torch_harmonics", "SpectralConvS2")
    for a, b, g in [(3, 4, 2), (4, 3, 2), (5, 5, 3), (2, 2, 4)]:
        raises(f"channels {a},{b} groups {g}", Exception, lambda: C((4, 8), (4, 8), a, b, num_groups=g))


def run(R):
    sh = [((4, 8), (4, 8)), ((5, 9), (8, 12)), ((8, 16), (4, 8)), ((9, 7), (6, 20)), ((6, 4), (12, 24))]
    gc = [(1, 1, 1), (1, 3, 2), (2, 1, 2), (2, 2, 3), (3, 2, 1), (4, 1, 1)]
    for h in R.hints:
        try:
            a, b = (h["nlat_in"], h["nlon_in"]), (h["nlat_out"], h["nlon_out"])
            if max(a + b) <= 60 and min(a + b) >= 2:
                sh.insert(0, (a, b))
        except (KeyError, TypeError):
            pass
    n = 0
    for gi in GR:
        for go in GR:
            for a, b in sh:
                for g in gc:
                    for bias in (False, True):
                        n += 1
                        if not R.thorough and n % 3 and g != (2, 2, 3):
                            continue
                        dt = torch.float64 if n % 7 == 0 else (torch.bfloat16 if n % 11 == 0 else torch.float32)
                        R.case(f"conv[{a},{b},{gi},{go},{g},{bias},{dt}]", one, a, b, gi, go, *g, bias, dt, 1 + n % 3)
    R.case("reject", reject)
