from .base import *
from . import oracle as O

M = "torch_harmonics.legendre"


def table(mmax, lmax, x, norm, inverse, cs):
    f = need(M, "legpoly")
    what = f"legpoly(mmax={mmax}, lmax={lmax}, norm={norm}, inverse={inverse}, csphase={cs})"
    xt = torch.as_tensor(x, dtype=torch.float64)
    keep = xt.clone()
    with must(what):
        got = f(mmax, lmax, xt, norm=norm, inverse=inverse, csphase=cs)
    close(got, O.legendre_table(mmax, lmax, x, norm, inverse, cs), what, atol=2e-10 * max(1, lmax) * (20 if norm != "ortho" else 1), rtol=1e-9)
    same(xt, keep, "nodes unchanged")


def ptable(mmax, lmax, t, norm, inverse, cs):
    f = need(M, "_precompute_legpoly")
    what = f"_precompute_legpoly(mmax={mmax}, lmax={lmax}, norm={norm}, inverse={inverse}, csphase={cs})"
    with must(what):
        got = f(mmax, lmax, torch.as_tensor(t, dtype=torch.float64), norm=norm, inverse=inverse, csphase=cs)
    close(got, O.legendre_table(mmax, lmax, np.cos(t), norm, inverse, cs), what, atol=2e-10 * max(1, lmax) * 20, rtol=1e-9)


def dtable(mmax, lmax, t, norm, inverse, cs):
    f = need(M, "_precompute_dlegpoly")
    what = f"_precompute_dlegpoly(mmax={mmax}, lmax={lmax}, norm={norm}, inverse={inverse}, csphase={cs})"
    with must(what):
        got = f(mmax, lmax, torch.as_tensor(t, dtype=torch.float64), norm=norm, inverse=inverse, csphase=cs)
    close(got, O.dlegendre_table(mmax, lmax, t, norm, inverse, cs), what, atol=1e-9 * max(1, lmax) ** 2 * 20, rtol=1e-8)


def clm(l, m):
    f = need(M, "clm")
    with must("clm"):
        got = f(l, m)
    check(abs(got - O.norm_ortho(l, m)) <= 1e-10 * O.norm_ortho(l, m), f"clm({l},{m}) = {got}, contract requires {O.norm_ortho(l, m)}")


def run(R):
    xs = np.array([-1.0, -0.999999, -0.7, -0.3, 0.0, 0.2, 0.55, 0.9, 0.9999, 1.0])
    ts = np.array([0.0, 1e-3, 0.3, 0.8, np.pi / 2, 2.0, 2.9, np.pi - 1e-3, np.pi])
    sizes = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 3), (1, 5), (5, 1), (4, 3), (3, 4), (5, 5), (7, 4), (2, 9), (9, 2), (8, 8), (13, 13), (12, 17), (17, 12)]
    for h in R.hints:
        m, l = h.get("mmax"), h.get("lmax")
        if isinstance(m, int) and isinstance(l, int) and 1 <= m <= 60 and 1 <= l <= 60:
            sizes.insert(0, (m, l))
    if R.thorough:
        sizes += [(24, 24), (32, 32), (48, 48), (1, 64), (40, 20)]
    else:
        sizes += [(30, 30)]
    for mm, ll in sizes:
        for norm in ("ortho", "schmidt", "unnorm", "four-pi"):
            for inv in (False, True):
                for cs in (False, True):
                    if norm == "four-pi" and mm > 8:
                        continue
                    R.case(f"legpoly[{mm},{ll},{norm},{inv},{cs}]", table, mm, ll, xs, norm, inv, cs)
                    R.case(f"plegpoly[{mm},{ll},{norm},{inv},{cs}]", ptable, mm, ll, ts, norm, inv, cs)
                    R.case(f"dlegpoly[{mm},{ll},{norm},{inv},{cs}]", dtable, mm, ll, ts, norm, inv, cs)
    R.case("legpoly_single_node", table, 4, 6, np.array([0.37]), "ortho", False, True)
    for l in range(0, 30):
        for m in range(0, l + 1):
            R.case(f"clm[{l},{m}]", clm, l, m)
