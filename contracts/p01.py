"""P01: truncate_sht == min(requested|default degrees, requested|default orders), for all sizes."""
from .common import *


def default_l(nlat, grid):
    return {"legendre-gauss": nlat, "lobatto": nlat - 1}.get(grid, None) if grid in ("legendre-gauss", "lobatto") else (nlat + 1) / 2


def mk(grid, haveL, haveM):
    def proof(ctx):
        m = Loader().load("torch_harmonics.truncation")
        ctx.functions.update(["truncation.truncate_sht", "truncation._truncate_lmax", "truncation._truncate_mmax"])
        nlat, nlon = ctx.int("nlat", lo=1), ctx.int("nlon", lo=1)
        lmax = ctx.int("lmax", lo=1) if haveL else None
        mmax = ctx.int("mmax", lo=1) if haveM else None
        if grid == "equiangular":
            r = m.truncate_sht(nlat, nlon, lmax, mmax)  # default grid
            r2 = m.truncate_sht(nlat, nlon, lmax=lmax, mmax=mmax, grid=grid)
            ctx.prove("default-grid", z3.And(Z(r[0]) == Z(r2[0]), Z(r[1]) == Z(r2[1])))
        r = m.truncate_sht(nlat, nlon, lmax, mmax, grid)
        a = lmax.e if haveL else default_l(nlat.e, grid)
        b = mmax.e if haveM else nlon.e / 2 + 1
        ctx.prove("pair", len(r) == 2)
        ctx.prove("lmax=min(degrees,orders)", Z(r[0]) == Min(a, b))
        ctx.prove("mmax=lmax", Z(r[1]) == Min(a, b))
        ctx.canary()

    return proof


def unknown(ctx):
    m = Loader().load("torch_harmonics.truncation")
    nlat, nlon = ctx.int("nlat", lo=1), ctx.int("nlon", lo=1)
    ctx.canary()
    try:
        m.truncate_sht(nlat, nlon, None, None, OtherName())
    except ValueError:
        ctx.prove("rejected", True)
        return
    ctx.prove("rejected", False)


PROOFS = [(f"truncate_sht[{g},lmax={'given' if L else 'default'},mmax={'given' if M else 'default'}]", mk(g, L, M)) for g in GRIDS for L in (0, 1) for M in (0, 1)]
PROOFS.append(("truncate_sht[unknown grid]", unknown))
