from .base import *
from . import fakedist as D


def sizes(n, p):
    return [n // p + (1 if k < n % p else 0) for k in range(p)]


def parts(g, dim, p):
    """slices of a global array along a dimension, the first n mod p one longer"""
    s = np.cumsum([0] + sizes(g.shape[dim], p))
    return [np.take(g, range(s[k], s[k + 1]), axis=dim) for k in range(p)]


def field(rng, shape, dt):
    # small integers: sums are exact in every type
    a = rng.integers(-8, 9, shape).astype(np.float64)
    if dt.is_complex:
        return a + 1j * rng.integers(-8, 9, shape)
    return a


def fn(name):
    return need("torch_harmonics.distributed", name)


def tt(a, dt, grad=True):
    t = torch.from_numpy(np.ascontiguousarray(a)).to(dt)
    return t.requires_grad_(grad)


def go(kind, p, f, ins, gouts, dt, group=True, lay=None):
    """run f on p ranks; ins[k]/gouts[k]: rank's input / output gradient; returns outputs and input gradients"""
    a = (p, 1) if kind == "polar" else (1, p)

    def rank(i, j):
        k = i if kind == "polar" else j
        x = tt(ins[k], dt)
        xi = x
        if lay == "t":  # same values, permuted strides
            xi = x.transpose(0, -1).contiguous().transpose(0, -1)
        x0 = x.detach().clone()
        y = f(xi)
        r = [y.detach().clone()]
        if not torch.equal(x.detach(), x0):
            raise Violation("the input tensor was modified")
        g = tt(gouts[k], dt, False)
        if lay == "t":
            g = g.transpose(0, -1).contiguous().transpose(0, -1)
        if y.shape == g.shape:
            (gi,) = torch.autograd.grad(y, x, g)
            r.append(gi)
        return r

    if group:
        out = D.run(*a, rank)
    else:
        out = D.run(*a, rank, polar=False, azimuth=False)
    return [out[k][0] if kind == "polar" else out[0][k] for k in range(p)]


def compare(res, outs, grads, what, dt):
    for k, r in enumerate(res):
        check(r[0].dtype == dt, f"{what}: rank {k} returns {r[0].dtype}")
        same(npa(r[0]), outs[k].astype(npa(r[0]).dtype), f"{what}: rank {k}")
        check(len(r) == 2, f"{what}: rank {k}: no gradient")
        check(r[1].dtype == dt, f"{what}: rank {k} gradient type {r[1].dtype}")
        same(npa(r[1]), grads[k].astype(npa(r[1]).dtype), f"{what}: gradient on rank {k}")


def transpose(kind, p, shape, d0, d1, dt, lay):
    F = fn("distributed_transpose_" + kind)
    rng = np.random.default_rng(abs(hash((kind, p, shape, d0, d1))) % 2**31)
    g, w = field(rng, shape, dt), field(rng, shape, dt)
    what = f"distributed_transpose_{kind}({shape}, dims=({d0},{d1})) on {p} ranks {dt}"
    sz = sizes(shape[d1], p)
    with must(what):
        res = go(kind, p, lambda x: F(x, (d0, d1), sz), parts(g, d1, p), parts(w, d0, p), dt, lay=lay)
    compare(res, parts(g, d0, p), parts(w, d1, p), what, dt)
    # there and back
    sz0 = sizes(shape[d0], p)
    with must(what + " and back"):
        res = go(kind, p, lambda x: F(F(x, (d0, d1), sz), (d1, d0), sz0), parts(g, d1, p), parts(w, d1, p), dt, lay=lay)
    compare(res, parts(g, d1, p), parts(w, d1, p), what + " and back", dt)


def region(name, kind, p, shape, dim, dt, lay):
    F = fn(name)
    rng = np.random.default_rng(abs(hash((name, p, shape, dim))) % 2**31)
    what = f"{name}({shape}, dim={dim}) on {p} ranks {dt}"
    loc = [field(rng, shape, dt) for _ in range(p)]
    glo = field(rng, shape, dt)
    wg = field(rng, shape, dt)
    wl = [field(rng, shape, dt) for _ in range(p)]
    sm = lambda l: sum(l[1:], l[0])
    rep = lambda a: [a] * p
    with must(what):
        if name.startswith("copy_to"):
            ins, gos, outs, grs, f = rep(glo), wl, rep(glo), rep(sm(wl)), F
        elif name.startswith("reduce_from_scatter"):
            ins, gos, f = loc, parts(wg, dim, p), lambda x: F(x, dim)
            outs, grs = parts(sm(loc), dim, p), rep(wg)
        elif name.startswith("reduce_from"):
            ins, gos, outs, grs, f = loc, wl, rep(sm(loc)), wl, F
        elif name.startswith("scatter"):
            ins, gos, f = rep(glo), parts(wg, dim, p), lambda x: F(x, dim)
            outs, grs = parts(glo, dim, p), rep(wg)
        elif name == "gather_from_polar_region":
            sz = sizes(shape[dim], p)
            ins, gos, outs, grs, f = parts(glo, dim, p), rep(wg), rep(glo), parts(wg, dim, p), lambda x: F(x, dim, sz)
        elif name == "gather_from_copy_to_polar_region":
            sz = sizes(shape[dim], p)
            ins, gos, outs, grs, f = parts(glo, dim, p), wl, rep(glo), parts(sm(wl), dim, p), lambda x: F(x, dim, sz)
        else:
            raise Skip(name)
        res = go(kind, p, f, ins, gos, dt, lay=lay)
    compare(res, outs, grs, what, dt)
    if name == "gather_from_polar_region":
        with must(what + " with sizes from the ranks"):
            res = go(kind, p, lambda x: F(x, dim, None), ins, gos, dt)
        compare(res, outs, grs, what + " with sizes from the ranks", dt)


def halo(p, shape, r, dt):
    F = fn("polar_halo_exchange")
    rng = np.random.default_rng(abs(hash((p, shape, r))) % 2**31)
    what = f"polar_halo_exchange({shape}, {r}) on {p} ranks {dt}"
    g = field(rng, shape, dt)
    H = shape[2]
    off = np.cumsum([0] + sizes(H, p))
    pad = np.pad(g, ((0, 0), (0, 0), (r, r), (0, 0)))
    outs = [pad[:, :, off[k] : off[k + 1] + 2 * r] for k in range(p)]
    gos = [field(rng, o.shape, dt) for o in outs]
    acc = np.zeros(pad.shape, dtype=g.dtype)
    for k in range(p):
        acc[:, :, off[k] : off[k + 1] + 2 * r] += gos[k]
    acc = acc[:, :, r : r + H]
    with must(what):
        res = go("polar", p, lambda x: F(x, r), parts(g, 2, p), gos, dt)
    compare(res, outs, parts(acc, 2, p), what, dt)


def unregistered(name, args):
    """without a process group every operation is the identity, forward and backward"""
    F = fn(name)
    x = torch.randn(3, 4, 5, 6)
    with must(name + " without a process group"):
        res = go("polar", 1, lambda t: F(t, *args), [npa(x)], [npa(torch.randn(3, 4, 5, 6))], torch.float32, group=False)
    same(res[0][0], x, f"{name} without a process group")


def neighbours(h, w):
    F = fn("get_group_neighbors")
    P, A = need("torch_harmonics.distributed", "polar_group"), need("torch_harmonics.distributed", "azimuth_group")
    with must("get_group_neighbors"):
        out = D.run(h, w, lambda i, j: (tuple(F(P())), tuple(F(A()))))
    for i in range(h):
        for j in range(w):
            pw = (((i - 1) % h) * w + j, ((i + 1) % h) * w + j)
            aw = (i * w + (j - 1) % w, i * w + (j + 1) % w)
            check(out[i][j] == (pw, aw), f"get_group_neighbors on rank ({i},{j}) of {h}x{w}: {out[i][j]}, expected {(pw, aw)}")


def ranks(h, w):
    names = ["polar_group_size", "polar_group_rank", "azimuth_group_size", "azimuth_group_rank"]
    F = [fn(n) for n in names]
    with must("group queries"):
        out = D.run(h, w, lambda i, j: tuple(f() for f in F))
    for i in range(h):
        for j in range(w):
            check(out[i][j] == (h, i, w, j), f"rank ({i},{j}) of {h}x{w}: {names} = {out[i][j]}")


def precision(name, kind, p, dt):
    """double precision and complex values keep their precision and imaginary part"""
    F = fn(name)
    rng = np.random.default_rng(p)
    mk = lambda: rng.standard_normal((2, p + 1, 3)) + (1j * rng.standard_normal((2, p + 1, 3)) if dt.is_complex else 0)
    loc = [mk() for _ in range(p)]
    what = f"{name} on {p} ranks {dt}"
    args = (1,) if "scatter" in name else ()
    with must(what):
        a = (p, 1) if kind == "polar" else (1, p)
        out = D.run(*a, lambda i, j: F(tt(loc[max(i, j)], dt, False), *args))
        fl = [out[k][0] if kind == "polar" else out[0][k] for k in range(p)]
    tot = sum(loc[1:], loc[0])
    want = parts(tot, 1, p) if args else [tot] * p
    for k in range(p):
        check(fl[k].dtype == dt, f"{what}: returns {fl[k].dtype}")
        close(fl[k], want[k], f"{what}: rank {k}", atol=1e-12 if dt in (torch.float64, torch.complex128) else 1e-5)


def run(R):
    P = [2, 3, 4] + ([5, 7] if R.thorough else [])
    f4, f8, c8 = torch.float32, torch.float64, torch.complex64
    C = []
    for h, w in ((1, 1), (2, 3), (3, 2), (4, 1)):
        C += [(f"ranks[{h},{w}]", ranks, h, w), (f"neighbours[{h},{w}]", neighbours, h, w)]
    pairs = [(1, 2), (2, 1), (-3, -1), (-1, -3), (0, 3), (-2, 0), (3, 2), (1, 3)]
    for kind in ("polar", "azimuth"):
        for p in P:
            for n, (a, b) in enumerate(pairs):
                sh = [2, 2, 2, 2]
                for q, d in enumerate((a, b)):
                    sh[d] = p + R.rng.randrange(0, p + 2) if n % 3 else p * (1 + q)
                C.append((f"transpose[{kind},{p},{tuple(sh)},{a},{b}]", transpose, kind, p, tuple(sh), a, b, (f4, f8, c8)[n % 3], "t" if n % 4 == 1 else None))
        C.append((f"transpose[{kind},1]", transpose, kind, 1, (2, 3, 4, 5), 1, 2, f4, None))
    names = ["copy_to_polar_region", "copy_to_azimuth_region", "reduce_from_polar_region", "reduce_from_azimuth_region", "scatter_to_polar_region", "gather_from_polar_region", "reduce_from_scatter_to_polar_region", "reduce_from_scatter_to_azimuth_region", "gather_from_copy_to_polar_region"]
    for name in names:
        kind = "azimuth" if "azimuth" in name else "polar"
        for p in [1] + P:
            for d in (0, 1, 2, -1, -2):
                for ex in (0, 1, p - 1):
                    sh = [2, 3, 2, 2]
                    sh[d] = p + ex
                    if d not in (1, -2) and ex not in (0, 1):
                        continue
                    C.append((f"{name}[{p},{tuple(sh)},{d}]", region, name, kind, p, tuple(sh), d, R.rng.choice((f4, f8)) if p > 1 else f4, "t" if (p + d) % 3 == 0 else None))
            if "reduce" in name:
                for dt in (f8, c8, torch.complex128):
                    C.append((f"precision[{name},{p},{dt}]", precision, name, kind, p, dt))
    for p in [1] + P:
        for r in (1, 2, 3):
            for ex in (0, 1, p - 1):
                C.append((f"halo[{p},{r},{ex}]", halo, p, (2, 1, p * (r + (ex == 1)) + ex, 3), r, f8 if r == 2 else f4))
    for name in names:
        C.append((f"unregistered[{name}]", unregistered, name, () if name.startswith("copy") or name in ("reduce_from_polar_region", "reduce_from_azimuth_region") else (1, [4]) if "gather" in name else (1,)))
    C.append(("unregistered[halo]", unregistered, "polar_halo_exchange", (1,)))
    for k in ("polar", "azimuth"):
        C.append((f"unregistered[transpose {k}]", unregistered, f"distributed_transpose_{k}", ((1, 2), [5])))
    for c in C:
        R.case(*c)
