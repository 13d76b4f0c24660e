EXTS = ["disco_helpers", "torch_harmonics.disco._C"]
from .base import *


def entries(ker, row, col, val):
    return sorted(zip(ker.tolist(), row.tolist(), col.tolist(), val.tolist()))


def one(K, Ho, Hi, Wi, pat, dt, pad):
    """pat: list of (filter, row, col) in row order"""
    P = need("disco_helpers", "preprocess_psi")
    D = need("disco_helpers", "pack_psi_dense")
    n = len(pat)
    ker, row, col = (torch.tensor([p[i] for p in pat], dtype=torch.int64) for i in range(3))
    val = torch.randn(n, dtype=dt)
    what = f"preprocess_psi(K={K}, Ho={Ho}) on {n} entries {pat[:12]}{'...' if n > 12 else ''} {dt}"
    before = entries(ker, row, col, val)
    with must(what):
        roff = P(K, Ho, ker, row, col, val)
    check(entries(ker, row, col, val) == before, f"{what}: the entries changed")
    k, r = ker.tolist(), row.tolist()
    kr = list(zip(k, r))
    check(kr == sorted(kr), f"{what}: entries not sorted by filter and row: {kr}")
    ro = roff.tolist()
    check(roff.dtype == torch.int64 and len(ro) >= 1 and ro[0] == 0 and ro[-1] == n and all(a < b for a, b in zip(ro, ro[1:])) or (n == 0 and set(ro) <= {0}), f"{what}: offsets {ro} do not partition the {n} entries into non-empty segments")
    seen = []
    for a, b in zip(ro, ro[1:]):
        if a == b:
            continue
        seg = set(kr[a:b])
        check(len(seg) == 1, f"{what}: segment {a}:{b} holds entries of {sorted(seg)}")
        seen.append(kr[a])
    check(len(set(seen)) == len(seen), f"{what}: a (filter, row) pair appears in two segments: {seen}")
    check(set(seen) == set(kr), f"{what}: pairs {sorted(set(kr) - set(seen))} are in no segment")
    if n == 0:
        check(len(ro) == 1, f"{what}: a tensor without entries has {len(ro) - 1} segment(s) {ro}")
    mx = max([b - a for a, b in zip(ro, ro[1:])] + [0])
    for p in (0, mx, mx + pad):
        w2 = what + f" pack_psi_dense(nbr_pad={p})"
        with must(w2):
            idx, v, cnt = D(K, Ho, Wi, p, ker, row, col, val, roff)
        N = p if p > 0 else mx
        check(tuple(idx.shape) == (K, Ho, N, 2) and tuple(v.shape) == (K, Ho, N) and tuple(cnt.shape) == (K, Ho) and v.dtype == dt, f"{w2}: shapes {idx.shape} {v.shape} {cnt.shape}")
        got = []
        for a in range(K):
            for h in range(Ho):
                c = int(cnt[a, h])
                check(0 <= c <= N, f"{w2}: count {c}")
                got += [(a, h, int(idx[a, h, q, 0]) * Wi + int(idx[a, h, q, 1]), float(v[a, h, q])) for q in range(c)]
                check(all(0 <= int(idx[a, h, q, 1]) < Wi for q in range(c)), f"{w2}: longitude index out of range")
                check(not idx[a, h, c:].any() and not v[a, h, c:].any(), f"{w2}: padding of ({a},{h}) not zero")
        check(sorted(got) == before, f"{w2}: dense packing holds other entries than the tensor")
    if mx > 1:
        raises(what + ": too small padding", RuntimeError, lambda: D(K, Ho, Wi, mx - 1, ker, row, col, val, roff))


def pattern(rng, K, Ho, Hi, Wi, kind):
    out = []
    for h in range(Ho):
        ks = list(range(K))
        if kind == "shuffled":
            rng.shuffle(ks)
        for k in ks:
            if kind == "full":
                c = rng.sample(range(Hi * Wi), min(2, Hi * Wi))
            elif kind == "sparse":
                c = rng.sample(range(Hi * Wi), rng.randrange(0, min(3, Hi * Wi) + 1)) if rng.random() < 0.5 else []
            elif kind == "touch":  # filter k ends in the row in which filter k+1 begins
                c = [rng.randrange(Hi * Wi)] if h == min(k, Ho - 1) or h == min(k + 1, Ho - 1) else []
            elif kind == "onefilter":
                c = [rng.randrange(Hi * Wi)] if k == K // 2 else []
            elif kind == "empty":
                c = []
            else:
                c = rng.sample(range(Hi * Wi), rng.randrange(0, min(5, Hi * Wi) + 1))
            out += [(k, h, q) for q in sorted(c)]
    return out


def interleave(rng, p):
    """same row order, filters of a row interleaved arbitrarily"""
    rows = {}
    for e in p:
        rows.setdefault(e[1], []).append(e)
    out = []
    for h in sorted(rows):
        rng.shuffle(rows[h])
        out += rows[h]
    return out


def layer(nlat, nlon, no, mo, shape, b, cut, tr):
    """the buffers a layer hands to its kernels are the preprocessed tensor"""
    n = "DiscreteContinuousConvTransposeS2" if tr else "DiscreteContinuousConvS2"
    C = need("torch_harmonics", n)
    F = need("torch_harmonics.disco.convolution", "_precompute_convolution_tensor_s2")
    what = f"{n}(in={(nlat, nlon)}, out={(no, mo)}, {b} {shape}, cutoff={cut})"
    with must(what):
        m = C(2, 2, (nlat, nlon), (no, mo), shape, basis_type=b, theta_cutoff=cut, bias=False)
    for q in ("psi_roff_idx", "psi_ker_idx", "psi_row_idx", "psi_col_idx", "psi_vals"):
        if not hasattr(m, q):
            raise Skip(f"{n}.{q} not present")
    i, o = ((no, mo), (nlat, nlon)) if tr else ((nlat, nlon), (no, mo))
    idx, vals, _ = F(i, o, m.filter_basis, theta_cutoff=cut, transpose_normalization=tr, basis_norm_mode="nodal", merge_quadrature=True)
    check(entries(m.psi_ker_idx, m.psi_row_idx, m.psi_col_idx, m.psi_vals) == entries(idx[0], idx[1], idx[2], vals), f"{what}: the layer's entries are not the filter tensor's")
    kr = list(zip(m.psi_ker_idx.tolist(), m.psi_row_idx.tolist()))
    ro = m.psi_roff_idx.tolist()
    seen = []
    for a, b_ in zip(ro, ro[1:]):
        if b_ > a:
            check(len(set(kr[a:b_])) == 1, f"{what}: segment {a}:{b_} holds {sorted(set(kr[a:b_]))}")
            seen.append(kr[a])
    check(sorted(seen) == sorted(set(kr)), f"{what}: segments {len(seen)}, pairs {len(set(kr))}")


def run(R):
    rng = R.rng
    cs = []
    for K in (1, 2, 3, 5, 16):
        for Ho in (1, 2, 3, 6):
            for Hi, Wi in ((1, 1), (2, 3), (4, 5)):
                for kind in ("full", "sparse", "touch", "onefilter", "empty", "random", "shuffled"):
                    for rep in range(4 if R.thorough else 2):
                        p = pattern(rng, K, Ho, Hi, Wi, kind)
                        if rep % 2:
                            p = interleave(rng, p)
                        dt = torch.float64 if rep % 2 else torch.float32
                        if kind == "empty" and rep:
                            continue
                        cs.append((f"preprocess[{K},{Ho},{Hi},{Wi},{kind},{rep}]", one, K, Ho, Hi, Wi, p, dt, 3))
    # a larger one, several hundred entries per row
    cs.append(("preprocess[large]", one, 9, 20, 20, 40, pattern(rng, 9, 20, 20, 40, "random") + [], torch.float32, 5))
    for a in ((6, 12, 6, 12, (3, 4), "piecewise linear", 0.9, False), (6, 12, 3, 6, (3, 3), "piecewise linear", 0.7, False), (3, 6, 6, 12, (3, 4), "piecewise linear", 0.9, True), (4, 8, 8, 8, (2, 2), "harmonic", 0.25, True), (4, 8, 3, 8, (2, 2), "harmonic", 0.2, False)):
        cs.append((f"layer[{a}]", layer, *a))
    R.batch(cs)
