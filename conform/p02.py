from .base import *
import itertools

M = "torch_harmonics.distributed.primitives"


def split_sizes(size, num):
    f = need(M, "compute_split_shapes")
    if num > size:
        return raises(f"compute_split_shapes({size},{num})", Exception, lambda: f(size, num))
    with must(f"compute_split_shapes({size},{num})"):
        r = [int(v) for v in f(size, num)]
    q, rem = divmod(size, num)
    check(r == [q + 1] * rem + [q] * (num - rem), f"compute_split_shapes({size},{num}) = {r[:20]}, contract requires {rem} x {q+1} then {num-rem} x {q}")


def split_tensor(shape, dim, num):
    f = need(M, "split_tensor_along_dim")
    x = torch.arange(int(np.prod(shape))).reshape(shape)
    if num > shape[dim]:
        return raises(f"split_tensor_along_dim(shape={shape},dim={dim},num={num})", Exception, lambda: f(x, dim, num))
    with must(f"split_tensor_along_dim(shape={shape},dim={dim},num={num})"):
        parts = list(f(x, dim, num))
    check(len(parts) == num, f"shape={shape} dim={dim} num={num}: {len(parts)} parts")
    q, rem = divmod(shape[dim], num)
    off = 0
    for i, p in enumerate(parts):
        n = q + (1 if i < rem else 0)
        sl = [slice(None)] * len(shape)
        sl[dim] = slice(off, off + n)
        same(p, x.numpy()[tuple(sl)], f"split_tensor_along_dim(shape={shape},dim={dim},num={num}) part {i}")
        off += n


def flat(shape, mn, tr, dtype, noncontig):
    f, g = need(M, "flatten_and_pad_leading_dims", "unpad_and_unflatten_leading_dims")
    x = torch.randn(*shape, dtype=dtype)
    if noncontig:
        x = x.transpose(-1, -2).contiguous().transpose(-1, -2)
    what = f"shape={shape} min={mn} trailing={tr} {dtype}"
    with must(what):
        t, ls, n = f(x, mn, tr)
    lead = int(np.prod(shape[: len(shape) - tr])) if len(shape) > tr else 1
    check(int(n) == lead and tuple(ls) == tuple(shape[: len(shape) - tr]), f"{what}: recorded leading shape {tuple(ls)}, size {n}")
    check(t.dtype == x.dtype, f"{what}: dtype changed to {t.dtype}")
    want = np.zeros((max(lead, mn),) + tuple(shape[len(shape) - tr :]), dtype=npa(x).dtype)
    want[:lead] = npa(x).reshape((lead,) + tuple(shape[len(shape) - tr :]))
    same(t, want, f"flatten_and_pad {what}")
    with must(what):
        y = g(t, ls, n, tr)
    same(y, x, f"unpad(flatten_and_pad) {what}")
    # the trailing dims may have changed in between
    z = torch.randn(t.shape[0], *[d + 1 for d in t.shape[1:]], dtype=dtype)
    with must(what):
        y = g(z, ls, n, tr)
    same(y, npa(z)[:lead].reshape(tuple(ls) + tuple(z.shape[1:])), f"unpad of changed trailing dims {what}")


def run(R):
    for h in R.hints:
        try:
            R.case(f"replay[{h}]", split_sizes, int(h.get("size", 7)), max(1, int(h.get("num", 3))))
            n = max(1, min(int(h.get("size", 7)), 200000))
            R.case(f"replay_t[{h}]", split_tensor, (2, n), 1, max(1, int(h.get("num", 3))))
        except Exception:
            pass
    N = 120 if R.thorough else 64
    for s in range(1, N):
        for n in range(1, N):
            R.case(f"sizes[{s},{n}]", split_sizes, s, n)
    for _ in range(2000):
        n = R.rng.randint(1, 5000)
        s = n * R.rng.randint(1, 50) + R.rng.choice([0, 1, n - 1, R.rng.randint(0, n)])
        R.case(f"sizes_big[{s},{n}]", split_sizes, s, n)
    for shape in [(7,), (5, 11), (3, 9, 4), (2, 5, 13, 6), (1, 1, 17), (16, 16), (4, 6, 10, 8)]:
        for dim in list(range(len(shape))) + [-i for i in range(1, len(shape) + 1)]:
            for num in list(range(1, shape[dim] + 1)) + [shape[dim] + 1]:
                R.case(f"tensor[{shape},{dim},{num}]", split_tensor, shape, dim, num)
    for shape in [(4, 5), (1, 4, 5), (3, 4, 5), (2, 3, 4, 5), (2, 1, 3, 4, 5), (5, 2, 2, 3, 3), (7, 2, 4, 6)]:
        for tr in (2, 3):
            if len(shape) < tr:
                continue
            for mn in (0, 1, 2, 3, 4, 5, 6, 7, 8, 31, 32):
                for dt in (torch.float32, torch.float64, torch.complex64, torch.complex128):
                    R.case(f"flatten[{shape},{mn},{tr},{dt}]", flat, shape, mn, tr, dt, (mn % 2 == 0))
