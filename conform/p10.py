from .base import *
import pickle

GR = ["legendre-gauss", "lobatto", "equiangular", "equiangular-trapezoidal"]


def flat(x):
    """value of a result as a picklable tree"""
    if isinstance(x, torch.Tensor):
        return ("t", str(x.dtype), tuple(x.shape), npa(x).copy())
    if isinstance(x, (tuple, list)):
        return ("s", type(x).__name__, [flat(v) for v in x])
    if isinstance(x, dict):
        return ("d", [(k, flat(v)) for k, v in x.items()])
    if isinstance(x, (int, float, str, bool, type(None))):
        return ("v", type(x).__name__, x)
    if hasattr(x, "compute_support_vals"):
        r = torch.linspace(0, 1.2, 7, dtype=torch.float64).reshape(-1, 1) * torch.ones(1, 9, dtype=torch.float64)
        p = torch.linspace(0, 6.2, 9, dtype=torch.float64).reshape(1, -1) * torch.ones(7, 1, dtype=torch.float64)
        return ("b", type(x).__name__, x.kernel_size, flat(list(x.isotropic_mask)), flat(x.compute_support_vals(r, p, r_cutoff=1.0)))
    if isinstance(x, torch.nn.Module):
        return ("m", type(x).__name__, flat({k: v for k, v in x.named_buffers() if not v.is_sparse}))
    raise Skip(f"result of kind {type(x).__name__}")


def eq(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind in "fc")
    return a == b


def spoil(x):
    """what a caller may do to what it was given"""
    if isinstance(x, torch.Tensor):
        with torch.no_grad():
            if x.dtype == torch.bool:
                x.logical_not_()
            elif x.numel():
                x.mul_(-3).add_(7)
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        x.append("spoilt")
    elif isinstance(x, tuple):
        for v in x:
            spoil(v)
    elif isinstance(x, dict):
        for v in x.values():
            spoil(v)
        x["spoilt"] = 1
    elif isinstance(x, torch.nn.Module):
        for v in x.buffers():
            if not v.is_sparse:
                spoil(v)


def tens(n, k):
    return (torch.arange(1, n + 1, dtype=torch.float64) + 0.25 * k) / (n + 2.0)


def resolve(a):
    if isinstance(a, tuple) and len(a) == 3 and a[0] == "TENSOR":
        return tens(a[1], a[2])
    if isinstance(a, tuple) and len(a) == 3 and a[0] == "BASIS":
        return need("torch_harmonics.filter_basis", "get_filter_basis")(a[1], a[2])
    return a


def call(spec):
    mod, fn, a, k = spec
    f = need(mod, fn)
    a, k = [resolve(v) for v in a], {q: resolve(v) for q, v in k.items()}
    try:
        return f(*a, **k)
    except (TypeError, ValueError, RuntimeError, IndexError) as e:
        return "raises " + type(e).__name__


def forked(spec):
    """the result in a process that has computed nothing before"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                out = pickle.dumps(("ok", flat(call(spec))))
            except Skip as e:
                out = pickle.dumps(("skip", str(e)))
            except BaseException as e:
                out = pickle.dumps(("err", f"{type(e).__name__}: {e}"))
            with os.fdopen(w, "wb") as f:
                f.write(out)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        d = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(d)


def specs(R):
    Q, L, C, F = "torch_harmonics.quadrature", "torch_harmonics.legendre", "torch_harmonics.disco.convolution", "torch_harmonics.filter_basis"
    out = []
    for n in (1, 2, 4, 5, 8, True, 4.0, np.int64(4)):
        out.append((Q, "precompute_longitudes", (n,), {}))
        for g in GR:
            out.append((Q, "precompute_latitudes", (n, g), {}))
        out.append((Q, "precompute_latitudes", (n,), {}))
        out.append((Q, "precompute_latitudes", (n,), dict(grid="lobatto")))
    out.append((Q, "precompute_latitudes", (4, "no such grid"), {}))
    for f in ("trapezoidal_weights", "legendre_gauss_weights", "lobatto_weights", "clenshaw_curtiss_weights", "fejer2_weights"):
        for n in (3, 4, 7):
            for ab in ((), (-1.0, 1.0), (0.0, 1.0), (0.0, 2.0)):
                out.append((Q, f, (n,) + ab, {}))
    out.append((Q, "trapezoidal_weights", (4,), dict(periodic=True)))
    for f in ("_precompute_legpoly", "_precompute_dlegpoly"):
        for m, l, t in ((3, 4, ("TENSOR", 5, 0)), (3, 4, ("TENSOR", 5, 1)), (4, 4, ("TENSOR", 5, 0)), (3, 5, ("TENSOR", 6, 0))):
            for kw in (dict(), dict(norm="schmidt"), dict(norm="schmidt", inverse=True), dict(inverse=True), dict(csphase=False), dict(norm="four-pi"), dict(inverse=1), dict(csphase=0)):
                out.append((L, f, (m, l, t), kw))
    for m, l in ((3, 4), (4, 4)):
        out.append((L, "legpoly", (m, l, ("TENSOR", 5, 0)), {}))
        out.append((L, "legpoly", (m, l, ("TENSOR", 5, 0)), dict(norm="schmidt")))
    for b, shapes in (("piecewise linear", (3, (3,), (3, 4), (4, 3), (2, 2))), ("harmonic", (2, (2, 3), (3, 3))), ("morlet", ((2, 3), (3, 3))), ("zernike", (3, 4, (3,))), ("fourier-bessel", (2, (2, 1), (3, 2)))):
        for s in shapes:
            out.append((F, "get_filter_basis", (s, b), {}))
    sh = [((4, 8), (4, 8)), ((6, 12), (4, 6)), ((4, 8), (6, 8))]
    for i, o in sh:
        for b in (((3, 4), "piecewise linear"), ((3,), "piecewise linear"), ((2, 3), "harmonic"), ((2, 3), "morlet"), (3, "zernike")):
            for kw in (dict(), dict(theta_cutoff=0.9), dict(theta_cutoff=1), dict(theta_cutoff=1.0), dict(theta_cutoff=True), dict(theta_cutoff=0.9, transpose_normalization=True, merge_quadrature=True), dict(theta_cutoff=0.9, merge_quadrature=True), dict(theta_cutoff=0.9, basis_norm_mode="mean"), dict(theta_cutoff=0.9, basis_norm_mode="none"), dict(theta_cutoff=0.9, basis_norm_mode="modal"), dict(theta_cutoff=0.9, basis_norm_mode="support"), dict(theta_cutoff=0.9, basis_norm_mode="geometric"), dict(theta_cutoff=0.9, grid_in="lobatto", grid_out="legendre-gauss"), dict(theta_cutoff=0.9, theta_eps=0.5)):
                out.append((C, "_precompute_convolution_tensor_s2", (i, o, ("BASIS",) + b), kw))
    T = "torch_harmonics"
    for c in ("RealSHT", "InverseRealSHT", "RealVectorSHT", "InverseRealVectorSHT"):
        for kw in (dict(), dict(norm="schmidt"), dict(csphase=False), dict(grid="legendre-gauss")):
            out.append((T, c, (5, 8), kw))
    for kw in (dict(), dict(grid="legendre-gauss"), dict(normalize=True)):
        out.append(("torch_harmonics.quadrature", "QuadratureS2", ((5, 8),), kw))
    for kw in (dict(), dict(grid_in="lobatto")):
        out.append((T, "ResampleS2", (5, 8, 6, 9), kw))
    return out


def rep(s):
    return f"{s[0]}.{s[1]}(*{s[2]}, **{s[3]})"


def history(R, S, fresh, order, tag):
    for pos, q in enumerate(order):
        st, want = fresh[q]
        if st != "ok":
            continue

        def one():
            try:
                got = call(S[q])
            except Skip:
                raise
            except Exception as e:
                raise Violation(f"{rep(S[q])} after {pos} earlier calls: raised {type(e).__name__}: {e}, a fresh process returns a result")
            f = flat(got)
            if not eq(f, want):
                raise Violation(f"{rep(S[q])} after {pos} earlier calls (results of which were modified in place) differs from what a fresh process returns: {f!r:.600} instead of {want!r:.600}")
            if S[q][1] != "get_filter_basis":  # documented: one shared object
                spoil(got)

        R.case(f"history[{tag},{pos},{S[q][1]}]", one)


def tensor_arg(fname, n, k, kw):
    f = need("torch_harmonics.legendre", fname)
    t = tens(n, 0)
    a = f(3, 4, t, **kw)
    t.copy_(tens(n, k))  # the caller re-uses its buffer
    b = f(3, 4, t, **kw)
    c = f(3, 4, tens(n, k), **kw)
    same(b, c, f"{fname}(3,4,t,{kw}) after t was overwritten in place")


def decorator(typed, copy, maxsize, seed):
    D = need("torch_harmonics.cache", "lru_cache")
    rng = random.Random(seed)

    def f(x, y=0, *, z="a"):
        return dict(name=[type(x).__name__, type(y).__name__, x, y, z], t=torch.full((3,), float(x)), n=([x], (torch.ones(2) * float(x),)))

    with must(f"lru_cache(maxsize={maxsize}, typed={typed}, copy={copy})"):
        g = D(maxsize=maxsize, typed=typed, copy=copy)(f)
    hist = []
    for _ in range(60):
        x, y, z = rng.choice([0, 1, 2, 3] + ([1.0, True, False, 2.0] if typed else [])), rng.choice([0, 5] + ([5.0] if typed else [])), rng.choice("ab")
        st = rng.randrange(4)
        hist.append((st, x, y, z))
        a, k = [((x,), {}), ((x, y), {}), ((x,), dict(y=y, z=z)), ((x, y), dict(z=z))][st]
        with must(f"lru_cache(maxsize={maxsize}, typed={typed}, copy={copy}): call {a} {k}"):
            got = g(*a, **k)
        if not eq(flat(got), flat(f(*a, **k))):
            raise Violation(f"lru_cache(maxsize={maxsize}, typed={typed}, copy={copy}): call {a} {k} after history {hist[-12:]} returned {got}, the function returns {f(*a, **k)}")
        if copy:
            spoil(got)


def raising(R_):
    D = need("torch_harmonics.cache", "lru_cache")
    n = []

    def f(x):
        n.append(x)
        if len(n) < 2:
            raise KeyError("first")
        return [x]

    g = D(typed=True, copy=True)(f)
    raises("exception of the function is not swallowed", KeyError, lambda: g(1))
    with must("second call"):
        check(g(1) == [1], "second call returns the function's value")


def run(R):
    S = specs(R)
    mods = sorted({s[0] for s in S})
    for m in mods:
        try:
            importlib.import_module(m)
        except ModuleNotFoundError:
            pass
    warnings_off()
    fresh = [forked(s) for s in S]
    bad = [(rep(s), f[1]) for s, f in zip(S, fresh) if f[0] == "err"]
    R.counts["not callable as specified"] = len(bad) + sum(f[0] == "skip" for f in fresh)
    idx = list(range(len(S)))
    R.rng.shuffle(idx)
    history(R, S, fresh, idx, "first")
    twice = [i for j in idx for i in (j, j)]
    history(R, S, fresh, twice, "twice")
    for r in range(3 if R.thorough else 1):
        rnd = [R.rng.choice(idx) for _ in range(2 * len(S))]
        history(R, S, fresh, rnd, f"random{r}")
    for f in ("_precompute_legpoly", "_precompute_dlegpoly"):
        for kw in ({}, dict(norm="schmidt"), dict(csphase=False)):
            for n in (3, 6):
                for k in (1, 2):
                    R.case(f"tensor argument overwritten[{f},{n},{k},{kw}]", tensor_arg, f, n, k, kw)
    for ty in (True, False):
        for cp in (True, False):
            for ms in (1, 2, 20, None):
                for s in range(3):
                    R.case(f"decorator[{ty},{cp},{ms},{s}]", decorator, ty, cp, ms, s)
    R.case("decorator raising", raising, None)


def warnings_off():
    import warnings

    warnings.filterwarnings("ignore")
