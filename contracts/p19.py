"""P19: distributed primitives, for an arbitrary rank of a group of arbitrary size.

Every global tensor X is an arbitrary function of its index; rank q holds the slice at OFF(q)."""
from .common import *
from vp import symdist as sd
from vp.symdist import GSizes

Dcur = [None]
PR = "torch_harmonics.distributed.primitives"


def env(ctx, kind, on=True):
    ld = Loader(overrides={PR: {"compute_split_shapes": sd.compute_split_shapes}})
    d = sd.setup(ctx, ld, polar=on and kind == "polar", azimuth=on and kind == "azimuth")
    m = ld.load(PR)
    Function.log.clear()
    Dcur[0] = d
    return m, d, (d.polar if kind == "polar" else d.azimuth)


def split(ctx, name, g, hi=True):
    n = ctx.int(name, lo=1)
    ctx.assume(n.e >= g.P.e)
    return n, GSizes.get(n, g.P)


def local(name, shape, dim, sz, rank, dt=float64):
    """rank's slice along dim of the arbitrary global tensor `name`"""
    X = SymTensor.input(name, shape, dt)
    sh = list(shape)
    sh[dim] = wrap(sz.S(rank))

    def fn(*i):
        i = list(i)
        i[dim] = sz.OFF(rank) + i[dim]
        return X.at(*i)

    return X, SymTensor(sh, fn, dt)


def grad(ctx, y, go):
    """apply the backward of the recorded autograd functions (innermost result first)"""
    for cls, c, a, out in reversed(Function.log):
        Dcur[0].ready()  # a new call: every rank enters it
        r = cls.backward(c, go)
        go = r[0] if isinstance(r, tuple) else r
    return go


def prove_slice(ctx, what, t, X, shape, dim, sz, rank, dt):
    sh = list(shape)
    if sz is not None:
        sh[dim] = sz.S(rank)
    ctx.prove(f"{what}: type", t.dtype is dt)
    if not prove_shape(ctx, what, t, sh):
        return
    i = [ctx.idx("i", s) for s in sh]
    src = list(i)
    if sz is not None:
        src[dim] = sz.OFF(rank) + i[dim]
    ctx.prove_eq(f"{what}: element", t.at(*i), X.at(*src))


def unchanged(ctx, x, f0):
    ctx.prove("the argument is not modified", x._fn is f0)


def mk_transpose(kind, nd, d0, d1, dt):
    def proof(ctx):
        m, d, g = env(ctx, kind)
        F = getattr(m, f"distributed_transpose_{kind}")
        ctx.functions.update([f"distributed.primitives.distributed_transpose_{kind}", "distributed.primitives._transpose", "distributed.primitives.split_tensor_along_dim"])
        shape = [ctx.int(f"n{i}", lo=1) for i in range(nd)]
        shape[d0], s0 = split(ctx, "N0", g)
        shape[d1], s1 = split(ctx, "N1", g)
        d.ready()
        r = g.r.e
        X, x = local("X", shape, d1, s1, r, dt)
        f0 = x._fn
        y = F(x, (d0, d1), s1)
        unchanged(ctx, x, f0)
        prove_slice(ctx, "redistributed", y, X, shape, d0 % nd, s0, r, dt)
        W, w = local("W", shape, d0, s0, r, dt)
        gi = grad(ctx, y, w)
        prove_slice(ctx, "gradient", gi, W, shape, d1 % nd, s1, r, dt)
        # redistributing back restores the original
        Function.log.clear()
        z = F(y, (d1, d0), s0)
        prove_slice(ctx, "there and back", z, X, shape, d1 % nd, s1, r, dt)
        ctx.canary()

    return proof


def total(ctx, g, f):
    if ctx.entails(g.P.e == 1):
        return f(g.r.e)
    return nested_sum([g.P], lambda ks: f(ks[0]))


def partial(name, shape, rank, dt=float64):
    """an arbitrary tensor on every rank"""
    X = SymTensor.input(name, [1] + list(shape), dt)
    return X, SymTensor(shape, lambda *i: X.at(rank, *i), dt)


def prove_val(ctx, what, t, shape, f, dt):
    ctx.prove(f"{what}: type", t.dtype is dt)
    if not prove_shape(ctx, what, t, shape):
        return
    i = [ctx.idx("i", s) for s in shape]
    ctx.prove_eq(f"{what}: element", t.at(*i), f(*i))


def mk_copy_reduce(kind, nd, dt):
    def proof(ctx):
        m, d, g = env(ctx, kind)
        ctx.functions.update([f"distributed.primitives.copy_to_{kind}_region", f"distributed.primitives.reduce_from_{kind}_region", "distributed.primitives._reduce"])
        shape = [ctx.int(f"n{i}", lo=1) for i in range(nd)]
        d.ready()
        r = g.r.e
        X, x = partial("X", shape, r, dt)
        W, w = partial("W", shape, r, dt)
        f0, w0 = x._fn, w._fn
        y = getattr(m, f"copy_to_{kind}_region")(x)
        prove_val(ctx, "copy is the identity", y, shape, lambda *i: X.at(r, *i), dt)
        gi = grad(ctx, y, w)
        prove_val(ctx, "gradient of copy is the sum over ranks", gi, shape, lambda *i: total(ctx, g, lambda q: W.at(q, *i)), dt)
        Function.log.clear()
        y = getattr(m, f"reduce_from_{kind}_region")(x)
        prove_val(ctx, "reduce is the sum over ranks", y, shape, lambda *i: total(ctx, g, lambda q: X.at(q, *i)), dt)
        gi = grad(ctx, y, w)
        prove_val(ctx, "gradient of reduce is the identity", gi, shape, lambda *i: W.at(r, *i), dt)
        unchanged(ctx, x, f0)
        unchanged(ctx, w, w0)
        ctx.canary()

    return proof


def mk_scatter_gather(nd, dim, dt):
    def proof(ctx):
        m, d, g = env(ctx, "polar")
        ctx.functions.update(["distributed.primitives.scatter_to_polar_region", "distributed.primitives.gather_from_polar_region", "distributed.primitives._split", "distributed.primitives._gather"])
        shape = [ctx.int(f"n{i}", lo=1) for i in range(nd)]
        shape[dim], sz = split(ctx, "N", g)
        d.ready()
        r = g.r.e
        X, x = local("X", shape, dim, sz, r, dt)
        Xf = SymTensor(shape, lambda *i: X.at(*i), dt)
        f0 = x._fn
        y = m.scatter_to_polar_region(Xf, dim)
        prove_slice(ctx, "scatter keeps this rank's slice", y, X, shape, dim, sz, r, dt)
        W, w = local("W", shape, dim, sz, r, dt)
        gi = grad(ctx, y, w)
        prove_slice(ctx, "gradient of scatter", gi, W, shape, dim, None, r, dt)
        Function.log.clear()
        y = m.gather_from_polar_region(x, dim, sz)
        prove_slice(ctx, "gather assembles the global tensor", y, X, shape, dim, None, r, dt)
        gi = grad(ctx, y, SymTensor(shape, lambda *i: W.at(*i), dt))
        prove_slice(ctx, "gradient of gather", gi, W, shape, dim, sz, r, dt)
        unchanged(ctx, x, f0)
        ctx.canary()

    return proof


def mk_reduce_scatter(kind, nd, dim, dt):
    def proof(ctx):
        m, d, g = env(ctx, kind)
        ctx.functions.update([f"distributed.primitives.reduce_from_scatter_to_{kind}_region", "distributed.primitives._reduce_scatter", "distributed.primitives._gather"])
        shape = [ctx.int(f"n{i}", lo=1) for i in range(nd)]
        shape[dim], sz = split(ctx, "N", g)
        d.ready()
        r = g.r.e
        X, x = partial("X", shape, r, dt)
        f0 = x._fn

        def mine(T):
            def f(*i):
                i = list(i)
                i[dim] = sz.OFF(r) + i[dim]
                return total(ctx, g, lambda q: T.at(q, *i))

            return f

        lsh = list(shape)
        lsh[dim] = sz.S(r)
        y = getattr(m, f"reduce_from_scatter_to_{kind}_region")(x, dim)
        prove_val(ctx, "reduce-scatter is this rank's slice of the sum", y, lsh, mine(X), dt)
        W, w = local("W", shape, dim, sz, r, dt)
        gi = grad(ctx, y, w)
        prove_slice(ctx, "gradient of reduce-scatter", gi, W, shape, dim, None, r, dt)
        unchanged(ctx, x, f0)
        if kind == "polar":
            Function.log.clear()
            d.ready()
            ctx.functions.add("distributed.primitives.gather_from_copy_to_polar_region")
            V, v = local("V", shape, dim, sz, r, dt)
            y = m.gather_from_copy_to_polar_region(v, dim, sz)
            prove_slice(ctx, "gather assembles the global tensor", y, V, shape, dim, None, r, dt)
            gi = grad(ctx, y, x)
            prove_val(ctx, "gradient of gather-from-copy", gi, lsh, mine(X), dt)
        ctx.canary()

    return proof


def neighbours(ctx):
    m, d, g = env(ctx, "polar")
    ctx.functions.add("distributed.primitives.get_group_neighbors")
    a, b = m.get_group_neighbors(g)
    P, r = g.P.e, g.r.e
    ctx.prove("previous rank", Z(a) == g.ranks(z3.If(r == 0, P - 1, r - 1)))
    ctx.prove("next rank", Z(b) == g.ranks(z3.If(r == P - 1, 0, r + 1)))
    ctx.canary()


def protocol(ctx, g, to_prev, to_next, shape):
    """rely/guarantee: rank s sends to_prev(s) to s-1 (s > 0) and to_next(s) to s+1 (s < P-1)"""
    P, r = g.P.e, g.r.e

    def run(d, ops):
        ctx.functions.add("distributed.primitives.polar_halo_exchange")
        seen = {}
        for o in ops:
            ctx.prove("message uses the polar group", o.group is g)
            peer = z3.simplify(to_int(o.peer))
            k = peer.arg(0) if z3.is_app(peer) and peer.decl().name() == g.ranks.name() else None
            if k is None:
                raise Unsupported("peer is not a rank of the group")
            if ctx.entails(z3.And(k == r - 1, r > 0)):
                side = "prev"
            elif ctx.entails(z3.And(k == r + 1, r < P - 1)):
                side = "next"
            else:
                ctx.prove("messages go to existing neighbours only", z3.Or(z3.And(k == r - 1, r > 0), z3.And(k == r + 1, r < P - 1)))
                raise Unsupported("message to a rank outside the protocol")
            key = (o.op, side)
            ctx.prove("one message per direction and neighbour", key not in seen)
            seen[key] = o
            want = to_prev if side == "prev" else to_next
            if o.op == "isend":
                if prove_shape(ctx, f"message to {side}", o.tensor, shape):
                    i = [ctx.idx("i", s) for s in shape]
                    ctx.prove_eq(f"message to {side} follows the protocol", o.tensor.at(*i), want(r, *i))
            else:
                prove_shape(ctx, f"buffer for {side}", o.tensor, shape)
        ctx.prove("exchanges with the previous rank exactly when there is one", z3.And(z3.BoolVal(("isend", "prev") in seen) == (r > 0), z3.BoolVal(("irecv", "prev") in seen) == (r > 0)))
        ctx.prove("exchanges with the next rank exactly when there is one", z3.And(z3.BoolVal(("isend", "next") in seen) == (r < P - 1), z3.BoolVal(("irecv", "next") in seen) == (r < P - 1)))
        for (op, side), o in seen.items():
            if op == "irecv":
                if side == "prev":
                    o.tensor._write(lambda *i: z3.BoolVal(True), lambda *i: to_next(r - 1, *i))
                else:
                    o.tensor._write(lambda *i: z3.BoolVal(True), lambda *i: to_prev(r + 1, *i))
        return [sd.Req() for _ in ops]

    return run


def mk_halo(dt, uneven):
    def proof(ctx):
        m, d, g = env(ctx, "polar")
        ctx.functions.update(["distributed.primitives.polar_halo_exchange", "distributed.primitives.get_group_neighbors"])
        B, C, W = (ctx.int(n, lo=1) for n in ("B", "C", "W"))
        R = ctx.int("R", lo=1)
        N, sz = split(ctx, "N", g)
        P, r = g.P.e, g.r.e
        ctx.assume(R.e <= sz.S(P - 1))  # the halo is at most the rows of any rank
        d.ready()
        shape = [B, C, N, W]
        X, x = local("X", shape, 2, sz, r, dt)
        f0 = x._fn
        row = lambda T, q, i: T.at(i[0], i[1], sz.OFF(q) + i[2], i[3])
        msh = [B, C, R, W]
        d.p2p = protocol(ctx, g, lambda s, *i: X.at(i[0], i[1], sz.OFF(s) + i[2], i[3]), lambda s, *i: X.at(i[0], i[1], sz.OFF(s) + sz.S(s) - R.e + i[2], i[3]), msh)
        one = ctx.entails(P == 1)
        y = m.polar_halo_exchange(x, R)
        unchanged(ctx, x, f0)
        H = sz.S(r)
        if not prove_shape(ctx, "halo-padded", y, [B, C, H + 2 * R.e, W]):
            return
        b, c, w = ctx.idx("b", B), ctx.idx("c", C), ctx.idx("w", W)
        j = ctx.idx("j", H + 2 * R.e)
        zero = CVal(z3.RealVal(0), z3.RealVal(0)) if dt.kind == "c" else z3.RealVal(0)
        gl = sz.OFF(r) - R.e + j  # global row
        want = v_ite(z3.And(gl >= 0, gl < N.e), X.at(b, c, gl, w), zero)
        ctx.prove_eq("row j of the padded slice is global row OFF(r) - R + j, zero beyond the poles", y.at(b, c, j, w), want)
        # backward: rank q's output gradient is an arbitrary V(q, ...)
        V = SymTensor.input("V", [1, 1, 1, 1, 1], dt)
        go = SymTensor([B, C, wrap(H + 2 * R.e), W], lambda *i: V.at(r, *i), dt)
        go0 = go._fn
        d.p2p = protocol(ctx, g, lambda s, *i: V.at(s, i[0], i[1], i[2], i[3]), lambda s, *i: V.at(s, i[0], i[1], R.e + sz.S(s) + i[2], i[3]), msh)
        gi = grad(ctx, y, go)
        ctx.prove("the output gradient is not modified", go._fn is go0)
        if prove_shape(ctx, "gradient", gi, [B, C, H, W]):
            i = ctx.idx("i", H)
            own = V.at(r, b, c, R.e + i, w)
            up = v_ite(z3.And(r > 0, i < R.e), V.at(r - 1, b, c, R.e + sz.S(r - 1) + i, w), zero)
            dn = v_ite(z3.And(r < P - 1, i >= H - R.e), V.at(r + 1, b, c, i - (H - R.e), w), zero)
            ctx.prove_eq("gradient adds what the neighbours' halos hold of row i", gi.at(b, c, i, w), v_add(v_add(own, up), dn))
        ctx.canary()

    return proof


def mk_unregistered(kind):
    def proof(ctx):
        m, d, _ = env(ctx, kind, on=False)
        shape = [ctx.int(f"n{i}", lo=1) for i in range(4)]
        x, w = SymTensor.input("X", shape), SymTensor.input("W", shape)
        calls = [("distributed_transpose_" + kind, ((1, 2), [shape[2]])), (f"copy_to_{kind}_region", ()), (f"reduce_from_{kind}_region", ()), (f"reduce_from_scatter_to_{kind}_region", (1,))]
        if kind == "polar":
            calls += [("scatter_to_polar_region", (1,)), ("gather_from_polar_region", (1, [shape[1]])), ("gather_from_copy_to_polar_region", (1, [shape[1]])), ("polar_halo_exchange", (1,))]
        for n, a in calls:
            ctx.functions.add("distributed.primitives." + n)
            Function.log.clear()
            y = getattr(m, n)(x, *a)
            prove_val(ctx, f"{n} without a process group is the identity", y, shape, lambda *i: x.at(*i), x.dtype)
            gi = grad(ctx, y, w)
            prove_val(ctx, f"gradient of {n} without a process group is the identity", gi, shape, lambda *i: w.at(*i), x.dtype)
        ctx.canary()

    return proof


PROOFS = []
for kind in ("polar", "azimuth"):
    for nd, d0, d1 in ((4, 1, 3), (4, 3, 1), (3, 0, 1), (3, 0, 2), (3, 2, 0), (2, 1, 0), (4, 1, 2), (4, -3, -1)):
        PROOFS.append((f"distributed_transpose_{kind}[rank={nd},dims=({d0},{d1})]", mk_transpose(kind, nd, d0, d1, complex64 if nd == 3 else float32)))
    for nd in (1, 2, 4):
        for dt in (float32, float64, float16, complex64):
            PROOFS.append((f"copy/reduce_{kind}[rank={nd},{dt.name}]", mk_copy_reduce(kind, nd, dt)))
    for nd, dim in ((1, 0), (2, 1), (4, 2), (4, 3), (3, 0)):
        for dt in (float32, float64, bfloat16, complex128):
            PROOFS.append((f"reduce_scatter_{kind}[rank={nd},dim={dim},{dt.name}]", mk_reduce_scatter(kind, nd, dim, dt)))
for nd, dim in ((1, 0), (2, 1), (4, 2), (4, 3), (3, 0)):
    PROOFS.append((f"scatter/gather[rank={nd},dim={dim}]", mk_scatter_gather(nd, dim, float64 if nd < 4 else complex64)))
PROOFS += [("get_group_neighbors", neighbours), ("halo[float32]", mk_halo(float32, 0)), ("halo[complex64]", mk_halo(complex64, 0))]
PROOFS += [(f"no process group[{k}]", mk_unregistered(k)) for k in ("polar", "azimuth")]
