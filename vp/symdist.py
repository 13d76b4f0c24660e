"""Assumed contracts of torch.distributed, for an arbitrary rank r of a group of arbitrary size P.

The code is verified as SPMD: the value of an expression on another rank q is the same expression
with r replaced by q (every rank runs the same text on its own inputs; a collective reached under
a condition that depends on the rank is rejected).  So e.g. all_to_all delivers, from rank q, the
q-instance of the message addressed to r.  Each stub proves the collective's precondition (equal
shapes, counts) and defines its result."""
import z3
from . import symcore, symtorch as st
from .symcore import *
from .symtorch import SymTensor, CVal


# ------------------------------------------------------------------ balanced sizes by contract
class GSizes(SymList):
    """The result of compute_split_shapes(N, P) by its (P02) contract: sizes S(q) >= 1, larger first,
    differing by at most one, offsets OFF(q), total N, and the owner of a global position."""

    reg = {}

    @staticmethod
    def get(n, p):
        n, p = z3.simplify(to_int(n)), z3.simplify(to_int(p))
        key = (str(n), str(p))
        if key not in GSizes.reg:
            GSizes.reg[key] = GSizes(n, p, len(GSizes.reg))
        return GSizes.reg[key]

    def __init__(self, n, p, k):
        self.n, self.p, self.k = n, p, k
        self.S = z3.Function(f"S@{k}", INT, INT)
        self.OFF = z3.Function(f"OFF@{k}", INT, INT)
        self.OWN = z3.Function(f"OWN@{k}", INT, INT)
        self.segs = [(p, lambda i: wrap(self.S(to_int(i))))]
        self.Z = lambda q: self.S(to_int(q))

    def at(self, i):
        return wrap(self.S(z3.simplify(to_int(i))))

    def prefix(self, r):
        return self.OFF(z3.simplify(to_int(r)))

    def total(self):
        return self.n

    def length(self):
        return wrap(self.p)

    def minmax(self, which):
        return wrap(self.S(z3.IntVal(0)) if which == "max" else self.S(z3.simplify(self.p - 1)))

    def own(self, j):
        return self.OWN(z3.simplify(to_int(j)))


def gs_facts(terms):
    """facts about every S@k / OFF@k / OWN@k term occurring in a query"""
    by = {}
    for t in terms:
        if z3.is_app(t) and t.num_args() == 1 and "@" in t.decl().name():
            nm, k = t.decl().name().split("@")
            if nm in ("S", "OFF", "OWN"):
                by.setdefault(int(k), []).append((nm, t.arg(0)))
    out = []
    for g in list(GSizes.reg.values()):
        if g.k in by:
            key = (g.k, id(g), frozenset((nm, a.get_id()) for nm, a in by[g.k]))
            c = _GC.get(key)
            if c is None:
                if len(_GC) > 20000:
                    _GC.clear()
                c = _GC[key] = (g, by[g.k], _gs_facts1(g, by[g.k]))
            out += c[2]
    return out


_GC = {}


def _gs_facts1(g, uses):
    out = []
    if True:
        n, p = g.n, g.p
        ok = z3.And(p >= 1, n >= p)
        qs = {}
        for nm, a in uses:
            if nm == "OWN":
                o = g.OWN(a)
                out.append(z3.Implies(z3.And(ok, a >= 0, a < n), z3.And(o >= 0, o < p, g.OFF(o) <= a, a < g.OFF(o) + g.S(o))))
                qs[o.get_id()] = o
            else:
                qs[a.get_id()] = a
        z0, zl = z3.IntVal(0), z3.simplify(p - 1)
        qs[z0.get_id()] = z0
        qs[zl.get_id()] = zl
        ql = list(qs.values())
        out.append(z3.Implies(ok, z3.And(g.OFF(z0) == 0, g.OFF(p) == n, g.S(z0) - g.S(zl) <= 1)))
        for q in ql:
            c = z3.And(ok, q >= 0, q < p)
            out.append(z3.Implies(c, z3.And(g.S(q) >= 1, g.OFF(q) >= 0, g.OFF(q) + g.S(q) <= n, g.S(q) <= g.S(z0), g.S(q) >= g.S(zl))))
            out.append(z3.Implies(z3.And(c, q == p - 1), g.OFF(q) + g.S(q) == n))
        for i, a in enumerate(ql):
            for b in ql[i + 1 :]:
                c = z3.And(ok, a >= 0, a < p, b >= 0, b < p)
                out.append(z3.Implies(c, z3.Or(a == b, g.OFF(a) + g.S(a) <= g.OFF(b), g.OFF(b) + g.S(b) <= g.OFF(a))))
                out.append(z3.Implies(z3.And(c, a < b), z3.And(g.S(a) >= g.S(b), g.OFF(a) + g.S(a) <= g.OFF(b))))
                out.append(z3.Implies(z3.And(c, b < a), z3.And(g.S(b) >= g.S(a), g.OFF(b) + g.S(b) <= g.OFF(a))))
                out.append(z3.Implies(z3.And(c, b == a + 1), g.OFF(a) + g.S(a) == g.OFF(b)))
                out.append(z3.Implies(z3.And(c, a == b + 1), g.OFF(b) + g.S(b) == g.OFF(a)))
    return out


symcore.INST_HOOKS.append(gs_facts)


def gs_values(t):
    nm, k = t.decl().name().split("@")
    if nm in ("OFF", "OWN"):
        return [z3.IntVal(0)]
    if nm == "S":
        return [g.n for g in GSizes.reg.values() if g.k == int(k)]
    return []


symcore.VALUE_HOOKS.append(gs_values)


def merge_parts(ctx, e):
    """Lemma (summation by parts of a partition, finite Fubini):
       sum_{q<P} ... sum_{i<S(q)} f(OFF(q)+i)  ==  ... sum_{j<n} f(j),   sum_{q<P} S(q) == n
    for the contiguous partition (S, OFF) of n into P parts (P02)."""
    if not (z3.is_quantifier(e.arg(2)) and z3.is_int_value(e.arg(0)) and e.arg(0).as_long() == 0):
        return None
    bnd, body = [], e
    facs = []
    while True:
        b = z3.Int(f"mp!{next(symcore._ctr)}")
        bnd.append((b, body.arg(0), body.arg(1)))
        inner = z3.simplify(z3.substitute_vars(body.arg(2).body(), b))
        sums = [t for t in (inner.children() if z3.is_mul(inner) else [inner]) if z3.is_app(t) and t.decl().name() == "Sum" and z3.is_quantifier(t.arg(2))]
        if len(sums) != 1:
            facs.append(inner)
            break
        facs += [t for t in (inner.children() if z3.is_mul(inner) else []) if not z3.eq(t, sums[0])]
        body = sums[0]
    val = z3.Product(facs) if len(facs) > 1 else facs[0]
    q, _, P = bnd[0]
    for g in list(GSizes.reg.values()):
        if not z3.is_true(z3.simplify(P == g.p)):
            continue
        if not ctx.entails(z3.And(g.p >= 1, g.n >= g.p)):
            continue
        if len(bnd) == 1:
            if z3.is_true(z3.simplify(val == z3.ToReal(g.S(q)))):
                return z3.ToReal(g.n)
            continue
        for k in range(1, len(bnd)):
            i, lo, hi = bnd[k]
            if not (z3.is_int_value(lo) and lo.as_long() == 0 and z3.is_true(z3.simplify(hi == g.S(q)))):
                continue
            j = z3.Int(f"mp!{next(symcore._ctr)}")
            sub = lambda t: deep_simplify(z3.substitute(t, (i, j - g.OFF(q))))
            v2 = sub(val)
            rest = [(b, sub(l), sub(h)) for b, l, h in bnd[1:k]] + [(j, z3.IntVal(0), g.n)] + [(b, sub(l), sub(h)) for b, l, h in bnd[k + 1 :]]
            if symcore.mentions(v2, q) or any(symcore.mentions(l, q) or symcore.mentions(h, q) for _, l, h in rest):
                continue
            for b, l, h in reversed(rest):
                v2 = symcore.SUMF(l, h, z3.Lambda([b], v2))
            return v2
    return None


def deep_simplify(t):
    return z3.simplify(t, som=True)


symcore.SUM_HOOKS.append(merge_parts)


def compute_split_shapes(size, num):
    """P02 contract of distributed.primitives.compute_split_shapes"""
    if not (size >= num):
        raise RuntimeError("compute_split_shapes: more parts than elements")
    return GSizes.get(size, num)


# ------------------------------------------------------------------ substitution of the rank
def subst_val(v, pairs):
    if isinstance(v, CVal):
        return CVal(z3.substitute(v.re, *pairs), z3.substitute(v.im, *pairs))
    return z3.substitute(to_z3(v), *pairs)


def subst_dim(d, pairs):
    return st.norm_size(wrap(z3.simplify(z3.substitute(to_int(d), *pairs)))) if not isinstance(d, int) else d


def subst_tensor(t, pairs):
    """t with symbols replaced; indices are evaluated at fresh constants first (no capture)"""
    f = t._snapshot()
    n = t.ndim
    k0 = [z3.Int(f"sx!{next(symcore._ctr)}") for _ in range(n)]
    memo = []

    def fn(*i):
        if not memo:
            npc = len(Ctx.cur.pc)
            for a, d in zip(k0, t._shape):
                Ctx.cur.pc.append(z3.And(a >= 0, a < to_int(d)))
            try:
                memo.append(f(*k0))
            finally:
                del Ctx.cur.pc[npc:]
        return subst_val(memo[0], list(zip(k0, i)) + pairs)

    return SymTensor([subst_dim(d, pairs) for d in t._shape], fn, t.dtype)


class Grp:
    def __init__(self, name, P, r):
        self.name, self.P, self.r = name, P, r
        self.ranks = z3.Function(f"grank_{name}", INT, INT)
        self.npc = None

    def __repr__(self):
        return f"<group {self.name}>"


class RankList:
    """global ranks of a group: injective"""

    def __init__(self, g):
        self.g = g

    def index(self, x):
        q = z3.simplify(to_int(x))
        if z3.is_app(q) and q.decl().name() == self.g.ranks.name():
            return wrap(q.arg(0))
        raise Unsupported("index of an arbitrary global rank")

    def __getitem__(self, i):
        i = to_int(i)
        Ctx.cur.prove("group-rank-index-in-bounds", z3.And(i >= -self.g.P.e, i < self.g.P.e))
        return wrap(self.g.ranks(z3.simplify(i)))

    def vp_len(self):
        return self.g.P


class Req:
    def wait(self):
        return True


class P2POp:
    def __init__(self, op, tensor, peer, group=None, tag=0):
        self.op, self.tensor, self.peer, self.group = op, tensor, peer, group


class Dist:
    """the torch.distributed namespace for one arbitrary rank"""

    def __init__(self, ctx, groups):
        self.ctx, self.groups = ctx, groups
        self.p2p = None
        self.P2POp = P2POp
        self.isend = "isend"
        self.irecv = "irecv"
        self.ReduceOp = type("ReduceOp", (), {"SUM": "sum"})
        self.log = []
        ctx.assumptions.add("torch.distributed collectives and point-to-point operations deliver what their documentation says; every rank runs the same program")

    def _g(self, group):
        if not isinstance(group, Grp):
            raise Unsupported("collective on the default group")
        return group

    def is_initialized(self):
        return True

    def is_available(self):
        return True

    def get_world_size(self, group=None):
        return self._g(group).P

    def get_rank(self, group=None):
        if group is None:
            g = self.groups[0]
            return wrap(g.ranks(g.r.e))
        return self._g(group).r

    def get_group_rank(self, group, global_rank):
        return RankList(group).index(global_rank)

    def get_process_group_ranks(self, group=None):
        return RankList(self._g(group))

    def barrier(self, *a, **k):
        return None

    def _uniform(self, g):
        """no branch taken so far may depend on the rank: all ranks reach this collective"""
        for c in self.ctx.pc[self.npc :]:
            if mentions(c, g.r.e) and not any(c.get_id() == b.get_id() for b in self.ctx.bounds) and not self.ctx_entails_base(c):
                raise Unsupported("collective under a condition that depends on the rank: " + short(c, 200))

    npc = 0

    def ctx_entails_base(self, c):
        ctx = self.ctx
        n = len(ctx.pc)
        return ctx._check(ctx.pc[: self.npc] + [x for x in ctx.pc[self.npc :] if not any(mentions(x, g.r.e) for g in self.groups)] + ctx.axioms + [z3.Not(c)], timeout_ms=3000) == z3.unsat

    def ready(self):
        """called when the preconditions have been stated"""
        self.npc = len(self.ctx.pc)

    def _rank(self, g, base="q"):
        q = self.ctx.fresh(base)
        self.ctx.pc.append(z3.And(q >= 0, q < g.P.e))
        self.ctx.bounds.append(self.ctx.pc[-1])
        return q

    def _same_shape(self, what, a, b, hyps=()):
        self.ctx.prove(what + ": ranks agree", len(a) == len(b))
        if len(a) != len(b):
            raise Unsupported("rank mismatch in a collective")
        self.ctx.prove(what, z3.And([to_int(x) == to_int(y) for x, y in zip(a, b)]) if len(a) else True, hyps)

    def _chunk(self, lst, p):
        v = lst.at(p) if isinstance(lst, SymList) else lst[p]
        return v

    def _count(self, what, lst, g):
        n = to_int(lst.length()) if isinstance(lst, SymList) else z3.IntVal(len(lst))
        self.ctx.prove(what + ": one tensor per rank", n == g.P.e)
        if not isinstance(lst, SymList):
            raise Unsupported("list of concrete length in a collective over a group of arbitrary size")

    # ---- collectives
    def all_to_all(self, out, inp, group=None, async_op=False):
        g = self._g(group)
        ctx = self.ctx
        self._uniform(g)
        self._count("all_to_all send list", inp, g)
        self._count("all_to_all receive list", out, g)
        r = g.r.e
        q = self._rank(g)
        mine = inp.at(r)
        src = subst_tensor_at(inp, g, q)
        self._same_shape("all_to_all: the buffer for rank q has the shape of the message from q", out.at(q)._shape, src._shape)
        ctx.prove("all_to_all: buffer type", out.at(q).dtype is src.dtype)
        dt = mine.dtype
        gen = generic_chunk(inp, g)

        def recv(s):
            return gen(sender=to_int(s), dest=r, dtype=dt)

        out.segs = [(g.P.e, recv)]
        self.log.append("all_to_all")
        return Req() if async_op else None

    def all_gather(self, out, x, group=None, async_op=False):
        g = self._g(group)
        ctx = self.ctx
        self._uniform(g)
        self._count("all_gather receive list", out, g)
        r = g.r.e
        q = self._rank(g)
        xs = freeze(x)
        src = subst_tensor(xs, [(r, q)])
        self._same_shape("all_gather: the buffer for rank q has the shape of the tensor on q", out.at(q)._shape, src._shape)
        ctx.prove("all_gather: buffer type", out.at(q).dtype is x.dtype)
        out.segs = [(g.P.e, lambda s: subst_tensor(xs, [(r, to_int(s))]))]
        self.log.append("all_gather")

    def _sum(self, g, f):
        """sum over the ranks of a per-rank value f(q) (possibly complex)"""
        return st.nested_sum([g.P], lambda ks: f(ks[0]))

    def all_reduce(self, x, op=None, group=None, async_op=False):
        g = self._g(group)
        ctx = self.ctx
        if op not in (None, "sum"):
            raise Unsupported("reduction other than a sum")
        self._uniform(g)
        r = g.r.e
        q = self._rank(g)
        xs = freeze(x)
        src = subst_tensor(xs, [(r, q)])
        self._same_shape("all_reduce: every rank contributes the same shape", x._shape, src._shape)
        ctx.prove("all_reduce: precision of the sum", x.dtype.name not in ("float16", "bfloat16"))
        x._write(lambda *i: z3.BoolVal(True), lambda *i: self._sum(g, lambda k: subst_tensor(xs, [(r, k)]).at(*i)))
        self.log.append("all_reduce")

    def reduce_scatter(self, out, lst, op=None, group=None, async_op=False):
        g = self._g(group)
        ctx = self.ctx
        if op not in (None, "sum"):
            raise Unsupported("reduction other than a sum")
        self._uniform(g)
        self._count("reduce_scatter input list", lst, g)
        r = g.r.e
        q, p = self._rank(g), self._rank(g, "p")
        gen = generic_chunk(lst, g)
        a, b = gen(sender=q, dest=p), lst.at(r)
        self._same_shape("reduce_scatter: all chunks have the same shape", a._shape, b._shape)
        self._same_shape("reduce_scatter: output has the shape of a chunk", out._shape, b._shape)
        ctx.prove("reduce_scatter: precision of the sum", out.dtype.name not in ("float16", "bfloat16") and out.dtype is b.dtype)
        out._write(lambda *i: z3.BoolVal(True), lambda *i: self._sum(g, lambda k: gen(sender=k, dest=r).at(*i)))
        self.log.append("reduce_scatter")

    # ---- point to point: rely on / guarantee a protocol given by the contract
    def batch_isend_irecv(self, ops):
        self.ctx.prove("a protocol is in force", self.p2p is not None)
        if self.p2p is None:
            raise Unsupported("point-to-point operations without a protocol")
        return self.p2p(self, ops)


def freeze(x):
    return SymTensor(x._shape, x._snapshot(), x.dtype)


def generic_chunk(lst, g):
    """message of sender s to destination d: chunk d of the list, as computed on rank s"""
    p0 = z3.Int(f"dest!{next(symcore._ctr)}")
    ctx = Ctx.cur
    npc = len(ctx.pc)
    ctx.pc.append(z3.And(p0 >= 0, p0 < g.P.e))
    try:
        proto = freeze(lst.at(p0))
    finally:
        del ctx.pc[npc:]

    def gen(sender, dest, dtype=None):
        return subst_tensor(proto, [(p0, to_int(dest)), (g.r.e, to_int(sender))])

    return gen


def subst_tensor_at(lst, g, q):
    return generic_chunk(lst, g)(sender=q, dest=g.r.e)


def setup(ctx, ld, polar=None, azimuth=None, same=False):
    """groups of arbitrary size; returns the Dist object. polar/azimuth: True to register a group"""
    gs = []
    U = "torch_harmonics.distributed.utils"
    GSizes.reg.clear()
    out = {}
    for nm, on in (("polar", polar), ("azimuth", azimuth)):
        if on:
            P = ctx.int(f"P_{nm}", lo=1)
            r = ctx.int(f"r_{nm}", lo=0)
            ctx.assume(r.e < P.e)
            ctx.bounds.append(r.e < P.e)
            out[nm] = Grp(nm, P, r)
            gs.append(out[nm])
    d = Dist(ctx, gs)
    ld.torch.distributed.__dict__.update({k: getattr(d, k) for k in dir(d) if not k.startswith("_") and k not in ("ctx", "groups", "log", "p2p", "npc")})
    ld.torch.distributed.ProcessGroup = Grp
    u = ld.load(U)
    u.init(out.get("polar"), out.get("azimuth"))
    d.polar, d.azimuth = out.get("polar"), out.get("azimuth")
    Dist.cur = d
    d.ready()
    return d


# ------------------------------------------------------------------ the primitives by their (P19) contracts
def _slice_of(x, dim, off, ln):
    sh = list(x._shape)
    sh[dim] = ln
    f = x._snapshot()

    def fn(*i):
        i = list(i)
        i[dim] = i[dim] + off
        return f(*i)

    return SymTensor(sh, fn, x.dtype)


def _rank_free(ctx, what, x, g, skip=()):
    """extents outside `skip` are the same on every rank of the group"""
    for d, s in enumerate(x._shape):
        if d not in skip and not isinstance(s, int) and mentions(to_int(s), g.r.e):
            q = ctx.fresh("q")
            ctx.prove(f"{what}: extent {d} agrees across the group", to_int(s) == z3.substitute(to_int(s), (g.r.e, q)), [q >= 0, q < g.P.e])


def transpose_contract(which):
    def f(x, dims, shapes):
        d = Dist.cur
        ctx = Ctx.cur
        g = getattr(d, which)
        if g is None:
            return x.contiguous()
        r = g.r.e
        d0, d1 = (k % x.ndim for k in dims)
        n0 = x._shape[d0]
        if ctx.entails(g.P.e == 1):
            return x.contiguous()
        d._uniform(g)
        if not isinstance(shapes, GSizes):
            raise Unsupported("split sizes of unknown origin")
        ctx.prove("redistribution: declared sizes are those held by the ranks", z3.And(to_int(x._shape[d1]) == shapes.S(r), shapes.p == g.P.e))
        _rank_free(ctx, "redistribution", x, g, (d1,))
        ctx.prove("redistribution: every rank gets a non-empty part", to_int(n0) >= g.P.e)
        ctx.assume(to_int(n0) >= g.P.e)
        s0 = GSizes.get(n0, g.P)
        sh = list(x._shape)
        sh[d0] = wrap(s0.S(r))
        sh[d1] = wrap(shapes.n)
        xs = freeze(x)
        memo = {}

        def of_rank(q):
            h = memo.get(q.get_id())
            if h is None:
                h = memo[q.get_id()] = (subst_tensor(xs, [(r, q)]), q)
            return h[0]

        def fn(*i):
            i = list(i)
            o = shapes.own(i[d1])
            i[d1] = i[d1] - shapes.OFF(o)
            i[d0] = i[d0] + s0.OFF(r)
            # the sender's slice is evaluated at this rank's part of d0
            return of_rank(o).at(*i)

        return SymTensor(sh, fn, x.dtype)

    return f


def reduce_contract(which):
    def f(x):
        d = Dist.cur
        ctx = Ctx.cur
        g = getattr(d, which)
        if g is None or ctx.entails(g.P.e == 1):
            return x
        d._uniform(g)
        _rank_free(ctx, "sum over ranks", x, g)
        xs = freeze(x)
        return SymTensor(x._shape, lambda *i: d._sum(g, lambda k: subst_tensor(xs, [(g.r.e, k)]).at(*i)), x.dtype)

    return f


def copy_contract(which):
    return lambda x: x


def reduce_scatter_contract(which):
    def f(x, dim):
        d = Dist.cur
        ctx = Ctx.cur
        g = getattr(d, which)
        if g is None or ctx.entails(g.P.e == 1):
            return x
        dim = dim % x.ndim
        y = reduce_contract(which)(x)
        ctx.prove("reduce-scatter: every rank gets a non-empty part", to_int(x._shape[dim]) >= g.P.e)
        s = GSizes.get(x._shape[dim], g.P)
        return _slice_of(y, dim, s.OFF(g.r.e), wrap(s.S(g.r.e)))

    return f


def scatter_contract(x, dim):
    d = Dist.cur
    g = d.polar
    if g is None or Ctx.cur.entails(g.P.e == 1):
        return x
    Ctx.cur.prove("scatter: every rank gets a non-empty part", to_int(x._shape[dim]) >= g.P.e)
    s = GSizes.get(x._shape[dim % x.ndim], g.P)
    return _slice_of(x, dim % x.ndim, s.OFF(g.r.e), wrap(s.S(g.r.e)))


def gather_contract(x, dim, shapes):
    d = Dist.cur
    ctx = Ctx.cur
    g = d.polar
    if g is None or ctx.entails(g.P.e == 1):
        return x
    d._uniform(g)
    dim = dim % x.ndim
    if not isinstance(shapes, GSizes):
        raise Unsupported("split sizes of unknown origin")
    ctx.prove("gather: declared sizes are those held by the ranks", z3.And(to_int(x._shape[dim]) == shapes.S(g.r.e), shapes.p == g.P.e))
    _rank_free(ctx, "gather", x, g, (dim,))
    sh = list(x._shape)
    sh[dim] = wrap(shapes.n)
    xs = freeze(x)

    def fn(*i):
        i = list(i)
        o = shapes.own(i[dim])
        i[dim] = i[dim] - shapes.OFF(o)
        return subst_tensor(xs, [(g.r.e, o)]).at(*i)

    return SymTensor(sh, fn, x.dtype)


def halo_contract(x, R):
    """rows j of the padded slice come from the rank above (its last R rows), this rank, or the rank below"""
    d = Dist.cur
    ctx = Ctx.cur
    g = d.polar
    if g is None:
        return x
    d._uniform(g)
    r, P = g.r.e, g.P.e
    H = to_int(x._shape[2])
    Hq = lambda q: z3.substitute(H, (r, q))
    q = ctx.fresh("q")
    Rz = to_int(R)
    ctx.prove("halo: at least one row and at most any rank's rows", z3.And(Rz >= 1, Rz <= Hq(q)), [q >= 0, q < P])
    sh = list(x._shape)
    sh[2] = wrap(z3.simplify(H + 2 * Rz))
    xs = freeze(x)
    z = st.cast_val(z3.IntVal(0), x.dtype.kind)

    def fn(*i):
        i = list(i)
        j = i[2]
        up, me, dn = list(i), list(i), list(i)
        up[2] = Hq(r - 1) - Rz + j
        me[2] = j - Rz
        dn[2] = j - Rz - H
        a = st.v_ite(r > 0, subst_tensor(xs, [(r, r - 1)]).at(*up), z)
        b = xs.at(*me)
        c = st.v_ite(r < P - 1, subst_tensor(xs, [(r, r + 1)]).at(*dn), z)
        return st.v_ite(j < Rz, a, st.v_ite(j < Rz + H, b, c))

    return SymTensor(sh, fn, x.dtype)


def primitive_contracts():
    o = {"compute_split_shapes": compute_split_shapes}
    for w in ("polar", "azimuth"):
        o[f"distributed_transpose_{w}"] = transpose_contract(w)
        o[f"reduce_from_{w}_region"] = reduce_contract(w)
        o[f"copy_to_{w}_region"] = copy_contract(w)
        o[f"reduce_from_scatter_to_{w}_region"] = reduce_scatter_contract(w)
    o["scatter_to_polar_region"] = scatter_contract
    o["gather_from_polar_region"] = gather_contract
    o["gather_from_copy_to_polar_region"] = gather_contract
    o["polar_halo_exchange"] = halo_contract
    return o
