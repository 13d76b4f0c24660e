"""P02: balanced partition, split and flatten/pad round trip."""
from .common import *

MOD = "torch_harmonics.distributed.primitives"


def sizes(ctx):
    m = Loader().load(MOD)
    ctx.functions.add("distributed.primitives.compute_split_shapes")
    size, n = ctx.int("size", lo=1), ctx.int("num", lo=1)
    try:
        r = m.compute_split_shapes(size, n)
    except (RuntimeError, ValueError):
        ctx.prove("refuses only when more parts than elements", size.e < n.e)
        ctx.canary()
        return
    ctx.prove("accepts only when every part is non-empty", size.e >= n.e)
    ctx.prove("sum", r.total() == size.e)
    ctx.prove("count", Z(r.length()) == n.e)
    i, j = ctx.fresh("i"), ctx.fresh("j")
    h = [i >= 0, i < n.e, j >= 0, j < n.e]
    a, b = Z(r.at(i)), Z(r.at(j))
    ctx.prove("positive", a >= 1, h)
    ctx.prove("differ by at most one", a - b <= 1, h)
    ctx.prove("larger parts first", z3.Implies(i <= j, a >= b), h)
    ctx.canary()


def mk_split(rank, dim):
    def proof(ctx):
        m = Loader().load(MOD)
        ctx.functions.add("distributed.primitives.split_tensor_along_dim")
        shape = [ctx.int(f"d{i}", lo=1) for i in range(rank)]
        shape[dim] = ctx.int("size", lo=1)
        n = ctx.int("num", lo=1)
        x = SymTensor.input("x", tuple(shape))
        try:
            parts = m.split_tensor_along_dim(x, dim, n)
        except (RuntimeError, ValueError):
            ctx.prove("refuses only when more parts than elements", shape[dim].e < n.e)
            ctx.canary()
            return
        ctx.prove("count", Z(parts.length() if isinstance(parts, SymList) else len(parts)) == n.e)
        p = ctx.fresh("p")
        ctx.assume(p >= 0)
        ctx.assume(p < n.e)
        t = parts.at(p)
        q, r = shape[dim].e / n.e, shape[dim].e % n.e
        q, r = fdivmod(shape[dim].e, n.e)
        size = q + z3.If(p < r, 1, 0)
        off = p * q + z3.If(p < r, p, r)
        for a in range(rank):
            ctx.prove(f"part.shape{a}", Z(t.shape[a]) == (size if a == (dim % rank) else shape[a].e))
        idx = [ctx.fresh("i") for _ in range(rank)]
        h = []
        for a in range(rank):
            h += rng(idx[a], size if a == (dim % rank) else shape[a].e)
        src = list(idx)
        src[dim % rank] = off + idx[dim % rank]
        ctx.prove_eq("part[p] is the p-th consecutive slice", t.at(*idx), x.at(*src), h)
        ctx.canary()

    return proof


def mk_flat(lead, tr, pad):
    def proof(ctx):
        m = Loader().load(MOD)
        ctx.functions.update(["distributed.primitives.flatten_and_pad_leading_dims", "distributed.primitives.unpad_and_unflatten_leading_dims"])
        ld = [ctx.int(f"n{i}", lo=1) for i in range(lead)]
        td = [ctx.int(f"t{i}", lo=1) for i in range(tr)]
        mn = ctx.int("min_leading", lo=0)
        L = z3.IntVal(1)
        for d in ld:
            L = L * d.e
        ctx.assume(mn.e > L if pad else mn.e <= L)
        x = SymTensor.input("x", tuple(ld + td))
        t, ls, n = m.flatten_and_pad_leading_dims(x, mn, tr)
        ctx.prove("recorded leading size", Z(n) == L)
        ctx.prove("recorded leading shape", z3.And([z3.BoolVal(len(ls) == lead)] + [Z(a) == b.e for a, b in zip(ls, ld)]))
        want0 = Z(mn) if pad else L
        prove_shape(ctx, "flat", t, [want0] + td)
        idx = [ctx.idx("i", d) for d in ld]
        tj = [ctx.idx("j", d) for d in td]
        h = []
        flat = z3.IntVal(0)
        for a, d in zip(idx, ld):
            flat = flat * d.e + a
        # row-major rank stays below the product, one dimension at a time (proved, then used)
        part, prod = z3.IntVal(0), z3.IntVal(1)
        for n_, (a, d) in enumerate(zip(idx, ld)):
            part, prod = part * d.e + a, prod * d.e
            ctx.prove(f"lemma: row-major rank in range ({n_})", z3.And(part >= 0, part < prod))
            ctx.axiom(z3.And(part >= 0, part < prod))
        ctx.prove_eq("element placed row-major", t.at(flat, *tj), x.at(*idx, *tj), h + [flat >= 0, flat < L])
        if pad:
            k = ctx.fresh("k")
            ctx.prove_eq("padding is zero", t.at(k, *tj), 0, h + [k >= L, k < mn.e])
        y = m.unpad_and_unflatten_leading_dims(t, ls, n, tr)
        if prove_shape(ctx, "round trip", y, ld + td):
            ctx.prove_eq("round trip element", y.at(*idx, *tj), x.at(*idx, *tj), h)
        ctx.canary()

    return proof


PROOFS = [("compute_split_shapes", sizes)]
PROOFS += [(f"split_tensor_along_dim[rank={r},dim={d}]", mk_split(r, d)) for r, d in [(1, 0), (2, 0), (2, 1), (3, 1), (3, -1), (4, 2), (4, -3)]]
PROOFS += [(f"flatten/unpad[leading={l},trailing={t},{'padded' if p else 'unpadded'}]", mk_flat(l, t, p)) for l in (0, 1, 2, 3) for t in (2, 3) for p in (0, 1)]
