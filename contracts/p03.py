"""P03: rfft / irfft wrappers against the DFT contract of torch.fft."""
from .common import *


def place(rank, dim, shape, n):
    s = list(shape)
    s[dim % rank] = n
    return tuple(s)


def norm_f(norm, N):
    if norm == "forward":
        return 1 / R(N.e)
    if norm == "ortho":
        return 1 / rfun("sqrt", R(N.e))
    return z3.RealVal(1)


def mk_rfft(rank, dim, given, norm):
    def proof(ctx):
        m = Loader().load("torch_harmonics.fft")
        ctx.functions.update(["fft.rfft", "fft._pad_dim_right", "utils.ensure_contiguous"])
        oth = [ctx.int(f"d{i}", lo=1) for i in range(rank)]
        N = ctx.int("N", lo=1)
        M = ctx.int("M", lo=1) if given else None
        x = SymTensor.input("x", place(rank, dim, oth, N))
        kw = {} if norm is None else dict(norm=norm)
        y = m.rfft(x, nmodes=M, dim=dim, **kw)
        half, _ = fdivmod(N.e, z3.IntVal(2))
        K = M.e if given else half + 1
        prove_shape(ctx, "modes", y, [K if a == dim % rank else o for a, o in enumerate(oth)])
        idx = [ctx.fresh("i") for _ in range(rank)]
        k = idx[dim % rank]
        h = [c for a in range(rank) for c in rng(idx[a], K if a == dim % rank else oth[a].e)]

        def sig(j):
            s = list(idx)
            s[dim % rank] = j
            return x.at(*s)

        ref = v_mul(DFT(sig, N, k, -1), norm_f(norm, N))
        ctx.prove_eq("true modes up to Nyquist", y.at(*idx), ref, h + [k <= half])
        ctx.prove_eq("zeros above", y.at(*idx), CVal(0, 0), h + [k > half])
        ctx.canary()

    return proof


def mk_irfft(rank, dim, given, norm):
    def proof(ctx):
        m = Loader().load("torch_harmonics.fft")
        ctx.functions.update(["fft.irfft", "utils.ensure_contiguous"])
        ctx.assumptions.add("torch.fft.irfft contract: Hermitian half-spectrum synthesis; a nonzero imaginary part of the DC/Nyquist bin yields an unspecified backend artefact")
        oth = [ctx.int(f"d{i}", lo=1) for i in range(rank)]
        M = ctx.int("M", lo=1)
        if given:
            N = ctx.int("N", lo=1)
            n = N
        else:
            ctx.assume(M.e >= 2)
            N = None
            n = SymInt(2 * (M.e - 1))
        X = SymTensor.input("X", place(rank, dim, oth, M), dtype=complex128)
        kw = {} if norm is None else dict(norm=norm)
        y = m.irfft(X, n=N, dim=dim, **kw)
        prove_shape(ctx, "signal", y, [n if a == dim % rank else o for a, o in enumerate(oth)])
        # reference: torch.fft.irfft applied to the *explicitly cleaned* half spectrum
        half, par = fdivmod(n.e, z3.IntVal(2))

        def clean(*i):
            v = X.at(*i)
            k = i[dim % rank]
            kill = z3.Or(k == 0, z3.And(par == 0, k == half))
            return CVal(v.re, z3.If(kill, z3.RealVal(0), to_real(v.im)))

        Xc = SymTensor(X.shape, clean, complex128)
        ref = irfft(Xc, n=n, dim=dim, norm=norm)
        idx = [ctx.fresh("i") for _ in range(rank)]
        h = [c for a in range(rank) for c in rng(idx[a], n.e if a == dim % rank else oth[a].e)]
        ctx.prove_eq("synthesis ignores imaginary DC/Nyquist", y.at(*idx), ref.at(*idx), h)
        ctx.canary()

    return proof


def mk_pad(rank, dim):
    def proof(ctx):
        m = Loader().load("torch_harmonics.fft")
        ctx.functions.add("fft._pad_dim_right")
        oth = [ctx.int(f"d{i}", lo=1) for i in range(rank)]
        N, T = ctx.int("N", lo=1), ctx.int("target", lo=1)
        ctx.assume(T.e >= N.e)
        x = SymTensor.input("x", place(rank, dim, oth, N))
        v = ctx.real("value")
        y = m._pad_dim_right(x, dim, T, v)
        prove_shape(ctx, "padded", y, [T if a == dim % rank else o for a, o in enumerate(oth)])
        idx = [ctx.fresh("i") for _ in range(rank)]
        h = [c for a in range(rank) for c in rng(idx[a], T.e if a == dim % rank else oth[a].e)]
        ctx.prove_eq("original entries", y.at(*idx), x.at(*idx), h + [idx[dim % rank] < N.e])
        ctx.prove_eq("fill", y.at(*idx), v, h + [idx[dim % rank] >= N.e])
        ctx.canary()

    return proof


PROOFS = [(f"rfft[rank={r},dim={d},nmodes={'given' if g else 'default'},norm={nm}]", mk_rfft(r, d, g, nm)) for r, d in [(1, -1), (2, -1), (3, 1), (4, -1), (3, -3)] for g in (0, 1) for nm in ("forward", None, "ortho")]
PROOFS += [(f"irfft[rank={r},dim={d},n={'given' if g else 'default'},norm={nm}]", mk_irfft(r, d, g, nm)) for r, d in [(1, -1), (2, -1), (3, 1), (4, -1)] for g in (0, 1) for nm in ("forward", None)]
PROOFS += [(f"_pad_dim_right[rank={r},dim={d}]", mk_pad(r, d)) for r, d in [(1, 0), (2, 0), (2, -1), (3, 1), (4, -2)]]
