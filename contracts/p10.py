"""P10: cached precomputation never changes a result.

Ghost heap: objects with an identity, a value and parts.  Invariant of a cached function's store (key -> object):
every stored object has the value f(key) and is not reachable from anything handed to a caller.  Contract of the
decorator: called with any arguments in any such state it returns an object with the value f(arguments), disjoint
from the store, and preserves the invariant -- so whatever callers do to returned objects, later results are f's.
functools.lru_cache by its documented contract: stores f(key) on a miss, returns the stored object on a hit; keys
are equal iff the arguments are equal (and of the same type when typed); tensors are compared by identity."""
import types
from .common import *

MC = "torch_harmonics.cache"
F = z3.Function("f_value", INT, INT, INT)


class Obj:
    n = 0

    def __init__(self, val, parts=()):
        Obj.n += 1
        self.id, self.val, self.parts = Obj.n, val, list(parts)

    def clone(self):
        return Obj(self.val, [p.clone() for p in self.parts])

    def reach(self):
        return {self.id} | {i for p in self.parts for i in p.reach()}

    def __deepcopy__(self, memo):
        return self.clone()

    def __copy__(self):
        return Obj(self.val, self.parts)


def reach(x):
    if isinstance(x, Obj):
        return x.reach()
    if isinstance(x, (tuple, list)):
        return ({("l", id(x))} if isinstance(x, list) else set()) | {i for p in x for i in reach(p)}
    raise Unsupported(f"cached result of kind {type(x).__name__}")


def dcopy(x, memo=None):
    if isinstance(x, Obj):
        return x.clone()
    if isinstance(x, (tuple, list)):
        return type(x)(dcopy(p) for p in x)
    raise Unsupported("deepcopy of " + type(x).__name__)


def scopy(x):
    if isinstance(x, Obj):
        return Obj(x.val, x.parts)
    return type(x)(x)


def val(ctx, name, got, want, kind):
    """structure and values of the result"""
    if kind == "object":
        ok = isinstance(got, Obj) and len(got.parts) == 2
        ctx.prove(name + ": structure", ok)
        if ok:
            ctx.prove(name, z3.And(got.val == want, *[p.val == want + 1 + i for i, p in enumerate(got.parts)]))
    else:
        ok = isinstance(got, (list if kind == "list" else tuple)) and len(got) == 2 and all(isinstance(g, Obj) for g in got)
        ctx.prove(name + ": structure", ok)
        if ok:
            ctx.prove(name, z3.And(*[g.val == want + i for i, g in enumerate(got)]))


def make(v, kind):
    if kind == "object":
        return Obj(v, [Obj(v + 1), Obj(v + 2)])
    return (list if kind == "list" else tuple)([Obj(v), Obj(v + 1)])


class Store:
    """functools.lru_cache by contract, in an arbitrary state satisfying the invariant"""

    def __init__(self, kind):
        self.kind, self.objs, self.settings = kind, [], []

    def lru_cache(self, maxsize=128, typed=False):
        self.settings.append((maxsize, typed))

        def deco(f):
            def cached(*a, **k):
                c = Ctx.cur
                if c.decide(c.fresh("hit", z3.BoolSort())):
                    # the stored object has the value f had for the key; a tensor in the key is the same tensor, whose
                    # contents at that time are unknown
                    vs = [c.fresh("old") if isinstance(x, SymTensor) else Z(x) for x in list(a) + [k[q] for q in sorted(k)]]
                    o = make(F(*vs), self.kind)
                else:
                    o = f(*a, **k)
                self.objs.append(o)
                return o

            return cached

        return deco


def content(x):
    return z3.Const("content_of_tensor", INT) if isinstance(x, SymTensor) else Z(x)


def mk(kind, style, typed, tensor=False):
    def proof(ctx):
        st = Store(kind)
        fake = types.SimpleNamespace(lru_cache=st.lru_cache, wraps=lambda f: (lambda g: g), partial=__import__("functools").partial)
        m = Loader({MC: dict(functools=fake, deepcopy=dcopy, copy=types.SimpleNamespace(deepcopy=dcopy, copy=scopy))}).load(MC)
        ctx.functions.update(["cache.lru_cache", "cache.lru_cache.decorator", "cache.lru_cache.decorator.wrapper"])
        ctx.assumptions.add("functools.lru_cache and copy.deepcopy by their documented contracts")
        calls = []

        def f(x, y=None):
            calls.append(1)
            return make(F(content(x), content(y)), kind)

        ms = ctx.int("maxsize", lo=0)
        g = m.lru_cache(maxsize=ms, typed=typed, copy=True)(f)
        ctx.prove("keys respect the requested typing", all(t is typed or t is True for _, t in st.settings))
        x = SymTensor.input("x", [ctx.int("n", lo=1)], dtype=float64) if tensor else ctx.int("x")
        y = ctx.int("y")
        r = g(x, y) if style == "positional" else g(x, y=y)
        val(ctx, "value of the result", r, F(content(x), content(y)), kind)
        stored = set().union(*[reach(o) for o in st.objs]) if st.objs else set()
        ctx.prove("result disjoint from the store", not (reach(r) & stored))
        for o in st.objs:
            if not tensor:
                val(ctx, "store invariant preserved", o, F(content(x), content(y)), kind)
        ctx.canary()

    return proof


def shared(ctx):
    """copy=False: the very object of the store, value f(arguments)"""
    st = Store("object")
    fake = types.SimpleNamespace(lru_cache=st.lru_cache, wraps=lambda f: (lambda g: g))
    m = Loader({MC: dict(functools=fake, deepcopy=dcopy, copy=types.SimpleNamespace(deepcopy=dcopy, copy=scopy))}).load(MC)
    g = m.lru_cache(typed=True, copy=False)(lambda x, y: make(F(content(x), content(y)), "object"))
    x, y = ctx.int("x"), ctx.int("y")
    val(ctx, "value of the shared result", g(x, y), F(Z(x), Z(y)), "object")
    ctx.canary()


SITES = {
    "torch_harmonics.quadrature": ["precompute_longitudes", "precompute_latitudes"],
    "torch_harmonics.legendre": ["_precompute_legpoly", "_precompute_dlegpoly"],
    "torch_harmonics.disco.convolution": ["_precompute_convolution_tensor_s2"],
    "torch_harmonics.filter_basis": ["get_filter_basis"],
}
SHARED = {"get_filter_basis"}  # documented to return one shared object per arguments


def mk_site(mod):
    def proof(ctx):
        log = []

        def rec(maxsize=20, typed=False, copy=False):
            def d(f):
                log.append((getattr(f, "__name__", str(f)), typed, copy))
                return f

            return d

        Loader({MC: dict(lru_cache=rec), "disco_helpers": types.SimpleNamespace(optimized_kernels_is_available=lambda: False, preprocess_psi=None, pack_psi_dense=None, kpacked_sm90_kernels_is_available=None, kpacked_sm100_kernels_is_available=None)}).load(mod)
        for n, t, c in log:
            ctx.functions.add(f"{mod}.{n}")
            # sufficient, not necessary: a failure is decided by the concrete histories
            ctx.record(f"{n}: arguments of different type have different keys", "proved" if t is True else "open")
            if n not in SHARED:
                ctx.record(f"{n}: callers get their own copy", "proved" if c is True else "open")
        if not log:
            ctx.prove("nothing is cached here", True)
        ctx.canary()

    return proof


PROOFS = [(f"lru_cache[{k},{s},typed={t}]", mk(k, s, t)) for k in ("object", "tuple", "list") for s in ("positional", "keyword") for t in (True, False)]
PROOFS += [(f"lru_cache[{k},{s},tensor argument]", mk(k, s, True, True)) for k in ("object", "tuple") for s in ("positional", "keyword")]
PROOFS.append(("lru_cache[shared]", shared))
PROOFS += [(f"use site {m}", mk_site(m)) for m in SITES]
