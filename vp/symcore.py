"""Core of the VC generator: symbolic scalars, path exploration, obligations, equality prover.

The repository's Python source is executed unmodified (shallow embedding) on the values
defined here; torch / numpy calls are replaced by their assumed contracts (see symtorch.py).
Every symbolic branch forks the execution; every `prove` is one verification condition,
discharged by z3 for all values of all symbolic sizes, indices and elements.
"""
import os, itertools, time, fractions, math
import z3

z3.set_param("timeout", 0)

REAL = z3.RealSort()
INT = z3.IntSort()
BOOL = z3.BoolSort()


class Unsupported(Exception):
    """The source uses something outside the verifier's subset: undecided, never a violation."""


class PathDone(Exception):
    pass


class Ctx:
    cur = None

    def __init__(self, name, seed=1, timeout_ms=20000):
        self.name = name
        self.timeout_ms = timeout_ms
        self.obligations = []  # dicts
        self.assumptions = set()
        self.functions = set()
        self.inputs = {}
        self.paths = 0
        self.live_paths = 0
        self.solver_s = 0.0
        self.seed = seed
        self.reset([])

    def reset(self, decisions):
        self.decisions = list(decisions)
        self.pos = 0
        self.pc = []
        self.bounds = []
        self.axioms = []
        self.fresh_n = 0
        self.taken = []
        self.open_alts = []
        self.inputs = {}
        self.kcache = {}
        self.defs = []
        self.maploops = []
        self.forks = 0

    # ---- naming
    def fresh(self, base, sort=INT):
        self.fresh_n += 1
        return z3.Const(f"{base}!{self.fresh_n}", sort)

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self.inputs[name] = v
        if lo is not None:
            self.pc.append(v >= lo)
            self.bounds.append(v >= lo)
        if hi is not None:
            self.pc.append(v <= hi)
            self.bounds.append(v <= hi)
        return SymInt(v)

    def idx(self, base, n, lo=0):
        """Fresh arbitrary index lo <= i < n, assumed on the path (universally quantified)."""
        v = self.fresh(base)
        self.pc.append(z3.And(v >= to_int(lo), v < to_int(n)))
        self.bounds.append(self.pc[-1])
        self.kcache = {}
        return v

    def real(self, name):
        v = z3.Real(name)
        self.inputs[name] = v
        return SymReal(v)

    def assume(self, c):
        c = as_z3bool(c)
        self.pc.append(c)

    def define(self, lhs, rhs, cond=None):
        """Definitional equation lhs = rhs (when cond), oriented for the algebraic back end."""
        self.defs.append((lhs, to_real(rhs), cond))
        eq = lhs == to_real(rhs)
        self.axioms.append(eq if cond is None else z3.Implies(cond, eq))

    def reset_facts(self, axioms=True):
        """Forget every fact learnt so far on this path (used when verifying a method against an invariant only);
        only the bounds of the named integers are kept."""
        self.pc[:] = list(self.bounds)
        if axioms:
            del self.axioms[:]
        self.kcache = {}

    def axiom(self, c):
        c = as_z3bool(c)
        if not any(z3.eq(c, d) for d in self.axioms[-60:]):
            self.axioms.append(c)

    # ---- solving
    def _check(self, fs, timeout_ms=None, want_model=False):
        s = z3.Solver()
        s.set("timeout", int(timeout_ms or self.timeout_ms))
        s.set("random_seed", 0)
        allf = list(fs)
        allf += instantiate(allf)
        for f in allf:
            s.add(f)
        t0 = time.time()
        r = s.check()
        self.solver_s += time.time() - t0
        if want_model:
            return r, (s.model() if r == z3.sat else None), (s.reason_unknown() if r == z3.unknown else "")
        return r

    def linear_unsat(self, extra):
        """the integer facts and `extra` are contradictory with the products taken as unknowns (sound: an abstraction)"""
        if not hasattr(self, "_lin"):
            self._lin, self._hr = ({}, {}, []), {}
        hr = self._hr
        ints = []
        for f in self.pc + self.axioms:
            k = f.get_id()
            if k not in hr:
                hr[k] = (f, has_real(f))
            if not hr[k][1]:
                ints.append(f)
        fs = linearize(ints + extra, self._lin)
        s = z3.Solver()
        s.set("timeout", 2000)
        s.set("random_seed", 0)
        s.add(fs)
        t0 = time.time()
        r = s.check()
        self.solver_s += time.time() - t0
        return r == z3.unsat

    def _quick_unsat(self, c):
        """contradiction already among the integer facts (cheap first attempt)"""
        fs = [f for f in self.pc + self.axioms if not has_real(f)]
        return len(fs) < len(self.pc) + len(self.axioms) and self._check(fs + [c], timeout_ms=1000) == z3.unsat

    def feasible(self, c):
        i = not has_real(c)
        if i and self._quick_unsat(c):
            return False
        return self._check(self.pc + self.axioms + [c], timeout_ms=1000 if i else 3000) != z3.unsat

    def entails(self, c, timeout_ms=3000):
        c = as_z3bool(c)
        if z3.is_true(c):
            return True
        if self.soft and not has_real(c) and self.linear_unsat([z3.Not(c)]):
            return True
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return self._check(self.pc + self.axioms, timeout_ms=500) == z3.unsat
        key = (c.get_id(), len(self.pc), len(self.axioms))
        hit = self.kcache.get(key)
        if hit is not None:
            return hit[0]
        r = not has_real(c) and self._quick_unsat(z3.Not(c))
        r = r or self._check(self.pc + self.axioms + [z3.Not(c)], timeout_ms=timeout_ms) == z3.unsat
        self.kcache[key] = (r, c)
        return r

    def decide(self, c):
        """Boolean value of symbolic condition c on this path (forks)."""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        for lp in reversed(self.maploops):
            if mentions(c, lp.k):
                return lp.decide(self, c)
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            self.taken.append(d)
            self.pc.append(c if d else z3.Not(c))
            return d
        t = self.feasible(c)
        f = self.feasible(z3.Not(c))
        if not t and not f:
            raise PathDone()
        if t != f:
            # entailed: recorded too, so that a replay stays aligned with the program's decisions
            self.decisions.append(t)
            self.pos += 1
            self.taken.append(t)
            return t
        self.forks += 1
        if self.forks > 60:
            raise Unsupported("too many symbolic branches on one path")
        self.open_alts.append(self.taken + [False])
        self.decisions.append(True)
        self.pos += 1
        self.taken.append(True)
        self.pc.append(c)
        return True

    # ---- obligations
    mute = False

    def quietly(self, f, *a, **k):
        """Run f only to obtain an object whose state is then replaced by an arbitrary one: the obligations met on
        the way belong to (and are discharged in) the constructor's own proof."""
        self.mute = True
        try:
            return f(*a, **k)
        finally:
            self.mute = False

    def only_one_prefix(self):
        """True on the paths that share the first seen sequence of decisions up to here (the state built so far is
        about to be replaced, so other ways of building it give the same obligations)."""
        p = tuple(self.taken)
        if getattr(self, "_prefix", None) is None:
            self._prefix = p
        return self._prefix == p

    soft = False

    def record(self, name, status, detail="", model=None, secs=0.0):
        if self.soft and status == "refuted":
            status = "open"
        if os.environ.get("VP_TRACE"):
            print("   .", f"{secs:.1f}", status, "".join("TF"[1 - int(b)] for b in self.taken), name[:120], flush=True)
        self.obligations.append(dict(name=f"{self.name}/{name}", status=status, detail=detail, model=model, path="".join("TF"[1 - int(b)] for b in self.taken), secs=round(secs, 3)))
        return status == "proved"

    def model_inputs(self, m):
        out = {}
        for k, v in self.inputs.items():
            try:
                e = m.eval(v, model_completion=True)
                if z3.is_int_value(e):
                    out[k] = e.as_long()
                elif z3.is_rational_value(e):
                    out[k] = float(e.as_fraction())
                elif z3.is_true(e) or z3.is_false(e):
                    out[k] = z3.is_true(e)
                else:
                    out[k] = str(e)
            except Exception:
                pass
        return out

    def prove(self, name, claim, hyps=()):
        """One obligation: pc and axioms and hyps entail claim."""
        if self.mute:
            return True
        t0 = time.time()
        if isinstance(claim, bool):
            claim = z3.BoolVal(claim)
        claim = as_z3bool(claim)
        if self.soft and not has_real(claim) and self.linear_unsat([as_z3bool(h) for h in hyps] + [z3.Not(claim)]):
            return self.record(name, "proved", secs=time.time() - t0)
        r, m, why = self._check(self.pc + self.axioms + [as_z3bool(h) for h in hyps] + [z3.Not(claim)], want_model=True)
        dt = time.time() - t0
        if r == z3.unsat:
            return self.record(name, "proved", secs=dt)
        if r == z3.sat:
            return self.record(name, "refuted" if definite([claim] + [as_z3bool(h) for h in hyps]) else "open", detail=short(z3.simplify(claim)), model=self.model_inputs(m), secs=dt)
        return self.record(name, "unknown", detail=why, secs=dt)

    def prove_eq(self, name, a, b, hyps=()):
        if self.mute:
            return True
        t0 = time.time()
        from .symtorch import CVal
        if isinstance(a, CVal) or isinstance(b, CVal):
            a, b = CVal.lift(a), CVal.lift(b)
            ok = self.prove_eq(name + ".re", a.re, b.re, hyps)
            return self.prove_eq(name + ".im", a.im, b.im, hyps) and ok
        a, b = to_z3(a), to_z3(b)
        if a.sort() != b.sort():
            a, b = to_real(a), to_real(b)
        st, m, why = eq_prover(self, a, b, [as_z3bool(h) for h in hyps], 0)
        dt = time.time() - t0
        if st == "proved":
            return self.record(name, "proved", secs=dt)
        if st == "refuted" and not definite([a, b] + [as_z3bool(h) for h in hyps]):
            st = "open"
        return self.record(name, st, detail=f"{short(z3.simplify(a))}  ==  {short(z3.simplify(b))} {why}", model=m, secs=dt)

    def canary(self, name="reachable", timeout_ms=3000):
        """Vacuity guard: the state reached here must be satisfiable."""
        r = self._check(self.pc + self.axioms, timeout_ms=timeout_ms)
        if r == z3.unsat:
            self.record("canary:" + name, "vacuous", detail="path condition contradictory")
        else:
            self.live_paths += 1


# opaque symbols that stand for interpreted mathematics or for summaries: a model that
# assigns them freely is not a counterexample of the code, so a `sat` answer is only "open"
EXACT_OPQ = {"fdiv", "fmod"}


def definite(fs):
    seen, st = set(), list(fs)
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return False
        if z3.is_app(t):
            n = t.decl().name()
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if t.num_args() and n not in EXACT_OPQ and n not in INPUT_FUNS:
                    return False
                if "!" in n and n.split("!")[0] in ("opq", "havoc"):
                    return False
            st.extend(t.children())
    return True


INPUT_FUNS = set()


def short(e, n=400):
    s = str(e).replace("\n", " ")
    return s if len(s) <= n else s[:n] + "..."


def explore(ctx, fn, max_paths=400):
    """Run fn(ctx) on every feasible path."""
    Ctx.cur = ctx
    work = [[]]
    while work:
        dec = work.pop()
        ctx.reset(dec)
        ctx.paths += 1
        if ctx.paths > max_paths:
            raise Unsupported("path explosion")
        try:
            fn(ctx)
        except PathDone:
            pass
        work.extend(ctx.open_alts)


# --------------------------------------------------------------------------- scalars
def is_sym(x):
    return isinstance(x, (SymInt, SymReal, SymBool))


def to_z3(x):
    if isinstance(x, (SymInt, SymReal, SymBool)):
        return x.e
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        return realval(x)
    if isinstance(x, fractions.Fraction):
        return z3.RealVal(f"{x.numerator}/{x.denominator}")
    if hasattr(x, "_scalar_z3"):
        return x._scalar_z3()
    raise Unsupported(f"cannot lift {type(x).__name__} to a logical term")


PI = z3.Real("pi")
PI_AX = [PI > z3.RealVal("3.14159265358979"), PI < z3.RealVal("3.14159265358980")]


def realval(x):
    if x != x or x in (float("inf"), float("-inf")):
        raise Unsupported("non-finite float literal")
    # exact multiples of pi written as floats keep their meaning
    for num, den in ((1, 1), (2, 1), (4, 1), (1, 2), (1, 4), (1, 3), (1, 6)):
        if x == math.pi * num / den:
            return PI * z3.RealVal(f"{num}/{den}")
    f = fractions.Fraction(x)
    # decimal literals mean what they say
    d = fractions.Fraction(repr(x))
    return z3.RealVal(f"{d.numerator}/{d.denominator}")


def to_real(e):
    e = to_z3(e)
    if z3.is_bool(e):
        return z3.If(e, z3.RealVal(1), z3.RealVal(0))
    if z3.is_int(e):
        return z3.ToReal(e)
    return e


def to_int(e):
    e = to_z3(e)
    if z3.is_bool(e):
        return z3.If(e, z3.IntVal(1), z3.IntVal(0))
    return e


def as_z3bool(c):
    if isinstance(c, SymBool):
        return c.e
    if isinstance(c, bool):
        return z3.BoolVal(c)
    c = to_z3(c)
    if not z3.is_bool(c):
        c = c != 0
    return c


def wrap(e):
    if isinstance(e, (int, float, bool)) and not isinstance(e, z3.ExprRef):
        return e
    if z3.is_bool(e):
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SymBool(e)
    if z3.is_int(e):
        if z3.is_int_value(e):
            return e.as_long()
        return SymInt(e)
    return SymReal(e)


# opaque functions with instantiated axioms
FDIV = z3.Function("fdiv", INT, INT, INT)
FMOD = z3.Function("fmod", INT, INT, INT)
SUMF = z3.Function("Sum", INT, INT, z3.ArraySort(INT, REAL), REAL)
ISUMF = z3.Function("ISum", INT, INT, z3.ArraySort(INT, INT), INT)
OPQ = {}


def opaque(name, *sorts):
    key = (name,) + tuple(str(s) for s in sorts)
    if key not in OPQ:
        OPQ[key] = z3.Function(name, *sorts)
    return OPQ[key]


def rfun(name, *args):
    return opaque(name, *([REAL] * (len(args) + 1)))(*[to_real(a) for a in args])


def _poly_in(e, n):
    """Write integer term e as q*n + r (syntactic polynomial division), or None."""
    e = z3.simplify(e, som=True)
    n = z3.simplify(n)
    terms = e.children() if z3.is_add(e) else [e]
    nf = sorted([c.get_id() for c in (n.children() if z3.is_mul(n) else [n])])
    ncoef = 1
    q, r = [], []
    for t in terms:
        fs = list(t.children()) if z3.is_mul(t) else [t]
        # expand powers
        ex = []
        for f in fs:
            if f.decl().kind() == z3.Z3_OP_POWER and z3.is_int_value(f.arg(1)) and f.arg(1).as_long() >= 1:
                ex += [f.arg(0)] * f.arg(1).as_long()
            else:
                ex.append(f)
        fs = ex
        need = list(nf)
        rest = []
        for f in fs:
            if f.get_id() in need:
                need.remove(f.get_id())
            else:
                rest.append(f)
        if not need and not z3.is_int_value(t):
            p = z3.IntVal(1)
            for f in rest:
                p = p * f
            q.append(p)
        else:
            r.append(t)
    if not q:
        return None
    return z3.simplify(z3.Sum(q)), (z3.simplify(z3.Sum(r)) if r else z3.IntVal(0))


def fdivmod(a, b):
    """Python floor division / modulo on z3 Ints (b nonzero)."""
    ctx = Ctx.cur
    a, b = z3.simplify(to_int(a)), z3.simplify(to_int(b))
    if z3.is_int_value(a) and z3.is_int_value(b):
        return z3.IntVal(a.as_long() // b.as_long()), z3.IntVal(a.as_long() % b.as_long())
    if z3.is_int_value(b):
        bv = b.as_long()
        if bv == 0:
            raise ZeroDivisionError
        if bv > 0:
            if bv == 1:
                return a, z3.IntVal(0)
            return a / b, a % b
        return (-a) / (-b), -((-a) % (-b))
    if z3.eq(a, b):
        return z3.IntVal(1), z3.IntVal(0)
    if ctx is not None:
        pr = _poly_in(a, b)
        if pr is not None:
            q, r = pr
            if z3.is_int_value(r) and r.as_long() == 0:
                return q, r
            if ctx.entails(z3.And(r >= 0, r < b), 1500):
                return q, r
        if ctx.entails(z3.And(a >= 0, a < b), 800):
            return z3.IntVal(0), a
    return FDIV(a, b), FMOD(a, b)


def has_opq(e):
    return e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0


def subterms(fs):
    seen = set()
    stack = [f for f in fs]
    out = []
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            continue  # do not descend below binders
        out.append(t)
        stack.extend(t.children())
    return out


_HR = {}


def has_real(f):
    """mentions a real-valued term (cached)"""
    c = _HR.get(f.get_id())
    if c is None:
        if len(_HR) > 200000:
            _HR.clear()
        c = _HR[f.get_id()] = (any(z3.is_real(t) for t in subterms([f])) or _has_binder(f), f)
    return c[0]


def _has_binder(f):
    st, seen = [f], set()
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return True
        st.extend(t.children())
    return False


INST_HOOKS = []
_IC = {}
_AC = {}


def opaque_terms(f):
    """uninterpreted applications (and pi) of one formula, outside binders; cached per term"""
    k = f.get_id()
    c = _IC.get(k)
    if c is None:
        if len(_IC) > 200000:
            _IC.clear()
        out = []
        for t in subterms([f]):
            if not z3.is_app(t) or t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                continue
            if t.num_args() or t.decl().name() == "pi":
                out.append(t)
        c = _IC[k] = (f, tuple(out))
    return c[1]


def _term_axioms(t):
    k = t.get_id()
    c = _AC.get(k)
    if c is not None:
        return c[1]
    if len(_AC) > 200000:
        _AC.clear()
    n = t.decl().name()
    new = []
    if t.num_args() == 0:
        new = PI_AX
    elif n in ("fdiv", "fmod"):
        a, b = t.arg(0), t.arg(1)
        q, r = FDIV(a, b), FMOD(a, b)
        new.append(z3.Implies(b != 0, a == b * q + r))
        new.append(z3.Implies(b > 0, z3.And(r >= 0, r < b)))
        new.append(z3.Implies(b < 0, z3.And(r <= 0, r > b)))
        new.append(z3.Implies(z3.And(b > 0, a >= 0), z3.And(q >= 0, q <= a)))
        new.append(z3.Implies(z3.And(b > 0, a >= 0, a < b), z3.And(q == 0, r == a)))
    elif n == "sqrt":
        a = t.arg(0)
        new.append(z3.Implies(a >= 0, z3.And(t >= 0, t * t == a)))
        new.append(z3.Implies(a > 0, t > 0))
    elif n in ("sin", "cos"):
        new.append(z3.And(t >= -1, t <= 1))
    elif n == "exp":
        new.append(t > 0)
    elif n == "c2r_artifact":
        new.append(z3.Implies(t.arg(0) == 0, t == 0))
    elif n == "rfloor":
        a = t.arg(0)
        new.append(z3.And(z3.ToReal(t) <= a, a < z3.ToReal(t) + 1))
    _AC[k] = (t, new)
    return new


def linearize(fs, state=None):
    """Products of two or more non-constant integers replaced by constants, one per multiset of factors."""
    table, memo, keep = state if state is not None else ({}, {}, [])

    def factors(t):
        if z3.is_mul(t):
            return [f for c in t.children() for f in factors(c)]
        if t.decl().kind() == z3.Z3_OP_POWER and z3.is_int_value(t.arg(1)) and 0 < t.arg(1).as_long() < 6:
            return factors(t.arg(0)) * t.arg(1).as_long()
        return [t]

    def go(t):
        if t.get_id() in memo:
            return memo[t.get_id()][1]
        if z3.is_quantifier(t) or t.num_args() == 0:
            r = t
        elif z3.is_mul(t) or t.decl().kind() == z3.Z3_OP_POWER:
            fs_ = factors(t)
            num = [f for f in fs_ if z3.is_int_value(f) or z3.is_rational_value(f)]
            oth = sorted([go(f) for f in fs_ if not (z3.is_int_value(f) or z3.is_rational_value(f))], key=lambda f: f.get_id())
            if len(oth) <= 1:
                r = t.decl()(*[go(c) for c in t.children()]) if z3.is_mul(t) else t
            else:
                k = tuple(f.get_id() for f in oth)
                if k not in table:
                    table[k] = (oth, z3.Int(f"prod!{len(table)}") if z3.is_int(t) else z3.Real(f"prod!{len(table)}"))
                r = table[k][1]
                for c in num:
                    r = c * r
        elif t.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or (z3.is_eq(t) and z3.is_arith(t.arg(0))):
            # (not simplified as an atom: z3 would turn x*y >= 0 into a condition on the signs)
            d = z3.simplify(t.arg(0) - t.arg(1), som=True)
            keep.append(d)
            r = t.decl()(go(d), z3.IntVal(0) if z3.is_int(d) else z3.RealVal(0)) if not z3.is_eq(t) else go(d) == 0
        else:
            r = t.decl()(*[go(c) for c in t.children()])
        memo[t.get_id()] = (t, r)
        return r

    return [go(f) for f in fs]


def instantiate(fs):
    """Axiom instances for the opaque functions occurring (outside binders) in fs."""
    terms = {}
    for f in fs:
        for t in opaque_terms(f):
            terms[t.get_id()] = t
    ax = []
    for h in INST_HOOKS:
        ax += h(terms.values())
    for f in ax:
        for t in opaque_terms(f):
            terms[t.get_id()] = t
    done = set()
    fd = set()
    todo = list(terms.values())
    for _ in range(3):
        new = []
        for t in todo:
            if t.get_id() in done:
                continue
            done.add(t.get_id())
            if t.num_args() == 2 and t.decl().name() in ("fdiv", "fmod"):
                key = (t.arg(0).get_id(), t.arg(1).get_id())
                if key in fd:
                    continue
                fd.add(key)
            new += _term_axioms(t)
        if not new:
            break
        ax += new
        todo = [t for f in new for t in opaque_terms(f)]
    return ax


def mk_sum(lo, hi, f):
    """Sum_{k=lo}^{hi-1} f(k) as an opaque term over a lambda."""
    k = z3.Int(f"k!s{next(_ctr)}")
    body = to_real(f(k))
    lo, hi = to_int(lo), to_int(hi)
    body = z3.simplify(body)
    if z3.is_rational_value(body) and body.as_fraction() == 0:
        return z3.RealVal(0)
    if z3.is_int_value(z3.simplify(lo)) and z3.is_int_value(z3.simplify(hi)):
        l, h = z3.simplify(lo).as_long(), z3.simplify(hi).as_long()
        if h - l <= 4:
            return z3.Sum([z3.substitute(body, (k, z3.IntVal(i))) for i in range(l, h)]) if h > l else z3.RealVal(0)
    return SUMF(lo, hi, z3.Lambda([k], body))


_ctr = itertools.count(1)


# --------------------------------------------------------------------------- equality prover
def monomials(e):
    """Real term -> list of (coef z3 real factors list). Distributes + and * by numeric/atom products."""
    if z3.is_add(e):
        return [m for c in e.children() for m in monomials(c)]
    if z3.is_sub(e):
        ch = e.children()
        out = monomials(ch[0])
        for c in ch[1:]:
            out += [[z3.RealVal(-1)] + m for m in monomials(c)]
        return out
    if e.decl().kind() == z3.Z3_OP_UMINUS:
        return [[z3.RealVal(-1)] + m for m in monomials(e.arg(0))]
    if z3.is_mul(e):
        res = [[]]
        for c in e.children():
            ms = monomials(c)
            if len(res) * len(ms) > 64:
                return [[e]]
            res = [a + b for a in res for b in ms]
        return res
    if e.decl().kind() == z3.Z3_OP_DIV and z3.is_rational_value(e.arg(1)):
        return [[z3.RealVal(1) / e.arg(1)] + m for m in monomials(e.arg(0))]
    if e.decl().kind() == z3.Z3_OP_DIV:
        return [[1 / e.arg(1)] + m for m in monomials(e.arg(0))]
    return [[e]]


def mentions(e, k):
    kid = k.get_id()
    seen = set()
    st = [e]
    while st:
        t = st.pop()
        if t.get_id() == kid:
            return True
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            st.append(t.body())
        else:
            st.extend(t.children())
    return False


def resolve_ites(ctx, e, hyps, cache):
    """Replace If(c, x, y) by x or y where the hypotheses decide c (not descending into sum bodies)."""
    memo = {}
    base = None

    def dec(c):
        nonlocal base
        k = c.get_id()
        if k not in cache:
            if base is None:
                base = ctx.pc + ctx.axioms + hyps
            if has_real_opaque(c):
                v = None
            elif ctx._check(base + [z3.Not(c)], timeout_ms=800) == z3.unsat:
                v = True
            elif ctx._check(base + [c], timeout_ms=800) == z3.unsat:
                v = False
            else:
                v = None
            cache[k] = (v, c)
        return cache[k][0]

    def go(t):
        if t.get_id() in memo:
            return memo[t.get_id()][0]
        if z3.is_quantifier(t) or t.num_args() == 0:
            r = t
        elif t.decl().kind() == z3.Z3_OP_ITE and z3.is_real(t):
            d = dec(t.arg(0))
            if d is True:
                r = go(t.arg(1))
            elif d is False:
                r = go(t.arg(2))
            else:
                r = z3.If(t.arg(0), go(t.arg(1)), go(t.arg(2)))
        elif t.decl().name() == "Sum" or z3.is_bool(t):
            r = t
        else:
            r = t.decl()(*[go(c) for c in t.children()])
        memo[t.get_id()] = (r, t)
        return r

    return go(e)


def has_real_opaque(c):
    """condition over real-valued opaque terms: not worth deciding here"""
    for t in subterms([c]):
        if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_real(t):
            return True
    return False


def norm_sums(e, ctx=None, hyps=()):
    """Normalise Sum terms: linearity (split +, pull out factors not depending on the index), and
    conditionals decided by the hypotheses and the index range resolved."""
    memo = {}
    hyps = list(hyps)
    if ctx is not None:
        e = z3.simplify(resolve_ites(ctx, e, hyps, {}))

    def go(t):
        if t.get_id() in memo:
            return memo[t.get_id()][0]
        if z3.is_quantifier(t) or t.num_args() == 0:
            r = t
        elif t.decl().name() == "Sum" and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_quantifier(t.arg(2)):
            lo, hi, lam = t.children()
            k = z3.Int(f"k!n{next(_ctr)}")
            body = z3.substitute_vars(lam.body(), k)
            if ctx is not None:
                body = norm_sums(body, ctx, hyps + [k >= lo, k < hi])
            else:
                body = go(body)
            parts = []
            for m in monomials(body):
                inn = [f for f in m if mentions(f, k)]
                out = [f for f in m if not mentions(f, k)]
                b = z3.RealVal(1)
                for f in inn:
                    b = b * f if len(inn) else b
                p = SUMF(lo, hi, z3.Lambda([k], z3.simplify(b)))
                for f in out:
                    p = f * p
                parts.append(p)
            r = z3.Sum(parts) if len(parts) > 1 else parts[0]
        else:
            r = t.decl()(*[go(c) for c in t.children()])
        memo[t.get_id()] = (r, t)
        return r

    return go(e)


def abstract(e, table, hold):
    """Replace outermost opaque apps with sum/real-function heads by constants (structural identity)."""
    memo = {}

    def go(t):
        if t.get_id() in memo:
            return memo[t.get_id()][0]
        if z3.is_quantifier(t) or t.num_args() == 0:
            r = t
        elif t.decl().kind() == z3.Z3_OP_UNINTERPRETED and "@" not in t.decl().name():
            key = t.get_id()
            if key not in table:
                table[key] = z3.Const(f"abs!{len(table)}", t.sort())
                hold.append((t, table[key]))
            r = table[key]
        else:
            r = t.decl()(*[go(c) for c in t.children()])
        memo[t.get_id()] = (r, t)
        return r

    return go(e)


MAXDEPTH = 8


def leafs(fs):
    """names of the uninterpreted symbols of the formulas"""
    return {t.decl().name() for t in subterms(list(fs)) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED}


def has_quant(f):
    st, seen = [f], set()
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t) and not t.is_lambda():
            return True
        st.extend(t.children())
    return False


VALUE_HOOKS = []  # term -> candidate values it may be known to have


SUM_HOOKS = []  # Sum term -> equal term or None (proved rewriting lemmas)


class Canon:
    """Canonical form of a term over the known facts: decided conditionals are resolved (also below binders,
    under the range of the summation index), commutative arguments are ordered, bound variables are renamed."""

    def __init__(self, ctx, hyps):
        self.ctx, self.hyps = ctx, list(hyps)
        self.dec, self.keys, self.hold = {}, {}, []

    def decide(self, c, extra):
        k = (c.get_id(), tuple(h.get_id() for h in extra))
        if k not in self.dec and has_real_opaque(c):
            self.dec[k] = None
            self.hold.append((c, extra))
        if k not in self.dec:
            base = self.ctx.pc + self.ctx.axioms + self.hyps + extra
            r = None
            if self.ctx._check(base + [z3.Not(c)], timeout_ms=800) == z3.unsat:
                r = True
            elif self.ctx._check(base + [c], timeout_ms=800) == z3.unsat:
                r = False
            self.dec[k] = r
            self.hold.append((c, extra))
        return self.dec[k]

    def key(self, t):
        k = t.get_id()
        c = self.keys.get(k)
        if c is None:
            if z3.is_quantifier(t):
                c = hash(("q", self.key(t.body())))
            elif z3.is_var(t):
                c = hash(("v", z3.get_var_index(t)))
            elif t.num_args() == 0:
                c = hash(("c", str(t)))
            else:
                c = hash((t.decl().name(), t.decl().kind(), tuple(self.key(x) for x in t.children())))
            self.keys[k] = c
            self.hold.append(t)
        return c

    def go(self, t, lv=0, extra=(), memo=None):
        extra = list(extra)
        memo = {} if memo is None else memo
        m = memo.get(t.get_id())
        if m is not None:
            return m[0]
        if z3.is_quantifier(t):
            if t.is_lambda() and t.num_vars() == 1:
                r = self.lam(t, lv, extra)
            else:
                r = t
        elif z3.is_var(t) or t.num_args() == 0:
            r = t
        elif z3.is_app_of(t, z3.Z3_OP_ITE):
            c = z3.simplify(t.arg(0))
            d = True if z3.is_true(c) else False if z3.is_false(c) else self.decide(c, extra)
            if d is None:
                r = z3.If(self.cond(c, lv, extra, memo), self.go(t.arg(1), lv, extra, memo), self.go(t.arg(2), lv, extra, memo))
            else:
                r = self.go(t.arg(1 if d else 2), lv, extra, memo)
        elif t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() == "Sum" and z3.is_quantifier(t.arg(2)):
            lo, hi = self.go(t.arg(0), lv, extra, memo), self.go(t.arg(1), lv, extra, memo)
            r = SUMF(lo, hi, self.lam(t.arg(2), lv, extra, (t.arg(0), t.arg(1))))
            for h in SUM_HOOKS:
                r2 = h(self.ctx, r)
                if r2 is not None:
                    r = self.go(r2, lv, extra)
                    break
        else:
            ch = [self.go(x, lv, extra, memo) for x in t.children()]
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and "@" in t.decl().name():
                u = t.decl()(*ch)
                for h in VALUE_HOOKS:
                    for cand in h(u):
                        if self.decide(u == cand, []):
                            memo[t.get_id()] = (cand, t)
                            return cand
            if t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR):
                ch.sort(key=self.key)
            r = t.decl()(*ch) if t.decl().kind() not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL) else (z3.Sum(ch) if z3.is_add(t) else z3.Product(ch))
        memo[t.get_id()] = (r, t)
        return r

    def cond(self, c, lv, extra, memo):
        """an undecided condition without its decided parts"""
        k = c.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            out = []
            for x in c.children():
                d = self.decide(x, extra)
                if d is None:
                    out.append(self.cond(x, lv, extra, memo))
                elif d != (k == z3.Z3_OP_AND):
                    return z3.BoolVal(d)
            out.sort(key=self.key)
            if len(out) == 1:
                return out[0]
            return z3.And(out) if k == z3.Z3_OP_AND else z3.Or(out)
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.cond(c.arg(0), lv, extra, memo))
        return self.go(c, lv, extra, memo)

    def lam(self, l, lv, extra, rng=None):
        v = z3.Const(f"cv!{lv}", l.var_sort(0))
        body = z3.substitute_vars(l.body(), v)
        ex = list(extra) + ([v >= rng[0], v < rng[1]] if rng else [])
        body = z3.simplify(self.go(body, lv + 1, ex))
        body = self.go(body, lv + 1, ex)
        return z3.Lambda([v], body)


def canon_eq(ctx, a, b, hyps):
    c = Canon(ctx, hyps)
    for _ in range(2):
        a, b = z3.simplify(c.go(a)), z3.simplify(c.go(b))
    a, b = c.go(a), c.go(b)
    return z3.eq(a, b)


def eq_prover(ctx, a, b, hyps, depth):
    """Returns (status, model, why)."""
    a, b = z3.simplify(a), z3.simplify(b)
    if z3.eq(a, b):
        return "proved", None, ""
    if depth == 0 and _has_sum(a) and canon_eq(ctx, a, b, hyps):
        return "proved", None, ""
    base = ctx.pc + ctx.axioms + hyps
    hasq = _has_sum(a) or _has_sum(b)
    if not hasq:
        r, m, why = ctx._check(base + [a != b], timeout_ms=min(ctx.timeout_ms, 3000), want_model=True)
        if r == z3.unsat:
            return "proved", None, ""
        first = (r, ctx.model_inputs(m) if m is not None else None, why)
    else:
        first = None
    if hasq:
        a, b = z3.simplify(norm_sums(a, ctx, hyps)), z3.simplify(norm_sums(b, ctx, hyps))
        if z3.eq(a, b):
            return "proved", None, ""
    # congruence matching on opaque applications
    table, hold = {}, []
    A = abstract(a, table, hold)
    na = len(hold)
    B = abstract(b, table, hold)
    ids_a = {t.get_id() for t, _ in hold[:na]}
    sub_b = set()
    # terms in b
    tb, hb = {}, []
    abstract(b, tb, hb)
    ids_b = {t.get_id() for t, _ in hb}
    only_a = [(t, c) for t, c in hold if t.get_id() in ids_a and t.get_id() not in ids_b]
    only_b = [(t, c) for t, c in hold if t.get_id() in ids_b and t.get_id() not in ids_a]
    eqs = []
    if depth < MAXDEPTH:
        usedb = set()
        matched = set()
        for t, c in only_a:
            for u, d in only_b:
                if u.get_id() in usedb or t.decl() != u.decl():
                    continue
                if match_apps(ctx, t, u, hyps, depth + 1):
                    eqs.append(c == d)
                    matched.update((t.get_id(), u.get_id()))
                    if t.decl().name() == "Sum":
                        usedb.add(u.get_id())
                    break
        # unmatched sums whose every term vanishes
        for t, c in only_a + only_b:
            if t.get_id() not in matched and t.decl().name() == "Sum" and z3.is_quantifier(t.arg(2)):
                k = ctx.fresh("k")
                body = z3.simplify(z3.substitute_vars(t.arg(2).body(), k))
                if ctx._check(ctx.pc + ctx.axioms + hyps + [k >= t.arg(0), k < t.arg(1), body != 0], timeout_ms=2000) == z3.unsat:
                    eqs.append(c == 0)
    if z3.is_real(a):
        from . import algebra

        if algebra.alg_prove(ctx, a, b, hyps, depth):
            return "proved", None, ""
    # instance axioms for the abstracted terms expressed over the abstraction
    inst = instantiate([a == b])
    insta = [abstract(f, table, hold) for f in inst]
    basea = [abstract(f, table, hold) for f in base]
    # first with the hypotheses that only speak about the terms of the goal
    seeds = leafs([A, B] + eqs + [abstract(h, table, hold) for h in hyps])
    rel = [f for f in basea if leafs([f]) <= seeds and not has_quant(f)]
    if len(rel) < len(basea) and ctx._check(rel + insta + eqs + [A != B], timeout_ms=1500) == z3.unsat:
        return "proved", None, ""
    r, m, why = ctx._check(basea + insta + eqs + [A != B], timeout_ms=ctx.timeout_ms, want_model=True)
    if r == z3.unsat:
        return "proved", None, ""
    # drop irrelevant hypotheses: pure algebra
    if r == z3.unknown:
        r2, m2, _ = ctx._check(insta + eqs + [A != B], timeout_ms=ctx.timeout_ms, want_model=True)
        if r2 == z3.unsat:
            return "proved", None, ""
        return "unknown", None, why
    if r == z3.sat:
        if first is not None and first[0] == z3.sat:
            return "refuted", first[1], ""
        return "open", ctx.model_inputs(m), ""
    return "unknown", None, why


def _has_lambda(e):
    return any(t.decl().name() == "Sum" for t in opaque_terms(e) if t.num_args() == 3)


def _has_sum(e):
    for t in subterms([e]):
        if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and "@" not in t.decl().name():
            return True
    return False


_SIG = {}


def signature(t):
    """names of the value symbols of a term (binders included), with their literal arguments"""
    c = _SIG.get(t.get_id())
    if c is not None:
        return c[1]
    if len(_SIG) > 100000:
        _SIG.clear()
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_real(x):
            n = x.decl().name()
            if n != "Sum":
                out.add(n)
        st.extend(x.children())
    r = frozenset(out)
    _SIG[t.get_id()] = (t, r)
    return r


def match_apps(ctx, t, u, hyps, depth):
    """congruence (memoised per fact base): equal heads, provably equal arguments"""
    key = (t.get_id(), u.get_id(), tuple(h.get_id() for h in hyps), tuple(h.get_id() for h in ctx.pc), tuple(h.get_id() for h in ctx.axioms))
    memo = ctx.__dict__.setdefault("_match_memo", {})
    c = memo.get(key)
    if c is None:
        c = memo[key] = (_match_apps(ctx, t, u, hyps, depth), t, u, list(hyps), list(ctx.pc), list(ctx.axioms))  # terms kept alive: ids stay unique
    return c[0]


def _match_apps(ctx, t, u, hyps, depth):
    if t.decl().name() in ("Sum",):
        if signature(t) != signature(u):
            return False
        lo1, hi1, l1 = t.children()
        lo2, hi2, l2 = u.children()
        if eq_prover(ctx, lo1, lo2, hyps, depth)[0] != "proved" or eq_prover(ctx, hi1, hi2, hyps, depth)[0] != "proved":
            return False
        k = ctx.fresh("k")
        b1 = z3.substitute_vars(l1.body(), k) if z3.is_quantifier(l1) else z3.Select(l1, k)
        b2 = z3.substitute_vars(l2.body(), k) if z3.is_quantifier(l2) else z3.Select(l2, k)
        return eq_prover(ctx, b1, b2, hyps + [k >= lo1, k < hi1], depth)[0] == "proved"
    for x, y in zip(t.children(), u.children()):
        if z3.eq(x, y):
            continue
        if x.sort() != y.sort() or not (z3.is_arith(x) or z3.is_bool(x)):
            return False
        if eq_prover(ctx, x, y, hyps, depth)[0] != "proved":
            return False
    return True


# --------------------------------------------------------------------------- symbolic python scalars
def _num(x):
    return isinstance(x, (int, float, SymInt, SymReal, SymBool, fractions.Fraction))


def s_add(a, b):
    a, b = to_z3(a), to_z3(b)
    if z3.is_bool(a):
        a = to_int(a)
    if z3.is_bool(b):
        b = to_int(b)
    if z3.is_int(a) and z3.is_int(b):
        return a + b
    return to_real(a) + to_real(b)


def s_mul(a, b):
    a, b = to_z3(a), to_z3(b)
    if z3.is_bool(a):
        a = to_int(a)
    if z3.is_bool(b):
        b = to_int(b)
    if z3.is_int(a) and z3.is_int(b):
        return a * b
    return to_real(a) * to_real(b)


def s_div(a, b):
    return to_real(a) / to_real(b)


def s_pow(a, n):
    if isinstance(n, (SymInt, SymReal)) or isinstance(n, z3.ExprRef):
        return rfun("pow", a, n)
    if isinstance(n, float) and n == 0.5:
        return rfun("sqrt", a)
    if isinstance(n, float) and n.is_integer():
        n = int(n)
    if isinstance(n, int):
        a = to_z3(a)
        if z3.is_bool(a):
            a = to_int(a)
        if n >= 0:
            r = z3.IntVal(1) if z3.is_int(a) else z3.RealVal(1)
            for _ in range(n):
                r = r * a
            return z3.simplify(r)
        r = z3.RealVal(1)
        for _ in range(-n):
            r = r * to_real(a)
        return 1 / r
    return rfun("pow", a, n)


class _SymNum:
    __slots__ = ("e",)
    __hash__ = None

    def __init__(self, e):
        self.e = e

    def _scalar_z3(self):
        return self.e

    def _bin(self, o, f, swap=False):
        if isinstance(o, (list, tuple)) and f is s_mul:
            return SymList.repeat(list(o), self)
        if isinstance(o, complex):
            from .symtorch import CVal
            return NotImplemented
        if not _num(o) and not isinstance(o, z3.ExprRef):
            return NotImplemented
        return wrap(z3.simplify(f(o, self) if swap else f(self, o)))

    def __add__(self, o):
        return self._bin(o, s_add)

    def __radd__(self, o):
        return self._bin(o, s_add, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: s_add(a, s_mul(-1, b)))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: s_add(a, s_mul(-1, b)), True)

    def __mul__(self, o):
        return self._bin(o, s_mul)

    def __rmul__(self, o):
        return self._bin(o, s_mul, True)

    def __truediv__(self, o):
        return self._bin(o, s_div)

    def __rtruediv__(self, o):
        return self._bin(o, s_div, True)

    def __pow__(self, n):
        return wrap(s_pow(self.e, n))

    def __rpow__(self, a):
        return wrap(rfun("pow", a, self.e))

    def __neg__(self):
        return wrap(z3.simplify(-to_int(self.e) if z3.is_bool(self.e) else -self.e))

    def __pos__(self):
        return self

    def _cmp(self, o, f):
        if o is None or isinstance(o, str):
            return NotImplemented
        if not _num(o) and not isinstance(o, z3.ExprRef):
            return NotImplemented
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            return f(0.0, o)
        a, b = to_z3(self), to_z3(o)
        if z3.is_bool(a):
            a = to_int(a)
        if z3.is_bool(b):
            b = to_int(b)
        if a.sort() != b.sort():
            a, b = to_real(a), to_real(b)
        return wrap(z3.simplify(f(a, b)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __bool__(self):
        return Ctx.cur.decide(as_z3bool(self.e))

    def __abs__(self):
        return wrap(z3.If(self.e >= 0, self.e, -self.e))

    def __repr__(self):
        return f"<{self.e}>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SymInt(_SymNum):
    __slots__ = ()

    def _dm(self, o, swap=False):
        a, b = (o, self) if swap else (self, o)
        if isinstance(a, float) or isinstance(b, float) or isinstance(a, SymReal) or isinstance(b, SymReal):
            return _realdivmod(a, b)
        bz = to_int(b)
        if Ctx.cur.entails(bz == 0):
            raise ZeroDivisionError
        return fdivmod(a, bz)

    def __floordiv__(self, o):
        if not _num(o):
            return NotImplemented
        return wrap(z3.simplify(self._dm(o)[0]))

    def __rfloordiv__(self, o):
        return wrap(z3.simplify(self._dm(o, True)[0]))

    def __mod__(self, o):
        if not _num(o):
            return NotImplemented
        return wrap(z3.simplify(self._dm(o)[1]))

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return wrap(z3.simplify(self._dm(o, True)[1]))

    def __divmod__(self, o):
        q, r = self._dm(o)
        return wrap(q), wrap(r)

    def __rdivmod__(self, o):
        q, r = self._dm(o, True)
        return wrap(q), wrap(r)

    def __index__(self):
        # a concrete integer is demanded: only legal when the value is determined
        v = concretise(self.e)
        if v is None:
            raise Unsupported(f"concrete integer demanded for symbolic {self.e}")
        return v

    def __int__(self):
        return self.__index__()

    def __float__(self):
        raise Unsupported("float() of symbolic int outside shim")

    def __format__(self, spec):
        return str(self.e)

    def __and__(self, o):
        if isinstance(o, int) and o == 1:
            return self % 2
        raise Unsupported("bitwise and")

    def __rshift__(self, o):
        if isinstance(o, int):
            return self // (1 << o)
        raise Unsupported("shift")

    def __lshift__(self, o):
        if isinstance(o, int):
            return self * (1 << o)
        raise Unsupported("shift")

    def item(self):
        return self


def _realdivmod(a, b):
    x = to_real(a) / to_real(b)
    f = opaque("rfloor", REAL, INT)(x)
    return z3.ToReal(f), to_real(a) - to_real(b) * z3.ToReal(f)


def concretise(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    ctx = Ctx.cur
    s = z3.Solver()
    s.set("timeout", 3000)
    fs = ctx.pc + ctx.axioms + [e == e]
    for f in fs + instantiate(fs):
        s.add(f)
    if s.check() != z3.sat:
        return None
    v = s.model().eval(e, model_completion=True)
    if not z3.is_int_value(v):
        return None
    if ctx.entails(e == v):
        return v.as_long()
    return None


class SymReal(_SymNum):
    __slots__ = ()

    def __floordiv__(self, o):
        return wrap(_realdivmod(self, o)[0])

    def __mod__(self, o):
        return wrap(_realdivmod(self, o)[1])

    def __float__(self):
        raise Unsupported("float() of symbolic real outside shim")

    def __format__(self, spec):
        return str(self.e)

    def item(self):
        return self

    def is_integer(self):
        raise Unsupported("is_integer")


class SymBool(_SymNum):
    __slots__ = ()

    def __and__(self, o):
        return wrap(z3.And(self.e, as_z3bool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return wrap(z3.Or(self.e, as_z3bool(o)))

    __ror__ = __or__

    def __invert__(self):
        return wrap(z3.Not(self.e))

    def __xor__(self, o):
        return wrap(z3.Xor(self.e, as_z3bool(o)))

    def __index__(self):
        return int(bool(self))

    def any(self):
        return self

    def all(self):
        return self

    def item(self):
        return self


# --------------------------------------------------------------------------- symbolic lists
class SymList:
    """List of symbolic length: concatenation of segments (length, index -> value)."""

    __hash__ = None

    def __init__(self, segs):
        self.segs = segs  # list of (len z3/int, fn(i)->value, const?)

    @staticmethod
    def of(lst):
        if isinstance(lst, SymList):
            return lst
        lst = list(lst)
        return SymList([(1, (lambda v: (lambda i: v))(v)) for v in lst])

    @staticmethod
    def repeat(lst, n):
        n = to_int(n)
        n0 = z3.If(n >= 0, n, z3.IntVal(0))
        if Ctx.cur.entails(n >= 0):
            n0 = n
        if len(lst) == 1:
            v = lst[0]
            return SymList([(n0, lambda i: v)])
        raise Unsupported("list repetition of a multi-element list by a symbolic count")

    def length(self):
        r = z3.IntVal(0)
        for l, _ in self.segs:
            r = r + to_int(l)
        return wrap(z3.simplify(r))

    def __add__(self, o):
        return SymList(self.segs + SymList.of(o).segs)

    def __radd__(self, o):
        return SymList(SymList.of(o).segs + self.segs)

    def at(self, i):
        i = to_int(i)
        off = z3.IntVal(0)
        out = None
        pieces = []
        for l, f in self.segs:
            pieces.append((off, l, f))
            off = off + to_int(l)
        res = None
        for off, l, f in reversed(pieces):
            v = f(z3.simplify(i - off))
            if isinstance(v, (int, float, SymInt, SymReal, SymBool, z3.ExprRef)):
                v = to_z3(v)
            if res is None:
                res = v
            else:
                res = z3.If(i < off + to_int(l), v, res)
        return wrap(z3.simplify(res)) if isinstance(res, z3.ExprRef) else res

    def __getitem__(self, i):
        n = to_int(self.length())
        if isinstance(i, slice):
            if i.start in (None, 0) and i.stop == -1 and i.step is None:
                l, f = self.segs[-1]
                if Ctx.cur.entails(to_int(l) >= 1):
                    return SymList(self.segs[:-1] + [(z3.simplify(to_int(l) - 1), f)])
            raise Unsupported("slice of symbolic list")
        iz = to_int(i)
        Ctx.cur.prove("list-index-in-bounds", z3.And(iz >= -n, iz < n))
        Ctx.cur.assume(z3.And(iz >= -n, iz < n))
        if not Ctx.cur.entails(iz >= 0):
            iz = z3.If(iz < 0, iz + n, iz)
        return self.at(iz)

    def __iter__(self):
        n = concretise(to_int(self.length()))
        if n is None:
            raise Unsupported("iteration over a list of symbolic length")
        for i in range(n):
            yield self.at(i)

    def prefix(self, r):
        """Sum of the first r entries, closed form for piecewise-constant lists."""
        r = to_int(r)
        off = z3.IntVal(0)
        tot = z3.IntVal(0)
        for l, f in self.segs:
            l = to_int(l)
            v0, v1 = f(z3.Int("i!x")), f(z3.Int("i!y"))
            if not z3.eq(z3.simplify(to_z3(v0)), z3.simplify(to_z3(v1))):
                raise Unsupported("prefix sum of a non-constant segment")
            cnt = z3.If(r <= off, z3.IntVal(0), z3.If(r >= off + l, l, r - off))
            tot = tot + cnt * to_z3(v0)
            off = off + l
        return tot

    def total(self):
        return self.prefix(self.length())
