"""Algebraic back end for equalities: case-split the ites, orient definitional equalities,
then compare rational normal forms with canonical square roots (sympy polynomials).

Side conditions (denominators nonzero, radicands' factors nonnegative, rewriting guards,
argument equality of opaque applications) are discharged by z3 under the path condition."""
import time
import sympy as sp
import z3
from . import symcore as sc


class Fail(Exception):
    pass


def _flatten_and(fs):
    out, st = [], list(fs)
    while st:
        f = st.pop()
        if z3.is_and(f):
            st.extend(f.children())
        else:
            out.append(f)
    return out


def find_ite(e, seen=None):
    """First ite condition outside binders (innermost-first so conditions are ite-free)."""
    st = [e]
    seen = set()
    while st:
        t = st.pop()
        if t.get_id() in seen or z3.is_quantifier(t):
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            c = t.arg(0)
            inner = find_ite(c)
            return inner if inner is not None else c
        st.extend(t.children())
    return None


def assume_in(e, c, val):
    """Replace ite(c,..) by its branch."""
    return z3.simplify(z3.substitute(e, (c, z3.BoolVal(val))))


def leaves(ctx, a, b, hyps, depth=0, budget=None):
    budget = budget if budget is not None else [96]
    c = find_ite(a)
    if c is None:
        c = find_ite(b)
    if c is None:
        yield a, b, hyps
        return
    budget[0] -= 1
    if budget[0] < 0:
        raise Fail("too many cases")
    base = ctx.pc + ctx.axioms + hyps
    for val in (True, False):
        h = c if val else z3.Not(c)
        if ctx._check(base + [h], timeout_ms=1500) == z3.unsat:
            continue
        yield from leaves(ctx, assume_in(a, c, val), assume_in(b, c, val), hyps + [h], depth + 1, budget)


def solve_eqs(fs):
    """Explicit equalities var == term usable as substitutions."""
    subs = []
    for f in _flatten_and(fs):
        if z3.is_eq(f) and z3.is_arith(f.arg(0)):
            l, r = f.arg(0), f.arg(1)
            for x, t in ((l, r), (r, l)):
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" in x.decl().name() and not sc.mentions(t, x):
                    subs.append((x, t))
                    break
            else:
                # linear: v + c == t
                d = z3.simplify(l - r)
                subs += _linear_solve(d)
    return subs


def _linear_solve(d):
    ts = d.children() if z3.is_add(d) else [d]
    for t in ts:
        co, v = 1, t
        if z3.is_mul(t) and t.num_args() == 2 and z3.is_rational_value(t.arg(0)) or (z3.is_mul(t) and z3.is_int_value(t.arg(0))):
            co, v = t.arg(0), t.arg(1)
            if not (z3.is_int_value(co) and abs(co.as_long()) == 1):
                continue
            co = co.as_long()
        if z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" in v.decl().name():
            rest = z3.Sum([u for u in ts if u.get_id() != t.get_id()]) if len(ts) > 1 else z3.IntVal(0)
            if sc.mentions(rest, v):
                continue
            return [(v, z3.simplify(-rest if co == 1 else rest))]
    return []


class Conv:
    def __init__(self, ctx, hyps, depth):
        self.ctx, self.hyps, self.depth = ctx, hyps, depth
        self.sym = {}
        self.classes = []  # (term, symbol)
        self.fac = {}  # sympy expr of factor -> (rootsymbol)
        self.roots = {}
        self.n = 0
        self.signc = {}
        self.back = {}
        self.sub = []

    def fresh(self, p="a"):
        self.n += 1
        return sp.Symbol(f"{p}{self.n}", real=True)

    def entails(self, c):
        return self.ctx._check(self.ctx.pc + self.ctx.axioms + self.hyps + [z3.Not(c)], timeout_ms=2500) == z3.unsat

    def atom(self, t):
        k = t.get_id()
        if k in self.sym:
            return self.sym[k][0]
        if t.num_args():
            for u, s in self.classes:
                if u.decl() == t.decl() and sc.match_apps(self.ctx, u, t, self.hyps, self.depth + 1):
                    self.sym[k] = (s, t)
                    return s
        s = self.fresh()
        self.sym[k] = (s, t)
        self.back[s] = t
        if t.num_args():
            self.classes.append((t, s))
        return s

    def defs_for(self, t):
        for i, (lhs, rhs, cond) in enumerate(getattr(self.ctx, "defs", [])):
            if lhs.decl() != t.decl():
                continue
            if not all(self.eqi(x, y) for x, y in zip(lhs.children(), t.children())):
                continue
            if cond is not None and not self.entails(cond):
                continue
            return i, rhs
        return None

    def eqi(self, x, y):
        if z3.eq(x, y):
            return True
        return self.entails(x == y)

    def go(self, t):
        k = t.decl().kind() if z3.is_app(t) else None
        if z3.is_rational_value(t):
            f = t.as_fraction()
            return sp.Rational(f.numerator, f.denominator)
        if z3.is_int_value(t):
            return sp.Integer(t.as_long())
        if k == z3.Z3_OP_ADD:
            return sp.Add(*[self.go(c) for c in t.children()])
        if k == z3.Z3_OP_SUB:
            c = [self.go(x) for x in t.children()]
            return c[0] - sp.Add(*c[1:])
        if k == z3.Z3_OP_UMINUS:
            return -self.go(t.arg(0))
        if k == z3.Z3_OP_MUL:
            return sp.Mul(*[self.go(c) for c in t.children()])
        if k == z3.Z3_OP_TO_REAL:
            return self.go(t.arg(0))
        if k == z3.Z3_OP_DIV:
            if not self.entails(t.arg(1) != 0):
                raise Fail(f"denominator may vanish: {sc.short(t.arg(1),80)}")
            return self.go(t.arg(0)) / self.go(t.arg(1))
        if k == z3.Z3_OP_POWER:
            e = t.arg(1)
            if z3.is_rational_value(e) and e.as_fraction().denominator == 1:
                return self.go(t.arg(0)) ** e.as_fraction().numerator
        if k == z3.Z3_OP_UNINTERPRETED:
            if t.decl().name() == "sqrt":
                return self.sqrt(t.arg(0))
            if t.num_args():
                d = self.defs_for(t)
                if d is not None:
                    rhs = d[1]
                    for _ in range(3):
                        if self.sub:
                            rhs = z3.simplify(z3.substitute(rhs, *self.sub))
                    return self.go(rhs)
            return self.atom(t)
        return self.atom(t)

    def to_z3(self, e):
        if e.is_Rational:
            return z3.RealVal(f"{e.p}/{e.q}")
        if e.is_Symbol:
            if e in self.back:
                return sc.to_real(self.back[e])
            if e in self.roots:
                return sc.rfun("sqrt", self.to_z3(self.roots[e]))
            raise Fail("symbol")
        if e.is_Add:
            return z3.Sum([self.to_z3(x) for x in e.args])
        if e.is_Mul:
            r = self.to_z3(e.args[0])
            for x in e.args[1:]:
                r = r * self.to_z3(x)
            return r
        if e.is_Pow and e.exp.is_Integer and e.exp > 0:
            b = self.to_z3(e.base)
            r = b
            for _ in range(int(e.exp) - 1):
                r = r * b
            return r
        raise Fail(f"to_z3 {e}")

    def sign(self, e):
        """+1 if e >= 0 entailed, -1 if e <= 0 entailed, 0 unknown."""
        if e in self.signc:
            return self.signc[e]
        if e.is_Rational:
            r = 1 if e >= 0 else -1
        else:
            z = self.to_z3(e)
            r = 1 if self.entails(z >= 0) else (-1 if self.entails(z <= 0) else 0)
        self.signc[e] = r
        return r

    def root(self, f):
        for s, g in self.roots.items():
            if sp.expand(g - f) == 0:
                return s
        s = self.fresh("r")
        self.roots[s] = f
        return s

    def sqrt(self, arg):
        e = sp.together(self.go(arg))
        num, den = sp.fraction(sp.cancel(e))
        coef = sp.Integer(1)
        facs = {}
        for p, sgn in ((num, 1), (den, -1)):
            c, fl = sp.factor_list(p)
            coef = coef * c**sgn
            for f, m in fl:
                facs[f] = facs.get(f, 0) + sgn * m
        out = sp.Integer(1)
        left = sp.Integer(1)
        for f, m in facs.items():
            if f in self.roots:
                pass
            s = self.sign(f)
            if s < 0:
                f, s = -f, 1
                coef = coef * (-1) ** (m % 2)
            if s > 0:
                q, r = divmod(m, 2)
                out = out * f**q
                if r:
                    out = out * self.root(f)
            elif m % 2 == 0:
                raise Fail("sqrt of square of unknown sign")
            else:
                q, r = divmod(m, 2)
                if q:
                    raise Fail("sqrt factor of unknown sign with power")
                left = left * f
        if coef < 0:
            left = -left
            coef = -coef
        if left != 1:
            out = out * self.root(sp.expand(left))
        # rational coefficient: split into primes
        for n, sgn in ((sp.Rational(coef).p, 1), (sp.Rational(coef).q, -1)):
            for p, m in sp.factorint(int(n)).items():
                q, r = divmod(m * sgn, 2)
                out = out * sp.Integer(p) ** q
                if r:
                    out = out * self.root(sp.Integer(p))
        return out

    def is_zero(self, e):
        num, den = sp.fraction(sp.together(sp.expand(e)))
        num = sp.expand(num)
        for _ in range(12):
            ch = False
            for s, f in self.roots.items():
                if num.has(s):
                    p = sp.Poly(num, s)
                    if p.degree() >= 2:
                        acc = 0
                        for (d,), c in p.terms():
                            acc += c * f ** (d // 2) * s ** (d % 2)
                        num = sp.expand(acc)
                        ch = True
            if num == 0:
                return True
            num, den = sp.fraction(sp.together(num))
            num = sp.expand(num)
            if not ch:
                break
        return sp.expand(num) == 0


def alg_prove(ctx, a, b, hyps, depth=0, budget_s=25):
    """True iff proved."""
    t0 = time.time()
    try:
        for la, lb, lh in leaves(ctx, a, b, list(hyps)):
            if time.time() - t0 > budget_s:
                return False
            if z3.eq(la, lb):
                continue
            sub = solve_eqs(lh + ctx.pc)
            for _ in range(3):
                if sub:
                    la, lb = z3.simplify(z3.substitute(la, *sub)), z3.simplify(z3.substitute(lb, *sub))
            if z3.eq(la, lb):
                continue
            if not (z3.is_real(la) and z3.is_real(lb)):
                if ctx._check(ctx.pc + ctx.axioms + lh + [la != lb], timeout_ms=3000) == z3.unsat:
                    continue
                return False
            cv = Conv(ctx, lh, depth)
            cv.sub = sub
            if not cv.is_zero(cv.go(la) - cv.go(lb)):
                if ctx._check(ctx.pc + ctx.axioms + lh, timeout_ms=2000) == z3.unsat:
                    continue
                return False
        return True
    except (Fail, RecursionError, NotImplementedError, sp.PolynomialError, ZeroDivisionError) as e:
        ctx.last_alg = str(e)
        return False
