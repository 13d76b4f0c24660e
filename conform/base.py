"""Concrete contract conformance on the real code (bounded search / counterexample replay).

A case calls the real repository code on concrete inputs and compares with the contract's
postcondition evaluated by an independent oracle.  Outcomes:
  violation : the real code broke the postcondition on a concrete, recorded input
  skip      : an internal helper named by the contract is not there any more (refactored away)
"""
import contextlib, importlib, json, math, os, random, sys, time, traceback

import numpy as np
import torch

torch.set_num_threads(1)


class Skip(Exception):
    pass


class Violation(Exception):
    pass


class Run:
    def __init__(self, prop, tier, seed, deadline, hints):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.deadline = deadline
        self.hints = hints or []
        self.cases = 0
        self.skips = []
        self.violations = []
        self.errors = []
        self.counts = {}
        self.rng = random.Random(seed * 7919 + 13)
        self.thorough = tier == "thorough"
        self.known = []

    def left(self):
        return self.deadline - time.time()

    def case(self, name, fn, *args, **kw):
        """Run one concrete case."""
        if self.left() < 0:
            self.counts["not_run_out_of_time"] = self.counts.get("not_run_out_of_time", 0) + 1
            return None
        if len(self.violations) >= 5:
            return None
        self.cases += 1
        key = name.split("[")[0]
        self.counts[key] = self.counts.get(key, 0) + 1
        seed_all(self.seed, name)
        try:
            fn(*args, **kw)
            return True
        except Skip as e:
            self.skips.append(f"{name}: {e}")
        except Violation as e:
            self.violations.append(dict(case=name, args=_rep(args), kwargs=_rep(kw), what=str(e)))
            return False
        except Exception as e:
            self.errors.append(dict(case=name, args=_rep(args), kwargs=_rep(kw), what=f"{type(e).__name__}: {e}", trace=traceback.format_exc()[-2000:]))
        return None


    def batch(self, cases, threads=1, stall=120):
        """Run cases [(name, fn, args...)] in forked children: a case that kills the process (memory fault, abort,
        exit) is a violation of that case and the rest goes on in a new child."""
        import select

        todo = list(cases)
        while todo and self.left() > 0 and len(self.violations) < 5:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    torch.set_num_threads(threads)
                    sub = Run(self.prop, self.tier, self.seed, self.deadline, self.hints)
                    with os.fdopen(w, "w") as f:
                        for n, c in enumerate(todo):
                            f.write(json.dumps(["start", n]) + "\n")
                            f.flush()
                            sub.violations, sub.skips, sub.errors = [], [], []
                            sub.case(c[0], c[1], *c[2:])
                            f.write(json.dumps(["done", n, sub.violations, sub.skips, sub.errors], default=str) + "\n")
                            f.flush()
                finally:
                    os._exit(0)
            os.close(w)
            cur, n_done, hung = None, 0, False
            buf = b""
            last = time.time()
            while True:
                rd, _, _ = select.select([r], [], [], 1.0)
                if rd:
                    d = os.read(r, 1 << 16)
                    if not d:
                        break
                    last = time.time()
                    buf += d
                    while b"\n" in buf:
                        line, buf = buf.split(b"\n", 1)
                        m = json.loads(line)
                        if m[0] == "start":
                            cur = m[1]
                        else:
                            n_done = m[1] + 1
                            cur = None
                            key = todo[m[1]][0].split("[")[0]
                            self.cases += 1
                            self.counts[key] = self.counts.get(key, 0) + 1
                            self.violations += m[2]
                            self.skips += m[3]
                            self.errors += m[4]
                            if len(self.violations) >= 5:
                                os.kill(pid, 9)
                elif time.time() - last > stall or self.left() < -5:
                    hung = time.time() - last > stall
                    os.kill(pid, 9)
            os.close(r)
            _, st = os.waitpid(pid, 0)
            if cur is not None and len(self.violations) < 5 and self.left() > -5:
                c = todo[cur]
                how = f"no progress for {stall} s" if hung else f"signal {os.WTERMSIG(st)}" if os.WIFSIGNALED(st) else f"exit status {os.WEXITSTATUS(st)}"
                self.cases += 1
                if hung:
                    self.errors.append(dict(case=c[0], args=_rep(c[2:]), kwargs="{}", what=how, trace=""))
                else:
                    self.violations.append(dict(case=c[0], args=_rep(c[2:]), kwargs="{}", what=f"the process died ({how}) in this call"))
                todo = todo[cur + 1 :]
            else:
                todo = todo[n_done:]
                if not n_done:
                    break


def _rep(x):
    s = repr(x)
    return s if len(s) < 2000 else s[:2000] + "..."


def seed_all(seed, name):
    h = sum((i + 1) * ord(c) for i, c in enumerate(name)) & 0xFFFFFF
    random.seed(seed * 1000003 + h)
    np.random.seed((seed * 100003 + h) & 0x7FFFFFFF)
    torch.manual_seed(seed * 1000003 + h)


def need(modname, *names):
    """Fetch repository names; a missing *internal* name means the code was reorganised: skip."""
    try:
        m = importlib.import_module(modname)
    except ModuleNotFoundError as e:
        if e.name and modname.startswith(e.name):
            raise Skip(f"module {modname} not present")
        raise
    out = []
    for n in names:
        if not hasattr(m, n):
            raise Skip(f"{modname}.{n} not present")
        out.append(getattr(m, n))
    if not names:
        return m
    return out[0] if len(out) == 1 else out


@contextlib.contextmanager
def must(what):
    """The contract says this call succeeds: an exception is a violation (not a harness error)."""
    try:
        yield
    except (Violation, Skip, ImportError):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        # a TypeError/AttributeError raised in the harness frame itself = signature drift -> skip
        if len(tb) <= 1 and isinstance(e, (TypeError, AttributeError)):
            raise Skip(f"{what}: harness/API mismatch {type(e).__name__}: {e}")
        raise Violation(f"{what}: raised {type(e).__name__}: {e}")


def raises(what, exc, fn):
    try:
        fn()
    except (Skip, ImportError):
        raise
    except exc:
        return
    except Exception as e:
        raise Violation(f"{what}: expected {exc}, raised {type(e).__name__}: {e}")
    raise Violation(f"{what}: expected an exception, call succeeded")


def check(cond, what):
    if not bool(cond):
        raise Violation(what)


def npa(x):
    if isinstance(x, torch.Tensor):
        x = x.detach().cpu().resolve_conj()
        if x.dtype in (torch.bfloat16, torch.float16):
            x = x.double()
        return x.numpy()
    return np.asarray(x)


def close(got, want, what, atol=1e-9, rtol=1e-9):
    g, w = npa(got), npa(want)
    if g.shape != w.shape:
        raise Violation(f"{what}: shape {g.shape} != expected {w.shape}")
    if g.size == 0:
        return
    if not np.all(np.isfinite(g) | ~np.isfinite(w)):
        bad = np.argwhere(~(np.isfinite(g) | ~np.isfinite(w)))[0]
        raise Violation(f"{what}: non-finite value {g[tuple(bad)]} at {tuple(int(i) for i in bad)}, expected {w[tuple(bad)]}")
    err = np.abs(g.astype(np.complex128 if np.iscomplexobj(g) else np.float64) - w)
    lim = atol + rtol * np.abs(w)
    bad = err > lim
    if np.any(bad):
        i = np.unravel_index(np.argmax(np.where(np.isfinite(err), err - lim, np.inf)), err.shape)
        raise Violation(f"{what}: at index {tuple(int(j) for j in i)} got {g[i]!r}, contract requires {w[i]!r} (|diff|={err[i]:.3e}, tol={lim[i]:.1e}; {int(bad.sum())}/{bad.size} elements differ)")


def close_rel(got, want, what, tol=1e-9):
    """Max-norm relative comparison."""
    w = npa(want)
    s = float(np.max(np.abs(w))) if w.size else 1.0
    close(got, want, what, atol=tol * max(s, 1e-3), rtol=0)


def same(got, want, what):
    g, w = npa(got), npa(want)
    if g.shape != w.shape:
        raise Violation(f"{what}: shape {g.shape} != expected {w.shape}")
    if not np.array_equal(g, w):
        i = np.argwhere(g != w)[0]
        raise Violation(f"{what}: at index {tuple(int(j) for j in i)} got {g[tuple(i)]!r}, contract requires {w[tuple(i)]!r}")


def adjoint(f, x, what, tol=1e-9):
    """f linear in x: the gradient propagated by autograd is the adjoint of the map (checked on random directions)"""
    x = x.clone().requires_grad_(True)
    with must(what + ": differentiation"):
        y = f(x)
        w = torch.randn_like(y)
        (g,) = torch.autograd.grad(y, x, w)
        v = torch.randn_like(x)
        with torch.no_grad():
            z = f(v.detach())
        ip = lambda a, b: float((a.conj() * b).real.sum() if a.is_complex() else (a * b).sum())
        lhs, rhs = ip(g, v.detach()), ip(w, z)
        s = float(w.abs().pow(2).sum().sqrt() * z.abs().pow(2).sum().sqrt()) + 1e-30
    check(g.dtype == x.dtype and g.shape == x.shape, f"{what}: gradient has {g.shape}/{g.dtype}")
    check(abs(lhs - rhs) <= tol * s, f"{what}: gradient is not the adjoint: <grad,v>={lhs!r} but <w,f(v)>={rhs!r}")
