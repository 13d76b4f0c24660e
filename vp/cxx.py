"""Deductive verification of the CPU kernels written in C++.

The functions are taken from the real source on every run: clang parses the translation unit with the real torch
headers and dumps the syntax tree of the instantiated templates (-ast-dump=json); nothing is transcribed by hand.  The
tree is executed symbolically; loops are discharged with invariants (closed forms or relations, given in the contract
or guessed and then checked), so every obligation holds for all sizes, all iterations and all contents.

What the extraction drops: OpenMP pragmas (iterations are taken in sequence; that they are independent is what the
footprint obligations of the parallel loops establish), machine integers and floats (mathematical integers and reals),
`__restrict__`.
"""
import fcntl, hashlib, json, os, re, subprocess, sys, tempfile, time
import z3
from .symcore import *
from .symtorch import SymTensor, DType, float16, bfloat16, float32, float64, int64

REPO = os.environ.get("VP_REPO", "/repo")
VENV = "/opt/venv/bin/python"
SITE = "/opt/venv/lib/python3.12/site-packages/torch/include"
INC = [SITE, SITE + "/torch/csrc/api/include", "/usr/include/python3.12"]


def includes():
    if all(os.path.isdir(p) for p in INC):
        return INC
    o = subprocess.run([VENV, "-c", "import torch.utils.cpp_extension as c,sysconfig;print('\\n'.join(c.include_paths()+[sysconfig.get_paths()['include']]))"], capture_output=True, text=True)
    return o.stdout.split()


def _sources(path):
    """Every file under the extension's own directory (the cache key of the parse)."""
    d = os.path.dirname(path)
    if os.path.basename(d) == "kernels_cpu":
        d = os.path.dirname(d)
    out = []
    for r, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            if f.endswith((".h", ".cpp", ".hpp")):
                out.append(os.path.join(r, f))
    return out


def dump(rel, filt):
    path = os.path.join(REPO, rel)
    if not os.path.exists(path):
        raise Unsupported(f"source {rel} not found")
    h = hashlib.sha256((filt + path).encode())
    for f in _sources(path):
        h.update(f.encode())
        h.update(open(f, "rb").read())
    cache = os.environ.get("VP_CXX_CACHE") or os.path.join(tempfile.gettempdir(), f"vp_cxx.{os.getuid()}")
    os.makedirs(cache, exist_ok=True)
    out = os.path.join(cache, h.hexdigest()[:24] + ".json")
    lock = open(out + ".lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if not os.path.exists(out):
            cmd = ["clang++", "-std=c++20", "-w", "-fsyntax-only"]
            for p in includes():
                cmd += ["-isystem", p]
            cmd += ["-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + filt, path]
            with open(out + ".tmp", "wb") as o:
                r = subprocess.run(cmd, stdout=o, stderr=subprocess.PIPE)
            if r.returncode != 0:
                raise Unsupported("clang: " + r.stderr.decode()[-300:])
            os.replace(out + ".tmp", out)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()
    s = open(out).read()
    dec, i, res = json.JSONDecoder(), 0, []
    while True:
        while i < len(s) and s[i].isspace():
            i += 1
        if i >= len(s):
            return res
        o, i = dec.raw_decode(s, i)
        res.append(o)


class TU:
    """The functions of one translation unit."""
    _mem = {}

    def __init__(self, rel, filt):
        key = (rel, filt)
        if key not in TU._mem:
            TU._mem[key] = dump(rel, filt)
        self.rel = rel
        self.fn = {}
        self.byid = {}
        self.globals = {}
        for n in TU._mem[key]:
            self._walk(n)

    def _walk(self, n):
        k = n.get("kind")
        if k in ("FunctionDecl", "CXXMethodDecl"):
            body = [x for x in n.get("inner", []) if x.get("kind") == "CompoundStmt"]
            if body:
                n["_targs"] = [x.get("type", {}).get("qualType") if "type" in x else x.get("value") for x in n.get("inner", []) if x.get("kind") == "TemplateArgument"]
                n["_params"] = [x for x in n["inner"] if x.get("kind") == "ParmVarDecl"]
                n["_body"] = body[0]
                self.fn.setdefault(n.get("name"), []).append(n)
                self.byid[n["id"]] = n
            return
        if k == "VarDecl":
            self.globals[n["id"]] = n
            return
        for c in n.get("inner", []):
            self._walk(c)

    def get(self, name, targs=None):
        for f in self.fn.get(name, []):
            if targs is None or f["_targs"] == targs:
                return f
        raise Unsupported(f"function {name}{targs or ''} not found in {self.rel}")


# --------------------------------------------------------------------------- memory
class Region:
    """A block of memory: dims are its extents, strides the multipliers of the flat offset (the last is 1)."""

    def __init__(self, name, dims, elem="real", content=None, const=False, strides=None, alias=None):
        self.name, self.dims, self.elem, self.const = name, [to_int(d) for d in dims], elem, const
        self.strides = strides  # list of z3 ints for all dims but the last
        if content is None:
            f = z3.Function("mem_" + name, *([INT] * len(dims)), REAL if elem == "real" else INT)
            content = lambda *i: f(*i)
        self.content = content

    @property
    def n(self):
        return len(self.dims)

    def havoc(self, ctx):
        f = z3.Function(f"havoc!{self.name}!{ctx.fresh('h').decl().name()}", *([INT] * self.n), REAL if self.elem == "real" else INT)
        self.content = lambda *i: f(*i)

    def __repr__(self):
        return f"<{self.name}>"


def _factors(t):
    return [f for c in t.children() for f in _factors(c)] if z3.is_mul(t) else [t]


def split_linear(e, atom, m=1):
    """e = (m*atom)*q + r, syntactically."""
    e = z3.simplify(e, som=True)
    terms = e.children() if z3.is_add(e) else [e]
    q, r = [], []
    if not isinstance(atom, list) and z3.is_int_value(atom):
        a = atom.as_long() * m
        for t in terms:
            fs = _factors(t)
            c, oth = 1, z3.IntVal(1)
            for f in fs:
                if z3.is_int_value(f):
                    c *= f.as_long()
                else:
                    oth = oth * f
            if z3.is_int_value(t):
                q.append(z3.IntVal(c // a))
                r.append(z3.IntVal(c % a))
            elif c % a == 0:
                q.append((c // a) * oth)
            else:
                r.append(t)
        S = lambda l: z3.simplify(z3.Sum(l)) if l else z3.IntVal(0)
        return S(q), S(r)
    atoms = atom if isinstance(atom, list) else [atom]
    whole = z3.IntVal(1)
    for a in atoms:
        whole = whole * a
    for t in terms:
        fs = _factors(t)
        rest, miss = list(fs), False
        for a in atoms:
            hit = [i for i, f in enumerate(rest) if z3.eq(f, a)]
            if not hit:
                miss = True
                break
            rest = rest[:hit[0]] + rest[hit[0] + 1:]
        if miss:
            r.append(t)
            continue
        c = 1
        oth = []
        for f in rest:
            if z3.is_int_value(f):
                c *= f.as_long()
            else:
                oth.append(f)
        p = z3.IntVal(1)
        for f in oth:
            p = p * f
        a, b = divmod(c, m)
        if a:
            q.append(a * p)
        if b:
            r.append(b * p * whole)
    S = lambda l: z3.simplify(z3.Sum(l)) if l else z3.IntVal(0)
    return S(q), S(r)


class Ptr:
    def __init__(self, region, off=None):
        self.region, self.off = region, z3.IntVal(0) if off is None else off

    def add(self, k):
        return Ptr(self.region, self.off + to_int(k))

    def index(self, ctx):
        r = self.region
        e, out = self.off, []
        for s in (r.strides or []):
            a, m = s if isinstance(s, tuple) else (s, 1)
            q, e = split_linear(e, a, m)
            out.append(q)
        out.append(z3.simplify(e))
        if len(out) != r.n:
            raise Unsupported(f"cannot resolve an address of {r.name}")
        return out


class Accessor:
    def __init__(self, region):
        self.region = region


class Vec:
    """std::vector / std::array"""

    def __init__(self, region):
        self.region = region


class Cell:
    def __init__(self, v=None, type_=""):
        self.v, self.type = v, type_


class Ref:
    """lvalue designating an element of memory"""

    def __init__(self, ptr):
        self.ptr = ptr


class LambdaVal:
    def __init__(self, body):
        self.body = body


class Options:
    def __init__(self, dtype):
        self.dtype = dtype


class Rejected(Exception):
    """TORCH_CHECK / TORCH_INTERNAL_ASSERT failed: the call is refused with an error."""


DTYPES = {"kHalf": float16, "kFloat16": float16, "Half": float16, "kBFloat16": bfloat16, "BFloat16": bfloat16, "kFloat32": float32, "kFloat": float32, "Float": float32, "kFloat64": float64, "kDouble": float64, "Double": float64, "kInt64": int64, "kLong": int64, "Long": int64}


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


def real_tensor(ctx, name, dims, const=True, elem="real", content=None):
    """Tensor argument with symbolic strides; the innermost dimension is contiguous (checked by the callers)."""
    strides = [z3.Int(f"{name}.s{i}") for i in range(len(dims) - 1)]
    return Region(name, dims, elem, content, const, strides)


WRAPPERS = {"ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr", "CXXDefaultArgExpr", "FullExpr"}


class Machine:
    """Symbolic execution of one function under a contract.

    loops: {loop variable name: contract(machine, info) -> LoopSpec} ; calls: {callee name: stub(machine, args, decl)}
    """

    def __init__(self, ctx, tu, loops=None, calls=None, vec_dims=None):
        self.ctx, self.tu, self.loops, self.calls = ctx, tu, loops or {}, calls or {}
        self.vec_dims = vec_dims or {}
        # an invariant or a view that no longer fits the code is no counterexample: the obligation is open, not refuted
        ctx.soft = True
        self.env = {}
        self.names = {}  # current name -> cell
        self.regions = []  # mutable regions in scope
        self.labels = []
        self.stores = None
        self.depth = 0
        self.met = {}

    # ---- lookup used by the contracts
    def var(self, name):
        c = self.names.get(name)
        if c is None:
            raise Unsupported(f"no variable {name}")
        return c.v

    def set(self, name, v):
        if name not in self.names:
            raise Unsupported(f"no variable {name}")
        self.names[name].v = v

    def region(self, name):
        v = self.var(name)
        if isinstance(v, (Vec, Accessor, Ptr)):
            return v.region
        raise Unsupported(f"{name} is not memory")

    # ---- functions
    def call(self, f, args):
        self.depth += 1
        if self.depth > 12:
            raise Unsupported("call depth")
        old_names = dict(self.names)
        try:
            for p, a in zip(f["_params"], args):
                t = p["type"]["qualType"]
                if not isinstance(a, Cell):
                    a = Cell(a, t)
                elif "&" not in t:
                    a = Cell(a.v, t)
                self.env[p["id"]] = a
                if "name" in p:
                    self.names[p["name"]] = a
            try:
                self.stmt(f["_body"])
            except _Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1
            self.names = old_names

    # ---- statements
    def stmt(self, n):
        k = n.get("kind")
        if k is None:
            return
        m = getattr(self, "s_" + k, None)
        if m is not None:
            return m(n)
        self.rv(n)

    def s_CompoundStmt(self, n):
        old = dict(self.names)
        for c in n.get("inner", []):
            self.stmt(c)
        self.names = old

    def s_NullStmt(self, n):
        pass

    def s_AttributedStmt(self, n):
        self.stmt(n["inner"][-1])

    def s_DeclStmt(self, n):
        for d in n.get("inner", []):
            if d["kind"] == "VarDecl":
                self.declare(d)
            elif d["kind"] in ("TypeAliasDecl", "TypedefDecl", "StaticAssertDecl", "UsingDecl"):
                continue
            else:
                raise Unsupported("declaration " + d["kind"])

    def declare(self, d):
        t = d["type"]["qualType"]
        init = [x for x in d.get("inner", []) if x.get("kind") and not x["kind"].endswith("Attr")]
        dt = d["type"].get("desugaredQualType", t)
        m = re.search(r"std::(vector|array)<([^,>]+)(?:, *(\d+))?", dt + " " + t)
        if m and "iterator" not in t and "&" not in t and "*" not in t:
            v = self.container(d, m, init, dt)
            cell = Cell(v, t)
        elif "[" in t and "*" not in t:
            mm = re.match(r"(.*?)\[(\d+)\]$", t)
            if not mm:
                raise Unsupported("array type " + t)
            r = Region(d["name"], [int(mm.group(2))], self.elem(mm.group(1)))
            r.havoc(self.ctx)
            self.regions.append(r)
            cell = Cell(Ptr(r), t)
            if init and init[0]["kind"] == "InitListExpr":
                raise Unsupported("array initialiser")
        elif t.rstrip().endswith("&") and init:
            v = self.lv(init[0])
            cell = v if isinstance(v, Cell) else Cell(v, t)
        else:
            v = self.rv(init[0]) if init else None
            if v is None and not init:
                v = self.ctx.fresh("undef", REAL if self.elem(t) == "real" else INT)
            if isinstance(v, z3.ExprRef) and self.elem(t) == "real":
                v = to_real(v)
            cell = Cell(v, t)
        self.env[d["id"]] = cell
        self.names[d["name"]] = cell

    def elem(self, t):
        return "real" if re.search(r"\b(float|double|Half|BFloat16)\b", t) else "int"

    def container(self, d, m, init, t):
        elem = self.elem(m.group(2))
        name = d["name"]
        args = []
        e = init[0] if init else None
        while e is not None and e["kind"] in WRAPPERS:
            e = e["inner"][0]
        zero = False
        if m.group(1) == "array":
            size = z3.IntVal(int(m.group(3)))
            zero = e is not None and e["kind"] == "InitListExpr"
        else:
            if e is None or e["kind"] != "CXXConstructExpr":
                raise Unsupported("vector initialiser")
            args = [a for a in e.get("inner", []) if a["kind"] != "CXXDefaultArgExpr"]
            if not args:
                raise Unsupported("empty vector")
            size = to_int(self.rv(args[0]))
            zero = True
        dims, strides = [size], []
        if name in self.vec_dims:
            dims, strides = self.vec_dims[name](self)
            p = z3.IntVal(1)
            for x in dims:
                p = p * to_int(x)
            self.ctx.prove(f"extent of {name}", p == size)
        v = (z3.RealVal(0) if elem == "real" else z3.IntVal(0))
        if len(args) > 1:
            v = self.rv(args[1])
            v = to_real(v) if elem == "real" else to_int(v)
        r = Region(name, dims, elem, (lambda *i: v) if zero else None, False, strides)
        if not zero:
            r.havoc(self.ctx)
        self.regions.append(r)
        return Vec(r)

    def s_ReturnStmt(self, n):
        raise _Return(self.rv(n["inner"][0]) if n.get("inner") else None)

    def s_BreakStmt(self, n):
        raise _Break()

    def s_ContinueStmt(self, n):
        raise _Continue()

    def s_IfStmt(self, n):
        inner = [x for x in n["inner"]]
        if n.get("hasInit") or n.get("hasVar"):
            raise Unsupported("if with initialiser")
        c = self.cond(inner[0])
        if self.ctx.decide(c):
            self.stmt(inner[1])
        elif n.get("hasElse"):
            self.stmt(inner[2])

    def s_SwitchStmt(self, n):
        v = self.rv(n["inner"][0])
        v = to_int(v) if isinstance(v, z3.ExprRef) else v
        body = n["inner"][1]
        # flatten the case labels
        items = []

        def flat(s):
            if s["kind"] == "CaseStmt":
                items.append(("case", self.rv(s["inner"][0])))
                flat(s["inner"][1])
            elif s["kind"] == "DefaultStmt":
                items.append(("default", None))
                flat(s["inner"][0])
            else:
                items.append(("stmt", s))

        for s in body.get("inner", []):
            flat(s)
        start = None
        for i, (t, x) in enumerate(items):
            if t == "case" and self.ctx.decide(self.arith("==", v, x)):
                start = i
                break
        if start is None:
            d = [i for i, (t, _) in enumerate(items) if t == "default"]
            if not d:
                return
            start = d[0]
        try:
            for t, x in items[start:]:
                if t == "stmt":
                    self.stmt(x)
        except _Break:
            pass

    def s_WhileStmt(self, n):
        raise Unsupported("while loop")

    def s_DoStmt(self, n):
        # TORCH_CHECK-style do { ... } while (false)
        c = n["inner"][1]
        v = z3.simplify(as_z3bool(self.cond(c)))
        if not z3.is_false(v):
            raise Unsupported("do loop")
        self.stmt(n["inner"][0])

    # ---- loops
    def loop_head(self, n):
        init, _, cond, inc, body = n["inner"]
        if init.get("kind") != "DeclStmt" or len(init["inner"]) != 1:
            raise Unsupported("loop initialiser")
        d = init["inner"][0]
        c = cond
        while c["kind"] in WRAPPERS:
            c = c["inner"][0]
        if c["kind"] != "BinaryOperator" or c["opcode"] not in ("<", "<=", "!="):
            raise Unsupported("loop condition")
        l = self.strip(c["inner"][0])
        if l.get("kind") != "DeclRefExpr" or l["referencedDecl"]["id"] != d["id"]:
            raise Unsupported("loop condition")
        i = self.strip(inc)
        step = None
        if i["kind"] == "UnaryOperator" and i["opcode"] == "++":
            step = 1
        elif i["kind"] == "CompoundAssignOperator" and i["opcode"] == "+=":
            step = self.rv(i["inner"][1])
        t = self.strip(i["inner"][0])
        if step is None or t.get("kind") != "DeclRefExpr" or t["referencedDecl"]["id"] != d["id"]:
            raise Unsupported("loop increment")
        return d, c, step, body

    def strip(self, e):
        while e.get("kind") in WRAPPERS:
            e = e["inner"][0]
        return e

    def s_ForStmt(self, n):
        ctx = self.ctx
        d, c, step, body = self.loop_head(n)
        lo = to_int(self.rv([x for x in d["inner"] if not x["kind"].endswith("Attr")][0]))
        old = dict(self.names)
        cell = Cell(lo, d["type"]["qualType"])
        self.env[d["id"]] = cell
        self.names[d["name"]] = cell
        hi = to_int(self.rv(c["inner"][1]))
        if c["opcode"] == "<=":
            hi = hi + 1
        if step != 1:
            s = z3.simplify(to_int(step))
            if not (z3.is_int_value(s) and s.as_long() == 1):
                raise Unsupported("loop step")
        name = d["name"]
        hs, ls = z3.simplify(hi), z3.simplify(lo)
        try:
            if z3.is_int_value(hs) and z3.is_int_value(ls) and hs.as_long() - ls.as_long() <= 4:
                for v in range(ls.as_long(), hs.as_long()):
                    cell.v = z3.IntVal(v)
                    self.body(body)
                return
            spec = self.loops.get(name)
            if isinstance(spec, list):
                # several loops share the variable name: in the order in which they are met
                k = self.met.get(name, 0)
                self.met[name] = k + 1
                spec = spec[k] if k < len(spec) else None
            if spec is not None:
                spec = spec(self, name, lo, hi)
            if spec is None:
                spec = self.infer(name, lo, hi, cell, body)
            if c["opcode"] == "!=":
                ctx.prove(f"loop {name}: bound", lo <= hi)
            self.run_loop(name, lo, hi, cell, body, spec)
        finally:
            self.names = old

    def body(self, b):
        try:
            self.stmt(b)
        except _Continue:
            pass

    def snapshot(self):
        """Scalars and memory visible now."""
        cells = {}
        for nm, c in self.names.items():
            cells[id(c)] = (c, c.v)
        return cells, [(r, r.content) for r in self.regions]

    def restore(self, snap):
        for c, v in snap[0].values():
            c.v = v
        for r, f in snap[1]:
            r.content = f
        del self.regions[len(snap[1]):]

    def run_loop(self, name, lo, hi, cell, body, spec):
        """spec.assume(m, i): put the machine in an arbitrary state of iteration i; spec.check(m, i, tag): prove that
        the current state is a state of iteration i.  Whatever the spec does not speak about is forgotten."""
        ctx = self.ctx
        cell.v = lo
        if ctx.entails(hi <= lo):
            return
        end = z3.If(hi >= lo, hi, lo) if not ctx.entails(hi >= lo) else hi
        spec.check(self, lo, f"loop {name}: on entry")
        nreg = len(self.regions)
        forget = self.assigned(body, cell)
        if ctx.decide(ctx.fresh("verify_body_" + name, z3.BoolSort())):
            i = ctx.fresh(name)
            ctx.assume(z3.And(i >= lo, i < hi))
            cell.v = i
            self.forget(forget, spec)
            spec.assume(self, i)
            before = self.snapshot()
            self.body(body)
            if not z3.eq(to_int(cell.v), i):
                raise Unsupported("loop variable modified in the body")
            del self.regions[nreg:]
            self.names = {k: v for k, v in self.names.items()}
            self.check_frame(before, spec, forget, name)
            spec.check(self, i + 1, f"loop {name}: preserved")
            ctx.canary(f"body of loop {name}", timeout_ms=1000)
            raise PathDone()
        self.forget(forget, spec)
        spec.assume(self, end)
        cell.v = end

    def assigned(self, body, cell):
        """Variables of the enclosing scopes assigned in the body."""
        ids, decl = set(), set()

        def walk(x):
            k = x.get("kind")
            if k == "VarDecl":
                decl.add(x["id"])
            if k in ("BinaryOperator", "CompoundAssignOperator") and (k != "BinaryOperator" or x.get("opcode") == "="):
                t = self.strip(x["inner"][0])
                if t.get("kind") == "DeclRefExpr":
                    ids.add(t["referencedDecl"]["id"])
            if k == "UnaryOperator" and x.get("opcode") in ("++", "--", "&"):
                t = self.strip(x["inner"][0])
                if t.get("kind") == "DeclRefExpr":
                    ids.add(t["referencedDecl"]["id"])
            if k == "CallExpr":
                f = self.tu.byid.get(self.callee(x)[1])
                if f is not None:
                    for p, a in zip(f["_params"], x["inner"][1:]):
                        if p["type"]["qualType"].endswith("&") and not p["type"]["qualType"].startswith("const"):
                            t = self.strip(a)
                            if t.get("kind") == "DeclRefExpr":
                                ids.add(t["referencedDecl"]["id"])
            for y in x.get("inner", []):
                walk(y)

        walk(body)
        return [self.env[i] for i in ids - decl if i in self.env and self.env[i] is not cell]

    def forget(self, cells, spec):
        keep = getattr(spec, "covers", set())
        nm = {id(c): k for k, c in self.names.items()}
        for c in cells:
            if nm.get(id(c)) in keep:
                continue
            if isinstance(c.v, z3.ExprRef):
                c.v = self.ctx.fresh("havoc", c.v.sort())
            elif isinstance(c.v, Ptr):
                c.v = Ptr(c.v.region, self.ctx.fresh("havoc"))
            else:
                raise Unsupported("loop assigns a variable of unknown kind")
        for r in self.regions:
            if not r.const:
                r._kept = r.content
                r.havoc(self.ctx)

    def check_frame(self, before, spec, forget, name):
        ok = {id(c) for c in forget}
        for c, v in before[0].values():
            if id(c) in ok or c.v is v or (isinstance(v, z3.ExprRef) and isinstance(c.v, z3.ExprRef) and z3.eq(c.v, v)):
                continue
            if isinstance(v, Ptr) and isinstance(c.v, Ptr) and v.region is c.v.region and z3.eq(v.off, c.v.off):
                continue
            raise Unsupported(f"loop {name} modifies a variable through an alias")

    # ---- guessed invariants (checked like given ones)
    def infer(self, name, lo, hi, cell, body):
        ctx = self.ctx
        i = ctx.fresh(name)
        snap = self.snapshot()
        npc = len(ctx.pc)
        cells = self.assigned(body, cell)
        syms = {}
        log, outer = [], self.stores
        for c in cells:
            if not isinstance(c.v, z3.ExprRef):
                raise Unsupported(f"loop {name} assigns a pointer")
            syms[id(c)] = (c, c.v, ctx.fresh("g", c.v.sort()))
            c.v = syms[id(c)][2]
        ctx.pc.append(z3.And(i >= lo, i < hi))
        taken = len(ctx.taken)
        self.stores = log
        regs = {}
        for r in self.regions:
            if not r.const:
                r.havoc(ctx)
                regs[id(r)] = r.content
        old_mute, ctx.mute = ctx.mute, True
        try:
            cell.v = i
            self.body(body)
        finally:
            ctx.mute = old_mute
            self.stores = outer
        if len(ctx.taken) != taken:
            raise Unsupported(f"loop {name} branches: needs an invariant")
        new = {k: (c, old, g, c.v) for k, (c, old, g) in syms.items()}
        del ctx.pc[npc:]
        ctx.kcache = {}
        self.restore(snap)
        g_all = [g for _, _, g, _ in new.values()]
        scal, names = [], {id(c): k for k, c in self.names.items()}
        for c, old, g, v in new.values():
            delta = z3.simplify((to_real(v) - to_real(g)) if z3.is_real(g) else (v - g), som=True)
            if any(mentions(delta, x) for x in g_all) or any(self._mentions_havoc(delta)):
                raise Unsupported(f"loop {name}: no closed form for {names.get(id(c))}")
            scal.append((c, old, delta))
        if any(r is None for r, *_ in log):
            raise Unsupported(f"loop {name}: bulk store")
        by = {}
        for r, idx, v in log:
            if any(r is x for x, _ in snap[1]):
                by.setdefault(id(r), []).append((r, idx, v))
        maps = []
        old = {id(r): f for r, f in snap[1]}
        for rid, st in by.items():
            r = st[0][0]
            hv = regs.get(rid)
            ent = []
            for _, idx, v in st:
                dims = [d for d, e in enumerate(idx) if mentions(e, i)]
                if len(dims) > 1 or any(mentions(e, x) for e in idx for x in g_all):
                    raise Unsupported(f"loop {name}: no closed form for the stores to {r.name}")
                ent.append((dims[0] if dims else None, idx, v))
            if len(ent) != 1:
                raise Unsupported(f"loop {name}: several stores to {r.name}")
            d, idx, v = ent[0]
            maps.append((r, old[rid], hv, d, idx, v))
        return _Guess(self, name, lo, i, scal, maps, regs, old, g_all)

    def _mentions_havoc(self, e):
        for t in subterms([e]):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() and t.decl().name().startswith("havoc!"):
                yield True

    # ---- memory access
    def load(self, p):
        r = p.region
        idx = p.index(self.ctx)
        self.inrange(r, idx, "read")
        v = r.content(*idx)
        return to_real(v) if r.elem == "real" else to_int(v)

    def store(self, p, v):
        r = p.region
        idx = p.index(self.ctx)
        self.inrange(r, idx, "write")
        if r.const:
            self.ctx.prove(f"{r.name} is not written", False)
        v = to_real(v) if r.elem == "real" else to_int(v)
        if self.stores is not None:
            self.stores.append((r, idx, v))
        old = r.content

        def content(*j):
            c = z3.simplify(z3.And([to_int(a) == b for a, b in zip(j, idx)]))
            if z3.is_true(c):
                return v
            if z3.is_false(c):
                return old(*j)
            return z3.If(c, v, old(*j))

        r.content = content

    def inrange(self, r, idx, what):
        c = z3.And([z3.And(i >= 0, i < d) for i, d in zip(idx, r.dims)])
        if self.ctx.mute:
            return
        self.ctx.prove(f"{what} of {r.name} in bounds", c)  # relative to the view of the contract: see Machine.__init__

    # ---- expressions
    def cond(self, n):
        v = self.rv(n)
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, Ptr):
            return z3.BoolVal(True)
        v = to_z3(v)
        return v if z3.is_bool(v) else v != 0

    def rv(self, n):
        v = self.ex(n)
        if isinstance(v, Ref):
            return self.load(v.ptr)
        if isinstance(v, Cell):
            v = v.v
            return self.load(v.ptr) if isinstance(v, Ref) else v
        return v

    def lv(self, n):
        v = self.ex(n)
        if isinstance(v, Cell) and isinstance(v.v, Ref):
            return v.v
        return v

    def ex(self, n):
        k = n["kind"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            if k in WRAPPERS and n.get("inner"):
                return self.ex(n["inner"][-1] if k == "SubstNonTypeTemplateParmExpr" else n["inner"][0])
            raise Unsupported("expression " + k)
        return m(n)

    def e_ImplicitCastExpr(self, n):
        c = n.get("castKind")
        x = n["inner"][0]
        if c == "LValueToRValue":
            return self.rv(x)
        if c in ("IntegralToFloating",):
            return to_real(self.rv(x))
        if c in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return self.cond(x)
        if c == "FloatingToIntegral":
            raise Unsupported("conversion of a float to an integer")
        if c == "IntegralCast":
            v = self.rv(x)
            if isinstance(v, z3.ExprRef) and z3.is_bool(v):
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            return v
        return self.ex(x)

    e_CXXStaticCastExpr = e_ImplicitCastExpr
    e_CXXFunctionalCastExpr = e_ImplicitCastExpr
    e_CStyleCastExpr = e_ImplicitCastExpr
    e_CXXConstCastExpr = e_ImplicitCastExpr

    def e_IntegerLiteral(self, n):
        return z3.IntVal(int(n["value"]))

    def e_CharacterLiteral(self, n):
        return z3.IntVal(int(n["value"]))

    def e_FloatingLiteral(self, n):
        from fractions import Fraction
        return z3.RealVal(str(Fraction(n["value"])) if "e" not in n["value"].lower() else str(Fraction(float(n["value"]))))

    def e_CXXBoolLiteralExpr(self, n):
        return z3.BoolVal(bool(n["value"]))

    def e_StringLiteral(self, n):
        return n.get("value")

    e_PredefinedExpr = e_StringLiteral

    def e_CXXScalarValueInitExpr(self, n):
        return z3.RealVal(0) if self.elem(n["type"]["qualType"]) == "real" else z3.IntVal(0)

    e_ImplicitValueInitExpr = e_CXXScalarValueInitExpr

    def e_DeclRefExpr(self, n):
        d = n["referencedDecl"]
        if d["id"] in self.env:
            return self.env[d["id"]]
        g = self.tu.globals.get(d["id"])
        if g is not None:
            init = [x for x in g.get("inner", []) if not x["kind"].endswith("Attr")]
            return self.rv(init[0])
        if d.get("name") in DTYPES:
            return DTYPES[d["name"]]
        if d["kind"] == "EnumConstantDecl" or d.get("name") in ("kCPU", "kCUDA"):
            return {"kCPU": "CPU", "kCUDA": "CUDA"}.get(d["name"], d["name"])
        raise Unsupported("reference to " + str(d.get("name")))

    def e_ParenExpr(self, n):
        return self.ex(n["inner"][0])

    def e_ConditionalOperator(self, n):
        c = z3.simplify(self.cond(n["inner"][0]))
        if z3.is_true(c):
            return self.rv(n["inner"][1])
        if z3.is_false(c):
            return self.rv(n["inner"][2])
        if self.ctx.entails(c):
            return self.rv(n["inner"][1])
        if self.ctx.entails(z3.Not(c)):
            return self.rv(n["inner"][2])
        if self.ctx.decide(c):
            return self.rv(n["inner"][1])
        return self.rv(n["inner"][2])

    def e_UnaryOperator(self, n):
        op = n["opcode"]
        x = n["inner"][0]
        if op in ("++", "--"):
            l = self.lv(x)
            old = self.get(l)
            one = 1 if op == "++" else -1
            new = old.add(one) if isinstance(old, Ptr) else old + one
            self.put(l, new)
            return old if n.get("isPostfix") else l
        if op == "-":
            return -to_z3(self.rv(x))
        if op == "+":
            return self.rv(x)
        if op == "!":
            return z3.Not(self.cond(x))
        if op == "*":
            return Ref(self.rv(x))
        if op == "&":
            v = self.lv(x)
            if isinstance(v, Ref):
                return v.ptr
            return v
        if op == "__extension__":
            return self.ex(x)
        raise Unsupported("operator " + op)

    def get(self, l):
        if isinstance(l, Ref):
            return self.load(l.ptr)
        if isinstance(l, Cell):
            return self.load(l.v.ptr) if isinstance(l.v, Ref) else l.v
        raise Unsupported("not an lvalue")

    def put(self, l, v):
        if isinstance(l, Ref):
            return self.store(l.ptr, v)
        if isinstance(l, Cell):
            if isinstance(l.v, Ref):
                return self.store(l.v.ptr, v)
            if isinstance(l.v, z3.ExprRef) and isinstance(v, z3.ExprRef) and z3.is_real(l.v):
                v = to_real(v)
            l.v = v
            return
        raise Unsupported("assignment target")

    def e_BinaryOperator(self, n):
        op = n["opcode"]
        a, b = n["inner"]
        if op == "=":
            v = self.rv(b)
            l = self.lv(a)
            self.put(l, v)
            return l
        if op == ",":
            self.rv(a)
            return self.ex(b)
        if op == "&&":
            x = z3.simplify(self.cond(a))
            if z3.is_false(x) or not self.ctx.decide(x):
                return z3.BoolVal(False)
            return self.cond(b)
        if op == "||":
            x = z3.simplify(self.cond(a))
            if z3.is_true(x) or self.ctx.decide(x):
                return z3.BoolVal(True)
            return self.cond(b)
        return self.arith(op, self.rv(a), self.rv(b))

    def arith(self, op, x, y):
        if not isinstance(x, (z3.ExprRef, Ptr, int)) or not isinstance(y, (z3.ExprRef, Ptr, int)):
            if op in ("==", "!="):
                return z3.BoolVal((x is y or (isinstance(x, str) and x == y)) == (op == "=="))
            raise Unsupported("operator on objects")
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if op == "+":
                return x.add(y) if isinstance(x, Ptr) else y.add(x)
            if op == "-" and isinstance(x, Ptr) and not isinstance(y, Ptr):
                return x.add(-to_int(y))
            if op == "-" and x.region is y.region:
                return x.off - y.off
            if x.region is y.region and op in ("==", "!="):
                return x.off == y.off if op == "==" else x.off != y.off
            raise Unsupported("pointer operation " + op)
        x, y = to_z3(x), to_z3(y)
        if z3.is_bool(x):
            x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
        if z3.is_bool(y):
            y = z3.If(y, z3.IntVal(1), z3.IntVal(0))
        if z3.is_real(x) != z3.is_real(y):
            x, y = to_real(x), to_real(y)
        if op == "+":
            return x + y
        if op == "-":
            return x - y
        if op == "*":
            return x * y
        if op in ("/", "%"):
            if z3.is_real(x):
                return x / y
            if not self.ctx.mute and not self.ctx.entails(z3.And(x >= 0, y > 0)):
                self.ctx.prove("integer division of non-negative numbers", z3.And(x >= 0, y > 0))
            q, r = fdivmod(x, y)
            ex = self.exact(x, y)
            if ex is not None:
                return ex if op == "/" else z3.IntVal(0)
            if not z3.is_int_value(y) and not z3.is_int_value(z3.simplify(q)) and z3.is_add(x):
                if self.ctx.entails(x < y, timeout_ms=500):
                    return z3.IntVal(0) if op == "/" else x
                if self.ctx.entails(x < 2 * y, timeout_ms=500):
                    return z3.If(x < y, z3.IntVal(0), z3.IntVal(1)) if op == "/" else z3.If(x < y, x, x - y)
            return q if op == "/" else r
        if op in ("<", "<=", ">", ">=", "==", "!="):
            return {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y, "==": lambda: x == y, "!=": lambda: x != y}[op]()
        if op == "<<" and z3.is_int_value(y):
            return x * (2 ** y.as_long())
        raise Unsupported("operator " + op)

    def exact(self, x, y):
        """the quotient when x == a*y is among the facts"""
        if not (z3.is_const(x) and z3.is_const(y)):
            return None
        if z3.eq(x, y):
            return z3.IntVal(1)
        for f in self.ctx.pc:
            if z3.is_eq(f) and z3.eq(f.arg(0), x) and z3.is_mul(f.arg(1)) and f.arg(1).num_args() == 2:
                a, b = f.arg(1).children()
                if z3.eq(b, y):
                    return a
                if z3.eq(a, y):
                    return b
        return None

    def e_CompoundAssignOperator(self, n):
        op = n["opcode"][:-1]
        v = self.rv(n["inner"][1])
        l = self.lv(n["inner"][0])
        self.put(l, self.arith(op, self.get(l), v))
        return l

    def e_ArraySubscriptExpr(self, n):
        p, i = self.rv(n["inner"][0]), self.rv(n["inner"][1])
        if isinstance(i, Ptr):
            p, i = i, p
        if not isinstance(p, Ptr):
            raise Unsupported("subscript")
        return Ref(p.add(i))

    def e_CXXOperatorCallExpr(self, n):
        f = self.strip(n["inner"][0])
        name = f.get("referencedDecl", {}).get("name", "")
        args = [self.lv(a) for a in n["inner"][1:]]
        vals = [a.v if isinstance(a, Cell) else a for a in args]
        if name == "operator[]" and isinstance(vals[0], (Vec, Accessor, Ptr)):
            i = self.get(args[1]) if isinstance(args[1], (Cell, Ref)) else args[1]
            if isinstance(vals[0], Vec):
                return Ref(Ptr(vals[0].region).add(to_int(i)))
            if isinstance(vals[0], Ptr):
                return Ref(vals[0].add(to_int(i)))
            return self.acc_index(vals[0], to_int(i))
        vals = [self.get(a) if isinstance(a, (Cell, Ref)) else a for a in args]
        if name == "operator()" and isinstance(vals[0], LambdaVal):
            try:
                self.stmt(vals[0].body)
            except _Return as r:
                return r.v
            return None
        if name == "operator=" and isinstance(args[0], Cell):
            args[0].v = vals[1]
            return args[0]
        if name in ("operator==", "operator!="):
            return self.arith(name[8:], *vals)
        if name in ("operator+", "operator-") and any(isinstance(v, Ptr) for v in vals):
            return self.arith(name[-1], *vals)
        if name == "operator*" and len(vals) == 1 and isinstance(vals[0], Ptr):
            return Ref(vals[0])
        h = self.calls.get(name)
        if h is not None:
            return h(self, vals, n)
        raise Unsupported("operator call " + name)

    def acc_index(self, a, i):
        r = a.region
        done = getattr(a, "done", 0)
        p = getattr(a, "ptr", None) or Ptr(r)
        s = r.strides[done] if done < r.n - 1 else z3.IntVal(1)
        p = p.add(i * (s[0] * s[1] if isinstance(s, tuple) else s))
        if done == r.n - 1:
            return Ref(p)
        b = Accessor(r)
        b.done, b.ptr = done + 1, p
        return b

    def e_CXXMemberCallExpr(self, n):
        m = self.strip(n["inner"][0])
        name = m["name"]
        o = self.ex(m["inner"][0])
        o = o.v if isinstance(o, Cell) else o
        args = n["inner"][1:]
        if isinstance(o, Accessor):
            r = o.region
            if name == "data":
                return Ptr(r)
            if name == "stride":
                d = z3.simplify(to_int(self.rv(args[0])))
                d = d.as_long()
                if d == r.n - 1:
                    return z3.IntVal(1)
                return r.strides[d]
            if name == "size":
                return r.dims[z3.simplify(to_int(self.rv(args[0]))).as_long()]
        if isinstance(o, Vec):
            r = o.region
            if name in ("data", "begin", "cbegin"):
                return Ptr(r)
            if name in ("end", "cend"):
                if r.n == 1:
                    return Ptr(r, r.dims[0])
                p = r.dims[0]
                s = r.strides[0]
                return Ptr(r, p * (s[0] * s[1] if isinstance(s, tuple) else s))
            if name == "size":
                p = z3.IntVal(1)
                for d in r.dims:
                    p = p * d
                return p
            if name == "fill":
                v = self.rv(args[0])
                v = to_real(v) if r.elem == "real" else to_int(v)
                self.bulk(r)
                r.content = lambda *i: v
                return None
        if isinstance(o, Options):
            if name == "dtype" and args:
                return Options(self.rv(args[0]))
            if name in ("device", "dtype", "memory_format", "requires_grad"):
                return o
        if o == "cpu-device" and name == "type":
            return "CPU"
        if isinstance(o, SymTensor):
            return self.tensor_call(o, name, [self.rv(a) for a in args if a["kind"] != "CXXDefaultArgExpr"], n)
        h = self.calls.get("." + name)
        if h is not None:
            return h(self, o, [self.rv(a) for a in args if a["kind"] != "CXXDefaultArgExpr"], n)
        raise Unsupported(f"member call {name}")

    def tensor_call(self, t, name, a, n):
        """Tensor methods; the tensor algebra is the one of vp/symtorch (assumed contracts of torch)."""
        one = lambda x: z3.simplify(to_int(x)).as_long()
        if name == "size":
            return to_int(t.shape[one(a[0])])
        if name == "dim":
            return z3.IntVal(len(t.shape))
        if name in ("scalar_type", "dtype"):
            return t.dtype
        if name == "device":
            return "cpu-device"
        if name in ("is_contiguous", "defined", "is_cpu"):
            return z3.BoolVal(True)
        if name == "is_cuda":
            return z3.BoolVal(False)
        if name == "options":
            return Options(t.dtype)
        if name == "to":
            if isinstance(a[0], DType):
                return t if a[0] is t.dtype else t.to(a[0])
            return t
        if name in ("contiguous", "detach"):
            return t
        if name in ("reshape", "view"):
            return t.reshape(tuple(wrap(to_int(x)) for x in a[0]))
        if name == "permute":
            return t.permute(*[one(x) for x in a[0]])
        if name == "transpose":
            return t.transpose(one(a[0]), one(a[1]))
        if name == "packed_accessor64":
            return Accessor(self.region_of(t))
        if name in ("data_ptr", "mutable_data_ptr", "const_data_ptr"):
            return Ptr(self.region_of(t))
        if name == "copy_":
            src = a[0]
            for x, y in zip(t.shape, src.shape):
                self.ctx.prove("copy_ between equal shapes", to_int(x) == to_int(y))
            r, f = self.region_of(t), src._snapshot()
            conv = to_int if r.elem == "int" else to_real
            self.bulk(r)
            r.content = lambda *i: conv(f(*i))
            t._memo.clear()
            return t
        if name == "clone":
            return t.clone()
        if name == "zero_":
            r = self.region_of(t)
            r.content = lambda *i: z3.RealVal(0)
            return t
        raise Unsupported(f"tensor method {name}")

    def region_of(self, t):
        r = getattr(t, "_cxx", None)
        if r is None:
            self.tens = getattr(self, "tens", 0) + 1
            el = "int" if t.dtype.kind == "i" else "real"
            get = (lambda *i, t=t: to_int(t.at(*i))) if el == "int" else (lambda *i, t=t: to_real(t.at(*i)))
            r = Region(f"t{self.tens}", [to_int(d) for d in t.shape], el, get, False, [z3.Int(f"t{self.tens}.s{i}") for i in range(len(t.shape) - 1)])
            r.tensor = t
            t._cxx = r
        return r

    def new_tensor(self, shape, dtype, v=None):
        shape = [to_int(s) for s in shape]
        self.tens = getattr(self, "tens", 0) + 1
        el = "int" if dtype.kind == "i" else "real"
        r = Region(f"t{self.tens}", shape, el, (lambda *i: v) if v is not None else None, False, [z3.Int(f"t{self.tens}.s{i}") for i in range(len(shape) - 1)])
        if v is None:
            r.havoc(self.ctx)
        t = SymTensor(tuple(wrap(s) for s in shape), lambda *i: r.content(*[to_int(x) for x in i]), dtype)
        t._cxx = r
        r.tensor = t
        self.regions.append(r)
        return t

    def b_zeros(self, a, n):
        dt = a[1].dtype
        return self.new_tensor(a[0], dt, z3.IntVal(0) if dt.kind == "i" else z3.RealVal(0))

    def b_empty(self, a, n):
        return self.new_tensor(a[0], a[1].dtype)

    def b_zeros_like(self, a, n):
        return self.new_tensor(a[0].shape, a[0].dtype, z3.RealVal(0))

    def b_empty_like(self, a, n):
        return self.new_tensor(a[0].shape, a[0].dtype)

    def b_make_tuple(self, a, n):
        return tuple(a)

    def b_scalar_type(self, a, n):
        return a[0]

    def b_should_include_kernel_dtype(self, a, n):
        return z3.BoolVal(True)

    def e_LambdaExpr(self, n):
        return LambdaVal([x for x in n["inner"] if x["kind"] == "CompoundStmt"][-1])

    def bulk(self, r):
        if r.const:
            self.ctx.prove(f"{r.name} is not written", False)
        if self.stores is not None:
            self.stores.append((None, r, None))

    def callee(self, n):
        f = self.strip(n["inner"][0])
        d = f.get("referencedDecl") or f.get("foundReferencedDecl") or {}
        return d.get("name", ""), d.get("id")

    def e_CallExpr(self, n):
        name, did = self.callee(n)
        args = n["inner"][1:]
        h = self.calls.get(name)
        if h is not None:
            return h(self, [self.lv(a) for a in args if a["kind"] != "CXXDefaultArgExpr"], n)
        f = self.tu.byid.get(did)
        if f is None and len(self.tu.fn.get(name, [])) == 1:
            f = self.tu.fn[name][0]
        if f is not None:
            self.ctx.functions.add(f"{os.path.basename(self.tu.rel)}:{name}")
            return self.call(f, [self.lv(a) if p["type"]["qualType"].rstrip().endswith("&") else self.rv(a) for p, a in zip(f["_params"], args)])
        if name in ("fprintf", "printf"):
            return z3.IntVal(0)
        if name == "__builtin_expect":
            return self.rv(args[0])
        if name in ("torchCheckFail", "torchInternalAssertFail"):
            raise Rejected()
        b = getattr(self, "b_" + name, None)
        if b is None:
            raise Unsupported("call of " + name)
        return b([self.rv(a) for a in args if a["kind"] != "CXXDefaultArgExpr"], n)

    # ---- library
    def lex(self, j, b, e):
        """b <= j < e in row-major order"""
        def lt(x, y):
            c = z3.BoolVal(False)
            for p, q in reversed(list(zip(x, y))):
                c = z3.Or(p < q, z3.And(p == q, c))
            return c
        return z3.simplify(z3.And(z3.Not(lt(j, b)), lt(j, e)))

    def b_fill(self, a, n):
        p, q, v = a
        if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.region is q.region):
            raise Unsupported("std::fill")
        r = p.region
        v = to_real(v) if r.elem == "real" else to_int(v)
        b, e = p.index(self.ctx), q.index(self.ctx)
        self.range_ok(r, b, e)
        self.bulk(r)
        old = r.content

        def content(*j):
            c = self.lex([to_int(x) for x in j], b, e)
            return v if z3.is_true(c) else old(*j) if z3.is_false(c) else z3.If(c, v, old(*j))

        r.content = content

    def b_fill_n(self, a, n):
        return self.b_fill([a[0], a[0].add(a[1]), a[2]], n)

    def range_ok(self, r, b, e):
        if self.ctx.mute:
            return
        c = [i >= 0 for i in b]
        c += [i >= 0 for i in e]
        # the end lies within, or one past, the region
        if r.n == 1:
            c.append(e[0] <= r.dims[0])
        else:
            c.append(z3.Or(z3.And(e[0] <= r.dims[0], *[x == 0 for x in e[1:]]), z3.And(e[0] < r.dims[0], *[x <= d for x, d in zip(e[1:], r.dims[1:])])))
        self.ctx.prove(f"range of {r.name} in bounds", z3.And(c))

    def b_copy(self, a, n):
        p, q, d = a
        if not (isinstance(p, Ptr) and isinstance(q, Ptr) and isinstance(d, Ptr) and p.region is q.region):
            raise Unsupported("std::copy")
        ln = z3.simplify(q.off - p.off)
        src, dst = p.region, d.region
        si, di = p.index(self.ctx), d.index(self.ctx)
        if not self.ctx.mute:
            for w, i, r in (("read", si, src), ("write", di, dst)):
                c = z3.And([z3.And(x >= 0, x < y) for x, y in zip(i[:-1], r.dims[:-1])] + [i[-1] >= 0, i[-1] + ln <= r.dims[-1], ln >= 0])
                self.ctx.prove(f"block {w} of {r.name} in bounds", c)
        self.bulk(dst)
        sc, old = src.content, dst.content

        def content(*j):
            j = [to_int(x) for x in j]
            c = z3.simplify(z3.And([x == y for x, y in zip(j[:-1], di[:-1])] + [j[-1] >= di[-1], j[-1] < di[-1] + ln]))
            if z3.is_false(c):
                return old(*j)
            v = sc(*si[:-1], z3.simplify(si[-1] + j[-1] - di[-1]))
            return v if z3.is_true(c) else z3.If(c, v, old(*j))

        dst.content = content

    def b_copy_n(self, a, n):
        return self.b_copy([a[0], a[0].add(a[1]), a[2]], n)

    def b_min(self, a, n):
        x, y = to_z3(a[0]), to_z3(a[1])
        return z3.If(y < x, y, x)

    def b_max(self, a, n):
        if not a:
            return FLT_MAX
        x, y = to_z3(a[0]), to_z3(a[1])
        return z3.If(x < y, y, x)

    def b_exp(self, a, n):
        return EXP(self.ctx, to_real(a[0]))

    b_expf = b_exp

    def e_GNUNullExpr(self, n):
        return z3.IntVal(0)

    def b_exit(self, a, n):
        raise PathDone()

    def b_lowest(self, a, n):
        return -FLT_MAX

    def b_max_limit(self, a, n):
        return FLT_MAX

    def e_CXXNewExpr(self, n):
        t = n["type"]["qualType"]
        size = to_int(self.rv(n["inner"][0]))
        nm = f"new{sum(r.name.startswith('new') for r in self.regions)}"
        r = Region(nm, [size], self.elem(t))
        r.havoc(self.ctx)
        self.ctx.prove("allocation size is not negative", size >= 0)
        self.regions.append(r)
        return Ptr(r)

    def e_CXXDeleteExpr(self, n):
        return None

    def e_CXXConstructExpr(self, n):
        inner = [a for a in n.get("inner", []) if a["kind"] != "CXXDefaultArgExpr"]
        if len(inner) == 1:
            return self.rv(inner[0])
        raise Unsupported("construction of " + n["type"]["qualType"])

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXStdInitializerListExpr(self, n):
        x = self.strip(n["inner"][0])
        if x["kind"] == "InitListExpr":
            return [self.rv(c) for c in x.get("inner", [])]
        raise Unsupported("initialiser list")

    def e_InitListExpr(self, n):
        if len(n.get("inner", [])) == 1:
            return self.rv(n["inner"][0])
        raise Unsupported("initialiser list")


FLT_MAX = z3.Real("FLT_MAX")


class _Guess:
    """Closed form read off one symbolic iteration; run_loop then checks it like a given invariant."""

    def __init__(self, m, name, lo, i, scal, maps, regs, old, gs):
        self.m, self.name, self.lo, self.i, self.scal, self.maps, self.old = m, name, lo, i, scal, maps, old
        self.nm = {id(c): k for k, c in m.names.items()}
        self.covers = {self.nm.get(id(c)) for c, _, _ in scal}
        self.regs = list(m.regions)
        # values may mention the generic pre-iteration memory: rewrite it to the memory before the loop
        self.havoc = {}
        for rid, f in regs.items():
            self.havoc[rid] = f
        self.rw = [(r, regs[id(r)], old[id(r)]) for r in self.regs if id(r) in regs]

    def unhavoc(self, v, over=None):
        """Replace reads of the generic memory by reads of the memory on entry (or of `over`)."""
        for r, hv, old in self.rw:
            probe = hv(*[z3.Int(f"q!{d}") for d in range(r.n)])
            decl = probe.decl()
            v = _rewrite(v, decl, (over or {}).get(id(r), old))
        return v

    def vals(self, i):
        out = {}
        for c, old, delta in self.scal:
            dl = self.unhavoc(delta)
            f = lambda k: z3.substitute(dl, (self.i, k))
            if z3.is_int(old):
                if mentions(dl, self.i):
                    raise Unsupported("integer accumulation")
                out[id(c)] = old + dl * (i - self.lo)
            else:
                out[id(c)] = to_real(old) + PSum(self.lo, f).at(i)
        return out

    def mem(self, i):
        out = {}
        for r, old, hv, d, idx, v in self.maps:
            base = lambda *j, old=old: old(*j)
            if d is None:
                # accumulation into one element
                def content(*j, old=old, idx=idx, v=v, r=r, hv=hv):
                    dl = z3.simplify(v - hv(*idx), som=True) if r.elem == "real" else None
                    if dl is None or any(t.decl() == hv(*idx).decl() for t in subterms([dl]) if t.num_args()):
                        raise Unsupported("no closed form for a repeated store")
                    dl = self.unhavoc(dl)
                    s = PSum(self.lo, lambda k: z3.substitute(dl, (self.i, k))).at(i)
                    c = z3.simplify(z3.And([a == b for a, b in zip(j, idx)]))
                    return z3.If(c, old(*idx) + s, old(*j))
            else:
                off = z3.simplify(idx[d] - self.i, som=True)
                if mentions(off, self.i):
                    raise Unsupported("stores with a stride")
                w = self.unhavoc(v)

                def content(*j, old=old, idx=idx, w=w, d=d, off=off):
                    k = z3.simplify(j[d] - off)
                    c = z3.simplify(z3.And([k >= self.lo, k < i] + [a == b for n, (a, b) in enumerate(zip(j, idx)) if n != d]))
                    v = z3.substitute(w, (self.i, k))
                    return v if z3.is_true(c) else old(*j) if z3.is_false(c) else z3.If(c, v, old(*j))
            out[id(r)] = content
        return out

    def assume(self, m, i):
        vs = self.vals(i)
        for c, _, _ in self.scal:
            c.v = vs[id(c)]
        ms = self.mem(i)
        for r in self.regs:
            if id(r) in ms:
                r.content = ms[id(r)]
            elif id(r) in self.old:
                r.content = self.old[id(r)]

    def check(self, m, i, tag):
        ctx = m.ctx
        vs = self.vals(i)
        for c, _, delta in self.scal:
            if not z3.is_int(vs[id(c)]):
                PSum(self.lo, lambda k: z3.substitute(self.unhavoc(delta), (self.i, k))).step(ctx, i)
            prove_eq(ctx, f"{tag}: {self.nm.get(id(c))}", c.v, vs[id(c)])
        ms = self.mem(i)
        for r in self.regs:
            want = ms.get(id(r), self.old.get(id(r)))
            if want is None or r.content is want:
                continue
            j = [ctx.fresh("j") for _ in range(r.n)]
            h = [z3.And(a >= 0, a < d) for a, d in zip(j, r.dims)]
            prove_eq(ctx, f"{tag}: {r.name}", r.content(*j), want(*j), h)


def _rewrite(e, decl, f):
    memo = {}

    def go(t):
        if t.get_id() in memo:
            return memo[t.get_id()][1]
        if z3.is_app(t) and t.num_args():
            ch = [go(c) for c in t.children()]
            if t.decl() == decl:
                r = f(*ch)
            elif all(z3.eq(a, b) for a, b in zip(ch, t.children())):
                r = t
            else:
                r = t.decl()(*ch)
        elif z3.is_quantifier(t):
            if _inside(t.body(), decl):
                raise Unsupported("sum over a memory that changes in the loop")
            r = t
        else:
            r = t
        memo[t.get_id()] = (t, r)
        return r

    if not any(t.decl() == decl for t in subterms([e])):
        return e
    return go(e)


def _inside(e, decl):
    seen, st = set(), [e]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            st.append(t.body())
        elif z3.is_app(t):
            if t.num_args() and t.decl() == decl:
                return True
            st.extend(t.children())
    return False


def sums_to_consts(fs):
    """Replace every Sum(...) by a constant (one per distinct term after simplification)."""
    table = {}

    def one(e):
        memo = {}

        def go(t):
            if t.get_id() in memo:
                return memo[t.get_id()][1]
            if z3.is_quantifier(t) or t.num_args() == 0:
                r = t
            elif t.decl().name() == "Sum" and t.num_args() == 3:
                if t.get_id() not in table:
                    table[t.get_id()] = (t, z3.Real(f"sum!{len(table)}"))
                r = table[t.get_id()][1]
            else:
                r = t.decl()(*[go(c) for c in t.children()])
            memo[t.get_id()] = (t, r)
            return r

        return go(e)

    return [one(z3.simplify(f)) for f in fs]


def prove_eq(ctx, name, a, b, hyps=()):
    """Equality with the sums taken as atoms first (their recursion instances are among the facts), then in general."""
    if ctx.mute:
        return True
    a, b = to_z3(a), to_z3(b)
    if a.sort() != b.sort():
        a, b = to_real(a), to_real(b)
    t0 = time.time()
    if z3.is_real(a) and quick_eq(ctx, a, b, hyps):
        return ctx.record(name, "proved", secs=time.time() - t0)
    if not _has_sum_term([a, b]):
        return ctx.prove(name, a == b, hyps) if z3.is_int(a) else ctx.prove_eq(name, a, b, hyps)
    t0 = time.time()
    fs = sums_to_consts(ctx.pc + ctx.axioms + list(hyps) + [a != b])
    if ctx._check(fs, timeout_ms=8000) == z3.unsat:
        return ctx.record(name, "proved", secs=time.time() - t0)
    old, ctx.timeout_ms = ctx.timeout_ms, min(ctx.timeout_ms, 4000)
    try:
        return ctx.prove_eq(name, a, b, hyps)
    finally:
        ctx.timeout_ms = old


def _solve_eq(q):
    """x == t for a bound-variable-like constant x (name j!n, c!n), from a linear equation"""
    if not z3.is_eq(q) or not z3.is_int(q.arg(0)):
        return None
    d = z3.simplify(q.arg(0) - q.arg(1), som=True)
    best = None
    for t in (d.children() if z3.is_add(d) else [d]):
        x, c = t, 1
        if z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
            x, c = t.arg(1), t.arg(0).as_long()
        if z3.is_const(x) and not z3.is_int_value(x) and abs(c) == 1 and re.match(r"[jJ]\W?\d+", x.decl().name()):
            rest = z3.simplify(-c * (d - c * x))
            if not mentions(rest, x):
                best = (x, rest)
    return best


def quick_eq(ctx, a, b, hyps, depth=6):
    """Conditionals on integers decided (or split) with the integer facts, then equality of polynomials over atoms."""
    s = z3.Solver()
    s.set("timeout", 1500)
    s.set("random_seed", 0)
    for f in ctx.pc + ctx.axioms + list(hyps):
        if not has_real(f):
            s.add(f)

    def find(t, seen):
        if t.get_id() in seen or z3.is_quantifier(t) or t.num_args() == 0:
            return None
        seen.add(t.get_id())
        if t.decl().kind() == z3.Z3_OP_ITE and not has_real(t.arg(0)):
            return t.arg(0)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return None
        for c in t.children():
            r = find(c, seen)
            if r is not None:
                return r
        return None

    def subst(e, c, v):
        e = z3.simplify(z3.substitute(e, (c, z3.BoolVal(v))))
        if v:
            for q in (c.children() if z3.is_and(c) else [c]):
                r = _solve_eq(q)
                if r is not None:
                    e = z3.simplify(z3.substitute(e, r))
        return e

    def go(e, depth):
        while True:
            c = find(e, set())
            if c is None:
                break
            t0 = time.time()
            s.push()
            s.add(z3.Not(c))
            r1 = s.check()
            s.pop()
            if r1 == z3.unsat:
                e = subst(e, c, True)
                continue
            s.push()
            s.add(c)
            r2 = s.check()
            s.pop()
            if r2 == z3.unsat:
                e = subst(e, c, False)
                continue
            if depth == 0:
                return False
            for v in (True, False):
                s.push()
                s.add(c if v else z3.Not(c))
                ok = go(subst(e, c, v), depth - 1)
                s.pop()
                if not ok:
                    return False
            return True
        d = exp_normal(sums_to_consts([e])[0])
        return z3.is_rational_value(d) and d.as_fraction() == 0

    try:
        return go(z3.simplify(to_real(a) - to_real(b)), depth)
    finally:
        ctx.solver_s += 0


def _has_sum_term(fs):
    return any(t.decl().name() == "Sum" for t in subterms(fs) if z3.is_app(t) and t.num_args() == 3)


def EXP(ctx, x):
    """exp of a sum is the product of the exponentials; exp(t) > 0 and exp(t)*iexp(t) = 1 (iexp(t) = exp(-t))."""
    x = to_real(x)

    def go(t, neg):
        if z3.is_add(t):
            r = z3.RealVal(1)
            for c in t.children():
                r = _times(r, go(c, neg))
            return r
        if z3.is_sub(t):
            cs = t.children()
            r = go(cs[0], neg)
            for c in cs[1:]:
                r = _times(r, go(c, not neg))
            return r
        if t.decl().kind() == z3.Z3_OP_UMINUS:
            return go(t.arg(0), not neg)
        t = z3.simplify(t)
        if z3.is_mul(t) and t.num_args() == 2 and z3.is_rational_value(t.arg(0)) and t.arg(0).as_fraction() == -1:
            t, neg = t.arg(1), not neg
        if z3.is_rational_value(t) and t.as_fraction() == 0:
            return z3.RealVal(1)
        e, i = rfun("exp", t), rfun("iexp", t)
        if not _has_bound(t):
            ctx.axiom(z3.And(e > 0, i > 0))
        return i if neg else e

    return go(x, False)


def IEXP(ctx, x):
    return EXP(ctx, -to_real(x))


def _times(a, b):
    if z3.is_rational_value(a) and a.as_fraction() == 1:
        return b
    if z3.is_rational_value(b) and b.as_fraction() == 1:
        return a
    return a * b


def _has_bound(t):
    return any(z3.is_const(x) and "!ps" in x.decl().name() for x in subterms([t]))


def exp_normal(e):
    """sum of monomials with the pairs exp(t)*iexp(t) cancelled"""
    e = z3.simplify(e, som=True)
    out = []
    for t in (e.children() if z3.is_add(e) else [e]):
        fs = []
        for f in _factors(t):
            if f.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(f.arg(1)) and f.arg(1).as_fraction().denominator == 1 and f.arg(1).as_fraction() > 0:
                fs += [f.arg(0)] * int(f.arg(1).as_fraction())
            else:
                fs.append(f)
        i = 0
        while i < len(fs):
            f = fs[i]
            nm = f.decl().name() if z3.is_app(f) else ""
            if nm in ("exp", "iexp"):
                k = next((k for k in range(len(fs)) if fs[k].decl().name() == ("iexp" if nm == "exp" else "exp") and z3.eq(fs[k].arg(0), f.arg(0))), None)
                if k is not None:
                    fs = [g for n, g in enumerate(fs) if n not in (i, k)]
                    i = 0
                    continue
            i += 1
        r = z3.RealVal(1)
        for f in fs:
            r = _times(r, f)
        out.append(r)
    return z3.simplify(z3.Sum(out), som=True)


def prove_exp_eq(ctx, name, a, b, hyps=(), positive=()):
    """a = b up to exp(s+t) = exp(s)exp(t); with quotients whose denominators are products of `positive` and exponentials."""
    if ctx.mute:
        return True
    t0 = time.time()
    a, b = to_real(a), to_real(b)
    d = exp_normal(a - b)
    if z3.is_rational_value(d) and d.as_fraction() == 0:
        return ctx.record(name, "proved", secs=time.time() - t0)
    # quotients: everything uninterpreted is an atom
    table = {}

    def atom(t):
        if t.get_id() not in table:
            table[t.get_id()] = (t, z3.Real(f"at!{len(table)}"))
        return table[t.get_id()][1]

    def go(t):
        k = t.decl().kind()
        if z3.is_rational_value(t):
            return t
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV):
            return t.decl()(*[go(c) for c in t.children()])
        return atom(t)

    fs = [go(z3.simplify(a)) != go(z3.simplify(b))]
    for t, c in list(table.values()):
        if z3.is_app(t) and t.decl().name() in ("exp", "iexp"):
            fs.append(c > 0)
            if t.decl().name() == "exp":
                o = next((c2 for t2, c2 in table.values() if z3.is_app(t2) and t2.decl().name() == "iexp" and z3.eq(t2.arg(0), t.arg(0))), None)
                if o is not None:
                    fs.append(c * o == 1)
    for q in positive:
        q = z3.simplify(to_real(q))
        if ctx.entails(q > 0):
            fs.append(go(q) > 0)
    s = z3.Solver()
    s.set("timeout", 8000)
    s.add(fs)
    if s.check() == z3.unsat:
        return ctx.record(name, "proved", secs=time.time() - t0)
    return prove_eq(ctx, name, a, b, hyps)


class PSum:
    """Partial sums of f from lo (terms added one at a time)."""
    k = z3.Int("k!ps")

    def __init__(self, lo, f):
        self.lo, self.f = to_int(lo), f
        self.body = z3.simplify(to_real(f(PSum.k)))
        self.lam = z3.Lambda([PSum.k], self.body)

    def at(self, i):
        i = z3.simplify(to_int(i))
        if z3.eq(i, z3.simplify(self.lo)):
            return z3.RealVal(0)
        if z3.is_rational_value(self.body) and self.body.as_fraction() == 0:
            return z3.RealVal(0)
        from .symcore import SUMF
        return SUMF(self.lo, i, self.lam)

    def step(self, ctx, i):
        """Sum up to i = Sum up to i-1 plus the last term (lo < i); the empty sum is 0."""
        i = z3.simplify(to_int(i))
        if z3.eq(i, z3.simplify(self.lo)):
            return
        prev = z3.simplify(i - 1)
        ctx.axiom(z3.Implies(i > self.lo, self.at(i) == self.at(prev) + z3.substitute(self.body, (PSum.k, prev))))
        ctx.axiom(z3.Implies(i <= self.lo, self.at(i) == 0))


class ClosedForm:
    """Invariant given as closed forms.  scalars: name -> f(i); mem: name -> f(i, *idx); lemmas(m, i) may add (proved)
    facts before a check.  keep: memory that the loop leaves alone (checked)."""

    def __init__(self, m, scalars=None, mem=None, keep=(), lemmas=None, facts=None):
        self.scalars, self.memf, self.lemmas, self.facts = scalars or {}, mem or {}, lemmas, facts
        self.covers = set(self.scalars)
        self.cells = {k: m.names[k] if k in m.names else _no(k) for k in self.scalars}
        self.regs = {k: m.region(k) if k in m.names else _reg(m, k) for k in self.memf}
        self.kept = {}
        for k in keep:
            r = m.region(k) if k in m.names else _reg(m, k)
            self.kept[k] = (r, r.content)

    def assume(self, m, i):
        for k, f in self.scalars.items():
            self.cells[k].v = f(i)
        for k, f in self.memf.items():
            self.regs[k].content = lambda *j, f=f: f(i, *j)
        for k, (r, c) in self.kept.items():
            r.content = c
        if self.facts:
            for c in self.facts(m, i):
                m.ctx.assume(c)

    def check(self, m, i, tag):
        ctx = m.ctx
        if self.lemmas:
            self.lemmas(m, i)
        for k, f in self.scalars.items():
            prove_eq(ctx, f"{tag}: {k}", self.cells[k].v, f(i))
        for k, r, f in [(k, self.regs[k], lambda *j, g=g: g(i, *j)) for k, g in self.memf.items()] + [(k, r, c) for k, (r, c) in self.kept.items()]:
            if r.content is f:
                continue
            j = [ctx.fresh("j") for _ in range(r.n)]
            h = [z3.And(a >= 0, a < d) for a, d in zip(j, r.dims)]
            prove_eq(ctx, f"{tag}: {k}", r.content(*j), f(*j), h)
        if self.facts:
            for n, c in enumerate(self.facts(m, i)):
                ctx.prove(f"{tag}: fact {n}", c)


def induct(ctx, name, P, lo=0, hyps=()):
    """Lemma by induction on n >= lo: base and step are obligations."""
    lo = to_int(lo)
    ctx.prove(f"{name}: base", P(lo), hyps)
    n = ctx.fresh("n")
    ctx.prove(f"{name}: step", P(n + 1), [n >= lo, P(n)] + list(hyps))


def _no(k):
    raise Unsupported(f"no variable {k}")


def _reg(m, k):
    for r in m.regions:
        if r.name == k:
            return r
    raise Unsupported(f"no memory {k}")
