"""Scratch build of the repository's C++ extensions from the current working tree."""
import importlib.abc, importlib.machinery, importlib.util, os, subprocess, sys, sysconfig, types
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VP_REPO", "/repo")
TH = os.path.join(REPO, "torch_harmonics")
SUF = sysconfig.get_config_var("EXT_SUFFIX")

EXTS = {
    "disco_helpers": (["disco/optimized/disco_helpers.cpp"], "helper"),
    "attention_helpers": (["attention/optimized/attention_helpers.cpp"], "helper"),
    "torch_harmonics.disco._C": (
        ["disco/optimized/disco_interface.cpp", "disco/optimized/kernels_cpu/disco_cpu_fwd.cpp", "disco/optimized/kernels_cpu/disco_cpu_bwd.cpp"],
        "main",
    ),
    "torch_harmonics.attention._C": (
        [
            "attention/optimized/attention_interface.cpp",
            "attention/optimized/kernels_cpu/attention_cpu_permute.cpp",
            "attention/optimized/kernels_cpu/attention_cpu_fwd.cpp",
            "attention/optimized/kernels_cpu/attention_cpu_fwd_upsample.cpp",
            "attention/optimized/kernels_cpu/attention_cpu_bwd.cpp",
            "attention/optimized/kernels_cpu/attention_cpu_bwd_upsample.cpp",
        ],
        "main",
    ),
}


def _sources(name):
    """Sources as listed; .cpp files newly added beside them are picked up as well."""
    base, kind = EXTS[name]
    out = [s for s in base if os.path.exists(os.path.join(TH, s))]
    if kind == "main":
        d = os.path.dirname(base[1])
        for f in sorted(os.listdir(os.path.join(TH, d))):
            s = os.path.join(d, f)
            if f.endswith(".cpp") and s not in out:
                out.append(s)
    return out


def flags():
    import torch
    from torch.utils import cpp_extension as ce

    inc = ce.include_paths() + [sysconfig.get_paths()["include"], TH]
    f = ["-fPIC", "-std=c++20", "-w", "-DTORCH_API_INCLUDE_EXTENSION_H"]
    f += [f"-I{i}" for i in inc]
    if hasattr(torch._C, "_GLIBCXX_USE_CXX11_ABI"):
        f.append(f"-D_GLIBCXX_USE_CXX11_ABI={int(torch._C._GLIBCXX_USE_CXX11_ABI)}")
    lib = [f"-L{p}" for p in ce.library_paths()] + [f"-Wl,-rpath,{p}" for p in ce.library_paths()] + ["-lc10", "-ltorch", "-ltorch_cpu", "-ltorch_python"]
    return f, lib


def build(out, names, opt="-O2", extra=()):
    """Compile the named extensions in parallel; returns ({name: so}, {name: error})."""
    os.makedirs(out, exist_ok=True)
    cf, lf = flags()
    jobs = []
    for n in names:
        kind = EXTS[n][1]
        o = ["-O1"] if kind == "helper" else ([opt, "-ffast-math", "-DNDEBUG"])
        d = [f"-DTORCH_EXTENSION_NAME={n.split('.')[-1]}", "-DBUILD_CPP=1", "-DBUILD_CUDA=0", "-DBUILD_KPACKED_SM90=0", "-DBUILD_KPACKED_SM100=0"]
        if kind == "main":
            d = [d[0]]
        for i, s in enumerate(_sources(n)):
            obj = os.path.join(out, f"{n}.{i}.o")
            jobs.append((n, obj, ["g++", "-c", os.path.join(TH, s), "-o", obj] + cf + o + list(extra) + d))
    errs, objs = {}, {}

    def run(j):
        p = subprocess.run(j[2], capture_output=True, text=True)
        return j, p.returncode, p.stderr[-4000:]

    with ThreadPoolExecutor(8) as ex:
        for j, rc, err in ex.map(run, jobs):
            objs.setdefault(j[0], []).append(j[1])
            if rc:
                errs[j[0]] = err
    sos = {}
    for n in names:
        if n in errs:
            continue
        so = os.path.join(out, n.split(".")[-1] + "." + n.replace(".", "_") + ".so")
        p = subprocess.run(["g++", "-shared", "-o", so] + objs[n] + list(extra) + lf, capture_output=True, text=True)
        if p.returncode:
            errs[n] = p.stderr[-4000:]
        else:
            sos[n] = so
    return sos, errs


class Finder(importlib.abc.MetaPathFinder):
    """Resolve the extension modules to the scratch build (or to inert stand-ins)."""

    def __init__(self, sos):
        self.sos = sos

    def find_spec(self, name, path=None, target=None):
        if name not in EXTS:
            return None
        if name in self.sos:
            loader = importlib.machinery.ExtensionFileLoader(name, self.sos[name])
            return importlib.util.spec_from_file_location(name, self.sos[name], loader=loader)
        # not built for this check: the in-tree build product, or an inert stand-in
        rel = name.replace(".", "/") + SUF
        so = os.path.join(REPO, rel)
        if os.path.exists(so):
            loader = importlib.machinery.ExtensionFileLoader(name, so)
            return importlib.util.spec_from_file_location(name, so, loader=loader)
        return importlib.machinery.ModuleSpec(name, _Stub())


class _Stub(importlib.abc.Loader):
    def create_module(self, spec):
        m = types.ModuleType(spec.name)

        def getattr_(n):
            if n.endswith("_is_available"):
                return lambda *a, **k: False
            if n.startswith("__"):
                raise AttributeError(n)

            def _absent(*a, **k):
                raise RuntimeError(f"{spec.name}.{n} not built for this check")

            return _absent

        m.__getattr__ = getattr_
        return m

    def exec_module(self, m):
        pass


def install(sos):
    sys.meta_path.insert(0, Finder(sos))
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
