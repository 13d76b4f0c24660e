"""python runner.py PROP TIER SEED OUT.json DEADLINE_S HINTS.json  (run with /opt/venv/bin/python)"""
import importlib, json, os, shutil, sys, tempfile, time, traceback, warnings

warnings.filterwarnings("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))


def main():
    prop, tier, seed, out, limit, hints = sys.argv[1:7]
    t0 = time.time()
    hints = json.load(open(hints)) if hints != "-" else []
    res = dict(prop=prop, ok=False)
    scratch = tempfile.mkdtemp(prefix=f"vp_{prop}_")
    try:
        from conform import build, base

        spec_src = open(os.path.join(HERE, prop.lower() + ".py")).read()
        ns = {}
        exts = []
        for line in spec_src.splitlines():
            if line.startswith("EXTS"):
                exts = eval(line.split("=", 1)[1])
                break
        sos, errs = {}, {}
        if not exts:
            # the property does not depend on compiled code: reuse the in-tree build products if
            # they import against the current sources, otherwise build afresh
            import subprocess

            p = subprocess.run([sys.executable, "-W", "ignore", "-c", "import torch_harmonics, torch_harmonics.distributed"], cwd=build.REPO, env=dict(os.environ, PYTHONPATH=build.REPO), capture_output=True)
            if p.returncode == 0:
                sos = None
            else:
                exts = list(build.EXTS)
        if exts:
            sos, errs = build.build(scratch, exts, opt="-O3", extra=())
            rest = [n for n in build.EXTS if n not in exts]
            if rest and not errs:
                # the package must import with the other extensions as they lie in the tree
                code = f"import sys; sys.path.insert(0, {os.path.dirname(HERE)!r}); from conform import build; build.install({sos!r}); import torch_harmonics, torch_harmonics.distributed"
                import subprocess

                if subprocess.run([sys.executable, "-W", "ignore", "-c", code], cwd=scratch, capture_output=True).returncode != 0:
                    more, errs = build.build(scratch, rest, opt="-O3", extra=())
                    sos.update(more)
            res["build_s"] = round(time.time() - t0, 1)
        res["build_errors"] = errs
        if errs:
            raise RuntimeError("extension build failed: " + json.dumps(errs)[:3000])
        if sos is None:
            sys.path.insert(0, build.REPO)
        else:
            build.install(sos)
        os.environ["VP_SOS"] = json.dumps(sos)
        mod = importlib.import_module("conform." + prop.lower())
        R = base.Run(prop, tier, int(seed), t0 + float(limit), hints)
        try:
            mod.run(R)
        except base.Skip as e:
            R.skips.append(f"run: {e}")
        res.update(ok=True, cases=R.cases, counts=R.counts, skips=R.skips, violations=R.violations, errors=R.errors, known=R.known)
    except Exception as e:
        res["crash"] = f"{type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}"
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    res["wall_s"] = round(time.time() - t0, 2)
    json.dump(res, open(out, "w"), indent=1, default=str)
    os._exit(0)


main()
