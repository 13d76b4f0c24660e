"""python3-vt -m vp.deduce PROP TIER OUT.json : run all deductive proofs of one property."""
import faulthandler, importlib, json, os, signal, sys, time, traceback, warnings

warnings.filterwarnings("ignore")


def run_one(prop, idx, out, tier):
    from vp import symcore
    mod = importlib.import_module("contracts." + prop.lower())
    name, fn = mod.PROOFS[idx][0], mod.PROOFS[idx][1]
    opts = mod.PROOFS[idx][2] if len(mod.PROOFS[idx]) > 2 else {}
    t0 = time.time()
    c = symcore.Ctx(name, timeout_ms=opts.get("timeout_ms", 20000))
    res = dict(proof=name)
    try:
        symcore.explore(c, fn)
    except symcore.Unsupported as e:
        res["unsupported"] = str(e)
    except RecursionError as e:
        res["unsupported"] = "recursion limit"
    except Exception as e:
        res["crash"] = f"{type(e).__name__}: {e}\n{traceback.format_exc()[-2500:]}"
    res.update(obligations=c.obligations, paths=c.paths, live_paths=c.live_paths, solver_s=round(c.solver_s, 2), functions=sorted(map(str, c.functions)), assumptions=sorted(map(str, c.assumptions)), wall_s=round(time.time() - t0, 2))
    json.dump(res, open(out, "w"), default=str)


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    if sys.argv[1] == "--list":
        mod = importlib.import_module("contracts." + sys.argv[2].lower())
        print(json.dumps([p[0] for p in mod.PROOFS]))
    else:
        run_one(sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4])
