"""Orchestrator of one check:  python3-vt /verif/vp/run.py PROP [quick|thorough]

1. regenerate every proof obligation of the property from /repo's current source and discharge
   it (z3); 2. evaluate the same contracts on the real code (bounded conformance); 3. replay the
   verifier's counterexample sizes on the real code.  Writes evidence/<PROP>.json.
"""
import glob, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
PYV = "/opt/veriftools/pyvenv/bin/python3"
if not os.path.exists(PYV):
    PYV = sys.executable
PYR = "/opt/venv/bin/python"


def env_real():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", CUDA_VISIBLE_DEVICES="", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONPATH=V, TORCH_CPP_LOG_LEVEL="ERROR")
    return e


def run_limited(cmd, env, limit, cwd=V):
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=limit)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return None, "time limit"


def deduce(prop, tier, tmp, limit):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=V, VP_CXX_CACHE=os.path.join(tmp, "cxx"))
    f = os.path.join(V, "contracts", prop.lower() + ".py")
    if not os.path.exists(f):
        return []
    rc, o = run_limited([PYV, "-W", "ignore", "-m", "vp.deduce", "--list", prop], env, 60)
    if rc != 0:
        return [dict(proof="(load)", crash=o[-2000:], obligations=[])]
    names = json.loads(o.strip().splitlines()[-1])
    t_end = time.time() + limit

    def one(i):
        out = os.path.join(tmp, f"d{i}.json")
        left = t_end - time.time()
        if left < 5:
            return dict(proof=names[i], unsupported="not started: time budget", obligations=[])
        rc, o = run_limited([PYV, "-W", "ignore", "-m", "vp.deduce", prop, str(i), out, tier], env, left)
        if os.path.exists(out):
            return json.load(open(out))
        return dict(proof=names[i], unsupported="time limit" if rc is None else None, crash=None if rc is None else o[-2000:], obligations=[])

    with ThreadPoolExecutor(6) as ex:
        return list(ex.map(one, range(len(names))))


def conform(prop, tier, seed, tmp, limit, hints=None):
    f = os.path.join(V, "conform", prop.lower() + ".py")
    if not os.path.exists(f):
        return None
    out = os.path.join(tmp, f"c{len(os.listdir(tmp))}_{'h' if hints else 'c'}_{seed}.json")
    hp = "-"
    if hints:
        hp = os.path.join(tmp, "hints.json")
        json.dump(hints, open(hp, "w"))
    rc, o = run_limited([PYR, "-W", "ignore", os.path.join(V, "conform", "runner.py"), prop, tier, str(seed), out, str(limit * 0.8), hp], env_real(), limit)
    if os.path.exists(out):
        return json.load(open(out))
    return dict(prop=prop, ok=False, crash=("time limit" if rc is None else f"exit {rc}: {o[-2000:]}"))


def known_findings(prop):
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith(f"finding: property={prop} "):
                parts = l.split(" ", 3)  # finding: property=.. key=.. text
                out.append(dict(key=parts[2].split("=", 1)[1], text=parts[3]))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    dlim, clim = (330, 420) if tier == "quick" else (1500, 2400)
    tmp = tempfile.mkdtemp(prefix=f"vpc_{prop}_")
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    for f in glob.glob(os.path.join(V, "replays", prop + "-*")):
        os.remove(f)
    try:
        with ThreadPoolExecutor(2) as ex:
            fd = ex.submit(deduce, prop, tier, tmp, dlim)
            fc = ex.submit(conform, prop, tier, seed, tmp, clim)
            proofs, conf = fd.result(), fc.result()
        obls = [o for p in proofs for o in p["obligations"]]
        refuted = [o for o in obls if o["status"] == "refuted"]
        opened = [o for o in obls if o["status"] == "open"]
        hints = [o["model"] for o in refuted + opened if o.get("model")]
        rep = None
        viol = list((conf or {}).get("violations") or [])
        if not viol and hints and conf is not None:
            uniq = []
            for h in hints:
                if h not in uniq:
                    uniq.append(h)
            rep = conform(prop, tier, seed, tmp, 200, uniq[:12])
            viol = list((rep or {}).get("violations") or [])
        # the source no longer discharges: look harder for a failing input (bounded, other seeds and the deep case list)
        notdone = any(o["status"] != "proved" for o in obls) or any(p.get("unsupported") or p.get("crash") for p in proofs)
        if not viol and notdone and conf is not None:
            left = (800 if tier == "quick" else 3000) - (time.time() - t0)
            if left > 60:
                deep = conform(prop, "thorough", seed + 1000, tmp, min(left, 320 if tier == "quick" else 1500))
                viol = list((deep or {}).get("violations") or [])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    kf = known_findings(prop)
    hit_known = []
    new_viol = []
    for v in viol:
        k = next((k for k in kf if k["key"] in v["case"]), None)
        (hit_known if k else new_viol).append((v, k))
    for k in (conf or {}).get("known") or []:
        m = next((x for x in kf if x["key"] == k), None)
        if m:
            hit_known.append((None, m))
    shown = set()
    for _, k in hit_known:
        if k["key"] not in shown:
            shown.add(k["key"])
            print(f"KNOWN-FINDING: property={prop} {k['text']}")

    proved = [o for o in obls if o["status"] == "proved"]
    undec = [o for o in obls if o["status"] in ("unknown", "open", "vacuous")]
    stopped = [dict(proof=p["proof"], why=(p.get("unsupported") or p.get("crash") or "")[:600]) for p in proofs if p.get("unsupported") or p.get("crash")]
    dead = [p["proof"] for p in proofs if not p.get("unsupported") and not p.get("crash") and (not p["obligations"] or not p.get("live_paths"))]
    complete = bool(obls) and len(proved) == len(obls) and not stopped and not dead

    lines = []
    rc = 0
    if new_viol:
        rp = os.path.join(V, "replays", f"{prop}-input.json")
        json.dump(dict(property=prop, kind="concrete input on the real code", violations=[v for v, _ in new_viol], failed_obligations=refuted[:10] + opened[:10], tier=tier, seed=seed, rerun=f"VERIF_SEED={seed} /verif/check {prop} {tier}"), open(rp, "w"), indent=1, default=str)
        lines.append(f"VIOLATION property={prop} replay={rp}")
        rc = 1
    elif refuted:
        rp = os.path.join(V, "replays", f"{prop}-obligation.json")
        json.dump(dict(property=prop, kind="failed obligation, solver counter-model, no failing input reproduced", failed_obligations=refuted, conformance=conf, replay=rep), open(rp, "w"), indent=1, default=str)
        lines.append(f"VIOLATION property={prop} replay={rp} no-failing-input-found")
        rc = 1

    for p in proofs:
        n = len(p["obligations"])
        ok = sum(o["status"] == "proved" for o in p["obligations"])
        print(f"[{prop}] proof {p['proof']}: {ok}/{n} obligations discharged, paths={p.get('paths')} solver={p.get('solver_s')}s wall={p.get('wall_s')}s" + (f"  UNDECIDED: {p.get('unsupported') or p.get('crash')}" if p.get("unsupported") or p.get("crash") else ""))
        for o in p["obligations"]:
            if o["status"] != "proved":
                print(f"    {o['status']}: {o['name']} {str(o['detail'])[:300]} model={o.get('model')}")
    if conf is not None:
        print(f"[{prop}] conformance: cases={conf.get('cases')} violations={len(conf.get('violations') or [])} skips={len(conf.get('skips') or [])} errors={len(conf.get('errors') or [])} wall={conf.get('wall_s')}s {('CRASH ' + conf['crash']) if conf.get('crash') else ''}")
        for s in (conf.get("skips") or [])[:5]:
            print("    skip:", s)
        for s in (conf.get("errors") or [])[:5]:
            print("    harness error:", s["case"], s["what"], s["trace"][-600:])
    for v, _ in new_viol:
        print("    violated:", v["case"], v["args"], v["kwargs"], "::", v["what"][:1200])

    level = manifest_level(prop)
    back = {}
    cov = dict(
        obligations=len(obls),
        discharged=len(proved),
        checker_cmd=f"python3-vt -m vp.deduce {prop} <proof-index> out.json quick   (z3 {z3version()}, VCs generated from /repo source at run time)",
        trusted_base=[
            "vp/ VC generator (symbolic executor over unmodified repository source)",
            "assumed contracts of torch/numpy operators in vp/symtorch.py, vp/symload.py",
            "z3",
            "real arithmetic for floating point, unbounded integers for machine integers",
        ],
        proofs=[dict(proof=p["proof"], obligations=len(p["obligations"]), discharged=sum(o["status"] == "proved" for o in p["obligations"]), paths=p.get("paths"), solver_s=p.get("solver_s"), functions=p.get("functions"), stopped=p.get("unsupported") or p.get("crash")) for p in proofs],
        functions_under_contract=sorted({f for p in proofs for f in p.get("functions") or []}),
        undecided=[dict(name=o["name"], status=o["status"]) for o in undec] + stopped,
        vacuous_proofs=dead,
        solver_s=round(sum(p.get("solver_s") or 0 for p in proofs), 2),
        all_obligations_discharged=complete,
        bounded_conformance=dict(label="bounded (concrete inputs on the real code; never counted as proved)", cases=(conf or {}).get("cases"), by_kind=(conf or {}).get("counts"), skips=(conf or {}).get("skips"), harness_errors=(conf or {}).get("errors"), crash=(conf or {}).get("crash"), build_s=(conf or {}).get("build_s")),
        explanation="Deductive obligations regenerated from the current source and discharged by z3; the same contracts evaluated on the compiled/real code as bounded conformance and counterexample replay. Anything undecided is listed under 'undecided' and rests on the bounded part only.",
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=sorted({a for p in proofs for a in p.get("assumptions") or []}), wall_s=round(time.time() - t0, 2), violations=len(new_viol) + (1 if (rc and not new_viol) else 0))
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1, default=str)

    # nothing decided at all -> error, never a silent pass
    if rc == 0 and not proved and not (conf and conf.get("ok") and conf.get("cases")):
        print(f"[{prop}] neither proof nor conformance produced an answer")
        rc = 2
    if rc == 0 and conf is not None and conf.get("crash") and not complete:
        print(f"[{prop}] conformance crashed and the proof is incomplete: undecided")
        rc = 2 if not proved else 0
    for l in lines:
        print(l)
    print(f"[{prop}] {'HELD' if rc == 0 else 'exit %d' % rc} ({len(proved)}/{len(obls)} obligations, {(conf or {}).get('cases')} concrete cases, {time.time()-t0:.0f}s)")
    sys.stdout.flush()
    os._exit(rc)


def z3version():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return "?"


def manifest_level(prop):
    try:
        m = json.load(open(os.path.join(V, "MANIFEST.json")))
        return next(c["level"] for c in m["checks"] if c["property"] == prop)
    except Exception:
        return "proof"


main()
