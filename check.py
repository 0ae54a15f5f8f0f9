#!/usr/bin/env python3
"""python3 check.py Pxx [--tier quick|thorough] [--repo DIR]: decide one property from the source of /repo."""
import argparse, importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def known(pid):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                body = line[len("finding:"):].strip()
                parts = dict(x.split("=", 1) for x in body.split(" | ")[0].split(" ") if "=" in x)
                if parts.get("property") == pid:
                    out[parts["key"]] = body.split(" | ", 1)[1]
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    from vf.index import Index
    from vf.rule import Report, Stop, run
    mod = importlib.import_module("vf.props." + a.pid)
    ix = Index(os.path.join(a.repo, "src"))
    rep = Report(a.pid, ix, a.tier)
    try:
        run(mod, rep)
    except Stop:
        pass
    except Exception:
        if not rep.findings:
            raise
        traceback.print_exc()   # what was found before the analysis gave up stands
    if not rep.obs:
        print("no obligations were generated", file=sys.stderr)
        return 3
    kn = known(a.pid)
    viol, listed = [], []
    for f in rep.findings:
        f["key"] = (f["rule"] + ":" + f["construct"]).replace(" ", "_")
        (listed if f["key"] in kn else viol).append(f)
    ok = sum(1 for o in rep.obs if o[2])
    per = {}
    for r, _, o in rep.obs:
        p = per.setdefault(r, {"obligations": 0, "discharged": 0, "rule": rep.rules.get(r, "")})
        p["obligations"] += 1
        p["discharged"] += o
    cov = {
        "explanation": getattr(mod, "__doc__", "") or a.pid,
        "obligations": len(rep.obs), "discharged": ok,
        "functions_analysed": sorted(rep.funcs), "rules": per, "instance_counts": rep.counts,
        "samples": [f"{r}: {c}" for r, c, _ in rep.obs[:: max(1, len(rep.obs) // 12)]],
        "checker_cmd": f"python3 /verif/check.py {a.pid} --tier {a.tier}",
        "trusted_base": ["CPython ast module", "/verif/vf abstract interpreter and normal forms", "library models in /verif/vf/calls.py"],
    }
    ev = {"property": a.pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": getattr(mod, "LEVEL", "other"),
          "coverage": cov, "wall_s": round(time.time() - t0, 3), "assumptions": list(getattr(mod, "ASSUMES", ())) + rep.notes,
          "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", a.pid + ".json"), "w"), indent=1, default=str)
    print(f"{a.pid}: {ok}/{len(rep.obs)} obligations discharged over {len(rep.funcs)} functions " + " ".join(f"{k}={v}" for k, v in rep.counts.items()))
    if a.v:
        for r, c, o in rep.obs:
            print("  ", "ok " if o else "BAD", r, c)
    for f in listed:
        print(f"KNOWN-FINDING: property={a.pid} {f['key']} {kn[f['key']]}")
    if viol:
        os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
        path = os.path.join(HERE, "evidence", "replay", a.pid + ".json")
        json.dump(viol, open(path, "w"), indent=1, default=str)
        for f in viol:
            print(f"  [{f['rule']}] {f['construct']} {f['where']}: {f['what']}")
        print(f"VIOLATION property={a.pid} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except BaseException as e:
        if isinstance(e, SystemExit):
            raise
        traceback.print_exc()
        print(f"check error: {type(e).__name__}: {e}", file=sys.stderr)
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
