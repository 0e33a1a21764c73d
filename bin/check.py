#!/usr/bin/env python3
"""bin/check.py <PROPERTY> [--tier quick|thorough] : decides one property by symbolic execution of /repo's current sources.

exit 0: held on everything explored; exit 1 + VIOLATION line: a confirmed counterexample; exit 2: the check itself failed."""
import argparse, concurrent.futures as cf, json, os, subprocess, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sxbuild
from sxbuild import VERIF, BUILD

T0 = time.time()


def load_known(prop):
    """known-findings.txt: 'finding: property=<id> key=<key> <text>' (suppresses exactly that key) and 'fixed: ...' (suppresses nothing)"""
    r = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            w = l.strip().split(None, 3)
            if len(w) == 4 and w[0] == "finding:" and w[1] == "property=" + prop and w[2].startswith("key="):
                r[w[2][4:]] = w[3]
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--only")
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    prop = a.property
    cfgs = json.load(open(os.path.join(VERIF, "checks.json")))
    cfg = cfgs["checks"][prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = load_known(prop)
    try:
        exe = sxbuild.build(cfg["file"], cfg.get("exts", []))
    except sxbuild.BuildError as e:
        print("BUILD FAILED for %s\n%s" % (prop, e))
        return 2
    build_s = time.time() - T0
    names = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True).stdout.split()
    names = sorted(n for n in names if not a.only or n in a.only.split(","))
    hc = cfg.get("harnesses", {})
    thorough = a.tier == "thorough"
    dflt = cfg.get("budget_thorough", 600) if thorough else cfg.get("budget", 60)
    limit = cfg.get("total_thorough", 14 * 60 - 60) if thorough else cfg.get("total", 150)
    outdir = os.path.join(BUILD, "out-%s-%s" % (prop, a.tier))
    os.makedirs(outdir, exist_ok=True)
    par = cfg.get("parallel", 4 if len(names) >= 4 else max(1, len(names)))
    workers = max(2, sxbuild.JOBS // par + 1)
    start = time.time()

    def run(n):
        left = limit - (time.time() - start)
        if left < 3:
            return n, None, "no time left"
        c = hc.get(n, {})
        b = min(left, c.get("budget_thorough" if thorough else "budget", dflt))
        out = os.path.join(outdir, n + ".json")
        if os.path.exists(out):
            os.unlink(out)
        cmd = [exe, "--harness", n, "--out", out, "--budget", str(b), "--workers", str(workers), "--tier", a.tier, "--known", ",".join(known)]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if not os.path.exists(out):
            return n, None, r.stdout[-2000:]
        return n, json.load(open(out)), r.stdout[-2000:]

    res, errors = {}, []
    with cf.ThreadPoolExecutor(par) as ex:
        for n, r, log in ex.map(run, names):
            if r is None:
                if log != "no time left":
                    errors.append("%s: %s" % (n, log))
                res[n] = None
            else:
                res[n] = r
    viol = []
    unconfirmed = []
    repdir = os.path.join(VERIF, "replays")
    plain = None
    for n, r in res.items():
        if not r:
            continue
        vs = list(r["violations"])
        if r["exhausted"]:
            for lab in hc.get(n, {}).get("must", []):
                if lab not in r["reach"]:
                    vs.append({"msg": "no input within the bounds reaches: " + lab, "inputs": [], "absent": lab})
        for v in vs[:1]:
            os.makedirs(repdir, exist_ok=True)
            path = os.path.join(repdir, "%s-%s.txt" % (prop, n))
            with open(path, "w") as f:
                f.write("# property %s harness %s\n# %s\n# replay: python3 bin/replay.py %s\n" % (prop, n, v["msg"], path))
                f.write("harness %s %s %s\n" % (cfg["file"], n, ",".join(cfg.get("exts", []))))
                for nm, val, d in v["inputs"]:
                    f.write("input %s %s\n" % (val, nm))
            if "absent" in v:
                viol.append((n, v["msg"], path))
                continue
            # confirm on a plain build of the same sources, in a fresh process
            if plain is None:
                try:
                    plain = sxbuild.build(cfg["file"], cfg.get("exts", []), plain=True)
                except sxbuild.BuildError as e:
                    errors.append("plain build: %s" % e)
                    plain = exe
            rr = subprocess.run([plain, "--harness", n, "--replay", path, "--tier", a.tier], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if rr.returncode == 1 and "REPLAY violated" in rr.stdout:
                viol.append((n, v["msg"], path))
                with open(path, "a") as f:
                    f.write("".join("# " + l + "\n" for l in rr.stdout.splitlines()[-30:]))
            else:
                unconfirmed.append({"harness": n, "msg": v["msg"], "replay_output": rr.stdout[-500:]})
    ok = [r for r in res.values() if r]
    S = lambda k: sum(r[k] for r in ok)
    U = lambda k: sorted(set(x for r in ok for x in r[k]))
    cov = {
        "states": S("nodes"), "transitions": S("decisions"), "traces_validated_against_impl": S("paths"),
        "samples": [{"harness": n, "inputs": r["samples"][:2]} for n, r in res.items() if r][:12],
        "exhaustive": bool(ok) and all(r and r["exhausted"] for r in res.values()),
        "bounds": cfg.get("bounds", ""), "queries": S("queries"), "sat": S("sat"), "unsat": S("unsat"), "unknown": S("unknown"), "query_cache_hits": S("cache_hits"),
        "solver_s": round(S("solver_s"), 2), "build_s": round(build_s, 1), "assertions_evaluated": S("asserts"), "assertions_with_symbolic_condition": S("symbolic_asserts"),
        "functions_deciding_on_symbolic_data": U("functions")[:200], "concretised_at": U("opaque"), "unsupported": U("unsupported"), "notes": U("notes"),
        "harnesses": {n: ({k: r[k] for k in ("exhausted", "stopped", "paths", "pending", "max_decisions", "max_vars", "queries", "unsat", "unknown", "lost", "divergences", "divergence", "stale", "mismatch", "solver_s", "wall_s", "reach")} if r else "not run: out of time") for n, r in res.items()},
        "unconfirmed": unconfirmed,
        "explanation": "states = distinct symbolic decision points (path-condition prefixes) reached; transitions = symbolic decisions taken over all paths; traces = paths, each executed by the real compiled code with its assertions evaluated, every other branch side either queued or refuted by the solver",
    }
    ev = {"property": prop, "tier": a.tier, "seed": seed, "level": cfg.get("level", "model_checking"), "coverage": cov,
          "assumptions": cfgs.get("assumptions", []) + cfg.get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    seen = {}
    for r in ok:
        for k, v in r["known"].items():
            seen[k] = v["msg"]
    for k, t in known.items():
        if k in seen:
            print("KNOWN-FINDING: property=%s %s" % (prop, t))
    for n, r in res.items():
        if r:
            print("%-28s %s paths=%d queries=%d unsat=%d unknown=%d pending=%d lost=%d div=%d solver=%.1fs wall=%.1fs %s" % (n, "exhausted" if r["exhausted"] else "PARTIAL(%s)" % r["stopped"], r["paths"], r["queries"], r["unsat"], r["unknown"], r["pending"], r["lost"], r["divergences"], r["solver_s"], r["wall_s"], ("unsup=%s" % r["unsupported"]) if r["unsupported"] else ""))
        else:
            print("%-28s not run" % n)
    print("%s %s build %.1fs total %.1fs" % (prop, a.tier, build_s, time.time() - T0))
    for n, m, p in viol:
        print("  %s: %s" % (n, m))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    if viol:
        return 1
    for u in unconfirmed:
        print("  unconfirmed (not reported): %s %s" % (u["harness"], u["msg"]))
    if errors:
        print("ERRORS\n" + "\n".join(errors))
        return 2
    if any(r["paths"] == 0 for r in ok) or not ok:
        print("a harness completed no path")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
