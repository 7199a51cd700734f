#!/usr/bin/env python3
"""run_check.py <PROPERTY> [--thorough] [--only INST] [--keep]: decide one property on /repo's current tree."""
import json, os, re, shutil, sys, time
from concurrent.futures import ThreadPoolExecutor
import sxlib, registry
from sxlib import OUT, VERIF


def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def is_known(f, prop, inst, e):
    for k in f["findings"]:
        if k["property"] != prop:
            continue
        m = k["match"]
        if "instance" in m and not re.fullmatch(m["instance"], inst):
            continue
        if "kind" in m and m["kind"] != e["kind"]:
            continue
        if "msg" in m and m["msg"] != e["msg"]:
            continue
        if "func" in m and m["func"] != e["func"]:
            continue
        if "stack" in m and not re.search(m["stack"], e["stack"]):
            continue
        if "inputs" in m:
            allh = " ".join("%s=%s" % (a, b) for a, b in e["inputs"])
            if not re.search(m["inputs"], allh):
                continue
        return k
    return None


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = registry.CHECKS[prop]
    insts = [i for i in chk["instances"] if tier == "thorough" or not i.thorough]
    if tier == "thorough":
        superseded = set(sum((i.__dict__.get("supersedes", []) for i in insts), []))
        insts = [i for i in insts if i.name not in superseded]
    if only:
        insts = [i for i in chk["instances"] if re.search(only, i.name)]
    sxlib.setup()
    libs = {}
    for i in insts:
        libs.setdefault(i.lib, sxlib.Library(i.lib))
    for l in libs.values():
        l.compile(("ir", "nat"))
    work = os.path.join(OUT, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    repdir = os.path.join(VERIF, "replays", prop)
    shutil.rmtree(repdir, ignore_errors=True)
    os.makedirs(repdir)
    findings = load_findings()
    budget = (780 if tier == "quick" else 7200)

    def one(i):
        r = {"inst": i}
        try:
            src = os.path.join(VERIF, "harness", i.src)
            bc = os.path.join(work, i.name + ".bc")
            libs[i.lib].harness_bc(src, bc, i.dflags())
            left = budget - (time.time() - t0)
            scale = 1.0 if left > i.time else max(0.05, left / i.time)
            if tier == "thorough" and not i.thorough:
                scale *= 3
            r["res"] = sxlib.run_symx(i, bc, os.path.join(work, i.name + ".json"), seed, scale)
            os.unlink(bc)
            exe = os.path.join(work, i.name + ".exe")
            libs[i.lib].harness_native(src, exe, i.dflags())
            r["exe"] = exe
            validate(i, r)
        except Exception as ex:  # build or engine failure: an error of the check
            r["error"] = "%s: %s" % (type(ex).__name__, ex)
        return r

    def validate(i, r):
        """Replay solver models natively: counterexamples and a sample of clean paths."""
        res, exe = r["res"], r["exe"]
        r["confirmed"], r["unconfirmed"], r["validated"], r["diverged"] = [], [], 0, []
        groups = {}
        for e in res["errors"]:
            groups.setdefault((e["kind"], e["loc"], e["msg"]), []).append(e)
        vg = None
        for key, es in groups.items():
            done = False
            last = ""
            for n, e in enumerate(es[:4]):
                f = os.path.join(repdir, "%s-%d-%d.in" % (i.name, len(r["confirmed"]) + len(r["unconfirmed"]), n))
                sxlib.write_inputs(f, e["inputs"])
                stt, det = sxlib.run_native(exe, f)
                if stt not in ("fail", "hang") and e["kind"] in ("uninit", "assert"):
                    if vg is None:
                        vg = exe + ".vg"
                        libs[i.lib].harness_native(os.path.join(VERIF, "harness", i.src), vg, i.dflags(), "vg")
                    stt, det = sxlib.run_native(vg, f, valgrind=True, timeout=60)
                if stt in ("fail", "hang"):
                    with open(f + ".txt", "w") as o:
                        o.write(json.dumps({"property": prop, "instance": i.name, "harness": i.src, "defs": i.defs, "lib": i.lib,
                                            "error": e, "native": det}, indent=1))
                    e["native"] = det
                    e["replay"] = os.path.relpath(f, VERIF)
                    r["confirmed"].append(e)
                    done = True
                    break
                last = "%s %s" % (stt, det)
            if not done:
                r["unconfirmed"].append((key, last))
        for n, smp in enumerate(res["samples"][:8]):
            f = os.path.join(work, "%s-s%d.in" % (i.name, n))
            sxlib.write_inputs(f, smp["inputs"])
            ob = f + ".obs"
            stt, det = sxlib.run_native(exe, f, ob, timeout=60)
            if stt == "fail":
                keep = os.path.join(repdir, "%s-native-%d.in" % (i.name, n))
                shutil.copy(f, keep)
                r["confirmed"].append({"kind": "native", "loc": "", "func": "", "msg": det, "stack": "", "inputs": smp["inputs"],
                                       "native": det, "replay": os.path.relpath(keep, VERIF)})
                continue
            if stt != "ok":
                r["diverged"].append("%s %s" % (stt, det))
                continue
            got = open(ob).read().split()
            exp = smp["obs"]
            if len(got) != len(exp) or any(a != b and b != "deadbeefdeadbeef" for a, b in zip(got, exp)):
                bad = [k for k in range(min(len(got), len(exp))) if got[k] != exp[k]][:3]
                r["diverged"].append("observations differ at %s (native %d values, encoding %d): %s" %
                                     (bad, len(got), len(exp), smp["inputs"]))
            else:
                r["validated"] += 1
        if len(res["samples"]) and "--keep" not in sys.argv:
            for f in os.listdir(work):
                if f.startswith(i.name + "-s"):
                    os.unlink(os.path.join(work, f))

    order = sorted(insts, key=lambda i: (-i.jobs, -i.time))
    results = []
    for i in [x for x in order if x.jobs > 1]:
        results.append(one(i))
    with ThreadPoolExecutor(sxlib.NPROC) as ex:
        results += list(ex.map(one, [x for x in order if x.jobs <= 1]))

    nviol = nerr = 0
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], solver_queries=0, z3_queries=0,
               complete_domain_queries=0, solver_seconds=0.0, assertions_checked=0, memory_accesses_checked=0,
               instances_decided=0, instances_partial=0, paths_cut=0, functions_encoded=0, unconfirmed_counterexamples=0)
    funcs, per, known = set(), [], {}
    for r in sorted(results, key=lambda r: r["inst"].name):
        i = r["inst"]
        if "error" in r:
            print("ERROR %s: %s" % (i.name, r["error"]))
            nerr += 1
            continue
        res = r["res"]
        full = res["finished"] and res["cut"] == 0
        cov["states"] += res["paths"] + res["error_paths"]
        cov["transitions"] += res["steps"]
        cov["traces_validated_against_impl"] += r["validated"]
        cov["solver_queries"] += res["queries"]
        cov["z3_queries"] += res["z3_queries"]
        cov["complete_domain_queries"] += res["domain_queries"]
        cov["solver_seconds"] = round(cov["solver_seconds"] + res["z3_time"], 3)
        cov["assertions_checked"] += res["assert_checks"]
        cov["memory_accesses_checked"] += res["mem_checks"]
        cov["paths_cut"] += res["cut"]
        cov["instances_decided" if full else "instances_partial"] += 1
        cov["unconfirmed_counterexamples"] += len(r["unconfirmed"])
        funcs |= set(res["functions"])
        if res["samples"]:
            cov["samples"].append({"instance": i.name, "inputs": res["samples"][0]["inputs"], "observed": res["samples"][0]["obs"][:16]})
        missing = [c for c in i.covers if not res["covers"].get(c)]
        per.append({"instance": i.name, "harness": i.src, "parameters": i.defs, "bound": i.bound, "decided": full, "paths": res["paths"],
                    "cut": res["cut_reasons"], "bound_cut": res["bound_cut"], "wall_s": round(res["wall"], 2), "z3_s": round(res["z3_time"], 2),
                    "covers": res["covers"], "unreached": missing})
        print("%-28s %s paths=%d steps=%d queries=%d z3=%d/%.1fs wall=%.1fs validated=%d%s" %
              (i.name, "DECIDED" if full else "PARTIAL " + json.dumps(res["cut_reasons"]), res["paths"], res["steps"], res["queries"],
               res["z3_queries"], res["z3_time"], res["wall"], r["validated"],
               "" if not missing else " UNREACHED " + ",".join(missing)))
        for key, last in r["unconfirmed"]:
            print("  UNCONFIRMED %s: %s (native replay: %s)" % (i.name, " ".join(key), last))
        new = []
        for e in r["confirmed"]:
            k = is_known(findings, prop, i.name, e)
            if k:
                known.setdefault(k["what"], 0)
                known[k["what"]] += 1
            else:
                new.append(e)
        for e in new:
            nviol += 1
            print("  COUNTEREXAMPLE %s at %s in %s: %s\n    stack: %s\n    native: %s\n    inputs: %s" %
                  (e["kind"], e["loc"], e["func"], e["msg"], e["stack"], e["native"],
                   " ".join("%s=%s" % (a, b) for a, b in e["inputs"])[:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, e["replay"]))
        if not new and not r["confirmed"]:
            for d in r["diverged"]:
                print("  ENCODING-DIVERGENCE %s: %s" % (i.name, d[:600]))
                nerr += 1
            if missing and full:
                print("  VACUOUS %s: never reached %s" % (i.name, missing))
                nerr += 1
    for w, n in known.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    cov["functions_encoded"] = len(funcs)
    cov["instances"] = per
    cov["functions"] = sorted(f for f in funcs if not f.startswith("sx_"))[:400]
    cov["explanation"] = chk.get("explanation", "") or "Bounded symbolic execution of clang-lowered real code; states = fully explored symbolic paths, transitions = IR instructions executed."
    cov["exhaustive"] = cov["instances_partial"] == 0
    if not cov["samples"]:
        cov["samples"] = [{"instance": "none"}]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": registry.COMMON_ASSUMPTIONS + chk.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if "--keep" not in sys.argv:
        shutil.rmtree(work, ignore_errors=True)
    print("%s %s: %d decided, %d partial, %d violations, %d errors, %.1f s" %
          (prop, tier, cov["instances_decided"], cov["instances_partial"], nviol, nerr, time.time() - t0))
    if nviol:
        sys.exit(1)
    sys.exit(2 if nerr else 0)


if __name__ == "__main__":
    main()
