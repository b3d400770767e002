#!/usr/bin/env python3
"""check.py PROPERTY | --all : decides a property on /repo's current tree."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from framework import *
import framework
import rules

VERIF = dump.VERIF
TRUST = ["rustc's MIR construction and trait resolution (nightly, the tree's own source, host target)",
         "the library models in engine/natives.py (std, parking_lot, futures, slab) and the engine itself",
         "the listed opaque boundaries, each of which has rules of its own"]


THOROUGH = False


def known():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith("finding: "):
                prop, key = line[len("finding: "):].split(" ", 1)
                out.append((prop.split("=", 1)[1], key))
    return out


def contexts():
    from concurrent.futures import ThreadPoolExecutor
    out = {}
    for c in dump.CONFIGS:
        out[c] = Ctx(c, dump.dump_file(c))
    return out


def run_rule(rl, ctxs):
    outs = []
    for c in (rl.configs if not THOROUGH or rl.only else sorted(ctxs)):
        o = Out(rl, ctxs[c])
        try:
            rl.fn(o)
        except AnalysisError as e:
            o.need(False, "anchor or construct the rule needs: %s" % e, "", "", panics=True)
        except Exception as e:
            tb = traceback.format_exc()
            o.need(False, "the code no longer has the shape this rule can follow (%s)" % type(e).__name__, "", tb, panics=True)
        outs.append(o)
    return outs


def check(prop, ctxs, cache):
    t0 = time.time()
    sel = [r for r in RULES if prop in r.all_props]
    fails, fns, sites, obl, paths, rl_ev = [], {}, set(), 0, 0, []
    for rl in sel:
        if rl.id not in cache:
            cache[rl.id] = run_rule(rl, ctxs)
        for o in cache[rl.id]:
            n = {"C32": o.panic_obligations, "C35": o.obligations if "C35" in rl.props else o.progress_obligations}.get(prop, o.obligations)
            if not n:
                continue
            obl += n
            paths += o.paths
            for f, k in o.fns.items():
                fns[f] = max(fns.get(f, 0), k)
            sites |= o.sites
            for what, where, detail, props in o.failed:
                if prop in props:
                    fails.append((rl, o.x.config, what, where, detail))
            rl_ev.append({"rule": rl.id, "config": o.x.config, "text": rl.text, "obligations": n, "failed": sum(prop in f[3] for f in o.failed), "functions": sorted(f for f, k in o.fns.items() if k), "paths": o.paths})
    kf = [k for p, k in known() if p == prop]
    new, old = {}, {}
    for rl, cfg, what, where, detail in fails:
        key = rl.id + " | " + what
        (old if key in kf else new).setdefault(key, (rl, cfg, what, where, detail))
    return dict(prop=prop, rules=sel, new=new, old=old, obl=obl, failed=len(fails), fns=fns, sites=sites, paths=paths, rl_ev=rl_ev, wall=time.time() - t0)


def report(res, wall):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    prop = res["prop"]
    for key in sorted(res["old"]):
        print("KNOWN-FINDING: property=%s %s" % (prop, key))
    rc = 0
    path = os.path.join("evidence", prop + ".violation.txt")
    full = os.path.join(VERIF, path)
    if os.path.exists(full):
        os.remove(full)
    if res["new"]:
        rc = 1
        with open(full, "w") as f:
            for key in sorted(res["new"]):
                rl, cfg, what, where, detail = res["new"][key]
                f.write("rule      %s (%s)\nobligation %s\nwhere     %s\nfeatures  %s\n" % (rl.id, rl.text, what, where, cfg))
                if detail:
                    f.write("path:\n      %s\n" % detail)
                f.write("\n")
        for key in sorted(res["new"])[:12]:
            rl, cfg, what, where, detail = res["new"][key]
            print("  [%s] %s  (%s)" % (rl.id, what, where))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    ev = {"property": prop, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": {"explanation": API if prop == "C33" else SAME if prop == "C36" else "Static analysis of the resolved MIR of /repo's current tree: every path of the listed functions (loops to a fixed point) was enumerated by a path-partitioned value-numbering analysis and each rule's obligations were decided on each path. Nothing was executed; the only solving is the engine's own value facts and, for auto traits, the type checker's trait solver.",
                       "obligations": res["obl"], "discharged": res["obl"] - res["failed"], "paths": res["paths"], "functions_analysed": len(res["fns"]), "effect_sites": len(res["sites"]),
                       "functions": sorted(res["fns"]), "rules": res["rl_ev"], "trusted_base": TRUST, "checker_cmd": "python3 engine/check.py " + prop,
                       "samples": ["%s: %s" % (r["rule"], r["text"]) for r in res["rl_ev"]][:6]},
          "assumptions": TRUST, "wall_s": round(wall, 3), "violations": len(res["new"])}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d rules, %d obligations on %d paths of %d functions, %d violations, %d known" % (prop, len(res["rules"]), res["obl"], res["paths"], len(res["fns"]), len(res["new"]), len(res["old"])))
    return rc


SAME = "The library's current source was compiled to MIR alone under every distinct feature set, and for the host and for wasm32; each body was compared with the same body in the build that the other checks analyse. Nothing was executed."
API = "The library's current source was type-checked alone under every distinct feature set; each witness program that uses an item was type-checked against each result that includes the item, and each program that must be refused was, with the error expected. Nothing was executed."


def main(args):
    global THOROUGH
    t0 = time.time()
    if "--thorough" in args or os.environ.get("VERIF_TIER") == "thorough":
        THOROUGH = True
        args = [a for a in args if a != "--thorough"]
    if args and args[0] == "--all":
        props = sorted({p for r in RULES for p in r.all_props})
    else:
        props = args
    os.chdir(VERIF)
    try:
        ctxs = contexts()
    except dump.DumpError as e:
        rc = 1
        for p in props:
            os.makedirs("evidence", exist_ok=True)
            path = "evidence/%s.violation.txt" % p
            open(path, "w").write("the current tree could not be analysed:\n%s\n" % e)
            print(e)
            print("VIOLATION property=%s replay=%s" % (p, path))
            json.dump({"property": p, "tier": "quick", "seed": 1, "level": "other", "coverage": {"explanation": "the tree does not compile", "obligations": 1, "discharged": 0}, "wall_s": time.time() - t0, "violations": 1}, open("evidence/%s.json" % p, "w"))
        return rc
    cache = {}
    rc = 0
    for p in props:
        t = time.time()
        res = check(p, ctxs, cache)
        if not res["rules"]:
            print("no rules for", p)
            return 2
        rc |= report(res, time.time() - (t0 if len(props) == 1 else t))
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
