#!/usr/bin/env python3
"""check.py ID [--replay DIR]: decides one property on the current tree of /repo."""
import collections, json, os, random, shutil, sys, tempfile, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import CheckError
import suites


def run_batch(rep, drv, base, part, specs, known):
    out = os.path.join(base, "b")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    r = vlib.Run(drv, out, env=part.get("env"), timeout=part.get("timeout", 40), workers=part.get("workers", vlib.NCPU))
    done = r.run(specs)
    ids = [s["id"] for s in done]
    byid = {s["id"]: s for s in done}
    kinds = rep.coverage.setdefault("events", {})
    for i in ids:
        for l in open(os.path.join(r.out, "%d.ndjson" % i), "rb"):
            # the event name is enough, the rest is judged by TLC
            k = l.find(b'"e":"')
            name = l[k + 5:l.find(b'"', k + 5)].decode() if k >= 0 else "?"
            kinds[name] = kinds.get(name, 0) + 1
    bad, events = vlib.judge(part["module"], r.out, ids, out, heap=part.get("heap", "3g"))
    rep.coverage["states"] += events
    rep.coverage["transitions"] += events
    rep.coverage["trace_events"] = rep.coverage.get("trace_events", 0) + events
    rep.coverage["traces_validated_against_impl"] += len(ids)
    if len(rep.coverage["samples"]) < 3 and done:
        s = done[len(done) // 2]
        ev = open(os.path.join(r.out, "%d.ndjson" % s["id"])).read().split("\n")
        rep.coverage["samples"].append({"scenario": s, "events": len(ev) - 1, "first": [e[:400] for e in ev[1:3]], "last": [e[:400] for e in ev[-3:-1]]})
    watch = part["laws"]
    other = rep.coverage.setdefault("deviations_of_other_properties", {})
    per = collections.OrderedDict()
    for b in bad:
        sid, run, kind, law = b[0], b[1], b[2], b[3]
        if not watch(law, kind):
            other[law] = other.get(law, 0) + 1
            continue
        hit = [k for k in known if k["property"] == rep.pid and k["match"] == law]
        if hit:
            rep.known[law] = hit[0]["what"]
            rep.coverage["known_finding_hits"] = rep.coverage.get("known_finding_hits", 0) + 1
            continue
        per.setdefault(sid, []).append(b)
    for sid, bs in per.items():
        if len(rep.violations) >= 10:
            break
        files = {"spec.json": json.dumps({"part": part["name"], "spec": byid[sid]}, indent=1),
                 "bad.json": json.dumps(bs[:200], indent=1),
                 "trace.ndjson": open(os.path.join(r.out, "%d.ndjson" % sid), "rb").read()}
        if sid in r.crashes:
            files["stderr.txt"] = r.crashes[sid][1]
        what = "%s: rules broken: %s; first: %s; scenario %s" % (part["name"], ", ".join(sorted({b[3] for b in bs})), bs[0], json.dumps(byid[sid])[:300])
        rep.violation(what, files)
    shutil.rmtree(out, ignore_errors=True)


def specs_for(part, seed, batch, count=None):
    specs = []
    k = 0
    for kind, arg, n in part["plan"]:
        if callable(n):
            n = n(batch)
        for _ in range(n):
            k += 1
            a = arg(k, seed, batch) if callable(arg) else arg
            specs.append({"id": k, "kind": kind, "seed": (seed * 1000 + batch) * 100000 + k, "arg": a})
    return specs


def main():
    pid = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    if pid not in suites.PROPS:
        raise CheckError("unknown property " + pid)
    prop = suites.PROPS[pid]
    only = None
    if replay:
        only = json.load(open(os.path.join(replay, "spec.json")))
    rep = vlib.Report(pid)
    rep.assumptions = prop.get("assumptions", [])
    known = vlib.known_findings()
    base = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        os.chmod(base, 0o755)
        drvs = {}

        def driver(part):
            t = (part.get("tags", "-tags no_license"), part.get("cli", False))
            if t not in drvs:
                drvs[t] = vlib.build(os.path.join(base, "d%d" % len(drvs)), *t)
            if t[1]:
                part.setdefault("env", {})["CLI"] = os.path.join(os.path.dirname(drvs[t]), "ripsrc")
            return drvs[t]
        thorough = rep.tier == "thorough"
        if not only:
            for m in prop.get("models", []):
                cfgs = [m[1]] + ([m[2]] if thorough and len(m) > 2 else [])
                for c in cfgs:
                    rep.model(vlib.model_check(m[0], c, base, workers=vlib.NCPU, timeout=500))
            if thorough:
                for m in prop.get("mutants", []):
                    vlib.mutant_check(*m, base=base)
                    rep.coverage.setdefault("broken_designs_found", []).append([m[0], m[2], m[3]])
        for part in prop["parts"]:
            if only:
                if only["part"] != part["name"]:
                    continue
                run_batch(rep, driver(part), base, part, [only["spec"]], known)
                continue
            if "generate" in part:
                part = dict(part)
                part["plan"] = part["generate"](rep, base, vlib)
            run_batch(rep, driver(part), base, part, specs_for(part, rep.seed, 0), known)
        if thorough and not only:
            end = time.time() + float(os.environ.get("VERIF_THOROUGH_S", "480"))
            batch = 0
            while time.time() < end and not rep.violations:
                batch += 1
                for part in prop["parts"]:
                    if "generate" in part or part.get("once"):
                        continue
                    run_batch(rep, driver(part), base, part, specs_for(part, rep.seed, batch), known)
            rep.coverage["batches"] = batch + 1
        return rep.finish()
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    try:
        code = main()
    except CheckError as e:
        print("CHECK ERROR:", e)
        code = 3
    except Exception:
        traceback.print_exc()
        code = 3
    sys.exit(code)
