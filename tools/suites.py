"""What is run and watched for each property."""
import json
import random
import re
from concurrent.futures import ThreadPoolExecutor

CRASH = {"crash", "hang"}


def laws(*names):
    s = set(names) | CRASH
    return lambda law, kind: law in s


def any_law(law, kind):
    return True


def all_but(*names):
    return lambda law, kind: law not in names


def resumed(*names):
    s = set(names) | CRASH
    return lambda law, kind: law in s and kind != "full"


def part(name, module, watch, plan, **kw):
    d = {"name": name, "module": module, "laws": watch, "plan": plan}
    d.update(kw)
    return d


def proc(watch, plan, name="process", **kw):
    return part(name, "TraceProcess", watch, plan, **kw)


def dags(rep, base, vlib):
    """All graphs with up to 4 commits, with 5 commits a sample or all of them. Each with all choices of heads."""
    rnd = random.Random(rep.seed)
    res = []
    for n in (1, 2, 3, 4, 5):
        ds = vlib.generate("MCBranches", "GenDags.cfg", {"N": str(n)}, "DAG", base)
        rep.coverage["graphs_with_%d" % n] = len(ds)
        if n == 5 and rep.tier != "thorough":
            ds = rnd.sample(ds, 200)
        res += ds
    if rep.tier == "thorough":
        d3 = vlib.generate("MCBranches", "GenDags.cfg", {"N": "5", "MaxPar": "3"}, "DAG", base)
        res += rnd.sample([d for d in d3 if any(len(p) == 3 for p in d)], 500)
    rep.coverage["graphs_replayed"] = len(res)
    return [("dags", {"dags": res[k:k + 8]}, 1) for k in range(0, len(res), 8)]


def branch_parts(watch, n=300, graph=0):
    ps = [part("branches", "TraceBranches", watch, [("branches", {}, n)] + ([("graph", {}, graph)] if graph else [])),
          part("all small graphs", "TraceBranches", watch, [], generate=dags)]
    return ps


def combos(rep, base, vlib):
    """Files for all combinations of facts."""
    rnd = random.Random(rep.seed)
    cs = vlib.generate("MCFileInfo", "GenFacts.cfg", {}, "COMBO", base)
    rep.coverage["combinations_of_facts"] = len(cs)
    rnd.shuffle(cs)
    return [("files", {"n": 0, "combos": cs[k:k + 16]}, 1) for k in range(0, len(cs), 16)] + [("files", {"n": 60}, 60)]


def configs(rep, base, vlib):
    """All values of all settings alone, and random combinations of them."""
    rnd = random.Random(rep.seed)
    together = [[["core.attributesFile", "$FILE:* diff=up"], ["diff.up.textconv", "tr a-z A-Z <"]], [["core.attributesFile", "$FILE:* diff=cpp"], ["diff.cpp.textconv", "rev"]],
                [["core.attributesFile", "$FILE:* diff=up"], ["diff.up.command", "/bin/echo"]], [["core.attributesFile", "$FILE:* diff=up"], ["diff.up.binary", "true"]],
                [["core.attributesFile", "$FILE:* diff=up"], ["diff.up.textconv", "sort -u"], ["diff.up.cachetextconv", "true"]], [["blame.ignoreRevsFile", "$COMMITS"], ["diff.indentHeuristic", "false"]]]
    single = vlib.generate("MCConfig", "GenConfig.cfg", {}, "CFG", base)
    rep.coverage["settings_values"] = len(single)
    flat = [c[0] for c in single]
    args = []
    for prof in ("kinds", "", "source", "merge", "names"):
        rnd.shuffle(single)
        args += [{"prof": prof, "configs": together}] * 4
        args += [{"prof": prof, "configs": single[k:k + 6]} for k in range(0, len(single), 6)]
    # where git has a choice of how to show a change
    choice = [c for c in single if re.match(r"diff\.(indent|algo|up\.algo|context|interHunk|renameLimit|suppress)", c[0][0])]
    args += [{"prof": "source", "configs": choice}] * 8 + [{"prof": "flip", "configs": choice}] * 8
    args += [{"prof": "renames", "configs": [c for c in single if "ename" in c[0][0]]}] * 6
    n = 400 if rep.tier == "thorough" else 60
    for k in range(n):
        cs = []
        for _ in range(5):
            c = {}
            for kv in rnd.sample(flat, rnd.choice([2, 3, 5, 12, 30])):
                c[kv[0]] = kv
            cs.append(sorted(c.values()))
        args.append({"prof": rnd.choice(["kinds", "merge", "", "nomerge"]), "hostile": rnd.random() < 0.2, "configs": cs})
    rep.coverage["configurations"] = sum(len(a["configs"]) for a in args)
    return [("repeat", a, 1) for a in args]


def layouts(rep, base, vlib):
    """All layouts with two directories, larger ones are random."""
    rnd = random.Random(rep.seed)
    ls = vlib.generate("MCDiscovery", "GenLayouts.cfg", {}, "LAYOUT", base)
    rep.coverage["layouts_with_two_directories"] = len(ls)
    kids = [x["kids"][0] for x in ls if len(x["kids"]) == 1 and x["top"]["is"] == "plain"]
    for x in ls:
        # in any order
        rnd.shuffle(x["kids"])
    if rep.tier != "thorough":
        ls = [x for x in ls if len(x["kids"]) < 2] + rnd.sample([x for x in ls if len(x["kids"]) == 2], 160)
    tops = [x["top"] for x in ls if not x["kids"] and x["top"]["is"] not in ("file", "missing", "loop")]
    for _ in range(400 if rep.tier == "thorough" else 60):
        t = {"is": "plain", "st": "none"} if rnd.random() < 0.7 else rnd.choice(tops)
        ls.append({"top": t, "kids": [rnd.choice(kids) for _ in range(rnd.randint(3, 6))]})
    rep.coverage["layouts"] = len(ls)
    rnd.shuffle(ls)
    return [("cli", {"layouts": ls[k:k + 4]}, 1) for k in range(0, len(ls), 4)]


def crashes(rep, base, vlib):
    """All crash points and failures of the design, pairs of them, and all operations that the real code does."""
    rnd = random.Random(rep.seed)
    big = rep.tier == "thorough"
    cs = {json.dumps(c, sort_keys=True): c for c in vlib.generate("MCCheckpoint", "GenCrash.cfg", {}, "CRASH", base)}
    cs = [cs[k] for k in sorted(cs)]
    one = [c["h"] for c in cs if c["n"] == 1 and c["h"][0]["mode"] != "none"]
    two = [c["h"] for c in cs if c["n"] == 2 and len(c["h"]) == 2]
    rep.coverage["crash_points_of_design"] = len(one)
    rep.coverage["pairs_of_crash_points_of_design"] = len(two)
    plans = []

    def plan(h, start):
        steps = []
        for x in h:
            mode = x["mode"]
            if mode == "kill" and x["at"].startswith("write") and rnd.random() < 0.6:
                mode = "cut"
            if mode == "fail" and rnd.random() < 0.4:
                mode = "sticky"
            at = x["at"] if "@" in x["at"] or not x["at"] else x["at"] + "@1"
            steps.append({"op": rnd.choice(["incl", "full"]) if start == "old" else "full", "mode": mode, "at": at})
        plans.append({"start": start, "steps": steps})
    for h in one:
        for start in ("none", "old"):
            plan(h, start)
    for h in (two if big else rnd.sample(two, 60)):
        plan(h, rnd.choice(["none", "old"]))
    rnd.shuffle(plans)
    rep.coverage["crash_plans"] = len(plans)
    args = [{"plans": plans[k:k + 8], "big": rnd.random() < 0.2} for k in range(0, len(plans), 8)]
    of = 2 if big else 20
    modes = ["kill", "fail", "sticky", "cut"]
    for start, op in (("none", "full"), ("old", "full"), ("old", "incl")):
        for k in range(of):
            args.append({"start": start, "op": op, "modes": modes, "of": of, "slice": k, "chains": 2})
        for k in range(8 if big else 1):
            args.append({"start": start, "op": op, "modes": modes, "of": 8, "slice": 0, "chains": 1, "big": True, "max": 40 if big else 10})
    rnd.shuffle(args)
    return [("crash", a, 1) for a in args]


def streams(rep, base, vlib):
    """All ways to end, all failures of git, and all short scripts of the consumer."""
    rnd = random.Random(rep.seed)
    big = rep.tier == "thorough"
    cs = vlib.generate("StreamCases", "GenStreams.cfg", {}, "CASE", base)
    scripts = vlib.generate("StreamCases", "GenStreams.cfg", {}, "SCRIPT", base)
    rep.coverage["endings_and_failures"] = len(cs)
    rep.coverage["consumer_scripts"] = len(scripts)
    res = []
    for c in cs * (4 if big else 1):
        if c.get("fault", 0) > 4 and c["what"] == "meta":
            continue
        res.append(dict(c, script=rnd.choice(scripts), cap=rnd.choice([0, 0, 1, 3]), procs=rnd.choice([0, 1, 2]), at=rnd.randint(0, 1000),
                        slice=rnd.random() < 0.25))
    for s in scripts:
        for w in ("process", "meta", "code", "bycommit", "branches") if big else (rnd.choice(["process", "meta", "code"]), "bycommit"):
            res.append({"what": w, "kind": rnd.choice(["full", "full", "incl", "nonincl"]), "end": "", "script": s, "cap": rnd.choice([0, 0, 1, 3]), "procs": rnd.choice([0, 1, 2])})
    for w in ("process", "meta", "code", "branches"):
        for k in ("full", "incl", "nonincl") if w != "branches" else ("full",):
            for pr in (0, 1, 1, 1, 2, 2):
                res.append({"what": w, "kind": k, "end": "", "script": rnd.choice(scripts), "procs": pr, "slice": True})
    rep.coverage["stream_calls"] = len(res)
    rep.coverage["slice_calls"] = sum(1 for c in res if c.get("slice"))
    rnd.shuffle(res)
    return [("stream", {"cases": res[k:k + 12]}, 1) for k in range(0, len(res), 12)]


def tables(kind, quick, what=("files", "trees", "texts")):
    """Small histories of the design, all of them or a sample, packed into repositories."""

    def gen(rep, base, vlib):
        rnd = random.Random(rep.seed)
        big = rep.tier == "thorough"
        args = []
        shapes = {"Line3": [[], [1], [2], [3]], "Diamond": [[], [1], [1], [2, 3]], "Unrelated": [[], [], [1, 2], [3]], "Octopus": [[], [1], [1], [2, 3, 1]],
                  "DiamondTail": [[], [1], [1], [2, 3], [4]], "Line1": [[], [1]], "Line2": [[], [1], [2]]}
        total = 0
        ex = ThreadPoolExecutor(6)

        def all_of(jobs):
            # at the same time
            return [(shape, f.result()) for shape, f in [(j[0], ex.submit(vlib.generate, *j[1:], base)) for j in jobs]]
        if "files" in what:
            per = 50
            sets = []
            for shape, cs in all_of([(sh, "MCFile", "GenFile.cfg", dict(c, Shape="<- " + sh), "FILE") for sh, c in (
                                  ("Diamond", {"MaxLines": "2", "Kinds": '{"absent"}'}), ("Diamond", {"MaxLines": "1", "Kinds": '{"absent", "bin", "exec", "link"}'}),
                                  ("Octopus", {"MaxLines": "1", "Kinds": '{"absent", "bin", "link"}'}), ("Line3", {"MaxLines": "1", "Kinds": '{"absent", "bin", "exec", "link"}'}),
                                  ("Line2", {"MaxLines": "3", "Kinds": "{}"}), ("Unrelated", {"MaxLines": "1", "Kinds": '{"absent", "bin", "exec"}'}))]):
                cs = [list(x) for x in sorted({tuple(json.dumps(v, sort_keys=True) for v in c) for c in cs})]
                total += len(cs)
                rnd.shuffle(cs)
                sets.append((shape, [[json.loads(v) for v in c] for c in cs]))
            n = sum(len(cs) for _, cs in sets)
            for shape, cs in sets:
                take = len(cs) if big else min(len(cs), max(per, quick * per // len(sets)))
                for k in range(0, take, per):
                    args.append({"table": {"shape": shapes[shape], "files": cs[k:min(k + per, take)]}})
        if "trees" in what:
            for shape, cs in all_of([(sh, "MCRename", "GenRename.cfg", dict(c, Shape="<- " + sh), "TREES") for sh, c in (
                                  ("Line2", {"Contents_": "{2, 3, 4}"}), ("Line1", {"Paths": "{1, 2, 3}", "Contents_": "{2, 3, 4}"}), ("Diamond", {"Contents_": "{2, 3}"}))]):
                cs = sorted({json.dumps(c) for c in cs})
                total += len(cs)
                rnd.shuffle(cs)
                per = 24
                take = len(cs) if big else min(len(cs), quick * per // 6)
                for k in range(0, take, per):
                    sh, tr = [], []
                    for c in cs[k:min(k + per, take)]:
                        o = len(sh)
                        sh += [[q + o for q in ps] for ps in shapes[shape]]
                        tr += json.loads(c)
                    args.append({"table": {"shape": sh, "trees": tr}})
        if "moves" in what:
            (_, cs), (_, same) = all_of([("", "MCMeta", "GenMeta.cfg", {}, t) for t in ("MOVES", "SAME")])
            total += len(cs) + len(same)
            rnd.shuffle(cs)
            per = 40
            cs = (cs if big else cs[:per * quick // 4]) + same
            rnd.shuffle(cs)
            for k in range(0, len(cs), per):
                ms = cs[k:k + per]
                args.append({"table": {"shape": [[] if j % 2 == 0 else [j] for j in range(2 * len(ms))], "moves": ms}})
        if "texts" in what:
            (_, one), (_, more) = all_of([("", "MCLog", "GenLog.cfg", c, "TEXT") for c in ({"MaxNew": "1"}, {"MaxOld": "2", "MaxNew": "2", "Tokens": "<- Few"})])
            total += len(one) + len(more)
            rnd.shuffle(one)
            rnd.shuffle(more)
            per = 60
            cs = (one + more) if big else one[:per * quick // 4] + more[:per * quick // 6]

            def raw(ls, eol):
                s = "".join(x + "\n" for x in ls)
                return s if eol else s[:-1]
            rnd.shuffle(cs)
            for k in range(0, len(cs), per):
                args.append({"table": {"shape": shapes["Line1"], "texts": [[raw(c["a"], c["ae"]) if c["a"] else "-", raw(c["b"], c["be"])] for c in cs[k:k + per]]}})
        rep.coverage["small_histories_of_design"] = total
        rep.coverage["repositories_of_small_histories"] = len(args)
        rnd.shuffle(args)
        if kind == "mixed":
            return [(rnd.choice(["full", "meta"]), a, 1) for a in args]
        return [(kind, a, 1) for a in args]
    return gen


def runs(rep, base, vlib):
    """Sequences of runs over all graphs with few commits."""
    rnd = random.Random(rep.seed)
    big = rep.tier == "thorough"
    ex = ThreadPoolExecutor(6)
    jobs = [ex.submit(vlib.generate, "MCProcess", "GenRuns.cfg", c, "RUNS", base) for c in (
        {"N": "2", "MaxRuns": "2"}, {"N": "3", "MaxRuns": "2"}, {"N": "4", "MaxRuns": "2"}, {"N": "3", "MaxPar": "3", "MaxRuns": "2"})]
    if big:
        jobs.append(ex.submit(vlib.generate, "MCProcess", "GenRuns.cfg", {"N": "2", "MaxRuns": "3"}, "RUNS", base))
    cs = {}
    for j in jobs:
        for c in j.result():
            # something that is there to continue from
            if c["h"][0]["kind"] == "full" or rnd.random() < 0.05:
                cs[json.dumps(c, sort_keys=True)] = c
    cs = [cs[k] for k in sorted(cs)]
    rep.coverage["sequences_of_runs_of_design"] = len(cs)
    if not big:
        small = [c for c in cs if len(c["g"]) < 3]
        cs = rnd.sample(small, min(150, len(small))) + rnd.sample([c for c in cs if len(c["g"]) >= 3], 1200)
    elif len(cs) > 30000:
        cs = rnd.sample(cs, 30000)
    rep.coverage["sequences_of_runs"] = len(cs)
    by = {}
    for c in cs:
        by.setdefault(json.dumps(c["g"]), []).append(c["h"])
    args = []
    for g in sorted(by):
        for k in range(0, len(by[g]), 12):
            args.append({"g": json.loads(g), "seqs": by[g][k:k + 12]})
    rnd.shuffle(args)
    return [("runs", a, 1) for a in args]


def repeat(watch, plan, name="repeat", **kw):
    return part(name, "TraceRepeat", watch, plan, **kw)


WITHLIC = dict(tags="")


def code(watch, plan, name="code", **kw):
    return part(name, "TraceCode", watch, plan, **kw)


def small(watch, kind, quick, what):
    return part("small histories", "TraceCode" if kind in ("meta", "code") else "TraceProcess", watch, [], generate=tables(kind, quick, what))


def seqs(watch):
    return proc(watch, [], name="sequences of runs", generate=runs)


def muts(module, cfg, inv, *names):
    return [(module, cfg, {"Mutant": '"%s"' % n}, inv) for n in names]


METAMODEL = [("MCMeta", "MCMeta.cfg", "MCMetaBig.cfg")]
FILEMODEL = [("MCFile", "MCFile.cfg", "MCFileBig.cfg")]
LINEMODEL = [("MCFile", "MCFileLine.cfg", "MCFileLineBig.cfg")]
RENMODEL = [("MCRename", "MCRename.cfg", "MCRenameBig.cfg")]
LOGMODEL = [("MCLog", "MCLog.cfg", "MCLogBig.cfg")]
RUNMODEL = [("MCProcess", "MCProcess.cfg", "MCProcessBig.cfg")]
METALAWS = ["metascope", "metarepeat", "metaord", "metaval", "metafiles", "metastatus", "metacount", "metaren", "metaerr"]
CODELAWS = ["codeval", "codefiles", "codestatus", "codecount", "coderen", "codeorder", "codemix", "coderepeat", "codestatusval", "removed", "codelines", "size", "totals", "loc", "complexity", "linesha", "linemeta", "flags", "codeerr", "codescope"]
BRMODEL = [("MCBranches", "MCBranches.cfg", "MCBranchesBig.cfg")]

def stores(rep, base, vlib):
    """Contents of checkpoints from the design, all of them or a sample, to be written and read."""
    rnd = random.Random(rep.seed)
    cs = vlib.generate("MCStore", "GenStore.cfg", {}, "STORE", base)
    rep.coverage["checkpoint_contents_of_design"] = len(cs)
    rnd.shuffle(cs)
    take = cs if rep.tier == "thorough" else cs[:4000]
    rep.coverage["checkpoint_contents_written_and_read"] = len(take)
    return [("store", {"stores": take[k:k + 250], "together": k // 250 % 4 == 0}, 1) for k in range(0, len(take), 250)]


F = "full"
X = {"prof": "extreme"}
PROPS = {
    "C01": dict(parts=[proc(laws("content", "delempty", "binempty"), [(F, {}, 350), (F, {"hostile": True}, 150), (F, {"prof": "merge"}, 250), (F, {"prof": "kinds"}, 250), (F, {"prof": "names"}, 100), (F, X, 24)]),
                       small(laws("content", "delempty", "binempty"), "full", 120, ("files", "trees", "texts"))], models=FILEMODEL + RENMODEL,
                mutants=muts("MCRename", "MCRename.cfg", "TreesHold", "keepsource")),
    "C02": dict(parts=[proc(laws("attr"), [(F, {"prof": "nomerge"}, 400), (F, {"prof": "kinds"}, 300), (F, {}, 300), (F, X, 24)]), small(laws("attr"), "full", 120, ("files", "trees"))], models=LINEMODEL + RENMODEL,
                mutants=muts("MCFile", "MCFileLine.cfg", "AttributionHolds", "stale")),
    "C03": dict(parts=[proc(laws("attrm", "attr"), [(F, {"prof": "merge"}, 1200), (F, X, 24)]), small(laws("attrm", "attr"), "full", 160, ("files",))], models=FILEMODEL,
                mutants=muts("MCFile", "MCFile.cfg", "AttributionHolds", "lastview")),
    "C04": dict(parts=[proc(laws("files", "kind", "stamp"), [(F, {}, 400), (F, {"prof": "merge"}, 500), (F, {"prof": "kinds"}, 500), (F, {"prof": "names"}, 250), (F, X, 24), (F, {"prof": "manyfiles"}, 16)]),
                       small(laws("files", "kind", "stamp"), "full", 160, ("files", "trees"))], models=FILEMODEL + RENMODEL,
                mutants=muts("MCFile", "MCFileBig.cfg", "(MergeReports|ContentHolds)", "deltype") + muts("MCRename", "MCRename.cfg", "TreesHold", "keepsource")),
    "C05": dict(parts=[proc(laws("scope", "repeat", "order", "err"), [(F, {"all": 1}, 400), (F, {"all": 0}, 200), ("resume", {}, 500), (F, X, 16)]), seqs(laws("scope", "repeat", "order", "err"))], models=RUNMODEL,
                mutants=muts("MCProcess", "MCProcess.cfg", "EndsRight", "unordered", "twice", "exclfrom", "allparents", "firstonly")),
    "C06": dict(parts=[proc(resumed("resumed", "err", "lacks", "failkeep"), [("resume", {}, 600), ("resume", X, 16)]),
                       proc(resumed("resumed", "err", "lacks", "failkeep"), [("long", {"commits": 1400, "resume": True}, 8)], name="long"),
                       seqs(resumed("resumed", "err", "lacks", "failkeep")),
                       part("contents", "TraceProcess", laws("stored", "err"), [], generate=stores)],
                models=RUNMODEL + [("MCStore", "MCStore.cfg", "MCStoreBig.cfg")],
                mutants=muts("MCProcess", "MCProcess.cfg", "EndsRight", "overwrite", "early") + muts("MCStore", "MCStore.cfg", "(RoundTrip|Once)", "hash", "bytext", "zero", "empty")),
    "C07": dict(parts=[part("crashes", "TraceProcess", any_law, [], generate=crashes, timeout=60)],
                models=[("MCCheckpoint", "MCCheckpoint.cfg", "MCCheckpointBig.cfg")],
                mutants=[("MCCheckpoint", "MCCheckpoint.cfg", {"Mutant": '"%s"' % m}, "(Safe|KeptUntil|Complete)") for m in ("inplace", "onebyone", "swapfirst", "keeptmp", "ignore")]),
    "C08": dict(parts=[proc(laws("retain", "retainneed", "err"), [("resume", {}, 200)]),
                       proc(laws("retain", "retainneed", "err"), [("long", {"commits": 1600}, 8), ("long", {"commits": 1400, "resume": True}, 8), ("long", {"commits": 1600, "resume": True, "late": True}, 6)], name="long")], models=RUNMODEL,
                mutants=muts("MCProcess", "MCProcess.cfg", "EndsRight", "early", "newest")),
    "C09": dict(parts=[proc(laws("mustfail", "failempty", "failkeep", "version", "emptykeep", "err", "nockpt", "lacks"), [("resume", {}, 700)]), seqs(laws("mustfail", "failempty", "failkeep", "version", "emptykeep", "err", "nockpt", "lacks"))], models=RUNMODEL,
                mutants=muts("MCProcess", "MCProcess.cfg", "EndsRight", "noversion", "overwrite", "always", "firstversion")),
    "C10": dict(parts=branch_parts(laws("list", "deflist", "repeats", "headlast", "follow")), models=BRMODEL,
                mutants=[("MCBranches", "MCBranches.cfg", {"Mutant": '"keepline"'}, "ListIsDeclared"), ("MCBranches", "MCBranches.cfg", {"Mutant": '"forward"'}, "OrderHolds")]),
    "C11": dict(parts=branch_parts(laws("merged", "mergecommit", "points", "ahead", "behind", "first")), models=BRMODEL,
                mutants=[("MCBranches", "MCBranches.cfg", {"Mutant": '"nodedup"'}, "PointsAreDeclared")]),
    "C12": dict(parts=[part("branches", "TraceBranches", laws("records", "brerr", "brclosed"), [("branches", {}, 700)])], models=[("MCPool", "MCPool.cfg", "MCPoolBig.cfg")],
                mutants=muts("MCPool", "MCPool.cfg", "(NoPanic|Once|Complete|Failure|ClosedBeforeReturn|Ends)", "noclose", "nowait", "shared", "skipends", "errlost")),
    "C13": dict(parts=branch_parts(laws("id")), models=BRMODEL,
                mutants=[("MCBranches", "MCBranches.cfg", {"Mutant": '"nodedup"'}, "Stable")]),
    "C14": dict(parts=[code(laws("mergearrow", *METALAWS), [("meta", {}, 700), ("meta", {"prof": "kinds"}, 300), ("meta", {"prof": "merge"}, 300), ("meta", {"hostile": True}, 300), ("meta", {"prof": "huge"}, 16), ("meta", X, 32), ("meta", {"prof": "names"}, 100), ("meta", {"prof": "manyfiles"}, 40)], name="metadata"), small(laws("mergearrow", *METALAWS), "meta", 120, ("files", "trees", "moves"))], models=METAMODEL,
                mutants=muts("MCMeta", "MCMeta.cfg", "RightPaths", "last", "noslash", "guess")),
    "C15": dict(parts=[code(laws("lineoutside", *CODELAWS), [("code", {}, 600), ("code", X, 24)]), small(laws("lineoutside", *CODELAWS), "code", 40, ("files", "trees"))],
                models=[("MCJoin", "MCJoin.cfg", "MCJoinBig.cfg")], mutants=muts("MCJoin", "MCJoin.cfg", "(Right|Ends)", "during", "bypos", "own", "bylines", "union", "noremoved", "lose")),
    "C16": dict(parts=[code(laws("skip", "lang", "lic", "skiplines", "skipsame"), [], name="all combinations", generate=combos, **WITHLIC),
                       code(laws("skip", "lang", "lic", "skiplines", "skipsame"), [("code", {}, 120)], **WITHLIC)],
                models=[("MCFileInfo", "MCFileInfo.cfg", "MCFileInfoBig.cfg")],
                mutants=[("MCFileInfo", "MCFileInfo.cfg", {"Mutant": '"cacheall"'}, "FirstReason"), ("MCFileInfo", "MCFileInfo.cfg", {"Mutant": '"nosrc"'}, "FirstReason")]),
    "C17": dict(parts=[part("streams", "TraceStreams", any_law, [], generate=streams, env={"SHIM": "1"}, timeout=60)],
                models=[("MCStreams", "MCStreams.cfg", "MCStreamsBig.cfg")],
                mutants=[("MCStreams", "MCStreams.cfg", {"Mutant": '"%s"' % m}, p) for m, p in (("nodrain", "Ends"), ("noclose", "Ends"), ("async", "Refines"), ("nowait", "Complete"), ("giterr", "Complete"))]),
    "C18": dict(parts=[proc(any_law, [(F, {"hostile": True}, 1000), (F, {"prof": "names"}, 150), (F, X, 16), ("resume", {"hostile": True}, 150)]),
                       code(all_but("lineoutside"), [("meta", {"hostile": True}, 300), ("code", {"hostile": True}, 150)], name="metadata and code"),
                       small(any_law, "full", 160, ("texts",)), small(all_but("lineoutside"), "code", 30, ("texts",))], models=LOGMODEL,
                mutants=muts("MCLog", "MCLog.cfg", "ReadIsWritten", "blank", "anydiff", "anyhunk", "nametoo", "lastat", "endat")),
    "C19": dict(parts=[repeat(laws("samecfg"), [], name="configurations", generate=configs)], models=[("MCConfig", "MCConfig.cfg", "MCConfigBig.cfg")],
                mutants=[("MCConfig", "MCConfig.cfg", {"Unpinned": '{"log.showRoot"}'}, "Independent"), ("MCConfig", "MCConfig.cfg", {"Unpinned": '{"diff.noprefix"}'}, "Independent")]),
    "C20": dict(parts=branch_parts(laws("grapherr", "graphcommits", "graphkeys", "graphparents", "graphchildren"), n=100, graph=400),
                models=[("MCGraph", "MCGraph.cfg", "MCGraphBig.cfg")], mutants=muts("MCGraph", "MCGraph.cfg", "(Commits|ParentsDeclared|Keys|ChildrenDeclared|ReadIsClosed)", "headonly", "refsonly", "emptyparent", "firstparent", "noroot", "outside", "nokey", "reset", "nosort")),
    "C21": dict(parts=[part("command line", "TraceDiscovery", any_law, [], generate=layouts, cli=True, timeout=120)], models=[("MCDiscovery", "MCDiscovery.cfg", "MCDiscoveryBig.cfg")],
                mutants=[("MCDiscovery", "MCDiscovery.cfg", {"Mutant": '"stop"'}, "EachOnce"), ("MCDiscovery", "MCDiscovery.cfg", {"Mutant": '"descend"'}, "OnlyFound"), ("MCDiscovery", "MCDiscovery.cfg", {"Mutant": '"ignore"'}, "Status")]),
    "C22": dict(parts=[proc(laws("repro", "held"), [(F, {"rerun": True, "sub": True}, 150)]), repeat(laws("samerun", "unchanged"), [("repeat", {"runs": True}, 150), ("repeat", {"runs": True, "hostile": True}, 30)])],
                models=[("MCHeap", "MCHeap.cfg", "MCHeapBig.cfg")], mutants=muts("MCHeap", "MCHeap.cfg", "(Held|Stored)", "buffer", "borrow", "share", "stamp")),
    "C23": dict(parts=[part("command line", "TracePrinted", any_law, [("print", {}, 140)], cli=True, timeout=120),
                       part("with licenses", "TracePrinted", any_law, [("print", {}, 24)], cli=True, timeout=120, **WITHLIC)], models=[("MCPrinted", "MCPrinted.cfg", "MCPrintedBig.cfg")],
                mutants=muts("MCPrinted", "MCPrinted.cfg", "(Right|Whole|Ends)", "nowait", "skipempty", "first", "carry", "stop")),
}

NOTE = "Traces of real runs over generated repositories are validated against the TLA+ specification by TLC; the design modules of the specification are model checked exhaustively within small bounds. What is not observed in a trace is not decided."
NOT_APPLICABLE = {}
HOOKS = None
