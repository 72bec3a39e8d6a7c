"""The checks, one function per property."""
import json, os
from vlib import *
import filt, conf, web, valid, parse, rebuild


def replay_cases(o, cases, do=(), errdo=(), prefix="c", compare=None, byways=False):
    """renders every run of every case with the real code and compares it with the model"""
    pkg = Package(o.prop)
    ids = {}
    for n, c in enumerate(cases):
        cid = "%s%d" % (prefix, n)
        ids[cid] = (c, add_case(pkg, cid, c, byways=byways))
    failed = pkg.build()
    for cid, msgs in failed.items():
        o.violation("a valid program does not compile: %s" % msgs[0], dict(ids[cid][0], cid=cid))
    runs = []
    for cid, (c, frags) in ids.items():
        if cid in failed:
            continue
        for k, r in enumerate(c["runs"]):
            for w in "trd" if byways else "t":
                runs.append({"id": "%s/%d/%s" % (cid, k, w), "t": "%s.%s%d" % (cid, w, frags.index(r["frag"])), "env": r["env"],
                             "do": list(do) if r["st"] == "done" else list(errdo)})
    main = {}
    res = pkg.run(runs)
    for q in runs:
        cid, k, w = q["id"].split("/")
        c = ids[cid][0]
        r = c["runs"][int(k)]
        o.replays += 1
        if w == "d":      # Display has one error only
            r = dict(r, er="fmt") if r["st"] != "done" else r
        why = (compare or compare_run)(c, r, res[q["id"]])
        if w == "t":
            main = res[q["id"]]
        elif not why and any(main.get(x) != res[q["id"]].get(x) for x in ("ext", "mime", "size")):
            why = "extension, MIME type or size hint differ: %r %r" % (main, res[q["id"]])
        if why and w != "t":
            why = {"r": "by reference: ", "d": "by Display: "}[w] + why
        if why:
            o.violation(why, dict(c, cid=cid, runs=[r], real=res[q["id"]]))
    if cases:
        c = cases[len(cases) // 2]
        o.sample({"files": c["files"], "run": c["runs"][0]})
    return res


def compare_run(c, r, got):
    if got.get("crash") or got.get("missing") or got.get("panic"):
        return "rendering crashed: %s" % {k: got[k] for k in ("crash", "missing", "panic") if k in got}
    if r["st"] == "done":
        if got["er"] is not None:
            return "unexpected error %r" % got["er"]
        if got["out"] != r["out"]:
            return "output differs\n expected %r\n got      %r" % (r["out"], got["out"])
    else:
        if got["er"] is None:
            return "no error although the model faults with %r\n got %r" % (r["er"], got["out"])
        if got["er"] != r["er"] and not r.get("late"):
            return "error differs: expected %r got %r" % (r["er"], got["er"])
        if not r["out"].startswith(got["out"]):
            return "partial output is no prefix\n expected %r\n got      %r" % (r["out"], got["out"])
    if got["log"] != r["log"] and not (r.get("late") and got["log"][:len(r["log"])] == r["log"]):
        return "evaluations differ: expected %r got %r\n output %r" % (r["log"], got["log"], got["out"])
    for k in ("chunk", "ways", "faults", "errways"):
        if got.get(k):
            return "%s: %s" % (k, json.dumps(got[k], ensure_ascii=False)[:800])
    return None


def sim_check(pid, quick, thorough, do=(), errdo=(), profiles=None, byways=False):
    o = Outcome(pid)
    n = thorough if tier() == "thorough" else quick
    cases = []
    for p, share in (profiles or {pid: 1.0}).items():
        cases += simulate_mc(pid, p, max(8, int(n * share)), seed(), o.stats)
    replay_cases(o, cases, do, errdo, byways=byways)
    return o


def run(pid):
    if pid in SIM:
        o = sim_check(pid, *SIM[pid][:2], **SIM[pid][2])
        if pid in ALSO:
            ALSO[pid](o)
        return o.finish()
    if pid in MORE:
        return MORE[pid]().finish()
    raise CheckError("unknown property " + pid)


SIM = {
    "C01": (800, 6000, {"do": ["chunk"]}),
    "C02": (800, 6000, {}),
    "C03": (800, 6000, {}),
    "C04": (800, 6000, {}),
    "C05": (800, 6000, {}),
    "C06": (800, 6000, {}),
    "C07": (800, 6000, {}),
    "C08": (800, 6000, {}),
    "C09": (800, 6000, {}),
    "C10": (800, 6000, {}),
    "C11": (800, 6000, {}),
    "C12": (800, 6000, {"do": ["ways"], "errdo": ["errways"], "byways": True}),
    "C13": (800, 6000, {"do": ["faults", "ways"], "errdo": ["errways"], "byways": True}),
    "C14": (800, 6000, {}),
    "C19": (800, 6000, {}),
}

ALSO = {"C01": filt.c01, "C13": filt.c13, "C19": conf.c19}
MORE = {"C15": filt.c15, "C16": filt.c16, "C17": parse.c17, "C18": valid.c18, "C20": conf.c20, "C21": web.c21, "C22": rebuild.c22}
