"""C15 and C16, parts of C01 and C13: filters and escapers called directly (harness/fk), on the behaviours of Stream.tla, Escape.tla and JsonDoc.tla."""
import json, os, shutil
import concurrent.futures as cf
from vlib import *


def tool(name):
    """builds harness/NAME against REPO; returns the path of the binary"""
    src = os.path.join(VERIF, "harness", name)
    dst = os.path.join(BUILD, "h_" + name)
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if d != "target"]
        for f in files:
            if f == "Cargo.lock":
                continue
            p = os.path.join(root, f)
            q = os.path.join(dst, os.path.relpath(p, src))
            s = open(p).read().replace('"/repo/', '"%s/' % REPO)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            if not os.path.exists(q) or open(q).read() != s:
                open(q, "w").write(s)
    lock = os.path.join(REPO, "Cargo.lock")
    shutil.copy(lock if os.path.exists(lock) else "/opt/veriftools/crates.Cargo.lock", os.path.join(dst, "Cargo.lock"))
    bad, rest = cargo_build(dst)
    if bad or rest:
        raise CheckError("building %s failed:\n%s" % (name, "\n".join(rest or [str(bad)])[:3000]))
    return os.path.join(TARGET, "debug", name)


def model_cases(o, module, props, bfs, sims, seed_, procs=4):
    """cases of an exhaustive run and of `procs` simulations"""
    cfg = "SPECIFICATION Spec\nINVARIANTS " + props
    jobs = [("bfs", bfs, {"workers": 4})]
    consts, num = sims
    jobs += [("sim%d" % i, consts, {"simulate": num // procs, "seed": seed_ * 1000 + i}) for i in range(procs)]
    def one(j):
        name, c, kw = j
        s, gen, dist, _ = tlc(module, c, cfg, os.path.join(o.dir, "tlc", name), timeout=850, heap="6g" if name == "bfs" else "3g", **kw)
        return [x[5:] for x in s if x.startswith("CASE ")], gen
    lines = []
    with cf.ThreadPoolExecutor(len(jobs)) as ex:
        for (name, _, _), (ls, gen) in zip(jobs, ex.map(one, jobs)):
            o.stats.states += gen
            o.stats.transitions += gen
            o.stats.runs.append("%s/%s: %d behaviours" % (module, name, len(ls)))
            lines += ls
    return lines


def replay(o, mode, lines):
    exe = tool("fk")
    parts = [lines[i::NCPU] for i in range(NCPU)]
    def one(i):
        p = os.path.join(o.dir, "cases%d.jsonl" % i)
        open(p, "w").write("".join(l + "\n" for l in parts[i]))
        rc, out, err = sh([exe, mode, p], timeout=600, mem_gb=8)
        res = [json.loads(l) for l in out.split("\n") if l.startswith("{")]
        if rc != 0 or not res or "done" not in res[-1]:
            o.violation("the program that calls the filters crashed: rc=%s %s" % (rc, err[-300:]), {"cases": p})
            return 0
        for r in res[:-1]:
            o.violation("%s\n expected %r\n got      %r" % (r["what"], r["exp"], r["got"]), {"case": json.loads(parts[i][r["line"]]), "result": r})
        return res[-1]["done"]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        o.replays += sum(ex.map(one, range(NCPU)))
    for l in lines[len(lines) // 2:][:1]:
        o.sample(json.loads(l))


def c15():
    o = Outcome("C15")
    th = tier() == "thorough"
    lines = model_cases(o, "Stream", "TruncateOk TrimOk TrimIdempotent CaseLaws CenterWide NoBreaksLeft UrlSafe JoinLaw",
                        {"Sim": "FALSE", "MaxLen": 4 if th else 3, "MaxPieces": 3}, ({"Sim": "TRUE", "MaxLen": 24 if th else 16, "MaxPieces": 6}, 4000 if th else 400), seed())
    replay(o, "stream", lines)
    return o


def c13(o):
    """the filters on values that fail to display"""
    th = tier() == "thorough"
    lines = model_cases(o, "Stream", "TruncateOk TrimOk",
                        {"Sim": "FALSE", "MaxLen": 3 if th else 2, "MaxPieces": 2}, ({"Sim": "TRUE", "MaxLen": 16, "MaxPieces": 6}, 1000 if th else 100), seed())
    replay(o, "faults", lines)


def c01(o):
    """the escapers on values that write their text in pieces"""
    th = tier() == "thorough"
    lines = model_cases(o, "Escape", "PiecesDoNotMatter NothingSpecial ReadsAsText",
                        {"Sim": "FALSE", "MaxLen": 4 if th else 3, "MaxPieces": 3}, ({"Sim": "TRUE", "MaxLen": 0, "MaxPieces": 6}, 4000 if th else 400), seed())
    replay(o, "escape", lines)


def c16():
    o = Outcome("C16")
    th = tier() == "thorough"
    lines = model_cases(o, "JsonDoc", "SafeInHtml ReadsBack",
                        {"Sim": "FALSE", "MaxNodes": 4 if th else 3, "MaxStr": 4 if th else 3}, ({"Sim": "TRUE", "MaxNodes": 12 if th else 8, "MaxStr": 3}, 4000 if th else 400), seed())
    replay(o, "json", lines)
    return o
