"""C22: programs of Rebuild.tla, built, edited on disk and built again by cargo, with one crate per program."""
import os
from vlib import *

CFG = "SPECIFICATION BSpec\nINVARIANTS OutputsBalanced AllLeft UpToDate"


def c22():
    from checks import compare_run
    o = Outcome("C22")
    n, rounds = (96, 2) if tier() == "quick" else (400, 4)
    cases = simulate_mc("C22", "C22", n, seed(), o.stats, module="Rebuild", cfg=CFG, consts={"Rounds": str(rounds)})
    pkg = Package("C22", bins=len(cases))
    ids = {}
    for k, c in enumerate(cases):
        cid = "c%d" % k
        for h in reversed(c["hist"]):          # what is on disk at first
            for f in c["files"]:
                if f["path"] == h["f"]:
                    f["src"] = h["was"]
        ids[cid] = (c, add_case(pkg, cid, c))
    gone = {}
    edits = changed = 0
    for rnd in range(rounds + 1):
        if rnd == 0:
            bad = pkg.build()
        else:
            for cid, (c, _) in ids.items():
                if len(c["hist"]) >= rnd:
                    h = c["hist"][rnd - 1]
                    with open(os.path.join(pkg.dir, "t", cid, h["f"]), "w", newline="") as f:
                        f.write(h["src"])
            bad, rest = cargo_build(pkg.dir)
            if rest:
                raise CheckError("build failed:\n" + "\n".join(rest)[:3000])
        for cid, msgs in bad.items():
            if cid not in gone:
                gone[cid] = True
                o.violation("round %d: a valid program does not compile: %s" % (rnd, msgs[0]), dict(ids[cid][0], cid=cid))
        runs = []
        for cid, (c, frags) in ids.items():
            if cid in gone or rnd > len(c["hist"]):
                continue
            rs = c["hist"][rnd]["runs"] if rnd < len(c["hist"]) else c["runs"]
            if rnd:
                edits += 1
                changed += [r["out"] for r in rs] != [r["out"] for r in c["hist"][rnd - 1]["runs"]]
            runs += [{"id": "%s/%d" % (cid, k), "t": "%s.t%d" % (cid, frags.index(r["frag"])), "env": r["env"], "do": [], "_r": r} for k, r in enumerate(rs)]
        res = pkg.run(runs)
        for q in runs:
            cid = q["id"].split("/")[0]
            c = ids[cid][0]
            o.replays += 1
            why = compare_run(c, q["_r"], res[q["id"]])
            if why and cid not in gone:
                gone[cid] = True
                o.violation("after %d edits: %s" % (rnd, why), dict(c, cid=cid, runs=[q["_r"]], real=res[q["id"]]))
    # a file is removed
    for cid, (c, _) in ids.items():
        if "gone" in c and cid not in gone:
            os.remove(os.path.join(pkg.dir, "t", cid, c["gone"]))
    bad, rest = cargo_build(pkg.dir)
    if rest:
        raise CheckError("build failed:\n" + "\n".join(rest)[:3000])
    for cid, (c, _) in ids.items():
        if cid not in gone and "gone" in c and (cid in bad) != c["fails"]:
            o.violation("after %r was removed: " % c["gone"] + ("it compiles" if c["fails"] else "it does not compile: " + bad[cid][0]), dict(c, cid=cid))
    o.notes.update({"edits": edits, "edits that change what is rendered": changed,
                    "edits of files the program is not made of": sum(not h["of"] for c in cases for h in c["hist"])})
    o.sample({"files": cases[0]["files"], "edits": [{"file": h["f"], "source": h["src"]} for h in cases[0]["hist"]]})
    return o
