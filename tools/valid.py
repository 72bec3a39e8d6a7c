"""C18: which programs are templates.  The programs of MCValid.tla are given to the real derive macro."""
import json, os, re
import concurrent.futures as cf
from vlib import *
import conf

CFG = "SPECIFICATION MSpec\nINVARIANTS AuthorKeepsRules"


def pos_cases(o, parts, part, procs=NCPU):
    """the pieces at their places; parts > 1: two constructs around them, a slice of it"""
    n = parts if parts > 1 else 1
    jobs = [(part * procs + i) % n for i in range(procs)] if n > 1 else [0]
    def one(p):
        s, gen, _, _ = tlc("MCValid", {"Profile": '"C18"', "Sim": "FALSE", "Mode": '"pos"', "Part": str(p), "Parts": str(n)}, CFG,
                           os.path.join(o.dir, "tlc", "pos%d_%d" % (n, p)), timeout=850)
        return [json.loads(x[5:]) for x in s if x.startswith("CASE ")], gen
    cases = []
    with cf.ThreadPoolExecutor(procs) as ex:
        for cs, gen in ex.map(one, sorted(set(jobs))):
            cases += cs
            o.stats.states += gen
            o.stats.transitions += gen
    o.stats.runs.append("MCValid/pos: %d programs" % len(cases))
    return cases


def mut_cases(o, num):
    return simulate_mc(o.prop, "C18", num, seed(), o.stats, module="MCValid", cfg=CFG, consts={"Mode": '"mut"', "Part": "0", "Parts": "1"})


class Judge:
    def __init__(self, o, cases):
        self.o = o
        self.cases = {}
        self.pkg = Package(o.prop)
        for n, c in enumerate(cases):
            cid = "c%d" % n
            self.cases[cid] = c
            src = "use hk::*; use hk::filters; use askama::Template;\n#[derive(Template)] #[template(%s)] pub struct T(pub Env);\n" % derive_attrs(c, cid, c["frag"])
            src += "impl std::ops::Deref for T { type Target = Env; fn deref(&self) -> &Env { &self.0 } }\n"
            self.pkg.add(cid, {f["path"]: f["src"] for f in c["files"]}, "t/" + cid, src, [])
            with open(os.path.join(self.pkg.dir, cid + ".toml"), "w") as f:
                f.write(config_toml(c, cid))

    def compile(self, ids, nb=NCPU):
        """{case: [[message, has a code]]}, cases that kill the compiler"""
        d = os.path.join(self.pkg.dir, "src", "bin")
        shutil.rmtree(d)
        os.makedirs(d)
        nb = max(1, min(nb, len(ids)))
        where = {}
        for b in range(nb):
            where["b%d" % b] = ids[b::nb]
            with open(os.path.join(d, "b%d.rs" % b), "w") as f:
                f.write("#![allow(warnings)]\nextern crate hk;\nfn main() {}\n")
                f.writelines('#[path = "../cases/%s.rs"] mod %s;\n' % (c, c) for c in where["b%d" % b])
        bad, rest, rc, err = cargo_build(self.pkg.dir, cmd="check", full=True, timeout=800)
        if rest and not bad and "could not compile `cases`" not in err:
            raise CheckError("build failed: %s" % rest[:3])
        died = []
        for b in re.findall(r'could not compile `cases` \(bin "(b\d+)"\)[^\n]*\n\nCaused by:\n  process didn\'t exit successfully: [^\n]*\(signal', err):
            if len(where[b]) == 1:
                died += where[b]
            else:
                more, dead = self.compile(where[b])
                bad.update(more)
                died += dead
        return bad, died

    def run(self):
        o = self.o
        errors, died = self.compile(list(self.cases))
        # what only the compiler rejects is found once nothing else is wrong in its crate
        for attempt in range(4):
            todo = [c for c, k in self.cases.items() if k["verdict"] not in ("", "any") and c not in errors and c not in died]
            if not todo:
                break
            more, dead = self.compile(todo)
            errors.update(more)
            died += dead
            if not more:
                break
        for cid, c in self.cases.items():
            o.replays += 1
            es = errors.get(cid, [])
            data = dict(c, cid=cid, errors=[e[0] for e in es])
            v = c["verdict"]
            if cid in died:
                o.violation("the derive macro crashes the compiler", data)
            elif any("panicked" in e[0] for e in es):
                o.violation("the derive macro panics (%s): %s" % (v or "valid", es[0][0]), data)
            elif v == "any":
                pass
            elif v == "":
                own = [e[0] for e in es if not e[1]]
                if own:
                    o.violation("a valid program is rejected: %s" % own[0], data)
            elif not es:
                o.violation("accepted although it breaks a rule: %s" % v, data)
        kinds = o.notes.setdefault("verdicts", {})
        for c in self.cases.values():
            k = c["verdict"] or "valid"
            kinds[k] = kinds.get(k, 0) + 1
        vals = list(self.cases.values())
        for c in vals[:: max(1, len(vals) // 3)][:3]:
            o.sample({"files": c["files"], "how": c["how"], "verdict": c["verdict"]})


def c18():
    o = Outcome("C18")
    if tier() == "thorough":    # every piece inside of every two constructs at every place, and many changed programs
        for r in range(12):
            Judge(o, pos_cases(o, 12 * NCPU, r)).run()
        Judge(o, mut_cases(o, 3000)).run()
    else:
        Judge(o, pos_cases(o, 1, 0) + mut_cases(o, 320)).run()
    conf.check(o, conf.configs(o, ["attrs"]))
    return o
