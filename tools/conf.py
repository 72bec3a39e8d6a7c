"""C19 (which delimiters are accepted) and C20: every configuration of Config.tla, derived with the real macro."""
import json, os, re, shutil
import concurrent.futures as cf
from vlib import *

INV = "SPECIFICATION Spec\nINVARIANTS EscapeAttrWins ConfiguredFirst OthersDontMatter FirstDirWins ExtAttrWins DefaultsApply"
NO = "--"


def configs(o, groups, parts={}, part=0):
    def one(g):
        n = parts.get(g, 1)
        s, gen, dist, _ = tlc("Config", {"Group": '"%s"' % g, "Part": str(part % n), "Parts": str(n)}, INV, os.path.join(o.dir, "tlc", g), timeout=850)
        return [json.loads(x[5:]) for x in s if x.startswith("CASE ")], gen
    cases = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for g, (cs, gen) in zip(groups, ex.map(one, groups)):
            o.stats.states += gen
            o.stats.transitions += gen
            o.stats.runs.append("Config/%s: %d configurations" % (g, len(cs)))
            cases += cs
    return cases


def toml(c):
    t = "[general]\n"
    if c["dirs"] != [NO]:
        t += "dirs = [%s]\n" % ", ".join(tstr(d) for d in c["dirs"])
    if c["wsconf"] != NO:
        t += "whitespace = %s\n" % tstr(c["wsconf"])
    if c["defsyn"] != NO:
        t += "default_syntax = %s\n" % tstr(c["defsyn"])
    names = dict(SYNKEYS)
    syns = [(s["name"], s["keys"]) for s in c["syntaxes"]]
    if c["delims"]:
        syns.append(("cust", {d["r"]: d["s"] for d in c["delims"]}))
    for n, ks in syns:
        t += "[[syntax]]\nname = %s\n" % tstr(n) + "".join("%s = %s\n" % (names[k], tstr(v)) for k, v in ks.items())
    for e in c["escapers"]:
        t += "[[escaper]]\npath = %s\nextensions = [%s]\n" % (tstr(e["path"]), ", ".join(tstr(x) for x in e["exts"]))
    return t


ROOT = """[general]
dirs = ['d2']
whitespace = 'suppress'
default_syntax = 'cust'
[[syntax]]
name = 'cust'
expr_start = '<('
expr_end = ')>'
[[escaper]]
path = 'hk::Esc2'
extensions = ['foo', 'html']
"""
VALUES = {"str": {"path": '"%s/a.html"', "source": '"plain"', "ext": '"txt"', "escape": '"none"', "print": '"bogus"'},
          "int": "5", "bool": "true", "char": "'c'", "none": '"none"', "expr": 'concat!("t", "xt")'}


def attrs(c, cid):
    if c["attrs"]:
        out = []
        for a in c["attrs"]:
            if a["v"] == "":
                continue
            if a["v"] == "bare":
                out.append(a["n"])
            elif a["v"] == "list":
                out.append('%s("a")' % a["n"])
            elif a["v"] == "str":
                v = VALUES["str"].get(a["n"], '"x"')
                out.append("%s = %s" % (a["n"], v % cid if "%s" in v else v))
            else:
                out.append("%s = %s" % (a["n"], VALUES[a["v"]]))
        return ", ".join(out)
    out = []
    if c["src"] == "inline":
        out.append("source = %s" % rstr(c["_source"]))
    else:
        out.append("path = %s" % rstr("%s/%s" % (cid, c["name"])))
    for k, a in (("ext", "ext"), ("escape", "escape"), ("syn", "syntax"), ("wsattr", "whitespace")):
        if c[k] != NO:
            out.append("%s = %s" % (a, rstr(c[k])))
    cfg = {"named": cid + ".toml", "named2": "sub/%s.toml" % cid, "missing": "missing.toml", "missing2": "missing.toml", "bad": cid + ".toml", "dir": "src"}.get(c["conf"])
    if cfg:
        out.append("config = %s" % rstr(cfg))
    return ", ".join(out)


def write(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", newline="") as f:
        f.write(s)


def derive_all(o, cases):
    """compiles and renders every case; returns {cid: result}, {cid: errors}"""
    root = os.path.join(o.dir, "ws")
    shutil.rmtree(root, ignore_errors=True)
    hk = os.path.join(BUILD, "hk")
    copy_hk(hk)
    members = {"n": None, "r": ROOT, "b": "[general\n"}
    names = {m: {"a": [], "r": []} for m in members}
    for k, cs in enumerate(cases):
        c = dict(cs["c"], _source=cs["source"])
        cid = cs["id"] = "c%d" % k
        m = "r" if c["conf"] in ("root", "named2", "missing2") else "b" if c["conf"] == "badroot" else "n"
        d = os.path.join(root, m)
        names[m]["r" if cs["faults"] else "a"].append(cid)
        for x in c["present"]:
            write(os.path.normpath(os.path.join(d, x, cid, c["name"])), x + ":" + cs["source"])
        if c["conf"] in ("named", "named2", "bad"):
            write(os.path.join(d, "sub" if c["conf"] == "named2" else "", cid + ".toml"), toml(c) if c["conf"] != "bad" else "[general\ndirs = 5")
        write(os.path.join(d, "src", "cases", cid + ".rs"),
              "#[derive(askama::Template)] #[template(%s)] pub struct T { s: &'static str }\n" % attrs(c, cid) +
              "pub fn go() -> Got { got(&T { s: \"<\\\"&'>\" }) }\nuse crate::*;\n")
    write(os.path.join(root, "Cargo.toml"), '[workspace]\nresolver = "2"\nmembers = [%s]\n[profile.dev]\ndebug = 0\nopt-level = 0\nincremental = false\n' % ", ".join('"%s"' % m for m in members))
    lock = os.path.join(REPO, "Cargo.lock")
    shutil.copy(lock if os.path.exists(lock) else "/opt/veriftools/crates.Cargo.lock", os.path.join(root, "Cargo.lock"))
    def bins(bad):
        out = []
        for m, t in members.items():
            d = os.path.join(root, m)
            shutil.rmtree(os.path.join(d, "src", "bin"), ignore_errors=True)
            write(os.path.join(d, "Cargo.toml"), CARGO.replace("cases", "conf-" + m).replace("[workspace]\n", "").split("[profile")[0] % (REPO, '["serde-json"]', hk))
            if t is not None:
                write(os.path.join(d, "askama.toml"), t)
            for kind in "ar":
                todo = [c for c in names[m][kind] if c not in bad]
                nb = min(NCPU, 1 + len(todo) // 40)
                for b in range(nb):
                    mine = todo[b::nb]
                    s = "#![allow(warnings)]\nuse askama::Template;\nuse std::fmt::Write as _;\n" + GOT
                    s += "".join('#[path = "../cases/%s.rs"] mod %s;\n' % (c, c) for c in mine)
                    s += "fn main() {\n" + "".join('    show("%s", %s::go());\n' % (c, c) for c in mine) + "}\n"
                    write(os.path.join(d, "src", "bin", "%s_%s%d.rs" % (m, kind, b)), s)
                    if kind == "a":
                        out.append("%s_a%d" % (m, b))
        return out
    exes = bins({})
    errors, rest = cargo_build(root, extra=["--workspace"])
    if rest:
        raise CheckError("build failed:\n" + "\n".join(rest)[:3000])
    invalid = {c["id"] for c in cases if c["faults"]}
    wrong = {c: e for c, e in errors.items() if c not in invalid}
    if wrong:       # valid ones that do not compile keep the others of their binary from running
        for m in names:
            names[m]["r"] = []
        exes = bins(wrong)
        more, rest = cargo_build(root, extra=["--workspace"])
        if more or rest:
            raise CheckError("build keeps failing: %s %s" % (list(more.items())[:2], rest[:1]))
    res = {}
    for x in exes:
        rc, out, err = sh([os.path.join(TARGET, "debug", x)], timeout=120, mem_gb=8)
        for l in out.split("\n"):
            if l.startswith("{"):
                r = json.loads(l)
                res[r["id"]] = r
        if rc != 0:
            o.violation("rendering crashed: %s" % err[-300:], {"binary": x})
    return res, errors


GOT = """pub struct Got { out: String, ext: Option<&'static str>, mime: &'static str }
pub fn got<T: Template>(t: &T) -> Got { Got { out: t.render().unwrap(), ext: T::EXTENSION, mime: T::MIME_TYPE } }
fn show(id: &str, g: Got) { println!("{}", serde_json::json!({"id": id, "out": g.out, "ext": g.ext, "mime": g.mime})); }
"""


def check(o, cases):
    res, errors = derive_all(o, cases)
    for c in cases:
        o.replays += 1
        cid = c["id"]
        e = errors.get(cid)
        x = {k: v for k, v in c["c"].items() if not k.startswith("_")}
        data = {"config": x, "faults": c["faults"], "expected": {k: c.get(k) for k in ("out", "found", "ext", "mime")}, "errors": e, "real": res.get(cid)}
        if e and any("panicked" in t for t in e):
            o.violation("the derive macro panics (%s): %s" % (c["faults"], e[0]), data)
        elif c["faults"]:
            if not e:
                o.violation("accepted although there is a fault: %s" % c["faults"], data)
            elif all("error[E" in t for t in e):
                o.violation("not rejected by the derive macro (%s): %s" % (c["faults"], e[0]), data)
        elif e:
            o.violation("a valid configuration is rejected: %s" % e[0], data)
        else:
            r = res.get(cid)
            out = ("" if c["found"] == "inline" else c["found"] + ":") + c["out"]
            if x["attrs"]:
                out = c["out"] if any(a["n"] == "source" for a in x["attrs"]) else "templates:" + c["out"]
            if r is None:
                o.violation("no result", data)
            elif r["out"] != out:
                o.violation("output differs\n expected %r\n got      %r" % (out, r["out"]), data)
            elif not x["attrs"] and (r["ext"] or NO) != c["ext"] :
                o.violation("extension is %r instead of %r" % (r["ext"], c["ext"]), data)
            elif not x["attrs"] and c["mime"] and r["mime"] != c["mime"]:
                o.violation("MIME type is %r instead of %r" % (r["mime"], c["mime"]), data)
    for c in cases[:: max(1, len(cases) // 3)][:3]:
        o.sample({"config": c["c"], "faults": c["faults"], "out": c.get("out")})


def c20():
    o = Outcome("C20")
    th = tier() == "thorough"
    check(o, configs(o, ["escaper", "inline", "probe", "space", "dirs", "syntax", "files", "attrs"], {} if th else PARTS, seed()))
    return o


def c19(o):
    check(o, configs(o, ["delims", "openings"]))


PARTS = {}
