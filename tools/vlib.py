"""Shared machinery of the checks: TLC runs, generated Rust programs, comparison, evidence."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    pass


def sh(cmd, cwd=None, timeout=None, env=None, mem_gb=None, stdin=None):
    """runs a command in its own process group, with a time and a memory limit"""
    e = dict(os.environ)
    e.update(env or {})
    pre = None
    if mem_gb:
        import resource
        lim = int(mem_gb * (1 << 30))
        pre = lambda: resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, preexec_fn=pre,
                         stdin=subprocess.DEVNULL if stdin is None else subprocess.PIPE)
    try:
        out, err = p.communicate(input=stdin, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, err = p.communicate()
        rc = None
    return rc, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")


# ---- TLC -----------------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.runs = []


def unquote(line):
    # a TLA+ string as TLC prints it
    return json.loads(line)


def tlc(module, consts, cfg_extra, workdir, simulate=None, seed=1, timeout=600, heap="3g", defs=None, workers=1):
    """runs TLC; returns (printed strings, generated, distinct, output, rc)"""
    os.makedirs(workdir, exist_ok=True)
    cfg = os.path.join(workdir, module + ".cfg")
    with open(cfg, "w") as f:
        if consts:
            f.write("CONSTANTS\n" + "".join(" %s = %s\n" % kv for kv in consts.items()))
        f.write(cfg_extra + "\nCHECK_DEADLOCK FALSE\n")
    cmd = ["java", "-DTLA-Library=" + SPEC, "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss128m",
           # TLC garbles non-ASCII strings in states that it moves to disk, so the queue has to stay in memory
           "-Dtlc2.tool.queue.DiskStateQueue.BufSize=8000000", "-Djava.io.tmpdir=" + workdir]
    if simulate:
        cmd += ["-XX:TieredStopAtLevel=1"]
    cmd += ["-cp", TLAJAR, "tlc2.TLC", "-noTE", "-config", cfg, "-metadir", os.path.join(workdir, "states"), "-workers", str(workers)]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate, "-seed", str(seed), "-depth", "1000000"]
    cmd += [os.path.join(SPEC, module + ".tla")]
    rc, out, err = sh(cmd, cwd=workdir, timeout=timeout)
    for x in os.listdir(workdir):
        if x == "states" or x.startswith("tlc-"):
            shutil.rmtree(os.path.join(workdir, x), ignore_errors=True)
    if rc is None:
        raise CheckError("TLC timed out: %s" % module)
    if rc != 0 or "Error:" in out:
        open(os.path.join(workdir, "tlc.out"), "w").write(out)
        i = out.find("Error:")
        raise CheckError("TLC failed on %s (%s):\n%s" % (module, workdir, out[i:i + 1500]))
    strings = [unquote(l) for l in out.split("\n") if l.startswith('"')]
    gen = [int(x.replace(",", "")) for x in re.findall(r"([\d,]+) states generated", out)] + [int(x) for x in re.findall(r"The number of states generated: (\d+)", out)]
    dist = [int(x.replace(",", "")) for x in re.findall(r"([\d,]+) distinct states found", out)]
    return strings, (gen or [0])[-1], (dist or [0])[-1], out


MC_CFG = """SPECIFICATION Spec
INVARIANTS OutputsBalanced AllLeft ScopesMatch LoopsInRange
PROPERTIES GrowOnly LogGrows OneBranch"""


def simulate_mc(name, profile, num, seed, stats, procs=NCPU, timeout=800, module="MC", cfg=MC_CFG, consts={}):
    """`num` behaviours of the model MC under the profile; returns the reported cases"""
    per = [num // procs + (1 if i < num % procs else 0) for i in range(procs)]
    def one(i):
        if not per[i]:
            return [], 0
        s, gen, _, _ = tlc(module, dict({"Profile": '"%s"' % profile, "Sim": "TRUE"}, **consts), cfg,
                           os.path.join(BUILD, name, "tlc", "%s_%d" % (profile, i)), simulate=per[i], seed=seed * 1000 + i, timeout=timeout)
        return [json.loads(x[5:]) for x in s if x.startswith("CASE ")], gen
    cases = []
    with cf.ThreadPoolExecutor(procs) as ex:
        for cs, gen in ex.map(one, range(procs)):
            cases += cs
            stats.states += gen
            stats.transitions += gen
    stats.runs.append("%s/%s: %d behaviours" % (module, profile, len(cases)))
    if len(cases) < num:
        raise CheckError("TLC reported %d of %d cases" % (len(cases), num))
    return cases


# ---- Rust programs --------------------------------------------------------------------------
def rstr(s):
    """a Rust string literal"""
    return json.dumps(s, ensure_ascii=False).replace("\\b", "\\u{8}").replace("\\f", "\\u{c}") if not re.search(r"[\x00-\x08\x0b-\x1f\x7f]", s) else \
        '"' + "".join("\\u{%x}" % ord(c) for c in s) + '"'


def tstr(s):
    """a TOML string (as is: the configuration is borrowed from the text, so escapes are not accepted)"""
    return "'%s'" % s if "'" not in s else '"%s"' % s


DEFSYN = {"bs": "{%", "be": "%}", "es": "{{", "ee": "}}", "cs": "{#", "ce": "#}"}
SYNKEYS = [("bs", "block_start"), ("be", "block_end"), ("es", "expr_start"), ("ee", "expr_end"), ("cs", "comment_start"), ("ce", "comment_end")]


class Package:
    """a cargo package whose binaries render the cases"""

    def __init__(self, name, features=("serde-json",), bins=NCPU):
        self.dir = os.path.join(BUILD, name, "pkg")
        self.name = name
        self.bins = bins
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(os.path.join(self.dir, "src", "bin"))
        os.makedirs(os.path.join(self.dir, "src", "cases"))
        hk = os.path.join(BUILD, "hk")
        copy_hk(hk)
        with open(os.path.join(self.dir, "Cargo.toml"), "w") as f:
            f.write(CARGO % (REPO, json.dumps(list(features)), hk))
        shutil.copy(os.path.join(REPO, "Cargo.lock"), self.dir) if os.path.exists(os.path.join(REPO, "Cargo.lock")) else \
            shutil.copy("/opt/veriftools/crates.Cargo.lock", os.path.join(self.dir, "Cargo.lock"))
        self.cases = []   # (id, source, table entries)

    def add(self, cid, files, root, source, entries):
        for p, s in files.items():
            q = os.path.join(self.dir, root, p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "w", newline="") as f:
                f.write(s)
        with open(os.path.join(self.dir, "src", "cases", cid + ".rs"), "w") as f:
            f.write(source)
        self.cases.append((cid, entries))

    def write_bins(self, skip=()):
        todo = [c for c in self.cases if c[0] not in skip]
        d = os.path.join(self.dir, "src", "bin")
        shutil.rmtree(d)
        os.makedirs(d)
        self.where = {}
        nb = min(self.bins, max(1, len(todo)))
        for b in range(nb):
            mine = todo[b::nb]
            with open(os.path.join(d, "b%d.rs" % b), "w") as f:
                f.write("#![allow(warnings)]\nextern crate hk;\n")
                for cid, _ in mine:
                    f.write('#[path = "../cases/%s.rs"] mod %s;\n' % (cid, cid))
                f.write("fn main() { hk::drive(&[\n")
                for cid, es in mine:
                    self.where[cid] = b
                    for e in es:
                        f.write('    ("%s.%s", %s::%s),\n' % (cid, e, cid, e))
                f.write("]) }\n")
        self.nb = nb

    def build(self, timeout=700):
        """returns {case id: [error messages]} for those that do not compile"""
        failed = {}
        for attempt in range(4):
            self.write_bins(skip=failed)
            bad, rest = cargo_build(self.dir, timeout)
            if not bad and not rest:
                return failed
            if not bad:
                raise CheckError("build failed:\n" + "\n".join(rest)[:3000])
            failed.update(bad)
        raise CheckError("build keeps failing: %s" % list(failed.items())[:3])

    def run(self, runs, timeout=300):
        """runs: list of dicts with id, t = "case.entry", env, do; returns {id: result}"""
        per = {}
        for r in runs:
            b = self.where.get(r["t"].split(".")[0])
            if b is not None:
                per.setdefault(b, []).append(r)
        def one(b):
            p = os.path.join(self.dir, "runs%d.json" % b)
            json.dump({"runs": per[b]}, open(p, "w"))
            rc, out, err = sh([os.path.join(TARGET, "debug", "b%d" % b), p], cwd=self.dir, timeout=timeout, mem_gb=8)
            res = {}
            for l in out.split("\n"):
                if l.strip():
                    try:
                        o = json.loads(l)
                        res[o["id"]] = o
                    except ValueError:
                        pass
            for r in per[b]:
                if r["id"] not in res:
                    res[r["id"]] = {"id": r["id"], "crash": "rc=%s %s" % (rc, err[-300:])}
                    if rc == 0:
                        raise CheckError("no result for %s" % r["id"])
            return res
        res = {}
        with cf.ThreadPoolExecutor(max(1, len(per))) as ex:
            for r in ex.map(one, per):
                res.update(r)
        return res


TARGET = os.path.join(BUILD, "target")
CARGO = """[package]
name = "cases"
version = "0.1.0"
edition = "2021"
[dependencies]
askama = { path = "%s/askama", features = %s }
hk = { path = "%s" }
serde_json = "1"
[profile.dev]
debug = 0
opt-level = 0
incremental = false
[workspace]
"""


def copy_hk(dst):
    src = os.path.join(VERIF, "harness", "hk")
    for p in ["Cargo.toml", "src/lib.rs"]:
        s = open(os.path.join(src, p)).read().replace("/repo", REPO)
        q = os.path.join(dst, p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        if not os.path.exists(q) or open(q).read() != s:
            open(q, "w").write(s)


CARGO_ENV = {"CARGO_TARGET_DIR": TARGET, "CARGO_INCREMENTAL": "0", "CARGO_NET_OFFLINE": "true", "RUSTFLAGS": "-Awarnings -Cdebuginfo=0", "CARGO_TERM_COLOR": "never"}


def cargo_build(d, timeout=700, extra=(), env=None, cmd="build", full=False):
    """({case: [messages]}, [other errors]); full: [message, whether it has a code] instead of the rendered text"""
    e = dict(CARGO_ENV)
    e.update(env or {})
    rc, out, err = sh(["cargo", cmd, "--offline", "--message-format=json", "--keep-going"] + list(extra), cwd=d, timeout=timeout, env=e)
    if rc is None:
        raise CheckError("cargo build timed out")
    bad, rest = {}, []
    for l in out.split("\n"):
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        msg = m["message"]
        files = {os.path.basename(s["file_name"]) for s in msg["spans"]}
        def walk(sp):
            while sp:
                yield sp["span"]
                sp = (sp.get("expansion") or None)
        for s in msg["spans"]:
            x = s.get("expansion")
            while x:
                files.add(os.path.basename(x["span"]["file_name"]))
                x = x["span"].get("expansion")
        hit = [f[:-3] for f in files if re.match(r"c\d+\w*\.rs$", f)]
        text = msg.get("rendered") or msg["message"]
        if full:
            text = [text, bool(msg.get("code"))]
        if hit:
            for h in hit:
                bad.setdefault(h, []).append(text)
        elif not msg["message"].startswith("aborting due to"):
            rest.append(text)
    if rc != 0 and not bad and not rest:
        rest.append(err[-3000:])
    if rc == 0:
        rest = []
    if full:
        return bad, rest, rc, err
    if bad:
        rest = []
    return bad, rest


def inline(c):
    """the main file if it is given as `source` (which, unlike a file, keeps a newline at its end)"""
    if c.get("inl") and c["main"].count(".") == 1:      # an attribute ext is taken as it is
        for f in c["files"]:
            if f["path"] == c["main"] and not f["src"].endswith("\n"):
                return f


def derive_attrs(c, cid, frag):
    main = inline(c)
    a = ["source = %s, ext = %s" % (rstr(main["src"]), rstr(c["main"].split(".", 1)[1])) if main else "path = %s" % rstr(c["main"]), 'config = "%s.toml"' % cid]
    if frag:
        a.append("block = %s" % rstr(frag))
    if c["wsby"] in ("attr", "both"):
        a.append("whitespace = %s" % rstr(c["ws"]))
    ext = c["main"].split("/")[-1].rpartition(".")[2] if "." in c["main"] else ""
    if ext not in ("html", "htm", "svg", "xml", "j2", "jinja", "jinja2", "md", "none", "txt", "typ", "yml", ""):     # no escaper of its own
        a.append("escape = %s" % rstr({"html": "html", "text": "none"}[c["esc"]]))
    if c["syn"] != DEFSYN and not c.get("synconf"):
        a.append('syntax = "cust"')
    return ", ".join(a)


def config_toml(c, cid):
    t = "[general]\ndirs = [%s]\n" % ", ".join(tstr("t/%s/%s" % (cid, d)) for d in c["dirs"])
    if c["wsby"] == "conf":
        t += "whitespace = %s\n" % tstr(c["ws"])
    if c["wsby"] == "both":
        t += "whitespace = %s\n" % tstr({"preserve": "suppress", "suppress": "minimize", "minimize": "preserve"}[c["ws"]])
    if c["syn"] != DEFSYN:
        if c.get("synconf"):
            t += 'default_syntax = "cust"\n'
        t += '[[syntax]]\nname = "cust"\n' + "".join("%s = %s\n" % (k2, tstr(c["syn"][k])) for k, k2 in SYNKEYS if c["syn"][k] != DEFSYN[k])
    return t


def type_def(ty, k):
    """(the type, its Deref to the data, the type as used, the value for data `e`): all of them are the same template"""
    t = "T%d" % k
    decl, par, use, val, get = {
        "tuple": ("struct %s(pub Env);", "", "", "%s(e)", "&self.0"),
        "generic": ("struct %s<'a, X: Clone, const K: usize>(pub Env, pub std::marker::PhantomData<fn(&'a [X; K])>);", "<'a, X: Clone, const K: usize> <'a, X, K>",
                    "<'static, u8, 3>", "%s(e, std::marker::PhantomData)", "&self.0"),
        "where": ("struct %s<X, Y = u8> where X: Iterator, X::Item: Clone { pub zq_env: Env, pub zq_x: Option<fn(X) -> Y> }", "<X, Y> <X, Y> where X: Iterator, X::Item: Clone",
                  "<std::vec::IntoIter<i32>>", "%s { zq_env: e, zq_x: None }", "&self.zq_env"),
        "enum": ("enum %s { A { a: u8, e: Env }, B(Env) }", "", "", "if e.k1 %% 2 == 0 { %s::B(e) } else { %s::A { a: 1, e } }" % (t, t), "match self { Self::A { e, .. } | Self::B(e) => e }"),
        "refs": ("struct %s<'e, 'f: 'e> { pub zq_env: Env, pub zq_r: &'e &'f str }", "<'e, 'f: 'e> <'e, 'f>", "<'static, 'static>", '%s { zq_env: e, zq_r: &"r" }', "&self.zq_env"),
    }[ty]
    p = (par.replace("> <", ">\0<").split("\0") + [""])[:2]
    args, where = (p[1].split(" where ") + [""])[:2]
    if where:
        where = " where " + where
    return ("pub " + decl % t,
            "impl%s std::ops::Deref for %s%s%s { type Target = Env; fn deref(&self) -> &Env { %s } }\n" % (p[0], t, args, where, get),
            t + use, val % t if "%s" in val else val.replace("%%", "%"))


def add_case(pkg, cid, c, extra_src="", byways=False):
    """adds a reported case to the package; one template struct per fragment"""
    frags = []
    for r in c["runs"]:
        if r["frag"] not in frags:
            frags.append(r["frag"])
    src = "use hk::*; use hk::filters; use askama::{Template, DynTemplate};\n"
    for k, f in enumerate(frags):
        decl, deref, use, val = type_def(c.get("ty", "tuple"), k)
        src += "#[derive(Template)] #[template(%s)] %s\n%s" % (derive_attrs(c, cid, f), decl, deref)
        src += "fn n%d(e: Env) -> %s { %s }\n" % (k, use, val)
        src += "pub fn t%d(e: Env) -> Box<dyn DynTemplate> { Box::new(n%d(e)) }\n" % (k, k)
        if byways:
            src += "pub fn r%d(e: Env) -> Box<dyn DynTemplate> { Box::new(ByRef(n%d(e))) }\n" % (k, k)
            src += "pub fn d%d(e: Env) -> Box<dyn DynTemplate> { Box::new(ByDisplay(n%d(e))) }\n" % (k, k)
    src += extra_src
    pkg.add(cid, {f["path"]: f["src"] for f in c["files"] if f is not inline(c)}, "t/" + cid, src,
            [w + str(k) for k in range(len(frags)) for w in ("trd" if byways else "t")])
    with open(os.path.join(pkg.dir, cid + ".toml"), "w") as f:
        f.write(config_toml(c, cid))
    return frags


# ---- results --------------------------------------------------------------------------------
def tier():
    return os.environ.get("VERIF_TIER", "quick")


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


class Outcome:
    def __init__(self, prop):
        self.prop = prop
        self.violations = []
        self.known = []
        self.replays = 0
        self.t0 = time.time()
        self.stats = Stats()
        self.samples = []
        self.notes = {}
        self.dir = os.path.join(BUILD, prop)
        shutil.rmtree(os.path.join(self.dir, "replay"), ignore_errors=True)

    def violation(self, what, data):
        k = len(self.violations)
        d = os.path.join(self.dir, "replay", "v%03d" % k)
        if k < 40:
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "case.json"), "w") as f:
                json.dump({"what": what, "data": data}, f, indent=1, ensure_ascii=False)
            for fl in (data.get("files") or []) if isinstance(data, dict) else []:
                q = os.path.join(d, "templates", fl["path"])
                os.makedirs(os.path.dirname(q), exist_ok=True)
                open(q, "w", newline="").write(fl["src"])
        self.violations.append((what, d))

    def sample(self, x):
        if len(self.samples) < 3:
            self.samples.append(x)

    def finish(self, level="model_checking", assumptions=()):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.stats.states, "transitions": self.stats.transitions, "traces_validated_against_impl": self.replays,
               "samples": self.samples or ["none"], "model_runs": self.stats.runs}
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": tier() if tier() in ("quick", "thorough") else "quick", "seed": seed(), "level": level,
              "coverage": cov, "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for what, d in self.violations[:20]:
            print("VIOLATION property=%s replay=%s" % (self.prop, d))
            print("  " + what.replace("\n", "\n  ")[:1500])
        print("%s: %d violations, %d behaviours replayed, %d model states, %.1fs" %
              (self.prop, len(self.violations), self.replays, self.stats.states, time.time() - self.t0))
        sys.stdout.flush()
        return 1 if self.violations else 0
