"""C17: what the parser makes of the texts of Parse.tla (harness/pk)."""
import json, os, re
import concurrent.futures as cf
from vlib import *
import filt

CFG = "SPECIFICATION Spec\nINVARIANTS Bounded"
DEF = ["{%", "%}", "{{", "}}", "{#", "#}"]
SYNS = [DEF, ["<%", "%>", "${", "}$", "<#", "#>"], ["@@", "@!", "$(", ")$", "#<", ">#"], ["{*", "*}", "${", "}$", "/*", "*/"]]
TEXTS = ["text", "{ x", "é\n", "}} %}", " ", "a {\n% #}", "'\"", "\\", "😀\r\n"]
COMMENTS = [" c ", "", "{{ a }}", "{% if %}", "\n", "é", "{# in {# in #} #}", "-", " \"%}"]
RAWS = ["text", "{{ a }}{% if %}", "{# c", "{% endra w %}", "", "{%endif%}"]
INS = ["\"", "'", "\\", "{", "}", "%", "(", ")", "[", "|", ".", "-", "~", "\0", "é", "😀", "\n", "\r", "0", "_", "::", "{{", "%}", "{#", "{%", "{% endif %}", "{% raw %}", "!", "b'", "1e"]


def model(o, group, maxlen, sim=0, procs=4):
    """the cases of a group; sim: that many behaviours, otherwise all"""
    def one(i):
        s, gen, _, _ = tlc("Parse", {"Group": '"%s"' % group, "MaxLen": maxlen, "Sim": "TRUE" if sim else "FALSE"}, CFG, os.path.join(o.dir, "tlc", "%s_%d_%d" % (group, maxlen, i if sim else 99)),
                           simulate=max(1, sim // procs) if sim else None, seed=seed() * 1000 + i, workers=1 if sim else procs, timeout=850, heap="4g")
        return [x[5:] for x in s if x.startswith("CASE ")], gen
    res = []
    with cf.ThreadPoolExecutor(procs) as ex:
        for cs, gen in ex.map(one, range(procs if sim else 1)):
            res += cs
            o.stats.states += gen
            o.stats.transitions += gen
    o.stats.runs.append("Parse/%s %d %s: %d texts" % (group, maxlen, "sim" if sim else "all", len(res)))
    return [json.loads(x) for x in sorted(set(res))]


# ---- rendering token lists ------------------------------------------------------------------
def word(s):
    return s[:1].isalnum() or s[:1] in "_\"'é" or s[-1:].isalnum() or s[-1:] in "_\"'é"


NAMES = {"P": ["Pt", "P", "crate::T"], "f": ["f", "ff"]}


def render(ts, tight, pick=0):
    """a list of tokens as text, with one space between two tokens or with none where that makes no difference"""
    out, prev = "", None
    for t in ts:
        if t == "bar":
            out = out.rstrip() + " | "
            prev = None
            continue
        glue = prev is None or t[0] == "|" and t[1:] in ("f", "g") or t in ("::", "!(") or prev in ("::",) or prev[0] == "|" and len(prev) == 2 and t == "("
        if not glue:
            if not tight:
                out += " "
            elif word(prev[-1]) and word(t[0]) or prev[-1].isdigit() and t[0] == "." and t != "..=" and t != "..":
                out += " "
        out += t
        prev = t
    return out


OPENS = {"{%": 0, "{{": 2, "{#": 4}
CLOSES = {"%}": 1, "}}": 3, "#}": 5}


def render_tags(ts, tight, syn, n):
    out, inside, k = "", None, n
    for t in ts:
        k += 1
        if inside is None:
            if t[:2] in OPENS and len(t) <= 3:
                inside, opened = [], syn[OPENS[t[:2]]] + t[2:]
            else:
                out += {"text": TEXTS[k % len(TEXTS)], "rawtext": RAWS[k % len(RAWS)]}.get(t, t)
        elif t[-2:] in CLOSES and len(t) <= 3 and t != "}}" or t in ("}}",):
            body = render(inside, tight)
            sp = "" if tight and body[0] not in "-+~" else " "
            if opened.startswith(syn[4]) and inside == ["comment"]:
                out += opened + COMMENTS[k % len(COMMENTS)] + t[:-2] + syn[CLOSES[t[-2:]]]
            else:
                out += opened + sp + body + sp + t[:-2] + syn[CLOSES[t[-2:]]]
            inside = None
        else:
            inside.append(t)
    out = out.replace("{#", syn[4]).replace("#}", syn[5]) if syn != DEF else out
    return out


def wrap(syn, kind, body, tight=False):
    a, b = (syn[0], syn[1]) if kind == "%" else (syn[2], syn[3])
    return a + (body if tight and body[0] not in "-+~" else " " + body + " ") + b


def arounds(syn):
    def t(s):
        return wrap(syn, "%", s)
    return [wrap(syn, "{", "a"), t("if a") + t("endif"), t("for n in l") + "x" + t("endfor"), t("match a") + t("when P(n)") + t("endmatch"), t("let (n, k) = a"), t("macro m(n)") + t("endmacro"),
            t("block b") + t("endblock"), t("raw") + "{{" + t("endraw"), t("filter f") + " " + t("endfilter"), wrap(syn, "{", "((a))|f(1, [a])"), t("if let P{f: n} = a") + t("else") + t("endif"),
            syn[4] + "c" + syn[5] + t("call m"), "".join(wrap(syn, "{", "(a)") for _ in range(40)), "".join(t("if a") + t("endif") for _ in range(40)), "".join(t("let P(n) = a") for _ in range(40))]


def withins(syn):
    def t(s):
        return wrap(syn, "%", s)
    return [[t("if a"), t("endif")], [t("if a") + t("elif a"), t("endif")], [t("if a") + t("else"), t("endif")], [t("for n in l"), t("endfor")], [t("for n in l") + t("else"), t("endfor")],
            [t("match a") + t("when 1"), t("endmatch")], [t("match a") + t("when 1") + t("else"), t("endmatch")], [t("filter f"), t("endfilter")], [t("macro m"), t("endmacro")], [t("block b"), t("endblock")]]


class Texts:
    def __init__(self, o):
        self.o = o
        self.cases = []

    def add(self, src, want, syn=DEF, **kw):
        """want: accept, reject, any"""
        self.cases.append(dict(kw, id=len(self.cases), src=src, syn=syn, want=want))

    def sentence(self, c, n, thorough=False):
        """a sentence of the grammar, in some of its spellings and places"""
        g, ts = c["g"], c["ts"]
        want = "accept" if c["deep"] <= 5 else "any"
        for tight in (False, True):
            for syn in (SYNS if thorough else [SYNS[0], SYNS[1 + (n + tight) % (len(SYNS) - 1)]] if n % 4 == 0 else [SYNS[0]]):
                kw = {"do": []}
                if g == "tag":
                    src = render_tags(ts, tight, syn, n)
                    if n % 5 == 0:
                        kw["do"].append("within")
                        kw["within"] = withins(syn)
                else:
                    x = render(ts, tight, n)
                    src = wrap(syn, "{" if g == "expr" else "%", x if g == "expr" else "let %s = 1" % x, tight)
                    def t(s):
                        return wrap(syn, "%", s, tight)
                    e = t("endif")
                    if g == "expr":
                        kw["contexts"] = [t("if " + x) + e, t("if a") + t("elif " + x) + e, t("if let n = " + x) + e, t("let n = " + x), t("call m(" + x + ")"), t("call m(n, n=" + x + ")"), t("call m(n = " + x + " , k = 1)"),
                                          t("match " + x) + t("when n") + t("endmatch"), t("for n in l") + t("endfor") + t("filter f(" + x + ")") + t("endfilter"), wrap(syn, "{", "a|f(a, " + x + ")", tight),
                                          wrap(syn, "{", "[" + x + ", a]", tight), wrap(syn, "{", "a[" + x + "]", tight), wrap(syn, "{", "(" + x + ", )", tight)]
                        if not (".." in ts):
                            kw["contexts"] += [t("for n in " + x) + t("endfor"), t("for n in " + x + " if a") + t("endfor"), t("for n in l if " + x) + t("endfor")]
                        if c["deep"] > 3:
                            kw["contexts"] = []
                    else:
                        kw["contexts"] = [t("set " + x + " = a"), t("for " + x + " in l") + t("endfor"), t("if let " + x + " = a") + e, t("if a") + t("elif let " + x + " = a") + e,
                                          t("match a") + t("when " + x) + t("endmatch")]
                    if want == "accept" and kw["contexts"]:
                        kw["do"].append("contexts")
                if n % 7 == 0:
                    kw["do"].append("around")
                    kw["around"] = arounds(syn)
                if n % 30 == 0:
                    kw["do"].append("edits")
                    kw["ins"] = INS
                self.add(src, want, syn, **kw)

    def literal(self, c, n):
        k, ts = c["ts"][0], c["ts"][1:]
        x = "".join(ts)
        kw = {"do": []}
        if k in ("Cmt", "Raw"):
            src = x
            inner = "".join(ts[1:-1])
        else:
            src = wrap(DEF, "{", x, n % 2)
            inner = "".join(ts[2:-1]) if k == "Mac" else x[1:-1] if k in ("Chr", "Str") else x
            if n % 3 == 0:
                kw["spots"] = ["{{ %s|f }}" % x, "{{ a.b(%s, a) }}" % x, "{{ %s == %s }}" % (x, x), "{{ [%s,%s] }}" % (x, x), "{{-%s-}}" % x, "{{ %s..%s }}" % (x, x), "{%% if %s %%}{%% endif %%}" % x, "{%% let n=%s%%}" % x, "{{ (%s)|f(%s) }}" % (x, x)]
                if k in ("Num", "Chr", "Str"):
                    kw["spots"] += ["{%% match a %%}{%% when %s %%}{%% endmatch %%}" % x, "{%% let P(%s, n) = a %%}" % x, "{%% let (n,%s) = a %%}" % x]
            if n % 50 == 0:
                kw["do"].append("edits")
                kw["ins"] = INS
        self.add(src, "accept", lit=[k, inner], **kw)

    def run(self, budget=300):
        o = self.o
        exe = filt.tool("pk")
        for c in self.cases:    # what starts and ends within tags only
            if "around" in c.get("do", []) and not (c["src"].startswith((c["syn"][0], c["syn"][2])) and c["src"].endswith((c["syn"][1], c["syn"][3]))):
                c["do"] = [x for x in c["do"] if x != "around"]
        todo = {c["id"]: c for c in self.cases}
        got, dead = {}, []

        def one(job):
            i, cs = job
            p = os.path.join(o.dir, "texts%d.jsonl" % i)
            res, gone = {}, []
            while cs and len(gone) < 4:
                with open(p, "w") as f:
                    f.writelines(json.dumps({k: v for k, v in c.items() if k != "want"}) + "\n" for c in cs)
                rc, out, err = sh([exe, p], timeout=budget, mem_gb=6)
                for l in out.split("\n"):
                    if l.endswith("}"):
                        r = json.loads(l)
                        res[r["id"]] = r
                left = [c for c in cs if c["id"] not in res]
                if not left:
                    break
                if rc == 0:
                    raise CheckError("no result for a text")
                gone.append((left[0], "does not come to an end" if rc is None else "crashes (%s)" % rc))
                cs = left[1:]
            os.unlink(p)
            return res, gone

        parts = [self.cases[i::NCPU] for i in range(NCPU)]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for r, g in ex.map(one, enumerate(parts)):
                got.update(r)
                dead += g
        for c, how in dead:
            o.violation("the parser %s: %s" % (how, c["src"][:200]), {k: c[k] for k in ("src", "syn")})
        for c in self.cases:
            r = got.get(c["id"])
            if not r:
                continue
            o.replays += r["n"]
            for why, s in r["bad"]:
                o.violation("%s\n in %r" % (why[:600], s[:300]), {"src": s, "syn": c["syn"], "of": c["src"]})
            if c["want"] in ("accept", "reject") and r["ok"] != (c["want"] == "accept"):
                what = "a text that the grammar derives is rejected: %s %s" % (r["err"], r["after"]) if c["want"] == "accept" else "a text that breaks a rule (%s) is accepted" % c.get("rule", "")
                o.violation("%s\n %r" % (what, c["src"][:300]), {k: c[k] for k in ("src", "syn")})
        return got


# ---- nesting --------------------------------------------------------------------------------
def tagged(kind, inner):
    return {"if": "{% if a %}" + inner + "{% endif %}", "else": "{% if a %}{% else %}" + inner + "{% endif %}", "elif": "{% if a %}{% elif a %}" + inner + "{% endif %}",
            "iflet": "{% if let P(n) = a %}" + inner + "{% endif %}", "for": "{% for n in l %}" + inner + "{% endfor %}", "forelse": "{% for n in l %}{% else %}" + inner + "{% endfor %}",
            "match": "{% match a %}{% when 1 %}" + inner + "{% endmatch %}", "melse": "{% match a %}{% when 1 %}{% else %}" + inner + "{% endmatch %}", "filter": "{% filter f %}" + inner + "{% endfilter %}",
            "block": "{% block b %}" + inner + "{% endblock %}", "macro": "{% macro m %}" + inner + "{% endmacro %}"}[kind]


PARTS = {  # around an expression or a target: (before, sibling, between, after)
    "par": ("(", "(a)", " + ", ")"), "arr": ("[", "[a]", ", ", "]"), "call": ("f(", "f(a)", ", ", ")"), "idx": ("l[", "l[0]", " + ", "]"), "flt": ("a|f(", "a|f(1)", ", ", ")"),
    "tup": ("(a, ", "(a,)", ", ", ")"), "not": ("!", None, "", ""), "mcall": ("f(", "f(a)", ", ", ")"),
    "target": ("P(", "P(n)", ", ", ")"), "struct": ("P{f: ", None, "", "}"), "tuple": ("(n, ", "(n, k)", ", ", ")")}


def nest_text(d, kind, outer, before, after, sib, everywhere=True):
    """d constructs of the kind inside of each other within `outer` ifs; at each level complete constructs of kind sib,
    or only where they are not nested more deeply than what is inside"""
    if d * (before + after) > 4000:
        before, after = min(before, 2), min(after, 2)
    inner = kind in PARTS
    if inner:
        pre, s, sep, post = PARTS[kind]
        if s and sib in PARTS and PARTS[sib][1] and (sib in ("target", "tuple")) == (kind in ("target", "tuple")):
            s = PARTS[sib][1]
        else:
            sib = kind
        op, cl = (pre + (s + sep) * before, (sep + s) * after + post) if s else (pre, post)
    else:
        pre, post = tagged(kind, "\0").split("\0")
        s = tagged(sib, "") if sib not in PARTS else nest_text(1, sib, 0, 0, 0, sib)
        op, cl = pre + s * before, s * after + post
    full = d if everywhere else max(0, d - (1 if sib == kind else 40))
    x = op * full + pre * (d - full) + (("n" if kind in ("target", "struct", "tuple") else "a") if inner else "") + post * (d - full) + cl * full
    if inner:
        x = "{% let " + x + " = 1 %}" if kind in ("target", "struct", "tuple") else "{% call m(" + x + ") %}" if kind == "mcall" else "{{ " + x + " }}"
    return "{% if a %}" * outer + x + "{% endif %}" * outer


def nests(T, cases):
    base = {}
    for c in cases:
        base.setdefault((c["d"], c["k"], c["o"]), [None, []])[1].append(c)
    for (d, k, o), v in base.items():
        must = v[1][0]["must"]
        T.add(nest_text(d, k, o, 0, 0, k), must if must != "same" else "any", base=(d, k, o), rule="nesting %d of %s" % (d, k))
        for c in v[1]:
            if c["b"] or c["z"]:
                T.add(nest_text(d, k, o, c["b"], c["z"], c["s"], must == "accept"), "any", like=(d, k, o), rule="nesting %d of %s in %d ifs, %d before, %d after of %s" % (d, k, o, c["b"], c["z"], c["s"]))


def nest_laws(o, T, got):
    ok = {}
    for c in T.cases:
        if "base" in c and c["id"] in got:
            ok[c["base"]] = (got[c["id"]]["ok"], c)
    for c in T.cases:
        if "like" in c and c["id"] in got and c["like"] in ok and got[c["id"]]["ok"] != ok[c["like"]][0]:
            r = got[c["id"]]
            o.violation("constructs that do not enclose count as nesting (%s): %s, without them %s" % (c["rule"], r["ok"] or r["err"], ok[c["like"]][0]), {"src": c["src"]})
    for (d, k, n), (a, c) in ok.items():
        for (d2, k2, n2), (b, c2) in ok.items():
            if k == k2 and d2 <= d and n2 <= n and a and not b:
                o.violation("%d of %s within %d are accepted, %d within %d are not" % (d, k, n, d2, n2), {"src": c2["src"]})


# ---- long chains ----------------------------------------------------------------------------
CHAINS = {"+a": ("{{ a", "+a", " }}"), ".a": ("{{ a", ".a", " }}"), "|f": ("{{ a", "|f", " }}"), "()": ("{{ a", "()", " }}"), "?": ("{{ a", "?", " }}"), "[0]": ("{{ a", "[0]", " }}"),
          "filter |f": ("{% filter f", "|f", " %}{% endfilter %}"), "&&a": ("{{ a", "&&a", " }}"), " | a": ("{{ a", " | a", " }}"), "or n": ("{% match a %}{% when n", " or n", " %}{% endmatch %}"),
          "::a": ("{{ a", "::a", " }}"), "arguments": ("{{ f(a", ",a", ") }}"), "array": ("{{ [a", ",a", "] }}"), "text": ("", "{ ", ""), "tags": ("", "{{ a }}", ""), "ifs": ("", "{% if a %}{% endif %}", ""), "elifs": ("{% if a %}", "{% elif a %}", "{% endif %}"),
          "whens": ("{% match a %}", "{% when 1 %}", "{% endmatch %}"), "lets": ("", "{% let P(n) = a %}", ""), "comments": ("", "{#c#}", ""), "nested comments": ("", "{#", "#}"), "deep comments": ("{#" * 200000, "", "#}" * 200000),
          "opens": ("", "{", ""), "parens": ("{{ ", "(", " }}"), "brackets": ("{{ ", "[", " }}"), "bangs": ("{{ ", "!", "a }}"), "minus": ("{{ ", "-", "a }}"), "pats": ("{% let ", "(", " = 1 %}"), "names": ("{{ ", "a", " }}"), "string": ("{{ \"", "\\\"é", "\" }}"),
          "digits": ("{{ 1", "0", " }}"), "params": ("{% macro m(n", ",n", ") %}{% endmacro %}"), "raws": ("{% raw %}", "{% raw %}", "{% endraw %}"), "spaces": ("{{", " ", "a }}"), "opened ifs": ("", "{% if a %}", ""), "blocks": ("", "{% block b %}", ""), "rust macro": ("{{ m!(", "(", ")" * 1000 + " }}"),
          "fields": ("{% let P{f", ",f", "} = a %}"), "named": ("{% call m(", "a=1,", "b=1) %}"), "named2": ("{% call m(a", ",a", ",b=1) %}")}


def chains(o, counts=(2000, 20000, 200000)):
    exe = filt.tool("pk")
    listed = {}
    for l in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"known: property=C17 key=chain:(.+?) n=(\d+) (.*)", l)
        if m:
            listed[m.group(1), int(m.group(2))] = m.group(3)
    jobs = [(k, n) for k in CHAINS for n in counts]
    def one(job):
        k, n = job
        pre, mid, post = CHAINS[k]
        p = os.path.join(o.dir, "chain_%s_%d.jsonl" % (re.sub(r"\W", lambda m: "%02x" % ord(m.group(0)), k), n))
        with open(p, "w") as f:
            f.write(json.dumps({"id": 0, "src": pre + mid * n + post, "do": ["plain"]}) + "\n")
        rc, out, err = sh([exe, p], timeout=60, mem_gb=6)
        os.unlink(p)
        return k, n, rc, out
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for k, n, rc, out in ex.map(one, jobs):
            o.replays += 1
            data = {"chain": CHAINS[k][0][:40] + " " + CHAINS[k][1] + "  times %d" % n}
            if rc == 0:
                r = json.loads(out)
                for why, s in r["bad"]:
                    o.violation("%s\n in a chain of %d times %r" % (why[:300], n, CHAINS[k][1]), data)
            elif (k, n) in listed:
                o.known.append(listed[k, n])
            else:
                o.violation("the parser %s on %d times %r" % ("does not come to an end" if rc is None else "crashes (%s)" % rc, n, CHAINS[k][1]), data)


def c17():
    o = Outcome("C17")
    th = tier() == "thorough"
    jobs = [("expr", 6 if th else 5, 0), ("target", 7 if th else 6, 0), ("tag", 15 if th else 13, 0), ("expr", 25, 20000 if th else 480), ("target", 18, 4000 if th else 400), ("tag", 60, 4000 if th else 160),
            ("seq", 4 if th else 3, 0), ("seq", 12, 4000 if th else 300), ("nest", 0, 20000 if th else 600), ("nest", 0, 0),
            ("lit", 6 if th else 5, 0), ("lit", 14, 8000 if th else 400)]
    with cf.ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda j: model(o, *j, procs=2), jobs))
    T = Texts(o)
    n = seed()
    nest = []
    for (g, _, _), cs in zip(jobs, res):
        for c in cs:
            n += 1
            if g == "nest":
                nest.append(c)
            elif g == "lit":
                T.literal(c, n)
            elif g == "seq":
                kw = {"do": []}
                if n % (40 if th else 60) == 0:
                    kw["do"] += ["edits"]
                    kw["ins"] = INS
                if n % 10 == 0 and "raw" not in c["src"]:
                    kw["do"] += ["around"]
                    kw["around"] = arounds(DEF)
                T.add(c["src"], "reject" if c["er"] else "accept", rule=c["er"], **kw)
            else:
                T.sentence(c, n, th)
        if cs:
            o.sample(cs[len(cs) // 2])
    nests(T, nest)
    got = T.run(800 if th else 200)
    nest_laws(o, T, got)
    chains(o)
    o.notes["texts"] = len(T.cases)
    return o
