//! Gives texts to the parser and looks at what it makes of them.
//! Reads lines of JSON {"id", "src", "syn": [6 delimiters], "do": [..], ..}, writes lines of JSON.
use askama_parser::node::{Node, Target};
use askama_parser::{Ast, ParseError, Syntax};
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::time::Instant;

struct Got {
    ok: bool,
    nodes: Vec<String>, // debug representations
    err: String,
    after: String,
    bad: Option<String>, // broken law
}

/// An error may point to the end of a line or to the start of the next one.
fn position(src: &str, e: &ParseError) -> Result<(String, String), String> {
    let ParseError::Details { message, row, column, source_after, .. } = e else {
        return Err("the error has no position".into());
    };
    let text = format!("{e}");
    if !text.contains(&format!("row {}, column {}", row + 1, column)) {
        return Err(format!("the error does not show its position: {text}"));
    }
    let msg = message.as_ref().map(|m| m.to_string()).unwrap_or_default();
    let mut starts: Vec<usize> = src.char_indices().map(|(i, _)| i).collect();
    starts.push(src.len());
    for o in starts {
        let after = &src[o..];
        let shown = match after.char_indices().nth(40) {
            Some((i, _)) if after.chars().count() > 40 => format!("{:?}...", &after[..i]),
            _ => format!("{after:?}"),
        };
        if shown != *source_after {
            continue;
        }
        let before = &src[..o];
        let line = before.matches('\n').count();
        let col = before.rsplit('\n').next().unwrap_or("").chars().count();
        if (line, col) == (*row, *column) {
            return Ok((msg, source_after.clone()));
        }
        if col == 0 && line == *row + 1 {
            let prev = before[..before.len() - 1].rsplit('\n').next().unwrap_or("");
            if prev.trim_end_matches('\r').chars().count() == *column || prev.chars().count() == *column {
                return Ok((msg, source_after.clone()));
            }
        }
    }
    Err(format!("row {row}, column {column}, {source_after} is no place in the source"))
}

fn parse(src: &str, syn: &Syntax<'_>) -> Got {
    let mut g = Got { ok: false, nodes: vec![], err: String::new(), after: String::new(), bad: None };
    let t = Instant::now();
    let r = std::panic::catch_unwind(|| match Ast::from_str(src, None, syn) {
        Ok(a) => Ok(a.nodes().iter().map(|n| format!("{n:?}")).collect::<Vec<_>>()),
        Err(e) => Err(position(src, &e)),
    });
    match r {
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            g.bad = Some(format!("the parser panics: {m}"));
        }
        Ok(Ok(n)) => {
            g.ok = true;
            g.nodes = n;
        }
        Ok(Err(Ok((m, a)))) => {
            g.err = m;
            g.after = a;
        }
        Ok(Err(Err(b))) => g.bad = Some(b),
    }
    if t.elapsed().as_secs() >= 10 {
        g.bad = Some(format!("parsing takes {:?}", t.elapsed()));
    }
    g
}

fn body(n: &Node<'_>) -> Option<Vec<String>> {
    let q = match n {
        Node::If(i) => &i.branches.last()?.nodes,
        Node::Loop(l) if l.else_nodes.is_empty() => &l.body,
        Node::Loop(l) => &l.else_nodes,
        Node::Match(m) => &m.arms.last()?.nodes,
        Node::FilterBlock(f) => &f.nodes,
        Node::Macro(m) => &m.nodes,
        Node::BlockDef(b) => &b.nodes,
        _ => return None,
    };
    Some(q.iter().map(|n| format!("{n:?}")).collect())
}

fn expr_of(src: &str, syn: &Syntax<'_>) -> Option<String> {
    let a = Ast::from_str(src, None, syn).ok()?;
    match a.nodes() {
        [Node::Expr(_, e)] => Some(format!("{e:?}")),
        [Node::Let(l)] => match (&l.val, &l.var) {
            (Some(_), t) => Some(target(t)),
            _ => None,
        },
        _ => None,
    }
}
fn target(t: &Target<'_>) -> String {
    format!("{t:?}")
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let p = std::env::args().nth(1).unwrap();
    std::thread::Builder::new().stack_size(8 << 20).spawn(move || run(&p)).unwrap().join().unwrap();
}

fn run(path: &str) {
    let out = std::io::stdout();
    let mut out = out.lock();
    for line in std::io::BufReader::new(std::fs::File::open(path).unwrap()).lines() {
        let v: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let id = v["id"].as_u64().unwrap();
        let src = v["src"].as_str().unwrap();
        let d: Vec<&str> = v["syn"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap()).collect()).unwrap_or_default();
        let syn = if d.is_empty() {
            Syntax::default()
        } else {
            Syntax { block_start: d[0], block_end: d[1], expr_start: d[2], expr_end: d[3], comment_start: d[4], comment_end: d[5] }
        };
        let syn = &syn;
        if v["do"].as_array().map_or(false, |a| a.iter().any(|x| x == "plain")) {
            let t = Instant::now();
            let r = std::panic::catch_unwind(|| match Ast::from_str(src, None, syn) {
                Ok(_) => (true, String::new()),
                Err(e) => (false, e.to_string()),
            });
            let mut bad: Vec<Value> = vec![];
            if r.is_err() {
                bad.push(json!(["the parser panics", ""]));
            } else if t.elapsed().as_secs() >= 20 {
                bad.push(json!([format!("parsing takes {:?}", t.elapsed()), ""]));
            }
            let (ok, err) = r.unwrap_or_default();
            writeln!(out, "{}", json!({"id": id, "ok": ok, "err": err, "after": "", "bad": bad, "n": 1, "ms": t.elapsed().as_millis() as u64})).unwrap();
            out.flush().unwrap();
            continue;
        }
        let mut bad: Vec<Value> = vec![];
        let mut n = 1u64;
        let g = parse(src, syn);
        if let Some(b) = &g.bad {
            bad.push(json!([b, src]));
        }
        let does = |k: &str| v["do"].as_array().map_or(false, |a| a.iter().any(|x| x == k));
        let strs = |k: &str| -> Vec<String> { v[k].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default() };
        // the text after complete constructs and before others
        if does("around") {
            for p in strs("around") {
                let a = parse(&p, syn);
                n += 2;
                let s = format!("{p}{src}");
                let b = parse(&s, syn);
                if g.ok {
                    let mut want = a.nodes.clone();
                    want.extend(g.nodes.iter().cloned());
                    if !b.ok || b.nodes != want {
                        bad.push(json!(["parsing depends on what precedes", s]));
                    }
                    let s = format!("{src}{p}");
                    let b = parse(&s, syn);
                    let mut want = g.nodes.clone();
                    want.extend(a.nodes.iter().cloned());
                    if !b.ok || b.nodes != want {
                        bad.push(json!(["parsing depends on what follows", s]));
                    }
                } else if b.ok || b.err != g.err || b.after != g.after {
                    bad.push(json!([format!("the error depends on what precedes: {:?} {} / {:?} {}", g.err, g.after, b.err, b.after), s]));
                }
            }
        }
        // a literal comes out as it went in
        if let Some(l) = v["lit"].as_array() {
            let (kind, inner) = (l[0].as_str().unwrap(), l[1].as_str().unwrap());
            let want = match kind {
                "Num" => format!("NumLit({inner:?})"),
                "Chr" => format!("CharLit({inner:?})"),
                "Str" => format!("StrLit({inner:?})"),
                "Idt" => format!("Var({inner:?})"),
                "Mac" => format!("RustMacro([\"m\"], {inner:?})"),
                _ => inner.to_string(),
            };
            let one = Ast::from_str(src, None, syn);
            let same = match one.as_ref().map(|a| a.nodes()) {
                Ok([Node::Expr(_, e)]) => format!("{e:?}") == want,
                Ok([Node::Raw(r)]) => format!("{}{}{}", r.lit.lws, r.lit.val, r.lit.rws) == want,
                Ok([Node::Comment(_)]) => kind == "Cmt",
                _ => false,
            };
            if !same {
                bad.push(json!([format!("read as something else: {:?} {} {}", g.nodes, g.err, g.after), src]));
            }
            for s in strs("spots") {
                n += 1;
                let b = parse(&s, syn);
                if !b.ok || !b.nodes.iter().any(|x| x.contains(&want)) {
                    bad.push(json!([format!("read as something else here: {:?} {} {}", b.nodes, b.err, b.after), s]));
                }
            }
        }
        // inside of other constructs
        if does("within") && g.ok {
            for w in v["within"].as_array().unwrap() {
                let s = format!("{}{src}{}", w[0].as_str().unwrap(), w[1].as_str().unwrap());
                n += 1;
                let b = Ast::from_str(&s, None, syn).ok().and_then(|a| body(a.nodes().last()?));
                if b.as_ref() != Some(&g.nodes) {
                    bad.push(json!(["parsing depends on what encloses", s]));
                }
            }
        }
        // the same expression or target elsewhere
        if does("contexts") {
            let what = expr_of(src, syn);
            for s in strs("contexts") {
                n += 1;
                let b = parse(&s, syn);
                match (&what, b.ok) {
                    (Some(w), true) => {
                        if !b.nodes.iter().any(|x| x.contains(w.as_str())) {
                            bad.push(json!([format!("means something else here: {:?} instead of {w}", b.nodes), s]));
                        }
                    }
                    _ => bad.push(json!([format!("not accepted here: {} {}", b.err, b.after), s])),
                }
            }
        }
        // every beginning of the text, and the text with a character left out or put in
        if does("edits") {
            let ix: Vec<usize> = src.char_indices().map(|(i, _)| i).chain([src.len()]).collect();
            let ins = strs("ins");
            for (k, &i) in ix.iter().enumerate() {
                let mut all = vec![src[..i].to_string(), src[i..].to_string()];
                if let Some(&j) = ix.get(k + 1) {
                    all.push(format!("{}{}", &src[..i], &src[j..]));
                }
                all.extend(ins.iter().map(|c| format!("{}{c}{}", &src[..i], &src[i..])));
                for s in all {
                    n += 1;
                    if let Some(b) = parse(&s, syn).bad {
                        bad.push(json!([b, s]));
                    }
                }
            }
        }
        bad.truncate(5);
        writeln!(out, "{}", json!({"id": id, "ok": g.ok, "err": g.err, "after": g.after, "bad": bad, "n": n})).unwrap();
        out.flush().unwrap();
    }
}
