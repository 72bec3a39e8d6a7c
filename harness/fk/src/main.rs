//! Replays the behaviours of Stream.tla, Escape.tla and JsonDoc.tla on the real filters.
//! usage: fk stream|faults|escape|json FILE; FILE has a JSON document per line; prints what differs as JSON lines.
use askama::filters;
use serde_json::Value;
use std::fmt::{self, Display, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};

mod esc;
mod json;

/// A value whose Display writes its text in the given pieces.
#[derive(Clone)]
pub struct Pieces {
    pub parts: Vec<String>,
    pub how: u8,
    pub fails: bool,
}
impl Display for Pieces {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for p in &self.parts {
            match self.how {
                0 => f.write_str(p)?,
                1 => p.chars().try_for_each(|c| f.write_char(c))?,
                _ => write!(f, "{p}")?,
            }
        }
        match self.fails {
            true => Err(fmt::Error),
            false => Ok(()),
        }
    }
}

pub fn apply<T: Display + 'static>(f: &str, v: T, n: usize) -> Result<Box<dyn Display>, String> {
    fn e<E: Display>(e: E) -> String {
        e.to_string()
    }
    Ok(match f {
        "upper" => Box::new(keep(filters::upper(v)).map_err(e)?),
        "uppercase" => Box::new(keep(filters::uppercase(v)).map_err(e)?),
        "lower" => Box::new(keep(filters::lower(v)).map_err(e)?),
        "lowercase" => Box::new(keep(filters::lowercase(v)).map_err(e)?),
        "capitalize" => Box::new(keep(filters::capitalize(v)).map_err(e)?),
        "title" => Box::new(keep(filters::title(v)).map_err(e)?),
        "trim" => Box::new(keep(filters::trim(v)).map_err(e)?),
        "linebreaks" => Box::new(keep(filters::linebreaks(v)).map_err(e)?),
        "linebreaksbr" => Box::new(keep(filters::linebreaksbr(v)).map_err(e)?),
        "paragraphbreaks" => Box::new(keep(filters::paragraphbreaks(v)).map_err(e)?),
        "urlencode" => Box::new(keep(filters::urlencode(v)).map_err(e)?),
        "urlencode_strict" => Box::new(keep(filters::urlencode_strict(v)).map_err(e)?),
        "wordcount" => Box::new(keep(filters::wordcount(v)).map_err(e)?),
        "truncate" => Box::new(keep(filters::truncate(v, n)).map_err(e)?),
        "center" => Box::new(keep(filters::center(v, n)).map_err(e)?),
        "indent" => Box::new(keep(filters::indent(v, n)).map_err(e)?),
        _ => panic!("unknown filter {f}"),
    })
}
fn keep<T, E>(r: Result<T, E>) -> Result<T, E> {
    r
}

/// Takes at most `room` writes; records what it got.
pub struct Stop {
    pub got: String,
    pub room: usize,
    pub after: bool,
    pub dead: bool,
}
impl fmt::Write for Stop {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.dead {
            self.after = true;
            return Err(fmt::Error);
        }
        if self.room == 0 {
            self.dead = true;
            return Err(fmt::Error);
        }
        self.room -= 1;
        self.got.push_str(s);
        Ok(())
    }
}

pub struct Out {
    pub bad: usize,
    pub done: usize,
}
impl Out {
    pub fn bad(&mut self, line: usize, what: &str, exp: &str, got: &str) {
        self.bad += 1;
        if self.bad <= 200 {
            println!("{}", serde_json::json!({"line": line, "what": what, "exp": exp, "got": got}));
        }
    }
    /// the value's text has to be `exp`, each time; if the destination fails, it got a prefix of that
    pub fn text(&mut self, line: usize, what: &str, exp: &str, make: &dyn Fn() -> Result<Box<dyn Display>, String>, once: bool) {
        self.done += 1;
        let r = catch_unwind(AssertUnwindSafe(|| {
            let v = make()?;
            let a = v.to_string();
            if a != exp {
                return Err(a);
            }
            if !once {
                let b = v.to_string();
                if b != exp {
                    return Err(format!("(second time) {b}"));
                }
            }
            for room in 0.. {
                let v = make()?;
                let mut w = Stop { got: String::new(), room, after: false, dead: false };
                let r = write!(w, "{v}");
                if w.dead && r.is_ok() {
                    return Err(format!("(write {room} fails) Ok"));
                }
                if !exp.starts_with(&w.got) || w.after {
                    return Err(format!("(write {room} fails) {}", w.got));
                }
                if !w.dead {
                    break;
                }
            }
            Ok(())
        }));
        match r {
            Ok(Ok(())) => {}
            Ok(Err(got)) => self.bad(line, what, exp, &got),
            Err(_) => self.bad(line, what, exp, "PANIC"),
        }
    }
}

fn stream(c: &Value, line: usize, o: &mut Out) {
    let parts: Vec<String> = c["ps"].as_array().unwrap().iter().map(|p| p.as_str().unwrap().to_string()).collect();
    for how in 0..3 {
        let v = || Pieces { parts: parts.clone(), how, fails: false };
        for x in c["f1"].as_array().unwrap() {
            let f = x[0].as_str().unwrap();
            o.text(line, &format!("{f}, write method {how}"), x[1].as_str().unwrap(), &|| apply(f, v(), 0), false);
        }
        for x in c["fn"].as_array().unwrap() {
            let f = x[0].as_str().unwrap();
            for (n, e) in x[1].as_array().unwrap().iter().enumerate() {
                o.text(line, &format!("{f}({n}), write method {how}"), e.as_str().unwrap(), &|| apply(f, v(), n), false);
            }
            for (n, e) in [(10_000, 0), (20_000, 1), (usize::MAX - 1, 1), (usize::MAX, 1)] {
                let e = x[2][e].as_str().unwrap();
                o.text(line, &format!("{f}({n}), write method {how}"), e, &|| apply(f, v(), n), false);
            }
            for y in x[3].as_array().unwrap() {
                let n = y[0].as_u64().unwrap() as usize;
                o.text(line, &format!("{f}({n}), write method {how}"), y[1].as_str().unwrap(), &|| apply(f, v(), n), false);
            }
        }
        for x in c["ch"].as_array().unwrap() {
            let (f, n, g, m) = (x[0].as_str().unwrap(), x[1].as_u64().unwrap() as usize, x[2].as_str().unwrap(), x[3].as_u64().unwrap() as usize);
            o.text(line, &format!("{f}({n})|{g}({m}), write method {how}"), x[4].as_str().unwrap(), &|| apply(g, apply(f, v(), n)?, m), false);
        }
        for x in c["jn"].as_array().unwrap() {
            let sep = x[0].as_str().unwrap().to_string();
            let items: Vec<Pieces> = parts.iter().map(|p| Pieces { parts: p.chars().map(String::from).collect(), how, fails: false }).collect();
            let it = items.clone();
            o.text(line, &format!("join({sep:?})"), x[1].as_str().unwrap(), &|| Ok(Box::new(filters::join(it.clone(), sep.clone()).map_err(|e| e.to_string())?)), true);
            let it = items.clone();
            o.text(line, &format!("join({sep:?}) of an iterator"), x[1].as_str().unwrap(), &|| Ok(Box::new(filters::join(it.clone().into_iter().filter(|_| true), sep.clone()).map_err(|e| e.to_string())?)), true);
        }
    }
}

/// A value that fails to display after it wrote its pieces: so does what a filter makes of it, without a panic
/// and in the same way each time; only truncate may be done before.
fn faults(c: &Value, line: usize, o: &mut Out) {
    let parts: Vec<String> = c["ps"].as_array().unwrap().iter().map(|p| p.as_str().unwrap().to_string()).collect();
    let len: usize = parts.iter().map(|p| p.len()).sum();
    let mut check = |what: String, make: &dyn Fn() -> Result<Box<dyn Display>, String>, may: bool| {
        o.done += 1;
        let r = catch_unwind(AssertUnwindSafe(|| {
            let Ok(v) = make() else { return None };
            let mut s = String::new();
            match write!(s, "{v}") {
                Err(_) => None,
                Ok(()) if may => None,
                Ok(()) => Some(s),
            }
        }));
        match r {
            Ok(None) => {}
            Ok(Some(s)) => o.bad(line, &what, "an error", &s),
            Err(_) => o.bad(line, &what, "an error", "PANIC"),
        }
    };
    for how in 0..3 {
        let v = || Pieces { parts: parts.clone(), how, fails: true };
        for x in c["f1"].as_array().unwrap() {
            let f = x[0].as_str().unwrap();
            check(format!("{f} of a value that fails, write method {how}"), &|| apply(f, v(), 0), false);
        }
        for x in c["fn"].as_array().unwrap() {
            let f = x[0].as_str().unwrap();
            for n in [0, 1, 3, 7, 10_000, usize::MAX] {
                check(format!("{f}({n}) of a value that fails, write method {how}"), &|| apply(f, v(), n), f == "truncate" && len > n);
            }
        }
        for x in c["ch"].as_array().unwrap() {
            let (f, n, g, m) = (x[0].as_str().unwrap(), x[1].as_u64().unwrap() as usize, x[2].as_str().unwrap(), x[3].as_u64().unwrap() as usize);
            let may = [f, g].contains(&"truncate");
            check(format!("{f}({n})|{g}({m}) of a value that fails, write method {how}"), &|| apply(g, apply(f, v(), n)?, m), may);
        }
        for k in 0..=parts.len() {
            // item number k fails; after the last one it is the separator
            let items: Vec<Pieces> = parts.iter().enumerate().map(|(j, p)| Pieces { parts: vec![p.clone()], how, fails: j == k }).collect();
            let sep = Pieces { parts: vec![",".into()], how, fails: k == parts.len() };
            if k < parts.len() || parts.len() > 1 {
                check(format!("join, {k} of {} fails", parts.len()), &|| Ok(Box::new(filters::join(items.clone(), sep.clone()).map_err(|e| e.to_string())?)), false);
            }
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[2]).unwrap();
    let mut o = Out { bad: 0, done: 0 };
    for (k, l) in text.lines().enumerate() {
        let c: Value = serde_json::from_str(l).unwrap();
        match a[1].as_str() {
            "stream" => stream(&c, k, &mut o),
            "escape" => esc::escape(&c, k, &mut o),
            "faults" => faults(&c, k, &mut o),
            _ => json::json(&c, k, &mut o),
        }
    }
    println!("{}", serde_json::json!({"done": o.done, "bad": o.bad}));
}
