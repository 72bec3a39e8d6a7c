//! The json filter on the values of JsonDoc.tla.
use crate::{Out, Pieces};
use std::{cell::Cell, fmt::Write as _};
use askama::{filters, Template};
use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeTuple};
use serde::{Serialize, Serializer};
use serde_json::Value;

/// A value as the model has it; `how` is the way its strings and containers are serialized.
#[derive(Clone)]
pub enum V {
    Null,
    B(bool),
    I(i64),
    U(u64),
    F(f64),
    S(String),
    A(Vec<V>),
    O(Vec<(String, V)>),
}
#[derive(Clone)]
pub struct How(V, u8);

thread_local! {
    /// how many values can be serialized before one fails
    static FUEL: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn text(s: &str) -> String {
    s.replace('␁', "\u{1}")
}
impl V {
    fn new(v: &Value) -> V {
        match v["k"].as_str().unwrap() {
            "null" => V::Null,
            "b" => V::B(v["b"].as_bool().unwrap()),
            "i" => V::I(v["i"].as_i64().unwrap()),
            "n" => match v["t"].as_str().unwrap() {
                t if t.contains(['.', 'e']) => V::F(t.parse().unwrap()),
                t if t.starts_with('-') => V::I(t.parse().unwrap()),
                t => V::U(t.parse().unwrap()),
            },
            "s" => V::S(text(v["s"].as_str().unwrap())),
            "a" => V::A(v["q"].as_array().unwrap().iter().map(V::new).collect()),
            _ => V::O(v["q"].as_array().unwrap().iter().map(|p| (text(p[0].as_str().unwrap()), V::new(&p[1]))).collect()),
        }
    }
    fn value(&self) -> Value {
        match self {
            V::Null => Value::Null,
            V::B(b) => (*b).into(),
            V::I(i) => (*i).into(),
            V::U(i) => (*i).into(),
            V::F(i) => (*i).into(),
            V::S(s) => s.clone().into(),
            V::A(q) => Value::Array(q.iter().map(V::value).collect()),
            V::O(q) => Value::Object(q.iter().map(|(k, v)| (k.clone(), v.value())).collect()),
        }
    }
}
fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}
struct Text<'a>(&'a str, u8);
impl Serialize for Text<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let one = |c: char| c.to_string();
        let mut cs = self.0.chars();
        match (self.1, cs.next(), cs.next()) {
            (1, _, _) => s.collect_str(&Pieces { parts: self.0.chars().map(one).collect(), how: 0, fails: false }),
            (2, _, _) => s.collect_str(&Pieces { parts: vec![String::new(), self.0.to_string(), String::new()], how: 1, fails: false }),
            (3, Some(c), None) => s.serialize_char(c),
            _ => s.serialize_str(self.0),
        }
    }
}
impl Serialize for How {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let h = self.1;
        if FUEL.get() == 0 {
            return Err(serde::ser::Error::custom("no fuel"));
        }
        FUEL.set(FUEL.get() - 1);
        match &self.0 {
            V::Null => match h {
                0 => s.serialize_unit(),
                1 => s.serialize_f64(f64::NAN),
                2 => s.serialize_unit_struct("U"),
                _ => s.serialize_none(),
            },
            V::B(b) => s.serialize_bool(*b),
            V::I(i) => match h {
                1 if *i as i32 as i64 == *i => s.serialize_i32(*i as i32),
                2 => s.serialize_i128(*i as i128),
                3 => s.serialize_newtype_struct("I", i),
                _ => s.serialize_i64(*i),
            },
            V::U(i) => match h {
                1 => s.serialize_u128(*i as u128),
                _ => s.serialize_u64(*i),
            },
            V::F(i) => match h {
                1 => s.serialize_some(i),
                _ => s.serialize_f64(*i),
            },
            V::S(t) if h == 3 && t.len() > 2 => s.serialize_unit_variant("E", 0, leak(t)),
            V::S(t) => Text(t, h).serialize(s),
            V::A(q) => match h {
                1 => {
                    let mut x = s.serialize_tuple(q.len())?;
                    q.iter().try_for_each(|v| x.serialize_element(&How(v.clone(), h)))?;
                    x.end()
                }
                _ => {
                    let mut x = s.serialize_seq(if h == 2 { None } else { Some(q.len()) })?;
                    q.iter().try_for_each(|v| x.serialize_element(&How(v.clone(), h)))?;
                    x.end()
                }
            },
            V::O(q) if h == 1 && q.len() == 1 => s.serialize_newtype_variant("E", 0, leak(&q[0].0), &How(q[0].1.clone(), h)),
            V::O(q) if h == 3 => {
                let mut x = s.serialize_struct("S", q.len())?;
                for (k, v) in q {
                    x.serialize_field(leak(k), &How(v.clone(), h))?;
                }
                x.end()
            }
            V::O(q) => {
                let mut x = s.serialize_map(if h == 2 { None } else { Some(q.len()) })?;
                for (k, v) in q {
                    x.serialize_entry(&Text(k, h), &How(v.clone(), h))?;
                }
                x.end()
            }
        }
    }
}

#[derive(Template)]
#[template(source = "{{ v|json }}", ext = "html")]
struct Plain {
    v: How,
}
#[derive(Template)]
#[template(source = "<script>let a = {{ v|tojson|safe }};</script>", ext = "html")]
struct Script {
    v: How,
}
#[derive(Template)]
#[template(source = "{{ v|json|escape(\"none\") }}{{ self.v|json|e }}", ext = "svg")]
struct Both {
    v: How,
}
#[derive(Template)]
#[template(source = "{{ v|tojson }}", ext = "txt")]
struct Txt {
    v: How,
}

pub fn json(c: &Value, line: usize, o: &mut Out) {
    let v = V::new(&c["v"]);
    let (t, e) = (c["t"].as_str().unwrap(), c["e"].as_str().unwrap());
    for how in 0..4 {
        let w = || How(v.clone(), how);
        o.text(line, &format!("json, serialized in way {how}"), t, &|| Ok(Box::new(filters::json(w()).unwrap())), false);
        let name = |x: &str| format!("{x}, serialized in way {how}");
        o.text(line, &name("{{ v|json }}"), e, &|| Ok(Box::new(Plain { v: w() })), false);
        o.text(line, &name("{{ v|json|safe }}"), &format!("<script>let a = {t};</script>"), &|| Ok(Box::new(Script { v: w() })), false);
        o.text(line, &name("escape(\"none\") and e"), &format!("{t}{e}"), &|| Ok(Box::new(Both { v: w() })), false);
        o.text(line, &name("{{ v|json }} as text"), t, &|| Ok(Box::new(Txt { v: w() })), false);
    }
    // a value that fails to serialize does not render, and what was written before is the beginning of the text
    for fuel in 0.. {
        let r = std::panic::catch_unwind(|| {
            let mut s = String::new();
            FUEL.set(fuel);
            let r = filters::json(How(v.clone(), 0)).map_err(|_| ()).and_then(|x| write!(s, "{x}").map_err(|_| ()));
            (r.is_ok(), FUEL.get() > 0 , s)
        });
        FUEL.set(usize::MAX);
        o.done += 1;
        match r {
            Ok((false, _, s)) if t.starts_with(&s) => {}
            Ok((true, false, s)) if s == t => break,
            r => {
                o.bad(line, &format!("a value fails after {fuel}"), "an error", &format!("{r:?}"));
                break;
            }
        }
    }
    // an independent reader
    let r = filters::json(How(v.clone(), 0)).unwrap().to_string();
    match serde_json::from_str::<Value>(&r) {
        Ok(x) if x == v.value() => {}
        x => o.bad(line, "reading it back", &v.value().to_string(), &format!("{x:?}")),
    }
}
