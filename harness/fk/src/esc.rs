//! Everything that escapes, or leaves as it is, a value that writes its text in pieces.
use crate::{Out, Pieces};
use askama::{filters, Html, MarkupDisplay, Template, Text};
use serde_json::Value;
use std::fmt::Display;

macro_rules! templates {
    ($($name:ident $ext:literal $source:literal $want:literal;)*) => {
        $(#[derive(Template)]
        #[template(source = $source, ext = $ext)]
        struct $name { v: Pieces })*
        fn templates(p: &Pieces) -> Vec<(&'static str, &'static str, Box<dyn Fn() -> Box<dyn Display>>)> {
            vec![$(($source, $want, { let v = p.clone(); Box::new(move || Box::new($name { v: v.clone() })) })),*]
        }
    };
}
templates! {
    H1 "html" "{{ v }}" "html";
    H2 "html" "{{ v|safe }}" "text";
    H3 "html" "{{ v|escape }}" "html";
    H4 "html" "{{ v|e }}" "html";
    H5 "html" "{{ v|escape(\"none\") }}" "text";
    H6 "html" "{{ v|safe|lower }}" "low";
    H7 "html" "{% filter safe %}{{ v }}{% endfilter %}" "html";
    H8 "html" "{% filter escape %}{{ v }}{% endfilter %}" "twice";
    H9 "html" "{% filter lower %}{{ v|safe }}{% endfilter %}" "low";
    H10 "html" "{{ \"{}\"|format(v) }}" "html";
    H11 "html" "{{ v|fmt(\"{}\")|safe }}" "text";
    H12 "html" "{% macro m(x) %}{{ x }}{% endmacro %}{% call m(v) %}" "html";
    H13 "html" "{% if true %}{% let w = v.clone() %}{{ w }}{% endif %}" "html";
    H14 "html" "{{ v|escape|escape }}" "twice";
    H15 "html" "{% for i in 0..1 %}{{ v }}{% endfor %}" "html";
    H16 "svg" "{{ v }}" "html";
    T1 "txt" "{{ v }}" "text";
    T2 "txt" "{{ v|escape }}" "text";
    T3 "txt" "{{ v|escape(\"html\") }}" "html";
    T4 "txt" "{% filter escape(\"html\") %}{{ v }}{% endfilter %}" "html";
}

pub fn escape(c: &Value, line: usize, o: &mut Out) {
    let want = |k: &str| c[k].as_str().unwrap();
    let parts: Vec<String> = c["ps"].as_array().unwrap().iter().map(|p| p.as_str().unwrap().to_string()).collect();
    for how in 0..3 {
        let p = Pieces { parts: parts.clone(), how, fails: false };
        for (what, w, make) in templates(&p) {
            o.text(line, &format!("{what}, write method {how}"), want(w), &|| Ok(make()), false);
        }
        let v = || p.clone();
        o.text(line, "MarkupDisplay::new_unsafe(Html)", want("html"), &|| Ok(Box::new(MarkupDisplay::new_unsafe(v(), Html))), false);
        o.text(line, "MarkupDisplay::new_unsafe(Html) in another", want("twice"), &|| Ok(Box::new(MarkupDisplay::new_unsafe(MarkupDisplay::new_unsafe(v(), Html), Html))), false);
        o.text(line, "MarkupDisplay::new_safe(Html)", want("text"), &|| Ok(Box::new(MarkupDisplay::new_safe(v(), Html))), false);
        o.text(line, "mark_safe", want("text"), &|| Ok(Box::new(MarkupDisplay::new_unsafe(v(), Html).mark_safe())), false);
        o.text(line, "MarkupDisplay::new_unsafe(Text)", want("text"), &|| Ok(Box::new(MarkupDisplay::new_unsafe(v(), Text))), false);
        o.text(line, "filters::escape", want("html"), &|| Ok(Box::new(filters::escape(Html, v()).unwrap())), false);
        o.text(line, "filters::safe", want("text"), &|| Ok(Box::new(filters::safe(Html, v()).unwrap())), false);
    }
}
