//! What the generated template programs use: data types, probes, filters, and the driver that
//! renders them and reports what happened.
use askama::DynTemplate;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::fmt::{self, Write as _};
use std::ops::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static LOG: RefCell<Vec<i64>> = RefCell::new(Vec::new());
    /// how S writes its text: 0 at once, n > 0 in pieces of n characters, -1 with empty pieces between
    static CHUNK: Cell<i64> = Cell::new(0);
}

// ---- integers -----------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct N(pub i32);
impl fmt::Display for N {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.0, f)
    }
}
pub trait ToN {
    fn n(&self) -> i32;
}
impl ToN for N {
    fn n(&self) -> i32 {
        self.0
    }
}
macro_rules! to_n { ($($t:ty)*) => { $(impl ToN for $t { fn n(&self) -> i32 { *self as i32 } })* } }
to_n!(i32 usize i64 u32 u8);
impl<T: ToN + ?Sized> ToN for &T {
    fn n(&self) -> i32 {
        (**self).n()
    }
}
macro_rules! ops {
    ($($l:ty, $r:ty);* $(;)?) => { $(
        op!($l, $r, Add add wrapping_add; Sub sub wrapping_sub; Mul mul wrapping_mul; Div div wrapping_div; Rem rem wrapping_rem);
        bop!($l, $r, BitAnd bitand &; BitOr bitor |; BitXor bitxor ^);
        impl Shl<$r> for $l { type Output = N; fn shl(self, r: $r) -> N { N(self.n().wrapping_shl(r.n() as u32)) } }
        impl Shr<$r> for $l { type Output = N; fn shr(self, r: $r) -> N { N(self.n().wrapping_shr(r.n() as u32)) } }
    )* };
}
macro_rules! op { ($l:ty, $r:ty, $($t:ident $f:ident $w:ident);*) => { $(
    impl $t<$r> for $l { type Output = N; fn $f(self, r: $r) -> N { N(self.n().$w(r.n())) } })* } }
macro_rules! bop { ($l:ty, $r:ty, $($t:ident $f:ident $o:tt);*) => { $(
    impl $t<$r> for $l { type Output = N; fn $f(self, r: $r) -> N { N(self.n() $o r.n()) } })* } }
ops!(N, N; N, &N; N, &&N; &N, N; &N, &N; &N, &&N; &&N, N; &&N, &N; &&N, &&N;
     N, i32; &N, i32; &&N, i32; i32, N; i32, &N; i32, &&N; N, &i32; &N, &i32; &i32, N; &i32, &N);
macro_rules! cmps {
    ($($l:ty, $r:ty);* $(;)?) => { $(
        impl PartialEq<$r> for $l { fn eq(&self, r: &$r) -> bool { self.n() == r.n() } }
        impl PartialOrd<$r> for $l { fn partial_cmp(&self, r: &$r) -> Option<std::cmp::Ordering> { self.n().partial_cmp(&r.n()) } }
    )* };
}
cmps!(N, &N; N, &&N; &N, N; &&N, N; N, i32; &N, i32; &&N, i32; i32, N; i32, &N; i32, &&N; N, &i32; &i32, N);
macro_rules! un { ($($t:ty)*) => { $(
    impl Neg for $t { type Output = N; fn neg(self) -> N { N(self.n().wrapping_neg()) } }
    impl Not for $t { type Output = N; fn not(self) -> N { N(!self.n()) } })* } }
un!(N &N &&N);

/// methods that expressions call
pub trait Meth: ToN {
    fn neg1(&self) -> N {
        N(-self.n() - 1)
    }
    fn minus(&self, k: impl ToN) -> N {
        N(self.n().wrapping_sub(k.n()))
    }
}
impl<T: ToN> Meth for T {}

// ---- strings ------------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct S(pub &'static str);
impl fmt::Display for S {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match CHUNK.with(|c| c.get()) {
            0 => f.write_str(self.0),
            n => {
                let mut piece = String::new();
                for c in self.0.chars() {
                    if n < 0 {
                        f.write_str("")?;
                        f.write_char(c)?;
                        continue;
                    }
                    piece.push(c);
                    if piece.chars().count() as i64 == n {
                        f.write_str(&piece)?;
                        piece.clear();
                    }
                }
                f.write_str(&piece)
            }
        }
    }
}
pub trait ToS {
    fn s(&self) -> &str;
}
impl ToS for S {
    fn s(&self) -> &str {
        self.0
    }
}
macro_rules! scmp { ($($l:ty, $r:ty, $a:expr, $b:expr);* $(;)?) => { $(
    impl PartialEq<$r> for $l { fn eq(&self, r: &$r) -> bool { $a(self) == $b(r) } })* } }
fn st(s: &S) -> &str { s.0 }
fn rst<'a>(s: &'a &S) -> &'a str { s.0 }
fn rrst<'a>(s: &'a &&S) -> &'a str { s.0 }
fn id<'a>(s: &'a &str) -> &'a str { s }
fn sid(s: &str) -> &str { s }
fn so(s: &String) -> &str { s }
scmp!(S, &str, st, id; &str, S, id, st; S, &S, st, rst; &S, S, rst, st; S, &&S, st, rrst; &&S, S, rrst, st;
      S, String, st, so; String, S, so, st; &S, String, rst, so; String, &S, so, rst;
      &S, str, rst, sid; str, S, sid, st; S, str, st, sid; str, &S, sid, rst; &&S, String, rrst, so; String, &&S, so, rrst);

/// a string that is owned, and so cannot be copied
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct OS(pub String);
impl fmt::Display for OS {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        S(leak(&self.0)).fmt(f)
    }
}
impl ToS for OS {
    fn s(&self) -> &str {
        &self.0
    }
}
impl ToS for String {
    fn s(&self) -> &str {
        self
    }
}
impl ToS for str {
    fn s(&self) -> &str {
        self
    }
}
impl<T: ToS + ?Sized> ToS for &T {
    fn s(&self) -> &str {
        (**self).s()
    }
}
macro_rules! ocmp { ($($l:ty, $r:ty);* $(;)?) => { $(
    impl PartialEq<$r> for $l { fn eq(&self, r: &$r) -> bool { ToS::s(self) == ToS::s(r) } }
    impl PartialEq<$l> for $r { fn eq(&self, r: &$l) -> bool { ToS::s(self) == ToS::s(r) } })* } }
ocmp!(OS, &OS; OS, &&OS; OS, S; OS, &S; OS, &&S; &OS, S; &&OS, S; OS, str; OS, &str; &OS, str; OS, String; &OS, String; &&OS, String; OS, &String);
/// methods that expressions call on strings
pub trait MethS: ToS {
    fn dup(&self) -> String {
        format!("{}{}", self.s(), self.s())
    }
    fn cat(&self, o: impl fmt::Display) -> String {
        format!("{}{o}", self.s())
    }
    fn st(&self) -> &str {
        self.s()
    }
}
impl<T: ToS + ?Sized> MethS for T {}
/// what paths in expressions name
pub const K: i32 = 42;
pub mod deep {
    pub static TEXT: &str = "<t>";
}
pub fn upto(n: impl ToN) -> Vec<N> {
    (0..n.n()).map(N).collect()
}
/// the same, from an iterator that does not know how many items it has
pub fn lazy(n: impl ToN) -> impl Iterator<Item = N> {
    let n = n.n();
    let mut k = -1;
    std::iter::from_fn(move || {
        k += 1;
        (k < n).then_some(N(k))
    })
}

/// a value whose Display fails
#[derive(Clone, Copy)]
pub struct F(pub bool);
impl fmt::Display for F {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.0 {
            f.write_str("pa")?;
            Err(fmt::Error)
        } else {
            f.write_str("F")
        }
    }
}

// ---- lists --------------------------------------------------------------------------------
macro_rules! list { ($l:ident, $t:ty) => {
    #[derive(Clone, Copy)]
    pub struct $l(pub &'static [$t]);
    impl IntoIterator for $l { type Item = &'static $t; type IntoIter = std::slice::Iter<'static, $t>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
    impl IntoIterator for &$l { type Item = &'static $t; type IntoIter = std::slice::Iter<'static, $t>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
    impl Index<usize> for $l { type Output = $t; fn index(&self, i: usize) -> &$t { &self.0[i] } }
    impl Index<N> for $l { type Output = $t; fn index(&self, i: N) -> &$t { &self.0[i.0.rem_euclid(self.0.len() as i32) as usize] } }
    impl Index<&N> for $l { type Output = $t; fn index(&self, i: &N) -> &$t { &self[*i] } }
    impl Index<&&N> for $l { type Output = $t; fn index(&self, i: &&N) -> &$t { &self[**i] } }
} }
list!(LN, N);
list!(LS, S);
list!(LP, (N, S));

#[derive(Clone, Copy)]
pub struct D {
    pub n: N,
    pub s: S,
    pub r#type: N,
}
#[derive(Clone)]
pub struct DD {
    pub n: N,
    pub s: OS,
    pub v: Vec<OS>,
    pub o: Option<OS>,
}
#[derive(Clone)]
pub struct DE {
    pub d: DD,
    pub t: (N, OS),
}
#[derive(Clone, Copy)]
pub enum E {
    A,
    B(N),
    C { n: N, s: S },
}
#[derive(Clone, Copy, Debug)]
pub struct Er(pub &'static str);
impl fmt::Display for Er {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for Er {}

// ---- probes -------------------------------------------------------------------------------
fn log(id: impl ToN) {
    LOG.with(|l| l.borrow_mut().push(id.n() as i64))
}
pub fn pi(id: impl ToN, v: impl ToN) -> N {
    let v = v.n();
    log(id);
    N(v)
}
pub trait ToB {
    fn b(&self) -> bool;
}
impl ToB for bool {
    fn b(&self) -> bool {
        *self
    }
}
impl<T: ToB> ToB for &T {
    fn b(&self) -> bool {
        (**self).b()
    }
}
pub fn pb(id: impl ToN, v: impl ToB) -> bool {
    log(id);
    v.b()
}
pub fn ps<T>(id: impl ToN, v: T) -> T {
    log(id);
    v
}
pub fn px<T>(id: impl ToN, v: T) -> T {
    log(id);
    v
}

// ---- user filters -------------------------------------------------------------------------
pub mod filters {
    use super::*;
    pub fn inc(v: impl ToN) -> askama::Result<N> {
        Ok(N(v.n() + 1))
    }
    pub fn plus(v: impl ToN, k: impl ToN) -> askama::Result<N> {
        Ok(N(v.n() + k.n()))
    }
    pub fn pre(v: impl fmt::Display, p: impl fmt::Display) -> askama::Result<String> {
        text(format_args!("{p}{v}"))
    }
    fn text(a: fmt::Arguments<'_>) -> askama::Result<String> {
        let mut s = String::new();
        fmt::Write::write_fmt(&mut s, a)?;
        Ok(s)
    }
    pub fn wrap(v: impl fmt::Display) -> askama::Result<String> {
        text(format_args!("[{v}]"))
    }
    pub fn fail(v: impl fmt::Display, b: impl ToB) -> askama::Result<String> {
        if b.b() {
            Err(askama::Error::Custom(Box::new(Er("filter"))))
        } else {
            text(format_args!("{v}"))
        }
    }
}

// ---- fields -------------------------------------------------------------------------------
#[derive(Clone)]
pub struct Env {
    pub n0: N, pub n1: N, pub n2: N, pub n3: N,
    pub r#as: N, pub r#do: N, pub r#fn: N, pub r#if: N, pub r#in: N, pub r#box: N, pub r#dyn: N, pub r#for: N, pub r#let: N, pub r#mod: N, pub r#mut: N, pub r#pub: N, pub r#ref: N, pub r#try: N, pub r#use: N, pub r#else: N, pub r#enum: N, pub r#impl: N, pub r#move: N, pub r#priv: N, pub r#type: N, pub r#async: N, pub r#await: N, pub r#break: N, pub r#const: N, pub r#final: N, pub r#macro: N, pub r#match: N, pub r#trait: N, pub r#where: N, pub r#while: N, pub r#yield: N, pub r#become: N, pub r#extern: N, pub r#return: N, pub r#static: N, pub r#struct: N, pub r#typeof: N, pub r#unsafe: N, pub r#unsized: N, pub r#virtual: N, pub r#abstract: N, pub r#continue: N, pub r#override: N, pub _u: N, pub _9: N, pub __: N, pub 字: N, pub élan: N, pub iffy: N, pub input: N, pub elsewhere: N, pub letter: N, pub setup: N, pub orange: N, pub withal: N, pub truest: N, pub falsely: N, pub selfie: N, pub loopy: N, pub matchbox: N, pub forum: N, pub x_: N, pub a0: N,
    pub s0: S, pub s1: S, pub s2: S, pub s3: S,
    pub b0: bool, pub b1: bool, pub b2: bool,
    pub l0: LN, pub m0: LS, pub f0: LN, pub p1: LP, pub d0: D,
    pub r1: Result<N, Er>, pub r2: Result<N, Er>, pub o1: Option<N>, pub k1: i32, pub m1: &'static str, pub e1: E,
    pub x0: F,
    pub w0: OS, pub v0: Vec<OS>, pub g0: Vec<OS>, pub q1: Vec<(N, OS)>, pub u0: Vec<Vec<OS>>, pub ow: Option<OS>, pub d1: DD, pub d2: Box<DE>, pub t0: (N, S), pub h1: Vec<DD>,
    pub h0: fn(&dyn ToN) -> N,
}
fn double(n: &dyn ToN) -> N {
    N(n.n().wrapping_mul(2))
}
fn go(v: &Value) -> OS {
    OS(v.as_str().unwrap().to_string())
}
fn vec<T>(v: &Value, f: impl Fn(&Value) -> T) -> Vec<T> {
    v.as_array().unwrap().iter().map(f).collect()
}
pub fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}
fn gs(v: &Value) -> S {
    S(leak(v.as_str().unwrap()))
}
fn gn(v: &Value) -> N {
    N(v.as_i64().unwrap() as i32)
}
fn seq<T>(v: &Value, f: impl Fn(&Value) -> T) -> &'static [T] {
    Box::leak(v.as_array().unwrap().iter().map(f).collect::<Vec<_>>().into_boxed_slice())
}
fn res(v: &Value) -> Result<N, Er> {
    if v["ok"].as_bool().unwrap() { Ok(gn(&v["n"])) } else { Err(Er(leak(v["er"].as_str().unwrap()))) }
}
fn dd(v: &Value) -> DD {
    DD { n: gn(&v["n"]), s: go(&v["s"]), v: vec(&v["v"], go), o: v["o"].as_array().unwrap().first().map(go) }
}
impl Env {
    pub fn from_json(v: &Value) -> Env {
        let b = |n: &str| v[n].as_bool().unwrap();
        Env {
            n0: gn(&v["n0"]), n1: gn(&v["n1"]), n2: gn(&v["n2"]), n3: gn(&v["n3"]),
            r#as: N(101), r#do: N(102), r#fn: N(103), r#if: N(104), r#in: N(105), r#box: N(106), r#dyn: N(107), r#for: N(108), r#let: N(109), r#mod: N(110), r#mut: N(111), r#pub: N(112), r#ref: N(113), r#try: N(114), r#use: N(115), r#else: N(116), r#enum: N(117), r#impl: N(118), r#move: N(119), r#priv: N(120), r#type: N(121), r#async: N(122), r#await: N(123), r#break: N(124), r#const: N(125), r#final: N(126), r#macro: N(127), r#match: N(128), r#trait: N(129), r#where: N(130), r#while: N(131), r#yield: N(132), r#become: N(133), r#extern: N(134), r#return: N(135), r#static: N(136), r#struct: N(137), r#typeof: N(138), r#unsafe: N(139), r#unsized: N(140), r#virtual: N(141), r#abstract: N(142), r#continue: N(143), r#override: N(144), _u: N(145), _9: N(146), __: N(147), 字: N(148), élan: N(149), iffy: N(150), input: N(151), elsewhere: N(152), letter: N(153), setup: N(154), orange: N(155), withal: N(156), truest: N(157), falsely: N(158), selfie: N(159), loopy: N(160), matchbox: N(161), forum: N(162), x_: N(163), a0: N(164),
            s0: gs(&v["s0"]), s1: gs(&v["s1"]), s2: gs(&v["s2"]), s3: gs(&v["s3"]),
            b0: b("b0"), b1: b("b1"), b2: b("b2"),
            l0: LN(seq(&v["l0"], gn)), m0: LS(seq(&v["m0"], gs)), f0: LN(seq(&v["f0"], gn)),
            p1: LP(seq(&v["p1"], |p| (gn(&p["n"]), gs(&p["s"])))),
            d0: D { n: gn(&v["d0"]["n"]), s: gs(&v["d0"]["s"]), r#type: gn(&v["d0"]["n"]) },
            r1: res(&v["r1"]), r2: res(&v["r2"]),
            o1: v["o1"].as_array().unwrap().first().map(gn),
            k1: v["k1"].as_i64().unwrap() as i32, m1: leak(v["m1"].as_str().unwrap()),
            e1: match v["e1"]["var"].as_str().unwrap() { "A" => E::A, "B" => E::B(gn(&v["e1"]["n"])), _ => E::C { n: gn(&v["e1"]["n"]), s: gs(&v["e1"]["s"]) } },
            x0: F(v["x0"].as_bool().unwrap_or(false)),
            w0: go(&v["w0"]), v0: vec(&v["v0"], go), g0: vec(&v["g0"], go), q1: vec(&v["q1"], |p| (gn(&p["n"]), go(&p["s"]))),
            u0: vec(&v["u0"], |q| vec(q, go)), ow: v["ow"].as_array().unwrap().first().map(go),
            d1: dd(&v["d1"]), d2: Box::new(DE { d: dd(&v["d2"]["d"]), t: (gn(&v["d2"]["t"]["n"]), go(&v["d2"]["t"]["s"])) }),
            t0: (gn(&v["t0"]["n"]), gs(&v["t0"]["s"])), h0: double, h1: vec(&v["h1"], dd),
        }
    }
}

// ---- user escapers ------------------------------------------------------------------------
pub struct Esc1;
pub struct Esc2;
impl askama_escape::Escaper for Esc1 {
    fn write_escaped<W: fmt::Write>(&self, mut f: W, s: &str) -> fmt::Result {
        write!(f, "1({s})")
    }
}
impl askama_escape::Escaper for Esc2 {
    fn write_escaped<W: fmt::Write>(&self, mut f: W, s: &str) -> fmt::Result {
        write!(f, "2({s})")
    }
}

// ---- templates behind a reference, and through Display --------------------------------------
/// renders `&T` instead of `T`
pub struct ByRef<T>(pub T);
impl<T: askama::Template> askama::Template for ByRef<T> {
    fn render(&self) -> askama::Result<String> {
        <&T as askama::Template>::render(&&self.0)
    }
    fn render_into(&self, w: &mut (impl fmt::Write + ?Sized)) -> askama::Result<()> {
        <&T as askama::Template>::render_into(&&self.0, w)
    }
    fn write_into(&self, w: &mut (impl std::io::Write + ?Sized)) -> std::io::Result<()> {
        <&T as askama::Template>::write_into(&&self.0, w)
    }
    const EXTENSION: Option<&'static str> = <&T as askama::Template>::EXTENSION;
    const SIZE_HINT: usize = <&T as askama::Template>::SIZE_HINT;
    const MIME_TYPE: &'static str = <&T as askama::Template>::MIME_TYPE;
}
impl<T: fmt::Display> fmt::Display for ByRef<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: fmt::Display> fmt::Display for ByDisplay<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
/// renders T with its Display; errors are all "fmt" then
pub struct ByDisplay<T>(pub T);
impl<T: askama::Template> askama::Template for ByDisplay<T> {
    fn render_into(&self, w: &mut (impl fmt::Write + ?Sized)) -> askama::Result<()> {
        Ok(write!(w, "{:.1}", self.0)?)
    }
    const EXTENSION: Option<&'static str> = T::EXTENSION;
    const SIZE_HINT: usize = T::SIZE_HINT;
    const MIME_TYPE: &'static str = T::MIME_TYPE;
}

// ---- driver -------------------------------------------------------------------------------
pub type Make = fn(Env) -> Box<dyn DynTemplate>;

fn quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}
fn take_log() -> Vec<i64> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
/// a destination that fails at its n-th write and records everything
pub struct Sink {
    pub got: String,
    pub left: i64,
    pub writes: i64,
    pub failed: bool,
    pub after: bool,
    pub scribble: bool,
}
impl Sink {
    pub fn new(left: i64) -> Sink {
        Sink { got: String::new(), left, writes: 0, failed: false, after: false, scribble: false }
    }
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            self.after = true;
        }
        if self.left == 0 {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.left -= 1;
        self.writes += 1;
        self.got.push_str(s);
        Ok(())
    }
}
/// an io destination that accepts at most `max` bytes per write, interrupts now and then, and fails for good after `left` bytes
pub struct IoSink {
    pub got: Vec<u8>,
    pub left: i64,
    pub max: usize,
    pub n: u64,
    pub failed: bool,
    pub after: bool,
    pub kind: std::io::ErrorKind,
}
impl std::io::Write for IoSink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.failed {
            self.after = true;
        }
        self.n += 1;
        if b.is_empty() {
            return Ok(0);
        }
        if self.max > 0 && self.n % 3 == 0 {
            return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
        }
        let mut k = b.len();
        if self.max > 0 {
            k = k.min(self.max)
        }
        if self.left >= 0 {
            k = k.min(self.left as usize);
            if k == 0 {
                self.failed = true;
                return Err(std::io::Error::new(self.kind, "sink"));
            }
            self.left -= k as i64;
        }
        self.got.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn err_text(e: &askama::Error) -> String {
    match e {
        askama::Error::Fmt(_) => "fmt".into(),
        askama::Error::Custom(e) => e.to_string(),
        e => format!("other {e}"),
    }
}

/// what one rendering did: text (complete or partial), error or none, probes; or that it panicked
fn render_once(t: &(dyn DynTemplate + 'static)) -> Value {
    take_log();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut s = Sink::new(-1);
        let r = t.dyn_render_into(&mut s);
        (s.got, r.err().map(|e| err_text(&e)))
    }));
    let log = take_log();
    match r {
        Ok((out, er)) => json!({"out": out, "er": er, "log": log}),
        Err(_) => json!({"panic": true}),
    }
}
/// all other ways of rendering; the names of those that differ from the text `out`
fn other_ways(t: &(dyn DynTemplate + 'static), out: &str) -> Vec<String> {
    let mut bad = vec![];
    let mut chk = |n: &str, f: &mut dyn FnMut() -> Option<String>| {
        let r = catch_unwind(AssertUnwindSafe(|| f()));
        match r {
            Ok(Some(s)) if s == out => {}
            Ok(s) => bad.push(format!("{n}: {s:?}")),
            Err(_) => bad.push(format!("{n}: panic")),
        }
    };
    chk("dyn_render", &mut || t.dyn_render().ok());
    chk("to_string", &mut || Some(t.to_string()));
    chk("format", &mut || Some(format!("{t}")));
    chk("wide format", &mut || Some(format!("{t:>500}")));
    chk("short format", &mut || Some(format!("{t:.1}")));
    chk("into string", &mut || { let mut s = String::from("pre{{"); t.dyn_render_into(&mut s).ok()?; s.strip_prefix("pre{{").map(|s| s.to_string()) });
    chk("write_into", &mut || { let mut v = Vec::from(&b"pre"[..]); t.dyn_write_into(&mut v).ok()?; String::from_utf8(v).ok()?.strip_prefix("pre").map(|s| s.to_string()) });
    chk("short writes", &mut || { let mut v = IoSink { got: vec![], left: -1, max: 3, n: 0, failed: false, after: false, kind: std::io::ErrorKind::Other }; t.dyn_write_into(&mut v).ok()?; String::from_utf8(v.got).ok() });
    chk("again", &mut || t.dyn_render().ok());
    bad
}
/// every way in which a destination can fail; what went wrong
fn faults(t: &(dyn DynTemplate + 'static), out: &str, every: i64) -> (Vec<String>, i64) {
    let mut bad = vec![];
    let mut n = 0;
    let mut k = 0;
    loop {
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut s = Sink::new(k);
            let r = t.dyn_render_into(&mut s);
            (r.map_err(|e| err_text(&e)), s)
        }));
        n += 1;
        match r {
            Err(_) => { bad.push(format!("panic at write {k}")); break; }
            Ok((r, s)) => {
                if !s.failed {
                    if r.is_err() || s.got != out { bad.push(format!("no fault but {r:?} {:?}", s.got)); }
                    break;
                }
                if r != Err("fmt".to_string()) { bad.push(format!("fault at write {k} reported as {r:?}")); }
                if !out.starts_with(&s.got) { bad.push(format!("fault at write {k}: {:?} is no prefix", s.got)); }
                if s.after { bad.push(format!("write after fault at {k}")); }
            }
        }
        k += 1;
        if k > 400 { break; }
    }
    let mut k = 0;
    while k <= out.len() as i64 {
        for max in [0usize, 2] {
            let kind = if k % 2 == 0 { std::io::ErrorKind::BrokenPipe } else { std::io::ErrorKind::ConnectionReset };
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut s = IoSink { got: vec![], left: k, max, n: 0, failed: false, after: false, kind };
                let r = t.dyn_write_into(&mut s);
                (r, s)
            }));
            n += 1;
            match r {
                Err(_) => bad.push(format!("panic at byte {k}")),
                Ok((r, s)) => {
                    if !s.failed {
                        if r.is_err() || s.got != out.as_bytes() { bad.push(format!("no io fault but {r:?}")); }
                    } else {
                        match r {
                            Ok(()) => bad.push(format!("io fault at byte {k} not reported")),
                            Err(e) => if e.kind() != kind || e.to_string() != "sink" { bad.push(format!("io fault at byte {k} reported as {e:?}")) },
                        }
                        if !out.as_bytes().starts_with(&s.got) { bad.push(format!("io fault at byte {k}: no prefix")); }
                        if s.after { bad.push(format!("io write after fault at {k}")); }
                    }
                }
            }
        }
        k += every;
    }
    (bad, n)
}

/// reads {"runs": [{"t": template, "env": .., "chunk": n, "do": [..]}]} from the file named by the first argument
/// and prints one line of JSON per run
pub fn drive(table: &[(&str, Make)]) {
    quiet();
    let path = std::env::args().nth(1).unwrap();
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    for r in v["runs"].as_array().unwrap() {
        let name = r["t"].as_str().unwrap();
        let Some((_, make)) = table.iter().find(|(n, _)| *n == name) else {
            println!("{}", json!({"id": r["id"], "missing": true}));
            continue;
        };
        let t = make(Env::from_json(&r["env"]));
        CHUNK.with(|c| c.set(0));
        let mut o = render_once(&*t);
        o["id"] = r["id"].clone();
        o["ext"] = json!(t.extension());
        o["mime"] = json!(t.mime_type());
        o["size"] = json!(t.size_hint());
        let todo = r["do"].as_array().unwrap();
        let ok = o["panic"].is_null() && o["er"].is_null();
        let out = o["out"].as_str().unwrap_or("").to_string();
        for d in todo {
            match d.as_str().unwrap() {
                "chunk" => {
                    for c in [1, 2, 3, -1] {
                        CHUNK.with(|x| x.set(c));
                        let q = render_once(&*t);
                        if q["out"] != o["out"] && ok || q["er"] != o["er"] {
                            o["chunk"] = json!([c, q]);
                        }
                    }
                    CHUNK.with(|x| x.set(0));
                }
                "ways" if ok => {
                    let b = other_ways(&*t, &out);
                    if !b.is_empty() { o["ways"] = json!(b); }
                }
                "faults" if ok => {
                    let (b, n) = faults(&*t, &out, 1);
                    o["nfaults"] = json!(n);
                    if !b.is_empty() { o["faults"] = json!(b); }
                }
                "errways" if o["panic"].is_null() => {
                    // the same failure however it is rendered
                    let er = o["er"].as_str().unwrap_or("").to_string();
                    let mut bad = vec![];
                    match catch_unwind(AssertUnwindSafe(|| t.dyn_render())) {
                        Ok(Err(e)) if err_text(&e) == er => {}
                        Ok(r) => bad.push(format!("render: {r:?}")),
                        Err(_) => bad.push("render: panic".into()),
                    }
                    let mut v = vec![];
                    match catch_unwind(AssertUnwindSafe(|| t.dyn_write_into(&mut v))) {
                        Ok(Err(e)) => if !format!("{e:?} {e}").contains(&er) && er != "fmt" { bad.push(format!("write_into: {e:?}")) },
                        Ok(Ok(())) => bad.push("write_into: Ok".into()),
                        Err(_) => bad.push("write_into: panic".into()),
                    }
                    let mut s = String::new();
                    match catch_unwind(AssertUnwindSafe(|| write!(s, "{t}"))) {
                        Ok(Err(_)) => {}
                        _ => bad.push("Display: no error".into()),
                    }
                    if !bad.is_empty() && !o["er"].is_null() { o["errways"] = json!(bad); }
                }
                _ => {}
            }
        }
        println!("{o}");
    }
}
