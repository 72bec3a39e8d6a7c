"""C21: the behaviours of Web.tla, answered by templates in the four web integrations."""
import json, os, shutil
import concurrent.futures as cf
from vlib import *
import vlib

INV = MC_CFG.replace("SPECIFICATION Spec", "SPECIFICATION WSpec").replace("LoopsInRange", "LoopsInRange OnePerRequest NeverPartial FaultsShow")

HEAD = """#![allow(warnings)]
extern crate hk;
use hk::Env;
pub struct Got { status: u16, ctype: Vec<String>, body: Vec<u8>, fstatus: u16, fbody: Vec<u8>, tried: bool }
// what a declared length leaves of a body
fn sized(b: Vec<u8>, n: Option<usize>) -> Vec<u8> {
    match n { Some(n) if n < b.len() => b[..n].to_vec(), Some(n) if n > b.len() => [&b[..], b"<cut off>"].concat(), _ => b }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap()).unwrap();
    let table = table();
    for r in v["runs"].as_array().unwrap() {
        let (_, f) = table.iter().find(|(n, _)| *n == r["t"]).unwrap();
        let e = Env::from_json(&r["env"]);
        match std::panic::catch_unwind(|| f(e)) {
            Ok(g) => println!("{}", serde_json::json!({"id": r["id"], "status": g.status, "type": g.ctype, "body": String::from_utf8_lossy(&g.body),
                                "fstatus": g.fstatus, "fbody": String::from_utf8_lossy(&g.fbody), "tried": g.tried})),
            Err(_) => println!("{}", serde_json::json!({"id": r["id"], "panic": true})),
        }
    }
}
"""
WEB = {
    "actix": ('askama_actix = { path = "%s/askama_actix", features = ["serde-json"] }\nactix-web = { version = "4", default-features = false }\n', """
use askama_actix::actix_web::{self, Responder, HttpResponse, body::{BoxBody, MessageBody}};
fn take(r: HttpResponse<BoxBody>) -> (u16, Vec<String>, Vec<u8>) {
    let ty = r.headers().get_all("content-type").map(|v| v.to_str().unwrap().to_string()).collect();
    let n = r.headers().get("content-length").map(|v| v.to_str().unwrap().parse().unwrap());
    let n = match r.body().size() { actix_web::body::BodySize::Sized(n) => n.into(), _ => n };
    let n = n.map(|n: u64| n as usize);
    (r.status().as_u16(), ty, sized(r.into_body().try_into_bytes().unwrap().to_vec(), n))
}
pub fn serve<T: askama_actix::Template + Responder<Body = BoxBody>>(t: T) -> Got {
    let tried = askama_actix::try_into_response(&t).is_ok();
    let f = take(askama_actix::into_response(&t));
    let req = actix_web::test::TestRequest::default().to_http_request();
    let g = take(t.respond_to(&req));
    Got { status: g.0, ctype: g.1, body: g.2, fstatus: f.0, fbody: f.2, tried }
}
"""),
    "axum": ('askama_axum = { path = "%s/askama_axum", features = ["serde-json"] }\nhttp-body-util = "0.1"\ntokio = { version = "1", features = ["rt"] }\n', """
use askama_axum::axum_core::response::{IntoResponse, Response};
use http_body_util::BodyExt;
fn take(r: Response) -> (u16, Vec<String>, Vec<u8>) {
    let ty = r.headers().get_all("content-type").iter().map(|v| v.to_str().unwrap().to_string()).collect();
    let s = r.status().as_u16();
    let n = r.headers().get("content-length").map(|v| v.to_str().unwrap().parse().unwrap());
    let b = tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(async { r.into_body().collect().await.unwrap().to_bytes() });
    (s, ty, sized(b.to_vec(), n))
}
pub fn serve<T: askama_axum::Template + IntoResponse>(t: T) -> Got {
    let tried = askama_axum::try_into_response(&t).is_ok();
    let f = take(askama_axum::into_response(&t));
    let g = take(t.into_response());
    Got { status: g.0, ctype: g.1, body: g.2, fstatus: f.0, fbody: f.2, tried }
}
"""),
    "warp": ('askama_warp = { path = "%s/askama_warp", features = ["serde-json"] }\ntokio = { version = "1", features = ["rt"] }\n', """
use askama_warp::warp::{self, Reply, reply::Response};
fn take(r: Response) -> (u16, Vec<String>, Vec<u8>) {
    let ty = r.headers().get_all("content-type").iter().map(|v| v.to_str().unwrap().to_string()).collect();
    let s = r.status().as_u16();
    let n = r.headers().get("content-length").map(|v| v.to_str().unwrap().parse().unwrap());
    let b = tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(async { warp::hyper::body::to_bytes(r.into_body()).await.unwrap() });
    (s, ty, sized(b.to_vec(), n))
}
pub fn serve<T: askama_warp::Template + Reply>(t: T) -> Got {
    let tried = askama_warp::try_into_response(&t).is_ok();
    let f = take(askama_warp::into_response(&t));
    let g = take(t.into_response());
    Got { status: g.0, ctype: g.1, body: g.2, fstatus: f.0, fbody: f.2, tried }
}
"""),
    "rocket": ('askama_rocket = { path = "%s/askama_rocket", features = ["serde-json"] }\n', """
use askama_rocket::rocket::{self, Response, response::Responder, http::Status, local::blocking::Client};
fn take(mut r: Response<'_>) -> (u16, Vec<String>, Vec<u8>) {
    let ty = r.headers().get("content-type").map(|v| v.to_string()).collect();
    let s = r.status().code;
    let n = r.body().preset_size();
    let b = rocket::tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(async { r.body_mut().to_bytes().await.unwrap() });
    (s, ty, sized(b, n))
}
thread_local! { static CLIENT: &'static Client = Box::leak(Box::new(
    Client::untracked(rocket::custom(rocket::Config { log_level: rocket::config::LogLevel::Off, ..rocket::Config::debug_default() })).unwrap())); }
pub fn serve<T: askama_rocket::Template + for<'r> Responder<'r, 'static>>(t: T) -> Got {
    let tried = askama_rocket::try_into_response(&t).is_ok();
    let f = take(askama_rocket::into_response(&t));
    let c: &'static Client = CLIENT.with(|c| *c);
    let req = c.get("/");
    let g = match t.respond_to(req.inner()) {
        Ok(r) => take(r),
        Err(s) => (s.code, vec![], vec![]),
    };
    Got { status: g.0, ctype: g.1, body: g.2, fstatus: f.0, fbody: f.2, tried }
}
"""),
}


def package(o, name, cases):
    d = os.path.join(o.dir, name)
    shutil.rmtree(d, ignore_errors=True)
    hk = os.path.join(BUILD, "hk")
    deps, code = WEB[name]
    def write(p, s):
        q = os.path.join(d, p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "w", newline="") as f:
            f.write(s)
    write("Cargo.toml", (CARGO % (REPO, '["serde-json"]', hk)).replace('name = "cases"', 'name = "web-%s"' % name).replace("[profile", deps % REPO + "[profile", 1))
    lock = os.path.join(REPO, "Cargo.lock")
    shutil.copy(lock if os.path.exists(lock) else "/opt/veriftools/crates.Cargo.lock", os.path.join(d, "Cargo.lock"))
    s = HEAD + code
    t = "fn table() -> Vec<(&'static str, fn(Env) -> Got)> { vec![\n"
    for k, c in enumerate(cases):
        cid = "c%d" % k
        for f in c["files"]:
            write("t/%s/%s" % (cid, f["path"]), f["src"])
        write(cid + ".toml", config_toml(c, cid))
        decl, deref, use, val = type_def(c.get("ty", "tuple"), 0)
        write("src/cases/%s.rs" % cid, "use hk::*; use hk::filters; use askama_%s::Template;\n" % name +
              "#[derive(Template)] #[template(%s)] %s\n%s" % (derive_attrs(c, cid, ""), decl, deref) +
              "pub fn w(e: Env) -> crate::Got { let t: %s = %s; crate::serve(t) }\n" % (use, val))
        s += '#[path = "cases/%s.rs"] mod %s;\n' % (cid, cid)
        t += '    ("%s", %s::w),\n' % (cid, cid)
    write("src/main.rs", s + t + "] }\n")
    target = os.path.join(BUILD, "target_" + name)
    bad, rest = cargo_build(d, timeout=800, env={"CARGO_TARGET_DIR": target})
    if rest:
        raise CheckError("build of %s failed:\n%s" % (name, "\n".join(rest)[:3000]))
    if bad:
        return None, bad
    runs = [{"id": "c%d/%d" % (k, j), "t": "c%d" % k, "env": r["env"]} for k, c in enumerate(cases) for j, r in enumerate(c["runs"])]
    p = os.path.join(d, "runs.json")
    json.dump({"runs": runs}, open(p, "w"))
    rc, out, err = sh([os.path.join(target, "debug", "web-" + name), p], cwd=d, timeout=300, mem_gb=8)
    return {r["id"]: r for r in (json.loads(l) for l in out.split("\n") if l.startswith("{"))}, err


def c21():
    o = Outcome("C21")
    n = 360 if tier() == "thorough" else 100
    cases = simulate_mc("C21", "C21", n, seed(), o.stats, module="Web", cfg=INV)
    copy_hk(os.path.join(BUILD, "hk"))
    with cf.ThreadPoolExecutor(4) as ex:
        for name, (res, err) in zip(WEB, ex.map(lambda w: package(o, w, cases), WEB)):
            if res is None:
                for cid, e in err.items():
                    c = cases[int(cid[1:].split("_")[0])]
                    o.violation("%s: a valid program does not compile: %s" % (name, e[0]), dict(c, cid=cid))
                continue
            for k, c in enumerate(cases):
                for j, (r, want) in enumerate(zip(c["runs"], c["sent"])):
                    o.replays += 1
                    g = res.get("c%d/%d" % (k, j))
                    why = None
                    if g is None or g.get("panic"):
                        why = "answering crashed: %s %s" % (g, err[-200:])
                    elif g["status"] != want["status"]:
                        why = "status is %d instead of %d (body %r)" % (g["status"], want["status"], g["body"])
                    elif g["fstatus"] != want["status"]:
                        why = "into_response: status is %d instead of %d (body %r)" % (g["fstatus"], want["status"], g["fbody"])
                    elif g["tried"] != (want["status"] == 200):
                        why = "try_into_response gave %s" % ("a response" if g["tried"] else "an error")
                    elif want["status"] == 200 and (g["body"] != want["body"] or g["fbody"] != want["body"]):
                        why = "body differs\n expected %r\n got      %r\n and %r" % (want["body"], g["body"], g["fbody"])
                    elif want["status"] == 200 and g["type"] != [want["type"]]:
                        why = "content type is %r instead of %r" % (g["type"], want["type"])
                    if why:
                        o.violation("%s: %s" % (name, why), dict(c, cid="c%d" % k, runs=[r], response=want, real=g))
    c = cases[0]
    o.sample({"files": c["files"], "run": c["runs"][0], "response": c["sent"][0]})
    return o
