//! Conformance harness: reads one JSON job per line on stdin, runs it in the
//! real crates and writes one JSON result per line on stdout.
mod ast;
mod dbg;
mod doc;
mod exts;
mod num;
mod scale;
mod session;
mod state;

use doc::Doc;
use serde_json::{json, Value as J};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn guarded(f: impl FnOnce() -> J) -> J {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            json!({"ok": -1, "panic": m})
        }
    }
}

fn fns(job: &J) -> Vec<(String, String, String)> {
    job["fns"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|f| {
                    (
                        f["n"].as_str().unwrap().to_string(),
                        f["p"].as_str().unwrap().to_string(),
                        f["r"].as_str().unwrap().to_string(),
                    )
                })
                .collect()
        })
        .unwrap_or_default()
}

macro_rules! parse_with {
    ($parse:expr, $ast:expr, $kind:path, $empty:expr, $q:expr, $re:expr, $span:expr, $bare:expr) => {{
        let go = |text: &str| -> (J, Option<String>) {
            use $kind as K;
            match $parse(text) {
                Ok(q) => {
                    if $bare {
                        return (json!({"ok":1}), None);
                    }
                    let disp = q.to_string();
                    let a: Option<J> = $ast(&q);
                    let mut o = json!({"ok":1, "disp": num::cps(&disp), "sing": q.is_singular()});
                    if let Some(a) = a {
                        o["ast"] = a;
                    }
                    let em: Option<bool> = $empty(&q);
                    if let Some(b) = em {
                        o["empty"] = json!(b);
                    }
                    (o, Some(disp))
                }
                Err(e) => {
                    let kind = match e.kind {
                        K::LexerError => "lexer",
                        K::SyntaxError => "syntax",
                        K::TypeError => "type",
                        K::NameError => "name",
                    };
                    // formatting an error must work too
                    let shown = e.to_string();
                    let mut o = json!({"ok":0, "kind":kind, "shown": !shown.is_empty()});
                    let sp: Option<(usize, usize)> = $span(&e);
                    if let Some((lo, hi)) = sp {
                        o["lo"] = json!(lo);
                        o["hi"] = json!(hi);
                    }
                    (o, None)
                }
            }
        };
        guarded(|| {
            let (mut o, d) = go($q);
            if $re {
                if let Some(d) = d {
                    o["re"] = guarded(|| go(&d).0);
                }
            }
            o
        })
    }};
}

lazy_static::lazy_static! {
    static ref DEF_F: jsonpath_rfc9535_locations::env::Environment = Default::default();
    static ref DEF_G: jsonpath_rfc9535_singular::env::Environment = Default::default();
}

/// Which of the entry points that should all do the same: 0 to 3.
fn via(t: &str) -> u32 {
    t.bytes().fold(7u32, |a, b| a.wrapping_mul(31).wrapping_add(b as u32)) / 8 % 4
}

fn parse_one(c: &str, q: &str, job: &J) -> J {
    let re = job["re"].as_bool().unwrap_or(false);
    let bare = job["bare"].as_bool().unwrap_or(false);
    let fs = fns(job);
    let custom = !fs.is_empty() || job.get("lo").is_some();
    let lo = job["lo"].as_i64().unwrap_or(-(1 << 53) + 1);
    let hi = job["hi"].as_i64().unwrap_or((1 << 53) - 1);
    match c {
        "A" => {
            use jsonpath_rfc9535 as k;
            let ty = |c: char| match c {
                'V' => k::ExpressionType::Value,
                'L' => k::ExpressionType::Logical,
                _ => k::ExpressionType::Nodes,
            };
            let mut p = k::Parser::new();
            for (n, ps, r) in &fs {
                p.add_function(n, ps.chars().map(ty).collect(), ty(r.chars().next().unwrap()));
            }
            p.index_range = lo..=hi;
            let parse = |t: &str| match via(t) {
                _ if custom => p.parse(t),
                2 => k::Parser::new().parse(t),
                3 => k::Parser::default().parse(t),
                _ => k::Query::standard(t),
            };
            parse_with!(
                parse,
                |x: &k::Query| Some(ast::a::query_(x)),
                k::JSONPathErrorType,
                |x: &k::Query| Some(x.is_empty()),
                q,
                re,
                |e: &k::JSONPathError| Some(e.span),
                bare
            )
        }
        "B" => {
            use jsonpath_rfc9535_pest as k;
            let ty = |c: char| match c {
                'V' => k::parser::ExpressionType::Value,
                'L' => k::parser::ExpressionType::Logical,
                _ => k::parser::ExpressionType::Nodes,
            };
            let mut p = k::JSONPathParser::new();
            for (n, ps, r) in &fs {
                p.functions.insert(
                    n.clone(),
                    k::parser::FunctionSignature {
                        param_types: ps.chars().map(ty).collect(),
                        return_type: ty(r.chars().next().unwrap()),
                    },
                );
            }
            p.index_range = lo..=hi;
            let parse = |t: &str| match via(t) {
                _ if custom => p.parse(t),
                2 => k::JSONPathParser::new().parse(t),
                3 => k::JSONPathParser::default().parse(t),
                _ => k::Query::standard(t),
            };
            parse_with!(
                parse,
                |x: &k::Query| Some(ast::b::query_(x)),
                k::errors::JSONPathErrorType,
                |x: &k::Query| Some(x.is_empty()),
                q,
                re,
                |_e: &k::errors::JSONPathError| None,
                bare
            )
        }
        "C" => {
            use jsonpath_rfc9535_pest_recursive as k;
            let ty = |c: char| match c {
                'V' => k::parser::ExpressionType::Value,
                'L' => k::parser::ExpressionType::Logical,
                _ => k::parser::ExpressionType::Nodes,
            };
            let mut p = k::JSONPathParser::new();
            for (n, ps, r) in &fs {
                p.add_function(n, ps.chars().map(ty).collect(), ty(r.chars().next().unwrap()));
            }
            p.index_range = lo..=hi;
            let parse = |t: &str| match via(t) {
                _ if custom => p.parse(t),
                2 => k::JSONPathParser::new().parse(t),
                3 => k::JSONPathParser::default().parse(t),
                _ => k::Query::standard(t),
            };
            parse_with!(
                parse,
                |x: &k::Query| Some(ast::c::query_(x)),
                k::errors::JSONPathErrorType,
                |_x: &k::Query| None,
                q,
                re,
                |_e: &k::errors::JSONPathError| None,
                bare
            )
        }
        "D" => {
            use jsonpath_rfc9535_serde as k;
            let p = exts::d::parser(&fs, lo, hi);
            let parse = |t: &str| match via(t) {
                _ if custom => p.parse(t),
                2 => k::JSONPathParser::new().parse(t),
                3 => k::JSONPathParser::default().parse(t),
                _ => k::Query::standard(t),
            };
            parse_with!(
                parse,
                |x: &k::Query| Some(ast::d::query_(x)),
                k::errors::JSONPathErrorType,
                |x: &k::Query| Some(x.is_empty()),
                q,
                re,
                |_e: &k::errors::JSONPathError| None,
                bare
            )
        }
        "E" => {
            use jsonpath_rfc9535_iter as k;
            let p = exts::e::parser(&fs, lo, hi);
            let parse = |t: &str| match via(t) {
                _ if custom => p.parse(t),
                2 => k::JSONPathParser::new().parse(t),
                3 => k::JSONPathParser::default().parse(t),
                _ => k::Query::standard(t),
            };
            parse_with!(
                parse,
                |x: &k::Query| Some(ast::e::query_(x)),
                k::errors::JSONPathErrorType,
                |x: &k::Query| Some(x.is_empty()),
                q,
                re,
                |_e: &k::errors::JSONPathError| None,
                bare
            )
        }
        "F" => {
            use jsonpath_rfc9535_locations as k;
            let p = exts::f::parser(&fs, lo, hi);
            let parse = |t: &str| match via(t) {
                _ if custom => p.parse(t),
                2 => k::JSONPathParser::new().parse(t),
                3 => k::JSONPathParser::default().parse(t),
                _ => k::Query::standard(t),
            };
            parse_with!(
                parse,
                |x: &k::Query| dbg::tree(&format!("{:?}", x)),
                k::errors::JSONPathErrorType,
                |x: &k::Query| Some(x.is_empty()),
                q,
                re,
                |_e: &k::errors::JSONPathError| None,
                bare
            )
        }
        "G" => {
            use jsonpath_rfc9535_singular as k;
            let p = exts::g::parser(&fs, lo, hi);
            let parse = |t: &str| match via(t) {
                _ if custom => p.parse(t),
                2 => k::JSONPathParser::new().parse(t),
                3 => k::JSONPathParser::default().parse(t),
                _ => k::Query::standard(t),
            };
            parse_with!(
                parse,
                |x: &k::Query| dbg::tree(&format!("{:?}", x)),
                k::errors::JSONPathErrorType,
                |x: &k::Query| Some(x.is_empty()),
                q,
                re,
                |_e: &k::errors::JSONPathError| None,
                bare
            )
        }
        _ => json!({"ok":-2}),
    }
}

fn nodes_str<'a>(
    it: impl Iterator<Item = (&'a J, String)>,
    d: &Doc,
    paths: bool,
) -> J {
    let mut ids = Vec::new();
    let mut ps = Vec::new();
    for (v, p) in it {
        ids.push(d.id(v));
        if paths {
            ps.push(num::cps(&p));
        }
    }
    if paths {
        json!({"ok":1,"ids":ids,"paths":ps})
    } else {
        json!({"ok":1,"ids":ids})
    }
}

/// One evaluation of `q` on `v` by evaluator `c`. With `ext`, the environment
/// and parser that know the custom functions of exts.rs are used.
fn eval_one(c: &str, q: &str, v: &J, d: &Doc, paths: bool, ext: bool) -> J {
    eval_in(c, q, v, d, paths, ext, None)
}

/// The same with a parser for a range of index integers.
fn eval_in(c: &str, q: &str, v: &J, d: &Doc, paths: bool, ext: bool, range: Option<(i64, i64)>) -> J {
    let err = || json!({"ok":0});
    if let Some((lo, hi)) = range {
        return guarded(|| match c {
            "D" | "L" => {
                let r = exts::d::parser(&[], lo, hi).parse(q).and_then(|x| {
                    if c == "D" {
                        x.find(v, &exts::d::ENV)
                    } else {
                        x.find_loop(v, &exts::d::ENV)
                    }
                });
                match r {
                    Err(_) => err(),
                    Ok(ns) => nodes_str(ns.iter().map(|n| (n.value, n.location.clone())), d, paths),
                }
            }
            "E" => match exts::e::parser(&[], lo, hi).parse(q) {
                Err(_) => err(),
                Ok(x) => {
                    let ns = jsonpath_rfc9535_iter::iter::QueryIter::new(&exts::e::ENV, v, x);
                    nodes_str(ns.map(|n| (n.value, n.location.clone())), d, paths)
                }
            },
            "F" => match exts::f::parser(&[], lo, hi).parse(q).map(|x| x.find(v, &exts::f::ENV)) {
                Err(_) => err(),
                Ok(ns) => nodes_str(ns.iter().map(|n| (n.value, n.path())), d, paths),
            },
            _ => match exts::g::parser(&[], lo, hi).parse(q).map(|x| x.find(v, &exts::g::ENV)) {
                Err(_) => err(),
                Ok(ns) => nodes_str(ns.iter().map(|n| (n.value, n.path())), d, paths),
            },
        });
    }
    guarded(|| match c {
        "D" | "L" => {
            use jsonpath_rfc9535_serde as k;
            let r = if ext {
                exts::d::PARSER.parse(q).and_then(|x| {
                    if c == "D" {
                        x.find(v, &exts::d::ENV)
                    } else {
                        x.find_loop(v, &exts::d::ENV)
                    }
                })
            } else if c == "D" {
                match via(q) {
                    2 => exts::d::STD.find(q, v),
                    3 => k::Query::standard(q).and_then(|x| x.find(v, &exts::d::STD)),
                    _ => k::find(q, v),
                }
            } else {
                match via(q) {
                    2 => exts::d::STD.find_loop(q, v),
                    3 => k::Query::standard(q).and_then(|x| x.find_loop(v, &exts::d::STD)),
                    _ => k::find_loop(q, v),
                }
            };
            match r {
                Err(_) => err(),
                Ok(ns) => nodes_str(ns.iter().map(|n| (n.value, n.location.clone())), d, paths),
            }
        }
        "E" => {
            use jsonpath_rfc9535_iter as k;
            let r = if ext {
                exts::e::PARSER
                    .parse(q)
                    .map(|x| k::iter::QueryIter::new(&exts::e::ENV, v, x))
            } else {
                match via(q) {
                    2 => exts::e::STD.find(q, v),
                    3 => k::Query::standard(q).map(|x| k::iter::QueryIter::new(&exts::e::STD, v, x)),
                    _ => k::find(q, v),
                }
            };
            match r {
                Err(_) => err(),
                Ok(ns) => nodes_str(ns.map(|n| (n.value, n.location.clone())), d, paths),
            }
        }
        "F" => {
            use jsonpath_rfc9535_locations as k;
            let r = if ext {
                exts::f::PARSER.parse(q).map(|x| x.find(v, &exts::f::ENV))
            } else {
                match via(q) {
                    2 => exts::f::STD.find(q, v),
                    3 => k::Query::standard(q).map(|x| x.find(v, &*DEF_F)),
                    _ => k::find(q, v),
                }
            };
            match r {
                Err(_) => err(),
                Ok(ns) => nodes_str(ns.iter().map(|n| (n.value, n.path())), d, paths),
            }
        }
        "G" => {
            use jsonpath_rfc9535_singular as k;
            let r = if ext {
                exts::g::PARSER.parse(q).map(|x| x.find(v, &exts::g::ENV))
            } else {
                match via(q) {
                    2 => exts::g::STD.find(q, v),
                    3 => k::Query::standard(q).map(|x| x.find(v, &*DEF_G)),
                    _ => k::find(q, v),
                }
            };
            match r {
                Err(_) => err(),
                Ok(ns) => nodes_str(ns.iter().map(|n| (n.value, n.path())), d, paths),
            }
        }
        _ => json!({"ok":-2}),
    })
}

fn crates(job: &J, default: &str) -> Vec<String> {
    job["cr"]
        .as_str()
        .unwrap_or(default)
        .chars()
        .map(|c| c.to_string())
        .collect()
}

fn run(job: &J) -> J {
    let mut out = json!({"id": job["id"]});
    match job["op"].as_str().unwrap() {
        "parse" => {
            let q = job["q"].as_str().unwrap();
            out["q"] = json!(num::cps(q));
            let mut r = json!({});
            for c in crates(job, "ABCDEFG") {
                r[&c] = parse_one(&c, q, job);
            }
            out["r"] = r;
        }
        "eval" => {
            let q = job["q"].as_str().unwrap();
            let v = match job.get("dt") {
                Some(J::String(t)) => serde_json::from_str(t).unwrap(),
                _ => job["doc"].clone(),
            };
            let d = Doc::new(&v);
            out["q"] = json!(num::cps(q));
            let paths = job["paths"].as_bool().unwrap_or(false);
            let ext = job["ext"].as_bool().unwrap_or(false);
            let mut r = json!({});
            for c in crates(job, "DLEFG") {
                r[&c] = match job["keep"].as_u64() {
                    Some(seed) if c == "F" || c == "G" => guarded(|| state::keep(&c, q, &v, &d, seed)),
                    _ => eval_in(&c, q, &v, &d, paths, ext, job["lo"].as_i64().zip(job["hi"].as_i64())),
                };
            }
            out["r"] = r;
            out["doc"] = J::Array(d.table);
        }
        "cons" => {
            let mut r = json!({});
            for c in crates(job, "FG") {
                r[&c] = guarded(|| state::cons(&c, job));
            }
            out["r"] = r;
        }
        "iters" => {
            let v: J = serde_json::from_str(job["dt"].as_str().unwrap()).unwrap();
            let d = Doc::new(&v);
            out["r"] = guarded(|| state::iters(&v, &d, job));
            out["qs"] = job["qs"].as_array().unwrap().iter().map(|q| json!(num::cps(q.as_str().unwrap()))).collect();
            out["doc"] = J::Array(d.table);
        }
        "scale" => {
            let mut r = json!({});
            for c in crates(job, "ABCDLEFG") {
                r[&c] = guarded(|| scale::run(&c, job));
            }
            out["r"] = r;
        }
        "session" => {
            let docs: Vec<J> = job["docs"].as_array().unwrap().iter().map(|t| serde_json::from_str(t.as_str().unwrap()).unwrap()).collect();
            let ds: Vec<Doc> = docs.iter().map(Doc::new).collect();
            let mut r = json!({});
            for c in crates(job, "ABCDLEFG") {
                r[&c] = guarded(|| session::run(&c, job["ops"].as_array().unwrap(), &docs, &ds));
            }
            out["r"] = r;
            out["docs"] = ds.into_iter().map(|d| J::Array(d.table)).collect();
        }
        "threads" => out["r"] = threads(job),
        "soak" => out["r"] = soak(job),
        "seq" => out["r"] = job["jobs"].as_array().unwrap().iter().map(run).collect(),
        "lex" => {
            let q = job["q"].as_str().unwrap();
            out["q"] = json!(num::cps(q));
            out["r"] = guarded(|| state::lex(q));
        }
        _ => out["bad"] = json!(true),
    }
    out
}

/// Every thread works through its tasks, all at the same time, over shared
/// documents and through the shared environments.
fn threads(job: &J) -> J {
    let docs: Vec<J> = job["docs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|t| serde_json::from_str(t.as_str().unwrap()).unwrap())
        .collect();
    let tasks = job["tasks"].as_array().unwrap();
    let barrier = std::sync::Barrier::new(tasks.len());
    let ext = job["ext"].as_bool().unwrap_or(false);
    let res: Vec<J> = std::thread::scope(|s| {
        let hs: Vec<_> = tasks
            .iter()
            .map(|ts| {
                let (docs, barrier) = (&docs, &barrier);
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, move || {
                        let tables: Vec<Doc> = docs.iter().map(Doc::new).collect();
                        barrier.wait();
                        let mut out = Vec::new();
                        for t in ts.as_array().unwrap() {
                            let k = t["d"].as_u64().unwrap() as usize;
                            let mut r = json!({});
                            for c in t["c"].as_str().unwrap().chars() {
                                let c = c.to_string();
                                r[&c] = eval_one(&c, t["q"].as_str().unwrap(), &docs[k], &tables[k], false, ext);
                            }
                            out.push(r);
                        }
                        J::Array(out)
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(J::Null)).collect()
    });
    let tables: Vec<J> = docs.iter().map(|d| J::Array(Doc::new(d).table)).collect();
    json!({"res": res, "docs": tables})
}

/// `n` calls one after the other, of the given items in an order that `seed`
/// determines: all different answers to every item, with the call that gave them first.
fn soak(job: &J) -> J {
    let docs: Vec<J> = job["docs"].as_array().unwrap().iter().map(|t| serde_json::from_str(t.as_str().unwrap()).unwrap()).collect();
    let tables: Vec<Doc> = docs.iter().map(Doc::new).collect();
    let items = job["items"].as_array().unwrap();
    let c = job["c"].as_str().unwrap();
    let mut x = job["seed"].as_u64().unwrap() | 1;
    let mut res: Vec<Vec<(J, u64)>> = vec![vec![]; items.len()];
    for k in 0..job["n"].as_u64().unwrap() {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        let i = (x >> 11) as usize % items.len();
        let d = items[i]["d"].as_u64().unwrap() as usize;
        let r = eval_one(c, items[i]["q"].as_str().unwrap(), &docs[d], &tables[d], false, false);
        if !res[i].iter().any(|(o, _)| *o == r) && res[i].len() < 4 {
            res[i].push((r, k));
        }
    }
    json!({"res": res, "docs": tables.into_iter().map(|d| J::Array(d.table)).collect::<Vec<J>>()})
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let t = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(|| {
            let stdin = std::io::stdin();
            let stdout = std::io::stdout();
            let mut o = stdout.lock();
            for line in stdin.lock().lines() {
                let line = line.unwrap();
                if line.is_empty() {
                    continue;
                }
                let job: J = serde_json::from_str(&line).unwrap();
                let r = run(&job);
                serde_json::to_writer(&mut o, &r).unwrap();
                o.write_all(b"\n").unwrap();
                o.flush().unwrap();
            }
        })
        .unwrap();
    t.join().unwrap();
}
