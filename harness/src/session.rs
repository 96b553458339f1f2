//! Sessions: parsers that are configured and used again and again, queries
//! that are kept and evaluated on several documents in several environments.
//! The specification of a session is spec/Session.tla.
use crate::{ast, dbg, doc::Doc, exts};
use serde_json::{json, Value as J};

/// The nodes (by address), an error, or no evaluator.
type Answer = Option<Result<Vec<*const J>, ()>>;

macro_rules! session {
    ($ops:expr, $docs:expr, $ds:expr, $new:expr, $ty:path, $add:expr, $tree:expr, $kind:path, $Q:ty, $eval:expr, $find:expr) => {{
        use $kind as K;
        use $ty as T;
        let ty = |c: char| match c {
            'V' => T::Value,
            'L' => T::Logical,
            _ => T::Nodes,
        };
        let mut ps = vec![$new, $new];
        let mut qs: Vec<Option<$Q>> = vec![None, None, None];
        let at = |o: &J, k: &str| o[k].as_u64().unwrap() as usize - 1;
        let mut outs = vec![];
        for o in $ops {
            outs.push(match o["o"].as_str().unwrap() {
                "fn" => {
                    let params = o["ps"].as_str().unwrap().chars().map(ty).collect();
                    $add(&mut ps[at(o, "p")], o["n"].as_str().unwrap(), params, ty(o["r"].as_str().unwrap().chars().next().unwrap()));
                    json!({})
                }
                "range" => {
                    ps[at(o, "p")].index_range = o["lo"].as_i64().unwrap()..=o["hi"].as_i64().unwrap();
                    json!({})
                }
                "parse" => match ps[at(o, "p")].parse(o["t"].as_str().unwrap()) {
                    Ok(q) => {
                        let t: Option<J> = $tree(&q);
                        let sing = q.is_singular();
                        qs[at(o, "q")] = Some(q);
                        json!({"ok": 1, "kind": "", "ast": t.into_iter().collect::<Vec<J>>(), "sing": sing})
                    }
                    Err(e) => {
                        let kind = match e.kind {
                            K::LexerError | K::SyntaxError => "syntax",
                            K::TypeError => "type",
                            K::NameError => "name",
                        };
                        json!({"ok": 0, "kind": kind, "ast": [], "sing": false})
                    }
                },
                _ => {
                    let d = at(o, "d");
                    let r: Answer = match o["t"].as_str() {
                        Some(t) => $find(t, &$docs[d], at(o, "e")),
                        None => match &qs[at(o, "q")] {
                            None => Some(Err(())),
                            Some(q) => $eval(q, &$docs[d], at(o, "e")),
                        },
                    };
                    match r {
                        None => json!({"ok": 2, "ids": []}),
                        Some(Err(())) => json!({"ok": 0, "ids": []}),
                        Some(Ok(ns)) => json!({"ok": 1, "ids": ns.into_iter().map(|v| $ds[d].at(v)).collect::<Vec<_>>()}),
                    }
                }
            });
        }
        json!({"ok": 1, "outs": outs})
    }};
}

macro_rules! no_eval {
    () => {
        |_, _, _| -> Answer { None }
    };
}

macro_rules! insert {
    ($f:path, $p:ty) => {
        |p: &mut $p, n: &str, param_types, return_type| {
            use $f as F;
            p.functions.insert(n.to_string(), F { param_types, return_type });
        }
    };
}

pub fn run(c: &str, ops: &[J], docs: &[J], ds: &[Doc]) -> J {
    match c {
        "A" => {
            use jsonpath_rfc9535 as k;
            session!(ops, docs, ds, k::Parser::new(), k::ExpressionType, |p: &mut k::Parser, n: &str, a, r| p.add_function(n, a, r), |q: &k::Query| Some(ast::a::query_(q)), k::JSONPathErrorType, k::Query, no_eval!(), no_eval!())
        }
        "B" => {
            use jsonpath_rfc9535_pest as k;
            session!(ops, docs, ds, k::JSONPathParser::new(), k::parser::ExpressionType, insert!(k::parser::FunctionSignature, k::JSONPathParser), |q: &k::Query| Some(ast::b::query_(q)), k::errors::JSONPathErrorType, k::Query, no_eval!(), no_eval!())
        }
        "C" => {
            use jsonpath_rfc9535_pest_recursive as k;
            session!(ops, docs, ds, k::JSONPathParser::new(), k::parser::ExpressionType, |p: &mut k::JSONPathParser, n: &str, a, r| p.add_function(n, a, r), |q: &k::Query| Some(ast::c::query_(q)), k::errors::JSONPathErrorType, k::Query, no_eval!(), no_eval!())
        }
        "D" | "L" => {
            use jsonpath_rfc9535_serde as k;
            let eval = |q: &k::Query, v: &J, e: usize| -> Answer {
                let env = if e == 0 { &*exts::d::ENV } else { &*exts::d::ENV2 };
                let r = if c == "D" { q.find(v, env) } else { q.find_loop(v, env) };
                Some(r.map(|ns| ns.iter().map(|n| n.value as *const J).collect()).map_err(|_| ()))
            };
            let find = |t: &str, v: &J, e: usize| -> Answer {
                let env = if e == 0 { &*exts::d::ENV } else { &*exts::d::ENV2 };
                let r = if c == "D" { env.find(t, v) } else { env.find_loop(t, v) };
                Some(r.map(|ns| ns.iter().map(|n| n.value as *const J).collect()).map_err(|_| ()))
            };
            session!(ops, docs, ds, k::JSONPathParser::new(), k::function::ExpressionType, insert!(k::function::FunctionSignature, k::JSONPathParser), |q: &k::Query| Some(ast::d::query_(q)), k::errors::JSONPathErrorType, k::Query, eval, find)
        }
        "E" => {
            use jsonpath_rfc9535_iter as k;
            let eval = |q: &k::Query, v: &J, e: usize| -> Answer {
                let env = if e == 0 { &*exts::e::ENV } else { &*exts::e::ENV2 };
                Some(Ok(k::iter::QueryIter::new(env, v, q.clone()).map(|n| n.value as *const J).collect()))
            };
            let find = |t: &str, v: &J, e: usize| -> Answer {
                let env = if e == 0 { &*exts::e::ENV } else { &*exts::e::ENV2 };
                Some(env.find(t, v).map(|ns| ns.map(|n| n.value as *const J).collect()).map_err(|_| ()))
            };
            session!(ops, docs, ds, k::JSONPathParser::new(), k::function::ExpressionType, insert!(k::function::FunctionSignature, k::JSONPathParser), |q: &k::Query| Some(ast::e::query_(q)), k::errors::JSONPathErrorType, k::Query, eval, find)
        }
        "F" => {
            use jsonpath_rfc9535_locations as k;
            let eval = |q: &k::Query, v: &J, e: usize| -> Answer {
                let env = if e == 0 { &*exts::f::ENV } else { &*exts::f::ENV2 };
                Some(Ok(q.find(v, env).iter().map(|n| n.value as *const J).collect()))
            };
            let find = |t: &str, v: &J, e: usize| -> Answer {
                let env = if e == 0 { &*exts::f::ENV } else { &*exts::f::ENV2 };
                Some(env.find(t, v).map(|ns| ns.iter().map(|n| n.value as *const J).collect()).map_err(|_| ()))
            };
            session!(ops, docs, ds, k::JSONPathParser::new(), k::function::ExpressionType, insert!(k::function::FunctionSignature, k::JSONPathParser), |q: &k::Query| dbg::tree(&format!("{:?}", q)), k::errors::JSONPathErrorType, k::Query, eval, find)
        }
        _ => {
            use jsonpath_rfc9535_singular as k;
            let eval = |q: &k::Query, v: &J, e: usize| -> Answer {
                let env = if e == 0 { &*exts::g::ENV } else { &*exts::g::ENV2 };
                Some(Ok(q.find(v, env).iter().map(|n| n.value as *const J).collect()))
            };
            let find = |t: &str, v: &J, e: usize| -> Answer {
                let env = if e == 0 { &*exts::g::ENV } else { &*exts::g::ENV2 };
                Some(env.find(t, v).map(|ns| ns.iter().map(|n| n.value as *const J).collect()).map_err(|_| ()))
            };
            session!(ops, docs, ds, k::JSONPathParser::new(), k::function::ExpressionType, insert!(k::function::FunctionSignature, k::JSONPathParser), |q: &k::Query| dbg::tree(&format!("{:?}", q)), k::errors::JSONPathErrorType, k::Query, eval, find)
        }
    }
}
