//! Operations with state: persistent lists, interleaved iterators, threads, tokens.
use crate::doc::Doc;
use crate::num;
use serde_json::{json, Value as J};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

#[allow(dead_code)]
#[path = "/repo/crates/jsonpath_rfc9535_locations/src/conslist.rs"]
mod list_f;
#[allow(dead_code)]
#[path = "/repo/crates/jsonpath_rfc9535_singular_selector/src/conslist.rs"]
mod list_g;

/// A list element that counts how many of its kind are alive. 9 is not equal
/// or comparable to anything, like a NaN.
struct E {
    v: i64,
    live: Rc<Cell<i64>>,
}

impl E {
    fn new(v: i64, live: &Rc<Cell<i64>>) -> E {
        live.set(live.get() + 1);
        E {
            v,
            live: live.clone(),
        }
    }
}

impl Clone for E {
    fn clone(&self) -> E {
        E::new(self.v, &self.live)
    }
}

impl Drop for E {
    fn drop(&mut self) {
        self.live.set(self.live.get() - 1);
    }
}

impl PartialEq for E {
    fn eq(&self, o: &E) -> bool {
        self.v == o.v && self.v != 9
    }
}

impl PartialOrd for E {
    fn partial_cmp(&self, o: &E) -> Option<Ordering> {
        if self.v == 9 || o.v == 9 {
            None
        } else {
            self.v.partial_cmp(&o.v)
        }
    }
}

impl Hash for E {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.v.hash(h);
    }
}

impl std::fmt::Debug for E {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.v)
    }
}

macro_rules! cons_op {
    ($name:ident, $m:ident) => {
        fn $name(job: &J) -> J {
            type L = $m::ConsList<E>;
            let live = Rc::new(Cell::new(0i64));
            let n = job["regs"].as_u64().unwrap() as usize;
            let mut regs: Vec<Option<L>> = (0..n).map(|_| None).collect();
            let brief = job["brief"].as_bool().unwrap_or(false);
            let mut obs = Vec::new();
            for o in job["ops"].as_array().unwrap() {
                let g = |k: &str| o[k].as_i64().unwrap_or(0);
                let r = g("r") as usize - 1;
                let s = || regs[g("s") as usize - 1].as_ref().unwrap();
                let new: Option<L> = match o["op"].as_str().unwrap() {
                    "new" => Some(L::new()),
                    "default" => Some(L::default()),
                    "append" => Some(s().append(E::new(g("x"), &live))),
                    "tail" => Some(s().tail()),
                    "tailn" => Some(s().tailn(g("n") as usize)),
                    "lastn" => Some(s().lastn(g("n") as usize)),
                    "clone" => Some(s().clone()),
                    "collect" => Some(
                        o["xs"]
                            .as_array()
                            .unwrap()
                            .iter()
                            .map(|x| E::new(x.as_i64().unwrap(), &live))
                            .collect(),
                    ),
                    "count" => Some((1..=g("n")).map(|v| E::new(v, &live)).collect()),
                    "drop" => None,
                    x => panic!("{x}"),
                };
                regs[r] = new;
                let one = |l: &Option<L>| match l {
                    None => json!({"on": false, "len": 0, "empty": true, "head": [], "last": []}),
                    Some(l) => {
                        let mut x = json!({
                            "on": true, "len": l.len(), "empty": l.is_empty(),
                            "head": l.head().map(|e| e.v).into_iter().collect::<Vec<_>>(),
                            "last": l.last().map(|e| e.v).into_iter().collect::<Vec<_>>(),
                        });
                        if !brief {
                            let xs: Vec<i64> = l.iter().map(|e| e.v).collect();
                            let ys: Vec<i64> = l.into_iter().map(|e| e.v).collect();
                            let mut it = l.iter();
                            let mut hints = Vec::new();
                            let mut zs = Vec::new();
                            loop {
                                let h = it.size_hint();
                                hints.push(json!([h.0, h.1.map(|v| v as i64).unwrap_or(-1), it.clone().count()]));
                                match it.next() {
                                    Some(e) => zs.push(e.v),
                                    None => break,
                                }
                            }
                            let fused = it.next().is_none() && it.next().is_none();
                            let dbg = format!("{:?}", l) == format!("{:?}", xs);
                            x["xs"] = json!(xs);
                            x["alike"] = json!(xs == ys && xs == zs && fused && dbg);
                            x["hints"] = json!(hints);
                        }
                        x
                    }
                };
                let lists: Vec<J> = regs.iter().map(one).collect();
                let mut pairs = Vec::new();
                if !brief {
                    for i in 0..n {
                        for k in 0..n {
                            if let (Some(a), Some(b)) = (&regs[i], &regs[k]) {
                                let h = |l: &L| {
                                    let mut h = DefaultHasher::new();
                                    l.hash(&mut h);
                                    h.finish()
                                };
                                // the plain sequence of the elements of the other list
                                let plain = {
                                    let mut h = DefaultHasher::new();
                                    b.iter().map(|e| e.v).collect::<Vec<i64>>().hash(&mut h);
                                    h.finish()
                                };
                                pairs.push(json!({"i": i + 1, "k": k + 1, "eq": a == b, "ne": a != b, "h": h(a) == h(b) && h(a) == plain,
                                    "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b,
                                    "c": match a.partial_cmp(b) { None => "none", Some(Ordering::Less) => "lt", Some(Ordering::Equal) => "eq", _ => "gt" }}));
                            }
                        }
                    }
                }
                obs.push(json!({"lists": lists, "pairs": pairs, "live": live.get()}));
            }
            drop(regs);
            json!({"obs": obs, "left": live.get()})
        }
    };
}
cons_op!(cons_f, list_f);
cons_op!(cons_g, list_g);

pub fn cons(c: &str, job: &J) -> J {
    match c {
        "F" => cons_f(job),
        _ => cons_g(job),
    }
}

/// Several lazy iterators over one document, driven by a schedule.
pub fn iters(v: &J, d: &Doc, job: &J) -> J {
    use jsonpath_rfc9535_iter as k;
    type N<'a> = Rc<k::node::Node<'a>>;
    let qs: Vec<k::Query> = job["qs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|q| k::Query::standard(q.as_str().unwrap()).unwrap())
        .collect();
    let mut slots: Vec<Option<k::iter::QueryIter>> = Vec::new();
    for _ in 0..job["slots"].as_u64().unwrap() {
        slots.push(None);
    }
    let mut kept: Vec<N> = Vec::new();
    let mut seen: Vec<(usize, String)> = Vec::new();
    let mut outs = Vec::new();
    for a in job["acts"].as_array().unwrap() {
        let i = a["i"].as_u64().unwrap() as usize - 1;
        let n = a["k"].as_u64().unwrap_or(0) as usize;
        let mut got: Vec<N> = Vec::new();
        let mut count = -1i64;
        let mut hint = vec![0i64, -1];
        match a["a"].as_str().unwrap() {
            "new" => {
                let q = a["k"].as_u64().unwrap() as usize - 1;
                slots[i] = Some(if job["text"].as_bool().unwrap_or(false) {
                    k::find(job["qs"][q].as_str().unwrap(), v).unwrap()
                } else {
                    k::iter::QueryIter::new(&crate::exts::e::ENV, v, qs[q].clone())
                });
            }
            "drop" => slots[i] = None,
            // by value: the iterator is used up
            "collect" => got = slots[i].take().unwrap().collect(),
            "fold" => slots[i].take().unwrap().for_each(|x| got.push(x)),
            "sum" => count = slots[i].take().unwrap().count() as i64,
            "end" => got.extend(slots[i].take().unwrap().last()),
            "map" => {
                got = slots[i]
                    .take()
                    .unwrap()
                    .enumerate()
                    .filter(|(j, _)| j % 2 == 0)
                    .map(|(_, x)| x)
                    .take(n)
                    .collect()
            }
            "parts" => {
                let mut j = 0;
                let (a, b): (Vec<N>, Vec<N>) = slots[i].take().unwrap().partition(|_| {
                    j += 1;
                    j <= n
                });
                got = a;
                got.extend(b);
            }
            "max" => {
                let mut j = 0;
                got.extend(slots[i].take().unwrap().max_by_key(|_| {
                    j += 1;
                    j
                }));
            }
            "min" => {
                let mut j = 0;
                got.extend(slots[i].take().unwrap().reduce(|a, b| {
                    j += 1;
                    if j <= n {
                        b
                    } else {
                        a
                    }
                }));
            }
            act => {
                let it = slots[i].as_mut().unwrap();
                match act {
                    "next" => got.extend(it.next()),
                    "nth" => got.extend(it.nth(n)),
                    "take" => got.extend(it.by_ref().take(n)),
                    "skip" => got.extend(it.by_ref().skip(n).next()),
                    "step" => got.extend(it.by_ref().step_by(n).take(2)),
                    "peek" => {
                        let mut p = it.by_ref().peekable();
                        p.peek();
                        p.peek();
                        got.extend(p.next());
                    }
                    "rest" => got.extend(it.by_ref()),
                    "for" => {
                        for x in it.by_ref() {
                            got.push(x);
                            if got.len() == n {
                                break;
                            }
                        }
                    }
                    "fuse" => {
                        let mut f = it.by_ref().fuse();
                        got.extend(f.next());
                        got.extend(f.next());
                    }
                    "find" => {
                        let mut j = 0;
                        got.extend(it.find(|_| {
                            j += 1;
                            j > n
                        }))
                    }
                    "pos" => {
                        let mut j = 0;
                        count = it
                            .position(|_| {
                                j += 1;
                                j > n
                            })
                            .map(|x| x as i64)
                            .unwrap_or(-1)
                    }
                    "any" => {
                        count = it.any(|x| {
                            got.push(x);
                            got.len() > n
                        }) as i64
                    }
                    "all" => {
                        count = it.all(|x| {
                            got.push(x);
                            got.len() <= n
                        }) as i64
                    }
                    "tfold" => {
                        let f: Result<(), ()> = it.try_for_each(|x| {
                            got.push(x);
                            if got.len() > n {
                                Err(())
                            } else {
                                Ok(())
                            }
                        });
                        count = f.is_err() as i64;
                    }
                    "count" => count = it.by_ref().count() as i64,
                    "last" => got.extend(it.by_ref().last()),
                    "hint" => {
                        let h = it.size_hint();
                        hint = vec![h.0 as i64, h.1.map(|x| x as i64).unwrap_or(-1)];
                    }
                    x => panic!("{x}"),
                }
            }
        }
        outs.push(json!({
            "ids": got.iter().map(|n| d.id(n.value)).collect::<Vec<_>>(),
            "paths": got.iter().map(|n| num::cps(&n.location)).collect::<Vec<_>>(),
            "n": count, "lo": hint[0], "hi": hint[1]
        }));
        for x in got {
            seen.push((d.id(x.value), x.location.clone()));
            kept.push(x);
        }
    }
    drop(slots);
    drop(qs);
    let same = kept
        .iter()
        .zip(&seen)
        .all(|(n, (id, l))| d.id(n.value) == *id && n.location == *l);
    json!({"outs": outs, "kept": same})
}

/// The tokens of the hand-written lexer, spans counted in characters (-1: not
/// in bounds or inside a character).
pub fn lex(q: &str) -> J {
    use jsonpath_rfc9535::token::TokenType as T;
    let at = |i: usize| -> i64 {
        if i > q.len() || !q.is_char_boundary(i) {
            -1
        } else {
            q[..i].chars().count() as i64
        }
    };
    let ts: Vec<J> = jsonpath_rfc9535::lexer::tokenize(q)
        .iter()
        .map(|t| {
            let (k, v): (&str, Option<&str>) = match &t.kind {
                T::Eoq => ("eoq", None),
                T::Error { msg: _ } => ("error", None),
                T::Colon => (":", None),
                T::Comma => (",", None),
                T::DoubleDot => ("..", None),
                T::Filter => ("?", None),
                T::Index { value } => ("index", Some(value)),
                T::LBracket => ("[", None),
                T::Name { value } => ("name", Some(value)),
                T::RBracket => ("]", None),
                T::Root => ("$", None),
                T::Wild => ("*", None),
                T::And => ("&&", None),
                T::Current => ("@", None),
                T::DoubleQuoteString { value } => ("dq", Some(value)),
                T::Eq => ("==", None),
                T::False => ("false", None),
                T::Float { value } => ("float", Some(value)),
                T::Function { name } => ("fn", Some(name)),
                T::Ge => (">=", None),
                T::Gt => (">", None),
                T::Int { value } => ("int", Some(value)),
                T::Le => ("<=", None),
                T::LParen => ("(", None),
                T::Lt => ("<", None),
                T::Ne => ("!=", None),
                T::Not => ("!", None),
                T::Null => ("null", None),
                T::Or => ("||", None),
                T::RParen => (")", None),
                T::SingleQuoteString { value } => ("sq", Some(value)),
                T::True => ("true", None),
            };
            let shown = !t.kind.to_string().is_empty();
            json!({"k": k, "v": v.map(num::cps).unwrap_or_default(), "lo": at(t.span.0), "hi": at(t.span.1), "shown": shown})
        })
        .collect();
    let l = match jsonpath_rfc9535::lexer::lex(q) {
        Ok(ts) => json!({"ok": 1, "n": ts.len(), "lo": 0, "hi": 0}),
        Err(e) => json!({"ok": 0, "n": 0, "lo": at(e.span.0), "hi": at(e.span.1)}),
    };
    // the syntax tree as a list of anchors in text order, or the error
    let tree = match jsonpath_rfc9535::Query::standard(q) {
        Ok(x) => {
            let mut out = Vec::new();
            anchors_query(&x, &at, &mut out);
            json!({"ok": 1, "anchors": out, "kind": "", "lo": 0, "hi": 0})
        }
        Err(e) => {
            use jsonpath_rfc9535::JSONPathErrorType as K;
            let kind = match e.kind {
                K::LexerError => "lexer",
                K::SyntaxError => "syntax",
                K::TypeError => "type",
                K::NameError => "name",
            };
            json!({"ok": 0, "anchors": [], "kind": kind, "lo": at(e.span.0), "hi": at(e.span.1)})
        }
    };
    json!({"toks": ts, "lex": l, "tree": tree})
}

type At<'a> = &'a dyn Fn(usize) -> i64;

fn anchors_query(q: &jsonpath_rfc9535::Query, at: At, out: &mut Vec<J>) {
    use jsonpath_rfc9535::query::{Segment as G, Selector as S};
    for s in &q.segments {
        let sels = match s {
            G::Child { span, selectors } => {
                out.push(json!({"k": "seg", "lo": at(span.0), "hi": at(span.1)}));
                selectors
            }
            G::Recursive { span, selectors } => {
                out.push(json!({"k": "..", "lo": at(span.0), "hi": at(span.1)}));
                selectors
            }
        };
        for x in sels {
            let mut put = |k: &str, s: &(usize, usize)| {
                out.push(json!({"k": k, "lo": at(s.0), "hi": at(s.1)}));
                out.len() - 1
            };
            match x {
                S::Name { span, name } => {
                    let i = put("name", span);
                    out[i]["v"] = json!(num::cps(name));
                }
                S::Index { span, index } => {
                    let i = put("index", span);
                    out[i]["v"] = num::int(*index);
                }
                S::Slice { span, start, stop, step } => {
                    let i = put("slice", span);
                    let o = |x: &Option<i64>| match x {
                        None => json!([]),
                        Some(v) => json!([num::int(*v)]),
                    };
                    out[i]["v"] = json!([o(start), o(stop), o(step)]);
                }
                S::Wild { span } => {
                    put("*", span);
                }
                S::Filter { span, expression } => {
                    put("?", span);
                    anchors_expr(expression, at, out);
                }
            }
        }
    }
}

fn anchors_expr(e: &jsonpath_rfc9535::query::FilterExpression, at: At, out: &mut Vec<J>) {
    use jsonpath_rfc9535::query::FilterExpression as X;
    let s = e.span();
    let mut put = |k: &str, v: J| {
        let mut o = json!({"k": k, "lo": at(s.0), "hi": at(s.1)});
        if !v.is_null() {
            o["v"] = v;
        }
        out.push(o);
    };
    match e {
        X::True { .. } => put("true", J::Null),
        X::False { .. } => put("false", J::Null),
        X::Null { .. } => put("null", J::Null),
        X::String { value, .. } => put("str", json!(num::cps(value))),
        X::Int { value, .. } => put("num", num::int(*value)),
        X::Float { value, .. } => put("num", num::float(*value)),
        X::Not { expression, .. } => {
            put("!", J::Null);
            anchors_expr(expression, at, out);
        }
        X::Logical { left, right, .. } => {
            put("comp", J::Null);
            anchors_expr(left, at, out);
            anchors_expr(right, at, out);
        }
        X::Comparison { left, right, .. } => {
            put("comp", J::Null);
            anchors_expr(left, at, out);
            anchors_expr(right, at, out);
        }
        X::RelativeQuery { query, .. } => {
            put("@", J::Null);
            anchors_query(query, at, out);
        }
        X::RootQuery { query, .. } => {
            put("$", J::Null);
            anchors_query(query, at, out);
        }
        X::Function { name, args, .. } => {
            put("fn", json!(num::cps(name)));
            for a in args {
                anchors_expr(a, at, out);
            }
        }
    }
}

macro_rules! keep_op {
    ($name:ident, $k:ident) => {
        /// The locations of a query's nodes, kept while everything else they
        /// share structure with is dropped, one by one.
        fn $name(q: &str, v: &J, d: &Doc, seed: u64) -> J {
            let Ok(ns) = $k::find(q, v) else {
                return json!({"ok": 0});
            };
            let n = ns.len();
            let ids: Vec<usize> = ns.iter().map(|x| d.id(x.value)).collect();
            let mut nodes: Vec<Option<$k::node::Node>> = ns.into_iter().map(Some).collect();
            let mut kept = Vec::new();
            let mut x = seed | 1;
            let mut rnd = || {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                x
            };
            for i in 0..n {
                let l = &nodes[i].as_ref().unwrap().location;
                kept.push(match rnd() % 3 {
                    0 => l.clone(),
                    1 => l.append($k::node::PathElement::Index(7)).tail(),
                    _ => l.append($k::node::PathElement::Name(String::from("x"))).append($k::node::PathElement::Index(1)).lastn(l.len()),
                });
                // drop the one of an earlier or later node
                let k = (rnd() % n as u64) as usize;
                if k <= i {
                    nodes[k] = None;
                }
            }
            drop(nodes);
            let mut paths = vec![J::Null; n];
            let mut order: Vec<usize> = (0..n).collect();
            for i in (1..n).rev() {
                order.swap(i, (rnd() % (i as u64 + 1)) as usize);
            }
            let mut kept: Vec<Option<_>> = kept.into_iter().map(Some).collect();
            for i in order {
                let node = $k::node::Node { value: v, location: kept[i].take().unwrap() };
                paths[i] = json!(num::cps(&node.path()));
            }
            json!({"ok": 1, "ids": ids, "paths": paths})
        }
    };
}
keep_op!(keep_f, jsonpath_rfc9535_locations);
keep_op!(keep_g, jsonpath_rfc9535_singular);

pub fn keep(c: &str, q: &str, v: &J, d: &Doc, seed: u64) -> J {
    match c {
        "F" => keep_f(q, v, d, seed),
        _ => keep_g(q, v, d, seed),
    }
}
