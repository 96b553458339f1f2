//! Queries and documents of any size, built from a description.
use crate::doc::Doc;
use serde_json::{json, Value as J};

pub fn text(job: &J) -> String {
    let p: Vec<&str> = job["parts"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| x.as_str().unwrap())
        .collect();
    let n = job["n"].as_u64().unwrap() as usize;
    format!("{}{}{}{}{}", p[0], p[1].repeat(n), p[2], p[3].repeat(n), p[4])
}

fn doc(kind: &str, n: usize) -> J {
    let one = || json!(1);
    let key = |x: J| {
        let mut m = serde_json::Map::new();
        m.insert("a".to_string(), x);
        J::Object(m)
    };
    match kind {
        "one" => one(),
        "deep-a" => (0..n).fold(one(), |x, _| J::Array(vec![x])),
        "deep-o" => (0..n).fold(one(), |x, _| key(x)),
        "deep-m" => (0..n).fold(one(), |x, _| key(J::Array(vec![x]))),
        "wide-a" => J::Array((0..n).map(|_| one()).collect()),
        "wide-o" => J::Object((0..n).map(|i| (format!("k{i}"), one())).collect()),
        "rows" => J::Array((0..n).map(|_| key(one())).collect()),
        // nothing to find but in the last element
        "sparse" => J::Array((0..n).map(|_| json!({})).chain([key(one())]).collect()),
        "sized" => {
            let l = || (0..n).map(|_| one());
            let o = (0..n).map(|i| (format!("k{i}"), one())).collect::<serde_json::Map<String, J>>();
            let m = l().chain([json!(0)]).collect::<Vec<J>>();
            json!([{"k": n, "l": l().collect::<Vec<J>>(), "m": m, "o": o, "s": "é".repeat(n), "t": "é".repeat(n) + "a"}])
        }
        "zero" => json!([0]),
        "emoji" => J::Array(vec![json!("😀".repeat(n))]),
        "str" => J::Array(vec![json!("a".repeat(n))]),
        "keys" => J::Object([("a".repeat(n), one())].into_iter().collect()),
        // a string and n times nested parentheses around a pattern for it
        "pat-paren" => J::Array(vec![json!({"s": "a", "p": "(".repeat(n) + "a" + &")".repeat(n)})]),
        "pat-long" => J::Array(vec![json!({"s": "a".repeat(n), "p": "a".repeat(n)})]),
        "pat-alt" => J::Array(vec![json!({"s": "a", "p": "b|".repeat(n) + "a"})]),
        "pat-class" => J::Array(vec![json!({"s": "a", "p": "[".to_string() + &"b".repeat(n) + "a]"})]),
        "pat-open" => J::Array(vec![json!({"s": "a", "p": "(".repeat(n)})]),
        "pat-star" => J::Array(vec![json!({"s": "a".repeat(n), "p": "(a|aa)*b"})]),
        "pat-opt" => J::Array(vec![json!({"s": "a".repeat(n), "p": "(a?)".repeat(n) + "b"})]),
        k => panic!("{k}"),
    }
}

/// The ids of the nodes as an arithmetic progression, if they are one.
fn progression(d: Option<&Doc>, nodes: &[&J]) -> J {
    let Some(d) = d else {
        return json!({"seen": false, "same": false, "first": 0, "step": 0});
    };
    let ids: Vec<i64> = nodes.iter().map(|v| d.id(v) as i64).collect();
    let step = if ids.len() > 1 { ids[1] - ids[0] } else { 0 };
    let same = ids.iter().all(|i| *i != 0) && ids.windows(2).all(|w| w[1] - w[0] == step);
    json!({"seen": true, "same": same, "first": ids.first().copied().unwrap_or(0), "step": step})
}

/// Some of the positions of a list: the ends, the middle and around powers of two.
fn some(n: usize) -> Vec<usize> {
    let mut at: Vec<usize> = vec![0, 1, 9, 10, 11, 99, 100, 255, 256, 257, 999, 1000, 65535, 65536, n / 2, n.saturating_sub(2), n.saturating_sub(1)];
    at.retain(|i| *i < n);
    at.sort();
    at.dedup();
    at
}

macro_rules! both {
    ($k:ident, $d:expr, $q:expr, $find:expr) => {{
        match $k::Query::standard($q) {
            Err(e) => json!({"ok": 0, "count": 0, "stable": !e.to_string().is_empty(), "ids": progression($d, &[]), "locs": []}),
            Ok(x) => {
                let (nodes, paths): (Vec<&J>, Vec<(usize, String)>) = $find(&x);
                let locs: Vec<J> = match $d {
                    Some(d) => paths.iter().map(|(i, p)| json!({"id": d.id(nodes[*i]), "path": p})).collect(),
                    None => vec![],
                };
                let count = nodes.len();
                let t = x.to_string();
                let stable = match $k::Query::standard(&t) {
                    Ok(y) => y.to_string() == t,
                    Err(_) => false,
                };
                let sing = x.is_singular();
                json!({"ok": 1, "count": count, "stable": stable, "sing": sing, "ids": progression($d, &nodes), "locs": locs})
            }
        }
    }};
}

pub fn run(c: &str, job: &J) -> J {
    let q = text(job);
    let q = q.as_str();
    let n = job["n"].as_u64().unwrap() as usize;
    // never dropped: dropping a deep value is serde_json's affair
    let v: &'static J = Box::leak(Box::new(doc(job["doc"].as_str().unwrap(), n)));
    // only when asked for: it is a table of the document
    let table = (job["ids"].as_bool() == Some(true)).then(|| Doc::new(v));
    let d = table.as_ref();
    let t = std::time::Instant::now();
    let mut o = match c {
        "A" => both!(jsonpath_rfc9535, d, q, |_: &jsonpath_rfc9535::Query| (vec![], vec![])),
        "B" => both!(jsonpath_rfc9535_pest, d, q, |_: &jsonpath_rfc9535_pest::Query| (vec![], vec![])),
        "C" => both!(jsonpath_rfc9535_pest_recursive, d, q, |_: &jsonpath_rfc9535_pest_recursive::Query| (vec![], vec![])),
        "D" => both!(jsonpath_rfc9535_serde, d, q, |_: &jsonpath_rfc9535_serde::Query| (jsonpath_rfc9535_serde::find(q, v).unwrap().iter().map(|n| n.value).collect(), vec![])),
        "L" => both!(jsonpath_rfc9535_serde, d, q, |_: &jsonpath_rfc9535_serde::Query| (jsonpath_rfc9535_serde::find_loop(q, v).unwrap().iter().map(|n| n.value).collect(), vec![])),
        "E" => both!(jsonpath_rfc9535_iter, d, q, |_: &jsonpath_rfc9535_iter::Query| (jsonpath_rfc9535_iter::find(q, v).unwrap().map(|n| n.value).collect(), vec![])),
        // two iterators in turns, the second ahead; the first must end and stay ended
        "I" => both!(jsonpath_rfc9535_iter, d, q, |_: &jsonpath_rfc9535_iter::Query| {
            let mut a = jsonpath_rfc9535_iter::find(q, v).unwrap();
            let mut b = jsonpath_rfc9535_iter::find(q, v).unwrap();
            let mut nodes: Vec<&J> = vec![];
            let mut extra: Vec<&J> = vec![];
            b.next();
            while let Some(x) = a.next() {
                b.next();
                nodes.push(x.value);
            }
            extra.extend(a.next().map(|x| x.value));
            extra.extend(b.next().map(|x| x.value));
            drop(b);
            extra.extend(a.next().map(|x| x.value));
            nodes.extend(extra);
            (nodes, vec![])
        }),
        "F" => both!(jsonpath_rfc9535_locations, d, q, |_: &jsonpath_rfc9535_locations::Query| {
            let ns = jsonpath_rfc9535_locations::find(q, v).unwrap();
            let at = some(ns.len()).into_iter().map(|i| (i, ns[i].path())).collect();
            (ns.iter().map(|n| n.value).collect(), at)
        }),
        _ => both!(jsonpath_rfc9535_singular, d, q, |_: &jsonpath_rfc9535_singular::Query| {
            let ns = jsonpath_rfc9535_singular::find(q, v).unwrap();
            let at = some(ns.len()).into_iter().map(|i| (i, ns[i].path())).collect();
            (ns.iter().map(|n| n.value).collect(), at)
        }),
    };
    o["ms"] = json!(t.elapsed().as_millis() as u64);
    o
}
