//! Projection of numbers to normalised decimals: (neg, digits, exp10).
use serde_json::{json, Value as J};

pub fn dec(neg: bool, digits: &str, exp: i64) -> J {
    let mut d: Vec<u8> = digits.bytes().map(|b| b - b'0').collect();
    let mut e = exp;
    while d.last() == Some(&0) {
        d.pop();
        e += 1;
    }
    let lead = d.iter().take_while(|x| **x == 0).count();
    d.drain(..lead);
    if d.is_empty() {
        return json!({"n":0,"d":[],"e":0});
    }
    json!({"n": neg as i32, "d": d, "e": e})
}

pub fn int(i: i64) -> J {
    dec(i < 0, &i.unsigned_abs().to_string(), 0)
}

pub fn uint(i: u64) -> J {
    dec(false, &i.to_string(), 0)
}

pub fn float(f: f64) -> J {
    if !f.is_finite() {
        // outside the representable domain; marked with an impossible exponent
        return json!({"n": f.is_sign_negative() as i32, "d":[9], "e": 99999});
    }
    let s = format!("{:e}", f.abs());
    let (m, e) = s.split_once('e').unwrap();
    let e: i64 = e.parse().unwrap();
    let (a, b) = m.split_once('.').unwrap_or((m, ""));
    dec(f < 0.0, &format!("{a}{b}"), e - b.len() as i64)
}

pub fn cps(s: &str) -> Vec<u32> {
    s.chars().map(|c| c as u32).collect()
}
