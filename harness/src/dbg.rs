//! The syntax trees of the two crates that keep their tree types private are
//! read from their Debug output. None when it does not have the usual shape:
//! then the tree is simply not observed.
use crate::num;
use serde_json::{json, Value as J};

enum D {
    S(String),
    N(String),
    L(Vec<D>),
    // name, positional, named
    R(String, Vec<D>, Vec<(String, D)>),
}

struct P<'a> {
    s: &'a [char],
    i: usize,
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i].is_whitespace() {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> Option<char> {
        self.ws();
        self.s.get(self.i).copied()
    }
    fn eat(&mut self, c: char) -> Option<()> {
        if self.peek()? == c {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn word(&mut self) -> String {
        self.ws();
        let a = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_alphanumeric() || self.s[self.i] == '_') {
            self.i += 1;
        }
        self.s[a..self.i].iter().collect()
    }
    fn list(&mut self, end: char) -> Option<Vec<D>> {
        let mut v = Vec::new();
        loop {
            if self.peek()? == end {
                self.i += 1;
                return Some(v);
            }
            v.push(self.value()?);
            if self.peek()? == ',' {
                self.i += 1;
            }
        }
    }
    fn string(&mut self) -> Option<String> {
        self.eat('"')?;
        let mut o = String::new();
        loop {
            let c = *self.s.get(self.i)?;
            self.i += 1;
            match c {
                '"' => return Some(o),
                '\\' => {
                    let e = *self.s.get(self.i)?;
                    self.i += 1;
                    o.push(match e {
                        'n' => '\n',
                        'r' => '\r',
                        't' => '\t',
                        '0' => '\0',
                        'u' => {
                            self.i += 1; // {
                            let mut n = 0;
                            while *self.s.get(self.i)? != '}' {
                                n = n * 16 + self.s[self.i].to_digit(16)?;
                                self.i += 1;
                            }
                            self.i += 1;
                            char::from_u32(n)?
                        }
                        c => c,
                    });
                }
                c => o.push(c),
            }
        }
    }
    fn value(&mut self) -> Option<D> {
        match self.peek()? {
            '"' => Some(D::S(self.string()?)),
            '[' => {
                self.i += 1;
                Some(D::L(self.list(']')?))
            }
            c if c.is_ascii_digit() || c == '-' => {
                let a = self.i;
                self.i += 1;
                while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], '.' | '-' | '+')) {
                    self.i += 1;
                }
                Some(D::N(self.s[a..self.i].iter().collect()))
            }
            _ => {
                let n = self.word();
                if n.is_empty() {
                    return None;
                }
                match self.peek() {
                    Some('(') => {
                        self.i += 1;
                        Some(D::R(n, self.list(')')?, vec![]))
                    }
                    Some('{') => {
                        self.i += 1;
                        let mut f = Vec::new();
                        loop {
                            if self.peek()? == '}' {
                                self.i += 1;
                                return Some(D::R(n, vec![], f));
                            }
                            let k = self.word();
                            self.eat(':')?;
                            f.push((k, self.value()?));
                            if self.peek()? == ',' {
                                self.i += 1;
                            }
                        }
                    }
                    _ => Some(D::R(n, vec![], vec![])),
                }
            }
        }
    }
}

fn field<'a>(f: &'a [(String, D)], n: &str) -> Option<&'a D> {
    f.iter().find(|(k, _)| k == n).map(|(_, v)| v)
}

fn query(d: &D) -> Option<J> {
    let D::R(_, _, f) = d else { return None };
    let D::L(segs) = field(f, "segments")? else { return None };
    let mut out = Vec::new();
    for s in segs {
        let D::R(n, _, f) = s else { return None };
        let k = match n.as_str() {
            "Child" => "child",
            "Recursive" => "desc",
            "Eoi" => continue,
            _ => return None,
        };
        let D::L(v) = field(f, "selectors")? else { return None };
        let sels: Option<Vec<J>> = v.iter().map(sel).collect();
        out.push(json!({"k": k, "sels": sels?}));
    }
    Some(J::Array(out))
}

fn int(d: &D) -> Option<J> {
    match d {
        D::N(s) => Some(num::int(s.parse().ok()?)),
        _ => None,
    }
}

fn opt(d: &D) -> Option<J> {
    match d {
        D::R(n, _, _) if n == "None" => Some(json!([])),
        D::R(n, v, _) if n == "Some" => Some(json!([int(v.first()?)?])),
        _ => None,
    }
}

fn string(d: &D) -> Option<J> {
    match d {
        D::S(s) => Some(num::cps(s).into()),
        _ => None,
    }
}

fn sel(d: &D) -> Option<J> {
    let D::R(n, _, f) = d else { return None };
    Some(match n.as_str() {
        "Name" => json!({"k":"name","name":string(field(f,"name")?)?}),
        "Index" => json!({"k":"index","idx":int(field(f,"index")?)?}),
        "Slice" => json!({"k":"slice","a":opt(field(f,"start")?)?,"b":opt(field(f,"stop")?)?,"c":opt(field(f,"step")?)?}),
        "Wild" => json!({"k":"wild"}),
        "Filter" => json!({"k":"filter","x":expr(field(f,"expression")?)?}),
        "SingularQuery" => json!({"k":"sq","q":query(field(f,"query")?)?}),
        _ => return None,
    })
}

fn expr(d: &D) -> Option<J> {
    let D::R(n, _, f) = d else { return None };
    Some(match n.as_str() {
        "True" => json!({"k":"bool","bool":true}),
        "False" => json!({"k":"bool","bool":false}),
        "Null" => json!({"k":"null"}),
        "String" => json!({"k":"str","str":string(field(f,"value")?)?}),
        "Int" => json!({"k":"num","num":int(field(f,"value")?)?}),
        "Float" => match field(f, "value")? {
            D::N(s) => json!({"k":"num","num":num::float(s.parse().ok()?)}),
            _ => return None,
        },
        "Not" => json!({"k":"not","x":expr(field(f,"expression")?)?}),
        "Logical" => {
            let op = match field(f, "operator")? {
                D::R(n, _, _) if n == "And" => "and",
                D::R(n, _, _) if n == "Or" => "or",
                _ => return None,
            };
            crate::ast::chain(op, expr(field(f, "left")?)?, expr(field(f, "right")?)?)
        }
        "Comparison" => {
            let op = match field(f, "operator")? {
                D::R(n, _, _) => match n.as_str() {
                    "Eq" => "==",
                    "Ne" => "!=",
                    "Ge" => ">=",
                    "Gt" => ">",
                    "Le" => "<=",
                    "Lt" => "<",
                    _ => return None,
                },
                _ => return None,
            };
            json!({"k":"cmp","op":op,"l":expr(field(f,"left")?)?,"r":expr(field(f,"right")?)?})
        }
        "RelativeQuery" => json!({"k":"rel","q":query(field(f,"query")?)?}),
        "RootQuery" => json!({"k":"abs","q":query(field(f,"query")?)?}),
        "Function" => {
            let D::L(v) = field(f, "args")? else { return None };
            let a: Option<Vec<J>> = v.iter().map(expr).collect();
            json!({"k":"fn","fname":string(field(f,"name")?)?,"args":a?})
        }
        _ => return None,
    })
}

pub fn tree(debug: &str) -> Option<J> {
    let s: Vec<char> = debug.chars().collect();
    let mut p = P { s: &s, i: 0 };
    let d = p.value()?;
    query(&d)
}
