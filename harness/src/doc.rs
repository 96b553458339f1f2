//! Flattening of a JSON document to a table of nodes in document order.
use crate::num;
use serde_json::{json, Value};
use std::collections::HashMap;

pub struct Doc {
    pub table: Vec<Value>,
    pub ids: HashMap<*const Value, usize>,
}

impl Doc {
    pub fn new(v: &Value) -> Self {
        let mut d = Doc {
            table: Vec::new(),
            ids: HashMap::new(),
        };
        d.add(v);
        d
    }

    fn add(&mut self, v: &Value) -> usize {
        self.table.push(Value::Null);
        let id = self.table.len();
        self.ids.insert(v as *const Value, id);
        let rec = match v {
            Value::Null => json!({"t":"z"}),
            Value::Bool(b) => json!({"t":"b","b":b}),
            Value::String(s) => json!({"t":"s","s":num::cps(s)}),
            Value::Number(n) => {
                let m = if let Some(i) = n.as_i64() {
                    num::int(i)
                } else if let Some(u) = n.as_u64() {
                    num::uint(u)
                } else {
                    num::float(n.as_f64().unwrap())
                };
                json!({"t":"n","m":m})
            }
            Value::Array(a) => {
                let c: Vec<usize> = a.iter().map(|x| self.add(x)).collect();
                json!({"t":"a","c":c})
            }
            Value::Object(o) => {
                let mut k = Vec::new();
                let mut c = Vec::new();
                for (key, x) in o.iter() {
                    k.push(num::cps(key));
                    c.push(self.add(x));
                }
                json!({"t":"o","k":k,"c":c})
            }
        };
        self.table[id - 1] = rec;
        id
    }

    /// Document-order number of a value the evaluator returned, 0 if it is not
    /// a value of this document at all.
    pub fn id(&self, v: &Value) -> usize {
        self.at(v)
    }

    pub fn at(&self, p: *const Value) -> usize {
        self.ids.get(&p).copied().unwrap_or(0)
    }
}
