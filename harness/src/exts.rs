//! Custom function extensions, one of each interesting signature, registered
//! with every evaluator. What they compute is mirrored in spec/Functions.tla.
use lazy_static::lazy_static;

macro_rules! exts {
    ($m:ident, $k:ident, $res:path) => {
        pub mod $m {
            use super::*;
            use $k::env::Environment;
            use $k::function::{standard_functions, ExpressionType, FunctionExtension, FunctionSignature};
            use $k::standard_functions as std_fns;
            use $k::JSONPathParser;
            use $res as R;

            fn ty(c: char) -> ExpressionType {
                match c {
                    'V' => ExpressionType::Value,
                    'L' => ExpressionType::Logical,
                    _ => ExpressionType::Nodes,
                }
            }

            pub fn sig(params: &str, ret: &str) -> FunctionSignature {
                FunctionSignature {
                    param_types: params.chars().map(ty).collect(),
                    return_type: ty(ret.chars().next().unwrap()),
                }
            }

            macro_rules! ext {
                ($name:ident, $p:expr, $r:expr, $f:expr) => {
                    pub struct $name;
                    impl FunctionExtension for $name {
                        fn call<'a>(&self, args: Vec<R<'a>>) -> R<'a> {
                            let f: fn(Vec<R<'a>>) -> R<'a> = $f;
                            f(args)
                        }
                        fn sig(&self) -> FunctionSignature {
                            sig($p, $r)
                        }
                    }
                };
            }

            fn truthy(r: &R) -> bool {
                match r {
                    R::Bool(b) => *b,
                    R::Nodes(n) => !n.is_empty(),
                    R::Nothing => false,
                    _ => panic!("not a LogicalType argument"),
                }
            }
            // identity on values
            ext!(VV, "V", "V", |mut a| a.remove(0));
            // is the value present?
            ext!(VL, "V", "L", |a| R::Bool(!matches!(a[0], R::Nothing)));
            // identity on truth
            ext!(LL, "L", "L", |a| R::Bool(truthy(&a[0])));
            // truth as a number
            ext!(LV, "L", "V", |a| R::Int(if truthy(&a[0]) { 1 } else { 0 }));
            // at least two nodes
            ext!(NL, "N", "L", |a| match &a[0] {
                R::Nodes(n) => R::Bool(n.len() >= 2),
                _ => panic!("not a NodesType argument"),
            });
            // identity on node lists
            ext!(NN, "N", "N", |mut a| match a.remove(0) {
                R::Nodes(n) => R::Nodes(n),
                _ => panic!("not a NodesType argument"),
            });
            // number of the argument that was present, in a three argument function
            ext!(PICK, "VLN", "V", |a| {
                let v = !matches!(a[0], R::Nothing);
                let l = truthy(&a[1]);
                let n = match &a[2] {
                    R::Nodes(n) => n.len() as i64,
                    _ => panic!("not a NodesType argument"),
                };
                R::Int(if v { 100 } else { 0 } + if l { 10 } else { 0 } + n)
            });
            // no arguments at all
            ext!(ONE, "", "V", |_| R::Int(1));
            // which of five arguments are present, as decimal digits
            ext!(MASK5, "VVVVV", "V", |a| R::Int(
                a.iter().fold(0, |n, v| 10 * n + if matches!(v, R::Nothing) { 0 } else { 1 })
            ));
            // the last list, the first, or both, as the other two arguments say
            ext!(MIX4, "LNVN", "N", |mut a| {
                let last = a.remove(3);
                let v = !matches!(a[2], R::Nothing);
                let l = truthy(&a[0]);
                match (a.remove(1), last) {
                    (R::Nodes(mut x), R::Nodes(y)) => {
                        if !l {
                            R::Nodes(y)
                        } else {
                            if v {
                                for n in y {
                                    x.push(n);
                                }
                            }
                            R::Nodes(x)
                        }
                    }
                    _ => panic!("not a NodesType argument"),
                }
            });

            // the second environment: other functions under the same names
            ext!(VV2, "V", "V", |_| R::Int(7));
            ext!(VL2, "V", "L", |a| R::Bool(matches!(a[0], R::Nothing)));
            ext!(LL2, "L", "L", |a| R::Bool(!truthy(&a[0])));
            ext!(NL2, "N", "L", |a| match &a[0] {
                R::Nodes(n) => R::Bool(n.len() < 2),
                _ => panic!("not a NodesType argument"),
            });
            ext!(NN2, "N", "N", |mut a| match a.remove(0) {
                R::Nodes(mut n) => {
                    n.truncate(1);
                    R::Nodes(n)
                }
                _ => panic!("not a NodesType argument"),
            });
            ext!(ONE2, "", "V", |_| R::Int(2));
            ext!(COUNT2, "N", "V", |a| match &a[0] {
                R::Nodes(n) => R::Int(10 * n.len() as i64),
                _ => panic!("not a NodesType argument"),
            });

            lazy_static! {
                pub static ref ENV2: Environment = {
                    let mut e = Environment::new();
                    let r = &mut e.function_register;
                    r.insert("vv".to_string(), Box::new(VV2));
                    r.insert("vl".to_string(), Box::new(VL2));
                    r.insert("ll".to_string(), Box::new(LL2));
                    r.insert("lv".to_string(), Box::new(LV));
                    r.insert("nl".to_string(), Box::new(NL2));
                    r.insert("nn".to_string(), Box::new(NN2));
                    r.insert("pick".to_string(), Box::new(PICK));
                    r.insert("one".to_string(), Box::new(ONE2));
                    r.insert("mask_5".to_string(), Box::new(MASK5));
                    r.insert("mix4".to_string(), Box::new(MIX4));
                    r.insert("count".to_string(), Box::new(COUNT2));
                    e
                };
                pub static ref STD: Environment = Environment::new();
                pub static ref ENV: Environment = {
                    let mut e = Environment::new();
                    let r = &mut e.function_register;
                    r.insert("length".to_string(), Box::new(std_fns::Length::default()));
                    r.insert("count".to_string(), Box::new(std_fns::Count::default()));
                    r.insert("match".to_string(), Box::new(std_fns::Match::default()));
                    r.insert("search".to_string(), Box::new(std_fns::Search::default()));
                    r.insert("value".to_string(), Box::new(std_fns::Value::default()));
                    r.insert("vv".to_string(), Box::new(VV));
                    r.insert("vl".to_string(), Box::new(VL));
                    r.insert("ll".to_string(), Box::new(LL));
                    r.insert("lv".to_string(), Box::new(LV));
                    r.insert("nl".to_string(), Box::new(NL));
                    r.insert("nn".to_string(), Box::new(NN));
                    r.insert("pick".to_string(), Box::new(PICK));
                    r.insert("one".to_string(), Box::new(ONE));
                    r.insert("mask_5".to_string(), Box::new(MASK5));
                    r.insert("mix4".to_string(), Box::new(MIX4));
                    e
                };
                pub static ref PARSER: JSONPathParser = {
                    let mut p = JSONPathParser::default();
                    for (n, f) in ENV.function_register.iter() {
                        p.functions.insert(n.clone(), f.sig());
                    }
                    p
                };
            }

            pub fn parser(fns: &[(String, String, String)], lo: i64, hi: i64) -> JSONPathParser {
                let mut functions = standard_functions();
                for (n, p, r) in fns {
                    functions.insert(n.clone(), sig(p, r));
                }
                JSONPathParser { index_range: lo..=hi, functions }
            }
        }
    };
}

exts!(d, jsonpath_rfc9535_serde, jsonpath_rfc9535_serde::ast::FilterExpressionResult);
exts!(e, jsonpath_rfc9535_iter, jsonpath_rfc9535_iter::filter::FilterExpressionResult);
exts!(f, jsonpath_rfc9535_locations, jsonpath_rfc9535_locations::filter::FilterExpressionResult);
exts!(g, jsonpath_rfc9535_singular, jsonpath_rfc9535_singular::filter::FilterExpressionResult);
