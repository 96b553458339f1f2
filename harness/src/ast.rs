//! Projection of the crates' syntax trees to one neutral shape.
use crate::num;
use serde_json::{json, Value as J};

fn opt(i: &Option<i64>) -> J {
    match i {
        None => json!([]),
        Some(i) => json!([num::int(*i)]),
    }
}

/// Chains of one associative operator are flattened, so that only the
/// precedence, not the association, is observable.
pub fn chain(op: &str, l: J, r: J) -> J {
    let mut xs = Vec::new();
    for x in [l, r] {
        if x["k"] == op {
            xs.extend(x["xs"].as_array().unwrap().iter().cloned());
        } else {
            xs.push(x);
        }
    }
    json!({"k": op, "xs": xs})
}

macro_rules! common {
    ($sel:path, $ex:path, $lo:path, $co:path, $t:ident, $f:ident, $str:ident) => {
        fn sel(s: &$sel) -> J {
            use $sel as S;
            #[allow(unreachable_patterns)]
            match s {
                S::Name { name, .. } => json!({"k":"name","name":num::cps(name)}),
                S::Index { index, .. } => json!({"k":"index","idx":num::int(*index)}),
                S::Slice {
                    start, stop, step, ..
                } => json!({"k":"slice","a":opt(start),"b":opt(stop),"c":opt(step)}),
                S::Wild { .. } => json!({"k":"wild"}),
                S::Filter { expression, .. } => json!({"k":"filter","x":expr(expression)}),
                _ => json!({"k":"unknown"}),
            }
        }

        pub fn expr(e: &$ex) -> J {
            use $co as C;
            use $ex as E;
            use $lo as L;
            match e {
                E::$t { .. } => json!({"k":"bool","bool":true}),
                E::$f { .. } => json!({"k":"bool","bool":false}),
                E::Null { .. } => json!({"k":"null"}),
                E::$str { value, .. } => json!({"k":"str","str":num::cps(value)}),
                E::Int { value, .. } => json!({"k":"num","num":num::int(*value)}),
                E::Float { value, .. } => json!({"k":"num","num":num::float(*value)}),
                E::Not { expression, .. } => json!({"k":"not","x":expr(expression)}),
                E::Logical {
                    left,
                    operator,
                    right,
                    ..
                } => chain(
                    match operator {
                        L::And => "and",
                        L::Or => "or",
                    },
                    expr(left),
                    expr(right),
                ),
                E::Comparison {
                    left,
                    operator,
                    right,
                    ..
                } => json!({"k":"cmp","op": match operator {
                    C::Eq => "==", C::Ne => "!=", C::Ge => ">=", C::Gt => ">", C::Le => "<=", C::Lt => "<",
                }, "l":expr(left), "r":expr(right)}),
                E::RelativeQuery { query, .. } => json!({"k":"rel","q":query_(query)}),
                E::RootQuery { query, .. } => json!({"k":"abs","q":query_(query)}),
                E::Function { name, args, .. } => {
                    json!({"k":"fn","fname":num::cps(name),"args":args.iter().map(expr).collect::<Vec<_>>()})
                }
            }
        }

        fn sels(v: &[$sel]) -> J {
            J::Array(v.iter().map(sel).collect())
        }
    };
}

macro_rules! flat {
    ($m:ident, $query:path, $seg:path, $sel:path, $ex:path, $lo:path, $co:path) => {
        pub mod $m {
            use super::*;
            common!($sel, $ex, $lo, $co, True, False, String);
            pub fn query_(q: &$query) -> J {
                use $seg as G;
                let mut out = Vec::new();
                for s in &q.segments {
                    #[allow(unreachable_patterns)]
                    match s {
                        G::Child { selectors, .. } => {
                            out.push(json!({"k":"child","sels":sels(selectors)}))
                        }
                        G::Recursive { selectors, .. } => {
                            out.push(json!({"k":"desc","sels":sels(selectors)}))
                        }
                        _ => (),
                    }
                }
                J::Array(out)
            }
        }
    };
}

flat!(
    a,
    jsonpath_rfc9535::query::Query,
    jsonpath_rfc9535::query::Segment,
    jsonpath_rfc9535::query::Selector,
    jsonpath_rfc9535::query::FilterExpression,
    jsonpath_rfc9535::query::LogicalOperator,
    jsonpath_rfc9535::query::ComparisonOperator
);
flat!(
    b,
    jsonpath_rfc9535_pest::ast::Query,
    jsonpath_rfc9535_pest::ast::Segment,
    jsonpath_rfc9535_pest::ast::Selector,
    jsonpath_rfc9535_pest::ast::FilterExpression,
    jsonpath_rfc9535_pest::ast::LogicalOperator,
    jsonpath_rfc9535_pest::ast::ComparisonOperator
);
flat!(
    d,
    jsonpath_rfc9535_serde::ast::Query,
    jsonpath_rfc9535_serde::ast::Segment,
    jsonpath_rfc9535_serde::ast::Selector,
    jsonpath_rfc9535_serde::ast::FilterExpression,
    jsonpath_rfc9535_serde::ast::LogicalOperator,
    jsonpath_rfc9535_serde::ast::ComparisonOperator
);
flat!(
    e,
    jsonpath_rfc9535_iter::query::Query,
    jsonpath_rfc9535_iter::segment::Segment,
    jsonpath_rfc9535_iter::selector::Selector,
    jsonpath_rfc9535_iter::filter::FilterExpression,
    jsonpath_rfc9535_iter::filter::LogicalOperator,
    jsonpath_rfc9535_iter::filter::ComparisonOperator
);

pub mod c {
    use super::*;
    use jsonpath_rfc9535_pest_recursive::ast::{Query, Segment};
    common!(
        jsonpath_rfc9535_pest_recursive::ast::Selector,
        jsonpath_rfc9535_pest_recursive::ast::FilterExpression,
        jsonpath_rfc9535_pest_recursive::ast::LogicalOperator,
        jsonpath_rfc9535_pest_recursive::ast::ComparisonOperator,
        True_,
        False_,
        StringLiteral
    );
    pub fn query_(q: &Query) -> J {
        let mut out = Vec::new();
        let mut s = &q.ast;
        loop {
            match s {
                Segment::Root {} => break,
                Segment::Child { left, selectors } => {
                    out.push(json!({"k":"child","sels":sels(selectors)}));
                    s = left;
                }
                Segment::Recursive { left, selectors } => {
                    out.push(json!({"k":"desc","sels":sels(selectors)}));
                    s = left;
                }
            }
        }
        out.reverse();
        J::Array(out)
    }
}
