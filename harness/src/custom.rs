//! The conformance program whose registered functions are table `Custom` of spec/JPFunc.tla.
use serde_json::{json, Value};
use serde_json_path::functions::{LogicalType, NodesType, ValueType};

fn or_null(v: &ValueType) -> Value {
    v.as_value().cloned().unwrap_or(Value::Null)
}
fn truth(l: LogicalType) -> bool {
    l.into()
}

// a name of a single letter
#[serde_json_path::function]
fn x(v: ValueType) -> ValueType {
    v
}
// no parameters
#[serde_json_path::function]
fn one() -> ValueType<'static> {
    1.into()
}
#[serde_json_path::function]
fn nothing() -> ValueType<'static> {
    ValueType::Nothing
}
#[serde_json_path::function(name = "vid2")]
fn another_name(v: ValueType) -> ValueType {
    v
}
// names that begin with a literal
#[serde_json_path::function]
fn nullify(v: ValueType) -> ValueType {
    v
}
#[serde_json_path::function]
fn true_v(v: ValueType) -> ValueType {
    v
}
#[serde_json_path::function]
fn first(n: NodesType) -> ValueType {
    match n.first() {
        Some(v) => ValueType::Node(v),
        None => ValueType::Nothing,
    }
}
#[serde_json_path::function]
fn lval(l: LogicalType) -> ValueType<'static> {
    truth(l).into()
}
#[serde_json_path::function]
fn pair<'a>(a: ValueType<'a>, b: ValueType<'a>) -> ValueType<'a> {
    let mut out = vec![];
    out.extend(a.as_value().cloned());
    out.extend(b.as_value().cloned());
    Value::Array(out).into()
}
#[serde_json_path::function]
fn trip<'a>(a: ValueType<'a>, b: NodesType<'a>, c: LogicalType) -> ValueType<'a> {
    json!([or_null(&a), b.len(), truth(c)]).into()
}
#[serde_json_path::function]
fn quad<'a>(a: LogicalType, b: LogicalType, c: NodesType<'a>, d: ValueType<'a>) -> ValueType<'a> {
    json!([truth(a), truth(b), c.len(), or_null(&d)]).into()
}
#[serde_json_path::function]
fn nid(n: NodesType) -> NodesType {
    n
}
#[serde_json_path::function]
fn rev(n: NodesType) -> NodesType {
    let mut v = n.all();
    v.reverse();
    v.into()
}
#[serde_json_path::function]
fn nempty() -> NodesType<'static> {
    NodesType::default()
}
#[serde_json_path::function]
fn twice(n: NodesType) -> NodesType {
    let v = n.all();
    let mut w = v.clone();
    w.extend(v);
    w.into()
}
#[serde_json_path::function]
fn join<'a>(a: NodesType<'a>, b: NodesType<'a>) -> NodesType<'a> {
    let mut v = a.all();
    v.extend(b.all());
    v.into()
}
#[serde_json_path::function]
fn lid(l: LogicalType) -> LogicalType {
    l
}
#[serde_json_path::function]
fn lnot(l: LogicalType) -> LogicalType {
    (!truth(l)).into()
}
#[serde_json_path::function]
fn false_not() -> LogicalType {
    LogicalType::True
}
#[serde_json_path::function]
fn lfalse() -> LogicalType {
    LogicalType::False
}
#[serde_json_path::function]
fn is_nothing(v: ValueType) -> LogicalType {
    v.is_nothing().into()
}
#[serde_json_path::function]
fn lboth(a: LogicalType, b: LogicalType) -> LogicalType {
    (truth(a) & truth(b)).into()
}
#[serde_json_path::function]
fn hasn(n: NodesType) -> LogicalType {
    (!n.is_empty()).into()
}
#[serde_json_path::function]
fn same<'a>(a: ValueType<'a>, b: ValueType<'a>) -> LogicalType {
    match (a.as_value(), b.as_value()) {
        (None, None) => true,
        (Some(a), Some(b)) => conf::val_eq(a, b),
        _ => false,
    }
    .into()
}

fn main() {
    conf::main("custom")
}
