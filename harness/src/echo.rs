//! What the functions of table `Sigs` of spec/JPFunc.tla do: see EchoOf in spec/JPEval.tla.
use serde_json::Value;
use serde_json_path::functions::{LogicalType, NodesType, ValueType};

pub enum Item<'a> {
    V(ValueType<'a>),
    N(NodesType<'a>),
    L(LogicalType),
}
use Item::*;

pub fn value<'b>(items: Vec<Item>) -> ValueType<'b> {
    let list = items.into_iter().map(|x| match x {
        V(v) => Value::Array(v.as_value().cloned().into_iter().collect()),
        N(n) => Value::Array(n.all().into_iter().cloned().collect()),
        L(l) => Value::Bool(l.into()),
    });
    Value::Array(list.collect()).into()
}

pub fn nodes<'a>(items: Vec<Item<'a>>) -> NodesType<'a> {
    let mut out = vec![];
    for x in items {
        if let N(n) = x {
            out.extend(n.all())
        }
    }
    out.into()
}

pub fn logical(items: Vec<Item>) -> LogicalType {
    let mut sum = 0;
    for (i, x) in items.into_iter().enumerate() {
        sum += (i + 1)
            * match x {
                V(v) => match v.as_value() {
                    None => 0,
                    Some(Value::Null) => 1,
                    Some(Value::Bool(b)) => 2 + *b as usize,
                    Some(Value::Number(_)) => 4,
                    Some(Value::String(_)) => 5,
                    Some(Value::Array(_)) => 6,
                    Some(Value::Object(_)) => 7,
                },
                N(n) => n.len(),
                L(l) => bool::from(l) as usize,
            }
    }
    (sum % 2 == 1).into()
}
