//! The conformance program whose registered functions are table `Shadow` of spec/JPFunc.tla:
//! they have the names of built-in ones.
use serde_json_path::functions::{LogicalType, NodesType, ValueType};

#[serde_json_path::function]
fn length(v: ValueType) -> ValueType {
    v
}
#[serde_json_path::function]
fn count(l: LogicalType) -> ValueType<'static> {
    bool::from(l).into()
}
#[serde_json_path::function(name = "match")]
fn matches(a: LogicalType, b: LogicalType) -> LogicalType {
    (bool::from(a) & bool::from(b)).into()
}
#[serde_json_path::function]
fn value(n: NodesType) -> NodesType {
    n
}

fn main() {
    conf::main("shadow")
}
