//! Written by tools/sigs.py: the conformance program whose registered functions are table `Sigs`
//! of spec/JPFunc.tla: of every signature of up to four parameters, and of some longer ones.
#![allow(non_snake_case, unused_mut)]
use conf::echo::Item;
use serde_json_path::functions::{self, LogicalType, NodesType, ValueType};

#[serde_json_path::function(name = "f_v")]
fn Fn0_x() -> ValueType<'static> {
    conf::echo::value(vec![])
}
#[serde_json_path::function]
fn f_n() -> NodesType<'static> {
    conf::echo::nodes(vec![])
}
#[serde_json_path::function]
fn f_l() -> LogicalType {
    conf::echo::logical(vec![])
}
#[serde_json_path::function]
fn fv_v<'a>(fv_v: ValueType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::V(fv_v)])
}
#[serde_json_path::function(name = "fv_n")]
fn Fn4_x<'a>(mut x: functions::ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::V(x)])
}
#[serde_json_path::function]
fn fv_l<'a>(v: serde_json_path::functions::ValueType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::V(v)])
}
#[serde_json_path::function]
fn fn_v<'a>(a: NodesType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::N(a)])
}
#[serde_json_path::function]
fn fn_n<'a>(name: functions::NodesType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::N(name)])
}
#[serde_json_path::function(name = "fn_l")]
fn Fn8_x<'a>(first: serde_json_path::functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::N(first)])
}
#[serde_json_path::function]
fn fl_v(mut x: LogicalType) -> ValueType<'static> {
    conf::echo::value(vec![Item::L(x)])
}
#[serde_json_path::function]
fn fl_n(self_: functions::LogicalType) -> NodesType<'static> {
    conf::echo::nodes(vec![Item::L(self_)])
}
#[serde_json_path::function]
fn fl_l(a: serde_json_path::functions::LogicalType) -> LogicalType {
    conf::echo::logical(vec![Item::L(a)])
}
#[serde_json_path::function(name = "fvv_v")]
fn Fn12_x<'a>(name: ValueType<'a>, this: functions::ValueType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::V(name), Item::V(this)])
}
#[serde_json_path::function]
fn fvv_n<'a>(first: functions::ValueType<'a>, mut second: serde_json_path::functions::ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::V(first), Item::V(second)])
}
#[serde_json_path::function]
fn fvv_l<'a>(mut x: serde_json_path::functions::ValueType<'a>, y: ValueType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::V(x), Item::V(y)])
}
#[serde_json_path::function]
fn fvn_v<'a>(v: ValueType<'a>, w: functions::NodesType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::V(v), Item::N(w)])
}
#[serde_json_path::function(name = "fvn_n")]
fn Fn16_x<'a>(a: functions::ValueType<'a>, v: serde_json_path::functions::NodesType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::V(a), Item::N(v)])
}
#[serde_json_path::function]
fn fvn_l<'a>(name: serde_json_path::functions::ValueType<'a>, fvn_l: NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::V(name), Item::N(fvn_l)])
}
#[serde_json_path::function]
fn fvl_v<'a>(first: ValueType<'a>, mut second: functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::V(first), Item::L(second)])
}
#[serde_json_path::function]
fn fvl_n<'a>(mut x: functions::ValueType<'a>, y: serde_json_path::functions::LogicalType) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::V(x), Item::L(y)])
}
#[serde_json_path::function(name = "fvl_l")]
fn Fn20_x<'a>(v: serde_json_path::functions::ValueType<'a>, w: LogicalType) -> LogicalType {
    conf::echo::logical(vec![Item::V(v), Item::L(w)])
}
#[serde_json_path::function]
fn fnv_v<'a>(a: NodesType<'a>, v: functions::ValueType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::N(a), Item::V(v)])
}
#[serde_json_path::function]
fn fnv_n<'a>(name: functions::NodesType<'a>, this: serde_json_path::functions::ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::N(name), Item::V(this)])
}
#[serde_json_path::function]
fn fnv_l<'a>(first: serde_json_path::functions::NodesType<'a>, mut second: ValueType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::N(first), Item::V(second)])
}
#[serde_json_path::function(name = "fnn_v")]
fn Fn24_x<'a>(mut x: NodesType<'a>, self_: functions::NodesType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::N(x), Item::N(self_)])
}
#[serde_json_path::function]
fn fnn_n<'a>(v: functions::NodesType<'a>, w: serde_json_path::functions::NodesType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::N(v), Item::N(w)])
}
#[serde_json_path::function]
fn fnn_l<'a>(a: serde_json_path::functions::NodesType<'a>, v: NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::N(a), Item::N(v)])
}
#[serde_json_path::function]
fn fnl_v<'a>(name: NodesType<'a>, this: functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::N(name), Item::L(this)])
}
#[serde_json_path::function(name = "fnl_n")]
fn Fn28_x<'a>(first: functions::NodesType<'a>, mut second: serde_json_path::functions::LogicalType) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::N(first), Item::L(second)])
}
#[serde_json_path::function]
fn fnl_l<'a>(mut x: serde_json_path::functions::NodesType<'a>, y: LogicalType) -> LogicalType {
    conf::echo::logical(vec![Item::N(x), Item::L(y)])
}
#[serde_json_path::function]
fn flv_v<'a>(v: LogicalType, w: functions::ValueType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::L(v), Item::V(w)])
}
#[serde_json_path::function]
fn flv_n<'a>(a: functions::LogicalType, flv_n: serde_json_path::functions::ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::L(a), Item::V(flv_n)])
}
#[serde_json_path::function(name = "flv_l")]
fn Fn32_x<'a>(name: serde_json_path::functions::LogicalType, this: ValueType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::L(name), Item::V(this)])
}
#[serde_json_path::function]
fn fln_v<'a>(first: LogicalType, mut second: functions::NodesType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::L(first), Item::N(second)])
}
#[serde_json_path::function]
fn fln_n<'a>(mut x: functions::LogicalType, y: serde_json_path::functions::NodesType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::L(x), Item::N(y)])
}
#[serde_json_path::function]
fn fln_l<'a>(v: serde_json_path::functions::LogicalType, w: NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::L(v), Item::N(w)])
}
#[serde_json_path::function(name = "fll_v")]
fn Fn36_x(a: LogicalType, v: functions::LogicalType) -> ValueType<'static> {
    conf::echo::value(vec![Item::L(a), Item::L(v)])
}
#[serde_json_path::function]
fn fll_n(name: functions::LogicalType, this: serde_json_path::functions::LogicalType) -> NodesType<'static> {
    conf::echo::nodes(vec![Item::L(name), Item::L(this)])
}
#[serde_json_path::function]
fn fll_l(first: serde_json_path::functions::LogicalType, mut self_: LogicalType) -> LogicalType {
    conf::echo::logical(vec![Item::L(first), Item::L(self_)])
}
#[serde_json_path::function]
fn fvvv_v<'a>(mut x: ValueType<'a>, y: functions::ValueType<'a>, z: serde_json_path::functions::ValueType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::V(x), Item::V(y), Item::V(z)])
}
#[serde_json_path::function(name = "fvvv_n")]
fn Fn40_x<'a>(v: functions::ValueType<'a>, w: serde_json_path::functions::ValueType<'a>, a: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::V(v), Item::V(w), Item::V(a)])
}
#[serde_json_path::function]
fn fvvv_l<'a>(a: serde_json_path::functions::ValueType<'a>, v: ValueType<'a>, args: functions::ValueType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::V(a), Item::V(v), Item::V(args)])
}
#[serde_json_path::function]
fn fvvn_v<'a>(name: ValueType<'a>, this: functions::ValueType<'a>, mut v: serde_json_path::functions::NodesType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::V(name), Item::V(this), Item::N(v)])
}
#[serde_json_path::function]
fn fvvn_n<'a>(first: functions::ValueType<'a>, mut second: serde_json_path::functions::ValueType<'a>, third: NodesType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::V(first), Item::V(second), Item::N(third)])
}
#[serde_json_path::function(name = "fvvn_l")]
fn Fn44_x<'a>(mut x: serde_json_path::functions::ValueType<'a>, y: ValueType<'a>, z: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::V(x), Item::V(y), Item::N(z)])
}
#[serde_json_path::function]
fn fvvl_v<'a>(v: ValueType<'a>, w: functions::ValueType<'a>, fvvl_v: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::V(v), Item::V(w), Item::L(fvvl_v)])
}
#[serde_json_path::function]
fn fvvl_n<'a>(a: functions::ValueType<'a>, v: serde_json_path::functions::ValueType<'a>, args: LogicalType) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::V(a), Item::V(v), Item::L(args)])
}
#[serde_json_path::function]
fn fvvl_l<'a>(name: serde_json_path::functions::ValueType<'a>, this: ValueType<'a>, mut v: functions::LogicalType) -> LogicalType {
    conf::echo::logical(vec![Item::V(name), Item::V(this), Item::L(v)])
}
#[serde_json_path::function(name = "fvnv_v")]
fn Fn48_x<'a>(first: ValueType<'a>, mut second: functions::NodesType<'a>, third: serde_json_path::functions::ValueType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::V(first), Item::N(second), Item::V(third)])
}
#[serde_json_path::function]
fn fvnv_n<'a>(mut x: functions::ValueType<'a>, y: serde_json_path::functions::NodesType<'a>, z: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::V(x), Item::N(y), Item::V(z)])
}
#[serde_json_path::function]
fn fvnv_l<'a>(v: serde_json_path::functions::ValueType<'a>, w: NodesType<'a>, a: functions::ValueType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::V(v), Item::N(w), Item::V(a)])
}
#[serde_json_path::function]
fn fvnn_v<'a>(a: ValueType<'a>, v: functions::NodesType<'a>, args: serde_json_path::functions::NodesType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::V(a), Item::N(v), Item::N(args)])
}
#[serde_json_path::function(name = "fvnn_n")]
fn Fn52_x<'a>(name: functions::ValueType<'a>, this: serde_json_path::functions::NodesType<'a>, mut self_: NodesType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::V(name), Item::N(this), Item::N(self_)])
}
#[serde_json_path::function]
fn fvnn_l<'a>(first: serde_json_path::functions::ValueType<'a>, mut second: NodesType<'a>, third: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::V(first), Item::N(second), Item::N(third)])
}
#[serde_json_path::function]
fn fvnl_v<'a>(mut x: ValueType<'a>, y: functions::NodesType<'a>, z: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::V(x), Item::N(y), Item::L(z)])
}
#[serde_json_path::function]
fn fvnl_n<'a>(v: functions::ValueType<'a>, w: serde_json_path::functions::NodesType<'a>, a: LogicalType) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::V(v), Item::N(w), Item::L(a)])
}
#[serde_json_path::function(name = "fvnl_l")]
fn Fn56_x<'a>(a: serde_json_path::functions::ValueType<'a>, v: NodesType<'a>, args: functions::LogicalType) -> LogicalType {
    conf::echo::logical(vec![Item::V(a), Item::N(v), Item::L(args)])
}
#[serde_json_path::function]
fn fvlv_v<'a>(name: ValueType<'a>, this: functions::LogicalType, mut v: serde_json_path::functions::ValueType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::V(name), Item::L(this), Item::V(v)])
}
#[serde_json_path::function]
fn fvlv_n<'a>(first: functions::ValueType<'a>, mut second: serde_json_path::functions::LogicalType, third: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::V(first), Item::L(second), Item::V(third)])
}
#[serde_json_path::function]
fn fvlv_l<'a>(mut x: serde_json_path::functions::ValueType<'a>, y: LogicalType, fvlv_l: functions::ValueType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::V(x), Item::L(y), Item::V(fvlv_l)])
}
#[serde_json_path::function(name = "fvln_v")]
fn Fn60_x<'a>(v: ValueType<'a>, w: functions::LogicalType, a: serde_json_path::functions::NodesType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::V(v), Item::L(w), Item::N(a)])
}
#[serde_json_path::function]
fn fvln_n<'a>(a: functions::ValueType<'a>, v: serde_json_path::functions::LogicalType, args: NodesType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::V(a), Item::L(v), Item::N(args)])
}
#[serde_json_path::function]
fn fvln_l<'a>(name: serde_json_path::functions::ValueType<'a>, this: LogicalType, mut v: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::V(name), Item::L(this), Item::N(v)])
}
#[serde_json_path::function]
fn fvll_v<'a>(first: ValueType<'a>, mut second: functions::LogicalType, third: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::V(first), Item::L(second), Item::L(third)])
}
#[serde_json_path::function(name = "fvll_n")]
fn Fn64_x<'a>(mut x: functions::ValueType<'a>, y: serde_json_path::functions::LogicalType, z: LogicalType) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::V(x), Item::L(y), Item::L(z)])
}
#[serde_json_path::function]
fn fvll_l<'a>(v: serde_json_path::functions::ValueType<'a>, w: LogicalType, a: functions::LogicalType) -> LogicalType {
    conf::echo::logical(vec![Item::V(v), Item::L(w), Item::L(a)])
}
#[serde_json_path::function]
fn fnvv_v<'a>(a: NodesType<'a>, v: functions::ValueType<'a>, self_: serde_json_path::functions::ValueType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::N(a), Item::V(v), Item::V(self_)])
}
#[serde_json_path::function]
fn fnvv_n<'a>(name: functions::NodesType<'a>, this: serde_json_path::functions::ValueType<'a>, mut v: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::N(name), Item::V(this), Item::V(v)])
}
#[serde_json_path::function(name = "fnvv_l")]
fn Fn68_x<'a>(first: serde_json_path::functions::NodesType<'a>, mut second: ValueType<'a>, third: functions::ValueType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::N(first), Item::V(second), Item::V(third)])
}
#[serde_json_path::function]
fn fnvn_v<'a>(mut x: NodesType<'a>, y: functions::ValueType<'a>, z: serde_json_path::functions::NodesType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::N(x), Item::V(y), Item::N(z)])
}
#[serde_json_path::function]
fn fnvn_n<'a>(v: functions::NodesType<'a>, w: serde_json_path::functions::ValueType<'a>, a: NodesType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::N(v), Item::V(w), Item::N(a)])
}
#[serde_json_path::function]
fn fnvn_l<'a>(a: serde_json_path::functions::NodesType<'a>, v: ValueType<'a>, args: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::N(a), Item::V(v), Item::N(args)])
}
#[serde_json_path::function(name = "fnvl_v")]
fn Fn72_x<'a>(name: NodesType<'a>, this: functions::ValueType<'a>, mut v: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::N(name), Item::V(this), Item::L(v)])
}
#[serde_json_path::function]
fn fnvl_n<'a>(first: functions::NodesType<'a>, mut second: serde_json_path::functions::ValueType<'a>, fnvl_n: LogicalType) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::N(first), Item::V(second), Item::L(fnvl_n)])
}
#[serde_json_path::function]
fn fnvl_l<'a>(mut x: serde_json_path::functions::NodesType<'a>, y: ValueType<'a>, z: functions::LogicalType) -> LogicalType {
    conf::echo::logical(vec![Item::N(x), Item::V(y), Item::L(z)])
}
#[serde_json_path::function]
fn fnnv_v<'a>(v: NodesType<'a>, w: functions::NodesType<'a>, a: serde_json_path::functions::ValueType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::N(v), Item::N(w), Item::V(a)])
}
#[serde_json_path::function(name = "fnnv_n")]
fn Fn76_x<'a>(a: functions::NodesType<'a>, v: serde_json_path::functions::NodesType<'a>, args: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::N(a), Item::N(v), Item::V(args)])
}
#[serde_json_path::function]
fn fnnv_l<'a>(name: serde_json_path::functions::NodesType<'a>, this: NodesType<'a>, mut v: functions::ValueType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::N(name), Item::N(this), Item::V(v)])
}
#[serde_json_path::function]
fn fnnn_v<'a>(first: NodesType<'a>, mut second: functions::NodesType<'a>, third: serde_json_path::functions::NodesType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::N(first), Item::N(second), Item::N(third)])
}
#[serde_json_path::function]
fn fnnn_n<'a>(mut x: functions::NodesType<'a>, y: serde_json_path::functions::NodesType<'a>, z: NodesType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::N(x), Item::N(y), Item::N(z)])
}
#[serde_json_path::function(name = "fnnn_l")]
fn Fn80_x<'a>(v: serde_json_path::functions::NodesType<'a>, w: NodesType<'a>, self_: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::N(v), Item::N(w), Item::N(self_)])
}
#[serde_json_path::function]
fn fnnl_v<'a>(a: NodesType<'a>, v: functions::NodesType<'a>, args: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::N(a), Item::N(v), Item::L(args)])
}
#[serde_json_path::function]
fn fnnl_n<'a>(name: functions::NodesType<'a>, this: serde_json_path::functions::NodesType<'a>, mut v: LogicalType) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::N(name), Item::N(this), Item::L(v)])
}
#[serde_json_path::function]
fn fnnl_l<'a>(first: serde_json_path::functions::NodesType<'a>, mut second: NodesType<'a>, third: functions::LogicalType) -> LogicalType {
    conf::echo::logical(vec![Item::N(first), Item::N(second), Item::L(third)])
}
#[serde_json_path::function(name = "fnlv_v")]
fn Fn84_x<'a>(mut x: NodesType<'a>, y: functions::LogicalType, z: serde_json_path::functions::ValueType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::N(x), Item::L(y), Item::V(z)])
}
#[serde_json_path::function]
fn fnlv_n<'a>(v: functions::NodesType<'a>, w: serde_json_path::functions::LogicalType, a: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::N(v), Item::L(w), Item::V(a)])
}
#[serde_json_path::function]
fn fnlv_l<'a>(a: serde_json_path::functions::NodesType<'a>, v: LogicalType, args: functions::ValueType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::N(a), Item::L(v), Item::V(args)])
}
#[serde_json_path::function]
fn fnln_v<'a>(name: NodesType<'a>, this: functions::LogicalType, mut fnln_v: serde_json_path::functions::NodesType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::N(name), Item::L(this), Item::N(fnln_v)])
}
#[serde_json_path::function(name = "fnln_n")]
fn Fn88_x<'a>(first: functions::NodesType<'a>, mut second: serde_json_path::functions::LogicalType, third: NodesType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::N(first), Item::L(second), Item::N(third)])
}
#[serde_json_path::function]
fn fnln_l<'a>(mut x: serde_json_path::functions::NodesType<'a>, y: LogicalType, z: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::N(x), Item::L(y), Item::N(z)])
}
#[serde_json_path::function]
fn fnll_v<'a>(v: NodesType<'a>, w: functions::LogicalType, a: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::N(v), Item::L(w), Item::L(a)])
}
#[serde_json_path::function]
fn fnll_n<'a>(a: functions::NodesType<'a>, v: serde_json_path::functions::LogicalType, args: LogicalType) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::N(a), Item::L(v), Item::L(args)])
}
#[serde_json_path::function(name = "fnll_l")]
fn Fn92_x<'a>(name: serde_json_path::functions::NodesType<'a>, this: LogicalType, mut v: functions::LogicalType) -> LogicalType {
    conf::echo::logical(vec![Item::N(name), Item::L(this), Item::L(v)])
}
#[serde_json_path::function]
fn flvv_v<'a>(first: LogicalType, mut second: functions::ValueType<'a>, third: serde_json_path::functions::ValueType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::L(first), Item::V(second), Item::V(third)])
}
#[serde_json_path::function]
fn flvv_n<'a>(mut x: functions::LogicalType, y: serde_json_path::functions::ValueType<'a>, self_: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::L(x), Item::V(y), Item::V(self_)])
}
#[serde_json_path::function]
fn flvv_l<'a>(v: serde_json_path::functions::LogicalType, w: ValueType<'a>, a: functions::ValueType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::L(v), Item::V(w), Item::V(a)])
}
#[serde_json_path::function(name = "flvn_v")]
fn Fn96_x<'a>(a: LogicalType, v: functions::ValueType<'a>, args: serde_json_path::functions::NodesType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::L(a), Item::V(v), Item::N(args)])
}
#[serde_json_path::function]
fn flvn_n<'a>(name: functions::LogicalType, this: serde_json_path::functions::ValueType<'a>, mut v: NodesType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::L(name), Item::V(this), Item::N(v)])
}
#[serde_json_path::function]
fn flvn_l<'a>(first: serde_json_path::functions::LogicalType, mut second: ValueType<'a>, third: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::L(first), Item::V(second), Item::N(third)])
}
#[serde_json_path::function]
fn flvl_v<'a>(mut x: LogicalType, y: functions::ValueType<'a>, z: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::L(x), Item::V(y), Item::L(z)])
}
#[serde_json_path::function(name = "flvl_n")]
fn Fn100_x<'a>(v: functions::LogicalType, w: serde_json_path::functions::ValueType<'a>, a: LogicalType) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::L(v), Item::V(w), Item::L(a)])
}
#[serde_json_path::function]
fn flvl_l<'a>(a: serde_json_path::functions::LogicalType, v: ValueType<'a>, flvl_l: functions::LogicalType) -> LogicalType {
    conf::echo::logical(vec![Item::L(a), Item::V(v), Item::L(flvl_l)])
}
#[serde_json_path::function]
fn flnv_v<'a>(name: LogicalType, this: functions::NodesType<'a>, mut v: serde_json_path::functions::ValueType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::L(name), Item::N(this), Item::V(v)])
}
#[serde_json_path::function]
fn flnv_n<'a>(first: functions::LogicalType, mut second: serde_json_path::functions::NodesType<'a>, third: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::L(first), Item::N(second), Item::V(third)])
}
#[serde_json_path::function(name = "flnv_l")]
fn Fn104_x<'a>(mut x: serde_json_path::functions::LogicalType, y: NodesType<'a>, z: functions::ValueType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::L(x), Item::N(y), Item::V(z)])
}
#[serde_json_path::function]
fn flnn_v<'a>(v: LogicalType, w: functions::NodesType<'a>, a: serde_json_path::functions::NodesType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::L(v), Item::N(w), Item::N(a)])
}
#[serde_json_path::function]
fn flnn_n<'a>(a: functions::LogicalType, v: serde_json_path::functions::NodesType<'a>, args: NodesType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::L(a), Item::N(v), Item::N(args)])
}
#[serde_json_path::function]
fn flnn_l<'a>(name: serde_json_path::functions::LogicalType, this: NodesType<'a>, mut v: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::L(name), Item::N(this), Item::N(v)])
}
#[serde_json_path::function(name = "flnl_v")]
fn Fn108_x<'a>(first: LogicalType, mut second: functions::NodesType<'a>, self_: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::L(first), Item::N(second), Item::L(self_)])
}
#[serde_json_path::function]
fn flnl_n<'a>(mut x: functions::LogicalType, y: serde_json_path::functions::NodesType<'a>, z: LogicalType) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::L(x), Item::N(y), Item::L(z)])
}
#[serde_json_path::function]
fn flnl_l<'a>(v: serde_json_path::functions::LogicalType, w: NodesType<'a>, a: functions::LogicalType) -> LogicalType {
    conf::echo::logical(vec![Item::L(v), Item::N(w), Item::L(a)])
}
#[serde_json_path::function]
fn fllv_v<'a>(a: LogicalType, v: functions::LogicalType, args: serde_json_path::functions::ValueType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::L(a), Item::L(v), Item::V(args)])
}
#[serde_json_path::function(name = "fllv_n")]
fn Fn112_x<'a>(name: functions::LogicalType, this: serde_json_path::functions::LogicalType, mut v: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::L(name), Item::L(this), Item::V(v)])
}
#[serde_json_path::function]
fn fllv_l<'a>(first: serde_json_path::functions::LogicalType, mut second: LogicalType, third: functions::ValueType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::L(first), Item::L(second), Item::V(third)])
}
#[serde_json_path::function]
fn flln_v<'a>(mut x: LogicalType, y: functions::LogicalType, z: serde_json_path::functions::NodesType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::L(x), Item::L(y), Item::N(z)])
}
#[serde_json_path::function]
fn flln_n<'a>(v: functions::LogicalType, w: serde_json_path::functions::LogicalType, flln_n: NodesType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::L(v), Item::L(w), Item::N(flln_n)])
}
#[serde_json_path::function(name = "flln_l")]
fn Fn116_x<'a>(a: serde_json_path::functions::LogicalType, v: LogicalType, args: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::L(a), Item::L(v), Item::N(args)])
}
#[serde_json_path::function]
fn flll_v(name: LogicalType, this: functions::LogicalType, mut v: serde_json_path::functions::LogicalType) -> ValueType<'static> {
    conf::echo::value(vec![Item::L(name), Item::L(this), Item::L(v)])
}
#[serde_json_path::function]
fn flll_n(first: functions::LogicalType, mut second: serde_json_path::functions::LogicalType, third: LogicalType) -> NodesType<'static> {
    conf::echo::nodes(vec![Item::L(first), Item::L(second), Item::L(third)])
}
#[serde_json_path::function]
fn flll_l(mut x: serde_json_path::functions::LogicalType, y: LogicalType, z: functions::LogicalType) -> LogicalType {
    conf::echo::logical(vec![Item::L(x), Item::L(y), Item::L(z)])
}
#[serde_json_path::function(name = "fvvvv_n")]
fn Fn120_x<'a>(v: ValueType<'a>, w: functions::ValueType<'a>, a: serde_json_path::functions::ValueType<'a>, b: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::V(v), Item::V(w), Item::V(a), Item::V(b)])
}
#[serde_json_path::function]
fn fvvvn_l<'a>(a: functions::ValueType<'a>, v: serde_json_path::functions::ValueType<'a>, args: ValueType<'a>, mut value: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::V(a), Item::V(v), Item::V(args), Item::N(value)])
}
#[serde_json_path::function]
fn fvvvl_v<'a>(name: serde_json_path::functions::ValueType<'a>, this: ValueType<'a>, mut v: functions::ValueType<'a>, self_: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::V(name), Item::V(this), Item::V(v), Item::L(self_)])
}
#[serde_json_path::function]
fn fvvnv_n<'a>(first: ValueType<'a>, mut second: functions::ValueType<'a>, third: serde_json_path::functions::NodesType<'a>, v: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::V(first), Item::V(second), Item::N(third), Item::V(v)])
}
#[serde_json_path::function(name = "fvvnn_l")]
fn Fn124_x<'a>(mut x: functions::ValueType<'a>, y: serde_json_path::functions::ValueType<'a>, z: NodesType<'a>, t: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::V(x), Item::V(y), Item::N(z), Item::N(t)])
}
#[serde_json_path::function]
fn fvvnl_v<'a>(v: serde_json_path::functions::ValueType<'a>, w: ValueType<'a>, a: functions::NodesType<'a>, b: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::V(v), Item::V(w), Item::N(a), Item::L(b)])
}
#[serde_json_path::function]
fn fvvlv_n<'a>(a: ValueType<'a>, v: functions::ValueType<'a>, args: serde_json_path::functions::LogicalType, mut value: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::V(a), Item::V(v), Item::L(args), Item::V(value)])
}
#[serde_json_path::function]
fn fvvln_l<'a>(name: functions::ValueType<'a>, this: serde_json_path::functions::ValueType<'a>, mut v: LogicalType, f: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::V(name), Item::V(this), Item::L(v), Item::N(f)])
}
#[serde_json_path::function(name = "fvvll_v")]
fn Fn128_x<'a>(first: serde_json_path::functions::ValueType<'a>, mut second: ValueType<'a>, third: functions::LogicalType, v: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::V(first), Item::V(second), Item::L(third), Item::L(v)])
}
#[serde_json_path::function]
fn fvnvv_n<'a>(mut x: ValueType<'a>, y: functions::NodesType<'a>, z: serde_json_path::functions::ValueType<'a>, fvnvv_n: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::V(x), Item::N(y), Item::V(z), Item::V(fvnvv_n)])
}
#[serde_json_path::function]
fn fvnvn_l<'a>(v: functions::ValueType<'a>, w: serde_json_path::functions::NodesType<'a>, a: ValueType<'a>, b: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::V(v), Item::N(w), Item::V(a), Item::N(b)])
}
#[serde_json_path::function]
fn fvnvl_v<'a>(a: serde_json_path::functions::ValueType<'a>, v: NodesType<'a>, args: functions::ValueType<'a>, mut value: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::V(a), Item::N(v), Item::V(args), Item::L(value)])
}
#[serde_json_path::function(name = "fvnnv_n")]
fn Fn132_x<'a>(name: ValueType<'a>, this: functions::NodesType<'a>, mut v: serde_json_path::functions::NodesType<'a>, f: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::V(name), Item::N(this), Item::N(v), Item::V(f)])
}
#[serde_json_path::function]
fn fvnnn_l<'a>(first: functions::ValueType<'a>, mut second: serde_json_path::functions::NodesType<'a>, third: NodesType<'a>, v: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::V(first), Item::N(second), Item::N(third), Item::N(v)])
}
#[serde_json_path::function]
fn fvnnl_v<'a>(mut x: serde_json_path::functions::ValueType<'a>, y: NodesType<'a>, z: functions::NodesType<'a>, t: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::V(x), Item::N(y), Item::N(z), Item::L(t)])
}
#[serde_json_path::function]
fn fvnlv_n<'a>(v: ValueType<'a>, w: functions::NodesType<'a>, a: serde_json_path::functions::LogicalType, b: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::V(v), Item::N(w), Item::L(a), Item::V(b)])
}
#[serde_json_path::function(name = "fvnln_l")]
fn Fn136_x<'a>(a: functions::ValueType<'a>, v: serde_json_path::functions::NodesType<'a>, args: LogicalType, mut self_: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::V(a), Item::N(v), Item::L(args), Item::N(self_)])
}
#[serde_json_path::function]
fn fvnll_v<'a>(name: serde_json_path::functions::ValueType<'a>, this: NodesType<'a>, mut v: functions::LogicalType, f: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::V(name), Item::N(this), Item::L(v), Item::L(f)])
}
#[serde_json_path::function]
fn fvlvv_n<'a>(first: ValueType<'a>, mut second: functions::LogicalType, third: serde_json_path::functions::ValueType<'a>, v: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::V(first), Item::L(second), Item::V(third), Item::V(v)])
}
#[serde_json_path::function]
fn fvlvn_l<'a>(mut x: functions::ValueType<'a>, y: serde_json_path::functions::LogicalType, z: ValueType<'a>, t: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::V(x), Item::L(y), Item::V(z), Item::N(t)])
}
#[serde_json_path::function(name = "fvlvl_v")]
fn Fn140_x<'a>(v: serde_json_path::functions::ValueType<'a>, w: LogicalType, a: functions::ValueType<'a>, b: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::V(v), Item::L(w), Item::V(a), Item::L(b)])
}
#[serde_json_path::function]
fn fvlnv_n<'a>(a: ValueType<'a>, v: functions::LogicalType, args: serde_json_path::functions::NodesType<'a>, mut value: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::V(a), Item::L(v), Item::N(args), Item::V(value)])
}
#[serde_json_path::function]
fn fvlnn_l<'a>(name: functions::ValueType<'a>, this: serde_json_path::functions::LogicalType, mut v: NodesType<'a>, f: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::V(name), Item::L(this), Item::N(v), Item::N(f)])
}
#[serde_json_path::function]
fn fvlnl_v<'a>(first: serde_json_path::functions::ValueType<'a>, mut second: LogicalType, third: functions::NodesType<'a>, fvlnl_v: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::V(first), Item::L(second), Item::N(third), Item::L(fvlnl_v)])
}
#[serde_json_path::function(name = "fvllv_n")]
fn Fn144_x<'a>(mut x: ValueType<'a>, y: functions::LogicalType, z: serde_json_path::functions::LogicalType, t: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::V(x), Item::L(y), Item::L(z), Item::V(t)])
}
#[serde_json_path::function]
fn fvlln_l<'a>(v: functions::ValueType<'a>, w: serde_json_path::functions::LogicalType, a: LogicalType, b: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::V(v), Item::L(w), Item::L(a), Item::N(b)])
}
#[serde_json_path::function]
fn fvlll_v<'a>(a: serde_json_path::functions::ValueType<'a>, v: LogicalType, args: functions::LogicalType, mut value: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::V(a), Item::L(v), Item::L(args), Item::L(value)])
}
#[serde_json_path::function]
fn fnvvv_n<'a>(name: NodesType<'a>, this: functions::ValueType<'a>, mut v: serde_json_path::functions::ValueType<'a>, f: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::N(name), Item::V(this), Item::V(v), Item::V(f)])
}
#[serde_json_path::function(name = "fnvvn_l")]
fn Fn148_x<'a>(first: functions::NodesType<'a>, mut second: serde_json_path::functions::ValueType<'a>, third: ValueType<'a>, v: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::N(first), Item::V(second), Item::V(third), Item::N(v)])
}
#[serde_json_path::function]
fn fnvvl_v<'a>(mut x: serde_json_path::functions::NodesType<'a>, y: ValueType<'a>, z: functions::ValueType<'a>, t: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::N(x), Item::V(y), Item::V(z), Item::L(t)])
}
#[serde_json_path::function]
fn fnvnv_n<'a>(v: NodesType<'a>, w: functions::ValueType<'a>, a: serde_json_path::functions::NodesType<'a>, self_: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::N(v), Item::V(w), Item::N(a), Item::V(self_)])
}
#[serde_json_path::function]
fn fnvnn_l<'a>(a: functions::NodesType<'a>, v: serde_json_path::functions::ValueType<'a>, args: NodesType<'a>, mut value: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::N(a), Item::V(v), Item::N(args), Item::N(value)])
}
#[serde_json_path::function(name = "fnvnl_v")]
fn Fn152_x<'a>(name: serde_json_path::functions::NodesType<'a>, this: ValueType<'a>, mut v: functions::NodesType<'a>, f: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::N(name), Item::V(this), Item::N(v), Item::L(f)])
}
#[serde_json_path::function]
fn fnvlv_n<'a>(first: NodesType<'a>, mut second: functions::ValueType<'a>, third: serde_json_path::functions::LogicalType, v: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::N(first), Item::V(second), Item::L(third), Item::V(v)])
}
#[serde_json_path::function]
fn fnvln_l<'a>(mut x: functions::NodesType<'a>, y: serde_json_path::functions::ValueType<'a>, z: LogicalType, t: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::N(x), Item::V(y), Item::L(z), Item::N(t)])
}
#[serde_json_path::function]
fn fnvll_v<'a>(v: serde_json_path::functions::NodesType<'a>, w: ValueType<'a>, a: functions::LogicalType, b: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::N(v), Item::V(w), Item::L(a), Item::L(b)])
}
#[serde_json_path::function(name = "fnnvv_n")]
fn Fn156_x<'a>(a: NodesType<'a>, v: functions::NodesType<'a>, args: serde_json_path::functions::ValueType<'a>, mut value: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::N(a), Item::N(v), Item::V(args), Item::V(value)])
}
#[serde_json_path::function]
fn fnnvn_l<'a>(name: functions::NodesType<'a>, this: serde_json_path::functions::NodesType<'a>, mut v: ValueType<'a>, fnnvn_l: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::N(name), Item::N(this), Item::V(v), Item::N(fnnvn_l)])
}
#[serde_json_path::function]
fn fnnvl_v<'a>(first: serde_json_path::functions::NodesType<'a>, mut second: NodesType<'a>, third: functions::ValueType<'a>, v: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::N(first), Item::N(second), Item::V(third), Item::L(v)])
}
#[serde_json_path::function]
fn fnnnv_n<'a>(mut x: NodesType<'a>, y: functions::NodesType<'a>, z: serde_json_path::functions::NodesType<'a>, t: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::N(x), Item::N(y), Item::N(z), Item::V(t)])
}
#[serde_json_path::function(name = "fnnnn_l")]
fn Fn160_x<'a>(v: functions::NodesType<'a>, w: serde_json_path::functions::NodesType<'a>, a: NodesType<'a>, b: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::N(v), Item::N(w), Item::N(a), Item::N(b)])
}
#[serde_json_path::function]
fn fnnnl_v<'a>(a: serde_json_path::functions::NodesType<'a>, v: NodesType<'a>, args: functions::NodesType<'a>, mut value: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::N(a), Item::N(v), Item::N(args), Item::L(value)])
}
#[serde_json_path::function]
fn fnnlv_n<'a>(name: NodesType<'a>, this: functions::NodesType<'a>, mut v: serde_json_path::functions::LogicalType, f: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::N(name), Item::N(this), Item::L(v), Item::V(f)])
}
#[serde_json_path::function]
fn fnnln_l<'a>(first: functions::NodesType<'a>, mut second: serde_json_path::functions::NodesType<'a>, third: LogicalType, v: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::N(first), Item::N(second), Item::L(third), Item::N(v)])
}
#[serde_json_path::function(name = "fnnll_v")]
fn Fn164_x<'a>(mut x: serde_json_path::functions::NodesType<'a>, y: NodesType<'a>, z: functions::LogicalType, self_: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::N(x), Item::N(y), Item::L(z), Item::L(self_)])
}
#[serde_json_path::function]
fn fnlvv_n<'a>(v: NodesType<'a>, w: functions::LogicalType, a: serde_json_path::functions::ValueType<'a>, b: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::N(v), Item::L(w), Item::V(a), Item::V(b)])
}
#[serde_json_path::function]
fn fnlvn_l<'a>(a: functions::NodesType<'a>, v: serde_json_path::functions::LogicalType, args: ValueType<'a>, mut value: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::N(a), Item::L(v), Item::V(args), Item::N(value)])
}
#[serde_json_path::function]
fn fnlvl_v<'a>(name: serde_json_path::functions::NodesType<'a>, this: LogicalType, mut v: functions::ValueType<'a>, f: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::N(name), Item::L(this), Item::V(v), Item::L(f)])
}
#[serde_json_path::function(name = "fnlnv_n")]
fn Fn168_x<'a>(first: NodesType<'a>, mut second: functions::LogicalType, third: serde_json_path::functions::NodesType<'a>, v: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::N(first), Item::L(second), Item::N(third), Item::V(v)])
}
#[serde_json_path::function]
fn fnlnn_l<'a>(mut x: functions::NodesType<'a>, y: serde_json_path::functions::LogicalType, z: NodesType<'a>, t: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::N(x), Item::L(y), Item::N(z), Item::N(t)])
}
#[serde_json_path::function]
fn fnlnl_v<'a>(v: serde_json_path::functions::NodesType<'a>, w: LogicalType, a: functions::NodesType<'a>, b: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::N(v), Item::L(w), Item::N(a), Item::L(b)])
}
#[serde_json_path::function]
fn fnllv_n<'a>(a: NodesType<'a>, v: functions::LogicalType, args: serde_json_path::functions::LogicalType, mut fnllv_n: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::N(a), Item::L(v), Item::L(args), Item::V(fnllv_n)])
}
#[serde_json_path::function(name = "fnlln_l")]
fn Fn172_x<'a>(name: functions::NodesType<'a>, this: serde_json_path::functions::LogicalType, mut v: LogicalType, f: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::N(name), Item::L(this), Item::L(v), Item::N(f)])
}
#[serde_json_path::function]
fn fnlll_v<'a>(first: serde_json_path::functions::NodesType<'a>, mut second: LogicalType, third: functions::LogicalType, v: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::N(first), Item::L(second), Item::L(third), Item::L(v)])
}
#[serde_json_path::function]
fn flvvv_n<'a>(mut x: LogicalType, y: functions::ValueType<'a>, z: serde_json_path::functions::ValueType<'a>, t: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::L(x), Item::V(y), Item::V(z), Item::V(t)])
}
#[serde_json_path::function]
fn flvvn_l<'a>(v: functions::LogicalType, w: serde_json_path::functions::ValueType<'a>, a: ValueType<'a>, b: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::L(v), Item::V(w), Item::V(a), Item::N(b)])
}
#[serde_json_path::function(name = "flvvl_v")]
fn Fn176_x<'a>(a: serde_json_path::functions::LogicalType, v: ValueType<'a>, args: functions::ValueType<'a>, mut value: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::L(a), Item::V(v), Item::V(args), Item::L(value)])
}
#[serde_json_path::function]
fn flvnv_n<'a>(name: LogicalType, this: functions::ValueType<'a>, mut v: serde_json_path::functions::NodesType<'a>, f: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::L(name), Item::V(this), Item::N(v), Item::V(f)])
}
#[serde_json_path::function]
fn flvnn_l<'a>(first: functions::LogicalType, mut second: serde_json_path::functions::ValueType<'a>, third: NodesType<'a>, self_: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::L(first), Item::V(second), Item::N(third), Item::N(self_)])
}
#[serde_json_path::function]
fn flvnl_v<'a>(mut x: serde_json_path::functions::LogicalType, y: ValueType<'a>, z: functions::NodesType<'a>, t: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::L(x), Item::V(y), Item::N(z), Item::L(t)])
}
#[serde_json_path::function(name = "flvlv_n")]
fn Fn180_x<'a>(v: LogicalType, w: functions::ValueType<'a>, a: serde_json_path::functions::LogicalType, b: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::L(v), Item::V(w), Item::L(a), Item::V(b)])
}
#[serde_json_path::function]
fn flvln_l<'a>(a: functions::LogicalType, v: serde_json_path::functions::ValueType<'a>, args: LogicalType, mut value: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::L(a), Item::V(v), Item::L(args), Item::N(value)])
}
#[serde_json_path::function]
fn flvll_v<'a>(name: serde_json_path::functions::LogicalType, this: ValueType<'a>, mut v: functions::LogicalType, f: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::L(name), Item::V(this), Item::L(v), Item::L(f)])
}
#[serde_json_path::function]
fn flnvv_n<'a>(first: LogicalType, mut second: functions::NodesType<'a>, third: serde_json_path::functions::ValueType<'a>, v: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::L(first), Item::N(second), Item::V(third), Item::V(v)])
}
#[serde_json_path::function(name = "flnvn_l")]
fn Fn184_x<'a>(mut x: functions::LogicalType, y: serde_json_path::functions::NodesType<'a>, z: ValueType<'a>, t: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::L(x), Item::N(y), Item::V(z), Item::N(t)])
}
#[serde_json_path::function]
fn flnvl_v<'a>(v: serde_json_path::functions::LogicalType, w: NodesType<'a>, a: functions::ValueType<'a>, flnvl_v: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::L(v), Item::N(w), Item::V(a), Item::L(flnvl_v)])
}
#[serde_json_path::function]
fn flnnv_n<'a>(a: LogicalType, v: functions::NodesType<'a>, args: serde_json_path::functions::NodesType<'a>, mut value: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::L(a), Item::N(v), Item::N(args), Item::V(value)])
}
#[serde_json_path::function]
fn flnnn_l<'a>(name: functions::LogicalType, this: serde_json_path::functions::NodesType<'a>, mut v: NodesType<'a>, f: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::L(name), Item::N(this), Item::N(v), Item::N(f)])
}
#[serde_json_path::function(name = "flnnl_v")]
fn Fn188_x<'a>(first: serde_json_path::functions::LogicalType, mut second: NodesType<'a>, third: functions::NodesType<'a>, v: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::L(first), Item::N(second), Item::N(third), Item::L(v)])
}
#[serde_json_path::function]
fn flnlv_n<'a>(mut x: LogicalType, y: functions::NodesType<'a>, z: serde_json_path::functions::LogicalType, t: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::L(x), Item::N(y), Item::L(z), Item::V(t)])
}
#[serde_json_path::function]
fn flnln_l<'a>(v: functions::LogicalType, w: serde_json_path::functions::NodesType<'a>, a: LogicalType, b: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::L(v), Item::N(w), Item::L(a), Item::N(b)])
}
#[serde_json_path::function]
fn flnll_v<'a>(a: serde_json_path::functions::LogicalType, v: NodesType<'a>, args: functions::LogicalType, mut value: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::L(a), Item::N(v), Item::L(args), Item::L(value)])
}
#[serde_json_path::function(name = "fllvv_n")]
fn Fn192_x<'a>(name: LogicalType, this: functions::LogicalType, mut v: serde_json_path::functions::ValueType<'a>, self_: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::L(name), Item::L(this), Item::V(v), Item::V(self_)])
}
#[serde_json_path::function]
fn fllvn_l<'a>(first: functions::LogicalType, mut second: serde_json_path::functions::LogicalType, third: ValueType<'a>, v: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::L(first), Item::L(second), Item::V(third), Item::N(v)])
}
#[serde_json_path::function]
fn fllvl_v<'a>(mut x: serde_json_path::functions::LogicalType, y: LogicalType, z: functions::ValueType<'a>, t: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::L(x), Item::L(y), Item::V(z), Item::L(t)])
}
#[serde_json_path::function]
fn fllnv_n<'a>(v: LogicalType, w: functions::LogicalType, a: serde_json_path::functions::NodesType<'a>, b: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::L(v), Item::L(w), Item::N(a), Item::V(b)])
}
#[serde_json_path::function(name = "fllnn_l")]
fn Fn196_x<'a>(a: functions::LogicalType, v: serde_json_path::functions::LogicalType, args: NodesType<'a>, mut value: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::L(a), Item::L(v), Item::N(args), Item::N(value)])
}
#[serde_json_path::function]
fn fllnl_v<'a>(name: serde_json_path::functions::LogicalType, this: LogicalType, mut v: functions::NodesType<'a>, f: serde_json_path::functions::LogicalType) -> ValueType<'a> {
    conf::echo::value(vec![Item::L(name), Item::L(this), Item::N(v), Item::L(f)])
}
#[serde_json_path::function]
fn flllv_n<'a>(first: LogicalType, mut second: functions::LogicalType, third: serde_json_path::functions::LogicalType, v: ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::L(first), Item::L(second), Item::L(third), Item::V(v)])
}
#[serde_json_path::function]
fn fllln_l<'a>(mut x: functions::LogicalType, y: serde_json_path::functions::LogicalType, z: LogicalType, fllln_l: functions::NodesType<'a>) -> LogicalType {
    conf::echo::logical(vec![Item::L(x), Item::L(y), Item::L(z), Item::N(fllln_l)])
}
#[serde_json_path::function(name = "fllll_v")]
fn Fn200_x(v: serde_json_path::functions::LogicalType, w: LogicalType, a: functions::LogicalType, b: serde_json_path::functions::LogicalType) -> ValueType<'static> {
    conf::echo::value(vec![Item::L(v), Item::L(w), Item::L(a), Item::L(b)])
}
#[serde_json_path::function]
fn flvnlv_n<'a>(a: LogicalType, v: functions::ValueType<'a>, args: serde_json_path::functions::NodesType<'a>, mut value: LogicalType, a4: functions::ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::L(a), Item::V(v), Item::N(args), Item::L(value), Item::V(a4)])
}
#[serde_json_path::function]
fn fvnlvnl_l<'a>(name: functions::ValueType<'a>, this: serde_json_path::functions::NodesType<'a>, mut v: LogicalType, f: functions::ValueType<'a>, name4: serde_json_path::functions::NodesType<'a>, this5: LogicalType) -> LogicalType {
    conf::echo::logical(vec![Item::V(name), Item::N(this), Item::L(v), Item::V(f), Item::N(name4), Item::L(this5)])
}
#[serde_json_path::function]
fn fnlvnlvn_v<'a>(first: serde_json_path::functions::NodesType<'a>, mut second: LogicalType, third: functions::ValueType<'a>, v: serde_json_path::functions::NodesType<'a>, first4: LogicalType, second5: functions::ValueType<'a>, mut third6: serde_json_path::functions::NodesType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::N(first), Item::L(second), Item::V(third), Item::N(v), Item::L(first4), Item::V(second5), Item::N(third6)])
}
#[serde_json_path::function(name = "flvnlvnlv_n")]
fn Fn204_x<'a>(mut x: LogicalType, y: functions::ValueType<'a>, z: serde_json_path::functions::NodesType<'a>, t: LogicalType, x4: functions::ValueType<'a>, mut y5: serde_json_path::functions::NodesType<'a>, z6: LogicalType, t7: functions::ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::L(x), Item::V(y), Item::N(z), Item::L(t), Item::V(x4), Item::N(y5), Item::L(z6), Item::V(t7)])
}
#[serde_json_path::function]
fn fvnlvnlvnl_l<'a>(v: functions::ValueType<'a>, w: serde_json_path::functions::NodesType<'a>, a: LogicalType, b: functions::ValueType<'a>, mut v4: serde_json_path::functions::NodesType<'a>, w5: LogicalType, a6: functions::ValueType<'a>, b7: serde_json_path::functions::NodesType<'a>, v8: LogicalType) -> LogicalType {
    conf::echo::logical(vec![Item::V(v), Item::N(w), Item::L(a), Item::V(b), Item::N(v4), Item::L(w5), Item::V(a6), Item::N(b7), Item::L(v8)])
}
#[serde_json_path::function]
fn fnlvnlvnlvn_v<'a>(a: serde_json_path::functions::NodesType<'a>, v: LogicalType, args: functions::ValueType<'a>, mut value: serde_json_path::functions::NodesType<'a>, a4: LogicalType, v5: functions::ValueType<'a>, args6: serde_json_path::functions::NodesType<'a>, value7: LogicalType, mut a8: functions::ValueType<'a>, self_: serde_json_path::functions::NodesType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::N(a), Item::L(v), Item::V(args), Item::N(value), Item::L(a4), Item::V(v5), Item::N(args6), Item::L(value7), Item::V(a8), Item::N(self_)])
}
#[serde_json_path::function]
fn flvnlvnlvnlv_n<'a>(name: LogicalType, this: functions::ValueType<'a>, mut v: serde_json_path::functions::NodesType<'a>, f: LogicalType, name4: functions::ValueType<'a>, this5: serde_json_path::functions::NodesType<'a>, v6: LogicalType, mut f7: functions::ValueType<'a>, name8: serde_json_path::functions::NodesType<'a>, this9: LogicalType, v10: functions::ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::L(name), Item::V(this), Item::N(v), Item::L(f), Item::V(name4), Item::N(this5), Item::L(v6), Item::V(f7), Item::N(name8), Item::L(this9), Item::V(v10)])
}
#[serde_json_path::function(name = "fvnlvnlvnlvnl_l")]
fn Fn208_x<'a>(first: functions::ValueType<'a>, mut second: serde_json_path::functions::NodesType<'a>, third: LogicalType, v: functions::ValueType<'a>, first4: serde_json_path::functions::NodesType<'a>, second5: LogicalType, mut third6: functions::ValueType<'a>, v7: serde_json_path::functions::NodesType<'a>, first8: LogicalType, second9: functions::ValueType<'a>, third10: serde_json_path::functions::NodesType<'a>, mut v11: LogicalType) -> LogicalType {
    conf::echo::logical(vec![Item::V(first), Item::N(second), Item::L(third), Item::V(v), Item::N(first4), Item::L(second5), Item::V(third6), Item::N(v7), Item::L(first8), Item::V(second9), Item::N(third10), Item::L(v11)])
}
#[serde_json_path::function]
fn fnlvnlvnlvnlvn_v<'a>(mut x: serde_json_path::functions::NodesType<'a>, y: LogicalType, z: functions::ValueType<'a>, t: serde_json_path::functions::NodesType<'a>, x4: LogicalType, mut y5: functions::ValueType<'a>, z6: serde_json_path::functions::NodesType<'a>, t7: LogicalType, x8: functions::ValueType<'a>, y9: serde_json_path::functions::NodesType<'a>, mut z10: LogicalType, t11: functions::ValueType<'a>, x12: serde_json_path::functions::NodesType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::N(x), Item::L(y), Item::V(z), Item::N(t), Item::L(x4), Item::V(y5), Item::N(z6), Item::L(t7), Item::V(x8), Item::N(y9), Item::L(z10), Item::V(t11), Item::N(x12)])
}
#[serde_json_path::function]
fn flvnlvnlvnlvnlv_n<'a>(v: LogicalType, w: functions::ValueType<'a>, a: serde_json_path::functions::NodesType<'a>, b: LogicalType, mut v4: functions::ValueType<'a>, w5: serde_json_path::functions::NodesType<'a>, a6: LogicalType, b7: functions::ValueType<'a>, v8: serde_json_path::functions::NodesType<'a>, mut w9: LogicalType, a10: functions::ValueType<'a>, b11: serde_json_path::functions::NodesType<'a>, v12: LogicalType, w13: functions::ValueType<'a>) -> NodesType<'a> {
    conf::echo::nodes(vec![Item::L(v), Item::V(w), Item::N(a), Item::L(b), Item::V(v4), Item::N(w5), Item::L(a6), Item::V(b7), Item::N(v8), Item::L(w9), Item::V(a10), Item::N(b11), Item::L(v12), Item::V(w13)])
}
#[serde_json_path::function]
fn fvnlvnlvnlvnlvnl_l<'a>(a: functions::ValueType<'a>, v: serde_json_path::functions::NodesType<'a>, args: LogicalType, mut value: functions::ValueType<'a>, a4: serde_json_path::functions::NodesType<'a>, v5: LogicalType, args6: functions::ValueType<'a>, value7: serde_json_path::functions::NodesType<'a>, mut a8: LogicalType, v9: functions::ValueType<'a>, args10: serde_json_path::functions::NodesType<'a>, value11: LogicalType, a12: functions::ValueType<'a>, mut v13: serde_json_path::functions::NodesType<'a>, args14: LogicalType) -> LogicalType {
    conf::echo::logical(vec![Item::V(a), Item::N(v), Item::L(args), Item::V(value), Item::N(a4), Item::L(v5), Item::V(args6), Item::N(value7), Item::L(a8), Item::V(v9), Item::N(args10), Item::L(value11), Item::V(a12), Item::N(v13), Item::L(args14)])
}
#[serde_json_path::function(name = "fnlvnlvnlvnlvnlvn_v")]
fn Fn212_x<'a>(name: serde_json_path::functions::NodesType<'a>, this: LogicalType, mut v: functions::ValueType<'a>, f: serde_json_path::functions::NodesType<'a>, name4: LogicalType, this5: functions::ValueType<'a>, v6: serde_json_path::functions::NodesType<'a>, mut f7: LogicalType, name8: functions::ValueType<'a>, this9: serde_json_path::functions::NodesType<'a>, v10: LogicalType, f11: functions::ValueType<'a>, mut name12: serde_json_path::functions::NodesType<'a>, this13: LogicalType, v14: functions::ValueType<'a>, f15: serde_json_path::functions::NodesType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::N(name), Item::L(this), Item::V(v), Item::N(f), Item::L(name4), Item::V(this5), Item::N(v6), Item::L(f7), Item::V(name8), Item::N(this9), Item::L(v10), Item::V(f11), Item::N(name12), Item::L(this13), Item::V(v14), Item::N(f15)])
}
#[serde_json_path::function]
fn fvvvvv_v<'a>(first: ValueType<'a>, mut second: functions::ValueType<'a>, third: serde_json_path::functions::ValueType<'a>, v: ValueType<'a>, fvvvvv_v: functions::ValueType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::V(first), Item::V(second), Item::V(third), Item::V(v), Item::V(fvvvvv_v)])
}
#[serde_json_path::function]
fn fnnnnn_v<'a>(mut x: functions::NodesType<'a>, y: serde_json_path::functions::NodesType<'a>, z: NodesType<'a>, t: functions::NodesType<'a>, x4: serde_json_path::functions::NodesType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::N(x), Item::N(y), Item::N(z), Item::N(t), Item::N(x4)])
}
#[serde_json_path::function]
fn flllll_v(v: serde_json_path::functions::LogicalType, w: LogicalType, a: functions::LogicalType, b: serde_json_path::functions::LogicalType, mut v4: LogicalType) -> ValueType<'static> {
    conf::echo::value(vec![Item::L(v), Item::L(w), Item::L(a), Item::L(b), Item::L(v4)])
}
#[serde_json_path::function(name = "g")]
fn Fn216_x<'a>(a: ValueType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::V(a)])
}
#[serde_json_path::function]
fn g_<'a>(name: functions::ValueType<'a>, this: serde_json_path::functions::ValueType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::V(name), Item::V(this)])
}
#[serde_json_path::function]
fn g__<'a>(first: serde_json_path::functions::ValueType<'a>, mut second: ValueType<'a>, third: functions::ValueType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::V(first), Item::V(second), Item::V(third)])
}
#[serde_json_path::function]
fn g__1<'a>(mut x: ValueType<'a>, y: functions::ValueType<'a>, z: serde_json_path::functions::ValueType<'a>, t: ValueType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::V(x), Item::V(y), Item::V(z), Item::V(t)])
}
#[serde_json_path::function(name = "g0")]
fn Fn220_x<'a>(self_: functions::NodesType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::N(self_)])
}
#[serde_json_path::function]
fn g09(a: serde_json_path::functions::LogicalType) -> ValueType<'static> {
    conf::echo::value(vec![Item::L(a)])
}
#[serde_json_path::function]
fn zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz<'a>(name: ValueType<'a>) -> ValueType<'a> {
    conf::echo::value(vec![Item::V(name)])
}

fn main() {
    conf::main("sigs")
}
