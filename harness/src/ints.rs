//! The I-JSON integer type.
use crate::enc;
use crate::rng::Rng;
use crate::sess::{b, guard, Out};
use serde_json_path_core::spec::integer::Integer;

const MAX: i128 = 9007199254740991;

fn any(r: &mut Rng) -> i128 {
    let s = if r.pct(50) { 1 } else { -1 };
    s * match r.below(12) {
        0 => 0,
        1 => r.range(1, 12) as i128,
        2 => MAX - r.below(3) as i128,
        3 => MAX + r.below(4) as i128,
        4 => (1i128 << r.below(66)) + r.range(-2, 2) as i128,
        5 => r.next() as i128,
        6 => (r.next() >> 11) as i128,
        7 => (r.next() >> r.below(64)) as i128,
        8 => 94906265 + r.range(-3, 3) as i128,
        9 => (1i128 << 31) + r.range(-2, 2) as i128,
        10 => 3037000499 + r.range(-2, 2) as i128,
        _ => (1i128 << 26) * (1 + r.below(4) as i128) + r.range(-1, 1) as i128,
    }
}
fn within(r: &mut Rng) -> i128 {
    loop {
        let x = any(r);
        if x.abs() <= MAX {
            return x;
        }
    }
}
fn int(i: i128) -> String {
    enc::int(&i.to_string())
}
fn res(r: Option<Option<Integer>>) -> String {
    match r {
        None => r#"[{"neg":true,"ds":[]}]"#.into(),
        Some(None) => "[]".into(),
        Some(Some(i)) => format!("[{}]", enc::int(&i.to_string())),
    }
}
pub fn from(i: i128, ty: &str) -> Option<Option<Option<Integer>>> {
    macro_rules! t {
        ($t:ty) => {
            <$t>::try_from(i).ok().map(|x| guard(|| Integer::try_from(x).ok()))
        };
    }
    match ty {
        "i8" => t!(i8),
        "i16" => t!(i16),
        "i32" => t!(i32),
        "i64" => t!(i64),
        "i128" => t!(i128),
        "isize" => t!(isize),
        "u8" => t!(u8),
        "u16" => t!(u16),
        "u32" => t!(u32),
        "u64" => t!(u64),
        "u128" => t!(u128),
        "usize" => t!(usize),
        _ => Some(guard(|| i.to_string().parse::<Integer>().ok())),
    }
}
pub const TYPES: &[&str] =
    &["i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize", "text"];

pub fn arith(out: &mut Out, f: &str, x: i128, y: i128) {
    let mk = |i: i128| Integer::try_from(i as i64).ok();
    let (Some(a), Some(c)) = (mk(x), mk(y)) else {
        out.ev(format!(r#"{{"op":"int","f":"from","ty":"i64","a":{},"b":{},"r":[]}}"#, int(x), int(x)));
        return;
    };
    let r = guard(|| match f {
        "add" => a.checked_add(c),
        "sub" => a.checked_sub(c),
        "mul" => a.checked_mul(c),
        _ => Some(a.abs()),
    });
    out.ev(format!(r#"{{"op":"int","f":"{f}","ty":"","a":{},"b":{},"r":{}}}"#, int(x), int(y), res(r)));
}
pub fn compare(out: &mut Out, x: i128, y: i128) {
    let mk = |i: i128| Integer::try_from(i as i64).ok();
    let (Some(a), Some(c)) = (mk(x), mk(y)) else { return };
    let ord = |o: Option<std::cmp::Ordering>| o.map_or(2, |o| o as i32);
    out.ev(format!(
        r#"{{"op":"int","f":"cmp","ty":"","a":{},"b":{},"eq":[{},{}],"c":[{},{},{}]}}"#,
        int(x),
        int(y),
        b(a == c),
        b(a == y as i64),
        ord(Some(a.cmp(&c))),
        ord(a.partial_cmp(&c)),
        ord(a.partial_cmp(&(y as i64))),
    ));
}
pub fn convert(out: &mut Out, x: i128, ty: &str) {
    if let Some(r) = from(x, ty) {
        out.ev(format!(r#"{{"op":"int","f":"from","ty":"{ty}","a":{},"b":{},"r":{}}}"#, int(x), int(x), res(r)));
    }
}

pub fn session(r: &mut Rng, out: &mut Out) {
    out.ev(r#"{"op":"reset"}"#.into());
    for _ in 0..60 {
        match r.below(8) {
            0 | 1 => {
                let x = any(r);
                for ty in TYPES {
                    convert(out, x, ty);
                }
            }
            2 => {
                let (x, y) = (within(r), within(r));
                let y = if r.pct(30) { x } else { y };
                compare(out, x, y)
            }
            3 => {
                let x = within(r);
                arith(out, "abs", x, 0)
            }
            4 => {
                let (x, y) = (within(r), within(r));
                let y = if r.pct(40) { ((MAX - x.abs()) + r.range(-2, 2) as i128).min(MAX) * if r.pct(50) { 1 } else { -1 } } else { y };
                arith(out, "add", x, y)
            }
            5 => {
                let (x, y) = (within(r), within(r));
                let y = if r.pct(40) { ((MAX - x.abs()) + r.range(-2, 2) as i128).min(MAX) * if r.pct(50) { 1 } else { -1 } } else { y };
                arith(out, "sub", x, y)
            }
            _ => {
                let (x, y) = (within(r), within(r));
                let y = if r.pct(60) && x != 0 { (MAX / x.abs() + r.range(-2, 2) as i128).min(MAX).max(-MAX) * if r.pct(50) { 1 } else { -1 } } else { y };
                arith(out, "mul", x, y)
            }
        }
    }
}
