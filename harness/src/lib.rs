//! The conformance harness: drives the real code and records what it does, or runs vectors that
//! the models emit against it. See /verif/DESIGN.md.
pub mod echo;
pub mod enc;
pub mod gen;
pub mod ints;
pub mod prof;
pub mod rng;
pub mod sess;
pub mod sigtab;
pub mod vectors;

use serde_json::Value;
use std::io::Write;

/// Equality of JSON values, with numbers by their decimal value
pub fn val_eq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => enc::num(&enc::numeral(x), false) == enc::num(&enc::numeral(y), false),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| val_eq(a, b)),
        (Value::Object(x), Value::Object(y)) => {
            x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| val_eq(v, w)))
        }
        _ => a == b,
    }
}

fn one_session(reg: &str, name: &str, seed: u64, j: u64) -> Vec<String> {
    let mut out = sess::Out { lines: vec![] };
    if name == "C20" {
        let mut r = rng::Rng::new(seed, name, j);
        ints::session(&mut r, &mut out);
        return out.lines;
    }
    let p = prof::profile(name).expect("a profile");
    let fns = match reg {
        "shadow" => gen::SHADOW,
        "sigs" => sigtab::SIGS,
        _ => gen::CUSTOM,
    };
    let mut g = gen::Gen { r: rng::Rng::new(seed, name, j), p: &p, fns, open: 0 };
    if name.starts_with("C17") {
        sess::purity(&mut g, &mut out)
    } else if p.name == "C22" {
        sess::equality(&mut g, &mut out)
    } else {
        sess::session(&mut g, &mut out)
    }
    out.lines
}

/// `record PROFILE SEED FROM TO PREFIX FILES`: sessions FROM..TO, into FILES files
/// `vectors FILE`: run the vectors in a file; prints one line per vector that fails
/// `alone`: a document and a text per line of the input; prints the paths that are selected
pub fn main(reg: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let reg = reg.to_string();
    // a large stack of our own: how deep texts and values may nest is not the subject
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(move || run(&reg)).unwrap();
    if t.join().is_err() {
        std::process::exit(101)
    }
}
fn run(reg: &str) {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "record" => {
            let (seed, from, to) = (a[3].parse().unwrap(), a[4].parse::<u64>().unwrap(), a[5].parse::<u64>().unwrap());
            let k: u64 = a[7].parse().unwrap();
            // the files are written by threads of their own: sessions do not depend on each other
            let hs: Vec<_> = (0..k)
                .map(|i| {
                    let (reg, name, pre) = (reg.to_string(), a[2].clone(), a[6].clone());
                    std::thread::Builder::new()
                        .stack_size(256 << 20)
                        .spawn(move || {
                            let f = std::fs::File::create(format!("{pre}{i}.ndjson")).unwrap();
                            let mut f = std::io::BufWriter::new(f);
                            let mut j = from + i;
                            while j < to {
                                std::fs::write(format!("{pre}{i}.at"), j.to_string()).unwrap();
                                for (n, l) in one_session(&reg, &name, seed, j).iter().enumerate() {
                                    if n == 0 {
                                        writeln!(f, r#"{{"op":"reset","j":{j}}}"#).unwrap();
                                    } else {
                                        writeln!(f, "{l}").unwrap();
                                    }
                                }
                                j += k;
                            }
                            f.flush().unwrap();
                            let _ = std::fs::remove_file(format!("{pre}{i}.at"));
                        })
                        .unwrap()
                })
                .collect();
            for h in hs {
                h.join().unwrap();
            }
        }
        "vectors" => vectors::run(&a[2]),
        "alone" => {
            for l in std::io::stdin().lines() {
                let e: Value = serde_json::from_str(&l.unwrap()).unwrap();
                let d = enc::from_value(&e["v"]);
                let m = enc::Nodes::of(&d);
                let r = sess::guard(|| {
                    serde_json_path::JsonPath::parse(&enc::from_text(&e["s"]))
                        .ok()
                        .map(|p| p.query(&d).all().into_iter().map(|v| m.at(v)).collect::<Vec<_>>())
                });
                match r {
                    Some(Some(r)) => println!("{}", enc::paths(&r)),
                    Some(None) => println!("\"err\""),
                    None => println!("\"panic\""),
                }
            }
        }
        x => panic!("unknown mode {x}"),
    }
}
