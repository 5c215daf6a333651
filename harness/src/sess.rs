//! Sessions: random histories of calls of the public interface, recorded as the events that
//! spec/JPTrace.tla understands, one line each.
use crate::enc::{self, Nodes, Path};
use crate::gen::Gen;
use serde_json::Value;
use serde_json_path::{JsonPath, JsonPathExt, LocatedNodeList, NodeList};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

pub struct Doc {
    pub v: &'static Value,
    pub nodes: Nodes,
}
impl Doc {
    pub fn new(v: Value) -> Self {
        let v: &'static Value = Box::leak(Box::new(v));
        Doc { v, nodes: Nodes::of(v) }
    }
}

pub struct Out {
    pub lines: Vec<String>,
}
impl Out {
    pub fn ev(&mut self, s: String) {
        self.lines.push(s);
    }
}

pub fn b(x: bool) -> &'static str {
    if x {
        "true"
    } else {
        "false"
    }
}
fn ps<'a>(d: &Doc, l: impl IntoIterator<Item = &'a Value>) -> Vec<Path> {
    l.into_iter().map(|v| d.nodes.at(v)).collect()
}

/// Parse through one or all entry points; records the event, gives the path
pub fn parse(out: &mut Out, h: usize, text: &str, all: bool) -> Option<JsonPath> {
    let first = guard(|| JsonPath::parse(text));
    let mut st = vec![];
    let mut pos = vec![];
    let mut msg = vec![];
    let mut paths: Vec<JsonPath> = vec![];
    let mut note = |r: Option<Result<JsonPath, Option<serde_json_path::ParseError>>>| match r {
        None => st.push("\"panic\"".to_string()),
        Some(Ok(p)) => {
            paths.push(p);
            st.push("\"ok\"".to_string())
        }
        Some(Err(e)) => {
            st.push("\"err\"".to_string());
            if let Some(e) = e {
                pos.push(format!("{}", e.position().min(100_000_000)));
                msg.push(b(e.to_string().contains(e.message()) && !e.message().is_empty()).to_string());
            }
        }
    };
    note(first.map(|r| r.map_err(Some)));
    if all {
        note(guard(|| text.parse::<JsonPath>().map_err(Some)));
        note(guard(|| serde_json::from_value::<JsonPath>(Value::String(text.to_string())).map_err(|_| None)));
        let js = serde_json::to_string(text).unwrap();
        note(guard(|| serde_json::from_str::<JsonPath>(&js).map_err(|_| None)));
        note(guard(|| serde_json::from_reader::<_, JsonPath>(js.as_bytes()).map_err(|_| None)));
    }
    let eq = paths.windows(2).all(|w| w[0] == w[1] && w[1] == w[0]);
    out.ev(format!(
        r#"{{"op":"parse","h":{h},"s":{},"r":{},"pos":{},"msg":{},"eq":{}}}"#,
        enc::text(text),
        enc::seq(st),
        enc::seq(pos),
        enc::seq(msg),
        b(eq)
    ));
    paths.into_iter().next()
}

pub fn query(out: &mut Out, h: usize, p: &JsonPath, di: usize, d: &Doc, l: usize, how: &str) -> Option<NodeList<'static>> {
    let r = guard(|| match how {
        "x" => d.v.json_path(p),
        "c" => p.clone().query(d.v),
        _ => p.query(d.v),
    });
    match &r {
        Some(n) => {
            let r = ps(d, n.clone().all());
            out.ev(format!(r#"{{"op":"query","h":{h},"d":{di},"l":{l},"r":{}}}"#, enc::paths(&r)))
        }
        None => out.ev(format!(r#"{{"op":"panic","in":"query","h":{h},"d":{di}}}"#)),
    }
    r
}

pub fn located(out: &mut Out, h: usize, p: &JsonPath, di: usize, d: &Doc, l: usize) -> Option<LocatedNodeList<'static>> {
    let r = guard(|| {
        let q = ps(d, p.query(d.v).all());
        let x = ps(d, d.v.json_path(p).all());
        (q, x, p.query_located(d.v))
    });
    match r {
        Some((q, x, n)) => {
            let all = n.clone().all();
            let r = ps(d, all.iter().map(|n| n.node()));
            let locs: Vec<Path> = all.iter().map(|n| enc::location(n.location())).collect();
            out.ev(format!(
                r#"{{"op":"loc","h":{h},"d":{di},"l":{l},"q":{},"x":{},"r":{},"locs":{}}}"#,
                enc::paths(&q),
                enc::paths(&x),
                enc::paths(&r),
                enc::paths(&locs)
            ));
            Some(n)
        }
        None => {
            out.ev(format!(r#"{{"op":"panic","in":"loc","h":{h},"d":{di}}}"#));
            None
        }
    }
}

/// Equality and order of the locations in a list
fn matrix(out: &mut Out, l: usize, n: &LocatedNodeList) {
    let k = n.len().min(9);
    let r = guard(|| {
        let mut eq = vec![];
        let mut cmp = vec![];
        for i in 0..k {
            let (mut e, mut c) = (vec![], vec![]);
            for j in 0..k {
                let (x, y) = (n.get(i).unwrap().location(), n.get(j).unwrap().location());
                e.push(b(x == y && !(x != y)).to_string());
                c.push(
                    match x.partial_cmp(y) {
                        Some(std::cmp::Ordering::Less) => -1,
                        Some(std::cmp::Ordering::Equal) => 0,
                        Some(std::cmp::Ordering::Greater) => 1,
                        None => 2,
                    }
                    .to_string(),
                );
            }
            eq.push(enc::seq(e));
            cmp.push(enc::seq(c));
        }
        (eq, cmp)
    });
    match r {
        Some((eq, cmp)) => out.ev(format!(r#"{{"op":"matrix","l":{l},"eq":{},"cmp":{}}}"#, enc::seq(eq), enc::seq(cmp))),
        None => out.ev(format!(r#"{{"op":"panic","in":"matrix","l":{l}}}"#)),
    }
}

fn as_text(v: Value) -> String {
    match v {
        Value::String(s) => enc::text(&s),
        _ => "[-1]".into(),
    }
}

/// The texts of locations
pub fn texts(out: &mut Out, l: usize, n: &LocatedNodeList, di: usize, d: &Doc, cap: usize) {
    let k = n.len().min(cap);
    let r = guard(|| {
        let mut c: Vec<Vec<String>> = vec![vec![]; 8];
        for i in 0..k {
            let e = n.get(i).unwrap();
            let t = e.location().to_string();
            c[0].push(enc::text(&t));
            c[1].push(as_text(serde_json::to_value(e.location()).unwrap()));
            c[2].push(as_text(enc::location_of(&serde_json::to_value(e).unwrap()).clone()));
            let p = e.location().to_json_pointer();
            c[3].push(enc::text(&p));
            c[4].push(enc::path(&d.v.pointer(&p).map_or(enc::unknown(), |v| d.nodes.at(v))));
            // parsed again as a query
            match JsonPath::parse(&t) {
                Ok(q) => {
                    let m = q.query_located(d.v);
                    c[5].push(enc::paths(&ps(d, m.nodes())));
                    c[6].push(enc::paths(&m.locations().map(enc::location).collect::<Vec<_>>()));
                    c[7].push(b(m.len() == 1 && m.get(0).unwrap().location() == e.location()).into());
                }
                Err(_) => {
                    c[5].push("[]".into());
                    c[6].push("[]".into());
                    c[7].push("false".into());
                }
            }
        }
        c
    });
    match r {
        Some(c) => {
            let mut t = format!(r#"{{"op":"text","l":{l},"d":{di}"#);
            for (n, v) in ["np", "ser", "lser", "ptr", "pn", "rp", "rl", "re"].iter().zip(c) {
                t.push_str(&format!(r#","{n}":{}"#, enc::seq(v)));
            }
            t.push('}');
            out.ev(t)
        }
        None => out.ev(format!(r#"{{"op":"panic","in":"text","l":{l}}}"#)),
    }
}

/// Display, serialize, and parse again
pub fn display(out: &mut Out, h: usize, p: &JsonPath, h2: usize) -> Option<JsonPath> {
    let r = guard(|| {
        let s = p.to_string();
        let ser = serde_json::to_value(p).unwrap();
        let q = JsonPath::parse(&s);
        let (ok, eq, s2) = match &q {
            Ok(q) => (true, q == p && p == q, q.to_string()),
            Err(_) => (false, false, String::new()),
        };
        let de = serde_json::from_value::<JsonPath>(ser.clone()).map_or(false, |q| &q == p);
        (s, ser, q.ok(), ok, eq && de, s2)
    });
    match r {
        Some((s, ser, q, ok, eq, s2)) => {
            out.ev(format!(
                r#"{{"op":"disp","h":{h},"s":{},"ser":{},"ok":{},"eq":{},"s2":{},"h2":{h2}}}"#,
                enc::text(&s),
                as_text(ser),
                b(ok),
                b(eq),
                enc::text(&s2)
            ));
            q
        }
        None => {
            out.ev(format!(r#"{{"op":"panic","in":"disp","h":{h}}}"#));
            None
        }
    }
}

fn opt(p: Option<Path>) -> String {
    match p {
        Some(p) => format!("[{}]", enc::path(&p)),
        None => "[]".into(),
    }
}

/// Locations taken apart
pub fn elements(out: &mut Out, l: usize, n: &LocatedNodeList<'static>, g: &mut Gen) {
    use serde_json_path::{NormalizedPath, PathElement};
    fn one(e: Option<&PathElement>) -> String {
        e.map_or("[]".into(), |e| format!("[{}]", enc::ints(&enc::element(e))))
    }
    fn many(e: Option<&[PathElement]>) -> String {
        e.map_or("[]".into(), |e| format!("[{}]", enc::path(&e.iter().map(enc::element).collect())))
    }
    let k = n.len().min(5);
    let rows = guard(|| {
        let mut rows = vec![];
        for i in 0..k {
            let e = n.get(i).unwrap();
            let p: &NormalizedPath = e.location();
            let len = p.len();
            let mut rg = vec![];
            for _ in 0..4 {
                let (a, z) = (g.r.below(len + 2), g.r.below(len + 3));
                let (o, r) = match g.r.below(6) {
                    0 => ("from", many(p.get(a..))),
                    1 => ("to", many(p.get(..z))),
                    2 => ("tii", many(p.get(..=z))),
                    3 => ("all", many(p.get(..))),
                    4 => ("inc", many(p.get(a..=z))),
                    _ => ("ex", many(p.get(a..z))),
                };
                rg.push(format!(r#"{{"o":"{o}","a":{a},"b":{z},"r":{r}}}"#));
            }
            let els: Vec<PathElement> = p.iter().cloned().collect();
            let all: Vec<PathElement> = (0..k).flat_map(|j| n.get(j).unwrap().location().iter().cloned().collect::<Vec<_>>()).take(12).collect();
            let eq = els.iter().map(|x| {
                enc::seq(all.iter().map(|y| {
                    let (v, w): (bool, bool) = match y {
                        PathElement::Name(s) => {
                            let t: &str = s;
                            let o = t.to_string();
                            (*x == *t && *x == t && *x == PathElement::from(&o), *x != *t)
                        }
                        PathElement::Index(i) => (*x == *i && *x == PathElement::from(*i), *x != *i),
                    };
                    (if v == w || v != (x == y) || enc::far(x) { "2" } else if v { "1" } else { "0" }).into()
                }))
            });
            let cmp = els.iter().map(|x| {
                enc::seq(all.iter().map(|y| {
                    let c = match x.partial_cmp(y) {
                        Some(std::cmp::Ordering::Less) => -1,
                        Some(std::cmp::Ordering::Equal) => 0,
                        Some(std::cmp::Ordering::Greater) => 1,
                        None => 2,
                    };
                    c.to_string()
                }))
            });
            let raw = |x: &PathElement| match x {
                PathElement::Name(s) => enc::ints(&std::iter::once(1).chain(s.chars().map(|c| c as u32)).collect::<Vec<_>>()),
                PathElement::Index(i) => enc::ints(&[0, (*i).min(1_000_000_000) as u32]),
            };
            rows.push(format!(
                r#"{{"len":{len},"empty":{},"gets":{},"first":{},"last":{},"it":{},"rev":{},"into":{},"conv":{},"raw":{},"rg":{},"all":{},"eq":{},"cmp":{},"disp":{},"ser":{}}}"#,
                b(p.is_empty()),
                enc::seq((0..len + 2).map(|j| one(p.get(j)))),
                one(p.first()),
                one(p.last()),
                enc::path(&p.iter().map(enc::element).collect()),
                enc::path(&p.iter().rev().map(enc::element).collect()),
                enc::path(&p.clone().into_iter().map(|x| enc::element(&x)).collect()),
                enc::path(&NormalizedPath::from(e.clone()).iter().map(enc::element).collect()),
                enc::seq(els.iter().map(raw)),
                enc::seq(rg),
                enc::path(&all.iter().map(enc::element).collect()),
                enc::seq(eq),
                enc::seq(cmp),
                enc::texts(els.iter().map(|x| x.to_string())),
                enc::seq(els.iter().map(|x| enc::value(&serde_json::to_value(x).unwrap()))),
            ));
        }
        rows
    });
    out.ev(match rows {
        Some(r) => format!(r#"{{"op":"elem","l":{l},"e":{}}}"#, enc::seq(r)),
        None => format!(r#"{{"op":"panic","in":"elem","l":{l}}}"#),
    });
}

pub fn acc_plain(out: &mut Out, l: usize, n: &NodeList<'static>, di: usize, d: &Doc) {
    let at = |v: &'static Value| d.nodes.at(v);
    let r = guard(|| {
        let len = n.len().min(1 << 30);
        let gets: Vec<String> = (0..len.min(1000) + 2).map(|i| opt(n.get(i).map(at))).collect();
        let amo = match n.at_most_one() {
            Ok(x) => format!(r#"{{"e":0,"r":{}}}"#, opt(x.map(at))),
            Err(e) => format!(r#"{{"e":{},"r":[],"t":{}}}"#, e.0.min(1 << 30), enc::text(&e.to_string())),
        };
        let back = NodeList::from(n.clone().all());
        let same = back == *n && !(back != *n);
        let exo = match n.exactly_one() {
            Ok(x) => format!(r#"{{"e":"","n":0,"r":{}}}"#, opt(Some(at(x)))),
            Err(e) => exo_err(&e),
        };
        format!(
            r#"{{"op":"acc","l":{l},"d":{di},"kind":"plain","len":{len},"empty":{},"first":{},"last":{},"gets":{},"amo":{amo},"exo":{exo},"back":{},"same":{},"one":{},"all":{},"it":{},"into":{},"ser":{}}}"#,
            b(n.is_empty()),
            opt(n.first().map(at)),
            opt(n.last().map(at)),
            enc::seq(gets),
            enc::paths(&ps(d, back.all())),
            b(same),
            one(n).map_or("[]".into(), |v| format!("[{}]", enc::path(&at(v)))),
            enc::paths(&ps(d, n.clone().all())),
            enc::paths(&ps(d, n.iter().copied())),
            enc::paths(&ps(d, n.clone())),
            enc::value(&serde_json::to_value(n).unwrap()),
        )
    });
    out.ev(r.unwrap_or(format!(r#"{{"op":"panic","in":"acc","l":{l}}}"#)));
}
#[allow(deprecated)]
fn one(n: &NodeList<'static>) -> Option<&'static Value> {
    n.clone().one()
}
fn exo_err(e: &serde_json_path::ExactlyOneError) -> String {
    let k = match (e.is_empty(), e.is_more_than_one(), e.as_more_than_one()) {
        (true, false, None) => ("empty", 0),
        (false, true, Some(n)) => ("more", n.min(1 << 30)),
        _ => ("?", 0),
    };
    format!(r#"{{"e":"{}","n":{},"r":[],"t":{}}}"#, k.0, k.1, enc::text(&e.to_string()))
}

pub fn acc_located(out: &mut Out, l: usize, n: &LocatedNodeList<'static>, di: usize, d: &Doc) {
    let at = |v: &Value| d.nodes.at(v);
    // a located node as its node's path, or <<[2]>> if the pair is not one of the list's
    let pairs: Vec<(Path, Path)> = n.clone().all().iter().map(|e| (at(e.node()), enc::location(e.location()))).collect();
    let pr = |e: &serde_json_path::LocatedNode| {
        let x = (at(e.node()), enc::location(e.location()));
        if pairs.contains(&x) {
            x.0
        } else {
            enc::unknown()
        }
    };
    let r = guard(|| {
        let len = n.len().min(1 << 30);
        let gets: Vec<String> = (0..len.min(1000) + 2).map(|i| opt(n.get(i).map(pr))).collect();
        let amo = match n.clone().at_most_one() {
            Ok(x) => format!(r#"{{"e":0,"r":{}}}"#, opt(x.as_ref().map(pr))),
            Err(e) => format!(r#"{{"e":{},"r":[],"t":{}}}"#, e.0.min(1 << 30), enc::text(&e.to_string())),
        };
        let back = LocatedNodeList::from(n.clone().all());
        let same = back == *n && !(back != *n);
        let exo = match n.clone().exactly_one() {
            Ok(x) => format!(r#"{{"e":"","n":0,"r":{}}}"#, opt(Some(pr(&x)))),
            Err(e) => exo_err(&e),
        };
        let ser = serde_json::to_value(n).unwrap();
        let (mut sl, mut sn) = (vec![], vec![]);
        let mut fine = true;
        match &ser {
            Value::Array(a) => {
                for x in a {
                    fine &= x.as_object().map_or(false, |o| o.len() == 2);
                    sl.push(as_text(enc::location_of(x).clone()));
                    sn.push(x["node"].clone());
                }
            }
            _ => fine = false,
        }
        let to: Vec<Path> = n.clone().into_iter().map(|e| enc::location(&e.to_location())).collect();
        let dt: Vec<String> = n.locations().map(|x| x.to_string()).collect();
        format!(
            r#"{{"op":"acc","l":{l},"d":{di},"kind":"loc","len":{len},"empty":{},"first":{},"last":{},"gets":{},"amo":{amo},"exo":{exo},"back":{},"same":{},"all":{},"it":{},"into":{},"ser":{},"sl":{},"dt":{},"fine":{},"nodes":{},"locs":{},"to":{}}}"#,
            b(n.is_empty()),
            opt(n.first().map(pr)),
            opt(n.last().map(pr)),
            enc::seq(gets),
            enc::paths(&back.all().iter().map(pr).collect::<Vec<_>>()),
            b(same),
            enc::paths(&n.clone().all().iter().map(pr).collect::<Vec<_>>()),
            enc::paths(&n.iter().map(pr).collect::<Vec<_>>()),
            enc::paths(&n.clone().into_iter().map(|e| pr(&e)).collect::<Vec<_>>()),
            enc::value(&Value::Array(sn)),
            enc::seq(sl),
            enc::texts(dt),
            b(fine),
            enc::paths(&ps(d, n.nodes())),
            enc::paths(&n.locations().map(enc::location).collect::<Vec<_>>()),
            enc::paths(&to),
        )
    });
    out.ev(r.unwrap_or(format!(r#"{{"op":"panic","in":"acc","l":{l}}}"#)));
}

/// One step of an iterator's history: (operation, k)
pub type Step = (u8, usize);
fn drive<I, T>(mut it: I, steps: &[Step], f: impl Fn(T) -> Path) -> String
where
    I: DoubleEndedIterator<Item = T> + ExactSizeIterator,
{
    let mut rows = vec![];
    for (o, k) in steps {
        let name = ["next", "back", "nth", "nthb", "count", "last", "rest", "rrest"][*o as usize];
        let mut r: Vec<Path> = vec![];
        let mut n = 0;
        let mut end = true;
        match o {
            0 => {
                r.extend(it.next().map(&f));
                end = false
            }
            1 => {
                r.extend(it.next_back().map(&f));
                end = false
            }
            2 => {
                r.extend(it.nth(*k).map(&f));
                end = false
            }
            3 => {
                r.extend(it.nth_back(*k).map(&f));
                end = false
            }
            4 => n = it.by_ref().count(),
            5 => r.extend(it.by_ref().last().map(&f)),
            6 => r.extend(it.by_ref().map(&f)),
            _ => r.extend(it.by_ref().rev().map(&f)),
        }
        let _ = end;
        let (lo, hi) = it.size_hint();
        rows.push(format!(
            r#"{{"o":"{name}","k":{k},"r":{},"c":{n},"n":{},"lo":{},"hi":{}}}"#,
            enc::paths(&r),
            it.len().min(1 << 30),
            lo.min(1 << 30),
            hi.map_or(-1, |h| h.min(1 << 30) as i64)
        ));
    }
    enc::seq(rows)
}
pub fn iterate_plain(out: &mut Out, l: usize, n: &NodeList<'static>, d: &Doc, steps: &[Step], by: &str) {
    let r = guard(|| match by {
        "into" => drive(n.clone().into_iter(), steps, |v| d.nodes.at(v)),
        _ => drive(n.iter(), steps, |v| d.nodes.at(v)),
    });
    out.ev(match r {
        Some(r) => format!(r#"{{"op":"iter","l":{l},"by":"n","steps":{r}}}"#),
        None => format!(r#"{{"op":"panic","in":"iter","l":{l}}}"#),
    });
}
pub fn iterate_located(out: &mut Out, l: usize, n: &LocatedNodeList<'static>, d: &Doc, steps: &[Step], by: &str) {
    let r = guard(|| match by {
        "into" => drive(n.clone().into_iter(), steps, |e| d.nodes.at(e.node())),
        "intoloc" => drive(n.clone().into_iter(), steps, |e| enc::location(&e.to_location())),
        "iter" => drive(n.iter(), steps, |e| d.nodes.at(e.node())),
        "iterloc" => drive(n.iter(), steps, |e| enc::location(e.location())),
        "nodes" => drive(n.nodes(), steps, |v| d.nodes.at(v)),
        _ => drive(n.locations(), steps, enc::location),
    });
    let k = if matches!(by, "into" | "iter" | "nodes") { "n" } else { "c" };
    out.ev(match r {
        Some(r) => format!(r#"{{"op":"iter","l":{l},"by":"{k}","steps":{r}}}"#),
        None => format!(r#"{{"op":"panic","in":"iter","l":{l}}}"#),
    });
}

pub fn dedup(out: &mut Out, l: usize, n: &LocatedNodeList<'static>, m: usize, d: &Doc) -> Option<LocatedNodeList<'static>> {
    let r = guard(|| {
        let a = n.clone().dedup();
        let mut c = n.clone();
        c.dedup_in_place();
        let again = a.clone().dedup();
        (a, c, again)
    });
    let f = |n: &LocatedNodeList<'static>| {
        let all = n.clone().all();
        (
            enc::paths(&ps(d, all.iter().map(|e| e.node()))),
            enc::paths(&all.iter().map(|e| enc::location(e.location())).collect::<Vec<_>>()),
        )
    };
    match r {
        Some((a, c, again)) => {
            let (x, y, z) = (f(&a), f(&c), f(&again));
            out.ev(format!(
                r#"{{"op":"dedup","l":{l},"m":{m},"r":{},"locs":{},"ir":{},"ilocs":{},"ar":{},"alocs":{},"n":{}}}"#,
                x.0,
                x.1,
                y.0,
                y.1,
                z.0,
                z.1,
                a.len()
            ));
            Some(a)
        }
        None => {
            out.ev(format!(r#"{{"op":"panic","in":"dedup","l":{l}}}"#));
            None
        }
    }
}

pub fn doc_event(out: &mut Out, di: usize, v: &Value) {
    out.ev(format!(r#"{{"op":"doc","d":{di},"v":{}}}"#, enc::value(v)));
}

fn steps(g: &mut Gen, len: usize) -> Vec<Step> {
    let n = 1 + g.r.below(len + 4).min(9);
    let mut s: Vec<Step> = vec![];
    for _ in 0..n {
        let o = g.r.weigh(&[40, 40, 10, 10]) as u8;
        let k = if o > 1 { g.r.below(3) } else { 0 };
        s.push((o, k));
    }
    if g.r.pct(60) {
        s.push((4 + g.r.below(4) as u8, 0));
        if g.r.pct(50) {
            s.push((g.r.below(2) as u8, 0));
        }
    }
    s
}

/// The work for a query
fn work(g: &mut Gen, out: &mut Out, p: &JsonPath, di: usize, d: &Doc, h: &mut usize, l: &mut usize) {
    for (op, w) in g.p.ops {
        if !g.r.pct(*w) {
            continue;
        }
        *l += 1;
        match *op {
            "q" => {
                query(out, *h, p, di, d, *l, "q");
            }
            "x" => {
                query(out, *h, p, di, d, *l, "x");
            }
            "l" => {
                located(out, *h, p, di, d, *l);
            }
            "t" => {
                if let Some(n) = located(out, *h, p, di, d, *l) {
                    texts(out, *l, &n, di, d, 10)
                }
            }
            "e" => {
                if let Some(n) = located(out, *h, p, di, d, *l) {
                    matrix(out, *l, &n)
                }
            }
            "p" => {
                if let Some(n) = located(out, *h, p, di, d, *l) {
                    elements(out, *l, &n, g);
                    matrix(out, *l, &n)
                }
            }
            "d" => {
                *h += 1;
                if let Some(q) = display(out, *h - 1, p, *h) {
                    query(out, *h, &q, di, d, *l, "q");
                }
            }
            "a" => {
                if let Some(n) = query(out, *h, p, di, d, *l, "q") {
                    acc_plain(out, *l, &n, di, d);
                }
                *l += 1;
                if let Some(n) = located(out, *h, p, di, d, *l) {
                    acc_located(out, *l, &n, di, d);
                }
            }
            "i" => {
                if let Some(n) = query(out, *h, p, di, d, *l, "q") {
                    let s = steps(g, n.len());
                    let by = *g.r.pick(&["iter", "into"]);
                    iterate_plain(out, *l, &n, d, &s, by);
                }
                *l += 1;
                if let Some(n) = located(out, *h, p, di, d, *l) {
                    for _ in 0..3 {
                        let s = steps(g, n.len());
                        let by = *g.r.pick(&["iter", "into", "iterloc", "intoloc", "nodes", "locations", "nodes", "locations"]);
                        iterate_located(out, *l, &n, d, &s, by);
                    }
                }
            }
            "u" => {
                if let Some(n) = located(out, *h, p, di, d, *l) {
                    dedup(out, *l, &n, *l + 1, d);
                    *l += 1;
                }
            }
            _ => {}
        }
    }
}

/// One session
pub fn session(g: &mut Gen, out: &mut Out) {
    out.ev(r#"{"op":"reset"}"#.into());
    let all = g.p.ops.iter().any(|o| o.0 == "all");
    let (mut l, mut h) = (0, 0);
    let mut docs = vec![];
    if g.r.below(1000) < g.p.big {
        let (v, qs) = g.big();
        doc_event(out, 0, &v);
        docs.push(Doc::new(v));
        for t in qs {
            h += 1;
            if let Some(p) = parse(out, h, &t, all) {
                work(g, out, &p, 0, &docs[0], &mut h, &mut l);
            }
        }
        out.ev(format!(r#"{{"op":"docend","d":0,"v":{}}}"#, enc::value(docs[0].v)));
        return;
    }
    let nd = 1 + g.r.below(g.p.docs);
    for i in 0..nd {
        let v = g.doc();
        doc_event(out, i, &v);
        docs.push(Doc::new(v));
    }
    let mut prev = String::from("$.a[0]");
    for _ in 0..g.p.nq {
        let di = g.r.below(nd);
        let d = &docs[di];
        let mut t = g.query(d.v);
        if g.r.pct(g.p.mutate) {
            t = match g.r.below(12) {
                0 => g.noise(),
                1 => g.nested(),
                _ => g.mutate(&t, &prev),
            };
        }
        prev = t.clone();
        h += 1;
        let Some(p) = parse(out, h, &t, all) else { continue };
        work(g, out, &p, di, d, &mut h, &mut l);
        if g.r.pct(10) {
            // a path may be used on another document
            let dj = g.r.below(nd);
            if g.p.ops.iter().any(|o| o.0 == "q") {
                l += 1;
                query(out, h.max(1), &p, dj, &docs[dj], l, "c");
            }
        }
    }
    for (i, d) in docs.iter().enumerate() {
        out.ev(format!(r#"{{"op":"docend","d":{i},"v":{}}}"#, enc::value(d.v)));
    }
}

// ---- equality of paths ----

/// Sessions for C22: paths of texts that resemble one another, compared
pub fn equality(g: &mut Gen, out: &mut Out) {
    out.ev(r#"{"op":"reset"}"#.into());
    let d = g.doc();
    doc_event(out, 0, &d);
    let d = Doc::new(d);
    let mut h = 0;
    let mut l = 0;
    for _ in 0..g.p.nq {
        let base = g.query(d.v);
        let mut texts = vec![base.clone()];
        for _ in 0..5 {
            let a = g.r.pick(&texts).clone();
            texts.push(match g.r.below(8) {
                0 => a,
                1 | 2 => g.mutate(&a, &base),
                3 => a.replace('\'', "\""),
                4 => a.replace(' ', ""),
                _ => g.resemble(&a),
            });
        }
        let mut ps: Vec<(usize, JsonPath)> = vec![];
        for t in &texts {
            h += 1;
            if let Some(p) = parse(out, h, t, false) {
                if g.r.pct(25) {
                    ps.push((h, p.clone()));
                }
                ps.push((h, p));
            }
        }
        let r = guard(|| enc::seq(ps.iter().map(|x| enc::seq(ps.iter().map(|y| (if (x.1 == y.1) == (x.1 != y.1) { "2" } else if x.1 == y.1 { "1" } else { "0" }).into())))));
        let hs = enc::seq(ps.iter().map(|p| p.0.to_string()));
        out.ev(match r {
            Some(r) => format!(r#"{{"op":"same","hs":{hs},"eq":{r}}}"#),
            None => r#"{"op":"panic","in":"same"}"#.into(),
        });
        // paths found equal give equal results
        for (h, p) in &ps {
            if p == &ps[0].1 {
                l += 1;
                query(out, *h, p, 0, &d, l, "q");
            }
        }
    }
}

// ---- purity ----

/// Sessions for C17: the same paths and documents over and over, in varying histories
pub fn purity(g: &mut Gen, out: &mut Out) {
    out.ev(r#"{"op":"reset"}"#.into());
    let nd = 2 + g.r.below(2);
    // documents stay at their address; what is there may be replaced by another document
    let mut slots: Vec<Box<Value>> = (0..nd).map(|_| Box::new(g.doc())).collect();
    let mut maps: Vec<Nodes> = slots.iter().map(|d| Nodes::of(d)).collect();
    for i in 0..nd {
        doc_event(out, i, &slots[i]);
    }
    let mut texts: Vec<String> = vec![];
    let mut of = std::collections::HashMap::new();
    let mut paths: Vec<(usize, JsonPath)> = vec![];
    let mut buf = String::with_capacity(1 << 16);
    let mut h = 0;
    for step in 0..g.p.nq {
        let di = g.r.below(nd);
        match if paths.len() < 2 { 0 } else { g.r.below(13) } {
            0 | 1 => {
                // a new text, an earlier one, a text that resembles one, or one that is wrong
                let t = match g.r.below(7) {
                    0 if !texts.is_empty() => g.r.pick(&texts).clone(),
                    2 | 3 if !texts.is_empty() => {
                        let a = if g.r.pct(60) { texts[texts.len() - 1].clone() } else { g.r.pick(&texts).clone() };
                        g.resemble(&a)
                    }
                    1 if !texts.is_empty() => {
                        let a = g.r.pick(&texts).clone();
                        g.mutate(&a, "$.a")
                    }
                    _ => g.query(&slots[di]),
                };
                h += 1;
                texts.push(t.clone());
                of.insert(h, t.clone());
                // texts come in one buffer, so at one address
                buf.clear();
                buf.push_str(&t);
                if let Some(p) = parse(out, h, &buf, false) {
                    paths.push((h, p));
                }
            }
            2 => {
                // replace a document in place
                let nv = if g.r.pct(30) { (*slots[g.r.below(nd)]).clone() } else { g.doc() };
                out.ev(format!(r#"{{"op":"docend","d":{di},"v":{}}}"#, enc::value(&slots[di])));
                *slots[di] = nv;
                maps[di] = Nodes::of(&slots[di]);
                doc_event(out, di, &slots[di]);
            }
            3 => {
                // copies of paths
                let (k, p) = g.r.pick(&paths).clone();
                let q = match g.r.below(3) {
                    0 => guard(|| p.clone()),
                    1 => guard(|| serde_json::from_value::<JsonPath>(of[&k].clone().into()).unwrap()),
                    // whether the serialized text gives the path is for C14
                    _ => guard(|| {
                        let q = serde_json::to_string(&p).ok().and_then(|t| serde_json::from_str::<JsonPath>(&t).ok());
                        q.filter(|q| q == &p).unwrap_or_else(|| p.clone())
                    }),
                };
                match q {
                    // a copy stands for the text that the original was parsed from
                    Some(q) => paths.push((k, q)),
                    None => out.ev(format!(r#"{{"op":"panic","in":"copy","h":{k}}}"#)),
                }
            }
            4 => {
                // drop a path
                let i = g.r.below(paths.len());
                paths.swap_remove(i);
            }
            5 => {
                // threads
                let k = 2 + g.r.below(5);
                let n = 4 + g.r.below(8);
                let jobs: Vec<Vec<(usize, usize)>> =
                    (0..k).map(|_| (0..n).map(|_| (g.r.below(paths.len()), g.r.below(nd))).collect()).collect();
                let bar = std::sync::Barrier::new(k);
                let (pr, sr, mr) = (&paths, &slots, &maps);
                let res: Vec<Option<Vec<Vec<Path>>>> = std::thread::scope(|s| {
                    let hs: Vec<_> = jobs
                        .iter()
                        .map(|js| {
                            let bar = &bar;
                            s.spawn(move || {
                                bar.wait();
                                js.iter()
                                    .map(|(p, d)| {
                                        let r = pr[*p].1.query(&sr[*d]).all();
                                        r.into_iter().map(|v| mr[*d].at(v)).collect::<Vec<Path>>()
                                    })
                                    .collect::<Vec<_>>()
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().ok()).collect()
                });
                for (js, rs) in jobs.iter().zip(res) {
                    match rs {
                        None => out.ev(r#"{"op":"panic","in":"thread"}"#.into()),
                        Some(rs) => {
                            for ((p, d), r) in js.iter().zip(rs) {
                                out.ev(format!(
                                    r#"{{"op":"query","h":{},"d":{d},"l":0,"r":{}}}"#,
                                    paths[*p].0,
                                    enc::paths(&r)
                                ));
                            }
                        }
                    }
                }
            }
            6 => {
                // parse in threads, while others query
                let k = 4;
                let ts: Vec<String> = (0..k).map(|_| g.r.pick(&texts).clone()).collect();
                let bar = std::sync::Barrier::new(k);
                let res: Vec<Option<Option<JsonPath>>> = std::thread::scope(|s| {
                    let hs: Vec<_> = ts
                        .iter()
                        .map(|t| {
                            let bar = &bar;
                            s.spawn(move || {
                                bar.wait();
                                JsonPath::parse(t).ok()
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().ok()).collect()
                });
                for (t, r) in ts.iter().zip(res) {
                    h += 1;
                    let st = match &r {
                        None => "panic",
                        Some(None) => "err",
                        Some(Some(_)) => "ok",
                    };
                    out.ev(format!(
                        r#"{{"op":"parse","h":{h},"s":{},"r":["{st}"],"pos":[],"msg":[],"eq":true}}"#,
                        enc::text(t)
                    ));
                    of.insert(h, t.clone());
                    if let Some(Some(p)) = r {
                        paths.push((h, p));
                    }
                }
            }
            k => {
                let (hh, p) = g.r.pick(&paths).clone();
                let (v, m) = (&*slots[di], &maps[di]);
                let r = guard(|| match k {
                    7 => v.json_path(&p).all().into_iter().map(|v| m.at(v)).collect::<Vec<Path>>(),
                    8 => p.query_located(v).nodes().map(|v| m.at(v)).collect(),
                    9 => {
                        let a = p.query(v).all();
                        let b = p.query(v).all();
                        if step % 2 == 0 { a } else { b }.into_iter().map(|v| m.at(v)).collect()
                    }
                    _ => p.query(v).all().into_iter().map(|v| m.at(v)).collect(),
                });
                match r {
                    Some(r) => out.ev(format!(r#"{{"op":"query","h":{hh},"d":{di},"l":0,"r":{}}}"#, enc::paths(&r))),
                    None => out.ev(format!(r#"{{"op":"panic","in":"query","h":{hh},"d":{di}}}"#)),
                }
            }
        }
    }
    for i in 0..nd {
        out.ev(format!(r#"{{"op":"docend","d":{i},"v":{}}}"#, enc::value(&slots[i])));
    }
}
