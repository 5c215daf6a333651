//! Vectors: what the models say, against what the code does.
use crate::enc::{self, Nodes, Path};
use crate::sess::guard;
use serde_json::Value;
use serde_json_path::{JsonPath, JsonPathExt};
use std::io::BufRead;

/// The clauses that the code violates on a query vector
fn query(s: &str, doc: &Value, want: &[Path], vec: &Value) -> Vec<String> {
    let m = Nodes::of(doc);
    let at = |v: &Value| m.at(v);
    let Some(p) = guard(|| JsonPath::parse(s)) else { return vec!["panic-parse".into()] };
    let Ok(p) = p else { return vec!["reject".into()] };
    let r = guard(|| {
        let mut bad = vec![];
        let q: Vec<Path> = p.query(doc).iter().map(|v| at(v)).collect();
        if q != want {
            // a known finding?
            match vec["k2"].as_array().and_then(|l| l.iter().find(|k| enc::from_paths(&k["r"]) == q)) {
                Some(k) => bad.extend(k["c"].as_array().unwrap().iter().map(|c| format!("known-{}", c.as_str().unwrap()))),
                None => bad.push(format!("query:{}", enc::paths(&q))),
            }
        }
        let x: Vec<Path> = doc.json_path(&p).iter().map(|v| at(v)).collect();
        let l = p.query_located(doc);
        let ln: Vec<Path> = l.nodes().map(at).collect();
        let lc: Vec<Path> = l.locations().map(enc::location).collect();
        if x != q {
            bad.push("ext".into());
        }
        if ln != q {
            bad.push("locnodes".into());
        }
        if lc != ln {
            bad.push("location".into());
        }
        if vec["nd"] == Value::Bool(true) {
            return bad;
        }
        // the displayed path is the same query
        let t = p.to_string();
        match JsonPath::parse(&t) {
            Err(_) => bad.push("disp-reparse".into()),
            Ok(p2) => {
                if p2 != p {
                    bad.push("disp-eq".into());
                }
                if p2.to_string() != t {
                    bad.push("disp-fix".into());
                }
                let q2: Vec<Path> = p2.query(doc).iter().map(|v| at(v)).collect();
                if q2 != q {
                    bad.push("disp-query".into());
                }
            }
        }
        bad
    });
    r.unwrap_or_else(|| vec!["panic:query".into()])
}

/// The clauses that the code violates on a text, through all entry points. `want`: 0 rejected, 1 accepted,
/// 2 rejected but for a known leniency, 3 either; `bd` has the offsets an error may be at
fn text(t: &str, want: i64, v: &Value) -> Vec<String> {
    let js = serde_json::to_string(t).unwrap();
    let all = guard(|| {
        (
            JsonPath::parse(t),
            [
                t.parse::<JsonPath>().ok(),
                serde_json::from_value::<JsonPath>(Value::String(t.to_string())).ok(),
                serde_json::from_str::<JsonPath>(&js).ok(),
                serde_json::from_reader::<_, JsonPath>(js.as_bytes()).ok(),
            ],
        )
    });
    let Some((r, others)) = all else { return vec!["panic-parse".into()] };
    let mut bad = vec![];
    match (want, r.is_ok()) {
        (1, false) => bad.push("reject".into()),
        (0, true) => bad.push("accept".into()),
        (2, true) => bad.push("accept-lenient".into()),
        _ => {}
    }
    if others.iter().any(|o| o.is_some() != r.is_ok()) {
        bad.push("agree".into());
    }
    match r {
        Ok(p) => {
            if others.iter().flatten().any(|o| o != &p) {
                bad.push("equal".into());
            }
        }
        Err(e) => {
            if let Some(bd) = v["bd"].as_array() {
                if !bd.iter().any(|b| b.as_u64() == Some(e.position() as u64)) {
                    bad.push("position".into());
                }
            }
            if e.message().is_empty() || !e.to_string().contains(e.message()) {
                bad.push("message".into());
            }
            if let Some(n) = v["arity"].as_array() {
                // the numbers that the message gives after these words
                let says = |word: &str| {
                    let t = &e.message()[e.message().find(word)? + word.len()..];
                    let d: String = t.trim_start().chars().take_while(char::is_ascii_digit).collect();
                    d.parse::<u64>().ok()
                };
                if [("expected", &n[0]), ("received", &n[1])].iter().any(|(w, k)| says(w).is_some_and(|x| Some(x) != k.as_u64())) {
                    bad.push("counts".into());
                }
            }
        }
    }
    bad
}

/// The clauses that the code violates on the locations of all nodes of a document
fn locations(v: &Value) -> Vec<String> {
    let doc = enc::from_value(&v["d"]);
    let m = Nodes::of(&doc);
    let r = guard(|| {
        let mut bad = vec![];
        let l = JsonPath::parse("$..*").unwrap().query_located(&doc);
        let root = JsonPath::parse("$").unwrap().query_located(&doc);
        let want = v["all"].as_array().unwrap();
        for w in want {
            let p = enc::from_path(&w["p"]);
            let (np, ptr) = (enc::from_text(&w["np"]), enc::from_text(&w["ptr"]));
            let Some(e) = l.iter().chain(root.iter()).find(|e| m.at(e.node()) == p) else {
                bad.push("missing".into());
                continue;
            };
            if enc::location(e.location()) != p {
                bad.push("location".into());
            }
            let loc = e.location();
            let n = p.len();
            let el = |x: Option<&serde_json_path::PathElement>| x.map(enc::element);
            if loc.len() != n || loc.is_empty() != (n == 0) {
                bad.push("elemlen".into());
            }
            if el(loc.first()) != p.first().cloned() || el(loc.last()) != p.last().cloned() {
                bad.push("elemends".into());
            }
            if (0..n + 2).any(|i| el(loc.get(i)) != p.get(i).cloned()) {
                bad.push("elemget".into());
            }
            let many = |x: Option<&[serde_json_path::PathElement]>| x.map(|x| x.iter().map(enc::element).collect::<Path>());
            if (0..n + 2).any(|a| (0..n + 3).any(|b| many(loc.get(a..b)) != p.get(a..b).map(|x| x.to_vec()) || many(loc.get(a..=b)) != p.get(a..=b).map(|x| x.to_vec())))
                || (0..n + 2).any(|a| many(loc.get(a..)) != p.get(a..).map(|x| x.to_vec()) || many(loc.get(..a)) != p.get(..a).map(|x| x.to_vec()))
            {
                bad.push("elemrange".into());
            }
            let back: Path = p.iter().rev().cloned().collect();
            if loc.iter().rev().map(enc::element).collect::<Path>() != back
                || loc.clone().into_iter().map(|x| enc::element(&x)).collect::<Path>() != p
                || serde_json_path::NormalizedPath::from(e.clone()).iter().map(enc::element).collect::<Path>() != p
            {
                bad.push("elements".into());
            }
            if e.location().to_string() != np {
                bad.push("np".into());
            }
            if serde_json::to_value(e.location()).unwrap() != Value::String(np.clone())
                || enc::location_of(&serde_json::to_value(e).unwrap()) != &Value::String(np.clone())
            {
                bad.push("ser".into());
            }
            let q = e.location().to_json_pointer();
            if q != ptr {
                bad.push("ptr".into());
            }
            if doc.pointer(&q).map(|x| m.at(x)) != Some(p.clone()) {
                bad.push("pn".into());
            }
            let again = JsonPath::parse(&e.location().to_string()).map(|q| {
                let x = q.query_located(&doc);
                x.len() == 1 && m.at(x.first().unwrap().node()) == p && x.first().unwrap().location() == e.location()
            });
            if !again.unwrap_or(false) {
                bad.push("rp".into());
            }
        }
        bad
    });
    r.unwrap_or_else(|| vec!["panic:text".into()])
}

/// One call on an iterator: the elements it gives, a count, and what is left afterwards
fn step<I, T>(it: &mut I, o: &str, k: usize, f: &dyn Fn(T) -> usize) -> (Vec<usize>, usize)
where
    I: DoubleEndedIterator<Item = T> + ExactSizeIterator,
{
    let mut n = 0;
    let r: Vec<usize> = match o {
        "next" => it.next().map(f).into_iter().collect(),
        "back" => it.next_back().map(f).into_iter().collect(),
        "nth" => it.nth(k).map(f).into_iter().collect(),
        "nthb" => it.nth_back(k).map(f).into_iter().collect(),
        "count" => {
            n = it.by_ref().count();
            vec![]
        }
        "last" => it.by_ref().last().map(f).into_iter().collect(),
        "rest" => it.by_ref().map(f).collect(),
        "rrest" => it.by_ref().rev().map(f).collect(),
        "fold" => it.by_ref().fold(vec![], |mut a, x| {
            a.push(f(x));
            a
        }),
        "rfold" => it.by_ref().rfold(vec![], |mut a, x| {
            a.push(f(x));
            a
        }),
        _ => panic!("step {o}"),
    };
    (r, n)
}
fn drive<I, T>(mut it: I, steps: &[Value], f: &dyn Fn(T) -> usize) -> bool
where
    I: DoubleEndedIterator<Item = T> + ExactSizeIterator,
{
    steps.iter().all(|s| {
        let (r, n) = step(&mut it, s["o"].as_str().unwrap(), s["k"].as_u64().unwrap() as usize, f);
        let want: Vec<usize> = s["r"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
        let left = s["n"].as_u64().unwrap() as usize;
        r == want && n as u64 == s["c"].as_u64().unwrap() && it.len() == left && it.size_hint() == (left, Some(left))
    })
}
fn iterators(v: &Value) -> Vec<String> {
    let n = v["len"].as_u64().unwrap() as usize;
    let (doc, m) = family("ints", n);
    let p = JsonPath::parse("$[*]").unwrap();
    let steps = v["steps"].as_array().unwrap();
    let of = |p: Path| if p.len() == 1 && p[0].len() == 2 && p[0][0] == 0 { p[0][1] as usize } else { 1 << 30 };
    let nd = |v: &Value| of(m.at(v));
    let r = guard(|| {
        let a = p.query(doc);
        let l = p.query_located(doc);
        [
            drive(a.iter(), steps, &|v: &&Value| nd(v)),
            drive(a.clone().into_iter(), steps, &|v: &Value| nd(v)),
            drive(l.iter(), steps, &|e: &serde_json_path::LocatedNode| of(enc::location(e.location()))),
            drive(l.iter(), steps, &|e: &serde_json_path::LocatedNode| nd(e.node())),
            drive(l.clone().into_iter(), steps, &|e: serde_json_path::LocatedNode| nd(e.node())),
            drive(l.nodes(), steps, &|v: &Value| nd(v)),
            drive(l.locations(), steps, &|x: &serde_json_path::NormalizedPath| of(enc::location(x))),
        ]
        .iter()
        .all(|x| *x)
    });
    match r {
        None => vec!["panic-iter".into()],
        Some(true) => vec![],
        Some(false) => vec!["iterator".into()],
    }
}

/// A list of located nodes, in any order and with repetitions, without its duplicates
fn dedup(v: &Value) -> Vec<String> {
    let doc = enc::from_value(&v["d"]);
    let m = Nodes::of(&doc);
    let r = guard(|| {
        let mut bad = vec![];
        let all: Vec<_> = JsonPath::parse("$").unwrap().query_located(&doc).into_iter().chain(JsonPath::parse("$..*").unwrap().query_located(&doc)).collect();
        let list: Vec<_> = enc::from_paths(&v["at"])
            .iter()
            .map(|p| all.iter().find(|e| &m.at(e.node()) == p).expect("a node").clone())
            .collect();
        let want = enc::from_paths(&v["want"]);
        let l = serde_json_path::LocatedNodeList::from(list);
        let d = l.clone().dedup();
        let mut i = l.clone();
        i.dedup_in_place();
        let locs: Vec<Path> = d.locations().map(enc::location).collect();
        if locs != want || d.len() != want.len() {
            bad.push("dedup".to_string());
        }
        if d.nodes().map(|n| m.at(n)).collect::<Vec<_>>() != locs {
            bad.push("dedupnodes".into());
        }
        if i != d {
            bad.push("inplace".into());
        }
        if d.clone().dedup() != d {
            bad.push("idempotent".into());
        }
        bad
    });
    r.unwrap_or_else(|| vec!["panic-dedup".into()])
}

fn int(v: &Value) -> i128 {
    let t: String = v["ds"].as_array().unwrap().iter().map(|d| d.to_string()).collect();
    let i: i128 = t.parse().unwrap();
    if v["neg"].as_bool().unwrap() {
        -i
    } else {
        i
    }
}
fn integers(v: &Value) -> Vec<String> {
    use serde_json_path_core::spec::integer::Integer;
    let f = v["f"].as_str().unwrap();
    let (x, y) = (int(&v["a"]), int(&v["b"]));
    let of = |i: i128| Integer::try_from(i as i64).ok();
    let want = |v: &Value| v["r"].as_array().unwrap().first().map(int);
    let got = |i: Option<Integer>| i.map(|i| i.to_string().parse::<i128>().unwrap());
    let r = guard(|| match f {
        "from" => crate::ints::TYPES.iter().all(|ty| match crate::ints::from(x, ty) {
            None => true,
            Some(None) => false,
            Some(Some(i)) => got(i) == want(v),
        }),
        "cmp" => {
            let (a, c) = (of(x).unwrap(), of(y).unwrap());
            let w = v["c"].as_i64().unwrap() as i32;
            [Some(a.cmp(&c)), a.partial_cmp(&c), a.partial_cmp(&(y as i64))].iter().all(|o| o.map(|o| o as i32) == Some(w))
                && (a == c) == (w == 0)
                && (a != c) == (w != 0)
                && (a == y as i64) == (w == 0)
                && (a < c) == (w < 0)
                && (a >= c) == (w >= 0)
        }
        _ => {
            let (a, c) = (of(x).unwrap(), of(y).unwrap());
            let r = match f {
                "add" => a.checked_add(c),
                "sub" => a.checked_sub(c),
                "mul" => a.checked_mul(c),
                _ => Some(a.abs()),
            };
            got(r) == want(v)
        }
    });
    if r == Some(true) {
        vec![]
    } else {
        vec![f.into()]
    }
}

/// A history of calls: texts are parsed, paths copied and dropped, documents replaced where they are
fn history(v: &Value) -> Vec<String> {
    let docs: Vec<Value> = v["docs"].as_array().unwrap().iter().map(enc::from_value).collect();
    let texts: Vec<String> = v["texts"].as_array().unwrap().iter().map(enc::from_text).collect();
    let mut bad: Vec<String> = vec![];
    let mut buf = String::with_capacity(1 << 10);
    let mut slot: Box<Value> = Box::new(docs[0].clone());
    let mut cur = 0;
    let mut paths: Vec<Option<JsonPath>> = vec![None, None, None];
    for st in v["h"].as_array().unwrap() {
        let (a, b) = (st["a"].as_u64().unwrap() as usize, st["b"].as_u64().unwrap() as usize);
        match st["o"].as_str().unwrap() {
            "parse" => {
                buf.clear();
                buf.push_str(&texts[b - 1]);
                match guard(|| JsonPath::parse(&buf)) {
                    None => bad.push("panic-parse".into()),
                    Some(r) => {
                        if r.is_ok() != st["ok"].as_bool().unwrap() {
                            bad.push(if r.is_ok() { "accept".into() } else { "reject".into() });
                        }
                        paths[a] = r.ok();
                    }
                }
            }
            "clone" => paths[a] = paths[b].clone(),
            "doc" => {
                if *slot != docs[cur] {
                    bad.push("docchanged".into());
                }
                cur = b - 1;
                *slot = docs[cur].clone();
            }
            o => {
                let Some(p) = &paths[a] else { continue };
                let m = Nodes::of(&slot);
                let want = enc::from_paths(&st["r"]);
                let r: Option<Vec<Path>> = guard(|| match o {
                    "loc" => p.query_located(&slot).nodes().map(|v| m.at(v)).collect(),
                    "ext" => slot.json_path(p).iter().map(|v| m.at(v)).collect(),
                    "thread" => {
                        let (s, m) = (&*slot, &m);
                        let all: Vec<Vec<Path>> = std::thread::scope(|sc| {
                            let t: Vec<_> = (0..2).map(|_| sc.spawn(move || p.query(s).iter().map(|v| m.at(v)).collect::<Vec<Path>>())).collect();
                            t.into_iter().map(|t| t.join().unwrap()).collect()
                        });
                        if all[0] == all[1] {
                            all[0].clone()
                        } else {
                            vec![enc::unknown()]
                        }
                    }
                    _ => p.query(&slot).iter().map(|v| m.at(v)).collect(),
                });
                match r {
                    None => bad.push("panic-query".into()),
                    Some(r) if r != want => bad.push("query".into()),
                    _ => {}
                }
            }
        }
    }
    if *slot != docs[cur] {
        bad.push("docchanged".into());
    }
    bad
}

/// Texts of queries, and which of them are of the same query: paths may be equal only then
fn equality(v: &Value) -> Vec<String> {
    let mut bad = vec![];
    let cl: Vec<i64> = v["cl"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
    let mut ps = vec![];
    for (t, c) in v["ts"].as_array().unwrap().iter().zip(cl) {
        match guard(|| JsonPath::parse(&enc::from_text(t)).ok()) {
            None => bad.push("panic-parse".into()),
            Some(None) => bad.push("reject".into()),
            Some(Some(p)) => ps.push((p, c)),
        }
    }
    let r = guard(|| {
        let eq: Vec<Vec<bool>> = ps.iter().map(|x| ps.iter().map(|y| x.0 == y.0).collect()).collect();
        let ne: Vec<Vec<bool>> = ps.iter().map(|x| ps.iter().map(|y| x.0 != y.0).collect()).collect();
        let same: Vec<bool> = ps.iter().map(|x| x.0.clone() == x.0 && x.0 == x.0.clone()).collect();
        (eq, ne, same)
    });
    let Some((eq, ne, same)) = r else {
        bad.push("panic-same".into());
        return bad;
    };
    let n = ps.len();
    for i in 0..n {
        if !eq[i][i] || !same[i] {
            bad.push("samerefl".into());
        }
        for j in 0..n {
            if eq[i][j] && ps[i].1 != ps[j].1 {
                bad.push(format!("samesound:{i}:{j}"));
            }
            if eq[i][j] != eq[j][i] || eq[i][j] == ne[i][j] || (eq[i][j] && eq[i] != eq[j]) {
                bad.push(format!("sameequiv:{i}:{j}"));
            }
        }
    }
    bad.truncate(4);
    bad
}

/// The document of a family, and where its nodes are. They are kept, as many vectors share them
fn family(kind: &str, n: usize) -> &'static (Value, Nodes) {
    thread_local!(static MADE: std::cell::RefCell<std::collections::HashMap<(String, usize), &'static (Value, Nodes)>> = Default::default());
    if let Some(d) = MADE.with(|m| m.borrow().get(&(kind.to_string(), n)).copied()) {
        return d;
    }
    let num = |i: usize| Value::from(i as u64);
    let ints = || Value::Array((0..n).map(num).collect());
    let mems = || Value::Object((0..n).map(|i| (format!("{i:05}"), num(i))).collect());
    let one = |v: Value| Value::Object([("a".to_string(), v)].into_iter().collect());
    let text = |c: char, n: usize| std::iter::repeat(c).take(n).collect::<String>();
    let d = match kind {
        "ints" => ints(),
        "objs" => mems(),
        "rows" => Value::Array((0..n).map(|i| Value::Array(vec![num(i)])).collect()),
        "recs" => Value::Array((0..n).map(|i| one(num(i))).collect()),
        "wrap" => Value::Array(vec![ints()]),
        "wrapo" => Value::Array(vec![mems()]),
        "deep" => (0..n).fold(num(1), |v, _| Value::Array(vec![v])),
        "deepn" => (0..n).fold(num(1), |v, _| one(v)),
        _ => {
            let c = char_of(kind);
            if kind.starts_with("str") {
                Value::Array(vec![Value::String(text(c, n)), Value::String(text(c, n + 1))])
            } else {
                Value::Object([(text(c, n), num(1)), (text(c, n + 1), num(2))].into_iter().collect())
            }
        }
    };
    let d: &'static mut (Value, Nodes) = Box::leak(Box::new((d, Nodes::of(&Value::Null))));
    d.1 = Nodes::of(&d.0);
    MADE.with(|m| m.borrow_mut().insert((kind.to_string(), n), d));
    d
}
fn char_of(kind: &str) -> char {
    match &kind[3..] {
        "1" => 'a',
        "2" => 'é',
        "3" => '€',
        "4" => '😀',
        _ => panic!("family {kind}"),
    }
}
/// The nodes of runs
fn expand(rs: &Value) -> Vec<Path> {
    let mut o = vec![];
    let name = |s: &str| -> enc::El { std::iter::once(1).chain(s.chars().map(|c| c as u32)).collect() };
    for r in rs.as_array().unwrap() {
        let (f, s, c) = (r["f"].as_i64().unwrap(), r["s"].as_i64().unwrap(), r["c"].as_i64().unwrap());
        for k in 0..c {
            let i = (f + k * s) as usize;
            let ix = vec![0, i as u32];
            o.push(match r["at"].as_str().unwrap() {
                "idx" => vec![ix],
                "name" => vec![name(&format!("{i:05}"))],
                "row" => vec![ix, vec![0, 0]],
                "rec" => vec![ix, name("a")],
                "in" => vec![vec![0, 0], ix],
                "ino" => vec![vec![0, 0], name(&format!("{i:05}"))],
                "deep" => vec![vec![0, 0]; i],
                "deepn" => vec![name("a"); i],
                "root" => vec![],
                k => vec![name(&std::iter::repeat(char_of(k)).take(i).collect::<String>())],
            });
        }
    }
    o
}
fn big(v: &Value) -> Vec<String> {
    let (doc, m) = family(v["doc"].as_str().unwrap(), v["n"].as_u64().unwrap() as usize);
    let at = |v: &Value| m.at(v);
    let mut bad: Vec<String> = vec![];
    let mut queries: Vec<(JsonPath, Vec<Path>)> = vec![];
    for (k, q) in v["qs"].as_array().unwrap().iter().enumerate() {
        let mut b: Vec<&str> = vec![];
        let want = expand(&q["r"]);
        let c = want.len();
        let s = enc::from_text(&q["s"]);
        let p = match guard(|| JsonPath::parse(&s).ok()) {
            None => {
                bad.push(format!("panic-parse:{k}"));
                continue;
            }
            Some(None) => {
                bad.push(format!("reject:{k}"));
                continue;
            }
            Some(Some(p)) => p,
        };
        let r = guard(|| {
            let a = p.query(doc);
            if a.iter().map(|v| at(v)).ne(want.iter().cloned()) {
                b.push("query");
            }
            let want: Vec<Path> = a.iter().map(|v| at(v)).collect();
            let c0 = want.len();
            if doc.json_path(&p).iter().map(|v| at(v)).ne(want.iter().cloned()) {
                b.push("ext");
            }
            let l = p.query_located(doc);
            if l.nodes().map(at).ne(want.iter().cloned()) {
                b.push("locnodes");
            }
            if l.locations().map(enc::location).ne(want.iter().cloned()) {
                b.push("location");
            }
            if a.len() != c0 || l.len() != c0 {
                b.push("len");
            }
            if a.is_empty() != (c0 == 0) || l.is_empty() != (c0 == 0) {
                b.push("empty");
            }
            let spots = [0, 1, c / 2, 127, 128, 255, 256, 257, 65535, 65536, c.wrapping_sub(2), c.wrapping_sub(1), c, c + 1];
            let w = |i: usize| want.get(i).cloned();
            if spots.iter().any(|&i| a.get(i).map(at) != w(i) || l.get(i).map(|e| at(e.node())) != w(i) || l.get(i).map(|e| enc::location(e.location())) != w(i)) {
                b.push("get");
            }
            if a.first().map(at) != w(0) || l.first().map(|e| at(e.node())) != w(0) {
                b.push("first");
            }
            if a.last().map(at) != want.last().cloned() || l.last().map(|e| at(e.node())) != want.last().cloned() {
                b.push("last");
            }
            let one = if c0 == 1 { w(0) } else { None };
            if a.exactly_one().ok().map(at) != one || l.clone().exactly_one().ok().map(|e| at(e.node())) != one {
                b.push("exactly_one");
            }
            if a.at_most_one().ok().map(|x| x.map(at)) != (c0 < 2).then(|| w(0)) || l.clone().at_most_one().ok().map(|x| x.map(|e| at(e.node()))) != (c0 < 2).then(|| w(0)) {
                b.push("at_most_one");
            }
            if a.exactly_one().is_err_and(|e| e.is_empty() != (c0 == 0) || e.is_more_than_one() != (c0 > 1) || e.as_more_than_one() != (c0 > 1).then_some(c0)) {
                b.push("one");
            }
            if a.clone().all().into_iter().map(at).ne(want.iter().cloned()) || l.iter().map(|e| at(e.node())).ne(want.iter().cloned()) {
                b.push("all");
            }
            if spots.iter().any(|&i| a.iter().nth(i).map(|v| at(v)) != w(i) || l.nodes().nth(i).map(at) != w(i) || l.locations().nth(i).map(enc::location) != w(i))
                || a.iter().len() != c0
                || l.nodes().len() != c0
                || l.locations().len() != c0
                || l.nodes().rev().map(at).ne(want.iter().rev().cloned())
                || l.locations().rev().map(enc::location).ne(want.iter().rev().cloned())
            {
                b.push("iterator");
            }
            let dd = expand(&q["dd"]);
            if !dd.is_empty() || (c == 0 && q["dd"].as_array().unwrap().len() > 0) {
                let d = l.clone().dedup();
                if d.locations().map(enc::location).ne(dd.iter().cloned()) || d.len() != dd.len() {
                    b.push("dedup");
                }
                if d.nodes().map(at).ne(dd.iter().cloned()) {
                    b.push("dedupnodes");
                }
                let mut i = l.clone();
                i.dedup_in_place();
                if i != d {
                    b.push("inplace");
                }
                for x in q["ends"].as_array().unwrap() {
                    let p = enc::from_path(&x["p"]);
                    let Some(e) = d.iter().find(|e| at(e.node()) == p) else {
                        b.push("missing");
                        continue;
                    };
                    let (np, ptr) = (enc::from_text(&x["np"]), e.location().to_json_pointer());
                    if e.location().to_string() != np {
                        b.push("np");
                    }
                    if serde_json::to_value(e.location()).unwrap() != Value::String(np.clone()) || enc::location_of(&serde_json::to_value(e).unwrap()) != &Value::String(np) {
                        b.push("ser");
                    }
                    if ptr != enc::from_text(&x["ptr"]) {
                        b.push("ptr");
                    }
                    if doc.pointer(&ptr).map(at) != Some(p.clone()) {
                        b.push("pn");
                    }
                    let loc = e.location();
                    if loc.len() != p.len() || (0..p.len() + 1).any(|i| loc.get(i).map(enc::element) != p.get(i).cloned()) {
                        b.push("elements");
                    }
                    for (x, y) in loc.iter().zip(p.iter()) {
                        let s = if y[0] == 0 { y[1].to_string() } else { y[1..].iter().map(|&c| char::from_u32(c).unwrap()).collect() };
                        let v = if y[0] == 0 { Value::from(y[1]) } else { Value::String(s.clone()) };
                        if serde_json::to_value(x).unwrap() != v {
                            b.push("elemser");
                        }
                        if y[1..].iter().all(|c| (32..127).contains(c) && *c != 39 && *c != 92) && x.to_string() != s {
                            b.push("elemtext");
                        }
                        if enc::far(x) || if y[0] == 0 { *x != y[1] as usize } else { *x != *s } {
                            b.push("elemeq");
                        }
                    }
                    if !JsonPath::parse(&loc.to_string()).is_ok_and(|q| q.query(doc).iter().map(|v| at(v)).eq([p])) {
                        b.push("rp");
                    }
                }
            }
            if queries.iter().any(|(q0, r0)| *q0 == p && *r0 != want) {
                b.push("samesound");
            }
            let t = p.to_string();
            if !t.contains("...") {
                match JsonPath::parse(&t) {
                    Err(_) => b.push("disp-reparse"),
                    Ok(p2) => {
                        if p2 != p {
                            b.push("disp-eq");
                        }
                        if p2.to_string() != t {
                            b.push("disp-fix");
                        }
                    }
                }
            }
        });
        if r.is_none() {
            bad.push(format!("panic:{k}"));
        }
        bad.extend(b.iter().map(|c| format!("{c}:{k}")));
        if v["n"].as_u64().unwrap() <= 300 {
            queries.push((p, want));
        }
    }
    if bad.len() > 40 {
        // one of each
        let mut seen = std::collections::HashSet::new();
        bad.retain(|c| seen.insert(c.split(':').next().unwrap().to_string()));
    }
    bad
}

pub fn run(file: &str) {
    let f = std::io::BufReader::new(std::fs::File::open(file).unwrap());
    let mut n = 0;
    for l in f.lines() {
        let l = l.unwrap();
        let v: Value = serde_json::from_str(&l).unwrap();
        n += 1;
        // in case the process dies
        println!("AT {n}");
        let bad = match v["k"].as_str().unwrap() {
            "q" => query(&enc::from_text(&v["s"]), &enc::from_value(&v["d"]), &enc::from_paths(&v["r"]), &v),
            "p" => {
                let t = enc::from_text(&v["s"]);
                let want = v["ok"].as_i64().unwrap();
                text(&t, want, &v)
            }
            "loc" => locations(&v),
            "it" => iterators(&v),
            "dd" => dedup(&v),
            "int" => integers(&v),
            "hist" => history(&v),
            "eqs" => equality(&v),
            "big" => big(&v),
            k => panic!("unknown vector {k}"),
        };
        if !bad.is_empty() {
            println!("FAIL {} {}", bad.join(" "), l);
        }
    }
    println!("DONE {n}");
}
