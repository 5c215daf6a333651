//! Encoding of values, paths and texts as spec/JPValue.tla and spec/JPEval.tla have them.
use serde_json::Value;
use serde_json_path::{NormalizedPath, PathElement};
use std::collections::HashMap;
use std::fmt::Write;

/// A path element: `[0, i]`, or `[1, code points]`; `[2]` stands for a node that is not known
pub type El = Vec<u32>;
pub type Path = Vec<El>;

pub fn unknown() -> Path {
    vec![vec![2]]
}

pub fn text(s: &str) -> String {
    let mut o = String::from("[");
    for (i, c) in s.chars().enumerate() {
        if i > 0 {
            o.push(',');
        }
        write!(o, "{}", c as u32).unwrap();
    }
    o.push(']');
    o
}
pub fn texts<I: IntoIterator<Item = String>>(l: I) -> String {
    seq(l.into_iter().map(|s| text(&s)))
}
pub fn seq<I: IntoIterator<Item = String>>(l: I) -> String {
    let v: Vec<String> = l.into_iter().collect();
    format!("[{}]", v.join(","))
}
pub fn ints(l: &[u32]) -> String {
    seq(l.iter().map(|i| i.to_string()))
}
pub fn path(p: &Path) -> String {
    seq(p.iter().map(|e| ints(e)))
}
pub fn paths(l: &[Path]) -> String {
    seq(l.iter().map(path))
}

/// A decimal numeral, as `DecF` in JPValue
pub fn num(s: &str, float: bool) -> String {
    let (neg, s) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s),
    };
    let (m, e) = match s.find(['e', 'E']) {
        Some(i) => (&s[..i], s[i + 1..].parse::<i64>().unwrap()),
        None => (s, 0),
    };
    let (ip, fp) = match m.find('.') {
        Some(i) => (&m[..i], &m[i + 1..]),
        None => (m, ""),
    };
    let mut ds: Vec<u32> = ip.chars().chain(fp.chars()).map(|c| c.to_digit(10).unwrap()).collect();
    let mut e = e - fp.len() as i64;
    while ds.first() == Some(&0) {
        ds.remove(0);
    }
    while ds.last() == Some(&0) {
        ds.pop();
        e += 1;
    }
    if ds.is_empty() {
        return format!(r#"{{"t":"d","neg":false,"ds":[],"e":0,"f":{float}}}"#);
    }
    format!(r#"{{"t":"d","neg":{neg},"ds":{},"e":{e},"f":{float}}}"#, ints(&ds))
}

/// A number as a numeral. Doubles whose shortest numeral has more than 15 digits stand for
/// their exact value, others for what that numeral says.
pub fn numeral(n: &serde_json::Number) -> String {
    let s = n.to_string();
    if n.is_f64() {
        let m = s.find(['e', 'E']).map_or(&s[..], |i| &s[..i]);
        if m.chars().filter(|c| c.is_ascii_digit()).count() > 15 {
            let f = n.as_f64().unwrap();
            return if f.abs() >= 9007199254740992.0 {
                format!("{f:.0}")
            } else {
                format!("{f:.1074}").trim_end_matches('0').trim_end_matches('.').to_string()
            };
        }
    }
    s
}

fn depth(v: &Value) -> usize {
    match v {
        Value::Array(a) => 1 + a.iter().map(depth).max().unwrap_or(0),
        Value::Object(o) => 1 + o.values().map(depth).max().unwrap_or(0),
        _ => 0,
    }
}
/// Deep values are flat: their nodes in postorder, with counts or keys for their children, as
/// readers of JSON limit how deep it nests
fn flat(v: &Value, o: &mut Vec<String>) {
    match v {
        Value::Array(a) => {
            a.iter().for_each(|c| flat(c, o));
            o.push(format!(r#"{{"t":"a","n":{}}}"#, a.len()));
        }
        Value::Object(m) => {
            m.values().for_each(|c| flat(c, o));
            o.push(format!(r#"{{"t":"o","ks":{}}}"#, seq(m.keys().map(|k| text(k)))));
        }
        _ => o.push(nested(v)),
    }
}
pub fn value(v: &Value) -> String {
    if depth(v) > 35 {
        let mut o = vec![];
        flat(v, &mut o);
        return format!(r#"{{"t":"flat","f":{}}}"#, seq(o));
    }
    nested(v)
}
fn nested(v: &Value) -> String {
    match v {
        Value::Null => r#"{"t":"n"}"#.into(),
        Value::Bool(b) => format!(r#"{{"t":"b","b":{b}}}"#),
        Value::Number(n) => num(&numeral(n), n.is_f64()),
        Value::String(s) => format!(r#"{{"t":"s","s":{}}}"#, text(s)),
        Value::Array(a) => format!(r#"{{"t":"a","a":{}}}"#, seq(a.iter().map(nested))),
        Value::Object(o) => format!(
            r#"{{"t":"o","o":{}}}"#,
            seq(o.iter().map(|(k, v)| format!(r#"{{"k":{},"v":{}}}"#, text(k), nested(v))))
        ),
    }
}

/// Where each node of a document is
pub struct Nodes(HashMap<usize, Path>);
impl Nodes {
    pub fn of(doc: &Value) -> Self {
        let mut m = HashMap::new();
        fn go(v: &Value, p: Path, m: &mut HashMap<usize, Path>) {
            match v {
                Value::Array(a) => {
                    for (i, c) in a.iter().enumerate() {
                        let mut q = p.clone();
                        q.push(vec![0, i as u32]);
                        go(c, q, m);
                    }
                }
                Value::Object(o) => {
                    for (k, c) in o {
                        let mut q = p.clone();
                        q.push(std::iter::once(1).chain(k.chars().map(|c| c as u32)).collect());
                        go(c, q, m);
                    }
                }
                _ => {}
            }
            m.insert(v as *const Value as usize, p);
        }
        go(doc, vec![], &mut m);
        Nodes(m)
    }
    pub fn at(&self, v: &Value) -> Path {
        self.0.get(&(v as *const Value as usize)).cloned().unwrap_or_else(unknown)
    }
}

/// A location, through its public accessors
pub fn location(l: &NormalizedPath) -> Path {
    l.iter().map(element).collect()
}
/// Is an element taken for, or not put before, an index that is greater by far?
pub fn far(e: &PathElement) -> bool {
    let Some(i) = e.as_index() else { return false };
    [8, 15, 16, 31, 32, 53, 63].iter().any(|&k| {
        let j = i + (1usize << k);
        let f = PathElement::from(j);
        *e == j || *e == f || f == i || !(*e != j) || e.partial_cmp(&f) != Some(std::cmp::Ordering::Less) || f.partial_cmp(e) != Some(std::cmp::Ordering::Greater)
            || f.as_index() != Some(j) || f.to_string() != j.to_string() || serde_json::to_string(&f).unwrap() != j.to_string()
    })
}
pub fn element(e: &PathElement) -> El {
    match (e.as_name(), e.as_index()) {
        (Some(n), None) if e.is_name() && !e.is_index() => {
            std::iter::once(1).chain(n.chars().map(|c| c as u32)).collect()
        }
        (None, Some(i)) if e.is_index() && !e.is_name() => vec![0, i.min(1_000_000_000) as u32],
        _ => vec![2],
    }
}


/// The location in a serialized located node
pub fn location_of(v: &Value) -> &Value {
    v.get("loc").unwrap_or(&v["location"])
}

// ---- decoding, for vectors ----
pub fn from_text(v: &Value) -> String {
    v.as_array()
        .unwrap()
        .iter()
        .map(|c| char::from_u32(c.as_u64().unwrap() as u32).expect("a scalar value"))
        .collect()
}
pub fn from_value(v: &Value) -> Value {
    match v["t"].as_str().unwrap() {
        "flat" => {
            let mut st: Vec<Value> = vec![];
            for x in v["f"].as_array().unwrap() {
                let y = match (x.get("n"), x.get("ks")) {
                    (Some(n), _) => Value::Array(st.split_off(st.len() - n.as_u64().unwrap() as usize)),
                    (_, Some(ks)) => {
                        let ks = ks.as_array().unwrap();
                        let vs = st.split_off(st.len() - ks.len());
                        Value::Object(ks.iter().map(from_text).zip(vs).collect())
                    }
                    _ => from_value(x),
                };
                st.push(y);
            }
            st.pop().unwrap()
        }
        "n" => Value::Null,
        "b" => v["b"].clone(),
        "s" => Value::String(from_text(&v["s"])),
        "a" => Value::Array(v["a"].as_array().unwrap().iter().map(from_value).collect()),
        "o" => Value::Object(
            v["o"].as_array().unwrap().iter().map(|m| (from_text(&m["k"]), from_value(&m["v"]))).collect(),
        ),
        _ => {
            let t = match v.get("w") {
                Some(w) => from_text(w),
                None => {
                    let t = numeral_of(v);
                    let float = v["f"].as_bool().unwrap();
                    if float && !t.contains(['.', 'e']) { t + ".0" } else { t }
                }
            };
            serde_json::from_str(&t).expect("a numeral")
        }
    }
}
fn numeral_of(v: &Value) -> String {
    let ds: String = v["ds"].as_array().unwrap().iter().map(|d| d.to_string()).collect();
    let e = v["e"].as_i64().unwrap();
    let sign = if v["neg"].as_bool().unwrap() { "-" } else { "" };
    if ds.is_empty() {
        return "0".into();
    }
    if (0..19 - ds.len() as i64).contains(&e) {
        format!("{sign}{ds}{}", "0".repeat(e as usize))
    } else if e < 0 && -e < 20 {
        let k = (-e) as usize;
        let d = format!("{}{ds}", "0".repeat((k + 1).saturating_sub(ds.len())));
        format!("{sign}{}.{}", &d[..d.len() - k], &d[d.len() - k..])
    } else {
        format!("{sign}{ds}e{e}")
    }
}
pub fn from_path(v: &Value) -> Path {
    v.as_array().unwrap().iter().map(|e| e.as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as u32).collect()).collect()
}
pub fn from_paths(v: &Value) -> Vec<Path> {
    v.as_array().unwrap().iter().map(from_path).collect()
}
/// An integer as `[neg, ds]`
pub fn int(t: &str) -> String {
    let (neg, ds) = match t.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, t),
    };
    let ds: Vec<u32> = ds.trim_start_matches('0').chars().map(|c| c.to_digit(10).unwrap()).collect();
    let neg = neg && !ds.is_empty();
    format!(r#"{{"neg":{neg},"ds":{}}}"#, if ds.is_empty() { "[0]".into() } else { ints(&ds) })
}
