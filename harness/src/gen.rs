//! Generators of documents and of query texts. They know nothing about what a query means or
//! whether it is valid: that is the specification's business. Documents guide them, so that
//! queries select something more often than not.
use crate::rng::Rng;
use serde_json::{Map, Value};

pub const V: u8 = 0;
pub const N: u8 = 1;
pub const L: u8 = 2;
pub type Fn = (&'static str, &'static [u8], u8);
pub const BUILTIN: &[Fn] = &[
    ("length", &[V], V),
    ("count", &[N], V),
    ("value", &[N], V),
    ("match", &[V, V], L),
    ("search", &[V, V], L),
];
pub const CUSTOM: &[Fn] = &[
    ("x", &[V], V),
    ("one", &[], V),
    ("nothing", &[], V),
    ("vid2", &[V], V),
    ("nullify", &[V], V),
    ("true_v", &[V], V),
    ("first", &[N], V),
    ("lval", &[L], V),
    ("pair", &[V, V], V),
    ("trip", &[V, N, L], V),
    ("quad", &[L, L, N, V], V),
    ("nid", &[N], N),
    ("rev", &[N], N),
    ("nempty", &[], N),
    ("twice", &[N], N),
    ("join", &[N, N], N),
    ("lid", &[L], L),
    ("lnot", &[L], L),
    ("false_not", &[], L),
    ("lfalse", &[], L),
    ("is_nothing", &[V], L),
    ("lboth", &[L, L], L),
    ("hasn", &[N], L),
    ("same", &[V, V], L),
];
pub const SHADOW: &[Fn] = &[
    ("length", &[V], V),
    ("count", &[L], V),
    ("match", &[L, L], L),
    ("value", &[N], N),
];

const KEYS: &[&str] = &["a", "b", "c", "d", "ab", "A", "_", "a1"];
const ODD: &[&str] = &[
    "", "'", "\"", "\\", "/", "~", "~1", "~0", "a.b", "0", "1", "-1", "01", "10", "9", "\n", "\t", "\u{8}", "\u{c}",
    "\r", "\u{0}", "\u{1}", "\u{b}", "\u{e}", "\u{10}", "\u{1a}", "\u{1f}", "\u{7f}", "\u{80}", "\u{a0}", "é",
    "e\u{301}", "☺", "\u{10000}", "\u{10ffff}", "\u{ffff}", "\u{d7ff}", "\u{e000}", "\u{fffd}", "😀", "true", "null",
    "false", "length", "$", "@", "*", "?", "a b", "[0]", "['a']", "\u{2028}", "a'b", "a\\b", "\\n", "\\'", "\\u0041",
    "\"a\"", "it's", "c:\\d", "a/b", "m~n", "日本", "ключ", "\u{feff}", "a\nb", "'\\'", "\\\\", "%", "#", "#/a", "..", ".",
];
const STRS: &[&str] = &[
    "", "a", "ab", "b", "A", "aa", "é", "e\u{301}", "\u{ffff}", "\u{10000}", "😀", "\u{e000}", "1", "true", "null", "\n", "'",
    "\"", "\\", "a b", "abc", "\u{d7ff}",
];
const NUMS: &[&str] = &[
    "0", "0.0", "-0.0", "1", "1.0", "-1", "-1.0", "2", "2.0", "3", "10", "10.0", "100", "1e2", "100.0", "1.5", "-1.5", "0.5",
    "0.1", "0.25", "1e300", "-1e300", "9007199254740991", "9007199254740992", "9007199254740992.0",
    "-9007199254740991", "9007199254740990", "2251799813685248.5", "9223372036854775807", "9223372036854775808",
    "9223372036854774784", "-9223372036854775808", 
    "1e20", "123456789012345", "1.23456789012345", "4294967296", "2147483648",
    "-2147483649", "3.0", "4", "5", "7", "20", "1e-7", "123e4",
];
/// only numbers in the scope of the property on comparisons: exact doubles, or 15 digits
const NUMS_IN_SCOPE: fn(&str) -> bool = |s| s != "9223372036854775807" && s != "9007199254740993";

const PATTERNS: &[&str] = &[
    "", "a", "ab", "a*", "a+b", "a?b", "a|b", "(a|b)c", "(ab)+", ".", "..", ".*", "a.*", ".*b", "[ab]", "[^ab]", "[a-c]", "[^a-c]*",
    "[a-z]+", "[0-9]{2}", "a{2}", "a{1,2}", "a{0}", "a{2,}", "(a{1,2}){2}", "a|", "|a", "()", "a||b", "(|a)b", "\\.", "\\\\",
    "\\(", "[\\]]", "[-a]", "[a-]", "\\n", "[\\n]", "\\t", "é", "[é-ü]", "😀", ".😀", "[😀-😂]", "A", "[A-Z]", "a b", "(a)(b)", "((a))",
    "a|ab", "ab|a", "(a|ab)(c|bcd)", "b*", "(a*)*", "(a*)+b", "[ab]*a[ab]", "\\-", "\\?", "x{3}", "1+", "[.]", "[*+]", "-", "a-b",
    // not regular expressions
    "a)", "(a", "*a", "+", "?", "[b-a]", "a{2,1}", "\\", "(", ")", "a)|(b", "[a", "(()", "a)(b", ")(", "a|*b", "[a-",
];
const SUBJECTS: &[&str] = &[
    "", "a", "b", "ab", "ba", "aab", "abc", "aaa", "abab", "ac", "bc", "a.b", ".", "\\", "(", "-", "\n", "\r", "a\nb", "a\n", "\na",
    "a\rb", "é", "ü", "😀", "😁", "a😀", "A", "Ab", "12", "1", "x", "xxx", "a b", "abcd", "acbcd", "\u{2028}", "a\u{2028}", "\u{85}", "\t", "cab",
    "a-b", "b*", "+", "aaaa", "aaaaa", "bb", "\u{0}", "ſ", "K", "k",
];

#[derive(Clone)]
pub struct Prof {
    pub name: &'static str,
    pub seq: u64,
    /// sessions of large documents or texts, per thousand
    pub big: usize,
    /// documents: depth, width, percentages of long arrays, odd keys, deep chains, containers
    pub depth: u32,
    pub width: u32,
    pub long: u32,
    pub odd: u32,
    pub deep: u32,
    pub nums: bool,
    pub rx: bool,
    pub docs: usize,
    /// queries: most segments, descendant %, more selectors %, weights of name, wild, idx, slice, filter
    pub segs: usize,
    pub desc: u32,
    pub multi: u32,
    pub sel: [u32; 5],
    pub hit: u32,
    pub huge: u32,
    /// filters: depth, weights of and/or, not, parentheses, test, comparison, function test
    pub fdepth: u32,
    pub logic: [u32; 6],
    /// operands: weights of literal, query, call
    pub opnd: [u32; 3],
    pub custom: u32,
    pub misfit: u32,
    pub blank: u32,
    pub esc: u32,
    pub mutate: u32,
    pub nq: usize,
    pub ops: &'static [(&'static str, u32)],
}

pub struct Gen<'p> {
    pub r: Rng,
    pub p: &'p Prof,
    pub fns: &'static [Fn],
    /// how many calls the text is within
    pub open: u32,
}

type Cur<'d> = Vec<&'d Value>;

fn kids(v: &Value) -> Vec<&Value> {
    match v {
        Value::Array(a) => a.iter().collect(),
        Value::Object(o) => o.values().collect(),
        _ => vec![],
    }
}
fn subtree<'d>(v: &'d Value, out: &mut Cur<'d>) {
    out.push(v);
    for k in kids(v) {
        subtree(k, out);
    }
}

impl<'p> Gen<'p> {
    pub fn key(&mut self) -> String {
        if self.r.pct(self.p.odd) {
            if self.r.pct(15) {
                return self.anystring();
            }
            self.r.pick(ODD).to_string()
        } else {
            self.r.pick(KEYS).to_string()
        }
    }
    pub fn anychar(&mut self) -> char {
        loop {
            let c = match self.r.below(8) {
                0 => self.r.range(0, 0x1f),
                1..=3 => self.r.range(0x20, 0x7f),
                4 => self.r.range(0x80, 0x7ff),
                5 => self.r.range(0x800, 0xffff),
                6 => *self.r.pick(&[0x85, 0xa0, 0x2028, 0x3000, 0xfeff, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x7f, 0x80, 0xb, 0xc]),
                _ => self.r.range(0x10000, 0x10ffff),
            };
            if let Some(c) = char::from_u32(c as u32) {
                return c;
            }
        }
    }
    pub fn anystring(&mut self) -> String {
        let n = self.r.below(5);
        (0..n).map(|_| self.anychar()).collect()
    }
    pub fn numtext(&mut self) -> String {
        loop {
            let s = if self.p.nums || self.r.pct(20) {
                self.r.pick(NUMS).to_string()
            } else {
                self.r.range(-3, 12).to_string()
            };
            if NUMS_IN_SCOPE(&s) {
                return s;
            }
        }
    }
    fn scalar(&mut self) -> Value {
        match self.r.below(10) {
            0 => Value::Null,
            1 => Value::Bool(true),
            2 => Value::Bool(false),
            3..=5 => {
                let t = self.numtext();
                serde_json::from_str(&t).unwrap()
            }
            _ => Value::String(self.string()),
        }
    }
    fn string(&mut self) -> String {
        if self.p.rx {
            // any string of a document may come to be a pattern
            return if self.r.pct(30) { self.r.pick(PATTERNS).to_string() } else { self.subject() };
        }
        if self.r.pct(self.p.odd / 2) {
            self.key()
        } else {
            self.r.pick(STRS).to_string()
        }
    }
    fn subject(&mut self) -> String {
        if self.r.pct(8) {
            return String::new();
        }
        // subjects that are patterns in an unspecified dialect do not occur as patterns: see pattern()
        self.r.pick(SUBJECTS).to_string()
    }
    fn tree(&mut self, depth: u32) -> Value {
        if depth == 0 || self.r.pct(20) {
            return match self.r.below(12) {
                0 => Value::Array(vec![]),
                1 => Value::Object(Map::new()),
                _ => self.scalar(),
            };
        }
        let n = self.r.below(self.p.width as usize + 1);
        if self.r.pct(50) {
            let n = if self.r.pct(self.p.long) { 9 + self.r.below(24) } else { n };
            let d = if n > 6 { 0.max(depth as i64 - 2) as u32 } else { depth - 1 };
            Value::Array((0..n).map(|_| if n > 6 && self.r.pct(80) { self.scalar() } else { self.tree(d) }).collect())
        } else {
            let mut m = Map::new();
            for _ in 0..n.max(1) {
                let k = self.key();
                let v = self.tree(depth - 1);
                m.insert(k, v);
            }
            Value::Object(m)
        }
    }
    pub fn doc(&mut self) -> Value {
        if self.r.pct(6) {
            const D: &[&str] = &[
                "null", "true", "false", "0", "1.5", "\"\"", "\"a\"", "[]", "{}", "[null]", "[[]]", "[{}]", "{\"\":null}", "{\"a\":null}",
                "{\"a\":{}}", "{\"a\":[]}", "[[null]]", "[false]", "[0]", "[\"\"]", "{\"a\":false}", "{\"b\":0,\"a\":\"\"}",
            ];
            return serde_json::from_str(self.r.pick(D)).unwrap();
        }
        if self.r.pct(self.p.deep) {
            let mut v = self.tree(1);
            for _ in 0..5 + self.r.below(25) {
                v = if self.r.pct(50) {
                    let mut a = vec![v];
                    if self.r.pct(20) {
                        a.insert(0, Value::Null);
                    }
                    Value::Array(a)
                } else {
                    let mut m = Map::new();
                    m.insert(self.key(), v);
                    Value::Object(m)
                };
            }
            return v;
        }
        loop {
            let d = self.tree(self.p.depth);
            let mut all = vec![];
            subtree(&d, &mut all);
            if all.len() > 90 || (all.len() < 3 && self.r.pct(80)) {
                continue;
            }
            return d;
        }
    }

    // ---- texts ----
    fn s(&mut self, o: &mut String) {
        if self.p.blank > 0 && self.r.pct(self.p.blank) {
            for _ in 0..1 + self.r.below(2) {
                o.push(*self.r.pick(&[' ', ' ', '\t', '\n', '\r']));
            }
        }
    }
    fn hex(&mut self, o: &mut String, u: u32) {
        o.push_str("\\u");
        for c in format!("{u:04x}").chars() {
            o.push(if self.r.pct(50) { c.to_ascii_uppercase() } else { c });
        }
    }
    pub fn quote(&mut self, o: &mut String, t: &str) {
        let q = *self.r.pick(&['\'', '"']);
        o.push(q);
        for c in t.chars() {
            let named = match c {
                '\u{8}' => Some('b'),
                '\u{c}' => Some('f'),
                '\n' => Some('n'),
                '\r' => Some('r'),
                '\t' => Some('t'),
                '/' => Some('/'),
                '\\' => Some('\\'),
                _ if c == q => Some(q),
                _ => None,
            };
            let must = (c as u32) < 32 || c == '\\' || c == q;
            if !must && !self.r.pct(self.p.esc) {
                o.push(c);
            } else if let (Some(n), true) = (named, self.r.pct(60)) {
                o.push('\\');
                o.push(n);
            } else {
                let mut b = [0; 2];
                for u in c.encode_utf16(&mut b) {
                    self.hex(o, *u as u32);
                }
            }
        }
        o.push(q);
    }
    fn bad_string(&mut self, o: &mut String) {
        const F: &[&str] = &[
            "\\", "\\a", "\\v", "\\0", "\\x41", "\\u", "\\u1", "\\u12", "\\u123", "\\u123g", "\\uD800", "\\uDC00", "\\uD800\\uD800",
            "\\uD800\\u0041", "\\uD83D\\n", "\\uDFFF", "\\'", "\\\"", "\n", "\u{1f}", "\u{0}", "\t", "\r", "\\U0041", "\\u{41}", "\\ ", "\\\n",
            "\\uD83Dx", "\\ud83d\\ude0", "\\u00e9", "\\/", "\\é",
        ];
        let q = *self.r.pick(&['\'', '"']);
        o.push(q);
        for _ in 0..1 + self.r.below(3) {
            if self.r.pct(60) {
                o.push_str(self.r.pick(F));
            } else {
                let c = self.anychar();
                o.push(c);
            }
        }
        if self.r.pct(90) {
            o.push(q);
        }
    }
    fn is_shorthand(t: &str) -> bool {
        let ok = |c: char, first: bool| c.is_ascii_alphabetic() || c == '_' || c as u32 >= 128 || (!first && c.is_ascii_digit());
        !t.is_empty() && t.chars().enumerate().all(|(i, c)| ok(c, i == 0))
    }
    fn int(&mut self, len: i64) -> String {
        if self.r.pct(self.p.huge) {
            let big = 9007199254740991i64;
            let k = *self.r.pick(&[
                big, -big, big - 1, 1 - big, big / 2, -big / 2, 1 << 31, -(1i64 << 31), (1 << 31) - 1, 1 << 32, -(1i64 << 32), (1 << 32) + 1,
                i64::MAX / 1024, 1 << 52, 100, -100, 1000000007,
            ]);
            return if self.r.pct(3) { (k as i128 * 1024 + 1).to_string() } else { k.to_string() };
        }
        self.r.range(-len - 2, len + 2).to_string()
    }
    pub fn num_literal(&mut self, o: &mut String, t: &str) {
        // the same number, written in another way
        let (sign, m) = match t.strip_prefix('-') {
            Some(r) => ("-", r),
            None => ("", t),
        };
        let (m, e) = match m.find(['e', 'E']) {
            Some(i) => (&m[..i], m[i + 1..].parse::<i64>().unwrap()),
            None => (m, 0),
        };
        let (ip, fp) = match m.find('.') {
            Some(i) => (&m[..i], &m[i + 1..]),
            None => (m, ""),
        };
        let exp = e - fp.len() as i64;
        if self.r.pct(40) || ip.len() + fp.len() > 15 || exp.abs() > 18 {
            o.push_str(t);
            return;
        }
        let mut ds = format!("{ip}{fp}");
        let mut e = e - fp.len() as i64;
        let pad = self.r.below(3);
        if ds.len() + pad <= 15 {
            for _ in 0..pad {
                ds.push('0');
                e -= 1;
            }
        }
        let f = self.r.below(4);
        while ds.len() < f + 1 {
            ds.insert(0, '0');
        }
        e += f as i64;
        let (mut a, b) = (ds[..ds.len() - f].to_string(), &ds[ds.len() - f..]);
        while a.len() > 1 && a.starts_with('0') {
            a.remove(0);
        }
        o.push_str(sign);
        o.push_str(&a);
        if !b.is_empty() {
            o.push('.');
            o.push_str(b);
        }
        if e != 0 || self.r.pct(20) {
            o.push(*self.r.pick(&['e', 'E']));
            if e < 0 {
                o.push('-');
            } else if self.r.pct(40) {
                o.push('+');
            }
            if self.r.pct(15) {
                o.push('0');
            }
            o.push_str(&e.abs().to_string());
        }
    }
    fn bad_number(&mut self, o: &mut String) {
        const T: &[&str] = &["0", "1", "-", "+", ".", "e", "E", "00", "-0", "10", "5", "e+", "E-", " ", "9007199254740992", "0x1", "_", "12"];
        for _ in 0..1 + self.r.below(5) {
            o.push_str(self.r.pick(T));
        }
    }
    fn literal(&mut self, o: &mut String, like: Option<&Value>) {
        let odd = self.r.pct(self.p.mutate / 4);
        match like {
            Some(Value::Number(n)) if !odd => {
                let t = crate::enc::numeral(n);
                self.num_literal(o, &t)
            }
            Some(Value::String(s)) if !odd => self.quote(o, s),
            Some(v) if !v.is_array() && !v.is_object() => o.push_str(&v.to_string()),
            _ => match self.r.below(10) {
                0 => o.push_str("null"),
                1 => o.push_str("true"),
                2 => o.push_str("false"),
                3..=6 => {
                    if odd {
                        self.bad_number(o)
                    } else if self.r.pct(5) {
                        o.push_str(self.r.pick(&["-0", "-0.0", "-0e1", "0e0", "0E-0", "0.00"]))
                    } else {
                        let t = self.numtext();
                        self.num_literal(o, &t)
                    }
                }
                _ => {
                    if odd {
                        self.bad_string(o)
                    } else {
                        let t = if self.p.rx { self.subject() } else { self.string() };
                        self.quote(o, &t)
                    }
                }
            },
        }
    }
    fn pattern(&mut self, o: &mut String) {
        let t = self.pattern_text();
        self.quote(o, &t)
    }
    pub fn pattern_text(&mut self) -> String {
        if self.r.pct(50) {
            return self.r.pick(PATTERNS).to_string();
        }
        let mut t = String::new();
        self.rx(&mut t, 2);
        if self.r.pct(6) {
            t.insert_str(0, self.r.pick(&["(", "*", "+", "a)|"]));
        }
        if self.r.pct(6) {
            t.push_str(self.r.pick(&[")", "(", "\\", "[a", "|*"]));
        }
        t
    }
    fn rx(&mut self, o: &mut String, d: u32) {
        for i in 0..1 + self.r.below(3) {
            if i > 0 && self.r.pct(25) {
                o.push('|');
            }
            match self.r.below(if d == 0 { 6 } else { 9 }) {
                0..=2 => o.push(*self.r.pick(&['a', 'b', 'c', 'a', 'b', 'é', '😀', 'A', '1', ' ', '-', '/', ',', '"', '\''])),
                3 => o.push('.'),
                4 => o.push_str(self.r.pick(&["\\.", "\\\\", "\\n", "\\r", "\\t", "\\(", "\\)", "\\*", "\\+", "\\-", "\\?", "\\[", "\\]", "\\{", "\\|", "\\}", "\\^"])),
                5 => {
                    o.push('[');
                    if self.r.pct(30) {
                        o.push('^');
                    }
                    for _ in 0..1 + self.r.below(3) {
                        o.push_str(self.r.pick(&["a", "b", "a-c", "0-9", "A-Z", "é", "😀", ".", "*", "\\n", "\\]", "\\\\", "\\-", "(", "$", ",", "b-b"]));
                    }
                    o.push(']');
                }
                _ => {
                    o.push('(');
                    self.rx(o, d - 1);
                    o.push(')');
                }
            }
            if self.r.pct(35) {
                o.push_str(self.r.pick(&["*", "+", "?", "{2}", "{1,2}", "{0,1}", "{0}", "{2,}", "{0,}", "{1}", "{03}"]));
            }
        }
    }

    // ---- queries ----
    pub fn query(&mut self, doc: &Value) -> String {
        let mut o = String::from("$");
        // the root alone
        if self.r.pct(if kids(doc).is_empty() { 30 } else { 2 }) {
            return o;
        }
        self.segments(&mut o, vec![doc], doc, self.p.segs, self.p.fdepth, 0);
        o
    }
    /// `one`: percentage of segments that are kept singular
    fn segments<'d>(&mut self, o: &mut String, mut cur: Cur<'d>, root: &'d Value, max: usize, fd: u32, one: u32) -> Cur<'d> {
        let n = if max == self.p.segs && fd == self.p.fdepth { 1 + self.r.below(max) } else { self.r.below(max + 1) };
        for _ in 0..n {
            let one = self.r.pct(one);
            self.s(o);
            let desc = !one && self.r.pct(self.p.desc);
            if desc {
                let mut all = vec![];
                for c in cur.iter().take(4) {
                    subtree(c, &mut all);
                }
                while all.len() > 10 {
                    let i = self.r.below(all.len());
                    all.remove(i);
                }
                cur = all;
                o.push_str("..");
            }
            let k = if one { if self.r.pct(70) { 0 } else { 2 } } else { self.sel_kind(&cur, fd) };
            // shorthands
            if k == 1 && self.r.pct(50) {
                if !desc {
                    o.push('.');
                }
                o.push('*');
                cur = cur.iter().flat_map(|v| kids(v)).collect();
            } else if k == 0 && self.r.pct(50) {
                let name = self.pick_name(&cur);
                if Self::is_shorthand(&name) {
                    if !desc {
                        o.push('.');
                    }
                    o.push_str(&name);
                } else {
                    o.push('[');
                    if !one {
                        self.s(o);
                    }
                    self.quote(o, &name);
                    if !one {
                        self.s(o);
                    }
                    o.push(']');
                }
                cur = cur.iter().filter_map(|v| v.get(&name)).collect();
            } else {
                o.push('[');
                let mut next = vec![];
                let mut k = k;
                loop {
                    if !one {
                        self.s(o);
                    }
                    next.extend(self.selector(o, k, &cur, root, fd));
                    if !one {
                        self.s(o);
                    }
                    if one || !self.r.pct(self.p.multi) {
                        break;
                    }
                    o.push(',');
                    k = self.sel_kind(&cur, fd);
                }
                o.push(']');
                cur = next;
            }
            while cur.len() > 8 {
                let i = self.r.below(cur.len());
                cur.remove(i);
            }
        }
        cur
    }
    fn sel_kind(&mut self, cur: &Cur, fd: u32) -> usize {
        let mut w = self.p.sel;
        if fd == 0 {
            w[4] = 0;
        }
        if self.r.pct(self.p.hit) && !cur.is_empty() {
            let objs = cur.iter().any(|v| v.as_object().map_or(false, |o| !o.is_empty()));
            let arrs = cur.iter().any(|v| v.as_array().map_or(false, |o| !o.is_empty()));
            if !objs {
                w[0] = 0;
            }
            if !arrs {
                w[2] = 0;
                w[3] = 0;
            }
        }
        if w.iter().sum::<u32>() == 0 {
            w[1] = 1;
        }
        self.r.weigh(&w)
    }
    fn pick_name(&mut self, cur: &Cur) -> String {
        if self.r.pct(self.p.hit) {
            let ks: Vec<&String> = cur.iter().filter_map(|v| v.as_object()).flat_map(|o| o.keys()).collect();
            if !ks.is_empty() {
                return self.r.pick(&ks).to_string();
            }
        }
        self.key()
    }
    fn some_len(&mut self, cur: &Cur) -> i64 {
        let ls: Vec<i64> = cur.iter().filter_map(|v| v.as_array()).map(|a| a.len() as i64).collect();
        if ls.is_empty() {
            3
        } else {
            *self.r.pick(&ls)
        }
    }
    fn selector<'d>(&mut self, o: &mut String, k: usize, cur: &Cur<'d>, root: &'d Value, fd: u32) -> Cur<'d> {
        match k {
            0 => {
                let name = self.pick_name(cur);
                if self.r.pct(self.p.mutate / 5) {
                    self.bad_string(o);
                } else {
                    self.quote(o, &name);
                }
                cur.iter().filter_map(|v| v.get(&name)).collect()
            }
            1 => {
                o.push('*');
                cur.iter().flat_map(|v| kids(v)).collect()
            }
            2 => {
                if self.r.pct(self.p.mutate / 5) {
                    self.bad_number(o);
                    return vec![];
                }
                let len = self.some_len(cur);
                let i = if self.r.pct(self.p.hit) && len > 0 && !self.r.pct(self.p.huge) {
                    self.r.range(-len, len - 1).to_string()
                } else {
                    self.int(len)
                };
                o.push_str(&i);
                let i: i64 = i.parse().unwrap_or(0);
                cur.iter()
                    .filter_map(|v| v.as_array())
                    .filter_map(|a| a.get(if i < 0 { a.len() as i64 + i } else { i } as usize))
                    .collect()
            }
            3 => {
                let len = self.some_len(cur);
                for j in 0..3 {
                    if j > 0 {
                        if j == 2 && self.r.pct(35) {
                            break;
                        }
                        o.push(':');
                        self.s(o);
                    }
                    if self.r.pct(60) {
                        let t = if self.r.pct(self.p.mutate / 8) {
                            let mut t = String::new();
                            self.bad_number(&mut t);
                            t
                        } else if j == 2 && !self.r.pct(self.p.huge / 2) {
                            self.r.range(-3, 3).to_string()
                        } else {
                            self.int(len)
                        };
                        o.push_str(&t);
                        if j < 2 {
                            self.s(o);
                        }
                    } else if j == 1 {
                        // no end: the blank space stands before the next colon
                    }
                }
                cur.iter().filter_map(|v| v.as_array()).flat_map(|a| a.iter()).collect()
            }
            _ => {
                o.push('?');
                self.s(o);
                let ch: Cur = cur.iter().flat_map(|v| kids(v)).collect();
                self.logical(o, &ch, root, fd - 1, 2);
                ch
            }
        }
    }
    pub fn logical(&mut self, o: &mut String, at: &Cur, root: &Value, fd: u32, d: u32) {
        let mut w = self.p.logic;
        if d == 0 {
            w[0] = 0;
            w[1] /= 4;
            w[2] /= 4;
        }
        if w.iter().sum::<u32>() == 0 {
            w[4] = 1;
        }
        let d1 = d.saturating_sub(1);
        match self.r.weigh(&w) {
            0 => {
                let n = 1 + self.r.below(2);
                self.logical(o, at, root, fd, d1);
                for _ in 0..n {
                    self.s(o);
                    o.push_str(self.r.pick(&["&&", "||"]));
                    self.s(o);
                    self.logical(o, at, root, fd, d1);
                }
            }
            1 => {
                o.push('!');
                self.s(o);
                match self.r.below(3) {
                    0 => self.test_query(o, at, root, fd),
                    1 => {
                        o.push('(');
                        self.s(o);
                        self.logical(o, at, root, fd, d1);
                        self.s(o);
                        o.push(')');
                    }
                    _ => self.test_call(o, at, root, fd),
                }
            }
            2 => {
                o.push('(');
                self.s(o);
                self.logical(o, at, root, fd, d1);
                self.s(o);
                o.push(')');
            }
            3 => self.test_query(o, at, root, fd),
            4 => {
                let like = self.operand(o, at, root, fd, None);
                self.s(o);
                o.push_str(self.r.pick(&["==", "==", "!=", "<", "<=", ">", ">="]));
                self.s(o);
                self.operand(o, at, root, fd, like.as_ref());
            }
            _ => self.test_call(o, at, root, fd),
        }
    }
    fn any_query<'d>(&mut self, o: &mut String, at: &Cur<'d>, root: &'d Value, fd: u32, one: u32) -> Cur<'d> {
        if self.r.pct(75) {
            o.push('@');
            self.segments(o, at.clone(), root, 2, fd, one)
        } else {
            o.push('$');
            self.segments(o, vec![root], root, 3.min(self.p.segs.max(1)), fd, one)
        }
    }
    fn test_query(&mut self, o: &mut String, at: &Cur, root: &Value, fd: u32) {
        self.any_query(o, at, root, fd, 40);
    }
    /// an operand of a comparison; returns a value it may have
    fn operand(&mut self, o: &mut String, at: &Cur, root: &Value, fd: u32, like: Option<&Value>) -> Option<Value> {
        if self.r.pct(self.p.misfit / 3) {
            match self.r.below(3) {
                0 => {
                    self.any_query(o, at, root, fd, 50);
                }
                1 => self.call(o, at, root, fd, None),
                _ => self.logical(o, at, root, fd, 0),
            }
            return None;
        }
        match self.r.weigh(&self.p.opnd.clone()) {
            0 => {
                let like = if self.r.pct(60) { like } else { None };
                self.literal(o, like);
                None
            }
            1 => {
                let ns = self.any_query(o, at, root, fd, 100);
                if ns.is_empty() {
                    None
                } else {
                    Some((*self.r.pick(&ns)).clone())
                }
            }
            _ => {
                self.call(o, at, root, fd, Some(V));
                None
            }
        }
    }
    fn test_call(&mut self, o: &mut String, at: &Cur, root: &Value, fd: u32) {
        let t = if self.r.pct(self.p.misfit / 2) { None } else { Some(if self.r.pct(70) { L } else { N }) };
        self.call(o, at, root, fd, t)
    }
    fn call(&mut self, o: &mut String, at: &Cur, root: &Value, fd: u32, ty: Option<u8>) {
        if self.r.pct(self.p.misfit / 4) {
            // not registered
            o.push_str(self.r.pick(&["foo", "lengt", "lengthh", "l", "count_", "values", "m", "true", "null", "matc", "searchh", "nodes"]));
            o.push('(');
            self.any_query(o, at, root, 0, 50);
            o.push(')');
            return;
        }
        let pool: Vec<&Fn> = {
            let c = self.r.pct(self.p.custom) && !self.fns.is_empty();
            let all: Vec<&Fn> = if c {
                self.fns.iter().collect()
            } else {
                // not those which are registered under the same name
                BUILTIN.iter().filter(|b| !self.fns.iter().any(|f| f.0 == b.0)).collect()
            };
            let some: Vec<&Fn> = all.iter().filter(|f| ty.map_or(true, |t| f.2 == t)).cloned().collect();
            if some.is_empty() {
                let all: Vec<&Fn> = self
                    .fns
                    .iter()
                    .chain(BUILTIN.iter().filter(|b| !self.fns.iter().any(|f| f.0 == b.0)))
                    .filter(|f| ty.map_or(true, |t| f.2 == t))
                    .collect();
                if all.is_empty() {
                    self.any_query(o, at, root, 0, 50);
                    return;
                }
                all
            } else {
                some
            }
        };
        let f = **self.r.pick(&pool);
        o.push_str(f.0);
        o.push('(');
        self.s(o);
        let mut ps: Vec<u8> = f.1.to_vec();
        if self.r.pct(self.p.misfit / 4) {
            if self.r.pct(50) {
                ps.pop();
            } else {
                ps.push(self.r.below(3) as u8);
            }
        }
        for (i, t) in ps.iter().enumerate() {
            if i > 0 {
                self.s(o);
                o.push(',');
                self.s(o);
            }
            let rx2 = i == 1 && (f.0 == "search" || (f.0 == "match" && f.1[0] == V));
            if rx2 {
                if self.p.rx && self.r.pct(25) {
                    // documents have patterns that are specified, and subjects that are
                    self.any_query(o, at, root, fd, 100);
                } else if self.r.pct(10) {
                    o.push_str(self.r.pick(&["1", "null", "true", "@['no such member']"]));
                } else {
                    self.pattern(o);
                }
                continue;
            }
            let t = if self.r.pct(self.p.misfit / 2) { self.r.below(3) as u8 } else { *t };
            let plain = self.open > if self.fns.len() > 100 { 0 } else { 3 } || (ps.len() > 2 && self.r.pct(if self.open > 0 { 90 } else { 60 }));
            self.open += 1;
            if plain {
                match t {
                    V if self.r.pct(30) => self.literal(o, None),
                    V => {
                        self.any_query(o, at, root, 0, 100);
                    }
                    N => {
                        self.any_query(o, at, root, 0, 20);
                    }
                    _ if self.r.pct(70) || self.open > 3 => {
                        self.any_query(o, at, root, 0, 30);
                    }
                    _ => self.logical(o, at, root, 0, 0),
                }
            } else {
                self.argument(o, at, root, fd, t);
            }
            self.open -= 1;
        }
        self.s(o);
        o.push(')');
    }
    fn argument(&mut self, o: &mut String, at: &Cur, root: &Value, fd: u32, t: u8) {
        let fd1 = fd.saturating_sub(1);
        match t {
            V => match self.r.below(10) {
                0..=2 => self.literal(o, None),
                3..=6 => {
                    self.any_query(o, at, root, fd, 100);
                }
                _ => {
                    if self.r.pct(60) {
                        self.call(o, at, root, fd1, Some(V))
                    } else {
                        self.any_query(o, at, root, fd, 100);
                    }
                }
            },
            N => {
                if self.r.pct(70) {
                    self.any_query(o, at, root, fd, 20);
                } else {
                    self.call(o, at, root, fd1, Some(N));
                }
            }
            _ => match self.r.below(8) {
                0..=2 => {
                    self.any_query(o, at, root, fd, 30);
                }
                3 => self.call(o, at, root, fd1, Some(L)),
                4 => self.call(o, at, root, fd1, Some(N)),
                _ => self.logical(o, at, root, fd1, 1),
            },
        }
    }

    // ---- damage ----
    pub fn mutate(&mut self, t: &str, other: &str) -> String {
        const ALPHA: &[&str] = &[
            "$", "@", ".", "..", "[", "]", "(", ")", ",", ":", "?", "!", "&&", "||", "&", "|", "==", "=", "!=", "<", ">", "<=", "*", "'", "\"", "\\",
            "\\u", "0", "-", "1", "e", "+", " ", "\t", "\n", "\r", "\u{b}", "\u{c}", "\u{a0}", "\u{2028}", "a", "Z", "_", "é", "😀", "\u{0}", "true", "null",
            "false", "length(", "count(", "value(", "/", "~", "#", "{", "}", "%", ";", "^", "::", "-0", "01", "1.5", "['a']", ".a", "[0]", "[?@]", "[*]",
            "\u{feff}", "TRUE", "!!", "()", "[]", "[,]", "@.a", "$.a", "&& ", "\u{3000}", "\u{85}",
        ];
        let mut c: Vec<char> = t.chars().collect();
        for _ in 0..1 + self.r.below(2) {
            let i = self.r.below(c.len() + 1);
            match self.r.below(9) {
                0 => c.truncate(i),
                1 | 2 => {
                    if i < c.len() {
                        c.remove(i);
                    }
                }
                3 | 4 => {
                    let a: Vec<char> = self.r.pick(ALPHA).chars().collect();
                    c.splice(i..i, a);
                }
                5 => {
                    if i < c.len() {
                        let a: Vec<char> = self.r.pick(ALPHA).chars().collect();
                        c.splice(i..i + 1, a);
                    }
                }
                6 => {
                    if i + 1 < c.len() {
                        c.swap(i, i + 1);
                    }
                }
                7 => {
                    let j = i + self.r.below(c.len() - i + 1).min(6);
                    let part = c[i..j].to_vec();
                    if self.r.pct(50) {
                        c.splice(i..i, part);
                    } else {
                        c.drain(i..j);
                    }
                }
                _ => {
                    let o: Vec<char> = other.chars().collect();
                    let j = self.r.below(o.len() + 1);
                    if self.r.pct(50) {
                        c.truncate(i);
                        c.extend(&o[j..]);
                    } else {
                        let k = j + self.r.below(o.len() - j + 1).min(8);
                        c.splice(i..i, o[j..k].to_vec());
                    }
                }
            }
        }
        c.truncate(160);
        c.into_iter().collect()
    }
    /// a text that is much like another
    pub fn resemble(&mut self, t: &str) -> String {
        let mut c: Vec<char> = t.chars().collect();
        if c.is_empty() {
            return String::from(" ");
        }
        for _ in 0..4 {
            let i = self.r.below(c.len());
            match self.r.below(7) {
                0 if c[i].is_ascii_alphabetic() => c[i] = if c[i].is_ascii_uppercase() { c[i].to_ascii_lowercase() } else { c[i].to_ascii_uppercase() },
                1 if c[i].is_ascii_alphabetic() => c[i] = *self.r.pick(&['a', 'b', 'c', 'd', 'A']),
                2 if c[i].is_ascii_digit() => c[i] = *self.r.pick(&['1', '2', '3', '0']),
                3 => c.extend(".a".chars()),
                4 => c.extend("[0]".chars()),
                5 => {
                    c.pop();
                }
                6 if c[i] == '=' || c[i] == '<' || c[i] == '>' || c[i] == '!' => c[i] = *self.r.pick(&['=', '<', '>', '!']),
                _ => continue,
            }
            break;
        }
        c.into_iter().collect()
    }
    pub fn noise(&mut self) -> String {
        let n = self.r.below(12);
        let mut t = String::from(if self.r.pct(70) { "$" } else { "" });
        for _ in 0..n {
            if self.r.pct(50) {
                let c = self.anychar();
                t.push(c);
            } else {
                t.push(*self.r.pick(&['[', ']', '?', '(', ')', '@', '.', '\'', '"', '\\', 'u', 'D', '8', '0', ':', ',', '!', '=', '<', '&', '|', '*', '-', '1', 'e']));
            }
        }
        t
    }
    /// deep, but moderately
    pub fn nested(&mut self) -> String {
        let n = 1 + self.r.below(12);
        match self.r.below(6) {
            0 => format!("$[?{}@.a{}]", "(".repeat(n), ")".repeat(n)),
            1 => format!("$[?{}@.a{}]", "!(".repeat(n), ")".repeat(n)),
            2 => format!("$[?{}@{}==1]", "length(value(".repeat(n.min(4)), "))".repeat(n.min(4))),
            3 => format!("${}", "..[0]['a'].b[*]".repeat(n)),
            4 => format!("$[?@{}]", ".a[0]".repeat(n * 2)),
            _ => {
                let n = n.min(4);
                format!("${}{}", "[?@.a".repeat(n), "]".repeat(n))
            }
        }
    }

    // ---- sizes ----
    fn size(&mut self) -> usize {
        *self.r.pick(&[
            9, 10, 11, 12, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 48, 50, 63, 64, 65, 66, 80, 99, 100, 101, 120, 127, 128, 129, 130, 150, 200, 255, 256, 257,
            258, 300,
        ])
    }
    fn near(&mut self, n: i64) -> i64 {
        let d = self.r.range(-2, 2);
        match self.r.below(8) {
            0 => n + d,
            1 => -n + d,
            2 => n / 2 + d,
            3 => d,
            4 => -(n / 2) + d,
            5 => *self.r.pick(&[16, 32, 64, 100, 128, 256]) + d,
            6 => -*self.r.pick(&[16i64, 32, 64, 100, 128, 256]) + d,
            _ => self.r.range(-n - 1, n + 1),
        }
    }
    fn near_slice(&mut self, n: i64) -> String {
        let f = |g: &mut Self, n| if g.r.pct(65) { g.near(n).to_string() } else { String::new() };
        let (a, b) = (f(self, n), f(self, n));
        if self.r.pct(40) {
            format!("{a}:{b}")
        } else {
            let c = if self.r.pct(50) { self.r.range(-9, 9).to_string() } else { f(self, n) };
            format!("{a}:{b}:{c}")
        }
    }
    fn long_string(&mut self, n: usize) -> String {
        let uni = self.r.pct(30);
        let mut t: String = (0..n).map(|i| if uni && i % 7 == 3 { 'é' } else { (b'a' + (i % 3) as u8) as char }).collect();
        if self.r.pct(40) {
            let c = self.anychar();
            t.push(c);
        }
        t
    }
    fn bracket(&mut self, name: &str) -> String {
        let mut o = String::from("[");
        self.quote(&mut o, name);
        o.push(']');
        o
    }
    /// A document and queries that are large in one way
    pub fn big(&mut self) -> (Value, Vec<String>) {
        let mut qs = vec![];
        let n = self.size();
        let ni = n as i64;
        match self.r.below(11) {
            0 => {
                // a long array
                let m = 1 + self.r.below(n) as i64;
                let a: Vec<Value> = (0..ni).map(|i| if self.r.pct(4) { Value::String("a".into()) } else { Value::from(i * 7 % m) }).collect();
                let wrap = self.r.pct(30);
                let (d, pre) = if wrap {
                    let mut o = Map::new();
                    o.insert("a".into(), Value::Array(a));
                    (Value::Object(o), "$.a")
                } else {
                    (Value::Array(a), "$")
                };
                for _ in 0..9 {
                    let (i, j, sl, sm) = (self.near(ni), self.near(ni), self.near_slice(ni), self.near_slice(ni));
                    let k = self.r.range(0, m);
                    qs.push(match self.r.below(14) {
                        0 | 1 => format!("{pre}[{i}]"),
                        2 | 3 => format!("{pre}[{sl}]"),
                        4 => format!("{pre}[{sl},{i},{sm}]"),
                        5 => format!("{pre}[?@>={k}]"),
                        6 => format!("{pre}[?@=={k}||@=='a']"),
                        7 => format!("{pre}[*]"),
                        8 => "$..*".into(),
                        9 => format!("{pre}[?@<={pre}[{i}]]"),
                        10 => format!("$..[{i},{j}]"),
                        11 => format!("{}[?length({pre})=={}]", "$", n as i64 + self.r.range(0, 1) - self.r.range(0, 1)),
                        12 => format!("$..[{sl}]"),
                        _ => format!("{pre}[{i}]..*"),
                    });
                }
                (d, qs)
            }
            1 => {
                // many members
                let mut o = Map::new();
                let n = n.min(130);
                for i in 0..n {
                    let k = if self.r.pct(10) { self.key() } else { format!("k{i}") };
                    let v = if self.r.pct(10) { self.tree(1) } else { Value::from(i % 5) };
                    o.insert(k, v);
                }
                let ks: Vec<String> = o.keys().cloned().collect();
                for _ in 0..7 {
                    let a = self.r.pick(&ks).clone();
                    let (a, b) = (self.bracket(&a), self.near(n as i64));
                    qs.push(match self.r.below(7) {
                        0 => format!("${a}"),
                        1 => "$.*".into(),
                        2 => format!("$..{a}"),
                        3 => "$[?@==3]".into(),
                        4 => format!("$[*,'k{b}']"),
                        5 => "$..*".into(),
                        _ => format!("$[?@==${a}]"),
                    });
                }
                (Value::Object(o), qs)
            }
            2 | 3 => {
                // depth
                let n = n.min(140);
                let mut v = self.tree(1);
                let mut path = vec![];
                let kind = self.r.below(3);
                for _ in 0..n {
                    v = if kind == 0 || (kind == 2 && self.r.pct(50)) {
                        path.push("[0]".to_string());
                        let mut a = vec![v];
                        if self.r.pct(5) {
                            a.push(Value::from(1));
                        }
                        Value::Array(a)
                    } else {
                        let k = if self.r.pct(80) { "a".to_string() } else { self.key() };
                        path.push(self.bracket(&k));
                        let mut m = Map::new();
                        m.insert(k, v);
                        Value::Object(m)
                    };
                }
                path.reverse();
                for _ in 0..4 {
                    let i = self.r.below(n + 1);
                    let p: String = path[..i].concat();
                    let r: String = path[i.min(n - 1)..].concat();
                    qs.push(match self.r.below(8) {
                        0 => format!("${p}"),
                        1 => format!("${p}..*"),
                        2 => "$..a".into(),
                        3 => "$..[0]".into(),
                        4 => "$..*".into(),
                        5 => format!("$..{r}"),
                        6 => format!("$[?@{}==1]", path[1..].concat()),
                        _ => format!("$[?@..{r}]"),
                    });
                }
                (v, qs)
            }
            4 => {
                // many selectors
                let d = self.doc();
                let n = n.min(130);
                let p = self.p;
                for _ in 0..2 {
                    let mut o = String::from("$");
                    if self.r.pct(40) {
                        o.push_str("..");
                    }
                    o.push('[');
                    let m = if self.r.pct(50) { n } else { n.min(20) };
                    for i in 0..m {
                        if i > 0 {
                            o.push(',');
                        }
                        let k = self.r.weigh(&[30, 5, 30, 5, 1]);
                        if k == 4 {
                            o.push_str(self.r.pick(&["?@", "?@.a", "?@==1", "?@>'a'", "?!@.b"]));
                        } else {
                            self.selector(&mut o, k, &vec![&d], &d, p.fdepth);
                        }
                    }
                    o.push(']');
                    qs.push(o);
                }
                (d, qs)
            }
            5 => {
                // many operands
                let d = self.doc();
                for _ in 0..3 {
                    let m = 3 + self.r.below(n.min(60));
                    let mut o = String::from("$[?");
                    let ops: &[&str] = match self.r.below(3) {
                        0 => &["&&"],
                        1 => &["||"],
                        _ => &["&&", "||"],
                    };
                    let common = ops.len() == 1 && self.r.pct(70);
                    let odd = self.r.below(m);
                    for i in 0..m {
                        if i > 0 {
                            o.push_str(self.r.pick(ops));
                        }
                        if common && i != odd {
                            // all but one have no say
                            o.push_str(if ops[0] == "&&" { self.r.pick(&["@", "1==1", "!@.zz"]) } else { self.r.pick(&["!@", "1==2", "@.zz"]) });
                        } else {
                            o.push_str(self.r.pick(&["@.a", "@==1", "@.b=='a'", "!@[0]", "@<2", "@.*", "(@.a||@[0])", "@!=$[0]"]));
                        }
                    }
                    o.push(']');
                    qs.push(o);
                }
                (d, qs)
            }
            6 => {
                // long names and strings
                let a = self.long_string(n);
                let mut b = a.clone();
                b.pop();
                let mut c = b.clone();
                c.push('z');
                let mut o = Map::new();
                o.insert(a.clone(), Value::String(b.clone()));
                o.insert(b.clone(), Value::String(a.clone()));
                if self.r.pct(50) {
                    o.insert(c.clone(), Value::String(c.clone()));
                }
                for _ in 0..5 {
                    let x = self.r.pick(&[&a, &b, &c]).to_string();
                    let br = self.bracket(&x);
                    let y = self.r.pick(&[&a, &b, &c]).to_string();
                    let mut y2 = String::new();
                    self.quote(&mut y2, &y);
                    let y = y2;
                    let n = self.near(ni);
                    qs.push(match self.r.below(9) {
                        0 | 1 => format!("${br}"),
                        2 => format!("$..{br}"),
                        3 => format!("$[?@=={y}]"),
                        4 => format!("$[?@<{y}]"),
                        5 => format!("$[?@>=${br}]"),
                        6 => format!("$[?length(@)=={}]", n.abs()),
                        7 if Self::is_shorthand(&x) => format!("$.{x}"),
                        7 => "$[*]".into(),
                        _ => format!("$[?length(@)>{}]", n.abs()),
                    });
                }
                (Value::Object(o), qs)
            }
            7 => {
                // one node, many times
                let d = loop {
                    let d = self.tree(3);
                    let mut all = vec![];
                    subtree(&d, &mut all);
                    if all.len() < 16 && all.len() > 4 {
                        break d;
                    }
                };
                for _ in 0..3 {
                    qs.push(match self.r.below(6) {
                        0 => "$..*..*".into(),
                        1 => "$..[*,*]".into(),
                        2 => "$[*,*]..[*,0,'a']".into(),
                        3 => format!("$[{}]", vec![*self.r.pick(&["0", "'a'", "*", "-1"]); n.min(70)].join(",")),
                        4 => "$..*..*..*".into(),
                        _ => "$..[::-1,*]..[0,*]".into(),
                    });
                }
                (d, qs)
            }
            8 => {
                // much blank space
                let d = self.doc();
                for _ in 0..4 {
                    let q = self.query(&d);
                    let bl: String = (0..n.min(130)).map(|_| *self.r.pick(&[' ', '\t', '\n', '\r'])).collect();
                    let mut o = String::new();
                    let mut quoted = false;
                    for c in q.chars() {
                        quoted ^= c == '\'' || c == '"';
                        if !quoted && "[],()".contains(c) && self.r.pct(25) {
                            if c != '(' {
                                o.push_str(&bl);
                            }
                            o.push(c);
                            if c != ']' && c != ')' {
                                o.push_str(&bl);
                            }
                        } else {
                            o.push(c);
                        }
                    }
                    qs.push(o);
                }
                (d, qs)
            }
            9 => {
                // large values that differ in one place
                let n = n.min(100);
                let base = if self.r.pct(50) {
                    Value::Array((0..n).map(|i| Value::from(i % 9)).collect())
                } else {
                    let mut m = Map::new();
                    for i in 0..n {
                        m.insert(format!("k{i}"), Value::from(i % 9));
                    }
                    Value::Object(m)
                };
                let mut all = vec![base.clone()];
                for _ in 0..4 {
                    let mut v = base.clone();
                    match &mut v {
                        Value::Array(a) => {
                            let i = if self.r.pct(50) { n - 1 } else { self.r.below(n) };
                            match self.r.below(4) {
                                0 => drop(a.remove(i)),
                                1 => a[i] = Value::from(77),
                                2 => a.push(Value::Null),
                                _ => {}
                            }
                        }
                        Value::Object(o) => {
                            let k = if self.r.pct(50) { format!("k{}", n - 1) } else { format!("k{}", self.r.below(n)) };
                            match self.r.below(4) {
                                0 => drop(o.remove(&k)),
                                1 => drop(o.insert(k, Value::from(77))),
                                2 => drop(o.insert("x".into(), Value::Null)),
                                _ => {}
                            }
                        }
                        _ => {}
                    }
                    all.push(v);
                }
                for i in 0..3 {
                    qs.push(format!("$[?@==$[{i}]]"));
                    qs.push(format!("$[?@!=$[{i}]]"));
                }
                qs.push("$[?@[-1]!=$[0][-1]]".into());
                qs.push(format!("$[?length(@)>={n}]"));
                qs.push(format!("$[?count(@.*)=={n}]"));
                (Value::Array(all), qs)
            }
            _ => {
                // regular expressions on long strings
                let mut a: Vec<Value> = vec![];
                for t in ["a", "b", "ab"] {
                    let m = self.size().min(120);
                    let mut s = t.repeat(m);
                    a.push(Value::String(s.clone()));
                    s.push(*self.r.pick(&['b', 'c', '\n']));
                    a.push(Value::String(s.clone()));
                    s.insert(0, 'c');
                    a.push(Value::String(s));
                }
                let k = 1 + self.r.below(20);
                for _ in 0..4 {
                    let f = *self.r.pick(&["match", "search"]);
                    let rx = match self.r.below(8) {
                        0 => "a*b".to_string(),
                        1 => "(ab)*".into(),
                        2 => format!("a{{{k}}}"),
                        3 => format!("a{{{k},}}"),
                        4 => ".*c".into(),
                        5 => "[ab]+c".into(),
                        6 => "(a|b)*".into(),
                        _ => format!("{}b*", "a".repeat(k)),
                    };
                    qs.push(format!("$[?{f}(@,'{rx}')]"));
                }
                (Value::Array(a), qs)
            }
        }
    }
}
