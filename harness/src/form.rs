//! Form and query data, the deserializer behind them, and bodies arriving in pieces.
use super::param::{integer, Int, BEGIN};
use super::rt::*;
use super::serve::*;
use super::util::*;
use obsidian::context::Context;
use obsidian::router::{from_cow_map, FormError};
use obsidian::{Body, Method, ObsidianError, Request};
use serde::de::DeserializeOwned;
use serde::Deserialize;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::pin::Pin;
use std::task::{Context as Cx, Poll};

// ---- text of a body ------------------------------------------------------------------

/// Two codes of up to 15 hex digits each, first symbol in the lowest digit:
/// 1 any byte, 2 any ASCII byte, 3 `&`, 4 `=`, 5 `%`, 6 `+`, 7 a decimal digit,
/// 8 a byte without meaning in the format, 9 a hex digit, d `-`, e the given beginning of a number, a b c the letters,
/// f any printable character
pub fn template(codes: [usize; 2], begin: usize, tag: u32) -> Vec<u8> {
    let mut v = vec![];
    for mut code in codes {
        while code > 0 {
            let b = match code % 16 {
                3 => b'&',
                4 => b'=',
                5 => b'%',
                6 => b'+',
                13 => b'-',
                14 => {
                    v.extend_from_slice(BEGIN[begin].as_bytes());
                    code /= 16;
                    continue;
                }
                k @ 10..=12 => b'a' + k as u8 - 10,
                k => {
                    let b = byte(tag);
                    assume(match k {
                        1 => true,
                        2 => b < 0x80,
                        7 => (b >= b'0') & (b <= b'9'),
                        8 => (b != b'&') & (b != b'=') & (b != b'%') & (b != b'+'),
                        9 => ((b >= b'0') & (b <= b'9')) | ((b >= b'a') & (b <= b'f')) | ((b >= b'A') & (b <= b'F')),
                        _ => (b > 0x20) & (b < 0x7f),
                    });
                    b
                }
            };
            v.push(b);
            code /= 16;
        }
    }
    v
}

// ---- the format ----------------------------------------------------------------------

fn hex(b: u8) -> Option<u8> {
    match b {
        b'0'..=b'9' => Some(b - b'0'),
        b'a'..=b'f' => Some(b - b'a' + 10),
        b'A'..=b'F' => Some(b - b'A' + 10),
        _ => None,
    }
}
/// Percent-decoding of one name or value
fn decode(t: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while i < t.len() {
        if t[i] == b'+' {
            v.push(b' ');
        } else if t[i] == b'%' && i + 2 < t.len() {
            match (hex(t[i + 1]), hex(t[i + 2])) {
                (Some(h), Some(l)) => {
                    v.push(h << 4 | l);
                    i += 2;
                }
                _ => v.push(b'%'),
            }
        } else {
            v.push(t[i]);
        }
        i += 1;
    }
    if v.iter().all(|b| *b < 0x80) {
        return v;
    }
    String::from_utf8_lossy(&v).into_owned().into_bytes()
}
pub type Fields = Vec<(Vec<u8>, Vec<Vec<u8>>)>;
fn put(f: &mut Fields, k: Vec<u8>, v: Vec<u8>) {
    match f.iter_mut().find(|e| e.0 == k) {
        Some(e) => e.1.push(v),
        None => f.push((k, vec![v])),
    }
}
/// The names and their values in order; a pair without a value does not count
fn fields(t: &[u8]) -> Fields {
    let mut f = vec![];
    let mut start = 0;
    for i in 0..=t.len() {
        if i < t.len() && t[i] != b'&' {
            continue;
        }
        let pair = &t[start..i];
        start = i + 1;
        if let Some(e) = pair.iter().position(|b| *b == b'=') {
            let v = decode(&pair[e + 1..]);
            if !v.is_empty() {
                put(&mut f, decode(&pair[..e]), v);
            }
        }
    }
    f
}
fn values<'a>(f: &'a Fields, k: &[u8]) -> Option<&'a Vec<Vec<u8>>> {
    f.iter().find(|e| e.0 == k).map(|e| &e.1)
}
fn first<'a>(f: &'a Fields, k: &[u8]) -> Option<&'a [u8]> {
    values(f, k)?.first().map(|v| &v[..])
}

// ---- the types -----------------------------------------------------------------------

/// A type and what the fields mean as a value of it; None for an error
pub trait Form: DeserializeOwned + PartialEq + 'static {
    fn meaning(f: &Fields) -> Option<Self>;
}
fn sig(t: Option<&[u8]>, bits: u32) -> Option<i64> {
    integer(t?, true, 1 << (bits - 1), (1 << (bits - 1)) - 1).map(Int::signed)
}
fn uns(t: Option<&[u8]>, max: u64) -> Option<u64> {
    integer(t?, false, 0, max).map(Int::unsigned)
}
fn string(t: &[u8]) -> String {
    text(t.to_vec())
}
fn boolean(t: &[u8]) -> Option<bool> {
    match t {
        b"true" => Some(true),
        b"false" => Some(false),
        _ => None,
    }
}
macro_rules! form {
    ($n:ident { $($(#[$m:meta])* $f:ident : $t:ty),* } $g:ident => $e:expr) => {
        #[derive(Deserialize, PartialEq, Debug)]
        pub struct $n { $($(#[$m])* $f: $t),* }
        impl Form for $n {
            fn meaning($g: &Fields) -> Option<Self> { $e }
        }
    };
}
form!(Plain { a: i32, b: String } f => Some(Plain {
    a: sig(first(f, b"a"), 32)? as i32,
    b: string(first(f, b"b")?),
}));
form!(Many { a: Vec<String>, b: Option<u8> } f => Some(Many {
    a: values(f, b"a")?.iter().map(|v| string(v)).collect(),
    b: opt(f, b"b", |t| uns(Some(t), 255).map(|v| v as u8))?,
}));
form!(Nums { a: Vec<u8>, #[serde(default)] b: bool } f => Some(Nums {
    a: values(f, b"a")?.iter().map(|v| uns(Some(v), 255).map(|v| v as u8)).collect::<Option<_>>()?,
    b: match first(f, b"b") { Some(t) => boolean(t)?, None if values(f, b"b").is_none() => false, None => return None },
}));
form!(Small { a: i8, b: u64 } f => Some(Small {
    a: sig(first(f, b"a"), 8)? as i8,
    b: uns(first(f, b"b"), u64::MAX)?,
}));
form!(Opts { a: Option<Vec<i8>>, b: Option<String>, #[serde(default)] c: Vec<String> } f => Some(Opts {
    a: match values(f, b"a") {
        None => None,
        Some(v) if absent(v) => None,
        Some(v) => Some(v.iter().map(|t| sig(Some(t), 8).map(|v| v as i8)).collect::<Option<_>>()?),
    },
    b: opt(f, b"b", |t| Some(string(t)))?,
    c: values(f, b"c").map(|v| v.iter().map(|t| string(t)).collect()).unwrap_or_default(),
}));
/// no value, or an empty first one, is no value
fn absent(v: &[Vec<u8>]) -> bool {
    v.first().map_or(true, |x| x.is_empty())
}
fn opt<T>(f: &Fields, k: &[u8], g: impl Fn(&[u8]) -> Option<T>) -> Option<Option<T>> {
    match values(f, k) {
        None => Some(None),
        Some(v) if absent(v) => Some(None),
        Some(v) => g(&v[0]).map(Some),
    }
}
#[derive(Deserialize, PartialEq, Debug)]
struct Id(u16);
form!(Wrapped { a: Id, b: Option<Id> } f => Some(Wrapped {
    a: Id(uns(first(f, b"a"), 65535)? as u16),
    b: opt(f, b"b", |t| uns(Some(t), 65535).map(|v| Id(v as u16)))?,
}));
#[derive(Deserialize, PartialEq, Debug)]
struct Inner {
    a: u8,
}
// a struct inside of a field is not in the format
form!(Nested { a: Inner } f => { let _ = f; None });
form!(Lists { a: Vec<Vec<u8>>, b: i64 } f => Some(Lists {
    // every value is a list of one
    a: values(f, b"a")?.iter().map(|v| uns(Some(v), 255).map(|v| vec![v as u8])).collect::<Option<_>>()?,
    b: sig(first(f, b"b"), 64)?,
}));
impl Form for BTreeMap<String, Vec<String>> {
    fn meaning(f: &Fields) -> Option<Self> {
        Some(f.iter().map(|(k, v)| (string(k), v.iter().map(|t| string(t)).collect())).collect())
    }
}
impl Form for BTreeMap<String, String> {
    fn meaning(f: &Fields) -> Option<Self> {
        f.iter().map(|(k, v)| v.first().map(|t| (string(k), string(t)))).collect()
    }
}
form!(Wide { a: i16, b: Option<u32>, #[serde(default)] c: Option<i64> } f => Some(Wide {
    a: sig(first(f, b"a"), 16)? as i16,
    b: opt(f, b"b", |t| uns(Some(t), u32::MAX as u64).map(|v| v as u32))?,
    c: opt(f, b"c", |t| sig(Some(t), 64))?,
}));
/// Refuses names it does not have
#[derive(Deserialize, PartialEq, Debug)]
#[serde(deny_unknown_fields)]
pub struct Strict {
    a: String,
    b: Option<String>,
}
impl Form for Strict {
    fn meaning(f: &Fields) -> Option<Self> {
        if f.iter().any(|(k, _)| k != b"a" && k != b"b") {
            return None;
        }
        Some(Strict { a: string(first(f, b"a")?), b: opt(f, b"b", |t| Some(string(t)))? })
    }
}
// a tuple takes as many values as it has parts
form!(Pair { a: (u8, String), b: Option<u16> } f => Some(Pair {
    a: match &values(f, b"a")?[..] {
        [x, y, ..] => (uns(Some(x), 255)? as u8, string(y)),
        _ => return None,
    },
    b: opt(f, b"b", |t| uns(Some(t), 65535).map(|v| v as u16))?,
}));
/// Other names than its fields have
#[derive(Deserialize, PartialEq, Debug)]
pub struct Named {
    #[serde(rename = "b")]
    x: u32,
    #[serde(alias = "c", default)]
    a: Option<bool>,
}
impl Form for Named {
    fn meaning(f: &Fields) -> Option<Self> {
        let x = uns(first(f, b"b"), u32::MAX as u64)? as u32;
        // one of its two names at most
        if values(f, b"a").is_some() && values(f, b"c").is_some() {
            return None;
        }
        let k: &[u8] = if values(f, b"a").is_some() { b"a" } else { b"c" };
        Some(Named { x, a: opt(f, k, boolean)? })
    }
}
form!(Sets { a: Vec<u16>, #[serde(default)] b: Vec<Option<bool>> } f => Some(Sets {
    a: values(f, b"a")?.iter().map(|v| uns(Some(v), 65535).map(|v| v as u16)).collect::<Option<_>>()?,
    b: match values(f, b"b") {
        None => vec![],
        Some(v) => v.iter().map(|t| if t.is_empty() { Some(None) } else { boolean(t).map(Some) }).collect::<Option<_>>()?,
    },
}));
impl Form for BTreeMap<String, u8> {
    fn meaning(f: &Fields) -> Option<Self> {
        f.iter().map(|(k, v)| uns(v.first().map(|t| &t[..]), 255).map(|n| (string(k), n as u8))).collect()
    }
}
/// The names which are not its own in a map
#[derive(Deserialize, PartialEq, Debug)]
pub struct Rest {
    a: String,
    #[serde(flatten)]
    rest: BTreeMap<String, String>,
}
impl Form for Rest {
    fn meaning(f: &Fields) -> Option<Self> {
        let mut rest = BTreeMap::new();
        for (k, v) in f {
            if k != b"a" {
                rest.insert(string(k), string(v.first()?));
            }
        }
        Some(Rest { a: string(first(f, b"a")?), rest })
    }
}
#[derive(Deserialize, PartialEq, Debug)]
struct List(Vec<u8>);
fn bytes(f: &Fields, k: &[u8]) -> Option<Vec<u8>> {
    values(f, k)?.iter().map(|v| uns(Some(v), 255).map(|v| v as u8)).collect()
}
// a newtype means what is in it
form!(Listed { a: List, b: Option<List> } f => Some(Listed {
    a: List(bytes(f, b"a")?),
    b: match values(f, b"b") {
        None => None,
        Some(v) if absent(v) => None,
        Some(_) => Some(List(bytes(f, b"b")?)),
    },
}));
#[derive(Deserialize, PartialEq, Debug)]
struct May(Option<u8>);
form!(Perhaps { a: May, b: Option<May> } f => {
    values(f, b"a")?;
    Some(Perhaps {
        a: May(opt(f, b"a", |t| uns(Some(t), 255).map(|v| v as u8))?),
        b: opt(f, b"b", |t| uns(Some(t), 255).map(|v| May(Some(v as u8))))?,
    })
});
fn two(v: &[Vec<u8>]) -> Option<[u8; 2]> {
    match v {
        [x, y, ..] => Some([uns(Some(x), 255)? as u8, uns(Some(y), 255)? as u8]),
        _ => None,
    }
}
form!(Fixed { a: [u8; 2], b: Option<[u8; 2]> } f => Some(Fixed {
    a: two(values(f, b"a")?)?,
    b: match values(f, b"b") {
        None => None,
        Some(v) if absent(v) => None,
        Some(v) => Some(two(v)?),
    },
}));
impl Form for BTreeMap<String, Option<u8>> {
    fn meaning(f: &Fields) -> Option<Self> {
        f.iter().map(|(k, _)| opt(f, k, |t| uns(Some(t), 255).map(|v| v as u8)).map(|v| (string(k), v))).collect()
    }
}
form!(Unique { a: std::collections::BTreeSet<String>, #[serde(default, rename = "b")] b: Box<Vec<Option<u8>>> } f => Some(Unique {
    a: values(f, b"a")?.iter().map(|v| string(v)).collect(),
    b: Box::new(match values(f, b"b") {
        None => vec![],
        Some(v) => v.iter().map(|t| if t.is_empty() { Some(None) } else { uns(Some(t), 255).map(|v| Some(v as u8)) }).collect::<Option<_>>()?,
    }),
}));
/// Runs `$go::<T>($arg..)` for the type of a number
macro_rules! with_type {
    ($k:expr, $go:ident ( $($a:expr),* )) => {
        match $k {
            0 => $go::<Plain>($($a),*),
            1 => $go::<Many>($($a),*),
            2 => $go::<Nums>($($a),*),
            3 => $go::<Small>($($a),*),
            4 => $go::<Opts>($($a),*),
            5 => $go::<Wrapped>($($a),*),
            6 => $go::<Nested>($($a),*),
            7 => $go::<Lists>($($a),*),
            8 => $go::<BTreeMap<String, Vec<String>>>($($a),*),
            10 => $go::<Wide>($($a),*),
            11 => $go::<Strict>($($a),*),
            12 => $go::<Pair>($($a),*),
            13 => $go::<Named>($($a),*),
            14 => $go::<Sets>($($a),*),
            15 => $go::<BTreeMap<String, u8>>($($a),*),
            16 => $go::<Rest>($($a),*),
            17 => $go::<Listed>($($a),*),
            18 => $go::<Perhaps>($($a),*),
            19 => $go::<Fixed>($($a),*),
            20 => $go::<BTreeMap<String, Option<u8>>>($($a),*),
            21 => $go::<Unique>($($a),*),
            _ => $go::<BTreeMap<String, String>>($($a),*),
        }
    };
}

/// What is known to be written around names
const AROUND: [(&str, &str); 40] = [
    ("amp;", ""), ("", "[]"), ("", "[0]"), ("", "[a]"), ("", "."), (".", ""), ("form.", ""), ("", ".a"), ("?", ""), ("#", ""), ("$", ""), ("_", ""), ("-", ""), ("+", ""), ("", "+"), ("%20", ""), ("", "%20"),
    ("\"", "\""), ("'", "'"), ("a[", "]"), ("", "*"), ("*", ""), ("", "%00"), ("\u{feff}", ""), ("", "%0A"), ("%0D%0A", ""), ("\r\n", ""), (":", ""), ("", ":"), ("data-", ""), ("", "__exact"), ("", "_id"), ("", "s"), ("", "[]%5B%5D"),
    ("", "%5B%5D"), ("a", ""), ("b", ""), ("%61", ""), ("@", ""), ("/", ""),
];
/// Values which some readers take for others
const VALUES: [&str; 56] = [
    "on", "off", "yes", "no", "True", "TRUE", "true", "t", "False", "false", "f", "1", "0", "%2B1", "+1", "1+", "-0", "-1", "00", "01", "0x1", "0b1", "1e1", "1.0", "1.", ".1", "1_0", "1,0", "%201", "1%20", "1%0A", "null", "none", "None", "undefined",
    "NaN", "nan", "%D9%A3", "%22a%22", "'a'", "1,2", "[1]", "[]", "{}", "1;2", "1;b=3", "%26amp;", "%2520", "%20", "+", "%0D%0A", "a%00", "%EF%BB%BF1", "%C3%A9", "%c3%28", "256",
];

/// C13. params: 0 body 1 query 2 query of an absolute URI 3 query before a fragment 4 query of "*" like paths, type, two template codes, beginning of a number, other headers, pairs after it, other names before it, 1 after a name with something known around it 2 after a known value. What a handler is given is the
/// meaning of the text, or an error where it has none.
pub fn harness_form() {
    let mut t = vec![];
    for i in 0..param(7) {
        t.extend_from_slice(format!("k{}=1&", i).as_bytes());
    }
    t.extend(template([param(2), param(3)], param(4), 1));
    for _ in 0..param(6) {
        t.extend_from_slice(b"&a=7&b=1");
    }
    let name = |tag| ["a", "b"][pick(2, tag)];
    match param(8) {
        0 => {}
        1 => {
            let (x, y) = AROUND[pick(AROUND.len(), 60)];
            let d = byte(1);
            assume((d >= b'0') & (d <= b'9'));
            t = [x.as_bytes(), name(61).as_bytes(), y.as_bytes(), b"=", &[d][..], b"&", &t[..]].concat();
        }
        _ => t = [name(61).as_bytes(), b"=", VALUES[pick(VALUES.len(), 60)].as_bytes(), b"&", &t[..]].concat(),
    }
    with_type!(param(1), form_of(param(0), &t));
}
fn form_of<T: Form>(query: usize, t: &[u8]) {
    let want = T::meaning(&fields(t));
    cover(want.is_some() as u32);
    observe(want.is_some() as usize);
    let got: Result<T, ObsidianError> = if query > 0 {
        // the bytes a query may consist of
        for b in t {
            assume((*b == b'!') | ((*b >= 0x24) & (*b <= 0x3b)) | (*b == b'=') | ((*b >= 0x3f) & (*b <= 0x7e)));
        }
        let (a, b): (&[u8], &[u8]) = match query {
            1 => (b"/p?", b""),
            2 => (b"http://x.example:81/p?", b""),
            3 => (b"/p?", b"#a=5&z"),
            _ => (b"/a=1&b/%3Fa=2?", b""),
        };
        let uri = [a, t, b].concat();
        let mut ctx = Context::new(busy(request(Method::GET, &text(uri), Body::empty()), param(5)), HashMap::new());
        ctx.query_params()
    } else {
        let mut ctx = Context::new(busy(Request::new(Body::from(t.to_vec())), param(5)), HashMap::new());
        block_on(ctx.form())
    };
    match got {
        Ok(v) => check(want == Some(v), 1),
        Err(_) => check(want.is_none(), 2),
    }
}

/// C16. params: type, keys (0..=2) and for each key its bytes, number of values and bytes of each value.
/// Any map of names to lists of values: decoded as stated, never a panic.
pub fn harness_cow_map() {
    let n = param(1);
    let mut f: Fields = vec![];
    for i in 0..n {
        let at = 2 + 4 * i as u32;
        let key = match param(at) {
            90 => b"a".to_vec(),
            91 => b"b".to_vec(),
            92 => b"c".to_vec(),
            93 => {
                let (x, y) = AROUND[pick(AROUND.len(), 60)];
                [x.as_bytes(), b"a", y.as_bytes()].concat()
            }
            k => ascii(k, 1),
        };
        let mut vals = vec![];
        for j in 0..param(at + 1) {
            // lengths of the values, one digit each
            if j > 8 {
                vals.push(b"7".to_vec());
                continue;
            }
            let len = param(at + 2) / 10usize.pow(j as u32) % 10;
            vals.push(if len == 9 { VALUES[pick(VALUES.len(), 62)].as_bytes().to_vec() } else { ascii(len, 2) });
        }
        assume(!f.iter().any(|e| e.0 == key));
        f.push((key, vals));
    }
    with_type!(param(0), cow_of(&f));
}
fn cow_of<T: Form>(f: &Fields) {
    let want = T::meaning(f);
    cover(want.is_some() as u32);
    observe(want.is_some() as usize);
    let mut m: HashMap<Cow<str>, Cow<[String]>> = HashMap::new();
    for (k, v) in f {
        m.insert(Cow::from(string(k)), Cow::from(v.iter().map(|t| string(t)).collect::<Vec<String>>()));
    }
    let got: Result<T, FormError> = from_cow_map(&m);
    match got {
        Ok(v) => check(want == Some(v), 1),
        Err(_) => check(want.is_none(), 2),
    }
}

// ---- bodies in pieces ----------------------------------------------------------------

/// A body as the network delivers it: chunks, waits in between, possibly a failure
pub struct Pieces {
    pub chunks: std::collections::VecDeque<Result<Vec<u8>, std::io::Error>>,
    pub wait: usize,
    pub waits: Vec<bool>,
}
impl futures_core::Stream for Pieces {
    type Item = Result<Vec<u8>, std::io::Error>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<Option<Self::Item>> {
        let i = self.wait;
        self.wait += 1;
        if self.waits.get(i).copied().unwrap_or(false) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(self.chunks.pop_front())
    }
}
/// The bytes in `n` chunks cut anywhere (empty ones too), each after a wait or not; a
/// failure before chunk `fail`
pub fn pieces(t: &[u8], n: usize, fail: Option<usize>) -> Body {
    pieces_after(0, t, n, fail)
}
/// The first bytes in a chunk each
pub fn pieces_after(single: usize, t: &[u8], n: usize, fail: Option<usize>) -> Body {
    let mut chunks = std::collections::VecDeque::new();
    let mut waits = vec![];
    for i in 0..single {
        chunks.push_back(Ok(t[i..i + 1].to_vec()));
        waits.push(i % 50 == 7);
        if i % 50 == 7 {
            waits.push(false);
        }
    }
    let mut at = single;
    for i in 0..n {
        let left = t.len() - at;
        let take = match i + 1 {
            k if k == n => left,
            // of a long one, at its ends and its middle
            _ if left > 100 => [0, 1, left / 2, left - 4, left - 3, left - 2, left - 1, left][pick(8, 60)],
            _ => pick(left + 1, 60),
        };
        if fail == Some(i) {
            chunks.push_back(Err(std::io::Error::from(std::io::ErrorKind::ConnectionReset)));
        }
        chunks.push_back(Ok(t[at..at + take].to_vec()));
        at += take;
        waits.push(pick(2, 61) == 1);
        waits.push(false);
    }
    if fail == Some(n) {
        chunks.push_back(Err(std::io::Error::from(std::io::ErrorKind::ConnectionReset)));
    }
    Body::wrap_stream(Pieces { chunks, wait: 0, waits })
}

/// The bytes in two chunks, each after a wait
pub fn late(t: &[u8]) -> Body {
    let at = t.len() / 2;
    let chunks = [Ok(t[..at].to_vec()), Ok(t[at..].to_vec())].into_iter().collect();
    Body::wrap_stream(Pieces { chunks, wait: 0, waits: vec![true, false, true, false] })
}

/// C14. params: 0 form 1 json 2 json value, chunks, 1 where the stream may fail, two template codes, bytes without a meaning in front, each of them one chunk. Where the
/// body is cut makes no difference; a body that fails is an error.
pub fn harness_chunks() {
    let what = param(0);
    let t = match what {
        0 => [vec![b'&'; param(5)], template([param(3), param(4)], 1, 1)].concat(),
        _ => [vec![b' '; param(5)], super::json::template([param(3), param(4)], 1)].concat(),
    };
    let n = param(1);
    let fail = if param(2) == 1 { Some(pick(n + 1, 62)) } else { None };
    let whole = || Context::new(Request::new(Body::from(t.clone())), HashMap::new());
    let single = if param(6) == 1 { param(5) } else { 0 };
    let cut = Context::new(Request::new(pieces_after(single, &t, n, fail)), HashMap::new());
    fn ask<T: DeserializeOwned>(what: usize, mut c: Context) -> Option<T> {
        if what == 0 { block_on(c.form()).ok() } else { block_on(c.json()).ok() }
    }
    fn both<T: DeserializeOwned + PartialEq>(what: usize, fail: bool, whole: Context, cut: Context, want: impl Fn() -> Option<T>) {
        let y: Option<T> = ask(what, cut);
        if fail {
            cover(2);
            check(y.is_none(), 1);
        } else {
            let x: Option<T> = ask(what, whole);
            cover(x.is_some() as u32);
            observe(x.is_some() as usize);
            check(x.is_some() == y.is_some(), 2);
            check(x == y, 3);
            check(y == want(), 4);
        }
    }
    fn read<T: DeserializeOwned>(t: &[u8]) -> Option<T> {
        serde_json::from_slice(t).ok()
    }
    let fail = fail.is_some();
    match what {
        0 => both::<BTreeMap<String, Vec<String>>>(what, fail, whole(), cut, || Form::meaning(&fields(&t))),
        1 => both::<super::json::Item>(what, fail, whole(), cut, || read(&t)),
        _ => both::<serde_json::Value>(what, fail, whole(), cut, || read(&t)),
    }
}
