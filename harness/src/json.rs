//! JSON bodies, in and out.
use super::param::{integer, BEGIN};
use super::rt::*;
use super::serve::*;
use super::util::*;
use obsidian::context::Context;
use obsidian::{header, App, Body, Method, Request, StatusCode};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};

/// Two codes of up to 15 hex digits: 1 any byte, 2 any ASCII byte, 3 `{`, 4 `}`, 5 `[`, 6 `]`,
/// 7 a decimal digit, 8 `"`, 9 `:`, a `,`, b the letter, c `"a":`, d `"b":`, e `true`, f a printable character
pub fn template(codes: [usize; 2], tag: u32) -> Vec<u8> {
    let mut v = vec![];
    for mut code in codes {
        while code > 0 {
            match code % 16 {
                3 => v.push(b'{'),
                4 => v.push(b'}'),
                5 => v.push(b'['),
                6 => v.push(b']'),
                8 => v.push(b'"'),
                9 => v.push(b':'),
                10 => v.push(b','),
                11 => v.push(b'b'),
                12 => v.extend_from_slice(b"\"a\":"),
                13 => v.extend_from_slice(b"\"b\":"),
                14 => v.extend_from_slice(b"true"),
                k => {
                    let b = byte(tag);
                    assume(match k {
                        1 => true,
                        2 => b < 0x80,
                        7 => (b >= b'0') & (b <= b'9'),
                        _ => (b >= 0x20) & (b < 0x7f),
                    });
                    v.push(b)
                }
            }
            code /= 16;
        }
    }
    v
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub struct Item {
    pub a: i32,
    pub b: String,
    #[serde(default)]
    pub c: Option<Vec<u8>>,
}

/// C15. params: digits of `a`, characters of `b`, what `a` begins with (index of
/// `BEGIN`). Any such object is read as what it says.
pub fn harness_json_read() {
    let mut t = b"{\"a\":".to_vec();
    let mut num = vec![];
    num.extend_from_slice(BEGIN[param(2)].as_bytes());
    for i in 0..param(0) {
        let b = byte(1);
        assume((b >= b'0') & (b <= b'9'));
        // no leading zero
        assume(i > 0 || b != b'0' || param(0) == 1 || param(2) != 0);
        num.push(b);
    }
    t.extend_from_slice(&num);
    t.extend_from_slice(b" , \"x\":[null], \"b\" : \"");
    let s = ascii(param(1), 2);
    for b in &s {
        assume((*b >= 0x20) & (*b != b'"') & (*b != b'\\'));
    }
    t.extend_from_slice(&s);
    t.extend_from_slice(b"\"}");
    let want = integer(&num, true, 1 << 31, i32::MAX as u64).map(|v| Item { a: v.signed() as i32, b: text(s), c: None });
    cover(want.is_some() as u32);
    observe(want.is_some() as usize);
    let mut ctx = Context::new(Request::new(Body::from(t)), HashMap::new());
    match block_on(ctx.json::<Item>()) {
        Ok(v) => check(want == Some(v), 1),
        Err(_) => check(want.is_none(), 2),
    }
    // the body has been taken
    let rest = bytes_of(ctx.take_body());
    check(rest.is_empty(), 3);
}

/// Texts that some readers take, one byte of them arbitrary
const LOOSE: [&str; 44] = [
    "{\"a\":1,}", "[1,]", "{a:1}", "{'a':1}", "'a'", "// x\n1", "1 // x", "/* x */ 1", "1 /* x */", "# x\n1", "\u{feff}1", "\u{feff}{\"a\":1,\"b\":\"\"}", "NaN", "Infinity", "-Infinity", "+1", "01", "-01", "1.", ".5", "0x10", "1e5", "1E+2", "1e400", "-0", "-0.0", "True", "None", "undefined",
    "\"\\u0041\"", "\"\\ud800\"", "\"\\ud83d\\ude00\"", "\"\\x41\"", "\"\t\"", "\"a\nb\"", "1 2", "1\n2", "{\"a\":1}{\"a\":2}", "{\"a\":1,\"a\":2}", "{\"a\":1,\"b\":\"x\",\"c\":[{}]}", ")]}',\n1", "1;", "\"\0\"", "{\"A\":1,\"B\":\"\"}",
];

/// C15. params: type, two template codes, other headers, 1 inside of arrays 2 after other elements 3 inside of objects 4 between spaces, how many (5 one of known texts, 1 where a byte of it is another one). Any body: what the JSON reader of the
/// ecosystem makes of the whole of it, and an error (no panic) where it makes nothing of it.
pub fn harness_json_any() {
    let mut t = template([param(1), param(2)], 1);
    // deep, or one of many
    match param(4) {
        0 => {}
        1 => t = [vec![b'['; param(5)], t, vec![b']'; param(5)]].concat(),
        2 => t = [b"[".to_vec(), b"7,".repeat(param(5)), t, b"]".to_vec()].concat(),
        3 => t = [b"{\"a\":".repeat(param(5)), t, vec![b'}'; param(5)]].concat(),
        5 => {
            t = LOOSE[pick(LOOSE.len(), 60)].as_bytes().to_vec();
            if param(5) == 1 {
                let i = pick(2, 61) * (t.len() - 1);
                t[i] = byte(1);
            }
        }
        _ => t = [vec![b' '; param(5)], t, vec![b'\n'; param(5)]].concat(),
    }
    let mut ctx = Context::new(busy(Request::new(Body::from(t.clone())), param(3)), HashMap::new());
    fn same<T: serde::de::DeserializeOwned + PartialEq>(ctx: &mut Context, t: &[u8]) {
        let want: Option<T> = serde_json::from_slice(t).ok();
        cover(want.is_some() as u32);
        observe(want.is_some() as usize);
        match block_on(ctx.json::<T>()) {
            Ok(v) => check(want == Some(v), 1),
            Err(_) => check(want.is_none(), 2),
        }
    }
    match param(0) {
        0 => same::<serde_json::Value>(&mut ctx, &t),
        1 => same::<Item>(&mut ctx, &t),
        2 => same::<Vec<u8>>(&mut ctx, &t),
        3 => same::<u8>(&mut ctx, &t),
        4 => same::<Option<i16>>(&mut ctx, &t),
        5 => same::<bool>(&mut ctx, &t),
        6 => same::<String>(&mut ctx, &t),
        7 => same::<(u8, String)>(&mut ctx, &t),
        8 => same::<BTreeMap<String, u8>>(&mut ctx, &t),
        _ => same::<Kind>(&mut ctx, &t),
    }
}

#[derive(Deserialize, PartialEq)]
enum Kind {
    #[serde(rename = "x")]
    X,
    #[serde(rename = "y")]
    Y(u8),
    #[serde(rename = "z")]
    Z { a: u8 },
}

struct Broken;
impl Serialize for Broken {
    fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom("cannot"))
    }
}

#[derive(Serialize)]
struct Unit;
#[derive(Serialize)]
enum Choice {
    Off,
    On(u8),
    Both(u8, String),
}
#[derive(Serialize)]
struct Order {
    z: u8,
    a: String,
    m: Option<(u8, ())>,
}
#[derive(Serialize)]
struct Wrap(Vec<Inner>);
#[derive(Serialize)]
enum Inner {
    Named { y: u8, x: String },
}
#[derive(Serialize)]
struct Response2(Vec<()>, std::marker::PhantomData<u8>);
/// The JSON text of a string
fn quote(t: &[u8]) -> Vec<u8> {
    let mut v = vec![b'"'];
    for b in t {
        match *b {
            b'"' => v.extend_from_slice(b"\\\""),
            b'\\' => v.extend_from_slice(b"\\\\"),
            8 => v.extend_from_slice(b"\\b"),
            9 => v.extend_from_slice(b"\\t"),
            10 => v.extend_from_slice(b"\\n"),
            12 => v.extend_from_slice(b"\\f"),
            13 => v.extend_from_slice(b"\\r"),
            c if c < 0x20 => {
                v.extend_from_slice(b"\\u00");
                v.push(b'0' + (c >> 4));
                v.push(b"0123456789abcdef"[conc((c & 15) as usize)]);
            }
            c => v.push(c),
        }
    }
    v.push(b'"');
    v
}

/// C15. params: kind, bytes. A value becomes its JSON text with its content type; one that has
/// no text becomes an error answer.
pub fn harness_json_write() {
    let kind = param(0);
    let s = if param(1) > 64 { word(param(1), 1) } else { ascii(param(1), 1) };
    let n = byte(2);
    let which = pick(3, 3);
    let code = 200 + which as u16;
    let st = StatusCode::from_u16(code).unwrap();
    let cell = Arc::new(Mutex::new((s.clone(), n)));
    let mut app: App = App::new();
    app.get("/", move |ctx: Context| {
        let (s, n) = cell.lock().unwrap().clone();
        let t = text(s);
        async move {
            match kind {
                0 => ctx.build_json(Item { a: n as i32, b: t, c: None }).with_status(st).ok(),
                1 => ctx.build_json(vec![t]).with_status(st).ok(),
                2 => ctx.build(obsidian::router::Response::ok().json(t).with_status(st)).ok(),
                3 => ctx.build_json(Some(n)).with_status(st).ok(),
                4 => ctx.build_json(Broken).ok(),
                5 => ctx.build_json(vec![(n, Broken)]).with_header(header::ALLOW, "x").ok(),
                7 => ctx.build_json(None::<u8>).with_status(st).ok(),
                8 => ctx.build(obsidian::router::Response::new("before").json(()).with_status(st)).ok(),
                9 => ctx.build_json(n < 128).with_status(st).ok(),
                10 => ctx.build_json(i64::MIN + which as i64).with_status(st).ok(),
                11 => ctx.build_json(u64::MAX - which as u64).with_status(st).ok(),
                12 => ctx.build_json(Vec::<String>::new()).with_status(st).ok(),
                13 => ctx.build_json(vec![vec![t], vec![]]).with_status(st).ok(),
                14 => {
                    let mut m = BTreeMap::new();
                    m.insert(t, n);
                    ctx.build_json(m).with_status(st).ok()
                }
                15 => ctx.build_json(serde_json::Value::Null).with_status(st).ok(),
                16 => ctx.build_json(Unit).with_status(st).ok(),
                17 => ctx.build_json(vec![Choice::Off, Choice::On(n), Choice::Both(n, t)]).with_status(st).ok(),
                18 => ctx.build_json((n, t, None::<u8>)).with_status(st).ok(),
                19 => ctx.build_json([1.5f64, -0.0, 1e300, f64::NAN]).with_status(st).ok(),
                20 => ctx.build(obsidian::router::Response::created().json(serde_json::json!({"a": [n, null, {}], "t": t})).with_status(st)).ok(),
                22 => ctx.build_json(u128::MAX - which as u128).with_status(st).ok(),
                23 => ctx.build_json((i128::MIN + which as i128, u64::MAX as u128 + 1)).with_status(st).ok(),
                24 => ctx.build_json(Order { z: n, a: t, m: Some((n, ())) }).with_status(st).ok(),
                25 => ctx.build_json(vec![Some(Some(n)), Some(None), None]).with_status(st).ok(),
                26 => {
                    let mut m = BTreeMap::new();
                    m.insert(n, (true, 'c'));
                    ctx.build_json(m).with_status(st).ok()
                }
                27 => ctx.build_json(Wrap(vec![Inner::Named { y: n, x: t }])).with_status(st).ok(),
                28 => ctx.build_json([0.1f32, 16777216.0, 1e-7]).with_status(st).ok(),
                29 => ctx.build_json((9007199254740993u64, i64::MAX)).with_status(st).ok(),
                30 => ctx.build_json(&[t.as_str(), "é😀\u{2028}\u{7f}"][..]).with_status(st).ok(),
                31 => ctx.build_json(Response2(vec![(); 3], std::marker::PhantomData)).with_status(st).ok(),
                _ => {
                    // keys of JSON are strings
                    let mut m = BTreeMap::new();
                    m.insert(vec![n], t);
                    ctx.build_json(m).ok()
                }
            }
        }
    });
    let num = n.to_string().into_bytes();
    let null = || Some(b"null".to_vec());
    let want: Option<Vec<u8>> = match kind {
        0 => Some([b"{\"a\":", &num[..], b",\"b\":", &quote(&s), b",\"c\":null}"].concat()),
        1 => Some([b"[", &quote(&s)[..], b"]"].concat()),
        2 => Some(quote(&s)),
        3 => Some(num),
        7 | 8 | 15 | 16 => null(),
        9 => Some(if n < 128 { b"true".to_vec() } else { b"false".to_vec() }),
        10 => Some(format!("-922337203685477580{}", 8 - which).into_bytes()),
        11 => Some(format!("1844674407370955161{}", 5 - which).into_bytes()),
        12 => Some(b"[]".to_vec()),
        13 => Some([b"[[", &quote(&s)[..], b"],[]]"].concat()),
        14 => Some([b"{", &quote(&s)[..], b":", &num, b"}"].concat()),
        17 => Some([b"[\"Off\",{\"On\":", &num[..], b"},{\"Both\":[", &num, b",", &quote(&s), b"]}]"].concat()),
        18 => Some([b"[", &num[..], b",", &quote(&s), b",null]"].concat()),
        19 => Some(serde_json::to_vec(&[1.5f64, -0.0, 1e300, f64::NAN]).unwrap()),
        22 => Some(format!("34028236692093846346337460743176821145{}", 5 - which).into_bytes()),
        23 => Some(format!("[-17014118346046923173168730371588410572{},18446744073709551616]", 8 - which).into_bytes()),
        24 => Some([b"{\"z\":", &num[..], b",\"a\":", &quote(&s), b",\"m\":[", &num, b",null]}"].concat()),
        25 => Some([b"[", &num[..], b",null,null]"].concat()),
        26 => Some([b"{\"", &num[..], b"\":[true,\"c\"]}"].concat()),
        27 => Some([b"[{\"Named\":{\"y\":", &num[..], b",\"x\":", &quote(&s), b"}}]"].concat()),
        28 => Some(b"[0.1,16777216.0,1e-7]".to_vec()),
        29 => Some(b"[9007199254740993,9223372036854775807]".to_vec()),
        30 => Some([b"[", &quote(&s)[..], b",", &quote("é😀\u{2028}\u{7f}".as_bytes()), b"]"].concat()),
        31 => Some(b"[[null,null,null],null]".to_vec()),
        20 => Some([b"{\"a\":[", &num[..], b",null,{}],\"t\":", &quote(&s), b"}"].concat()),
        _ => None,
    };
    let mut c = connect(app, 1).pop().unwrap();
    let r = call(&mut c, request(Method::GET, "/", Body::empty()));
    cover(1);
    let ct = r.headers().get(header::CONTENT_TYPE).map(|v| v.as_bytes() == b"application/json").unwrap_or(false);
    check(ct, 1);
    check(r.status().as_u16() == if want.is_some() { code } else { 500 }, 2);
    let b = bytes_of(r.into_body());
    observe_bytes(&b);
    match want {
        Some(w) => check(b == w, 3),
        None => check(!b.is_empty(), 4),
    }
}
