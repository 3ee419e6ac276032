//! Driving the service of `App::listen` without a socket.
use super::rt::*;
use super::util::*;
use obsidian::verif::{open, take, Connection, Connections};
use http::Version;
use obsidian::{App, Body, Method, Request, Response};

/// The connections of a listening app
pub fn connect<T: Clone + Send + Sync + 'static>(app: App<T>, count: usize) -> Connections {
    open(count);
    block_on(app.listen(0));
    let c = take();
    open(0);
    c
}

/// A request, where the text is a URI at all
pub fn request(method: Method, uri: &str, body: Body) -> Request<Body> {
    match Request::builder().method(method).uri(uri).body(body) {
        Ok(r) => r,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}

pub fn call(c: &mut Connection, r: Request<Body>) -> Response<Body> {
    match block_on(c(r)) {
        Ok(r) => r,
        Err(_) => {
            // the service never fails
            check(false, 90);
            unreachable!()
        }
    }
}

pub fn bytes_of(b: Body) -> Vec<u8> {
    match block_on(hyper::body::to_bytes(b)) {
        Ok(b) => b.to_vec(),
        Err(_) => {
            check(false, 91);
            unreachable!()
        }
    }
}

/// Status and body
pub fn reply(c: &mut Connection, r: Request<Body>) -> (u16, Vec<u8>) {
    let r = call(c, r);
    let s = r.status().as_u16();
    (s, bytes_of(r.into_body()))
}

/// `n` bytes. Long ones are fixed text but for their beginning, middle and end.
fn some(n: usize, f: impl Fn() -> u8) -> Vec<u8> {
    (0..n).map(|i| if n <= 64 || i == 0 || i == n / 2 || i + 2 >= n { f() } else { b'a' + (i % 26) as u8 }).collect()
}
/// `n` bytes of printable text
pub fn word(n: usize, tag: u32) -> Vec<u8> {
    some(n, || {
        let b = byte(tag);
        assume((b >= 0x20) & (b < 0x7f));
        b
    })
}
pub fn ascii(n: usize, tag: u32) -> Vec<u8> {
    some(n, || {
        let b = byte(tag);
        assume(b < 0x80);
        b
    })
}
pub fn any(n: usize, tag: u32) -> Vec<u8> {
    some(n, || byte(tag))
}
pub fn leak(v: Vec<u8>) -> &'static str {
    Box::leak(text(v).into_boxed_str())
}

/// Any version of HTTP; paths fork on it only where something looks at it
pub fn version(tag: u32) -> Version {
    let b = byte(tag);
    assume(b < 5);
    unsafe { std::mem::transmute::<u8, Version>(b) }
}
/// Request headers of the kinds servers and proxies know, which mean nothing here
pub const BUSY: [&[(&str, &str)]; 3] = [
    &[],
    &[
        ("host", "x.example"),
        ("accept", "text/html,application/json;q=0.9"),
        ("accept-encoding", "gzip, br"),
        ("accept-language", "de"),
        ("cache-control", "no-cache"),
        ("date", "Sat, 01 Jan 2050 00:00:00 GMT"),
        ("dnt", "1"),
        ("if-match", "\"x\""),
        ("if-unmodified-since", "Sat, 01 Jan 2000 00:00:00 GMT"),
        ("max-forwards", "0"),
        ("referer", "/e"),
        ("user-agent", "curl/8.0"),
        ("x-forwarded-host", "other.example"),
        ("x-forwarded-proto", "https"),
        ("x-http-method", "PUT"),
        ("x-requested-with", "XMLHttpRequest"),
        ("connection", "close"),
        ("content-type", "application/json"),
        ("cookie", "id=1; p=2"),
        ("if-none-match", "*"),
        ("if-modified-since", "Sat, 01 Jan 2050 00:00:00 GMT"),
        ("range", "bytes=1-1"),
        ("x-http-method-override", "DELETE"),
        ("x-forwarded-for", "10.0.0.1"),
        ("x-forwarded-prefix", "/q"),
        ("x-request-id", "7"),
    ],
    &[
        ("host", ""),
        ("accept", "application/json"),
        ("authorization", "Basic eDp5"),
        ("connection", "keep-alive"),
        ("content-type", "application/x-www-form-urlencoded; charset=utf-16"),
        ("content-length", "1"),
        ("content-encoding", "gzip"),
        ("content-language", "de"),
        ("expect", "100-continue"),
        ("forwarded", "for=10.0.0.1;host=y;proto=https"),
        ("if-range", "\"x\""),
        ("keep-alive", "timeout=5"),
        ("pragma", "no-cache"),
        ("sec-fetch-mode", "cors"),
        ("traceparent", "00-1-2-01"),
        ("transfer-encoding", "chunked"),
        ("user-agent", ""),
        ("x-method-override", "PATCH"),
        ("x-real-ip", "10.0.0.2"),
        ("x-rewrite-url", "/e"),
        ("origin", "http://other.example"),
        ("prefer", "return=minimal"),
        ("te", "trailers"),
        ("upgrade", "h2c"),
        ("x-http-method-override", "POST"),
        ("x-original-url", "/e"),
    ],
];
pub const AGAIN: [&[(&str, &str)]; 3] = [&[], &[("accept", "text/plain"), ("via", "1.1 a"), ("via", "1.1 b")], &[("cookie", "a=1"), ("cookie", "b=2"), ("accept", "*/*"), ("x-forwarded-for", "1.2.3.4"), ("x-forwarded-for", "5.6.7.8")]];
/// And queries, where there is none
const ASK: [&str; 3] = ["", "_method=DELETE&_format=json&callback=f&debug=1&page=2&id=9", "method=PUT&format=xml&jsonp=g&lang=de&token=x&limit=0&redirect=/e&a=5&b=6&p=z&q=y&_method=PATCH"];
pub fn busy(mut r: Request<Body>, i: usize) -> Request<Body> {
    for (k, v) in BUSY[i] {
        r.headers_mut().insert(http::header::HeaderName::from_static(k), http::HeaderValue::from_static(v));
    }
    for (k, v) in AGAIN[i] {
        r.headers_mut().append(http::header::HeaderName::from_static(k), http::HeaderValue::from_static(v));
    }
    if i > 0 && r.uri().query().is_none() {
        let uri = format!("{}?{}", r.uri(), ASK[i]);
        *r.uri_mut() = match uri.parse() {
            Ok(u) => u,
            Err(_) => {
                assume(false);
                unreachable!()
            }
        };
    }
    r
}
