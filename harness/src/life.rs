//! Sequences of operations: on a response, on the context of a request, and of requests.
use super::chain::wait_once;
use super::rt::*;
use super::serve::*;
use super::util::*;
use obsidian::context::{Context, ResponseBuilder};
use obsidian::middleware::Middleware;
use obsidian::router::{Responder, Response, Router};
use obsidian::{header, App, Body, ContextResult, EndpointExecutor, Method, ObsidianError, Request, StatusCode, Uri};
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};

// ---- C11: operations on a response ---------------------------------------------------

/// What a response is, as far as it has been built
#[derive(Clone)]
struct Built {
    status: u16,
    headers: Vec<(&'static str, &'static str)>,
    body: Vec<u8>,
}
fn value(tag: u32) -> &'static str {
    leak(word(1, tag))
}
fn status(tag: u32) -> StatusCode {
    let n = u16::from_le_bytes([byte(tag), byte(tag)]);
    assume((n >= 100) & (n <= 999));
    // three digits
    match StatusCode::from_u16(n) {
        Ok(s) => s,
        Err(_) => unreachable!(),
    }
}
const FIRST: usize = 8;
fn first(kind: usize) -> (Response, Built) {
    let t = word(2, 1);
    let s = text(t.clone());
    let b = |status, headers, body| Built { status, headers, body };
    let plain = || vec![("content-type", "text/plain; charset=utf-8")];
    let (v, st) = (value(2), status(3));
    match kind {
        0 => (Response::new(s), b(200, vec![], t)),
        1 => (Response::ok(), b(200, vec![], vec![])),
        2 => (Response::created(), b(201, vec![], vec![])),
        3 => (Response::internal_server_error(), b(500, vec![], vec![])),
        4 => (s.respond_to(), b(200, plain(), t)),
        5 => (Responder::with_header(s, header::VARY, v), b(200, vec![("vary", v)], t)),
        6 => (st.respond_to(), b(st.as_u16(), vec![], vec![])),
        _ => (Responder::with_headers_str(leak(t.clone()), vec![("Allow", v), ("vary", "u")]), b(200, vec![("allow", v), ("vary", "u")], t)),
    }
}
const ON_RESPONSE: usize = 15;
fn on_response(op: usize, mut r: Response, m: &mut Built) -> Response {
    let (v, w) = (value(4), value(5));
    let st = status(6);
    let t = word(1, 7);
    let s = text(t.clone());
    match op {
        0 | 1 => m.status = st.as_u16(),
        2 | 3 => m.headers.push(("allow", v)),
        4 => m.headers.push(("vary", v)),
        5 => m.headers.extend([("allow", v), ("vary", w)]),
        6 => m.headers.extend([("vary", v), ("x-k", w)]),
        7 => m.headers.push(("content-type", v)),
        8 => m.body = t.clone(),
        9 => {
            m.headers.push(("content-type", "text/html"));
            m.body = t.clone()
        }
        10 => {
            m.headers.push(("content-type", "application/json"));
            m.body = vec![b'7']
        }
        11 => m.status = st.as_u16(),
        12 => m.headers.push(("x-k", v)),
        13 => m.body = vec![],
        _ => {}
    }
    match op {
        0 => r.with_status(st),
        1 => r.set_status(st),
        2 => r.with_header(header::ALLOW, v),
        3 => r.with_header_str("Allow", v),
        4 => r.set_header(header::VARY, v),
        5 => r.with_headers(vec![(header::ALLOW, v), (header::VARY, w)]),
        6 => r.set_headers_str(vec![("VARY", v), ("x-k", w)]),
        7 => r.set_content_type(v),
        8 => r.set_body(s),
        9 => r.html(s),
        10 => r.json(7),
        11 => {
            *r.status_mut() = st;
            r
        }
        12 => {
            let k = header::HeaderName::from_static("x-k");
            r.headers_mut().get_or_insert_with(Vec::new).push((k, v));
            r
        }
        13 => r.set_body(()),
        _ => r.set_headers(vec![]),
    }
}
const ON_BUILDER: usize = 6;
fn on_builder(op: usize, b: ResponseBuilder, m: &mut Built) -> ResponseBuilder {
    let (v, w) = (value(8), value(9));
    let st = status(10);
    match op {
        0 => m.status = st.as_u16(),
        1 => m.headers.push(("vary", v)),
        2 => m.headers.push(("allow", v)),
        3 => m.headers.extend([("x-k", v), ("vary", w)]),
        4 => m.headers.extend([("allow", v), ("content-type", w)]),
        _ => {}
    }
    match op {
        0 => b.with_status(st),
        1 => b.with_header(header::VARY, v),
        2 => b.with_header_str("allow", v),
        3 => b.with_headers(vec![(header::HeaderName::from_static("x-k"), v), (header::VARY, w)]),
        4 => b.with_headers_str(vec![("ALLOW", v), ("Content-Type", w)]),
        _ => b.with_headers_str(vec![]),
    }
}

/// C11. params: what the response starts as, operations on it, operations on its builder.
/// Whatever is set, in whatever order, is what the client gets.
pub fn harness_build_ops() {
    let (mut r, mut m) = first(param(0));
    for _ in 0..param(1) {
        let st = r.status();
        check(st.as_u16() == m.status, 1);
        r = on_response(pick(ON_RESPONSE, 11), r, &mut m);
    }
    let later: Vec<usize> = (0..param(2)).map(|_| pick(ON_BUILDER, 12)).collect();
    let cell = Arc::new(Mutex::new(Some((r, m))));
    let done: Arc<Mutex<Option<Built>>> = Default::default();
    let mut app: App = App::new();
    let d = done.clone();
    app.post("/", move |ctx: Context| {
        let (r, mut m) = cell.lock().unwrap().take().unwrap();
        let mut b = ctx.build(r);
        for op in &later {
            b = on_builder(*op, b, &mut m);
        }
        *d.lock().unwrap() = Some(m);
        async move { b.ok() }
    });
    let mut c = connect(app, 1).pop().unwrap();
    let mut req = request(Method::POST, "/", Body::from("x"));
    *req.version_mut() = version(13);
    let r = call(&mut c, req);
    let m = done.lock().unwrap().take().unwrap();
    cover(1);
    observe(m.headers.len());
    check(r.status().as_u16() == m.status, 2);
    let mut names = 0;
    for (i, (k, v)) in m.headers.iter().enumerate() {
        if m.headers[i + 1..].iter().any(|(l, _)| l == k) {
            continue;
        }
        names += 1;
        let got: Vec<&[u8]> = r.headers().get_all(*k).iter().map(|v| v.as_bytes()).collect();
        check(got.len() == 1, 3);
        check(got[0] == v.as_bytes(), 4);
    }
    check(r.headers().len() == names, 5);
    let b = bytes_of(r.into_body());
    observe_bytes(&b);
    check(b == m.body, 6);
}

// ---- C22: operations on a context ----------------------------------------------------

#[derive(Clone, PartialEq)]
struct A(u8);
#[derive(Clone, PartialEq)]
struct B(Vec<u8>);
/// What the context of a request holds
#[derive(Clone)]
struct Held {
    a: Option<u8>,
    b: Option<Vec<u8>>,
    head: Vec<Vec<u8>>,
    body: Vec<u8>,
    query: Vec<u8>,
    params: [Vec<u8>; 2],
    response: Option<Built>,
    state: Option<u8>,
    busy: usize,
    json: Option<u8>,
    common: Option<u8>,
}
const OPS: usize = 19;
/// One operation, on the context and on what it should hold
async fn operate(op: usize, ctx: &mut Context, m: &mut Held) {
    let b = byte(20);
    let name = header::HeaderName::from_static("x-h");
    match op {
        0 => {
            ctx.add(A(b));
            m.a = Some(b)
        }
        1 => {
            ctx.add(B(vec![b, 1]));
            m.b = Some(vec![b, 1])
        }
        2 => {
            let g = ctx.get_mut::<A>();
            check(g.is_some() == m.a.is_some(), 1);
            if let Some(g) = g {
                check(Some(g.0) == m.a, 2);
                g.0 = b;
                m.a = Some(b)
            }
        }
        3 => {
            let g = ctx.extensions_mut().remove::<A>();
            check(g.map(|a| a.0) == m.a, 3);
            m.a = None
        }
        4 => {
            let v = header::HeaderValue::from_bytes(&word(1, 21)).unwrap();
            m.head = vec![v.as_bytes().to_vec()];
            ctx.headers_mut().insert(name, v);
        }
        5 => {
            let v = header::HeaderValue::from_bytes(&word(1, 21)).unwrap();
            m.head.push(v.as_bytes().to_vec());
            ctx.headers_mut().append(name, v);
        }
        6 => {
            ctx.headers_mut().remove(name);
            m.head = vec![];
        }
        7 => {
            let got = ctx.take_body();
            let got = hyper::body::to_bytes(got).await.map(|b| b.to_vec()).unwrap_or_default();
            check(got == m.body, 4);
            m.body = vec![]
        }
        8 => {
            let got: Result<BTreeMap<String, String>, ObsidianError> = ctx.form().await;
            // a name alone counts for nothing
            let want = if m.body.is_empty() || m.json.is_some() { BTreeMap::new() } else { one(&m.body) };
            check(got.ok() == Some(want), 5);
            m.body = vec![]
        }
        9 => {
            // it is no JSON, or nothing at all
            let got: Result<serde_json::Value, ObsidianError> = ctx.json().await;
            let want = if m.body.is_empty() { None } else { m.json };
            check(got.ok().map(|v| v.as_u64()) == want.map(|v| Some(v as u64)), 6);
            m.body = vec![]
        }
        10 => {
            let got: Result<BTreeMap<String, String>, ObsidianError> = ctx.query_params();
            check(got.ok() == Some(one(&m.query)), 7);
        }
        11 => {
            let st = status(22);
            let t = word(1, 21);
            *ctx.response_mut() = Some(Response::new(text(t.clone())).set_status(st));
            m.response = Some(Built { status: st.as_u16(), headers: vec![], body: t })
        }
        12 => {
            let g = ctx.response_mut().take();
            is_answer(g, &m.response).await;
            m.response = None
        }
        13 => {
            ctx.extensions_mut().insert(A(b));
            m.a = Some(b)
        }
        15 | 16 | 17 => {
            // a new answer in the place of any other one
            let (st, v, t) = (status(22), value(29), word(1, 21));
            let s = text(t.clone());
            let c = std::mem::replace(ctx, Context::new(Request::default(), HashMap::new()));
            let (r, b) = match op {
                15 => (c.build(s).with_status(st).with_header(header::VARY, v).ok(), Built { status: st.as_u16(), headers: vec![("content-type", "text/plain; charset=utf-8"), ("vary", v)], body: t }),
                16 => (c.build_json(7).ok(), Built { status: 200, headers: vec![("content-type", "application/json")], body: b"7".to_vec() }),
                _ => (c.build(()).with_header_str("allow", v).ok(), Built { status: 200, headers: vec![("allow", v)], body: vec![] }),
            };
            check(r.is_ok(), 9);
            if let Ok(c) = r {
                *ctx = c
            }
            m.response = Some(b)
        }
        18 => {
            let v = value(29);
            if let Some(r) = ctx.response_mut() {
                r.headers_mut().get_or_insert_with(Vec::new).push((header::ALLOW, v));
            }
            if let Some(r) = &mut m.response {
                r.headers.push(("allow", v))
            }
        }
        _ => {
            let st = status(22);
            if let Some(r) = ctx.response_mut() {
                *r.status_mut() = st;
            }
            if let Some(r) = &mut m.response {
                r.status = st.as_u16()
            }
        }
    }
}
/// The answer is the one that has been built
async fn is_answer(r: Option<Response>, m: &Option<Built>) {
    check(r.is_some() == m.is_some(), 10);
    if let (Some(r), Some(m)) = (r, m) {
        check(r.status().as_u16() == m.status, 11);
        same_headers(&r, m);
        let b = hyper::body::to_bytes(r.body()).await.map(|b| b.to_vec()).unwrap_or_default();
        check(b == m.body, 12);
    }
}
/// of several of a name the last one counts
fn same_headers(r: &Response, m: &Built) {
    let none = vec![];
    let h = r.headers().as_ref().unwrap_or(&none);
    for (k, _) in h {
        check(m.headers.iter().any(|(l, _)| *l == k.as_str()), 13);
    }
    for (k, _) in &m.headers {
        let got = h.iter().rev().find(|(l, _)| l.as_str() == *k).map(|x| x.1);
        let want = m.headers.iter().rev().find(|(l, _)| l == k).map(|x| x.1);
        check(got == want, 14);
    }
}
/// `a=` and a value
fn one(t: &[u8]) -> BTreeMap<String, String> {
    [("a".to_string(), text(t[2..].to_vec()))].into_iter().collect()
}
/// Everything that can be seen of a context
fn compare(ctx: &Context, m: &Held) {
    check(ctx.get::<A>().map(|a| a.0) == m.a, 20);
    check(ctx.get::<B>().map(|b| b.0.clone()) == m.b, 21);
    check(ctx.extensions().get::<A>().map(|a| a.0) == m.a, 22);
    let h: Vec<Vec<u8>> = ctx.headers().get_all("x-h").iter().map(|v| v.as_bytes().to_vec()).collect();
    check(h == m.head, 23);
    check(ctx.headers().get("x-o").map(|v| v.as_bytes() == b"o").unwrap_or(false), 24);
    let others = BUSY[m.busy];
    check(ctx.headers().len() == m.head.len() + 1 + others.len() + AGAIN[m.busy].len(), 25);
    for (k, v) in others {
        check(ctx.headers().get(*k).map(|x| x.as_bytes() == v.as_bytes()).unwrap_or(false), 34);
    }
    check(*ctx.method() == Method::POST, 26);
    check(ctx.uri().query().map(|q| q.as_bytes() == m.query).unwrap_or(false), 27);
    let (p, q) = (ctx.param::<String>("p").ok(), ctx.param::<String>("q").ok());
    check(p.map(|p| p.into_bytes()) == Some(m.params[0].clone()), 28);
    check(q.map(|p| p.into_bytes()) == Some(m.params[1].clone()), 29);
    check(ctx.param::<String>("r").is_err(), 30);
    check(ctx.response().as_ref().map(|r| r.status().as_u16()) == m.response.as_ref().map(|r| r.status), 31);
    if let (Some(r), Some(m)) = (ctx.response(), &m.response) {
        same_headers(r, m);
    }
    check(ctx.get::<u8>().copied() == m.state, 32);
    check(ctx.get::<u16>().is_none(), 33);
    if let Some(b) = m.common {
        check(ctx.get::<String>().map(|s| s.as_bytes() == [b]).unwrap_or(false), 35);
        check(ctx.get::<Vec<u8>>().map(|s| s[..] == [b]).unwrap_or(false), 36);
        check(ctx.get::<hyper::body::Bytes>().map(|s| s[..] == [b]).unwrap_or(false), 37);
        check(ctx.get::<Vec<String>>().map(|s| s.len()) == Some(3), 38);
        check(ctx.get::<HashMap<String, String>>().map(|s| s.len()) == Some(0), 39);
        check(ctx.get::<usize>() == Some(&7), 40);
        check(ctx.get::<bool>() == Some(&true), 41);
        check(ctx.get::<i32>() == Some(&-7), 42);
        check(ctx.get::<&'static str>() == Some(&"s"), 43);
        check(ctx.get::<Method>() == Some(&Method::PUT), 44);
        check(ctx.get::<StatusCode>() == Some(&StatusCode::CREATED), 45);
        check(ctx.get::<obsidian::HeaderMap>().map(|h| h.len()) == Some(0), 46);
        check(ctx.get::<serde_json::Value>() == Some(&serde_json::Value::Bool(true)), 47);
        check(ctx.get::<Option<String>>() == Some(&None), 48);
        check(ctx.get::<()>().is_some(), 49);
        check(ctx.get::<std::time::Duration>() == Some(&std::time::Duration::from_secs(1)), 50);
        check(ctx.get::<std::net::SocketAddr>() == Some(&([1, 2, 3, 4], 5).into()), 51);
        check(ctx.get::<Uri>().map(|u| u.path() == "/u").unwrap_or(false), 52);
    }
}
/// Data of types that anything might use
fn common(e: &mut http::Extensions, b: u8) {
    assume((b >= 0x20) & (b < 0x7f));
    e.insert(text(vec![b]));
    e.insert(vec![b]);
    e.insert(hyper::body::Bytes::copy_from_slice(&[b]));
    e.insert(vec![String::new(); 3]);
    e.insert(HashMap::<String, String>::new());
    e.insert(7usize);
    e.insert(true);
    e.insert(-7i32);
    e.insert("s");
    e.insert(Method::PUT);
    e.insert(StatusCode::CREATED);
    e.insert(obsidian::HeaderMap::new());
    e.insert(serde_json::Value::Bool(true));
    e.insert(None::<String>);
    e.insert(());
    e.insert(std::time::Duration::from_secs(1));
    e.insert(std::net::SocketAddr::from(([1, 2, 3, 4], 5)));
    e.insert(Uri::from_static("/u"));
}

/// The same once more through the context, with another text and number
fn common_again(c: &mut Context, b: u8) {
    assume((b >= 0x20) & (b < 0x7f));
    for n in 0..2 {
        c.add(text(vec![b; 1]));
        c.add(vec![b]);
        c.add(hyper::body::Bytes::copy_from_slice(&[b]));
        c.add(vec![String::new(); 3]);
        c.add(HashMap::<String, String>::new());
        c.add(7usize);
        c.add(true);
        c.add(-7i32);
        c.add("s");
        c.add(Method::PUT);
        c.add(StatusCode::CREATED);
        c.add(obsidian::HeaderMap::new());
        c.add(serde_json::Value::Bool(true));
        c.add(None::<String>);
        c.add(());
        c.add(std::time::Duration::from_secs(1));
        c.add(std::net::SocketAddr::from(([1, 2, 3, 4], 5)));
        c.add(Uri::from_static("/u"));
        // of a type that has not been there, and has no size or a large one
        c.add(Empty);
        c.add([n as u64; 100]);
        check(c.get::<Empty>().is_some(), 53);
        check(c.get_mut::<Empty>().is_some(), 54);
        check(c.get::<[u64; 100]>() == Some(&[n as u64; 100]), 55);
        check(c.get_mut::<()>().is_some(), 56);
    }
}
struct Empty;

/// C22. params: number of operations, 0 on one context, 1 each in the next part of the chain that handles a request (middlewares on
/// the way in, handler, middlewares on the way out), first operation (or 99), 1 for a body in chunks, other headers of the request, 1 for a body that is a number,
/// 1 with data of many types that nothing touches
pub fn harness_context() {
    let n = param(0);
    let ops: Vec<usize> = (0..n).map(|i| if i == 0 && param(2) != 99 { param(2) } else { pick(OPS, 23) }).collect();
    let mut body = [b"a=".to_vec(), seg(2, 24)].concat();
    let json = if param(5) == 1 {
        let d = byte(24);
        assume((d >= b'0') & (d <= b'9'));
        body = vec![b'1', d];
        Some(10 + d - b'0')
    } else {
        None
    };
    let query = [b"a=".to_vec(), seg(1, 25)].concat();
    let params = [seg(1, 26), seg(1, 27)];
    let mut m = Held { a: None, b: None, head: vec![b"h".to_vec()], body: body.clone(), query: query.clone(), params, response: None, state: None, busy: param(4), json, common: None };
    let uri = text([b"/", &m.params[0][..], b"/x/", &m.params[1][..], b"?", &query[..]].concat());
    let b = if param(3) == 1 { super::form::pieces(&body, 2, None) } else { Body::from(body) };
    let mut req = busy(request(Method::POST, &uri, b), param(4));
    req.headers_mut().insert("x-h", header::HeaderValue::from_static("h"));
    req.headers_mut().insert("x-o", header::HeaderValue::from_static("o"));
    if param(6) == 1 {
        let b = byte(20);
        common(req.extensions_mut(), b);
        m.common = Some(b);
    }
    cover(1);
    if param(1) == 0 {
        let ps: HashMap<String, String> = [("p", 0), ("q", 1)].into_iter().map(|(k, i)| (k.to_string(), text(m.params[i].clone()))).collect();
        let mut ctx = Context::new(req, ps);
        compare(&ctx, &m);
        for op in ops {
            block_on(operate(op, &mut ctx, &mut m));
            compare(&ctx, &m);
        }
        if m.common.is_some() {
            let b = byte(20);
            common_again(&mut ctx, b);
            m.common = Some(b);
            compare(&ctx, &m);
        }
        let r = ctx.take_response();
        block_on(is_answer(r, &m.response));
        return;
    }
    // the parts of the chain, each with its share of the operations
    m.state = Some(5);
    type Shared = Arc<Mutex<Option<(Held, std::collections::VecDeque<usize>)>>>;
    let shared: Shared = Arc::new(Mutex::new(Some((m, ops.into_iter().collect()))));
    async fn step(shared: &Shared, ctx: &mut Context) {
        let (mut m, mut ops) = shared.lock().unwrap().take().unwrap();
        compare(ctx, &m);
        if let Some(op) = ops.pop_front() {
            operate(op, ctx, &mut m).await;
            compare(ctx, &m);
        }
        *shared.lock().unwrap() = Some((m, ops));
    }
    struct Part(Shared);
    #[async_trait::async_trait]
    impl Middleware for Part {
        async fn handle<'a>(&'a self, mut ctx: Context, next: EndpointExecutor<'a>) -> ContextResult {
            step(&self.0, &mut ctx).await;
            let mut ctx = next.next(ctx).await?;
            step(&self.0, &mut ctx).await;
            Ok(ctx)
        }
    }
    let mut app: App<u8> = App::new();
    app.set_app_state(5);
    app.use_service(Part(shared.clone()));
    let sh = shared.clone();
    let mut inner = Router::new();
    inner.post("/:q", move |mut ctx: Context| {
        let sh = sh.clone();
        async move {
            step(&sh, &mut ctx).await;
            Ok(ctx)
        }
    });
    inner.use_service(Part(shared.clone()));
    app.use_router("/:p/x", inner);
    let mut c = connect(app, 1).pop().unwrap();
    let got = call(&mut c, req);
    let (m, left) = shared.lock().unwrap().take().unwrap();
    check(left.is_empty(), 41);
    let want = m.response.unwrap_or(Built { status: 200, headers: vec![], body: vec![] });
    check(got.status().as_u16() == want.status, 42);
    for (k, _) in &want.headers {
        let last = want.headers.iter().rev().find(|(l, _)| l == k).map(|x| x.1.as_bytes().to_vec());
        check(got.headers().get(*k).map(|v| v.as_bytes().to_vec()) == last, 43);
    }
    for k in got.headers().keys() {
        check(want.headers.iter().any(|(l, _)| *l == k.as_str()), 44);
    }
    check(bytes_of(got.into_body()) == want.body, 45);
}
/// bytes without a meaning in a path, a query or a form
fn seg(n: usize, tag: u32) -> Vec<u8> {
    (0..n)
        .map(|_| {
            let b = byte(tag);
            assume(((b >= b'a') & (b <= b'z')) | ((b >= b'0') & (b <= b'9')) | (b == b'-'));
            b
        })
        .collect()
}

// ---- C23: what happened before ------------------------------------------------------

struct Tag(u8);
#[async_trait::async_trait]
impl Middleware for Tag {
    async fn handle<'a>(&'a self, mut ctx: Context, next: EndpointExecutor<'a>) -> ContextResult {
        wait_once().await;
        ctx.add(self.0);
        let mut ctx = next.next(ctx).await?;
        wait_once().await;
        if let Some(r) = ctx.response_mut() {
            r.headers_mut().get_or_insert_with(Vec::new).push((header::VARY, "tag"));
        }
        Ok(ctx)
    }
}
type Pinned = Pin<Box<dyn Future<Output = ContextResult> + Send>>;
fn echo(mut ctx: Context) -> Pinned {
    Box::pin(async move {
        let b = hyper::body::to_bytes(ctx.take_body()).await.map(|b| b.to_vec()).unwrap_or_default();
        let tag = ctx.get::<u8>().copied().unwrap_or(0);
        ctx.build(text([&b[..], b"-", &[b'0' + tag][..]].concat())).with_status(StatusCode::ACCEPTED).ok()
    })
}
pub fn several() -> App<Vec<u8>> {
    several_of(App::new())
}
fn several_of(mut app: App<Vec<u8>>) -> App<Vec<u8>> {
    app.set_app_state(vec![3]);
    app.get("/a", |ctx: Context| async move { ctx.build("get").with_header(header::ALLOW, "a").ok() });
    app.post("/a", echo);
    app.use_service_to("/b", Tag(1));
    app.get("/b/:p", |ctx: Context| async move {
        let p: String = ctx.param("p")?;
        let t = ctx.get::<u8>().copied().unwrap_or(0);
        ctx.build(text([p.as_bytes(), &[b'0' + t][..]].concat())).ok()
    });
    app.get("/c/*", |ctx: Context| async move {
        let u = ctx.uri().to_string();
        ctx.build(u).ok()
    });
    app.put("/a", |_c: Context| async move { Err(ObsidianError::GeneralError("put".to_string())) });
    app.delete("/a", |ctx: Context| async move { Ok(ctx) });
    let mut sub = Router::new();
    sub.use_service(Tag(2));
    sub.post("/:p", echo);
    sub.get("/", |mut ctx: Context| async move {
        let n = ctx.get::<Vec<u8>>().map(|v| v.len()).unwrap_or(9);
        if let Some(v) = ctx.get_mut::<Vec<u8>>() {
            v.push(0);
        }
        ctx.build(format!("state {}", n)).ok()
    });
    sub.patch("/", |mut ctx: Context| async move {
        let f: BTreeMap<String, String> = ctx.form().await?;
        ctx.build(format!("fields {}", f.len())).ok()
    });
    app.use_router("/s", sub);
    app
}
pub const SHAPES: usize = 12;
/// One of the requests it may get
pub fn sample(shape: usize, id: u32) -> (Method, Vec<u8>, Vec<u8>) {
    let s = |n| seg(n, 30 + id);
    match shape {
        0 => (Method::GET, b"/a".to_vec(), vec![]),
        1 => (Method::POST, b"/a".to_vec(), s(1)),
        2 => (Method::GET, [b"/b/", &s(1)[..]].concat(), vec![]),
        3 => (Method::GET, [b"/c/", &s(1)[..], b"/x"].concat(), vec![]),
        4 => (Method::PUT, b"/a".to_vec(), vec![]),
        5 => (Method::DELETE, b"/a".to_vec(), s(1)),
        6 => (Method::POST, [b"/s/", &s(1)[..]].concat(), s(1)),
        7 => (Method::GET, b"/s".to_vec(), vec![]),
        8 => (Method::PATCH, b"/s".to_vec(), [b"a=", &s(1)[..]].concat()),
        9 => (Method::PATCH, b"/a".to_vec(), vec![]),
        10 => (Method::GET, [b"/", &s(1)[..]].concat(), vec![]),
        _ => (Method::GET, b"/a?x".to_vec(), s(1)),
    }
}
pub type Answer = (u16, Vec<(Vec<u8>, Vec<u8>)>, Vec<u8>);
pub fn answer(r: obsidian::Response<Body>) -> Answer {
    let st = r.status().as_u16();
    let mut h: Vec<(Vec<u8>, Vec<u8>)> = r.headers().iter().map(|(k, v)| (k.as_str().as_bytes().to_vec(), v.as_bytes().to_vec())).collect();
    h.sort();
    (st, h, bytes_of(r.into_body()))
}
pub fn same(a: &Answer, b: &Answer, id: u32) {
    check(a.0 == b.0, id);
    check(a.1 == b.1, id + 1);
    check(a.2 == b.2, id + 2);
}

/// C23. params: requests before the last one, connections, shape of the first (or 99). Every request is answered as by an app that
/// has just started.
pub fn harness_history() {
    let (k, conns) = (param(0), param(1));
    let mut cs = connect(several(), conns);
    for i in 0..=k {
        let shape = if i == 0 && param(2) != 99 { param(2) } else { pick(SHAPES, 28) };
        let conn = if conns > 1 { pick(conns, 29) } else { 0 };
        let (m, u, b) = sample(shape, i as u32);
        let u = text(u);
        let got = answer(call(&mut cs[conn], request(m.clone(), &u, Body::from(b.clone()))));
        let mut fresh = connect(several(), 1).pop().unwrap();
        let want = answer(call(&mut fresh, request(m, &u, Body::from(b))));
        observe(got.0 as usize);
        observe_bytes(&got.2);
        cover(1000 * (i == k) as u32 + got.0 as u32);
        same(&got, &want, 1);
    }
}

/// C20. params: shapes of two requests, connections, chunks of a body. In flight together, polled in any order: as by an app of their own.
pub fn harness_together() {
    let conns = param(2);
    let mut cs = connect(several(), conns);
    let make = |i: usize, id: u32| {
        let (m, u, b) = sample(i, id);
        (m, text(u), b)
    };
    let reqs = [make(param(0), 0), make(param(1), 1)];
    let mut fs: Vec<Option<Pin<Box<dyn Future<Output = Result<obsidian::Response<Body>, hyper::Error>>>>>> = vec![];
    for (i, (m, u, b)) in reqs.iter().enumerate() {
        let body = if param(3) > 0 { super::form::pieces(b, param(3), None) } else { Body::from(b.clone()) };
        fs.push(Some(cs[i % conns](request(m.clone(), u, body))));
    }
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    let mut open = 2;
    while open > 0 {
        let i = if open == 2 { pick(2, 29) } else { fs[0].is_none() as usize };
        if let std::task::Poll::Ready(r) = fs[i].as_mut().unwrap().as_mut().poll(&mut cx) {
            fs[i] = None;
            open -= 1;
            let got = match r {
                Ok(r) => answer(r),
                Err(_) => return check(false, 4),
            };
            let (m, u, b) = &reqs[i];
            let mut fresh = connect(several(), 1).pop().unwrap();
            let want = answer(call(&mut fresh, request(m.clone(), u, Body::from(b.clone()))));
            observe(got.0 as usize);
            same(&got, &want, 1);
        }
    }
    cover(1);
    let _: Option<Request<()>> = None;
}

/// C25. params: abandoned requests, connections, shape of the first (99 any; for more than four of all of them), shape of one more
/// in flight meanwhile (99 none), 1 for an app that logs. Requests whose clients go away, at whatever point, leave nothing behind.
pub fn harness_abandon() {
    let (n, conns, fixed, other) = (param(0), param(1), param(2), param(3));
    let app = || several_of(if param(4) == 1 { App::default() } else { App::new() });
    let many = n > 4;
    let mut cs = connect(app(), conns);
    let make = |i: usize, id: u32| {
        let (m, u, b) = sample(i, id);
        (m, text(u), b)
    };
    let alone = |r: &(Method, String, Vec<u8>)| {
        let mut fresh = connect(app(), 1).pop().unwrap();
        answer(call(&mut fresh, request(r.0.clone(), &r.1, Body::from(r.2.clone()))))
    };
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    // one that goes on meanwhile
    let meanwhile = if other == 99 { None } else { Some(make(other, 3)) };
    let mut waiting = None;
    let mut early = None;
    if let Some(r) = &meanwhile {
        let mut f = cs[conns - 1](request(r.0.clone(), &r.1, super::form::late(&r.2)));
        for _ in 0..pick(4, 31) {
            if let (None, std::task::Poll::Ready(x)) = (&early, f.as_mut().poll(&mut cx)) {
                early = Some(x);
                break;
            }
        }
        waiting = Some(f);
    }
    let mut usual = None;
    for i in 0..n {
        let shape = if (i == 0 || many) && fixed != 99 { fixed } else { pick(SHAPES, 28) };
        let (m, u, b) = match (&usual, many) {
            (Some(r), true) => Clone::clone(r),
            _ => make(shape, i as u32),
        };
        usual = Some((m.clone(), u.clone(), b.clone()));
        let mut f = cs[i % conns](request(m, &u, super::form::late(&b)));
        let polls = if many { i % 6 } else { pick(6, 32) };
        for _ in 0..polls {
            if f.as_mut().poll(&mut cx).is_ready() {
                break;
            }
        }
        drop(f);
    }
    if let (Some(r), Some(mut f)) = (&meanwhile, waiting) {
        let got = match early {
            Some(x) => x,
            None => block_on(std::future::poll_fn(|cx| f.as_mut().poll(cx))),
        };
        match got {
            Ok(x) => same(&answer(x), &alone(r), 1),
            Err(_) => check(false, 4),
        }
    }
    let last = make(if other == 99 { pick(SHAPES, 33) } else { [1, 2, 6, 7][pick(4, 33)] }, 4);
    let conn = if conns > 1 && other == 99 { pick(conns, 29) } else { 0 };
    let got = answer(call(&mut cs[conn], request(last.0.clone(), &last.1, Body::from(last.2.clone()))));
    observe(got.0 as usize);
    observe_bytes(&got.2);
    cover(got.0 as u32);
    same(&got, &alone(&last), 5);
}
