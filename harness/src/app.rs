//! The service of a listening app.
use super::chain::wait_once;
use super::rt::*;
use super::serve::*;
use super::util::*;
use obsidian::context::Context;
use obsidian::middleware::Middleware;
use obsidian::router::{Responder, Response, Router};
use obsidian::{header, App, Body, ContextResult, EndpointExecutor, Method, ObsidianError, Request, StatusCode};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context as Cx, Poll, Waker};

/// C10. params: request path, number of bytes of an error text, other headers of the request. Method and version are arbitrary.
/// Not found, failing, silent and answering endpoints.
pub fn harness_dispatch() {
    let mut app: App = App::new();
    let e1 = text(word(param(1), 3));
    let e2 = e1.clone();
    app.get("/ok", |ctx: Context| async move { ctx.build("fine").ok() });
    app.post("/ok", |ctx: Context| async move { Ok(ctx) });
    app.put("/e", move |_ctx: Context| {
        let e = e1.clone();
        async move { Err(ObsidianError::GeneralError(e)) }
    });
    app.patch("/e", |_ctx: Context| async move { Err(ObsidianError::NoneError) });
    app.delete("/e", move |_ctx: Context| {
        let e = e2.clone();
        async move { Err(ObsidianError::ParamError(e)) }
    });
    app.get("/q", |mut ctx: Context| async move {
        let n: u8 = ctx.json().await?;
        ctx.build(format!("{}", n)).ok()
    });
    let path = super::route::path(param(0));
    let m = pick(super::route::METHODS, 50);
    let method = super::route::methods(m);
    let mut req = busy(request(method, &path, Body::empty()), param(2));
    *req.version_mut() = version(52);
    let segs = super::route::segments(req.uri().path().as_bytes()).iter().map(|s| s.to_vec()).collect::<Vec<_>>();
    let one = |t: &str| segs.len() == 1 && segs[0] == t.as_bytes();
    let mut c = connect(app, 1).pop().unwrap();
    let (ok, err, q) = (one("ok"), one("e"), one("q"));
    let got = reply(&mut c, req);
    observe(got.0 as usize);
    observe_bytes(&got.1);
    let (status, body): (u16, Option<&[u8]>) = match (ok, err, q, m) {
        (true, _, _, 0) => (200, Some(b"fine")),
        (true, _, _, 1) => (200, Some(b"")),
        (_, true, _, 2) | (_, true, _, 4) => (500, None),
        (_, true, _, 3) => (500, Some(b"Input should not be None")),
        (_, _, true, 0) => (500, Some(b"EOF while parsing a value at line 1 column 0")),
        _ => (404, Some(b"404 Not Found")),
    };
    cover(status as u32);
    check(got.0 == status, 1);
    match body {
        Some(b) => check(got.1 == b, 2),
        None => check(got.1.len() == param(1), 3),
    }
}
/// C10. params: bytes of an error text, kind of error. The text of the error is the body.
pub fn harness_error_text() {
    let t = text(any_utf8(param(0), 3));
    let want = t.clone();
    let kind = param(1);
    let in_mw = param(2) == 1;
    let make = move || match kind {
        0 => ObsidianError::GeneralError(t.clone()),
        1 => ObsidianError::ParamError(t.clone()),
        // the text of the error is the one the JSON reader gives
        3 => ObsidianError::JsonError(serde::de::Error::custom(t.clone())),
        4 => ObsidianError::JsonError(serde_json::from_str::<u8>("1x").unwrap_err()),
        _ => ObsidianError::FormError(obsidian::router::FormError::Message(t.clone())),
    };
    struct Fail<F>(F);
    #[async_trait::async_trait]
    impl<F: Fn() -> ObsidianError + Send + Sync + 'static> Middleware for Fail<F> {
        async fn handle<'a>(&'a self, _c: Context, _n: EndpointExecutor<'a>) -> ContextResult {
            Err((self.0)())
        }
    }
    let mut app: App = App::new();
    if in_mw {
        app.use_service(Fail(make));
        app.get("/", |ctx: Context| async move { ctx.build("x").ok() });
    } else {
        app.get("/", move |_c: Context| {
            let e = make();
            async move { Err(e) }
        });
    }
    let mut c = connect(app, 1).pop().unwrap();
    let got = reply(&mut c, request(Method::GET, "/", Body::empty()));
    cover(1);
    observe_bytes(&got.1);
    check(got.0 == 500, 1);
    check(got.1 == if kind == 4 { b"trailing characters at line 1 column 2".to_vec() } else { want.into_bytes() }, 2);
}
/// Bytes that are UTF-8: any ASCII, the first two may be a two-byte character
fn any_utf8(n: usize, tag: u32) -> Vec<u8> {
    let mut v = ascii(n, tag);
    if n >= 2 && pick(2, 51) == 1 {
        v[0] = 0xc3;
        let b = byte(tag);
        assume((b >= 0x80) & (b < 0xc0));
        v[1] = b;
    }
    v
}

/// C11. params: bytes of the body, bytes of the header value, number of headers, which
/// interface builds the response (0 ResponseBuilder, 1 Response, 2 Responder, 3 headers at once), other
/// headers of the request
pub fn harness_response() {
    let (nb, nh, k, api) = (param(0), param(1), param(2), param(3));
    let code = (byte(1) as u16) << 8 | byte(1) as u16;
    assume((code >= 100) & (code < 1000));
    let status = match StatusCode::from_u16(code) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    };
    let names = [header::ALLOW, header::VARY, header::CONTENT_TYPE, header::ALLOW];
    let strs = ["allow", "VARY", "Content-Type", "allow"];
    let values: Vec<&'static str> = (0..k).map(|_| leak(ascii(nh, 2))).collect();
    let body = text(ascii(nb, 3));
    let sent = body.clone();
    let vals = values.clone();
    let nm = names.clone();
    let mut app: App = App::new();
    app.get("/", move |ctx: Context| {
        let (body, vals, names) = (body.clone(), vals.clone(), nm.clone());
        async move {
            match api {
                0 => {
                    let mut b = ctx.build(Response::new(body)).with_status(status);
                    for (i, v) in vals.iter().enumerate() {
                        b = if i % 2 == 0 { b.with_header(names[i].clone(), *v) } else { b.with_header_str(strs[i], *v) };
                    }
                    b.ok()
                }
                1 => {
                    let mut r = Response::ok().set_body(body);
                    for (i, v) in vals.iter().enumerate() {
                        r = if i % 2 == 1 { r.with_header(names[i].clone(), *v) } else { r.with_header_str(strs[i], *v) };
                    }
                    let mut ctx = ctx;
                    *ctx.response_mut() = Some(r.with_status(status));
                    Ok(ctx)
                }
                2 => {
                    let r = body.with_headers(vals.iter().enumerate().map(|(i, v)| (names[i].clone(), *v)).collect());
                    ctx.build(r).with_status(status).ok()
                }
                3 => {
                    let (a, b) = vals.split_at(vals.len() / 2);
                    let h = a.len();
                    ctx.build(Response::new(body).with_headers_str(a.iter().enumerate().map(|(i, v)| (strs[i], *v)).collect()))
                        .with_status(status)
                        .with_headers_str(b.iter().enumerate().map(|(i, v)| (strs[h + i], *v)).collect())
                        .ok()
                }
                _ => {
                    let (a, b) = vals.split_at(vals.len() / 2);
                    let h = a.len();
                    ctx.build(body.with_headers(a.iter().enumerate().map(|(i, v)| (names[i].clone(), *v)).collect()))
                        .with_headers(b.iter().enumerate().map(|(i, v)| (names[h + i].clone(), *v)).collect())
                        .with_status(status)
                        .ok()
                }
            }
        }
    });
    let mut c = connect(app, 1).pop().unwrap();
    let mut req = busy(request(Method::GET, "/", Body::empty()), param(4));
    *req.version_mut() = version(52);
    let r = call(&mut c, req);
    let good = values.iter().all(|v| v.bytes().all(|b| (b >= 0x20 && b != 0x7f) || b == b'\t'));
    cover(good as u32);
    observe(r.status().as_u16() as usize);
    if good {
        check(r.status().as_u16() == code, 1);
        // a repeated header has its last value
        for i in 0..k {
            let last = (0..k).rev().find(|j| names[*j] == names[i]).unwrap();
            if last == i {
                let got: Vec<&[u8]> = r.headers().get_all(&names[i]).iter().map(|v| v.as_bytes()).collect();
                check(got.len() == 1, 2);
                check(got[0] == values[i].as_bytes(), 3);
            }
        }
        let distinct = (0..k).filter(|i| (0..k).rev().find(|j| names[*j] == names[*i]) == Some(*i)).count();
        check(r.headers().len() == distinct, 4);
        let b = bytes_of(r.into_body());
        observe_bytes(&b);
        check(b == sent.as_bytes(), 5);
    } else {
        check(r.status().as_u16() == 500, 6);
    }
}

/// Names that servers and proxies treat on their own
const KNOWN: &[&str] = &[
    "accept", "accept-ranges", "access-control-allow-origin", "age", "allow", "alt-svc", "authorization", "cache-control", "connection", "content-disposition", "content-encoding", "content-language",
    "content-length", "content-location", "content-md5", "content-range", "content-security-policy", "content-type", "cookie", "date", "etag", "expect", "expires", "forwarded", "from", "host", "if-match", "keep-alive",
    "last-modified", "link", "location", "max-forwards", "origin", "pragma", "proxy-authenticate", "proxy-connection", "range", "referer", "refresh", "retry-after", "sec-websocket-accept", "server", "set-cookie",
    "strict-transport-security", "te", "trailer", "transfer-encoding", "upgrade", "user-agent", "vary", "via", "warning", "www-authenticate", "x-content-type-options", "x-forwarded-for", "x-frame-options",
    "x-powered-by", "x-request-id", "x-robots-tag", "x-ua-compatible",
];
/// C11. params: bytes of a value, interface (0 builder, 1 response, 2 Responder), other headers of the request. A header of any name arrives as it was set.
pub fn harness_known_header() {
    let (n, api) = (param(0), param(1));
    let name = KNOWN[pick(KNOWN.len(), 4)];
    let value = leak(word(n, 2));
    let code = [200, 204, 302, 404, 500][pick(5, 5)];
    let mut app: App = App::new();
    app.get("/", move |ctx: Context| async move {
        let st = StatusCode::from_u16(code).unwrap();
        match api {
            0 => ctx.build(Response::new("body")).with_status(st).with_header_str(name, value).ok(),
            1 => ctx.build(Response::new("body").with_header(header::HeaderName::from_static(name), value).set_status(st)).ok(),
            _ => ctx.build(Response::new("body").with_headers_str(vec![(name, value)]).with_status(st)).ok(),
        }
    });
    let mut c = connect(app, 1).pop().unwrap();
    let r = call(&mut c, busy(request(Method::GET, "/", Body::empty()), param(2)));
    cover(code as u32);
    check(r.status().as_u16() == code, 1);
    check(r.headers().len() == 1, 2);
    check(r.headers().get(name).map(|v| v.as_bytes() == value.as_bytes()).unwrap_or(false), 3);
    let b = bytes_of(r.into_body());
    observe_bytes(&b);
    check(b == b"body", 4);
}
/// C12. params: bytes of a value, bytes of a second one of the same name (99 for none), other headers. A header of any name arrives as it was sent.
pub fn harness_known_request() {
    let name = KNOWN[pick(KNOWN.len(), 4)];
    let seen: Arc<Mutex<Option<(obsidian::HeaderMap, Method, String, Vec<u8>)>>> = Default::default();
    let s = seen.clone();
    let mut app: App = App::new();
    let h = move |mut ctx: Context| {
        let s = s.clone();
        Box::pin(async move {
            let b = hyper::body::to_bytes(ctx.take_body()).await.map(|b| b.to_vec()).unwrap_or_default();
            *s.lock().unwrap() = Some((ctx.headers().clone(), ctx.method().clone(), ctx.uri().to_string(), b));
            ctx.build(()).ok()
        }) as Pin<Box<dyn Future<Output = ContextResult> + Send>>
    };
    app.get("/", h.clone());
    app.post("/", h.clone());
    app.put("/", h.clone());
    app.patch("/", h.clone());
    app.delete("/", h);
    let method = super::route::methods(pick(5, 5));
    let body = any(2, 6);
    let mut req = busy(request(method.clone(), "/", Body::from(body.clone())), param(2));
    req.headers_mut().insert(name, header::HeaderValue::from_bytes(&word(param(0), 2)).unwrap());
    if param(1) != 99 {
        req.headers_mut().append(name, header::HeaderValue::from_bytes(&word(param(1), 3)).unwrap());
    }
    let (headers, uri) = (req.headers().clone(), req.uri().to_string());
    let mut c = connect(app, 1).pop().unwrap();
    let (st, _) = reply(&mut c, req);
    check(st == 200, 1);
    let seen = seen.lock().unwrap().take();
    match seen {
        Some((h, m, u, b)) => {
            cover(1);
            check(h == headers, 2);
            check(m == method, 3);
            check(u == uri, 4);
            check(b == body, 5);
        }
        None => check(false, 6),
    }
}

#[derive(Clone)]
struct State(Vec<u8>, Arc<Mutex<usize>>);

/// C12. params: bytes of a state, query, header, body; number of requests, 1 for no state 2 for another one before 3 for one set last, other headers. Everything of the request
/// and of the state arrives; nothing of one request is seen by another one.
pub fn harness_delivery() {
    let (ns, nq, nh, nb, k) = (param(0), param(1), param(2), param(3), param(4));
    let state = State(any(ns, 1), Default::default());
    struct Seen {
        state: Option<Vec<u8>>,
        uri: Vec<u8>,
        method: Method,
        headers: obsidian::HeaderMap,
        body: Vec<u8>,
        ext: bool,
        fresh: bool,
    }
    struct Private(#[allow(dead_code)] u8);
    let log: Arc<Mutex<Vec<Seen>>> = Default::default();
    let mut app: App<State> = App::new();
    let with_state = param(5) != 1;
    if param(5) == 2 {
        // the one set last counts
        app.set_app_state(State(any(2, 8), Default::default()));
    }
    if with_state && param(5) != 3 {
        app.set_app_state(state.clone());
    }
    let h = {
        let log = log.clone();
        move |mut ctx: Context| {
            let log = log.clone();
            Box::pin(async move {
                let fresh = ctx.get::<Private>().is_none() && ctx.response().is_none();
                ctx.add(Private(1));
                let ext = ctx.extensions().get::<u16>() == Some(&77);
                let headers = ctx.headers().clone();
                let uri = ctx.uri().to_string().into_bytes();
                let method = ctx.method().clone();
                let state = ctx.get::<State>().map(|s| s.0.clone());
                if let Some(s) = ctx.get_mut::<State>() {
                    // its own copy
                    s.0.clear();
                    *s.1.lock().unwrap() += 1;
                }
                let body = ctx.take_body();
                let body = hyper::body::to_bytes(body).await.map(|b| b.to_vec()).unwrap_or_default();
                log.lock().unwrap().push(Seen { state, uri, method, headers, body, ext, fresh });
                ctx.build(()).ok()
            }) as Pin<Box<dyn Future<Output = ContextResult> + Send>>
        }
    };
    app.get("/*", h.clone());
    app.post("/*", h.clone());
    app.delete("/*", h);
    if param(5) == 3 {
        app.set_app_state(state.clone());
    }
    let mut cs = connect(app, 2);
    for i in 0..k {
        let mut uri = b"/a?".to_vec();
        for i in 0..nq {
            if nq > 64 && i > 2 && i + 2 < nq {
                uri.push(b'q');
                continue;
            }
            let b = byte(2);
            assume((b > 0x20) & (b < 0x7f) & (b != b'#') & (b != b'"') & (b != b'<') & (b != b'>') & (b != b'`') & (b != b'{') & (b != b'}') & (b != b'|') & (b != b'\\') & (b != b'^'));
            uri.push(b);
        }
        let uri = text(uri);
        let head = word(nh, 3);
        let body = any(nb, 4);
        let method = match pick(3, 5) {
            0 => Method::GET,
            1 => Method::POST,
            _ => Method::DELETE,
        };
        let conn = pick(2, 6);
        let mut req = busy(request(method.clone(), &uri, Body::from(body.clone())), param(6));
        let value = header::HeaderValue::from_bytes(&head).unwrap();
        req.headers_mut().insert("x-in", value.clone());
        req.headers_mut().append("x-in", value);
        *req.version_mut() = version(53);
        let headers = req.headers().clone();
        req.extensions_mut().insert(77u16);
        let r = call(&mut cs[conn], req);
        check(r.status() == 200, 1);
        let l = log.lock().unwrap();
        check(l.len() == i + 1, 2);
        let s = &l[i];
        check(s.uri == uri.as_bytes(), 3);
        check(s.method == method, 4);
        check(s.headers == headers, 5);
        check(s.body == body, 6);
        check(s.ext, 7);
        check(s.fresh, 8);
        check(s.state == if with_state { Some(state.0.clone()) } else { None }, 9);
        observe_bytes(&s.uri);
        observe_bytes(&s.body);
    }
    cover(1);
    if with_state {
        check(*state.1.lock().unwrap() == k, 10);
    }
}

/// C19. params: kind, bytes. What a responder becomes.
pub fn harness_responder() {
    let kind = param(0);
    let code = (byte(1) as u16) << 8 | byte(1) as u16;
    assume((code >= 100) & (code < 1000));
    let st = match StatusCode::from_u16(code) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    };
    let data = if kind == 6 { any(param(1), 2) } else { ascii(param(1), 2) };
    let t = text(data.clone());
    let plain = Some(&b"text/plain; charset=utf-8"[..]);
    let (r, status, body, ctype): (Response, u16, Vec<u8>, Option<&[u8]>) = match kind {
        0 => (t.respond_to(), 200, data, plain),
        1 => (leak(data.clone()).respond_to(), 200, data, plain),
        2 => (().respond_to(), 200, vec![], None),
        3 => ((st, t).respond_to(), code, data, None),
        4 => (st.respond_to(), code, vec![], None),
        5 => (Some(t).respond_to(), 200, data, plain),
        6 => {
            let mut j = String::from("[");
            for (i, b) in data.iter().enumerate() {
                if i > 0 {
                    j.push(',');
                }
                // its decimal digits
                let (h, d, u) = (b / 100, b / 10 % 10, b % 10);
                if h > 0 {
                    j.push((b'0' + h) as char);
                }
                if h > 0 || d > 0 {
                    j.push((b'0' + d) as char);
                }
                j.push((b'0' + u) as char);
            }
            j.push(']');
            (data.respond_to(), 200, j.into_bytes(), None)
        }
        7 => (None::<String>.respond_to(), 404, b"Not Found".to_vec(), None),
        8 => (None::<&'static str>.respond_to(), 404, b"Not Found".to_vec(), None),
        9 => (Some(leak(data.clone())).respond_to(), 200, data, plain),
        10 => (Response::new(t).set_status(st).respond_to(), code, data, None),
        11 => ((st, leak(data.clone())).respond_to(), code, data, None),
        12 => ((st, ()).respond_to(), code, vec![], None),
        13 => (t.with_status(st), code, data, None),
        14 => (leak(data.clone()).with_status(st), code, data, None),
        15 => (Response::ok().html(t).with_status(st), code, data, Some(&b"text/html"[..])),
        16 => (Response::created().set_body(t), 201, data, None),
        17 => (Response::internal_server_error().set_body(leak(data.clone())), 500, data, None),
        // over what has been there before
        18 => (Response::ok().set_content_type("a/b").html(t), 200, data, Some(&b"text/html"[..])),
        19 => ("x".respond_to().html(t), 200, data, Some(&b"text/html"[..])),
        20 => (Response::ok().html("x").json(5), 200, b"5".to_vec(), Some(&b"application/json"[..])),
        21 => (Response::created().json(5).html(t), 201, data, Some(&b"text/html"[..])),
        22 => (t.respond_to().set_content_type("text/css"), 200, data, Some(&b"text/css"[..])),
        _ => (Response::ok().html("x").set_content_type("a/b").with_header(header::CONTENT_TYPE, "c/d").set_body(t), 200, data, Some(&b"c/d"[..])),
    };
    cover(1);
    let cell = Arc::new(Mutex::new(Some(r)));
    let mut app: App = App::new();
    app.get("/", move |ctx: Context| {
        let r = cell.lock().unwrap().take().unwrap();
        async move { ctx.build(r).ok() }
    });
    let mut c = connect(app, 1).pop().unwrap();
    let r = call(&mut c, busy(request(Method::GET, "/", Body::empty()), param(2)));
    check(r.status().as_u16() == status, 1);
    if kind <= 9 && kind != 3 || kind == 15 || kind >= 18 {
        check(ctype.is_none() || r.headers().get(header::CONTENT_TYPE).map(|v| v.as_bytes()) == ctype, 2);
    }
    let b = bytes_of(r.into_body());
    observe(status as usize);
    observe_bytes(&b);
    check(b == body, 3);
}

/// C20. params: number of requests, waits of each, connections. Requests in flight at the
/// same time, polled in any order.
pub fn harness_concurrent() {
    let (k, waits, conns) = (param(0), param(1), param(2));
    struct Wait(usize);
    struct Id(usize);
    #[async_trait::async_trait]
    impl Middleware for Wait {
        async fn handle<'a>(&'a self, mut ctx: Context, next: EndpointExecutor<'a>) -> ContextResult {
            let id: usize = ctx.param("id")?;
            ctx.add(Id(id));
            for _ in 0..self.0 {
                wait_once().await;
            }
            let ctx = next.next(ctx).await?;
            wait_once().await;
            // still the same request
            if ctx.get::<Id>().map(|i| i.0) != Some(id) {
                return Err(ObsidianError::NoneError);
            }
            Ok(ctx)
        }
    }
    let mut app: App<usize> = App::new();
    app.set_app_state(40);
    app.use_service_to("/:id", Wait(waits));
    app.post("/:id", move |mut ctx: Context| async move {
        let id: usize = ctx.param("id")?;
        wait_once().await;
        let n = *ctx.get::<usize>().unwrap() + id;
        let b = ctx.take_body();
        let b = hyper::body::to_bytes(b).await.map(|b| b.to_vec()).unwrap_or_default();
        let t = ctx.get::<Id>().map(|i| i.0).unwrap_or(99);
        if b.is_empty() {
            return Err(ObsidianError::GeneralError(format!("{}-{}", n, t)));
        }
        ctx.build(format!("{}-{}-{}", n, t, b[0])).with_status(StatusCode::from_u16(200 + id as u16).unwrap()).ok()
    });
    let mut cs = connect(app, conns);
    let mut fs: Vec<Option<Pin<Box<dyn Future<Output = Result<obsidian::Response<Body>, hyper::Error>>>>>> = vec![];
    let mut bodies = vec![];
    for i in 0..k {
        let b = byte(1);
        let empty = pick(2, 2) == 1;
        bodies.push(if empty { vec![] } else { vec![b] });
        let req = request(Method::POST, &format!("/{}", i), Body::from(bodies[i].clone()));
        fs.push(Some(cs[i % conns](req)));
    }
    // nothing of a connection is needed while its requests run
    let mut cx = Cx::from_waker(Waker::noop());
    let mut open = k;
    let mut order = vec![];
    while open > 0 {
        // one of those still running
        let mut j = pick(open, 3);
        let mut i = 0;
        while fs[i].is_none() || j > 0 {
            if fs[i].is_some() {
                j -= 1;
            }
            i += 1;
        }
        if let Poll::Ready(r) = fs[i].as_mut().unwrap().as_mut().poll(&mut cx) {
            fs[i] = None;
            open -= 1;
            order.push(i);
            let r = match r {
                Ok(r) => r,
                Err(_) => return check(false, 1),
            };
            let s = r.status().as_u16();
            let b = bytes_of(r.into_body());
            observe(s as usize);
            if bodies[i].is_empty() {
                check(s == 500, 2);
                check(b == format!("{}-{}", 40 + i, i).as_bytes(), 3);
            } else {
                check(s == 200 + i as u16, 4);
                check(b == format!("{}-{}-{}", 40 + i, i, bodies[i][0]).as_bytes(), 5);
            }
        }
    }
    cover(order[0] as u32);
}

/// Answers with what it gets from the inside
struct Tell;
#[async_trait::async_trait]
impl Middleware for Tell {
    async fn handle<'a>(&'a self, ctx: Context, next: EndpointExecutor<'a>) -> ContextResult {
        let mut ctx = next.next(ctx).await?;
        let t = match ctx.response_mut().take() {
            Some(r) => format!("{} {:?}", r.status(), r.headers()),
            None => "none".to_string(),
        };
        let t = t + &ctx_named(&ctx);
        ctx.build(t).ok()
    }
}
/// The parameters and answer of a context
fn ctx_named(ctx: &Context) -> String {
    let ps: Vec<Option<String>> = ["p", "id", "method", "path", ""].iter().map(|n| ctx.param(n).ok()).collect();
    format!("{:?} {}", ps, ctx.response().is_some())
}
/// C21. params: what the endpoint does, request path, bytes of a text, where the logger is (0 the default app, 1 use_service, 2 one of a
/// router, 3 two of them), 1 with a middleware which tells what it sees. The answer is the one of the app that does not log.
pub fn harness_logger() {
    use obsidian::middleware::logger::Logger;
    let (h, place) = (param(0), param(3));
    let t = text(ascii(param(2), 2));
    let n = byte(3);
    let code = if h >= 14 { u16::from_le_bytes([n, byte(3)]) } else { 200 };
    assume((code >= 100) & (code <= 999));
    let build = |mut app: App, logged: bool| {
        let (t, h2) = (t.clone(), h);
        let f = move |mut ctx: Context| {
            let t = t.clone();
            async move {
                match h2 {
                    0 => ctx.build(t).with_status(StatusCode::ACCEPTED).with_header(header::ALLOW, "x").with_header(header::VARY, "y").ok(),
                    1 => Err(ObsidianError::GeneralError(t)),
                    2 => Ok(ctx),
                    3 => {
                        wait_once().await;
                        ctx.build(()).with_header(header::ALLOW, "bad\n").ok()
                    }
                    4 => {
                        let p: String = ctx.param("p")?;
                        ctx.build(p).ok()
                    }
                    5 => {
                        let n: u8 = ctx.json().await?;
                        ctx.build_json(vec![n]).with_status(StatusCode::CREATED).ok()
                    }
                    6 => {
                        let f: std::collections::BTreeMap<String, u8> = ctx.form().await?;
                        ctx.build_json(f).ok()
                    }
                    7 => Err(ObsidianError::ParamError(t)),
                    8 => Err(ObsidianError::NoneError),
                    9 => Err(ObsidianError::FormError(obsidian::router::FormError::Message(t))),
                    10 => {
                        let b = hyper::body::to_bytes(ctx.take_body()).await.map(|b| b.to_vec()).unwrap_or_default();
                        let ext = ctx.extensions().get::<u16>().copied().unwrap_or(0) as u8;
                        ctx.build(vec![b.len() as u8, ext, b.first().copied().unwrap_or(9)]).ok()
                    }
                    11 => {
                        let mut all = String::new();
                        for (k, v) in ctx.headers() {
                            all.push_str(k.as_str());
                            all.push(':');
                            all.push_str(v.to_str().unwrap_or("?"));
                        }
                        all.push_str(&ctx.uri().to_string());
                        all.push_str(ctx.method().as_str());
                        ctx.build(all).with_status(StatusCode::from_u16(418).unwrap()).ok()
                    }
                    // any status, with a text and without
                    14 | 15 => {
                        let st = StatusCode::from_u16(code).unwrap();
                        if h2 == 14 {
                            return ctx.build(t).with_status(st).with_header(header::CONTENT_LENGTH, "7").ok();
                        }
                        ctx.build(st).ok()
                    }
                    13 => {
                        // what else the request carries
                        let e = ctx.extensions();
                        let mut all = vec![];
                        macro_rules! say {
                            ($($t:ty),*) => { $( all.push(e.get::<$t>().map(|v| format!("{:?}", v))); )* };
                        }
                        say!(String, &'static str, u8, u16, u32, u64, u128, usize, i32, i64, bool, char, f64, (), Vec<u8>, Vec<String>, Method, obsidian::Uri, StatusCode, Option<String>);
                        macro_rules! there {
                            ($($t:ty),*) => { $( all.push(e.get::<$t>().map(|_| String::new())); )* };
                        }
                        there!(std::time::Instant, std::time::SystemTime, std::time::Duration, Logger, obsidian::HeaderMap, std::net::SocketAddr, http::Version, Arc<str>, Box<str>, Response);
                        let s = format!("{:?} {}", all, ctx_named(&ctx));
                        ctx.build(s).ok()
                    }
                    _ => Err(ctx.json::<Vec<u8>>().await.err().unwrap_or(ObsidianError::NoneError)),
                }
            }
        };
        app.get("/a", f.clone());
        let mut r = Router::new();
        if param(4) == 1 {
            app.use_service(Tell);
        }
        if logged && place >= 2 {
            r.use_service(Logger::new());
            if place == 3 {
                r.use_service_to("/:p", Logger::default());
            }
        }
        if logged && place == 1 {
            app.use_service(Logger::new());
        }
        r.get("/:p", f.clone());
        r.post("/:p", f);
        app.use_router("/b", r);
        app
    };
    let plain = build(App::new(), false);
    let logged = build(if place == 0 { App::default() } else { App::new() }, true);
    let path = super::route::path(param(1)) + &"y".repeat(param(5));
    let m = if pick(2, 1) == 0 { Method::GET } else { Method::POST };
    let body = if h == 6 { [b"a=", &[n][..]].concat() } else { vec![n] };
    let v = version(4);
    let make = || {
        let mut r = busy(request(m.clone(), &path, Body::from(body.clone())), 1);
        *r.version_mut() = v;
        r.extensions_mut().insert(7u16);
        for i in 0..param(6) {
            r.headers_mut().append("x-more", i.into());
        }
        if h == 13 {
            r.extensions_mut().insert("s".to_string());
            r.extensions_mut().insert("t");
            r.extensions_mut().insert(3usize);
        }
        r
    };
    let mut c = connect(plain, 1).pop().unwrap();
    let mut d = connect(logged, 1).pop().unwrap();
    let (x, y) = (call(&mut c, make()), call(&mut d, make()));
    cover(x.status().as_u16() as u32);
    observe(x.status().as_u16() as usize);
    check(x.status() == y.status(), 1);
    check(x.headers() == y.headers(), 2);
    check(x.version() == y.version(), 4);
    let (x, y) = (bytes_of(x.into_body()), bytes_of(y.into_body()));
    observe_bytes(&x);
    check(x == y, 3);
    let _ = block_on(async {});
    let _: Option<Request<()>> = None;
}
