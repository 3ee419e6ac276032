//! Many of everything: segments, parameters, siblings, middlewares, mounts, requests, fields, headers.
use super::chain::wait_once;
use super::route::*;
use super::rt::*;
use super::serve::*;
use super::util::*;
use obsidian::context::Context;
use obsidian::middleware::Middleware;
use obsidian::router::{Response, Router};
use obsidian::{header, App, Body, ContextResult, EndpointExecutor, Method};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};

fn parse(t: &str) -> Pat {
    t.split('/')
        .filter(|s| !s.is_empty())
        .map(|s| match s.as_bytes()[0] {
            b'*' => Seg::Wild,
            b':' => Seg::Param(leak(s.as_bytes()[1..].to_vec())),
            _ => Seg::Lit(s.as_bytes().to_vec()),
        })
        .collect()
}
const MANY_METHODS: &[u8] = b"GPUTD";

/// What is registered: G P U T D or M and a pattern, and requests
fn large(kind: usize, n: usize) -> (Vec<(u8, String)>, Vec<String>) {
    let mut l: Vec<(u8, String)> = vec![];
    let mut asks = vec![];
    let lits = |n: usize| (0..n).map(|i| format!("/s{}", i % 7)).collect::<String>();
    match kind {
        // a long chain of literal segments, a middleware at each
        0 => {
            for i in 0..=n {
                l.push((b'M', format!("{}/", lits(i))));
            }
            l.push((b'G', lits(n)));
            l.push((b'G', lits(n / 2)));
            l.push((b'P', format!("{}/*", lits(n / 3))));
            l.push((b'G', format!("{}/*", lits(n - 1))));
            asks = vec![lits(n), lits(n - 1), lits(n + 1), lits(n / 2), lits(n / 2 + 1)];
        }
        // many parameters
        1 => {
            let ps = |n: usize| (0..n).map(|i| format!("/:p{}", i)).collect::<String>();
            l.push((b'G', ps(n)));
            l.push((b'M', ps(n / 2)));
            l.push((b'G', ps(n - 1) + &format!("/:p{}/*", n - 1)));
            l.push((b'P', ps(2)));
            asks = vec![lits(n), lits(n - 1), lits(n + 1), lits(2), lits(n + 9)];
        }
        // many siblings, some the beginning of others
        2 => {
            for i in 0..n {
                l.push((b'G', format!("/k{}", i)));
                if i % 10 == 3 {
                    l.push((b'M', format!("/k{}", i)));
                    l.push((b'P', format!("/k{}/x", i)));
                }
            }
            l.push((b'G', "/*".to_string()));
            asks = vec!["/k1".into(), "/k10".into(), format!("/k{}", n - 1), format!("/k{}", n), "/k3/x".into(), "/k99999".into()];
        }
        // many middlewares at one place
        3 => {
            l.push((b'G', "/a/b/c".into()));
            for i in 0..n {
                l.push((b'M', ["/", "/a", "/a/b", "/a/b/c", "/a/bc", "/b"][if i < n / 2 { 2 } else { i % 6 }].into()));
            }
            l.push((b'G', "/a/b/*".into()));
            l.push((b'P', "/a".into()));
            l.extend([(b'P', "/a/b/c".into()), (b'U', "/a/b/c".into()), (b'T', "/a/b/c".into()), (b'D', "/a/b/c".into())]);
            asks = vec!["/a/b/c".into(), "/a/b/d".into(), "/a".into(), "/a/b/c/d".into()];
        }
        // wildcards at every depth
        4 => {
            for i in 0..n {
                l.push((b'G', format!("{}/*", lits(i))));
            }
            l.push((b'P', lits(n)));
            l.push((b'M', format!("{}/*", lits(n / 2))));
            asks = vec![lits(n), lits(n / 2), lits(n + 20), format!("{}/x", lits(n / 2)), format!("{}/y/y/y/y", lits(n - 1))];
        }
        // every method at many places
        5 => {
            for i in 0..n {
                for m in MANY_METHODS {
                    if i % 5 != (*m as usize) % 5 {
                        l.push((*m, format!("/r/{}/:id", i)));
                    }
                }
            }
            l.push((b'T', "/r/*".into()));
            asks = vec!["/r/0/x".into(), format!("/r/{}/x", n - 1), format!("/r/{}/x", n), "/r/1".into()];
        }
        // siblings which begin with different characters
        7 => {
            let name = |i: usize| char::from_u32(0x4e00 + i as u32).unwrap();
            for i in 0..n {
                l.push((b'G', format!("/{}", name(i))));
                if i % 40 == 3 {
                    l.push((b'M', format!("/{}", name(i))));
                    l.push((b'D', format!("/{}/x", name(i))));
                }
            }
            for i in [0, n / 2, n - 1] {
                l.push((b'P', format!("/{}", name(i))));
                l.push((b'T', format!("/{}b/:p", name(i))));
            }
            asks = vec![format!("/{}", name(0)), format!("/{}", name(n - 1)), format!("/{}b/v", name(n / 2)), format!("/{}/x", name(3)), format!("/{}", name(n % 256))];
        }
        // names of any length, after a wildcard, on two levels
        8 => {
            let name = |i: usize| (b'a' + (i % 26) as u8) as char;
            let name = |i: usize| name(i).to_string().repeat(i * 5 % 9 + 1);
            for p in ["", "/i"] {
                l.push((b'G', format!("{}/*", p)));
                l.push((b'M', p.to_string()));
                for i in 0..n {
                    l.push((MANY_METHODS[(i % 2) * 3], format!("{}/{}", p, name(i))));
                    if i % 3 == 1 {
                        l.push((b'M', format!("{}/{}", p, name(i))));
                        l.push((b'P', format!("{}/{}/*", p, name(i))));
                    }
                }
            }
            asks = vec![format!("/{}", name(n - 1)), format!("/i/{}", name(n - 1)), format!("/{}", name(n / 2)), format!("/i/{}/x", name(1)), format!("/{}/x", name(n - 2)), "/i".to_string()];
        }
        // parameters of any length
        9 => {
            let v = |k: usize| "v".repeat(k);
            l.push((b'G', "/:a/x/:b".into()));
            l.push((b'G', "/:a/x".into()));
            l.push((b'G', "/:a/x/:b/:c/*".into()));
            l.push((b'P', "/:a/y/:b/:c".into()));
            asks = vec![format!("/{}/x/{}", v(n), v(1)), format!("/{}/x", v(n)), format!("/w/x/{}/{}/{}", v(n), v(n / 2), v(n)), format!("/{}/y/{}/{}", v(n / 2), v(n), v(3)), format!("/w/x/{}", v(n))];
        }
        // long names
        _ => {
            let long = "abcdefgh".repeat(n);
            l.push((b'G', format!("/{}", long)));
            l.push((b'G', format!("/{}i", long)));
            l.push((b'P', format!("/{}/:{}", long, long)));
            l.push((b'M', format!("/{}", long)));
            asks = vec![format!("/{}", long), format!("/{}i", long), format!("/{}/{}", long, long), format!("/{}", &long[1..])];
        }
    }
    (l, asks)
}

/// C01 C02 C04 C05 C07 C09. params: what is checked (1 handler, 2 parameters, 3 middlewares, 4 that they change no route, 5 that it
/// may be mounted, 6 that the order of registration makes no difference), kind, size, which request, 1 where one byte of it is another one
pub fn harness_large() {
    let (mode, n) = (param(0), param(2));
    let (lines, asks) = large(param(1), n);
    let mut m = Model::default();
    let (mut r, mut bare) = (Router::new(), Router::new());
    let prefix = if mode == 5 { "/:m/n" } else { "" };
    for (id, (k, p)) in lines.iter().enumerate() {
        let full = format!("{}{}", prefix, p);
        let pat = parse(&full);
        if *k == b'M' {
            r.use_service_to(p, Mark(id));
            m.mws.push((pat, id));
        } else {
            let method = MANY_METHODS.iter().position(|x| x == k).unwrap();
            add_route(&mut r, method, p, id);
            if mode == 4 {
                add_route(&mut bare, method, p, id);
            }
            m.routes.push((pat, method, id));
        }
    }
    if mode == 6 {
        for (id, (k, p)) in lines.iter().enumerate().rev() {
            match MANY_METHODS.iter().position(|x| x == k) {
                Some(method) => add_route(&mut bare, method, p, id),
                None => bare.use_service_to(p, Mark(id)),
            }
        }
    }
    if mode == 5 {
        // twice deep
        let (mut inner, mut outer) = (Router::new(), Router::new());
        inner.use_router("/n", r);
        outer.use_router("/:m", inner);
        r = outer;
    }
    let mut v = asks[param(3) % asks.len()].as_bytes().to_vec();
    if param(4) == 1 {
        let l = v.len();
        let i = [1.min(l - 1), 2.min(l - 1), l / 3, l / 2, l.saturating_sub(3), l - 2, l - 1][pick(7, 1)];
        let b = byte(0);
        assume(b < 0x80);
        if v[i] < 0x80 {
            v[i] = b;
        } else {
            v.push(b);
        }
    }
    if mode == 5 {
        v = [&b"/m/n"[..], &v].concat();
    }
    let path = text(v);
    let method = pick(5, 50);
    let pat = m.pattern(&path);
    let want = m.handler(&pat, method);
    let got = find(&r, &path, &methods(method));
    observe(want.map_or(999, |x| x));
    cover(want.is_some() as u32);
    check(got.is_some() == want.is_some(), 1);
    if mode == 4 {
        let b = find(&bare, &path, &methods(method));
        check(b.is_some() == got.is_some(), 6);
        if let (Some(a), Some(b)) = (&got, &b) {
            check(a.hit == b.hit, 7);
            check(same_params(&a.params, &b.params), 8);
        }
        return;
    }
    if mode == 6 {
        let b = find(&bare, &path, &methods(method));
        return same_but_order(got, b);
    }
    if let (Some(w), Some(pat), Some(got)) = (want, &pat, &got) {
        if mode == 1 || mode == 5 {
            check(got.hit == Some(w), 2);
        }
        if mode == 2 || mode == 5 {
            let ps = m.params(pat, &path);
            check(got.params.len() == ps.len(), 3);
            for (k, v) in ps {
                check(got.params.get(k).map(|x| x.as_bytes() == &v[..]).unwrap_or(false), 4);
            }
        }
        if mode == 3 || mode == 5 {
            check(got.trace == m.chain(pat), 5);
        }
    }
}

/// C05. params: routers, 1 inside of each other 2 beside each other, which request, 1 where one byte of it is another one.
/// Each has a middleware, a route and a wildcard.
pub fn harness_many_mounts() {
    let (n, how) = (param(0), param(1));
    let mut m = Model::default();
    let fill = |r: &mut Router, i: usize| {
        r.use_service(Mark(100 + i));
        r.get("/", handler(i));
        r.get("/z/:p", handler(200 + i));
        r.use_service_to("/z", Mark(300 + i));
    };
    let mut tell = |at: String, i: usize| {
        m.mws.push((parse(&at), 100 + i));
        m.routes.push((parse(&at), 0, i));
        m.routes.push((parse(&format!("{}/z/:p", at)), 0, 200 + i));
        m.mws.push((parse(&format!("{}/z", at)), 300 + i));
    };
    let mut r = Router::new();
    if how == 1 {
        for i in (0..n).rev() {
            fill(&mut r, i);
            tell("/in".repeat(i + 1), i);
            let mut outer = Router::new();
            outer.use_router("in", r);
            r = outer;
        }
    } else {
        for i in 0..n {
            let mut sub = Router::new();
            fill(&mut sub, i);
            r.use_router(&format!("/t{}", i), sub);
            tell(format!("/t{}", i), i);
        }
    }
    let last = if how == 1 { "/in".repeat(n) } else { format!("/t{}", n - 1) };
    let half = if how == 1 { "/in".repeat(n / 2) } else { format!("/t{}", n / 2) };
    let mut v = [last.clone(), format!("{}/z/v", last), half.clone(), format!("{}/z/v", half), format!("{}/in", last)][param(2)].as_bytes().to_vec();
    if param(3) == 1 {
        let l = v.len();
        let i = [1, 2, l / 2, l - 2, l - 1][pick(5, 1)];
        let b = byte(0);
        assume(b < 0x80);
        v[i] = b;
    }
    let path = text(v);
    let pat = m.pattern(&path);
    let want = m.handler(&pat, 0);
    let got = find(&r, &path, &Method::GET);
    observe(want.map_or(999, |x| x));
    cover(want.is_some() as u32);
    check(got.is_some() == want.is_some(), 1);
    if let (Some(w), Some(pat), Some(got)) = (want, &pat, &got) {
        check(got.hit == Some(w), 2);
        let ps = m.params(pat, &path);
        check(got.params.len() == ps.len(), 3);
        for (k, v) in ps {
            check(got.params.get(k).map(|x| x.as_bytes() == &v[..]).unwrap_or(false), 4);
        }
        check(got.trace == m.chain(pat), 5);
    }
}

/// C23. params: requests, connections. After that many requests the next one is answered as by an app that has just started.
pub fn harness_many_requests() {
    use super::life::{answer, sample, same, several, SHAPES};
    let (n, conns) = (param(0), param(1));
    let mut cs = connect(several(), conns);
    let step = [1, 5, 0][pick(3, 1)];
    let first = pick(SHAPES, 2);
    for i in 0..=n {
        let shape = if i == n { pick(SHAPES, 28) } else { (first + i * step) % SHAPES };
        let conn = if i == n { conns - 1 } else { i % conns };
        // arbitrary bytes in the last ones only
        let (m, u, b) = if i + 1 >= n { sample(shape, i as u32) } else { fixed(shape, i) };
        let u = text(u);
        let got = answer(call(&mut cs[conn], request(m.clone(), &u, Body::from(b.clone()))));
        if i == n {
            let mut fresh = connect(several(), 1).pop().unwrap();
            let want = answer(call(&mut fresh, request(m, &u, Body::from(b))));
            observe(got.0 as usize);
            observe_bytes(&got.2);
            cover(got.0 as u32);
            same(&got, &want, 1);
        }
    }
}
fn fixed(shape: usize, i: usize) -> (Method, Vec<u8>, Vec<u8>) {
    let s = format!("{}", i).into_bytes();
    let at = |p: &[u8]| [p, &s].concat();
    match shape {
        0 => (Method::GET, b"/a".to_vec(), vec![]),
        1 => (Method::POST, b"/a".to_vec(), s),
        2 => (Method::GET, at(b"/b/"), vec![]),
        3 => (Method::GET, at(b"/c/x/"), vec![]),
        4 => (Method::PUT, b"/a".to_vec(), vec![]),
        5 => (Method::DELETE, b"/a".to_vec(), s),
        6 => (Method::POST, at(b"/s/"), s),
        7 => (Method::GET, b"/s".to_vec(), vec![]),
        8 => (Method::PATCH, b"/s".to_vec(), at(b"a=")),
        9 => (Method::PATCH, b"/a".to_vec(), vec![]),
        10 => (Method::GET, at(b"/n"), vec![]),
        _ => (Method::GET, b"/a?x".to_vec(), s),
    }
}

/// Waits on the way in and out
struct Slow;
#[async_trait::async_trait]
impl Middleware for Slow {
    async fn handle<'a>(&'a self, ctx: Context, next: EndpointExecutor<'a>) -> ContextResult {
        wait_once().await;
        let r = next.next(ctx).await;
        wait_once().await;
        r
    }
}

/// C20. params: requests in flight, connections, 1 where all of them wait. Polled in turn with some arbitrary order: each is answered as by an app of its own.
pub fn harness_many_together() {
    use super::life::{answer, sample, same, several, SHAPES};
    let (n, conns) = (param(0), param(1));
    let app = || {
        let mut app = several();
        if param(2) == 1 {
            app.use_service(Slow);
        }
        app
    };
    let mut cs = connect(app(), conns);
    let odd = [0, n / 2, n - 1][pick(3, 1)];
    let shape = pick(SHAPES, 2);
    let reqs: Vec<(Method, String, Vec<u8>)> = (0..n)
        .map(|i| {
            let (m, u, b) = if i == odd { sample(shape, 0) } else { fixed(i * 5 % SHAPES, i) };
            (m, text(u), b)
        })
        .collect();
    let mut fs: Vec<Option<Pin<Box<dyn Future<Output = Result<obsidian::Response<Body>, hyper::Error>>>>>> = vec![];
    for (i, (m, u, b)) in reqs.iter().enumerate() {
        fs.push(Some(cs[i % conns](request(m.clone(), u, Body::from(b.clone())))));
    }
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    let stride = [1, n - 1][pick(2, 3)];
    let mut open = n;
    let mut i = odd;
    while open > 0 {
        i = (i + stride) % n;
        while fs[i].is_none() {
            i = (i + stride) % n;
        }
        if let std::task::Poll::Ready(r) = fs[i].as_mut().unwrap().as_mut().poll(&mut cx) {
            fs[i] = None;
            open -= 1;
            let got = match r {
                Ok(r) => answer(r),
                Err(_) => return check(false, 4),
            };
            let (m, u, b) = &reqs[i];
            let mut fresh = connect(app(), 1).pop().unwrap();
            let want = answer(call(&mut fresh, request(m.clone(), u, Body::from(b.clone()))));
            if i == odd {
                observe(got.0 as usize);
            }
            same(&got, &want, 1);
        }
    }
    cover(1);
}

/// C11. params: headers, how they are set (0 one after the other on the response, 1 all at once on the builder, 2 half and half).
/// Every one of them arrives.
pub fn harness_many_headers() {
    let (n, how) = (param(0), param(1));
    let names: Vec<&'static str> = (0..n).map(|i| leak(format!("x-h-{}", i).into_bytes())).collect();
    let vals: Vec<&'static str> = (0..n).map(|i| if i < 2 || i + 2 >= n { leak(word(1, 1)) } else { leak(format!("v{}", i).into_bytes()) }).collect();
    let pairs: Vec<(&'static str, &'static str)> = names.iter().copied().zip(vals.iter().copied()).collect();
    let given = pairs.clone();
    let mut app: App = App::new();
    app.get("/", move |ctx: Context| {
        let pairs = pairs.clone();
        async move {
            match how {
                0 => {
                    let mut r = Response::new("body");
                    for (k, v) in pairs {
                        r = r.with_header_str(k, v);
                    }
                    ctx.build(r).ok()
                }
                1 => ctx.build(Response::new("body")).with_headers_str(pairs).ok(),
                _ => {
                    let (a, b) = pairs.split_at(pairs.len() / 2);
                    ctx.build(Response::new("body").with_headers(a.iter().map(|(k, v)| (header::HeaderName::from_static(k), *v)).collect()))
                        .with_headers_str(b.to_vec())
                        .ok()
                }
            }
        }
    });
    let mut c = connect(app, 1).pop().unwrap();
    let r = call(&mut c, request(Method::GET, "/", Body::empty()));
    cover(1);
    check(r.status() == 200, 1);
    check(r.headers().len() == n, 2);
    for (k, v) in given {
        check(r.headers().get(k).map(|x| x.as_bytes() == v.as_bytes()).unwrap_or(false), 3);
    }
    let b = bytes_of(r.into_body());
    check(b == b"body", 4);
}

/// C12. params: headers, pairs of the query, bytes of the body, segments of the path. All of a large request arrives.
pub fn harness_large_request() {
    let (nh, nq, nb, ns) = (param(0), param(1), param(2), param(3));
    type Seen = (obsidian::HeaderMap, String, Vec<u8>);
    let seen: Arc<Mutex<Option<Seen>>> = Default::default();
    let s = seen.clone();
    let mut app: App<u64> = App::new();
    app.set_app_state(77);
    app.use_service(Slow);
    app.post("/*", move |mut ctx: Context| {
        let s = s.clone();
        async move {
            let b = hyper::body::to_bytes(ctx.take_body()).await.map(|b| b.to_vec()).unwrap_or_default();
            *s.lock().unwrap() = Some((ctx.headers().clone(), ctx.uri().to_string(), b));
            check(ctx.get::<u64>() == Some(&77), 6);
            check(*ctx.method() == Method::POST, 7);
            ctx.build(()).ok()
        }
    });
    let q = byte(1);
    assume((q >= b'a') & (q <= b'z'));
    let uri = format!("{}?a={}{}", "/seg".repeat(ns), q as char, "&b=cd".repeat(nq));
    let body = any(nb, 2);
    let mut req = request(Method::POST, &uri, Body::from(body.clone()));
    for i in 0..nh {
        let v = header::HeaderValue::from_bytes(&if i == nh / 2 { word(2, 3) } else { b"v".to_vec() }).unwrap();
        req.headers_mut().insert(header::HeaderName::from_bytes(format!("x-h-{}", i).as_bytes()).unwrap(), v);
    }
    let headers = req.headers().clone();
    let mut c = connect(app, 1).pop().unwrap();
    let (st, _) = reply(&mut c, req);
    check(st == 200, 1);
    let (h, u, b) = match seen.lock().unwrap().take() {
        Some(s) => s,
        None => return check(false, 2),
    };
    cover(1);
    check(h == headers, 3);
    check(u == uri, 4);
    check(b == body, 5);
}
