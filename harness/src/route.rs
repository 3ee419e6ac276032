//! Routing: real `Router`s built from a small program of registrations, against a
//! model that only knows the list of patterns.
use super::rt::*;
use super::util::*;
use obsidian::context::Context;
use obsidian::middleware::Middleware;
use obsidian::router::Router;
use obsidian::{Body, ContextResult, EndpointExecutor, Method, Request};
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;

// ---- patterns ------------------------------------------------------------------------

#[derive(Clone, PartialEq, Debug)]
pub enum Seg {
    Lit(Vec<u8>),
    Param(&'static str),
    Wild,
}
pub type Pat = Vec<Seg>;

pub fn pat_text(p: &[Seg]) -> String {
    let mut v = vec![];
    for s in p {
        v.push(b'/');
        match s {
            Seg::Lit(x) => v.extend_from_slice(x),
            Seg::Param(x) => {
                v.push(b':');
                v.extend_from_slice(x.as_bytes())
            }
            Seg::Wild => v.push(b'*'),
        }
    }
    if p.is_empty() {
        v.push(b'/');
    }
    text(v)
}

/// Shape of a pattern, one hex digit per segment, first segment in the lowest digit:
/// 1..=3 literal of that many arbitrary ASCII bytes, 4 one two-byte character,
/// 5 `:p`, 6 `:q`, e `:r`, 7 `*`, 8 `api`, 9 one ASCII byte and one two-byte character,
/// a `a`, b `ab`, c `abc`, d `b`, f two-byte character and one ASCII byte
pub fn shape(mut code: usize, tag: u32) -> Pat {
    let mut p = vec![];
    while code > 0 {
        p.push(match code % 16 {
            5 => Seg::Param("p"),
            6 => Seg::Param("q"),
            14 => Seg::Param("r"),
            7 => Seg::Wild,
            8 => Seg::Lit(b"api".to_vec()),
            10 => Seg::Lit(b"a".to_vec()),
            11 => Seg::Lit(b"ab".to_vec()),
            12 => Seg::Lit(b"abc".to_vec()),
            13 => Seg::Lit(b"b".to_vec()),
            4 => Seg::Lit(vec![0xc3, cont(tag)]),
            9 => Seg::Lit(vec![letter(tag, true), 0xc3, cont(tag)]),
            15 => Seg::Lit(vec![0xc3, cont(tag), letter(tag, false)]),
            n => Seg::Lit((0..n).map(|i| letter(tag, i == 0)).collect()),
        });
        code /= 16;
    }
    p
}
/// A continuation byte
fn cont(tag: u32) -> u8 {
    let b = byte(tag);
    assume((b >= 0x80) & (b < 0xc0));
    b
}
/// A byte of a literal segment
fn letter(tag: u32, first: bool) -> u8 {
    let b = byte(tag);
    assume((b < 0x80) & (b != b'/') & (b != b'*') & !(first & (b == b':')));
    b
}

/// A request path, one hex digit per symbol, first symbol in the lowest digit:
/// 1 any ASCII byte, 2 a two-byte character, 3 `/`, 4 any ASCII byte but `/`,
/// 5 a three-byte character, 6 a letter or `/`, 7 a letter, 9 a decimal digit,
/// a `a`, b `b`, c `c`, 8 `api`, d `.`, e `%`, f `\`
pub fn path(mut code: usize) -> String {
    let mut v = vec![];
    while code > 0 {
        match code % 16 {
            1 => {
                let b = byte(0);
                assume(b < 0x80);
                v.push(b)
            }
            2 => {
                v.push(0xc3);
                v.push(cont(0))
            }
            3 => v.push(b'/'),
            4 => {
                let b = byte(0);
                assume((b < 0x80) & (b != b'/'));
                v.push(b)
            }
            5 => {
                v.push(0xe2);
                v.push(cont(0));
                v.push(cont(0))
            }
            k @ (6 | 7 | 9) => {
                let b = byte(0);
                let l = b | 0x20;
                assume(if k == 9 { (b >= b'0') & (b <= b'9') } else { ((l >= b'a') & (l <= b'z')) | ((k == 6) & (b == b'/')) });
                v.push(b)
            }
            8 => v.extend_from_slice(b"api"),
            13 => v.push(b'.'),
            14 => v.push(b'%'),
            15 => v.push(b'\\'),
            n => v.push(b'a' + n as u8 - 10),
        }
        code /= 16;
    }
    text(v)
}

pub fn segments(path: &[u8]) -> Vec<&[u8]> {
    let mut v = vec![];
    let mut start = 0;
    for i in 0..=path.len() {
        if i == path.len() || path[i] == b'/' {
            if i > start {
                v.push(&path[start..i]);
            }
            start = i + 1;
        }
    }
    v
}

// ---- the model -----------------------------------------------------------------------

/// The documented selection: at every position a literal segment is preferred, a
/// parameter takes any one segment, a trailing wildcard takes the rest; a wildcard
/// directly below a literal segment also takes the empty rest.
pub fn select(pats: &[Pat], segs: &[&[u8]]) -> Option<usize> {
    let all: Vec<usize> = (0..pats.len()).collect();
    select_from(pats, &all, 0, segs)
}
fn select_from(pats: &[Pat], cands: &[usize], d: usize, segs: &[&[u8]]) -> Option<usize> {
    let wild = || cands.iter().copied().find(|c| pats[*c].len() == d + 1 && pats[*c][d] == Seg::Wild);
    if segs.is_empty() {
        if let Some(c) = cands.iter().copied().find(|c| pats[*c].len() == d) {
            return Some(c);
        }
        let below_literal = d > 0 && !cands.is_empty() && matches!(pats[cands[0]][d - 1], Seg::Lit(_));
        return if below_literal { wild() } else { None };
    }
    let lits: Vec<usize> = cands.iter().copied().filter(|c| matches!(pats[*c].get(d), Some(Seg::Lit(x)) if x[..] == *segs[0])).collect();
    if !lits.is_empty() {
        if let Some(r) = select_from(pats, &lits, d + 1, &segs[1..]) {
            return Some(r);
        }
    }
    let params: Vec<usize> = cands.iter().copied().filter(|c| matches!(pats[*c].get(d), Some(Seg::Param(_)))).collect();
    if !params.is_empty() {
        if let Some(r) = select_from(pats, &params, d + 1, &segs[1..]) {
            return Some(r);
        }
    }
    wild()
}

/// Two patterns cannot live in one table: they agree up to a position where one has
/// a parameter and the other anything else than the same parameter
fn ambiguous(a: &[Seg], b: &[Seg]) -> bool {
    for (x, y) in a.iter().zip(b.iter()) {
        if x == y {
            continue;
        }
        return matches!(x, Seg::Param(_)) || matches!(y, Seg::Param(_));
    }
    false
}
fn malformed(p: &[Seg]) -> bool {
    p.iter().enumerate().any(|(i, s)| *s == Seg::Wild && i + 1 != p.len())
}

#[derive(Default)]
pub struct Model {
    /// every path something was registered at
    pub nodes: Vec<Pat>,
    /// pattern, method, handler id
    pub routes: Vec<(Pat, usize, usize)>,
    pub mws: Vec<(Pat, usize)>,
}

#[derive(Clone)]
pub struct Op {
    kind: usize,
    pat: Pat,
    id: usize,
}
pub const MW: usize = 10;
pub const MW_HERE: usize = 11;
pub const MOUNT: usize = 20;
pub const END: usize = 21;

/// params from `at`: number of operations, then kind and shape of each.
/// kind 0..=4 route for GET POST PUT PATCH DELETE, 10 middleware at a path,
/// 11 middleware here, 20 start of a mounted router, 21 its end
pub fn program(at: u32) -> Vec<Op> {
    let k = param(at) as u32;
    (0..k)
        .map(|i| Op { kind: param(at + 1 + 2 * i), pat: shape(param(at + 2 + 2 * i), 1 + i), id: i as usize })
        .collect()
}

fn find_end(ops: &[Op], i: usize) -> usize {
    let mut d = 0;
    for (j, op) in ops.iter().enumerate().skip(i) {
        match op.kind {
            MOUNT => d += 1,
            END => {
                d -= 1;
                if d == 0 {
                    return j;
                }
            }
            _ => {}
        }
    }
    ops.len()
}

/// None: the program has to be rejected
pub fn model(ops: &[Op]) -> Option<Model> {
    let mut m = Model::default();
    let mut i = 0;
    while i < ops.len() {
        let op = &ops[i];
        let p = if op.kind == MW_HERE { vec![] } else { op.pat.clone() };
        if malformed(&p) || m.nodes.iter().any(|q| ambiguous(&p, q)) {
            return None;
        }
        match op.kind {
            MW | MW_HERE => m.mws.push((p.clone(), op.id)),
            MOUNT => {
                let e = find_end(ops, i);
                let sub = model(&ops[i + 1..e])?;
                i = e;
                // nothing may be there already; at "/" middlewares may
                let taken = if p.is_empty() {
                    m.nodes.iter().any(|q| !q.is_empty()) || !m.routes.is_empty()
                } else {
                    m.nodes.iter().any(|q| q.len() >= p.len() && q[..p.len()] == p[..])
                };
                if taken {
                    return None;
                }
                let at = |q: &Pat| [p.clone(), q.clone()].concat();
                m.nodes.extend(sub.nodes.iter().map(at));
                m.routes.extend(sub.routes.iter().map(|(q, x, id)| (at(q), *x, *id)));
                m.mws.extend(sub.mws.iter().map(|(q, id)| (at(q), *id)));
            }
            method => {
                if m.routes.iter().any(|(q, x, _)| *q == p && *x == method) {
                    return None;
                }
                m.routes.push((p.clone(), method, op.id));
            }
        }
        m.nodes.push(p);
        i += 1;
    }
    Some(m)
}

impl Model {
    /// the pattern the path is routed to
    pub fn pattern(&self, path: &str) -> Option<Pat> {
        let pats: Vec<Pat> = self.routes.iter().map(|r| r.0.clone()).collect();
        select(&pats, &segments(path.as_bytes())).map(|i| pats[i].clone())
    }
    pub fn handler(&self, p: &Option<Pat>, method: usize) -> Option<usize> {
        let p = p.as_ref()?;
        self.routes.iter().find(|r| r.1 == method && r.0 == *p).map(|r| r.2)
    }
    pub fn params(&self, p: &[Seg], path: &str) -> Vec<(&'static str, Vec<u8>)> {
        let segs = segments(path.as_bytes());
        p.iter()
            .enumerate()
            .filter_map(|(i, s)| match s {
                Seg::Param(n) => Some((*n, segs[i].to_vec())),
                _ => None,
            })
            .collect()
    }
    /// middlewares registered at a prefix of the pattern, outermost first
    pub fn chain(&self, p: &[Seg]) -> Vec<usize> {
        let mut v = vec![];
        for d in 0..=p.len() {
            for (q, id) in &self.mws {
                if q.len() == d && q[..] == p[..d] {
                    v.push(*id);
                }
            }
        }
        v
    }
}

// ---- the real router -----------------------------------------------------------------

pub struct Hit(pub usize);
#[derive(Default, Clone, PartialEq)]
pub struct Trace(pub Vec<usize>);

pub fn handler(id: usize) -> impl Fn(Context) -> Pin<Box<dyn Future<Output = ContextResult> + Send>> + Send + Sync + 'static {
    move |mut ctx: Context| {
        ctx.add(Hit(id));
        Box::pin(async move { Ok(ctx) })
    }
}
pub struct Mark(pub usize);
#[async_trait::async_trait]
impl Middleware for Mark {
    async fn handle<'a>(&'a self, mut ctx: Context, next: EndpointExecutor<'a>) -> ContextResult {
        if ctx.get::<Trace>().is_none() {
            ctx.add(Trace::default());
        }
        if let Some(t) = ctx.get_mut::<Trace>() {
            t.0.push(self.0);
        }
        next.next(ctx).await
    }
}

pub fn methods(i: usize) -> Method {
    match i {
        0 => Method::GET,
        1 => Method::POST,
        2 => Method::PUT,
        3 => Method::PATCH,
        4 => Method::DELETE,
        5 => Method::HEAD,
        6 => Method::OPTIONS,
        7 => Method::TRACE,
        8 => Method::from_bytes(b"PURGE").unwrap(),
        _ => Method::CONNECT,
    }
}
pub const METHODS: usize = 10;

pub fn add_route(r: &mut Router, m: usize, p: &str, id: usize) {
    match m {
        0 => r.get(p, handler(id)),
        1 => r.post(p, handler(id)),
        2 => r.put(p, handler(id)),
        3 => r.patch(p, handler(id)),
        _ => r.delete(p, handler(id)),
    }
}

#[derive(Clone, Copy, PartialEq)]
pub struct Style {
    /// mounted routers become prefixes
    pub flat: bool,
    /// without middlewares
    pub bare: bool,
    /// last registration first
    pub reverse: bool,
}
pub const PLAIN: Style = Style { flat: false, bare: false, reverse: false };

pub fn build(ops: &[Op], s: Style) -> Router {
    let mut r = Router::new();
    build_into(&mut r, ops, s, &[]);
    r
}
fn build_into(r: &mut Router, ops: &[Op], s: Style, prefix: &[Seg]) {
    // ranges of the operations on this level
    let mut items = vec![];
    let mut i = 0;
    while i < ops.len() {
        let e = if ops[i].kind == MOUNT { find_end(ops, i) } else { i };
        items.push((i, e));
        i = e + 1;
    }
    if s.reverse {
        items.reverse();
        // but the middlewares of one place in their order
        let place = |i: usize| if ops[i].kind == MW_HERE { vec![] } else { ops[i].pat.clone() };
        let mws: Vec<usize> = (0..items.len()).filter(|j| matches!(ops[items[*j].0].kind, MW | MW_HERE)).collect();
        for (n, j) in mws.iter().enumerate() {
            for k in &mws[n + 1..] {
                if items[*j].0 > items[*k].0 && place(items[*j].0) == place(items[*k].0) {
                    items.swap(*j, *k);
                }
            }
        }
    }
    for (i, e) in items {
        let op = &ops[i];
        let p = pat_text(&[prefix, &op.pat[..]].concat());
        match op.kind {
            MW | MW_HERE if s.bare => {}
            MW_HERE if prefix.is_empty() => r.use_service(Mark(op.id)),
            MW_HERE => r.use_service_to(&pat_text(prefix), Mark(op.id)),
            MW => r.use_service_to(&p, Mark(op.id)),
            MOUNT if s.flat => build_into(r, &ops[i + 1..e], s, &[prefix, &op.pat[..]].concat()),
            MOUNT => {
                let sub = build(&ops[i + 1..e], s);
                r.use_router(&p, sub)
            }
            m => add_route(r, m, &p, op.id),
        }
    }
}

pub struct Found {
    pub hit: Option<usize>,
    pub params: HashMap<String, String>,
    pub trace: Vec<usize>,
}
/// Route, then run the chain
pub fn find(r: &Router, path: &str, m: &Method) -> Option<Found> {
    let found = r.search_route(path)?;
    let params = found.get_params();
    let route = found.get_route(m)?;
    let ctx = Context::new(Request::new(Body::empty()), params.clone());
    match block_on(EndpointExecutor::new(&route.handler, found.get_middlewares()).next(ctx)) {
        Ok(ctx) => Some(Found {
            hit: ctx.get::<Hit>().map(|h| h.0),
            params,
            trace: ctx.get::<Trace>().map(|t| t.0.clone()).unwrap_or_default(),
        }),
        Err(_) => Some(Found { hit: None, params, trace: vec![] }),
    }
}
pub fn same_params(a: &HashMap<String, String>, b: &HashMap<String, String>) -> bool {
    a.len() == b.len() && a.iter().all(|(k, v)| b.get(k) == Some(v))
}
/// The same, but for the order of middlewares
pub fn same_but_order(a: Option<Found>, b: Option<Found>) {
    check(a.is_some() == b.is_some(), 9);
    if let (Some(mut a), Some(mut b)) = (a, b) {
        check(a.hit == b.hit, 10);
        check(same_params(&a.params, &b.params), 11);
        a.trace.sort_unstable();
        b.trace.sort_unstable();
        check(a.trace == b.trace, 12);
    }
}
fn same(a: &Option<Found>, b: &Option<Found>, id: u32) {
    check(a.is_some() == b.is_some(), id);
    if let (Some(a), Some(b)) = (a, b) {
        check(a.hit == b.hit, id + 1);
        check(same_params(&a.params, &b.params), id + 2);
        check(a.trace == b.trace, id + 3);
    }
}

// ---- the real app --------------------------------------------------------------------

/// What the endpoint of an app saw last
static SEEN: std::sync::Mutex<Option<(usize, Vec<(&'static str, String)>, Vec<usize>)>> = std::sync::Mutex::new(None);

fn recording(id: usize) -> impl Fn(Context) -> Pin<Box<dyn Future<Output = ContextResult> + Send>> + Send + Sync + 'static {
    move |ctx: Context| {
        let ps = ["p", "q", "r"].into_iter().filter_map(|n| ctx.param::<String>(n).ok().map(|v| (n, v))).collect();
        let trace = ctx.get::<Trace>().map(|t| t.0.clone()).unwrap_or_default();
        *SEEN.lock().unwrap() = Some((id, ps, trace));
        Box::pin(async move { ctx.build(obsidian::StatusCode::ACCEPTED).ok() })
    }
}
fn build_app(ops: &[Op]) -> obsidian::App {
    let mut app: obsidian::App = obsidian::App::new();
    let mut i = 0;
    while i < ops.len() {
        let op = &ops[i];
        let p = pat_text(&op.pat);
        match op.kind {
            MW_HERE => app.use_service(Mark(op.id)),
            MW => app.use_service_to(&p, Mark(op.id)),
            MOUNT => {
                let e = find_end(ops, i);
                let sub = &ops[i + 1..e];
                if i % 2 == 0 {
                    let mut r = Router::new();
                    build_level(&mut r, sub);
                    app.use_router(&p, r)
                } else {
                    app.scope(&p[1..], |r| build_level(r, sub))
                }
                i = e;
            }
            0 => app.get(&p, recording(op.id)),
            1 => app.post(&p, recording(op.id)),
            2 => app.put(&p, recording(op.id)),
            3 => app.patch(&p, recording(op.id)),
            _ => app.delete(&p, recording(op.id)),
        }
        i += 1;
    }
    app
}
fn build_level(r: &mut Router, ops: &[Op]) {
    let mut i = 0;
    while i < ops.len() {
        let op = &ops[i];
        let p = pat_text(&op.pat);
        match op.kind {
            MW_HERE => r.use_service(Mark(op.id)),
            MW => r.use_service_to(&p, Mark(op.id)),
            MOUNT => {
                let e = find_end(ops, i);
                let mut sub = Router::new();
                build_level(&mut sub, &ops[i + 1..e]);
                r.use_router(&p, sub);
                i = e;
            }
            0 => r.get(&p, recording(op.id)),
            1 => r.post(&p, recording(op.id)),
            2 => r.put(&p, recording(op.id)),
            3 => r.patch(&p, recording(op.id)),
            _ => r.delete(&p, recording(op.id)),
        }
        i += 1;
    }
}

/// Methods near to those of routes, and others
const ODD: [&str; 44] = [
    "get", "Get", "gET", "GEt", "post", "Post", "put", "Put", "patch", "Patch", "delete", "Delete", "head", "options", "GE", "GETS", "GET-", "G", "XGET", "POS", "POSTS", "PU", "PUTS", "PATC", "PATCHES", "DEL", "DELET", "DELETED", "REMOVE",
    "UPDATE", "CREATE", "QUERY", "SEARCH", "PROPFIND", "PROPPATCH", "MKCOL", "COPY", "MOVE", "LOCK", "LINK", "REPORT", "M-SEARCH", "*", "_",
];

/// Parts of paths that mean something to other servers
const KNOWN: [&str; 48] = [
    ".json", ".html", ".htm", ".php", ".xml", ".txt", ".gz", ";jsessionid=1", ";v=1", ";", "%20", "%2F", "%2f", "%2e%2e", "%00", "%c3%a9", "%", "%zz", "~", "+", ".", "..", "...", "./", "../", "index.html",
    "index", "favicon.ico", "robots.txt", ".well-known", "null", "undefined", "health", "api", "v1", "@", "$1", "a=b&c=d", "a,b", "(a)", ":id", "*", "**", "0", "-1", "00", "1.0", "http://a/b",
];

/// C01 C02 C07. As `harness_route`, for a request to a listening app. Two more params: other headers and query of the request; 1 to 4 for one
/// of the known words behind the path, before it, as a segment behind it, as segments around it
pub fn harness_serve_route() {
    let mode = param(0);
    let ops = program(3);
    let m = match model(&ops) {
        Some(m) => m,
        None => return assume(false),
    };
    let rest = path(param(1));
    let at = param(5 + 2 * ops.len() as u32);
    // a word that servers may know, at one end of it
    let word = if at == 0 { "" } else { KNOWN[pick(KNOWN.len(), 51)] };
    let uri = match at {
        0 => format!("/{}", rest),
        1 => format!("/{}{}", rest, word),
        2 => format!("/{}{}", word, rest),
        3 => format!("/{}/{}", rest, word),
        _ => format!("/{}/{}/{}", word, rest, word),
    };
    let method = match param(2) {
        9 => pick(METHODS - 1, 50),
        // one that is none of those routes have
        10 => 100 + pick(ODD.len(), 50),
        m => m,
    };
    let name = if method < 100 { methods(method) } else { Method::from_bytes(ODD[method - 100].as_bytes()).unwrap() };
    let other = param(4 + 2 * ops.len() as u32);
    let req = super::serve::busy(super::serve::request(name, &uri, Body::empty()), other);
    // the path ends where the query begins
    let path = uri.split(|c| c == '?' || c == '#').next().unwrap().to_string();
    let pat = m.pattern(&path);
    let want = m.handler(&pat, method);
    *SEEN.lock().unwrap() = None;
    let mut c = super::serve::connect(build_app(&ops), 1).pop().unwrap();
    let res = super::serve::call(&mut c, req);
    let seen = SEEN.lock().unwrap().take();
    observe(want.map_or(99, |x| x));
    cover(want.map_or(0, |x| x as u32 + 1));
    if mode == 1 {
        check(seen.is_some() == want.is_some(), 1);
        check(res.status().as_u16() == if want.is_some() { 202 } else { 404 }, 2);
        check(seen.as_ref().map(|s| s.0) == want, 3);
    }
    if let (Some(_), Some(pat), Some((_, ps, trace))) = (want, &pat, seen) {
        if mode == 2 {
            let w = m.params(pat, &path);
            check(ps.len() == w.len(), 4);
            for (k, v) in w {
                observe_bytes(&v);
                check(ps.iter().any(|x| x.0 == k && x.1.as_bytes() == &v[..]), 5);
            }
        }
        if mode == 3 {
            let chain = m.chain(pat);
            observe_list(&chain);
            check(trace == chain, 6);
        }
    }
}

/// C23. params: first path, path, program, segments in front of all of it. The methods are arbitrary. What a request gets is not
/// changed by the one before it.
pub fn harness_again() {
    let ops = program(2);
    let m = match model(&ops) {
        Some(m) => m,
        None => return assume(false),
    };
    // all of it below a long path
    let far = "/abcdefgh".repeat(param(3 + 2 * ops.len() as u32));
    let (m, app) = if far.is_empty() {
        (m, build_app(&ops))
    } else {
        let at: Pat = segments(far.as_bytes()).into_iter().map(|s| Seg::Lit(s.to_vec())).collect();
        let put = |q: &Pat| [at.clone(), q.clone()].concat();
        let m = Model {
            nodes: vec![],
            routes: m.routes.iter().map(|(q, x, id)| (put(q), *x, *id)).collect(),
            mws: m.mws.iter().map(|(q, id)| (put(q), *id)).collect(),
        };
        let (mut app, mut r): (obsidian::App, Router) = (obsidian::App::new(), Router::new());
        build_level(&mut r, &ops);
        app.use_router(&far, r);
        (m, app)
    };
    let mut cs = super::serve::connect(app, 2);
    for i in 0..2 {
        let uri = text([far.as_bytes(), b"/", path(param(i)).as_bytes()].concat());
        let method = pick(3, 50);
        let req = super::serve::request(methods(method), &uri, Body::empty());
        let path = uri.split(|c| c == '?' || c == '#').next().unwrap().to_string();
        let pat = m.pattern(&path);
        let want = m.handler(&pat, method);
        *SEEN.lock().unwrap() = None;
        let res = super::serve::call(&mut cs[if i == 1 { pick(2, 51) } else { 0 }], req);
        let seen = SEEN.lock().unwrap().take();
        observe(want.map_or(99, |x| x));
        cover(100 * i + want.map_or(0, |x| x as u32 + 1));
        check(res.status().as_u16() == if want.is_some() { 202 } else { 404 }, 1);
        check(seen.as_ref().map(|s| s.0) == want, 2);
        if let (Some(_), Some(pat), Some((_, ps, trace))) = (want, &pat, seen) {
            let w = m.params(pat, &path);
            check(ps.len() == w.len(), 3);
            for (k, v) in w {
                check(ps.iter().any(|x| x.0 == k && x.1.as_bytes() == &v[..]), 4);
            }
            check(trace == m.chain(pat), 5);
        }
    }
}

// ---- harnesses -----------------------------------------------------------------------

/// C01 C02 C07. params: what is checked (1 handler, 2 parameters, 3 middleware chain),
/// path, request method (9: any), program
pub fn harness_route() {
    let mode = param(0);
    let ops = program(3);
    let m = match model(&ops) {
        Some(m) => m,
        None => return assume(false),
    };
    let r = build(&ops, PLAIN);
    let path = path(param(1));
    let method = if param(2) == 9 { pick(METHODS, 50) } else { param(2) };
    let pat = m.pattern(&path);
    let want = m.handler(&pat, method);
    let got = find(&r, &path, &methods(method));
    observe(want.map_or(99, |x| x));
    cover(want.map_or(0, |x| x as u32 + 1));
    if mode == 1 {
        check(got.is_some() == want.is_some(), 1);
        if let (Some(w), Some(g)) = (want, &got) {
            check(g.hit == Some(w), 2);
        }
    }
    if let (Some(_), Some(pat), Some(got)) = (want, &pat, &got) {
        if mode == 2 {
            let ps = m.params(pat, &path);
            check(got.params.len() == ps.len(), 3);
            for (k, v) in ps {
                observe_bytes(&v);
                check(got.params.get(k).map(|x| x.as_bytes() == &v[..]).unwrap_or(false), 4);
            }
        }
        if mode == 3 {
            let chain = m.chain(pat);
            observe_list(&chain);
            check(got.trace == chain, 5);
        }
    }
}
fn observe_list(v: &[usize]) {
    observe(v.len());
    v.iter().for_each(|x| observe(*x));
}

/// C03. params: program. Everything but the last operation is acceptable; the last one
/// is refused exactly when the model says so.
pub fn harness_accept() {
    let ops = program(0);
    let last = match ops.last() {
        Some(l) if l.kind == END => (0..ops.len()).rev().find(|i| ops[*i].kind == MOUNT && find_end(&ops, *i) == ops.len() - 1).unwrap(),
        _ => ops.len() - 1,
    };
    assume(model(&ops[..last]).is_some());
    if ops[last].kind == MOUNT {
        assume(model(&ops[last + 1..ops.len() - 1]).is_some());
    }
    let ok = model(&ops).is_some();
    cover(ok as u32);
    observe(ok as usize);
    let mut r = build(&ops[..last], PLAIN);
    let subs = if ops[last].kind == MOUNT { Some(build(&ops[last + 1..ops.len() - 1], PLAIN)) } else { None };
    expect_panic(!ok);
    let op = &ops[last];
    let p = pat_text(&op.pat);
    // the same in other spellings
    let p = match pick(4, 49) {
        0 => p,
        1 => p[1..].to_string(),
        2 => p + "/",
        _ => p.replace('/', "//"),
    };
    match op.kind {
        MW => r.use_service_to(&p, Mark(op.id)),
        MW_HERE => r.use_service(Mark(op.id)),
        MOUNT => r.use_router(&p, subs.unwrap()),
        m => add_route(&mut r, m, &p, op.id),
    }
    check(ok, 1);
}

/// C03. params: number of bytes, what is registered (0 route, 10 middleware, 20 mount).
/// Any pattern text: refused exactly when a `*` is not a whole last segment.
pub fn harness_pattern_text() {
    let mut v = vec![];
    for _ in 0..param(0) {
        let b = byte(1);
        assume(b < 0x80);
        v.push(b);
    }
    let segs = segments(&v);
    let ok = segs.iter().enumerate().all(|(i, s)| !s.contains(&b'*') || (s.len() == 1 && i + 1 == segs.len()));
    cover(ok as u32);
    observe(ok as usize);
    let t = text(v.clone());
    let mut r = Router::new();
    expect_panic(!ok);
    match param(1) {
        0 => r.post(&t, handler(7)),
        10 => {
            r.use_service_to(&t, Mark(7));
        }
        _ => {
            let mut sub = Router::new();
            sub.post("/", handler(7));
            r.use_router(&t, sub)
        }
    }
    check(ok, 1);
    if param(1) != 10 {
        // and then found under its own text, except where that text is a wildcard at "/"
        let own = find(&r, &t, &Method::POST);
        check(own.map(|f| f.hit) == Some(Some(7)), 2);
        check(find(&r, &t, &Method::GET).is_none(), 3);
    }
}

/// The pattern a text stands for
fn pattern_of(t: &[u8]) -> Pat {
    segments(t)
        .into_iter()
        .map(|s| match s[0] {
            b'*' => Seg::Wild,
            b':' => Seg::Param(super::serve::leak(s[1..].to_vec())),
            _ => Seg::Lit(s.to_vec()),
        })
        .collect()
}
/// Whether the registration is refused after those of the model
pub fn refused(m: &Model, kind: usize, t: &[u8]) -> bool {
    let segs = segments(t);
    if segs.iter().enumerate().any(|(i, s)| s.contains(&b'*') && (s.len() > 1 || i + 1 != segs.len())) {
        return true;
    }
    let p = pattern_of(t);
    if m.nodes.iter().any(|q| ambiguous(&p, q)) {
        return true;
    }
    match kind {
        MW => false,
        MOUNT if p.is_empty() => m.nodes.iter().any(|q| !q.is_empty()) || !m.routes.is_empty(),
        MOUNT => m.nodes.iter().any(|q| q.len() >= p.len() && q[..p.len()] == p[..]),
        x => m.routes.iter().any(|(q, y, _)| *q == p && *y == x),
    }
}
/// Registers, and in the model as well; a mounted router has a POST route at its root
pub fn register(r: &mut Router, m: &mut Model, kind: usize, t: &str, id: usize) {
    let p = pattern_of(t.as_bytes());
    match kind {
        MW => r.use_service_to(t, Mark(id)),
        MOUNT => {
            let mut sub = Router::new();
            sub.post("/", recording(id));
            r.use_router(t, sub)
        }
        x => add_route(r, x, t, id),
    }
    match kind {
        MW => m.mws.push((p.clone(), id)),
        MOUNT => m.routes.push((p.clone(), 1, id)),
        x => m.routes.push((p.clone(), x, id)),
    }
    m.nodes.push(p)
}
/// No parameter has the name of another one
pub fn distinct(t: &[u8]) -> bool {
    let p = pattern_of(t);
    p.iter().enumerate().all(|(i, s)| !matches!(s, Seg::Param(_)) || !p[..i].contains(s))
}
const FRONT: [&str; 6] = ["", "/:", "/a/:", "/ab", "/:a", "/:a/"];

/// C03. params: twice what is registered (method 0-4, middleware 10, mount 20), what its text begins with, and how many bytes follow.
/// Any two texts: the second one is refused exactly when it should be.
pub fn harness_pair_text() {
    let text_of = |i: u32| {
        let mut v = FRONT[param(i + 1)].as_bytes().to_vec();
        for _ in 0..param(i + 2) {
            let b = byte(i);
            assume(b < 0x80);
            v.push(b);
        }
        v
    };
    let (a, b) = (text_of(0), text_of(3));
    let (mut r, mut m) = (Router::new(), Model::default());
    assume(!refused(&m, param(0), &a) && distinct(&a) && distinct(&b));
    // a mount ends in a parameter or a literal
    let whole = |k: usize, t: &[u8]| k != MOUNT || !t.contains(&b'*');
    assume(whole(param(0), &a) && whole(param(3), &b));
    let (a, b) = (text(a), text(b));
    register(&mut r, &mut m, param(0), &a, 1);
    let bad = refused(&m, param(3), b.as_bytes());
    cover(bad as u32);
    observe(bad as usize);
    expect_panic(bad);
    register(&mut r, &mut m, param(3), &b, 2);
    check(!bad, 1);
}

/// C04. params: path, program. The order of registration does not matter.
pub fn harness_order() {
    let ops = program(1);
    let fwd = model(&ops).is_some();
    assume(fwd);
    let a = build(&ops, PLAIN);
    let b = build(&ops, Style { reverse: true, ..PLAIN });
    let path = path(param(0));
    let (x, y) = (find(&a, &path, &Method::GET), find(&b, &path, &Method::GET));
    cover(x.is_some() as u32);
    observe(x.as_ref().map_or(99, |f| f.hit.unwrap_or(98)));
    same(&x, &y, 1);
}

/// C05. params: path, program. Mounting equals registering under the prefix.
pub fn harness_mount() {
    let ops = program(1);
    assume(model(&ops).is_some());
    let a = build(&ops, PLAIN);
    let b = build(&ops, Style { flat: true, ..PLAIN });
    let path = path(param(0));
    let (x, y) = (find(&a, &path, &Method::GET), find(&b, &path, &Method::GET));
    cover(x.is_some() as u32);
    observe(x.as_ref().map_or(99, |f| f.hit.unwrap_or(98)));
    if let Some(f) = &x {
        observe_list(&f.trace);
    }
    same(&x, &y, 1);
}

/// C05. params: bytes of the name, path. A scope of any name equals registering under that name.
pub fn harness_scope() {
    let mut name = vec![];
    for _ in 0..param(0) {
        let b = byte(1);
        assume(((b >= b'a') & (b <= b'z')) | ((b >= b'A') & (b <= b'Z')) | (b == b'/') | (b == b'.') | (b == b'-'));
        name.push(b);
    }
    let name = text(name);
    let mut a: obsidian::App = obsidian::App::new();
    a.scope(&name, |r| {
        r.use_service(Mark(1));
        r.get("/", recording(2));
        r.get("/x", recording(3));
        r.get("/y/:p", recording(4));
        r.use_service_to("/y", Mark(5));
    });
    let mut b: obsidian::App = obsidian::App::new();
    let at = |p: &str| format!("{}{}", name, p);
    b.use_service_to(&at("/"), Mark(1));
    b.get(&at("/"), recording(2));
    b.get(&at("/x"), recording(3));
    b.get(&at("/y/:p"), recording(4));
    b.use_service_to(&at("/y"), Mark(5));
    // below its name, or anywhere
    let below = pick(2, 2) == 1;
    let tail = path(param(1));
    let uri = if below { format!("/{}/{}", name, tail) } else { format!("/{}", tail) };
    let mut ask = |app: obsidian::App| {
        *SEEN.lock().unwrap() = None;
        let mut c = super::serve::connect(app, 1).pop().unwrap();
        let res = super::serve::call(&mut c, super::serve::request(Method::GET, &uri, Body::empty()));
        (res.status().as_u16(), SEEN.lock().unwrap().take())
    };
    let (x, y) = (ask(a), ask(b));
    observe(x.0 as usize);
    cover(x.0 as u32);
    check(x.0 == y.0, 1);
    check(x.1 == y.1, 2);
    // the routes are where they were asked for
    if below && tail.is_empty() {
        check(x.1.map(|s| (s.0, s.2)) == Some((2, vec![1])), 3);
    }
}

/// C06. params: path, program, slashes put into the path. Empty segments make no difference.
pub fn harness_slashes() {
    let ops = program(1);
    assume(model(&ops).is_some());
    let r = build(&ops, PLAIN);
    let mut path = path(param(0));
    let n = param(2 + 2 * ops.len() as u32);
    if n > 0 {
        let at = pick(path.len() + 1, 51);
        path.insert_str(at, &"/".repeat(n));
    }
    let mut canon = vec![];
    for s in segments(path.as_bytes()) {
        canon.push(b'/');
        canon.extend_from_slice(s);
    }
    let canon = text(canon);
    let (x, y) = (find(&r, &path, &Method::GET), find(&r, &canon, &Method::GET));
    cover(x.is_some() as u32);
    observe(x.as_ref().map_or(99, |f| f.hit.unwrap_or(98)));
    same(&x, &y, 1);
}

/// C06. params: bytes of the pattern, path, kind (0 route, 10 middleware, 20 mount).
/// Slashes anywhere in a registered path: same table as its canonical text.
pub fn harness_slash_pattern() {
    let mut v = vec![];
    for _ in 0..param(0) {
        let b = byte(1);
        assume((b < 0x80) & (b != b'*') & (b != b':'));
        v.push(b);
    }
    let mut canon = vec![];
    for s in segments(&v) {
        canon.push(b'/');
        canon.extend_from_slice(s);
    }
    let (raw, canon) = (text(v), text(canon));
    let make = |p: &str| {
        let mut r = Router::new();
        match param(2) {
            0 => r.get(p, handler(1)),
            10 => {
                r.get("/:x", handler(2));
                let mut sub = Router::new();
                sub.get(p, handler(1));
                sub.use_service_to(p, Mark(3));
                let mut t = Router::new();
                t.use_router("s", sub);
                return t;
            }
            _ => {
                let mut sub = Router::new();
                sub.get("/", handler(1));
                sub.get("/*", handler(2));
                sub.use_service(Mark(3));
                r.use_router(p, sub)
            }
        }
        r
    };
    let (a, b) = (make(&raw), make(&canon));
    let path = path(param(1));
    let (x, y) = (find(&a, &path, &Method::GET), find(&b, &path, &Method::GET));
    cover(x.is_some() as u32);
    observe(x.as_ref().map_or(99, |f| f.hit.unwrap_or(98)));
    same(&x, &y, 1);
}

/// C09. params: path, request method, program. Middlewares never change the route.
pub fn harness_transparent() {
    let ops = program(2);
    assume(model(&ops).is_some());
    let a = build(&ops, PLAIN);
    let b = build(&ops, Style { bare: true, ..PLAIN });
    let path = path(param(0));
    let m = methods(if param(1) == 9 { pick(METHODS, 50) } else { param(1) });
    let (x, y) = (find(&a, &path, &m), find(&b, &path, &m));
    cover(x.is_some() as u32);
    observe(x.as_ref().map_or(99, |f| f.hit.unwrap_or(98)));
    check(x.is_some() == y.is_some(), 1);
    if let (Some(x), Some(y)) = (&x, &y) {
        check(x.hit == y.hit, 2);
        check(same_params(&x.params, &y.params), 3);
        check(y.trace.is_empty(), 4);
    }
}

/// C24. params: path, operations before the copy, where the others go (0 to the router, 1 to its copy, 2 to the router after the
/// copy has been mounted elsewhere, 3 to the copy of a replaced router, 4 to the router, and both are mounted), program. A copy of a router is a router of its own.
pub fn harness_copy() {
    let ops = program(3);
    let at = param(1);
    assume(model(&ops).is_some());
    let (before, all) = (|| build(&ops[..at], PLAIN), || build(&ops, PLAIN));
    let path = path(param(0));
    let method = methods(pick(2, 50));
    let ask = |r: &Router| find(r, &path, &method);
    let mut r = before();
    let mut copy = r.clone();
    let more = |r: &mut Router| build_into(r, &ops[at..], PLAIN, &[]);
    let (old, new) = match param(2) {
        0 | 4 => {
            more(&mut r);
            (copy, r)
        }
        1 => {
            more(&mut copy);
            (r, copy)
        }
        2 => {
            let mut outer = Router::new();
            outer.use_service(Mark(90));
            outer.use_router("/", copy.clone());
            drop(outer);
            more(&mut r);
            (copy, r)
        }
        _ => {
            let mut other = all();
            other.clone_from(&r);
            drop(r);
            more(&mut copy);
            (other, copy)
        }
    };
    if param(2) == 4 {
        // either can be mounted
        let mut outer = Router::new();
        outer.use_router("/a/b", old.clone());
        outer.use_router("/a/c", new);
        let below = |p: &str| find(&outer, &text([p.as_bytes(), b"/", path.as_bytes()].concat()), &method);
        let (x, y) = (below("/a/b"), below("/a/c"));
        cover(x.is_some() as u32 + 2 * y.is_some() as u32);
        same(&x, &plain_below(before(), &path, &method), 21);
        same(&y, &plain_below(all(), &path, &method), 31);
        return;
    }
    let (x, y) = (ask(&old), ask(&new));
    cover(x.is_some() as u32 + 2 * y.is_some() as u32);
    observe(x.as_ref().map_or(99, |f| f.hit.unwrap_or(98)));
    observe(y.as_ref().map_or(99, |f| f.hit.unwrap_or(98)));
    same(&x, &ask(&before()), 1);
    same(&y, &ask(&all()), 11);
}
/// What a router alone gives below a path
fn plain_below(r: Router, path: &str, m: &Method) -> Option<Found> {
    let mut outer = Router::new();
    outer.use_router("/z", r);
    find(&outer, &text([b"/z/", path.as_bytes()].concat()), m)
}
