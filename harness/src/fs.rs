//! Static files.
use super::rt::*;
use super::serve::*;
use super::util::*;
use obsidian::context::Context;
use obsidian::router::Router;
use obsidian::{App, Body, Method};

/// The directories a static route may be given, and the route it is served under
const DIRS: [&str; 5] = ["www", "/assets/", "data/pub", "a//b/", "s"];
const VIRT: [&str; 5] = ["files", "/v/w/", "s", "", "/x"];

fn segs(p: &[u8]) -> Vec<Vec<u8>> {
    super::route::segments(p).iter().map(|s| s.to_vec()).collect()
}
fn joined(parts: &[Vec<u8>]) -> Vec<u8> {
    parts.join(&b'/')
}

struct Setup {
    app: App,
    /// segments in front of the part which names the file
    front: Vec<Vec<u8>>,
    /// the directory
    dir: Vec<Vec<u8>>,
    /// the known finding of mounted routers: where a file is looked up instead, as the
    /// segments in front of its name
    known: Option<Vec<Vec<u8>>>,
}
/// how: 0 use_static_to, 1 use_static, 2 use_static_to in a mounted router, 3 in a scope,
/// 4 use_static in a mounted router, 5 use_static_to beside other routes
fn setup(how: usize, d: usize, v: usize) -> Setup {
    let mut app: App = App::new();
    let (dir, virt) = (DIRS[d], VIRT[v]);
    let both = |m: &str, x: &str| [segs(m.as_bytes()), segs(x.as_bytes())].concat();
    let front = match how {
        0 => {
            app.use_static_to(virt, dir);
            both("", virt)
        }
        1 => {
            app.use_static(dir);
            both("", dir)
        }
        2 => {
            let mut r = Router::new();
            r.use_static_to(virt, dir);
            app.use_router("/m", r);
            both("m", virt)
        }
        3 => {
            app.scope("m/n", |r| r.use_static_to(virt, dir));
            both("m/n", virt)
        }
        4 => {
            let mut r = Router::new();
            r.use_static(dir);
            app.use_router("/m", r);
            both("m", dir)
        }
        _ => {
            app.get("/", |c: Context| async move { c.build("root").ok() });
            app.post("/files/up", |c: Context| async move { c.build("post").ok() });
            app.use_static_to(virt, dir);
            both("", virt)
        }
    };
    let dir = segs(dir.as_bytes());
    let known = match how {
        // the prefix of the router is not taken into account
        2 | 3 => Some([&dir[..], &front[segs(virt.as_bytes()).len()..]].concat()),
        4 => Some(front.clone()),
        _ => None,
    };
    Setup { app, front, dir, known }
}

/// Does a path lead out of the directory: it is above it at some point, or does not start in it
fn escapes(opened: &[u8], dir: &[Vec<u8>]) -> bool {
    let p = segs(opened);
    if opened.first() == Some(&b'/') || p.len() < dir.len() || p[..dir.len()] != dir[..] {
        return true;
    }
    let mut depth = 0i64;
    for s in &p[dir.len()..] {
        match &s[..] {
            b".." => depth -= 1,
            b"." => {}
            _ => depth += 1,
        }
        if depth < 0 {
            return true;
        }
    }
    false
}

/// C17. params: how, directory, virtual path, path below the route (code of `route::path`), 1 where the
/// request path is any text instead, directories and ways back before it. Whatever is asked for, nothing outside of the directory is opened.
pub fn harness_contain() {
    let s = setup(param(0), param(1), param(2));
    let tail = "d/".repeat(param(5)) + &"../".repeat(param(6)) + &super::route::path(param(3));
    let uri = if param(4) == 1 {
        format!("/{}", tail)
    } else {
        text([b"/", &joined(&s.front)[..], b"/", tail.as_bytes()].concat())
    };
    // keeps the files of the machine out of it
    file_add(b"\x01", b"");
    let mut c = connect(s.app, 1).pop().unwrap();
    let r = call(&mut c, request(Method::GET, &uri, Body::empty()));
    let o = opened();
    cover(!o.is_empty() as u32);
    observe(o.len());
    observe(r.status().as_u16() as usize);
    if let Some(k) = &s.known {
        let k = joined(&[&k[..], &segs(uri.split(['?', '#']).next().unwrap().as_bytes())[s.front.len()..]].concat());
        check(param(0) != 4 || o.is_empty() || o.iter().any(|p| *p != k), 101);
    }
    for p in &o {
        observe_bytes(p);
        check(!escapes(p, &s.dir), 1);
    }
    // there is no file
    check(o.is_empty() || r.status() == 404, 2);
}

/// C18. params: how, directory, virtual path, name below the route (code of `route::path`), bytes of the content,
/// 1 where the file is absent, method, other headers of the request, directories before the name, 1 where the file changes. The file the path names is answered, with exactly its bytes.
pub fn harness_static() {
    let s = setup(param(0), param(1), param(2));
    let tail = "dir/".repeat(param(8)) + &super::route::path(param(3));
    let uri = text([b"/", &joined(&s.front)[..], b"/", tail.as_bytes()].concat());
    let req = busy(request(if param(6) == 1 { Method::POST } else { Method::GET }, &uri, Body::empty()), param(7));
    for b in tail.bytes() {
        assume((b != b'?') & (b != b'#'));
    }
    let name = segs(tail.as_bytes());
    assume(!name.is_empty() && name.iter().all(|n| n != b".." && n != b"."));
    // a pattern of its own, which has no GET
    assume(param(0) != 5 || joined(&[&s.front[..], &name].concat()) != b"files/up");
    let file = joined(&[&s.dir[..], &name].concat());
    let known = s.known.map(|k| joined(&[&k[..], &name].concat()));
    let content = any(param(4), 1);
    let absent = param(5) == 1;
    if absent {
        file_add(b"\x01", b"");
    } else {
        file_add(&file, &content);
    }
    // a neighbour which must not be taken for it
    file_add(&[&file[..], b"x"].concat(), b"neighbour");
    let mut c = connect(s.app, 1).pop().unwrap();
    let (st, b) = reply(&mut c, req);
    let o = opened();
    cover(1 + absent as u32);
    observe(st as usize);
    observe_bytes(&b);
    if let Some(k) = known {
        check(k == file || o.is_empty() || o.iter().any(|p| *p != k), 103);
    }
    if param(6) == 1 {
        // files are only got
        check(st == 404 && o.is_empty(), 5);
    } else if absent {
        check(st == 404, 1);
        check(!o.is_empty() && o.iter().all(|p| *p == file), 2);
    } else {
        check(st == 200, 3);
        check(b == content, 4);
        if param(9) == 1 {
            // the file has changed, with a request for another one in between or not
            let other = [&joined(&s.front)[..], b"/other"].concat();
            if pick(2, 3) == 1 {
                check(reply(&mut c, request(Method::GET, &text([b"/", &other[..]].concat()), Body::empty())).0 == 404 || name[..] == [b"otherx".to_vec()], 6);
            }
            let content = any(pick(4, 4), 2);
            file_add(&file, &content);
            let (st, b) = reply(&mut c, request(Method::GET, &uri, Body::empty()));
            observe_bytes(&b);
            check(st == 200 && b == content, 7);
        }
    }
}

/// C18. params: bytes of the name, bytes of the content. `build_file` answers the file it is given.
pub fn harness_build_file() {
    let mut name = vec![];
    for _ in 0..param(0) {
        let b = byte(1);
        assume((b != 0) & (b < 0x80));
        name.push(b);
    }
    let content = any(param(1), 2);
    let there = pick(2, 3) == 1;
    file_add(if there { &name } else { b"\x01\x01\x01\x01\x01\x01\x01\x01" }, &content);
    let n = text(name.clone());
    let mut app: App = App::new();
    app.get("/", move |ctx: Context| {
        let n = n.clone();
        async move { ctx.build_file(&n).await.with_header(obsidian::header::ALLOW, "x").ok() }
    });
    let mut c = connect(app, 1).pop().unwrap();
    let r = call(&mut c, request(Method::GET, "/", Body::empty()));
    let o = opened();
    check(!o.is_empty() && o.iter().all(|p| *p == name), 1);
    check(r.headers().get("allow").map(|v| v.as_bytes() == b"x").unwrap_or(false), 2);
    let st = r.status().as_u16();
    let b = bytes_of(r.into_body());
    cover(there as u32);
    observe_bytes(&b);
    check(st == if there { 200 } else { 404 }, 3);
    if there {
        check(b == content, 4);
    }
}
