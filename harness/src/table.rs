//! Tables as applications have them, and requests near to what they contain.
use super::route::*;
use super::rt::*;
use super::util::*;
use obsidian::router::Router;
use std::collections::HashMap;

/// One line per registration: a method (G P U T D) or M for a middleware, and a pattern
const TABLES: [&[&str]; 9] = [
    // an API
    &[
        "M /", "G /", "G /users", "P /users", "G /users/:id", "U /users/:id", "D /users/:id", "G /users/:id/posts", "G /users/:id/posts/:post",
        "M /users/:id/posts", "P /users/:id/posts/:post/comments", "G /user", "G /use", "G /posts", "G /posts/*", "G /posts/new", "M /posts", "G /post/:slug",
        "T /post/:slug/edit", "G /static/*", "G /health", "M /users",
    ],
    // literals with long common beginnings
    &[
        "G /api/v1/accounts", "G /api/v1/accounting", "G /api/v1/account", "M /api/v1", "G /api/v10/account", "G /api/v1", "P /api/v1/accounts/:accountNumber",
        "G /api/v2/accounts", "M /api/v", "G /api/v2/*", "G /api", "G /apis/v1/accounts", "M /api", "G /ap", "G /api/v1/acc/ounts",
    ],
    // deep
    &[
        "G /a/b/c/d/e/f/g/h/i/j/k/l/m/n/o/p/q/r", "G /a/b/c/d/e/f/g/h/i/j/k/l/m/n/o/p/q", "G /a/b/c/d/e/f/g/h/i/*", "M /a/b/c/d/e/f/g/h/i/j/k/l", "M /a/b/c", "G /b/:a/:b/:c/d/:e/f/g/*",
        "G /a/b/c/d/e/f/x/:f/g", "P /a/*", "G /b/:a/:b/:c/d/:e",
    ],
    // many parameters
    &[
        "G /:p0/:p1/:p2/:p3/:p4/:p5/:p6/:p7/:p8/:p9", "G /:p0", "M /:p0/:p1/:p2/:p3/:p4/:p5/:p6", "D /:p0/:p1/:p2/:p3/:p4/:p5/:p6/:p7/:p8/:p9/:p10/*", "P /:p0/:p1/:p2/:p3",
    ],
    // many siblings
    &[
        "G /r00", "G /r01", "G /r02", "G /r03", "G /r04", "G /r05", "G /r06", "G /r07", "G /r08", "G /r09", "G /r10", "G /r11", "G /r12", "G /r13", "G /r14", "G /r15",
        "G /r16", "G /r17", "G /r18", "G /r19", "P /r2", "G /a", "G /b", "G /c", "G /d", "G /e", "G /f", "G /g", "G /h", "G /i", "G /j", "G /k", "M /r1", "G /*",
    ],
    // one long name
    &[
        "G /the-quick-brown-fox-jumps-over-the-lazy-dog-the-quick-brown-fox-jumps-over-the-lazy-dog-the-quick-brown-fox-jumps-over-the-lazy-dog-the-quick-brown-fox-jumps-over-the-lazy-dog-the-quick-brown-fox-jumps-over-the-lazy-dog-the-quick-brown-fox-jumps-over-the-lazy-dog-1/:a-parameter-with-quite-a-long-name-too",
        "G /the-quick-brown-fox-jumps-over-the-lazy-dog-the-quick-brown-fox-jumps-over-the-lazy-dog-the-quick-brown-fox-jumps-over-the-lazy-dog-the-quick-brown-fox-jumps-over-the-lazy-dog-the-quick-brown-fox-jumps-over-the-lazy-dog-the-quick-brown-fox-jumps-over-the-lazy-dog-2/*",
    ],
    // marks and capitals
    &[
        "G /a.b", "G /a-b", "G /a_b", "G /a~b", "G /@x", "G /a:b", "G /a%20b", "G /A", "G /a", "G /a+b", "G /a=b&c", "G /index.html", "G /index.htm", "G /.well-known/*",
        "M /.well-known", "G /..", "G /x/:file.name", "G /(x)/;y,$!'",
    ],
    // several languages
    &["G /日本/語", "G /日本", "G /日曜/:日", "G /日", "M /日本", "G /é", "G /è/*", "G /ß", "P /日本/*", "G /😀/x", "G /😁/x"],
    // names of parameters of all kinds
    &[
        "G /n/:user-id", "D /n/:user-id/:user-id2", "G /o/:userId", "G /o/:userId/x/:Post_Id", "M /o/:userId/x", "G /q/:a.b/*", "U /r/:1", "G /s/:é", "M /s/:é", "G /t/:a:b", "P /t/:a:b/*", "T /u/:a/:A/:aA/:AA",
        "G /v/:p?", "G /v/:p?/:[q]", "M /v", "G /w/:id/:ID",
    ],
];

fn seg(t: &'static str) -> Seg {
    match t.as_bytes()[0] {
        b'*' => Seg::Wild,
        b':' => Seg::Param(&t[1..]),
        _ => Seg::Lit(t.as_bytes().to_vec()),
    }
}

/// C01 C02 C04 C07 C09. params: what is checked (1 handler, 2 parameters, 3 middlewares, 4 that they change no route, 6 that the
/// order of registration makes no difference), table,
/// what happens to a path that matches (0 nothing, 1 a byte is another one, 2 a byte more, 3 it ends early, 4 two more bytes),
/// which of the routes the path is made for (its number modulo 4)
pub fn harness_table() {
    let (mode, t, change) = (param(0), param(1), param(2));
    let table = TABLES[t];
    let mut m = Model::default();
    let (mut r, mut bare) = (Router::new(), Router::new());
    for (id, line) in table.iter().enumerate() {
        let p = &line[2..];
        let pat: Pat = p.split('/').filter(|s| !s.is_empty()).map(seg).collect();
        match line.as_bytes()[0] {
            b'M' => {
                r.use_service_to(p, Mark(id));
                m.mws.push((pat, id))
            }
            k => {
                let method = b"GPUTD".iter().position(|x| *x == k).unwrap();
                add_route(&mut r, method, p, id);
                if mode == 4 {
                    add_route(&mut bare, method, p, id);
                }
                m.routes.push((pat, method, id))
            }
        }
    }
    if mode == 6 {
        for (id, line) in table.iter().enumerate().rev() {
            match line.as_bytes()[0] {
                b'M' => bare.use_service_to(&line[2..], Mark(id)),
                k => add_route(&mut bare, b"GPUTD".iter().position(|x| *x == k).unwrap(), &line[2..], id),
            }
        }
    }
    // a path one of them matches
    let mine: Vec<usize> = (0..m.routes.len()).filter(|i| i % 4 == param(3)).collect();
    let (pat, method, _) = m.routes[mine[pick(mine.len(), 3)]].clone();
    let mut v = vec![];
    let free = || {
        let b = byte(0);
        assume((b < 0x80) & (b != b'/'));
        b
    };
    for s in &pat {
        v.push(b'/');
        match s {
            Seg::Lit(x) => v.extend_from_slice(x),
            // one byte that is arbitrary, where the rest is not changed
            Seg::Param(_) => v.extend_from_slice(&[if change == 0 { free() } else { b'7' }, b'z']),
            Seg::Wild => v.extend_from_slice(&[if change == 0 { free() } else { b'w' }, b'/', b'u']),
        }
    }
    let at = |n: usize| if n > 100 { [0, 1, 2, n / 2, n - 4, n - 3, n - 2, n - 1][pick(8, 4)] } else { pick(n, 4) };
    let any = || {
        let b = byte(1);
        assume(b < 0x80);
        b
    };
    match change {
        0 => {}
        1 if !v.is_empty() => {
            let i = at(v.len());
            assume(v[i] < 0x80);
            v[i] = any();
        }
        2 if !v.is_empty() => {
            let i = at(v.len());
            assume(v[i] < 0x80 || v[i] >= 0xc0);
            v.insert(i, any());
        }
        3 if !v.is_empty() => {
            let i = at(v.len());
            assume(v[i] < 0x80 || v[i] >= 0xc0);
            v.truncate(i);
        }
        _ => {
            v.push(any());
            v.push(any());
        }
    }
    let path = text(v);
    let method = if pick(2, 5) == 0 { method } else { (method + 1) % 5 };
    let pat = m.pattern(&path);
    let want = m.handler(&pat, method);
    let got = find(&r, &path, &methods(method));
    observe(want.map_or(99, |x| x));
    cover(want.is_some() as u32);
    if mode == 4 {
        let b = find(&bare, &path, &methods(method));
        check(b.is_some() == got.is_some(), 6);
        if let (Some(a), Some(b)) = (&got, &b) {
            check(a.hit == b.hit, 7);
            check(same_params(&a.params, &b.params), 8);
        }
        return;
    }
    if mode == 6 {
        let b = find(&bare, &path, &methods(method));
        return same_but_order(got, b);
    }
    if mode == 1 {
        check(got.is_some() == want.is_some(), 1);
        if let (Some(w), Some(g)) = (want, &got) {
            check(g.hit == Some(w), 2);
        }
    }
    if let (Some(_), Some(pat), Some(got)) = (want, &pat, &got) {
        if mode == 2 {
            let ps = m.params(pat, &path);
            check(got.params.len() == ps.len(), 3);
            for (k, v) in ps {
                check(got.params.get(k).map(|x| x.as_bytes() == &v[..]).unwrap_or(false), 4);
            }
        }
        if mode == 3 {
            check(got.trace == m.chain(pat), 5);
        }
    }
    let _: Option<HashMap<(), ()>> = None;
}

/// C05. params: as above without the first. The same table in a router mounted twice deep, at
/// `/v1` and, of that, at `/:tenant`
pub fn harness_table_mounted() {
    let (t, change) = (param(0), param(1));
    let table = TABLES[t];
    let (mut inner, mut outer, mut all, mut flat) = (Router::new(), Router::new(), Router::new(), Router::new());
    let mut pats: Vec<Vec<u8>> = vec![];
    for (id, line) in table.iter().enumerate() {
        let p = &line[2..];
        let long = format!("/:tenant/v1{}", p);
        match line.as_bytes()[0] {
            b'M' => {
                inner.use_service_to(p, Mark(id));
                flat.use_service_to(&long, Mark(id));
            }
            k => {
                let method = b"GPUTD".iter().position(|x| *x == k).unwrap();
                add_route(&mut inner, method, p, id);
                add_route(&mut flat, method, &long, id);
                if k == b'G' && pats.len() < 16 {
                    pats.push(p.as_bytes().to_vec());
                }
            }
        }
    }
    outer.use_router("/v1", inner);
    all.use_router("/:tenant", outer);
    let mine: Vec<usize> = (0..pats.len()).filter(|i| i % 4 == param(2)).collect();
    let mut v = b"/t/v1".to_vec();
    v.extend_from_slice(&pats[mine[pick(mine.len(), 3)]]);
    if change == 1 {
        let i = if v.len() > 100 { [0, 1, 2, v.len() / 2, v.len() - 4, v.len() - 3, v.len() - 2, v.len() - 1][pick(8, 4)] } else { pick(v.len(), 4) };
        assume(v[i] < 0x80);
        let b = byte(1);
        assume(b < 0x80);
        v[i] = b;
    }
    let path = text(v);
    let (x, y) = (find(&all, &path, &methods(0)), find(&flat, &path, &methods(0)));
    cover(x.is_some() as u32);
    observe(x.as_ref().map_or(99, |f| f.hit.unwrap_or(98)));
    check(x.is_some() == y.is_some(), 1);
    if let (Some(x), Some(y)) = (&x, &y) {
        check(x.hit == y.hit, 2);
        check(same_params(&x.params, &y.params), 3);
        check(x.trace == y.trace, 4);
    }
}

/// C03. params: table, what is registered last (method 0-4, middleware 10, mount 20), its text (0 one of the table, 1 with another byte,
/// 2 with a byte more, 3 cut off), and which of those of the table (its number modulo 4).
/// After all that a table holds it is refused exactly when it should be.
pub fn harness_table_more() {
    let (table, kind) = (TABLES[param(0)], param(1));
    let (mut r, mut m) = (Router::new(), Model::default());
    for (id, line) in table.iter().enumerate() {
        let k = b"GPUTD".iter().position(|x| *x == line.as_bytes()[0]).unwrap_or(MW);
        register(&mut r, &mut m, k, &line[2..], id);
    }
    let mine: Vec<&&str> = table.iter().enumerate().filter(|(i, _)| i % 4 == param(3)).map(|x| x.1).collect();
    let mut v = mine[pick(mine.len(), 3)][2..].as_bytes().to_vec();
    let n = v.len();
    let at = |n: usize| if n > 60 { [0, 1, 2, n / 2, n - 4, n - 3, n - 2, n - 1][pick(8, 4)] } else { pick(n, 4) };
    let any = || {
        let b = byte(1);
        assume(b < 0x80);
        b
    };
    match param(2) {
        0 => {}
        1 => {
            let i = at(n);
            assume(v[i] < 0x80);
            v[i] = any();
        }
        2 => {
            let i = at(n + 1);
            assume(i == n || v[i] < 0x80 || v[i] >= 0xc0);
            v.insert(i, any());
        }
        _ => {
            let i = at(n);
            assume(v[i] < 0x80 || v[i] >= 0xc0);
            v.truncate(i);
        }
    }
    assume(distinct(&v));
    assume(kind != MOUNT || !v.contains(&b'*'));
    let bad = refused(&m, kind, &v);
    cover(bad as u32);
    observe(bad as usize);
    let t = text(v);
    expect_panic(bad);
    register(&mut r, &mut m, kind, &t, 99);
    check(!bad, 1);
}
