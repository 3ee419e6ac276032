//! Path parameters as a handler reads them.
use super::rt::*;
use super::serve::*;
use obsidian::context::Context;
use obsidian::router::Router;
use obsidian::{App, Body, ContextResult, Method};
use std::sync::{Arc, Mutex};

/// An integer: its sign and magnitude
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Int {
    neg: bool,
    mag: u64,
}
impl Int {
    pub fn signed(self) -> i64 {
        if self.neg { (self.mag as i64).wrapping_neg() } else { self.mag as i64 }
    }
    pub fn unsigned(self) -> u64 {
        self.mag
    }
}
/// The integer a text denotes, an optional sign and decimal digits, where it is in
/// `-low ..= high`
pub fn integer(t: &[u8], signed: bool, low: u64, high: u64) -> Option<Int> {
    let (neg, d) = match t.first() {
        Some(b'+') => (false, &t[1..]),
        Some(b'-') if signed => (true, &t[1..]),
        _ => (false, t),
    };
    if d.is_empty() {
        return None;
    }
    let max = if neg { low } else { high };
    let mut mag: u64 = 0;
    for c in d {
        if *c < b'0' || *c > b'9' {
            return None;
        }
        let c = (*c - b'0') as u64;
        // in time before it does not fit
        if mag > max / 10 || mag * 10 > max - c {
            return None;
        }
        mag = mag * 10 + c;
    }
    Some(Int { neg: neg && mag != 0, mag })
}

/// Beginnings of numbers: with some digits after them, the values around the bounds of the types
pub const BEGIN: [&str; 15] = [
    "", "1", "25", "12", "-12", "000", "21474836", "-21474836", "42949672", "99999999", "18446744073709551", "92233720368547758",
    "-92233720368547758", "00000000000000000000",
    // and a long text
    "a-text-of-some-length-a-text-of-some-length-a-text-of-some-length-a-text-of-some-length-a-text-of-some-length-a-text-of-some-length-a-text-of-some-length-a-text-of-some-length-a-text-of-some-length-a-text-of-some-length-a-text-of-some-length-a-text-of-some-length-a-text-of-some-length-a-text-of-some-length-",
];

#[derive(Clone, PartialEq, Debug)]
enum Val {
    Int(Int),
    Bool(bool),
    Text(Vec<u8>),
}
type Out = Arc<Mutex<Option<Result<Val, String>>>>;

/// What a text means as a value of the kind
fn expected(kind: usize, t: &[u8]) -> Option<Val> {
    match kind {
        0 => Some(Val::Text(t.to_vec())),
        1 => integer(t, false, 0, 255).map(Val::Int),
        2 => integer(t, true, 1 << 31, i32::MAX as u64).map(Val::Int),
        3 => integer(t, false, 0, u64::MAX).map(Val::Int),
        4 => integer(t, true, 128, 127).map(Val::Int),
        5 => match t {
            b"true" => Some(Val::Bool(true)),
            b"false" => Some(Val::Bool(false)),
            _ => None,
        },
        _ => integer(t, true, 1 << 63, i64::MAX as u64).map(Val::Int),
    }
}

fn read(ctx: &Context, kind: usize, key: &str) -> Result<Val, String> {
    let e = |e: obsidian::ObsidianError| e.to_string();
    match kind {
        0 => ctx.param::<String>(key).map(|v| Val::Text(v.into_bytes())).map_err(e),
        1 => ctx.param::<u8>(key).map(|v| Val::Int(Int { neg: false, mag: v as u64 })).map_err(e),
        2 => ctx.param::<i32>(key).map(|v| Val::Int(Int { neg: v < 0, mag: (v as i64).unsigned_abs() })).map_err(e),
        3 => ctx.param::<u64>(key).map(|v| Val::Int(Int { neg: false, mag: v as u64 })).map_err(e),
        4 => ctx.param::<i8>(key).map(|v| Val::Int(Int { neg: v < 0, mag: (v as i64).unsigned_abs() })).map_err(e),
        5 => ctx.param::<bool>(key).map(Val::Bool).map_err(e),
        _ => ctx.param::<i64>(key).map(|v| Val::Int(Int { neg: v < 0, mag: (v as i64).unsigned_abs() })).map_err(e),
    }
}

/// C02. params: type read, characters of the value (code of `route::path`), where the
/// parameter is, name asked for (0 its own, 1 one that is not there, 2 the other one),
/// what the value begins with (index of `BEGIN`)
pub fn harness_param() {
    let (kind, layout, ask) = (param(0), param(2), param(3));
    let value = format!("{}{}", BEGIN[param(4)], super::route::path(param(1)));
    let key = ["p", "x", "q"][ask];
    let out: Out = Arc::new(Mutex::new(None));
    let h = {
        let out = out.clone();
        move |ctx: Context| {
            let out = out.clone();
            async move {
                *out.lock().unwrap() = Some(read(&ctx, kind, key));
                Ok::<Context, obsidian::ObsidianError>(ctx) as ContextResult
            }
        }
    };
    let mut app: App = App::new();
    let (uri, other) = match layout {
        0 => {
            app.get("/:p", h);
            (format!("/{}", value), None)
        }
        1 => {
            app.get("/u/:q/v/:p", h);
            (format!("/u/7/v/{}", value), Some("7"))
        }
        2 => {
            let mut sub = Router::new();
            sub.get("/:p", h);
            app.use_router("/:q", sub);
            (format!("/+5/{}", value), Some("+5"))
        }
        3 => {
            app.get("/:p/:q/*", h);
            (format!("/{}/300/r/s", value), Some("300"))
        }
        4 => {
            app.get("/x/y", |c: Context| async move { c.build("no").ok() });
            app.get("/x/yy/:q", |c: Context| async move { c.build("no").ok() });
            app.scope("s", move |r| r.post("/:q/:p/", h.clone()));
            (format!("/s/-1//{}?p=1", value), Some("-1"))
        }
        _ => {
            app.get("/:p/x", h);
            (format!("//{}/x/", value), None)
        }
    };
    assume(!value.contains('/'));
    let m = if layout == 4 { Method::POST } else { Method::GET };
    let mut c = connect(app, 1).pop().unwrap();
    let req = request(m, &uri, Body::empty());
    // the value is a whole segment of the path, not a part of the query
    assume(!value.is_empty() && !value.contains('?') && !value.contains('#'));
    let r = call(&mut c, req);
    check(r.status() == 200, 1);
    let got = out.lock().unwrap().take();
    let text = match ask {
        0 => Some(value.as_bytes()),
        1 => None,
        _ => other.map(|t| t.as_bytes()),
    };
    match (text, got) {
        (_, None) => check(false, 2),
        (None, Some(g)) => check(g.is_err(), 3),
        (Some(t), Some(g)) => {
            let want = expected(kind, t);
            cover(want.is_some() as u32);
            observe(want.is_some() as usize);
            check(g.ok() == want, 4);
        }
    }
}
