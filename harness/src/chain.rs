//! Middlewares in control of the request.
use super::rt::*;
use super::serve::*;
use super::util::*;
use obsidian::context::Context;
use obsidian::middleware::Middleware;
use obsidian::router::{Response, Router};
use obsidian::{App, Body, ContextResult, EndpointExecutor, Method, ObsidianError, StatusCode};
use std::sync::{Arc, Mutex};

type Log = Arc<Mutex<Vec<usize>>>;
fn log(l: &Log, v: usize) {
    l.lock().unwrap().push(v)
}

/// What a middleware does
/// 0 pass on, 1 answer itself, 2 fail, 3 replace the answer of the rest, 4 turn an error
/// of the rest into an answer, 5 give up the answer of the rest, 6 wait once before and after,
/// 7 set an answer and pass on, 8 fail after the rest has answered
const KINDS: usize = 9;
struct Act {
    id: usize,
    kind: usize,
    log: Log,
}

pub struct Once(bool);
impl std::future::Future for Once {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 {
            return std::task::Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        std::task::Poll::Pending
    }
}
pub fn wait_once() -> Once {
    Once(false)
}

#[derive(Clone, PartialEq)]
struct Notes(Vec<usize>);

fn note(ctx: &mut Context, id: usize) {
    if ctx.get::<Notes>().is_none() {
        ctx.add(Notes(vec![]));
    }
    ctx.get_mut::<Notes>().unwrap().0.push(id);
}
fn answer(ctx: Context, id: usize) -> ContextResult {
    ctx.build(format!("m{}", id)).with_status(StatusCode::from_u16(210 + id as u16).unwrap()).ok()
}

/// An error of some kind, the kind, and its text
fn error(kind: usize, t: String) -> (ObsidianError, usize, String) {
    match kind % 5 {
        0 => (ObsidianError::GeneralError(t.clone()), 0, t),
        1 => (ObsidianError::ParamError(t.clone()), 1, t),
        2 => (ObsidianError::FormError(obsidian::router::FormError::Message(t.clone())), 2, t),
        3 => (ObsidianError::NoneError, 3, "Input should not be None".to_string()),
        _ => {
            let e = serde_json::from_str::<u8>("-").unwrap_err();
            let t = e.to_string();
            (ObsidianError::JsonError(e), 4, t)
        }
    }
}
impl Act {
    /// Notes what the rest made of the request
    fn saw(&self, r: &ContextResult) {
        log(&self.log, self.id * 10 + 1 + r.is_err() as usize);
        match r {
            Ok(c) => log(&self.log, c.response().as_ref().map_or(0, |r| r.status().as_u16() as usize)),
            Err(e) => {
                let kind = match e {
                    ObsidianError::GeneralError(_) => 0,
                    ObsidianError::ParamError(_) => 1,
                    ObsidianError::FormError(obsidian::router::FormError::Message(_)) => 2,
                    ObsidianError::NoneError => 3,
                    ObsidianError::JsonError(_) => 4,
                    _ => 5,
                };
                log(&self.log, 20000 + kind);
                e.to_string().bytes().for_each(|b| log(&self.log, b as usize));
            }
        }
    }
}

#[async_trait::async_trait]
impl Middleware for Act {
    async fn handle<'a>(&'a self, mut ctx: Context, next: EndpointExecutor<'a>) -> ContextResult {
        log(&self.log, self.id * 10);
        note(&mut ctx, self.id);
        match self.kind {
            0 => {
                let r = next.next(ctx).await;
                self.saw(&r);
                r
            }
            1 => answer(ctx, self.id),
            2 => Err(error(self.id, format!("e{}", self.id)).0),
            3 => {
                let r = next.next(ctx).await;
                self.saw(&r);
                answer(r?, self.id)
            }
            4 => {
                let r = next.next(ctx).await;
                self.saw(&r);
                match r {
                    Ok(c) => Ok(c),
                    Err(_) => {
                        let c = Context::new(obsidian::Request::new(Body::empty()), Default::default());
                        answer(c, self.id)
                    }
                }
            }
            5 => {
                let r = next.next(ctx).await;
                self.saw(&r);
                let mut c = r?;
                *c.response_mut() = None;
                Ok(c)
            }
            7 => {
                *ctx.response_mut() = Some(Response::new(format!("p{}", self.id)).set_status(StatusCode::from_u16(230 + self.id as u16).unwrap()));
                let r = next.next(ctx).await;
                self.saw(&r);
                r
            }
            8 => {
                let r = next.next(ctx).await;
                self.saw(&r);
                r?;
                Err(error(self.id + 2, format!("late{}", self.id)).0)
            }
            _ => {
                wait_once().await;
                let r = next.next(ctx).await;
                wait_once().await;
                self.saw(&r);
                r
            }
        }
    }
}

/// What the model expects: status and body, or an error text
enum Out {
    Answer(u16, String),
    None,
    Err(usize, String),
}

/// params: number of middlewares, layout (0 all with use_service, 1 one level of the path
/// each, 2 in mounted routers), what the handler does (0 answers, 1 fails, 2 nothing, 3 answers after a wait, 4 takes back any answer, 9 any).
/// Of more than 5 middlewares all but two arbitrary ones pass on.
pub fn harness_chain() {
    let n = param(0);
    let layout = param(1);
    let h = if param(2) == 9 { pick(5, 2) } else { param(2) };
    let kinds: Vec<usize> = if n > 5 {
        let mut v = vec![0; n];
        for _ in 0..2 {
            let i = [0, n / 2, n - 1][pick(3, 3)];
            v[i] = pick(KINDS, 1);
        }
        v
    } else {
        (0..n).map(|_| pick(KINDS, 1)).collect()
    };
    let l: Log = Default::default();
    let handler = {
        let l = l.clone();
        move |mut ctx: Context| {
            log(&l, 7);
            let notes = ctx.get::<Notes>().map(|n| n.0.clone()).unwrap_or_default();
            for n in notes {
                log(&l, 1000 + n);
            }
            Box::pin(async move {
                match h {
                    0 => ctx.build("handler").with_status(StatusCode::ACCEPTED).ok(),
                    1 => Err(ObsidianError::ParamError("handler".to_string())),
                    2 => Ok(ctx),
                    4 => {
                        *ctx.response_mut() = None;
                        Ok(ctx)
                    }
                    _ => {
                        wait_once().await;
                        *ctx.response_mut() = Some(Response::created());
                        Ok(ctx)
                    }
                }
            })
        }
    };
    let act = |i: usize| Act { id: i, kind: kinds[i], log: l.clone() };
    let mut app: App = App::new();
    let mut path = String::new();
    match layout {
        0 => {
            (0..n).for_each(|i| app.use_service(act(i)));
            path.push_str("/x");
            app.get("/x", handler);
        }
        1 => {
            for i in 0..n {
                app.use_service_to(if i == 0 { "/" } else { &path }, act(i));
                path.push_str("/s");
            }
            if n == 0 {
                path.push('/');
            }
            app.get(&path, handler);
        }
        _ => {
            // innermost router first
            let mut r = Router::new();
            r.get("/x", handler);
            path.push_str("/x");
            for i in (0..n).rev() {
                r.use_service(act(i));
                let mut outer = Router::new();
                outer.use_router("/in", r);
                r = outer;
                path.insert_str(0, "/in");
            }
            app.use_router("/app", r);
            path.insert_str(0, "/app");
        }
    }

    // the model: an onion
    let mut want: Vec<usize> = vec![];
    let mut entered = 0;
    for i in 0..n {
        want.push(i * 10);
        entered = i + 1;
        if kinds[i] == 1 || kinds[i] == 2 {
            break;
        }
    }
    let stopped = entered > 0 && (kinds[entered - 1] == 1 || kinds[entered - 1] == 2);
    let mut out = if stopped {
        let i = entered - 1;
        entered = i;
        if kinds[i] == 1 {
            Out::Answer(210 + i as u16, format!("m{}", i))
        } else {
            let (_, k, t) = error(i, format!("e{}", i));
            Out::Err(k, t)
        }
    } else {
        want.push(7);
        (0..n).for_each(|i| want.push(1000 + i));
        match h {
            0 => Out::Answer(202, "handler".to_string()),
            1 => Out::Err(1, "handler".to_string()),
            // what was set on the way in stays
            2 => match (0..n).rev().find(|i| kinds[*i] == 7) {
                Some(i) => Out::Answer(230 + i as u16, format!("p{}", i)),
                None => Out::None,
            },
            4 => Out::None,
            _ => Out::Answer(201, String::new()),
        }
    };
    for i in (0..entered).rev() {
        let err = matches!(out, Out::Err(..));
        want.push(i * 10 + 1 + err as usize);
        match &out {
            Out::Answer(s, _) => want.push(*s as usize),
            Out::None => want.push(0),
            Out::Err(k, t) => {
                want.push(20000 + k);
                t.bytes().for_each(|b| want.push(b as usize));
            }
        }
        out = match (kinds[i], out) {
            (3, Out::Err(k, e)) => Out::Err(k, e),
            (3, _) => Out::Answer(210 + i as u16, format!("m{}", i)),
            (4, Out::Err(..)) => Out::Answer(210 + i as u16, format!("m{}", i)),
            (5, Out::Err(k, e)) => Out::Err(k, e),
            (5, _) => Out::None,
            (8, Out::Err(k, e)) => Out::Err(k, e),
            (8, _) => {
                let (_, k, t) = error(i + 2, format!("late{}", i));
                Out::Err(k, t)
            }
            (_, o) => o,
        };
    }
    let (status, body) = match out {
        Out::Answer(s, b) => (s, b),
        Out::None => (200, String::new()),
        Out::Err(_, e) => (500, e),
    };
    cover(stopped as u32);
    cover(10 + (status == 500) as u32);

    let mut c = connect(app, 1).pop().unwrap();
    let got = reply(&mut c, request(Method::GET, &path, Body::empty()));
    observe(got.0 as usize);
    observe_bytes(&got.1);
    check(got.0 == status, 1);
    check(got.1 == body.as_bytes(), 2);
    let seen = l.lock().unwrap().clone();
    observe(seen.len());
    check(seen == want, 3);
    // and the same once more on the same connection
    l.lock().unwrap().clear();
    let again = reply(&mut c, request(Method::GET, &path, Body::empty()));
    check(again == got, 4);
    check(*l.lock().unwrap() == want, 5);
    let _ = block_on(async {});
}
