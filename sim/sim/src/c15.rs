//! C15: the example client and server over a simulated network.
//!
//! The handlers, the client's functions and hyper's HTTP/1 run as they are, as tasks of a seeded executor, over
//! byte streams that deliver late and in pieces, stall, break, and lose the server.

use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

use exnode::http::header::{HeaderValue, AUTHORIZATION, CONTENT_TYPE};
use exnode::hyper::{self, Body, Request, Response, StatusCode};
use exnode::tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use exnode::tower_service::Service;
use exnode::{auth, futures_util, request};
use oauth_credentials::{Credentials, Token};
use simrt::{advance, below, chance, check, draw, eval, ev, fault_chance, finding, node as cur_node, pickc, probe, rt, set_node, state, sut, violation, wall_secs, Panicked, FAULT, SCHED};

use crate::gen;
use crate::world::{self, MS, S};

const FORM: &str = "application/x-www-form-urlencoded";
const BASE: &str = "http://127.0.0.1:8080";
const CLIENT: Credentials<&str> = Credentials { identifier: "client", secret: "client_secret" };
const TEMP: (&str, &str) = ("request", "request_secret");
const TOKEN: (&str, &str) = ("token", "token_secret");
const VERIFIER: &str = "verifier";

// ---------------------------------------------------------------------------------------- executor

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst);
    }
}

struct Task {
    fut: Pin<Box<dyn Future<Output = ()>>>,
    node: usize,
    flag: Arc<Flag>,
    /// Which life of the server the task belongs to.
    life: Option<u32>,
    name: &'static str,
}

struct World {
    timers: BTreeMap<(u64, u64), Waker>,
    seq: u64,
    spawned: Vec<Task>,
    life: u32,
    up: bool,
    /// Streams to the server.
    conns: Vec<Arc<Mutex<Pipe>>>,
    specs: Vec<Arc<Spec>>,
    server: usize,
    heal_at: u64,
    partition: Option<(usize, u64, u64)>,
    delay: u64,
    cut: u32,
    vanish: u32,
    fragment: bool,
    authorized: u32,
    /// Whether a connection has failed in any way.
    hurt: bool,
    current: Option<Arc<Spec>>,
}

thread_local!(static WORLD: RefCell<Option<World>> = const { RefCell::new(None) });

fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    WORLD.with(|w| f(w.borrow_mut().as_mut().expect("a world")))
}

fn at(t: u64, w: Waker) {
    with(|x| {
        x.seq += 1;
        let s = x.seq;
        x.timers.insert((t, s), w);
    })
}

fn spawn(name: &'static str, node: usize, life: Option<u32>, f: impl Future<Output = ()> + 'static) {
    with(|w| w.spawned.push(Task { fut: Box::pin(f), node, flag: Arc::new(Flag(AtomicBool::new(true))), life, name }))
}

struct Sleep(u64, bool);
fn sleep(ns: u64) -> Sleep {
    Sleep(rt().now + ns, false)
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if rt().now >= self.0 {
            return Poll::Ready(());
        }
        if !self.1 {
            self.1 = true;
            at(self.0, cx.waker().clone());
        }
        Poll::Pending
    }
}

#[derive(Clone)]
struct Local(&'static str);
impl<F: Future + 'static> hyper::rt::Executor<F> for Local {
    fn execute(&self, f: F) {
        spawn(self.0, cur_node(), None, async move {
            f.await;
        });
    }
}

/// Runs until nothing is left to happen.
fn run(mut until: impl FnMut() -> bool) {
    let mut tasks: Vec<Task> = Vec::new();
    loop {
        if until() {
            break;
        }
        with(|w| {
            tasks.append(&mut w.spawned);
            let life = w.life;
            // The tasks of a crashed server are gone.
            tasks.retain(|t| t.life.map_or(true, |l| l == life));
        });
        let ready: Vec<usize> = tasks.iter().enumerate().filter(|t| t.1.flag.0.load(SeqCst)).map(|t| t.0).collect();
        if ready.is_empty() {
            let Some((t, w)) = with(|w| w.timers.pop_first()) else { break };
            if t.0 > rt().now {
                advance(t.0 - rt().now);
            }
            w.wake();
            continue;
        }
        let i = ready[draw(SCHED, ready.len() as u32) as usize];
        if ready.len() > 1 {
            probe("tasks.choices");
        }
        let t = &mut tasks[i];
        t.flag.0.store(false, SeqCst);
        set_node(t.node);
        let waker = Waker::from(t.flag.clone());
        let r = sut(|| t.fut.as_mut().poll(&mut Context::from_waker(&waker)));
        match r {
            Ok(Poll::Pending) => {}
            Ok(Poll::Ready(())) => drop(tasks.swap_remove(i)),
            Err(p) if t.life.is_some() => {
                // As tokio does: the connection dies with its task.
                ev(|| format!("a task of the server panicked: {} at {}", p.msg, p.loc));
                probe("server.panics");
                let spec = with(|w| w.current.take());
                let ts = spec.as_ref().and_then(|s| s.get("oauth_timestamp")?.parse::<u64>().ok()).unwrap_or(0);
                if ts > u64::MAX - 30 && p.msg.contains("overflow") {
                    finding("panic-on-huge-timestamp", format!("the server panicked: {} at {}: {:?}", p.msg, p.loc, spec));
                    drop(tasks.swap_remove(i));
                    continue;
                }
                // (A body that ends early is such a case.)
                check!(with(|w| w.hurt), "panic", "the server panicked: {} at {}", p.msg, p.loc);
                drop(tasks.swap_remove(i));
            }
            Err(p) => violation("panic", format!("{} panicked: {} at {}", t.name, p.msg, p.loc)),
        }
    }
}

/// A future whose panics are its result.
struct Catch<F>(Pin<Box<F>>);
impl<F: Future> Future for Catch<F> {
    type Output = Result<F::Output, Panicked>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        match sut(|| self.0.as_mut().poll(cx)) {
            Ok(Poll::Pending) => Poll::Pending,
            Ok(Poll::Ready(v)) => Poll::Ready(Ok(v)),
            Err(p) => Poll::Ready(Err(p)),
        }
    }
}

struct Within<F>(Pin<Box<F>>, Sleep);
impl<F: Future> Future for Within<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if let Poll::Ready(v) = self.0.as_mut().poll(cx) {
            return Poll::Ready(Some(v));
        }
        Pin::new(&mut self.1).poll(cx).map(|()| None)
    }
}
fn within<F: Future>(ns: u64, f: F) -> Within<F> {
    Within(Box::pin(f), sleep(ns))
}

// ---------------------------------------------------------------------------------------- network

/// One direction of a connection.
#[derive(Default)]
struct Pipe {
    q: VecDeque<(u64, Vec<u8>)>,
    last: u64,
    eof: Option<u64>,
    reset: bool,
    /// Bytes vanish from here on.
    dead: bool,
    reader: Option<Waker>,
}

impl Pipe {
    fn kill(&mut self) {
        hurt();
        self.reset = true;
        if let Some(w) = self.reader.take() {
            w.wake();
        }
    }
}

struct Stream {
    /// The client's node.
    node: usize,
    rx: Arc<Mutex<Pipe>>,
    tx: Arc<Mutex<Pipe>>,
}

fn faulty() -> bool {
    rt().now < with(|w| w.heal_at)
}

fn hurt() {
    with(|w| w.hurt = true);
}

fn partitioned(n: usize) -> bool {
    let now = rt().now;
    with(|w| now < w.heal_at && w.partition.map_or(false, |(p, from, until)| p == n && (from..until).contains(&now)))
}

fn latency() -> u64 {
    let max = if faulty() { with(|w| w.delay) } else { 20 * MS };
    MS + draw(FAULT, 1 << 12) as u64 * (max >> 12)
}

impl AsyncRead for Stream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut p = self.rx.lock().unwrap();
        if p.reset {
            return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
        }
        let now = rt().now;
        match p.q.front_mut() {
            Some((t, data)) if *t <= now => {
                let mut n = data.len().min(buf.remaining());
                if n > 1 && with(|w| w.fragment) {
                    n = 1 + draw(FAULT, n as u32) as usize;
                    probe("fault.short_read");
                }
                buf.put_slice(&data[..n]);
                data.drain(..n);
                if data.is_empty() {
                    p.q.pop_front();
                }
                return Poll::Ready(Ok(()));
            }
            Some(_) => {}
            None => {
                if p.eof.map_or(false, |t| t <= now) {
                    return Poll::Ready(Ok(()));
                }
            }
        }
        p.reader = Some(cx.waker().clone());
        let next = p.q.front().map(|x| x.0).or(p.eof);
        drop(p);
        if let Some(t) = next {
            at(t, cx.waker().clone());
        }
        Poll::Pending
    }
}

impl AsyncWrite for Stream {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut p = self.tx.lock().unwrap();
        if p.reset {
            return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
        }
        let mut n = buf.len();
        if n > 1 && with(|w| w.fragment) {
            n = 1 + draw(FAULT, n as u32) as usize;
            probe("fault.short_write");
        }
        let t = p.last.max(rt().now + latency());
        p.last = t;
        if partitioned(self.node) {
            probe("fault.net_partitioned");
            p.dead = true;
        }
        if p.dead {
            hurt();
        }
        if faulty() && fault_chance(with(|w| w.vanish)) {
            probe("fault.net_stalled");
            hurt();
            p.dead = true;
        }
        if p.dead {
            return Poll::Ready(Ok(n));
        }
        if faulty() && fault_chance(with(|w| w.cut)) {
            // Some of the bytes arrive.
            probe("fault.connection_reset");
            hurt();
            let k = draw(FAULT, n as u32) as usize;
            if draw(FAULT, 2) == 0 && k > 0 {
                p.q.push_back((t, buf[..k].to_vec()));
                p.eof = Some(t);
                p.dead = true;
            } else {
                p.kill();
                drop(p);
                self.rx.lock().unwrap().kill();
                return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
            }
        } else {
            p.q.push_back((t, buf[..n].to_vec()));
        }
        let w = p.reader.take();
        drop(p);
        if let Some(w) = w {
            at(t, w);
        }
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.close();
        Poll::Ready(Ok(()))
    }
}

impl Stream {
    fn close(&self) {
        let mut p = self.tx.lock().unwrap();
        if p.eof.is_none() && !p.dead {
            let t = p.last.max(rt().now + MS);
            p.eof = Some(t);
            if let Some(w) = p.reader.take() {
                drop(p);
                at(t, w);
            }
        }
    }
}

impl Drop for Stream {
    fn drop(&mut self) {
        if WORLD.with(|w| w.try_borrow().map_or(false, |w| w.is_some())) {
            self.close();
        }
    }
}

/// Connects to the server; a task of the server serves the connection.
async fn connect() -> io::Result<Stream> {
    let node = cur_node();
    sleep(latency()).await;
    if partitioned(node) {
        sleep(60 * S).await;
        return Err(io::ErrorKind::TimedOut.into());
    }
    let (up, life, server) = with(|w| (w.up, w.life, w.server));
    if !up {
        probe("fault.connection_refused");
        return Err(io::ErrorKind::ConnectionRefused.into());
    }
    let (a, b) = (Arc::new(Mutex::new(Pipe::default())), Arc::new(Mutex::new(Pipe::default())));
    with(|w| w.conns.extend([a.clone(), b.clone()]));
    let theirs = Stream { node, rx: a.clone(), tx: b.clone() };
    spawn("a connection of the server", server, Some(life), async move {
        let svc = hyper::service::service_fn(|req| async move { Ok::<_, std::convert::Infallible>(serve(req).await) });
        let _ = hyper::server::conn::Http::new().with_executor(Local("the server")).serve_connection(theirs, svc).await;
    });
    Ok(Stream { node, rx: b, tx: a })
}

/// The client's HTTP: a connection that is kept while it works.
#[derive(Clone)]
struct Http {
    node: usize,
    conn: Arc<Mutex<Option<hyper::client::conn::SendRequest<Body>>>>,
    /// What the next message means.
    attack: Option<Arc<Spec>>,
}

#[derive(Debug)]
#[allow(dead_code)]
enum Failed {
    Io(io::Error),
    Http(hyper::Error),
}

impl Http {
    fn new() -> Self {
        Http { node: cur_node(), conn: Arc::default(), attack: None }
    }

    async fn send(self, mut req: Request<Body>) -> Result<Response<Body>, hyper::Error> {
        let old = self.conn.lock().unwrap().take();
        let mut usable = None;
        if let Some(mut s) = old {
            if futures_util::future::poll_fn(|cx| Poll::Ready(matches!(s.poll_ready(cx), Poll::Ready(Ok(()))))).await {
                probe("client.connection_reused");
                usable = Some(s);
            }
        }
        let mut s = match usable {
            Some(s) => s,
            None => {
                let io = match connect().await {
                    Ok(io) => io,
                    // As hyper's error cannot be constructed: a connection that breaks at once.
                    Err(_) => {
                        let p = Arc::new(Mutex::new(Pipe { reset: true, ..Pipe::default() }));
                        Stream { node: self.node, rx: p.clone(), tx: p }
                    }
                };
                let (s, c) = hyper::client::conn::Builder::new().executor(Local("the client")).handshake::<_, Body>(io).await?;
                spawn("a connection of the client", self.node, None, async move {
                    let _ = c.await;
                });
                s
            }
        };
        // As hyper's client does.
        if draw(FAULT, 4) > 0 {
            req.headers_mut().insert("host", HeaderValue::from_static("127.0.0.1:8080"));
            let pq = req.uri().path_and_query().map(|p| p.as_str().to_string()).unwrap_or_default();
            *req.uri_mut() = pq.parse().expect("a path");
        }
        let r = s.call(req).await;
        if r.is_ok() {
            *self.conn.lock().unwrap() = Some(s);
        }
        r
    }
}

impl Service<Request<Body>> for Http {
    type Response = Response<Body>;
    type Error = hyper::Error;
    type Future = Pin<Box<dyn Future<Output = Result<Response<Body>, hyper::Error>>>>;

    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), hyper::Error>> {
        Poll::Ready(Ok(()))
    }

    fn call(&mut self, mut req: Request<Body>) -> Self::Future {
        let this = self.clone();
        let attack = self.attack.clone();
        Box::pin(async move {
            let spec = match attack {
                Some(s) => s,
                None => {
                    // What the library's user sends: read strictly.
                    let (head, body) = req.into_parts();
                    let body = hyper::body::to_bytes(body).await?;
                    req = Request::from_parts(head, Body::default());
                    let s = Spec::of(&req, &body);
                    *req.body_mut() = match draw(FAULT, 2) {
                        0 => Body::from(body),
                        _ => Body::wrap_stream(futures_util::stream::iter(body.chunks(7).map(|c| Ok::<_, io::Error>(c.to_vec())).collect::<Vec<_>>())),
                    };
                    Arc::new(s)
                }
            };
            let id = with(|w| {
                w.specs.push(spec);
                w.specs.len() - 1
            });
            req.headers_mut().insert("x-sim-id", HeaderValue::from(id));
            this.send(req).await
        })
    }
}

// ---------------------------------------------------------------------------------------- messages

/// The meaning of a message.
#[derive(Clone, Debug)]
struct Spec {
    honest: bool,
    method: String,
    path: String,
    /// From the header, the query and a form.
    params: Vec<(String, String)>,
}

fn form(s: &str) -> Option<Vec<(String, String)>> {
    s.split('&')
        .filter(|p| !p.is_empty())
        .map(|p| {
            let (k, v) = p.split_once('=').unwrap_or((p, ""));
            let d = |s: &str| model::unpct_strict(&s.replace('+', "%20").replace('*', "%2A")).ok();
            Some((d(k)?, d(v)?))
        })
        .collect()
}

impl Spec {
    fn of(req: &Request<Body>, body: &[u8]) -> Spec {
        let bad = |what: &str, e: String| -> ! { violation("malformed", format!("the client sent {}: {}", what, e)) };
        let h = req.headers().get(AUTHORIZATION).and_then(|h| h.to_str().ok()).unwrap_or("");
        let mut params = match model::parse_header(h) {
            Ok(p) => p,
            Err(e) => bad("a bad header", format!("{} in {:?}", e, h)),
        };
        let is_form = req.headers().get(CONTENT_TYPE).map_or(false, |c| c == FORM);
        let body = std::str::from_utf8(body).unwrap_or("\u{0}");
        for (on, text) in [(true, req.uri().query().unwrap_or("")), (is_form, body)] {
            match model::parse_form(text) {
                Ok(p) if on => params.extend(p),
                _ if !on && text.is_empty() => {}
                Ok(p) => bad("an unexpected body", format!("{:?}", p)),
                Err(e) => bad("bad parameters", format!("{} in {:?}", e, text)),
            }
        }
        Spec { honest: true, method: req.method().to_string(), path: req.uri().path().into(), params }
    }

    fn get(&self, k: &str) -> Option<&str> {
        self.params.iter().find(|p| p.0 == k).map(|p| &*p.1)
    }

    fn secrets(path: &str) -> Option<(&'static str, Option<&'static str>)> {
        match path {
            "/echo" => Some((TOKEN.0, Some(TOKEN.1))),
            "/request_token" => Some((TEMP.0, Some(TEMP.1))),
            _ => None,
        }
    }

    /// Whether the message is authentic, and fresh at `now`.
    fn verdict(&self, now: i64) -> Result<(), String> {
        let need = |k: &str| self.get(k).ok_or(format!("no {}", k));
        let (token, token_secret) = match Spec::secrets(&self.path) {
            Some((t, s)) => (Some(t), s),
            None => (None, None),
        };
        let sig = need("oauth_signature")?;
        match need("oauth_signature_method")? {
            "HMAC-SHA1" => {
                need("oauth_nonce")?;
                need("oauth_timestamp")?;
                let ps: Vec<_> = self.params.iter().filter(|p| p.0 != "oauth_signature").cloned().collect();
                let base = model::base_string(&self.method, &format!("{}{}", BASE, self.path), &ps);
                let want = model::hmac_signature(&base, CLIENT.secret, token_secret);
                // (The padding may be missing.)
                if model::unb64(&format!("{}=", sig.trim_end_matches('='))) != model::unb64(&want) {
                    return Err(format!("the signature should be {:?} for {:?}", want, base));
                }
            }
            "PLAINTEXT" => {
                if sig != format!("{}&{}", CLIENT.secret, token_secret.unwrap_or("")) {
                    return Err("bad PLAINTEXT signature".into());
                }
            }
            m => return Err(format!("method {:?}", m)),
        }
        if need("oauth_consumer_key")? != CLIENT.identifier {
            return Err("unknown client".into());
        }
        if self.get("oauth_token") != token {
            return Err("unknown token".into());
        }
        if self.get("oauth_verifier") != (self.path == "/request_token").then_some(VERIFIER) {
            return Err("bad verifier".into());
        }
        if self.path == "/request_temp_credentials" && self.get("oauth_callback") != Some("oob") {
            return Err("bad callback".into());
        }
        if let Some(t) = self.get("oauth_timestamp") {
            let t: u64 = t.parse().map_err(|_| "bad timestamp")?;
            if (t as i128) + 30 < now as i128 {
                return Err("stale".into());
            }
        }
        Ok(())
    }
}

/// Notes which message is being handled.
struct Current<F>(Pin<Box<F>>, Arc<Spec>);
impl<F: Future> Future for Current<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let spec = self.1.clone();
        with(|w| w.current = Some(spec));
        let r = self.0.as_mut().poll(cx);
        with(|w| w.current = None);
        r
    }
}

/// The server's service, observed.
async fn serve(req: Request<Body>) -> Response<Body> {
    let id: Option<usize> = req.headers().get("x-sim-id").and_then(|v| v.to_str().ok()?.parse().ok());
    let Some(spec) = id.and_then(|i| with(|w| w.specs.get(i).cloned())) else {
        violation("harness", format!("an unknown message: {:?}", req));
    };
    probe("server.requests");
    let t0 = wall_secs(cur_node());
    let res = Current(Box::pin(exnode::route(req)), spec.clone()).await;
    let t1 = wall_secs(cur_node());
    eval();
    let (early, late) = (spec.verdict(t0.min(t1)), spec.verdict(t0.max(t1)));
    ev(|| format!("{:?} -> {} (model: {:?} {:?})", spec, res.status(), early, late));
    state(simrt::fnv(res.status().as_u16() as u64, format!("{} {} {:?}", spec.method, spec.path, early.as_ref().err().map(|e| e.split(' ').next())).as_bytes()));
    if res.status().is_success() {
        probe("server.authorized");
        if let Err(e) = early {
            let mut fixed = (*spec).clone();
            let token_secret = Spec::secrets(&fixed.path).and_then(|s| s.1);
            set(&mut fixed, "oauth_signature", &format!("{}&{}", CLIENT.secret, token_secret.unwrap_or("")));
            if spec.get("oauth_signature").is_some() && spec.get("oauth_signature_method") == Some("PLAINTEXT") && fixed.verdict(t0.min(t1)).is_ok() {
                finding("authorized-with-wrong-plaintext-signature", format!("the server authorizes a message although: {}: {:?}", e, spec));
                return res;
            }
            violation("authorized", format!("the server authorizes a message although: {}: {:?}", e, spec));
        }
        with(|w| w.authorized += 1);
    } else {
        probe("server.refused");
        if spec.honest && late.is_ok() && early.is_ok() {
            violation("refused", format!("the server answers {} to {:?}", res.status(), spec));
        }
    }
    res
}

// ---------------------------------------------------------------------------------------- clients

/// A client's disk.
#[derive(Default)]
struct Disk {
    temp: Option<Credentials<Box<str>>>,
    token: Option<Credentials<Box<str>>>,
    echoed: usize,
    attempts: u32,
}

enum Call {
    Get(String),
    Post(String, String),
    GetMore(Option<String>, u64, String),
    PostMore(Option<String>, bool, String),
}

type Sent = Pin<Box<dyn Future<Output = Result<Response<Body>, hyper::Error>>>>;

impl Call {
    fn gen() -> Call {
        let opt = || chance(128).then(gen::text);
        match below(4) {
            0 => Call::Get(gen::text()),
            1 => Call::Post(gen::text(), gen::text()),
            2 => Call::GetMore(opt(), pickc(&[0, 7, u64::MAX]), if chance(128) { String::new() } else { gen::text() }),
            _ => Call::PostMore(opt(), chance(128), gen::text()),
        }
    }

    fn params(&self) -> Vec<(&str, String)> {
        match self {
            Call::Get(foo) => vec![("foo", foo.clone())],
            Call::Post(bar, baz) => vec![("bar", bar.clone()), ("baz", baz.clone())],
            Call::GetMore(a, z, hash) => {
                let mut v = vec![("oauth_z", z.to_string())];
                v.extend(a.clone().map(|a| ("a", a)));
                if !hash.is_empty() {
                    v.push(("oauth_body_hash", hash.clone()));
                }
                v
            }
            Call::PostMore(b, z, o) => {
                let mut v = vec![("Z", z.to_string()), ("oauth_o", o.clone())];
                v.extend(b.clone().map(|b| ("b", b)));
                v
            }
        }
    }

    fn send(&self, t: &Token<&str, Box<str>>, http: Http) -> Sent {
        match self {
            Call::Get(foo) => exnode::GetEcho { foo }.send(t, http),
            Call::Post(bar, baz) => exnode::PostEcho { bar, baz }.send(t, http),
            Call::GetMore(a, z, hash) => exnode::GetMore { a: a.as_deref(), z: *z, hash }.send(t, http),
            Call::PostMore(b, z, o) => exnode::PostMore { b: b.as_deref(), z: *z, oauth_o: o }.send(t, http),
        }
    }

    /// Whether the answer is the server's echo.
    fn judge(&self, status: StatusCode, body: &[u8]) -> bool {
        if !status.is_success() {
            return false;
        }
        eval();
        let text = String::from_utf8_lossy(body);
        let got = match form(&text) {
            Some(g) => g,
            None => violation("echo", format!("the answer {:?} is malformed", text)),
        };
        let mut own: Vec<(String, String)> = got.iter().filter(|p| !gen::PROTOCOL.contains(&&*p.0)).cloned().collect();
        own.sort();
        let mut want: Vec<(String, String)> = self.params().into_iter().map(|(k, v)| (k.to_string(), v)).collect();
        want.sort();
        check!(own == want, "echo", "the client sent {:?}, the server received {:?}", want, own);
        true
    }
}

async fn one(call: &Call, t: &Token<&str, Box<str>>, http: Http) -> bool {
    let Ok(res) = call.send(t, http).await else { return false };
    let status = res.status();
    match hyper::body::to_bytes(res.into_body()).await {
        Ok(b) => call.judge(status, &b),
        Err(_) => false,
    }
}

/// One go of the example client from what the disk has.
async fn attempt(disk: Arc<Mutex<Disk>>, calls: Arc<Vec<Call>>) {
    let http = Http::new();
    let temp = disk.lock().unwrap().temp.clone();
    let token = disk.lock().unwrap().token.clone();
    let token = match token {
        Some(t) => t,
        None => {
            let temp = match temp {
                Some(t) => t,
                None => {
                    let t = auth::temporary_credentials(&CLIENT, "oob", http.clone()).await;
                    check!((t.identifier(), t.secret()) == TEMP, "credentials", "the client got {:?} as temporary credentials", (t.identifier(), t.secret()));
                    disk.lock().unwrap().temp = Some(t.clone());
                    t
                }
            };
            let t = auth::token_credentials(&CLIENT, &temp, VERIFIER, http.clone()).await;
            check!((t.identifier(), t.secret()) == TOKEN, "credentials", "the client got {:?} as token credentials", (t.identifier(), t.secret()));
            disk.lock().unwrap().token = Some(t.clone());
            t
        }
    };
    let t = Token::new(CLIENT, token);
    loop {
        let i = disk.lock().unwrap().echoed;
        let Some(call) = calls.get(i) else { return };
        match calls.get(i + 1) {
            // As the example: two at a time.
            Some(next) if draw(FAULT, 2) == 1 => {
                let (a, b) = futures_util::future::join(one(call, &t, http.clone()), one(next, &t, http.clone())).await;
                if !(a && b) {
                    return;
                }
                disk.lock().unwrap().echoed += 2;
            }
            _ => {
                if !one(call, &t, http.clone()).await {
                    return;
                }
                disk.lock().unwrap().echoed += 1;
            }
        }
    }
}

async fn client(node: usize, disk: Arc<Mutex<Disk>>, calls: Arc<Vec<Call>>, heal_at: u64, done: Arc<AtomicBool>) {
    sleep(below(5) as u64 * S).await;
    loop {
        let began = rt().now;
        disk.lock().unwrap().attempts += 1;
        let r = within(15 * S, Catch(Box::pin(attempt(disk.clone(), calls.clone())))).await;
        match r {
            None => {
                hurt();
                probe("client.timeouts");
            }
            Some(Ok(())) => {
                if disk.lock().unwrap().echoed >= calls.len() {
                    ev(|| format!("the client of node {} is done", node));
                    done.store(true, SeqCst);
                    return;
                }
                probe("client.failed_calls");
            }
            Some(Err(p)) => {
                probe("client.panics");
                ev(|| format!("the client of node {} failed: {} at {}", node, p.msg, p.loc));
            }
        }
        if began > heal_at + S {
            violation("no-progress", format!("an attempt of the client failed without faults; it got {:?}", disk.lock().unwrap().echoed));
        }
        sleep(S + below(5) as u64 * S).await;
    }
}

// ---------------------------------------------------------------------------------------- attacks

const NAMES: &[&str] = &[
    "oauth_callback", "oauth_consumer_key", "oauth_nonce", "oauth_signature", "oauth_signature_method", "oauth_timestamp", "oauth_token", "oauth_verifier",
    "oauth_version", "foo", "a",
];

/// A message by someone without the secrets (or with the wrong ones), built on one that was seen.
fn forge(seen: &[Arc<Spec>]) -> Option<Spec> {
    let honest: Vec<_> = seen.iter().filter(|s| s.honest).collect();
    let mut s = match honest.len() {
        0 => Spec { honest: false, method: "GET".into(), path: "/echo".into(), params: vec![("foo".into(), "x".into())] },
        n => Spec { honest: false, ..(**honest[below(n)]).clone() },
    };
    if honest.is_empty() || chance(100) {
        // A new message, signed with what the attacker has.
        let own: Vec<(String, String)> = s.params.iter().filter(|p| !gen::PROTOCOL.contains(&&*p.0)).cloned().collect();
        s.path = gen_path();
        s.method = if s.path == "/echo" && chance(128) { "GET" } else { "POST" }.into();
        let secret = |right: &'static str| -> String {
            match below(5) {
                0 => right.to_string(),
                1 => String::new(),
                2 => right[..right.len() - 1].to_string(),
                3 => format!("{}x", right),
                _ => gen::text(),
            }
        };
        let need = Spec::secrets(&s.path);
        let tok = match need {
            _ if chance(40) => None,
            Some((t, sec)) => Some((if chance(200) { t.to_string() } else { gen::text() }, secret(sec.unwrap_or("")))),
            None if chance(60) => Some((TOKEN.0.to_string(), secret(TOKEN.1))),
            None => None,
        };
        let cs = secret(CLIENT.secret);
        let ck = if chance(220) { CLIENT.identifier.to_string() } else { gen::text() };
        let ver = match s.path.as_str() {
            "/request_token" if chance(220) => Some(if chance(200) { VERIFIER.to_string() } else { gen::text() }),
            _ if chance(20) => Some(VERIFIER.to_string()),
            _ => None,
        };
        let cb = match s.path.as_str() {
            "/request_temp_credentials" if chance(220) => Some(if chance(200) { "oob".into() } else { gen::text() }),
            _ => None,
        };
        let now = wall_secs(cur_node()).max(0) as u64;
        let ts = match below(6) {
            0..=2 => now.to_string(),
            3 => (now + pickc(&[1u64, 31, 1000])).to_string(),
            4 => now.saturating_sub(pickc(&[29u64, 30, 31, 32, 60, 100_000])).to_string(),
            _ => pickc(&["0", "-1", "", "1e9", "18446744073709551615", "18446744073709551586", "18446744073709551616", "99999999999999999999", "0x5", " 5"]).to_string(),
        };
        let plain = chance(90);
        let mut p = own;
        let mut add = |k: &str, v: Option<String>| {
            if let Some(v) = v {
                p.push((k.into(), v));
            }
        };
        add("oauth_consumer_key", Some(ck));
        add("oauth_token", tok.as_ref().map(|t| t.0.clone()));
        add("oauth_verifier", ver);
        add("oauth_callback", cb);
        add("oauth_nonce", (chance(230)).then(|| "n0".into()));
        add("oauth_timestamp", (chance(230)).then_some(ts));
        add("oauth_signature_method", Some(match below(12) {
            0 => pickc(&["", "RSA-SHA1", "hmac-sha1", "HMAC-SHA256", "PLAINTEXT ", "None"]).to_string(),
            _ => if plain { "PLAINTEXT" } else { "HMAC-SHA1" }.to_string(),
        }));
        s.params = p;
        let ts_secret = tok.as_ref().map(|t| &*t.1);
        let sig = if plain {
            match below(3) {
                0 => format!("{}&{}", cs, ts_secret.unwrap_or("")),
                1 => format!("{}{}", cs, ts_secret.unwrap_or("")),
                _ => gen::text(),
            }
        } else {
            let base = model::base_string(&s.method, &format!("{}{}", BASE, s.path), &s.params);
            model::hmac_signature(&base, &cs, ts_secret)
        };
        if chance(245) {
            s.params.push(("oauth_signature".into(), sig));
        }
        probe("attack.signed");
        if chance(128) {
            return Some(s);
        }
    }
    // Changes to a signed message.
    for _ in 0..below(3) {
        let n = s.params.len();
        match below(11) {
            0 if n > 0 => {
                let i = below(n);
                s.params.remove(i);
            }
            1 if n > 0 => {
                let i = below(n);
                s.params[i].1 = gen::text();
            }
            2 if n > 0 => {
                // One character.
                let i = below(n);
                let mut t: Vec<char> = s.params[i].1.chars().collect();
                if !t.is_empty() {
                    let j = below(t.len());
                    t[j] = pickc(&['a', 'A', '0', '=', '%', '&', ' ', '+', '/', 'é']);
                }
                s.params[i].1 = t.into_iter().collect();
            }
            3 => set(&mut s, NAMES[below(NAMES.len())], &gen::text()),
            4 if n > 1 => {
                // Two values change places.
                let (i, j) = (below(n), below(n));
                let v = s.params[i].1.clone();
                s.params[i].1 = std::mem::replace(&mut s.params[j].1, v);
            }
            5 => s.method = pickc(&["GET", "POST", "PUT", "HEAD", "OPTIONS"]).into(),
            6 => s.path = gen_path(),
            7 => set(&mut s, "oauth_signature_method", pickc(&["PLAINTEXT", "HMAC-SHA1", "RSA-SHA1"])),
            8 => set(&mut s, "oauth_signature", pickc(&["", "&", "client_secret&", "client_secret", "client_secret&request_secret", "AAAAAAAAAAAAAAAAAAAAAAAAAAA=", "AAAA", "client_secret&token_secretx"])),
            9 => set(&mut s, "oauth_token", pickc(&["token", "request", "", "toke"])),
            _ => {
                let t = (wall_secs(cur_node()) + pickc(&[0i64, 5, -5, 3600])).to_string();
                set(&mut s, "oauth_timestamp", &t);
            }
        }
    }
    Some(s)
}

fn set(s: &mut Spec, k: &str, v: &str) {
    match s.params.iter_mut().find(|p| p.0 == k) {
        Some(p) => p.1 = v.into(),
        None => s.params.push((k.into(), v.into())),
    }
}

fn gen_path() -> String {
    pickc(&["/echo", "/echo", "/request_token", "/request_temp_credentials"]).into()
}

/// The message in one of the ways to write it.
fn write(s: &Spec) -> Request<Body> {
    let (mut header, mut query, mut body) = (Vec::new(), Vec::new(), Vec::new());
    let placement = below(4);
    for (k, v) in &s.params {
        let protocol = k.starts_with("oauth_");
        match (placement, protocol) {
            (0, true) | (1, true) => header.push((k, v)),
            (0, false) | (2, _) => query.push((k, v)),
            (1, false) => body.push((k, v)),
            _ => match below(3) {
                0 => header.push((k, v)),
                1 => query.push((k, v)),
                _ => body.push((k, v)),
            },
        }
    }
    let pct = |s: &str| model::pct(s.as_bytes());
    let join = |ps: &[(&String, &String)]| ps.iter().map(|(k, v)| format!("{}={}", pct(k), pct(v))).collect::<Vec<_>>().join("&");
    let mut b = Request::builder().method(&*s.method).uri(if query.is_empty() { s.path.clone() } else { format!("{}?{}", s.path, join(&query)) });
    if !header.is_empty() {
        let style = below(4);
        // A parameter without a name cannot be written.
        let h = header
            .iter()
            .map(|(k, v)| {
                let (k, v) = (pct(k), pct(v));
                match style {
                    1 if !v.is_empty() => format!("{}={}", k, v),
                    2 => format!("{} = \"{}\"", k, v.chars().map(|c| if c.is_ascii_alphabetic() && draw(FAULT, 4) == 0 { format!("\\{}", c) } else { c.to_string() }).collect::<String>()),
                    _ => format!("{}=\"{}\"", k, v),
                }
            })
            .collect::<Vec<_>>()
            .join(pickc(&[",", ", ", " ,\t", ","]));
        if style == 3 {
            b = b.header(AUTHORIZATION, "Basic YTpi");
        }
        b = b.header(AUTHORIZATION, format!("OAuth {}", h));
    }
    if !body.is_empty() {
        b = b.header(CONTENT_TYPE, FORM);
    }
    b.body(Body::from(join(&body))).expect("a request")
}

async fn attacker() {
    let mut http = Http::new();
    for _ in 0..1 + below(6) {
        sleep(below(12) as u64 * S + MS).await;
        let seen = with(|w| w.specs.clone());
        let Some(s) = forge(&seen) else { continue };
        let req = write(&s);
        probe("attack.sent");
        http.attack = Some(Arc::new(s));
        if within(10 * S, http.call(req)).await.is_none() {
            hurt();
        }
    }
}

/// The server's life: crashes and restarts.
async fn chaos(n: usize, heal_at: u64) {
    for _ in 0..n {
        sleep((1 + draw(FAULT, 30) as u64) * S).await;
        if rt().now >= heal_at {
            return;
        }
        probe("fault.server_crash");
        let conns = with(|w| {
            w.life += 1;
            w.up = false;
            std::mem::take(&mut w.conns)
        });
        for c in conns {
            c.lock().unwrap().kill();
        }
        let down = (draw(FAULT, 10) as u64 * S).min(heal_at.saturating_sub(rt().now));
        sleep(down).await;
        with(|w| w.up = true);
    }
}

pub fn flow() {
    world::swarm();
    rt().clock.tick = 0;
    let epoch = 1_000_000_000 + below(2_000_000_000) as i64;
    let server = world::node(epoch, 0);
    let nclients = 1 + below(2);
    let skew = pickc(&[0i64, 10, 20]);
    let heal_at = pickc(&[10u64, 40, 90]) * S;
    let clients: Vec<usize> = (0..nclients).map(|_| world::node(epoch, skew)).collect();
    let calm = chance(60);
    let f = |v: u32| if calm { 0 } else { v };
    WORLD.with(|w| {
        *w.borrow_mut() = Some(World {
            timers: BTreeMap::new(),
            seq: 0,
            spawned: Vec::new(),
            life: 0,
            up: true,
            conns: Vec::new(),
            specs: Vec::new(),
            server,
            heal_at,
            partition: if below(3) == 0 { Some((clients[below(nclients)], below(10) as u64 * S, (10 + below(60) as u64) * S)) } else { None },
            delay: pickc(&[20 * MS, S, 8 * S, 20 * S]),
            cut: f(pickc(&[0, 4, 20])),
            vanish: f(pickc(&[0, 4, 20])),
            fragment: chance(90),
            authorized: 0,
            hurt: false,
            current: None,
        })
    });
    let dones: Vec<Arc<AtomicBool>> = (0..nclients).map(|_| Arc::default()).collect();
    for (i, &c) in clients.iter().enumerate() {
        let calls: Vec<Call> = (0..below(4)).map(|_| Call::gen()).collect();
        ev(|| format!("client {}: {:?}", c, calls.iter().map(|c| c.params()).collect::<Vec<_>>()));
        let done = dones[i].clone();
        spawn("a client", c, None, client(c, Arc::default(), Arc::new(calls), heal_at, done));
        // A clock that is wrong until it is set.
        if chance(40) {
            let by = pickc(&[-100i64, -40, 40, 5000]);
            let when = below(heal_at as usize / S as usize) as u64 * S;
            spawn("a clock", c, None, async move {
                sleep(when).await;
                probe("fault.clock_jump");
                simrt::jump_clock(c, by as i128 * S as i128);
                sleep(heal_at.saturating_sub(rt().now).max(1)).await;
                simrt::jump_clock(c, -by as i128 * S as i128);
            });
        }
    }
    if chance(180) {
        let n = world::node(epoch, 0);
        spawn("an attacker", n, None, attacker());
    }
    let crashes = if calm { 0 } else { below(3) };
    spawn("chaos", server, None, chaos(crashes, heal_at));
    run(|| dones.iter().all(|d| d.load(SeqCst)) && rt().now > 30 * S);
    check!(dones.iter().all(|d| d.load(SeqCst)), "no-progress", "a client did not finish");
    WORLD.with(|w| drop(w.borrow_mut().take()));
}
