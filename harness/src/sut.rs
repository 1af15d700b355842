//! Driving the real library: configs, recording handlers, calls recorded at the client boundary.
use crate::core::*;
use crate::net::*;
use bytes::Bytes;
use futures::future::BoxFuture;
use serde_json::json;
use std::future::Future;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tchannel_rs::errors::HandlerError;
use tchannel_rs::handler::{HandlerResult, RequestHandler, RequestHandlerAsync};
use tchannel_rs::messages::{JsonMessage, MessageChannel, RawMessage};
use tchannel_rs::{Config, ConfigBuilder, SubChannel, TChannel};

pub type Raw = RawMessage;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub max_connections: u32,
    pub lifetime: Option<Duration>,
    pub test_connection: bool,
    pub frame_buffer_size: usize,
    pub server_tasks: usize,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { max_connections: 1, lifetime: Some(Duration::from_secs(600)), test_connection: false, frame_buffer_size: 100, server_tasks: 4 }
    }
}
impl Cfg {
    pub fn build(&self, addr: SocketAddr) -> Config {
        ConfigBuilder::default()
            .max_connections(self.max_connections)
            .lifetime(self.lifetime)
            .test_connection(self.test_connection)
            .frame_buffer_size(self.frame_buffer_size)
            .server_address(addr)
            .server_tasks(self.server_tasks)
            .build()
            .expect("config")
    }
    pub fn random(r: &mut Rng) -> Cfg {
        Cfg {
            max_connections: *r.pick(&[1, 1, 1, 2, 3, 5]),
            lifetime: *r.pick(&[None, Some(Duration::from_secs(600))]),
            test_connection: r.chance(1, 4),
            frame_buffer_size: *r.pick(&[1, 2, 3, 10, 100, 100, 1000]),
            server_tasks: *r.pick(&[1, 1, 2, 4, 4, 16]),
        }
    }
    pub fn no_test(mut self) -> Cfg {
        self.test_connection = false;
        self
    }
    pub fn sig(&self) -> String {
        format!("mc{}t{}fb{}st{}", self.max_connections, self.test_connection as u8, self.frame_buffer_size, self.server_tasks)
    }
}

pub fn client(cfg: &Cfg) -> TChannel {
    // The client never listens; the address is unused.
    TChannel::new(cfg.build("127.0.0.1:1".parse().unwrap())).expect("client")
}
/// Starts the SUT server on a fresh address and waits until it accepts connections.
pub async fn server(cfg: &Cfg) -> R<(TChannel, SocketAddr)> {
    let addr = fresh_addr();
    let s = TChannel::new(cfg.build(addr)).map_err(|e| Fail::Violation(format!("TChannel::new failed: {e}"), json!({})))?;
    if !can_bind(addr) {
        return inconcl("address not free");
    }
    s.start_server().map_err(|e| Fail::Violation(format!("start_server failed: {e}"), json!({})))?;
    Ok((s, addr))
}
pub async fn await_listening(addr: SocketAddr) -> R<()> {
    connect_retry(addr).await.map(|_| ())
}

pub type RawFn = Arc<dyn Fn(RawMessage) -> BoxFuture<'static, HandlerResult<RawMessage>> + Send + Sync>;
pub struct RawH(pub RawFn);
impl std::fmt::Debug for RawH {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("RawH")
    }
}
impl RequestHandlerAsync for RawH {
    type REQ = RawMessage;
    type RES = RawMessage;
    fn handle(&mut self, request: RawMessage) -> Pin<Box<dyn Future<Output = HandlerResult<RawMessage>> + Send + '_>> {
        valid_text(&request);
        (self.0)(request)
    }
}
pub struct RawSync(pub Box<dyn FnMut(RawMessage) -> HandlerResult<RawMessage> + Send + Sync>);
impl std::fmt::Debug for RawSync {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("RawSync")
    }
}
impl RequestHandler for RawSync {
    type REQ = RawMessage;
    type RES = RawMessage;
    fn handle(&mut self, request: RawMessage) -> HandlerResult<RawMessage> {
        valid_text(&request);
        (self.0)(request)
    }
}
pub struct JsonSync(pub Box<dyn FnMut(JsonMessage) -> HandlerResult<JsonMessage> + Send + Sync>);
impl std::fmt::Debug for JsonSync {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("JsonSync")
    }
}
impl RequestHandler for JsonSync {
    type REQ = JsonMessage;
    type RES = JsonMessage;
    fn handle(&mut self, request: JsonMessage) -> HandlerResult<JsonMessage> {
        (self.0)(request)
    }
}
/// Gives way once before it runs.
impl RequestHandlerAsync for JsonSync {
    type REQ = JsonMessage;
    type RES = JsonMessage;
    fn handle(&mut self, request: JsonMessage) -> Pin<Box<dyn Future<Output = HandlerResult<JsonMessage>> + Send + '_>> {
        Box::pin(async move {
            tokio::task::yield_now().await;
            (self.0)(request)
        })
    }
}
pub fn raw_async<F, Fut>(f: F) -> RawH
where
    F: Fn(RawMessage) -> Fut + Send + Sync + 'static,
    Fut: Future<Output = HandlerResult<RawMessage>> + Send + 'static,
{
    RawH(Arc::new(move |m| Box::pin(f(m))))
}
pub fn raw_sync(f: impl FnMut(RawMessage) -> HandlerResult<RawMessage> + Send + Sync + 'static) -> RawSync {
    RawSync(Box::new(f))
}
pub fn json_sync(f: impl FnMut(JsonMessage) -> HandlerResult<JsonMessage> + Send + Sync + 'static) -> JsonSync {
    JsonSync(Box::new(f))
}
pub fn echo() -> RawSync {
    raw_sync(Ok)
}

pub fn msg(e: impl Into<String>, h: impl Into<String>, b: impl Into<Bytes>) -> RawMessage {
    RawMessage::new(e.into(), h.into(), b.into())
}
pub fn same(a: &RawMessage, b: &RawMessage) -> bool {
    a.endpoint() == b.endpoint() && a.header() == b.header() && a.body() == b.body()
}
pub fn brief(m: &RawMessage) -> serde_json::Value {
    let short = |b: &[u8]| {
        if b.len() <= 48 {
            String::from_utf8_lossy(b).to_string()
        } else {
            format!("{}..[{} bytes, hash {:016x}]", String::from_utf8_lossy(&b[..24]), b.len(), hash64(b))
        }
    };
    json!({"arg1": short(m.endpoint().as_bytes()), "arg2": short(m.header().as_bytes()), "arg3": short(m.body())})
}
pub fn diff(want: &RawMessage, got: &RawMessage) -> serde_json::Value {
    let first = |a: &[u8], b: &[u8]| a.iter().zip(b.iter()).position(|(x, y)| x != y);
    json!({"expected": brief(want), "got": brief(got),
        "expected_lens": [want.endpoint().len(), want.header().len(), want.body().len()],
        "got_lens": [got.endpoint().len(), got.header().len(), got.body().len()],
        "first_difference": [first(want.endpoint().as_bytes(), got.endpoint().as_bytes()), first(want.header().as_bytes(), got.header().as_bytes()), first(want.body(), got.body())]})
}

/// Calls that took longer than 5 s, but completed.
pub static SLOW_CALLS: AtomicUsize = AtomicUsize::new(0);
/// Strings that are not valid UTF-8 were handed out (using them is undefined behaviour).
pub static INVALID_TEXT: AtomicUsize = AtomicUsize::new(0);
pub fn valid_text(m: &RawMessage) {
    if [m.endpoint(), m.header()].iter().any(|s| std::str::from_utf8(std::hint::black_box(s.as_bytes())).is_err()) {
        INVALID_TEXT.fetch_add(1, SeqCst);
    }
}
/// All calls made; every fourth is preempted at random suspension points.
pub static CALLS: AtomicUsize = AtomicUsize::new(0);
/// One call through the public API with the bounded-progress monitor.
pub async fn call_beats(sc: &SubChannel, m: RawMessage, to: SocketAddr, beats: u64) -> R<HandlerResult<RawMessage>> {
    let info = brief(&m);
    let t0 = std::time::Instant::now();
    let n = CALLS.fetch_add(1, SeqCst) as u64;
    let send = MessageChannel::<RawMessage, RawMessage>::send(sc, m, to);
    let done = if n % 4 == 3 { within(beats, Preempted { fut: Box::pin(send), state: n }).await } else { within(beats, send).await };
    match done {
        Ok(r) => {
            match &r {
                Ok(m) | Err(HandlerError::MessageError(m)) => valid_text(m),
                _ => {}
            }
            if t0.elapsed() > Duration::from_secs(5) {
                SLOW_CALLS.fetch_add(1, SeqCst);
                if std::env::var("TMON_TRACE").is_ok() {
                    eprintln!("slow call {info} {:?} {}", t0.elapsed(), r.as_ref().map(|_| "ok".to_string()).unwrap_or_else(|e| e.to_string()));
                }
            }
            Ok(r)
        }
        Err(Hang) => viol("call never completed (bounded-progress monitor)", json!({"request": info, "heartbeats": beats, "panics": sut_panic_json()})),
    }
}
pub async fn call(sc: &SubChannel, m: RawMessage, to: SocketAddr) -> R<HandlerResult<RawMessage>> {
    call_beats(sc, m, to, HANG_CONNECT).await
}
pub async fn jcall(sc: &SubChannel, m: JsonMessage, to: SocketAddr) -> R<HandlerResult<JsonMessage>> {
    match within(HANG_CONNECT, MessageChannel::<JsonMessage, JsonMessage>::send(sc, m, to)).await {
        Ok(r) => Ok(r),
        Err(Hang) => viol("json call never completed (bounded-progress monitor)", json!({})),
    }
}
pub fn errkind<M: tchannel_rs::messages::Message>(e: &HandlerError<M>) -> &'static str {
    match e {
        HandlerError::InternalError(_) => "internal",
        HandlerError::GeneralError(_) => "general",
        HandlerError::MessageError(_) => "message",
    }
}
pub async fn sub(t: &TChannel, name: &str) -> R<Arc<SubChannel>> {
    t.subchannel(name).await.map_err(|e| Fail::Violation(format!("subchannel({name:?}) failed: {e}"), json!({})))
}
pub async fn reg<H: RequestHandlerAsync + 'static>(sc: &SubChannel, ep: &str, h: H) -> R<()>
where
    H::REQ: 'static,
    H::RES: 'static,
{
    sc.register_async(ep, h).await.map_err(|e| Fail::Violation(format!("register({ep:?}) failed: {e}"), json!({})))
}
pub async fn reg_sync<H: RequestHandler + 'static>(sc: &SubChannel, ep: &str, h: H) -> R<()>
where
    H::REQ: 'static,
    H::RES: 'static,
{
    sc.register(ep, h).await.map_err(|e| Fail::Violation(format!("register({ep:?}) failed: {e}"), json!({})))
}

/// Handler-side record of one execution.
#[derive(Clone, Debug)]
pub struct Exec {
    pub service: String,
    pub endpoint: String,
    pub req: RawMessage,
    pub enter: u64,
    pub exit: u64,
}
#[derive(Default)]
pub struct ExecLog {
    pub v: Mutex<Vec<Exec>>,
    pub inside: AtomicUsize,
    pub max_inside: AtomicUsize,
}
impl ExecLog {
    pub fn enter(&self) -> u64 {
        let n = self.inside.fetch_add(1, SeqCst) + 1;
        self.max_inside.fetch_max(n, SeqCst);
        tick()
    }
    pub fn exit(&self, service: &str, endpoint: &str, req: &RawMessage, enter: u64) {
        self.inside.fetch_sub(1, SeqCst);
        self.v.lock().unwrap().push(Exec { service: service.into(), endpoint: endpoint.into(), req: req.clone(), enter, exit: tick() });
    }
    pub fn take(&self) -> Vec<Exec> {
        std::mem::take(&mut *self.v.lock().unwrap())
    }
    pub fn count(&self) -> usize {
        self.v.lock().unwrap().len()
    }
}
/// Random pause at a suspension point of cooperative code.
pub async fn jitter(r: &mut Rng) {
    match r.below(10) {
        0..=3 => {}
        4..=6 => tokio::task::yield_now().await,
        7 | 8 => tokio::time::sleep(Duration::from_micros(r.below(600) as u64)).await,
        _ => tokio::time::sleep(Duration::from_millis(r.below(4) as u64)).await,
    }
}

/// Leaves the current task with room for only `left` operations on tokio primitives before the
/// runtime preempts it (its cooperative budget): the code run next gets suspended at its `left`-th
/// await of a lock or channel although nothing else keeps it waiting there.
pub async fn preempt_after(left: usize) {
    tokio::task::yield_now().await; // a new budget of 128
    let sem = tokio::sync::Semaphore::new(1);
    for _ in 0..128usize.saturating_sub(left) {
        let _ = sem.acquire().await;
    }
}

// ---------------------------------------------------------------- payload sizes
pub const FRAME_PAYLOAD: usize = 65534 - 16;
/// Bytes of args (with their length prefixes) that fit the first request frame next to the fields.
pub fn first_cap(service: &str, scheme: &str) -> usize {
    FRAME_PAYLOAD - (1 + 4 + 25 + 1 + service.len() + 1 + (1 + 2 + 1 + scheme.len()) + (1 + 2 + 1 + service.len()) + 1)
}
pub fn first_cap_res(service: &str, scheme: &str) -> usize {
    FRAME_PAYLOAD - (1 + 1 + 25 + 1 + (1 + 2 + 1 + scheme.len()) + (1 + 2 + 1 + service.len()) + 1)
}
pub const CONT_CAP: usize = FRAME_PAYLOAD - 2;

pub fn random_len(r: &mut Rng) -> usize {
    match r.below(16) {
        0 | 1 => 0,
        2 => 1,
        3 => r.range(2, 10),
        4..=7 => r.range(0, 300),
        8 | 9 => r.range(0, 5000),
        10 => r.range(65000, 66000),
        11 => r.range(60000, 140000),
        12 => CONT_CAP - 8 + r.below(16),
        13 => 2 * CONT_CAP - 60 + r.below(80),
        14 => r.range(0, 70000),
        _ => r.range(0, 400000),
    }
}
/// Texts of exactly `n` bytes; some with characters at their ends that a normalisation would touch.
pub fn random_text(r: &mut Rng, n: usize) -> String {
    let mut s = plain_text(r, n);
    if n >= 8 && s.is_ascii() && r.chance(1, 3) {
        const ODD: [&str; 16] = ["\u{feff}", " ", "\t", "\n", "\r\n", "\0", "\u{200b}", "\u{a0}", "\u{2028}", "\"", "/", "\\", "%00", "\u{fffd}", "e\u{301}", "\u{7f}"];
        let (a, b) = (*r.pick(&ODD), *r.pick(&ODD));
        if r.chance(2, 3) {
            s.replace_range(..a.len(), a);
        }
        if r.chance(2, 3) {
            s.replace_range(n - b.len().., b);
        }
    }
    s
}
fn plain_text(r: &mut Rng, n: usize) -> String {
    match r.below(3) {
        0 => r.ascii(n),
        1 => {
            // multi-byte utf-8, possibly split by fragmentation in the middle of a character
            let cs = ['é', 'ß', '漢', '🦀', 'a', '\u{0}', '\n', '"', '\u{7ff}', '\u{ffff}', '\u{10ffff}'];
            let mut s = String::with_capacity(n + 4);
            while s.len() < n {
                s.push(*r.pick(&cs));
            }
            while s.len() > n {
                s.pop();
            }
            while s.len() < n {
                s.push('x');
            }
            s
        }
        _ => {
            let b = b'a' + r.below(26) as u8;
            String::from_utf8(vec![b; n]).unwrap()
        }
    }
}
