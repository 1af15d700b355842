//! Raw protocol peers (fake client, fake server) and the recording man-in-the-middle proxy.
use crate::core::*;
use crate::wire::*;
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
use tokio::net::{TcpListener, TcpStream};

static NEXT_IP: AtomicU32 = AtomicU32::new(0);
/// A loopback address and port no one else in this process uses. Three ports in a row share one
/// 127.a.b.c, so that neither the address nor the port alone tells peers apart.
pub fn fresh_addr() -> SocketAddr {
    let n = NEXT_IP.fetch_add(1, SeqCst);
    let pid = std::process::id();
    let (ip, sibling) = (n / 3, n % 3);
    let a = 16 + (pid % 200) as u8;
    let b = (ip / 250) % 250;
    let c = ip % 250 + 1;
    let port = 14000 + sibling * 6000 + (pid / 200) % 5000 + ip / 62500;
    SocketAddr::new(IpAddr::V4(Ipv4Addr::new(127, a, b as u8, c as u8)), port as u16)
}
pub fn can_bind(a: SocketAddr) -> bool {
    std::net::TcpListener::bind(a).is_ok()
}

/// Acknowledge at once: the library does not set TCP_NODELAY, so that its small frames would wait
/// for delayed acknowledgements (40 ms each) and fewer cases fit into the time there is.
fn quickack(s: &TcpStream) {
    use std::os::unix::io::AsRawFd;
    let on: libc::c_int = 1;
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_QUICKACK, &on as *const _ as *const libc::c_void, std::mem::size_of::<libc::c_int>() as libc::socklen_t);
    }
}
pub struct WireRead {
    pub r: OwnedReadHalf,
    pub fb: FrameBuf,
}
pub enum Got {
    Frame(Frame),
    Eof,
    Reset(String),
    Bad(String),
}
impl WireRead {
    pub async fn frame(&mut self) -> Got {
        let mut b = vec![0u8; 32 * 1024];
        loop {
            match self.fb.next() {
                Ok(Some(f)) => return Got::Frame(f),
                Err(e) => return Got::Bad(e),
                Ok(None) => {}
            }
            quickack(self.r.as_ref());
            match self.r.read(&mut b).await {
                Ok(0) => {
                    return if self.fb.leftover() == 0 { Got::Eof } else { Got::Bad("EOF inside a frame".into()) };
                }
                Ok(n) => self.fb.push(&b[..n]),
                Err(e) => return Got::Reset(e.to_string()),
            }
        }
    }
    pub async fn expect(&mut self) -> R<Frame> {
        match self.frame().await {
            Got::Frame(f) => Ok(f),
            Got::Eof => viol("peer closed the connection where a frame was due", serde_json::json!({})),
            Got::Reset(e) => viol("peer reset the connection where a frame was due", serde_json::json!({ "e": e })),
            Got::Bad(e) => viol("peer sent bytes that are not a frame", serde_json::json!({ "e": e })),
        }
    }
    /// true once the peer has closed (reading and discarding whatever comes before).
    pub async fn closed(&mut self) -> Vec<Frame> {
        let mut v = vec![];
        loop {
            match self.frame().await {
                Got::Frame(f) => v.push(f),
                _ => return v,
            }
        }
    }
}
pub struct WireWrite {
    pub w: OwnedWriteHalf,
}
impl WireWrite {
    pub async fn raw(&mut self, b: &[u8]) -> std::io::Result<()> {
        self.w.write_all(b).await?;
        self.w.flush().await
    }
    pub async fn frame(&mut self, f: &Frame) -> std::io::Result<()> {
        self.raw(&f.bytes()).await
    }
    /// Writes with random TCP segmentation.
    pub async fn split(&mut self, b: &[u8], r: &mut Rng, mode: usize) -> std::io::Result<()> {
        let mut i = 0;
        while i < b.len() {
            let n = match mode {
                0 => b.len(),
                1 => 1,
                2 => r.range(1, 20),
                3 => r.range(1, 3000),
                _ => r.range(1, 90000),
            }
            .min(b.len() - i);
            self.w.write_all(&b[i..i + n]).await?;
            self.w.flush().await?;
            i += n;
            match r.below(8) {
                0 => tokio::task::yield_now().await,
                1 if mode != 1 || r.chance(1, 10) => tokio::time::sleep(Duration::from_micros(r.below(800) as u64)).await,
                _ => {}
            }
        }
        Ok(())
    }
}
pub fn wire(s: TcpStream) -> (WireRead, WireWrite) {
    let _ = s.set_nodelay(true);
    let (r, w) = s.into_split();
    (WireRead { r, fb: FrameBuf::default() }, WireWrite { w })
}
pub async fn connect_retry(a: SocketAddr) -> R<TcpStream> {
    match within(HANG, async {
        loop {
            match TcpStream::connect(a).await {
                Ok(s) => return s,
                Err(_) => tokio::time::sleep(Duration::from_millis(3)).await,
            }
        }
    })
    .await
    {
        Ok(s) => Ok(s),
        Err(_) => viol("server never accepted a connection on its address", serde_json::json!({"addr": a.to_string()})),
    }
}
/// Fake client: connects to the server under test and completes the handshake.
pub async fn fake_client(a: SocketAddr) -> R<(WireRead, WireWrite)> {
    let s = connect_retry(a).await?;
    let (mut r, mut w) = wire(s);
    w.frame(&Frame::new(INIT_REQ, 1, enc_init(2, &[("host_port", "0.0.0.0:0"), ("process_name", "tmon")])))
        .await
        .map_err(|e| Fail::Inconclusive(format!("init write {e}")))?;
    match within(HANG, r.expect()).await {
        Err(_) => viol("server never answered the init request", serde_json::json!({})),
        Ok(f) => {
            let f = f?;
            if f.ftype != INIT_RES || f.id != 1 {
                return viol("server answered init with something else", serde_json::json!({"type": f.ftype, "id": f.id}));
            }
            Ok((r, w))
        }
    }
}
/// Fake server side of the handshake on an accepted connection.
pub async fn accept_init(s: TcpStream) -> Result<(WireRead, WireWrite), String> {
    let (mut r, mut w) = wire(s);
    match r.frame().await {
        Got::Frame(f) if f.ftype == INIT_REQ => {
            w.frame(&Frame::new(INIT_RES, f.id, enc_init(2, &[("host_port", "1.2.3.4:5"), ("process_name", "tmon"), ("tchannel_language", "x")])))
                .await
                .map_err(|e| e.to_string())?;
            Ok((r, w))
        }
        Got::Frame(f) => Err(format!("first frame has type {}", f.ftype)),
        _ => Err("no init frame".into()),
    }
}
pub async fn listen(a: SocketAddr) -> R<TcpListener> {
    TcpListener::bind(a).await.map_err(|e| Fail::Inconclusive(format!("harness cannot listen on {a}: {e}")))
}

// ------------------------------------------------------------------ proxy
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dir {
    C2S,
    S2C,
}
#[derive(Clone, Debug)]
pub struct LogEntry {
    pub seq: u64,
    pub conn: usize,
    pub dir: Dir,
    pub frame: Frame,
}
#[derive(Clone, Debug, Default)]
pub struct ProxyPolicy {
    /// 0 = as read; 1 = byte-ish segments; 2 = random segments with pauses; 3 = frame at a time with random pauses
    pub seg: usize,
    /// hold back response messages and release them in random order (per-id order kept)
    pub reorder: bool,
    /// cut the connection after that many bytes in one direction (conn index, dir, bytes, reset?)
    pub cut: Option<(usize, Dir, usize, bool)>,
    /// do not keep payloads (for long runs)
    pub lean: bool,
}
pub struct Proxy {
    pub addr: SocketAddr,
    pub log: Mutex<Vec<LogEntry>>,
    pub bad: Mutex<Vec<String>>,
    pub conns: AtomicU64,
    pub open: AtomicI64,
    pub max_open: AtomicI64,
    pub bytes: AtomicU64,
    pub was_cut: std::sync::atomic::AtomicBool,
    task: Mutex<Option<tokio::task::JoinHandle<()>>>,
    kill: tokio::sync::watch::Sender<u64>,
}
impl Proxy {
    pub async fn start(upstream: SocketAddr, pol: ProxyPolicy, mut rng: Rng) -> R<Arc<Proxy>> {
        let addr = fresh_addr();
        let l = listen(addr).await?;
        let (kill, killed) = tokio::sync::watch::channel(0u64);
        let p = Arc::new(Proxy {
            addr,
            log: Default::default(),
            bad: Default::default(),
            conns: AtomicU64::new(0),
            open: AtomicI64::new(0),
            max_open: AtomicI64::new(0),
            bytes: AtomicU64::new(0),
            was_cut: Default::default(),
            task: Default::default(),
            kill,
        });
        let me = p.clone();
        let h = tokio::spawn(async move {
            loop {
                let (c, _) = match l.accept().await {
                    Ok(x) => x,
                    Err(_) => continue,
                };
                let conn = me.conns.fetch_add(1, SeqCst) as usize;
                let o = me.open.fetch_add(1, SeqCst) + 1;
                me.max_open.fetch_max(o, SeqCst);
                let me = me.clone();
                let pol = pol.clone();
                let rng = rng.fork();
                let mut killed = killed.clone();
                killed.borrow_and_update(); // only later kills concern this connection
                tokio::spawn(async move {
                    if let Ok(s) = TcpStream::connect(upstream).await {
                        let cut = Arc::new(tokio::sync::Notify::new());
                        let mut rng = rng;
                        let (r1, r2) = (rng.fork(), rng.fork());
                        let _ = c.set_nodelay(true);
                        let _ = s.set_nodelay(true);
                        if matches!(pol.cut, Some((k, _, _, true)) if k == conn) {
                            let _ = c.set_linger(Some(Duration::from_secs(0)));
                            let _ = s.set_linger(Some(Duration::from_secs(0)));
                        }
                        let (cr, cw) = c.into_split();
                        let (sr, sw) = s.into_split();
                        let both = async {
                            tokio::join!(
                                pump(me.clone(), conn, Dir::C2S, cr, sw, pol.clone(), r1, cut.clone()),
                                pump(me.clone(), conn, Dir::S2C, sr, cw, pol.clone(), r2, cut.clone())
                            );
                        };
                        tokio::select! {
                            _ = both => {}
                            _ = cut.notified() => { me.was_cut.store(true, SeqCst); }
                            _ = killed.changed() => {}
                        }
                    }
                    me.open.fetch_sub(1, SeqCst);
                });
            }
        });
        *p.task.lock().unwrap() = Some(h);
        Ok(p)
    }
    pub fn entries(&self) -> Vec<LogEntry> {
        self.log.lock().unwrap().clone()
    }
    /// Closes every proxied connection; the listener stays.
    pub fn kill_all(&self) {
        self.kill.send_modify_compat();
    }
    pub fn stop(&self) {
        if let Some(h) = self.task.lock().unwrap().take() {
            h.abort();
        }
        self.kill_all();
    }
}
trait Bump {
    fn send_modify_compat(&self);
}
impl Bump for tokio::sync::watch::Sender<u64> {
    fn send_modify_compat(&self) {
        let v = *self.borrow() + 1;
        let _ = self.send(v);
    }
}
async fn pump(p: Arc<Proxy>, conn: usize, dir: Dir, mut r: OwnedReadHalf, w: OwnedWriteHalf, pol: ProxyPolicy, mut rng: Rng, cut: Arc<tokio::sync::Notify>) {
    let mut fb = FrameBuf::default();
    let mut w = WireWrite { w };
    let mut total = 0usize;
    let limit = match pol.cut {
        Some((c, d, n, _)) if c == conn && d == dir => Some(n),
        _ => None,
    };
    if pol.reorder && dir == Dir::S2C {
        reorder_pump(p, conn, r, w, pol, rng).await;
        return;
    }
    let mut buf = vec![0u8; 64 * 1024];
    loop {
        quickack(r.as_ref());
        let n = match r.read(&mut buf).await {
            Ok(0) | Err(_) => break,
            Ok(n) => n,
        };
        let mut d = &buf[..n];
        let mut stop = false;
        if let Some(l) = limit {
            if total + n >= l {
                d = &d[..l - total];
                stop = true;
            }
        }
        total += d.len();
        p.bytes.fetch_add(d.len() as u64, Relaxed);
        fb.push(d);
        loop {
            match fb.next() {
                Ok(Some(mut frame)) => {
                    if pol.lean {
                        frame.payload = vec![];
                    }
                    p.log.lock().unwrap().push(LogEntry { seq: tick(), conn, dir, frame });
                }
                Ok(None) => break,
                Err(e) => {
                    p.bad.lock().unwrap().push(format!("conn {conn} {dir:?}: {e}"));
                    fb = FrameBuf::default();
                    break;
                }
            }
        }
        let res = match pol.seg {
            0 | 3 => w.raw(d).await,
            1 => w.split(d, &mut rng, if d.len() > 3000 { 3 } else { 2 }).await,
            _ => w.split(d, &mut rng, 3).await,
        };
        if res.is_err() {
            break;
        }
        if pol.seg >= 2 && rng.chance(1, 4) {
            tokio::time::sleep(Duration::from_micros(rng.below(1500) as u64)).await;
        }
        if stop {
            cut.notify_one();
            futures::future::pending::<()>().await;
        }
    }
    if fb.leftover() > 0 && limit.is_none() && !pol.lean {
        p.bad.lock().unwrap().push(format!("conn {conn} {dir:?}: stream ended inside a frame ({} bytes)", fb.leftover()));
    }
    let _ = w.w.shutdown().await;
}
async fn reorder_pump(p: Arc<Proxy>, conn: usize, r: OwnedReadHalf, mut w: WireWrite, pol: ProxyPolicy, mut rng: Rng) {
    let mut rd = WireRead { r, fb: FrameBuf::default() };
    let mut held: Vec<Frame> = vec![];
    loop {
        let got = if held.is_empty() {
            Some(rd.frame().await)
        } else {
            // give other responses a chance to queue up before releasing one
            let wait = Duration::from_micros(200 + rng.below(2500) as u64);
            // FrameBuf keeps partial data, but the read itself must not be lost: poll with timeout on readable()
            tokio::select! {
                biased;
                g = rd.frame_cancel_safe() => Some(g),
                _ = tokio::time::sleep(wait) => None,
            }
        };
        match got {
            Some(Got::Frame(f)) => {
                let mut lf = f.clone();
                if pol.lean {
                    lf.payload = vec![];
                }
                p.log.lock().unwrap().push(LogEntry { seq: tick(), conn, dir: Dir::S2C, frame: lf });
                held.push(f);
                if held.len() < 64 {
                    continue;
                }
            }
            Some(_) => break,
            None => {}
        }
        // release the first held frame of a random id
        let ids: Vec<u32> = held.iter().map(|f| f.id).collect();
        let id = *rng.pick(&ids);
        let k = held.iter().position(|f| f.id == id).unwrap();
        let f = held.remove(k);
        if w.frame(&f).await.is_err() {
            return;
        }
    }
    for f in held {
        let _ = w.frame(&f).await;
    }
    let _ = w.w.shutdown().await;
}
impl WireRead {
    /// Cancel-safe frame read (buffers are in self; `readable` + `try_read`).
    pub async fn frame_cancel_safe(&mut self) -> Got {
        loop {
            match self.fb.next() {
                Ok(Some(f)) => return Got::Frame(f),
                Err(e) => return Got::Bad(e),
                Ok(None) => {}
            }
            quickack(self.r.as_ref());
            if let Err(e) = self.r.readable().await {
                return Got::Reset(e.to_string());
            }
            let mut b = [0u8; 16384];
            match self.r.try_read(&mut b) {
                Ok(0) => return Got::Eof,
                Ok(n) => self.fb.push(&b[..n]),
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => continue,
                Err(e) => return Got::Reset(e.to_string()),
            }
        }
    }
}

// ------------------------------------------------------------------ offline wire monitor
#[derive(Clone, Debug, Default)]
pub struct WireMsg {
    pub conn: usize,
    pub id: u32,
    pub service: String,
    pub scheme: String,
    pub code: u8,
    pub error: Option<(u8, String)>,
    pub args: Vec<Vec<u8>>,
    pub frames: usize,
    pub complete: bool,
    pub seq_first: u64,
    pub seq_last: u64,
}
#[derive(Default, Debug)]
pub struct WireReport {
    pub requests: Vec<WireMsg>,
    pub responses: Vec<WireMsg>,
    pub pings: usize,
    pub frames: usize,
    pub interleaved: usize,
    pub out_of_order: usize,
    pub order_sig: u64,
}
/// Checks a recorded connection log against the protocol. `client_ok`: judge client->server frames
/// (false when the client side is a fake), likewise `server_ok`.
pub fn check_wire(log: &[LogEntry], client_ok: bool, server_ok: bool, complete_run: bool) -> Result<WireReport, String> {
    use std::collections::HashMap;
    let mut rep = WireReport::default();
    struct Conn {
        init_req: Option<u32>,
        init_res: bool,
        open_req: HashMap<u32, (WireMsg, Assembler)>,
        pending: Vec<u32>,            // complete requests awaiting a response, in order of completion
        open_res: HashMap<u32, (WireMsg, Assembler)>,
        /// requests refused with an Error frame before their last fragment
        refused: std::collections::HashSet<u32>,
        pings: Vec<u32>,
        last_req_id: Option<u32>,
        sig: Vec<u8>,
    }
    impl Conn {
        /// ids may be used again once the exchange they stood for is over
        fn in_use(&self, id: u32) -> bool {
            (!self.init_res && self.init_req == Some(id)) || self.open_req.contains_key(&id) || self.pending.contains(&id) || self.open_res.contains_key(&id) || self.pings.contains(&id)
        }
    }
    let mut conns: HashMap<usize, Conn> = HashMap::new();
    for e in log {
        let f = &e.frame;
        rep.frames += 1;
        let c = conns.entry(e.conn).or_insert_with(|| Conn {
            init_req: None,
            init_res: false,
            open_req: Default::default(),
            pending: vec![],
            open_res: Default::default(),
            refused: Default::default(),
            pings: vec![],
            last_req_id: None,
            sig: vec![],
        });
        c.sig.push(f.ftype ^ if e.dir == Dir::C2S { 0x40 } else { 0 });
        c.sig.extend_from_slice(&f.id.to_be_bytes());
        let at = format!("conn {} {:?} frame type {:#x} id {}", e.conn, e.dir, f.ftype, f.id);
        let judge = match e.dir {
            Dir::C2S => client_ok,
            Dir::S2C => server_ok,
        };
        if judge && !f.reserved_zero {
            return Err(format!("{at}: reserved header bytes are not zero"));
        }
        match e.dir {
            Dir::C2S => {
                if c.init_req.is_none() {
                    if f.ftype != INIT_REQ {
                        if judge {
                            return Err(format!("{at}: first frame is not an init request"));
                        }
                        continue;
                    }
                    c.init_req = Some(f.id);
                    if judge {
                        let (v, _) = parse_init(&f.payload).map_err(|x| format!("{at}: {x}"))?;
                        if v != 2 {
                            return Err(format!("{at}: init version {v}"));
                        }
                    }
                    continue;
                }
                if judge && !c.init_res {
                    return Err(format!("{at}: client sent a frame before the init response"));
                }
                match f.ftype {
                    CALL_REQ => {
                        let m = match parse_call_req(&f.payload) {
                            Ok(m) => m,
                            Err(x) if judge => return Err(format!("{at}: malformed call request: {x}")),
                            Err(_) => continue,
                        };
                        if judge {
                            if c.in_use(f.id) {
                                return Err(format!("{at}: message id of another request that is not finished"));
                            }
                            if f.id == u32::MAX {
                                return Err(format!("{at}: reserved message id"));
                            }
                            if m.ttl == 0 {
                                return Err(format!("{at}: zero ttl"));
                            }
                            if m.csum != 0 {
                                return Err(format!("{at}: checksum type {} although only none is supported", m.csum));
                            }
                            if m.flags & !MORE != 0 {
                                return Err(format!("{at}: undefined flags {:#x}", m.flags));
                            }
                            let mut keys: Vec<&String> = m.headers.iter().map(|h| &h.0).collect();
                            keys.sort();
                            keys.dedup();
                            if keys.len() != m.headers.len() {
                                return Err(format!("{at}: duplicate transport header"));
                            }
                            if !m.headers.iter().any(|h| h.0 == "as") || !m.headers.iter().any(|h| h.0 == "cn") {
                                return Err(format!("{at}: mandatory transport header (as, cn) missing: {:?}", m.headers));
                            }
                        }
                        if c.open_req.len() > 0 {
                            rep.interleaved += 1;
                        }
                        let mut a = Assembler::default();
                        a.add(&m.chunks);
                        let w = WireMsg {
                            conn: e.conn,
                            id: f.id,
                            service: m.service.clone(),
                            scheme: m.headers.iter().find(|h| h.0 == "as").map(|h| h.1.clone()).unwrap_or_default(),
                            frames: 1,
                            seq_first: e.seq,
                            seq_last: e.seq,
                            ..Default::default()
                        };
                        c.last_req_id = Some(f.id);
                        if m.flags & MORE != 0 {
                            c.open_req.insert(f.id, (w, a));
                        } else {
                            finish(&mut rep.requests, w, a, &at, judge)?;
                            if !c.refused.remove(&f.id) {
                                c.pending.push(f.id);
                            }
                        }
                    }
                    CALL_REQ_CONT => {
                        let (mut w, mut a) = match c.open_req.remove(&f.id) {
                            Some(x) => x,
                            None if judge => return Err(format!("{at}: continuation of a request that is not open")),
                            None => continue,
                        };
                        let m = match parse_cont(&f.payload) {
                            Ok(m) => m,
                            Err(x) if judge => return Err(format!("{at}: malformed continuation: {x}")),
                            Err(_) => continue,
                        };
                        if judge && m.csum != 0 {
                            return Err(format!("{at}: checksum type {}", m.csum));
                        }
                        if judge && m.flags & !MORE != 0 {
                            return Err(format!("{at}: undefined flags {:#x}", m.flags));
                        }
                        if c.last_req_id != Some(f.id) {
                            rep.interleaved += 1;
                        }
                        c.last_req_id = Some(f.id);
                        a.add(&m.chunks);
                        w.frames += 1;
                        w.seq_last = e.seq;
                        if m.flags & MORE != 0 {
                            c.open_req.insert(f.id, (w, a));
                        } else {
                            finish(&mut rep.requests, w, a, &at, judge)?;
                            if !c.refused.remove(&f.id) {
                                c.pending.push(f.id);
                            }
                        }
                    }
                    PING_REQ => {
                        if judge && !f.payload.is_empty() {
                            return Err(format!("{at}: ping with a body"));
                        }
                        if judge && c.in_use(f.id) {
                            return Err(format!("{at}: ping under the message id of another request that is not finished"));
                        }
                        c.pings.push(f.id);
                        rep.pings += 1;
                    }
                    CANCEL => {
                        c.open_req.remove(&f.id);
                    }
                    _ if judge => return Err(format!("{at}: client must not send this frame type")),
                    _ => {}
                }
            }
            Dir::S2C => {
                if !c.init_res {
                    if judge {
                        if f.ftype == ERROR {
                            continue;
                        }
                        if f.ftype != INIT_RES {
                            return Err(format!("{at}: first server frame is not an init response"));
                        }
                        if Some(f.id) != c.init_req {
                            return Err(format!("{at}: init response id differs from request id {:?}", c.init_req));
                        }
                        let (v, _) = parse_init(&f.payload).map_err(|x| format!("{at}: {x}"))?;
                        if v != 2 {
                            return Err(format!("{at}: init response version {v}"));
                        }
                    }
                    if f.ftype == INIT_RES {
                        c.init_res = true;
                    }
                    continue;
                }
                match f.ftype {
                    CALL_RES | ERROR => {
                        let known = c.pending.iter().position(|x| *x == f.id);
                        if judge {
                            if c.open_res.contains_key(&f.id) {
                                return Err(format!("{at}: second response to one request, before the first one is complete"));
                            }
                            // an Error may also answer a request that is still incomplete
                            if known.is_none() && !(f.ftype == ERROR && (c.open_req.contains_key(&f.id) || f.id == u32::MAX)) {
                                return Err(format!("{at}: response under an id without an unanswered, completely sent request"));
                            }
                        }
                        if let Some(k) = known {
                            if k > 0 {
                                rep.out_of_order += 1;
                            }
                            c.pending.remove(k);
                        }
                        if c.open_req.contains_key(&f.id) {
                            c.refused.insert(f.id);
                        }
                        let mut w = WireMsg { conn: e.conn, id: f.id, frames: 1, seq_first: e.seq, seq_last: e.seq, ..Default::default() };
                        if f.ftype == ERROR {
                            match parse_error(&f.payload) {
                                Ok((code, _, msg)) => {
                                    if judge && (code == 0 || (code > 8 && code != 0xff)) {
                                        return Err(format!("{at}: undefined error code {code}"));
                                    }
                                    w.error = Some((code, msg));
                                }
                                Err(x) if judge => return Err(format!("{at}: malformed error frame: {x}")),
                                Err(_) => {}
                            }
                            w.complete = true;
                            rep.responses.push(w);
                            continue;
                        }
                        let m = match parse_call_res(&f.payload) {
                            Ok(m) => m,
                            Err(x) if judge => return Err(format!("{at}: malformed call response: {x}")),
                            Err(_) => continue,
                        };
                        if judge {
                            if m.code > 1 {
                                return Err(format!("{at}: undefined response code {}", m.code));
                            }
                            if m.csum != 0 {
                                return Err(format!("{at}: checksum type {}", m.csum));
                            }
                            if m.flags & !MORE != 0 {
                                return Err(format!("{at}: undefined flags {:#x}", m.flags));
                            }
                            if !m.headers.iter().any(|h| h.0 == "as") {
                                return Err(format!("{at}: arg scheme header missing in response"));
                            }
                        }
                        w.code = m.code;
                        w.scheme = m.headers.iter().find(|h| h.0 == "as").map(|h| h.1.clone()).unwrap_or_default();
                        let mut a = Assembler::default();
                        a.add(&m.chunks);
                        if m.flags & MORE != 0 {
                            c.open_res.insert(f.id, (w, a));
                        } else {
                            finish(&mut rep.responses, w, a, &at, judge)?;
                        }
                    }
                    CALL_RES_CONT => {
                        let (mut w, mut a) = match c.open_res.remove(&f.id) {
                            Some(x) => x,
                            None if judge => return Err(format!("{at}: continuation of a response that is not open")),
                            None => continue,
                        };
                        let m = match parse_cont(&f.payload) {
                            Ok(m) => m,
                            Err(x) if judge => return Err(format!("{at}: malformed continuation: {x}")),
                            Err(_) => continue,
                        };
                        if judge && m.csum != 0 {
                            return Err(format!("{at}: checksum type {}", m.csum));
                        }
                        if judge && m.flags & !MORE != 0 {
                            return Err(format!("{at}: undefined flags {:#x}", m.flags));
                        }
                        a.add(&m.chunks);
                        w.frames += 1;
                        w.seq_last = e.seq;
                        if m.flags & MORE != 0 {
                            c.open_res.insert(f.id, (w, a));
                        } else {
                            finish(&mut rep.responses, w, a, &at, judge)?;
                        }
                    }
                    PING_RES => {
                        if judge && !f.payload.is_empty() {
                            return Err(format!("{at}: ping response with a body"));
                        }
                        match c.pings.iter().position(|x| *x == f.id) {
                            Some(k) => {
                                c.pings.remove(k);
                            }
                            None if judge => return Err(format!("{at}: ping response without a ping")),
                            None => {}
                        }
                    }
                    _ if judge => return Err(format!("{at}: server must not send this frame type")),
                    _ => {}
                }
            }
        }
    }
    for (k, c) in &conns {
        if complete_run {
            if client_ok && !c.open_req.is_empty() {
                return Err(format!("conn {k}: requests {:?} were never completed on the wire", c.open_req.keys()));
            }
            if server_ok && !c.open_res.is_empty() {
                return Err(format!("conn {k}: responses {:?} were never completed on the wire", c.open_res.keys()));
            }
            if server_ok && !c.pending.is_empty() {
                return Err(format!("conn {k}: requests {:?} were never answered", c.pending));
            }
            if server_ok && !c.pings.is_empty() {
                return Err(format!("conn {k}: pings {:?} were never answered", c.pings));
            }
        }
        rep.order_sig ^= hash64(&c.sig).wrapping_add(*k as u64);
    }
    Ok(rep)
}
fn finish(out: &mut Vec<WireMsg>, mut w: WireMsg, a: Assembler, at: &str, judge: bool) -> Result<(), String> {
    if judge && a.args.len() != 3 {
        return Err(format!("{at}: message carries {} args instead of 3 (lengths {:?})", a.args.len(), a.args.iter().map(|x| x.len()).collect::<Vec<_>>()));
    }
    w.args = a.args;
    w.complete = true;
    out.push(w);
    Ok(())
}
