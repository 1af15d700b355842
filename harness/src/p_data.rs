//! C01 payload fidelity, C02 correlation, C03 exactly-once, C04 routing, C22 JSON.
use crate::core::*;
use crate::ensure;
use crate::net::*;
use crate::sut::*;
use crate::wire::*;
use bytes::Bytes;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::Ordering::*;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tchannel_rs::messages::{JsonMessage, RawMessage};
use tchannel_rs::{SubChannel, TChannel};
use tokio::net::TcpStream;

// =================================================================== C01
struct Pair {
    _server: TChannel,
    server_sub: Arc<SubChannel>,
    sub: Arc<SubChannel>,
    addr: std::net::SocketAddr,
    seen: Arc<Mutex<Vec<RawMessage>>>,
    plan: Arc<Mutex<Option<RawMessage>>>,
    registered: HashSet<String>,
}
impl Pair {
    async fn new(cfg: &Cfg, service: &str) -> R<Pair> {
        let (server, addr) = server(cfg).await?;
        let server_sub = sub(&server, service).await?;
        await_listening(addr).await?;
        let c = client(cfg);
        let s = sub(&c, service).await?;
        Ok(Pair { _server: server, server_sub, sub: s, addr, seen: Default::default(), plan: Default::default(), registered: Default::default() })
    }
    /// One call: the handler must see exactly `req`, the caller exactly `res`.
    async fn round(&mut self, ctx: &Ctx, req: RawMessage, res: RawMessage, is_err: bool) -> R<()> {
        if self.registered.insert(req.endpoint().clone()) {
            let (seen, plan) = (self.seen.clone(), self.plan.clone());
            reg_sync(
                &self.server_sub,
                req.endpoint(),
                raw_sync(move |m| {
                    seen.lock().unwrap().push(m);
                    let p = plan.lock().unwrap().take().unwrap_or_default();
                    if is_err {
                        Err(tchannel_rs::errors::HandlerError::MessageError(p))
                    } else {
                        Ok(p)
                    }
                }),
            )
            .await?;
        }
        self.seen.lock().unwrap().clear();
        *self.plan.lock().unwrap() = Some(res.clone());
        let lens = json!({"request_lens": [req.endpoint().len(), req.header().len(), req.body().len()], "response_lens": [res.endpoint().len(), res.header().len(), res.body().len()]});
        let got = call(&self.sub, req.clone(), self.addr).await?;
        let seen = std::mem::take(&mut *self.seen.lock().unwrap());
        ctx.add("calls", 1);
        ctx.add("bytes_checked", (req.header().len() + req.body().len() + req.endpoint().len() + res.header().len() + res.body().len() + res.endpoint().len()) as u64);
        for s in &seen {
            ensure!(same(s, &req), "handler received arguments that differ from those sent", json!({"sizes": lens, "diff": diff(&req, s)}));
        }
        ensure!(seen.len() == 1, format!("handler saw the request {} times", seen.len()), json!({"sizes": lens, "result": format!("{:.300}", format!("{:?}", got.as_ref().err()))}));
        let got = match got {
            Ok(m) => m,
            Err(tchannel_rs::errors::HandlerError::MessageError(m)) => m,
            Err(e) => return viol("a well-formed call failed", json!({"sizes": lens, "error": format!("{:.300}", e.to_string())})),
        };
        ensure!(same(&got, &res), "caller received a response that differs from what the handler returned", json!({"sizes": lens, "diff": diff(&res, &got)}));
        Ok(())
    }
}
fn text(r: &mut Rng, n: usize) -> String {
    random_text(r, n)
}
pub fn boundary_lens(case: u64, service: &str) -> Option<(bool, [usize; 3], String)> {
    // enumerate: dir(2) x which(3) x frame(3) x delta(13) x follow(4)
    let dir = case % 2;
    let which = (case / 2) % 3;
    let k = (case / 6) % 3;
    let delta = (case / 18) % 13;
    let follow = (case / 234) % 4;
    let n = 2 * 3 * 3 * 13 * 4;
    if case >= n {
        return None;
    }
    let cap = if dir == 0 { first_cap(service, "raw") } else { first_cap_res(service, "raw") };
    let (fa, fb) = [(0, 0), (0, 9), (9, 0), (9, 9)][follow as usize];
    let mut lens = [0usize; 3];
    let before: usize = match which {
        0 => 0,
        1 => {
            lens[0] = fa + if dir == 0 { 1 } else { 0 };
            2 + lens[0]
        }
        _ => {
            lens[0] = fa + if dir == 0 { 1 } else { 0 };
            lens[1] = fb;
            4 + lens[0] + lens[1]
        }
    };
    let l = cap as i64 - before as i64 - 2 + k as i64 * (CONT_CAP as i64 - 2) + delta as i64 - 6;
    lens[which as usize] = l as usize;
    if which == 0 {
        lens[1] = fa;
        lens[2] = fb;
    } else if which == 1 {
        lens[2] = fb;
    }
    Some((dir == 0, lens, format!("dir{dir} arg{} frame{} delta{} follow{follow}", which + 1, k + 1, delta as i64 - 6)))
}
pub fn c01(ctx: Arc<Ctx>) -> i32 {
    const PER: u64 = 13;
    let total: u64 = 2 * 3 * 3 * 13 * 4;
    ctx.scenarios(0, "boundary", 8, total / PER, total / PER, 1.0, |ctx, i, mut r| {
        with_rt(Rt::pick(&mut r.clone()), move || async move {
            let service = ["service", "s", "a-longer-service-name"][r.below(3)].to_string();
            let mut p = Pair::new(&Cfg::default(), &service).await?;
            for j in 0..PER {
                // spread so that each scenario sees all deltas of one configuration
                let case = (i % 18) + 18 * j + 234 * (i / 18);
                let Some((is_req, l, sig)) = boundary_lens(case, &service) else { continue };
                let big = msg(text(&mut r, l[0]), text(&mut r, l[1]), Bytes::from(r.bytes(l[2])));
                let small = msg(format!("ep{}", r.below(3)), "h", "b");
                if is_req {
                    p.round(&ctx, big, small, false).await?;
                } else {
                    p.round(&ctx, small, big, false).await?;
                }
                ctx.eval(&format!("{sig} {}", service.len()), true);
                if j == 0 && i % 17 == 0 {
                    ctx.sample(json!({"case": sig, "arg_lens": l}));
                }
            }
            Ok(())
        })
    });
    let (min, max) = if ctx.quick() { (40, 1200) } else { (200, 100000) };
    ctx.scenarios(1, "random", 8, min, max, 1.0, |ctx, i, mut r| {
        with_rt(Rt::pick(&mut r.clone()), move || async move {
            let n = *r.pick(&[0usize, 1, 7, 30, 120, 255]);
            let service = text(&mut r, n);
            let cfg = Cfg::random(&mut r);
            let mut p = Pair::new(&cfg, &service).await?;
            for _ in 0..12 {
                let mut l = [0usize; 6];
                for x in l.iter_mut() {
                    *x = random_len(&mut r);
                }
                if r.chance(1, 3) {
                    // land cumulative argument ends around frame boundaries
                    let cap = first_cap(&service, "raw");
                    l[0] = r.range(0, 20);
                    l[1] = r.range(0, cap);
                    l[2] = (cap - 6 + r.below(12)).saturating_sub(l[0] + l[1]);
                }
                let e = if r.chance(1, 2) { format!("ep{}", r.below(5)) } else { text(&mut r, l[0]) };
                let body = match r.below(3) {
                    0 => vec![0u8; l[2]],
                    1 => vec![0xff; l[2]],
                    _ => r.bytes(l[2]),
                };
                let req = msg(e, text(&mut r, l[1]), body);
                let res = msg(text(&mut r, l[3]), text(&mut r, l[4]), r.bytes(l[5]));
                let sig = format!("{} {} {} {:?}", req.endpoint().len(), l[1], l[2], &l[3..]);
                p.round(&ctx, req, res, false).await?;
                ctx.eval(&sig, l.iter().any(|x| *x > 60000) || l.iter().all(|x| *x > 0));
            }
            if i % 20 == 0 {
                ctx.sample(json!({"random scenario": i, "service_len": service.len(), "config": cfg.sig()}));
            }
            Ok(())
        })
    });
    // arguments of tens of megabytes
    let n = if ctx.quick() { 4 } else { 40 };
    ctx.scenarios(2, "huge", 2, n, n, 1.0, |ctx, i, mut r| {
        with_rt_beats(Rt::Multi(2), 40_000, move || async move {
            let mut p = Pair::new(&Cfg { frame_buffer_size: [1, 100][(i % 2) as usize], ..Default::default() }, "huge").await?;
            // one of them of more than 512 frames
            let big = if ctx.quick() { r.range(34_000_000, 40_000_000) } else { r.range(34_000_000, 140_000_000) };
            let other = r.range(1_000_000, 5_000_000);
            let small = r.range(1_100_000, 1_300_000);
            let block = r.ascii(1000);
            let txt = |n: usize| (0..n / 1000 + 1).fold(String::with_capacity(n + 2000), |s, k| s + &k.to_string() + &block)[..n].to_string();
            let (mut q, mut a) = if i % 4 < 2 { (msg("ep0", "h", r.bytes(big)), msg("x", "y", r.bytes(other))) } else { (msg(txt(small), txt(big), r.bytes(3)), msg(txt(other), txt(small), r.bytes(small))) };
            if i % 2 == 1 {
                std::mem::swap(&mut q, &mut a);
            }
            p.round(&ctx, q, a, false).await?;
            ctx.eval(&format!("huge {} {big} {other} {small}", i % 4), true);
            Ok(())
        })
    });
    ctx.finish(
        "Each case is one call through the public API with chosen lengths and random contents of the three args of request and response; handler-side and caller-side values are compared byte for byte with what was passed in. Group 'boundary' enumerates {direction} x {which arg ends} x {frame 1..3} x {-6..+6 bytes around the frame boundary} x {following args empty or not}. Some messages have endpoints, headers or bodies of up to 40 MB (thorough: 140 MB), more than 512 frames. Non-trivial: some arg spans frames or all args non-empty; distinct by direction and all arg lengths.",
        &["loopback TCP", "checksums other than none are not produced (documented as unsupported)"],
        400,
    )
}

// =================================================================== C02
fn transform(m: &RawMessage, tag: &str) -> RawMessage {
    let mut b = m.body().to_vec();
    b.reverse();
    for x in b.iter_mut() {
        *x ^= 0x5a;
    }
    msg(format!("{}|{tag}", m.endpoint()), format!("re:{}", m.header()), b)
}
fn small_or_big(r: &mut Rng) -> usize {
    match r.below(10) {
        0 => r.range(60000, 200000),
        1 => r.range(64000, 67000),
        _ => r.below(400),
    }
}
pub fn c02(ctx: Arc<Ctx>) -> i32 {
    crate::p_hours::answers(&ctx);
    // A: library client <-> proxy <-> library server, random schedule
    let (min, max) = if ctx.quick() { (40, 900) } else { (300, 100000) };
    ctx.scenarios(0, "endtoend", 6, min, max, 0.35, |ctx, i, mut r| {
        with_rt(Rt::pick(&mut r.clone()), move || async move {
            let cfg = Cfg { server_tasks: *r.pick(&[2, 4, 8, 64]), ..Cfg::random(&mut r) };
            let (server, addr) = server(&cfg).await?;
            let ss = sub(&server, "svc").await?;
            let neps = 12;
            for e in 0..neps {
                let seed = r.next();
                let n = Arc::new(std::sync::atomic::AtomicU64::new(0));
                let ep = format!("ep{e}");
                let name = ep.clone();
                reg(&ss, &ep, raw_async(move |m| {
                    let name = name.clone();
                    let mut r = Rng::new(seed ^ n.fetch_add(1, SeqCst));
                    async move {
                        jitter(&mut r).await;
                        Ok(transform(&m, &name))
                    }
                })).await?;
            }
            await_listening(addr).await?;
            let p = Proxy::start(addr, ProxyPolicy { seg: r.below(4), reorder: r.chance(2, 3), lean: true, ..Default::default() }, r.fork()).await?;
            let order = Arc::new(Mutex::new(Vec::<u32>::new()));
            let nclients = r.range(1, 2);
            let mut tasks = vec![];
            let clients: Vec<TChannel> = (0..nclients).map(|_| client(&cfg)).collect();
            let mut uid = 0u32;
            for c in &clients {
                let sc = sub(c, "svc").await?;
                for _ in 0..r.range(2, 24) {
                    let sc = sc.clone();
                    let mut r = r.fork();
                    let base = uid;
                    uid += 100;
                    let (to, order, ctx) = (p.addr, order.clone(), ctx.clone());
                    tasks.push(tokio::spawn(async move {
                        for k in 0..r.range(1, 4) as u32 {
                            let id = base + k;
                            let ep = format!("ep{}", r.below(neps));
                            let n = small_or_big(&mut r);
                            let m = msg(ep.clone(), format!("id-{id}"), r.bytes(n));
                            let want = transform(&m, &ep);
                            let got = call(&sc, m, to).await?;
                            order.lock().unwrap().push(id);
                            match got {
                                Ok(g) => {
                                    ensure!(same(&g, &want), "a caller received a response that is not the response to its own request", json!({"request_id": id, "diff": diff(&want, &g)}));
                                }
                                Err(e) => return viol("a well-formed concurrent call failed", json!({"request": id, "error": format!("{:.300}", e.to_string())})),
                            }
                            ctx.evals.fetch_add(1, Relaxed);
                            jitter(&mut r).await;
                        }
                        Ok(())
                    }));
                }
            }
            for t in tasks {
                t.await.map_err(|_| Fail::Violation("a calling task panicked".into(), sut_panic_json()))??;
            }
            let log = p.entries();
            let mut ooo = 0u64;
            let mut pend: HashMap<usize, Vec<u32>> = HashMap::new();
            let mut bytes = vec![];
            for e in &log {
                bytes.push((e.conn as u8) ^ e.frame.ftype);
                bytes.extend_from_slice(&e.frame.id.to_le_bytes());
                match (e.dir, e.frame.ftype) {
                    (Dir::C2S, CALL_REQ) => pend.entry(e.conn).or_default().push(e.frame.id),
                    (Dir::S2C, CALL_RES) => {
                        let v = pend.entry(e.conn).or_default();
                        if let Some(k) = v.iter().position(|x| *x == e.frame.id) {
                            if k > 0 {
                                ooo += 1;
                            }
                            v.remove(k);
                        }
                    }
                    _ => {}
                }
            }
            ctx.add("frames_observed", log.len() as u64);
            ctx.add("out_of_order_responses", ooo);
            ctx.observe("wire_interleavings", hash64(&bytes));
            let o = order.lock().unwrap().clone();
            ctx.observe("completion_orders", hash_str(&format!("{o:?}")));
            ctx.eval(&format!("A{i} {o:?}"), ooo > 0 || o.len() > 3);
            if i < 2 {
                ctx.sample(json!({"group": "endtoend", "config": cfg.sig(), "completion_order": o.iter().take(30).collect::<Vec<_>>(), "out_of_order_responses": ooo}));
            }
            p.stop();
            Ok(())
        })
    });
    // B: library client against a fake server that permutes responses and interleaves their fragments
    ctx.scenarios(1, "client_demux", 6, min, max, 0.55, |ctx, i, mut r| {
        with_rt(Rt::pick(&mut r.clone()), move || async move {
            let addr = fresh_addr();
            let l = listen(addr).await?;
            let n = r.range(2, 40);
            let mut sr = r.fork();
            let fake = tokio::spawn(async move {
                let (s, _) = l.accept().await.map_err(|e| e.to_string())?;
                let (mut rd, mut w) = accept_init(s).await?;
                let mut open: HashMap<u32, Assembler> = HashMap::new();
                let mut done: Vec<(u32, Assembler)> = vec![];
                while done.len() < n {
                    match rd.frame().await {
                        Got::Frame(f) => {
                            let (flags, chunks) = match f.ftype {
                                CALL_REQ => parse_call_req(&f.payload).map(|m| (m.flags, m.chunks))?,
                                CALL_REQ_CONT => parse_cont(&f.payload).map(|m| (m.flags, m.chunks))?,
                                PING_REQ => {
                                    w.frame(&Frame::new(PING_RES, f.id, vec![])).await.map_err(|e| e.to_string())?;
                                    continue;
                                }
                                t => return Err(format!("frame type {t}")),
                            };
                            let mut a = open.remove(&f.id).unwrap_or_default();
                            a.add(&chunks);
                            if flags & MORE == 0 {
                                done.push((f.id, a));
                            } else {
                                open.insert(f.id, a);
                            }
                        }
                        _ => return Err("client went away".into()),
                    }
                }
                // respond
                let mut queues: Vec<Vec<Frame>> = vec![];
                let mut order = vec![];
                for (id, a) in &done {
                    let m = msg(String::from_utf8_lossy(&a.args[0]).to_string(), String::from_utf8_lossy(&a.args[1]).to_string(), a.args[2].clone());
                    let t = transform(&m, "fake");
                    let args = [t.endpoint().as_bytes().to_vec(), t.header().as_bytes().to_vec(), t.body().to_vec()];
                    let meta = ResMeta::raw();
                    let mode = if args[2].len() > 3000 { [0, 4][sr.below(2)] } else { [0, 1, 2, 3][sr.below(4)] };
                    let mut fr = res_frames(*id, &meta, &fragment(&args, meta.size(), &mut sr, mode));
                    fr.reverse();
                    queues.push(fr);
                }
                let pings = sr.chance(1, 2);
                while !queues.is_empty() {
                    let k = sr.below(queues.len());
                    let f = queues[k].pop().unwrap();
                    if pings && sr.chance(1, 6) {
                        // a ping of the server, the ids of which are its own
                        let other = &queues[sr.below(queues.len())];
                        let id = *sr.pick(&[f.id, f.id, f.id + 1, other.last().map_or(1, |o| o.id)]);
                        w.frame(&Frame::new(PING_REQ, id, vec![])).await.map_err(|e| e.to_string())?;
                    }
                    if sr.chance(1, 15) {
                        // a stray response nobody waits for
                        let m = ResMeta::raw();
                        // also ids that agree with a pending one in their low or high bits
                        let alias = f.id ^ (1u32 << sr.range(8, 31));
                        let id = if sr.chance(1, 2) { alias } else { 4_000_000_000 - sr.below(1000) as u32 };
                        let stray = res_frames(id, &m, &[vec![b"x".to_vec(), b"stray".to_vec(), b"z".to_vec()]]);
                        w.frame(&stray[0]).await.map_err(|e| e.to_string())?;
                    }
                    w.split(&f.bytes(), &mut sr, 4).await.map_err(|e| e.to_string())?;
                    if queues[k].is_empty() {
                        order.push(f.id);
                        queues.remove(k);
                    }
                }
                Ok((order, rd, w))
            });
            let c = client(&Cfg { frame_buffer_size: *r.pick(&[1, 2, 100]), ..Default::default() });
            let sc = sub(&c, "svc").await?;
            let mut tasks = vec![];
            for k in 0..n {
                let sc = sc.clone();
                let len = small_or_big(&mut r);
                let m = msg(format!("e{k}"), format!("id-{i}-{k}"), r.bytes(len));
                tasks.push(tokio::spawn(async move {
                    let want = transform(&m, "fake");
                    match call(&sc, m, addr).await? {
                        Ok(g) => {
                            ensure!(same(&g, &want), "a caller received a response that is not the response to its own request", json!({"caller": k, "diff": diff(&want, &g)}));
                            Ok(())
                        }
                        Err(e) => viol("a correctly answered call failed", json!({"caller": k, "error": format!("{:.300}", e.to_string())})),
                    }
                }));
            }
            for t in tasks {
                t.await.map_err(|_| Fail::Violation("a calling task panicked".into(), sut_panic_json()))??;
            }
            match within(HANG, fake).await {
                Ok(Ok(Ok((order, _, _)))) => {
                    ctx.observe("response_permutations", hash_str(&format!("{order:?}")));
                    let sorted = order.windows(2).all(|w| w[0] < w[1]);
                    ctx.add("calls_client_demux", n as u64);
                    ctx.eval(&format!("B {order:?}"), !sorted);
                    if i < 2 {
                        ctx.sample(json!({"group": "client_demux", "response_order_of_ids": order}));
                    }
                    Ok(())
                }
                Ok(Ok(Err(e))) => viol("library client broke the exchange with a conforming server", json!({ "e": e })),
                _ => inconcl("fake server did not finish"),
            }
        })
    });
    // C: library server against a fake client with arbitrary message ids and interleaved fragments
    ctx.scenarios(2, "server_mux", 6, min, max, if ctx.quick() { 0.75 } else { 0.9 }, |ctx, i, mut r| {
        with_rt(Rt::pick(&mut r.clone()), move || async move {
            let cfg = Cfg { server_tasks: *r.pick(&[1, 2, 4, 50]), ..Cfg::random(&mut r) };
            let (server, addr) = server(&cfg).await?;
            let ss = sub(&server, "svc").await?;
            for e in 0..6 {
                let seed = r.next();
                let n = Arc::new(std::sync::atomic::AtomicU64::new(0));
                let ep = format!("ep{e}");
                let name = ep.clone();
                reg(&ss, &ep, raw_async(move |m| {
                    let mut r = Rng::new(seed ^ n.fetch_add(1, SeqCst));
                    let name = name.clone();
                    async move {
                        jitter(&mut r).await;
                        Ok(transform(&m, &name))
                    }
                })).await?;
            }
            let (mut rd, mut w) = fake_client(addr).await?;
            let n = r.range(2, 40);
            let mut ids: Vec<u32> = vec![];
            while ids.len() < n {
                let id = match r.below(5) {
                    // ids that differ in a single bit
                    4 if !ids.is_empty() => *r.pick(&ids) ^ (1u32 << r.below(32)),
                    0 => r.below(60) as u32 + 2,
                    1 => u32::MAX - 1 - r.below(5) as u32,
                    2 => 0x8000_0000u32.wrapping_add(r.below(4) as u32),
                    _ => r.next() as u32,
                };
                if id != 1 && id != u32::MAX && !ids.contains(&id) {
                    ids.push(id);
                }
            }
            let mut want: HashMap<u32, RawMessage> = HashMap::new();
            let mut queues = vec![];
            for id in &ids {
                let ep = format!("ep{}", r.below(6));
                let len = small_or_big(&mut r);
                let m = msg(ep.clone(), format!("id-{id}"), r.bytes(len));
                want.insert(*id, transform(&m, &ep));
                let args = [m.endpoint().as_bytes().to_vec(), m.header().as_bytes().to_vec(), m.body().to_vec()];
                let meta = ReqMeta::raw("svc");
                let mode = if args[2].len() > 3000 { [0, 4][r.below(2)] } else { [0, 1, 2, 3][r.below(4)] };
                let mut f = req_frames(*id, &meta, &fragment(&args, meta.size(), &mut r, mode));
                f.reverse();
                queues.push(f);
            }
            let mut wr = r.fork();
            let sender = tokio::spawn(async move {
                while !queues.is_empty() {
                    let k = wr.below(queues.len().min(8));
                    let f = queues[k].pop().unwrap();
                    if w.split(&f.bytes(), &mut wr, 4).await.is_err() {
                        return None;
                    }
                    if queues[k].is_empty() {
                        queues.remove(k);
                    }
                }
                Some(w)
            });
            let mut open: HashMap<u32, Assembler> = HashMap::new();
            let mut order = vec![];
            while order.len() < n {
                let f = match within(HANG, rd.expect()).await {
                    Ok(f) => f?,
                    Err(Hang) => return viol("server stopped answering: some requests never got a response (bounded-progress monitor)", json!({"answered": order.len(), "of": n, "config": cfg.sig()})),
                };
                let (flags, chunks) = match f.ftype {
                    CALL_RES => match parse_call_res(&f.payload) {
                        Ok(m) => (m.flags, m.chunks),
                        Err(e) => return viol("malformed response", json!({ "e": e })),
                    },
                    CALL_RES_CONT => match parse_cont(&f.payload) {
                        Ok(m) => (m.flags, m.chunks),
                        Err(e) => return viol("malformed response continuation", json!({ "e": e })),
                    },
                    t => return viol("server answered a valid call with an unexpected frame", json!({"type": t, "id": f.id, "payload": String::from_utf8_lossy(&f.payload).chars().take(200).collect::<String>()})),
                };
                ensure!(want.contains_key(&f.id), "server sent a response under an id that was never requested or is already answered", json!({"id": f.id}));
                let mut a = open.remove(&f.id).unwrap_or_default();
                a.add(&chunks);
                if flags & MORE == 0 {
                    let t = want.remove(&f.id).unwrap();
                    let ok = a.args.len() == 3 && a.args[0] == t.endpoint().as_bytes() && a.args[1] == t.header().as_bytes() && a.args[2] == t.body().as_ref();
                    ensure!(ok, "response under this id is not the response to the request sent under it", json!({"id": f.id, "got_arg2": String::from_utf8_lossy(a.args.get(1).map(|x| &x[..x.len().min(60)]).unwrap_or(b"")), "expected_arg2": t.header()}));
                    order.push(f.id);
                } else {
                    open.insert(f.id, a);
                }
            }
            ctx.observe("server_response_orders", hash_str(&format!("{order:?}")));
            ctx.add("calls_server_mux", n as u64);
            ctx.eval(&format!("C {order:?}"), order != ids);
            if i < 2 {
                ctx.sample(json!({"group": "server_mux", "request_ids": ids.iter().take(10).collect::<Vec<_>>(), "response_order": order.iter().take(10).collect::<Vec<_>>(), "config": cfg.sig()}));
            }
            drop(within(HANG, sender).await.ok());
            Ok(())
        })
    });
    // D: calls stay pending while very many others come and go on their connection, so that an id counter
    // narrower than 32 bits, or ids recycled too early, would meet them again.
    let (n3, calls) = if ctx.quick() { (2, 70_000u64) } else { (4, 2_000_000) };
    ctx.scenarios(3, "held_calls", 2, n3, n3, 1.0, move |ctx, i, mut r| {
        with_rt_beats(Rt::Multi(2), SCENARIO_BEATS * 8, move || async move {
            let addr = fresh_addr();
            let l = listen(addr).await?;
            let release = Arc::new(tokio::sync::Notify::new());
            let seen = Arc::new(std::sync::atomic::AtomicU64::new(0));
            let (rel, seen2) = (release.clone(), seen.clone());
            let fake = tokio::spawn(async move {
                let (s, _) = l.accept().await.map_err(|e| e.to_string())?;
                let (mut rd, mut w) = accept_init(s).await?;
                let mut held: Vec<(u32, Vec<Vec<u8>>)> = vec![];
                let answer = |id: u32, a: &[Vec<u8>]| {
                    let plan = vec![vec![a[0].clone(), a[1].clone(), [b"re:", &a[2][..]].concat()]];
                    res_frames(id, &ResMeta::raw(), &plan)[0].bytes()
                };
                let mut out: Vec<u8> = vec![];
                loop {
                    let got = tokio::select! {
                        biased;
                        g = rd.frame_cancel_safe() => g,
                        _ = tokio::task::yield_now(), if !out.is_empty() => {
                            w.raw(&out).await.map_err(|e| e.to_string())?;
                            out.clear();
                            continue;
                        }
                        _ = rel.notified(), if !held.is_empty() => {
                            held.reverse();
                            for (id, a) in held.drain(..) {
                                out.extend(answer(id, &a));
                            }
                            continue;
                        }
                    };
                    let f = match got {
                        Got::Frame(f) if f.ftype == CALL_REQ => f,
                        Got::Frame(f) => return Err(format!("frame type {}", f.ftype)),
                        _ => return Ok(()),
                    };
                    let m = parse_call_req(&f.payload)?;
                    seen2.fetch_add(1, SeqCst);
                    if held.iter().any(|h| h.0 == f.id) {
                        return Err(format!("id {} of a pending request was used for another", f.id));
                    }
                    if m.chunks[0] == b"hold" {
                        held.push((f.id, m.chunks));
                    } else {
                        out.extend(answer(f.id, &m.chunks));
                    }
                }
            });
            let c = client(&Cfg { frame_buffer_size: *r.pick(&[10, 100, 1000]), ..Default::default() });
            let sc = sub(&c, "svc").await?;
            // the last quarter of them are queued between the quick ones, so that held ids are spread
            let mut holders = vec![];
            let hold = |k: u64| {
                let (sc, m) = (sc.clone(), msg("hold", format!("{k}"), format!("held-{k}")));
                tokio::spawn(async move {
                    match within(2_000_000, tchannel_rs::messages::MessageChannel::<RawMessage, RawMessage>::send(&*sc, m, addr)).await {
                        Ok(Ok(g)) => {
                            ensure!(g.header() == &format!("{k}") && g.body().as_ref() == format!("re:held-{k}").as_bytes(), "a caller received a response that is not the response to its own request", json!({"held_call": k, "got": brief(&g)}));
                            Ok(())
                        }
                        Ok(Err(e)) => viol("a call failed that was answered after very many others", json!({"held_call": k, "error": e.to_string()})),
                        Err(Hang) => viol("held call never completed", json!({"held_call": k})),
                    }
                })
            };
            let mut before = vec![];
            for k in 0..5 {
                before.push(hold(k));
            }
            let workers = 24u64;
            let next = Arc::new(std::sync::atomic::AtomicU64::new(0));
            let mut tasks = vec![];
            for _ in 0..workers {
                let (sc, next) = (sc.clone(), next.clone());
                tasks.push(tokio::spawn(async move {
                    loop {
                        let k = next.fetch_add(1, SeqCst);
                        if k >= calls {
                            return Ok(());
                        }
                        let g = call(&sc, msg("go", format!("{k}"), "q"), addr).await?;
                        match g {
                            Ok(g) => ensure!(g.header() == &format!("{k}") && g.body().as_ref() == b"re:q", "a caller received a response that is not the response to its own request", json!({"call": k, "got": brief(&g)})),
                            Err(e) => return viol("a correctly answered call failed while others were pending for long", json!({"call": k, "error": format!("{:.300}", e.to_string())})),
                        }
                    }
                }));
            }
            for k in 5..12 {
                tokio::time::sleep(Duration::from_millis(r.range(1, 200) as u64)).await;
                holders.push(hold(k));
            }
            for t in tasks {
                t.await.map_err(|_| Fail::Violation("a calling task panicked".into(), sut_panic_json()))??;
            }
            release.notify_one();
            // in case a held request had not arrived when the others were released
            let again = release.clone();
            let nudge = tokio::spawn(async move {
                loop {
                    tokio::time::sleep(Duration::from_millis(100)).await;
                    again.notify_one();
                }
            });
            for h in before.into_iter().chain(holders) {
                match within(HANG_CONNECT, h).await {
                    Ok(x) => x.map_err(|_| Fail::Violation("a calling task panicked".into(), sut_panic_json()))??,
                    Err(Hang) => return viol("a call that stayed pending while very many others completed never got its response", json!({"calls_meanwhile": calls})),
                }
            }
            nudge.abort();
            ctx.add("calls_while_others_pending", seen.load(SeqCst));
            ctx.eval(&format!("D {i}"), true);
            drop((sc, c));
            match within(HANG, fake).await {
                Ok(Ok(Err(e))) => viol("library client broke the exchange with a conforming server", json!({ "e": e })),
                _ => Ok(()),
            }
        })
    });
    ctx.finish(
        "Every request carries a unique value; the response must be a keyed transform of exactly that value. Groups: library client and server through a proxy that reorders responses across ids; library client against a fake server that answers in random permutations with interleaved fragments, stray ids and pings of its own under ids of pending calls; library server against a fake client with arbitrary ids (also pairs differing in one bit) and interleaved fragments; twelve calls held pending while tens of thousands of others come and go on their connection; calls whose answers come hours later (hand-driven clock), in another order. Non-trivial: history with >3 concurrent calls and a response order different from the request order; distinct by the observed completion order.",
        &["loopback TCP", "message ids are not driven through 2^32 wrap-around"],
        60,
    )
}

// =================================================================== C03
pub fn c03(ctx: Arc<Ctx>) -> i32 {
    crate::p_hours::answers(&ctx);
    let (min, max) = if ctx.quick() { (60, 1500) } else { (400, 100000) };
    ctx.scenarios(0, "exactly_once", 6, min, max, 1.0, |ctx, i, mut r| {
        let rt = Rt::pick(&mut r);
        with_rt(rt, move || async move {
            let cfg = Cfg::random(&mut r);
            let (server, addr) = server(&cfg).await?;
            let log = Arc::new(ExecLog::default());
            for svc in ["s0", "s1"] {
                let ss = sub(&server, svc).await?;
                for e in 0..4 {
                    let (log, ep) = (log.clone(), format!("e{e}"));
                    let seed = r.next();
                    let n = Arc::new(std::sync::atomic::AtomicU64::new(0));
                    let name = ep.clone();
                    let kind = e;
                    reg(&ss, &ep, raw_async(move |m: RawMessage| {
                        let (log, name) = (log.clone(), name.clone());
                        let mut r = Rng::new(seed ^ n.fetch_add(1, SeqCst));
                        async move {
                            let t = log.enter();
                            // recorded at entry so that executions cut short by a dying connection count too
                            log.exit(svc, &name, &m, t);
                            jitter(&mut r).await;
                            match kind {
                                0 | 1 => Ok(m),
                                2 => Err(tchannel_rs::errors::HandlerError::MessageError(m)),
                                _ => Err(tchannel_rs::errors::HandlerError::GeneralError(m.header().clone())),
                            }
                        }
                    })).await?;
                }
            }
            await_listening(addr).await?;
            let fault = r.below(3); // 0 none, 1 cut, 2 cancellations
            let cut = if fault == 1 { Some((0usize, if r.chance(1, 2) { Dir::C2S } else { Dir::S2C }, r.range(1, 40000), r.chance(1, 2))) } else { None };
            let p = Proxy::start(addr, ProxyPolicy { seg: r.below(4), reorder: cut.is_none() && r.chance(1, 2), cut, lean: true }, r.fork()).await?;
            let c = client(&cfg);
            let mut tasks = vec![];
            for t in 0..r.range(2, 12) {
                let sc = sub(&c, if r.chance(1, 2) { "s0" } else { "s1" }).await?;
                let to = p.addr;
                let mut r = r.fork();
                tasks.push(tokio::spawn(async move {
                    let mut out: Vec<(String, &'static str)> = vec![];
                    for k in 0..r.range(1, 5) {
                        let uid = format!("u{t}-{k}");
                        let e = r.below(4);
                        let n = small_or_big(&mut r);
                        let m = msg(format!("e{e}"), uid.clone(), r.bytes(n));
                        let fut = call(&sc, m, to);
                        if fault == 2 && r.chance(1, 3) {
                            let polls = r.range(0, 12);
                            match (CancelAfter { fut: Some(Box::pin(fut)), polls }).await {
                                None => out.push((uid, "cancelled")),
                                Some(x) => out.push((uid, outcome(&x?))),
                            }
                        } else {
                            let x = fut.await?;
                            out.push((uid, outcome(&x)));
                        }
                    }
                    Ok::<_, Fail>(out)
                }));
            }
            let mut outs = vec![];
            for t in tasks {
                outs.extend(t.await.map_err(|_| Fail::Violation("a calling task panicked".into(), sut_panic_json()))??);
            }
            // let late deliveries of cancelled calls land
            tokio::time::sleep(Duration::from_millis(if fault == 2 { 60 } else { 10 })).await;
            let execs = log.take();
            let mut count: HashMap<String, usize> = HashMap::new();
            for e in &execs {
                *count.entry(e.req.header().clone()).or_insert(0) += 1;
            }
            let issued: HashSet<&String> = outs.iter().map(|o| &o.0).collect();
            for (u, n) in &count {
                ensure!(issued.contains(u), "a handler ran for a request nobody made", json!({"header": u}));
                ensure!(*n <= 1, "a handler ran more than once for one request", json!({"request": u, "executions": n, "outcome": outs.iter().find(|o| o.0 == *u).map(|o| o.1), "fault": fault, "cut": format!("{cut:?}")}));
            }
            for (u, o) in &outs {
                let n = count.get(u).copied().unwrap_or(0);
                if *o == "ok" || *o == "message" {
                    ensure!(n == 1, "a call was answered although its handler did not run exactly once", json!({"request": u, "executions": n}));
                }
                if fault == 0 {
                    ensure!(n == 1, "a fault-free call did not run its handler exactly once", json!({"request": u, "executions": n, "outcome": o}));
                }
                ctx.add(&format!("outcome_{o}"), 1);
            }
            ctx.add("handler_executions", execs.len() as u64);
            ctx.add(&format!("histories_fault{fault}"), 1);
            let sig = format!("{fault}{:?}", outs.iter().map(|o| o.1).collect::<Vec<_>>());
            ctx.eval(&format!("{sig}{:?}", execs.iter().map(|e| e.req.header().clone()).collect::<Vec<_>>()), outs.len() > 2);
            ctx.observe("execution_orders", hash_str(&format!("{:?}", execs.iter().map(|e| e.req.header()).collect::<Vec<_>>())));
            if i < 3 {
                ctx.sample(json!({"fault": fault, "outcomes": outs.iter().take(12).collect::<Vec<_>>(), "executions": execs.len()}));
            }
            p.stop();
            Ok(())
        })
    });
    ctx.finish(
        "One evaluation is a whole history of concurrent uniquely numbered calls (fault-free, with the connection cut at a random byte, or with calls cancelled at random polls); handler executions are logged and matched with call outcomes offline: answered => exactly one execution, any other => at most one, no execution without a call. In one group the answers come hours later on a hand-driven clock, and still exactly once. Distinct by outcomes plus execution order.",
        &["a handler whose connection task dies counts from its entry"],
        40,
    )
}
fn outcome(x: &tchannel_rs::handler::HandlerResult<RawMessage>) -> &'static str {
    match x {
        Ok(_) => "ok",
        Err(e) => errkind(e),
    }
}

// =================================================================== C04
/// Names derived from `b` which a sloppy comparison could take for `b`.
fn lookalikes(b: &str) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    let mut add = |how: &str, n: String| v.push((how.to_string(), n));
    for (n, x) in [("space", " "), ("tab", "\t"), ("newline", "\n"), ("cr", "\r"), ("crlf", "\r\n"), ("nul", "\0"), ("nbsp", "\u{a0}"), ("zero width space", "\u{200b}"), ("bom", "\u{feff}"), ("ideographic space", "\u{3000}"), ("slash", "/"), ("backslash", "\\"), ("dot", "."), ("colon", ":"), ("colons", "::"), ("semicolon", ";"), ("question mark", "?"), ("query", "?x=1"), ("fragment", "#x"), ("star", "*"), ("percent", "%"), ("plus", "+"), ("underscore", "_"), ("dash", "-"), ("quote", "\""), ("combining accent", "\u{301}"), ("replacement", "\u{fffd}"), ("letter", "s"), ("digit", "0"), ("version", "/v1"), ("parens", "()"), ("at", "@1")] {
        add(&format!("{n} appended"), format!("{b}{x}"));
        add(&format!("{n} prepended"), format!("{x}{b}"));
        if b.chars().count() > 1 {
            let mid = b.char_indices().nth(b.chars().count() / 2).unwrap().0;
            add(&format!("{n} inserted"), format!("{}{x}{}", &b[..mid], &b[mid..]));
        }
    }
    add("lower case", b.to_lowercase());
    add("upper case", b.to_uppercase());
    add("first letter case", b.chars().enumerate().map(|(i, c)| if i == 0 { if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } } else { c }).collect());
    add("last letter case", { let n = b.chars().count(); b.chars().enumerate().map(|(i, c)| if i + 1 == n { if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } } else { c }).collect() });
    add("trimmed", b.trim().to_string());
    add("reversed", b.chars().rev().collect());
    add("doubled", format!("{b}{b}"));
    add("last char dropped", { let mut x = b.to_string(); x.pop(); x });
    add("first char dropped", b.chars().skip(1).collect());
    add("last char changed", { let mut x = b.to_string(); x.pop(); x.push('~'); x });
    add("first char changed", format!("~{}", b.chars().skip(1).collect::<String>()));
    add("dash for underscore", b.replace('-', "_"));
    add("underscore for dash", b.replace('_', "-"));
    add("slash for colons", b.replace("::", "/"));
    add("colons for slash", b.replace('/', "::"));
    add("dot for slash", b.replace('/', "."));
    add("percent encoded", b.replace('/', "%2F").replace(' ', "%20").replace(':', "%3A"));
    add("percent encoded first", b.chars().enumerate().map(|(i, c)| if i == 0 && c.is_ascii() { format!("%{:02X}", c as u8) } else { c.to_string() }).collect());
    add("swapped chars", { let mut c: Vec<char> = b.chars().collect(); let n = c.len(); if n > 1 { c.swap(0, n - 1) } c.into_iter().collect() });
    add("ascii folded", b.replace('\u{e9}', "e").replace('ß', "ss"));
    add("decomposed", b.replace('\u{e9}', "e\u{301}"));
    add("only last segment", b.rsplit(|c| c == '/' || c == ':').next().unwrap_or("").to_string());
    add("only first segment", b.split(|c| c == '/' || c == ':').next().unwrap_or("").to_string());
    add("with service", format!("svc::{b}"));
    add("with service and slash", format!("svc/{b}"));
    add("empty", String::new());
    for n in [8usize, 16, 32, 64, 128, 255, 256, 300, 1024] {
        // same beginning or end, same length modulo powers of two
        if b.is_ascii() {
            let mut x = b.to_string();
            while x.len() < n { x.push('x'); }
            add(&format!("padded to {n}"), x);
            if b.len() > n { add(&format!("cut to {n}"), b[..n].to_string()); }
        }
        add(&format!("{n} bytes longer"), format!("{b}{}", "x".repeat(n)));
        add(&format!("{n} zero bytes longer"), format!("{b}{}", "\0".repeat(n)));
    }
    v
}
pub fn c04(ctx: Arc<Ctx>) -> i32 {
    let names = || -> Vec<String> {
        let mut v: Vec<String> = ["", "a", "A", "ab", "a ", " a", "a\0", "a\n", "a/b", "a::b", "b", "é", "e\u{301}", "service", "Service", "services", "servic", "service\u{200b}", "0", "00", "svc.v1", "svc.v2", "*", ".*", "%", "漢字", "🦀"]
            .iter()
            .map(|s| s.to_string())
            .collect();
        v.push("x".repeat(255));
        v.push(format!("{}y", "x".repeat(254)));
        v
    };
    let (min, max) = if ctx.quick() { (40, 1200) } else { (300, 100000) };
    ctx.scenarios(0, "matrix", 6, min, max, 0.5, move |ctx, i, mut r| {
        let names = names();
        with_rt(Rt::pick(&mut r), move || async move {
            let cfg = Cfg::random(&mut r);
            let mut svcs: Vec<String> = (0..r.range(2, 5)).map(|_| r.pick(&names).clone()).collect();
            svcs.sort();
            svcs.dedup();
            let mut eps: Vec<String> = (0..r.range(2, 6)).map(|_| r.pick(&names).clone()).collect();
            if r.chance(1, 2) {
                eps.extend(svcs.clone());
            }
            if r.chance(1, 4) {
                eps.push("z".repeat(r.range(65000, 70000)));
            }
            if r.chance(1, 3) {
                // endpoints that differ only at the very end / beginning
                let base = "p".repeat(r.range(1, 300));
                eps.push(format!("{base}1"));
                eps.push(format!("{base}2"));
                eps.push(base);
            }
            eps.sort();
            eps.dedup();
            let (srv, addr) = server(&cfg).await?;
            let log = Arc::new(ExecLog::default());
            let mut reged: HashSet<(String, String)> = HashSet::new();
            let mut known: HashSet<String> = HashSet::new();
            for s in &svcs {
                if r.chance(1, 8) {
                    continue; // service unknown to the server
                }
                let ss = sub(&srv, s).await?;
                known.insert(s.clone());
                for e in &eps {
                    if r.chance(1, 3) {
                        continue;
                    }
                    let (log, s2, e2) = (log.clone(), s.clone(), e.clone());
                    reg_sync(&ss, e, raw_sync(move |m| {
                        let t = log.enter();
                        log.exit(&s2, &e2, &m, t);
                        Ok(msg(e2.clone(), s2.clone(), m.body().clone()))
                    })).await?;
                    reged.insert((s.clone(), e.clone()));
                }
            }
            await_listening(addr).await?;
            let c = client(&cfg);
            let mut pairs: Vec<(String, String)> = svcs.iter().flat_map(|s| eps.iter().map(move |e| (s.clone(), e.clone()))).collect();
            r.shuffle(&mut pairs);
            pairs.truncate(40);
            let mut tasks = vec![];
            for (k, (s, e)) in pairs.iter().enumerate() {
                let sc = sub(&c, s).await?;
                let (s, e, is_reg) = (s.clone(), e.clone(), reged.contains(&(s.clone(), e.clone())));
                let ctx = ctx.clone();
                tasks.push(tokio::spawn(async move {
                    let res = call(&sc, msg(e.clone(), format!("{k}"), format!("{k}")), addr).await?;
                    match (is_reg, res) {
                        (true, Ok(m)) => {
                            ensure!(m.header() == &s && m.endpoint() == &e && m.body().as_ref() == format!("{k}").as_bytes(), "a request was served by a handler registered elsewhere", json!({"service": s, "endpoint": e.chars().take(300).collect::<String>(), "served_by": brief(&m)}));
                        }
                        (true, Err(err)) => return viol("a request to a registered endpoint failed", json!({"service": s, "endpoint": e.chars().take(300).collect::<String>(), "error": format!("{:.300}", err.to_string())})),
                        (false, Ok(m)) => return viol("a request to an unregistered endpoint was answered", json!({"service": s, "endpoint": e.chars().take(300).collect::<String>(), "answer": brief(&m)})),
                        (false, Err(_)) => {}
                    }
                    ctx.eval(&format!("{s}/{}/{is_reg}", hash_str(&e)), true);
                    ctx.add(if is_reg { "routed" } else { "refused" }, 1);
                    Ok(())
                }));
            }
            for t in tasks {
                t.await.map_err(|_| Fail::Violation("a calling task panicked".into(), sut_panic_json()))??;
            }
            for x in log.take() {
                let k: usize = x.req.header().parse().unwrap_or(usize::MAX);
                let want = pairs.get(k);
                ensure!(want == Some(&(x.service.clone(), x.endpoint.clone())), "a handler executed a request addressed to another service or endpoint", json!({"addressed_to": want.map(|w| (w.0.clone(), w.1.chars().take(100).collect::<String>())), "executed_by": (x.service, x.endpoint.chars().take(100).collect::<String>())}));
            }
            if i < 3 {
                ctx.sample(json!({"services": svcs, "endpoints": eps.iter().map(|e| e.chars().take(20).collect::<String>()).collect::<Vec<_>>(), "registered_pairs": reged.len(), "called": pairs.len()}));
            }
            Ok(())
        })
    });
    // Names that some normalisation, encoding or concatenation would confuse.
    ctx.scenarios(1, "lookalikes", 6, if ctx.quick() { 60 } else { 600 }, max, 0.9, move |ctx, i, mut r| {
        with_rt(Rt::pick(&mut r.clone()), move || async move {
            let (srv, addr) = server(&Cfg::random(&mut r)).await?;
            let log = Arc::new(ExecLog::default());
            let base: String = match r.below(6) {
                0 => "Get".into(),
                1 => "users/list".into(),
                2 => "Svc::method".into(),
                3 => "straße-K\u{e9}".into(),
                4 => { let n = r.range(1, 12); r.ascii(n) }
                _ => { let n = *r.pick(&[15usize, 16, 31, 32, 63, 64, 127, 128, 200, 253]); r.ascii(n) }
            };
            let as_service = r.chance(1, 2);
            let mut alike: Vec<(String, String)> = lookalikes(&base).into_iter().filter(|(_, n)| *n != base && (!as_service || n.len() <= 255)).collect();
            r.shuffle(&mut alike);
            alike.truncate(40);
            // half of the look-alikes have a handler of their own
            let mut owners: HashSet<String> = HashSet::new();
            let base_registered = r.chance(5, 6);
            let mut all: Vec<(String, String)> = vec![("itself".into(), base.clone())];
            all.extend(alike);
            let mut uniq = HashSet::new();
            all.retain(|(_, n)| uniq.insert(n.clone()));
            for (k, (_, n)) in all.iter().enumerate() {
                if (k == 0 && !base_registered) || (k > 0 && r.chance(2, 3)) {
                    continue;
                }
                owners.insert(n.clone());
                let ss = sub(&srv, if as_service { n } else { "svc" }).await?;
                let (log, n2) = (log.clone(), n.clone());
                reg_sync(&ss, if as_service { "ep" } else { n }, raw_sync(move |m| {
                    let t = log.enter();
                    log.exit("", &n2, &m, t);
                    Ok(msg("", n2.clone(), m.body().clone()))
                })).await?;
            }
            await_listening(addr).await?;
            let c = client(&Cfg::default());
            for (how, n) in &all {
                let sc = sub(&c, if as_service { n } else { "svc" }).await?;
                let ep: &str = if as_service { "ep" } else { n };
                let res = call(&sc, msg(ep, "", n.as_bytes().to_vec()), addr).await?;
                let info = json!({"names_compared": if as_service {"service"} else {"endpoint"}, "base": base, "called": n, "derived_by": how, "registered": owners.contains(n)});
                match (owners.contains(n), res) {
                    (true, Ok(m)) => ensure!(m.header() == n, "a request was served by a handler registered elsewhere", json!({"case": info, "served_by": m.header()})),
                    (false, Ok(m)) => return viol("a request to an unregistered endpoint was answered", json!({"case": info, "served_by": m.header()})),
                    (true, Err(e)) => return viol("a request to a registered endpoint failed", json!({"case": info, "error": format!("{:.300}", e.to_string())})),
                    (false, Err(_)) => {}
                }
                ctx.eval(&format!("alike {as_service} {how} {}", owners.contains(n)), true);
                ctx.observe("lookalike_kinds", hash_str(how));
            }
            for x in log.take() {
                ensure!(x.req.body().as_ref() == x.endpoint.as_bytes(), "a handler executed a request addressed to another service or endpoint", json!({"executed_by": x.endpoint, "addressed_to": String::from_utf8_lossy(x.req.body())}));
            }
            ctx.add("lookalike_calls", all.len() as u64);
            if i < 2 {
                ctx.sample(json!({"base": base, "as_service": as_service, "derived": all.iter().take(8).collect::<Vec<_>>() }));
            }
            Ok(())
        })
    });
    // Splits of one string over service and endpoint; names that are not UTF-8.
    ctx.scenarios(2, "splits_and_bytes", 4, if ctx.quick() { 12 } else { 60 }, if ctx.quick() { 24 } else { 2000 }, 0.97, |ctx, _i, mut r| {
        with_rt(Rt::pick(&mut r.clone()), move || async move {
            let (srv, addr) = server(&Cfg::default()).await?;
            let log = Arc::new(ExecLog::default());
            let sep = *r.pick(&["", "/", "::", ".", ":", "\0", " ", "-"]);
            let parts: Vec<String> = (0..4).map(|k| format!("{}{k}", r.pick(&["a", "b", "n", "svc"]))).collect();
            let pairs: Vec<(String, String)> = (0..=4usize).map(|k| (parts[..k].join(sep), parts[k..].join(sep))).collect();
            let chosen: Vec<bool> = pairs.iter().map(|_| r.chance(1, 2)).collect();
            for ((s, e), on) in pairs.iter().zip(&chosen) {
                let ss = sub(&srv, s).await?;
                if *on {
                    let (log, s2, e2) = (log.clone(), s.clone(), e.clone());
                    reg_sync(&ss, e, raw_sync(move |m| {
                        let t = log.enter();
                        log.exit(&s2, &e2, &m, t);
                        Ok(msg(s2.clone(), e2.clone(), vec![]))
                    })).await?;
                }
            }
            // U+FFFD stands in for undecodable bytes in a lossy conversion
            let odd = ["\u{fffd}", "\u{fffd}\u{fffd}", "e\u{fffd}", "?", "", "e", "e?", "\u{ff}", "\u{80}"];
            let os = sub(&srv, "odd").await?;
            for e in odd {
                let (log, e2) = (log.clone(), e.to_string());
                reg_sync(&os, e, raw_sync(move |m| {
                    let t = log.enter();
                    log.exit("odd", &e2, &m, t);
                    Ok(m)
                })).await?;
            }
            for s in odd {
                if s == "" { continue; }
                let ss = sub(&srv, s).await?;
                let (log, s2) = (log.clone(), s.to_string());
                reg_sync(&ss, "ep", raw_sync(move |m| {
                    let t = log.enter();
                    log.exit(&s2, "ep", &m, t);
                    Ok(m)
                })).await?;
            }
            await_listening(addr).await?;
            let c = client(&Cfg::default());
            for ((s, e), on) in pairs.iter().zip(&chosen) {
                let sc = sub(&c, s).await?;
                let info = json!({"service": s, "endpoint": e, "registered": on});
                match (on, call(&sc, msg(e.clone(), "", vec![]), addr).await?) {
                    (true, Ok(m)) => ensure!(m.endpoint() == s && m.header() == e, "a request was served by a handler registered elsewhere", json!({"case": info, "served_by": [m.endpoint(), m.header()]})),
                    (false, Ok(m)) => return viol("a request to an unregistered endpoint was answered", json!({"case": info, "served_by": [m.endpoint(), m.header()]})),
                    (true, Err(x)) => return viol("a request to a registered endpoint failed", json!({"case": info, "error": x.to_string()})),
                    (false, Err(_)) => {}
                }
                ctx.eval(&format!("split {sep} {on} {}", s.len()), true);
            }
            log.take();
            for (k, bad) in [&[0xffu8][..], &[0xff, 0xfe], b"e\xff", b"e\x80", &[0xed, 0xa0, 0x80], &[0xc0, 0x80], &[0xc3], &[0x80]].iter().enumerate() {
                for service in [false, true] {
                    let (mut rd, mut w) = fake_client(addr).await?;
                    let args = [if service { b"ep".to_vec() } else { bad.to_vec() }, vec![], vec![]];
                    let mut p = enc_call_req(0, &ReqMeta::raw(if service { "SVC" } else { "odd" }), &args);
                    if service {
                        // replace the service name by the bytes under test
                        let at = 1 + 4 + 25;
                        p.splice(at..at + 4, std::iter::once(bad.len() as u8).chain(bad.iter().copied()));
                    }
                    let _ = w.frame(&Frame::new(CALL_REQ, 5, p)).await;
                    let good = enc_call_req(0, &ReqMeta::raw("odd"), &[b"e".to_vec(), b"good".to_vec(), vec![]]);
                    let _ = w.frame(&Frame::new(CALL_REQ, 6, good)).await;
                    let _ = within(HANG, async {
                        loop {
                            match rd.frame().await {
                                Got::Frame(f) if f.id == 6 => return,
                                Got::Frame(_) => {}
                                _ => return,
                            }
                        }
                    }).await;
                    for x in log.take() {
                        ensure!(x.req.header() == "good", "a handler executed a request whose name is not the one it is registered for", json!({"bytes": bad, "as_service": service, "executed_by": [x.service, x.endpoint]}));
                    }
                    ctx.eval(&format!("bytes {k} {service}"), true);
                }
            }
            Ok(())
        })
    });
    // Other names a request carries (transport headers, other args) do not matter.
    ctx.scenarios(3, "other_names", 4, if ctx.quick() { 12 } else { 60 }, if ctx.quick() { 40 } else { 4000 }, 1.0, |ctx, _i, mut r| {
        with_rt(Rt::pick(&mut r.clone()), move || async move {
            let (srv, addr) = server(&Cfg::random(&mut r)).await?;
            let services = ["alpha", "beta", "gamma"];
            let log = Arc::new(ExecLog::default());
            let mut reged = HashSet::new();
            for s in services {
                let ss = sub(&srv, s).await?;
                for e in ["one", "two", "alpha"] {
                    if e == "alpha" && r.chance(1, 2) {
                        continue;
                    }
                    reged.insert((s, e));
                    let log = log.clone();
                    reg_sync(&ss, e, raw_sync(move |m| {
                        let t = log.enter();
                        log.exit(s, e, &m, t);
                        Ok(msg(s, e, m.body().clone()))
                    })).await?;
                }
            }
            await_listening(addr).await?;
            let (mut rd, mut w) = fake_client(addr).await?;
            for k in 0..24u32 {
                let s = *r.pick(&["alpha", "beta", "gamma", "delta", ""]);
                let e = *r.pick(&["one", "two", "alpha", "three", ""]);
                let mut m = ReqMeta::raw(s);
                m.headers = vec![("as".into(), "raw".into())];
                let mut keys = vec!["cn", "sk", "rd", "rk", "fd", "re", "se", "cas", "caf", "service", "sn", "ep", "endpoint", "method", "host"];
                r.shuffle(&mut keys);
                for key in &keys[..r.below(keys.len())] {
                    let v = *r.pick(&["alpha", "beta", "gamma", "one", "two", "three", "alpha::one", "beta/two", ""]);
                    let at = r.below(m.headers.len() + 1);
                    m.headers.insert(at, (key.to_string(), v.to_string()));
                }
                let other = *r.pick(&["alpha", "beta", "one", "two", "{\"as\":\"raw\"}", ""]);
                let args = [e.as_bytes().to_vec(), other.as_bytes().to_vec(), format!("{k}").into_bytes()];
                let mode = r.below(3);
                let plan = fragment(&args, m.size(), &mut r, mode);
                for f in req_frames(k + 10, &m, &plan) {
                    w.frame(&f).await.map_err(|e| Fail::Violation(format!("server closed the connection over a request with unknown transport headers: {e}"), json!({"headers": m.headers})))?;
                }
                let info = json!({"service": s, "endpoint": e, "headers": m.headers, "arg2": other});
                let f = match within(HANG, rd.expect()).await {
                    Ok(f) => f?,
                    Err(Hang) => return viol("request was never answered", info),
                };
                let is_reg = reged.contains(&(s, e));
                if is_reg {
                    ensure!(f.ftype == CALL_RES, "a request to a registered endpoint failed", json!({"case": info, "frame_type": f.ftype}));
                    let q = parse_call_res(&f.payload).map_err(|e| Fail::Violation(format!("malformed response: {e}"), json!({})))?;
                    ensure!(q.chunks.concat() == format!("{s}{e}{k}").into_bytes(), "a request was served by a handler registered elsewhere", json!({"case": info, "answer": String::from_utf8_lossy(&q.chunks.concat())}));
                } else {
                    ensure!(f.ftype == ERROR, "a request to an unregistered endpoint was answered", json!({"case": info, "frame_type": f.ftype}));
                }
                let ran: Vec<_> = log.take().into_iter().map(|x| (x.service, x.endpoint)).collect();
                let want: Vec<_> = if is_reg { vec![(s.to_string(), e.to_string())] } else { vec![] };
                ensure!(ran == want, "a handler executed a request addressed to another service or endpoint", json!({"case": info, "executed": ran}));
                ctx.eval(&format!("other {s} {e} {:?}", m.headers), true);
                ctx.add("requests_with_other_names", 1);
            }
            Ok(())
        })
    });
    ctx.finish(
        "Random subsets of a (service x endpoint) matrix over look-alike names (prefixes, case, NUL, whitespace, combining characters, empty, 255 bytes, >64 KiB, same name in both roles) are registered; every pair is then called concurrently; each handler answers with its own identity and logs its executions. For one base name some 150 look-alikes derived from it (whitespace, case, separators, encodings, cuts, paddings, Unicode forms) are called, a third of them with handlers of their own; splits of one string over service and endpoint; raw peers send names which are not UTF-8 while their lossy conversions are registered, and requests whose transport headers and other args name other services and endpoints. Distinct by (service, endpoint, registered?) and by derivation.",
        &[],
        100,
    )
}

// =================================================================== C22
fn rjson(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth == 0 { 8 } else { 10 }) {
        0 => Value::Null,
        1 => json!(r.chance(1, 2)),
        2 => json!(r.next() as i64),
        3 => json!(r.next()),
        4 => json!((r.next() as i32 as f64) / 16.0),
        5 | 6 => {
            let n = r.below(30);
            json!(random_text(r, n))
        }
        7 => json!(r.below(5) as i64 - 2),
        8 => Value::Array((0..r.below(5)).map(|_| rjson(r, depth - 1)).collect()),
        _ => Value::Object(robj(r, depth - 1)),
    }
}
fn robj(r: &mut Rng, depth: usize) -> Map<String, Value> {
    let mut m = Map::new();
    for _ in 0..r.below(6) {
        let n = r.below(12);
        m.insert(random_text(r, n), rjson(r, depth));
    }
    m
}
fn rmap(r: &mut Rng) -> Map<String, Value> {
    let mut m = robj(r, 3);
    match r.below(8) {
        0 => {
            let n = r.range(60000, 140000);
            m.insert("big".into(), json!(r.ascii(n)));
        }
        1 => {
            for k in 0..r.below(400) {
                m.insert(format!("k{k}"), json!(k));
            }
        }
        2 => m.clear(),
        _ => {}
    }
    m
}
/// Equal, up to the rounding of decimals that `serde_json` does when it reads and writes floats.
fn jeq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) if x.is_f64() && y.is_f64() => {
            let (x, y) = (x.as_f64().unwrap_or(0.0), y.as_f64().unwrap_or(0.0));
            (x - y).abs() <= x.abs() * 1e-12 + 1e-300
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| jeq(a, b)),
        (Value::Object(x), Value::Object(y)) => meq(x, y),
        _ => a == b,
    }
}
fn meq(a: &Map<String, Value>, b: &Map<String, Value>) -> bool {
    a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).map_or(false, |w| jeq(v, w)))
}
fn json_objects(h: &[u8], b: &[u8]) -> Option<(Map<String, Value>, Map<String, Value>)> {
    Some((serde_json::from_slice(h).ok()?, serde_json::from_slice(b).ok()?))
}
/// An arg that is a JSON object, nearly one, or something else.
fn hostile_json(r: &mut Rng) -> (Vec<u8>, &'static str) {
    let (mut b, what) = small_hostile_json(r);
    if r.chance(1, 8) {
        // the same in a large argument: white space changes nothing
        let n = *r.pick(&[9_000usize, 61_000, 66_000, 140_000]);
        let pad = vec![*r.pick(b" \n\t"); n];
        match b.iter().position(|c| *c == b'{') {
            Some(k) if r.chance(1, 2) => {
                b.splice(k + 1..k + 1, pad);
            }
            _ if r.chance(1, 2) => b.extend(pad),
            _ => {
                b.splice(0..0, pad);
            }
        }
    }
    (b, what)
}
fn small_hostile_json(r: &mut Rng) -> (Vec<u8>, &'static str) {
    let good = serde_json::to_string(&robj(r, 3)).expect("json");
    let nest = |open: &str, mid: &str, close: &str, n: usize| format!("{}{mid}{}", open.repeat(n), close.repeat(n));
    let depth = *r.pick(&[20, 100, 126, 127, 128, 129, 200, 10_000]);
    let (t, what) = match r.below(24) {
        0..=7 => (good, "object"),
        8 => (format!(" \t\r\n{good}\n \n"), "white space around"),
        9 => (good[..(0..r.below(good.len()) + 1).rev().find(|k| good.is_char_boundary(*k)).unwrap_or(0).max(1)].to_string(), "truncated"),
        10 => (format!("{good}{}", r.pick(&["}", "x", "{}", ",", "\0", "\u{feff}", "null", "//"])), "junk behind"),
        11 => (format!("{}{good}", r.pick(&["x", "\u{feff}", ",", "\0", "{", "null"])), "junk before"),
        12 => (format!("[{good}]"), "array"),
        13 => (r.pick(&["1", "\"text\"", "null", "true", "[]", "-0.5", "{", "}", "\"", " ", "", ""]).to_string(), "no object"),
        14 => (r.pick(&["{\"a\":1,\"a\":2}", "{\"a\":{\"b\":1,\"b\":[]},\"\\u0061\":null}"]).to_string(), "key twice"),
        15 => (nest("{\"a\":", "1", "}", depth), "nested objects"),
        16 => (format!("{{\"a\":{}}}", nest("[", "", "]", depth)), "nested arrays"),
        17 => (format!("{{\"a\":{}", "[".repeat(depth)), "nested and open"),
        18 => (r.pick(&["{\"a\":1,}", "{a:1}", "{'a':1}", "{\"a\":01}", "{\"a\":NaN}", "{\"a\":.5}", "{\"a\":+1}", "{\"a\" 1}", "{\"a\":1 \"b\":2}", "{/**/}", "{\"a\":tru}", "{1:2}"]).to_string(), "not quite JSON"),
        19 => (r.pick(&["{\"a\":1e999}", "{\"a\":1e308}", "{\"a\":18446744073709551615}", "{\"a\":18446744073709551616}", "{\"a\":-9223372036854775809}", "{\"a\":1E-400}", "{\"a\":-0}"]).to_string(), "extreme number"),
        20 => (r.pick(&["{\"a\":\"\\ud800\"}", "{\"a\":\"\\udc00\\ud800\"}", "{\"a\":\"\\ud83d\\ude00\"}", "{\"a\":\"\\x41\"}", "{\"a\":\"\\u00\"}", "{\"a\":\"\u{1}\"}", "{\"a\":\"line\nbreak\"}", "{\"\\u0000\":0}"]).to_string(), "escapes"),
        21 => {
            let mut b = b"{\"a\":\"".to_vec();
            let n = *r.pick(&[0usize, 0, 3, 8_190, 62_000]);
            b.extend(vec![b'x'; n]);
            b.extend_from_slice(r.pick(&[&[0xff][..], &[0xc0, 0x80], &[0xed, 0xa0, 0x80], &[0xe2, 0x82], &[0xf0, 0x9f, 0x98, 0x80]]));
            b.extend_from_slice(b"\"}");
            return (b, "bytes that may be no text");
        }
        22 => (good.encode_utf16().flat_map(|u| u.to_le_bytes()).map(|b| b as char).collect(), "UTF-16"),
        _ => {
            let mut b = good.into_bytes();
            let k = r.below(b.len());
            b[k] = r.next() as u8;
            return (b, "byte replaced");
        }
    };
    (t.into_bytes(), what)
}
pub fn c22(ctx: Arc<Ctx>) -> i32 {
    let (min, max) = if ctx.quick() { (50, 1800) } else { (400, 100000) };
    ctx.scenarios(0, "json", 6, min, max, 0.55, |ctx, i, mut r| {
        with_rt(Rt::pick(&mut r), move || async move {
            let cfg = Cfg::random(&mut r);
            let (srv, addr) = server(&cfg).await?;
            let ss = sub(&srv, "svc").await?;
            let seen = Arc::new(Mutex::new(Vec::<JsonMessage>::new()));
            let plan = Arc::new(Mutex::new(BTreeMap::<String, JsonMessage>::new()));
            for e in ["j", "", "k"] {
                let (seen, plan) = (seen.clone(), plan.clone());
                reg_sync(&ss, e, json_sync(move |m| {
                    let key = m.headers().get("\u{1}key").and_then(|k| k.as_str()).unwrap_or("").to_string();
                    seen.lock().unwrap().push(m);
                    let out = plan.lock().unwrap().remove(&key).unwrap_or_default();
                    if key.ends_with('e') {
                        Err(tchannel_rs::errors::HandlerError::MessageError(out))
                    } else {
                        Ok(out)
                    }
                })).await?;
            }
            await_listening(addr).await?;
            let c = client(&cfg);
            let sc = sub(&c, "svc").await?;
            let mut tasks = vec![];
            let mut sent = vec![];
            for k in 0..r.range(1, 10) {
                let key = format!("{k}{}", if r.chance(1, 4) { "e" } else { "" });
                let mut h = rmap(&mut r);
                h.insert("\u{1}key".into(), json!(key));
                let req = JsonMessage::new(r.pick(&["j", "", "k"]).to_string(), h, rmap(&mut r));
                let n = r.below(40);
                let res = JsonMessage::new(random_text(&mut r, n), rmap(&mut r), rmap(&mut r));
                plan.lock().unwrap().insert(key.clone(), res.clone());
                sent.push(req.clone());
                let (sc, ctx) = (sc.clone(), ctx.clone());
                tasks.push(tokio::spawn(async move {
                    let sz = format!("{} {}", req.body().len(), req.headers().len());
                    let got = jcall(&sc, req, addr).await?;
                    let (is_err, got) = match got {
                        Ok(m) => (false, m),
                        Err(tchannel_rs::errors::HandlerError::MessageError(m)) => (true, m),
                        Err(e) => return viol("a well-formed JSON call failed", json!({"error": format!("{:.300}", e.to_string())})),
                    };
                    ensure!(is_err == key.ends_with('e'), "JSON response arrived under the wrong outcome", json!({ "key": key }));
                    ensure!(
                        got.method_name() == res.method_name() && got.headers() == res.headers() && got.body() == res.body(),
                        "JSON response differs from what the handler returned",
                        json!({"want": format!("{res:?}").chars().take(400).collect::<String>(), "got": format!("{got:?}").chars().take(400).collect::<String>()})
                    );
                    ctx.eval(&format!("{sz} {:x}", hash_str(&format!("{res:?}"))), true);
                    Ok(())
                }));
            }
            let n = tasks.len();
            for t in tasks {
                t.await.map_err(|_| Fail::Violation("a calling task panicked".into(), sut_panic_json()))??;
            }
            let seen = std::mem::take(&mut *seen.lock().unwrap());
            ensure!(seen.len() == n, "number of JSON requests handled differs from number sent", json!({"handled": seen.len(), "sent": n}));
            for s in &sent {
                let k = s.headers().get("\u{1}key");
                let g = seen.iter().find(|m| m.headers().get("\u{1}key") == k);
                ensure!(
                    g.map(|g| g.method_name() == s.method_name() && g.headers() == s.headers() && g.body() == s.body()).unwrap_or(false),
                    "JSON handler received something other than what was sent",
                    json!({"sent": format!("{s:?}").chars().take(400).collect::<String>(), "seen": format!("{g:?}").chars().take(400).collect::<String>()})
                );
            }
            if i < 3 {
                ctx.sample(json!({"json_request": format!("{}", sent[0]).chars().take(300).collect::<String>()}));
            }
            Ok(())
        })
    });
    // scheme separation: raw <-> json never cross over
    ctx.scenarios(1, "scheme", 6, min / 2, max, 0.7, |ctx, i, mut r| {
        with_rt(Rt::pick(&mut r), move || async move {
            let cfg = Cfg::random(&mut r);
            let (srv, addr) = server(&cfg).await?;
            let ss = sub(&srv, "svc").await?;
            let hits = Arc::new(Mutex::new((0usize, 0usize)));
            let h = hits.clone();
            reg_sync(&ss, "raw", raw_sync(move |m| {
                h.lock().unwrap().0 += 1;
                Ok(m)
            })).await?;
            let h = hits.clone();
            reg_sync(&ss, "json", json_sync(move |m| {
                h.lock().unwrap().1 += 1;
                Ok(m)
            })).await?;
            await_listening(addr).await?;
            let c = client(&cfg);
            let sc = sub(&c, "svc").await?;
            let (mut nr, mut nj) = (0, 0);
            for _ in 0..r.range(2, 10) {
                let raw_call = r.chance(1, 2);
                let raw_ep = r.chance(1, 2);
                let ep = if raw_ep { "raw" } else { "json" };
                if raw_call {
                    // args that would parse as JSON objects, too
                    let m = msg(ep, "{\"a\":1}", "{\"b\":[2]}");
                    let x = call(&sc, m.clone(), addr).await?;
                    if raw_ep {
                        nr += 1;
                        ensure!(matches!(&x, Ok(g) if same(g, &m)), "raw call to a raw handler failed", json!({"r": format!("{x:?}").chars().take(300).collect::<String>()}));
                    } else {
                        ensure!(x.is_err(), "a raw message was accepted by a JSON handler", json!({"r": format!("{x:?}").chars().take(300).collect::<String>()}));
                    }
                } else {
                    let m = JsonMessage::new(ep.into(), rmap(&mut r), rmap(&mut r));
                    let x = jcall(&sc, m.clone(), addr).await?;
                    if !raw_ep {
                        nj += 1;
                        ensure!(matches!(&x, Ok(g) if g.body() == m.body() && g.headers() == m.headers()), "JSON call to a JSON handler failed", json!({"r": format!("{x:?}").chars().take(300).collect::<String>()}));
                    } else {
                        ensure!(x.is_err(), "a JSON message was accepted by a raw handler", json!({"r": format!("{x:?}").chars().take(300).collect::<String>()}));
                    }
                }
                ctx.eval(&format!("scheme {raw_call}{raw_ep}{}", r.below(50)), true);
                ctx.add(if raw_call == raw_ep { "scheme_match" } else { "scheme_mismatch" }, 1);
            }
            let g = *hits.lock().unwrap();
            ensure!(g == (nr, nj), "a handler ran for a message of another arg scheme", json!({"raw_handler_runs": g.0, "raw_expected": nr, "json_handler_runs": g.1, "json_expected": nj}));
            // responses of the wrong scheme from a fake server
            let fa = fresh_addr();
            let l = listen(fa).await?;
            let scheme = r.pick(&["json", "thrift", "http", "sthrift", "RAW", "raw ", "", "nope", "-absent-"]).to_string();
            let sch = scheme.clone();
            let f = tokio::spawn(async move {
                if let Ok((s, _)) = l.accept().await {
                    if let Ok((mut rd, mut w)) = accept_init(s).await {
                        while let Got::Frame(f) = rd.frame().await {
                            if f.ftype == PING_REQ {
                                let _ = w.frame(&Frame::new(PING_RES, f.id, vec![])).await;
                                continue;
                            }
                            let mut m = ResMeta::raw();
                            m.headers = if sch == "-absent-" { vec![("cn".into(), "x".into())] } else { vec![("as".into(), sch.clone())] };
                            for fr in res_frames(f.id, &m, &[vec![b"e".to_vec(), b"{}".to_vec(), b"{}".to_vec()]]) {
                                let _ = w.frame(&fr).await;
                            }
                        }
                    }
                }
            });
            let x = call(&sc, msg("e", "h", "b"), fa).await?;
            ensure!(x.is_err(), "a response of another arg scheme was delivered as a raw message", json!({ "scheme": scheme }));
            ctx.eval(&format!("resp scheme {scheme}"), true);
            f.abort();
            if i < 2 {
                ctx.sample(json!({"response_scheme_rejected": scheme}));
            }
            Ok(())
        })
    });
    // args that are not, or not quite, a JSON object
    ctx.scenarios(2, "hostile_json", 6, min, max, 1.0, |ctx, i, mut r| {
        with_rt(Rt::pick(&mut r), move || async move {
            let cfg = Cfg::random(&mut r);
            let (srv, addr) = server(&cfg).await?;
            let ss = sub(&srv, "svc").await?;
            let seen = Arc::new(Mutex::new(Vec::<JsonMessage>::new()));
            let s2 = seen.clone();
            let keep = move |m: JsonMessage| {
                s2.lock().unwrap().push(m.clone());
                Ok(m)
            };
            if r.chance(1, 2) {
                reg_sync(&ss, "j", json_sync(keep)).await?;
            } else {
                reg(&ss, "j", json_sync(keep)).await?;
            }
            await_listening(addr).await?;
            let meta = ReqMeta { headers: vec![("as".into(), "json".into()), ("cn".into(), "tmon".into())], ..ReqMeta::raw("svc") };
            let (mut rd, mut w) = fake_client(addr).await?;
            for id in 10..20u32 {
                let ((h, what), (b, what2)) = (hostile_json(&mut r), hostile_json(&mut r));
                let want = json_objects(&h, &b);
                let fs = {
                    let args = [b"j".to_vec(), h.clone(), b.clone()];
                    req_frames(id, &meta, &fragment(&args, meta.size(), &mut r, 4))
                };
                for f in fs {
                    let _ = w.frame(&f).await;
                }
                let (mut first, mut asm, mut more) = (None, Assembler::default(), true);
                while more {
                    let f = match within(HANG, rd.expect()).await {
                        Ok(Ok(f)) => f,
                        Ok(Err(_)) => return viol("server closed the connection because of a JSON arg", json!({"header": what, "body": what2, "valid": want.is_some()})),
                        Err(Hang) => return viol("server never answered a JSON request", json!({"header": what, "body": what2})),
                    };
                    if f.id != id {
                        continue;
                    }
                    let (flags, chunks) = match f.ftype {
                        CALL_RES => {
                            let m = parse_call_res(&f.payload).map_err(|e| Fail::Violation("malformed response".into(), json!({ "e": e })))?;
                            first.get_or_insert((f.ftype, m.code));
                            (m.flags, m.chunks)
                        }
                        CALL_RES_CONT => {
                            let m = parse_cont(&f.payload).map_err(|e| Fail::Violation("malformed response".into(), json!({ "e": e })))?;
                            (m.flags, m.chunks)
                        }
                        _ => {
                            first = Some((f.ftype, 1));
                            break;
                        }
                    };
                    asm.add(&chunks);
                    more = flags & MORE != 0;
                }
                let runs = std::mem::take(&mut *seen.lock().unwrap());
                let ctxt = json!({"header": what, "body": what2, "header_bytes": String::from_utf8_lossy(&h).chars().take(150).collect::<String>(), "body_bytes": String::from_utf8_lossy(&b).chars().take(150).collect::<String>(), "answer": format!("{first:?}"), "handler_runs": runs.len()});
                match &want {
                    Some((wh, wb)) => {
                        ensure!(runs.len() == 1 && runs[0].method_name() == "j" && meq(runs[0].headers(), wh) && meq(runs[0].body(), wb), "JSON handler did not get the objects that were sent", ctxt);
                        ensure!(first == Some((CALL_RES, 0)), "a valid JSON request was not answered with success", ctxt);
                        asm.args.resize(3, vec![]);
                        ensure!(matches!(json_objects(&asm.args[1], &asm.args[2]), Some((h, b)) if meq(&h, wh) && meq(&b, wb)), "JSON response differs from what the handler returned", ctxt);
                    }
                    None => {
                        ensure!(runs.is_empty(), "JSON handler ran for a request that does not consist of JSON objects", ctxt);
                        ensure!(first != Some((CALL_RES, 0)), "a request that does not consist of JSON objects was answered with success", ctxt);
                    }
                }
                ensure!(sut_panics() == 0, "library panicked on a JSON arg", sut_panic_json());
                ctx.add(if want.is_some() { "hostile_json_valid" } else { "hostile_json_refused" }, 1);
                ctx.observe("json_kinds", hash_str(&format!("{what} {what2}")));
                ctx.eval(&format!("srv {what} {what2} {}", h.len() + b.len()), true);
            }
            // the caller's side
            let plan: Vec<_> = (0..8).map(|_| (hostile_json(&mut r), hostile_json(&mut r), r.chance(1, 4) as u8)).collect();
            let plan = Arc::new(plan);
            let fa = fresh_addr();
            let l = listen(fa).await?;
            let (p2, mut fr) = (plan.clone(), r.fork());
            let peer = tokio::spawn(async move {
                while let Ok((s, _)) = l.accept().await {
                    let (plan, mut r) = (p2.clone(), fr.fork());
                    tokio::spawn(async move {
                        let Ok((mut rd, mut w)) = accept_init(s).await else { return };
                        while let Got::Frame(f) = rd.frame().await {
                            if f.ftype == PING_REQ {
                                let _ = w.frame(&Frame::new(PING_RES, f.id, vec![])).await;
                                continue;
                            }
                            let Ok(q) = parse_call_req(&f.payload) else { continue };
                            let k: usize = String::from_utf8_lossy(&q.chunks[0]).parse().unwrap_or(0);
                            let ((h, _), (b, _), code) = &plan[k];
                            let m = ResMeta { code: *code, headers: vec![("as".into(), "json".into())], ..ResMeta::raw() };
                            for fr in res_frames(f.id, &m, &fragment(&[b"x".to_vec(), h.clone(), b.clone()], m.size(), &mut r, 4)) {
                                let _ = w.frame(&fr).await;
                            }
                        }
                    });
                }
            });
            let c = client(&cfg);
            let sc = sub(&c, "svc").await?;
            for (k, ((h, what), (b, what2), code)) in plan.iter().enumerate() {
                let got = jcall(&sc, JsonMessage::new(k.to_string(), Map::new(), Map::new()), fa).await?;
                let want = json_objects(h, b);
                let ctxt = json!({"header": what, "body": what2, "code": code, "header_bytes": String::from_utf8_lossy(h).chars().take(150).collect::<String>(), "body_bytes": String::from_utf8_lossy(b).chars().take(150).collect::<String>(), "got": format!("{got:?}").chars().take(300).collect::<String>()});
                let got = match got {
                    Ok(m) => Some((0, m)),
                    Err(tchannel_rs::errors::HandlerError::MessageError(m)) => Some((1, m)),
                    Err(_) => None,
                };
                match (&want, &got) {
                    (None, None) => {}
                    (None, Some(_)) => return viol("caller got a JSON message from a response that does not consist of JSON objects", ctxt),
                    (Some(_), None) => return viol("a valid JSON response was refused", ctxt),
                    (Some((wh, wb)), Some((c, m))) => {
                        ensure!(c == code, "JSON response arrived under the wrong outcome", ctxt);
                        ensure!(m.method_name() == "x" && meq(m.headers(), wh) && meq(m.body(), wb), "caller got other objects than the peer sent", ctxt);
                    }
                }
                ensure!(sut_panics() == 0, "library panicked on a JSON arg", sut_panic_json());
                ctx.add(if want.is_some() { "hostile_json_valid" } else { "hostile_json_refused" }, 1);
                ctx.eval(&format!("cli {what} {what2} {}", h.len() + b.len()), true);
            }
            peer.abort();
            // nothing of this harms a later call
            let m = JsonMessage::new("j".into(), rmap(&mut r), rmap(&mut r));
            match jcall(&sc, m.clone(), addr).await? {
                Ok(g) => ensure!(g.headers() == m.headers() && g.body() == m.body(), "wrong JSON response", json!({})),
                Err(e) => return viol("a well-formed JSON call failed", json!({"error": format!("{:.300}", e.to_string())})),
            }
            if i < 3 {
                ctx.sample(json!({"hostile_json_args": plan.iter().map(|p| (p.0.1, p.1.1)).collect::<Vec<_>>()}));
            }
            Ok(())
        })
    });
    ctx.finish(
        "Random JSON objects (nested, all value kinds, control and non-BMP characters, >64 KiB) as headers and body of concurrent JSON calls, compared structurally at handler and caller; plus raw/JSON calls crossed with raw/JSON handlers and fake servers answering with every other arg scheme. Distinct by content hash.",
        &["floats are generated as dyadic rationals so that their decimal form round-trips", "what is a JSON object is decided by serde_json"],
        80,
    )
}
#[allow(unused)]
fn _unused(_: TcpStream) {}
