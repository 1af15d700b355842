//! C17 connection pool, C18 resources, C20 server lifecycle, C21 health checks.
use crate::core::*;
use crate::ensure;
use crate::net::*;
use crate::p_conc::{join_all, must_ok};
use crate::sut::*;
use crate::wire::*;
use bytes::Bytes;
use serde_json::json;
use std::net::SocketAddr;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tchannel_rs::errors::HandlerError;
use tchannel_rs::messages::{MessageChannel, RawMessage};
use tchannel_rs::TChannel;
use tokio::net::TcpStream;

async fn sleep_ms(n: u64) {
    tokio::time::sleep(Duration::from_millis(n)).await
}
async fn eventually(beats: u64, mut f: impl FnMut() -> bool) -> bool {
    within(beats, async {
        while !f() {
            sleep_ms(3).await;
        }
    })
    .await
    .is_ok()
}

// =================================================================== C17
/// Server whose every answer carries its own name.
async fn named_server(cfg: &Cfg, name: &str) -> R<(TChannel, SocketAddr)> {
    let (s, a) = server(cfg).await?;
    for svc in ["svc", "other"] {
        let ss = sub(&s, svc).await?;
        let name = name.to_string();
        let n = Arc::new(AtomicU64::new(0));
        reg(&ss, "who", raw_async(move |m: RawMessage| {
            let mut r = Rng::new(n.fetch_add(1, SeqCst));
            let name = name.clone();
            async move {
                jitter(&mut r).await;
                Ok(msg(m.endpoint().clone(), format!("{name}/{}", m.header()), m.body().clone()))
            }
        })).await?;
        reg(&ss, "sleep", raw_async(|m: RawMessage| async move {
            sleep_ms(m.header().parse().unwrap_or(0)).await;
            Ok(m)
        })).await?;
    }
    await_listening(a).await?;
    Ok((s, a))
}
pub fn c17(ctx: Arc<Ctx>) -> i32 {
    crate::p_hours::reuse(&ctx);
    // Expiry needs the pool's own 30 s maintenance tick; runs beside the other groups.
    let bg = {
        let ctx = ctx.clone();
        std::thread::spawn(move || {
            let n = if ctx.quick() { 4 } else { 8 };
            ctx.scenarios(9, "lifetime", n, n as u64, n as u64, 1.0, |ctx, i, mut r| {
                with_rt(Rt::Multi(2), move || async move {
                    let expires = i % 4 != 3;
                    let conns = [1, 2, 3, 1][(i % 4) as usize];
                    let cfg = Cfg { max_connections: conns, lifetime: if expires { Some(Duration::from_secs(2)) } else { None }, server_tasks: 50, ..Cfg::default() };
                    let (_s, addr) = named_server(&cfg, "S").await?;
                    let proxy = Proxy::start(addr, ProxyPolicy { lean: true, ..Default::default() }, r.fork()).await?;
                    let c = client(&cfg);
                    let sc = sub(&c, "svc").await?;
                    let t0 = Instant::now();
                    must_ok(&sc, msg("who", "a", ""), proxy.addr, "first call").await?;
                    let before = proxy.conns.load(SeqCst);
                    // a call that is in progress while its connection expires
                    let (sc2, to) = (sc.clone(), proxy.addr);
                    let long = tokio::spawn(async move { must_ok(&sc2, msg("sleep", "35000", "long"), to, "call in progress while its connection expired").await });
                    while t0.elapsed() < Duration::from_millis(32_500) {
                        sleep_ms(100).await;
                    }
                    must_ok(&sc, msg("who", "b", ""), proxy.addr, "call after expiry").await?;
                    let after = proxy.conns.load(SeqCst);
                    if expires {
                        ensure!(after > before, "connection is still used long after its lifetime", json!({"lifetime_s": 2, "after_s": t0.elapsed().as_secs_f64(), "connections": [before, after]}));
                    } else {
                        ensure!(after == before, "connection without a lifetime was replaced", json!({"connections": [before, after]}));
                    }
                    match within(HANG, long).await {
                        Ok(x) => {
                            x.map_err(|e| Fail::Inconclusive(e.to_string()))??;
                        }
                        Err(Hang) => return viol("call in progress while its connection expired never ended", json!({})),
                    }
                    if expires {
                        // expired connections are closed, not only set aside
                        let p = proxy.clone();
                        ensure!(eventually(1000, move || p.open.load(SeqCst) <= conns as i64).await, "expired connection stays open after its last call", json!({"open": proxy.open.load(SeqCst)}));
                    }
                    ctx.add("lifetimes_observed", 1);
                    ctx.eval(&format!("life{conns}{expires}{i}"), true);
                    Ok(())
                })
            });
        })
    };
    let (min, max) = if ctx.quick() { (40, 1500) } else { (400, 100000) };
    ctx.scenarios(0, "bound_and_reuse", 5, min, max, 0.5, |ctx, i, mut r| {
        with_rt(Rt::pick(&mut r.clone()), move || async move {
            let cfg = Cfg { max_connections: r.range(1, 6) as u32, ..Cfg::random(&mut r) };
            let (_s, addr) = named_server(&Cfg { server_tasks: 50, ..cfg.clone() }, "S").await?;
            let proxy = Proxy::start(addr, ProxyPolicy { seg: *r.pick(&[0, 0, 2]), lean: true, ..Default::default() }, r.fork()).await?;
            let c = client(&cfg);
            let mut total = 0;
            for phase in 0..r.range(1, 4) {
                let callers = *r.pick(&[1, 2, 7, 20, 50]);
                total += callers;
                let mut tasks = vec![];
                for k in 0..callers {
                    // subchannels of one channel share its connections
                    let sc = sub(&c, *r.pick(&["svc", "other"])).await?;
                    let to = proxy.addr;
                    let mut r = r.fork();
                    let per = if callers > 10 { 2 } else { 6 };
                    tasks.push(tokio::spawn(async move {
                        for q in 0..per {
                            if r.chance(1, 3) {
                                jitter(&mut r).await;
                            }
                            let h = format!("{phase}.{k}.{q}");
                            let got = must_ok(&sc, msg("who", h.clone(), "x"), to, "call").await?;
                            ensure!(got.header() == &format!("S/{h}"), "wrong answer", json!({"got": got.header()}));
                        }
                        Ok(())
                    }));
                }
                join_all(tasks).await?;
                let (open, ever) = (proxy.max_open.load(SeqCst), proxy.conns.load(SeqCst));
                ensure!(open <= cfg.max_connections as i64, "more connections open at once than max_connections", json!({"open": open, "max_connections": cfg.max_connections, "callers": callers}));
                ensure!(ever <= cfg.max_connections as u64, "connections are not reused: more were opened than max_connections although none failed or expired", json!({"opened": ever, "max_connections": cfg.max_connections, "callers": callers}));
                ctx.max("most_connections_open", open as u64);
            }
            ensure!(proxy.open.load(SeqCst) >= 1, "no connection is kept for reuse", json!({}));
            ctx.add("calls", total as u64);
            ctx.eval(&format!("b{}{total}{}", cfg.sig(), proxy.max_open.load(SeqCst)), total > cfg.max_connections as usize);
            if i < 2 {
                ctx.sample(json!({"group": "bound", "config": cfg.sig(), "callers": total, "max_open": proxy.max_open.load(SeqCst)}));
            }
            Ok(())
        })
    });
    ctx.scenarios(1, "isolation", 5, min, max, 0.85, |ctx, i, mut r| {
        with_rt(Rt::pick(&mut r.clone()), move || async move {
            let cfg = Cfg::random(&mut r);
            let n = r.range(2, 5);
            let mut servers = vec![];
            let mut targets = vec![];
            for k in 0..n {
                let name = format!("S{k}");
                let (s, a) = named_server(&Cfg { server_tasks: 20, ..Cfg::default() }, &name).await?;
                let p = Proxy::start(a, ProxyPolicy { lean: true, ..Default::default() }, r.fork()).await?;
                targets.push((name, p));
                servers.push(s);
            }
            let targets = Arc::new(targets);
            let chans = r.range(1, 3);
            let mut clients = vec![];
            let mut tasks = vec![];
            for _ in 0..chans {
                let c = client(&cfg);
                for _ in 0..r.range(1, 6) {
                    let sc = sub(&c, *r.pick(&["svc", "other"])).await?;
                    let targets = targets.clone();
                    let mut r = r.fork();
                    tasks.push(tokio::spawn(async move {
                        let mut seq = vec![];
                        for q in 0..r.range(3, 12) {
                            let (name, p) = r.pick(&targets);
                            let h = format!("{q}");
                            let got = must_ok(&sc, msg("who", h.clone(), "x"), p.addr, "call").await?;
                            ensure!(got.header() == &format!("{name}/{h}"), "call was answered by another server than the one addressed", json!({"addressed": name, "answer": got.header()}));
                            seq.push(name.clone());
                        }
                        Ok(seq.join(""))
                    }));
                }
                clients.push(c);
            }
            let seqs = join_all(tasks).await?;
            for (name, p) in targets.iter() {
                let ever = p.conns.load(SeqCst);
                ensure!(ever <= (cfg.max_connections as usize * chans) as u64, "more connections to one address than max_connections per channel", json!({"server": name, "opened": ever, "channels": chans, "max_connections": cfg.max_connections}));
            }
            ctx.add("isolation_calls", seqs.iter().map(|s| s.len() as u64 / 2).sum());
            ctx.eval(&format!("i{seqs:?}"), n > 1);
            if i < 1 {
                ctx.sample(json!({"group": "isolation", "servers": n, "channels": chans, "target_sequences": seqs}));
            }
            Ok(())
        })
    });
    // one channel, many addresses
    ctx.scenarios(2, "many_addresses", 2, 2, if ctx.quick() { 2 } else { 40 }, 1.0, |ctx, i, mut r| {
        with_rt(Rt::Multi(2), move || async move {
            let n = *r.pick(&[150, 300]);
            let max = r.range(1, 3) as u32;
            let cfg = Cfg { max_connections: max, lifetime: None, test_connection: r.chance(1, 3), ..Cfg::default() };
            let c = client(&cfg);
            let mut targets = vec![];
            for k in 0..n {
                let addr = fresh_addr();
                let l = listen(addr).await?;
                let conns = Arc::new(AtomicUsize::new(0));
                let open = Arc::new(AtomicUsize::new(0));
                let (conns2, open2) = (conns.clone(), open.clone());
                tokio::spawn(async move {
                    while let Ok((s, _)) = l.accept().await {
                        conns2.fetch_add(1, SeqCst);
                        open2.fetch_add(1, SeqCst);
                        let open = open2.clone();
                        tokio::spawn(async move {
                            if let Ok((mut rd, mut w)) = accept_init(s).await {
                                while let Got::Frame(f) = rd.frame().await {
                                    if f.ftype == PING_REQ {
                                        let _ = w.frame(&Frame::new(PING_RES, f.id, vec![])).await;
                                    }
                                    let Ok(q) = parse_call_req(&f.payload) else { continue };
                                    let mut q = q.chunks;
                                    q[1] = format!("{k}").into_bytes();
                                    for g in res_frames(f.id, &ResMeta::raw(), &[q]) {
                                        let _ = w.frame(&g).await;
                                    }
                                }
                            }
                            open.fetch_sub(1, SeqCst);
                        });
                    }
                });
                targets.push((addr, conns, open));
            }
            let sc = sub(&c, "svc").await?;
            for round in 0..3 {
                let order: Vec<usize> = match round {
                    0 => (0..n).collect(),
                    1 => (0..n).rev().collect(),
                    _ => (0..n).map(|k| k * 7 % n).collect(),
                };
                for chunk in order.chunks(if round == 2 { 20 } else { 1 }) {
                    let got = futures::future::join_all(chunk.iter().map(|k| must_ok(&sc, msg("e", "", "b"), targets[*k].0, "call to one of many addresses"))).await;
                    for (k, g) in chunk.iter().zip(got) {
                        let g = g?;
                        ensure!(g.header() == &format!("{k}"), "call was answered by another server than the one addressed", json!({"addressed": k, "answer": g.header()}));
                    }
                }
                let over = targets.iter().filter(|t| t.1.load(SeqCst) > max as usize).count();
                ensure!(over == 0, "connections are not reused: more were opened to an address than max_connections, although none was lost", json!({"addresses": n, "with_too_many": over, "round": round, "max_connections": max}));
                let lost = targets.iter().filter(|t| t.2.load(SeqCst) == 0).count();
                ensure!(lost == 0, "healthy connections are not kept", json!({"addresses": n, "without_connection": lost, "round": round}));
            }
            ctx.add("addresses_of_one_channel", n as u64);
            ctx.eval(&format!("many {i} {n} {max}"), true);
            Ok(())
        })
    });
    let _ = bg.join();
    ctx.finish(
        "A counting proxy observes the connections that the real client opens. Without faults and expiry, the number of connections open at once and ever opened stays within max_connections per channel and address, for up to 50 concurrent callers over several phases and subchannels; every answer names the server that was addressed, also with hundreds of addresses per channel; with a lifetime, the connection is replaced and closed after the pool's maintenance tick while calls in progress on it complete; without a lifetime it is kept, as are the bound and the answers when hours pass on a hand-driven clock. Non-trivial: more callers than connections; distinct by config, load and observed connection count.",
        &["expiry is observed at the granularity of the pool's 30 s maintenance tick"],
        50,
    )
}

// =================================================================== C18
fn fds() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}
/// Live heap once things calm down: the least of several samples.
async fn live() -> i64 {
    let mut best = i64::MAX;
    let mut same = 0;
    for _ in 0..400 {
        sleep_ms(5).await;
        let v = LIVE_BYTES.load(SeqCst);
        if v < best {
            best = v;
            same = 0;
        } else {
            same += 1;
            if same > 30 {
                break;
            }
        }
    }
    best
}
struct Bench {
    c: TChannel,
    addr: SocketAddr,
    proxy: Arc<Proxy>,
    srv: TChannel,
    gate: Arc<tokio::sync::Semaphore>,
    /// one long connection that speaks raw frames to the server
    raw: tokio::sync::Mutex<Option<(WireRead, WireWrite, u32)>>,
    /// a server that answers in odd ways, over connections that stay up
    odd: SocketAddr,
    /// a server that reads nothing after the handshake
    stuck: SocketAddr,
}
async fn stuck_server() -> R<SocketAddr> {
    let addr = fresh_addr();
    let l = listen(addr).await?;
    tokio::spawn(async move {
        let mut keep = vec![];
        while let Ok((s, _)) = l.accept().await {
            keep.push(accept_init(s).await);
        }
    });
    Ok(addr)
}
/// Answers the n-th request of a connection in the n-th odd way; none of it concerns other calls.
async fn odd_server() -> R<SocketAddr> {
    let addr = fresh_addr();
    let l = listen(addr).await?;
    tokio::spawn(async move {
        while let Ok((s, _)) = l.accept().await {
            tokio::spawn(async move {
                let Ok((mut rd, mut w)) = accept_init(s).await else { return };
                let mut n = 0u32;
                while let Got::Frame(f) = rd.frame().await {
                    if f.ftype != CALL_REQ {
                        continue;
                    }
                    n += 1;
                    let mut m = ResMeta::raw();
                    let args = vec![b"e".to_vec(), b"h".to_vec(), vec![1u8; 300]];
                    let fs = match n % 8 {
                        0 => vec![Frame::new(ERROR, f.id, enc_error(5, (0, 0, 0, 0), "no"))],
                        1 => {
                            m.headers = vec![];
                            res_frames(f.id, &m, &[args])
                        }
                        2 => vec![Frame::new(CALL_RES, f.id, vec![0; 7])],
                        3 => res_frames(f.id, &m, &[vec![args[0].clone(), vec![0xff], args[2].clone()]]),
                        4 => {
                            // nobody waits for these
                            let mut v = res_frames(f.id ^ 0x4000_0000, &m, &[args.clone(), vec![vec![2u8; 50]]]);
                            v.push(Frame::new(CALL_RES_CONT, f.id ^ 0x2000_0000, vec![0; 3]));
                            v.extend(res_frames(f.id, &m, &[args.clone()]));
                            v.extend(res_frames(f.id, &m, &[args]));
                            v
                        }
                        5 => {
                            m.code = 9;
                            res_frames(f.id, &m, &[args])
                        }
                        6 => {
                            let mut v = res_frames(f.id, &m, &[args.clone(), vec![vec![2u8; 50]]]);
                            v.truncate(1);
                            v.push(Frame::new(ERROR, f.id, enc_error(2, (0, 0, 0, 0), "cancelled")));
                            v
                        }
                        _ => res_frames(f.id, &m, &[args[..2].to_vec()]),
                    };
                    for x in fs {
                        if w.frame(&x).await.is_err() {
                            return;
                        }
                    }
                }
            });
        }
    });
    Ok(addr)
}
const KINDS: [&str; 23] = [
    "ok",
    "ok_multiframe",
    "app_error",
    "failing_handler",
    "unknown_endpoint",
    "unknown_service",
    "cancelled",
    "cancelled_multiframe",
    "cancelled_in_handler",
    "concurrent",
    "incomplete_then_gone",
    "gone_before_answer",
    "no_handshake",
    "malformed",
    "killed_connections",
    "register_unregister",
    "new_clients",
    "refused_connections",
    "unservable_requests",
    "odd_responses",
    "cancelled_while_reader_waits",
    "replaced_while_running",
    "abandoned_at_stuck_peer",
];
async fn workload(b: &Bench, kind: &str, n: usize, r: &mut Rng) -> R<()> {
    let sc = sub(&b.c, "svc").await?;
    let direct = b.addr;
    match kind {
        "ok" | "ok_multiframe" | "app_error" | "failing_handler" | "unknown_endpoint" => {
            let ep = match kind {
                "app_error" => "fail",
                "failing_handler" => "general",
                "unknown_endpoint" => "nope",
                _ => "echo",
            };
            for k in 0..n {
                // another name each time: nothing may be kept for each name
                let ep = if kind == "unknown_endpoint" { format!("nope{k} {}", r.next()) } else { ep.to_string() };
                let len = if kind == "ok_multiframe" { 150_000 } else { 50 };
                let got = call(&sc, msg(&*ep, format!("h{k}"), vec![7u8; len]), direct).await?;
                ensure!(got.is_ok() == (ep == "echo"), "unexpected outcome", json!({ "kind": kind }));
            }
        }
        "unknown_service" => {
            let sx = sub(&b.c, "nobody").await?;
            for _ in 0..n {
                let got = call(&sx, msg("echo", "h", "b"), direct).await?;
                ensure!(got.is_err(), "unexpected outcome", json!({ "kind": kind }));
            }
            // another name each time: nothing may be kept for each name
            let (mut rd, mut w) = fake_client(direct).await?;
            for id in 0..n as u32 {
                let name = format!("nobody {id} {}", r.next());
                let f = req_frames(10 + id, &ReqMeta::raw(&name), &[vec![b"echo".to_vec(), b"h".to_vec(), b"b".to_vec()]]);
                w.frame(&f[0]).await.map_err(|e| Fail::Violation(format!("server closed the connection: {e}"), json!({})))?;
                let f = within(HANG, rd.expect()).await.map_err(|_| Fail::Violation("a request for an unknown service was never answered".into(), json!({})))??;
                ensure!(f.ftype == ERROR && f.id == 10 + id, "unexpected outcome", json!({"type": f.ftype}));
            }
        }
        "cancelled" | "cancelled_multiframe" => {
            for _ in 0..n {
                let len = if kind == "cancelled" { 50 } else { 150_000 + r.below(200_000) };
                let m = msg("echo", "h", vec![7u8; len]);
                CancelAfter { fut: Some(Box::pin(call(&sc, m, direct))), polls: r.range(1, 12) }.await;
            }
        }
        "cancelled_in_handler" => {
            let mut v = vec![];
            for _ in 0..n {
                v.push(Box::pin(call(&sc, msg("gate", "h", "b"), direct)));
            }
            let _ = within(20, futures::future::join_all(v)).await;
            b.gate.add_permits(n);
            eventually(500, || b.gate.available_permits() == 0).await;
            b.gate.acquire_many(b.gate.available_permits() as u32).await.map(|p| p.forget()).ok();
        }
        "concurrent" => {
            let v: Vec<_> = (0..n).map(|k| call(&sc, msg("echo", "h", vec![7u8; if k % 20 == 0 { 100_000 } else { 30 }]), direct)).collect();
            for x in futures::future::join_all(v).await {
                ensure!(x?.is_ok(), "concurrent call failed", json!({}));
            }
        }
        "incomplete_then_gone" | "gone_before_answer" | "malformed" => {
            for _ in 0..n / 10 {
                let (rd, mut w) = fake_client(direct).await?;
                for id in 2..12u32 {
                    let f = match kind {
                        "incomplete_then_gone" => Frame::new(CALL_REQ, id, enc_call_req(MORE, &ReqMeta::raw("svc"), &[b"echo".to_vec(), vec![1; 3000]])),
                        "malformed" => Frame::new(if id % 2 == 0 { CALL_REQ } else { CALL_REQ_CONT }, id, vec![1; id as usize]),
                        _ => Frame::new(CALL_REQ, id, enc_call_req(0, &ReqMeta::raw("svc"), &[b"slow".to_vec(), vec![], vec![1; 3000]])),
                    };
                    let _ = w.frame(&f).await;
                }
                if r.chance(1, 2) {
                    sleep_ms(1).await;
                }
                drop((rd, w));
            }
        }
        "no_handshake" => {
            for k in 0..n / 10 {
                let s = connect_retry(direct).await?;
                let (rd, mut w) = wire(s);
                if k % 2 == 0 {
                    let _ = w.raw(&[0, 20, 1, 0, 0]).await;
                }
                drop((rd, w));
            }
        }
        "killed_connections" => {
            for _ in 0..n / 10 {
                let mut v = vec![];
                for k in 0..10u64 {
                    v.push(call(&sc, msg(if k % 2 == 0 { "echo" } else { "slow" }, "h", "b"), b.proxy.addr));
                }
                let p = b.proxy.clone();
                let wait = r.below(3) as u64;
                let (res, _) = tokio::join!(futures::future::join_all(v), async move {
                    sleep_ms(wait).await;
                    p.kill_all();
                });
                for x in res {
                    let _ = x?; // a hang is a violation, failing is fine
                }
            }
            // the pool has a fresh connection again
            for _ in 0..50 {
                if call(&sc, msg("echo", "h", "b"), b.proxy.addr).await?.is_ok() {
                    break;
                }
            }
        }
        "register_unregister" => {
            let ss = sub(&b.srv, "svc").await?;
            for _ in 0..n {
                let keep = vec![0u8; 300];
                reg_sync(&ss, "temp", raw_sync(move |m| {
                    let _ = keep.len();
                    Ok(m)
                })).await?;
                ss.unregister("temp").await.map_err(|e| Fail::Violation(format!("unregister failed: {e}"), json!({})))?;
            }
        }
        "new_clients" => {
            for _ in 0..n / 10 {
                let c = client(&Cfg::default());
                let s = sub(&c, "svc").await?;
                for _ in 0..3 {
                    must_ok(&s, msg("echo", "h", "b"), direct, "call of a new client").await?;
                }
            }
        }
        "refused_connections" => {
            for _ in 0..n / 10 {
                // connects and leaves, with and without a reset
                if let Ok(s) = TcpStream::connect(direct).await {
                    if r.chance(1, 2) {
                        let _ = s.set_linger(Some(Duration::from_secs(0)));
                    }
                    drop(s);
                }
            }
        }
        "abandoned_at_stuck_peer" => {
            for _ in 0..n {
                let m = msg("echo", "h", vec![7u8; 100_000 + r.below(100_000)]);
                let got = tokio::time::timeout(Duration::from_millis(4), call(&sc, m, b.stuck)).await;
                ensure!(!matches!(got, Ok(Ok(Ok(_)))), "response without an answer", json!({ "kind": kind }));
            }
        }
        "unservable_requests" => {
            let mut slot = b.raw.lock().await;
            if slot.is_none() {
                let (rd, w) = fake_client(direct).await?;
                *slot = Some((rd, w, 10));
            }
            let (rd, w, id) = slot.as_mut().unwrap();
            for k in 0..n {
                *id += 1;
                let mut m = ReqMeta::raw("svc");
                let mut args = vec![b"echo".to_vec(), b"h".to_vec(), b"b".to_vec()];
                let mut fs = match k % 10 {
                    0 => {
                        m.headers[0].1 = "http".into();
                        req_frames(*id, &m, &[args])
                    }
                    1 => {
                        m.headers.remove(0);
                        req_frames(*id, &m, &[args])
                    }
                    2 => {
                        args[1] = vec![0xc3];
                        req_frames(*id, &m, &[args])
                    }
                    3 => {
                        args[0] = vec![0xff];
                        req_frames(*id, &m, &[args])
                    }
                    4 => {
                        let mut fs = req_frames(*id, &m, &[args]);
                        fs[0].payload.truncate(r.clone().below(m.size()));
                        fs
                    }
                    5 => {
                        let mut fs = req_frames(*id, &m, &[args]);
                        let pos = m.size() - 1;
                        fs[0].payload[pos] = 1;
                        for q in 0..4 {
                            fs[0].payload.insert(pos + 1 + q, 7);
                        }
                        fs
                    }
                    6 => req_frames(*id, &m, &[args[..2].to_vec()]),
                    7 => {
                        // the second of three frames cannot be decoded
                        let mut fs = req_frames(*id, &m, &[args.clone(), vec![vec![1; 9]], vec![vec![2; 9]]]);
                        fs[1].payload = vec![0, 200];
                        fs
                    }
                    8 => {
                        m.service = "nobody".into();
                        req_frames(*id, &m, &[args.clone(), vec![vec![1; 9]]])
                    }
                    _ => {
                        args[0] = b"nope".to_vec();
                        req_frames(*id, &m, &[args.clone(), vec![vec![1; 9]]])
                    }
                };
                if k % 16 == 15 {
                    fs.push(Frame::new(CALL_REQ_CONT, *id | 0x4000_0000, vec![0; 5]));
                }
                for f in &fs {
                    w.frame(f).await.map_err(|e| Fail::Violation(format!("server closed the connection over a request it cannot serve: {e}"), json!({"kind": k % 10})))?;
                }
                match within(HANG, rd.expect()).await {
                    Ok(f) => {
                        let f = f?;
                        // a missing third argument may be taken as an empty one
                        ensure!((f.ftype == ERROR || k % 10 == 6) && f.id == *id, "an unservable request was not answered with an error", json!({"kind": k % 10, "type": f.ftype, "id": f.id, "want": *id}));
                    }
                    Err(Hang) => return viol("an unservable request was never answered", json!({"kind": k % 10})),
                }
            }
        }
        "odd_responses" => {
            for _ in 0..n {
                let _ = call(&sc, msg("echo", "h", "b"), b.odd).await?; // what comes of it, other properties judge
            }
        }
        "cancelled_while_reader_waits" => {
            // the reader of the connection waits for room in the buffer of a call that is not polled, while
            // others on the same connection are abandoned
            for _ in 0..n / 100 {
                let mut v = vec![];
                for _ in 0..100 {
                    v.push(Box::pin(call(&sc, msg("gate", "h", "b"), direct)));
                }
                let all = futures::future::join_all(v);
                tokio::pin!(all);
                let _ = within(5, &mut all).await;
                let mut big = Box::pin(call(&sc, msg("late_big", "h", "b"), direct));
                let _ = within(2, &mut big).await;
                sleep_ms(60).await;
                all.set(futures::future::join_all(vec![]));
                sleep_ms(2).await;
                let g = big.await?;
                ensure!(matches!(&g, Ok(m) if m.body().len() == 700_000), "a call polled late got a wrong answer", json!({"ok": g.is_ok()}));
                b.gate.add_permits(100);
                eventually(500, || b.gate.available_permits() == 0).await;
                b.gate.acquire_many(b.gate.available_permits() as u32).await.map(|p| p.forget()).ok();
            }
        }
        "replaced_while_running" => {
            let ss = sub(&b.srv, "svc").await?;
            for _ in 0..n / 10 {
                let keep = vec![0u8; 3000];
                let go = b.gate.clone();
                reg(&ss, "temp", raw_async(move |m| {
                    let _ = keep.len();
                    let go = go.clone();
                    async move {
                        if let Ok(p) = go.acquire().await {
                            p.forget();
                        }
                        Ok(m)
                    }
                })).await?;
                let running: Vec<_> = (0..3)
                    .map(|_| {
                        let sc = sc.clone();
                        tokio::spawn(async move { call(&sc, msg("temp", "h", "b"), direct).await })
                    })
                    .collect();
                sleep_ms(3).await;
                ss.unregister("temp").await.map_err(|e| Fail::Violation(format!("unregister failed: {e}"), json!({})))?;
                b.gate.add_permits(3);
                for t in running {
                    let _ = t.await.map_err(|e| Fail::Inconclusive(e.to_string()))??;
                }
                b.gate.acquire_many(b.gate.available_permits() as u32).await.map(|p| p.forget()).ok();
            }
        }
        _ => unreachable!(),
    }
    Ok(())
}
pub fn c18(ctx: Arc<Ctx>) -> i32 {
    // one scenario at a time: the monitors count the whole process
    let per = if ctx.quick() { 200 } else { 1000 };
    let total = KINDS.len() as u64 * if ctx.quick() { 1 } else { 40 };
    ctx.scenarios(0, "steady_state", 1, KINDS.len() as u64, total, 0.85, move |ctx, i, mut r| {
        let rt = if i % 2 == 0 { Rt::Multi(2) } else { Rt::Current };
        with_rt(rt, move || async move {
            let kind = KINDS[(i % KINDS.len() as u64) as usize];
            let waits = kind == "cancelled_while_reader_waits" || kind == "abandoned_at_stuck_peer";
            let cfg = Cfg {
                max_connections: if waits { 1 } else { 2 },
                server_tasks: if waits { 0 } else { 50 },
                frame_buffer_size: if waits || kind == "cancelled_multiframe" { 1 } else { *r.pick(&[1, 10, 100]) },
                ..Cfg::default()
            };
            let (srv, addr) = server(&cfg).await?;
            let ss = sub(&srv, "svc").await?;
            reg_sync(&ss, "echo", echo()).await?;
            reg_sync(&ss, "fail", raw_sync(|m| Err(HandlerError::MessageError(m)))).await?;
            reg_sync(&ss, "general", raw_sync(|_| Err(HandlerError::GeneralError("no".into())))).await?;
            reg(&ss, "slow", raw_async(|m| async move {
                sleep_ms(2).await;
                Ok(m)
            })).await?;
            reg(&ss, "late_big", raw_async(|_| async move {
                sleep_ms(40).await;
                Ok(msg("", "", vec![3u8; 700_000]))
            })).await?;
            let gate = Arc::new(tokio::sync::Semaphore::new(0));
            let g2 = gate.clone();
            reg(&ss, "gate", raw_async(move |m| {
                let g = g2.clone();
                async move {
                    if let Ok(p) = g.acquire().await {
                        p.forget();
                    }
                    Ok(m)
                }
            })).await?;
            await_listening(addr).await?;
            let proxy = Proxy::start(addr, ProxyPolicy { lean: true, ..Default::default() }, r.fork()).await?;
            let b = Bench { c: client(&cfg), addr, proxy, srv, gate, raw: Default::default(), odd: odd_server().await?, stuck: stuck_server().await? };
            let rounds = std::env::var("TMON_ROUNDS").ok().and_then(|v| v.parse().ok()).unwrap_or(5);
            let mut mem = vec![];
            let mut fd = vec![];
            let mut rounds: usize = rounds;
            let mut done = 0;
            let mut suspected = false;
            loop {
                workload(&b, kind, per, &mut r).await?;
                b.proxy.log.lock().unwrap().clear();
                mem.push(live().await);
                let mut best = usize::MAX;
                for _ in 0..100 {
                    best = best.min(fds());
                    if fd.first().map(|f| best <= *f).unwrap_or(false) {
                        break;
                    }
                    sleep_ms(5).await;
                }
                fd.push(best);
                done += 1;
                if done < rounds {
                    continue;
                }
            // growth from the best of the first two rounds to the best of the last two
            // capacities of buffers vary: whether what looks like growth is one shows after many more rounds
            let (first, last) = if suspected { (10, 10) } else { (2, 2) };
            let grown = if suspected {
                let mid = |v: &[i64]| {
                    let mut v = v.to_vec();
                    v.sort();
                    v[v.len() / 2]
                };
                mid(&mem[rounds - last..]) - mid(&mem[..first])
            } else {
                mem[rounds - last..].iter().min().unwrap() - mem[..first].iter().max().unwrap()
            };
            let calls = per as i64 * (rounds - last) as i64;
            let units = if ["incomplete_then_gone", "gone_before_answer", "no_handshake", "malformed", "killed_connections", "new_clients", "refused_connections", "replaced_while_running"].contains(&kind) { calls / 10 } else { calls };
            // one pool maintenance task per new client lives on for up to 30 s
            // a connection opened late (a few buffers on both sides, two descriptors) is no growth per operation
            let late = (*fd.iter().max().unwrap() - *fd[..2].iter().min().unwrap()) as i64;
            let slack = 20_000 + 40_000 * late.min(4) + match kind {
                "new_clients" => units * 3000,
                // read and write buffers of the connections keep the capacity they once needed
                "cancelled_multiframe" | "abandoned_at_stuck_peer" => 2_000_000 + units * 24,
                _ => units * 24,
            };
            let slack = slack + match (suspected, kind) {
                (false, _) => 0,
                // eight buffers, which keep up to 128 kB each
                (true, "concurrent") => 300_000,
                _ => 60_000,
            };
            if grown >= slack && !suspected {
                suspected = true;
                rounds += 25;
                ctx.add("growth_suspected_and_observed_further", 1);
                continue;
            }
            ensure!(grown < slack, "memory grows with the number of requests or connections", json!({"workload": kind, "bytes_grown": grown, "operations": units, "bytes_per_operation": grown / units.max(1), "samples": mem}));
            let fdg = *fd[rounds - 2..].iter().min().unwrap() as i64 - *fd[..2].iter().max().unwrap() as i64;
            ensure!(fdg < 4, "sockets stay open: file descriptors grow with the number of connections", json!({"workload": kind, "samples": fd}));
                ctx.max(&format!("bytes_grown_{kind}"), grown.max(0) as u64);
                break;
            }
            // a call still works, and does not find stale state
            let end = sub(&b.c, "svc").await?;
            must_ok(&end, msg("echo", "end", "b"), addr, &format!("call after workload {kind}")).await?;
            ctx.add("operations", (per * rounds) as u64);
            ctx.eval(&format!("{kind}{}", i / KINDS.len() as u64), true);
            if i < 4 {
                ctx.sample(json!({"workload": kind, "live_bytes_per_round": mem, "fds_per_round": fd}));
            }
            Ok(())
        })
    });
    // dropping the client closes its connections; ids and pools do not keep the server's side alive
    ctx.scenarios(1, "teardown", 1, if ctx.quick() { 6 } else { 60 }, if ctx.quick() { 12 } else { 5000 }, 1.0, |ctx, i, mut r| {
        with_rt(Rt::Multi(2), move || async move {
            let cfg = Cfg { max_connections: r.range(1, 5) as u32, server_tasks: 50, ..Cfg::default() };
            let (srv, addr) = server(&cfg).await?;
            let ss = sub(&srv, "svc").await?;
            reg_sync(&ss, "echo", echo()).await?;
            await_listening(addr).await?;
            sleep_ms(20).await;
            let proxy = Proxy::start(addr, ProxyPolicy { lean: true, ..Default::default() }, r.fork()).await?;
            let c = client(&cfg);
            let sc = sub(&c, "svc").await?;
            let calls: Vec<_> = (0..r.range(1, 30)).map(|_| must_ok(&sc, msg("echo", "h", "b"), proxy.addr, "call")).collect();
            for x in futures::future::join_all(calls).await {
                x?;
            }
            let open = proxy.open.load(SeqCst);
            let half = r.chance(1, 3);
            if half {
                // with a call cancelled in the middle
                CancelAfter { fut: Some(Box::pin(call(&sc, msg("echo", "h", vec![1u8; 200_000]), proxy.addr))), polls: 3 }.await;
            }
            drop(sc);
            drop(c);
            let p = proxy.clone();
            ensure!(eventually(1000, move || p.open.load(SeqCst) == 0).await, "connections stay open after their channel was dropped", json!({"open_before": open, "open_after": proxy.open.load(SeqCst)}));
            drop(srv);
            ctx.add("teardowns", 1);
            ctx.eval(&format!("td{open}{half}{i}"), true);
            Ok(())
        })
    });
    // a peer that keeps its side of a connection open must not keep the client's side open
    ctx.scenarios(2, "peer_keeps_its_side_open", 1, if ctx.quick() { 8 } else { 80 }, if ctx.quick() { 16 } else { 5000 }, 1.0, |ctx, i, mut r| {
        with_rt(if i % 2 == 0 { Rt::Multi(2) } else { Rt::Current }, move || async move {
            let how = ["dropped", "bad_ping", "cancelled_then_dropped", "unanswered_then_dropped"][(i % 4) as usize];
            let addr = fresh_addr();
            let l = listen(addr).await?;
            let opened = Arc::new(AtomicUsize::new(0));
            let gone = Arc::new(AtomicUsize::new(0));
            let (o2, g2) = (opened.clone(), gone.clone());
            let peer = tokio::spawn(async move {
                while let Ok((s, _)) = l.accept().await {
                    o2.fetch_add(1, SeqCst);
                    let g3 = g2.clone();
                    tokio::spawn(async move {
                        let Ok((mut rd, mut w)) = accept_init(s).await else { return };
                        let mut n = 0;
                        while let Got::Frame(f) = rd.frame().await {
                            if f.ftype == PING_REQ {
                                n += 1;
                                let t = if how == "bad_ping" && n == 2 { INIT_RES } else { PING_RES };
                                let _ = w.frame(&Frame::new(t, f.id, if t == INIT_RES { enc_init(2, &[]) } else { vec![] })).await;
                            }
                            if f.ftype == CALL_REQ {
                                let q = parse_call_req(&f.payload).ok();
                                if q.map(|q| q.chunks.iter().any(|a| a == b"silent")).unwrap_or(false) {
                                    continue;
                                }
                                for x in res_frames(f.id, &ResMeta::raw(), &[vec![b"e".to_vec(), b"h".to_vec(), b"b".to_vec()]]) {
                                    let _ = w.frame(&x).await;
                                }
                            }
                        }
                        // the client has ended its direction: keep ours, and find out whether anybody still listens
                        while w.frame(&Frame::new(PING_RES, 0x7fff_fff0, vec![])).await.is_ok() {
                            sleep_ms(3).await;
                        }
                        g3.fetch_add(1, SeqCst);
                    });
                }
            });
            let cfg = Cfg { max_connections: r.range(1, 4) as u32, test_connection: how == "bad_ping", ..Cfg::default() };
            let c = client(&cfg);
            let sc = sub(&c, "svc").await?;
            for _ in 0..r.range(3, 12) {
                must_ok(&sc, msg("e", "h", "b"), addr, "call to a peer that answers").await?;
            }
            match how {
                "cancelled_then_dropped" => {
                    CancelAfter { fut: Some(Box::pin(call(&sc, msg("echo", "h", vec![1u8; 200_000]), addr))), polls: r.range(1, 6) }.await;
                }
                "unanswered_then_dropped" => {
                    let _ = tokio::time::timeout(Duration::from_millis(50), call(&sc, msg("silent", "h", "b"), addr)).await;
                }
                _ => {}
            }
            let before = opened.load(SeqCst);
            if how == "bad_ping" {
                let g = gone.clone();
                ensure!(eventually(1000, move || g.load(SeqCst) >= 1).await, "replaced connection stays open while its peer keeps its side open", json!({"opened": before, "how": how}));
            }
            drop(sc);
            drop(c);
            let (o, g) = (opened.clone(), gone.clone());
            ensure!(eventually(1000, move || g.load(SeqCst) == o.load(SeqCst)).await, "connections stay open after their channel was dropped, as long as the peer keeps its side open", json!({"opened": opened.load(SeqCst), "closed": gone.load(SeqCst), "how": how}));
            peer.abort();
            ctx.add("half_open_peers", 1);
            ctx.eval(&format!("ho{how}{before}"), true);
            Ok(())
        })
    });
    ctx.finish(
        "23 workloads (successes, failures, unknown targets, cancellations at random suspension points, vanishing and malformed peers, killed connections, handler churn also while handlers run, unservable requests and odd responses on one long connection, calls abandoned while the connection's reader waits or while the peer reads nothing, new clients) run in rounds against one long-lived server and client. A counting allocator and the process's descriptor table are the monitors: after the system has calmed down, live bytes and descriptors of later rounds must not exceed those of the first rounds by more than a constant plus 24 bytes per operation (what looks like growth has to continue for 25 more rounds). Dropping a channel must close all its connections, and so must the client with replaced ones, also when the peer keeps its own side of them open. Non-trivial: every workload; distinct by workload and repetition.",
        &["pools and subchannels themselves live as long as their channel (one per address / name), by design", "per-call leaks below 24 bytes are not seen"],
        20,
    )
}

// =================================================================== C20
async fn serves(addr: SocketAddr, tag: &str) -> R<()> {
    let c = client(&Cfg::default());
    let sc = sub(&c, "svc").await?;
    let m = msg("echo", tag, "b");
    match call(&sc, m.clone(), addr).await? {
        Ok(g) => ensure!(same(&g, &m), "wrong response", diff(&m, &g)),
        Err(e) => return viol("running server does not serve", json!({"error": e.to_string(), "when": tag})),
    }
    Ok(())
}
/// No connection can be established (bounded wait for the listener to go away).
async fn refuses(addr: SocketAddr) -> bool {
    let t = within(1000, async {
        loop {
            match TcpStream::connect(addr).await {
                Err(_) => return,
                Ok(_) => sleep_ms(5).await,
            }
        }
    })
    .await;
    t.is_ok()
}
#[derive(Clone, Debug)]
struct LifeOp {
    start: bool,
    ok: bool,
    from: u64,
    to: u64,
}
/// Which states (stopped, running) some order of these calls ends in, that explains their results
/// and puts no call before one that had returned before it was made.
fn final_states(ops: &[LifeOp]) -> [bool; 2] {
    fn go(ops: &[LifeOp], done: u32, running: bool, seen: &mut std::collections::HashSet<(u32, bool)>, ends: &mut [bool; 2]) {
        if !seen.insert((done, running)) {
            return;
        }
        if done == (1u32 << ops.len()) - 1 {
            ends[running as usize] = true;
            return;
        }
        let first_return = (0..ops.len()).filter(|k| done & (1 << k) == 0).map(|k| ops[k].to).min().unwrap_or(u64::MAX);
        for (k, o) in ops.iter().enumerate() {
            if done & (1 << k) != 0 || o.from > first_return {
                continue;
            }
            if !o.start {
                go(ops, done | 1 << k, false, seen, ends);
            } else if o.ok != running {
                go(ops, done | 1 << k, true, seen, ends);
            }
        }
    }
    let mut ends = [false; 2];
    go(ops, 0, false, &mut Default::default(), &mut ends);
    ends
}
pub fn c20(ctx: Arc<Ctx>) -> i32 {
    crate::p_hours::lifecycle(&ctx);
    let (min, max) = if ctx.quick() { (60, 3000) } else { (600, 200000) };
    ctx.scenarios(0, "model", 6, min, max, 0.5, |ctx, i, mut r| {
        with_rt(Rt::pick(&mut r.clone()), move || async move {
            let cfg = Cfg::random(&mut r);
            let addr = fresh_addr();
            let mut t = Some(TChannel::new(cfg.build(addr)).map_err(|e| Fail::Violation(e.to_string(), json!({})))?);
            let mut running = false;
            let mut registered = false;
            let mut trace = vec![];
            let steps = r.range(3, 12);
            for k in 0..steps {
                let Some(ch) = t.as_ref() else { break };
                let op = *r.pick(&["start", "start", "stop", "stop", "restart", "probe", "probe", "register", "no_runtime", "drop"]);
                if op == "drop" && k + 3 < steps {
                    continue;
                }
                trace.push(op);
                match op {
                    "start" => {
                        let got = ch.start_server();
                        ensure!(got.is_ok() != running, "start_server: wrong result for the state of the server", json!({"running": running, "result": got.map_err(|e| e.to_string()).err(), "trace": trace}));
                        running = true;
                    }
                    "stop" => {
                        let got = ch.shutdown_server();
                        ensure!(got.is_ok(), "shutdown_server failed", json!({"running": running, "trace": trace}));
                        running = false;
                    }
                    "restart" => {
                        // no pause in between
                        let a = ch.shutdown_server();
                        let b = ch.start_server();
                        ensure!(a.is_ok() && b.is_ok(), "restart failed", json!({"running": running, "trace": trace}));
                        running = true;
                    }
                    "no_runtime" => {
                        // nothing can be started from a thread outside of any runtime, but nothing breaks either
                        let ch: &TChannel = ch;
                        let (ok, stopped) = std::thread::scope(|s| {
                            let start = s.spawn(|| ch.start_server().is_ok()).join();
                            let stop = !running || s.spawn(|| ch.shutdown_server().is_ok()).join().unwrap_or(false);
                            (start.ok(), stop)
                        });
                        ensure!(ok.is_some(), "start_server panicked on a thread outside of a runtime", json!({"running": running, "trace": trace}));
                        ensure!(ok == Some(false), "start_server claims success on a thread outside of a runtime", json!({"running": running, "trace": trace}));
                        ensure!(stopped, "shutdown_server failed on a thread outside of a runtime", json!({"trace": trace}));
                        running = false;
                        ctx.add("calls_outside_of_a_runtime", 1);
                    }
                    "register" => {
                        if !registered {
                            let ss = sub(ch, "svc").await?;
                            reg_sync(&ss, "echo", echo()).await?;
                            registered = true;
                        }
                    }
                    "drop" => {
                        t = None;
                        running = false;
                    }
                    _ => {}
                }
                if op == "probe" || op == "drop" || op == "restart" || r.chance(1, 3) {
                    if running {
                        match connect_retry(addr).await {
                            Ok(_) => {}
                            Err(_) => return viol("server was started but does not accept connections", json!({ "trace": trace })),
                        }
                        if registered {
                            serves(addr, "in model trace").await?;
                            ctx.add("served_while_running", 1);
                        }
                    } else {
                        ensure!(refuses(addr).await, "server still accepts connections after shutdown", json!({ "trace": trace }));
                        ensure!(eventually(1000, || can_bind(addr)).await, "address is still in use after shutdown", json!({ "trace": trace }));
                        ctx.add("refused_while_stopped", 1);
                    }
                }
            }
            ctx.add("lifecycle_steps", trace.len() as u64);
            ctx.observe("lifecycle_traces", hash_str(&trace.join(" ")));
            ctx.eval(&trace.join(" "), trace.iter().any(|o| *o == "start" || *o == "restart"));
            if i < 3 {
                ctx.sample(json!({ "trace": trace }));
            }
            Ok(())
        })
    });
    ctx.scenarios(1, "concurrent_starts", 6, min / 3, max, 0.6, |ctx, i, mut r| {
        with_rt(Rt::Multi(4), move || async move {
            let addr = fresh_addr();
            let t = Arc::new(TChannel::new(Cfg::random(&mut r).build(addr)).map_err(|e| Fail::Violation(e.to_string(), json!({})))?);
            let ss = sub(&t, "svc").await?;
            reg_sync(&ss, "echo", echo()).await?;
            let n = r.range(2, 9);
            let barrier = Arc::new(std::sync::Barrier::new(n));
            let h = tokio::runtime::Handle::current();
            let hs: Vec<_> = (0..n)
                .map(|_| {
                    let (t, b, h) = (t.clone(), barrier.clone(), h.clone());
                    std::thread::spawn(move || {
                        let _g = h.enter();
                        b.wait();
                        t.start_server().is_ok()
                    })
                })
                .collect();
            let ok = tokio::task::spawn_blocking(move || hs.into_iter().filter(|_| true).map(|h| h.join().unwrap_or(false)).filter(|x| *x).count()).await.map_err(|e| Fail::Inconclusive(e.to_string()))?;
            ensure!(ok == 1, "concurrent start_server calls: not exactly one succeeded", json!({"succeeded": ok, "callers": n}));
            serves(addr, "after concurrent starts").await?;
            t.shutdown_server().map_err(|e| Fail::Violation(e.to_string(), json!({})))?;
            ensure!(refuses(addr).await, "server still accepts connections after shutdown", json!({ "concurrent_starts": n }));
            ctx.add("concurrent_starts", n as u64);
            ctx.eval(&format!("cs{n}{i}"), true);
            Ok(())
        })
    });
    // concurrent starts and stops: their results must fit some order of them, and so must the server afterwards
    ctx.scenarios(4, "linearizable", 3, min, max, 0.75, |ctx, i, mut r| {
        with_rt(Rt::Multi(2), move || async move {
            let addr = fresh_addr();
            let t = Arc::new(TChannel::new(Cfg::random(&mut r).build(addr)).map_err(|e| Fail::Violation(e.to_string(), json!({})))?);
            let ss = sub(&t, "svc").await?;
            reg_sync(&ss, "echo", echo()).await?;
            let n = r.range(2, 5);
            let barrier = Arc::new(std::sync::Barrier::new(n));
            let h = tokio::runtime::Handle::current();
            let hs: Vec<_> = (0..n)
                .map(|_| {
                    let (t, b, h, mut r) = (t.clone(), barrier.clone(), h.clone(), r.fork());
                    std::thread::spawn(move || {
                        let _g = h.enter();
                        let plan: Vec<(bool, usize)> = (0..r.range(1, 5)).map(|_| (r.chance(1, 2), r.below(400))).collect();
                        b.wait();
                        let mut out = vec![];
                        for (start, spin) in plan {
                            for _ in 0..spin {
                                std::hint::spin_loop();
                            }
                            let t0 = tick();
                            let ok = if start { t.start_server().is_ok() } else { t.shutdown_server().is_ok() };
                            out.push(LifeOp { start, ok, from: t0, to: tick() });
                        }
                        out
                    })
                })
                .collect();
            let ops: Vec<LifeOp> = tokio::task::spawn_blocking(move || hs.into_iter().flat_map(|h| h.join().unwrap_or_default()).collect()).await.map_err(|e| Fail::Inconclusive(e.to_string()))?;
            let mut log = ops.clone();
            log.sort_by_key(|o| o.from);
            let history: Vec<String> = log.iter().map(|o| format!("{}={}[{},{}]", if o.start { "start" } else { "stop" }, o.ok, o.from, o.to)).collect();
            ensure!(log.iter().all(|o| o.start || o.ok), "shutdown_server failed", json!({ "history": history }));
            let ends = final_states(&log);
            ensure!(ends.iter().any(|e| *e), "results of concurrent start_server and shutdown_server calls fit no order of them", json!({ "history": history }));
            ensure!(sut_panics() == 0, "library panicked on concurrent start and shutdown", sut_panic_json());
            // what it ended as: a further start tells, and the world outside agrees
            let running = t.start_server().is_err();
            ensure!(ends[running as usize], "state after concurrent start_server and shutdown_server calls fits no order of them", json!({"running": running, "history": history}));
            if r.chance(1, 3) {
                serves(addr, "after concurrent starts and stops").await?;
            }
            t.shutdown_server().map_err(|e| Fail::Violation(e.to_string(), json!({})))?;
            ensure!(refuses(addr).await, "server still accepts connections after shutdown", json!({ "history": history }));
            ensure!(eventually(1000, || can_bind(addr)).await, "address is still in use after shutdown", json!({ "history": history }));
            let overlaps = log.iter().enumerate().map(|(k, a)| log[k + 1..].iter().filter(|b| b.from < a.to).count()).sum::<usize>();
            ctx.add("overlapping_lifecycle_calls", overlaps as u64);
            ctx.add(if ends[0] && ends[1] { "histories_with_either_end" } else { "histories_with_one_end" }, 1);
            ctx.observe("lifecycle_histories", hash_str(&log.iter().map(|o| format!("{}{}", o.start, o.ok)).collect::<String>()));
            ctx.eval(&format!("lin{:?}", log.iter().map(|o| (o.start, o.ok)).collect::<Vec<_>>()), overlaps > 0);
            if i < 2 {
                ctx.sample(json!({ "history": history }));
            }
            Ok(())
        })
    });
    // shutting down while clients connect and call: whatever was accepted is answered or closed, and restart serves
    ctx.scenarios(2, "restart_under_load", 5, min / 3, max, 0.95, |ctx, _i, mut r| {
        with_rt(Rt::pick(&mut r.clone()), move || async move {
            let cfg = Cfg { max_connections: 2, ..Cfg::default() };
            let addr = fresh_addr();
            let t = TChannel::new(cfg.build(addr)).map_err(|e| Fail::Violation(e.to_string(), json!({})))?;
            let ss = sub(&t, "svc").await?;
            reg_sync(&ss, "echo", echo()).await?;
            t.start_server().map_err(|e| Fail::Violation(e.to_string(), json!({})))?;
            await_listening(addr).await?;
            let stop = Arc::new(AtomicBool::new(false));
            let served = Arc::new(AtomicUsize::new(0));
            let mut tasks = vec![];
            for k in 0..r.range(1, 5) {
                let (stop, served) = (stop.clone(), served.clone());
                tasks.push(tokio::spawn(async move {
                    let c = client(&Cfg::default());
                    let sc = sub(&c, "svc").await?;
                    while !stop.load(SeqCst) {
                        let m = msg("echo", format!("{k}"), "b");
                        match call(&sc, m.clone(), addr).await? {
                            Ok(g) => {
                                ensure!(same(&g, &m), "wrong response", diff(&m, &g));
                                served.fetch_add(1, SeqCst);
                            }
                            Err(_) => sleep_ms(1).await,
                        }
                    }
                    Ok(())
                }));
            }
            let restarts = r.range(1, 6);
            for _ in 0..restarts {
                jitter(&mut r).await;
                t.shutdown_server().map_err(|e| Fail::Violation(e.to_string(), json!({})))?;
                if r.chance(1, 2) {
                    jitter(&mut r).await;
                }
                t.start_server().map_err(|e| Fail::Violation(format!("restart failed: {e}"), json!({})))?;
            }
            serves(addr, "after restarts under load").await?;
            stop.store(true, SeqCst);
            join_all(tasks).await?;
            ctx.add("restarts_under_load", restarts as u64);
            ctx.add("calls_under_restarts", served.load(SeqCst) as u64);
            ctx.eval(&format!("ul{restarts}{}", served.load(SeqCst)), true);
            Ok(())
        })
    });
    // the process runs out of descriptors for a while
    ctx.scenarios(3, "descriptor_exhaustion", 1, if ctx.quick() { 3 } else { 30 }, if ctx.quick() { 6 } else { 1000 }, 0.97, |ctx, i, mut r| {
        with_rt(Rt::Multi(2), move || async move {
            let (srv, addr) = server(&Cfg::default()).await?;
            let ss = sub(&srv, "svc").await?;
            reg_sync(&ss, "echo", echo()).await?;
            serves(addr, "before exhaustion").await?;
            let c = client(&Cfg::default());
            let sc = sub(&c, "svc").await?;
            must_ok(&sc, msg("echo", "a", "b"), addr, "call before exhaustion").await?;
            let mut hog: Vec<std::fs::File> = vec![];
            let mut lim = unsafe { std::mem::zeroed::<libc::rlimit>() };
            unsafe { libc::getrlimit(libc::RLIMIT_NOFILE, &mut lim) };
            let low = libc::rlimit { rlim_cur: (fds() + 40) as u64, rlim_max: lim.rlim_max };
            unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &low) };
            while let Ok(f) = std::fs::File::open("/dev/null") {
                hog.push(f);
            }
            // a few descriptors for the peers; the server's side of them finds none
            let peers = r.range(1, 4);
            hog.truncate(hog.len().saturating_sub(peers));
            let mut socks = vec![];
            for _ in 0..peers {
                if let Ok(s) = TcpStream::connect(addr).await {
                    socks.push(s);
                }
            }
            sleep_ms(r.range(1, 60) as u64).await;
            // all descriptors went to the peers: no accept can have got one
            let starved = socks.len() == peers;
            // established connections are not affected
            let mid = call(&sc, msg("echo", "b", "b"), addr).await;
            drop(hog);
            unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &lim) };
            drop(socks);
            ensure!(matches!(mid?, Ok(_)), "call on an established connection failed while descriptors were short", json!({}));
            let ok = within(1000, async {
                loop {
                    if TcpStream::connect(addr).await.is_ok() {
                        return;
                    }
                    sleep_ms(5).await;
                }
            })
            .await
            .is_ok();
            ensure!(ok, "server stopped accepting connections for good after a passing shortage of file descriptors", json!({ "peers": peers }));
            serves(addr, "after descriptor exhaustion").await?;
            ctx.add("descriptor_shortages", starved as u64);
            ctx.eval(&format!("fd{peers}{i}"), true);
            Ok(())
        })
    });
    // a crowd of connections open at the same time, each one of them served, and those that come later, too
    ctx.scenarios(5, "crowd", 1, 2, if ctx.quick() { 2 } else { 40 }, 1.0, |ctx, i, mut r| {
        with_rt(Rt::pick(&mut r.clone()), move || async move {
            let mut lim = unsafe { std::mem::zeroed::<libc::rlimit>() };
            unsafe { libc::getrlimit(libc::RLIMIT_NOFILE, &mut lim) };
            let room = (lim.rlim_cur as usize).saturating_sub(fds() + 200) / 3;
            let n = (if ctx.quick() { [300, 1200][i as usize % 2] } else { *r.pick(&[300, 1200, 3000]) }).min(room);
            let cfg = Cfg::random(&mut r);
            let (srv, addr) = server(&cfg).await?;
            let ss = sub(&srv, "svc").await?;
            reg_sync(&ss, "echo", echo()).await?;
            await_listening(addr).await?;
            let mut open = vec![];
            let mut idle = vec![];
            while open.len() < n {
                let mut some = vec![];
                for _ in 0..20 {
                    some.push(tokio::spawn(fake_client(addr)));
                }
                open.extend(join_all(some).await?);
                // some only connect
                if r.chance(1, 3) {
                    idle.push(connect_retry(addr).await?);
                }
            }
            let total = open.len() + idle.len();
            r.shuffle(&mut open);
            for round in 0..2 {
                for (k, (rd, w)) in open.iter_mut().enumerate() {
                    let args = [b"echo".to_vec(), vec![], format!("{round} {k}").into_bytes()];
                    let f = &req_frames(3 + round, &ReqMeta::raw("svc"), &[args.to_vec()])[0];
                    if w.frame(f).await.is_err() {
                        return viol("server closed one of many connections", json!({"connections": total}));
                    }
                    let f = match within(HANG, rd.frame()).await {
                        Ok(Got::Frame(f)) => f,
                        Ok(_) => return viol("server closed one of many connections", json!({"connections": total})),
                        Err(Hang) => return viol("one of many connections is not served (bounded-progress monitor)", json!({"connections": total, "number": k})),
                    };
                    let ok = f.ftype == CALL_RES && f.id == 3 + round && parse_call_res(&f.payload).map(|m| m.chunks == args.to_vec()).unwrap_or(false);
                    ensure!(ok, "one of many connections got a wrong answer", json!({"connections": total, "type": f.ftype}));
                }
                serves(addr, "next to many connections").await?;
                let left = open.len() / 2;
                open.truncate(left);
            }
            ctx.max("connections_open_at_once", total as u64);
            ctx.eval(&format!("crowd{n}{i}"), true);
            Ok(())
        })
    });
    ctx.finish(
        "Random sequences of start, shutdown, immediate restart, register, call and drop run against a two-state model: start succeeds exactly when stopped; a started server accepts and serves, also directly after a restart; a stopped or dropped one refuses connections and its address can be bound again. Concurrent starts from several threads: exactly one succeeds. Restarts under load, and a passing shortage of file descriptors during accept, must leave the server serving. Starting on a thread without a runtime fails and changes nothing. Over a thousand connections open at once are all served. Concurrent starts and stops from several threads must have a linearization that fits all results and the final state. A server that was idle or served for hours (hand-driven clock) still serves and still stops. Non-trivial: trace with a start; distinct by trace.",
        &["the address is free when the server is started", "connections established before a shutdown may live on"],
        60,
    )
}

// =================================================================== C21
pub fn c21(ctx: Arc<Ctx>) -> i32 {
    crate::p_hours::pings(&ctx);
    let (min, max) = if ctx.quick() { (40, 1800) } else { (400, 100000) };
    ctx.scenarios(0, "server_answers_pings", 6, min, max, 0.4, |ctx, i, mut r| {
        with_rt(Rt::pick(&mut r.clone()), move || async move {
            let cfg = Cfg { server_tasks: *r.pick(&[1, 2, 4]), ..Cfg::random(&mut r) };
            let (srv, addr) = server(&cfg).await?;
            let ss = sub(&srv, "svc").await?;
            reg_sync(&ss, "echo", echo()).await?;
            let gate = Arc::new(tokio::sync::Semaphore::new(0));
            let g2 = gate.clone();
            reg(&ss, "block", raw_async(move |m| {
                let g = g2.clone();
                async move {
                    let _p = g.acquire().await;
                    Ok(m)
                }
            })).await?;
            let (mut rd, mut w) = fake_client(addr).await?;
            // occupy some or all server tasks, leave some requests incomplete
            let busy = r.below(2 * cfg.server_tasks + 1);
            let mut pending: Vec<u32> = vec![];
            for k in 0..busy {
                let id = 100 + k as u32;
                let meta = ReqMeta::raw("svc");
                for f in req_frames(id, &meta, &fragment(&[b"block".to_vec(), vec![], vec![1; 10]], meta.size(), &mut r, 0)) {
                    let _ = w.frame(&f).await;
                }
                pending.push(id);
            }
            let open = r.below(4) as u32;
            for k in 0..open {
                let _ = w.frame(&Frame::new(CALL_REQ, 200 + k, enc_call_req(MORE, &ReqMeta::raw("svc"), &[b"echo".to_vec()]))).await;
            }
            let n = r.range(1, 30);
            let mut ids: Vec<u32> = vec![];
            while ids.len() < n {
                let id = match r.below(3) {
                    0 => 1000 + r.below(50) as u32,
                    1 => u32::MAX - 1 - r.below(50) as u32,
                    _ => r.next() as u32,
                };
                // any id that no message uses
                if !ids.contains(&id) && id > 300 && id != u32::MAX {
                    ids.push(id);
                }
            }
            let mut out = vec![];
            for id in &ids {
                out.extend(Frame::new(PING_REQ, *id, vec![]).bytes());
            }
            let seg = r.below(4);
            w.split(&out, &mut r, seg).await.map_err(|e| Fail::Inconclusive(e.to_string()))?;
            let mut left = ids.clone();
            while !left.is_empty() {
                let f = match within(HANG, rd.expect()).await {
                    Ok(f) => f?,
                    Err(Hang) => return viol("ping was not answered (bounded-progress monitor)", json!({"unanswered": left.len(), "of": n, "blocked_handlers": busy, "server_tasks": cfg.server_tasks, "incomplete_requests": open})),
                };
                ensure!(f.ftype == PING_RES, "unexpected frame in answer to pings", json!({"type": f.ftype, "id": f.id}));
                ensure!(f.payload.is_empty(), "ping response has a body", json!({}));
                match left.iter().position(|x| *x == f.id) {
                    Some(k) => {
                        left.remove(k);
                    }
                    None => return viol("ping response under an id that was not pinged, or twice", json!({"id": f.id})),
                }
            }
            // pings disturb nothing: blocked and incomplete requests complete
            gate.add_permits(1000);
            for k in 0..open {
                let _ = w.frame(&Frame::new(CALL_REQ_CONT, 200 + k, enc_cont(0, &[vec![], vec![], vec![9; 5]]))).await;
                pending.push(200 + k);
            }
            while !pending.is_empty() {
                let f = match within(HANG, rd.expect()).await {
                    Ok(f) => f?,
                    Err(Hang) => return viol("request was not answered after pings (bounded-progress monitor)", json!({"unanswered": pending})),
                };
                ensure!(f.ftype == CALL_RES, "request failed, or a ping was answered twice", json!({"type": f.ftype, "id": f.id}));
                pending.retain(|x| *x != f.id);
            }
            ctx.add("pings_answered", n as u64);
            ctx.eval(&format!("p{n}{busy}{open}{seg}"), true);
            if i < 2 {
                ctx.sample(json!({"pings": n, "blocked": busy, "incomplete": open, "config": cfg.sig()}));
            }
            Ok(())
        })
    });
    // the client's own checks
    ctx.scenarios(1, "client_checks", 6, min, max, 0.85, |ctx, i, mut r| {
        with_rt(Rt::pick(&mut r.clone()), move || async move {
            let addr = fresh_addr();
            let lst = listen(addr).await?;
            // connection k answers its first good[k] pings properly, then misbehaves
            let bad_kind = r.below(4);
            let good: Vec<usize> = (0..r.range(1, 4)).map(|_| r.below(3)).collect();
            let nbad = good.len();
            let log: Arc<Mutex<Vec<(usize, u8)>>> = Default::default(); // (connection, frame type)
            let spoiled: Arc<Mutex<Vec<usize>>> = Default::default();
            let (log2, spoiled2) = (log.clone(), spoiled.clone());
            tokio::spawn(async move {
                let mut k = 0;
                while let Ok((s, _)) = lst.accept().await {
                    let (log, spoiled, conn, limit) = (log2.clone(), spoiled2.clone(), k, good.get(k).copied().unwrap_or(usize::MAX));
                    k += 1;
                    tokio::spawn(async move {
                        let Ok((mut rd, mut w)) = accept_init(s).await else { return };
                        let mut pings = 0;
                        while let Got::Frame(f) = rd.frame().await {
                            log.lock().unwrap().push((conn, f.ftype));
                            if f.ftype == PING_REQ {
                                if pings >= limit {
                                    spoiled.lock().unwrap().push(conn);
                                    let b = match bad_kind {
                                        0 => Frame::new(ERROR, f.id, enc_error(5, (0, 0, 0, 0), "sick")),
                                        1 => Frame::new(INIT_RES, f.id, enc_init(2, &[])),
                                        2 => Frame::new(CALL_RES, f.id, enc_call_res(0, &ResMeta::raw(), &[vec![], vec![], vec![]])),
                                        _ => return, // closes
                                    };
                                    let _ = w.frame(&b).await;
                                    continue;
                                }
                                pings += 1;
                                let _ = w.frame(&Frame::new(PING_RES, f.id, vec![])).await;
                                continue;
                            }
                            let Ok(q) = parse_call_req(&f.payload) else { continue };
                            let mut q = q.chunks;
                            q[1] = format!("{conn}").into_bytes();
                            for g in res_frames(f.id, &ResMeta::raw(), &[q]) {
                                let _ = w.frame(&g).await;
                            }
                        }
                    });
                }
            });
            let checks = r.chance(3, 4);
            let cfg = Cfg { test_connection: checks, max_connections: *r.pick(&[1, 1, 2]), frame_buffer_size: *r.pick(&[1, 10, 100]), ..Cfg::default() };
            let c = client(&cfg);
            let sc = sub(&c, "svc").await?;
            let n = r.range(6, 16);
            let mut used = vec![];
            for k in 0..n {
                let before = spoiled.lock().unwrap().clone();
                let got = match call(&sc, msg("e", format!("{k}"), "b"), addr).await? {
                    Ok(g) => g,
                    Err(e) => return viol("call failed although a healthy connection could be opened", json!({"error": e.to_string(), "call": k, "bad_kind": bad_kind})),
                };
                let conn: usize = got.header().parse().unwrap_or(999);
                if checks {
                    ensure!(!before.contains(&conn), "call went over a connection that had failed its health check", json!({"connection": conn, "call": k, "bad_kind": bad_kind}));
                }
                used.push(conn);
                // the connection is idle again before the next call
                sleep_ms(1).await;
            }
            let log = log.lock().unwrap().clone();
            let pings = log.iter().filter(|x| x.1 == PING_REQ).count();
            let calls = log.iter().filter(|x| x.1 == CALL_REQ).count();
            ensure!(calls == n, "a call was sent more or less than once", json!({"calls_on_the_wire": calls, "made": n}));
            if checks {
                // sequential calls: each but the first on a connection is preceded by a ping on that connection
                let mut last: std::collections::HashMap<usize, u8> = Default::default();
                let mut first: std::collections::HashSet<usize> = Default::default();
                for (conn, t) in &log {
                    if *t == CALL_REQ && !first.insert(*conn) {
                        ensure!(last.get(conn) == Some(&PING_REQ), "pooled connection was reused without a health check although test_connection is set", json!({"connection": conn, "frames": log.iter().map(|x| format!("{}:{:x}", x.0, x.1)).collect::<Vec<_>>()}));
                    }
                    last.insert(*conn, *t);
                }
            } else {
                ensure!(pings == 0, "connections are health checked although test_connection is not set", json!({ "pings": pings }));
            }
            ctx.add("client_pings_observed", pings as u64);
            ctx.add("connections_spoiled", spoiled.lock().unwrap().len() as u64);
            ctx.eval(&format!("c{checks}{bad_kind}{nbad}{used:?}"), checks && pings > 0);
            if i < 2 {
                ctx.sample(json!({"test_connection": checks, "pings": pings, "calls": n, "connections_used": used}));
            }
            Ok(())
        })
    });
    // connections whose health check is never answered are given up
    ctx.scenarios(2, "pings_unanswered", 3, 6, if ctx.quick() { 6 } else { 60 }, 1.0, |ctx, i, mut r| {
        with_rt(Rt::Current, move || async move {
            let addr = fresh_addr();
            let lst = listen(addr).await?;
            // connection k answers its first good[k] pings, then none; what it does instead
            let good: Vec<usize> = (0..r.range(1, 4)).map(|_| r.below(3)).collect();
            let kind = i % 3;
            let stuck: Arc<Mutex<Vec<usize>>> = Default::default();
            let (stuck2, good2) = (stuck.clone(), good.clone());
            tokio::spawn(async move {
                let mut k = 0;
                while let Ok((s, _)) = lst.accept().await {
                    let (stuck, conn, limit) = (stuck2.clone(), k, good2.get(k).copied().unwrap_or(usize::MAX));
                    k += 1;
                    tokio::spawn(async move {
                        let Ok((mut rd, mut w)) = accept_init(s).await else { return };
                        let mut pings = 0;
                        while let Got::Frame(f) = rd.frame().await {
                            if f.ftype == PING_REQ {
                                if pings == limit {
                                    stuck.lock().unwrap().push(conn);
                                    match kind {
                                        0 => {}
                                        // the answer of another check
                                        1 => { let _ = w.frame(&Frame::new(PING_RES, f.id.wrapping_add(1000), vec![])).await; }
                                        _ => { let _ = w.raw(&Frame::new(PING_RES, f.id, vec![]).bytes()[..7]).await; }
                                    }
                                }
                                if pings >= limit {
                                    continue;
                                }
                                pings += 1;
                                let _ = w.frame(&Frame::new(PING_RES, f.id, vec![])).await;
                                continue;
                            }
                            let Ok(q) = parse_call_req(&f.payload) else { continue };
                            let mut q = q.chunks;
                            q[1] = format!("{conn}").into_bytes();
                            for g in res_frames(f.id, &ResMeta::raw(), &[q]) {
                                let _ = w.frame(&g).await;
                            }
                        }
                    });
                }
            });
            let cfg = Cfg { test_connection: true, max_connections: *r.pick(&[1, 1, 2]), frame_buffer_size: *r.pick(&[1, 10, 100]), lifetime: None, ..Cfg::default() };
            let c = client(&cfg);
            let sc = sub(&c, "svc").await?;
            let mut used = vec![];
            for k in 0..10 {
                let before = stuck.lock().unwrap().clone();
                let sc2 = sc.clone();
                let mut call = tokio::spawn(async move { sc2.send(msg("e", format!("{k}"), "b"), addr).await });
                // it takes time only when a check is not answered
                let got = match within(50, &mut call).await {
                    Ok(g) => g,
                    Err(_) => {
                        ctx.add("checks_waited_for", 1);
                        pass_hours(120).await;
                        within(HANG, call).await.map_err(|_| Fail::Violation("a call waits for ever for a connection whose health check is not answered".into(), json!({"call": k, "kind": kind, "max_connections": cfg.max_connections})))?
                    }
                };
                let got = got.map_err(|e| Fail::Inconclusive(e.to_string()))?;
                let g = match got {
                    Ok(g) => g,
                    Err(e) => return viol("a call failed although a healthy connection could be opened in place of one whose health check was not answered", json!({"error": e.to_string(), "call": k, "kind": kind})),
                };
                let conn: usize = g.header().parse().unwrap_or(999);
                ensure!(!before.contains(&conn), "call went over a connection that had failed its health check", json!({"connection": conn, "call": k, "unanswered": true}));
                used.push(conn);
                sleep_ms(1).await;
            }
            ensure!(!stuck.lock().unwrap().is_empty(), "harness: no health check was left unanswered", json!({}));
            ctx.add("health_checks_left_unanswered", stuck.lock().unwrap().len() as u64);
            ctx.eval(&format!("u{kind}{good:?}{used:?}"), true);
            Ok(())
        })
    });
    let _ = Bytes::new();
    ctx.finish(
        "A raw peer pings the real server while all its tasks may be blocked and requests are incomplete: every ping is answered exactly once under its id with an empty body, and the requests complete. A raw server observes the real client: with test_connection every reuse of a pooled connection is preceded by a ping on it, connections that answer the ping with an error, with another frame, by closing or (hand-driven clock) never are not used again and the call succeeds over another one; without it no pings are sent. Pings hours apart (hand-driven clock) are answered on one connection. Non-trivial: any ping; distinct by load, kind of bad answer and connections used.",
        &[],
        40,
    )
}
