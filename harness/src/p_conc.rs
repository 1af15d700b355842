//! C05 registry, C15 sequential handlers, C16 progress.
use crate::core::*;
use crate::ensure;
use crate::net::*;
use crate::sut::*;
use crate::wire::*;
use serde_json::json;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tchannel_rs::errors::HandlerError;
use tchannel_rs::handler::{HandlerResult, RequestHandler};
use tchannel_rs::messages::{MessageChannel, RawMessage};
use tchannel_rs::{SubChannel, TChannel};

pub async fn join_all<T>(v: Vec<tokio::task::JoinHandle<R<T>>>) -> R<Vec<T>> {
    let mut out = vec![];
    for t in v {
        out.push(t.await.map_err(|e| {
            if e.is_panic() && sut_panics() > 0 {
                Fail::Violation("library code panicked on a calling task".into(), sut_panic_json())
            } else {
                Fail::Inconclusive("a harness task panicked".into())
            }
        })??);
    }
    Ok(out)
}

// =================================================================== C16
pub async fn must_ok(sc: &SubChannel, m: RawMessage, to: std::net::SocketAddr, what: &str) -> R<RawMessage> {
    let info = brief(&m);
    match call(sc, m, to).await? {
        Ok(m) => Ok(m),
        Err(e) => viol(format!("{what}: a call to a healthy server failed"), json!({"request": info, "error": format!("{:.300}", e.to_string())})),
    }
}
/// Slowness is not a failure: handlers, fragments, answers, handshakes that take long, idle connections.
fn slow_peers(ctx: &Arc<Ctx>) {
    let d: u64 = if ctx.quick() { 24_000 } else { 125_000 };
    ctx.scenarios(9, "slow", 6, 6, 6, 1.0, move |ctx, i, mut r| {
        with_rt_beats(Rt::Multi(2), SCENARIO_BEATS + d / 10, move || async move {
            let ms = |t: u64| tokio::time::sleep(Duration::from_millis(t));
            let beats = HANG_CONNECT + d / 5;
            let cfg = Cfg { server_tasks: 50, max_connections: 1, lifetime: None, ..Cfg::default() };
            let (srv, addr) = server(&cfg).await?;
            let ss = sub(&srv, "svc").await?;
            let delays = [d, d / 2, d * 7 / 10, d * 9 / 10, d / 4, 1100, 2100, 3100, 5100, 6100];
            for (k, _) in delays.iter().enumerate() {
                reg(&ss, &format!("sleep{k}"), raw_async(move |m: RawMessage| async move {
                    tokio::time::sleep(Duration::from_millis(delays[k])).await;
                    Ok(m)
                })).await?;
            }
            reg_sync(&ss, "echo", echo()).await?;
            await_listening(addr).await?;
            let c = client(&cfg);
            let sc = sub(&c, "svc").await?;
            let good = |k: usize| msg("echo", format!("quick {k}"), vec![7u8; 1000 * k]);
            match i {
                0 => {
                    let mut tasks = vec![];
                    for (k, _) in delays.iter().enumerate() {
                        let sc = sc.clone();
                        let n = if k % 2 == 0 { 10 } else { 150_000 };
                        let m = msg(format!("sleep{k}"), format!("{k}"), r.bytes(n));
                        tasks.push(tokio::spawn(async move {
                            match call_beats(&sc, m.clone(), addr, beats).await? {
                                Ok(g) => ensure!(same(&m, &g), "slow handler: wrong answer", diff(&m, &g)),
                                Err(e) => return viol("a call failed although its handler returned, only late", json!({"handler_took_ms": delays[k], "error": e.to_string()})),
                            }
                            Ok(())
                        }));
                    }
                    for k in 0..20 {
                        ms(d / 25).await;
                        must_ok(&sc, good(k), addr, "quick call next to slow ones").await?;
                    }
                    join_all(tasks).await?;
                    ctx.add("slow_handlers", delays.len() as u64);
                }
                1 => {
                    // fragments of a request arrive slowly
                    let (mut rd, mut w) = fake_client(addr).await?;
                    let args = [b"echo".to_vec(), b"slow".to_vec(), r.bytes(2000)];
                    let meta = ReqMeta::raw("svc");
                    let mut plan = vec![vec![args[0].clone(), args[1].clone(), args[2][..400].to_vec()]];
                    for k in 1..5 {
                        plan.push(vec![args[2][400 * k..400 * (k + 1)].to_vec()]);
                    }
                    for (k, f) in req_frames(77, &meta, &plan).iter().enumerate() {
                        if k > 0 {
                            ms(if k == 1 { d * 2 / 3 } else { d / 12 }).await;
                        }
                        let b = f.bytes();
                        let cut = r.below(b.len());
                        w.raw(&b[..cut]).await.map_err(|e| Fail::Violation(format!("server closed a connection whose fragments arrive slowly: {e}"), json!({})))?;
                        ms(d / 24).await;
                        w.raw(&b[cut..]).await.map_err(|e| Fail::Violation(format!("server closed a connection whose fragments arrive slowly: {e}"), json!({})))?;
                    }
                    match within(HANG, rd.expect()).await {
                        Err(Hang) => return viol("a request whose fragments arrived slowly was never answered", json!({})),
                        Ok(f) => {
                            let f = f?;
                            let ok = f.ftype == CALL_RES && f.id == 77 && parse_call_res(&f.payload).map(|m| m.chunks == args.to_vec()).unwrap_or(false);
                            ensure!(ok, "a request whose fragments arrived slowly got a wrong answer", json!({"type": f.ftype, "text": String::from_utf8_lossy(&f.payload).chars().take(200).collect::<String>()}));
                        }
                    }
                    ctx.add("slow_requests", 1);
                }
                2 | 3 => {
                    // the answer (2: its fragments) arrives late, others on the connection do not
                    let fa = fresh_addr();
                    let l = listen(fa).await?;
                    let two = i == 2;
                    let big = r.bytes(900);
                    let fake = tokio::spawn(async move {
                        let (s, _) = l.accept().await.map_err(|e| e.to_string())?;
                        let (mut rd, mut w) = accept_init(s).await?;
                        let first = match rd.frame().await { Got::Frame(f) => f, _ => return Err("no request".to_string()) };
                        let plan: Vec<Vec<Vec<u8>>> = vec![vec![b"a".to_vec(), b"b".to_vec(), big[..300].to_vec()], vec![big[300..600].to_vec()], vec![big[600..].to_vec()]];
                        let late = res_frames(first.id, &ResMeta::raw(), &plan);
                        let mut late = late.into_iter();
                        let t0 = std::time::Instant::now();
                        let mut due: Vec<u64> = if two { vec![d, d / 2, 0] } else { vec![d, d, d] };
                        loop {
                            let next = due.last().copied();
                            let wait = next.map(|n| Duration::from_millis(n).saturating_sub(t0.elapsed()));
                            tokio::select! {
                                g = rd.frame_cancel_safe() => match g {
                                    Got::Frame(f) => {
                                        let fs = res_frames(f.id, &ResMeta::raw(), &[vec![b"x".to_vec(), b"y".to_vec(), vec![]]]);
                                        w.frame(&fs[0]).await.map_err(|e| e.to_string())?;
                                    }
                                    _ => return if due.is_empty() { Ok(()) } else { Err("client gave the connection up".to_string()) },
                                },
                                _ = tokio::time::sleep(wait.unwrap_or(Duration::from_secs(3600))), if next.is_some() => {
                                    due.pop();
                                    w.frame(&late.next().unwrap()).await.map_err(|e| e.to_string())?;
                                }
                            }
                        }
                    });
                    let sc2 = sc.clone();
                    let slow = tokio::spawn(async move { call_beats(&sc2, msg("e", "h", "slow"), fa, beats).await });
                    ms(50).await;
                    for k in 0..20 {
                        must_ok(&sc, msg("e", format!("{k}"), ""), fa, "quick call next to one that is answered late").await?;
                        ms(d / 25).await;
                    }
                    match slow.await.map_err(|e| Fail::Inconclusive(e.to_string()))?? {
                        Ok(m) => ensure!(m.body().len() == 900, "wrong late answer", brief(&m)),
                        Err(e) => return viol("a call failed although it was answered, only late", json!({"fragments_late": two, "after_ms": d, "error": e.to_string()})),
                    }
                    fake.abort();
                    ctx.add("late_answers", 1);
                }
                4 => {
                    // nothing happens for a long time
                    must_ok(&sc, good(1), addr, "call before a pause").await?;
                    let (mut rd, mut w) = fake_client(addr).await?;
                    ms(d).await;
                    must_ok(&sc, good(70), addr, "call after a pause").await?;
                    let args = vec![b"echo".to_vec(), b"".to_vec(), b"after the pause".to_vec()];
                    let _ = w.frame(&Frame::new(CALL_REQ, 9, enc_call_req(0, &ReqMeta::raw("svc"), &args))).await;
                    let f = within(HANG, rd.expect()).await.map_err(|_| Fail::Violation("idle connection is not served any more".into(), json!({})))??;
                    ensure!(f.ftype == CALL_RES && f.id == 9, "idle connection is not served any more", json!({"type": f.ftype}));
                    ctx.add("idle_connections", 2);
                }
                _ => {
                    // slow handshakes, in both roles (the pool gives up on connecting after 30 s)
                    let fa = fresh_addr();
                    let l = listen(fa).await?;
                    let fake = tokio::spawn(async move {
                        loop {
                            let Ok((s, _)) = l.accept().await else { continue };
                            tokio::spawn(async move {
                                tokio::time::sleep(Duration::from_millis(12_000)).await;
                                let Ok((mut rd, mut w)) = accept_init(s).await else { return };
                                while let Got::Frame(f) = rd.frame().await {
                                    let fs = res_frames(f.id, &ResMeta::raw(), &[vec![b"x".to_vec(), b"y".to_vec(), vec![]]]);
                                    let _ = w.frame(&fs[0]).await;
                                }
                            });
                        }
                    });
                    let sc2 = sc.clone();
                    let slow = tokio::spawn(async move { must_ok(&sc2, msg("e", "", ""), fa, "call to a server with a slow handshake").await });
                    let (mut rd, mut w) = wire(connect_retry(addr).await?);
                    let b = Frame::new(INIT_REQ, 1, enc_init(2, &[("host_port", "0.0.0.0:0"), ("process_name", "x")])).bytes();
                    ms(d / 2).await;
                    let _ = w.raw(&b[..20]).await;
                    must_ok(&sc, good(3), addr, "call while another client is slow to shake hands").await?;
                    ms(d / 2).await;
                    let _ = w.raw(&b[20..]).await;
                    let f = within(HANG, rd.expect()).await.map_err(|_| Fail::Violation("slow handshake is never answered".into(), json!({})))??;
                    ensure!(f.ftype == INIT_RES, "slow handshake refused", json!({"type": f.ftype}));
                    slow.await.map_err(|e| Fail::Inconclusive(e.to_string()))??;
                    fake.abort();
                    ctx.add("slow_handshakes", 2);
                }
            }
            ctx.eval(&format!("slow {i}"), true);
            Ok(())
        })
    });
}
/// The same for hours, on a runtime whose clock is moved on by hand: no timer of any length may turn
/// slowness into a failure.
fn hours(ctx: &Arc<Ctx>) {
    const KINDS: u64 = 10;
    ctx.scenarios(8, "hours_pass", 3, KINDS, if ctx.quick() { KINDS } else { 20 * KINDS }, 1.0, |ctx, i, mut r| {
        with_rt(Rt::Current, move || async move {
            let hours = 3 * 3600;
            let cfg = Cfg { server_tasks: 50, max_connections: *r.pick(&[1, 3]), lifetime: None, frame_buffer_size: if i % KINDS == 8 { r.range(1, 10) } else { 100 }, ..Cfg::default() };
            let (srv, addr) = server(&cfg).await?;
            let ss = sub(&srv, "svc").await?;
            let gate = Arc::new(tokio::sync::Semaphore::new(0));
            let entered = Arc::new(tokio::sync::Semaphore::new(0));
            for k in 0..50 {
                let (g, e) = (gate.clone(), entered.clone());
                reg(&ss, &format!("slow{k}"), raw_async(move |m: RawMessage| {
                    let (g, e) = (g.clone(), e.clone());
                    async move {
                        e.add_permits(1);
                        let _ = g.acquire().await;
                        Ok(m)
                    }
                })).await?;
            }
            reg_sync(&ss, "echo", echo()).await?;
            await_listening(addr).await?;
            let c = client(&cfg);
            let sc = sub(&c, "svc").await?;
            let hang = |w: &str| Fail::Violation(format!("{w} (bounded-progress monitor)"), json!({"kind": i % KINDS}));
            let lost = |w: &str, e: String| Fail::Violation(w.to_string(), json!({"kind": i % KINDS, "error": e}));
            let small = || vec![vec![b"echo".to_vec(), b"h".to_vec(), b"x".to_vec()]];
            match i % KINDS {
                0 => {
                    // handlers take hours, with requests of one and of many frames
                    let mut tasks = vec![];
                    for k in 0..4usize {
                        let sc = sc.clone();
                        let m = msg(format!("slow{k}"), format!("{k}"), r.bytes([0, 100, 70_000, 200_000][k]));
                        tasks.push(tokio::spawn(async move {
                            match sc.send(m.clone(), addr).await {
                                Ok(g) => ensure!(same(&m, &g), "slow handler: wrong answer", diff(&m, &g)),
                                Err(e) => return viol("a call failed although its handler returned, only late", json!({"error": e.to_string()})),
                            }
                            Ok(())
                        }));
                    }
                    within(HANG, entered.acquire_many(4)).await.map_err(|_| hang("handlers were never entered"))?.map_err(|e| Fail::Inconclusive(e.to_string()))?.forget();
                    pass_hours(hours).await;
                    gate.add_permits(100);
                    within(HANG, join_all(tasks)).await.map_err(|_| hang("a call whose handler returned late was never answered"))??;
                }
                1 | 2 => {
                    // the answer (2: its rest) comes after hours
                    let fa = fresh_addr();
                    let l = listen(fa).await?;
                    let late = i % KINDS == 2;
                    let (go, begun) = (Arc::new(tokio::sync::Notify::new()), Arc::new(tokio::sync::Notify::new()));
                    let (go2, begun2) = (go.clone(), begun.clone());
                    tokio::spawn(async move {
                        let (s, _) = l.accept().await.map_err(|e| e.to_string())?;
                        let (mut rd, mut w) = accept_init(s).await?;
                        let Got::Frame(f) = rd.frame().await else { return Err("no request".to_string()) };
                        let plan: Vec<Vec<Vec<u8>>> = vec![vec![b"a".to_vec(), b"b".to_vec(), b"c".to_vec()], vec![b"d".to_vec()]];
                        let fs = res_frames(f.id, &ResMeta::raw(), &plan);
                        if late {
                            w.frame(&fs[0]).await.map_err(|e| e.to_string())?;
                        }
                        begun2.notify_one();
                        go2.notified().await;
                        for f in &fs[late as usize..] {
                            w.frame(f).await.map_err(|e| e.to_string())?;
                        }
                        let _ = rd.frame().await;
                        Ok(())
                    });
                    let call = tokio::spawn(async move { sc.send(msg("e", "h", "slow"), fa).await });
                    within(HANG, begun.notified()).await.map_err(|_| hang("the request never arrived"))?;
                    pass_hours(hours).await;
                    go.notify_one();
                    let got = within(HANG, call).await.map_err(|_| hang("a call that was answered late never completed"))?.map_err(|e| Fail::Inconclusive(e.to_string()))?;
                    let m = got.map_err(|e| lost("a call failed although it was answered, only late", e.to_string()))?;
                    ensure!(m.body().as_ref() == b"cd", "wrong late answer", brief(&m));
                }
                3 | 4 => {
                    // a request whose second frame (4: the second half of whose only frame) comes after hours
                    let (mut rd, mut w) = fake_client(addr).await?;
                    let args = [b"echo".to_vec(), b"h".to_vec(), r.bytes(500)];
                    let plan = if i % KINDS == 3 { vec![vec![args[0].clone(), args[1].clone(), args[2][..100].to_vec()], vec![args[2][100..].to_vec()]] } else { vec![args.to_vec()] };
                    let fs: Vec<u8> = req_frames(7, &ReqMeta::raw("svc"), &plan).iter().flat_map(|f| f.bytes()).collect();
                    let cut = if i % KINDS == 3 { req_frames(7, &ReqMeta::raw("svc"), &plan)[0].bytes().len() } else { r.range(1, fs.len() - 1) };
                    w.raw(&fs[..cut]).await.map_err(|e| lost("server closed the connection", e.to_string()))?;
                    tokio::time::sleep(Duration::from_millis(50)).await;
                    pass_hours(hours).await;
                    w.raw(&fs[cut..]).await.map_err(|e| lost("server closed a connection whose request arrives slowly", e.to_string()))?;
                    let f = within(HANG, rd.expect()).await.map_err(|_| hang("a request that arrived slowly was never answered"))??;
                    let ok = f.ftype == CALL_RES && f.id == 7 && parse_call_res(&f.payload).map(|m| m.chunks == args.to_vec()).unwrap_or(false);
                    ensure!(ok, "a request that arrived slowly got a wrong answer", json!({"type": f.ftype, "text": String::from_utf8_lossy(&f.payload).chars().take(200).collect::<String>()}));
                }
                5 => {
                    // connections on which nothing happens for hours, seen from both sides
                    must_ok(&sc, msg("echo", "", ""), addr, "call before a long pause").await?;
                    let (mut rd, mut w) = fake_client(addr).await?;
                    pass_hours(hours).await;
                    must_ok(&sc, msg("echo", "", ""), addr, "call after a long pause").await?;
                    w.frame(&req_frames(9, &ReqMeta::raw("svc"), &small())[0]).await.map_err(|e| lost("server closed an idle connection", e.to_string()))?;
                    let f = within(HANG, rd.expect()).await.map_err(|_| hang("idle connection is not served any more"))??;
                    ensure!(f.ftype == CALL_RES && f.id == 9, "idle connection is not served any more", json!({"type": f.ftype}));
                }
                6 => {
                    // a client that reads its answers only after hours
                    let (mut rd, mut w) = fake_client(addr).await?;
                    let n = 60u32;
                    let meta = ReqMeta::raw("svc");
                    let body = r.bytes(60_000);
                    let send = tokio::spawn(async move {
                        for id in 0..n {
                            for f in req_frames(10 + id, &meta, &[vec![b"echo".to_vec(), b"h".to_vec(), body.clone()]]) {
                                w.frame(&f).await.map_err(|e| e.to_string())?;
                            }
                        }
                        Ok::<_, String>(w)
                    });
                    tokio::time::sleep(Duration::from_millis(200)).await;
                    pass_hours(hours).await;
                    let mut left: std::collections::BTreeSet<u32> = (10..10 + n).collect();
                    while !left.is_empty() {
                        let f = within(HANG, rd.frame()).await.map_err(|_| hang("answers a slow reader had not read yet never came"))?;
                        let Got::Frame(f) = f else { return viol("server closed the connection of a slow reader", json!({"unanswered": left.len()})) };
                        ensure!(f.ftype == CALL_RES && left.remove(&f.id), "a slow reader got a wrong answer", json!({"type": f.ftype, "id": f.id}));
                    }
                    within(HANG, send).await.map_err(|_| hang("requests of a slow reader were never taken"))?.map_err(|e| Fail::Inconclusive(e.to_string()))?.map_err(|e| lost("server closed the connection of a slow reader", e))?;
                }
                7 => {
                    // a server that reads a long request only after hours
                    let fa = fresh_addr();
                    let l = listen(fa).await?;
                    let go = Arc::new(tokio::sync::Notify::new());
                    let go2 = go.clone();
                    tokio::spawn(async move {
                        let (s, _) = l.accept().await.map_err(|e| e.to_string())?;
                        let (mut rd, mut w) = accept_init(s).await?;
                        go2.notified().await;
                        let mut n = 0;
                        while let Got::Frame(f) = rd.frame().await {
                            n += 1;
                            let more = if n == 1 { parse_call_req(&f.payload).map(|m| m.flags & MORE != 0) } else { parse_cont(&f.payload).map(|m| m.flags & MORE != 0) };
                            if more == Ok(false) {
                                w.frame(&res_frames(f.id, &ResMeta::raw(), &[vec![b"e".to_vec(), vec![], b"done".to_vec()]])[0]).await.map_err(|e| e.to_string())?;
                                n = 0;
                            }
                        }
                        Ok::<_, String>(())
                    });
                    let m = msg("e", "h", r.bytes(12_000_000));
                    let call = tokio::spawn(async move { sc.send(m, fa).await });
                    tokio::time::sleep(Duration::from_millis(300)).await;
                    pass_hours(hours).await;
                    go.notify_one();
                    let got = within(HANG, call).await.map_err(|_| hang("a call to a slow reader never completed"))?.map_err(|e| Fail::Inconclusive(e.to_string()))?;
                    let m = got.map_err(|e| lost("a call failed although the peer read it, only late", e.to_string()))?;
                    ensure!(m.body().as_ref() == b"done", "wrong late answer", brief(&m));
                }
                8 => {
                    // a caller that does not look at its call for hours, while the answer comes in
                    let n = r.range(5_000_000, 10_000_000);
                    let m = msg("big", "h", r.bytes(n));
                    let answer = m.clone();
                    let called = Arc::new(AtomicU64::new(0));
                    let called2 = called.clone();
                    reg_sync(&ss, "big", raw_sync(move |_| {
                        called2.store(1, SeqCst);
                        Ok(answer.clone())
                    })).await?;
                    let mut call = Box::pin(sc.send(msg("big", "", ""), addr));
                    // looks up to three times after the handler ran
                    let polls = r.range(1, 3);
                    let mut seen = 0;
                    let early = futures::future::poll_fn(|cx| {
                        if called.load(SeqCst) == 1 {
                            seen += 1;
                        } else {
                            cx.waker().wake_by_ref();
                        }
                        let p = std::future::Future::poll(call.as_mut(), cx);
                        match p {
                            std::task::Poll::Ready(v) => std::task::Poll::Ready(Some(v)),
                            _ if seen >= polls => std::task::Poll::Ready(None),
                            _ => std::task::Poll::Pending,
                        }
                    });
                    let early = within(HANG, early).await.ok().flatten();
                    let got = match early {
                        Some(v) => v,
                        None => {
                            ctx.add("callers_that_paused", 1);
                            pass_hours(hours).await;
                            within(HANG, call).await.map_err(|_| hang("a call whose caller paused never completed"))?
                        }
                    };
                    let g = got.map_err(|e| lost("a call failed because its caller paused", e.to_string()))?;
                    ensure!(same(&m, &g), "a caller that paused got a wrong answer", diff(&m, &g));
                }
                _ => {
                    // requests wait for server_tasks for hours
                    let (mut rd, mut w) = fake_client(addr).await?;
                    let n = 120u32;
                    for id in 0..n {
                        let f = req_frames(10 + id, &ReqMeta::raw("svc"), &[vec![format!("slow{}", id % 50).into_bytes(), b"h".to_vec(), b"x".to_vec()]]);
                        w.frame(&f[0]).await.map_err(|e| lost("server closed the connection", e.to_string()))?;
                    }
                    within(HANG, entered.acquire_many(50)).await.map_err(|_| hang("handlers were never entered"))?.map_err(|e| Fail::Inconclusive(e.to_string()))?.forget();
                    pass_hours(hours).await;
                    gate.add_permits(1000);
                    let mut left: std::collections::BTreeSet<u32> = (10..10 + n).collect();
                    while !left.is_empty() {
                        let f = within(HANG, rd.frame()).await.map_err(|_| hang("a request that had to wait for long was never answered"))?;
                        let Got::Frame(f) = f else { return viol("server closed the connection while requests waited", json!({"unanswered": left.len()})) };
                        ensure!(f.ftype == CALL_RES && left.remove(&f.id), "a request that had to wait for long got a wrong answer", json!({"type": f.ftype, "id": f.id}));
                    }
                }
            }
            ctx.add("hours_passed", 3);
            ctx.eval(&format!("hours {} {}", i % KINDS, cfg.sig()), true);
            Ok(())
        })
    });
}
pub fn c16(ctx: Arc<Ctx>) -> i32 {
    hours(&ctx);
    let q = ctx.quick();
    let slow = {
        let ctx = ctx.clone();
        std::thread::spawn(move || slow_peers(&ctx))
    };
    // Bursts released by a barrier, so that nothing that comes later can rescue a lost wake-up.
    let (min, max) = if q { (24, 200) } else { (200, 100000) };
    ctx.scenarios(0, "bursts", 3, min, max, 0.45, |ctx, i, mut r| {
        let rt = if r.chance(1, 4) { Rt::Current } else { Rt::Multi(r.range(2, 8)) };
        with_rt(rt, move || async move {
            let cfg = Cfg { max_connections: *r.pick(&[1, 1, 2, 4]), ..Cfg::random(&mut r) };
            let (srv, addr) = server(&cfg).await?;
            let ss = sub(&srv, "svc").await?;
            for e in 0..4 {
                reg_sync(&ss, &format!("e{e}"), echo()).await?;
            }
            await_listening(addr).await?;
            let c = client(&cfg);
            let sc = sub(&c, "svc").await?;
            let n = r.range(3, 16);
            let rounds = 60;
            let bar = Arc::new(tokio::sync::Barrier::new(n));
            let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
            let order = Arc::new(AtomicU64::new(0));
            let mut tasks = vec![];
            for t in 0..n {
                let (sc, bar, stop, order, ctx) = (sc.clone(), bar.clone(), stop.clone(), order.clone(), ctx.clone());
                let ep = format!("e{}", t % 4);
                tasks.push(tokio::spawn(async move {
                    let mut res = Ok(());
                    for k in 0..rounds {
                        bar.wait().await;
                        if stop.load(SeqCst) {
                            break;
                        }
                        let m = msg(ep.clone(), format!("{t}"), format!("{k}"));
                        match must_ok(&sc, m.clone(), addr, "burst").await {
                            Ok(g) => {
                                if !same(&g, &m) {
                                    res = viol("burst: wrong answer", diff(&m, &g));
                                }
                            }
                            Err(e) => res = Err(e),
                        }
                        order.fetch_xor(((t as u64 + 1) * 0x9E37_79B9).rotate_left((order.load(Relaxed) % 63) as u32), Relaxed);
                        ctx.evals.fetch_add(1, Relaxed);
                        if res.is_err() {
                            stop.store(true, SeqCst);
                        }
                    }
                    res
                }));
            }
            join_all(tasks).await?;
            ctx.observe("burst_interleavings", order.load(SeqCst));
            ctx.add("burst_calls", (n * rounds) as u64);
            ctx.eval(&format!("burst {i} {} {n} {:?}", cfg.sig(), order.load(SeqCst)), true);
            if i < 2 {
                ctx.sample(json!({"group": "bursts", "config": cfg.sig(), "runtime": format!("{rt:?}"), "callers": n, "rounds": rounds}));
            }
            Ok(())
        })
    });
    // Many multi-frame messages in both directions at once, any config.
    let (min, max) = if q { (30, 300) } else { (300, 100000) };
    ctx.scenarios(1, "multiframe", 5, min, max, 0.75, |ctx, i, mut r| {
        let rt = Rt::pick(&mut r);
        with_rt(rt, move || async move {
            let mut cfg = Cfg::random(&mut r);
            cfg.frame_buffer_size = *r.pick(&[1, 1, 2, 5, 100]);
            cfg.server_tasks = *r.pick(&[1, 1, 2, 3, 4, 0]);
            let (srv, addr) = server(&cfg).await?;
            let ss = sub(&srv, "svc").await?;
            let neps = 5;
            for e in 0..neps {
                let mut hr = r.fork();
                // answers with a body of its own size
                reg_sync(&ss, &format!("e{e}"), raw_sync(move |m| {
                    let n = if hr.chance(1, 2) { m.body().len() } else { hr.range(0, 300_000) };
                    let mut b = m.body().to_vec();
                    b.resize(n, 0x77);
                    Ok(msg(m.endpoint().clone(), m.header().clone(), b))
                })).await?;
            }
            await_listening(addr).await?;
            let c = client(&cfg);
            let sc = sub(&c, "svc").await?;
            let n = r.range(2, 24);
            let mut tasks = vec![];
            for t in 0..n {
                let sc = sc.clone();
                let mut r = r.fork();
                tasks.push(tokio::spawn(async move {
                    for k in 0..r.range(1, 3) {
                        let len = if r.chance(2, 3) { r.range(60_000, 400_000) } else { r.below(3000) };
                        let b = r.bytes(len);
                        let m = msg(format!("e{}", r.below(neps)), format!("{t}-{k}"), b.clone());
                        let g = must_ok(&sc, m.clone(), addr, "multiframe").await?;
                        let p = g.body().len().min(b.len());
                        ensure!(g.header() == m.header() && g.body()[..p] == b[..p] && g.body()[p..].iter().all(|x| *x == 0x77), "multiframe: answer damaged", diff(&m, &g));
                    }
                    Ok(len_sig(&mut r))
                }));
            }
            let v = join_all(tasks).await?;
            ctx.add("multiframe_callers", n as u64);
            ctx.eval(&format!("mf {i} {} {v:?}", cfg.sig()), true);
            if i < 2 {
                ctx.sample(json!({"group": "multiframe", "config": cfg.sig(), "runtime": format!("{rt:?}"), "callers": n}));
            }
            Ok(())
        })
    });
    // server_tasks handlers really run at the same time
    let (min, max) = if q { (16, 60) } else { (100, 3000) };
    ctx.scenarios(2, "rendezvous", 5, min, max, 0.85, |ctx, _i, mut r| {
        let rt = Rt::pick(&mut r);
        with_rt(rt, move || async move {
            let k = r.range(2, 12);
            let cfg = Cfg { server_tasks: *r.pick(&[k, k, k + 3, 0]), frame_buffer_size: *r.pick(&[1, 2, 100]), ..Default::default() };
            let (srv, addr) = server(&cfg).await?;
            let bar = Arc::new(tokio::sync::Barrier::new(k));
            // the k endpoints are spread over two services
            let svcs = ["svc", "other"];
            for e in 0..k {
                let ss = sub(&srv, svcs[e % 2]).await?;
                let bar = bar.clone();
                reg(&ss, &format!("e{e}"), raw_async(move |m| {
                    let bar = bar.clone();
                    async move {
                        bar.wait().await;
                        Ok(m)
                    }
                })).await?;
            }
            await_listening(addr).await?;
            let c = client(&cfg);
            for _ in 0..3 {
                let mut tasks = vec![];
                for e in 0..k {
                    let sc = sub(&c, svcs[e % 2]).await?;
                    let n = if r.chance(1, 4) { 100_000 } else { 10 };
                    let m = msg(format!("e{e}"), "", r.bytes(n));
                    tasks.push(tokio::spawn(async move { must_ok(&sc, m, addr, "rendezvous of as many handlers as server_tasks allows").await.map(|_| ()) }));
                }
                join_all(tasks).await?;
                ctx.add("rendezvous_met", 1);
            }
            ctx.eval(&format!("rv {k} {} {rt:?}", cfg.sig()), true);
            Ok(())
        })
    });
    // a crowd in front of one handler
    let (min, max) = if q { (3, 6) } else { (30, 300) };
    ctx.scenarios(11, "one_handler_many_calls", 3, min, max, 0.87, |ctx, i, mut r| {
        let rt = Rt::pick(&mut r);
        with_rt(rt, move || async move {
            let n = r.range(1000, 3000);
            let cfg = Cfg { server_tasks: *r.pick(&[0, 0, 5000, 1]), max_connections: *r.pick(&[1, 1, 4]), frame_buffer_size: *r.pick(&[1, 10, 100]), ..Default::default() };
            let (srv, addr) = server(&cfg).await?;
            let ss = sub(&srv, "svc").await?;
            let gate = Arc::new(tokio::sync::Semaphore::new(0));
            let g = gate.clone();
            reg(&ss, "e", raw_async(move |m| {
                let g = g.clone();
                async move {
                    let _open = g.acquire().await;
                    Ok(m)
                }
            })).await?;
            await_listening(addr).await?;
            let c = client(&cfg);
            let sc = sub(&c, "svc").await?;
            let mut tasks = vec![];
            for k in 0..n {
                let sc = sc.clone();
                tasks.push(tokio::spawn(async move {
                    let m = msg("e", format!("{k}"), "b");
                    let g = must_ok(&sc, m.clone(), addr, "one of many calls to one handler").await?;
                    ensure!(same(&m, &g), "one of many calls to one handler got a wrong answer", diff(&m, &g));
                    Ok(())
                }));
            }
            tokio::time::sleep(Duration::from_millis(if i % 2 == 0 { 300 } else { 50 })).await;
            gate.add_permits(1);
            join_all(tasks).await?;
            ctx.add("calls_waiting_for_one_handler", n as u64);
            ctx.eval(&format!("crowd {n} {}", cfg.sig()), true);
            Ok(())
        })
    });
    // handlers that call on
    let (min, max) = if q { (12, 40) } else { (100, 3000) };
    ctx.scenarios(3, "nested", 5, min, max, 0.92, |ctx, _i, mut r| {
        let rt = Rt::pick(&mut r);
        with_rt(rt, move || async move {
            let cfg = Cfg::random(&mut r);
            let (a, addr_a) = server(&cfg).await?;
            let (b, addr_b) = server(&cfg).await?;
            let sa = sub(&a, "a").await?;
            let sb = sub(&b, "b").await?;
            await_listening(addr_a).await?;
            await_listening(addr_b).await?;
            let depth = r.range(1, 4);
            // a/e(k) -> b/e(k) -> a/e(k-1) ... over the servers' own channels
            for k in 0..=depth {
                let out_b = sub(&a, "b").await?;
                reg(&sa, &format!("e{k}"), raw_async(move |m: RawMessage| {
                    let out_b = out_b.clone();
                    async move {
                        let r: HandlerResult<RawMessage> = tchannel_rs::messages::MessageChannel::<RawMessage, RawMessage>::send(&*out_b, msg(format!("e{k}"), format!("{}a{k}", m.header()), m.body().clone()), addr_b).await;
                        r.map_err(|e| HandlerError::GeneralError(e.to_string()))
                    }
                })).await?;
                let out_a = sub(&b, "a").await?;
                reg(&sb, &format!("e{k}"), raw_async(move |m: RawMessage| {
                    let out_a = out_a.clone();
                    async move {
                        if k == 0 {
                            return Ok(m);
                        }
                        let r: HandlerResult<RawMessage> = tchannel_rs::messages::MessageChannel::<RawMessage, RawMessage>::send(&*out_a, msg(format!("e{}", k - 1), format!("{}b{k}", m.header()), m.body().clone()), addr_a).await;
                        r.map_err(|e| HandlerError::GeneralError(e.to_string()))
                    }
                })).await?;
            }
            let c = client(&cfg);
            let sc = sub(&c, "a").await?;
            // One call chain at a time holds at most one handler of each (endpoint, server); more chains
            // than server_tasks could starve each other by design, so chains run one after another.
            for _ in 0..3 {
                let n = *r.pick(&[3usize, 100_000]);
                let d = r.range(0, depth);
                // the inner calls of a chain share one connection per direction: depth of them at once
                if cfg.server_tasks != 0 && cfg.server_tasks < d + 1 {
                    continue;
                }
                let body = r.bytes(n);
                let g = must_ok(&sc, msg(format!("e{d}"), "", body.clone()), addr_a, "nested").await?;
                ensure!(g.body().as_ref() == &body[..], "nested: wrong answer", json!({"depth": d}));
                ctx.add("nested_chains", 1);
                ctx.eval(&format!("nest {d} {n} {}", cfg.sig()), true);
            }
            Ok(())
        })
    });
    // thousands of requests begun on one connection, of which the last fragment comes late
    let (min, max) = if q { (4, 8) } else { (24, 1000) };
    ctx.scenarios(10, "thousands_begun", 4, min, max, 0.93, |ctx, i, mut r| {
        let rt = Rt::pick(&mut r);
        with_rt(rt, move || async move {
            let cfg = Cfg { server_tasks: *r.pick(&[0, 1, 4]), frame_buffer_size: *r.pick(&[1, 10, 100]), ..Cfg::default() };
            let (srv, addr) = server(&cfg).await?;
            let ss = sub(&srv, "svc").await?;
            reg_sync(&ss, "e", echo()).await?;
            await_listening(addr).await?;
            let n = [300u32, 1200, 2600, 6000][i as usize % 4];
            let (mut rd, mut w) = fake_client(addr).await?;
            let meta = ReqMeta::raw("svc");
            let plan = |k: u32| vec![vec![b"e".to_vec(), format!("h{k}").into_bytes(), b"first ".to_vec()], vec![format!("last {k}").into_bytes()]];
            let lost = |what: &str| Fail::Violation(what.to_string(), json!({"begun": n, "config": cfg.sig()}));
            let whole = |id: u32, r: &mut Rng| req_frames(id, &meta, &[vec![b"e".to_vec(), b"now".to_vec(), { let n = r.below(200); r.bytes(n) }]]).remove(0);
            let step = r.range(100, 300) as u32;
            for k in 0..n {
                w.frame(&req_frames(1000 + k, &ReqMeta::raw("svc"), &plan(k))[0]).await.map_err(|_| lost("server closed a connection on which requests were begun"))?;
                if k % step == 0 {
                    // others on that connection are served meanwhile
                    let f = whole(10 + k / step, &mut r);
                    w.frame(&f).await.map_err(|_| lost("server closed a connection on which requests were begun"))?;
                    let f = within(HANG, rd.expect()).await.map_err(|_| lost("a request was not answered while others were incomplete (bounded-progress monitor)"))?.map_err(|_| lost("server closed a connection on which requests were begun"))?;
                    ensure!(f.ftype == CALL_RES && f.id == 10 + k / step, "a request got a wrong answer while others were incomplete", json!({"type": f.ftype, "id": f.id, "begun": k}));
                }
            }
            let mut order: Vec<u32> = (0..n).collect();
            match r.below(3) {
                0 => {}
                1 => order.reverse(),
                _ => {
                    for k in (1..order.len()).rev() {
                        order.swap(k, r.below(k + 1));
                    }
                }
            }
            let send = tokio::spawn(async move {
                for k in order {
                    w.frame(&req_frames(1000 + k, &ReqMeta::raw("svc"), &plan(k))[1]).await.map_err(|e| e.to_string())?;
                }
                Ok::<_, String>(w)
            });
            let mut left: std::collections::BTreeSet<u32> = (0..n).collect();
            while !left.is_empty() {
                let f = within(HANG, rd.expect()).await.map_err(|_| lost("a request was not answered once its last fragment had come (bounded-progress monitor)"))?.map_err(|_| lost("server closed a connection on which requests were completed"))?;
                let k = f.id.wrapping_sub(1000);
                let ok = f.ftype == CALL_RES && left.remove(&k) && parse_call_res(&f.payload).map(|m| m.chunks == [b"e".to_vec(), format!("h{k}").into_bytes(), format!("first last {k}").into_bytes()]).unwrap_or(false);
                ensure!(ok, "a request completed late got a wrong answer", json!({"type": f.ftype, "id": f.id, "begun": n}));
            }
            within(HANG, send).await.map_err(|_| lost("server stopped reading"))?.map_err(|e| Fail::Inconclusive(e.to_string()))?.map_err(|_| lost("server closed a connection on which requests were completed"))?;
            ctx.add("requests_begun_and_completed_late", n as u64);
            ctx.eval(&format!("begun {n} {}", cfg.sig()), true);
            Ok(())
        })
    });
    // a peer that stops reading must not stall anybody else
    let (min, max) = if q { (8, 30) } else { (60, 2000) };
    ctx.scenarios(4, "stalled_peer", 5, min, max, 0.94, |ctx, _i, mut r| {
        let rt = Rt::pick(&mut r);
        with_rt(rt, move || async move {
            let cfg = Cfg::random(&mut r);
            let (srv, addr) = server(&cfg).await?;
            let ss = sub(&srv, "svc").await?;
            for e in ["big", "small"] {
                reg_sync(&ss, e, raw_sync(|m| {
                    let n: usize = m.header().parse().unwrap_or(0);
                    Ok(msg(m.endpoint().clone(), m.header().clone(), vec![1u8; n]))
                })).await?;
            }
            // a client that asks for a lot and never reads
            let (rd, mut w) = fake_client(addr).await?;
            for id in 2..40u32 {
                let plan = vec![vec![b"big".to_vec(), b"1000000".to_vec(), vec![]]];
                for f in req_frames(id, &ReqMeta::raw("svc"), &plan) {
                    if within(20, w.frame(&f)).await.is_err() {
                        break;
                    }
                }
            }
            // a server that handshakes and then never reads
            let fa = fresh_addr();
            let l = listen(fa).await?;
            let deaf = tokio::spawn(async move {
                let mut keep = vec![];
                loop {
                    if let Ok((s, _)) = l.accept().await {
                        keep.push(accept_init(s).await);
                    }
                }
            });
            let c = client(&cfg);
            let sc = sub(&c, "svc").await?;
            let sd = sc.clone();
            let n = 3_000_000;
            let body = r.bytes(n);
            let answered = Arc::new(std::sync::atomic::AtomicBool::new(false));
            let flag = answered.clone();
            let stuck = tokio::spawn(async move {
                if let Ok(Ok(_)) = call_beats(&sd, msg("x", "y", body), fa, 1_000_000).await {
                    flag.store(true, SeqCst);
                }
            });
            tokio::time::sleep(Duration::from_millis(r.below(30) as u64)).await;
            for k in 0..8 {
                let m = msg("small", format!("{}", r.below(200_000)), "");
                must_ok(&sc, m, addr, "stalled peer elsewhere").await?;
                ctx.eval(&format!("stall {k} {}", cfg.sig()), true);
            }
            ensure!(!answered.load(SeqCst), "call to a server that never answered was reported as answered", json!({}));
            stuck.abort();
            deaf.abort();
            drop((rd, w));
            ctx.add("stalled_peers", 2);
            Ok(())
        })
    });
    // server_tasks limits each connection by itself; whatever one connection holds up, others do not notice
    let (min, max) = if q { (12, 60) } else { (100, 3000) };
    ctx.scenarios(5, "limit_per_connection", 5, min, max, 0.97, |ctx, _i, mut r| {
        let rt = Rt::pick(&mut r);
        with_rt(rt, move || async move {
            let k = r.range(1, 5);
            let cfg = Cfg { server_tasks: k, max_connections: 1, frame_buffer_size: *r.pick(&[1, 2, 100]), ..Default::default() };
            let (srv, addr) = server(&cfg).await?;
            let gate = Arc::new(tokio::sync::Semaphore::new(0));
            let inside = Arc::new(AtomicUsize::new(0));
            for svc in ["svc", "other"] {
                let ss = sub(&srv, svc).await?;
                for e in 0..k + 3 {
                    let (gate, inside) = (gate.clone(), inside.clone());
                    reg(&ss, &format!("held{e}"), raw_async(move |m: RawMessage| {
                        let (gate, inside) = (gate.clone(), inside.clone());
                        async move {
                            inside.fetch_add(1, SeqCst);
                            let _ = gate.acquire().await;
                            Ok(m)
                        }
                    })).await?;
                }
                reg_sync(&ss, "echo", echo()).await?;
                reg(&ss, "late", raw_async(|m: RawMessage| async move {
                    tokio::time::sleep(Duration::from_millis(2)).await;
                    Ok(m)
                })).await?;
            }
            await_listening(addr).await?;
            let nblocked = r.range(1, 3);
            let mut clients = vec![];
            let mut tasks = vec![];
            let more = r.chance(1, 2);
            for b in 0..nblocked {
                let c = client(&cfg);
                // each connection blocks handlers of its own, they are entered one at a time
                let n = if more { k + 3 } else { k };
                if b > 0 && !r.chance(1, 2) {
                    continue;
                }
                for e in 0..n {
                    let sc = sub(&c, ["svc", "other"][b % 2]).await?;
                    let len = *r.pick(&[3usize, 100_000]);
                    let m = msg(format!("held{e}"), format!("{b}"), r.bytes(len));
                    tasks.push(tokio::spawn(async move {
                        let g = must_ok(&sc, m.clone(), addr, "a call whose handler was blocked for a while").await?;
                        ensure!(same(&g, &m), "wrong answer after a blocked handler", diff(&m, &g));
                        Ok(())
                    }));
                }
                clients.push(c);
            }
            let ok = within(HANG, async {
                while inside.load(SeqCst) < k {
                    tokio::time::sleep(Duration::from_millis(1)).await;
                }
            })
            .await
            .is_ok();
            ensure!(ok, "fewer handlers ran at once than server_tasks allows", json!({"server_tasks": k, "inside": inside.load(SeqCst)}));
            for round in 0..3 {
                let c = client(&cfg);
                let mut v = vec![];
                for t in 0..r.range(1, k + 3) {
                    let sc = sub(&c, *r.pick(&["svc", "other"])).await?;
                    let n = random_len(&mut r);
                    let m = msg(*r.pick(&["echo", "late"]), format!("{round}.{t}"), r.bytes(n));
                    v.push(tokio::spawn(async move {
                        match call_beats(&sc, m.clone(), addr, HANG).await? {
                            Ok(g) => ensure!(same(&g, &m), "wrong answer while another connection's handlers are blocked", diff(&m, &g)),
                            Err(e) => return viol("a call failed while another connection's handlers are blocked", json!({"error": e.to_string()})),
                        }
                        Ok(())
                    }));
                }
                let n = v.len() as u64;
                join_all(v).await?;
                ctx.add("calls_beside_a_blocked_connection", n);
            }
            gate.add_permits(1000);
            join_all(tasks).await?;
            ctx.eval(&format!("limit {k} {nblocked} {more} {rt:?} {}", cfg.sig()), true);
            Ok(())
        })
    });
    // peers that accept and never shake hands, or go silent, hold up nobody but their own callers
    let (min, max) = if q { (6, 12) } else { (60, 1000) };
    ctx.scenarios(6, "silent_peers", 6, min, max, 1.0, |ctx, i, mut r| {
        let rt = Rt::pick(&mut r);
        with_rt_beats(rt, SCENARIO_BEATS + 2 * HANG, move || async move {
            let cfg = Cfg { max_connections: r.range(1, 3) as u32, test_connection: r.chance(1, 2), ..Cfg::random(&mut r) };
            let (srv, addr) = server(&cfg).await?;
            let (srv2, addr2) = server(&cfg).await?;
            for s in [&srv, &srv2] {
                reg_sync(&*sub(s, "svc").await?, "echo", echo()).await?;
            }
            await_listening(addr).await?;
            await_listening(addr2).await?;
            let c = client(&cfg);
            let sc = sub(&c, "svc").await?;
            let known = r.chance(1, 2);
            if known {
                must_ok(&sc, msg("echo", "", ""), addr, "first call").await?;
            }
            let mut holes = vec![];
            let mut stuck = vec![];
            for h in 0..r.range(1, 4) {
                let fa = fresh_addr();
                let l = listen(fa).await?;
                let shakes = r.chance(1, 3);
                holes.push(tokio::spawn(async move {
                    let mut keep = vec![];
                    let mut keep2 = vec![];
                    loop {
                        if let Ok((s, _)) = l.accept().await {
                            if shakes {
                                keep2.push(accept_init(s).await);
                            } else {
                                keep.push(s);
                            }
                        }
                    }
                }));
                for _ in 0..r.range(1, 5) {
                    let sc = if r.chance(1, 2) { sc.clone() } else { sub(&c, &format!("svc{h}")).await? };
                    stuck.push(tokio::spawn(async move { MessageChannel::<RawMessage, RawMessage>::send(&*sc, msg("echo", "", ""), fa).await.is_ok() }));
                }
            }
            tokio::time::sleep(Duration::from_millis(r.range(1, 60) as u64)).await;
            for k in 0..12 {
                let to = if k % 2 == 0 { addr } else { addr2 };
                let n = random_len(&mut r);
                let m = msg("echo", format!("{k}"), r.bytes(n));
                // well before the silent peers' connecting times out
                match call_beats(&sc, m.clone(), to, HANG).await? {
                    Ok(g) => ensure!(same(&g, &m), "wrong answer while other peers are silent", diff(&m, &g)),
                    Err(e) => return viol("a call to a healthy server failed while other peers are silent", json!({"error": e.to_string()})),
                }
                ctx.eval(&format!("silent {i} {k} {known} {}", cfg.sig()), true);
            }
            for s in stuck {
                s.abort();
                ensure!(!matches!(s.await, Ok(true)), "a call to a server that never answered was reported as answered", json!({}));
            }
            for h in holes {
                h.abort();
            }
            ctx.add("silent_peer_scenarios", 1);
            Ok(())
        })
    });
    let _ = slow.join();
    ctx.finish(
        "Bounded-progress monitor (heartbeats on the same runtime) over: barrier-released bursts of small calls; many multi-frame calls in both directions with 1..100-frame buffers and 0..4 server_tasks; handlers that only return once server_tasks of them run; call chains through two servers; peers that stop reading; handlers, fragments, answers and handshakes that take up to 24 s (thorough: 125 s) and connections idle for as long. Hours pass on a hand-driven clock in a dozen situations (idle, handlers, half-sent messages, stalled streams); thousands of requests are begun on one connection before any is completed; callers stop polling their call futures while others work. Every call must complete, and succeed, because the server is healthy. Distinct by config and observed completion interleaving.",
        &["a call is declared hung after 7500 missed heartbeats of >=10 ms (longer than the 30 s connect timeout)", "server_tasks = 0 is read as unlimited", "a caller that keeps a call's future without polling it may hold up its own connection, no other one"], 40,
    )
}
fn len_sig(r: &mut Rng) -> u64 {
    r.next()
}
// =================================================================== C15
struct Seq {
    log: Vec<String>,
    busy: bool,
}
pub fn c15(ctx: Arc<Ctx>) -> i32 {
    crate::p_hours::limits(&ctx);
    let (min, max) = if ctx.quick() { (40, 1200) } else { (400, 100000) };
    ctx.scenarios(0, "sequential", 6, min, max, 0.8, |ctx, i, mut r| {
        let rt = Rt::pick(&mut r);
        with_rt(rt, move || async move {
            let cfg = Cfg { server_tasks: *r.pick(&[2, 3, 4, 16, 0]), ..Cfg::random(&mut r) };
            let (srv, addr) = server(&cfg).await?;
            let ss = sub(&srv, "svc").await?;
            let neps = r.range(1, 3);
            let overlaps = Arc::new(AtomicUsize::new(0));
            for e in 0..neps {
                // `handle` takes &mut self: executions of one registered handler never overlap.
                let st = Arc::new(Mutex::new(Seq { log: vec![], busy: false }));
                let overlaps = overlaps.clone();
                let seed = r.next();
                let cnt = Arc::new(AtomicU64::new(0));
                reg(&ss, &format!("e{e}"), raw_async(move |m: RawMessage| {
                    let (st, overlaps) = (st.clone(), overlaps.clone());
                    let mut r = Rng::new(seed ^ cnt.fetch_add(1, SeqCst));
                    async move {
                        let n = {
                            let mut s = st.lock().unwrap();
                            if std::mem::replace(&mut s.busy, true) {
                                overlaps.fetch_add(1, SeqCst);
                            }
                            s.log.len()
                        };
                        jitter(&mut r).await;
                        {
                            let mut s = st.lock().unwrap();
                            s.log.truncate(n); // a lost update would show as a repeated index
                            s.log.push(m.header().clone());
                        }
                        jitter(&mut r).await;
                        let out = {
                            let mut s = st.lock().unwrap();
                            s.busy = false;
                            format!("{}|{}", n, s.log.last().unwrap())
                        };
                        Ok(msg("", out, ""))
                    }
                })).await?;
            }
            await_listening(addr).await?;
            // (endpoint, invoke, response, index)
            let hist = Arc::new(Mutex::new(Vec::<(usize, u64, u64, usize)>::new()));
            let mut tasks = vec![];
            let nclients = r.range(1, 3);
            let clients: Vec<TChannel> = (0..nclients).map(|_| client(&cfg)).collect();
            for (ci, c) in clients.iter().enumerate() {
                let sc = sub(c, "svc").await?;
                for t in 0..r.range(1, 6) {
                    let (sc, hist) = (sc.clone(), hist.clone());
                    let mut r = r.fork();
                    tasks.push(tokio::spawn(async move {
                        for k in 0..r.range(1, 6) {
                            let e = r.below(neps);
                            let tok = format!("{ci}.{t}.{k}");
                            let inv = tick();
                            let g = must_ok(&sc, msg(format!("e{e}"), tok.clone(), ""), addr, "sequential").await?;
                            let resp = tick();
                            let (n, t) = g.header().split_once('|').unwrap_or(("", ""));
                            ensure!(t == tok, "two executions of one handler interfered", json!({"sent": tok, "handler_saw_last": t}));
                            hist.lock().unwrap().push((e, inv, resp, n.parse().unwrap_or(usize::MAX)));
                            jitter(&mut r).await;
                        }
                        Ok(())
                    }));
                }
            }
            join_all(tasks).await?;
            let h = hist.lock().unwrap().clone();
            ensure!(overlaps.load(SeqCst) == 0, "two executions of one handler overlapped in time", json!({"overlaps": overlaps.load(SeqCst), "config": cfg.sig()}));
            for e in 0..neps {
                let mut v: Vec<_> = h.iter().filter(|x| x.0 == e).collect();
                v.sort_by_key(|x| x.3);
                for (k, x) in v.iter().enumerate() {
                    ensure!(x.3 == k, "handler executions did not form one sequence (lost or repeated state)", json!({"indices": v.iter().map(|x| x.3).collect::<Vec<_>>()}));
                }
                // real time: whoever answered before another was invoked comes first
                let mut max_inv = 0;
                for x in &v {
                    // everything earlier in the sequence must not have been invoked after x responded
                    ensure!(max_inv <= x.2, "the order of handler executions contradicts real time (call B ran before A although A was answered before B was made)", json!({"history": v.iter().map(|x| (x.1, x.2, x.3)).collect::<Vec<_>>()}));
                    max_inv = max_inv.max(x.1);
                }
                let sig = hash_str(&format!("{:?}", v.iter().map(|x| x.1).collect::<Vec<_>>().iter().scan(0u64, |p, x| { let d = *x > *p; *p = *x; Some(d) }).collect::<Vec<_>>()));
                ctx.observe("execution_orders", sig);
            }
            let overlapping = h.iter().filter(|a| h.iter().any(|b| a.0 == b.0 && a.1 < b.1 && b.1 < a.2)).count();
            ctx.add("history_ops", h.len() as u64);
            ctx.add("ops_overlapping_another", overlapping as u64);
            ctx.eval(&format!("{i} {} {:?}", cfg.sig(), h.iter().map(|x| (x.0, x.3)).collect::<Vec<_>>()), overlapping > 1);
            if i < 3 {
                ctx.sample(json!({"history (endpoint, invoked, answered, position)": h.iter().take(12).collect::<Vec<_>>(), "config": cfg.sig()}));
            }
            Ok(())
        })
    });
    // at most server_tasks handlers per connection at once
    let (min, max) = if ctx.quick() { (20, 300) } else { (200, 20000) };
    ctx.scenarios(1, "task_limit", 6, min, max, 1.0, |ctx, i, mut r| {
        let rt = Rt::pick(&mut r);
        with_rt(rt, move || async move {
            let k = r.range(1, 5);
            let cfg = Cfg { server_tasks: k, max_connections: 1, frame_buffer_size: *r.pick(&[1, 2, 100]), ..Default::default() };
            let (srv, addr) = server(&cfg).await?;
            let log = Arc::new(ExecLog::default());
            let neps = k + r.range(2, 8);
            for e in 0..neps {
                let ss = sub(&srv, ["svc", "two"][e % 2]).await?;
                let log = log.clone();
                let seed = r.next();
                let cnt = Arc::new(AtomicU64::new(0));
                reg(&ss, &format!("e{e}"), raw_async(move |m: RawMessage| {
                    let log = log.clone();
                    let mut r = Rng::new(seed ^ cnt.fetch_add(1, SeqCst));
                    async move {
                        let t = log.enter();
                        tokio::time::sleep(Duration::from_millis(1 + r.below(4) as u64)).await;
                        log.exit("svc", "e", &m, t);
                        Ok(m)
                    }
                })).await?;
            }
            await_listening(addr).await?;
            let c = client(&cfg);
            let mut tasks = vec![];
            for e in 0..neps {
                let sc = sub(&c, ["svc", "two"][e % 2]).await?;
                for _ in 0..2 {
                    let sc = sc.clone();
                    let n = if r.chance(1, 5) { 70_000 } else { 5 };
                    let m = msg(format!("e{e}"), "", r.bytes(n));
                    tasks.push(tokio::spawn(async move { must_ok(&sc, m, addr, "task limit").await.map(|_| ()) }));
                }
            }
            join_all(tasks).await?;
            let m = log.max_inside.load(SeqCst);
            ensure!(m <= k, "more handlers ran at once for one connection than server_tasks allows", json!({"server_tasks": k, "observed": m}));
            ctx.max("max_concurrent_handlers", m as u64);
            ctx.add("task_limit_reached", (m == k) as u64);
            ctx.eval(&format!("limit {i} {k} {neps} {m}"), m == k);
            Ok(())
        })
    });
    ctx.finish(
        "Each evaluation is one concurrent history against stateful handlers that read, suspend, write and suspend again; the returned positions must form 0..n-1 and respect real-time order (linearizability of an append log), and an overlap flag in the handler must never be seen set. A second group counts handlers inside at once per connection against server_tasks. A third lets hours pass on a hand-driven clock while handlers are inside: neither guarantee may wear off. Non-trivial: history in which calls to one endpoint overlapped; distinct by observed order.",
        &["per-connection limit is measured with one client connection"],
        40,
    )
}

// =================================================================== C05
#[derive(Debug)]
struct Ident {
    id: u64,
    live: Arc<AtomicI64>,
    fin: Arc<Mutex<HashSet<u64>>>,
}
impl Drop for Ident {
    fn drop(&mut self) {
        self.live.fetch_sub(1, SeqCst);
        self.fin.lock().unwrap().insert(self.id);
    }
}
impl RequestHandler for Ident {
    type REQ = RawMessage;
    type RES = RawMessage;
    fn handle(&mut self, m: RawMessage) -> HandlerResult<RawMessage> {
        Ok(msg("", self.id.to_string(), m.body().clone()))
    }
}
#[derive(Clone, Debug)]
enum Op {
    Reg(u64, bool),
    Unreg(bool),
    Call(Option<u64>),
}
#[derive(Clone, Debug)]
struct Ev {
    op: Op,
    inv: u64,
    resp: u64,
}
/// Wing-Gong-Lowe search over one register of type Option<handler id>.
fn linearizable(h: &[Ev]) -> bool {
    assert!(h.len() <= 60);
    let full: u64 = (1u64 << h.len()) - 1;
    let mut seen: HashSet<(u64, Option<u64>)> = HashSet::new();
    let mut stack = vec![(0u64, None::<u64>)];
    while let Some((done, st)) = stack.pop() {
        if done == full {
            return true;
        }
        if !seen.insert((done, st)) {
            continue;
        }
        // earliest response among the not yet linearized
        let lim = h.iter().enumerate().filter(|(k, _)| done >> k & 1 == 0).map(|(_, e)| e.resp).min().unwrap();
        for (k, e) in h.iter().enumerate() {
            if done >> k & 1 == 1 || e.inv > lim {
                continue;
            }
            let next = match (&e.op, st) {
                (Op::Reg(id, true), None) => Some(Some(*id)),
                (Op::Reg(_, false), Some(x)) => Some(Some(x)),
                (Op::Unreg(true), Some(_)) => Some(None),
                (Op::Unreg(false), None) => Some(None),
                (Op::Call(got), st) if *got == st => Some(st),
                _ => None,
            };
            if let Some(n) = next {
                stack.push((done | 1 << k, n));
            }
        }
    }
    false
}
pub fn c05(ctx: Arc<Ctx>) -> i32 {
    crate::p_hours::registry(&ctx);
    let (min, max) = if ctx.quick() { (60, 4500) } else { (600, 200000) };
    ctx.scenarios(0, "registry", 6, min, max, 0.75, |ctx, i, mut r| {
        let rt = Rt::pick(&mut r);
        with_rt(rt, move || async move {
            let cfg = Cfg { max_connections: r.range(1, 3) as u32, ..Default::default() };
            let (srv, addr) = server(&cfg).await?;
            let srv = Arc::new(srv);
            await_listening(addr).await?;
            let svcs = ["s", "t"];
            let eps = ["a", "b"];
            let live = Arc::new(AtomicI64::new(0));
            let fin: Arc<Mutex<HashSet<u64>>> = Default::default();
            let next = Arc::new(AtomicU64::new(1));
            type H = HashMap<(usize, usize), Vec<Ev>>;
            let hist: Arc<Mutex<H>> = Default::default();
            let c = Arc::new(client(&cfg));
            let shared_call = sub(&c, "s").await?; // make sure the pool exists
            let _ = call(&shared_call, msg("zz", "", ""), addr).await?;
            let nthreads = r.range(2, 5);
            let bar = Arc::new(tokio::sync::Barrier::new(nthreads));
            let subs: Arc<Mutex<Vec<(usize, Arc<SubChannel>)>>> = Default::default();
            let mut tasks = vec![];
            for _t in 0..nthreads {
                let (srv, c, bar, live, fin, next, hist, subs) = (srv.clone(), c.clone(), bar.clone(), live.clone(), fin.clone(), next.clone(), hist.clone(), subs.clone());
                let mut r = r.fork();
                tasks.push(tokio::spawn(async move {
                    bar.wait().await;
                    for _ in 0..r.range(3, 6) {
                        let (s, e) = (r.below(2), r.below(2));
                        // subchannel() races with its own creation by the other threads
                        let ss = sub(&srv, svcs[s]).await?;
                        subs.lock().unwrap().push((s, ss.clone()));
                        let what = r.below(10);
                        if r.chance(1, 2) {
                            preempt_after(r.range(1, 6)).await;
                        }
                        let inv = tick();
                        let op = if what < 3 {
                            let id = next.fetch_add(1, SeqCst);
                            live.fetch_add(1, SeqCst);
                            let h = Ident { id, live: live.clone(), fin: fin.clone() };
                            let ok = ss.register(eps[e], h).await.is_ok();
                            Op::Reg(id, ok)
                        } else if what < 5 {
                            Op::Unreg(ss.unregister(eps[e]).await.is_ok())
                        } else {
                            let cs = sub(&c, svcs[s]).await?;
                            match call(&cs, msg(eps[e], "", "x"), addr).await? {
                                Ok(m) => Op::Call(Some(m.header().parse().unwrap_or(0))),
                                Err(_) => Op::Call(None),
                            }
                        };
                        let resp = tick();
                        hist.lock().unwrap().entry((s, e)).or_default().push(Ev { op, inv, resp });
                        jitter(&mut r).await;
                    }
                    Ok(())
                }));
            }
            join_all(tasks).await?;
            let hist = std::mem::take(&mut *hist.lock().unwrap());
            let mut registered = 0i64;
            let mut nops = 0;
            for ((s, e), h) in &hist {
                nops += h.len();
                ensure!(linearizable(h), "registry history is not linearizable (register / unregister / call on one endpoint)", json!({"service": svcs[*s], "endpoint": eps[*e], "history": h.iter().map(|e| format!("{:?} @[{},{}]", e.op, e.inv, e.resp)).collect::<Vec<_>>()}));
                for x in h {
                    match x.op {
                        Op::Reg(_, true) => registered += 1,
                        Op::Unreg(true) => registered -= 1,
                        _ => {}
                    }
                }
                let conc = h.iter().filter(|a| h.iter().any(|b| a.inv < b.inv && b.inv < a.resp)).count();
                ctx.add("ops_overlapping_another", conc as u64);
                ctx.observe("histories", hash_str(&format!("{:?}", h.iter().map(|e| match &e.op { Op::Reg(_, b) => format!("r{b}"), Op::Unreg(b) => format!("u{b}"), Op::Call(c) => format!("c{}", c.is_some()) }).collect::<Vec<_>>())));
                ctx.eval(&format!("{:?}", h.iter().map(|e| format!("{:?}", e.op)).collect::<Vec<_>>()), conc > 0);
            }
            ctx.add("history_ops", nops as u64);
            {
                let subs = subs.lock().unwrap();
                for a in subs.iter() {
                    for b in subs.iter() {
                        ensure!((a.0 == b.0) == Arc::ptr_eq(&a.1, &b.1), "subchannel() returned different instances for one name or one instance for different names", json!({"names": [svcs[a.0], svcs[b.0]]}));
                    }
                }
                ctx.add("subchannel_lookups_compared", (subs.len() * subs.len()) as u64);
            }
            // every handler no longer registered has been dropped
            let ok = within(300, async {
                while live.load(SeqCst) != registered {
                    tokio::time::sleep(Duration::from_millis(1)).await;
                }
            })
            .await
            .is_ok();
            ensure!(ok, "unregistered handlers are still alive (or registered ones were dropped)", json!({"alive": live.load(SeqCst), "registered": registered}));
            if i < 2 {
                ctx.sample(json!({"history": hist.values().next().map(|h| h.iter().take(8).map(|e| format!("{:?} @[{},{}]", e.op, e.inv, e.resp)).collect::<Vec<_>>())}));
            }
            subs.lock().unwrap().clear();
            drop(srv);
            Ok(())
        })
    });
    // many register / unregister / subchannel() of one name at the very same time: exactly one wins
    let (rmin, rmax) = if ctx.quick() { (12, 60) } else { (200, 20000) };
    ctx.scenarios(2, "races", 2, rmin, rmax, 0.85, |ctx, i, mut r| {
        let rt = if i % 3 == 0 { Rt::Current } else { Rt::Multi(2) };
        with_rt(rt, move || async move {
            let cfg = Cfg { max_connections: r.range(1, 3) as u32, ..Default::default() };
            let (srv, addr) = server(&cfg).await?;
            let srv = Arc::new(srv);
            await_listening(addr).await?;
            let c = client(&cfg);
            let live = Arc::new(AtomicI64::new(0));
            let fin: Arc<Mutex<HashSet<u64>>> = Default::default();
            let n = r.range(2, 6);
            let threads = i % 3 == 1;
            let rounds = if ctx.quick() { 60 } else { 200 };
            for round in 0..rounds {
                let svc = format!("race{round}");
                let ep = ["", "e", "longer/endpoint"][r.below(3)];
                // each contender: get the subchannel, register; then all unregister
                let mut lists: Vec<Vec<(Arc<SubChannel>, bool, bool)>> = vec![];
                if threads {
                    // in parallel, without any runtime around
                    let go = Arc::new(AtomicUsize::new(0));
                    let hs: Vec<_> = (0..n)
                        .map(|k| {
                            let (srv, svc, go, live, fin) = (srv.clone(), svc.clone(), go.clone(), live.clone(), fin.clone());
                            std::thread::spawn(move || {
                                let meet = |phase: usize| {
                                    go.fetch_add(1, SeqCst);
                                    while go.load(SeqCst) < phase * n {
                                        std::hint::spin_loop();
                                        if go.load(SeqCst) < phase * n {
                                            std::thread::yield_now();
                                        }
                                    }
                                };
                                meet(1);
                                let ss = futures::executor::block_on(srv.subchannel(&svc)).ok();
                                meet(2);
                                live.fetch_add(1, SeqCst);
                                let h = Ident { id: k as u64 + 1, live: live.clone(), fin: fin.clone() };
                                let a = ss.as_ref().map(|s| futures::executor::block_on(s.register(ep, h)).is_ok());
                                (ss, a)
                            })
                        })
                        .collect();
                    let got = tokio::task::spawn_blocking(move || hs.into_iter().map(|h| h.join().ok()).collect::<Vec<_>>()).await.map_err(|e| Fail::Inconclusive(e.to_string()))?;
                    let mut l = vec![];
                    for g in got {
                        let Some((Some(s), Some(a))) = g else { return viol("subchannel() failed or panicked when called concurrently", json!({"panics": sut_panic_json()})) };
                        l.push((s, a, false));
                    }
                    lists.push(l);
                } else {
                    let mut hs = vec![];
                    for k in 0..n {
                        let (srv, svc, live, fin) = (srv.clone(), svc.clone(), live.clone(), fin.clone());
                        let (x, y) = (r.range(1, 5), r.range(1, 5));
                        hs.push(tokio::spawn(async move {
                            preempt_after(x).await;
                            let ss = sub(&srv, &svc).await?;
                            live.fetch_add(1, SeqCst);
                            let h = Ident { id: k as u64 + 1, live: live.clone(), fin: fin.clone() };
                            preempt_after(y).await;
                            let a = ss.register(ep, h).await.is_ok();
                            R::Ok((ss, a))
                        }));
                    }
                    let mut l = vec![];
                    for h in hs {
                        let (s, a) = match h.await {
                            Ok(x) => x?,
                            Err(_) => return viol("subchannel() or register() panicked when called concurrently", json!({"panics": sut_panic_json()})),
                        };
                        l.push((s, a, false));
                    }
                    lists.push(l);
                }
                let l = &mut lists[0];
                ensure!(l.iter().all(|x| Arc::ptr_eq(&x.0, &l[0].0)), "subchannel() returned different instances for one name", json!({"contenders": n, "on_threads": threads}));
                let won: Vec<u64> = l.iter().enumerate().filter(|x| x.1 .1).map(|x| x.0 as u64 + 1).collect();
                ensure!(won.len() == 1, "concurrent registrations under one endpoint were not accepted exactly once", json!({"accepted": won, "contenders": n, "on_threads": threads}));
                if r.chance(1, 4) {
                    let cs = sub(&c, &svc).await?;
                    let got = call(&cs, msg(ep, "", "x"), addr).await?;
                    let g = got.as_ref().ok().and_then(|m| m.header().parse::<u64>().ok());
                    ensure!(g == Some(won[0]), "a call was served by something else than the handler whose registration was accepted", json!({"registered": won[0], "served_by": g}));
                }
                // losers are dropped right away, the winner only after it was unregistered
                ensure!(live.load(SeqCst) == 1, "handlers whose registration was refused are still alive, or the registered one was dropped", json!({"alive": live.load(SeqCst)}));
                let mut hs = vec![];
                for (s, _, _) in l.iter() {
                    let (s, y) = (s.clone(), r.range(1, 5));
                    hs.push(tokio::spawn(async move {
                        preempt_after(y).await;
                        s.unregister(ep).await.is_ok()
                    }));
                }
                let mut ok = 0;
                for h in hs {
                    ok += h.await.unwrap_or(false) as usize;
                }
                ensure!(ok == 1, "concurrent unregistrations of one handler did not succeed exactly once", json!({"succeeded": ok, "contenders": n}));
                let gone = within(300, async {
                    while live.load(SeqCst) != 0 {
                        tokio::time::sleep(Duration::from_millis(1)).await;
                    }
                })
                .await
                .is_ok();
                ensure!(gone, "the handler is still alive after unregister()", json!({}));
                ctx.add("races_judged", 1);
                ctx.eval(&format!("race n{n} t{threads} w{} {}", won[0], i % 3), true);
            }
            Ok(())
        })
    });
    // registry operations and other calls while handlers run, also from inside a handler
    let (min, max) = if ctx.quick() { (20, 300) } else { (200, 20000) };
    ctx.scenarios(3, "while_running", 6, min, max, 0.93, |ctx, i, mut r| {
        let rt = Rt::pick(&mut r);
        with_rt(rt, move || async move {
            let cfg = Cfg { server_tasks: *r.pick(&[0, 16]), max_connections: r.range(1, 2) as u32, ..Default::default() };
            let (srv, addr) = server(&cfg).await?;
            let srv = Arc::new(srv);
            let ss = sub(&srv, "svc").await?;
            let gate = Arc::new(tokio::sync::Semaphore::new(0));
            let inside = Arc::new(AtomicUsize::new(0));
            let alive = Arc::new(());
            {
                let (gate, inside, alive) = (gate.clone(), inside.clone(), alive.clone());
                reg(&ss, "held", raw_async(move |m: RawMessage| {
                    let (gate, inside) = (gate.clone(), inside.clone());
                    let _a = &alive;
                    async move {
                        inside.fetch_add(1, SeqCst);
                        let _ = gate.acquire().await;
                        Ok(msg("old", m.header().clone(), m.body().clone()))
                    }
                })).await?;
            }
            // acts on the registry from within a handler
            let inner = Arc::downgrade(&srv);
            reg(&ss, "inner", raw_async(move |m: RawMessage| {
                let inner = inner.clone();
                async move {
                    let Some(srv) = inner.upgrade() else { return Ok(m) };
                    let name = m.header().clone();
                    let r = async {
                        let s = srv.subchannel("svc").await?;
                        s.register(&name, echo()).await?;
                        let t = srv.subchannel(format!("new-{name}")).await?;
                        t.register("x", echo()).await?;
                        s.unregister("absent").await.err();
                        t.unregister("x").await?;
                        Ok::<_, tchannel_rs::errors::TChannelError>(())
                    };
                    r.await.map_err(HandlerError::InternalError)?;
                    Ok(m)
                }
            })).await?;
            await_listening(addr).await?;
            let c = client(&cfg);
            let sc = sub(&c, "svc").await?;
            let nheld = r.range(1, 3);
            let mut running = vec![];
            for h in 0..nheld {
                let sc = sc.clone();
                running.push(tokio::spawn(async move { call(&sc, msg("held", format!("{h}"), "x"), addr).await }));
            }
            let ok = within(HANG, async {
                while inside.load(SeqCst) == 0 {
                    tokio::time::sleep(Duration::from_millis(1)).await;
                }
                // the other calls to it have got in line
                tokio::time::sleep(Duration::from_millis(20)).await;
            })
            .await
            .is_ok();
            ensure!(ok, "handler was never entered", json!({}));
            let busy = |what: &str| Fail::Violation(format!("{what} did not return while a handler was running"), json!({"config": cfg.sig()}));
            let c2 = client(&cfg);
            let sc2 = sub(&c2, "svc").await?;
            let mut replaced = false;
            let mut unregistered = false;
            for k in 0..8 {
                let name = format!("n{k}");
                match if k == 7 { 5 } else { r.below(6) } {
                    0 => {
                        let ok = within(HANG, ss.register("held", echo())).await.map_err(|_| busy("register()"))?.is_ok();
                        ensure!(ok == (unregistered && !replaced), "register() outcome contradicts what is registered", json!({"accepted": ok}));
                        replaced |= ok;
                    }
                    1 => {
                        within(HANG, ss.register(&name, echo())).await.map_err(|_| busy("register()"))?.map_err(|e| Fail::Violation(format!("register() failed: {e}"), json!({})))?;
                        let m = msg(name.clone(), "", "y");
                        match call_beats(if r.chance(1, 2) { &sc } else { &sc2 }, m.clone(), addr, HANG).await? {
                            Ok(g) => ensure!(same(&g, &m), "wrong answer", diff(&m, &g)),
                            Err(e) => return viol("a call to an endpoint registered while a handler runs failed", json!({"error": e.to_string()})),
                        }
                        if r.chance(1, 2) {
                            within(HANG, ss.unregister(&name)).await.map_err(|_| busy("unregister()"))?.map_err(|e| Fail::Violation(format!("unregister() failed: {e}"), json!({})))?;
                            let got = call_beats(&sc2, m, addr, HANG).await?;
                            ensure!(got.is_err(), "a call to an unregistered endpoint was answered", json!({}));
                        }
                    }
                    2 => {
                        let s = within(HANG, srv.subchannel(&name)).await.map_err(|_| busy("subchannel()"))?.map_err(|e| Fail::Violation(format!("subchannel() failed: {e}"), json!({})))?;
                        within(HANG, s.register("e", echo())).await.map_err(|_| busy("register()"))?.map_err(|e| Fail::Violation(format!("register() failed: {e}"), json!({})))?;
                        let x = sub(&c2, &name).await?;
                        let m = msg("e", "", "z");
                        match call_beats(&x, m.clone(), addr, HANG).await? {
                            Ok(g) => ensure!(same(&g, &m), "wrong answer", diff(&m, &g)),
                            Err(e) => return viol("a call to a service created while a handler runs failed", json!({"error": e.to_string()})),
                        }
                    }
                    3 if !replaced => {
                        let ok = within(HANG, ss.unregister("held")).await.map_err(|_| busy("unregister()"))?.is_ok();
                        ensure!(ok != unregistered, "unregister() outcome contradicts what is registered", json!({"succeeded": ok}));
                        unregistered = true;
                    }
                    4 if replaced => {
                        let m = msg("held", "new", "z");
                        match call_beats(&sc2, m.clone(), addr, HANG).await? {
                            Ok(g) => ensure!(same(&g, &m), "a call was served by a handler that had been unregistered before", diff(&m, &g)),
                            Err(e) => return viol("a call to a handler registered in place of a running one failed", json!({"error": e.to_string()})),
                        }
                    }
                    _ => {
                        let m = msg("inner", name.clone(), "z");
                        match call_beats(&sc2, m.clone(), addr, HANG).await? {
                            Ok(g) => ensure!(same(&g, &m), "wrong answer", diff(&m, &g)),
                            Err(e) => return viol("a handler could not register and unregister others", json!({"error": e.to_string()})),
                        }
                        let m = msg(name.clone(), "by handler", "z");
                        match call_beats(&sc, m.clone(), addr, HANG).await? {
                            Ok(g) => ensure!(same(&g, &m), "wrong answer", diff(&m, &g)),
                            Err(e) => return viol("a call to an endpoint that a handler registered failed", json!({"error": e.to_string()})),
                        }
                    }
                }
                ctx.add("registry_steps_while_running", 1);
            }
            ensure!(Arc::strong_count(&alive) > 1, "a handler was dropped while it was running", json!({}));
            gate.add_permits(100);
            let mut old = 0;
            for t in running {
                // those that were not in line yet may have found the endpoint unregistered
                match t.await.map_err(|e| Fail::Inconclusive(e.to_string()))?? {
                    Ok(g) if g.endpoint() == "old" => {
                        ensure!(g.body().as_ref() == b"x", "wrong answer of a handler that ran while the registry changed", brief(&g));
                        old += 1;
                    }
                    Ok(g) => ensure!(replaced && g.endpoint() == "held" && g.body().as_ref() == b"x", "a running call was answered by something else than its handler", brief(&g)),
                    Err(e) => ensure!(unregistered, "a running call failed although only the registry changed", json!({"error": e.to_string()})),
                }
            }
            ensure!(old >= inside.load(SeqCst) && old > 0, "a handler that ran while the registry changed did not get its answer to the caller", json!({"entered": inside.load(SeqCst), "answered": old}));
            if unregistered {
                let gone = within(300, async {
                    while Arc::strong_count(&alive) > 1 {
                        tokio::time::sleep(Duration::from_millis(1)).await;
                    }
                })
                .await
                .is_ok();
                ensure!(gone, "a handler unregistered while it ran is still alive after it has finished", json!({}));
                ctx.add("handlers_unregistered_while_running", 1);
            } else {
                ensure!(Arc::strong_count(&alive) > 1, "a registered handler was dropped", json!({}));
            }
            ctx.eval(&format!("running {i} {nheld} {replaced} {unregistered} {rt:?}"), true);
            Ok(())
        })
    });
    // registry operations on one name leave all others alone, however much the names look alike
    let (min, max) = if ctx.quick() { (8, 60) } else { (60, 6000) };
    ctx.scenarios(4, "neighbours", 4, min, max, 0.95, |ctx, i, mut r| {
        let rt = Rt::pick(&mut r);
        with_rt(rt, move || async move {
            let cfg = Cfg::random(&mut r);
            let (srv, addr) = server(&cfg).await?;
            let stem = r.pick(&["get", "User", "a", "Svc::get", "x/y", ""]).to_string();
            let mut names = vec![stem.clone()];
            for sep in ["::", "/", ".", ":", "_", "-", " ", "#", "?", "*", "\0", "\n", "\u{e9}"] {
                names.push(format!("{stem}{sep}"));
                names.push(format!("{stem}{sep}put"));
                names.push(format!("{sep}{stem}"));
                names.push(format!("put{sep}{stem}"));
                names.push(format!("{stem}{sep}put{sep}x"));
            }
            names.extend([stem.to_uppercase(), stem.to_lowercase(), format!("{stem}{stem}"), format!("{stem}2"), format!("{stem}\u{301}"), stem.chars().rev().collect(), "*".into(), "default".into()]);
            names.sort();
            names.dedup();
            // every name is a number, which its handler answers with
            let svcs = [stem.clone(), format!("{stem}::put")];
            let c = client(&cfg);
            let mut subs = vec![];
            for s in &svcs {
                subs.push((sub(&srv, s).await?, sub(&c, s).await?));
            }
            await_listening(addr).await?;
            let mut state: Vec<Vec<Option<u32>>> = vec![vec![None; names.len()]; svcs.len()];
            let mut next = 0;
            let answer = |v: u32| raw_sync(move |m: RawMessage| Ok(msg(m.endpoint().clone(), format!("{v}"), "")));
            for (k, name) in names.iter().enumerate() {
                for (s, (ss, _)) in subs.iter().enumerate() {
                    if r.chance(4, 5) {
                        next += 1;
                        ss.register(name, answer(next)).await.map_err(|e| Fail::Violation(format!("registering a free name failed: {e}"), json!({"name": name})))?;
                        state[s][k] = Some(next);
                    }
                }
            }
            for round in 0..6 {
                let (s, k) = (r.below(svcs.len()), r.below(names.len()));
                let k = if r.chance(1, 2) { names.iter().position(|n| *n == stem).unwrap_or(k) } else { k };
                let (op, ok) = if state[s][k].is_some() && r.chance(3, 4) {
                    let ok = subs[s].0.unregister(&names[k]).await.is_ok();
                    state[s][k] = None;
                    ("unregister", ok)
                } else if state[s][k].is_some() {
                    let ok = subs[s].0.register(&names[k], answer(0)).await.is_err();
                    ("register taken", ok)
                } else if r.chance(3, 4) {
                    next += 1;
                    let ok = subs[s].0.register(&names[k], answer(next)).await.is_ok();
                    state[s][k] = Some(next);
                    ("register", ok)
                } else {
                    ("unregister missing", subs[s].0.unregister(&names[k]).await.is_err())
                };
                ensure!(ok, "a registry operation had the wrong outcome", json!({"operation": op, "service": svcs[s], "name": names[k]}));
                for (s2, (_, sc)) in subs.iter().enumerate() {
                    for (k2, name) in names.iter().enumerate() {
                        let got = call(sc, msg(name.clone(), "", "x"), addr).await?.ok().map(|m| m.header().clone());
                        ensure!(got == state[s2][k2].map(|v| v.to_string()), "after an operation on one name, a call to another one ended differently", json!({"operation": op, "service": svcs[s], "name": names[k], "called_service": svcs[s2], "called": name, "registered": state[s2][k2], "answered_by": got}));
                    }
                }
                ctx.add("neighbours_looked_at", (names.len() * svcs.len()) as u64);
                ctx.eval(&format!("neighbours {i} {round} {op} {}", names[k]), true);
            }
            Ok(())
        })
    });
    // the server serves what is registered later, under names created on either side, and both roles share one channel
    let (min, max) = if ctx.quick() { (20, 600) } else { (200, 20000) };
    ctx.scenarios(1, "late", 6, min, max, 1.0, |ctx, _i, mut r| {
        let rt = Rt::pick(&mut r);
        with_rt(rt, move || async move {
            let cfg = Cfg::random(&mut r);
            let (srv, addr) = server(&cfg).await?;
            await_listening(addr).await?;
            let c = client(&cfg);
            let mut model: HashMap<(String, String), u64> = HashMap::new();
            let live = Arc::new(AtomicI64::new(0));
            let fin: Arc<Mutex<HashSet<u64>>> = Default::default();
            let mut id = 0;
            for step in 0..40 {
                let s = format!("svc{}", r.below(3));
                let e = r.pick(&["", "x", "X", "longer-endpoint"]).to_string();
                let key = (s.clone(), e.clone());
                let have = model.get(&key).copied();
                match r.below(4) {
                    0 => {
                        id += 1;
                        live.fetch_add(1, SeqCst);
                        let ok = sub(&srv, &s).await?.register(&e, Ident { id, live: live.clone(), fin: fin.clone() }).await.is_ok();
                        ensure!(ok == have.is_none(), "register() outcome contradicts what is registered", json!({"registered": have.is_some(), "accepted": ok}));
                        if ok {
                            model.insert(key, id);
                        }
                    }
                    1 => {
                        let ok = sub(&srv, &s).await?.unregister(&e).await.is_ok();
                        ensure!(ok == have.is_some(), "unregister() outcome contradicts what is registered", json!({"registered": have.is_some(), "accepted": ok}));
                        if ok {
                            model.remove(&key);
                            let dropped = within(300, async {
                                while !fin.lock().unwrap().contains(&have.unwrap()) {
                                    tokio::time::sleep(Duration::from_millis(1)).await;
                                }
                            })
                            .await
                            .is_ok();
                            ensure!(dropped, "the handler is still alive after unregister()", json!({}));
                        }
                    }
                    _ => {
                        let got = call(&*sub(&c, &s).await?, msg(e.clone(), "", ""), addr).await?;
                        let g = got.as_ref().ok().and_then(|m| m.header().parse::<u64>().ok());
                        ensure!(g == have, "a call was served by something else than the currently registered handler", json!({"service": s, "endpoint": e, "registered": have, "served_by": g, "step": step}));
                    }
                }
                ctx.eval(&format!("late {step} {have:?} {e}"), true);
            }
            ctx.add("sequential_registry_steps", 40);
            Ok(())
        })
    });
    ctx.finish(
        "Concurrent register/unregister/call/subchannel() on two services x two endpoints; per endpoint the recorded invocation/response history is checked for linearizability (Wing-Gong-Lowe) against a register of Option<handler>; instances returned for one name must be identical; dropped handlers are counted. Plus long sequential programs compared with a map; operations while a handler runs (also for hours on a hand-driven clock) and on names that differ by a byte, a case or a suffix, which must not touch each other. Non-trivial: history with overlapping operations; distinct by outcome sequence.",
        &[],
        60,
    )
}
