//! The same properties over hours: scenarios on a runtime whose clock is moved on by hand (`pass_hours`),
//! so that every timer of the code under test, of whatever length, gets its chance to do harm.
use crate::core::*;
use crate::ensure;
use crate::p_conc::must_ok;
use crate::net::*;
use crate::sut::*;
use crate::wire::*;
use serde_json::json;
use std::net::SocketAddr;
use std::sync::atomic::Ordering::*;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tchannel_rs::errors::HandlerError;
use tchannel_rs::handler::HandlerResult;
use tchannel_rs::messages::{MessageChannel, RawMessage};
use tchannel_rs::{SubChannel, TChannel};
use tokio::sync::Semaphore;

struct Held {
    srv: TChannel,
    addr: SocketAddr,
    gate: Arc<Semaphore>,
    log: Arc<ExecLog>,
    /// executions that overlapped another one of the same endpoint
    overlaps: Arc<Mutex<Vec<String>>>,
    /// headers in the order in which their handlers began
    begun: Arc<Mutex<Vec<String>>>,
}
/// Endpoints h0, h1, .. whose handlers wait for a permit of `gate`; what they return is up to arg2.
async fn held_server(cfg: &Cfg, n: usize) -> R<Held> {
    let (srv, addr) = server(cfg).await?;
    let ss = sub(&srv, "svc").await?;
    let gate = Arc::new(Semaphore::new(0));
    let log = Arc::new(ExecLog::default());
    let overlaps: Arc<Mutex<Vec<String>>> = Default::default();
    let begun: Arc<Mutex<Vec<String>>> = Default::default();
    for k in 0..n {
        let (g, l, o, b) = (gate.clone(), log.clone(), overlaps.clone(), begun.clone());
        let here = Arc::new(std::sync::atomic::AtomicUsize::new(0));
        let name = format!("h{k}");
        let ep = name.clone();
        reg(&ss, &name, raw_async(move |m: RawMessage| {
            let (g, l, o, b, here, ep) = (g.clone(), l.clone(), o.clone(), b.clone(), here.clone(), ep.clone());
            async move {
                let t = l.enter();
                b.lock().unwrap().push(m.header().clone());
                if here.fetch_add(1, SeqCst) != 0 {
                    o.lock().unwrap().push(m.header().clone());
                }
                if let Ok(p) = g.acquire().await {
                    p.forget();
                }
                here.fetch_sub(1, SeqCst);
                l.exit("svc", &ep, &m, t);
                match m.header().split('/').next() {
                    Some("error") => Err(HandlerError::MessageError(m)),
                    Some("general") => Err(HandlerError::GeneralError(format!("failed {}", m.header()))),
                    _ => Ok(m),
                }
            }
        })).await?;
    }
    reg_sync(&ss, "echo", echo()).await?;
    await_listening(addr).await?;
    Ok(Held { srv, addr, gate, log, overlaps, begun })
}
impl Held {
    async fn inside(&self, n: usize) -> R<()> {
        within(HANG, async {
            while self.log.inside.load(SeqCst) < n {
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
        })
        .await
        .map_err(|_| Fail::Violation("handlers were never entered (bounded-progress monitor)".into(), json!({"wanted": n, "entered": self.log.inside.load(SeqCst)})))
    }
}
type Call = tokio::task::JoinHandle<HandlerResult<RawMessage>>;
/// A call without any time limit of its own.
fn spawn_call(sc: &Arc<SubChannel>, m: RawMessage, to: SocketAddr) -> Call {
    let sc = sc.clone();
    tokio::spawn(async move { MessageChannel::<RawMessage, RawMessage>::send(&*sc, m, to).await })
}
async fn outcome(c: Call, what: &str) -> R<HandlerResult<RawMessage>> {
    within(HANG, c).await.map_err(|_| Fail::Violation(format!("{what} never completed (bounded-progress monitor)"), json!({})))?.map_err(|_| Fail::Violation("a calling task panicked".into(), sut_panic_json()))
}
fn hours(r: &mut Rng) -> u64 {
    *r.pick(&[600, 3600, 2 * 3600])
}
fn group(ctx: &Arc<Ctx>, f: impl Fn(Arc<Ctx>, u64, Rng) -> futures::future::BoxFuture<'static, R<()>> + Send + Sync + Copy + 'static) {
    let (min, max) = if ctx.quick() { (3, 3) } else { (12, 200) };
    ctx.scenarios(20, "hours_pass", 3, min, max, 0.1, move |ctx, i, r| {
        with_rt(Rt::Current, move || async move {
            f(ctx.clone(), i, r).await?;
            ctx.add("scenarios_with_hours_passed", 1);
            Ok(())
        })
    });
}

/// C02 and C03: answers that come after hours reach their own callers; nothing runs twice meanwhile.
pub fn answers(ctx: &Arc<Ctx>) {
    group(ctx, |ctx, i, mut r| Box::pin(async move {
        let cfg = Cfg { server_tasks: *r.pick(&[0, 40]), max_connections: r.range(1, 3) as u32, lifetime: None, ..Cfg::default() };
        let h = held_server(&cfg, 8).await?;
        let p = Proxy::start(h.addr, ProxyPolicy { lean: true, ..Default::default() }, r.fork()).await?;
        let c = client(&cfg);
        let sc = sub(&c, "svc").await?;
        let mut calls = vec![];
        for k in 0..8 {
            let n = *r.pick(&[0, 10, 70_000]);
            let m = msg(format!("h{k}"), format!("{}/{k}", ["ok", "error", "general"][r.below(3)]), r.bytes(n));
            calls.push((m.clone(), spawn_call(&sc, m, p.addr)));
        }
        h.inside(8).await?;
        for round in 0..2 {
            pass_hours(hours(&mut r)).await;
            for k in 0..5 {
                let m = msg("echo", format!("{round}.{k}"), r.bytes(20));
                let g = must_ok(&sc, m.clone(), p.addr, "a call next to calls pending for hours").await?;
                ensure!(same(&m, &g), "a caller received a response that is not the response to its own request", diff(&m, &g));
            }
        }
        ensure!(h.log.inside.load(SeqCst) == 8 && h.log.count() == 0, "a request was executed again while its call was pending", json!({"inside": h.log.inside.load(SeqCst)}));
        let lost = i % 3 == 2;
        if lost {
            // lost connections do not make them run again either
            p.kill_all();
        } else {
            h.gate.add_permits(8);
        }
        for (m, call) in calls {
            let got = outcome(call, "a call that was pending for hours").await?;
            if lost {
                ensure!(got.is_err(), "a call whose connection was lost was answered", json!({}));
                continue;
            }
            match (m.header().split('/').next(), got) {
                (Some("ok"), Ok(g)) | (Some("error"), Err(HandlerError::MessageError(g))) => ensure!(same(&m, &g), "a caller received a response that is not the response to its own request", diff(&m, &g)),
                (Some("general"), Err(HandlerError::InternalError(e))) => ensure!(e.to_string().contains(&format!("failed {}", m.header())), "a caller received a response that is not the response to its own request", json!({"sent": m.header(), "got": e.to_string()})),
                (_, got) => return viol("a call that was answered after hours had another outcome than its handler's", json!({"sent": m.header(), "got": format!("{got:?}").chars().take(200).collect::<String>()})),
            }
            ctx.add("late_answers_matched", 1);
        }
        // connections whose loss was not noticed yet may fail a call each
        for failed in 0.. {
            match call(&sc, msg("echo", "", ""), p.addr).await? {
                Ok(_) => break,
                Err(e) => ensure!(lost && failed <= cfg.max_connections, "a call to a healthy server failed", json!({"error": e.to_string()})),
            }
        }
        h.gate.add_permits(100);
        tokio::time::sleep(Duration::from_millis(50)).await;
        let runs: Vec<String> = h.begun.lock().unwrap().clone();
        ensure!(runs.len() == 8, "requests were executed more than once", json!({"executions": runs}));
        ctx.eval(&format!("late {i} {} {lost}", cfg.sig()), true);
        p.stop();
        Ok(())
    }))
}

/// C05: what is registered stays registered, and is released when it is not.
pub fn registry(ctx: &Arc<Ctx>) {
    group(ctx, |ctx, i, mut r| Box::pin(async move {
        let cfg = Cfg { server_tasks: 0, lifetime: None, ..Cfg::default() };
        let h = held_server(&cfg, 2).await?;
        let ss = sub(&h.srv, "svc").await?;
        let c = client(&cfg);
        let sc = sub(&c, "svc").await?;
        let (w, call) = (msg("h0", "ok/0", "x"), spawn_call(&sc, msg("h0", "ok/0", "x"), h.addr));
        h.inside(1).await?;
        for round in 0..2 {
            pass_hours(hours(&mut r)).await;
            must_ok(&sc, msg("echo", "", ""), h.addr, "a call to a handler registered hours ago").await?;
            ensure!(ss.register("echo", echo()).await.is_err(), "registering an endpoint taken hours ago succeeded", json!({}));
            let same_sub = Arc::ptr_eq(&ss, &sub(&h.srv, "svc").await?);
            ensure!(same_sub, "a lookup hours later gave another subchannel", json!({}));
            let name = format!("n{round}");
            reg_sync(&ss, &name, echo()).await?;
            must_ok(&sc, msg(name.clone(), "", ""), h.addr, "a call to a handler registered just now").await?;
            ss.unregister(&name).await.map_err(|e| Fail::Violation(format!("unregister() failed: {e}"), json!({})))?;
            ensure!(call_beats(&sc, msg(name, "", ""), h.addr, HANG).await?.is_err(), "a call to an unregistered endpoint was answered", json!({}));
        }
        // unregistered while running for hours: that run still gets its answer out
        let un = i % 2 == 0;
        if un {
            ss.unregister("h0").await.map_err(|e| Fail::Violation(format!("unregister() failed: {e}"), json!({})))?;
            pass_hours(hours(&mut r)).await;
            ensure!(call_beats(&sc, msg("h0", "ok/1", ""), h.addr, HANG).await?.is_err(), "a call to an unregistered endpoint was answered", json!({}));
        }
        h.gate.add_permits(10);
        match outcome(call, "a call whose handler ran for hours").await? {
            Ok(g) => ensure!(same(&w, &g), "wrong answer", diff(&w, &g)),
            Err(e) => return viol("a call whose handler ran for hours failed", json!({"error": e.to_string(), "unregistered": un})),
        }
        ctx.eval(&format!("registry {i} {un}"), true);
        Ok(())
    }))
}

/// C06: the outcome of a call is its handler's, also hours later.
pub fn outcomes(ctx: &Arc<Ctx>) {
    group(ctx, |ctx, i, mut r| Box::pin(async move {
        let cfg = Cfg { server_tasks: *r.pick(&[0, 3]), lifetime: None, ..Cfg::default() };
        let h = held_server(&cfg, 9).await?;
        let c = client(&cfg);
        let sc = sub(&c, "svc").await?;
        let calls: Vec<_> = (0..9).map(|k| {
            let m = msg(format!("h{k}"), format!("{}/{k}", ["ok", "error", "general"][k % 3]), r.bytes(30));
            (m.clone(), spawn_call(&sc, m, h.addr))
        }).collect();
        h.inside(3).await?;
        pass_hours(hours(&mut r)).await;
        h.gate.add_permits(3);
        pass_hours(hours(&mut r)).await;
        h.gate.add_permits(30);
        for (m, call) in calls {
            let got = outcome(call, "a call whose handler took hours").await?;
            let right = match (m.header().split('/').next(), &got) {
                (Some("ok"), Ok(g)) | (Some("error"), Err(HandlerError::MessageError(g))) => same(&m, g),
                (Some("general"), Err(HandlerError::InternalError(e))) => e.to_string().contains(&format!("failed {}", m.header())),
                _ => false,
            };
            ensure!(right, "the caller got another outcome than its handler returned hours later", json!({"handler": m.header(), "caller_got": format!("{got:?}").chars().take(300).collect::<String>()}));
            ctx.add("late_outcomes_judged", 1);
        }
        ctx.eval(&format!("outcomes {i} {}", cfg.sig()), true);
        Ok(())
    }))
}

/// C07: requests that fail next to requests that take hours, and requests that fail after hours.
pub fn failures(ctx: &Arc<Ctx>) {
    group(ctx, |ctx, i, mut r| Box::pin(async move {
        let cfg = Cfg { server_tasks: 0, lifetime: None, ..Cfg::default() };
        let h = held_server(&cfg, 4).await?;
        let (mut rd, mut w) = fake_client(h.addr).await?;
        let broken = |e: String| Fail::Violation("server closed a connection because of failing requests".into(), json!({"error": e}));
        let one = |id: u32, svc: &str, ep: &str, arg2: &str| req_frames(id, &ReqMeta::raw(svc), &[vec![ep.as_bytes().to_vec(), arg2.as_bytes().to_vec(), b"x".to_vec()]]).remove(0);
        for k in 0..4u32 {
            w.frame(&one(10 + k, "svc", &format!("h{k}"), ["ok/0", "general/1", "ok/2", "general/3"][k as usize])).await.map_err(|e| broken(e.to_string()))?;
        }
        // a request that turns out to be bad hours later
        w.frame(&Frame::new(CALL_REQ, 20, enc_call_req(MORE, &ReqMeta::raw("svc"), &[b"echo".to_vec()]))).await.map_err(|e| broken(e.to_string()))?;
        h.inside(4).await?;
        let mut bad = 100;
        for _ in 0..3 {
            for (svc, ep) in [("none", "echo"), ("svc", "none")] {
                bad += 1;
                w.frame(&one(bad, svc, ep, "")).await.map_err(|e| broken(e.to_string()))?;
                let f = within(HANG, rd.expect()).await.map_err(|_| Fail::Violation("a failing request was never answered".into(), json!({})))?.map_err(|_| broken("closed".into()))?;
                ensure!(f.ftype == ERROR && f.id == bad, "a failing request was not answered with one error", json!({"type": f.ftype, "id": f.id}));
            }
            pass_hours(hours(&mut r)).await;
        }
        w.frame(&Frame::new(CALL_REQ_CONT, 20, vec![0, 9, 1, 2, 3, 4, 0, 0])).await.map_err(|e| broken(e.to_string()))?;
        let f = within(HANG, rd.expect()).await.map_err(|_| Fail::Violation("a failing request was never answered".into(), json!({})))?.map_err(|_| broken("closed".into()))?;
        ensure!(f.ftype == ERROR && f.id == 20, "a failing request was not answered with one error", json!({"type": f.ftype, "id": f.id}));
        h.gate.add_permits(10);
        let mut left = vec![10u32, 11, 12, 13];
        while !left.is_empty() {
            let f = within(HANG, rd.expect()).await.map_err(|_| Fail::Violation("a request next to failing ones was never answered".into(), json!({"unanswered": left})))?.map_err(|_| broken("closed".into()))?;
            ensure!(left.contains(&f.id), "a request was answered twice", json!({"id": f.id}));
            ensure!(f.ftype == if f.id % 2 == 0 { CALL_RES } else { ERROR }, "a request that took hours next to failing ones got a wrong answer", json!({"id": f.id, "type": f.ftype}));
            left.retain(|x| *x != f.id);
        }
        ctx.eval(&format!("failures {i} {bad}"), true);
        Ok(())
    }))
}

/// C15: neither the order of one endpoint's executions nor the limit of a connection wears off.
pub fn limits(ctx: &Arc<Ctx>) {
    group(ctx, |ctx, i, mut r| Box::pin(async move {
        let k = r.range(1, 4);
        let cfg = Cfg { server_tasks: k, lifetime: None, ..Cfg::default() };
        let h = held_server(&cfg, 6).await?;
        let c = client(&cfg);
        let sc = sub(&c, "svc").await?;
        let n = 18usize;
        let mut calls = vec![];
        for q in 0..n {
            calls.push(spawn_call(&sc, msg(format!("h{}", q % 6), format!("ok/{q}"), "x"), h.addr));
        }
        h.inside(1).await?;
        let mut left = n;
        while left > 0 {
            pass_hours(*r.pick(&[60, 600, 2000])).await;
            let max = h.log.max_inside.load(SeqCst);
            ensure!(max <= k, "more handlers ran at once for one connection than server_tasks allows", json!({"server_tasks": k, "observed": max}));
            ensure!(h.overlaps.lock().unwrap().is_empty(), "two executions of one handler overlapped in time", json!({"overlapping": *h.overlaps.lock().unwrap()}));
            let some = r.range(1, 6).min(left);
            h.gate.add_permits(some);
            left -= some;
            let done = n - left;
            within(HANG, async {
                while h.log.count() < done || h.log.inside.load(SeqCst) < k.min(left).min(1) {
                    tokio::time::sleep(Duration::from_millis(1)).await;
                }
            })
            .await
            .map_err(|_| Fail::Violation("waiting requests did not run when others had finished (bounded-progress monitor)".into(), json!({"server_tasks": k, "finished": h.log.count(), "wanted": done})))?;
        }
        for call in calls {
            outcome(call, "a call that waited for its turn for hours").await?.map_err(|e| Fail::Violation("a call that waited for its turn for hours failed".into(), json!({"error": e.to_string()})))?;
        }
        ensure!(h.overlaps.lock().unwrap().is_empty(), "two executions of one handler overlapped in time", json!({}));
        ctx.eval(&format!("limits {i} {k} {}", h.log.max_inside.load(SeqCst)), true);
        Ok(())
    }))
}

/// C17: an idle connection whose lifetime is unlimited is still there hours later.
pub fn reuse(ctx: &Arc<Ctx>) {
    group(ctx, |ctx, i, mut r| Box::pin(async move {
        let cfg = Cfg { lifetime: None, max_connections: r.range(1, 3) as u32, test_connection: r.chance(1, 3), ..Cfg::default() };
        let h = held_server(&cfg, 1).await?;
        let p = Proxy::start(h.addr, ProxyPolicy { lean: true, ..Default::default() }, r.fork()).await?;
        let c = client(&cfg);
        let sc = sub(&c, "svc").await?;
        must_ok(&sc, msg("echo", "", ""), p.addr, "first call").await?;
        // a call may find every connection in use and open another one, calls one after another may not
        let before = p.conns.load(SeqCst);
        for _ in 0..3 {
            // less than 10 minutes: what the pool may close on its own account
            pass_hours(*r.pick(&[60, 200, 500])).await;
            must_ok(&sc, msg("echo", "", ""), p.addr, "call after a pause").await?;
        }
        let ever = p.conns.load(SeqCst);
        ensure!(ever <= cfg.max_connections as u64, "connections are not reused: more were opened than max_connections although none failed or expired", json!({"opened_before": before, "opened": ever, "max_connections": cfg.max_connections}));
        ctx.eval(&format!("reuse {i} {}", cfg.sig()), true);
        p.stop();
        Ok(())
    }))
}

/// C19: calls cancelled after hours, and calls beside them.
pub fn cancelled(ctx: &Arc<Ctx>) {
    group(ctx, |ctx, i, mut r| Box::pin(async move {
        let cfg = Cfg { server_tasks: 0, max_connections: r.range(1, 2) as u32, lifetime: None, ..Cfg::default() };
        let h = held_server(&cfg, 8).await?;
        let c = client(&cfg);
        let sc = sub(&c, "svc").await?;
        let mut calls = vec![];
        for k in 0..8 {
            let n = *r.pick(&[0, 10, 70_000]);
            let m = msg(format!("h{k}"), format!("ok/{k}"), r.bytes(n));
            calls.push((m.clone(), spawn_call(&sc, m, h.addr)));
        }
        h.inside(8).await?;
        pass_hours(hours(&mut r)).await;
        let mut kept = vec![];
        for (m, call) in calls {
            if r.chance(1, 2) {
                call.abort();
                let _ = call.await;
                ctx.add("cancelled_after_hours", 1);
            } else {
                kept.push((m, call));
            }
        }
        pass_hours(600).await;
        let m = msg("echo", "x", r.bytes(80_000));
        let g = must_ok(&sc, m.clone(), h.addr, "a call after others were cancelled").await?;
        ensure!(same(&m, &g), "wrong answer after others were cancelled", diff(&m, &g));
        h.gate.add_permits(100);
        for (m, call) in kept {
            match outcome(call, "a call beside cancelled ones").await? {
                Ok(g) => ensure!(same(&m, &g), "wrong answer beside cancelled calls", diff(&m, &g)),
                Err(e) => return viol("a call failed because others were cancelled", json!({"error": e.to_string()})),
            }
        }
        pass_hours(600).await;
        for k in 0..5 {
            let m = msg("echo", format!("{k}"), r.bytes(10));
            let g = must_ok(&sc, m.clone(), h.addr, "a call after late answers to cancelled ones").await?;
            ensure!(same(&m, &g), "wrong answer after late answers to cancelled calls", diff(&m, &g));
        }
        ctx.eval(&format!("cancelled {i} {}", cfg.sig()), true);
        Ok(())
    }))
}

/// C20: a started server stays started, a stopped one stopped.
pub fn lifecycle(ctx: &Arc<Ctx>) {
    group(ctx, |ctx, i, mut r| Box::pin(async move {
        let cfg = Cfg { lifetime: None, ..Cfg::default() };
        let h = held_server(&cfg, 1).await?;
        let ask = |what: &'static str| {
            let (cfg, addr) = (cfg.clone(), h.addr);
            async move {
                let c = client(&cfg);
                let sc = sub(&c, "svc").await?;
                must_ok(&sc, msg("echo", "", ""), addr, what).await.map(|_| ())
            }
        };
        let fail = |what: &str, e: String| Fail::Violation(format!("{what} failed: {e}"), json!({"scenario": i}));
        ask("call to a server just started").await?;
        for _ in 0..2 {
            pass_hours(hours(&mut r)).await;
            ask("call to a server started hours ago").await?;
            ensure!(h.srv.start_server().is_err(), "a server started hours ago could be started again", json!({}));
            h.srv.shutdown_server().map_err(|e| fail("shutdown_server", e.to_string()))?;
            let freed = |addr| within(HANG, async move {
                while !can_bind(addr) {
                    tokio::time::sleep(Duration::from_millis(2)).await;
                }
            });
            freed(h.addr).await.map_err(|_| Fail::Violation("the address of a stopped server is not free".into(), json!({})))?;
            pass_hours(hours(&mut r)).await;
            ensure!(can_bind(h.addr), "the address of a server stopped hours ago is not free", json!({}));
            h.srv.start_server().map_err(|e| fail("start_server", e.to_string()))?;
            await_listening(h.addr).await?;
            ask("call to a restarted server").await?;
        }
        ctx.eval(&format!("lifecycle {i}"), true);
        Ok(())
    }))
}

/// C21: pings are answered hours after anything else happened, and beside handlers that take hours.
pub fn pings(ctx: &Arc<Ctx>) {
    group(ctx, |ctx, i, mut r| Box::pin(async move {
        let cfg = Cfg { server_tasks: r.range(1, 2), lifetime: None, ..Cfg::default() };
        let h = held_server(&cfg, 3).await?;
        let (mut rd, mut w) = fake_client(h.addr).await?;
        let busy = r.below(4) as u32;
        for k in 0..busy.min(3) {
            let f = req_frames(10 + k, &ReqMeta::raw("svc"), &[vec![format!("h{k}").into_bytes(), b"ok".to_vec(), vec![]]]).remove(0);
            w.frame(&f).await.map_err(|e| Fail::Inconclusive(e.to_string()))?;
        }
        for round in 0..4u32 {
            for k in 0..3 {
                let id = 1000 * (round + 1) + k;
                let gone = || Fail::Violation("server closed a connection that was only pinged".into(), json!({"round": round}));
                w.frame(&Frame::new(PING_REQ, id, vec![])).await.map_err(|_| gone())?;
                let f = within(HANG, rd.expect()).await.map_err(|_| Fail::Violation("ping was not answered (bounded-progress monitor)".into(), json!({"round": round})))?.map_err(|_| gone())?;
                ensure!(f.ftype == PING_RES && f.id == id, "unexpected frame in answer to pings", json!({"type": f.ftype, "id": f.id}));
                ctx.add("pings_answered", 1);
            }
            pass_hours(hours(&mut r)).await;
        }
        h.gate.add_permits(10);
        ctx.eval(&format!("pings {i} {busy}"), true);
        Ok(())
    }))
}
