//! C10 wire conformance, C11 fragmentation, C12/C13 hostile peers, C14 handshake gating.
use crate::core::*;
use crate::ensure;
use crate::net::*;
use crate::p_conc::{join_all, must_ok};
use crate::sut::*;
use crate::wire::*;
use serde_json::{json, Map, Value};
use std::collections::{HashMap, HashSet};
use std::net::SocketAddr;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tchannel_rs::errors::{CodecError, HandlerError, TChannelError};
use tchannel_rs::handler::HandlerResult;
use tchannel_rs::messages::{JsonMessage, JsonMessageBuilder, MessageChannel, RawMessage};

fn lens(m: &RawMessage) -> [usize; 3] {
    [m.endpoint().len(), m.header().len(), m.body().len()]
}
fn args_of(m: &RawMessage) -> [Vec<u8>; 3] {
    [m.endpoint().as_bytes().to_vec(), m.header().as_bytes().to_vec(), m.body().to_vec()]
}
fn size(r: &mut Rng) -> usize {
    match r.below(10) {
        0 => 0,
        1..=5 => r.below(200),
        6 => r.range(60_000, 66_000),
        7 => r.range(60_000, 250_000),
        _ => r.below(5000),
    }
}
/// Waits until `f` holds (bounded).
async fn settle(mut f: impl FnMut() -> bool) -> bool {
    within(HANG, async {
        while !f() {
            tokio::time::sleep(Duration::from_millis(3)).await;
        }
    })
    .await
    .is_ok()
}

// =================================================================== C10
/// One exchange as seen by the caller: what it has to look like on the wire.
#[derive(Clone, Debug)]
struct Sent {
    service: String,
    scheme: &'static str,
    args: [Vec<u8>; 3],
    /// None: an Error frame. Some(code, args): a call response.
    answer: Option<(u8, [Vec<u8>; 3])>,
}
fn json_args(m: &(String, Map<String, Value>, Map<String, Value>)) -> [Vec<u8>; 3] {
    [m.0.as_bytes().to_vec(), serde_json::to_vec(&m.1).unwrap(), serde_json::to_vec(&m.2).unwrap()]
}
fn args_eq(scheme: &str, want: &[Vec<u8>; 3], got: &[Vec<u8>]) -> bool {
    if got.len() != 3 {
        return false;
    }
    if scheme == "json" {
        // serialization of equal JSON values may differ in the order of keys
        let p = |b: &[u8]| serde_json::from_slice::<Value>(b).ok();
        return got[0] == want[0] && (1..3).all(|k| p(&got[k]).is_some() && p(&got[k]) == p(&want[k]));
    }
    (0..3).all(|k| got[k] == want[k])
}
/// Everything on the wire is legal, and is what the callers sent and the handlers answered.
async fn judge_sent(proxy: &Proxy, mut sent: Vec<Sent>, cfg: &str) -> R<WireReport> {
    let bad = proxy.bad.lock().unwrap().clone();
    ensure!(bad.is_empty(), "bytes on the wire are not well-formed frames", json!({ "what": bad }));
    // a ping may still be under way; all the rest is complete by now
    let mut rep = check_wire(&proxy.entries(), true, true, true);
    for _ in 0..500 {
        if rep.is_ok() {
            break;
        }
        tokio::time::sleep(Duration::from_millis(10)).await;
        rep = check_wire(&proxy.entries(), true, true, true);
    }
    let rep = match rep {
        Ok(rep) => rep,
        Err(e) => return viol(format!("wire monitor: {e}"), json!({ "config": cfg })),
    };
                ensure!(rep.requests.len() == sent.len(), "the wire carried another number of requests than were made", json!({"wire": rep.requests.len(), "made": sent.len()}));
    // ids may be used again later: the response of a request is the first one after it
    let mut by_id: HashMap<(usize, u32), Vec<&WireMsg>> = HashMap::new();
    for m in &rep.responses {
        by_id.entry((m.conn, m.id)).or_default().push(m);
    }
    for q in &rep.requests {
        let k = sent.iter().position(|s| s.service == q.service && s.scheme == q.scheme && args_eq(s.scheme, &s.args, &q.args));
        let Some(k) = k else {
            return viol("request on the wire is not one that a caller made (service, arg scheme or args differ)", json!({"service": q.service, "scheme": q.scheme, "arg_lens": q.args.iter().map(|a| a.len()).collect::<Vec<_>>()}));
        };
        let s = sent.swap_remove(k);
        let Some(a) = by_id.get(&(q.conn, q.id)).and_then(|v| v.iter().filter(|m| m.seq_first > q.seq_first).min_by_key(|m| m.seq_first)) else {
            return viol("no response on the wire under the id of the request", json!({"id": q.id}));
        };
        match (&s.answer, &a.error) {
            (None, Some(_)) => {}
            (None, None) => return viol("failed request was answered with a call response", json!({"id": q.id, "code": a.code})),
            (Some(_), Some((c, m))) => return viol("served request was answered with an error frame", json!({"code": c, "message": m})),
            (Some((code, args)), None) => {
                ensure!(a.code == *code, "wrong response code on the wire", json!({"got": a.code, "expected": code}));
                ensure!(a.scheme == s.scheme, "response declares another arg scheme than its args have", json!({"got": a.scheme, "expected": s.scheme}));
                ensure!(args_eq(s.scheme, args, &a.args), "response args on the wire differ from what the handler returned", json!({"id": q.id, "got_lens": a.args.iter().map(|x| x.len()).collect::<Vec<_>>(), "expected_lens": args.iter().map(|x| x.len()).collect::<Vec<_>>()}));
            }
        }
    }
    Ok(rep)
}
pub fn c10(ctx: Arc<Ctx>) -> i32 {
    let (min, max) = if ctx.quick() { (50, 1200) } else { (500, 200000) };
    ctx.scenarios(0, "mixed_traffic", 6, min, max, 0.4, |ctx, i, mut r| {
        with_rt(Rt::pick(&mut r.clone()), move || async move {
            let cfg = Cfg { test_connection: r.chance(1, 2), ..Cfg::random(&mut r) };
            let (srv, addr) = server(&cfg).await?;
            // service names of all lengths that leave room
            let svc = match r.below(5) {
                0 => "s".to_string(),
                1 => r.ascii(255),
                2 => "dienst-é漢🦀".to_string(),
                _ => "svc".to_string(),
            };
            let ss = sub(&srv, &svc).await?;
            reg_sync(&ss, "echo", echo()).await?;
            let seed = r.next();
            let n = Arc::new(AtomicUsize::new(0));
            reg(&ss, "slow", raw_async(move |m| {
                let mut r = Rng::new(seed ^ n.fetch_add(1, SeqCst) as u64);
                async move {
                    jitter(&mut r).await;
                    Ok(m)
                }
            })).await?;
            reg_sync(&ss, "fail", raw_sync(|m| Err(HandlerError::MessageError(m)))).await?;
            reg_sync(&ss, "general", raw_sync(|_| Err(HandlerError::GeneralError("no".into())))).await?;
            reg_sync(&ss, "json", json_sync(Ok)).await?;
            reg_sync(&ss, "codec", raw_sync(|_| Err(HandlerError::InternalError(TChannelError::CodecError(CodecError::Error("codec".into())))))).await?;
            reg_sync(&ss, "longtext", raw_sync(|m| Err(HandlerError::GeneralError("é".repeat(32_000 + m.body().len() % 3_000))))).await?;
            await_listening(addr).await?;
            let proxy = Proxy::start(addr, ProxyPolicy { seg: r.below(4), reorder: r.chance(1, 4), ..Default::default() }, r.fork()).await?;
            let c = client(&cfg);
            let sent = Arc::new(Mutex::new(Vec::<Sent>::new()));
            let uid = Arc::new(AtomicUsize::new(0));
            let callers = r.range(1, 8);
            let mut tasks = vec![];
            for _ in 0..callers {
                let (sc, other) = (sub(&c, &svc).await?, sub(&c, "absent").await?);
                let (sent, uid, svc, to) = (sent.clone(), uid.clone(), svc.clone(), proxy.addr);
                let mut r = r.fork();
                tasks.push(tokio::spawn(async move {
                    for _ in 0..r.range(1, 8) {
                        let u = uid.fetch_add(1, SeqCst);
                        let kind = *r.pick(&["echo", "echo", "slow", "slow", "fail", "general", "json", "json", "noendpoint", "noservice", "wrongscheme", "codec", "longtext"]);
                        if kind == "json" {
                            let mut h = Map::new();
                            h.insert("uid".into(), json!(u));
                            let k = size(&mut r);
                            let mut b = Map::new();
                            b.insert("t".into(), json!(random_text(&mut r, k)));
                            b.insert("n".into(), json!(u));
                            let t = ("json".to_string(), h.clone(), b.clone());
                            let m: JsonMessage = JsonMessageBuilder::default().method_name("json".to_string()).headers(h).body(b).build().expect("json message");
                            let a = json_args(&t);
                            sent.lock().unwrap().push(Sent { service: svc.clone(), scheme: "json", args: a.clone(), answer: Some((0, a)) });
                            let got = jcall(&sc, m, to).await?;
                            ensure!(got.is_ok(), "valid json call failed", json!({"error": got.err().map(|e| e.to_string())}));
                            continue;
                        }
                        let ep = if kind == "noservice" { "echo" } else { kind };
                        let ep = if kind == "wrongscheme" { "json" } else { ep };
                        let n = size(&mut r);
                        let m = match r.below(6) {
                            0 => msg(ep, "", r.bytes(n)),
                            1 => msg(ep, format!("u{u}"), ""),
                            2 => msg(ep, "", ""),
                            _ => msg(ep, format!("u{u}"), r.bytes(n)),
                        };
                        let a = args_of(&m);
                        let answer = match kind {
                            "echo" | "slow" => Some((0, a.clone())),
                            "fail" => Some((1, a.clone())),
                            _ => None,
                        };
                        let (svc, scx) = if kind == "noservice" { ("absent".to_string(), &other) } else { (svc.clone(), &sc) };
                        sent.lock().unwrap().push(Sent { service: svc, scheme: "raw", args: a, answer });
                        let got = call(scx, m, to).await?;
                        let ok = match kind {
                            "echo" | "slow" => got.is_ok(),
                            "fail" => matches!(got, Err(HandlerError::MessageError(_))),
                            _ => got.is_err(),
                        };
                        ensure!(ok, "call had another outcome than its handler's", json!({"endpoint": kind, "error": got.err().map(|e| e.to_string())}));
                    }
                    Ok(())
                }));
            }
            join_all(tasks).await?;
            let sent = std::mem::take(&mut *sent.lock().unwrap());
            let rep = judge_sent(&proxy, sent, &format!("{} service of {} bytes", cfg.sig(), svc.len())).await?;
            ctx.add("frames_judged", rep.frames as u64);
            ctx.add("requests_judged", rep.requests.len() as u64);
            ctx.add("pings_judged", rep.pings as u64);
            ctx.add("interleaved_fragments", rep.interleaved as u64);
            ctx.add("out_of_order_responses", rep.out_of_order as u64);
            ctx.add("multi_frame_messages", rep.requests.iter().chain(&rep.responses).filter(|m| m.frames > 1).count() as u64);
            ctx.observe("frame_orders", rep.order_sig);
            ctx.eval(&format!("{:016x}", rep.order_sig), rep.requests.len() > 2);
            if i < 2 {
                ctx.sample(json!({"config": cfg.sig(), "frames": rep.frames, "requests": rep.requests.len(), "pings": rep.pings}));
            }
            Ok(())
        })
    });
    // every position of an arg's end around the ends of the first frames, in both directions
    const PER: u64 = 13;
    let total: u64 = 2 * 3 * 3 * 13 * 4;
    ctx.scenarios(2, "boundaries", 8, total / PER, total / PER, 1.0, |ctx, i, mut r| {
        with_rt(Rt::pick(&mut r.clone()), move || async move {
            let svc = ["service", "s", "a-longer-service-name"][r.below(3)].to_string();
            let cfg = Cfg::random(&mut r);
            let (srv, addr) = server(&cfg).await?;
            let ss = sub(&srv, &svc).await?;
            let plan: Arc<Mutex<Option<RawMessage>>> = Default::default();
            let p2 = plan.clone();
            let answer: Arc<dyn Fn(RawMessage) -> HandlerResult<RawMessage> + Send + Sync> = Arc::new(move |m: RawMessage| {
                let a = p2.lock().unwrap().take().unwrap_or_default();
                match m.body().starts_with(b"fail") {
                    true => Err(HandlerError::MessageError(a)),
                    false => Ok(a),
                }
            });
            await_listening(addr).await?;
            let proxy = Proxy::start(addr, ProxyPolicy::default(), r.fork()).await?;
            let c = client(&cfg);
            let sc = sub(&c, &svc).await?;
            let mut sent = vec![];
            let mut registered = std::collections::HashSet::new();
            for j in 0..PER {
                let case = (i % 18) + 18 * j + 234 * (i / 18);
                let Some((is_req, l, sig)) = crate::p_data::boundary_lens(case, &svc) else { continue };
                let big = msg(random_text(&mut r, l[0]), random_text(&mut r, l[1]), r.bytes(l[2]));
                let fail = !is_req && r.chance(1, 3);
                let small = msg(format!("ep{}", r.below(3)), format!("h{j}"), if fail { "fail" } else { "body" });
                let (req, res) = if is_req { (big, small) } else { (small, big) };
                let fail = req.body().starts_with(b"fail");
                if registered.insert(req.endpoint().clone()) {
                    let f = answer.clone();
                    reg_sync(&ss, req.endpoint(), raw_sync(move |m| f(m))).await?;
                }
                *plan.lock().unwrap() = Some(res.clone());
                sent.push(Sent { service: svc.clone(), scheme: "raw", args: args_of(&req), answer: Some((fail as u8, args_of(&res))) });
                let got = call(&sc, req, proxy.addr).await?;
                ensure!(got.is_ok() || fail, "a well-formed call failed", json!({"case": sig, "error": got.err().map(|e| format!("{:.300}", e.to_string()))}));
                ctx.eval(&format!("boundary {sig} {}", svc.len()), true);
            }
            let n = sent.len();
            let rep = judge_sent(&proxy, sent, &cfg.sig()).await?;
            ctx.add("frames_judged", rep.frames as u64);
            ctx.add("requests_judged", n as u64);
            ctx.add("boundary_cases_judged", n as u64);
            ctx.add("multi_frame_messages", rep.requests.iter().chain(&rep.responses).filter(|m| m.frames > 1).count() as u64);
            Ok(())
        })
    });
    // one connection for a long time
    let (calls, lmax) = if ctx.quick() { (2500, 2) } else { (140_000, 4) };
    ctx.scenarios(3, "long_connection", 2, 2, lmax, 1.0, move |ctx, i, mut r| {
        with_rt_beats(Rt::Multi(2), 40_000, move || async move {
            let cfg = Cfg { test_connection: i % 2 == 1, max_connections: 1, lifetime: None, ..Default::default() };
            let (srv, addr) = server(&cfg).await?;
            let ss = sub(&srv, "svc").await?;
            reg_sync(&ss, "echo", echo()).await?;
            reg_sync(&ss, "fail", raw_sync(|m| Err(HandlerError::MessageError(m)))).await?;
            await_listening(addr).await?;
            let proxy = Proxy::start(addr, ProxyPolicy::default(), r.fork()).await?;
            let c = client(&cfg);
            let sent = Arc::new(Mutex::new(Vec::<Sent>::new()));
            let uid = Arc::new(AtomicUsize::new(0));
            let mut tasks = vec![];
            for _ in 0..8 {
                let sc = sub(&c, "svc").await?;
                let (sent, uid, to) = (sent.clone(), uid.clone(), proxy.addr);
                tasks.push(tokio::spawn(async move {
                    loop {
                        let u = uid.fetch_add(1, SeqCst);
                        if u >= calls {
                            return Ok(());
                        }
                        let (ep, code) = *[("echo", 0u8), ("echo", 0), ("fail", 1)].get(u % 3).unwrap();
                        let m = msg(ep, format!("u{u}"), "body");
                        let a = args_of(&m);
                        sent.lock().unwrap().push(Sent { service: "svc".into(), scheme: "raw", args: a.clone(), answer: Some((code, a)) });
                        let got = call(&sc, m, to).await?;
                        ensure!(got.is_ok() == (code == 0), "call had another outcome than its handler's", json!({"call": u, "error": got.err().map(|e| e.to_string())}));
                    }
                }));
            }
            join_all(tasks).await?;
            let sent = std::mem::take(&mut *sent.lock().unwrap());
            let rep = if sent.len() < 10_000 {
                judge_sent(&proxy, sent, &cfg.sig()).await?
            } else {
                // too many to match one by one
                match check_wire(&proxy.entries(), true, true, false) {
                    Ok(rep) => rep,
                    Err(e) => return viol(format!("wire monitor: {e}"), json!({"config": cfg.sig(), "calls": calls})),
                }
            };
            ctx.add("frames_judged", rep.frames as u64);
            ctx.max("requests_on_one_connection", rep.requests.len() as u64);
            ctx.eval(&format!("long {i} {}", rep.order_sig), true);
            Ok(())
        })
    });
    // Cancelled calls and killed connections: whatever is on the wire still has to be legal.
    ctx.scenarios(1, "cancelled_calls", 6, min / 3, max, 1.0, |ctx, _i, mut r| {
        with_rt(Rt::pick(&mut r.clone()), move || async move {
            let cfg = Cfg { test_connection: r.chance(1, 2), ..Cfg::random(&mut r) };
            let (srv, addr) = server(&cfg).await?;
            let ss = sub(&srv, "svc").await?;
            reg(&ss, "slow", raw_async(move |m| async move {
                tokio::time::sleep(Duration::from_micros(300)).await;
                Ok(m)
            })).await?;
            await_listening(addr).await?;
            let proxy = Proxy::start(addr, ProxyPolicy { seg: r.below(4), ..Default::default() }, r.fork()).await?;
            let c = client(&cfg);
            let mut tasks = vec![];
            for _ in 0..r.range(1, 6) {
                let sc = sub(&c, "svc").await?;
                let to = proxy.addr;
                let mut r = r.fork();
                tasks.push(tokio::spawn(async move {
                    for _ in 0..r.range(2, 10) {
                        let n = size(&mut r);
                        let m = msg("slow", "h", r.bytes(n));
                        if r.chance(1, 2) {
                            let polls = r.range(1, 30);
                            CancelAfter { fut: Some(Box::pin(call(&sc, m, to))), polls }.await;
                        } else {
                            let want = m.clone();
                            match call(&sc, m, to).await? {
                                Ok(got) => ensure!(same(&got, &want), "wrong response next to cancelled calls", diff(&want, &got)),
                                Err(e) => return viol("call failed next to cancelled calls", json!({"error": e.to_string()})),
                            }
                        }
                    }
                    Ok(())
                }));
            }
            join_all(tasks).await?;
            let bad = proxy.bad.lock().unwrap().clone();
            ensure!(bad.is_empty(), "bytes on the wire are not well-formed frames", json!({ "what": bad }));
            let log = proxy.entries();
            match check_wire(&log, true, true, false) {
                Ok(rep) => {
                    ctx.add("frames_judged", rep.frames as u64);
                    ctx.observe("frame_orders", rep.order_sig);
                    ctx.eval(&format!("c{:016x}", rep.order_sig), rep.requests.len() > 2);
                }
                Err(e) => return viol(format!("wire monitor (with cancelled calls): {e}"), json!({"config": cfg.sig()})),
            }
            Ok(())
        })
    });
    ctx.finish(
        "Every frame that passes a recording proxy between library client and library server is parsed by an independent codec and checked against a trace specification of the protocol (handshake first, header layout, ids unique per connection, fragments of a message complete and with three args, one response per request under its id, pings answered under their id); the reassembled args, service, arg scheme and response code must equal what the caller sent and the handler returned. Traffic mixes raw and json calls, all outcomes, pings, sizes around the frame limit, concurrency and cancelled calls, one connection that carries thousands of calls (thorough: more than 65,536), and arguments that end around the frame boundary. Non-trivial: more than 2 requests; distinct by the order of frames seen.",
        &["tracing and ttl values are not judged beyond being well formed", "checksum type none is the only one used"],
        50,
    )
}

// =================================================================== C11
/// Every way to cut three args into frames: at each position (also at the very start and the very
/// end of an arg) the frame either goes on or ends.
fn all_plans(l: [usize; 3]) -> Vec<Vec<Vec<Vec<u8>>>> {
    // cut points: for arg k: positions 0..=l[k] (0 only for k>0: cut after an empty chunk was opened)
    let mut points = vec![];
    for (k, n) in l.iter().enumerate() {
        for p in 0..=*n {
            if k == 2 && p == *n {
                continue; // the end of the message
            }
            points.push((k, p));
        }
    }
    let bytes = |k: usize, p: usize| (b"abcdefghi"[k * 3 + p.min(2)]) as u8;
    let mut out = vec![];
    for mask in 0..(1u32 << points.len()) {
        let cut = |k: usize, p: usize| points.iter().position(|x| *x == (k, p)).map(|b| mask >> b & 1 == 1).unwrap_or(false);
        let mut frames: Vec<Vec<Vec<u8>>> = vec![];
        let mut cur: Vec<Vec<u8>> = vec![];
        for k in 0..3 {
            cur.push(vec![]);
            for p in 0..=l[k] {
                if cut(k, p) {
                    frames.push(std::mem::take(&mut cur));
                    cur.push(vec![]); // goes on with, or (empty) marks the end of, arg k
                }
                if p < l[k] {
                    cur.last_mut().unwrap().push(bytes(k, p));
                }
            }
        }
        frames.push(cur);
        out.push(frames);
    }
    out
}
fn plan_args(l: [usize; 3]) -> [Vec<u8>; 3] {
    let p = &all_plans(l)[0];
    let mut a = Assembler::default();
    for f in p {
        a.add(f);
    }
    a.args.try_into().unwrap()
}
fn small_lens(k: u64) -> [usize; 3] {
    let k = k as usize;
    [k % 3, k / 3 % 3, k / 9 % 3]
}
fn plan_sig(p: &[Vec<Vec<u8>>]) -> String {
    p.iter().map(|f| f.iter().map(|c| c.len().to_string()).collect::<Vec<_>>().join("+")).collect::<Vec<_>>().join("|")
}
/// Transport metadata a peer may legally send.
fn odd_req_meta(r: &mut Rng, service: &str) -> ReqMeta {
    let mut m = ReqMeta::raw(service);
    m.ttl = *r.pick(&[1, 1000, 60_000, u32::MAX]);
    m.tracing = (r.next(), r.next(), r.next(), r.below(2) as u8);
    m.headers = odd_headers(r, true);
    m
}
fn odd_headers(r: &mut Rng, cn: bool) -> Vec<(String, String)> {
    let mut h = vec![("as".to_string(), "raw".to_string())];
    if cn {
        h.push(("cn".into(), r.ascii(5)));
    }
    for k in ["se", "fd", "sk", "rd", "re", "cas", "x-unknown", ""] {
        if r.chance(1, 4) {
            let n = r.below(40);
            h.push((k.to_string(), r.ascii(n)));
        }
    }
    if r.chance(1, 5) {
        // up to as many as the one-byte count allows
        let n = *r.pick(&[255, 254, 200, 129, 128, 127, 66, 65, 64, 33, 17]);
        while h.len() < n {
            let (a, b) = (r.below(9), *r.pick(&[0, 1, 12, 12, 40]));
            h.push((format!("x{:x}-{}", h.len(), r.ascii(a)), r.ascii(b)));
        }
    }
    if r.chance(1, 10) {
        let n = r.range(200, 255);
        h.push(("long".into(), r.ascii(n)));
        h.truncate(255);
        if !h.iter().any(|x| x.0 == "as") {
            h[0] = ("as".into(), "raw".into());
        }
    }
    r.shuffle(&mut h);
    h
}
pub fn c11(ctx: Arc<Ctx>) -> i32 {
    let (min, max) = if ctx.quick() { (30, 1500) } else { (400, 200000) };
    // exhaustive over tiny messages, to the server
    ctx.scenarios(0, "every_cut_request", 6, 27, 27, 0.3, |ctx, i, mut r| {
        with_rt(Rt::pick(&mut r.clone()), move || async move {
            let l = small_lens(i);
            let cfg = Cfg { server_tasks: *r.pick(&[1, 4, 16]), frame_buffer_size: *r.pick(&[1, 2, 100]), ..Cfg::default() };
            let (srv, addr) = server(&cfg).await?;
            let ss = sub(&srv, "svc").await?;
            let want = plan_args(l);
            reg_sync(&ss, std::str::from_utf8(&want[0]).unwrap(), echo()).await?;
            let (mut rd, mut w) = fake_client(addr).await?;
            let plans = all_plans(l);
            let meta = ReqMeta::raw("svc");
            let mut id = 2;
            for batch in plans.chunks(32) {
                let mut out = vec![];
                let first = id;
                for p in batch {
                    for f in req_frames(id, &meta, p) {
                        out.extend(f.bytes());
                    }
                    id += 1;
                }
                let mode = *r.pick(&[0, 2, 3]);
                w.split(&out, &mut r, mode).await.map_err(|e| Fail::Inconclusive(e.to_string()))?;
                let mut left: Vec<u32> = (first..id).collect();
                while !left.is_empty() {
                    let f = match within(HANG, rd.expect()).await {
                        Ok(f) => f?,
                        Err(Hang) => return viol("fragmented request was never answered (bounded-progress monitor)", json!({"lens": l, "plan": plan_sig(&batch[(left[0] - first) as usize])})),
                    };
                    let Some(k) = left.iter().position(|x| *x == f.id) else { return viol("response under an id that is not pending", json!({"id": f.id})) };
                    let plan = plan_sig(&batch[(f.id - first) as usize]);
                    left.remove(k);
                    ensure!(f.ftype == CALL_RES, "legally fragmented request was refused", json!({"lens": l, "plan": plan, "frame_type": f.ftype, "payload": String::from_utf8_lossy(&f.payload)}));
                    let m = parse_call_res(&f.payload).map_err(|e| Fail::Violation("malformed response".into(), json!({ "e": e })))?;
                    ensure!(m.chunks.len() == 3 && (0..3).all(|k| m.chunks[k] == want[k]), "fragmented request reached the handler altered", json!({"lens": l, "plan": plan, "got": m.chunks.iter().map(|c| String::from_utf8_lossy(c).to_string()).collect::<Vec<_>>()}));
                }
            }
            ctx.add("request_plans_enumerated", plans.len() as u64);
            for p in &plans {
                ctx.eval(&format!("q{l:?}{}", plan_sig(p)), p.len() > 1);
            }
            Ok(())
        })
    });
    // exhaustive over tiny messages, to the client
    ctx.scenarios(1, "every_cut_response", 6, 27, 27, 0.5, |ctx, i, mut r| {
        with_rt(Rt::pick(&mut r.clone()), move || async move {
            let l = small_lens(i);
            let want = plan_args(l);
            let plans = Arc::new(all_plans(l));
            let addr = fresh_addr();
            let lst = listen(addr).await?;
            let n = plans.len();
            let (p2, seg) = (plans.clone(), [0usize, 2, 3][r.below(3)]);
            let mut fr = r.fork();
            tokio::spawn(async move {
                while let Ok((s, _)) = lst.accept().await {
                    let Ok((mut rd, mut w)) = accept_init(s).await else { continue };
                    while let Got::Frame(f) = rd.frame().await {
                        // arg3 of the request selects the plan
                        let Ok(q) = parse_call_req(&f.payload) else { continue };
                        let k: usize = String::from_utf8_lossy(&q.chunks[2]).parse().unwrap_or(0);
                        let mut out = vec![];
                        for f in res_frames(f.id, &ResMeta::raw(), &p2[k]) {
                            out.extend(f.bytes());
                        }
                        let _ = w.split(&out, &mut fr, seg).await;
                    }
                }
            });
            let cfg = Cfg { frame_buffer_size: *r.pick(&[1, 2, 100]), ..Cfg::default() };
            let c = client(&cfg);
            let sc = sub(&c, "svc").await?;
            let want = msg(String::from_utf8(want[0].clone()).unwrap(), String::from_utf8(want[1].clone()).unwrap(), want[2].clone());
            for k0 in (0..n).step_by(16) {
                let mut tasks = vec![];
                for k in k0..n.min(k0 + 16) {
                    let (sc, want, plans) = (sc.clone(), want.clone(), plans.clone());
                    tasks.push(tokio::spawn(async move {
                        match call(&sc, msg("e", "h", k.to_string()), addr).await? {
                            Ok(got) => ensure!(same(&got, &want), "fragmented response reached the caller altered", json!({"plan": plan_sig(&plans[k]), "diff": diff(&want, &got)})),
                            Err(e) => return viol("legally fragmented response was refused", json!({"plan": plan_sig(&plans[k]), "error": e.to_string()})),
                        }
                        Ok(())
                    }));
                }
                join_all(tasks).await?;
            }
            ctx.add("response_plans_enumerated", n as u64);
            for p in plans.iter() {
                ctx.eval(&format!("s{l:?}{}", plan_sig(p)), p.len() > 1);
            }
            Ok(())
        })
    });
    // random messages, fragmentations, segmentations, interleavings; to the server
    ctx.scenarios(2, "random_requests", 6, min, max, 0.75, |ctx, i, mut r| {
        with_rt(Rt::pick(&mut r.clone()), move || async move {
            let cfg = Cfg { server_tasks: *r.pick(&[1, 2, 4, 50]), ..Cfg::random(&mut r) };
            let (srv, addr) = server(&cfg).await?;
            let ss = sub(&srv, "svc").await?;
            reg_sync(&ss, "echo", echo()).await?;
            let (mut rd, mut w) = fake_client(addr).await?;
            let n = r.range(1, 12);
            let mut want = HashMap::new();
            let mut queues = vec![];
            let mut sigs = vec![];
            for k in 0..n {
                let id = if k == 0 { 0 } else { 2 + k as u32 * 3 };
                let (a, b) = (size(&mut r), size(&mut r));
                let m = msg("echo", random_text(&mut r, a), r.bytes(b));
                let meta = odd_req_meta(&mut r, "svc");
                let mode = if a + b > 6000 { [0, 4][r.below(2)] } else { r.below(5) };
                let plan = fragment(&args_of(&m), meta.size(), &mut r, mode);
                sigs.push((lens(&m), plan.len()));
                let mut f = req_frames(id, &meta, &plan);
                f.reverse();
                queues.push(f);
                want.insert(id, m);
            }
            let seg = r.below(5);
            let mut wr = r.fork();
            let total: usize = queues.iter().flatten().map(|f| f.payload.len() + HDR).sum();
            let seg = if total > 60_000 && seg < 3 { 3 } else { seg };
            let sender = tokio::spawn(async move {
                while !queues.is_empty() {
                    let k = wr.below(queues.len());
                    let f = queues[k].pop().unwrap();
                    if w.split(&f.bytes(), &mut wr, seg).await.is_err() {
                        return None;
                    }
                    if queues[k].is_empty() {
                        queues.swap_remove(k);
                    }
                }
                Some(w)
            });
            let mut open: HashMap<u32, Assembler> = HashMap::new();
            while !want.is_empty() {
                let f = match within(HANG, rd.expect()).await {
                    Ok(f) => f?,
                    Err(Hang) => return viol("fragmented requests were never answered (bounded-progress monitor)", json!({"unanswered": want.len(), "config": cfg.sig()})),
                };
                let (flags, chunks) = match f.ftype {
                    CALL_RES => parse_call_res(&f.payload).map(|m| (m.flags, m.chunks)),
                    CALL_RES_CONT => parse_cont(&f.payload).map(|m| (m.flags, m.chunks)),
                    t => return viol("legally fragmented request was refused", json!({"type": t, "payload": String::from_utf8_lossy(&f.payload).chars().take(200).collect::<String>()})),
                }
                .map_err(|e| Fail::Violation("malformed response".into(), json!({ "e": e })))?;
                let mut a = open.remove(&f.id).unwrap_or_default();
                a.add(&chunks);
                if flags & MORE != 0 {
                    open.insert(f.id, a);
                    continue;
                }
                let Some(t) = want.remove(&f.id) else { return viol("response under an id that is not pending", json!({"id": f.id})) };
                let ok = a.args.len() == 3 && args_of(&t).iter().zip(&a.args).all(|(x, y)| x == y);
                ensure!(ok, "fragmented request reached the handler altered", json!({"expected_lens": lens(&t), "got_lens": a.args.iter().map(|x| x.len()).collect::<Vec<_>>()}));
            }
            ctx.add("random_requests", n as u64);
            ctx.eval(&format!("rq{sigs:?}"), sigs.iter().any(|s| s.1 > 1));
            if i < 2 {
                ctx.sample(json!({"group": "random_requests", "config": cfg.sig(), "arg_lens_and_frames": format!("{sigs:?}")}));
            }
            drop(within(HANG, sender).await.ok());
            Ok(())
        })
    });
    // the same to the client
    ctx.scenarios(3, "random_responses", 6, min, max, 0.9, |ctx, i, mut r| {
        with_rt(Rt::pick(&mut r.clone()), move || async move {
            let cfg = Cfg::random(&mut r);
            let addr = fresh_addr();
            let lst = listen(addr).await?;
            let n = r.range(1, 12);
            let mut answers = vec![];
            let mut sigs = vec![];
            let mut frames: Vec<(ResMeta, Vec<Vec<Vec<u8>>>)> = vec![];
            for k in 0..n {
                let (a, b, e) = (size(&mut r), size(&mut r), r.below(30));
                let m = msg(random_text(&mut r, e), random_text(&mut r, a), r.bytes(b));
                let meta = ResMeta { code: (k % 3 == 1) as u8, tracing: (r.next(), r.next(), r.next(), r.below(2) as u8), headers: odd_headers(&mut r, false) };
                let mode = if a + b > 6000 { [0, 4][r.below(2)] } else { r.below(5) };
                let plan = fragment(&args_of(&m), meta.size(), &mut r, mode);
                sigs.push((lens(&m), plan.len()));
                frames.push((meta.clone(), plan));
                answers.push((meta.code, m));
            }
            let frames = Arc::new(frames);
            let seg = r.below(5);
            let total: usize = frames.iter().flat_map(|f| f.1.iter().flatten()).map(|c| c.len()).sum();
            let seg = if total > 60_000 && seg < 3 { 3 } else { seg };
            let fr = Arc::new(Mutex::new(r.fork()));
            let (f2, pending) = (frames.clone(), r.range(1, 5));
            tokio::spawn(async move {
                while let Ok((s, _)) = lst.accept().await {
                    let (frames, mut r) = (f2.clone(), fr.lock().unwrap().fork());
                    tokio::spawn(async move {
                        let Ok((mut rd, mut w)) = accept_init(s).await else { return };
                        let mut queues: Vec<Vec<Frame>> = vec![];
                        loop {
                            // collect a few requests if they come, then interleave their responses
                            let got = tokio::select! {
                                biased;
                                g = rd.frame_cancel_safe() => Some(g),
                                _ = tokio::time::sleep(Duration::from_millis(if queues.is_empty() { 1000 } else { 2 })) => None,
                            };
                            match got {
                                Some(Got::Frame(f)) if f.ftype == PING_REQ => {
                                    let _ = w.frame(&Frame::new(PING_RES, f.id, vec![])).await;
                                    continue;
                                }
                                Some(Got::Frame(f)) => {
                                    let Ok(q) = parse_call_req(&f.payload) else { continue };
                                    let k: usize = String::from_utf8_lossy(&q.chunks[2]).parse().unwrap_or(0);
                                    let mut q = res_frames(f.id, &frames[k].0, &frames[k].1);
                                    q.reverse();
                                    queues.push(q);
                                    if queues.len() < pending {
                                        continue;
                                    }
                                }
                                Some(_) => return,
                                None => {}
                            }
                            if queues.is_empty() {
                                continue;
                            }
                            let k = r.below(queues.len());
                            let f = queues[k].pop().unwrap();
                            if queues[k].is_empty() {
                                queues.swap_remove(k);
                            }
                            if w.split(&f.bytes(), &mut r, seg).await.is_err() {
                                return;
                            }
                        }
                    });
                }
            });
            let c = client(&cfg);
            let sc = sub(&c, "svc").await?;
            let mut tasks = vec![];
            for (k, (code, want)) in answers.into_iter().enumerate() {
                let sc = sc.clone();
                let sig = sigs[k];
                tasks.push(tokio::spawn(async move {
                    let (got, is_err) = match call(&sc, msg("e", "h", k.to_string()), addr).await? {
                        Ok(m) => (m, false),
                        Err(HandlerError::MessageError(m)) => (m, true),
                        Err(e) => return viol("legally fragmented response was refused", json!({"error": e.to_string(), "lens_frames": format!("{sig:?}")})),
                    };
                    ensure!(is_err == (code == 1), "response code lost", json!({"code": code, "error": is_err}));
                    ensure!(same(&got, &want), "fragmented response reached the caller altered", diff(&want, &got));
                    Ok(())
                }));
            }
            join_all(tasks).await?;
            ctx.add("random_responses", n as u64);
            ctx.eval(&format!("rs{sigs:?}"), sigs.iter().any(|s| s.1 > 1));
            if i < 2 {
                ctx.sample(json!({"group": "random_responses", "config": cfg.sig(), "arg_lens_and_frames": format!("{sigs:?}")}));
            }
            Ok(())
        })
    });
    // The number of fragments is not bounded by the protocol: messages cut into more pieces than
    // any 16-bit counter holds.
    const PIECES: usize = 70_000;
    ctx.scenarios(4, "endless_fragments", 2, 2, if ctx.quick() { 2 } else { 40 }, 1.0, |ctx, i, mut r| {
        with_rt(Rt::pick(&mut r), move || async move {
            let cfg = Cfg { frame_buffer_size: *r.pick(&[1, 10, 100]), ..Cfg::default() };
            let want = msg("echo", r.ascii(20_000), r.bytes(PIECES));
            // arg2 in pieces of up to three bytes, arg3 bytewise with empty pieces in between
            let mut plan: Vec<Vec<Vec<u8>>> = vec![vec![b"echo".to_vec()]];
            let pieces = |v: &[u8], max: usize, r: &mut Rng, plan: &mut Vec<Vec<Vec<u8>>>| {
                plan.last_mut().unwrap().push(vec![]);
                let mut k = 0;
                while k < v.len() {
                    let n = r.range(if max > 1 { 0 } else { 1 }, max).min(v.len() - k);
                    plan.push(vec![v[k..k + n].to_vec()]);
                    k += n;
                }
            };
            pieces(want.header().as_bytes(), 3, &mut r, &mut plan);
            pieces(want.body(), 1, &mut r, &mut plan);
            let n = plan.len();
            if i % 2 == 0 {
                let (srv, addr) = server(&cfg).await?;
                let ss = sub(&srv, "svc").await?;
                reg_sync(&ss, "echo", echo()).await?;
                await_listening(addr).await?;
                let (mut rd, mut w) = fake_client(addr).await?;
                let out: Vec<u8> = req_frames(5, &ReqMeta::raw("svc"), &plan).iter().flat_map(|f| f.bytes()).collect();
                let sent = tokio::spawn(async move {
                    let ok = w.raw(&out).await.is_ok();
                    (ok, w)
                });
                let mut a = Assembler::default();
                loop {
                    let f = match within(3 * HANG, rd.expect()).await {
                        Ok(f) => f?,
                        Err(Hang) => return viol("request in very many fragments was never answered (bounded-progress monitor)", json!({"fragments": n})),
                    };
                    let (flags, chunks) = match f.ftype {
                        CALL_RES => parse_call_res(&f.payload).map(|m| (m.flags, m.chunks)),
                        CALL_RES_CONT => parse_cont(&f.payload).map(|m| (m.flags, m.chunks)),
                        t => return viol("request in very many fragments was refused", json!({"fragments": n, "type": t, "payload": String::from_utf8_lossy(&f.payload).chars().take(200).collect::<String>()})),
                    }
                    .map_err(|e| Fail::Violation("malformed response".into(), json!({ "e": e })))?;
                    a.add(&chunks);
                    if flags & MORE == 0 {
                        break;
                    }
                }
                let ok = a.args.len() == 3 && args_of(&want).iter().zip(&a.args).all(|(x, y)| x == y);
                ensure!(ok, "request in very many fragments reached the handler altered", json!({"fragments": n, "got_lens": a.args.iter().map(|x| x.len()).collect::<Vec<_>>()}));
                let _ = sent.await;
            } else {
                let addr = fresh_addr();
                let lst = listen(addr).await?;
                tokio::spawn(async move {
                    while let Ok((s, _)) = lst.accept().await {
                        let Ok((mut rd, mut w)) = accept_init(s).await else { continue };
                        while let Got::Frame(f) = rd.frame().await {
                            let out: Vec<u8> = if f.ftype == CALL_REQ { res_frames(f.id, &ResMeta::raw(), &plan).iter().flat_map(|f| f.bytes()).collect() } else { continue };
                            let _ = w.raw(&out).await;
                        }
                    }
                });
                let c = client(&cfg);
                let sc = sub(&c, "svc").await?;
                match call_beats(&sc, msg("e", "h", "x"), addr, 3 * HANG).await? {
                    Ok(got) => ensure!(same(&got, &want), "response in very many fragments reached the caller altered", json!({"fragments": n, "diff": diff(&want, &got)})),
                    Err(e) => return viol("response in very many fragments was refused", json!({"fragments": n, "error": e.to_string()})),
                }
            }
            ctx.max("most_fragments_of_one_message", n as u64);
            ctx.eval(&format!("endless {i} {n}"), true);
            Ok(())
        })
    });
    // an id may be used again as soon as its request was answered
    ctx.scenarios(5, "same_id_again", 4, 4, if ctx.quick() { 8 } else { 400 }, 1.0, |ctx, i, mut r| {
        with_rt(Rt::pick(&mut r.clone()), move || async move {
            let cfg = Cfg::random(&mut r);
            let (srv, addr) = server(&cfg).await?;
            let ss = sub(&srv, "svc").await?;
            reg_sync(&ss, "echo", echo()).await?;
            await_listening(addr).await?;
            let (mut rd, mut w) = fake_client(addr).await?;
            let id = *r.pick(&[2u32, 0x8000_0000, 0xffff_fff0]);
            let n = if ctx.quick() { 400 } else { 2000 };
            for k in 0..n {
                let len = if r.chance(1, 10) { r.range(60_000, 140_000) } else { r.below(30) };
                let good = !r.chance(1, 8);
                let args = [if good { b"echo".to_vec() } else { b"nope".to_vec() }, format!("{k}").into_bytes(), r.bytes(len)];
                let plan = fragment(&args, 200, &mut r, 0);
                for f in req_frames(id, &ReqMeta::raw("svc"), &plan) {
                    w.frame(&f).await.map_err(|e| Fail::Violation(format!("server closed a connection on which an id was used again: {e}"), json!({})))?;
                }
                let mut a = Assembler { args: vec![], frames: 0 };
                loop {
                    let f = within(HANG, rd.expect()).await.map_err(|_| Fail::Violation("a request under the id of an answered one was never answered".into(), json!({"round": k, "frames_of_answer": a.frames})))??;
                    ensure!(f.id == id, "answer under another id", json!({"id": f.id}));
                    let (flags, chunks) = match f.ftype {
                        CALL_RES => parse_call_res(&f.payload).map(|m| (m.flags, m.chunks)).map_err(|e| Fail::Violation(format!("malformed answer: {e}"), json!({})))?,
                        CALL_RES_CONT => parse_cont(&f.payload).map(|m| (m.flags, m.chunks)).map_err(|e| Fail::Violation(format!("malformed answer: {e}"), json!({})))?,
                        ERROR if !good => break,
                        t => return viol("a request under the id of an answered one was refused", json!({"type": t, "round": k, "text": String::from_utf8_lossy(&f.payload).chars().take(200).collect::<String>()})),
                    };
                    ensure!(good, "a request for a missing handler was answered", json!({}));
                    a.add(&chunks);
                    if flags & MORE == 0 {
                        break;
                    }
                }
                ensure!(!good || a.args[..] == args[..], "a request under the id of an answered one got a wrong answer", json!({"round": k, "lengths": a.args.iter().map(|x| x.len()).collect::<Vec<_>>()}));
            }
            ctx.add("ids_used_again", n as u64);
            ctx.eval(&format!("again {i} {id} {}", cfg.sig()), true);
            Ok(())
        })
    });
    ctx.finish(
        "Independent peers speak to the real server and the real client. Exhaustive part: for every combination of arg lengths 0..2, every way to cut the message into frames (each position of each arg, including directly before the first and after the last byte of an arg), both directions. Random part: sizes up to 250 kB, fragmentations from 2-byte frames to maximal ones, TCP segmentation from single bytes to whole writes, fragments of up to 12 messages interleaved, messages of tens of thousands of tiny fragments, one id used again for each following message, unknown transport headers, arbitrary ttl and tracing. Oracle: what arrives equals what was fragmented, and the response code survives. Non-trivial: more than one frame; distinct by lengths and cut plan.",
        &["three args per message", "checksum type none"],
        2000,
    )
}

// =================================================================== C12
fn tok(body: &[u8]) -> String {
    format!("{:016x}", hash64(body))
}
/// The requests that may legally reach a handler when these frames arrive: for every id every run
/// that starts with a call request and ends with the first fragment that announces no more.
fn allowed(frames: &[Frame]) -> Vec<[Vec<u8>; 3]> {
    let mut out = vec![];
    for (k, f) in frames.iter().enumerate() {
        if f.ftype != CALL_REQ {
            continue;
        }
        let Ok(q) = parse_call_req(&f.payload) else { continue };
        if q.csum != 0 || !q.headers.iter().any(|h| h.0 == "as" && h.1 == "raw") {
            continue;
        }
        let mut a = Assembler::default();
        a.add(&q.chunks);
        let mut more = q.flags & MORE != 0;
        for g in &frames[k + 1..] {
            if !more {
                break;
            }
            if g.id != f.id || g.ftype == PING_REQ {
                continue; // pings are answered on their own
            }
            if g.ftype != CALL_REQ_CONT && g.ftype != CALL_RES_CONT {
                break;
            }
            let Ok(c) = parse_cont(&g.payload) else { break };
            if c.csum != 0 {
                break;
            }
            a.add(&c.chunks);
            more = c.flags & MORE != 0;
        }
        if !more {
            let mut v = a.args;
            v.resize(3, vec![]); // missing args are read as empty ones
            // endpoint and header are text
            if std::str::from_utf8(&v[0]).is_ok() && std::str::from_utf8(&v[1]).is_ok() {
                out.push([v[0].clone(), v[1].clone(), v[2].clone()]);
            }
        }
    }
    out
}
/// Mutates one frame, keeping it a frame (consistent length, known type unless `wild`).
fn mutate(f: &Frame, r: &mut Rng) -> (Frame, &'static str) {
    let mut f = f.clone();
    let n = f.payload.len();
    let what = match r.below(14) {
        0 | 1 => {
            f.payload.truncate(r.below(n + 1));
            "truncated"
        }
        2 | 3 if n > 0 => {
            for _ in 0..r.range(1, 4) {
                let k = r.below(n.min(120));
                f.payload[k] ^= 1 << r.below(8);
            }
            "bit flips near the start"
        }
        4 if n > 0 => {
            let k = r.below(n);
            f.payload[k] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff]);
            "byte replaced"
        }
        5 if n > 2 => {
            let k = r.below(n - 1);
            f.payload[k] = 0xff;
            f.payload[k + 1] = 0xff;
            "length field overstated"
        }
        6 => {
            let k = r.range(1, 40);
            let b = r.bytes(k);
            f.payload.extend(b);
            f.payload.truncate(65535 - HDR);
            "garbage appended"
        }
        7 => {
            f.payload.clear();
            "empty payload"
        }
        8 => {
            f.ftype = *r.pick(&ALL_TYPES);
            "type changed"
        }
        9 => {
            let k = r.below(200);
            f.payload = r.bytes(k);
            "random payload"
        }
        10 => {
            f.payload = vec![0xff; r.below(300)];
            "all ones"
        }
        11 if n > 0 => {
            f.payload[0] = r.next() as u8;
            "random flags"
        }
        12 if n > 40 => {
            // non-UTF-8 somewhere in the strings
            let k = r.range(30, n.min(90) - 1);
            f.payload[k] = 0xc0;
            "broken UTF-8"
        }
        _ => {
            f.id = r.below(20) as u32;
            "id changed"
        }
    };
    (f, what)
}
/// A text arg of any length, in which now and then something is not valid UTF-8.
fn hostile_text(text: Vec<u8>, r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 2) {
        return text;
    }
    let n = *r.pick(&[0, 16, 300, 1100, 2000, 5000, 20_000, 70_000]);
    let mut t = random_text(r, n).into_bytes();
    if r.chance(1, 2) && !t.is_empty() {
        let bad: &[u8] = *r.pick(&[&[0xff][..], &[0xc0, 0x80], &[0xed, 0xa0, 0x80], &[0xf5, 0x80, 0x80, 0x80], &[0x80], &[0xe2, 0x82], &[0xc3]]);
        let k = match r.below(3) {
            0 => 0,
            1 => t.len(),
            _ => r.below(t.len() + 1),
        };
        t.splice(k..k, bad.iter().copied());
    }
    t
}
fn base_frames(r: &mut Rng, id: u32) -> Vec<Frame> {
    let n = *r.pick(&[0, 5, 50, 300, 70_000]);
    let body = r.bytes(n);
    let meta = if r.chance(1, 3) { odd_req_meta(r, "svc") } else { ReqMeta::raw("svc") };
    let args = [b"ep".to_vec(), hostile_text(tok(&body).into_bytes(), r), body];
    let mode = if n + args[1].len() > 1000 { 4 } else { [0, 1, 2, 3][r.below(4)] };
    req_frames(id, &meta, &fragment(&args, meta.size(), r, mode))
}
/// Sends a good request on a possibly upset connection: it has to be answered properly, or the connection closed.
async fn probe(rd: &mut WireRead, w: &mut WireWrite, id: u32) -> R<bool> {
    let body = format!("probe{id}").into_bytes();
    let args = [b"ep".to_vec(), tok(&body).into_bytes(), body.clone()];
    let meta = ReqMeta::raw("svc");
    let mut rng = Rng::new(id as u64);
    for f in req_frames(id, &meta, &fragment(&args, meta.size(), &mut rng, 0)) {
        if w.frame(&f).await.is_err() {
            break;
        }
    }
    let got = within(HANG, async {
        loop {
            match rd.frame().await {
                Got::Frame(f) if f.id == id => return Some(f),
                Got::Frame(_) => {}
                _ => return None,
            }
        }
    })
    .await;
    match got {
        Err(Hang) => viol("server neither answers on the connection nor closes it after hostile input (bounded-progress monitor)", json!({})),
        Ok(None) => Ok(false),
        Ok(Some(f)) => {
            ensure!(f.ftype == CALL_RES, "good request refused after unrelated hostile frames on a connection left open", json!({"type": f.ftype, "payload": String::from_utf8_lossy(&f.payload).chars().take(200).collect::<String>()}));
            let m = parse_call_res(&f.payload).map_err(|e| Fail::Violation("malformed response".into(), json!({ "e": e })))?;
            ensure!(m.chunks.len() == 3 && m.chunks[2] == body, "good request answered wrongly after hostile frames", json!({}));
            Ok(true)
        }
    }
}
struct Victim {
    _srv: tchannel_rs::TChannel,
    addr: SocketAddr,
    runs: Arc<Mutex<Vec<RawMessage>>>,
    canary: Arc<tchannel_rs::SubChannel>,
    _c: tchannel_rs::TChannel,
    fd0: usize,
}
async fn victim(cfg: &Cfg) -> R<Victim> {
    let (srv, addr) = server(cfg).await?;
    let runs = Arc::new(Mutex::new(vec![]));
    let ss = sub(&srv, "svc").await?;
    let r2 = runs.clone();
    reg_sync(&ss, "ep", raw_sync(move |m: RawMessage| {
        r2.lock().unwrap().push(m.clone());
        Ok(m)
    })).await?;
    reg_sync(&ss, "canary", echo()).await?;
    await_listening(addr).await?;
    let c = client(&Cfg::default());
    let canary = sub(&c, "svc").await?;
    Ok(Victim { _srv: srv, addr, runs, canary, _c: c, fd0: 0 })
}
impl Victim {
    async fn canary(&self, r: &mut Rng) -> R<()> {
        let n = *r.pick(&[0, 20, 300, 70_000]);
        let m = msg("canary", r.ascii(10), r.bytes(n));
        match call(&self.canary, m.clone(), self.addr).await? {
            Ok(g) => ensure!(same(&g, &m), "another client got a wrong response while hostile input arrived", diff(&m, &g)),
            Err(e) => return viol("another client's call failed because of hostile input", json!({"error": e.to_string()})),
        }
        ensure!(sut_panics() == 0, "library panicked on hostile input", sut_panic_json());
        let big = BIGGEST_ALLOC.load(SeqCst);
        ensure!(big < 8 << 20, "hostile input made the library allocate excessively", json!({"bytes_in_one_allocation": big}));
        let _ = self.fd0;
        Ok(())
    }
    async fn small_canary(&self) -> R<()> {
        match call(&self.canary, msg("canary", "h", "small"), self.addr).await? {
            Ok(g) => ensure!(same(&g, &msg("canary", "h", "small")), "another client got a wrong response while hostile input arrived", brief(&g)),
            Err(e) => return viol("another client's call failed because of hostile input", json!({"error": e.to_string()})),
        }
        Ok(())
    }
    /// Every handler run must be one of the requests that really were on the wire.
    fn judge(&self, allowed: &[[Vec<u8>; 3]], what: &str) -> R<usize> {
        let runs = std::mem::take(&mut *self.runs.lock().unwrap());
        for m in &runs {
            let probe = m.body().starts_with(b"probe") && m.header() == &tok(m.body());
            let a = args_of(m);
            ensure!(std::str::from_utf8(&a[0]).is_ok() && std::str::from_utf8(&a[1]).is_ok(), "handler ran with an endpoint or header that is not valid text", json!({"hostile_input": what, "got": brief(m)}));
            ensure!(probe || allowed.contains(&a), "handler ran with a request that no peer sent", json!({"hostile_input": what, "got": brief(m)}));
        }
        Ok(runs.len())
    }
}
const COST_KINDS: u64 = 10;
/// Hostile byte strings of one kind, and whether they come instead of the handshake.
fn cost_units(kind: u64, variant: u64, r: &mut Rng) -> (&'static str, bool, Vec<Vec<u8>>) {
    let body = b"0123456789".to_vec();
    let args = vec![b"ep".to_vec(), tok(&body).into_bytes(), body];
    // at every position the largest one-, two- and four-byte number
    let overstated = |ftype: u8, p: Vec<u8>| -> Vec<Vec<u8>> {
        let mut out = vec![];
        for k in 0..p.len() {
            for n in [1, 2, 4] {
                let mut q = p.clone();
                for b in q.iter_mut().skip(k).take(n) {
                    *b = 0xff;
                }
                if k % 3 == variant as usize % 3 || n == 2 {
                    out.push(Frame::new(ftype, 7, q.clone()).bytes());
                }
                if n == 2 {
                    // and nothing behind it
                    q.truncate(k + 2);
                    out.push(Frame::new(ftype, 7, q).bytes());
                }
            }
        }
        out
    };
    match kind {
        0 => ("init request", true, overstated(INIT_REQ, enc_init(2, &[("host_port", "0.0.0.0:0"), ("process_name", "x")]))),
        1 => ("init request after the handshake", false, overstated(INIT_REQ, enc_init(2, &[("host_port", "0.0.0.0:0"), ("process_name", "x")]))),
        2 => ("call request", false, overstated(CALL_REQ, enc_call_req(0, &ReqMeta::raw("svc"), &args))),
        3 => ("first fragment", false, overstated(CALL_REQ, enc_call_req(MORE, &ReqMeta::raw("svc"), &args[..2]))),
        4 => ("continuation", false, {
            let first = Frame::new(CALL_REQ, 7, enc_call_req(MORE, &ReqMeta::raw("svc"), &[b"ep".to_vec()])).bytes();
            overstated(CALL_REQ_CONT, enc_cont(0, &args)).into_iter().map(|u| [first.clone(), u].concat()).collect()
        }),
        5 => ("error", false, overstated(ERROR, enc_error(5, (1, 2, 3, 0), "some error"))),
        6 => ("frame header", true, {
            let mut out = vec![];
            for t in ALL_TYPES {
                for len in [0u16, 1, 15, 16, 17, 0x7fff, 0xffff] {
                    let mut b = len.to_be_bytes().to_vec();
                    b.extend([t, 0, 0xff, 0xff, 0xff, 0xff, 0, 0, 0, 0, 0, 0, 0, 0]);
                    b.extend(r.bytes(20));
                    out.push(b);
                }
            }
            out
        }),
        7 => ("frame header after the handshake", false, {
            let mut out = vec![];
            for t in ALL_TYPES {
                for len in [0u16, 1, 15, 16, 17, 0x7fff] {
                    let mut b = len.to_be_bytes().to_vec();
                    b.extend([t, 0, 0xff, 0xff, 0xff, 0xff, 0, 0, 0, 0, 0, 0, 0, 0]);
                    b.extend(vec![0xff; (len as usize).saturating_sub(16)]);
                    b.extend([0; 20]); // what follows is no frame
                    out.push(b);
                }
            }
            out
        }),
        8 => ("many small requests", false, {
            // complete, incomplete and unservable ones
            (0..6)
                .map(|k| {
                    let mut b = vec![];
                    for id in 10..400u32 {
                        let (flags, svc) = ([0, MORE, MORE][k % 3], ["svc", "other"][k / 3]);
                        b.extend(Frame::new(CALL_REQ, id, enc_call_req(flags, &ReqMeta::raw(svc), &args[..if flags == 0 { 3 } else { 1 }])).bytes());
                    }
                    b
                })
                .collect()
        }),
        _ => ("large incomplete requests", false, {
            (0..3)
                .map(|_| {
                    let mut b = vec![];
                    for id in 10..30u32 {
                        b.extend(Frame::new(CALL_REQ, id, enc_call_req(MORE, &ReqMeta::raw("svc"), &[b"ep".to_vec(), vec![b'x'; 30_000]])).bytes());
                        b.extend(Frame::new(CALL_REQ_CONT, id, enc_cont(MORE, &[vec![b'x'; 60_000]])).bytes());
                    }
                    b
                })
                .collect()
        }),
    }
}
pub fn c12(ctx: Arc<Ctx>) -> i32 {
    COUNT_ALLOC.store(true, SeqCst);
    let (min, max) = if ctx.quick() { (60, 4500) } else { (800, 400000) };
    // every prefix and many single-byte substitutions of single-frame messages of each kind
    let bodies: Vec<(&'static str, u8, Vec<u8>)> = {
        let body = b"0123456789".to_vec();
        let args = vec![b"ep".to_vec(), tok(&body).into_bytes(), body];
        vec![
            ("call request", CALL_REQ, enc_call_req(0, &ReqMeta::raw("svc"), &args)),
            ("first fragment", CALL_REQ, enc_call_req(MORE, &ReqMeta::raw("svc"), &args[..2])),
            ("continuation", CALL_REQ_CONT, enc_cont(0, &args)),
            ("call response", CALL_RES, enc_call_res(0, &ResMeta::raw(), &args)),
            ("error", ERROR, enc_error(5, (1, 2, 3, 0), "some error")),
            ("init request", INIT_REQ, enc_init(2, &[("host_port", "0.0.0.0:0"), ("process_name", "x")])),
            ("cancel", CANCEL, enc_error(0, (0, 0, 0, 0), "why")),
        ]
    };
    let nk = bodies.len() as u64;
    let bodies = Arc::new(bodies);
    ctx.scenarios(0, "every_prefix_and_byte", 6, 2 * nk, 2 * nk, 0.45, move |ctx, i, mut r| {
        let bodies = bodies.clone();
        with_rt(Rt::pick(&mut r.clone()), move || async move {
            let (name, ftype, p) = bodies[(i / 2) as usize].clone();
            let v = victim(&Cfg { frame_buffer_size: *r.pick(&[1, 10, 100]), ..Cfg::default() }).await?;
            let mut cases: Vec<Vec<u8>> = vec![];
            if i % 2 == 0 {
                for k in 0..=p.len() {
                    cases.push(p[..k].to_vec());
                }
            } else {
                for k in 0..p.len() {
                    for x in [0u8, 1, 2, 0x7f, 0x80, 0xff, p[k] ^ 1, p[k] ^ 0x80, p[k].wrapping_add(1), p[k].wrapping_sub(1)] {
                        let mut q = p.clone();
                        q[k] = x;
                        cases.push(q);
                    }
                }
            }
            let mut conn: Option<(WireRead, WireWrite)> = None;
            let mut legal = vec![];
            let mut id = 10u32;
            let (mut closed, mut survived) = (0u64, 0u64);
            for batch in cases.chunks(25) {
                if conn.is_none() {
                    conn = Some(fake_client(v.addr).await?);
                    id = 10;
                }
                let (mut rd, mut w) = conn.take().unwrap();
                let mut frames = vec![];
                for q in batch {
                    id += 1;
                    if ftype == CALL_REQ_CONT {
                        // make it the continuation of something half the time
                        if id % 2 == 0 {
                            let f = Frame::new(CALL_REQ, id, enc_call_req(MORE, &ReqMeta::raw("svc"), &[b"e".to_vec()]));
                            let _ = w.frame(&f).await;
                            frames.push(f);
                        }
                    }
                    let f = Frame::new(ftype, id, q.clone());
                    let _ = w.frame(&f).await;
                    frames.push(f);
                }
                id += 1;
                if probe(&mut rd, &mut w, id).await? {
                    survived += 1;
                    conn = Some((rd, w));
                } else {
                    closed += 1;
                }
                v.canary(&mut r).await?;
                legal.extend(allowed(&frames));
                v.judge(&legal, name)?;
            }
            ctx.add("malformed_frames_enumerated", cases.len() as u64);
            ctx.add("batches_connection_closed", closed);
            ctx.add("batches_connection_survived", survived);
            for (k, _) in cases.iter().enumerate() {
                ctx.eval(&format!("{name}{}{k}", i % 2), true);
            }
            if i < 2 {
                ctx.sample(json!({"kind": name, "cases": cases.len(), "survived": survived, "closed": closed}));
            }
            Ok(())
        })
    });
    // What a few hostile bytes may cost: one unit at a time, nothing else runs in this process
    ctx.scenarios(3, "cost", 1, COST_KINDS, if ctx.quick() { COST_KINDS } else { 40 * COST_KINDS }, 0.6, |ctx, i, mut r| {
        with_rt(Rt::Current, move || async move {
            let (name, init, units) = cost_units(i % COST_KINDS, i / COST_KINDS, &mut r);
            let v = victim(&Cfg { frame_buffer_size: *r.pick(&[1, 10, 100]), ..Cfg::default() }).await?;
            v.small_canary().await?;
            let mut legal = vec![];
            for u in &units {
                let sent: usize = u.len();
                let (mut rd, mut w) = if init { wire(connect_retry(v.addr).await?) } else { fake_client(v.addr).await? };
                let before = LIVE_BYTES.load(SeqCst);
                PEAK_BYTES.store(before, SeqCst);
                let _ = w.raw(u).await;
                // until the server has seen all of it
                if init {
                    let _ = within(2, rd.frame()).await;
                } else {
                    probe(&mut rd, &mut w, 1_000_000).await?;
                }
                v.small_canary().await?;
                let grown = PEAK_BYTES.load(SeqCst) - before;
                ctx.max(&format!("peak_growth {name}"), grown.max(0) as u64);
                let mut fb = FrameBuf::default();
                fb.push(u);
                let mut fs = vec![];
                while let Ok(Some(f)) = fb.next() {
                    fs.push(f);
                }
                let bound = (512 << 10) + (16 << 10) * fs.len() as i64 + 16 * sent as i64;
                ensure!(grown <= bound, "a few bytes of hostile input made memory grow out of proportion", json!({"bytes_sent": sent, "frames": fs.len(), "bytes_allocated": grown, "kind": name, "input": u.iter().take(60).map(|b| format!("{b:02x}")).collect::<String>()}));
                legal.extend(allowed(&fs));
                drop((rd, w));
            }
            v.judge(&legal, name)?;
            ensure!(sut_panics() == 0, "library panicked on hostile input", sut_panic_json());
            ctx.add("cost_units_measured", units.len() as u64);
            ctx.eval(&format!("cost {name} {}", units.len()), true);
            Ok(())
        })
    });
    ctx.scenarios(1, "mutated_streams", 6, min, max, 0.85, |ctx, i, mut r| {
        with_rt(Rt::pick(&mut r.clone()), move || async move {
            let v = victim(&Cfg { server_tasks: *r.pick(&[1, 4]), frame_buffer_size: *r.pick(&[1, 3, 100]), ..Cfg::default() }).await?;
            // requests of earlier connections may still be running
            let mut legal: Vec<[Vec<u8>; 3]> = vec![];
            for _ in 0..r.range(1, 4) {
                let (mut rd, mut w) = fake_client(v.addr).await?;
                let mut frames: Vec<Frame> = vec![];
                let mut kinds: Vec<&str> = vec![];
                for k in 0..r.range(1, 10) {
                    let mut fs = base_frames(&mut r, 2 + k as u32);
                    match r.below(6) {
                        0 if fs.len() > 1 => {
                            let k = r.below(fs.len());
                            fs.remove(k);
                            kinds.push("fragment dropped");
                        }
                        1 => {
                            let k = r.below(fs.len());
                            let f = fs[k].clone();
                            fs.insert(k, f);
                            kinds.push("frame duplicated");
                        }
                        2 if fs.len() > 1 => {
                            let (a, b) = (r.below(fs.len()), r.below(fs.len()));
                            fs.swap(a, b);
                            kinds.push("fragments swapped");
                        }
                        _ => {
                            let k = r.below(fs.len());
                            let (f, what) = mutate(&fs[k], &mut r);
                            fs[k] = f;
                            kinds.push(what);
                        }
                    }
                    frames.extend(fs);
                }
                if r.chance(1, 3) {
                    r.shuffle(&mut frames);
                    kinds.push("shuffled");
                }
                let seg = [0, 3, 4][r.below(3)];
                let mut out: Vec<u8> = frames.iter().flat_map(|f| f.bytes()).collect();
                let mut framed = true;
                match r.below(8) {
                    0 => {
                        // unknown type or short length field somewhere
                        let n = r.below(15) as u16;
                        let mut x = if r.chance(1, 2) { vec![0, 16, *r.pick(&[0u8, 5, 0x15, 0x99, 0xfe]), 0, 0, 0, 0, 9, 0, 0, 0, 0, 0, 0, 0, 0] } else { n.to_be_bytes().to_vec() };
                        x.extend(&out);
                        out = x;
                        framed = false;
                        kinds.push("not a frame");
                    }
                    1 => {
                        let k = r.below(out.len() + 1);
                        out.truncate(k);
                        framed = false;
                        kinds.push("stream cut");
                    }
                    2 => {
                        let k = r.range(1, 3000);
                        let b = r.bytes(k);
                        out.extend(b);
                        framed = false;
                        kinds.push("random bytes");
                    }
                    _ => {}
                }
                // a hostile peer does not have to read either; keep reading so that the harness itself cannot block
                let writer = async {
                    let _ = w.split(&out, &mut r, seg).await;
                };
                let mut early_end = false;
                tokio::select! {
                    _ = writer => {}
                    _ = async { loop { match rd.frame_cancel_safe().await { Got::Frame(_) => {}, _ => return } } } => { early_end = true; }
                }
                if framed && !early_end {
                    let alive = probe(&mut rd, &mut w, 1_000_000).await?;
                    ctx.add(if alive { "connections_survived" } else { "connections_closed" }, 1);
                }
                v.canary(&mut r).await?;
                drop((rd, w));
                v.canary(&mut r).await?;
                // frames before the first non-frame bytes count; so all of them are allowed in any case
                let trace: Vec<String> = frames.iter().map(|f| format!("{:x}:{}:{}:{:x?}", f.ftype, f.id, f.payload.len(), &f.payload[..f.payload.len().min(6)])).collect();
                legal.extend(allowed(&frames));
                let n = v.judge(&legal, &format!("{} {}", kinds.join(", "), trace.join(" ")))?;
                ctx.add("handler_runs_judged", n as u64);
                kinds.sort();
                kinds.dedup();
                ctx.add("hostile_frames_sent", frames.len() as u64);
                ctx.eval(&format!("{kinds:?}{}", frames.len()), true);
                ctx.observe("mutation_mixes", hash_str(&format!("{kinds:?}")));
                if i < 3 {
                    ctx.sample(json!({"mutations": kinds, "frames": frames.len(), "bytes": out.len()}));
                }
            }
            Ok(())
        })
    });
    ctx.scenarios(2, "floods", 4, if ctx.quick() { 8 } else { 80 }, max, 1.0, |ctx, _i, mut r| {
        with_rt(Rt::Multi(2), move || async move {
            let v = victim(&Cfg { frame_buffer_size: *r.pick(&[1, 3, 100]), ..Cfg::default() }).await?;
            let kind = r.below(5);
            let mut conns = vec![];
            let mut frames: Vec<Frame> = vec![];
            match kind {
                0 => {
                    // connections that never say anything, or half an init
                    for _ in 0..r.range(5, 40) {
                        let (rd, mut w) = wire(connect_retry(v.addr).await?);
                        let b = Frame::new(INIT_REQ, 1, enc_init(2, &[("a", "b")])).bytes();
                        let k = r.below(b.len());
                        let _ = w.raw(&b[..k]).await;
                        conns.push((rd, w));
                    }
                }
                1 => {
                    // many requests that are never completed
                    let (rd, mut w) = fake_client(v.addr).await?;
                    for id in 2..r.range(200, 2000) as u32 {
                        let f = Frame::new(CALL_REQ, id, enc_call_req(MORE, &ReqMeta::raw("svc"), &[b"ep".to_vec(), b"x".to_vec()]));
                        let _ = w.frame(&f).await;
                        frames.push(f);
                    }
                    conns.push((rd, w));
                }
                2 => {
                    // one message with endless fragments
                    let (rd, mut w) = fake_client(v.addr).await?;
                    let _ = w.frame(&Frame::new(CALL_REQ, 5, enc_call_req(MORE, &ReqMeta::raw("svc"), &[b"ep".to_vec(), b"x".to_vec(), vec![1; 10]]))).await;
                    for _ in 0..r.range(100, 3000) {
                        let _ = w.frame(&Frame::new(CALL_REQ_CONT, 5, enc_cont(MORE, &[vec![]]))).await;
                    }
                    conns.push((rd, w));
                }
                3 => {
                    // random bytes without any handshake
                    for _ in 0..20 {
                        let (rd, mut w) = wire(connect_retry(v.addr).await?);
                        let k = r.range(1, 5000);
                        let b = r.bytes(k);
                        let _ = w.raw(&b).await;
                        conns.push((rd, w));
                    }
                }
                _ => {
                    // garbage frames, the answers to which are never read
                    let (rd, mut w) = fake_client(v.addr).await?;
                    for id in 2..r.range(50, 400) as u32 {
                        let k = r.below(100);
                        let f = Frame::new(*r.pick(&ALL_TYPES), id, r.bytes(k));
                        if within(100, w.frame(&f)).await.is_err() {
                            break;
                        }
                        frames.push(f);
                    }
                    conns.push((rd, w));
                }
            }
            for _ in 0..3 {
                v.canary(&mut r).await?;
            }
            if kind == 1 || kind == 2 {
                let (rd, w) = &mut conns[0];
                probe(rd, w, 1_000_000).await?;
            }
            drop(conns);
            v.canary(&mut r).await?;
            v.judge(&allowed(&frames), "flood")?;
            ctx.add("floods", 1);
            ctx.eval(&format!("flood{kind}{}", frames.len()), true);
            Ok(())
        })
    });
    // answers that nobody reads must not pile up: small requests with large answers
    ctx.scenarios(4, "answers_unread", 1, 3, if ctx.quick() { 3 } else { 60 }, 1.0, |ctx, i, mut r| {
        with_rt(Rt::Multi(2), move || async move {
            let cfg = Cfg { server_tasks: *r.pick(&[1, 4, 10]), frame_buffer_size: *r.pick(&[1, 10]), ..Cfg::default() };
            let (srv, addr) = server(&cfg).await?;
            let ss = sub(&srv, "svc").await?;
            let size = 150_000usize;
            for k in 0..12 {
                reg_sync(&ss, &format!("e{k}"), raw_sync(move |m| match m.header().starts_with("fail") {
                    false => Ok(msg("", m.header().clone(), vec![7u8; size])),
                    true if m.header().starts_with("failmsg") => Err(HandlerError::MessageError(msg("", m.header().clone(), vec![7u8; size]))),
                    true => Err(HandlerError::GeneralError("x".repeat(60_000))),
                })).await?;
            }
            reg_sync(&ss, "canary", echo()).await?;
            await_listening(addr).await?;
            let c = client(&Cfg::default());
            let canary = sub(&c, "svc").await?;
            must_ok(&canary, msg("canary", "h", "first"), addr, "first call").await?;
            let kind = ["ok", "failmsg", "fail"][i as usize % 3];
            let n = 1200u32;
            let (mut rd, mut w) = fake_client(addr).await?;
            let before = LIVE_BYTES.load(SeqCst);
            PEAK_BYTES.store(before, SeqCst);
            for id in 0..n {
                let f = Frame::new(CALL_REQ, 10 + id, enc_call_req(0, &ReqMeta::raw("svc"), &[format!("e{}", r.below(12)).into_bytes(), format!("{kind}{id}").into_bytes(), vec![]]));
                match within(HANG, w.frame(&f)).await {
                    Ok(Ok(())) => {}
                    _ => return viol("server stopped reading requests or closed the connection because of unread answers", json!({"requests": id})),
                }
            }
            // until the server has come to rest
            let (mut last, mut same_for) = (0i64, 0);
            for _ in 0..HANG / 5 {
                tokio::time::sleep(Duration::from_millis(20)).await;
                let v = LIVE_BYTES.load(SeqCst);
                same_for = if (v - last).abs() < 4096 { same_for + 1 } else { 0 };
                last = v;
                if same_for >= 15 {
                    break;
                }
            }
            must_ok(&canary, msg("canary", "h", "other"), addr, "a call of another client while answers are not read").await?;
            let grown = PEAK_BYTES.load(SeqCst) - before;
            ctx.max("peak_growth answers_unread", grown.max(0) as u64);
            let bound = (2 << 20) + (16 << 10) * n as i64 + (cfg.server_tasks as i64 + 2) * 4 * size as i64 + 2 * 70_000 * cfg.frame_buffer_size as i64;
            ensure!(grown <= bound, "answers that the peer does not read pile up in memory", json!({"requests": n, "bytes_held": grown, "bound": bound, "bytes_of_all_answers": n as usize * size, "server_tasks": cfg.server_tasks, "kind": kind}));
            // it reads after all
            let mut open: HashMap<u32, usize> = HashMap::new();
            let mut done: HashSet<u32> = HashSet::new();
            while done.len() < n as usize {
                match within(HANG, rd.frame()).await {
                    Ok(Got::Frame(f)) => {
                        let (more, len) = match f.ftype {
                            CALL_RES => parse_call_res(&f.payload).map(|m| (m.flags & MORE != 0, m.chunks.iter().map(|c| c.len()).sum::<usize>())).map_err(|e| Fail::Violation(e, json!({})))?,
                            CALL_RES_CONT => parse_cont(&f.payload).map(|m| (m.flags & MORE != 0, m.chunks.iter().map(|c| c.len()).sum::<usize>())).map_err(|e| Fail::Violation(e, json!({})))?,
                            ERROR => (false, 0),
                            t => return viol("unexpected frame instead of an answer", json!({"type": t})),
                        };
                        *open.entry(f.id).or_default() += len;
                        if !more {
                            let len = open.remove(&f.id).unwrap();
                            let want = if kind == "fail" { 0 } else { size };
                            ensure!(done.insert(f.id) && len >= want && (f.ftype == ERROR) == (kind == "fail"), "an answer that was read late is wrong", json!({"id": f.id, "length": len, "type": f.ftype}));
                        }
                    }
                    _ => return viol("answers that were read late did not come", json!({"came": done.len(), "of": n})),
                }
            }
            ctx.add("unread_answers", n as u64);
            ctx.eval(&format!("unread {kind} {}", cfg.sig()), true);
            Ok(())
        })
    });
    ctx.finish(
        "A raw peer sends hostile bytes to the real server. Enumerated: every prefix and ten substitutions of every byte of seven kinds of payload. Random: mutated, dropped, duplicated, swapped, shuffled frames, wrong lengths and types, cut streams, random bytes, unfinished handshakes and requests, endless fragments, and requests whose large answers are never read. Monitors: no library panic; largest single allocation under 8 MiB; another client's calls keep succeeding; the attacked connection is closed or still answers a good request correctly; every handler run equals a request that the peer really sent per an independent parser. Non-trivial: any hostile input; distinct by kind of mutation and position.",
        &["missing args are accepted as empty ones, as the library does"],
        2000,
    )
}

// =================================================================== C13
/// What a caller may get for these response frames, per an independent lenient parser.
enum Verdict {
    Ok(RawMessage),
    AppError(RawMessage),
    Fail,
    Incomplete,
}
fn reference(frames: &[Frame], id: u32) -> Verdict {
    // pings of the server have ids of their own
    let mut it = frames.iter().filter(|f| f.id == id && f.ftype != PING_REQ);
    let Some(f) = it.next() else { return Verdict::Incomplete };
    if f.ftype != CALL_RES {
        return Verdict::Fail;
    }
    let Ok(m) = parse_call_res(&f.payload) else { return Verdict::Fail };
    if m.code > 1 || m.csum != 0 || m.headers.iter().rev().find(|h| h.0 == "as").map(|h| h.1.as_str()) != Some("raw") {
        return Verdict::Fail;
    }
    let mut a = Assembler::default();
    a.add(&m.chunks);
    let mut more = m.flags & MORE != 0;
    while more {
        let Some(f) = it.next() else { return Verdict::Incomplete };
        if f.ftype != CALL_RES_CONT && f.ftype != CALL_REQ_CONT {
            return Verdict::Fail;
        }
        let Ok(c) = parse_cont(&f.payload) else { return Verdict::Fail };
        if c.csum != 0 {
            return Verdict::Fail;
        }
        a.add(&c.chunks);
        more = c.flags & MORE != 0;
    }
    let mut v = a.args;
    v.resize(3, vec![]);
    match (String::from_utf8(v[0].clone()), String::from_utf8(v[1].clone())) {
        (Ok(x), Ok(y)) if m.code == 0 => Verdict::Ok(msg(x, y, v[2].clone())),
        (Ok(x), Ok(y)) => Verdict::AppError(msg(x, y, v[2].clone())),
        _ => Verdict::Fail,
    }
}
fn judge_client(v: &Verdict, got: &HandlerResult<RawMessage>, must_accept: bool, what: &str) -> R<&'static str> {
    match (got, v) {
        (Ok(m), Verdict::Ok(w)) if same(m, w) => Ok("ok"),
        (Err(HandlerError::MessageError(m)), Verdict::AppError(w)) if same(m, w) => Ok("app error"),
        (Ok(m), _) | (Err(HandlerError::MessageError(m)), _) => viol("call returned a message that the peer did not send", json!({"hostile_input": what, "got": brief(m)})),
        (Err(e), Verdict::Ok(_) | Verdict::AppError(_)) if must_accept => viol("intact response was refused", json!({"error": e.to_string(), "hostile_input_elsewhere": what})),
        (Err(_), _) => Ok("refused"),
    }
}
fn hex_head(b: &[u8]) -> String {
    b.iter().take(60).map(|b| format!("{b:02x}")).collect()
}
const CLIENT_COST_KINDS: u64 = 11;
/// Frames (id 7 stands for the id of the call) and bytes after them; and whether they come instead of the handshake.
fn client_cost_units(kind: u64, variant: u64, r: &mut Rng) -> (&'static str, bool, Vec<(Vec<Frame>, Vec<u8>)>) {
    let body = b"0123456789".to_vec();
    let args = vec![b"ep".to_vec(), tok(&body).into_bytes(), body];
    let overstated = |before: &[Frame], ftype: u8, p: Vec<u8>| -> Vec<(Vec<Frame>, Vec<u8>)> {
        let mut out = vec![];
        let mut push = |q: Vec<u8>| out.push(([before, &[Frame::new(ftype, 7, q)]].concat(), vec![]));
        for k in 0..p.len() {
            for n in [1, 2, 4] {
                let mut q = p.clone();
                q.iter_mut().skip(k).take(n).for_each(|b| *b = 0xff);
                if n == 2 {
                    push(q[..k + 2.min(q.len() - k)].to_vec());
                }
                if k % 3 == variant as usize % 3 || n == 2 {
                    push(q);
                }
            }
        }
        out
    };
    let good = Frame::new(CALL_RES, 7, enc_call_res(0, &ResMeta::raw(), &args));
    let first = Frame::new(CALL_RES, 7, enc_call_res(MORE, &ResMeta::raw(), &args[..1]));
    let headers = |types: &[u8]| {
        let mut out = vec![];
        for t in types {
            for len in [0u16, 1, 15, 16, 17, 0x7fff] {
                let mut b = len.to_be_bytes().to_vec();
                b.extend([*t, 0, 0xff, 0xff, 0xff, 0xff, 0, 0, 0, 0, 0, 0, 0, 0]);
                b.extend(vec![0xff; (len as usize).saturating_sub(16)]);
                b.extend([0; 20]); // what follows is no frame
                out.push((vec![], b));
            }
        }
        out
    };
    let init = enc_init(2, &[("host_port", "0.0.0.0:0"), ("process_name", "x")]);
    match kind {
        0 => ("call response", false, overstated(&[], CALL_RES, good.payload)),
        1 => ("first fragment", false, overstated(&[], CALL_RES, first.payload)),
        2 => ("continuation", false, overstated(&[first], CALL_RES_CONT, enc_cont(0, &args))),
        3 => ("error", false, overstated(&[], ERROR, enc_error(5, (1, 2, 3, 0), "some error"))),
        4 => ("init response", true, {
            // few of them, the pool waits before it tries again
            let all = overstated(&[], INIT_RES, init);
            let mut v: Vec<_> = all.into_iter().filter(|u| u.0[0].payload.starts_with(&[0, 2]) && parse_init(&u.0[0].payload).is_err()).collect();
            r.shuffle(&mut v);
            v.truncate(12);
            v.push((vec![Frame::new(INIT_RES, 7, vec![0, 2, 0xff, 0xff])], vec![]));
            v
        }),
        5 => ("init response after the handshake", false, overstated(&[], INIT_RES, init).into_iter().map(|(mut f, b)| {
            f[0].id = if r.chance(1, 2) { 7 } else { 0x7000_0000 };
            f.push(Frame::new(CALL_RES, 7, enc_call_res(0, &ResMeta::raw(), &args)));
            (f, b)
        }).collect()),
        6 => ("frame header", false, headers(&ALL_TYPES)),
        7 => ("small stray frames", false, (0..6).map(|k| {
            let mut f: Vec<Frame> = (0..400u32).map(|id| {
                let (t, p) = match k {
                    0 => (CALL_RES, enc_call_res(0, &ResMeta::raw(), &args)),
                    1 => (CALL_RES, enc_call_res(MORE, &ResMeta::raw(), &args[..1])),
                    2 => (CALL_RES_CONT, enc_cont(MORE, &args)),
                    3 => (ERROR, enc_error(5, (1, 2, 3, 0), "some error")),
                    4 => (CALL_REQ, enc_call_req(MORE, &ReqMeta::raw("svc"), &args[..1])),
                    _ => (PING_REQ, vec![]),
                };
                Frame::new(t, 0x7000_0000 + id, p)
            }).collect();
            f.push(good.clone());
            (f, vec![])
        }).collect()),
        8 => ("large stray frames", false, (0..3).map(|k| {
            let mut f: Vec<Frame> = (0..40u32).map(|id| match k {
                0 => Frame::new(CALL_RES, 0x7000_0000 + id, enc_call_res(MORE, &ResMeta::raw(), &[b"ep".to_vec(), vec![b'x'; 60_000]])),
                1 => Frame::new(CALL_RES_CONT, 0x7000_0000 + id, enc_cont(MORE, &[vec![b'x'; 60_000]])),
                _ => Frame::new(ERROR, 0x7000_0000 + id, enc_error(5, (1, 2, 3, 0), &"x".repeat(60_000))),
            }).collect();
            f.push(good.clone());
            (f, vec![])
        }).collect()),
        9 => ("endless fragments", false, (0..3).map(|k| {
            let mut f = vec![first.clone()];
            let c: Vec<Vec<u8>> = [vec![vec![]], vec![vec![b'x'; 60_000]], vec![vec![]; 2000]][k].clone();
            for _ in 0..[2000, 60, 10][k] {
                f.push(Frame::new(CALL_RES_CONT, 7, enc_cont(MORE, &c)));
            }
            (f, vec![])
        }).collect()),
        _ => ("many args", false, (0..3).map(|k| {
            let n = [100, 5000, 30_000][k];
            (vec![Frame::new(CALL_RES, 7, enc_call_res(0, &ResMeta::raw(), &vec![vec![]; n]))], vec![])
        }).collect()),
    }
}
pub fn c13(ctx: Arc<Ctx>) -> i32 {
    COUNT_ALLOC.store(true, SeqCst);
    let (min, max) = if ctx.quick() { (60, 4500) } else { (800, 400000) };
    let bodies: Vec<(&'static str, u8, Vec<u8>)> = {
        let body = b"0123456789".to_vec();
        let args = vec![b"ep".to_vec(), tok(&body).into_bytes(), body];
        vec![
            ("call response", CALL_RES, enc_call_res(0, &ResMeta::raw(), &args)),
            ("first fragment", CALL_RES, enc_call_res(MORE, &ResMeta::raw(), &args[..2])),
            ("continuation", CALL_RES_CONT, enc_cont(0, &args[1..])),
            ("error", ERROR, enc_error(5, (1, 2, 3, 0), "some error")),
            ("call request", CALL_REQ, enc_call_req(0, &ReqMeta::raw("svc"), &args)),
        ]
    };
    let nk = bodies.len() as u64;
    let bodies = Arc::new(bodies);
    // one connection, one call per malformed response: enumerated
    ctx.scenarios(0, "every_prefix_and_byte", 6, 2 * nk, 2 * nk, 0.45, move |ctx, i, mut r| {
        let bodies = bodies.clone();
        with_rt(Rt::pick(&mut r.clone()), move || async move {
            let (name, ftype, p) = bodies[(i / 2) as usize].clone();
            let mut cases: Vec<Vec<u8>> = vec![];
            if i % 2 == 0 {
                for k in 0..=p.len() {
                    cases.push(p[..k].to_vec());
                }
            } else {
                for k in 0..p.len() {
                    for x in [0u8, 1, 2, 0x7f, 0x80, 0xff, p[k] ^ 1, p[k] ^ 0x80, p[k].wrapping_add(1), p[k].wrapping_sub(1)] {
                        let mut q = p.clone();
                        q[k] = x;
                        cases.push(q);
                    }
                }
            }
            // frames with id 0, the id is filled in per call
            let cases: Arc<Vec<Vec<Frame>>> = Arc::new(
                cases
                    .into_iter()
                    .map(|q| {
                        let mut v = vec![];
                        if ftype == CALL_RES_CONT {
                            v.push(Frame::new(CALL_RES, 0, enc_call_res(MORE, &ResMeta::raw(), &[b"ep".to_vec(), b"x".to_vec()])));
                        }
                        v.push(Frame::new(ftype, 0, q));
                        v
                    })
                    .collect(),
            );
            let addr = fresh_addr();
            let lst = listen(addr).await?;
            let c2 = cases.clone();
            tokio::spawn(async move {
                while let Ok((s, _)) = lst.accept().await {
                    let cases = c2.clone();
                    tokio::spawn(async move {
                        let Ok((mut rd, mut w)) = accept_init(s).await else { return };
                        while let Got::Frame(f) = rd.frame().await {
                            let Ok(q) = parse_call_req(&f.payload) else { continue };
                            let k: usize = String::from_utf8_lossy(&q.chunks[2]).parse().unwrap_or(0);
                            let mut incomplete = true;
                            for g in &cases[k] {
                                let _ = w.frame(&Frame::new(g.ftype, f.id, g.payload.clone())).await;
                                incomplete = matches!(reference(&cases[k], 0), Verdict::Incomplete);
                            }
                            if incomplete {
                                // never completed: the peer goes away instead
                                return;
                            }
                        }
                    });
                }
            });
            let c = client(&Cfg { frame_buffer_size: *r.pick(&[1, 10, 100]), ..Cfg::default() });
            let sc = sub(&c, "svc").await?;
            let mut seen: HashMap<&str, u64> = HashMap::new();
            for (k, frames) in cases.iter().enumerate() {
                let got = call(&sc, msg("e", "h", k.to_string()), addr).await?;
                let v = reference(frames, 0);
                let o = judge_client(&v, &got, false, name)?;
                *seen.entry(o).or_default() += 1;
                ensure!(sut_panics() == 0, "library panicked on a hostile response", sut_panic_json());
                ctx.eval(&format!("{name}{}{k}", i % 2), true);
            }
            let big = BIGGEST_ALLOC.load(SeqCst);
            ensure!(big < 8 << 20, "hostile response made the library allocate excessively", json!({"bytes_in_one_allocation": big}));
            for (k, n) in seen {
                ctx.add(&format!("outcome {k}"), n);
            }
            ctx.add("malformed_responses_enumerated", cases.len() as u64);
            Ok(())
        })
    });
    // What a few hostile bytes may cost the caller: one unit at a time, nothing else runs in this process
    ctx.scenarios(3, "cost", 1, CLIENT_COST_KINDS, if ctx.quick() { CLIENT_COST_KINDS } else { 20 * CLIENT_COST_KINDS }, 0.6, |ctx, i, mut r| {
        with_rt(Rt::Current, move || async move {
            let (name, init, units) = client_cost_units(i % CLIENT_COST_KINDS, i / CLIENT_COST_KINDS, &mut r);
            let c = client(&Cfg { frame_buffer_size: *r.pick(&[1, 10, 100]), max_connections: 1, ..Cfg::default() }.no_test());
            let sc = sub(&c, "svc").await?;
            let n = units.len();
            for (frames, raw) in units {
                let addr = fresh_addr();
                let lst = listen(addr).await?;
                let bytes: Vec<u8> = frames.iter().flat_map(|f| f.bytes()).chain(raw.iter().copied()).collect();
                let (sent, nframes) = (bytes.len(), frames.len());
                let verdict = if init { Verdict::Incomplete } else { reference(&frames, 7) };
                let open = !init && raw.is_empty() && !matches!(verdict, Verdict::Incomplete);
                let f2 = frames.clone();
                let peer = tokio::spawn(async move {
                    let mut first = true;
                    while let Ok((s, _)) = lst.accept().await {
                        if std::mem::take(&mut first) && init {
                            let (mut rd, mut w) = wire(s);
                            let Got::Frame(q) = rd.frame().await else { continue };
                            for f in &f2 {
                                let _ = w.frame(&Frame::new(f.ftype, if f.id == 7 { q.id } else { f.id }, f.payload.clone())).await;
                            }
                            let _ = w.raw(&raw).await;
                            let _ = within(2, rd.frame()).await;
                            continue;
                        }
                        let Ok((mut rd, mut w)) = accept_init(s).await else { continue };
                        while let Got::Frame(q) = rd.frame().await {
                            let Ok(m) = parse_call_req(&q.payload) else { continue };
                            if m.chunks.last().map(|b| &b[..]) == Some(b"hit me") {
                                for f in &f2 {
                                    let _ = w.frame(&Frame::new(f.ftype, if f.id == 7 { q.id } else { f.id }, f.payload.clone())).await;
                                }
                                let _ = w.raw(&raw).await;
                                if !open {
                                    break;
                                }
                                continue;
                            }
                            for g in res_frames(q.id, &ResMeta::raw(), &[m.chunks]) {
                                let _ = w.frame(&g).await;
                            }
                        }
                    }
                });
                let before = LIVE_BYTES.load(SeqCst);
                PEAK_BYTES.store(before, SeqCst);
                let got = call(&sc, msg("e", "h", if init { "plain" } else { "hit me" }), addr).await?;
                if init {
                    ensure!(got.is_ok(), "call failed although the peer completes the handshake on a later attempt", json!({"input": hex_head(&bytes)}));
                } else {
                    judge_client(&verdict, &got, false, name)?;
                }
                drop(got);
                // the same or another connection, by now all of the above has been seen
                match call(&sc, msg("e", "h", "after"), addr).await? {
                    Ok(g) => ensure!(same(&g, &msg("e", "h", "after")), "wrong response after a hostile one", brief(&g)),
                    // the connection may end while the call is on its way
                    Err(e) if open => return viol("call failed after a hostile response on a connection that stays framed", json!({"error": e.to_string(), "input": hex_head(&bytes)})),
                    Err(_) => {}
                }
                let grown = PEAK_BYTES.load(SeqCst) - before;
                ctx.max(&format!("peak_growth {name}"), grown.max(0) as u64);
                let bound = (512 << 10) + (16 << 10) * nframes as i64 + 16 * sent as i64;
                ensure!(grown <= bound, "a few bytes of hostile input made memory grow out of proportion", json!({"bytes_sent": sent, "frames": nframes, "bytes_allocated": grown, "kind": name, "input": hex_head(&bytes)}));
                ensure!(sut_panics() == 0, "library panicked on a hostile response", sut_panic_json());
                peer.abort();
            }
            ctx.add("cost_units_measured", n as u64);
            ctx.eval(&format!("cost {name} {n}"), true);
            Ok(())
        })
    });
    // concurrent calls on one connection, some get hostile answers
    ctx.scenarios(1, "mutated_streams", 6, min, max, 0.9, |ctx, i, mut r| {
        with_rt(Rt::pick(&mut r.clone()), move || async move {
            let addr = fresh_addr();
            let lst = listen(addr).await?;
            let n = r.range(1, 8);
            let destroy = r.chance(1, 4);
            // a plan per call: response frames (id 0) and whether they are intact
            let mut plans: Vec<(Vec<Frame>, bool)> = vec![];
            let mut kinds: Vec<&'static str> = vec![];
            for _ in 0..n {
                let len = *r.pick(&[0, 5, 50, 300, 70_000]);
                let body = r.bytes(len);
                let args = [hostile_text(b"ep".to_vec(), &mut r), hostile_text(tok(&body).into_bytes(), &mut r), body];
                let meta = ResMeta { code: r.chance(1, 4) as u8, ..ResMeta::raw() };
                let mode = if args.iter().map(|a| a.len()).sum::<usize>() > 1000 { 4 } else { r.below(4) };
                let mut fs = res_frames(0, &meta, &fragment(&args, meta.size(), &mut r, mode));
                let mut intact = false;
                match r.below(8) {
                    0..=2 => intact = true,
                    3 if fs.len() > 1 => {
                        // the peer gives up in the middle
                        let k = r.range(1, fs.len() - 1);
                        fs.truncate(k);
                        let text = hostile_text(b"gave up".to_vec(), &mut r);
                        let text = &text[..text.len().min(60_000)];
                        fs.push(Frame::new(ERROR, 0, enc_error(*r.pick(&[0, 1, 3, 5, 6, 7, 0xff]), (0, 0, 0, 0), &String::from_utf8_lossy(text).chars().take(20_000).collect::<String>())));
                        kinds.push("broken off by an error");
                    }
                    4 if fs.len() > 1 => {
                        let k = r.below(fs.len());
                        fs.remove(k);
                        kinds.push("fragment dropped");
                    }
                    5 => {
                        let k = r.below(fs.len());
                        let f = fs[k].clone();
                        fs.insert(k, f);
                        kinds.push("frame duplicated");
                    }
                    _ => {
                        let k = r.below(fs.len());
                        let (mut f, what) = mutate(&fs[k], &mut r);
                        f.id = 0;
                        fs[k] = f;
                        kinds.push(what);
                    }
                }
                plans.push((fs, intact));
            }
            let plans = Arc::new(plans);
            let p2 = plans.clone();
            let mut fr = r.fork();
            let done = Arc::new(AtomicBool::new(false));
            let done2 = done.clone();
            tokio::spawn(async move {
                let Ok((s, _)) = lst.accept().await else { return };
                let Ok((mut rd, mut w)) = accept_init(s).await else { return };
                // wait for all requests, then answer them interleaved
                let mut queues: Vec<Vec<Frame>> = vec![];
                while queues.len() < n {
                    let Got::Frame(f) = rd.frame().await else { return };
                    let Ok(q) = parse_call_req(&f.payload) else { continue };
                    let k: usize = String::from_utf8_lossy(&q.chunks[2]).parse().unwrap_or(0);
                    let mut q: Vec<Frame> = p2[k].0.iter().map(|g| Frame::new(g.ftype, f.id, g.payload.clone())).collect();
                    q.reverse();
                    queues.push(q);
                }
                queues.retain(|q| !q.is_empty());
                let total = queues.iter().map(|q| q.len()).sum::<usize>();
                let stop_at = if destroy { fr.below(total + 1) } else { usize::MAX };
                let mut sent = 0;
                while !queues.is_empty() {
                    if sent == stop_at {
                        let k = fr.range(1, 200);
                        let junk = match fr.below(3) {
                            0 => vec![0, 3, 1, 2],                                             // shorter than a header
                            1 => vec![0, 16, 0x55, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0],      // unknown type
                            _ => fr.bytes(k),
                        };
                        let _ = w.raw(&junk).await;
                        return;
                    }
                    let k = fr.below(queues.len());
                    let f = queues[k].pop().unwrap();
                    if queues[k].is_empty() {
                        queues.swap_remove(k);
                    }
                    if fr.chance(1, 6) {
                        // stray frames for ids that nobody waits for
                        let k = fr.below(60);
                        let b = fr.bytes(k);
                        let _ = w.frame(&Frame::new(*fr.pick(&ALL_TYPES), 0x7000_0000 + fr.below(9) as u32, b)).await;
                    }
                    let _ = w.frame(&f).await;
                    sent += 1;
                }
                // calls whose answer will never be complete learn that from the end of the connection
                let t = std::time::Instant::now();
                while !done2.load(SeqCst) && t.elapsed() < Duration::from_millis(200) {
                    tokio::time::sleep(Duration::from_millis(2)).await;
                }
            });
            let c = client(&Cfg { frame_buffer_size: *r.pick(&[1, 2, 10, 100]), ..Cfg::default() });
            let sc = sub(&c, "svc").await?;
            let mut tasks = vec![];
            let what = format!("{kinds:?}");
            for k in 0..n {
                let (sc, plans, what) = (sc.clone(), plans.clone(), what.clone());
                tasks.push(tokio::spawn(async move {
                    let got = call(&sc, msg("e", "h", k.to_string()), addr).await?;
                    judge_client(&reference(&plans[k].0, 0), &got, plans[k].1 && !destroy, &what)
                }));
            }
            let outs = join_all(tasks).await?;
            done.store(true, SeqCst);
            ensure!(sut_panics() == 0, "library panicked on a hostile response", sut_panic_json());
            let big = BIGGEST_ALLOC.load(SeqCst);
            ensure!(big < 8 << 20, "hostile response made the library allocate excessively", json!({"bytes_in_one_allocation": big}));
            for o in outs {
                ctx.add(&format!("outcome {o}"), 1);
            }
            kinds.sort();
            kinds.dedup();
            ctx.observe("mutation_mixes", hash_str(&format!("{kinds:?}{destroy}")));
            ctx.eval(&format!("{kinds:?}{n}{destroy}"), !kinds.is_empty() || destroy);
            if i < 3 {
                ctx.sample(json!({"concurrent_calls": n, "mutations": kinds, "connection_destroyed": destroy}));
            }
            // the client as a whole is unharmed
            let (srv, good) = server(&Cfg::default()).await?;
            let ss = sub(&srv, "svc").await?;
            reg_sync(&ss, "echo", echo()).await?;
            await_listening(good).await?;
            let m = msg("echo", "h", r.bytes(100));
            match call(&sc, m.clone(), good).await? {
                Ok(g) => ensure!(same(&g, &m), "wrong response from another server after hostile responses", diff(&m, &g)),
                Err(e) => return viol("call to another server failed after hostile responses", json!({"error": e.to_string()})),
            }
            Ok(())
        })
    });
    // hostile answers, then the same address turns good
    ctx.scenarios(2, "recovers", 6, if ctx.quick() { 12 } else { 100 }, max, 1.0, |ctx, _i, mut r| {
        with_rt(Rt::pick(&mut r.clone()), move || async move {
            let addr = fresh_addr();
            let lst = listen(addr).await?;
            let bad_conns = r.range(1, 4);
            let mut fr = r.fork();
            tokio::spawn(async move {
                let mut k = 0;
                while let Ok((s, _)) = lst.accept().await {
                    k += 1;
                    let bad = k <= bad_conns;
                    let mut r = fr.fork();
                    tokio::spawn(async move {
                        let Ok((mut rd, mut w)) = accept_init(s).await else { return };
                        while let Got::Frame(f) = rd.frame().await {
                            let Ok(q) = parse_call_req(&f.payload) else { continue };
                            if bad {
                                let n = r.range(1, 300);
                                let mut b = r.bytes(n);
                                b[0] = 0;
                                b.extend_from_slice(&[0; 40]);
                                let _ = w.raw(&b).await;
                                return;
                            }
                            let chunks = q.chunks.clone();
                            for g in res_frames(f.id, &ResMeta::raw(), &[chunks]) {
                                let _ = w.frame(&g).await;
                            }
                        }
                    });
                }
            });
            let c = client(&Cfg::random(&mut r).no_test());
            let sc = sub(&c, "svc").await?;
            let mut failed = 0;
            loop {
                let m = msg("e", "h", r.bytes(20));
                match call(&sc, m.clone(), addr).await? {
                    Ok(g) => {
                        ensure!(same(&g, &m), "call returned a message that the peer did not send", diff(&m, &g));
                        break;
                    }
                    Err(_) => failed += 1,
                }
                // each bad connection may fail one call; a call may also meet a connection not yet known to be dead
                ensure!(failed < 200, "client never recovers from hostile responses although the peer is good again", json!({"failed_calls": failed, "bad_connections": bad_conns}));
                tokio::time::sleep(Duration::from_millis(5)).await;
            }
            ctx.add("recoveries", 1);
            ctx.eval(&format!("recover{bad_conns}{failed}"), failed > 0);
            Ok(())
        })
    });
    ctx.finish(
        "A raw peer answers the real client with hostile bytes. Enumerated: every prefix and ten substitutions of every byte of five kinds of response payload, one call each. Random: mutated, dropped, duplicated, interleaved response frames for up to 8 concurrent calls on one connection, stray ids, junk that destroys the connection. Monitors: no library panic; largest single allocation under 8 MiB; every call ends once its peer is done or gone; a returned message equals what an independent parser reads from the frames sent under the id of that call; intact responses on a connection that stays framed are delivered; calls to other servers, and to the same address once it behaves, succeed. Non-trivial: any hostile input; distinct by kind of mutation and position.",
        &["missing args are accepted as empty ones, as the library does"],
        1000,
    )
}

// =================================================================== C14
pub fn c14(ctx: Arc<Ctx>) -> i32 {
    let (min, max) = if ctx.quick() { (60, 2400) } else { (600, 200000) };
    ctx.scenarios(0, "server_side", 6, min, max, 0.45, |ctx, i, mut r| {
        with_rt(Rt::pick(&mut r.clone()), move || async move {
            let v = victim(&Cfg::random(&mut r).no_test()).await?;
            for round in 0..6u64 {
                let good_init = enc_init(2, &[("host_port", "0.0.0.0:0"), ("process_name", "tmon")]);
                let kind = (i * 6 + round) % 14;
                let (what, first): (&str, Vec<u8>) = match kind {
                    0 => ("no init at all", vec![]),
                    1 => ("version 1", Frame::new(INIT_REQ, 1, enc_init(1, &[])).bytes()),
                    2 => {
                        let x = loop {
                            let x = r.next() as u16;
                            if x != 2 {
                                break x;
                            }
                        };
                        ("random version", Frame::new(INIT_REQ, 1, enc_init(x, &[("host_port", "0.0.0.0:0")])).bytes())
                    }
                    3 => ("version 3", Frame::new(INIT_REQ, 1, enc_init(3, &[])).bytes()),
                    4 => ("init response", Frame::new(INIT_RES, 1, good_init.clone()).bytes()),
                    5 => ("ping", Frame::new(PING_REQ, 1, vec![]).bytes()),
                    6 => ("error", Frame::new(ERROR, 1, enc_error(5, (0, 0, 0, 0), "x")).bytes()),
                    7 => ("empty init", Frame::new(INIT_REQ, 1, vec![]).bytes()),
                    8 => {
                        let k = r.below(good_init.len());
                        ("truncated init", Frame::new(INIT_REQ, 1, good_init[..k].to_vec()).bytes())
                    }
                    9 => {
                        let k = r.range(16, 80);
                        let mut b = r.bytes(k);
                        b[0] = 0;
                        b[1] = 16;
                        b[2] = 0x77;
                        ("garbage", b)
                    }
                    10 => ("call response", Frame::new(CALL_RES, 1, enc_call_res(0, &ResMeta::raw(), &[b"ep".to_vec(), vec![], vec![]])).bytes()),
                    11 => ("version 0", Frame::new(INIT_REQ, 1, enc_init(0, &[])).bytes()),
                    12 => ("overstated header count", Frame::new(INIT_REQ, 1, vec![0, 2, 0xff, 0xff, 0, 1, b'a']).bytes()),
                    _ => ("version 512 (byte order)", Frame::new(INIT_REQ, 1, enc_init(0x0200, &[])).bytes()),
                };
                let body = format!("gate{round}").into_bytes();
                let args = [b"ep".to_vec(), tok(&body).into_bytes(), body];
                let meta = ReqMeta::raw("svc");
                let call_req: Vec<u8> = req_frames(7, &meta, &fragment(&args, meta.size(), &mut r, 0)).iter().flat_map(|f| f.bytes()).collect();
                let (mut rd, mut w) = wire(connect_retry(v.addr).await?);
                // in one write, in two, or bytewise
                if r.chance(1, 2) {
                    let mut b = first.clone();
                    b.extend(&call_req);
                    let mode = *r.pick(&[0, 2]);
                    let _ = w.split(&b, &mut r, mode).await;
                } else {
                    let _ = w.raw(&first).await;
                    jitter(&mut r).await;
                    let _ = w.raw(&call_req).await;
                }
                let got = match within(HANG, rd.closed()).await {
                    Ok(f) => f,
                    Err(Hang) => return viol("server keeps a connection open whose handshake failed (bounded-progress monitor)", json!({ "first_frame": what })),
                };
                if let Some(f) = got.iter().find(|f| f.ftype != ERROR) {
                    return viol("server answered on a connection whose handshake failed", json!({"first_frame": what, "answer_type": f.ftype, "id": f.id}));
                }
                v.canary(&mut r).await?;
                let runs = v.runs.lock().unwrap().len();
                ensure!(runs == 0, "handler ran for a request on a connection without a valid handshake", json!({ "first_frame": what }));
                ctx.add("failed_handshakes_server", 1);
                ctx.eval(&format!("srv {what}"), true);
                ctx.observe("server_handshake_cases", hash_str(what));
                if i < 1 {
                    ctx.sample(json!({"side": "server", "first_frame": what, "answers": got.len()}));
                }
            }
            Ok(())
        })
    });
    // valid handshakes have to be accepted: odd headers, ids, segmentation
    ctx.scenarios(1, "server_accepts", 6, min / 2, max, 0.6, |ctx, _i, mut r| {
        with_rt(Rt::pick(&mut r.clone()), move || async move {
            let v = victim(&Cfg::random(&mut r).no_test()).await?;
            for _ in 0..3 {
                let (mut rd, mut w) = wire(connect_retry(v.addr).await?);
                let mut hs: Vec<(String, String)> = vec![("host_port".into(), "0.0.0.0:0".into()), ("process_name".into(), "p".into())];
                for k in 0..r.below(5) {
                    let n = r.below(300);
                    hs.push((format!("k{k}"), r.ascii(n)));
                }
                if r.chance(1, 4) {
                    hs.clear();
                }
                if r.chance(1, 3) {
                    // many or long headers, as far as one frame goes
                    let n = *r.pick(&[17, 64, 65, 100, 128, 256, 1000]);
                    for k in 0..n {
                        hs.push((format!("h{k}"), "v".into()));
                    }
                    let n = *r.pick(&[0, 255, 256, 1024, 20_000, 40_000]);
                    hs.push(("long".into(), r.ascii(n)));
                }
                let id = *r.pick(&[0, 1, 2, 77, u32::MAX - 1]);
                let h: Vec<(&str, &str)> = hs.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
                let b = Frame::new(INIT_REQ, id, enc_init(2, &h)).bytes();
                let mode = r.below(4);
                w.split(&b, &mut r, mode).await.map_err(|e| Fail::Inconclusive(e.to_string()))?;
                let f = match within(HANG, rd.expect()).await {
                    Ok(f) => f?,
                    Err(Hang) => return viol("server never answered a valid init request", json!({"headers": hs.len(), "id": id})),
                };
                ensure!(f.ftype == INIT_RES && f.id == id, "valid init request was not answered with an init response under its id", json!({"type": f.ftype, "id": f.id, "expected_id": id}));
                let (ver, _) = parse_init(&f.payload).map_err(|e| Fail::Violation("malformed init response".into(), json!({ "e": e })))?;
                ensure!(ver == 2, "init response with another version", json!({ "version": ver }));
                ensure!(probe(&mut rd, &mut w, 1000).await?, "connection closed after a valid handshake", json!({}));
                ctx.add("valid_handshakes_server", 1);
                ctx.eval(&format!("ok{}{id}{mode}", hs.len()), true);
            }
            Ok(())
        })
    });
    // client side: nothing but init before a valid init response; bad peers are not used
    ctx.scenarios(2, "client_side", 6, min, max, 0.85, |ctx, i, mut r| {
        with_rt(Rt::pick(&mut r.clone()), move || async move {
            let addr = fresh_addr();
            let lst = listen(addr).await?;
            let bad = r.range(1, 3);
            let log: Arc<Mutex<Vec<(String, Vec<u8>)>>> = Default::default();
            let kinds: Arc<Mutex<Vec<&'static str>>> = Default::default();
            let (log2, kinds2) = (log.clone(), kinds.clone());
            let mut fr = r.fork();
            tokio::spawn(async move {
                let mut k = 0u64;
                while let Ok((s, _)) = lst.accept().await {
                    k += 1;
                    let is_bad = k <= bad as u64;
                    let (log, kinds, mut r) = (log2.clone(), kinds2.clone(), fr.fork());
                    let kind = (i + k) % 10;
                    tokio::spawn(async move {
                        if !is_bad {
                            let Ok((mut rd, mut w)) = accept_init(s).await else { return };
                            while let Got::Frame(f) = rd.frame().await {
                                if f.ftype == PING_REQ {
                                    let _ = w.frame(&Frame::new(PING_RES, f.id, vec![])).await;
                                    continue;
                                }
                                let Ok(q) = parse_call_req(&f.payload) else { continue };
                                for g in res_frames(f.id, &ResMeta::raw(), &[q.chunks]) {
                                    let _ = w.frame(&g).await;
                                }
                            }
                            return;
                        }
                        let (mut rd, mut w) = wire(s);
                        let Got::Frame(f) = rd.frame().await else { return };
                        let mut types = vec![f.ftype];
                        let (name, ans): (&'static str, Vec<u8>) = match kind {
                            0 => ("version 1", Frame::new(INIT_RES, f.id, enc_init(1, &[])).bytes()),
                            1 => ("version 3", Frame::new(INIT_RES, f.id, enc_init(3, &[("a", "b")])).bytes()),
                            2 => ("error frame", Frame::new(ERROR, f.id, enc_error(5, (0, 0, 0, 0), "go away")).bytes()),
                            3 => ("call response", Frame::new(CALL_RES, f.id, enc_call_res(0, &ResMeta::raw(), &[vec![], vec![], vec![]])).bytes()),
                            4 => ("empty init", Frame::new(INIT_RES, f.id, vec![]).bytes()),
                            5 => ("truncated init", Frame::new(INIT_RES, f.id, vec![0, 2, 0, 9, 0]).bytes()),
                            6 => ("ping response", Frame::new(PING_RES, f.id, vec![]).bytes()),
                            7 => ("closed", vec![]),
                            8 => ("init request", Frame::new(INIT_REQ, f.id, enc_init(2, &[])).bytes()),
                            _ => ("garbage error", Frame::new(ERROR, f.id, vec![5, 0]).bytes()),
                        };
                        kinds.lock().unwrap().push(name);
                        let _ = w.split(&ans, &mut r, 2).await;
                        if kind != 7 {
                            // whatever else the client sends here is recorded, and answered invitingly
                            let t = std::time::Instant::now();
                            loop {
                                let left = Duration::from_millis(700).saturating_sub(t.elapsed());
                                match tokio::time::timeout(left, rd.frame_cancel_safe()).await {
                                    Ok(Got::Frame(g)) => {
                                        types.push(g.ftype);
                                        if let Ok(q) = parse_call_req(&g.payload) {
                                            for x in res_frames(g.id, &ResMeta::raw(), &[q.chunks]) {
                                                let _ = w.frame(&x).await;
                                            }
                                        }
                                    }
                                    _ => break,
                                }
                            }
                        }
                        log.lock().unwrap().push((name.to_string(), types));
                    });
                }
            });
            let mut cfg = Cfg::random(&mut r);
            cfg.test_connection = r.chance(1, 3);
            let c = client(&cfg);
            let mut tasks = vec![];
            for k in 0..r.range(1, 4) {
                let sc = sub(&c, "svc").await?;
                tasks.push(tokio::spawn(async move {
                    let m = msg("e", format!("{k}"), "body");
                    match call(&sc, m.clone(), addr).await? {
                        Ok(g) => ensure!(same(&g, &m), "wrong response", diff(&m, &g)),
                        Err(e) => return viol("call failed although the peer completes the handshake on a later attempt", json!({"error": e.to_string()})),
                    }
                    Ok(())
                }));
            }
            join_all(tasks).await?;
            let nbad = kinds.lock().unwrap().len();
            ensure!(settle(|| log.lock().unwrap().len() >= nbad).await, "harness: bad connections unaccounted for", json!({}));
            for (name, types) in log.lock().unwrap().iter() {
                ensure!(types[0] == INIT_REQ, "client did not start with an init request", json!({"types": types}));
                ensure!(types.len() == 1, "client used a connection whose handshake had failed", json!({"init_answer": name, "frame_types_sent": types}));
                ctx.add("failed_handshakes_client", 1);
                ctx.eval(&format!("cli {name}"), true);
                ctx.observe("client_handshake_cases", hash_str(name));
            }
            if i < 3 {
                ctx.sample(json!({"side": "client", "init_answers": kinds.lock().unwrap().clone()}));
            }
            Ok(())
        })
    });
    // client side: connections whose handshake is never answered do not stand in the way of later ones
    ctx.scenarios(3, "never_answered", 3, 4, if ctx.quick() { 4 } else { 80 }, 1.0, |ctx, i, mut r| {
        with_rt(Rt::Current, move || async move {
            let addr = fresh_addr();
            let lst = listen(addr).await?;
            let kind = i % 4;
            let max = *r.pick(&[1u32, 1, 2]);
            let bad = max as usize * r.range(1, 3);
            let log: Arc<Mutex<Vec<u8>>> = Default::default();
            let log2 = log.clone();
            let held: Arc<Mutex<usize>> = Default::default();
            let held2 = held.clone();
            tokio::spawn(async move {
                let mut k = 0;
                while let Ok((s, _)) = lst.accept().await {
                    k += 1;
                    let (log, held, is_bad) = (log2.clone(), held2.clone(), k <= bad);
                    tokio::spawn(async move {
                        if is_bad {
                            *held.lock().unwrap() += 1;
                            let (mut rd, mut w) = wire(s);
                            let Got::Frame(f) = rd.frame().await else { return };
                            log.lock().unwrap().push(f.ftype);
                            let b = Frame::new(INIT_RES, f.id, enc_init(2, &[("a", "b")])).bytes();
                            match kind {
                                0 => {}
                                1 => { let _ = w.raw(&b[..1 + k * 7 % (b.len() - 1)]).await; }
                                2 => { let _ = w.frame(&Frame::new(INIT_RES, f.id.wrapping_add(77), enc_init(2, &[]))).await; }
                                _ => { let _ = w.frame(&Frame::new(PING_REQ, 5, vec![])).await; }
                            }
                            while let Got::Frame(f) = rd.frame().await {
                                log.lock().unwrap().push(f.ftype);
                            }
                            *held.lock().unwrap() -= 1;
                            return;
                        }
                        let Ok((mut rd, mut w)) = accept_init(s).await else { return };
                        while let Got::Frame(f) = rd.frame().await {
                            if f.ftype == PING_REQ {
                                let _ = w.frame(&Frame::new(PING_RES, f.id, vec![])).await;
                                continue;
                            }
                            let Ok(q) = parse_call_req(&f.payload) else { continue };
                            for g in res_frames(f.id, &ResMeta::raw(), &[q.chunks]) {
                                let _ = w.frame(&g).await;
                            }
                        }
                    });
                }
            });
            let cfg = Cfg { max_connections: max, test_connection: r.chance(1, 3), lifetime: None, ..Cfg::default() };
            let c = client(&cfg);
            let sc = sub(&c, "svc").await?;
            // calls made meanwhile fail, or wait for a later connection
            let mut failed = 0;
            for k in 0..bad {
                let sc2 = sc.clone();
                let call = tokio::spawn(async move { sc2.send(msg("e", format!("early {k}"), "b"), addr).await });
                pass_hours(120).await;
                let got = within(HANG, call).await.map_err(|_| Fail::Violation("a call never completed because the peer does not answer the handshake".into(), json!({"kind": kind})))?;
                failed += got.map_err(|e| Fail::Inconclusive(e.to_string()))?.is_err() as usize;
            }
            pass_hours(120).await;
            for k in 0..4 {
                let sc2 = sc.clone();
                let m = msg("e", format!("{k}"), "b");
                let m2 = m.clone();
                let mut call = tokio::spawn(async move { sc2.send(m2, addr).await });
                let got = match within(HANG_CONNECT, &mut call).await {
                    Ok(g) => g.map_err(|e| Fail::Inconclusive(e.to_string()))?,
                    Err(_) => return viol("calls never complete after connections whose handshake was not answered", json!({"kind": kind, "max_connections": max, "failed_before": failed})),
                };
                match got {
                    Ok(g) => ensure!(same(&g, &m), "wrong response", diff(&m, &g)),
                    Err(e) => return viol("connections whose handshake was never answered stand in the way of later ones: calls fail although the peer is healthy again", json!({"error": e.to_string(), "kind": kind, "max_connections": max, "failed_before": failed})),
                }
            }
            ensure!(log.lock().unwrap().iter().all(|t| *t == INIT_REQ), "client used a connection whose handshake was never answered", json!({"frame_types": log.lock().unwrap().clone()}));
            ensure!(settle(|| *held.lock().unwrap() == 0).await, "connections whose handshake was never answered are kept open", json!({"open": *held.lock().unwrap()}));
            ctx.add("handshakes_never_answered", bad as u64);
            ctx.eval(&format!("never {kind} {max} {bad} {failed}"), true);
            ctx.observe("client_handshake_cases", hash_str(&format!("never {kind}")));
            Ok(())
        })
    });
    ctx.finish(
        "Server side: a raw peer opens connections with a missing, malformed or wrong-version init (14 kinds) followed by a perfectly good call request; no handler may run, nothing but an Error frame may come back, the connection must be closed and another client must be served meanwhile. Valid inits with odd headers, ids and segmentation must be accepted under their id with version 2. Client side: a raw server answers init with 10 kinds of bad answers on its first connections; on those the client must send nothing but its init request, and calls must succeed over a later good connection; connections on which init is never answered (hand-driven clock) are closed and do not stand in the way of later ones. Non-trivial: every case; distinct by kind.",
        &[],
        25,
    )
}
