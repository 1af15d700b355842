//! C06 outcome fidelity, C07 failure isolation, C08 peer loss, C09 recovery, C19 cancellation.
use crate::core::*;
use crate::ensure;
use crate::net::*;
use crate::p_conc::{join_all, must_ok};
use crate::sut::*;
use crate::wire::*;
use serde_json::json;
use std::net::SocketAddr;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tchannel_rs::errors::{CodecError, ConnectionError, HandlerError, TChannelError};
use tchannel_rs::handler::HandlerResult;
use tchannel_rs::messages::{JsonMessage, MessageChannel, RawMessage};
use tchannel_rs::SubChannel;

fn short(e: &impl std::fmt::Display) -> String {
    format!("{:.300}", e.to_string())
}
fn token(r: &mut Rng) -> String {
    format!("tok{:016x}", r.next())
}
/// The text is in the error, as it is or escaped the way `Debug` does it.
fn carries(e: &str, t: &str) -> bool {
    let esc = format!("{t:?}");
    e.contains(t) || e.contains(&esc[1..esc.len() - 1])
}
/// A text of about `n` bytes out of characters of `n` to `k` bytes, line breaks and quotes among them.
fn any_text(r: &mut Rng, n: usize) -> String {
    let sets: [&[char]; 5] = [&['a', 'z', ' '], &['é', 'ß'], &['語', '€'], &['😀', '𝄞'], &['a', '\n', '"', '\\', '\t', '\r', '\u{0}', '\u{7f}', 'é', '語', '😀', '{', '}', '%']];
    let set = *r.pick(&sets);
    let mut s = "x".repeat(r.below(4));
    while s.len() < n {
        s.push(*r.pick(set));
    }
    s
}

// =================================================================== C06
/// What a handler was told to do, and so what the caller has to see.
#[derive(Clone, Debug)]
enum Outcome {
    Ok,
    MessageError,
    General(String),
    Internal(u8, String),
}
fn act<M>(o: &Outcome, m: M) -> Result<M, HandlerError<M>>
where
    M: tchannel_rs::messages::Message,
{
    match o {
        Outcome::Ok => Ok(m),
        Outcome::MessageError => Err(HandlerError::MessageError(m)),
        Outcome::General(t) => Err(HandlerError::GeneralError(t.clone())),
        Outcome::Internal(k, t) => Err(HandlerError::InternalError(match k {
            0 => TChannelError::Error(t.clone()),
            1 => TChannelError::CodecError(CodecError::Error(t.clone())),
            2 => TChannelError::CodecError(CodecError::from(std::io::Error::new(std::io::ErrorKind::Other, t.clone()))),
            3 => TChannelError::ConnectionError(ConnectionError::Error(t.clone())),
            _ => TChannelError::ConnectionError(ConnectionError::from(std::io::Error::new(std::io::ErrorKind::Other, t.clone()))),
        })),
    }
}
fn parse_outcome(h: &str) -> Outcome {
    let mut p = h.splitn(3, ' ');
    let (k, n, t) = (p.next().unwrap_or(""), p.next().unwrap_or("0").parse().unwrap_or(0), p.next().unwrap_or("").to_string());
    match k {
        "ok" => Outcome::Ok,
        "msg" => Outcome::MessageError,
        "gen" => Outcome::General(t),
        _ => Outcome::Internal(n, t),
    }
}
fn program(o: &Outcome, uid: usize) -> String {
    match o {
        Outcome::Ok => format!("ok {uid}"),
        Outcome::MessageError => format!("msg {uid}"),
        Outcome::General(t) => format!("gen 0 {t}"),
        Outcome::Internal(k, t) => format!("int {k} {t}"),
    }
}
fn random_outcome(r: &mut Rng) -> Outcome {
    let t = if r.chance(1, 6) {
        let n = r.range(100, 1000);
        format!("{}{}", token(r), "z".repeat(n))
    } else {
        token(r)
    };
    match r.below(6) {
        0 | 1 => Outcome::Ok,
        2 | 3 => Outcome::MessageError,
        4 => Outcome::General(t),
        _ => Outcome::Internal(r.below(5) as u8, t),
    }
}
pub fn c06(ctx: Arc<Ctx>) -> i32 {
    crate::p_hours::outcomes(&ctx);
    let (min, max) = if ctx.quick() { (40, 1800) } else { (400, 100000) };
    ctx.scenarios(0, "handler_outcomes", 6, min, max, 0.6, |ctx, i, mut r| {
        let rt = Rt::pick(&mut r);
        with_rt(rt, move || async move {
            let cfg = Cfg { server_tasks: *r.pick(&[1, 4, 16]), ..Cfg::random(&mut r) };
            let (srv, addr) = server(&cfg).await?;
            let ss = sub(&srv, "svc").await?;
            let runs = Arc::new(Mutex::new(Vec::<String>::new()));
            {
                let runs = runs.clone();
                reg_sync(&ss, "sync", raw_sync(move |m: RawMessage| {
                    runs.lock().unwrap().push(m.header().clone());
                    let o = parse_outcome(m.header());
                    act(&o, m)
                })).await?;
            }
            {
                let runs = runs.clone();
                let seed = r.next();
                reg(&ss, "async", raw_async(move |m: RawMessage| {
                    let runs = runs.clone();
                    let mut r = Rng::new(seed ^ m.body().len() as u64);
                    async move {
                        runs.lock().unwrap().push(m.header().clone());
                        jitter(&mut r).await;
                        let o = parse_outcome(m.header());
                        act(&o, m)
                    }
                })).await?;
            }
            {
                let runs = runs.clone();
                reg_sync(&ss, "json", json_sync(move |m: JsonMessage| {
                    let h = m.headers().get("do").and_then(|v| v.as_str()).unwrap_or("").to_string();
                    runs.lock().unwrap().push(h.clone());
                    act(&parse_outcome(&h), m)
                })).await?;
            }
            sub(&srv, "empty").await?;
            await_listening(addr).await?;
            let c = client(&cfg);
            let seq = r.chance(1, 2);
            let uid = Arc::new(AtomicUsize::new(0));
            let expected = Arc::new(Mutex::new(Vec::<String>::new()));
            let ncallers = if seq { 1 } else { r.range(2, 8) };
            let mut tasks = vec![];
            for _ in 0..ncallers {
                let (svc, empty, none) = (sub(&c, "svc").await?, sub(&c, "empty").await?, sub(&c, "nosuchservice").await?);
                let (uid, expected, ctx) = (uid.clone(), expected.clone(), ctx.clone());
                let mut r = r.fork();
                tasks.push(tokio::spawn(async move {
                    for _ in 0..r.range(3, 10) {
                        let o = random_outcome(&mut r);
                        let h = program(&o, uid.fetch_add(1, SeqCst));
                        let n = if r.chance(1, 5) { r.range(60_000, 200_000) } else { r.below(200) };
                        let m = msg(*r.pick(&["sync", "async"]), h.clone(), r.bytes(n));
                        let kind;
                        match r.below(12) {
                            0..=6 => {
                                expected.lock().unwrap().push(h.clone());
                                let got = call(&svc, m.clone(), addr).await?;
                                judge_raw(&o, &m, got)?;
                                kind = format!("raw {o:?}");
                            }
                            7 | 8 => {
                                expected.lock().unwrap().push(h.clone());
                                let j = JsonMessage::new("json".into(), serde_json::from_value(json!({"do": h, "n": n})).unwrap(), serde_json::from_value(json!({"body": "é\"x".repeat(n / 10)})).unwrap());
                                let got = jcall(&svc, j.clone(), addr).await?;
                                judge_json(&o, &j, got)?;
                                kind = format!("json {o:?}");
                            }
                            9 => {
                                // wrong scheme both ways
                                if r.chance(1, 2) {
                                    let j = JsonMessage::new("sync".into(), serde_json::from_value(json!({"do": h})).unwrap(), Default::default());
                                    must_fail("a json request to a raw handler", jcall(&svc, j, addr).await?)?;
                                } else {
                                    let m = msg("json", json!({ "do": h }).to_string(), "{}");
                                    must_fail("a raw request to a json handler", call(&svc, m, addr).await?)?;
                                }
                                kind = "scheme mismatch".to_string();
                            }
                            10 => {
                                let m = msg(*r.pick(&["", "SYNC", "sync ", "nosuchendpoint"]), h, "");
                                must_fail("a request for an endpoint nobody registered", call(if r.chance(1, 2) { &svc } else { &empty }, m, addr).await?)?;
                                kind = "unknown endpoint".to_string();
                            }
                            _ => {
                                must_fail("a request for a service nobody registered", call(&none, m, addr).await?)?;
                                kind = "unknown service".to_string();
                            }
                        }
                        ctx.add(&format!("outcome {}", kind.split(&['(', '"'][..]).next().unwrap().trim()), 1);
                        ctx.eval(&format!("{kind} {n} {}", cfg_free(&kind)), true);
                        if i < 1 {
                            ctx.sample(json!({"outcome": kind, "body_len": n}));
                        }
                    }
                    Ok(())
                }));
            }
            join_all(tasks).await?;
            let mut a = runs.lock().unwrap().clone();
            let mut b = expected.lock().unwrap().clone();
            a.sort();
            b.sort();
            ensure!(a == b, "handlers did not run exactly once per accepted request and never for a refused one", json!({"ran": a.len(), "accepted": b.len(), "ran_unexpectedly": a.iter().filter(|x| !b.contains(x)).take(3).collect::<Vec<_>>()}));
            Ok(())
        })
    });
    // What a server says is what the caller sees, whatever the server is
    let (min, max) = if ctx.quick() { (40, 1800) } else { (400, 100000) };
    ctx.scenarios(1, "server_outcomes", 6, min, max, 1.0, |ctx, i, mut r| {
        let rt = Rt::pick(&mut r);
        with_rt(rt, move || async move {
            let addr = fresh_addr();
            let l = listen(addr).await?;
            let plan: Arc<Mutex<Vec<Vec<Frame>>>> = Default::default(); // frames of the next answers (id patched)
            let plan2 = plan.clone();
            let fake = tokio::spawn(async move {
                loop {
                    let Ok((s, _)) = l.accept().await else { continue };
                    let plan = plan2.clone();
                    tokio::spawn(async move {
                        let Ok((mut rd, mut w)) = accept_init(s).await else { return };
                        loop {
                            match rd.frame().await {
                                Got::Frame(f) if f.ftype == CALL_REQ || f.ftype == CALL_REQ_CONT => {
                                    if f.payload[0] & MORE != 0 {
                                        continue;
                                    }
                                    let fs = plan.lock().unwrap().pop();
                                    for mut x in fs.unwrap_or_default() {
                                        x.id = f.id;
                                        let _ = w.frame(&x).await;
                                    }
                                }
                                Got::Frame(f) if f.ftype == PING_REQ => {
                                    let _ = w.frame(&Frame::new(PING_RES, f.id, vec![])).await;
                                }
                                Got::Frame(_) => {}
                                _ => return,
                            }
                        }
                    });
                }
            });
            let cfg = Cfg { frame_buffer_size: *r.pick(&[1, 2, 100]), test_connection: r.chance(1, 3), ..Default::default() };
            let c = client(&cfg);
            let sc = sub(&c, "svc").await?;
            let mut texts: Vec<(u8, String)> = vec![];
            let same_tok = token(&mut r);
            for k in 0..24 {
                let args = [r.ascii(3).into_bytes(), r.ascii(r.clone().below(40)).into_bytes(), { let n = *r.pick(&[0, 5, 300, 70_000, 200_000]); r.bytes(n) }];
                let want = msg(String::from_utf8(args[0].clone()).unwrap(), String::from_utf8(args[1].clone()).unwrap(), args[2].clone());
                let mode = r.below(5);
                let mut meta = ResMeta::raw();
                let req = msg("e", "h", "b");
                let label;
                match r.below(5) {
                    0 | 1 => {
                        meta.code = r.below(2) as u8;
                        let fp = fragment(&args, meta.size(), &mut r, mode);
                        let nf = fp.len();
                        *plan.lock().unwrap() = vec![res_frames(0, &meta, &fp)];
                        let got = call(&sc, req, addr).await?;
                        judge_raw(if meta.code == 0 { &Outcome::Ok } else { &Outcome::MessageError }, &want, got)?;
                        label = format!("code {} frames {nf}", meta.code);
                    }
                    2 => {
                        // an undefined response code is not a success
                        meta.code = r.range(2, 255) as u8;
                        let fp = fragment(&args, meta.size(), &mut r, mode);
                        *plan.lock().unwrap() = vec![res_frames(0, &meta, &fp)];
                        if let Ok(m) = call(&sc, req, addr).await? {
                            return viol("a response with an undefined code was reported as success", json!({"code": meta.code, "got": brief(&m)}));
                        }
                        label = format!("undefined code {}", meta.code);
                    }
                    3 => {
                        let code = *r.pick(&[1u8, 2, 3, 4, 5, 6, 7, 8, 255]);
                        let t = match r.below(4) {
                            0 | 1 => same_tok.clone(),
                            2 => token(&mut r),
                            _ => {
                                let n = *r.pick(&[0, 1, 10, 300, 20_000, 65_000]);
                                any_text(&mut r, n)
                            }
                        };
                        *plan.lock().unwrap() = vec![vec![Frame::new(ERROR, 0, enc_error(code, (r.next(), 0, 5, 1), &t))]];
                        let e = must_fail("a request answered with an error frame", call(&sc, req, addr).await?)?;
                        ensure!(carries(&e, &t), "the content of an error frame did not reach the caller", json!({"code": code, "text": t, "caller_got": e}));
                        if t == same_tok {
                            texts.push((code, e.replace(|c: char| c.is_ascii_digit(), "")));
                        }
                        label = format!("error frame {code}");
                    }
                    _ => {
                        // error in the middle of a response
                        let code = *r.pick(&[1u8, 2, 3, 4, 5, 6, 7, 255]);
                        let fp = fragment(&args, meta.size(), &mut r, 2);
                        let mut fs = res_frames(0, &meta, &fp);
                        if fs.len() < 2 {
                            continue;
                        }
                        let cut = r.range(1, fs.len() - 1);
                        fs.truncate(cut);
                        let t = token(&mut r);
                        fs.push(Frame::new(ERROR, 0, enc_error(code, (0, 0, 0, 0), &t)));
                        *plan.lock().unwrap() = vec![fs];
                        let e = must_fail("a response interrupted by an error frame", call(&sc, req, addr).await?)?;
                        ensure!(carries(&e, &t), "the content of an error frame did not reach the caller", json!({"code": code, "text": t, "caller_got": e}));
                        label = format!("error {code} after {cut} frames");
                    }
                }
                ctx.eval(&format!("{label} m{mode} l{}", args[2].len()), true);
                ctx.add("server_answers_judged", 1);
                if i < 1 && k < 6 {
                    ctx.sample(json!({ "answer": label }));
                }
            }
            for a in &texts {
                for b in &texts {
                    ensure!((a.0 == b.0) || a.1 != b.1, "errors with different codes cannot be told apart by the caller", json!({"codes": [a.0, b.0], "text": a.1}));
                }
            }
            fake.abort();
            Ok(())
        })
    });
    // Which message or text a handler answers with does not change what kind of answer it is
    let n = 2 * 2 * 3 * 27;
    ctx.scenarios(2, "dictated_messages", 6, 12, 12, 1.0, move |ctx, i, mut r| {
        let rt = Rt::pick(&mut r);
        with_rt(rt, move || async move {
            let cfg = Cfg::random(&mut r);
            let (srv, addr) = server(&cfg).await?;
            let ss = sub(&srv, "svc").await?;
            type Plan<M> = Arc<Mutex<Option<(Outcome, M)>>>;
            let rp: Plan<RawMessage> = Default::default();
            let jp: Plan<JsonMessage> = Default::default();
            for k in 0..2 {
                let p = rp.clone();
                let f = move |_m: RawMessage| {
                    let (o, m) = p.lock().unwrap().take().unwrap_or((Outcome::General("not planned".into()), RawMessage::default()));
                    act(&o, m)
                };
                if k == 0 {
                    reg_sync(&ss, "raw0", raw_sync(f)).await?;
                } else {
                    reg(&ss, "raw1", raw_async(move |m| {
                        let f = f.clone();
                        async move {
                            tokio::task::yield_now().await;
                            f(m)
                        }
                    })).await?;
                }
            }
            {
                let p = jp.clone();
                reg_sync(&ss, "json", json_sync(move |_m| {
                    let (o, m) = p.lock().unwrap().take().unwrap_or((Outcome::General("not planned".into()), JsonMessage::default()));
                    act(&o, m)
                })).await?;
            }
            await_listening(addr).await?;
            let c = client(&cfg);
            let sc = sub(&c, "svc").await?;
            // 12 scenarios x a twelfth of the enumerated answers
            for case in (i..n).step_by(12) {
                let o = if case % 2 == 0 { Outcome::Ok } else { Outcome::MessageError };
                let json = case / 2 % 2 == 1;
                let req_kind = case / 4 % 3;
                let (x, y, z) = (case / 12 % 3, case / 36 % 3, case / 108 % 3);
                let part = |k: u64, r: &mut Rng| match k {
                    0 => String::new(),
                    1 => "k\u{e9}\u{6f22} \"x\"".to_string(),
                    _ => {
                        let n = *r.pick(&[1, 300, 65_500, 70_000]);
                        random_text(r, n)
                    }
                };
                let (a, b, d) = (part(x, &mut r), part(y, &mut r), part(z, &mut r));
                if json {
                    let map = |s: &str| -> serde_json::Map<String, serde_json::Value> {
                        match s.is_empty() {
                            true => Default::default(),
                            false => serde_json::from_value(json!({"v": s})).unwrap(),
                        }
                    };
                    let m = JsonMessage::new(a.clone(), map(&b), map(&d));
                    *jp.lock().unwrap() = Some((o.clone(), m.clone()));
                    let req = JsonMessage::new("json".into(), map(["", "h", ""][req_kind as usize]), map(["", "", "b"][req_kind as usize]));
                    let got = jcall(&sc, req, addr).await?;
                    judge_json(&o, &m, got)?;
                } else {
                    let m = msg(a.clone(), b.clone(), d.clone().into_bytes());
                    *rp.lock().unwrap() = Some((o.clone(), m.clone()));
                    let req = msg(*r.pick(&["raw0", "raw1"]), ["", "h", ""][req_kind as usize], ["", "", "b"][req_kind as usize]);
                    let got = call(&sc, req, addr).await?;
                    judge_raw(&o, &m, got)?;
                }
                ctx.add("dictated_messages_judged", 1);
                ctx.eval(&format!("dictated {case}"), true);
            }
            // texts of failures
            for k in 0..16u64 {
                let t = match k % 8 {
                    0 => String::new(),
                    1 => format!("{} \u{e9}\u{df}\u{6f22}\u{1f980}", token(&mut r)),
                    2 => format!("{}{}", token(&mut r), "z".repeat(60_000)),
                    3 => format!("{}{}", token(&mut r), "z".repeat(64_000 + r.below(3000))),
                    4 => {
                        let n = 63_000 + r.below(5000);
                        format!("{}{}", token(&mut r), any_text(&mut r, n))
                    }
                    6 => {
                        let n = *r.pick(&[1, 10, 300, 20_000]);
                        format!("{}{}", token(&mut r), any_text(&mut r, n))
                    }
                    7 => {
                        let n = *r.pick(&[1, 10, 300, 20_000]);
                        format!("{}{}", any_text(&mut r, n), token(&mut r))
                    }
                    _ => format!("{}{}", token(&mut r), "z".repeat(200_000)),
                };
                let o = if r.chance(1, 2) { Outcome::General(t.clone()) } else { Outcome::Internal(r.below(5) as u8, t.clone()) };
                let got = if r.chance(1, 3) {
                    *jp.lock().unwrap() = Some((o.clone(), Default::default()));
                    must_fail("a request whose handler failed", jcall(&sc, JsonMessage::new("json".into(), Default::default(), Default::default()), addr).await?)?
                } else {
                    *rp.lock().unwrap() = Some((o.clone(), Default::default()));
                    must_fail("a request whose handler failed", call(&sc, msg(*r.pick(&["raw0", "raw1"]), "h", "b"), addr).await?)?
                };
                // a text that does not fit into one frame may be cut
                let head: String = if t.len() < 60_100 { t.clone() } else { t.chars().take(5000).collect() };
                ensure!(carries(&got, &head), "the text of a handler's error did not reach the caller", json!({"text_len": t.len(), "caller_got": format!("{:.200}", got), "caller_got_len": got.len()}));
                ctx.add("error_texts_judged", 1);
                ctx.eval(&format!("text {} {}", k % 8, t.len()), true);
            }
            ensure!(sut_panics() == 0, "library panicked", sut_panic_json());
            Ok(())
        })
    });
    ctx.finish(
        "Each evaluation is one call whose outcome is dictated (handler told what to return; fake server told what frames to answer with) and compared with what the caller got: Ok / MessageError with the very message, transport error for everything else with the error text inside. Handler runs are counted: once per accepted, never for a refused request. Handlers that take hours on a hand-driven clock: the outcome is still theirs. Distinct by outcome, size, framing.",
        &["an error text that does not fit into one frame may be cut", "the error may show a text escaped"],
        120,
    )
}
fn cfg_free(s: &str) -> u64 {
    hash_str(s) % 4
}
fn judge_raw(o: &Outcome, m: &RawMessage, got: HandlerResult<RawMessage>) -> R<()> {
    match (o, got) {
        (Outcome::Ok, Ok(g)) => {
            ensure!(same(m, &g), "the response differs from what was returned", diff(m, &g));
        }
        (Outcome::MessageError, Err(HandlerError::MessageError(g))) => {
            ensure!(same(m, &g), "the error message differs from what was returned", diff(m, &g));
        }
        (Outcome::General(t), Err(HandlerError::InternalError(e))) | (Outcome::Internal(_, t), Err(HandlerError::InternalError(e))) => {
            ensure!(e.to_string().contains(t.as_str()), "the text of a handler's error did not reach the caller", json!({"returned": t, "caller_got": short(&e)}));
        }
        (o, Ok(g)) => return viol("a failure was reported as success", json!({"returned": format!("{o:?}"), "caller_got": brief(&g)})),
        (o, Err(e)) => return viol("the caller got another kind of outcome than was returned", json!({"returned": format!("{:.200}", format!("{o:?}")), "caller_got": errkind(&e), "text": short(&e)})),
    }
    Ok(())
}
fn judge_json(o: &Outcome, m: &JsonMessage, got: HandlerResult<JsonMessage>) -> R<()> {
    let eq = |a: &JsonMessage, b: &JsonMessage| a.method_name() == b.method_name() && a.headers() == b.headers() && a.body() == b.body();
    match (o, got) {
        (Outcome::Ok, Ok(g)) => {
            ensure!(eq(m, &g), "the json response differs from what was returned", json!({}));
        }
        (Outcome::MessageError, Err(HandlerError::MessageError(g))) => {
            ensure!(eq(m, &g), "the json error message differs from what was returned", json!({}));
        }
        (Outcome::General(t), Err(HandlerError::InternalError(e))) | (Outcome::Internal(_, t), Err(HandlerError::InternalError(e))) => {
            ensure!(e.to_string().contains(t.as_str()), "the text of a handler's error did not reach the caller", json!({"returned": t, "caller_got": short(&e)}));
        }
        (o, Ok(_)) => return viol("a failure was reported as success", json!({"returned": format!("{o:?}")})),
        (o, Err(e)) => return viol("the caller got another kind of outcome than was returned", json!({"returned": format!("{:.200}", format!("{o:?}")), "caller_got": errkind(&e), "text": short(&e)})),
    }
    Ok(())
}
/// The call must fail with a transport error (not an application message); returns its text.
fn must_fail<M: tchannel_rs::messages::Message>(what: &str, got: HandlerResult<M>) -> R<String> {
    match got {
        Err(HandlerError::InternalError(e)) => Ok(e.to_string()),
        Err(HandlerError::GeneralError(e)) => Ok(e),
        Err(HandlerError::MessageError(_)) => viol(format!("{what} was reported as an application error message"), json!({})),
        Ok(m) => viol(format!("{what} was reported as success"), json!({"got": format!("{m:.200?}")})),
    }
}

// =================================================================== C07
pub fn c07(ctx: Arc<Ctx>) -> i32 {
    crate::p_hours::failures(&ctx);
    let (min, max) = if ctx.quick() { (40, 1200) } else { (400, 100000) };
    ctx.scenarios(0, "good_amid_bad", 6, min, max, 0.6, |ctx, i, mut r| {
        let rt = Rt::pick(&mut r);
        with_rt(rt, move || async move {
            // one connection only, so that anything that breaks it hits the others
            let cfg = Cfg { max_connections: 1, server_tasks: *r.pick(&[1, 2, 4, 16]), frame_buffer_size: *r.pick(&[1, 2, 10, 100]), test_connection: r.chance(1, 5), ..Default::default() };
            let (srv, addr) = server(&cfg).await?;
            let ss = sub(&srv, "svc").await?;
            for e in 0..6 {
                let seed = r.next();
                reg(&ss, &format!("good{e}"), raw_async(move |m: RawMessage| {
                    let mut r = Rng::new(seed ^ m.body().len() as u64);
                    async move {
                        jitter(&mut r).await;
                        Ok(m)
                    }
                })).await?;
            }
            reg_sync(&ss, "fail", raw_sync(|m| {
                let Ok(n) = m.header().parse::<usize>() else {
                    return Ok(m); // fails only when told to
                };
                let wide = |n: usize| {
                    let c = ["x", "é", "語", "😀"][m.body().len() % 4];
                    format!("{}{}", "p".repeat(n % 5), c.repeat(n / c.len()))
                };
                Err(match n % 4 {
                    0 => HandlerError::GeneralError(wide(n)),
                    1 => HandlerError::InternalError(TChannelError::Error(wide(n))),
                    2 => HandlerError::MessageError(m),
                    _ => HandlerError::InternalError(TChannelError::CodecError(CodecError::Error("y".repeat(n)))),
                })
            })).await?;
            // a service whose responses cannot be framed is a failure of that request only
            await_listening(addr).await?;
            let p = Proxy::start(addr, ProxyPolicy { seg: r.below(4), reorder: r.chance(1, 3), lean: true, ..Default::default() }, r.fork()).await?;
            let c = client(&cfg);
            let good = sub(&c, "svc").await?;
            let none = sub(&c, "none").await?;
            let long = sub(&c, "n".repeat(*r.pick(&[256, 300, 65_600])).as_str()).await?;
            let bad_n = Arc::new(AtomicU64::new(0));
            let stop = Arc::new(AtomicBool::new(false));
            let mut bad = vec![];
            for _ in 0..r.range(1, 3) {
                let (good, none, long, stop, bad_n) = (good.clone(), none.clone(), long.clone(), stop.clone(), bad_n.clone());
                let mut r = r.fork();
                let to = p.addr;
                bad.push(tokio::spawn(async move {
                    while !stop.load(SeqCst) {
                        let n = if r.chance(1, 3) { r.range(60_000, 140_000) } else { r.below(100) };
                        let got = match r.below(8) {
                            0 => must_fail("unknown endpoint", call(&good, msg("zzz", "", r.bytes(n)), to).await?).map(|_| ()),
                            1 => must_fail("unknown service", call(&none, msg("good0", "", r.bytes(n)), to).await?).map(|_| ()),
                            2 => must_fail("service name that does not fit a frame", call(&long, msg("good0", "", r.bytes(n)), to).await?).map(|_| ()),
                            3 => must_fail("scheme mismatch", jcall(&good, JsonMessage::new("good0".into(), Default::default(), Default::default()), to).await?).map(|_| ()),
                            4 => match call(&good, msg("fail", format!("{}", r.range(64_900, 66_500)), vec![0u8; n % 4]), to).await? {
                                Err(_) => Ok(()),
                                Ok(m) => viol("failure reported as success", brief(&m)),
                            },
                            5 => match call(&good, msg("fail", format!("{}", *r.pick(&[65_534usize, 65_535, 65_536, 70_000, 131_072, 300_000])), vec![0u8; n % 4]), to).await? {
                                Err(_) => Ok(()),
                                Ok(m) => viol("failure reported as success", brief(&m)),
                            },
                            _ => match call(&good, msg("fail", format!("{}", r.below(50)), r.bytes(n)), to).await? {
                                Err(_) => Ok(()),
                                Ok(m) => viol("failure reported as success", brief(&m)),
                            },
                        };
                        got?;
                        bad_n.fetch_add(1, SeqCst);
                    }
                    Ok(())
                }));
            }
            let mut tasks = vec![];
            for t in 0..r.range(1, 6) {
                let (good, ctx) = (good.clone(), ctx.clone());
                let to = p.addr;
                let mut r = r.fork();
                tasks.push(tokio::spawn(async move {
                    for k in 0..r.range(4, 12) {
                        let n = small(&mut r);
                        // also the handler that fails for others
                        let ep = if r.chance(1, 4) { "fail".to_string() } else { format!("good{}", r.below(6)) };
                        let m = msg(ep, format!("{t}-{k}"), r.bytes(n));
                        let g = must_ok(&good, m.clone(), to, "a good call next to failing ones").await?;
                        ensure!(same(&m, &g), "a good call next to failing ones got a wrong answer", diff(&m, &g));
                        ctx.evals.fetch_add(1, Relaxed);
                    }
                    Ok(())
                }));
            }
            let res = join_all(tasks).await;
            // keep the failing traffic up until it has covered something
            let _ = within(300, async {
                while bad_n.load(SeqCst) < 20 {
                    tokio::time::sleep(Duration::from_millis(1)).await;
                }
            })
            .await;
            stop.store(true, SeqCst);
            res?;
            join_all(bad).await?;
            for ep in ["good0", "fail", "good5"] {
                let m = msg(ep, "last", "");
                let g = must_ok(&good, m.clone(), p.addr, "a good call after failing ones").await?;
                ensure!(same(&m, &g), "wrong answer", diff(&m, &g));
            }
            let conns = p.conns.load(SeqCst);
            ensure!(conns == 1, "failures of single requests cost the shared connection", json!({"connections_opened": conns, "failed_calls": bad_n.load(SeqCst)}));
            ctx.add("failing_calls", bad_n.load(SeqCst));
            let log = p.entries();
            ctx.observe("wire_interleavings", hash_str(&format!("{:?}", log.iter().map(|e| (e.frame.ftype, e.frame.id)).collect::<Vec<_>>())));
            ctx.eval(&format!("{i} {} {}", cfg.sig(), bad_n.load(SeqCst)), bad_n.load(SeqCst) > 0);
            if i < 2 {
                ctx.sample(json!({"group": "good_amid_bad", "config": cfg.sig(), "failing_calls": bad_n.load(SeqCst), "connections": conns}));
            }
            p.stop();
            Ok(())
        })
    });
    // Requests a foreign client may send that this server cannot serve: answered with an error, or
    // not at all, but the connection keeps serving the others.
    let (min, max) = if ctx.quick() { (40, 1200) } else { (400, 100000) };
    ctx.scenarios(1, "unservable_requests", 6, min, max, 0.8, |ctx, i, mut r| {
        let rt = Rt::pick(&mut r);
        with_rt(rt, move || async move {
            let cfg = Cfg { server_tasks: *r.pick(&[1, 2, 4]), frame_buffer_size: *r.pick(&[1, 3, 100]), ..Default::default() };
            let (srv, addr) = server(&cfg).await?;
            let ss = sub(&srv, "svc").await?;
            reg_sync(&ss, "echo", echo()).await?;
            let (mut rd, mut w) = fake_client(addr).await?;
            let mut id = 10u32;
            let mut kinds = vec![];
            let mut unanswered: std::collections::BTreeMap<u32, usize> = Default::default();
            let mut answers: std::collections::BTreeMap<u32, usize> = Default::default();
            for step in 0..14 {
                for _ in 0..r.below(3) {
                    id += 1;
                    let mut m = ReqMeta::raw("svc");
                    let mut args = [b"echo".to_vec(), b"h".to_vec(), b"b".to_vec()];
                    let kind = r.below(11);
                    let mut fs;
                    match kind {
                        8 => {
                            // as 0, 1 and 5, in several frames
                            args[2] = r.bytes(300);
                            let sub = r.below(3);
                            match sub {
                                0 => m.headers[0].1 = r.pick(&["http", "", "sthrift", "RAW", "nope"]).to_string(),
                                1 => {
                                    m.headers.remove(0);
                                }
                                _ => {}
                            }
                            let mode = r.range(1, 3);
                            let mut plan = fragment(&args, m.size(), &mut r, mode);
                            if plan.len() == 1 {
                                plan = vec![args[..1].to_vec(), [vec![vec![]], args[1..].to_vec()].concat()];
                            }
                            fs = req_frames(id, &m, &plan);
                            if sub == 2 {
                                for (k, f) in fs.iter_mut().enumerate() {
                                    let pos = if k == 0 { m.size() - 1 } else { 1 };
                                    f.payload[pos] = 1;
                                    for _ in 0..4 {
                                        f.payload.insert(pos + 1, 7);
                                    }
                                }
                            }
                        }
                        9 if id > 11 => {
                            // a legal peer may give up a request at any time, it knows nothing of the answer yet
                            let mut p = 1000u32.to_be_bytes().to_vec();
                            p.extend([0; 25]);
                            p.extend([0, 3]);
                            p.extend(b"why");
                            fs = vec![Frame::new(CANCEL, r.range(11, id as usize - 1) as u32, p)];
                        }
                        0 => {
                            m.headers[0].1 = r.pick(&["http", "", "sthrift", "RAW", "nope"]).to_string();
                            fs = req_frames(id, &m, &[args.to_vec()]);
                        }
                        1 => {
                            m.headers.remove(0);
                            fs = req_frames(id, &m, &[args.to_vec()]);
                        }
                        2 => {
                            m.service = "other".into();
                            args[2] = r.bytes(100_000);
                            let p = fragment(&args, m.size(), &mut r, 0);
                            fs = req_frames(id, &m, &p);
                        }
                        3 => {
                            args[0] = vec![0xff, 0xfe];
                            fs = req_frames(id, &m, &[args.to_vec()]);
                        }
                        4 => {
                            args[1] = vec![0xc3];
                            fs = req_frames(id, &m, &[args.to_vec()]);
                        }
                        5 => {
                            // a checksum type this library does not support
                            fs = req_frames(id, &m, &[args.to_vec()]);
                            let pos = m.size() - 1;
                            let p = &mut fs[0].payload;
                            p[pos] = r.range(1, 3) as u8;
                            for k in 0..4 {
                                p.insert(pos + 1 + k, 7);
                            }
                        }
                        6 => {
                            // fields that end too early
                            fs = req_frames(id, &m, &[args.to_vec()]);
                            let n = r.below(m.size());
                            fs[0].payload.truncate(n);
                        }
                        _ => {
                            // a continuation nothing precedes
                            fs = vec![Frame::new(CALL_REQ_CONT, id, enc_cont(0, &[b"x".to_vec()]))];
                        }
                    }
                    kinds.push(kind);
                    if kind < 7 || kind == 8 {
                        unanswered.insert(id, kind);
                    }
                    for f in fs {
                        w.frame(&f).await.map_err(|e| Fail::Violation(format!("server closed the connection over a request it cannot serve: {e}"), json!({"kinds": kinds})))?;
                    }
                }
                id += 1;
                let args = [b"echo".to_vec(), r.ascii(5).into_bytes(), { let n = *r.pick(&[0, 7, 90_000]); r.bytes(n) }];
                let m = ReqMeta::raw("svc");
                let p = fragment(&args, m.size(), &mut r, 0);
                for f in req_frames(id, &m, &p) {
                    w.frame(&f).await.map_err(|e| Fail::Violation(format!("server closed the connection over a request it cannot serve: {e}"), json!({"kinds": kinds})))?;
                }
                // wait for the answer to the good one; anything else must be an error for a bad one
                let mut a = Assembler::default();
                loop {
                    let f = match within(HANG, rd.frame()).await {
                        Err(_) => return viol("a good request after unservable ones on the connection was never answered", json!({"kinds": kinds})),
                        Ok(Got::Frame(f)) => f,
                        Ok(_) => return viol("server closed the connection over a request it cannot serve", json!({"kinds": kinds})),
                    };
                    if matches!(f.ftype, ERROR | CALL_RES) {
                        let n = answers.entry(f.id).or_default();
                        *n += 1;
                        ensure!(*n == 1, "a request was answered more than once", json!({"id": f.id, "type": f.ftype, "kinds": kinds}));
                    }
                    if f.id != id {
                        ensure!(f.ftype == ERROR, "an unservable request was answered with a response", json!({"type": f.ftype, "kinds": kinds}));
                        let (code, _, _) = parse_error(&f.payload).map_err(|e| Fail::Violation(format!("malformed error frame: {e}"), json!({})))?;
                        ensure!((1..=8).contains(&code), "an unservable request was answered with an undefined or fatal error code", json!({"code": code, "kinds": kinds}));
                        ctx.add("error_frames_for_unservable", 1);
                        unanswered.remove(&f.id);
                        continue;
                    }
                    ensure!(f.ftype == CALL_RES || f.ftype == CALL_RES_CONT, "a good request next to unservable ones got no response", json!({"type": f.ftype, "kinds": kinds}));
                    let (fl, ch) = if f.ftype == CALL_RES { parse_call_res(&f.payload).map(|x| (x.flags, x.chunks)) } else { parse_cont(&f.payload).map(|x| (x.flags, x.chunks)) }.map_err(|e| Fail::Violation(format!("malformed response: {e}"), json!({})))?;
                    a.add(&ch);
                    if fl & MORE == 0 {
                        break;
                    }
                }
                ensure!(a.args == args.to_vec(), "a good request next to unservable ones got a wrong answer", json!({"kinds": kinds}));
                ctx.eval(&format!("unserv {step} {:?}", kinds.iter().rev().take(3).collect::<Vec<_>>()), !kinds.is_empty());
            }
            while !unanswered.is_empty() {
                match within(HANG, rd.frame()).await {
                    Err(_) => return viol("a request that cannot be served was never answered with an error", json!({"ids_and_kinds": unanswered, "kinds": kinds})),
                    Ok(Got::Frame(f)) => {
                        ensure!(f.ftype == ERROR, "an unservable request was answered with a response", json!({"type": f.ftype, "kinds": kinds}));
                        let n = answers.entry(f.id).or_default();
                        *n += 1;
                        ensure!(*n == 1, "a request was answered more than once", json!({"id": f.id, "type": f.ftype, "kinds": kinds}));
                        unanswered.remove(&f.id);
                    }
                    Ok(_) => return viol("server closed the connection over a request it cannot serve", json!({"kinds": kinds})),
                }
            }
            ctx.add("unservable_requests", kinds.len() as u64);
            ensure!(sut_panics() == 0, "library code panicked over an unservable request", sut_panic_json());
            if i < 1 {
                ctx.sample(json!({"group": "unservable_requests", "kinds": kinds}));
            }
            Ok(())
        })
    });
    // However many requests have failed, the connection goes on: thousands of failures of one kind on
    // one connection, with good calls in between.
    const PLENTY: usize = 2500;
    let kinds = if ctx.quick() { 12 } else { 240 };
    ctx.scenarios(2, "thousands_of_failures", 6, 12, kinds, 1.0, |ctx, i, mut r| {
        with_rt(Rt::pick(&mut r), move || async move {
            let kind = i % 12;
            let cfg = Cfg { max_connections: 1, server_tasks: *r.pick(&[1, 4, 64]), frame_buffer_size: *r.pick(&[1, 10, 100]), ..Default::default() };
            let (srv, addr) = server(&cfg).await?;
            let ss = sub(&srv, "svc").await?;
            reg_sync(&ss, "echo", echo()).await?;
            reg_sync(&ss, "fail", raw_sync(|m: RawMessage| {
                Err(match m.header().as_str() {
                    "0" => HandlerError::GeneralError("told to".to_string()),
                    "1" => HandlerError::InternalError(TChannelError::Error("told to".to_string())),
                    _ => HandlerError::MessageError(m),
                })
            })).await?;
            await_listening(addr).await?;
            let mut done = 0;
            if kind < 7 {
                let p = Proxy::start(addr, ProxyPolicy { lean: true, ..Default::default() }, r.fork()).await?;
                let c = client(&cfg);
                let good = sub(&c, "svc").await?;
                let other = sub(&c, &if kind == 4 { "none".to_string() } else { "n".repeat(300) }).await?;
                while done < PLENTY {
                    let mut tasks = vec![];
                    for _ in 0..50 {
                        let (good, other, to) = (good.clone(), other.clone(), p.addr);
                        tasks.push(tokio::spawn(async move {
                            match kind {
                                0..=2 => match call(&good, msg("fail", kind.to_string(), "x"), to).await? {
                                    Err(_) => Ok(()),
                                    Ok(m) => viol("failure reported as success", brief(&m)),
                                },
                                3 => must_fail("unknown endpoint", call(&good, msg("zzz", "", ""), to).await?).map(|_| ()),
                                4 => must_fail("unknown service", call(&other, msg("echo", "", ""), to).await?).map(|_| ()),
                                5 => must_fail("service name that does not fit a frame", call(&other, msg("echo", "", ""), to).await?).map(|_| ()),
                                _ => must_fail("scheme mismatch", jcall(&good, JsonMessage::new("echo".into(), Default::default(), Default::default()), to).await?).map(|_| ()),
                            }
                        }));
                    }
                    join_all(tasks).await?;
                    done += 50;
                    let m = msg("echo", done.to_string(), "good");
                    let g = must_ok(&good, m.clone(), p.addr, "a good call after many failing ones").await?;
                    ensure!(same(&m, &g), "a good call after many failing ones got a wrong answer", json!({"failed_before": done, "kind": kind, "diff": diff(&m, &g)}));
                }
                let conns = p.conns.load(SeqCst);
                ensure!(conns == 1, "failures of single requests cost the shared connection", json!({"connections_opened": conns, "failed_calls": done, "kind": kind}));
                p.stop();
            } else {
                let (mut rd, mut w) = fake_client(addr).await?;
                let mut id = 10u32;
                while done < PLENTY {
                    let mut m = ReqMeta::raw("svc");
                    let mut args = [b"echo".to_vec(), b"h".to_vec(), b"b".to_vec()];
                    match kind {
                        7 => m.headers[0].1 = "http".to_string(),
                        8 => args[1] = vec![0xc3],
                        10 => m.service = "other".into(),
                        11 => args[0] = b"nothing".to_vec(),
                        _ => {}
                    }
                    let mut out = vec![];
                    for _ in 0..50 {
                        id += 1;
                        let mut fs = req_frames(id, &m, &[args.to_vec()]);
                        if kind == 9 {
                            let n = fs[0].payload.len();
                            fs[0].payload.truncate(n.min(40));
                        }
                        fs.iter().for_each(|f| out.extend(f.bytes()));
                    }
                    id += 1;
                    for f in req_frames(id, &ReqMeta::raw("svc"), &[vec![b"echo".to_vec(), b"h".to_vec(), b"b".to_vec()]]) {
                        out.extend(f.bytes());
                    }
                    let what = || json!({"kind": kind, "failed_before": done});
                    if w.raw(&out).await.is_err() {
                        return viol("server closed the connection over requests it cannot serve", what());
                    }
                    for _ in 0..51 {
                        match within(HANG, rd.frame()).await {
                            Err(_) => return viol("a request was never answered after many failing ones on its connection", what()),
                            Ok(Got::Frame(f)) => {
                                let want = if f.id == id { CALL_RES } else { ERROR };
                                ensure!(f.ftype == want, "wrong kind of answer after many failing requests on the connection", json!({"kind": kind, "failed_before": done, "type": f.ftype, "good_request": f.id == id}));
                            }
                            Ok(_) => return viol("server closed the connection over requests it cannot serve", what()),
                        }
                    }
                    done += 50;
                }
            }
            ctx.add("failures_in_a_row_on_one_connection", done as u64);
            ctx.eval(&format!("plenty {kind} {}", cfg.sig()), true);
            Ok(())
        })
    });
    ctx.finish(
        "Good calls share one connection with failing ones (unknown service/endpoint, wrong scheme, over-long service name, application errors, internal errors with texts around and above the frame size); all good calls must succeed unchanged and the proxy must have seen exactly one connection. Second group: a raw client mixes unservable requests (unknown/missing scheme, non-UTF-8 args, checksum types, truncated fields, stray continuations) with good ones, which must be answered on the same connection. Third group: thousands of failures of one kind in a row on one connection (12 kinds, library and raw client), with good calls in between; failures spread over hours on a hand-driven clock. Distinct by config / sequence of kinds.",
        &["a panicking handler is not covered here (C09)"],
        80,
    )
}
fn small(r: &mut Rng) -> usize {
    match r.below(6) {
        0 => r.range(60_000, 140_000),
        1 => 0,
        _ => r.below(1000),
    }
}

// =================================================================== C08
struct Runs(Mutex<Vec<RawMessage>>);
async fn recording_server(cfg: &Cfg) -> R<(tchannel_rs::TChannel, SocketAddr, Arc<Runs>)> {
    let (srv, addr) = server(cfg).await?;
    let ss = sub(&srv, "svc").await?;
    let runs = Arc::new(Runs(Mutex::new(vec![])));
    for e in ["e", "f", "g"] {
        let runs = runs.clone();
        reg_sync(&ss, e, raw_sync(move |m: RawMessage| {
            runs.0.lock().unwrap().push(m.clone());
            Ok(m)
        })).await?;
    }
    await_listening(addr).await?;
    Ok((srv, addr, runs))
}
pub fn c08(ctx: Arc<Ctx>) -> i32 {
    // length of the byte streams of one small call, to enumerate all positions
    let probe: Arc<Mutex<[usize; 2]>> = Arc::new(Mutex::new([0, 0]));
    {
        let probe = probe.clone();
        let r0 = with_rt(Rt::Current, move || async move {
            let cfg = Cfg::default();
            let (_s, addr, _) = recording_server(&cfg).await?;
            let p = Proxy::start(addr, ProxyPolicy::default(), Rng::new(1)).await?;
            let c = client(&cfg);
            let sc = sub(&c, "svc").await?;
            must_ok(&sc, msg("e", "head", "body"), p.addr, "probe").await?;
            let mut n = [0, 0];
            for e in p.entries() {
                n[(e.dir == Dir::S2C) as usize] += e.frame.payload.len() + HDR;
            }
            *probe.lock().unwrap() = n;
            p.stop();
            Ok(())
        });
        if let Err(e) = r0 {
            ctx.fail(e, json!({"group": "probe"}));
        }
    }
    let n = *probe.lock().unwrap();
    let total = (n[0] + n[1]) as u64 * 2;
    ctx.add("cut_positions_of_a_small_call", total);
    let (min, max) = if ctx.quick() { (total, total) } else { (total, total * 6) };
    ctx.scenarios(0, "every_byte", 8, min, max, 0.6, move |ctx, i, mut r| {
        // all positions, both directions, FIN and RST
        let k = (i % total) as usize;
        let (k, reset) = (k / 2, k % 2 == 1);
        let (dir, at) = if k < n[0] { (Dir::C2S, k) } else { (Dir::S2C, k - n[0]) };
        with_rt(if i % 3 == 0 { Rt::Current } else { Rt::Multi(2) }, move || async move {
            let cfg = Cfg { frame_buffer_size: *r.pick(&[1, 100]), ..Default::default() };
            let (_s, addr, runs) = recording_server(&cfg).await?;
            let p = Proxy::start(addr, ProxyPolicy { cut: Some((0, dir, at, reset)), ..Default::default() }, r.fork()).await?;
            let c = client(&cfg);
            let sc = sub(&c, "svc").await?;
            let m = msg("e", "head", "body");
            let got = call(&sc, m.clone(), p.addr).await?;
            let info = json!({"dir": format!("{dir:?}"), "cut_after_bytes": at, "reset": reset, "of": n});
            // how far the request got, judged by what the proxy let through
            let conns = p.conns.load(SeqCst);
            match &got {
                Ok(g) => {
                    ensure!(same(g, &m), "a call over a dying connection returned a damaged response", diff(&m, g));
                    ensure!(!runs.0.lock().unwrap().is_empty(), "a call succeeded although no handler ran", info);
                }
                Err(HandlerError::InternalError(_)) => {}
                Err(e) => return viol("connection loss was reported as an application error", json!({"kind": errkind(e), "at": info})),
            }
            let ran = runs.0.lock().unwrap().clone();
            ensure!(ran.len() <= 1, "a handler ran more than once for one call", json!({"times": ran.len(), "at": info}));
            ensure!(ran.iter().all(|x| same(x, &m)), "a handler ran with a request cut off by connection loss", json!({"ran": brief(&ran[0]), "at": info}));
            if conns == 1 && dir == Dir::C2S && at < n[0] {
                // the request never arrived completely
                ensure!(ran.is_empty(), "a handler ran although its request never arrived completely", info);
                ensure!(got.is_err(), "a call succeeded although its request never arrived", info);
            }
            if conns == 1 && dir == Dir::S2C && at < n[1] {
                ensure!(got.is_err(), "a call succeeded although its response never arrived completely", info);
            }
            // and the channel works again afterwards
            let m2 = msg("f", "again", "b2");
            let mut ok = false;
            for _ in 0..3 {
                if let Ok(g) = call(&sc, m2.clone(), p.addr).await? {
                    ensure!(same(&g, &m2), "wrong answer after reconnecting", diff(&m2, &g));
                    ok = true;
                    break;
                }
            }
            ensure!(ok, "calls keep failing after the connection was lost once", info);
            ctx.add(if got.is_ok() { "calls_that_survived" } else { "calls_failed_cleanly" }, 1);
            ctx.add("connections_cut", p.was_cut.load(SeqCst) as u64);
            ctx.eval(&format!("{dir:?} {at} {reset} {}", got.is_ok()), p.was_cut.load(SeqCst));
            if i < 3 {
                ctx.sample(json!({"cut": info, "result": if got.is_ok() {"ok"} else {"error"}}));
            }
            p.stop();
            Ok(())
        })
    });
    // many pending calls, multi-frame, cut anywhere
    let (min, max) = if ctx.quick() { (60, 1200) } else { (500, 100000) };
    ctx.scenarios(1, "pending_calls", 8, min, max, 0.8, |ctx, i, mut r| {
        let rt = Rt::pick(&mut r);
        with_rt(rt, move || async move {
            let cfg = Cfg { max_connections: 1, frame_buffer_size: *r.pick(&[1, 2, 100]), server_tasks: *r.pick(&[1, 4, 16]), ..Default::default() };
            let (_s, addr, runs) = recording_server(&cfg).await?;
            let dir = *r.pick(&[Dir::C2S, Dir::S2C]);
            let at = match r.below(3) {
                0 => r.range(100, 2000),
                1 => r.range(100, 70_000),
                _ => r.range(100, 900_000),
            };
            let reset = r.chance(1, 2);
            let p = Proxy::start(addr, ProxyPolicy { seg: *r.pick(&[0, 2, 3]), cut: Some((0, dir, at, reset)), ..Default::default() }, r.fork()).await?;
            let c = client(&cfg);
            let ncalls = r.range(2, 12);
            let mut tasks = vec![];
            let mut sent = vec![];
            for t in 0..ncalls {
                let sc = sub(&c, "svc").await?;
                let len = if r.chance(1, 2) { r.range(50_000, 250_000) } else { r.below(500) };
                let m = msg(*r.pick(&["e", "f", "g"]), format!("{t}"), r.bytes(len));
                sent.push(m.clone());
                let to = p.addr;
                tasks.push(tokio::spawn(async move {
                    match call(&sc, m.clone(), to).await? {
                        Ok(g) => {
                            ensure!(same(&g, &m), "a call over a dying connection returned a damaged response", diff(&m, &g));
                            Ok(true)
                        }
                        Err(HandlerError::InternalError(_)) => Ok(false),
                        Err(e) => viol("connection loss was reported as an application error", json!({"kind": errkind(&e)})),
                    }
                }));
            }
            let oks = join_all(tasks).await?;
            let ran = runs.0.lock().unwrap().clone();
            for x in &ran {
                let t: usize = x.header().parse().unwrap_or(usize::MAX);
                ensure!(t < sent.len() && same(&sent[t], x), "a handler ran with a request cut off by connection loss", json!({"ran": brief(x)}));
            }
            for (t, m) in sent.iter().enumerate() {
                let k = ran.iter().filter(|x| x.header() == m.header()).count();
                ensure!(k <= 1, "a handler ran more than once for one call", json!({"times": k}));
                ensure!(!oks[t] || k == 1, "a call succeeded although its handler never ran", json!({}));
            }
            let cut = p.was_cut.load(SeqCst);
            ctx.add("pending_calls_failed", oks.iter().filter(|x| !**x).count() as u64);
            ctx.add("pending_calls_ok", oks.iter().filter(|x| **x).count() as u64);
            ctx.eval(&format!("{i} {dir:?} {at} {reset} {oks:?}"), cut);
            if i < 2 {
                ctx.sample(json!({"group": "pending_calls", "dir": format!("{dir:?}"), "cut_after_bytes": at, "calls": ncalls, "succeeded": oks.iter().filter(|x| **x).count()}));
            }
            p.stop();
            Ok(())
        })
    });
    // the connection ends while a call is held at its n-th suspension point (the runtime may preempt a
    // task at every lock and channel), other calls on the connection being at other points
    let points = 30u64;
    let reps = if ctx.quick() { 20 } else { 1000 };
    ctx.scenarios(4, "lost_at_suspension_point", 6, points * reps, points * reps, 0.85, move |ctx, i, mut r| {
        let rt = if r.chance(1, 2) { Rt::Current } else { Rt::Multi(2) };
        with_rt(rt, move || async move {
            let polls = 1 + (i % points) as usize;
            let cfg = Cfg { max_connections: 1, frame_buffer_size: *r.pick(&[1, 1, 2, 100]), test_connection: r.chance(1, 4), ..Default::default() };
            let (_s, addr, runs) = recording_server(&cfg).await?;
            let p = Proxy::start(addr, ProxyPolicy { lean: true, ..Default::default() }, r.fork()).await?;
            let c = client(&cfg);
            let sc = sub(&c, "svc").await?;
            must_ok(&sc, msg("e", "warm", ""), p.addr, "warm up").await?;
            let mut tasks = vec![];
            let ncalls = r.range(1, 3);
            let dead = Arc::new(tokio::sync::Semaphore::new(0));
            let (held, held_rx) = tokio::sync::mpsc::channel::<()>(8);
            let mut held_rx = held_rx;
            for t in 0..ncalls {
                let len = *r.pick(&[3usize, 3, 150_000]);
                let m = msg(*r.pick(&["e", "f", "g"]), format!("held{t}"), r.bytes(len));
                let polls = if t == 0 { polls } else { r.range(1, points as usize) };
                let (sc, to, dead, held) = (sc.clone(), p.addr, dead.clone(), held.clone());
                tasks.push(tokio::spawn(async move {
                    let m2 = m.clone();
                    let fut = async move { MessageChannel::<RawMessage, RawMessage>::send(&*sc, m2, to).await };
                    let (done, waited) = match within(100, steps(fut, 1, polls)).await {
                        Ok(Ok(x)) => {
                            let _ = held.send(()).await;
                            (x, false)
                        }
                        Err(Hang) => return inconcl("a call did not get to its suspension point"),
                        Ok(Err(fut)) => {
                            let _ = held.send(()).await;
                            let _ = dead.acquire().await;
                            match within(HANG_CONNECT, fut).await {
                                Ok(x) => (x, true),
                                Err(Hang) => return viol("a call never ended after its connection was lost while it was between two steps", json!({"polls_before_the_loss": polls, "body": len})),
                            }
                        }
                    };
                    match done {
                        Ok(g) => {
                            ensure!(same(&g, &m), "a call over a lost connection returned a damaged response", diff(&m, &g));
                            Ok((waited, true))
                        }
                        Err(HandlerError::InternalError(_)) => Ok((waited, false)),
                        Err(e) => viol("connection loss was reported as an application error", json!({"kind": errkind(&e)})),
                    }
                }));
            }
            for _ in 0..ncalls {
                if within(HANG, held_rx.recv()).await.is_err() {
                    break;
                }
            }
            p.kill_all();
            tokio::time::sleep(Duration::from_millis(r.below(4) as u64 * 4)).await;
            dead.add_permits(ncalls);
            let ends = join_all(tasks).await?;
            let ran = runs.0.lock().unwrap().clone();
            for t in 0..ncalls {
                let k = ran.iter().filter(|x| x.header() == &format!("held{t}")).count();
                ensure!(k <= 1 && (k == 1 || !ends[t].1), "handler runs do not match the outcome of a call over a lost connection", json!({"runs": k, "succeeded": ends[t].1}));
            }
            // and the channel is usable again
            let mut ok = false;
            for k in 0..4 {
                if call(&sc, msg("f", format!("later{k}"), ""), p.addr).await?.is_ok() {
                    ok = true;
                    break;
                }
            }
            ensure!(ok, "no later call works although the peer is reachable again", json!({}));
            ctx.add("calls_held_at_loss", ends.iter().filter(|x| x.0).count() as u64);
            ctx.eval(&format!("held {polls} {} {ends:?}", cfg.sig()), ends[0].0);
            p.stop();
            Ok(())
        })
    });
    // a client that disconnects after any prefix of a request
    let (min, max) = if ctx.quick() { (120, 2400) } else { (1000, 100000) };
    ctx.scenarios(2, "client_gone", 8, min, max, 0.9, |ctx, _i, mut r| {
        let rt = Rt::pick(&mut r);
        with_rt(rt, move || async move {
            let cfg = Cfg { frame_buffer_size: *r.pick(&[1, 100]), ..Default::default() };
            let (_s, addr, runs) = recording_server(&cfg).await?;
            let args = [b"e".to_vec(), b"hh".to_vec(), { let n = *r.pick(&[0, 5, 40, 100_000]); r.bytes(n) }];
            let m = ReqMeta::raw("svc");
            let mode = *r.pick(&[0, 1, 2, 3]);
            let plan = fragment(&args, m.size(), &mut r, if args[2].len() > 1000 { 0 } else { mode });
            let fs = req_frames(7, &m, &plan);
            let bytes: Vec<u8> = fs.iter().flat_map(|f| f.bytes()).collect();
            let how = r.below(3);
            for _ in 0..3 {
                let cut = if r.chance(1, 3) {
                    // exactly after some frame
                    let k = r.below(fs.len());
                    fs[..k].iter().map(|f| f.bytes().len()).sum()
                } else {
                    r.below(bytes.len())
                };
                let s = connect_retry(addr).await?;
                if how == 1 {
                    let _ = s.set_linger(Some(Duration::from_secs(0)));
                }
                let (mut rd, mut w) = wire(s);
                let _ = w.frame(&Frame::new(INIT_REQ, 1, enc_init(2, &[]))).await;
                match within(HANG, rd.frame()).await {
                    Ok(Got::Frame(f)) if f.ftype == INIT_RES => {}
                    _ => return viol("no init response", json!({})),
                }
                let _ = w.raw(&bytes[..cut]).await;
                if r.chance(1, 2) {
                    tokio::time::sleep(Duration::from_millis(1)).await;
                }
                if how == 2 {
                    // half close; the server must give up too
                    use tokio::io::AsyncWriteExt;
                    let _ = tokio::io::AsyncWriteExt::shutdown(&mut w.w).await;
                    let closed = within(HANG, rd.closed()).await;
                    match closed {
                        Err(_) => return viol("server keeps a connection whose client has gone in the middle of a request", json!({"cut": cut, "of": bytes.len()})),
                        Ok(fs) => ensure!(fs.iter().all(|f| f.ftype == ERROR), "a truncated request was answered with a response", json!({"cut": cut, "of": bytes.len()})),
                    }
                }
                drop((rd, w));
                ctx.eval(&format!("gone {how} {cut} {mode} {}", bytes.len()), cut > 0);
            }
            // a complete request afterwards, as a barrier
            let c = client(&cfg);
            let sc = sub(&c, "svc").await?;
            must_ok(&sc, msg("f", "barrier", ""), addr, "another client after one disconnected mid-request").await?;
            tokio::time::sleep(Duration::from_millis(4)).await;
            let ran = runs.0.lock().unwrap().clone();
            ensure!(ran.iter().all(|x| x.endpoint() == "f"), "a handler ran although the client disconnected before completing the request", json!({"ran": brief(&ran[0]), "plan": plan.iter().map(|f| f.iter().map(|c| c.len()).collect::<Vec<_>>()).collect::<Vec<_>>()}));
            ctx.add("clients_gone_mid_request", 3);
            Ok(())
        })
    });
    // a server that disconnects after any prefix of a response
    let (min, max) = if ctx.quick() { (120, 2400) } else { (1000, 100000) };
    ctx.scenarios(3, "server_gone", 8, min, max, 1.0, |ctx, _i, mut r| {
        let rt = Rt::pick(&mut r);
        with_rt(rt, move || async move {
            let addr = fresh_addr();
            let l = listen(addr).await?;
            let args = [b"e".to_vec(), b"hh".to_vec(), { let n = *r.pick(&[0, 5, 40, 100_000]); r.bytes(n) }];
            let want = msg("e", "hh", args[2].clone());
            let mut meta = ResMeta::raw();
            meta.code = r.below(2) as u8;
            let mode = *r.pick(&[0, 1, 2, 3]);
            let plan = fragment(&args, meta.size(), &mut r, if args[2].len() > 1000 { 0 } else { mode });
            let fs = res_frames(0, &meta, &plan);
            let reset = r.chance(1, 3);
            let lens: Vec<usize> = fs.iter().map(|f| f.bytes().len()).collect();
            let total: usize = lens.iter().sum();
            let cuts: Vec<usize> = (0..4)
                .map(|_| match r.below(4) {
                    0 => {
                        let k = r.below(lens.len());
                        lens[..k].iter().sum()
                    }
                    1 => total,
                    _ => r.below(total),
                })
                .collect();
            let cuts2 = cuts.clone();
            let code = meta.code;
            let fake = tokio::spawn(async move {
                for cut in cuts2 {
                    let Ok((s, _)) = l.accept().await else { return };
                    let Ok((mut rd, mut w)) = accept_init(s).await else { return };
                    loop {
                        match rd.frame().await {
                            Got::Frame(f) if f.ftype == CALL_REQ => {
                                let mut fs = fs.clone();
                                for x in fs.iter_mut() {
                                    x.id = f.id;
                                }
                                let b: Vec<u8> = fs.iter().flat_map(|f| f.bytes()).collect();
                                let _ = w.raw(&b[..cut]).await;
                                if reset && cut < b.len() {
                                    let s = rd.r.reunite(w.w).unwrap();
                                    let _ = s.set_linger(Some(Duration::from_secs(0)));
                                }
                                break;
                            }
                            Got::Frame(_) => {}
                            _ => break,
                        }
                    }
                }
            });
            let cfg = Cfg { frame_buffer_size: *r.pick(&[1, 100]), ..Default::default() };
            let c = client(&cfg);
            let sc = sub(&c, "svc").await?;
            let mut k = 0;
            let mut tries = 0;
            while k < cuts.len() {
                // a call may find the pooled connection already dead; that one is not the one under test
                tries += 1;
                ensure!(tries < 20, "calls keep failing although the server accepts connections", json!({}));
                let got = call(&sc, msg("e", "x", "y"), addr).await?;
                let cut = cuts[k];
                let info = json!({"response_bytes_sent": cut, "of": total, "reset": reset, "plan": lens});
                match got {
                    Ok(g) => {
                        // Each completed answer means the server used up all earlier cuts.
                        let at = cuts[k..].iter().position(|c| *c == total);
                        ensure!(at.is_some() && code == 0, "a call succeeded although its response never arrived completely", info);
                        ensure!(same(&g, &want), "a truncated response was delivered", diff(&want, &g));
                        k += at.unwrap() + 1;
                    }
                    Err(HandlerError::MessageError(g)) => {
                        let at = cuts[k..].iter().position(|c| *c == total);
                        ensure!(at.is_some() && code == 1, "an application error was reported although the response never arrived completely", info);
                        ensure!(same(&g, &want), "a truncated error message was delivered", diff(&want, &g));
                        k += at.unwrap() + 1;
                    }
                    Err(_) if cut == total && tries < 15 => {} // dead connection found in the pool
                    Err(_) if cut == total => return viol("a complete response followed by a disconnect was never delivered", info),
                    Err(_) => k += 1,
                }
                ctx.eval(&format!("srv gone {cut} {total} {reset} {mode} {code}"), true);
            }
            fake.abort();
            ctx.add("servers_gone_mid_response", cuts.iter().filter(|c| **c < total).count() as u64);
            Ok(())
        })
    });
    ctx.finish(
        "Fault enumeration: the proxy cuts the first connection after every byte of both directions of a small call (FIN and RST); then sampled cuts under many pending multi-frame calls; raw clients/servers that disconnect after any prefix of a request/response. Oracle: every call terminates (heartbeat monitor), Ok only with the exact response, no handler runs for an incomplete request or twice, the server drops the dead connection, later calls work. Distinct by cut position/kind/result.",
        &["a call may legitimately fail when it picks a pooled connection that died before it"],
        500,
    )
}

// =================================================================== C09
/// Results of calls made in other runtimes, by address of their server.
static OTHER: Mutex<Vec<(std::net::SocketAddr, R<bool>)>> = Mutex::new(Vec::new());

pub fn c09(ctx: Arc<Ctx>) -> i32 {
    let (min, max) = if ctx.quick() { (40, 1200) } else { (400, 100000) };
    ctx.scenarios(0, "connections_killed", 6, min, max, 0.45, |ctx, i, mut r| {
        let rt = Rt::pick(&mut r);
        with_rt(rt, move || async move {
            let cfg = Cfg { max_connections: r.range(1, 5) as u32, test_connection: r.chance(1, 3), ..Cfg::random(&mut r) };
            let (_s, addr, _runs) = recording_server(&cfg).await?;
            let p = Proxy::start(addr, ProxyPolicy { lean: true, ..Default::default() }, r.fork()).await?;
            let c = client(&cfg);
            let sc = sub(&c, "svc").await?;
            for round in 0..4 {
                // open as many connections as the pool will
                let n = r.range(1, 12);
                let mut tasks = vec![];
                for t in 0..n {
                    let sc = sc.clone();
                    let to = p.addr;
                    let m = msg(*r.pick(&["e", "f"]), format!("{t}"), "x");
                    tasks.push(tokio::spawn(async move { call(&sc, m, to).await.map(|r| r.is_ok()) }));
                }
                if r.chance(1, 2) {
                    for _ in 0..r.below(6) {
                        tokio::task::yield_now().await;
                    }
                    p.kill_all();
                }
                join_all(tasks).await?;
                p.kill_all();
                if r.chance(1, 2) {
                    tokio::time::sleep(Duration::from_millis(r.below(5) as u64)).await;
                }
                // calls one after another: each failure may cost one dead pooled connection, no more
                let allowed = 2 * cfg.max_connections as usize + 1;
                let mut failed = 0;
                let mut last = String::new();
                loop {
                    let m = msg("g", format!("{failed}"), "x");
                    match call(&sc, m.clone(), p.addr).await? {
                        Ok(g) => {
                            ensure!(same(&g, &m), "wrong answer after reconnecting", diff(&m, &g));
                            break;
                        }
                        Err(e) => {
                            failed += 1;
                            last = short(&e);
                        }
                    }
                    ensure!(failed <= allowed, "calls keep failing although the server is reachable again", json!({"failed_in_a_row": failed, "max_connections": cfg.max_connections, "last_error": last}));
                }
                ctx.max("failures_before_recovery", failed as u64);
                ctx.eval(&format!("kill {round} {n} {failed} {}", cfg.sig()), true);
            }
            ctx.add("connections_killed", p.conns.load(SeqCst));
            if i < 2 {
                ctx.sample(json!({"group": "connections_killed", "config": cfg.sig(), "connections": p.conns.load(SeqCst)}));
            }
            p.stop();
            Ok(())
        })
    });
    // whole outage: nothing listens, then it does again. Calls made meanwhile wait, or fail, but recover.
    let (min, max) = if ctx.quick() { (12, 60) } else { (60, 3000) };
    ctx.scenarios(1, "outage", 8, min, max, 0.75, |ctx, _i, mut r| {
        let rt = Rt::pick(&mut r);
        with_rt(rt, move || async move {
            let cfg = Cfg { max_connections: r.range(1, 3) as u32, test_connection: r.chance(1, 3), ..Default::default() };
            let addr = fresh_addr();
            let before = r.chance(1, 2);
            let start = |srv: &tchannel_rs::TChannel| srv.start_server().map_err(|e| Fail::Violation(format!("start_server failed: {e}"), json!({})));
            let srv = tchannel_rs::TChannel::new(cfg.build(addr)).map_err(|e| Fail::Violation(e.to_string(), json!({})))?;
            {
                let ss = sub(&srv, "svc").await?;
                reg_sync(&ss, "e", echo()).await?;
            }
            // a proxy whose listener can go away with the connections
            let c = client(&cfg);
            let sc = sub(&c, "svc").await?;
            let front = fresh_addr();
            start(&srv)?;
            await_listening(addr).await?;
            let spawn_front = |front: SocketAddr| async move {
                let l = listen(front).await?;
                let conns: Arc<Mutex<Vec<tokio::task::JoinHandle<()>>>> = Default::default();
                let c2 = conns.clone();
                let h = tokio::spawn(async move {
                    while let Ok((mut a, _)) = l.accept().await {
                        let Ok(mut b) = tokio::net::TcpStream::connect(addr).await else { continue };
                        c2.lock().unwrap().push(tokio::spawn(async move {
                            let _ = tokio::io::copy_bidirectional(&mut a, &mut b).await;
                        }));
                    }
                });
                Ok::<_, Fail>((h, conns))
            };
            if before {
                let (h, conns) = spawn_front(front).await?;
                must_ok(&sc, msg("e", "before", ""), front, "before the outage").await?;
                h.abort();
                for t in conns.lock().unwrap().drain(..) {
                    t.abort();
                }
                tokio::time::sleep(Duration::from_millis(5)).await;
            }
            let mut tasks = vec![];
            for t in 0..r.range(1, 4) {
                let sc = sc.clone();
                tasks.push(tokio::spawn(async move { call(&sc, msg("e", format!("{t}"), "during"), front).await.map(|r| r.is_ok()) }));
            }
            tokio::time::sleep(Duration::from_millis(r.range(1, 400) as u64)).await;
            let (h, conns) = spawn_front(front).await?;
            let during = join_all(tasks).await?;
            let allowed = 2 * cfg.max_connections as usize + 1;
            let mut failed = 0;
            loop {
                match call(&sc, msg("e", "after", ""), front).await? {
                    Ok(_) => break,
                    Err(e) => {
                        failed += 1;
                        ensure!(failed <= allowed, "calls keep failing although the server is reachable again", json!({"failed_in_a_row": failed, "last_error": short(&e)}));
                    }
                }
            }
            ctx.add("calls_during_outage_that_succeeded", during.iter().filter(|x| **x).count() as u64);
            ctx.add("calls_during_outage", during.len() as u64);
            ctx.eval(&format!("outage {before} {during:?} {failed} {}", cfg.sig()), true);
            h.abort();
            for t in conns.lock().unwrap().drain(..) {
                t.abort();
            }
            Ok(())
        })
    });
    // outages that many attempts to connect fall into: for seconds, and (on a clock moved on by hand) for minutes
    ctx.scenarios(4, "long_outage", 6, 6, if ctx.quick() { 6 } else { 200 }, 0.8, |ctx, i, mut r| {
        let by_hand = i % 2 == 1;
        with_rt(if by_hand { Rt::Current } else { Rt::pick(&mut r) }, move || async move {
            let cfg = Cfg { max_connections: r.range(1, 3) as u32, test_connection: r.chance(1, 3), ..Default::default() };
            let addr = fresh_addr();
            let c = client(&cfg);
            let sc = sub(&c, "svc").await?;
            let other = sub(&c, "other").await?;
            let mut failed = 0usize;
            let srv = tchannel_rs::TChannel::new(cfg.build(addr)).map_err(|e| Fail::Violation(e.to_string(), json!({})))?;
            let ss = sub(&srv, "svc").await?;
            reg_sync(&ss, "e", echo()).await?;
            let so = sub(&srv, "other").await?;
            reg_sync(&so, "e", echo()).await?;
            for round in 0..if by_hand { 3 } else { 1 } {
                // refused, or accepted and closed again
                let closing = r.chance(1, 3);
                let l = if closing { Some(listen(addr).await?) } else { None };
                let closer = l.map(|l| tokio::spawn(async move {
                    while let Ok((s, _)) = l.accept().await {
                        drop(s);
                    }
                }));
                let mut tasks = vec![];
                for t in 0..r.range(2, 6) {
                    let sc = if t % 2 == 0 { sc.clone() } else { other.clone() };
                    tasks.push(tokio::spawn(async move { call(&sc, msg("e", format!("{t}"), "during"), addr).await.map(|r| r.is_ok()) }));
                }
                if by_hand {
                    pass_hours(r.range(20, 1200) as u64).await;
                } else {
                    tokio::time::sleep(Duration::from_millis(r.range(4000, 9000) as u64)).await;
                }
                if let Some(h) = closer {
                    h.abort();
                    let _ = h.await;
                }
                srv.start_server().map_err(|e| Fail::Violation(format!("start_server failed: {e}"), json!({})))?;
                await_listening(addr).await?;
                let during = join_all(tasks).await?;
                let allowed = 2 * cfg.max_connections as usize + 1;
                failed = 0;
                // a call that begins now waits for a connection, and connecting works: one may have joined an
                // attempt that had just failed for the last time, no more than that wait in vain
                let mut waited_in_vain = 0;
                loop {
                    let began = tokio::time::Instant::now();
                    match call(if failed % 2 == 0 { &sc } else { &other }, msg("e", "after", ""), addr).await? {
                        Ok(_) => break,
                        Err(e) => {
                            failed += 1;
                            waited_in_vain += (began.elapsed() >= Duration::from_secs(20)) as usize;
                            ensure!(failed <= allowed && waited_in_vain <= 1, "calls keep failing although the server is reachable again", json!({"failed_in_a_row": failed, "of_these_waited_for_a_connection_in_vain": waited_in_vain, "round": round, "last_error": short(&e), "config": cfg.sig()}));
                        }
                    }
                }
                ctx.add("calls_during_outage_that_succeeded", during.iter().filter(|x| **x).count() as u64);
                ctx.add("calls_during_outage", during.len() as u64);
                if by_hand {
                    srv.shutdown_server().map_err(|e| Fail::Violation(format!("shutdown_server failed: {e}"), json!({})))?;
                    let free = within(HANG, async {
                        while !can_bind(addr) {
                            tokio::time::sleep(Duration::from_millis(2)).await;
                        }
                    });
                    free.await.map_err(|_| Fail::Inconclusive("address is not free".into()))?;
                }
            }
            ctx.add("long_outages", 1);
            ctx.eval(&format!("long {i} {failed} {}", cfg.sig()), true);
            Ok(())
        })
    });
    // a handler that panics costs at most the calls on its connection
    let (min, max) = if ctx.quick() { (30, 900) } else { (300, 100000) };
    ctx.scenarios(2, "handler_panics", 6, min, max, 0.85, |ctx, _i, mut r| {
        let rt = Rt::pick(&mut r);
        with_rt(rt, move || async move {
            let cfg = Cfg::random(&mut r);
            let (srv, addr, _) = recording_server(&cfg).await?;
            let ss = sub(&srv, "svc").await?;
            reg_sync(&ss, "boom", raw_sync(|m| if m.header() == "boom" { panic!("{}", INTENDED) } else { Ok(m) })).await?;
            let (c, other) = (client(&cfg), client(&cfg));
            let (sc, so) = (sub(&c, "svc").await?, sub(&other, "svc").await?);
            must_ok(&so, msg("e", "", ""), addr, "other client").await?;
            for k in 0..4 {
                let mut tasks = vec![];
                for t in 0..r.below(6) {
                    let sc = sc.clone();
                    let m = msg("e", format!("{t}"), "x");
                    tasks.push(tokio::spawn(async move { call(&sc, m, addr).await.map(|r| r.is_ok()) }));
                }
                let got = call(&sc, msg("boom", "boom", ""), addr).await?;
                ensure!(got.is_err(), "a panicking handler was reported as success", json!({}));
                join_all(tasks).await?;
                let m = msg("e", "other", "x");
                must_ok(&so, m, addr, "a call of another client after a handler panicked").await?;
                let allowed = 2 * cfg.max_connections as usize + 1;
                let mut failed = 0;
                let ep = *r.pick(&["e", "boom"]); // the panicked handler itself must still be usable
                while let Err(e) = call(&sc, msg(ep, "fine", ""), addr).await? {
                    failed += 1;
                    ensure!(failed <= allowed, "calls keep failing after a handler panicked", json!({"failed_in_a_row": failed, "last_error": short(&e), "endpoint": ep}));
                }
                ctx.max("failures_after_panic", failed as u64);
                ctx.eval(&format!("panic {k} {failed} {ep} {}", cfg.sig()), true);
            }
            ctx.add("handler_panics", 4);
            Ok(())
        })
    });
    // However many connections ended badly, the server keeps serving the next one
    ctx.scenarios(3, "siege", 5, 5, if ctx.quick() { 5 } else { 500 }, 1.0, |ctx, i, mut r| {
        let rt = Rt::pick(&mut r);
        with_rt(rt, move || async move {
            let cfg = Cfg { server_tasks: *r.pick(&[1, 4]), ..Cfg::random(&mut r) };
            let (srv, addr) = server(&cfg).await?;
            let ss = sub(&srv, "svc").await?;
            reg_sync(&ss, "boom", raw_sync(|m| if m.header() == "boom" { panic!("{}", INTENDED) } else { Ok(m) })).await?;
            reg(&ss, "never", raw_async(|_m| async move {
                tokio::time::sleep(Duration::from_secs(100_000)).await;
                Ok(msg("", "", ""))
            })).await?;
            reg_sync(&ss, "e", echo()).await?;
            await_listening(addr).await?;
            let old = client(&cfg);
            let so = sub(&old, "svc").await?;
            must_ok(&so, msg("e", "", ""), addr, "the first call").await?;
            let n = if ctx.quick() { 560 } else { 1400 };
            let what = ["handler panics", "garbage instead of a handshake", "garbage after the handshake", "reset with requests in progress", "unfinished handshake"][i as usize % 5];
            let mut held = vec![];
            for k in 0..n {
                let meta = ReqMeta::raw("svc");
                match i % 5 {
                    0 => {
                        let (mut rd, mut w) = fake_client(addr).await?;
                        let args = vec![b"boom".to_vec(), b"boom".to_vec(), vec![]];
                        let _ = w.frame(&Frame::new(CALL_REQ, 2, enc_call_req(0, &meta, &args))).await;
                        // wait for the end of the connection (or some answer)
                        let _ = within(HANG, rd.frame()).await;
                    }
                    1 => {
                        let (mut rd, mut w) = wire(connect_retry(addr).await?);
                        let b = r.range(1, 40);
                        let mut b = r.bytes(b);
                        b[0] = 0;
                        let _ = w.raw(&b).await;
                        let _ = tokio::io::AsyncWriteExt::shutdown(&mut w.w).await;
                        let _ = within(HANG, rd.frame()).await;
                    }
                    2 => {
                        let (mut rd, mut w) = fake_client(addr).await?;
                        let _ = w.raw(&[0, 16, 0x99, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0]).await;
                        let _ = tokio::io::AsyncWriteExt::shutdown(&mut w.w).await;
                        let _ = within(HANG, rd.frame()).await;
                    }
                    3 => {
                        let (rd, mut w) = fake_client(addr).await?;
                        let args = vec![b"never".to_vec(), vec![], vec![]];
                        let more = r.chance(1, 2);
                        let _ = w.frame(&Frame::new(CALL_REQ, 2, enc_call_req(if more { MORE } else { 0 }, &meta, &args[..if more { 2 } else { 3 }]))).await;
                        drop((rd, w));
                    }
                    _ => {
                        let (rd, mut w) = wire(connect_retry(addr).await?);
                        let b = Frame::new(INIT_REQ, 1, enc_init(2, &[("host_port", "x")])).bytes();
                        let k = r.below(b.len());
                        let _ = w.raw(&b[..k]).await;
                        held.push((rd, w));
                        if held.len() > 30 {
                            held.clear();
                        }
                    }
                }
                if k % 70 == 69 {
                    must_ok(&so, msg("e", format!("{k}"), "x"), addr, "a call of a client that was connected all the time").await?;
                }
            }
            held.clear();
            for k in 0..3 {
                let c = client(&cfg);
                must_ok(&*sub(&c, "svc").await?, msg(if k == 1 { "boom" } else { "e" }, "", "x"), addr, &format!("a call of a new client after {n} connections ended by: {what}")).await?;
            }
            ctx.add("connections_ended_badly", n as u64);
            ctx.eval(&format!("siege {what} {}", cfg.sig()), true);
            Ok(())
        })
    });
    // a channel outlives the runtime that its connections live in
    let (min, max) = if ctx.quick() { (12, 60) } else { (120, 20000) };
    ctx.scenarios(5, "runtimes_come_and_go", 4, min, max, 1.0, |ctx, i, mut r| {
        let both = i % 2 == 1;
        let cfg = Cfg { max_connections: 1, test_connection: !both && r.chance(1, 4), server_tasks: 0, ..Cfg::random(&mut r) };
        let entered = Arc::new(AtomicUsize::new(0));
        let e2 = entered.clone();
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().map_err(|e| Fail::Inconclusive(e.to_string()))?;
        let cfg2 = cfg.clone();
        let (srv, addr) = rt.block_on(async move {
            let (srv, addr) = server(&cfg2).await?;
            let ss = sub(&srv, "svc").await?;
            reg_sync(&ss, "e", echo()).await?;
            for k in 0..4 {
                let entered = e2.clone();
                reg(&ss, &format!("slow{k}"), raw_async(move |m| {
                    entered.fetch_add(1, SeqCst);
                    async move {
                        tokio::time::sleep(Duration::from_secs(100_000)).await;
                        Ok(m)
                    }
                })).await?;
            }
            await_listening(addr).await?;
            R::Ok((srv, addr))
        })?;
        let c = Arc::new(client(&cfg));
        let mut most = 0;
        for round in 0..4 {
            let (kind, c2, cfg2, ctx2) = (Rt::pick(&mut r), c.clone(), cfg.clone(), ctx.clone());
            let n = r.range(1, 5);
            let entered = entered.clone();
            let failed = with_rt(kind, move || async move {
                let sc = sub(&c2, "svc").await?;
                let allowed = 2 * cfg2.max_connections as usize + 1;
                let mut failed = 0;
                while let Err(e) = call(&sc, msg("e", "first", "x"), addr).await? {
                    failed += 1;
                    ensure!(failed <= allowed, "calls keep failing after the runtime of the lost connection is gone", json!({"failed_in_a_row": failed, "round": round, "last_error": short(&e), "config": cfg2.sig()}));
                }
                for k in 0..n {
                    must_ok(&sc, msg("e", format!("{k}"), "x"), addr, "a call on a healthy connection").await?;
                }
                if both {
                    // the connection lives here, its call in another runtime
                    let before = entered.load(SeqCst);
                    let c3 = c2.clone();
                    std::thread::spawn(move || {
                        let out = with_rt(Rt::Current, move || async move {
                            let sc = sub(&c3, "svc").await?;
                            call(&sc, msg(format!("slow{round}"), "", "x"), addr).await.map(|r| r.is_ok())
                        });
                        OTHER.lock().unwrap().push((addr, out));
                    });
                    let reached = within(HANG, async {
                        while entered.load(SeqCst) == before {
                            tokio::time::sleep(Duration::from_millis(1)).await;
                        }
                    });
                    if reached.await.is_err() {
                        return inconcl("the call of another runtime did not reach its handler");
                    }
                    ctx2.add("calls_pending_in_another_runtime", 1);
                }
                Ok(failed)
            })?;
            most = most.max(failed);
            if both {
                // ends with the runtime of its connection
                let t0 = std::time::Instant::now();
                let out = loop {
                    let mut o = OTHER.lock().unwrap();
                    if let Some(k) = o.iter().position(|x| x.0 == addr) {
                        break o.remove(k).1;
                    }
                    drop(o);
                    if t0.elapsed() > Duration::from_secs(200) {
                        return inconcl("call in another runtime has no result");
                    }
                    std::thread::sleep(Duration::from_millis(5));
                };
                ensure!(!out?, "a call succeeded although its handler never returns", json!({}));
            }
        }
        drop(c);
        let _g = rt.enter();
        drop(srv);
        drop(_g);
        rt.shutdown_timeout(Duration::from_millis(300));
        ctx.max("failures_after_runtime_gone", most as u64);
        ctx.add("runtimes_gone", 4);
        ctx.eval(&format!("runtimes {most} {} {}", i % 2, cfg.sig()), true);
        Ok(())
    });
    ctx.finish(
        "Faults injected: every connection killed (idle, and under calls in flight) by the proxy, whole outages during which calls wait, panicking handlers, outages longer than the 30 s of the pool (seconds in real time, minutes to an hour on a hand-driven clock; refusing or accepting and closing), hundreds of connections that end badly before a good one, runtimes that end while the channel and calls of other runtimes live on. Oracle: every call terminates; after the fault at most 2*max_connections+1 calls in a row fail (at most one of them by waiting for a connection in vain), then calls succeed; other clients are not affected. Distinct by config and number of failures seen.",
        &["a call that picks a dead pooled connection before the loss was noticed may fail", "no runtime ends while bb8 is opening a connection in it (bb8 then counts that one for ever)"],
        60,
    )
}

// =================================================================== C19
pub fn c19(ctx: Arc<Ctx>) -> i32 {
    crate::p_hours::cancelled(&ctx);
    let (min, max) = if ctx.quick() { (80, 2400) } else { (800, 200000) };
    ctx.scenarios(0, "cancel_at_poll", 6, min, max, 0.5, |ctx, i, mut r| {
        let rt = Rt::pick(&mut r);
        with_rt(rt, move || async move {
            let cfg = Cfg { max_connections: r.range(1, 2) as u32, frame_buffer_size: *r.pick(&[1, 2, 100]), server_tasks: *r.pick(&[1, 4]), test_connection: r.chance(1, 4), ..Default::default() };
            let (srv, addr) = server(&cfg).await?;
            let ss = sub(&srv, "svc").await?;
            let runs: Arc<Mutex<Vec<RawMessage>>> = Default::default();
            for e in ["e", "f"] {
                let runs = runs.clone();
                let seed = r.next();
                reg(&ss, e, raw_async(move |m: RawMessage| {
                    runs.lock().unwrap().push(m.clone());
                    let mut r = Rng::new(seed ^ m.body().len() as u64);
                    async move {
                        jitter(&mut r).await;
                        Ok(m)
                    }
                })).await?;
            }
            await_listening(addr).await?;
            let p = Proxy::start(addr, ProxyPolicy { seg: r.below(4), reorder: r.chance(1, 3), lean: true, ..Default::default() }, r.fork()).await?;
            let c = client(&cfg);
            let sc = sub(&c, "svc").await?;
            if r.chance(2, 3) {
                must_ok(&sc, msg("e", "warm", ""), p.addr, "warm up").await?;
            }
            // other calls that must not notice
            let stop = Arc::new(AtomicBool::new(false));
            let mut others = vec![];
            for t in 0..r.below(4) {
                let (sc, stop) = (sc.clone(), stop.clone());
                let to = p.addr;
                let mut r = r.fork();
                others.push(tokio::spawn(async move {
                    let mut k = 0u64;
                    while !stop.load(SeqCst) {
                        let n = small(&mut r);
                        let m = msg("f", format!("other-{t}-{k}"), r.bytes(n));
                        let g = must_ok(&sc, m.clone(), to, "a call next to cancelled ones").await?;
                        ensure!(same(&g, &m), "a call next to cancelled ones got a wrong answer", diff(&m, &g));
                        k += 1;
                    }
                    Ok(k)
                }));
            }
            let mut sent: Vec<(RawMessage, bool)> = vec![];
            let ncancel = r.range(6, 20);
            let mut cancelled = 0;
            for k in 0..ncancel {
                let n = if r.chance(1, 3) { r.range(60_000, 300_000) } else { r.below(50) };
                let m = msg("e", format!("c{k}"), r.bytes(n));
                let polls = r.range(1, 14);
                let to = p.addr;
                let sc2 = sc.clone();
                let m2 = m.clone();
                let fut = async move { MessageChannel::<RawMessage, RawMessage>::send(&*sc2, m2, to).await };
                let fine = r.chance(1, 2);
                let done = if fine {
                    // also suspended where the runtime preempts it
                    let polls = r.range(1, 40);
                    match within(HANG_CONNECT, steps(fut, 1, polls)).await {
                        Ok(x) => {
                            ctx.observe("preemption_cancel_points", (polls as u64) << 8 | (n > 65_000) as u64);
                            x.ok()
                        }
                        Err(_) => return viol("call never completed (bounded-progress monitor)", json!({})),
                    }
                } else if r.chance(3, 4) {
                    match within(HANG_CONNECT, CancelAfter { fut: Some(Box::pin(fut)), polls }).await {
                        Ok(x) => x,
                        Err(_) => return viol("call never completed (bounded-progress monitor)", json!({})),
                    }
                } else {
                    // a timeout around the call
                    tokio::time::timeout(Duration::from_micros(r.below(3000) as u64), fut).await.ok()
                };
                match done {
                    Some(Ok(g)) => {
                        ensure!(same(&g, &m), "wrong answer", diff(&m, &g));
                        sent.push((m, true));
                    }
                    Some(Err(e)) => return viol("a call after cancelled ones failed", json!({"error": short(&e), "cancelled_before": cancelled})),
                    None => {
                        cancelled += 1;
                        sent.push((m, false));
                    }
                }
                ctx.eval(&format!("cancel p{polls} {} n{} {}", cfg.sig(), n > 65_000, sent.last().unwrap().1), true);
                ctx.observe("cancel_points", (polls as u64) << 8 | (n > 65_000) as u64);
            }
            stop.store(true, SeqCst);
            let o = join_all(others).await?;
            // far more cancelled calls than pooled connections: none may have kept one
            for k in 0..(cfg.max_connections as usize + 2) {
                let m = msg("f", format!("after-{k}"), "x");
                let g = must_ok(&sc, m.clone(), p.addr, "a call after cancelled ones").await?;
                ensure!(same(&g, &m), "wrong answer after cancelled calls", diff(&m, &g));
            }
            let runs = runs.lock().unwrap().clone();
            for (m, done) in &sent {
                let v: Vec<_> = runs.iter().filter(|x| x.endpoint() == "e" && x.header() == m.header()).collect();
                ensure!(v.len() <= 1, "the handler ran more than once for one cancelled call", json!({"times": v.len()}));
                ensure!(!done || v.len() == 1, "a completed call had no handler run", json!({}));
                ensure!(v.iter().all(|x| same(x, m)), "a handler ran with a request cut off by cancellation", diff(m, v[0]));
            }
            ensure!(p.conns.load(SeqCst) <= cfg.max_connections as u64, "cancelled calls cost connections", json!({"connections": p.conns.load(SeqCst), "max": cfg.max_connections}));
            ctx.add("cancelled_calls", cancelled);
            ctx.add("concurrent_calls_unaffected", o.iter().sum());
            if i < 2 {
                ctx.sample(json!({"config": cfg.sig(), "cancelled": cancelled, "of": ncancel, "concurrent_calls": o.iter().sum::<u64>()}));
            }
            p.stop();
            Ok(())
        })
    });
    // answers to cancelled calls arrive late and must go nowhere
    let (min, max) = if ctx.quick() { (40, 1200) } else { (400, 100000) };
    ctx.scenarios(1, "late_answers", 6, min, max, 0.75, |ctx, i, mut r| {
        let rt = Rt::pick(&mut r);
        with_rt(rt, move || async move {
            let addr = fresh_addr();
            let l = listen(addr).await?;
            let gone: Arc<AtomicUsize> = Default::default();
            let gone2 = gone.clone();
            let mut fr = r.fork();
            // Answers "hold" requests only when a "go" request arrives, then that one, in random order,
            // with several frames each: a slow client buffer must not block the live answer.
            let fake = tokio::spawn(async move {
                let Ok((s, _)) = l.accept().await else { return };
                let Ok((mut rd, mut w)) = accept_init(s).await else { return };
                let mut held: Vec<u32> = vec![];
                loop {
                    match rd.frame().await {
                        Got::Frame(f) if f.ftype == CALL_REQ => {
                            let q = parse_call_req(&f.payload).unwrap();
                            if q.chunks[0] == b"hold" {
                                held.push(f.id);
                                continue;
                            }
                            let mut frames = vec![];
                            for id in held.drain(..) {
                                for x in res_frames(id, &ResMeta::raw(), &[vec![b"LATE".to_vec(), vec![], vec![1; 10]], vec![vec![2; 5]], vec![vec![3; 5]]]) {
                                    frames.push(x);
                                }
                                gone2.fetch_add(1, SeqCst);
                            }
                            let mine = res_frames(f.id, &ResMeta::raw(), &[vec![q.chunks[0].clone(), q.chunks[1].clone(), q.chunks[2].clone()]]);
                            let at = fr.below(frames.len() + 1);
                            for (k, x) in mine.into_iter().enumerate() {
                                frames.insert(at + k, x);
                            }
                            for x in frames {
                                if w.frame(&x).await.is_err() {
                                    return;
                                }
                            }
                        }
                        Got::Frame(f) if f.ftype == PING_REQ => {
                            let _ = w.frame(&Frame::new(PING_RES, f.id, vec![])).await;
                        }
                        Got::Frame(_) => {}
                        _ => return,
                    }
                }
            });
            let cfg = Cfg { frame_buffer_size: *r.pick(&[1, 1, 2, 100]), ..Default::default() };
            let c = client(&cfg);
            let sc = sub(&c, "svc").await?;
            let mut cancelled = 0;
            for k in 0..10 {
                let mut hs = vec![];
                for _ in 0..r.below(4) {
                    let sc = sc.clone();
                    hs.push(tokio::spawn(async move { MessageChannel::<RawMessage, RawMessage>::send(&*sc, msg("hold", "", ""), addr).await }));
                }
                tokio::time::sleep(Duration::from_micros(r.below(2500) as u64)).await;
                let early = r.chance(1, 2);
                if early {
                    for h in &hs {
                        h.abort();
                    }
                }
                cancelled += hs.len() as u64;
                let m = msg("go", format!("{k}"), "x");
                let g = must_ok(&sc, m.clone(), addr, "a call after cancelled ones whose answers arrive late").await?;
                ensure!(same(&g, &m), "a late answer to a cancelled call was delivered to another call", diff(&m, &g));
                for h in hs {
                    h.abort();
                    if let Ok(Ok(g)) = h.await {
                        ensure!(g.endpoint() == "LATE", "a held call got the answer of another call", brief(&g));
                    }
                }
                ctx.eval(&format!("late {i} {k} {early} {cancelled}"), cancelled > 0);
            }
            fake.abort();
            ctx.add("late_answers_sent", gone.load(SeqCst) as u64);
            ctx.add("cancelled_calls", cancelled);
            Ok(())
        })
    });
    // a request that was begun on the wire gets finished (or withdrawn), or the server keeps it for good
    ctx.scenarios(2, "begun_requests_end", 4, min / 4, max, 1.0, |ctx, _i, mut r| {
        with_rt(Rt::pick(&mut r.clone()), move || async move {
            let cfg = Cfg { max_connections: 1, frame_buffer_size: *r.pick(&[1, 2, 5]), ..Default::default() };
            let (srv, addr) = server(&cfg).await?;
            let ss = sub(&srv, "svc").await?;
            reg_sync(&ss, "e", echo()).await?;
            await_listening(addr).await?;
            let p = Proxy::start(addr, ProxyPolicy { seg: r.below(4), ..Default::default() }, r.fork()).await?;
            let c = client(&cfg);
            let sc = sub(&c, "svc").await?;
            must_ok(&sc, msg("e", "warm", ""), p.addr, "warm up").await?;
            for k in 0..r.range(3, 10) {
                let n = r.range(70_000, 500_000);
                let m = msg("e", format!("c{k}"), r.bytes(n));
                let (sc2, to) = (sc.clone(), p.addr);
                let fut = async move { MessageChannel::<RawMessage, RawMessage>::send(&*sc2, m, to).await };
                if r.chance(1, 2) {
                    drop(steps(fut, 1, r.range(1, 40)).await);
                } else {
                    CancelAfter { fut: Some(Box::pin(fut)), polls: r.range(1, 12) }.await;
                }
            }
            must_ok(&sc, msg("e", "after", ""), p.addr, "a call after cancelled ones").await?;
            let mut last = String::new();
            for _ in 0..2000 {
                match check_wire(&p.entries(), true, true, true) {
                    Ok(rep) => {
                        ctx.eval(&format!("ends {:016x}", rep.order_sig), rep.requests.len() > 1);
                        ctx.add("begun_requests_completed", rep.requests.len() as u64);
                        p.stop();
                        return Ok(());
                    }
                    Err(e) => last = e,
                }
                tokio::time::sleep(Duration::from_millis(10)).await;
            }
            viol("cancelled calls leave the wire in an illegal or unfinished state", json!({"config": cfg.sig(), "why": last}))
        })
    });
    ctx.finish(
        "Calls are dropped after a chosen number of polls (each suspension point: connecting, pool wait, sending fragments, awaiting response, between fragments), aborted, or timed out, next to calls that must stay unaffected on the same connections. Oracle: no wrong or lost answer elsewhere, no duplicated or truncated handler run, no connection lost, calls keep working; late answers go nowhere; every request begun on the wire ends (completed or withdrawn); calls cancelled after hours of waiting on a hand-driven clock leave the others alone. Distinct by cancel point, size, config.",
        &["the request of a cancelled call may still be carried out"],
        100,
    )
}
#[allow(dead_code)]
fn _keep(_: &SubChannel) {}
