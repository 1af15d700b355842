//! Independent implementation of the TChannel v2 wire format, used as the oracle's own codec.
//! Written from the protocol document; shares no code with the crate under test.
use bytes::{Buf, BytesMut};

pub const INIT_REQ: u8 = 0x01;
pub const INIT_RES: u8 = 0x02;
pub const CALL_REQ: u8 = 0x03;
pub const CALL_RES: u8 = 0x04;
pub const CALL_REQ_CONT: u8 = 0x13;
pub const CALL_RES_CONT: u8 = 0x14;
pub const CANCEL: u8 = 0xc0;
pub const CLAIM: u8 = 0xc1;
pub const PING_REQ: u8 = 0xd0;
pub const PING_RES: u8 = 0xd1;
pub const ERROR: u8 = 0xff;
pub const ALL_TYPES: [u8; 11] = [INIT_REQ, INIT_RES, CALL_REQ, CALL_RES, CALL_REQ_CONT, CALL_RES_CONT, CANCEL, CLAIM, PING_REQ, PING_RES, ERROR];
pub const HDR: usize = 16;
pub const MORE: u8 = 0x01;

#[derive(Clone, Debug)]
pub struct Frame {
    pub ftype: u8,
    pub id: u32,
    pub payload: Vec<u8>,
    pub reserved_zero: bool,
}
impl Frame {
    pub fn new(ftype: u8, id: u32, payload: Vec<u8>) -> Frame {
        Frame { ftype, id, payload, reserved_zero: true }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = Vec::with_capacity(self.payload.len() + HDR);
        v.extend_from_slice(&((self.payload.len() + HDR) as u16).to_be_bytes());
        v.push(self.ftype);
        v.push(0);
        v.extend_from_slice(&self.id.to_be_bytes());
        v.extend_from_slice(&[0; 8]);
        v.extend_from_slice(&self.payload);
        v
    }
}

#[derive(Default)]
pub struct FrameBuf {
    b: BytesMut,
}
impl FrameBuf {
    pub fn push(&mut self, d: &[u8]) {
        self.b.extend_from_slice(d)
    }
    pub fn leftover(&self) -> usize {
        self.b.len()
    }
    pub fn next(&mut self) -> Result<Option<Frame>, String> {
        if self.b.len() < 2 {
            return Ok(None);
        }
        let size = u16::from_be_bytes([self.b[0], self.b[1]]) as usize;
        if size < HDR {
            return Err(format!("frame size {size} < {HDR}"));
        }
        if self.b.len() < size {
            return Ok(None);
        }
        let mut f = self.b.split_to(size);
        let reserved_zero = f[3] == 0 && f[8..16].iter().all(|x| *x == 0);
        let ftype = f[2];
        let id = u32::from_be_bytes([f[4], f[5], f[6], f[7]]);
        f.advance(HDR);
        Ok(Some(Frame { ftype, id, payload: f.to_vec(), reserved_zero }))
    }
}

pub struct Rd<'a> {
    b: &'a [u8],
}
type W<T> = Result<T, String>;
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Rd { b }
    }
    pub fn left(&self) -> usize {
        self.b.len()
    }
    pub fn take(&mut self, n: usize) -> W<&'a [u8]> {
        if self.b.len() < n {
            return Err(format!("need {n} bytes, have {}", self.b.len()));
        }
        let (a, b) = self.b.split_at(n);
        self.b = b;
        Ok(a)
    }
    pub fn u8(&mut self) -> W<u8> {
        Ok(self.take(1)?[0])
    }
    pub fn u16(&mut self) -> W<u16> {
        let t = self.take(2)?;
        Ok(u16::from_be_bytes([t[0], t[1]]))
    }
    pub fn u32(&mut self) -> W<u32> {
        let t = self.take(4)?;
        Ok(u32::from_be_bytes([t[0], t[1], t[2], t[3]]))
    }
    pub fn u64(&mut self) -> W<u64> {
        Ok(((self.u32()? as u64) << 32) | self.u32()? as u64)
    }
    pub fn str1(&mut self) -> W<String> {
        let n = self.u8()? as usize;
        String::from_utf8(self.take(n)?.to_vec()).map_err(|e| e.to_string())
    }
    pub fn str2(&mut self) -> W<String> {
        let n = self.u16()? as usize;
        String::from_utf8(self.take(n)?.to_vec()).map_err(|e| e.to_string())
    }
}

pub type Tracing = (u64, u64, u64, u8);
#[derive(Clone, Debug)]
pub struct CallReq {
    pub flags: u8,
    pub ttl: u32,
    pub tracing: Tracing,
    pub service: String,
    pub headers: Vec<(String, String)>,
    pub csum: u8,
    pub chunks: Vec<Vec<u8>>,
}
#[derive(Clone, Debug)]
pub struct CallRes {
    pub flags: u8,
    pub code: u8,
    pub tracing: Tracing,
    pub headers: Vec<(String, String)>,
    pub csum: u8,
    pub chunks: Vec<Vec<u8>>,
}
#[derive(Clone, Debug)]
pub struct Cont {
    pub flags: u8,
    pub csum: u8,
    pub chunks: Vec<Vec<u8>>,
}
fn rd_tracing(r: &mut Rd) -> W<Tracing> {
    Ok((r.u64()?, r.u64()?, r.u64()?, r.u8()?))
}
fn rd_headers1(r: &mut Rd) -> W<Vec<(String, String)>> {
    let n = r.u8()?;
    let mut v = vec![];
    for _ in 0..n {
        v.push((r.str1()?, r.str1()?));
    }
    Ok(v)
}
fn rd_args(r: &mut Rd) -> W<(u8, Vec<Vec<u8>>)> {
    let csum = r.u8()?;
    match csum {
        0 => {}
        1..=3 => {
            r.u32()?;
        }
        x => return Err(format!("checksum type {x}")),
    }
    let mut v = vec![];
    while r.left() > 0 {
        let n = r.u16()? as usize;
        v.push(r.take(n)?.to_vec());
    }
    if v.is_empty() || v.len() > 3 {
        return Err(format!("{} arg chunks in a frame", v.len()));
    }
    Ok((csum, v))
}
pub fn parse_call_req(p: &[u8]) -> W<CallReq> {
    let mut r = Rd::new(p);
    let flags = r.u8()?;
    let ttl = r.u32()?;
    let tracing = rd_tracing(&mut r)?;
    let service = r.str1()?;
    let headers = rd_headers1(&mut r)?;
    let (csum, chunks) = rd_args(&mut r)?;
    Ok(CallReq { flags, ttl, tracing, service, headers, csum, chunks })
}
pub fn parse_call_res(p: &[u8]) -> W<CallRes> {
    let mut r = Rd::new(p);
    let flags = r.u8()?;
    let code = r.u8()?;
    let tracing = rd_tracing(&mut r)?;
    let headers = rd_headers1(&mut r)?;
    let (csum, chunks) = rd_args(&mut r)?;
    Ok(CallRes { flags, code, tracing, headers, csum, chunks })
}
pub fn parse_cont(p: &[u8]) -> W<Cont> {
    let mut r = Rd::new(p);
    let flags = r.u8()?;
    let (csum, chunks) = rd_args(&mut r)?;
    Ok(Cont { flags, csum, chunks })
}
pub fn parse_error(p: &[u8]) -> W<(u8, Tracing, String)> {
    let mut r = Rd::new(p);
    let c = r.u8()?;
    let t = rd_tracing(&mut r)?;
    let m = r.str2()?;
    if r.left() != 0 {
        return Err("trailing bytes in error frame".into());
    }
    Ok((c, t, m))
}
pub fn parse_init(p: &[u8]) -> W<(u16, Vec<(String, String)>)> {
    let mut r = Rd::new(p);
    let v = r.u16()?;
    let n = r.u16()?;
    let mut h = vec![];
    for _ in 0..n {
        h.push((r.str2()?, r.str2()?));
    }
    if r.left() != 0 {
        return Err("trailing bytes in init frame".into());
    }
    Ok((v, h))
}

// ---- encoders
fn s1(v: &mut Vec<u8>, s: &str) {
    v.push(s.len() as u8);
    v.extend_from_slice(s.as_bytes());
}
fn s2(v: &mut Vec<u8>, s: &str) {
    v.extend_from_slice(&(s.len() as u16).to_be_bytes());
    v.extend_from_slice(s.as_bytes());
}
fn w_tracing(v: &mut Vec<u8>, t: Tracing) {
    v.extend_from_slice(&t.0.to_be_bytes());
    v.extend_from_slice(&t.1.to_be_bytes());
    v.extend_from_slice(&t.2.to_be_bytes());
    v.push(t.3);
}
fn w_args(v: &mut Vec<u8>, chunks: &[Vec<u8>]) {
    v.push(0);
    for c in chunks {
        v.extend_from_slice(&(c.len() as u16).to_be_bytes());
        v.extend_from_slice(c);
    }
}
pub fn enc_init(version: u16, headers: &[(&str, &str)]) -> Vec<u8> {
    let mut v = version.to_be_bytes().to_vec();
    v.extend_from_slice(&(headers.len() as u16).to_be_bytes());
    for (k, x) in headers {
        s2(&mut v, k);
        s2(&mut v, x);
    }
    v
}
pub fn enc_error(code: u8, t: Tracing, m: &str) -> Vec<u8> {
    let mut v = vec![code];
    w_tracing(&mut v, t);
    s2(&mut v, m);
    v
}
#[derive(Clone, Debug)]
pub struct ReqMeta {
    pub ttl: u32,
    pub tracing: Tracing,
    pub service: String,
    pub headers: Vec<(String, String)>,
}
impl ReqMeta {
    pub fn raw(service: &str) -> ReqMeta {
        ReqMeta { ttl: 1000, tracing: (0, 0, 0, 0), service: service.into(), headers: vec![("as".into(), "raw".into()), ("cn".into(), "tmon".into())] }
    }
    pub fn size(&self) -> usize {
        1 + 4 + 25 + 1 + self.service.len() + 1 + self.headers.iter().map(|(a, b)| 2 + a.len() + b.len()).sum::<usize>() + 1
    }
}
pub fn enc_call_req(flags: u8, m: &ReqMeta, chunks: &[Vec<u8>]) -> Vec<u8> {
    let mut v = vec![flags];
    v.extend_from_slice(&m.ttl.to_be_bytes());
    w_tracing(&mut v, m.tracing);
    s1(&mut v, &m.service);
    v.push(m.headers.len() as u8);
    for (k, x) in &m.headers {
        s1(&mut v, k);
        s1(&mut v, x);
    }
    w_args(&mut v, chunks);
    v
}
#[derive(Clone, Debug)]
pub struct ResMeta {
    pub code: u8,
    pub tracing: Tracing,
    pub headers: Vec<(String, String)>,
}
impl ResMeta {
    pub fn raw() -> ResMeta {
        ResMeta { code: 0, tracing: (0, 0, 0, 0), headers: vec![("as".into(), "raw".into())] }
    }
    pub fn size(&self) -> usize {
        1 + 1 + 25 + 1 + self.headers.iter().map(|(a, b)| 2 + a.len() + b.len()).sum::<usize>() + 1
    }
}
pub fn enc_call_res(flags: u8, m: &ResMeta, chunks: &[Vec<u8>]) -> Vec<u8> {
    let mut v = vec![flags, m.code];
    w_tracing(&mut v, m.tracing);
    v.push(m.headers.len() as u8);
    for (k, x) in &m.headers {
        s1(&mut v, k);
        s1(&mut v, x);
    }
    w_args(&mut v, chunks);
    v
}
pub fn enc_cont(flags: u8, chunks: &[Vec<u8>]) -> Vec<u8> {
    let mut v = vec![flags];
    w_args(&mut v, chunks);
    v
}
pub fn req_frames(id: u32, m: &ReqMeta, plan: &[Vec<Vec<u8>>]) -> Vec<Frame> {
    plan.iter()
        .enumerate()
        .map(|(i, c)| {
            let fl = if i + 1 < plan.len() { MORE } else { 0 };
            if i == 0 {
                Frame::new(CALL_REQ, id, enc_call_req(fl, m, c))
            } else {
                Frame::new(CALL_REQ_CONT, id, enc_cont(fl, c))
            }
        })
        .collect()
}
pub fn res_frames(id: u32, m: &ResMeta, plan: &[Vec<Vec<u8>>]) -> Vec<Frame> {
    plan.iter()
        .enumerate()
        .map(|(i, c)| {
            let fl = if i + 1 < plan.len() { MORE } else { 0 };
            if i == 0 {
                Frame::new(CALL_RES, id, enc_call_res(fl, m, c))
            } else {
                Frame::new(CALL_RES_CONT, id, enc_cont(fl, c))
            }
        })
        .collect()
}

/// Reassembly per the protocol: the first chunk of a continuation continues the current arg (an
/// empty one only marks its end); every further chunk ends the current arg and starts the next.
#[derive(Default, Debug, Clone)]
pub struct Assembler {
    pub args: Vec<Vec<u8>>,
    pub frames: usize,
}
impl Assembler {
    pub fn add(&mut self, chunks: &[Vec<u8>]) {
        for (i, c) in chunks.iter().enumerate() {
            if i == 0 && self.frames > 0 {
                if let Some(l) = self.args.last_mut() {
                    l.extend_from_slice(c);
                    continue;
                }
            }
            self.args.push(c.clone());
        }
        self.frames += 1;
    }
}

/// A random legal fragmentation of three args into frames of chunks.
pub fn fragment(args: &[Vec<u8>; 3], first_overhead: usize, r: &mut crate::core::Rng, mode: usize) -> Vec<Vec<Vec<u8>>> {
    let cap = |first: bool| 65535 - HDR - if first { first_overhead } else { 2 };
    let budget = |first: bool, r: &mut crate::core::Rng| -> usize {
        let c = cap(first);
        match mode {
            0 => c,                                       // as large as possible
            1 => r.range(2, 12),                          // tiny frames
            2 => r.range(2, 2000),
            3 => [2, 3, 4, 5, 6, 7, 8, 40, c][r.below(9)],
            _ => r.range(2, c),
        }
        .min(c)
    };
    let mut frames = vec![];
    let mut cur: Vec<Vec<u8>> = vec![];
    let mut left = budget(true, r);
    let (mut a, mut off) = (0usize, 0usize);
    loop {
        // here: room for a chunk header in this frame
        left -= 2;
        let rem = args[a].len() - off;
        let mut l = rem.min(left);
        if l > 0 && mode != 0 && r.chance(1, 6) {
            l = r.below(l + 1);
        }
        cur.push(args[a][off..off + l].to_vec());
        off += l;
        left -= l;
        let complete = off == args[a].len();
        if complete {
            if a == 2 {
                frames.push(std::mem::take(&mut cur));
                if mode != 0 && r.chance(1, 8) {
                    frames.push(vec![vec![]]); // trailing empty end-of-arg marker
                }
                return frames;
            }
            if cur.len() < 3 && left >= 2 && !(mode != 0 && r.chance(1, 5)) {
                a += 1;
                off = 0;
                continue;
            }
            // arg ends with the frame: next frame starts with an empty chunk
            frames.push(std::mem::take(&mut cur));
            left = budget(false, r).max(4);
            left -= 2;
            cur.push(vec![]);
            a += 1;
            off = 0;
        } else {
            frames.push(std::mem::take(&mut cur));
            left = budget(false, r).max(3);
        }
    }
}
