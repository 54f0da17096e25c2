//! Driving the streaming reader, the reference extraction, and hostile mixed streams.
use crate::io::*;
use crate::proto::*;
use crate::util::*;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub enum Obs { Found(Vec<u8>), Skipped, Error(String) }
#[derive(Default, Debug)]
pub struct Outcome { pub obs: Vec<Obs>, pub calls: usize, pub not_found: usize, pub not_enough: usize, pub ignored: Vec<u8>, pub ignored_calls: usize, pub transient: usize, pub ended: bool }
impl Outcome {
    pub fn found(&self) -> Vec<&Vec<u8>> { self.obs.iter().filter_map(|o| if let Obs::Found(b) = o { Some(b) } else { None }).collect() }
    pub fn errors(&self) -> usize { self.obs.iter().filter(|o| matches!(o, Obs::Error(_))).count() }
    pub fn skipped(&self) -> usize { self.obs.iter().filter(|o| matches!(o, Obs::Skipped)).count() }
}
pub fn is_injected(e: &brec::Error) -> bool { matches!(e, brec::Error::Io(e) if e.to_string() == "injected") }

pub type RuleMaker = dyn for<'a> Fn(&mut PacketBufReader<'a, ChunkSource>);
/// Reads the source to its end through PacketBufReader, recording every result and every ignored byte.
/// The number of calls is bounded by the stream length: exceeding the bound is reported as `ended == false`.
pub fn drive(len: usize, src: &mut ChunkSource, errs: usize, rules: Option<&RuleMaker>) -> Result<Outcome, String> {
    let ign: Arc<Mutex<(Vec<u8>, usize)>> = Default::default();
    let g = ign.clone();
    let mut o = Outcome::default();
    let r = guard(|| {
        let mut rd = PacketBufReader::new(src);
        rd.add_rule(Rule::Ignored(RuleFnDef::Dynamic(Box::new(move |b: &[u8]| { let mut g = g.lock().unwrap(); g.0.extend_from_slice(b); g.1 += 1; })))).map_err(|e| e.to_string())?;
        if let Some(m) = rules { m(&mut rd) }
        let bound = 4 * len + 200 + errs;
        while o.calls < bound {
            o.calls += 1;
            match rd.read() {
                Ok(brec::NextPacket::Found(p)) => o.obs.push(Obs::Found(enc_packet(&p))),
                Ok(brec::NextPacket::Skipped) => o.obs.push(Obs::Skipped),
                Ok(brec::NextPacket::NotFound) => o.not_found += 1,
                Ok(brec::NextPacket::NotEnoughData(_)) => o.not_enough += 1,
                Ok(brec::NextPacket::NoData) => { o.ended = true; break; }
                Err(e) if is_injected(&e) => o.transient += 1,
                Err(e) => o.obs.push(Obs::Error(e.to_string())),
            }
        }
        Ok::<(), String>(())
    });
    match r { Err(p) => return Err(format!("reader panicked: {p}")), Ok(r) => r? }
    let g = ign.lock().unwrap();
    o.ignored = g.0.clone();
    o.ignored_calls = g.1;
    Ok(o)
}

/// What the reference says about a stream: positions claimed by headers with a valid checksum.
#[derive(Default)]
pub struct Extract { pub claims: Vec<(usize, usize)>, pub garbage: Vec<u8>, pub tail: Option<usize>, pub false_sigs: usize }
pub fn header_at(s: &[u8], i: usize) -> Option<(u64, u64, bool)> {
    if s.len() < i + HDR || s[i..i + 8] != SIG { return None; }
    let mut f = s[i + 8..i + 25].to_vec();
    f[16] = (f[16] == 1) as u8;
    if crc32(&f).to_le_bytes() != s[i + 25..i + 29] { return None; }
    Some((u64::from_le_bytes(f[..8].try_into().unwrap()), u64::from_le_bytes(f[8..16].try_into().unwrap()), f[16] == 1))
}
pub fn extract(s: &[u8]) -> Extract {
    let mut x = Extract::default();
    let mut i = 0;
    while i < s.len() {
        if s[i] == SIG[0] && s[i..].starts_with(&SIG) {
            match header_at(s, i) {
                Some((size, _, _)) => {
                    let end = (i + HDR) as u128 + size as u128;
                    if end > s.len() as u128 { x.tail = Some(i); return x; }
                    x.claims.push((i, end as usize));
                    i = end as usize;
                    continue;
                }
                None => x.false_sigs += 1,
            }
        }
        x.garbage.push(s[i]);
        i += 1;
    }
    x
}

/// Foreign bytes, with look-alikes of headers in them.
pub fn rnd_garbage(r: &mut Rng, max: usize) -> Vec<u8> {
    let mut o = Vec::new();
    for _ in 0..r.range(1, 3) {
        match r.below(13) {
            0 => {}
            1 => o.extend((0..r.below(max + 1)).map(|_| r.next() as u8)),
            2 => o.extend((0..r.below(12)).map(|_| r.next() as u8)),
            3 => o.extend_from_slice(&SIG[..r.range(1, 7)]),
            4 => o.extend_from_slice(&SIG[r.range(1, 7)..]),
            5 => o.extend_from_slice(&SIG),
            6 => for _ in 0..r.range(1, 4) { o.extend_from_slice(&SIG[..4]) },
            7 => { let mut h = enc_header(r.below(400) as u64, r.below(400) as u64, r.coin()); let k = r.range(8, 28); h[k] ^= 1 << r.below(8); if k != 24 { o.extend_from_slice(&h) } }
            8 => { let h = enc_header(r.below(100) as u64, 0, false); o.extend_from_slice(&h[..r.range(1, 28)]) }
            9 => { o.extend_from_slice(&SIG); o.extend((0..r.below(40)).map(|_| r.next() as u8)) }
            10 => o.extend(std::iter::repeat(SIG[0]).take(r.below(20))),
            11 => { let mut s = enc_slot(&[r.below(500) as u64]); s.truncate(r.below(200)); o.extend_from_slice(&s) }
            _ => o.extend((0..r.range(25, 33)).map(|_| r.next() as u8)),
        }
    }
    if r.chance(2) { o.extend((0..r.range(8000, 9000)).map(|_| r.next() as u8)) }
    o
}
pub fn enc_slot(lens: &[u64]) -> Vec<u8> {
    let mut o = SLOT_SIG.to_vec();
    let mut f = (SLOT_CAP as u64).to_le_bytes().to_vec();
    for i in 0..SLOT_CAP { f.extend_from_slice(&lens.get(i).copied().unwrap_or(0).to_le_bytes()) }
    o.extend_from_slice(&f);
    o.extend_from_slice(&crc32(&f).to_le_bytes());
    o
}
/// Garbage must not complete a claim together with its neighbours: regenerated until the reference
/// extraction of the whole stream claims exactly the packets laid down.
pub struct Mixed { pub bytes: Vec<u8>, pub spans: Vec<(usize, usize)>, pub pks: Vec<Pk>, pub garbage: Vec<u8> }
pub fn rnd_mixed(r: &mut Rng, n: usize, shape: &Shape, gmax: usize, nest: bool) -> Mixed {
    loop {
        let mut m = Mixed { bytes: vec![], spans: vec![], pks: vec![], garbage: vec![] };
        let dense = r.chance(25);
        // headers and bodies around the boundary of the reader's own buffer
        if r.chance(3) { let k = 8192 - r.below(64) + r.below(4); let z = r.next() as u8; let g: Vec<u8> = if r.coin() { vec![z; k] } else { (0..k).map(|_| r.next() as u8).collect() }; m.garbage.extend_from_slice(&g); m.bytes.extend_from_slice(&g); }
        for i in 0..=n {
            if !dense || r.chance(20) { let g = rnd_garbage(r, gmax); m.garbage.extend_from_slice(&g); m.bytes.extend_from_slice(&g); }
            if i == n { break; }
            let mut pk = rnd_pk(r, shape);
            if nest && r.chance(15) {
                // a whole packet, or bits of headers, inside the payload: must stay payload
                let inner = if r.coin() { let s = rnd_pk(r, &Shape::SMALL); s.reference().bytes } else { rnd_garbage(r, 64) };
                pk.payload = Some(Payload::Bytes(inner));
            }
            let b = pk.reference().bytes;
            m.spans.push((m.bytes.len(), m.bytes.len() + b.len()));
            m.bytes.extend_from_slice(&b);
            m.pks.push(pk);
        }
        let x = extract(&m.bytes);
        if x.claims == m.spans && x.tail.is_none() && x.garbage == m.garbage { return m; }
    }
}
