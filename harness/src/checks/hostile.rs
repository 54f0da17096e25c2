//! C07: hostile input never panics, hangs or allocates out of proportion.
use crate::checks::codec::enc_storage;
use crate::checks::store::{light, open_r, open_w};
use crate::io::*;
use crate::proto::*;
use crate::rw::*;
use crate::stream::*;
use crate::util::*;
use crate::{Check, Cx};
use brec::{ReadFrom, TryReadFrom, TryReadFromBuffered};
use std::io::Cursor;

pub fn checks() -> Vec<Check> { vec![Check { id: "C07", run: c07, quick: 500000, thorough: 12000000, san: 150, jobs: 8, cpu_limit: 60 }] }

fn absurd(r: &mut Rng) -> u64 {
    match r.below(9) {
        0 => u64::MAX,
        1 => u64::MAX - r.below(64) as u64,
        2 => i64::MAX as u64 + r.below(3) as u64,
        3 => 1u64 << r.range(26, 63),
        4 => u32::MAX as u64 - r.below(40) as u64 + 20,
        5 => (1u64 << r.range(26, 40)) + r.below(5000) as u64,
        6 => u64::MAX / 2 - r.below(9) as u64,
        7 => usize::MAX as u64 / (r.range(1, 9) as u64 * 8),
        _ => r.next() | 1 << 27,
    }
}
fn any_size(r: &mut Rng, near: usize) -> u64 {
    match r.below(6) { 0 => near as u64, 1 => near.saturating_sub(r.below(40)) as u64, 2 => (near + r.below(40)) as u64, 3 => r.below(near.max(1) * 2 + 2) as u64, _ => absurd(r) }
}
fn slot_of(cap: u64, lens: &[u64]) -> Vec<u8> {
    let mut f = cap.to_le_bytes().to_vec();
    for l in lens { f.extend_from_slice(&l.to_le_bytes()) }
    let c = crc32(&f).to_le_bytes();
    [&SLOT_SIG[..], &f, &c].concat()
}
/// Bytes made to mislead, with what was done to them.
pub fn forge(r: &mut Rng) -> (&'static str, Vec<u8>) {
    let s = if r.chance(15) { Shape::STD } else { Shape::SMALL };
    match r.below(14) {
        0 => { let n = r.below(600); ("random bytes", (0..n).map(|_| r.next() as u8).collect()) }
        1 => { let mut b = Vec::new(); for _ in 0..r.range(1, 4) { b.extend(rnd_pk(r, &s).reference().bytes) } for _ in 0..r.range(1, 6) { let k = r.below(b.len()); b[k] = *r.pick(&[0, 0xFF, 0x80, 0x7F, 1, b[k] ^ (1 << (k % 8)), b[k].wrapping_add(1)]) } ("damaged packets", b) }
        2 => {
            // header with a valid checksum and absurd sizes, before a real body
            let re = rnd_pk(r, &s).reference();
            let bl: usize = re.blocks.iter().map(|x| x.1).sum();
            let mut b = enc_header(any_size(r, re.bytes.len() - HDR), any_size(r, bl), r.coin());
            b.extend_from_slice(&re.bytes[HDR..]);
            if r.coin() { b.extend(rnd_pk(r, &s).reference().bytes) }
            if r.chance(20) { let k = r.below(b.len() + 1); b.truncate(k) }
            ("forged packet header", b)
        }
        3 => {
            // the announced length of a payload, under a matching packet header
            let mut re = loop { let p = rnd_pk(r, &s).reference(); if p.payload_at.is_some() { break p } };
            let at = re.body_at.unwrap();
            let l = if r.chance(70) { absurd(r) as u32 } else { any_size(r, re.bytes.len() - at) as u32 };
            re.bytes[at - 4..at].copy_from_slice(&l.to_le_bytes());
            let bl = (re.payload_at.unwrap() - HDR) as u64;
            let size = match r.below(3) { 0 => (at - HDR) as u64 + l as u64, 1 => absurd(r), _ => (re.bytes.len() - HDR) as u64 };
            let h = enc_header(size, bl, true);
            re.bytes[..HDR].copy_from_slice(&h);
            ("forged payload length in a packet", re.bytes)
        }
        4 => {
            // payload header alone: any lengths of signature and checksum
            let sl = if r.coin() { *r.pick(&[4, 8, 16, 32, 64, 128]) } else { r.below(256) };
            let cl = if r.coin() { *r.pick(&[4, 8, 16, 32, 64, 128]) } else { r.below(256) };
            let sig = if r.coin() { let k = r.below(NP); payload_sig(k) } else { (0..sl).map(|_| r.next() as u8).collect() };
            let crc: Vec<u8> = (0..cl).map(|_| r.next() as u8).collect();
            let mut b = enc_payload_header(&sig, &crc, absurd(r) as u32);
            b.extend((0..r.below(200)).map(|_| r.next() as u8));
            if r.chance(30) { let k = r.below(b.len() + 1); b.truncate(k) }
            ("forged payload header", b)
        }
        5 => {
            // a known payload with a length absurdly large, checksum of what is there
            let k = r.below(NP);
            let body = rnd_bytes(r, 100);
            let mut b = enc_payload_header(&payload_sig(k), &payload_crc(k, &body), if r.coin() { absurd(r) as u32 } else { body.len() as u32 });
            b.extend_from_slice(&body);
            ("payload with a forged length or body", b)
        }
        6 => {
            // many blocks, or blocks cut by blocks_len
            let n = *r.pick(&[1, 2, 254, 255, 256, 257, 300, 600]);
            let ks: Vec<usize> = (0..NB).filter(|k| B_LEN[*k] < 20).collect();
            let k = *r.pick(&ks);
            let mut body = Vec::new();
            for _ in 0..n { body.extend(enc_block(&gen_block(k, r))) }
            let bl = if r.coin() { body.len() as u64 } else { any_size(r, body.len()) };
            if r.chance(30) { body.extend((0..r.below(60)).map(|_| r.next() as u8)) }
            let mut b = enc_header(if r.chance(70) { body.len() as u64 } else { any_size(r, body.len()) }, bl, r.chance(30));
            b.extend(body);
            ("packet of many blocks, forged block length", b)
        }
        7 => {
            // slots whose checksum is valid and whose capacity or lengths are absurd
            let cap = match r.below(6) { 0 => 0, 1 => absurd(r), 2 => r.below(1000) as u64, 3 => 499 + r.below(3) as u64, _ => 500 };
            let n = match r.below(3) { 0 => r.below(600), _ => cap.min(600) as usize };
            let fill = if r.coin() { n } else { r.below(n + 1) };
            let lens: Vec<u64> = (0..n).map(|i| if i < fill { match r.below(4) { 0 => absurd(r), 1 => 0, _ => r.below(200) as u64 } } else { 0 }).collect();
            let mut b = slot_of(cap, &lens);
            b.extend((0..r.below(500)).map(|_| r.next() as u8));
            if r.coin() { b.extend(slot_of(500, &[absurd(r)])) }
            if r.chance(20) { let k = r.below(b.len() + 1); b.truncate(k) }
            ("forged slot", b)
        }
        8 => {
            // a storage whose lengths disagree with its packets
            let n = r.range(1, 6);
            let ps: Vec<Vec<u8>> = (0..n).map(|_| light(r).reference().bytes).collect();
            let mut lens: Vec<u64> = ps.iter().map(|p| p.len() as u64).collect();
            for _ in 0..r.range(1, 3) { let k = r.below(n); lens[k] = match r.below(4) { 0 => absurd(r), 1 => lens[k].saturating_sub(1), 2 => lens[k].wrapping_add(r.below(60) as u64), _ => r.below(40) as u64 } }
            if r.chance(30) { lens.resize(500, 0); let k = r.below(500); lens[k] = any_size(r, 50) }
            let mut b = enc_slot(&lens);
            for p in ps { b.extend(p) }
            if r.coin() { b.extend(enc_slot(&[any_size(r, 30)])) }
            ("storage with forged lengths", b)
        }
        9 => {
            let ps: Vec<Vec<u8>> = (0..r.range(0, 5)).map(|_| light(r).reference().bytes).collect();
            let mut b = enc_storage(&ps);
            for _ in 0..r.range(0, 4) { if b.is_empty() { break } let k = r.below(b.len()); b[k] = r.next() as u8 }
            let k = r.below(b.len() + 1);
            if r.coin() { b.truncate(k) }
            ("damaged storage", b)
        }
        10 => { let m = rnd_mixed(r, 2, &s, 100, true); let mut b = m.bytes; if r.coin() && !b.is_empty() { let k = r.below(b.len()); b.truncate(k) } ("mixed stream", b) }
        11 => {
            // chain of headers, each claiming more than there is
            let mut b = Vec::new();
            for _ in 0..r.range(1, 12) { b.extend(enc_header(if r.chance(40) { absurd(r) } else { r.below(90) as u64 }, r.below(90) as u64, r.coin())); if r.coin() { b.extend((0..r.below(60)).map(|_| r.next() as u8)) } }
            ("chain of forged headers", b)
        }
        12 => {
            // a block of known type, damaged, cut or alone
            let k = rnd_block_kind(r, &Shape::STD);
            let mut b = enc_block(&gen_block(k, r));
            match r.below(3) { 0 => { let n = r.below(b.len() + 1); b.truncate(n) } 1 => { let n = r.below(b.len()); b[n] ^= 1 << r.below(8) } _ => { let body: Vec<u8> = (0..b.len() - 8).map(|_| r.next() as u8).collect(); b = enc_block_kb(k, &body) } }
            ("block with any body", b)
        }
        _ => {
            // a packet made of blocks with any body and a payload with any body, all checksums right
            let mut body = Vec::new();
            for _ in 0..r.below(4) { let k = rnd_block_kind(r, &Shape::SMALL); let n = enc_block(&gen_block(k, r)).len() - 8; let x: Vec<u8> = (0..n).map(|_| r.next() as u8).collect(); body.extend(enc_block_kb(k, &x)) }
            let bl = body.len() as u64;
            let pl = r.coin();
            if pl { let k = r.below(NP); let x = match r.below(3) { 0 => rnd_bytes(r, 80), 1 => { let mut v = absurd(r).to_le_bytes().to_vec(); v.extend(rnd_bytes(r, 60)); v } _ => { let mut v = vec![*r.pick(&[253u8, 252, 251, 254, 255])]; v.extend(absurd(r).to_le_bytes()); v.extend(rnd_bytes(r, 30)); v } }; body.extend(enc_payload_header(&payload_sig(k), &payload_crc(k, &x), x.len() as u32)); body.extend(x) }
            let mut b = enc_header(body.len() as u64, bl, pl);
            b.extend(body);
            ("valid checksums over any content", b)
        }
    }
}
struct Watch<'a> { st: &'a mut Stats, input: usize }
impl Watch<'_> {
    /// One call sequence of the library under observation.
    fn call<T>(&mut self, what: &str, d: &[u8], f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
        let (res, peak, big) = alloc_watch(|| guard(f));
        self.st.add("calls_observed", 1);
        self.st.max("max_peak_bytes", peak);
        let bound = (16u64 << 20) + 64 * self.input as u64;
        ensure!(peak <= bound && big <= bound, "{what}: {peak} bytes requested (largest request {big}) for an input of {} bytes: {}", self.input, hex(d));
        match res { Err(p) => Err(format!("{what}: {p}; input {}", hex(d))), Ok(Err(e)) => Err(format!("{what}: {e}; input {}", hex(d))), Ok(Ok(v)) => Ok(v) }
    }
}
struct Any<'a, 'b> { w: &'a mut Watch<'b>, d: &'a [u8] }
impl BlockVisitor for Any<'_, '_> {
    type Out = Result<(), String>;
    fn visit<B: BlockSpec>(&mut self) -> Self::Out {
        let d = self.d;
        self.w.call(B_NAME[B::KIND], d, || {
            let _ = <B as brec::ReadBlockFrom>::read(&mut Cursor::new(d), false);
            let _ = <B as brec::ReadBlockFrom>::read(&mut Cursor::new(d), true);
            let _ = <B as TryReadFrom>::try_read(&mut Cursor::new(d));
            let mut c = d;
            let _ = <B as TryReadFromBuffered>::try_read(&mut c);
            let _ = B::view_body(d, false);
            let _ = B::view_body(d, true);
            let _ = B::view_to_owned(d);
            Ok(())
        })
    }
}
fn c07(cx: &mut Cx) -> Result<(), String> {
    let mut r = cx.r.clone();
    let (what, d) = forge(&mut r);
    let st = &mut *cx.st;
    let mut w = Watch { input: d.len(), st };
    let d = &d[..];
    // packets
    for m in READERS {
        let max = 4 * d.len() + 200;
        let v = w.call(&format!("{m:?} ({what})"), d, || read_by(m, d, max, &mut r))?;
        if m == Rd::Stream { ensure!(matches!(v.last(), Some((Got::End, _))), "{what}: the streaming reader does not reach the end of data in {max} calls; input {}", hex(d)) }
        let n = v.iter().filter(|x| matches!(x.0, Got::Packet(_))).count();
        w.st.add("packets_read", n as u64);
        w.st.add("refusals", (v.len() - n) as u64);
    }
    // with rules which look at everything
    w.call("streaming with rules", d, || {
        let mut src = ChunkSource::new(d.to_vec(), rnd_split(&mut r, d.len()));
        let mut rd = PacketBufReader::new(&mut src);
        let e = |e: brec::Error| e.to_string();
        rd.add_rule(Rule::FilterByBlocks(RuleFnDef::Dynamic(Box::new(|b: &[BlockReferred<'_>]| b.iter().map(|b| view_kind_body(b).1.len()).sum::<usize>() % 2 == 0)))).map_err(e)?;
        rd.add_rule(Rule::FilterByPayload(RuleFnDef::Dynamic(Box::new(|b: &[u8]| b.iter().fold(0u8, |a, x| a ^ x) % 2 == 0)))).map_err(e)?;
        rd.add_rule(Rule::Filter(RuleFnDef::Dynamic(Box::new(|p: &Packet| enc_packet(p).len() % 2 == 0)))).map_err(e)?;
        for _ in 0..4 * d.len() + 200 { if let Ok(brec::NextPacket::NoData) = rd.read() { return Ok(()) } }
        Err("the end of data is not reached".into())
    })?;
    w.call("filtered read with rules", d, || {
        let mut rules = brec::RulesDef::<Block, BlockReferred<'_>, Payload, Payload>::default();
        let e = |e: brec::Error| e.to_string();
        rules.add_rule(Rule::FilterByBlocks(RuleFnDef::Dynamic(Box::new(|b: &[BlockReferred<'_>]| b.iter().map(|b| view_kind_body(b).1.len()).sum::<usize>() < 1 << 20)))).map_err(e)?;
        rules.add_rule(Rule::FilterByPayload(RuleFnDef::Dynamic(Box::new(|b: &[u8]| b.len() < 1 << 20)))).map_err(e)?;
        let _ = Packet::filtered(&mut Cursor::new(d), &rules);
        Ok(())
    })?;
    // headers
    w.call("packet header", d, || {
        let _ = <brec::PacketHeader as ReadFrom>::read(&mut Cursor::new(d));
        let _ = <brec::PacketHeader as brec::ReadBlockFromSlice>::read_from_slice(d, false);
        let _ = <brec::PacketHeader as TryReadFrom>::try_read(&mut Cursor::new(d));
        let mut c = d;
        let _ = <brec::PacketHeader as TryReadFromBuffered>::try_read(&mut c);
        let p = brec::PacketHeader::get_pos(d);
        if let Some(p) = p { ensure!(p + 8 <= d.len() && d[p..].starts_with(&SIG), "a packet signature is found where there is none") }
        let _ = brec::PacketHeader::is_not_enought(d);
        Ok(())
    })?;
    w.call("payload header and payload", d, || payload_inputs(d, &mut r).map(|_| ()))?;
    // an arbitrary source position, also beyond the end
    let off = match r.below(4) { 0 => 0, 1 => d.len() as u64, 2 => absurd(&mut r), _ => r.below(d.len() + 1) as u64 };
    w.call("reading at any position", d, || {
        let at = || { let mut c = Cursor::new(d); c.set_position(off); c };
        let _ = <Packet as ReadFrom>::read(&mut at());
        let _ = <Packet as TryReadFrom>::try_read(&mut at());
        let _ = <Block as TryReadFrom>::try_read(&mut at());
        let _ = <brec::PacketHeader as TryReadFrom>::try_read(&mut at());
        let _ = <brec::PayloadHeader as TryReadFrom>::try_read(&mut at());
        let rules = brec::RulesDef::<Block, BlockReferred<'_>, Payload, Payload>::default();
        let _ = Packet::filtered(&mut at(), &rules);
        for x in [0, HDR] {
            if let Ok(h) = brec::PayloadHeader::read(&mut d.get(x..).unwrap_or(&[])) {
                let _ = <Payload as brec::TryExtractPayloadFrom<Payload>>::try_read(&mut at(), &h);
                let _ = <Payload as brec::ExtractPayloadFrom<Payload>>::read(&mut at(), &h);
            }
        }
        Ok(())
    })?;
    // blocks: through the enum, and by type, at the start and behind a header
    for b in [d, d.get(HDR..).unwrap_or(&[])] {
        w.call("Block", b, || {
            let _ = <Block as ReadFrom>::read(&mut Cursor::new(b));
            let _ = <Block as brec::ReadBlockFrom>::read(&mut Cursor::new(b), false);
            let _ = <Block as TryReadFrom>::try_read(&mut Cursor::new(b));
            let mut c = b;
            let _ = <Block as TryReadFromBuffered>::try_read(&mut c);
            let _ = <BlockReferred as brec::ReadBlockFromSlice>::read_from_slice(b, false).map(|b| view_kind_body(&b));
            Ok(())
        })?;
        for _ in 0..3 { let k = r.below(NB); visit_block(k, &mut Any { w: &mut w, d: b })?; }
        if let Some(k) = (0..NB).find(|k| b.starts_with(&block_sig(*k))) { visit_block(k, &mut Any { w: &mut w, d: b })?; }
        w.call("payload", b, || payload_inputs(b, &mut r).map(|_| ()))?;
    }
    // storage
    let slots = d.len() / 20 + 2;
    w.call("storage reading", d, || {
        let s = MemStore::with(d.to_vec());
        let Ok(mut rd) = open_r(&s)? else { return Ok(()) };
        let c = rd.count();
        let lim = d.len() + 600 * slots + 10;
        let e = |w: &str| format!("{w} of a storage does not end ({lim} results)");
        ensure!(c <= lim, "a storage of {} bytes counts {c} packets", d.len());
        ensure!(rd.iter().take(lim + 1).count() <= lim, "{}", e("iteration"));
        ensure!(rd.filtered().take(lim + 1).count() <= lim, "{}", e("filtered iteration"));
        for i in [0, 1, c.saturating_sub(1), c, c + 1, usize::MAX, r.below(c + 2)] {
            let _ = rd.nth(i);
            if let Ok(it) = rd.seek(i) { ensure!(it.take(lim + 1).count() <= lim, "{}", e("iteration from an index")) }
            for l in [0, 1, c, usize::MAX] {
                ensure!(rd.range(i, l).take(lim + 1).count() <= lim, "{}", e("range"));
                ensure!(rd.range_filtered(i, l).take(lim + 1).count() <= lim, "{}", e("filtered range"));
            }
        }
        let _ = rd.reload();
        { let mut i = s.inner.lock().unwrap(); let x = r.below(d.len() + 1); if r.coin() { i.data.truncate(x) } else { i.data.extend_from_slice(&d[..x]) } }
        for _ in 0..2 { let _ = rd.reload(); ensure!(rd.iter().take(2 * lim + 1).count() <= 2 * lim, "{}", e("iteration after reload")); let _ = rd.nth(rd.count().saturating_sub(1)); }
        Ok(())
    })?;
    w.call("storage writing", d, || {
        let s = MemStore::with(d.to_vec());
        // an absurd position a forged slot points to must not be filled up
        s.inner.lock().unwrap().capacity = Some(d.len() + (4 << 20));
        let Ok(mut wr) = open_w(&s)? else { return Ok(()) };
        for _ in 0..2 { let _ = wr.insert(light(&mut r).packet()); }
        Ok(())
    })?;
    st.add("inputs", 1);
    st.seen(fnv(d));
    st.sample(|| format!("{what}: {}", hex(d)));
    Ok(())
}
