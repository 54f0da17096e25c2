//! C26: whatever the bytes are, all methods that read the same thing come to the same answer.
use crate::checks::hostile::forge;
use crate::checks::store::open_r;
use crate::io::*;
use crate::proto::*;
use crate::rw::*;
use crate::stream::*;
use crate::util::*;
use crate::{Check, Cx};
use brec::{ReadFrom, ReadStatus, TryReadFrom, TryReadFromBuffered};
use std::io::Cursor;

pub fn checks() -> Vec<Check> { vec![Check { id: "C26", run: c26, quick: 700000, thorough: 14000000, san: 120, jobs: 8, cpu_limit: 60 }] }

/// What a reading method says about the bytes: the value it read, or nothing (an error and a shortage are the same here).
type Says = Option<Vec<u8>>;
struct Poll { what: String, first: Option<(&'static str, Says, String)>, n: u64 }
impl Poll {
    fn new(what: String) -> Self { Poll { what, first: None, n: 0 } }
    fn add(&mut self, m: &'static str, g: Result<Vec<u8>, String>, d: &[u8]) -> Result<(), String> {
        let (s, e) = match g { Ok(v) => (Some(v), String::new()), Err(e) => (None, e) };
        self.n += 1;
        let Some((m0, s0, e0)) = &self.first else { self.first = Some((m, s, e)); return Ok(()) };
        let show = |s: &Says, e: &String| match s { Some(v) => format!("reads {}", hex(v)), None => format!("refuses ({e})") };
        ensure!(*s0 == s, "{}: {m0} {}, {m} {}; bytes {}", self.what, show(s0, e0), show(&s, &e), hex(d));
        Ok(())
    }
    fn verdict(&self) -> Says { self.first.as_ref().and_then(|f| f.1.clone()) }
}
fn st<T>(x: Result<ReadStatus<T>, brec::Error>, f: impl FnOnce(T) -> Vec<u8>) -> Result<Vec<u8>, String> { match x { Ok(ReadStatus::Success(v)) => Ok(f(v)), Ok(ReadStatus::NotEnoughData(n)) => Err(format!("{n} more bytes needed")), Err(e) => Err(e.to_string()) } }
fn er(e: brec::Error) -> String { e.to_string() }

/// One block, typed API, at the start of `d`.
struct Typed<'a> { d: &'a [u8], split: Vec<usize>, intr: Vec<usize> }
impl BlockVisitor for Typed<'_> {
    type Out = Result<(Says, u64), String>;
    fn visit<B: BlockSpec>(&mut self) -> Self::Out {
        let d = self.d;
        let mut p = Poll::new(format!("block {}", B_NAME[B::KIND]));
        let res = guard(|| {
            let mut o: Vec<(&'static str, Result<Vec<u8>, String>, Option<usize>)> = Vec::new();
            let mut c = Cursor::new(d);
            o.push(("read", <B as brec::ReadBlockFrom>::read(&mut c, false).map(|b| b.body()).map_err(er), Some(c.position() as usize)));
            let mut c = ChunkSource::new(d.to_vec(), self.split.clone()).interrupted(&self.intr);
            o.push(("read (split source)", <B as brec::ReadBlockFrom>::read(&mut c, false).map(|b| b.body()).map_err(er), Some(c.position())));
            let mut c = Cursor::new(d);
            o.push(("try_read", st(<B as TryReadFrom>::try_read(&mut c), |b| b.body()), Some(c.position() as usize)));
            let mut c = d;
            o.push(("buffered try_read", st(<B as TryReadFromBuffered>::try_read(&mut c), |b| b.body()), Some(d.len() - c.len())));
            o.push(("view", B::view_body(d, false).map_err(er), None));
            o.push(("view to owned", B::view_to_owned(d).map(|b| b.body()).map_err(er), None));
            if d.starts_with(&block_sig(B::KIND)) {
                let mut c = Cursor::new(&d[4..]);
                o.push(("read without signature", <B as brec::ReadBlockFrom>::read(&mut c, true).map(|b| b.body()).map_err(er), Some(c.position() as usize + 4)));
                o.push(("view without signature", B::view_body(&d[4..], true).map_err(er), None));
            }
            o
        }).map_err(|e| format!("{}: {e}; bytes {}", p.what, hex(d)))?;
        let len = <B as brec::StaticSize>::ssize() as usize;
        for (m, g, used) in res {
            if let (true, Some(u)) = (g.is_ok(), used) { ensure!(u == len, "{}: {m} consumes {u} bytes of a block of {len}; bytes {}", p.what, hex(d)) }
            p.add(m, g, d)?;
        }
        Ok((p.verdict(), p.n))
    }
}
fn blocks_agree(d: &[u8], r: &mut Rng, st_: &mut Stats) -> Result<(), String> {
    let split = rnd_split(r, d.len());
    let intr = rnd_interruptions(r, d.len());
    // through the enum
    let kb = |(k, b): (usize, Vec<u8>)| { let mut v = vec![k as u8, (k >> 8) as u8]; v.extend(b); v };
    let ob = |b: Block| kb((block_kind(&b), block_body(&b)));
    let mut p = Poll::new("Block".into());
    let res = guard(|| {
        let mut o: Vec<(&'static str, Result<Vec<u8>, String>, Option<usize>)> = Vec::new();
        let mut c = Cursor::new(d);
        o.push(("read", <Block as ReadFrom>::read(&mut c).map(ob).map_err(er), Some(c.position() as usize)));
        let mut c = ChunkSource::new(d.to_vec(), split.clone()).interrupted(&intr);
        o.push(("read (split source)", <Block as ReadFrom>::read(&mut c).map(ob).map_err(er), Some(c.position())));
        let mut c = Cursor::new(d);
        o.push(("read_block", <Block as brec::ReadBlockFrom>::read(&mut c, false).map(ob).map_err(er), Some(c.position() as usize)));
        let mut c = Cursor::new(d);
        o.push(("try_read", st(<Block as TryReadFrom>::try_read(&mut c), ob), Some(c.position() as usize)));
        let mut c = d;
        o.push(("buffered try_read", st(<Block as TryReadFromBuffered>::try_read(&mut c), ob), Some(d.len() - c.len())));
        let view = <BlockReferred as brec::ReadBlockFromSlice>::read_from_slice(d, false);
        let used = view.as_ref().ok().map(|b| brec::Size::size(b) as usize);
        o.push(("view", view.map(|b| kb(view_kind_body(&b))).map_err(er), used));
        o.push(("view to owned", <BlockReferred as brec::ReadBlockFromSlice>::read_from_slice(d, false).map(|b| ob(b.into())).map_err(er), None));
        o
    }).map_err(|e| format!("Block: {e}; bytes {}", hex(d)))?;
    let mut first: Option<usize> = None;
    for (m, g, used) in res {
        if let (true, Some(u)) = (g.is_ok(), used) { let f = *first.get_or_insert(u); ensure!(f == u, "Block: {m} consumes {u} bytes, read {f}; bytes {}", hex(d)) }
        p.add(m, g, d)?;
    }
    st_.add("block_answers_compared", p.n);
    let all = p.verdict();
    st_.add(if all.is_some() { "block_inputs_read" } else { "block_inputs_refused" }, 1);
    // by type: the type whose signature it is, and any other
    let own = (0..NB).find(|k| d.starts_with(&block_sig(*k)));
    for k in own.into_iter().chain([r.below(NB)]) {
        let (v, n) = visit_block(k, &mut Typed { d, split: split.clone(), intr: intr.clone() })?;
        st_.add("block_answers_compared", n);
        if Some(k) == own {
            let v = v.map(|b| kb((k, b)));
            ensure!(v == all, "block {}: read by type {:?}, through Block {:?}; bytes {}", B_NAME[k], v.map(|b| hex(&b)), all.map(|b| hex(&b)), hex(d));
        } else { ensure!(v.is_none(), "block {}: reads bytes which begin with another signature: {}", B_NAME[k], hex(d)) }
    }
    if own.is_none() { ensure!(all.is_none(), "Block: reads bytes of an unknown signature: {}", hex(d)) }
    Ok(())
}
fn headers_agree(d: &[u8], r: &mut Rng, st_: &mut Stats) -> Result<Option<(u64, u64, bool)>, String> {
    let split = rnd_split(r, d.len());
    let intr = rnd_interruptions(r, d.len());
    let mut p = Poll::new("packet header".into());
    let f = |h: brec::PacketHeader| { let mut v = h.size.to_le_bytes().to_vec(); v.extend(h.blocks_len.to_le_bytes()); v.push(h.payload as u8); v.extend(h.crc.to_le_bytes()); v };
    let res = guard(|| vec![
        ("read", brec::PacketHeader::read(&mut Cursor::new(d)).map(f).map_err(er)),
        ("read (split source)", brec::PacketHeader::read(&mut ChunkSource::new(d.to_vec(), split.clone()).interrupted(&intr)).map(f).map_err(er)),
        ("from a slice", <brec::PacketHeader as brec::ReadBlockFromSlice>::read_from_slice(d, false).map(f).map_err(er)),
        ("try_read", st(<brec::PacketHeader as TryReadFrom>::try_read(&mut Cursor::new(d)), f)),
        ("buffered try_read", { let mut c = d; st(<brec::PacketHeader as TryReadFromBuffered>::try_read(&mut c), f) }),
    ]).map_err(|e| format!("packet header: {e}; bytes {}", hex(d)))?;
    for (m, g) in res { p.add(m, g, d)? }
    st_.add("header_answers_compared", p.n);
    Ok(p.verdict().map(|v| (u64::from_le_bytes(v[..8].try_into().unwrap()), u64::from_le_bytes(v[8..16].try_into().unwrap()), v[16] != 0)))
}
fn payloads_agree(d: &[u8], r: &mut Rng, st_: &mut Stats) -> Result<(), String> {
    // the header alone
    let split = rnd_split(r, d.len());
    let intr = rnd_interruptions(r, d.len());
    let mut p = Poll::new("payload header".into());
    let f = |h: brec::PayloadHeader| { let mut v = (h.size() as u64).to_le_bytes().to_vec(); v.extend((h.payload_len() as u64).to_le_bytes()); v };
    let res = guard(|| vec![
        ("read", brec::PayloadHeader::read(&mut Cursor::new(d)).map(f).map_err(er)),
        ("read (split source)", brec::PayloadHeader::read(&mut ChunkSource::new(d.to_vec(), split.clone()).interrupted(&intr)).map(f).map_err(er)),
        ("try_read", st(<brec::PayloadHeader as TryReadFrom>::try_read(&mut Cursor::new(d)), f)),
        ("buffered try_read", { let mut c = d; st(<brec::PayloadHeader as TryReadFromBuffered>::try_read(&mut c), f) }),
    ]).map_err(|e| format!("payload header: {e}; bytes {}", hex(d)))?;
    for (m, g) in res { p.add(m, g, d)? }
    st_.add("payload_answers_compared", p.n);
    // with the body
    let mut p = Poll::new("payload".into());
    let mut first = None;
    for (m, g, used) in payload_inputs(d, r)? {
        if g.is_ok() { let f = *first.get_or_insert(used); ensure!(f == used, "payload: {m} consumes {used} bytes, another method {f}; bytes {}", hex(d)) }
        p.add(m, g.map(|(k, b)| { let mut v = vec![k as u8, (k >> 8) as u8]; v.extend(b); v }), d)?;
    }
    st_.add("payload_answers_compared", p.n);
    st_.add(if p.verdict().is_some() { "payload_inputs_read" } else { "payload_inputs_refused" }, 1);
    Ok(())
}
/// Valid packets with parts changed and every checksum made right again, and headers that disagree with what follows.
fn twist(r: &mut Rng) -> (&'static str, Vec<u8>) {
    let mut re = rnd_pk(r, &Shape::SMALL).reference();
    let bl: u64 = re.blocks.iter().map(|x| x.1 as u64).sum();
    let size = (re.bytes.len() - HDR) as u64;
    let has = re.payload_at.is_some();
    let what = match r.below(8) {
        0 => {
            // a block with other bytes in it, its checksum right
            if let Some(&(at, n)) = re.blocks.get(r.below(re.blocks.len().max(1))) {
                let body = at + 4..at + n - 4;
                for _ in 0..r.range(1, 4) { if body.is_empty() { break } let (k, x) = (body.start + r.below(body.len()), r.next() as u8); re.bytes[k] = *r.pick(&[0, 1, 2, 3, 7, 0x7F, 0x80, 0xFF, x]); }
                let k = (0..NB).find(|k| re.bytes[at..].starts_with(&block_sig(*k))).unwrap();
                if B_CRC[k] || r.coin() { let c = crc32(&re.bytes[body.clone()]).to_le_bytes(); re.bytes[body.end..body.end + 4].copy_from_slice(&c); }
            }
            "block of any content"
        }
        1 => {
            // the blocks end somewhere else: behind fewer or more of them, or within one
            let nbl = match r.below(4) { 0 => re.blocks.iter().take(r.below(re.blocks.len() + 1)).map(|x| x.1 as u64).sum(), 1 => size, 2 => size + r.below(200) as u64, _ => bl.saturating_sub(r.below(20) as u64) };
            let h = enc_header(size, nbl, has); re.bytes[..HDR].copy_from_slice(&h);
            if r.coin() { re.bytes.extend(rnd_pk(r, &Shape::SMALL).reference().bytes) }
            "blocks end somewhere else"
        }
        2 => {
            // the packet ends somewhere else
            let ns = match r.below(4) { 0 => bl, 1 => size + r.below(60) as u64, 2 => size.saturating_sub(r.below(60) as u64), _ => bl + r.below(60) as u64 };
            let h = enc_header(ns, bl, has); re.bytes[..HDR].copy_from_slice(&h);
            let n = r.below(100); re.bytes.extend((0..n).map(|_| r.next() as u8));
            "packet ends somewhere else"
        }
        3 => {
            // presence of a payload denied or claimed
            let h = enc_header(size, bl, !has); re.bytes[..HDR].copy_from_slice(&h);
            if r.coin() { re.bytes.extend(rnd_pk(r, &Shape::SMALL).reference().bytes) }
            "payload flag inverted"
        }
        4 => {
            // any byte as the flag, the checksum over that byte or over what it is taken for
            let f = *r.pick(&[0u8, 1, 2, 3, 0x80, 0xFF]);
            let mut x = re.bytes[8..24].to_vec();
            x.push(if r.coin() { f } else { r.below(2) as u8 });
            let c = crc32(&x).to_le_bytes();
            re.bytes[24] = f; re.bytes[25..29].copy_from_slice(&c);
            "any payload flag"
        }
        5 => {
            // padding inside the packet behind everything
            let n = r.range(1, 60);
            re.bytes.extend((0..n).map(|_| if r.coin() { 0 } else { r.next() as u8 }));
            let h = enc_header(size + n as u64, bl, if r.chance(80) { has } else { !has }); re.bytes[..HDR].copy_from_slice(&h);
            "padding behind the content"
        }
        6 => {
            // order of the parts: payload first
            if let Some(p) = re.payload_at { let mut v = re.bytes[p..].to_vec(); v.extend_from_slice(&re.bytes[HDR..p]); let pl = (re.bytes.len() - p) as u64; re.bytes.truncate(HDR); re.bytes.extend(v); let h = enc_header(size, if r.coin() { bl } else { pl }, true); re.bytes[..HDR].copy_from_slice(&h); }
            "payload before the blocks"
        }
        _ => {
            // the payload: signature or checksum replaced, of the same or another length
            if let Some(p) = re.payload_at {
                let at = re.body_at.unwrap();
                let body = re.bytes[at..].to_vec();
                let k = r.below(NP);
                let (sk, ck) = (if r.coin() { k } else { r.below(NP) }, k);
                let mut crc = payload_crc(ck, &body);
                if r.chance(30) && !crc.is_empty() { let i = r.below(crc.len()); crc[i] ^= 1 << r.below(8) }
                let l = if r.chance(80) { body.len() } else { r.below(body.len() + 20) };
                re.bytes.truncate(p);
                re.bytes.extend(enc_payload_header(&payload_sig(sk), &crc, l as u32));
                re.bytes.extend(body);
                let h = enc_header((re.bytes.len() - HDR) as u64, bl, true); re.bytes[..HDR].copy_from_slice(&h);
            }
            "payload under another header"
        }
    };
    if r.chance(25) { re.bytes.extend(rnd_pk(r, &Shape::SMALL).reference().bytes) }
    if r.chance(10) { let k = r.below(re.bytes.len() + 1); re.bytes.truncate(k) }
    (what, re.bytes)
}
fn c26(cx: &mut Cx) -> Result<(), String> {
    let mut r = cx.r.clone();
    let (what, d) = if r.chance(55) { twist(&mut r) } else { forge(&mut r) };
    let st_ = &mut *cx.st;
    let d = &d[..];
    let head = headers_agree(d, &mut r, st_)?;
    // the packet
    let mut p = Poll::new(format!("packet ({what})"));
    let full = head.map(|h| (HDR as u64).saturating_add(h.0));
    for m in READERS {
        let name = match m { Rd::Read => "read", Rd::ReadSplit => "read (split source)", Rd::TrySeek => "try_read", Rd::TrySeekSplit => "try_read (split source)", Rd::FilteredSplit => "filtered (split source)", Rd::TryBuf => "buffered try_read", Rd::TryBufRefill => "buffered try_read (bytes arriving)", Rd::Filtered => "filtered", Rd::Stream => "streaming" };
        let v = read_by(m, d, 1, &mut r).map_err(|e| format!("{what}: {e}; bytes {}", hex(d)))?;
        let Some((g, used)) = v.into_iter().next() else { return Err(format!("packet ({what}): {name} gives no answer; bytes {}", hex(d))) };
        if let (Got::Packet(_), Some(u)) = (&g, used) { ensure!(Some(u as u64) == full, "packet ({what}): {name} consumes {u} bytes of a packet of {full:?}; bytes {}", hex(d)) }
        if m == Rd::Stream && p.verdict().is_none() {
            // bytes it refuses are searched for the next packet; only what the header covers is compared
            match full {
                Some(n) if n <= d.len() as u64 => ensure!(matches!(g, Got::Error(_)), "packet ({what}): the other methods refuse ({}), streaming gives {}; bytes {}", p.first.as_ref().map(|f| f.2.clone()).unwrap_or_default(), show(&g), hex(d)),
                Some(_) => ensure!(g == Got::End, "packet ({what}): it is incomplete, streaming gives {}; bytes {}", show(&g), hex(d)),
                None => continue,
            }
            st_.add("packet_answers_compared", 1);
            continue;
        }
        p.add(name, match g { Got::Packet(b) => Ok(b), Got::NotEnough => Err("more data needed".into()), Got::Error(e) => Err(e), Got::End => Err("end of data".into()) }, d)?;
    }
    st_.add("packet_answers_compared", p.n);
    let packet = p.verdict();
    st_.add(if packet.is_some() { "packet_inputs_read" } else { "packet_inputs_refused" }, 1);
    // the same bytes as the only packet of a storage
    if !d.is_empty() && head.is_some() {
        let mut img = enc_slot(&[d.len() as u64]);
        img.extend_from_slice(d);
        let s = MemStore::with(img);
        let Ok(mut rd) = open_r(&s)? else { return Err(format!("{what}: the storage holding it is refused; bytes {}", hex(d))) };
        let ep = |p: Result<Packet, brec::Error>| p.map(|p| enc_packet(&p)).map_err(er);
        let no = || Err(brec::Error::EmptySource);
        let res = guard(|| {
            let mut o: Vec<(&'static str, Result<Vec<u8>, String>)> = Vec::new();
            o.push(("nth", match rd.nth(0) { Ok(Some(p)) => Ok(enc_packet(&p)), Ok(None) => Err("nothing".to_string()), Err(e) => Err(e.to_string()) }));
            o.push(("iteration", ep(rd.iter().next().unwrap_or_else(no))));
            o.push(("filtered iteration", ep(rd.filtered().next().unwrap_or_else(no))));
            o.push(("iteration from an index", match rd.seek(0) { Ok(mut i) => ep(i.next().unwrap_or_else(no)), Err(e) => Err(e.to_string()) }));
            o.push(("range", ep(rd.range(0, 1).next().unwrap_or_else(no))));
            o.push(("filtered range", ep(rd.range_filtered(0, 1).next().unwrap_or_else(no))));
            o
        }).map_err(|e| format!("{what}, in a storage: {e}; bytes {}", hex(d)))?;
        let mut p = Poll { what: format!("packet ({what}), alone and in a storage"), first: Some(("read", packet.clone(), String::new())), n: 0 };
        for (m, g) in res { p.add(m, g, d)? }
        st_.add("storage_answers_compared", p.n);
    }
    // blocks and payloads at the places where they may begin
    let mut at = vec![0];
    if let Some(h) = head { at.push(HDR); at.push((HDR as u64).saturating_add(h.1).min(d.len() as u64) as usize) }
    for a in at {
        let b = d.get(a..).unwrap_or(&[]);
        blocks_agree(b, &mut r, st_)?;
        payloads_agree(b, &mut r, st_)?;
    }
    st_.add("inputs", 1);
    st_.seen(fnv(d));
    st_.sample(|| format!("{what}: {} -> {}", hex(d), if packet.is_some() { "read by all" } else { "refused by all" }));
    Ok(())
}
fn show(g: &Got) -> String { match g { Got::Packet(b) => format!("a packet {}", hex(b)), Got::NotEnough => "more data needed".into(), Got::Error(e) => format!("an error ({e})"), Got::End => "the end of data".into() } }
