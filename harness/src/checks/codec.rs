//! C01, C02, C05, C20, C23: codecs against the reference encoder, through every API pair.
use crate::io::*;
use crate::proto::*;
use crate::rw::*;
use crate::stream::*;
use crate::util::*;
use crate::{Check, Cx};

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C01", run: c01, quick: 300000, thorough: 6000000, san: 300, jobs: 8, cpu_limit: 60 },
        Check { id: "C02", run: c02, quick: 300000, thorough: 6000000, san: 300, jobs: 8, cpu_limit: 60 },
        Check { id: "C05", run: c05, quick: 40000, thorough: 800000, san: 60, jobs: 8, cpu_limit: 120 },
        Check { id: "C20", run: c20, quick: 200000, thorough: 4000000, san: 200, jobs: 8, cpu_limit: 60 },
        Check { id: "C21", run: c21, quick: 200000, thorough: 3000000, san: 200, jobs: 8, cpu_limit: 60 },
        Check { id: "C23", run: c23, quick: 20000, thorough: 80000, san: 4, jobs: 8, cpu_limit: 120 },
    ]
}
pub fn shape(r: &mut Rng) -> Shape { match r.below(12) { 0 => Shape::BIG, 1..=6 => Shape::STD, _ => Shape::SMALL } }

pub fn expect_reads(m: Rd, data: &[u8], want: &[Vec<u8>], ends: &[usize], r: &mut Rng, what: &str) -> Result<(), String> {
    let got = read_by(m, data, want.len(), r)?;
    for (i, (w, e)) in want.iter().zip(ends).enumerate() {
        match got.get(i) {
            Some((Got::Packet(b), used)) => {
                ensure!(b == w, "{what}, read by {m:?}: packet {i} differs: {} instead of {}", hex(b), hex(w));
                if let Some(u) = used { ensure!(u == e, "{what}, read by {m:?}: {u} bytes consumed after packet {i}, which ends at {e}"); }
            }
            x => return Err(format!("{what}, read by {m:?}: packet {i} of {} not read back: {x:?}; bytes {}", want.len(), hex(data))),
        }
    }
    Ok(())
}

pub struct BlockRound<'a> { pub r: &'a mut Rng, pub format: bool }
impl BlockVisitor for BlockRound<'_> {
    type Out = Result<u64, String>;
    fn visit<B: BlockSpec>(&mut self) -> Self::Out {
        let b = guard(|| B::rnd(self.r))?;
        let body = b.body();
        let k = B::KIND;
        let mut n = 0;
        let outs = block_outputs(&b)?;
        let e = enc_block_kb(k, &body);
        if self.format {
            for (w, o) in &outs { n += 1; ensure!(*o == e, "{w} of {}: bytes differ from the documented layout: {} instead of {}", B_NAME[k], hex(o), hex(&e)); }
            ensure!(B::ssize() as usize == e.len(), "size of {}: {} reported, {} documented", B_NAME[k], B::ssize(), e.len());
            ensure!(B::view_sig() == block_sig(k), "signature of {}: {:?} instead of {:?}", B_NAME[k], B::view_sig(), block_sig(k));
            if B_CRC[k] { ensure!(b.crc() == crc32(&body).to_le_bytes(), "crc() of {} differs from CRC32 of its fields", B_NAME[k]); }
            let mut t = e.clone();
            t.extend((0..self.r.below(20)).map(|_| 0xA5));
            n += block_inputs::<B>(&t, e.len(), &body, self.r)? as u64;
            n += block_enum_inputs(&t, e.len(), k, &body, self.r)? as u64;
        } else {
            for (_, o) in &outs {
                let mut t = o.clone();
                t.extend((0..self.r.below(20)).map(|_| 0xA5));
                n += block_inputs::<B>(&t, o.len(), &body, self.r)? as u64;
                n += block_enum_inputs(&t, o.len(), k, &body, self.r)? as u64;
            }
            let mut all = Vec::new();
            brec::WriteTo::write_all(&b.wrap(), &mut all).map_err(|e| e.to_string())?;
            n += block_enum_inputs(&all, all.len(), k, &body, self.r)? as u64;
        }
        Ok(n)
    }
}
pub fn check_payload_reads(bytes: &[u8], k: usize, body: &[u8], r: &mut Rng) -> Result<u64, String> {
    let len = bytes.len();
    let mut t = bytes.to_vec();
    t.extend((0..r.below(20)).map(|_| 0xA5));
    let res = payload_inputs(&t, r)?;
    let n = res.len();
    for (w, g, used) in res {
        match g { Err(e) => return Err(format!("{w} of {} fails: {e}; bytes {}", P_NAME[k], hex(bytes))), Ok((k2, b)) => ensure!(k2 == k && b == body, "{w} of {}: {} {} instead of {}", P_NAME[k], P_NAME[k2], hex(&b), hex(body)) }
        ensure!(used == len, "{w} of {}: {used} bytes consumed of {len}", P_NAME[k]);
    }
    Ok(n as u64)
}

fn c01(cx: &mut Cx) -> Result<(), String> {
    let r = &mut cx.r;
    match r.below(10) {
        0 | 1 => {
            let k = r.below(NB);
            let n = visit_block(k, &mut BlockRound { r, format: false })?;
            cx.st.add("block_reads", n);
            cx.st.seen(fnv(&[k as u8]) ^ r.next());
        }
        2 => {
            let k = r.below(NP);
            let p = gen_payload(k, r, 300);
            let body = payload_body(&p);
            for (_, o) in payload_outputs(&p)? { let n = check_payload_reads(&o, k, &body, r)?; cx.st.add("payload_reads", n); }
            cx.st.seen(fnv(&body) ^ k as u64);
        }
        x => {
            let s = shape(r);
            let n = r.range(1, 4);
            let mut pks: Vec<Pk> = (0..n).map(|_| rnd_pk(r, &s)).collect();
            if x == 9 && r.chance(8) {
                let m = *r.pick(&[100, 253, 254, 255]);
                let b: Vec<Block> = (0..m).map(|_| { let k = rnd_block_kind(r, &Shape::SMALL); gen_block(k, r) }).collect();
                pks[0].blocks = b;
                cx.st.add("packets_of_100_to_255_blocks", 1);
            }
            let want: Vec<Vec<u8>> = pks.iter().map(|p| p.reference().bytes).collect();
            for wm in 0..WRITERS.len() {
                let mut data = Vec::new();
                let mut ends = Vec::new();
                for p in &pks { data.extend(write_by(wm, p)?); ends.push(data.len()) }
                for rm in READERS {
                    expect_reads(rm, &data, &want, &ends, r, WRITERS[wm])?;
                    cx.st.add("write_read_pairs", 1);
                    cx.st.add("packets_compared", want.len() as u64);
                }
                if wm == 1 && r.chance(10) {
                    // through a storage
                    let store = MemStore::new();
                    let got = guard(|| -> Result<Vec<Vec<u8>>, brec::Error> {
                        let mut w: Writer<'_, MemStore> = Writer::new(store.handle())?;
                        for p in &pks { w.insert(p.packet())?; }
                        let mut rd: Reader<'_, MemStore> = Reader::new(store.handle())?;
                        let mut v = Vec::new();
                        for p in rd.iter() { v.push(enc_packet(&p?)) }
                        Ok(v)
                    })?.map_err(|e| format!("storage round trip fails: {e}"))?;
                    ensure!(got == want, "storage round trip changes packets");
                    cx.st.add("storage_round_trips", 1);
                }
            }
            cx.st.seen(fnv(&want.concat()));
            if pks.iter().all(|p| p.blocks.is_empty() && p.payload.is_none()) { cx.st.trivial += 1 }
            cx.st.sample(|| format!("{} packets, blocks {:?}, payload {:?}, {} bytes, 5 writing x 7 reading methods", pks.len(), pks[0].blocks.iter().map(|b| B_NAME[block_kind(b)]).collect::<Vec<_>>(), pks[0].payload.as_ref().map(|p| P_NAME[payload_kind(p)]), want.iter().map(|w| w.len()).sum::<usize>()));
        }
    }
    Ok(())
}

/// Keeps the beginning of what is written and counts the rest.
struct Counting { head: Vec<u8>, n: u64 }
impl std::io::Write for Counting {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let k = b.len().min(400usize.saturating_sub(self.head.len())); self.head.extend_from_slice(&b[..k]); self.n += b.len() as u64; Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
/// The length field of a payload has 32 bits: the longest body is written with its true length, a longer one is refused.
fn payload_limit(cx: &mut Cx) -> Result<(), String> {
    use brec::{WriteMutTo, WriteVectoredMutTo};
    for len in [u32::MAX as u64, u32::MAX as u64 + 1, u32::MAX as u64 + 300] {
        let blocks = vec![gen_block(0, &mut cx.r)];
        let head = enc_block(&blocks[0]);
        let mut p = Packet::new(blocks, Some(Payload::Bytes(vec![0u8; len as usize])));
        let ways = if len > u32::MAX as u64 { 4 } else { 1 };
        for way in 0..ways {
            let mut o = Counting { head: vec![], n: 0 };
            let res = guard(|| match way { 0 => WriteMutTo::write_all(&mut p, &mut o), 1 => WriteMutTo::write(&mut p, &mut o).map(|_| ()), 2 => WriteVectoredMutTo::write_vectored_all(&mut p, &mut o), _ => WriteVectoredMutTo::slices(&mut p).map(|_| ()) })?;
            if len > u32::MAX as u64 { ensure!(res.is_err(), "a payload of {len} bytes is written ({} bytes), its length does not fit the field of 32 bits; begins with {}", o.n, hex(&o.head)); cx.st.add("payloads_beyond_the_limit_refused", 1); continue }
            res.map_err(|e| format!("a payload of {len} bytes is refused: {e}"))?;
            let at = HDR + head.len() + 1 + 4 + 1 + 4;
            ensure!(o.n == at as u64 + 4 + len && u64::from_le_bytes(o.head[8..16].try_into().unwrap()) == o.n - HDR as u64, "a packet with a payload of {len} bytes: {} bytes written; begins with {}", o.n, hex(&o.head));
            ensure!(o.head[at..at + 4] == [0xFF; 4], "the length of a payload of {len} bytes is written as {}", hex(&o.head[at..at + 4]));
            cx.st.add("payloads_of_the_longest_size_written", 1);
        }
    }
    Ok(())
}

fn c02(cx: &mut Cx) -> Result<(), String> {
    use brec::{CrcU32, PayloadCrc, PayloadSignature, PayloadSize, Size, WriteTo};
    if cx.idx == 0 && cx.tier != crate::Tier::San { return payload_limit(cx) }
    let r = &mut cx.r;
    match r.below(10) {
        0 | 1 => {
            let k = r.below(NB);
            let n = visit_block(k, &mut BlockRound { r, format: true })?;
            cx.st.add("block_comparisons", n);
            cx.st.seen(r.next());
        }
        2 | 3 => {
            let k = r.below(NP);
            let p = gen_payload(k, r, 300);
            let body = payload_body(&p);
            let e = enc_payload(&p);
            for (w, o) in payload_outputs(&p)? { ensure!(o == e, "{w} of {}: {} instead of the documented {}", P_NAME[k], hex(&o), hex(&e)); cx.st.add("payload_comparisons", 1); }
            let h = guard(|| brec::PayloadHeader::new(&p))?.map_err(|e| e.to_string())?;
            let hl = e.len() - body.len();
            ensure!(h.as_vec() == e[..hl], "payload header of {}: {} instead of {}", P_NAME[k], hex(&h.as_vec()), hex(&e[..hl]));
            ensure!(h.size() == hl && h.payload_len() == body.len(), "payload header of {} reports sizes {}/{} instead of {}/{}", P_NAME[k], h.size(), h.payload_len(), hl, body.len());
            ensure!(brec::PayloadHeader::ssize(&p).map_err(|e| e.to_string())? == hl, "PayloadHeader::ssize of {} is not the size of its header", P_NAME[k]);
            ensure!(PayloadSize::size(&p).map_err(|e| e.to_string())? as usize == body.len(), "size of payload {} is not the length of its body", P_NAME[k]);
            ensure!(PayloadSignature::sig(&p).as_slice() == payload_sig(k), "signature of payload {} differs", P_NAME[k]);
            ensure!(PayloadCrc::crc(&p).map_err(|e| e.to_string())?.as_slice() == payload_crc(k, &body), "checksum of payload {} differs", P_NAME[k]);
            let n = check_payload_reads(&e, k, &body, r)?;
            cx.st.add("payload_comparisons", n);
            cx.st.seen(fnv(&e));
        }
        4 if r.chance(20) => storage_format(cx)?,
        _ => {
            let s = shape(r);
            let n = r.range(1, 3);
            let pks: Vec<Pk> = (0..n).map(|_| rnd_pk(r, &s)).collect();
            let want: Vec<Vec<u8>> = pks.iter().map(|p| p.reference().bytes).collect();
            for (p, e) in pks.iter().zip(&want) {
                for wm in 0..WRITERS.len() {
                    let o = write_by(wm, p)?;
                    ensure!(o == *e, "packet {}: bytes differ from the documented layout: {} instead of {}", WRITERS[wm], hex(&o), hex(e));
                    cx.st.add("packet_comparisons", 1);
                }
                let h = guard(|| brec::PacketHeader::new(&p.blocks, p.payload.as_ref()))?.map_err(|e| e.to_string())?;
                let mut o = Vec::new();
                h.write_all(&mut o).map_err(|e| e.to_string())?;
                ensure!(o == e[..HDR], "packet header: {} instead of {}", hex(&o), hex(&e[..HDR]));
                let mut o = Vec::new();
                let n = h.write(&mut o).map_err(|e| e.to_string())?;
                ensure!(o == e[..HDR] && n == HDR, "packet header by write: {} instead of {}", hex(&o), hex(&e[..HDR]));
                ensure!(h.size as usize + HDR == e.len() && h.crc.to_le_bytes() == e[25..29] && h.crc() == e[25..29], "packet header fields do not match its bytes");
                let bl: u64 = p.blocks.iter().map(|b| b.size()).sum();
                ensure!(h.blocks_len == bl, "sizes of blocks do not add up to blocks_len");
                for b in &p.blocks { ensure!(b.size() as usize == enc_block(b).len(), "size of block {} is not the number of its bytes", B_NAME[block_kind(b)]); }
            }
            let data: Vec<u8> = want.concat();
            let ends: Vec<usize> = want.iter().scan(0, |a, w| { *a += w.len(); Some(*a) }).collect();
            for rm in READERS { expect_reads(rm, &data, &want, &ends, r, "reference encoder")?; cx.st.add("foreign_encodings_read", want.len() as u64); }
            cx.st.seen(fnv(&data));
            cx.st.sample(|| format!("reference bytes of {} packets: {}", pks.len(), hex(&data)));
        }
    }
    Ok(())
}
/// The layout of a storage of `n` packets, without anything after the last one.
pub fn enc_storage(pks: &[Vec<u8>]) -> Vec<u8> {
    let mut o = Vec::new();
    for c in pks.chunks(SLOT_CAP) { o.extend(enc_slot(&c.iter().map(|p| p.len() as u64).collect::<Vec<_>>())); for p in c { o.extend_from_slice(p) } }
    o
}
/// An empty slot may already be laid out where the next packets will go.
pub fn is_storage_of(file: &[u8], pks: &[Vec<u8>]) -> bool {
    let e = enc_storage(pks);
    file == e || (pks.len() % SLOT_CAP == 0 && file.len() == e.len() + SLOT_LEN && file.starts_with(&e) && file[e.len()..] == enc_slot(&[]))
}
fn storage_format(cx: &mut Cx) -> Result<(), String> {
    let r = &mut cx.r;
    let n = *r.pick(&[0, 1, 2, 3, 7, 40, 499, 500, 501, 503, 999, 1000, 1001]);
    let pks: Vec<Pk> = (0..n).map(|_| if n > 40 { Pk { blocks: vec![gen_block(r.below(NB.min(12)), r)], payload: None } } else { let s = Shape::STD; rnd_pk(r, &s) }).collect();
    let want: Vec<Vec<u8>> = pks.iter().map(|p| p.reference().bytes).collect();
    let store = MemStore::new();
    guard(|| -> Result<(), brec::Error> {
        let mut w: Writer<'_, MemStore> = Writer::new(store.handle())?;
        for p in &pks { w.insert(p.packet())?; }
        Ok(())
    })?.map_err(|e| format!("inserting {n} packets fails: {e}"))?;
    let file = store.image();
    ensure!(is_storage_of(&file, &want), "storage of {n} packets does not follow the documented layout: {} bytes, expected {}; begins with {}", file.len(), enc_storage(&want).len(), hex(&file));
    // and the other way round: a storage laid out by the reference is read and can be continued
    let mut f = enc_storage(&want);
    if n % SLOT_CAP == 0 && r.coin() { f.extend(enc_slot(&[])) }
    let store = MemStore::with(f);
    let extra = rnd_pk(r, &Shape::SMALL);
    let got = guard(|| -> Result<_, brec::Error> {
        let mut rd: Reader<'_, MemStore> = Reader::new(store.handle())?;
        let c = rd.count();
        let mut v = Vec::new();
        for p in rd.iter() { v.push(enc_packet(&p?)) }
        let mut w: Writer<'_, MemStore> = Writer::new(store.handle())?;
        w.insert(extra.packet())?;
        Ok((c, v))
    })?.map_err(|e| format!("storage of {n} packets laid out by the reference is refused: {e}"))?;
    ensure!(got.0 == n && got.1 == want, "storage of {n} packets laid out by the reference: count {}, {} packets read", got.0, got.1.len());
    let mut all = want.clone();
    all.push(extra.reference().bytes);
    ensure!(is_storage_of(&store.image(), &all), "insert into a reference storage of {n} packets breaks the documented layout");
    cx.st.add("storages_compared", 2);
    cx.st.seen(fnv(&file));
    Ok(())
}

// ---------------------------------------------------------------- C05
fn c05(cx: &mut Cx) -> Result<(), String> {
    let r = &mut cx.r;
    let n = r.range(1, 4);
    let s = match r.below(8) { 0 => Shape::STD, 1 => Shape { max_blocks: 2, ..Shape::STD }, _ => Shape::SMALL }.checked();
    let pks: Vec<Pk> = (0..n).map(|_| rnd_pk(r, &s)).collect();
    let refs: Vec<Vec<u8>> = pks.iter().map(|p| p.reference().bytes).collect();
    let as_store = r.chance(25);
    let (clean, offs): (Vec<u8>, Vec<usize>) = if as_store {
        let mut o = SLOT_LEN;
        (enc_storage(&refs), refs.iter().map(|p| { let x = o; o += p.len(); x }).collect())
    } else {
        let mut b = Vec::new();
        let mut v = Vec::new();
        for p in &refs { if r.coin() { b.extend((0..r.below(20)).map(|_| r.next() as u8 & 0x7F)) } v.push(b.len()); b.extend_from_slice(p) }
        (b, v)
    };
    let judge = |got: &[Vec<u8>], how: &str, data: &[u8]| -> Result<(), String> {
        let mut at = 0;
        for g in got {
            match refs[at..].iter().position(|p| p == g) {
                Some(i) => at += i + 1,
                None if refs.contains(g) => return Err(format!("{how}: packets delivered out of order or twice")),
                None => return Err(format!("{how}: delivered a packet that was never written: {}; altered data {}", hex(g), hex(data))),
            }
        }
        Ok(())
    };
    let mut alts: Vec<Vec<u8>> = Vec::new();
    if clean.len() <= 220 && r.chance(20) {
        for i in 0..clean.len() * 8 { let mut d = clean.clone(); d[i / 8] ^= 1 << (i % 8); alts.push(d) }
        cx.st.add("exhaustive_bit_flip_streams", 1);
    } else {
        for _ in 0..24 {
            let mut d = clean.clone();
            // mostly inside packets
            let (lo, hi) = if as_store && r.chance(30) { (0, d.len()) } else { let i = r.below(n); (offs[i], offs[i] + refs[i].len()) };
            let k = r.range(lo, hi - 1);
            match r.below(7) {
                0 | 1 => d[k] ^= 1 << r.below(8),
                2 => { let e = (k + r.range(1, 4)).min(d.len()); for x in &mut d[k..e] { *x = r.next() as u8 } }
                3 => { let e = (k + r.range(1, 40)).min(d.len()); d[k..e].fill(0) }
                4 => { let e = (k + r.range(1, 9)).min(d.len()); d[k..e].reverse() }
                5 => { d.truncate(k) }
                _ => { for _ in 0..r.range(2, 6) { let k = r.below(d.len()); d[k] = r.next() as u8 } }
            }
            alts.push(d);
        }
    }
    for d in &alts {
        if as_store {
            let got = guard(|| {
                let mut out: Vec<(&'static str, Vec<Vec<u8>>)> = Vec::new();
                if let Ok(mut rd) = Reader::new(MemStore::with(d.clone())) {
                    let mut rd: Reader<'_, MemStore> = { let x: &mut Reader<'_, MemStore> = &mut rd; let _ = x; rd };
                    let c = rd.count();
                    out.push(("storage iteration", rd.iter().take(2000).filter_map(|p| p.ok()).map(|p| enc_packet(&p)).collect()));
                    out.push(("storage filtered iteration", rd.filtered().take(2000).filter_map(|p| p.ok()).map(|p| enc_packet(&p)).collect()));
                    let mut v = Vec::new();
                    for i in 0..c.min(2000) { if let Ok(Some(p)) = rd.nth(i) { v.push(enc_packet(&p)) } }
                    out.push(("storage lookup", v));
                    out.push(("storage range", rd.range(0, c).take(2000).filter_map(|p| p.ok()).map(|p| enc_packet(&p)).collect()));
                }
                out
            })?;
            for (how, v) in got { judge(&v, how, d)?; cx.st.add("delivered_checked", v.len() as u64); }
        }
        for rm in READERS {
            if rm == Rd::Stream {
                let v: Vec<Vec<u8>> = read_by(rm, d, usize::MAX, r)?.into_iter().filter_map(|g| if let Got::Packet(b) = g.0 { Some(b) } else { None }).collect();
                judge(&v, "streaming reader", d)?;
                cx.st.add("delivered_checked", v.len() as u64);
            } else {
                for (i, o) in offs.iter().enumerate() {
                    if *o > d.len() { continue; }
                    for g in read_by(rm, &d[*o..], 1, r)? {
                        if let (Got::Packet(b), _) = g { ensure!(refs.contains(&b), "{rm:?}: packet {i} delivered with altered content: {} instead of {}; altered data {}", hex(&b), hex(&refs[i]), hex(&d[*o..])); cx.st.add("delivered_checked", 1); } else { cx.st.add("refused", 1) }
                    }
                }
            }
        }
        // blocks and payloads on their own
        for (i, p) in pks.iter().enumerate() {
            let re = p.reference();
            for (bi, (at, len)) in re.blocks.iter().enumerate() {
                let lo = offs[i] + at;
                if lo >= d.len() { continue; }
                let hi = (lo + len).min(d.len());
                if d[lo..hi] == refs[i][*at..at + len] { continue; }
                judge_block(&d[lo..hi], block_kind(&p.blocks[bi]), &block_body(&p.blocks[bi]))?;
                cx.st.add("altered_blocks_refused", 1);
            }
            if let (Some(at), Some(pl)) = (re.payload_at, p.payload.as_ref()) {
                let lo = offs[i] + at;
                let hi = (offs[i] + refs[i].len()).min(d.len());
                // without the packet around it, a consistent pair of length and checksum makes a valid payload
                if lo < hi && d[lo..hi] != refs[i][at..] && !valid_payload(&d[lo..hi]) {
                    for (w, g, _) in payload_inputs(&d[lo..hi], r)? {
                        if let Ok((k, b)) = g { ensure!(k == payload_kind(pl) && b == payload_body(pl), "{w}: altered payload {} delivered as {} {}; bytes {}", P_NAME[payload_kind(pl)], P_NAME[k], hex(&b), hex(&d[lo..hi])); }
                    }
                    cx.st.add("altered_payloads_checked", 1);
                }
            }
        }
        cx.st.add("alterations", 1);
        cx.st.seen(fnv(d));
    }
    cx.st.sample(|| format!("{n} packets{}, {} alterations; {}", if as_store { " in a storage" } else { "" }, alts.len(), hex(&clean)));
    Ok(())
}
/// By the format: length, checksum and body of the payload agree.
fn valid_payload(d: &[u8]) -> bool {
    let Some(sl) = d.first().map(|x| *x as usize) else { return false };
    let Some(cl) = d.get(1 + sl).map(|x| *x as usize) else { return false };
    if d.len() < 2 + sl + cl + 4 { return false; }
    let (sig, crc) = (&d[1..1 + sl], &d[2 + sl..2 + sl + cl]);
    let len = u32::from_le_bytes(d[2 + sl + cl..6 + sl + cl].try_into().unwrap()) as usize;
    let Some(body) = d.get(6 + sl + cl..6 + sl + cl + len) else { return false };
    (0..P_NAME.len()).any(|k| payload_sig(k) == sig && payload_crc(k, body) == crc)
}
/// An altered block may only be refused or read as the same values.
fn judge_block(d: &[u8], kind: usize, body: &[u8]) -> Result<(), String> {
    struct V<'a> { d: &'a [u8], body: &'a [u8] }
    impl BlockVisitor for V<'_> {
        type Out = Result<(), String>;
        fn visit<B: BlockSpec>(&mut self) -> Self::Out {
            let d = self.d;
            let res: Vec<(&str, Option<Vec<u8>>)> = guard(|| {
                use brec::*;
                let st = |x: Result<ReadStatus<B>, Error>| match x { Ok(ReadStatus::Success(b)) => Some(b.body()), _ => None };
                vec![
                    ("read", <B as ReadBlockFrom>::read(&mut std::io::Cursor::new(d), false).ok().map(|b| b.body())),
                    ("try_read", st(<B as TryReadFrom>::try_read(&mut std::io::Cursor::new(d)))),
                    ("buffered try_read", st(<B as TryReadFromBuffered>::try_read(&mut &d[..]))),
                    ("view", B::view_body(d, false).ok()),
                    ("view without signature", if d.len() > 4 { B::view_body(&d[4..], true).ok() } else { None }),
                    ("read without signature", if d.len() > 4 { <B as ReadBlockFrom>::read(&mut std::io::Cursor::new(&d[4..]), true).ok().map(|b| b.body()) } else { None }),
                ]
            })?;
            for (w, b) in res { if let Some(b) = b { ensure!(b == self.body, "{w}: altered block {} delivered with other values: {} instead of {}; bytes {}", B_NAME[B::KIND], hex(&b), hex(self.body), hex(d)); } }
            Ok(())
        }
    }
    visit_block(kind, &mut V { d, body })?;
    let g = guard(|| <Block as brec::ReadFrom>::read(&mut std::io::Cursor::new(d)).ok().map(|b| (block_kind(&b), block_body(&b))))?;
    if let Some((k, b)) = g { ensure!(k == kind && b == body, "Block read: altered block {} delivered as {} {}", B_NAME[kind], B_NAME[k], hex(&b)); }
    let g = guard(|| <BlockReferred as brec::ReadBlockFromSlice>::read_from_slice(d, false).ok().map(|b| view_kind_body(&b)))?;
    if let Some((k, b)) = g { ensure!(k == kind && b == body, "BlockReferred: altered block {} delivered as {} {}", B_NAME[kind], B_NAME[k], hex(&b)); }
    Ok(())
}

// ---------------------------------------------------------------- C21
/// Bytes of another block are never taken for this one.
struct Foreign<'a> { d: &'a [u8], from: usize }
impl BlockVisitor for Foreign<'_> {
    type Out = Result<(), String>;
    fn visit<B: BlockSpec>(&mut self) -> Self::Out {
        let d = self.d;
        let w = format!("bytes of block {} are read as block {}", B_NAME[self.from], B_NAME[B::KIND]);
        guard(|| {
            ensure!(<B as brec::ReadBlockFrom>::read(&mut std::io::Cursor::new(d), false).is_err(), "{w} (read)");
            ensure!(!matches!(<B as brec::TryReadFrom>::try_read(&mut std::io::Cursor::new(d)), Ok(brec::ReadStatus::Success(_))), "{w} (try_read)");
            ensure!(!matches!(<B as brec::TryReadFromBuffered>::try_read(&mut &d[..]), Ok(brec::ReadStatus::Success(_))), "{w} (buffered try_read)");
            ensure!(B::view_body(d, false).is_err(), "{w} (view)");
            Ok(())
        })?
    }
}
struct Sig;
impl BlockVisitor for Sig { type Out = [u8; 4]; fn visit<B: BlockSpec>(&mut self) -> [u8; 4] { B::view_sig() } }
fn c21(cx: &mut Cx) -> Result<(), String> {
    if cx.idx == 0 {
        let sigs: Vec<[u8; 4]> = (0..NB).map(|k| visit_block(k, &mut Sig)).collect();
        for i in 0..NB { for j in 0..i { ensure!(sigs[i] != sigs[j], "blocks {} and {} have the same signature", B_NAME[i], B_NAME[j]); cx.st.add("signature_pairs_compared", 1); } }
    }
    let k = (cx.idx / 8) as usize % NB;
    match cx.idx % 8 {
        0 | 1 => { let n = visit_block(k, &mut BlockRound { r: &mut cx.r, format: true })?; cx.st.add("block_reads_of_documented_layout", n) }
        2 | 3 => { let n = visit_block(k, &mut BlockRound { r: &mut cx.r, format: false })?; cx.st.add("block_round_trips", n) }
        4 => {
            let mut d = enc_block(&gen_block(k, &mut cx.r));
            d.extend_from_slice(&[0; 600]);
            for _ in 0..12 { let j = cx.r.below(NB); if j != k { visit_block(j, &mut Foreign { d: &d, from: k })?; cx.st.add("foreign_blocks_refused", 1) } }
        }
        5 => return c01(cx),
        6 => return c02(cx),
        _ => return crate::checks::incr::c09(cx),
    }
    cx.st.add("declarations", (cx.idx % 8 == 0 && cx.idx / 8 < NB as u64) as u64);
    cx.st.seen(cx.r.next());
    cx.st.sample(|| format!("declaration {}", B_SNAP[k]));
    Ok(())
}

// ---------------------------------------------------------------- C20
fn c20(cx: &mut Cx) -> Result<(), String> {
    use brec::{PayloadSize};
    let r = &mut cx.r;
    let k = (cx.idx as usize + r.below(2)) % NP;
    let size = match r.below(24) { 0..=4 => 0, 5..=9 => 1, 10..=14 => 60, 15..=19 => 400, 20 => edge_size(r), _ => 3000 };
    let p = gen_payload(k, r, size);
    let body = payload_body(&p);
    let e = enc_payload(&p);
    let hl = e.len() - body.len();
    for (w, o) in payload_outputs(&p)? { ensure!(o == e, "{w} of {}: {} instead of {}", P_NAME[k], hex(&o), hex(&e)); }
    ensure!(brec::PayloadHeader::ssize(&p).map_err(|e| e.to_string())? == hl, "{}: header size {:?} reported, {hl} written", P_NAME[k], brec::PayloadHeader::ssize(&p));
    ensure!(PayloadSize::size(&p).map_err(|e| e.to_string())? as usize == body.len(), "{}: body size misreported", P_NAME[k]);
    ensure!(brec::PacketHeader::payload_size(&p).map_err(|e| e.to_string())? as usize == e.len(), "{}: payload size of the packet header misreported", P_NAME[k]);
    let n = check_payload_reads(&e, k, &body, r)?;
    cx.st.add("payload_reads", n);
    // inside packets: alone, after blocks, next to packets with other payload kinds
    let mut pks = vec![Pk { blocks: (0..r.below(3)).map(|_| { let b = rnd_block_kind(r, &Shape::SMALL); gen_block(b, r) }).collect(), payload: Some(p.clone()) }];
    for _ in 0..r.below(3) { let k2 = r.below(NP); pks.push(Pk { blocks: vec![], payload: Some(gen_payload(k2, r, 80)) }) }
    r.shuffle(&mut pks);
    let want: Vec<Vec<u8>> = pks.iter().map(|p| p.reference().bytes).collect();
    for wm in 0..WRITERS.len() {
        let mut data = Vec::new();
        let mut ends = Vec::new();
        for p in &pks { data.extend(write_by(wm, p)?); ends.push(data.len()) }
        ensure!(data == want.concat(), "{} of packets with payloads {:?}: {} instead of {}", WRITERS[wm], pks.iter().map(|p| P_NAME[payload_kind(p.payload.as_ref().unwrap())]).collect::<Vec<_>>(), hex(&data), hex(&want.concat()));
        for rm in READERS { expect_reads(rm, &data, &want, &ends, r, WRITERS[wm])?; cx.st.add("packet_round_trips", 1); }
    }
    if r.chance(10) {
        let store = MemStore::new();
        let got = guard(|| -> Result<_, brec::Error> {
            let mut w: Writer<'_, MemStore> = Writer::new(store.handle())?;
            for p in &pks { w.insert(p.packet())?; }
            let mut rd: Reader<'_, MemStore> = Reader::new(store.handle())?;
            let mut v = Vec::new();
            for i in 0..rd.count() { if let Some(p) = rd.nth(i)? { v.push(enc_packet(&p)) } }
            for p in rd.iter() { v.push(enc_packet(&p?)) }
            for p in rd.filtered() { v.push(enc_packet(&p?)) }
            Ok(v)
        })?.map_err(|e| format!("storage of custom payloads fails: {e}"))?;
        ensure!(got == [&want[..], &want[..], &want[..]].concat(), "storage of custom payloads changes them");
        cx.st.add("storage_round_trips", 1);
    }
    // refusal: every byte of the checksum matters, unknown or foreign signatures are refused
    let (sl, cl) = (P_SIGLEN[k], P_CRCLEN[k]);
    for _ in 0..4 {
        let mut t = e.clone();
        let what = if P_CHECKED[k] && r.coin() {
            if !body.is_empty() && r.coin() { let i = hl + r.below(body.len()); t[i] ^= 1 << r.below(8); "body altered" } else { let i = 2 + sl + r.below(cl); t[i] ^= 1 << r.below(8); "checksum altered" }
        } else if r.coin() { let i = 1 + r.below(sl); t[i] ^= 1 << r.below(8); "signature unknown" }
        else {
            let l = *r.pick(&[4usize, 8, 16, 32, 64, 128]);
            let sig: Vec<u8> = (0..l).map(|_| r.next() as u8).collect();
            t = enc_payload_header(&sig, &payload_crc(k, &body), body.len() as u32);
            t.extend_from_slice(&body);
            "signature unknown"
        };
        for (w, g, _) in payload_inputs(&t, r)? {
            if let Ok((k2, b)) = g {
                if what == "body altered" && k2 == k && b == body { continue; }
                return Err(format!("{w}: payload {} with {what} is accepted as {} {}; bytes {}", P_NAME[k], P_NAME[k2], hex(&b), hex(&t)));
            }
            cx.st.add("refusals", 1);
        }
        // inside a packet
        let mut pkt = enc_header(t.len() as u64, 0, true);
        pkt.extend_from_slice(&t);
        for rm in READERS {
            for g in read_by(rm, &pkt, 1, r)? { if let Got::Packet(b) = g.0 { ensure!(what == "body altered" && b[HDR..] == e[..], "{rm:?}: packet whose payload {} has its {what} is accepted", P_NAME[k]); } }
        }
    }
    cx.st.seen(fnv(&e));
    cx.st.add(if k < 2 { "default_payloads" } else if P_SIGKIND[k] == 1 { "custom_signature_payloads" } else { "bincode_payloads" }, 1);
    cx.st.sample(|| format!("payload {} (signature {} bytes, checksum {} bytes, body {}): {}", P_NAME[k], sl, cl, body.len(), hex(&e)));
    Ok(())
}

// ---------------------------------------------------------------- C23
fn c23(cx: &mut Cx) -> Result<(), String> {
    let r = &mut cx.r;
    // now and then far more: counts that do not fit 16 bits, or do so only modulo 2^8 and 2^16
    let far = r.below(400) == 0;
    let m = if far { *r.pick(&[511, 512, 513, 767, 65_535, 65_536, 65_537, 65_791, 65_792]) } else { match r.below(8) { 0 => 254, 1 | 2 => 255, 3 | 4 => 256, 5 => 257, 6 => r.range(258, 700), _ => r.range(200, 320) } };
    let mut pool: Vec<usize> = (0..r.range(1, 3)).map(|_| rnd_block_kind(r, &Shape::SMALL)).collect();
    if m > 1000 { let small = (0..30).map(|_| { let k = rnd_block_kind(r, &Shape::SMALL); (Pk { blocks: vec![gen_block(k, r)], payload: None }.reference().bytes.len(), k) }).min().unwrap().1; pool = vec![small]; cx.st.add("packets_of_more_than_65534_blocks", 1); }
    let big = Pk { blocks: (0..m).map(|_| { let k = *r.pick(&pool); gen_block(k, r) }).collect(), payload: if r.coin() { let k = rnd_payload_kind(r, &Shape::SMALL); Some(gen_payload(k, r, 60)) } else { None } };
    let e = big.reference().bytes;
    let ok = m <= 255;
    for wm in 0..WRITERS.len() {
        // into a sink that records everything
        let mut p = big.packet();
        let mut sink = ShortSink::new(vec![]);
        let res = guard(|| { use brec::{WriteMutTo, WriteVectoredMutTo}; match wm {
            0 => WriteMutTo::write(&mut p, &mut sink).map(|_| ()),
            1 => WriteMutTo::write_all(&mut p, &mut sink),
            2 => WriteVectoredMutTo::write_vectored(&mut p, &mut sink).map(|_| ()),
            3 => WriteVectoredMutTo::write_vectored_all(&mut p, &mut sink),
            _ => WriteVectoredMutTo::slices(&mut p).map(|s| { for b in s.get() { sink.out.extend_from_slice(&b) } }),
        } })?;
        if ok {
            ensure!(res.is_ok() && sink.out == e, "{} of a packet of {m} blocks: {:?}, {} bytes of {}", WRITERS[wm], res.err().map(|e| e.to_string()), sink.out.len(), e.len());
        } else {
            ensure!(res.is_err(), "{} accepts a packet of {m} blocks", WRITERS[wm]);
            ensure!(sink.out.is_empty(), "{} refuses a packet of {m} blocks but has written {} bytes of it", WRITERS[wm], sink.out.len());
        }
        cx.st.add("writes_judged", 1);
    }
    // storage
    let before: Vec<Pk> = (0..r.below(3)).map(|_| rnd_pk(r, &Shape::SMALL)).collect();
    let after = rnd_pk(r, &Shape::SMALL);
    let store = MemStore::new();
    let (res, untouched) = guard(|| -> Result<_, brec::Error> {
        let mut w: Writer<'_, MemStore> = Writer::new(store.handle())?;
        for p in &before { w.insert(p.packet())?; }
        let b0 = store.image();
        let res = w.insert(big.packet());
        let un = store.image() == b0;
        w.insert(after.packet())?;
        Ok((res, un))
    })?.map_err(|e| format!("storage around a packet of {m} blocks: {e}"))?;
    let mut want: Vec<Vec<u8>> = before.iter().map(|p| p.reference().bytes).collect();
    if ok { ensure!(res.is_ok(), "storage refuses a packet of {m} blocks: {res:?}"); want.push(e.clone()); } else {
        ensure!(res.is_err(), "storage accepts a packet of {m} blocks");
        ensure!(untouched, "storage refuses a packet of {m} blocks but has been modified");
    }
    want.push(after.reference().bytes);
    let got = guard(|| -> Result<_, brec::Error> { let mut rd: Reader<'_, MemStore> = Reader::new(store.handle())?; let c = rd.count(); let mut v = Vec::new(); for p in rd.iter() { v.push(enc_packet(&p?)) } Ok((c, v)) })?.map_err(|e| format!("reading a storage around a packet of {m} blocks: {e}"))?;
    ensure!(got.0 == want.len() && got.1 == want, "storage around a packet of {m} blocks: count {}, {} packets read, {} expected", got.0, got.1.len(), want.len());
    // reading methods
    for rm in READERS {
        if rm == Rd::Stream { continue; }
        let g = read_by(rm, &e, 1, r)?;
        match &g[..] {
            [(Got::Packet(b), _)] => { ensure!(ok, "{rm:?} accepts a packet of {m} blocks"); ensure!(*b == e, "{rm:?} changes a packet of {m} blocks"); }
            [(Got::Error(_), _)] => ensure!(!ok, "{rm:?} refuses a packet of {m} blocks: {g:?}"),
            x => return Err(format!("{rm:?} on a complete packet of {m} blocks: {x:?}")),
        }
        cx.st.add("reads_judged", 1);
    }
    // in a stream, between others
    let pre = rnd_pk(r, &Shape::SMALL).reference().bytes;
    let post: Vec<Vec<u8>> = (0..r.range(1, 3)).map(|_| rnd_pk(r, &Shape::SMALL).reference().bytes).collect();
    let data = [&pre[..], &e[..], &post.concat()[..]].concat();
    for sp in if m > 1000 { vec![vec![], vec![r.range(3_000, 40_000)]] } else { vec![vec![], vec![r.range(1, 40)], rnd_split(r, data.len())] } {
        let mut src = ChunkSource::new(data.clone(), sp);
        let o = drive(data.len(), &mut src, 0, None)?;
        let mut want = vec![&pre];
        if ok { want.push(&e) }
        want.extend(post.iter());
        ensure!(o.ended, "stream with a packet of {m} blocks: end not reached");
        ensure!(o.found() == want, "stream with a packet of {m} blocks: {} packets delivered, {} expected", o.found().len(), want.len());
        ensure!(ok == (o.errors() == 0), "stream with a packet of {m} blocks: {} errors", o.errors());
        cx.st.add("streams_judged", 1);
    }
    // the same stream behind filters that look at blocks only: a refused packet is never shown or accepted
    cx.st.add(if ok { "packets_within_limit" } else { "packets_over_limit" }, 1);
    cx.st.seen(m as u64 * 7 + big.payload.is_some() as u64 + fnv(&e));
    cx.st.sample(|| format!("packet of {m} blocks of types {:?}", pool.iter().map(|k| B_NAME[*k]).collect::<Vec<_>>()));
    Ok(())
}
