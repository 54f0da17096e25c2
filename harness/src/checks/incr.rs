//! C09 (incremental reads), C18 (refillable buffered reader), C19 (slow and interrupted sinks).
use crate::io::*;
use crate::proto::*;
use crate::util::*;
use crate::{Check, Cx};
use brec::{ReadFrom, ReadStatus, TryReadFrom, TryReadFromBuffered, WriteMutTo, WriteTo, WriteVectoredMutTo, WriteVectoredTo};
use std::io::{BufRead, BufReader, Cursor, ErrorKind, Read};

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C09", run: c09, quick: 600000, thorough: 3000000, san: 20, jobs: 8, cpu_limit: 60 },
        Check { id: "C18", run: c18, quick: 1500000, thorough: 30000000, san: 300, jobs: 8, cpu_limit: 60 },
        Check { id: "C19", run: c19, quick: 600000, thorough: 12000000, san: 200, jobs: 8, cpu_limit: 60 },
    ]
}

// ---------------------------------------------------------------- C09
#[derive(Debug, PartialEq, Clone)]
enum T { Ok, More(u64), Err(String) }
trait Ent { fn seek(&self, c: &mut Cursor<Vec<u8>>) -> T; fn buf(&self, c: &mut dyn BufRead) -> T; }
struct E<X>(std::marker::PhantomData<X>);
struct Dyn<'a>(&'a mut dyn BufRead);
impl Read for Dyn<'_> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.0.read(b) } }
impl BufRead for Dyn<'_> { fn fill_buf(&mut self) -> std::io::Result<&[u8]> { self.0.fill_buf() } fn consume(&mut self, n: usize) { self.0.consume(n) } }
fn t<X>(x: Result<ReadStatus<X>, brec::Error>) -> T { match x { Ok(ReadStatus::Success(_)) => T::Ok, Ok(ReadStatus::NotEnoughData(n)) => T::More(n), Err(e) => T::Err(e.to_string()) } }
impl<X: TryReadFrom + TryReadFromBuffered> Ent for E<X> {
    fn seek(&self, c: &mut Cursor<Vec<u8>>) -> T { t(<X as TryReadFrom>::try_read(c)) }
    fn buf(&self, c: &mut dyn BufRead) -> T { t(<X as TryReadFromBuffered>::try_read(&mut Dyn(c))) }
}
struct MkBlock;
impl BlockVisitor for MkBlock { type Out = Box<dyn Ent>; fn visit<B: BlockSpec>(&mut self) -> Self::Out { Box::new(E::<BW<B>>(std::marker::PhantomData)) } }
/// typed blocks may be borrowed from 'static type parameters only; this wrapper keeps the visitor generic
struct BW<B>(std::marker::PhantomData<B>);
impl<B: BlockSpec> TryReadFrom for BW<B> { fn try_read<R: Read + std::io::Seek>(b: &mut R) -> Result<ReadStatus<Self>, brec::Error> { Ok(match <B as TryReadFrom>::try_read(b)? { ReadStatus::Success(_) => ReadStatus::Success(BW(std::marker::PhantomData)), ReadStatus::NotEnoughData(n) => ReadStatus::NotEnoughData(n) }) } }
impl<B: BlockSpec> TryReadFromBuffered for BW<B> { fn try_read<R: BufRead>(b: &mut R) -> Result<ReadStatus<Self>, brec::Error> { Ok(match <B as TryReadFromBuffered>::try_read(b)? { ReadStatus::Success(_) => ReadStatus::Success(BW(std::marker::PhantomData)), ReadStatus::NotEnoughData(n) => ReadStatus::NotEnoughData(n) }) } }

pub fn c09(cx: &mut Cx) -> Result<(), String> {
    let mut r = cx.r.clone();
    let s = match r.below(10) { 0 => Shape::BIG, 1..=4 => Shape::STD, _ => Shape::SMALL };
    let mut last = None;
    let (name, ent, bytes, peeking): (String, Box<dyn Ent>, Vec<u8>, bool) = match r.below(6) {
        0 | 1 => ("packet".into(), Box::new(E::<Packet>(std::marker::PhantomData)), rnd_pk(&mut r, &s).reference().bytes, false),
        2 => { let b = rnd_pk(&mut r, &s).reference().bytes; ("packet header".into(), Box::new(E::<brec::PacketHeader>(std::marker::PhantomData)), b[..HDR].to_vec(), false) }
        3 => { let k = rnd_block_kind(&mut r, &s); (format!("block {}", B_NAME[k]), visit_block(k, &mut MkBlock), enc_block(&gen_block(k, &mut r)), false) }
        4 => { let k = rnd_block_kind(&mut r, &s); (format!("Block ({})", B_NAME[k]), Box::new(E::<Block>(std::marker::PhantomData)), enc_block(&gen_block(k, &mut r)), false) }
        _ => { let k = if r.coin() { r.below(NP) } else { rnd_payload_kind(&mut r, &s) }; let p = gen_payload(k, &mut r, 60); let body = payload_body(&p); last = Some(body.clone()); ("payload header".into(), Box::new(E::<brec::PayloadHeader>(std::marker::PhantomData)), enc_payload_header(&payload_sig(k), &payload_crc(k, &body), body.len() as u32), true) }
    };
    let payload = if peeking { last.and_then(|b| brec::PayloadHeader::read(&mut &bytes[..]).ok().map(|h| (h, b))) } else { None };
    let len = bytes.len();
    let lead = *r.pick(&[0usize, 0, 1, 13, 100]);
    let at = |d: &[u8]| { let mut v = vec![0xEE; lead]; v.extend_from_slice(d); let mut c = Cursor::new(v); c.set_position(lead as u64); c };
    let cuts: Vec<usize> = if len <= 400 { (0..len).collect() } else { let mut v: Vec<usize> = (0..60).chain((0..60).map(|_| r.below(len))).chain(len - 40..len).collect(); v.sort(); v.dedup(); v };
    for cut in cuts {
        let part = &bytes[..cut];
        for seek in [true, false] {
            let w = || format!("{name} of {len} bytes, {cut} available, {}", if seek { "seekable source" } else { "buffered source" });
            let (res, moved) = guard(|| if seek { let mut c = at(part); let x = ent.seek(&mut c); (x, c.position() as i64 - lead as i64) } else { let mut c = part; let x = ent.buf(&mut c); (x, (part.len() - c.len()) as i64) }).map_err(|p| format!("{}: {p}", w()))?;
            match res {
                T::More(n) => ensure!(n >= 1 && n <= (len - cut) as u64, "{}: asks for {n} bytes, {} are missing; bytes {}", w(), len - cut, hex(part)),
                x => return Err(format!("{}: {x:?} instead of a shortage; bytes {}", w(), hex(part))),
            }
            ensure!(moved == 0, "{}: source moved by {moved}", w());
            cx.st.add("prefixes_tried", 1);
        }
    }
    // a position behind the end of the source: nothing of the entity is there yet
    for beyond in [1u64, r.range(2, 5000) as u64] {
        let (x, moved) = guard(|| { let mut c = at(&[]); c.set_position(lead as u64 + beyond); let x = ent.seek(&mut c); (x, c.position() as i64 - (lead as u64 + beyond) as i64) })?;
        ensure!(matches!(x, T::More(n) if n >= 1 && n <= len as u64), "{name} of {len} bytes, {beyond} bytes behind the end of a seekable source: {x:?} instead of a shortage");
        ensure!(moved == 0, "{name}, {beyond} bytes behind the end of a seekable source: source moved by {moved}");
        cx.st.add("positions_behind_the_end", 1);
    }
    // complete, with and without something behind it
    for tail in [0, r.range(1, 50)] {
        let mut full = bytes.clone();
        full.extend((0..tail).map(|_| r.next() as u8));
        let (x, moved) = guard(|| { let mut c = at(&full); let x = ent.seek(&mut c); (x, c.position() as usize - lead) })?;
        ensure!(x == T::Ok && moved == len, "{name}: complete data in a seekable source: {x:?}, {moved} of {len} bytes consumed");
        let (x, moved) = guard(|| { let mut c = &full[..]; let x = ent.buf(&mut c); (x, full.len() - c.len()) })?;
        ensure!(x == T::Ok && (moved == len || peeking && moved == 0), "{name}: complete data in a buffered source: {x:?}, {moved} of {len} bytes consumed");
    }
    // damaged: anything but success leaves the source where it was
    for _ in 0..12 {
        let mut d = bytes.clone();
        for _ in 0..r.range(1, 3) { let k = if r.coin() { r.below(d.len()) } else { r.below(d.len().min(30)) }; d[k] ^= 1 << r.below(8); }
        if r.chance(30) { let k = r.below(d.len() + 1); d.truncate(k) }
        if r.chance(30) { d.extend((0..r.below(40)).map(|_| r.next() as u8)) }
        let (x, moved) = guard(|| { let mut c = at(&d); let x = ent.seek(&mut c); (x, c.position() as i64 - lead as i64) })?;
        ensure!(x == T::Ok || moved == 0, "{name}, damaged, seekable source: {x:?}, and the source moved by {moved}; bytes {}", hex(&d));
        if let T::More(n) = x { ensure!(n >= 1, "{name}, damaged: asks for nothing") }
        let (y, moved) = guard(|| { let mut c = &d[..]; let x = ent.buf(&mut c); (x, d.len() - c.len()) })?;
        ensure!(y == T::Ok || moved == 0, "{name}, damaged, buffered source: {y:?}, and {moved} bytes consumed; bytes {}", hex(&d));
        cx.st.add("damaged_tried", 2);
    }
    // bytes arrive: retrying ends in success
    let mut have = 0usize;
    let mut tries = 0;
    let mut c = at(&[]);
    loop {
        tries += 1;
        ensure!(tries <= len + 2, "{name}: no success after {tries} attempts");
        let p = c.position();
        match guard(|| ent.seek(&mut c))? {
            T::Ok => { ensure!(have == len && c.position() as usize == lead + len, "{name}: success with {have} of {len} bytes"); break }
            T::More(n) => {
                ensure!(c.position() == p, "{name}: source moved");
                ensure!(n >= 1 && n as usize <= len - have, "{name}: with {have} of {len} bytes asks for {n}");
                let add = if r.coin() { n as usize } else { r.range(1, len - have) };
                c.get_mut().extend_from_slice(&bytes[have..have + add]);
                have += add;
            }
            T::Err(e) => return Err(format!("{name}: with {have} of {len} bytes: {e}")),
        }
    }
    // the same through the refillable reader over a slow source
    let sp = rnd_split(&mut r, len);
    let cap = *r.pick(&[1, 2, 7, 16, 29, 64, 8192]);
    let mut all = bytes.clone();
    let extra = r.below(30);
    all.extend((0..extra).map(|_| r.next() as u8));
    let tries = guard(|| -> Result<usize, String> {
        let mut inner = BufReader::with_capacity(cap, ChunkSource::new(all.clone(), sp.clone()));
        let mut b = brec::BufferedReader::new(&mut inner);
        let mut k = 0;
        loop {
            k += 1;
            ensure!(k <= all.len() + 3, "{name} through the refillable reader: no success after {k} attempts");
            match ent.buf(&mut b) {
                T::Ok => break,
                T::More(n) => { ensure!(n >= 1 && n as usize <= len, "{name} through the refillable reader asks for {n} of {len} bytes"); ensure!(b.consumed() == 0, "{name} through the refillable reader: {} bytes consumed without success", b.consumed()); b.refill().map_err(|e| e.to_string())?; }
                T::Err(e) => return Err(format!("{name} through the refillable reader (capacity {cap}, portions {sp:?}): {e}")),
            }
        }
        ensure!(b.consumed() == len || peeking && b.consumed() == 0, "{name} through the refillable reader: {} of {len} bytes consumed", b.consumed());
        let mut rest = Vec::new();
        let used = b.consumed();
        b.read_to_end(&mut rest).map_err(|e| e.to_string())?;
        ensure!(rest == all[used..], "{name} through the refillable reader: what follows is lost or changed");
        Ok(k)
    })??;
    cx.st.add("arrivals_until_success", tries as u64);
    if let Some((h, body)) = &payload {
        // the payload itself behind its header: a seekable source
        let cuts: Vec<usize> = if body.len() <= 200 { (0..=body.len()).collect() } else { (0..40).map(|_| r.below(body.len())).chain([0, body.len() - 1, body.len()]).collect() };
        for cut in cuts {
            let (x, moved) = guard(|| { let mut c = at(&body[..cut]); let x = t(<Payload as brec::TryExtractPayloadFrom<Payload>>::try_read(&mut c, h)); (x, c.position() as i64 - lead as i64) })?;
            if cut == body.len() { ensure!(x == T::Ok && moved as usize == cut, "payload of {cut} bytes, all available: {x:?}, {moved} bytes consumed; bytes {}", hex(body)) }
            else { match x { T::More(n) => ensure!(n as usize == body.len() - cut && moved == 0, "payload of {} bytes, {cut} available: asks for {n}, source moved by {moved}; bytes {}", body.len(), hex(body)), x => return Err(format!("payload of {} bytes, {cut} available: {x:?}; bytes {}", body.len(), hex(body))) } }
            cx.st.add("prefixes_tried", 1);
        }
    }
    cx.st.add("entities", 1);
    cx.st.seen(fnv(&bytes));
    cx.st.sample(|| format!("{name}, {len} bytes, every prefix: {}", hex(&bytes)));
    Ok(())
}

// ---------------------------------------------------------------- C18
fn c18(cx: &mut Cx) -> Result<(), String> {
    let mut r = cx.r.clone();
    let n = match r.below(6) { 0 => 0, 1 => r.below(4), 2 => r.range(200, 2000), _ => r.range(5, 200) };
    let data: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
    let sp = rnd_split(&mut r, n);
    let cap = *r.pick(&[1, 2, 3, 8, 16, 33, 64, 500, 8192]);
    let errs: Vec<(usize, ErrorKind)> = if r.chance(35) { (0..r.range(1, 4)).map(|_| (r.below(n + 1), *r.pick(&[ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::Interrupted, ErrorKind::Other]))).collect() } else { vec![] };
    let mut inner = BufReader::with_capacity(cap, ChunkSource::new(data.clone(), sp.clone()).with_errors(errs.clone()));
    let mut log = String::new();
    let res = guard(|| -> Result<(), String> {
        let mut b = brec::BufferedReader::new(&mut inner);
        let mut got = 0usize;
        // length of what can be consumed; lower bound of what a peek shows until bytes are taken
        let mut peeked = 0usize;
        let mut floor = 0usize;
        let steps = r.range(5, 80);
        for _ in 0..steps {
            match r.below(12) {
                0..=2 => match b.fill_buf() {
                    Ok(d) => {
                        ensure!(data[got..].starts_with(d), "peek shows {} bytes that are not the next ones of the source (at {got}): {} instead of {}", d.len(), hex(d), hex(&data[got..(got + d.len()).min(n)]));
                        ensure!(!d.is_empty() || got == n, "peek shows nothing, {} bytes are left", n - got);
                        ensure!(d.len() >= floor, "peek shows {} bytes, {floor} were available before", d.len());
                        peeked = d.len();
                        floor = floor.max(peeked);
                        log.push_str(&format!("p{} ", d.len()));
                    }
                    Err(e) => { ensure!(e.to_string() == "injected", "peek fails: {e}"); peeked = 0; log.push_str("p! ") }
                },
                3..=5 => {
                    let k = match r.below(4) { 0 => peeked, 1 => 0, _ => r.below(peeked + 1) };
                    b.consume(k);
                    got += k; peeked -= k; floor = floor.saturating_sub(k);
                    log.push_str(&format!("c{k} "));
                }
                6..=7 => {
                    let mut buf = vec![0u8; match r.below(5) { 0 => 0, 1 => 1, 2 => r.below(500), _ => r.below(40) }];
                    match b.read(&mut buf) {
                        Ok(k) => {
                            ensure!(k <= buf.len() && data[got..].starts_with(&buf[..k]), "read of {} returns {k} bytes that are not the next ones (at {got}): {} instead of {}", buf.len(), hex(&buf[..k]), hex(&data[got..(got + k).min(n)]));
                            ensure!(k > 0 || buf.is_empty() || got == n, "read returns nothing, {} bytes are left", n - got);
                            got += k; peeked = 0; floor = floor.saturating_sub(k);
                            log.push_str(&format!("r{k} "));
                        }
                        Err(e) => { ensure!(e.to_string() == "injected", "read fails: {e}"); peeked = 0; log.push_str("r! ") }
                    }
                }
                8..=10 => match b.refill() {
                    Ok(()) => {
                        log.push_str("f ");
                        match b.fill_buf() {
                            Ok(d) => {
                                ensure!(data[got..].starts_with(d), "after a refill the peeked data do not start at the first unconsumed byte {got}: {} instead of {}", hex(d), hex(&data[got..(got + d.len()).min(n)]));
                                ensure!(d.len() >= floor && (d.len() > floor || floor == 0 && got == n || got + d.len() == n), "after a refill {} bytes can be peeked, {floor} before", d.len());
                                peeked = d.len(); floor = peeked;
                            }
                            Err(e) => { ensure!(e.to_string() == "injected", "peek fails: {e}"); peeked = 0 }
                        }
                    }
                    Err(e) => { ensure!(e.to_string() == "injected", "refill fails: {e}"); log.push_str("f! "); peeked = 0 }
                },
                _ => {
                    match b.len() { Ok(k) => { ensure!(k <= n - got && (k > 0 || got == n), "len() is {k}, {} bytes are left", n - got); floor = floor.max(k) } Err(e) => ensure!(e.to_string() == "injected", "len() fails: {e}") }
                    match b.is_empty() { Ok(k) => ensure!(k == (got == n), "is_empty() is {k}, {} bytes are left", n - got), Err(e) => ensure!(e.to_string() == "injected", "is_empty() fails: {e}") }
                    peeked = 0;
                    log.push_str("l ");
                }
            }
            ensure!(b.consumed() == got, "consumed() is {}, {got} bytes were handed out", b.consumed());
        }
        // the rest
        let mut tail = Vec::new();
        let mut k = 0;
        loop { k += 1; ensure!(k < 20, "reading to the end keeps failing"); match b.read_to_end(&mut tail) { Ok(_) => break, Err(e) => ensure!(e.to_string() == "injected", "read to the end fails: {e}") } }
        ensure!(tail == data[got..], "the rest of the source is {} bytes, {} expected (or they differ)", tail.len(), n - got);
        ensure!(b.consumed() == n, "at the end consumed() is {} of {n}", b.consumed());
        Ok(())
    }).map_err(|p| format!("{p}; portions {sp:?}, capacity {cap}, errors {errs:?}; {log}"))?;
    res.map_err(|e| format!("{e}; portions {:?}, capacity {cap}, errors {errs:?}; peek/consume/read/fill: {log}", &sp[..sp.len().min(10)]))?;
    cx.st.add("operations", log.split(' ').count() as u64);
    cx.st.add("bytes_compared", n as u64);
    if n == 0 { cx.st.trivial += 1 } else { cx.st.seen(fnv(log.as_bytes()) ^ n as u64) }
    cx.st.sample(|| format!("{n} bytes, capacity {cap}, errors {errs:?}: {log}"));
    Ok(())
}

// ---------------------------------------------------------------- C19
fn rnd_script(r: &mut Rng, len: usize) -> Vec<Accept> {
    let style = r.below(7);
    (0..r.range(1, 30)).map(|_| match style {
        0 => Accept::Upto(1),
        1 => Accept::Upto(r.range(1, 8)),
        2 => if r.chance(30) { Accept::Fail(ErrorKind::Interrupted) } else { Accept::Upto(r.range(1, 20)) },
        3 => if r.chance(50) { Accept::Fail(ErrorKind::Interrupted) } else { Accept::Upto(r.range(1, len.max(2))) },
        4 => match r.below(12) { 0 => Accept::Zero, 1 => Accept::Fail(ErrorKind::Interrupted), _ => Accept::Upto(r.range(1, 40)) },
        5 => match r.below(12) { 0 => Accept::Fail(*r.pick(&[ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::StorageFull])), 1 => Accept::All, _ => Accept::Upto(r.range(1, 40)) },
        _ => match r.below(3) { 0 => Accept::All, 1 => Accept::Upto(*r.pick(&[1, 4, 8, 28, 29, 30])), _ => Accept::Upto(r.range(1, len.max(2))) },
    }).collect()
}
/// a script that would never let anything through is no sink
fn fair(mut s: Vec<Accept>) -> Vec<Accept> { if !s.iter().any(|a| matches!(a, Accept::All | Accept::Upto(_) | Accept::Zero)) { s.push(Accept::Upto(3)) } s }
type WriteFn<'a> = Box<dyn FnMut(&mut ShortSink) -> std::io::Result<Option<usize>> + 'a>;
struct BlockMethods<'a> { r: &'a mut Rng, script: Vec<Accept>, st: &'a mut Stats }
impl BlockVisitor for BlockMethods<'_> {
    type Out = Result<(), String>;
    fn visit<B: BlockSpec>(&mut self) -> Self::Out {
        let b = B::rnd(self.r);
        let want = enc_block_kb(B::KIND, &b.body());
        let name = format!("block {}", B_NAME[B::KIND]);
        let m: Vec<(&str, WriteFn)> = vec![
            ("write_all", Box::new(|s| WriteTo::write_all(&b, s).map(|_| None))),
            ("write_vectored_all", Box::new(|s| WriteVectoredTo::write_vectored_all(&b, s).map(|_| None))),
            ("write", Box::new(|s| WriteTo::write(&b, s).map(Some))),
            ("write_vectored", Box::new(|s| WriteVectoredTo::write_vectored(&b, s).map(Some))),
        ];
        for (w, f) in m { judge_sink(&format!("{name} {w}"), f, &want, self.script.clone(), self.st)? }
        Ok(())
    }
}
fn judge_sink(what: &str, mut f: WriteFn, want: &[u8], script: Vec<Accept>, st: &mut Stats) -> Result<(), String> {
    let mut s = ShortSink::new(script.clone());
    let res = guard(|| f(&mut s)).map_err(|p| format!("{what}: {p}"))?;
    let w = || format!("{what} of {} bytes into a sink reacting {:?}", want.len(), &script[..script.len().min(12)]);
    ensure!(want.starts_with(&s.out), "{}: the sink received {} bytes that are not the beginning of it: {} instead of {}", w(), s.out.len(), hex(&s.out), hex(want));
    let broken = s.zero_seen || s.failed.is_some();
    match res {
        Ok(None) => { ensure!(s.out.len() == want.len(), "{}: reports success, {} bytes delivered", w(), s.out.len()); ensure!(!broken, "{}: reports success although the sink failed", w()) }
        Ok(Some(n)) => { ensure!(n == s.out.len(), "{}: reports {n} bytes, the sink accepted {}", w(), s.out.len()); ensure!(s.failed.is_none(), "{}: hides an error of the sink", w()) }
        Err(e) => ensure!(broken || s.interrupts > 0 && (what.ends_with(" write") || what.ends_with("write_vectored")), "{}: fails without reason: {e}", w()),
    }
    st.add("writes", 1);
    st.add("sink_calls", s.calls as u64);
    st.add("interruptions", s.interrupts as u64);
    if broken { st.add("broken_sinks", 1) }
    if s.calls > 1 { st.seen(fnv(want) ^ fnv(format!("{script:?}{what}").as_bytes())) }
    Ok(())
}
fn c19(cx: &mut Cx) -> Result<(), String> {
    let mut r = cx.r.clone();
    let s = match r.below(12) { 0 => Shape::BIG, 1..=5 => Shape::STD, _ => Shape::SMALL };
    // a packet of many blocks consists of more slices than one vectored call takes
    let pk = if r.below(400) == 0 { let k = rnd_block_kind(&mut r, &Shape::SMALL); Pk { blocks: (0..r.range(200, 255)).map(|_| gen_block(k, &mut r)).collect(), payload: None } } else { rnd_pk(&mut r, &s) };
    let re = pk.reference();
    let want = re.bytes;
    let script = fair(rnd_script(&mut r, want.len()));
    let st = &mut *cx.st;
    let mk = |w: usize| -> WriteFn { let mut p = pk.packet(); match w {
        0 => Box::new(move |s| WriteMutTo::write_all(&mut p, s).map(|_| None)),
        1 => Box::new(move |s| WriteVectoredMutTo::write_vectored_all(&mut p, s).map(|_| None)),
        2 => Box::new(move |s| WriteMutTo::write(&mut p, s).map(Some)),
        _ => Box::new(move |s| WriteVectoredMutTo::write_vectored(&mut p, s).map(Some)),
    } };
    const N: [&str; 4] = ["write_all", "write_vectored_all", "write", "write_vectored"];
    for w in 0..4 { judge_sink(&format!("packet {}", N[w]), mk(w), &want, script.clone(), st)? }
    // one and the same packet written again and again, some of it into failing sinks
    if r.chance(10) {
        let mut p = pk.packet();
        for _ in 0..r.range(1, 4) {
            let mut s = ShortSink::new(script.clone());
            let w = r.below(4);
            let _ = guard(|| match w { 0 => WriteMutTo::write_all(&mut p, &mut s).map(|_| 0), 1 => WriteVectoredMutTo::write_vectored_all(&mut p, &mut s).map(|_| 0), 2 => WriteMutTo::write(&mut p, &mut s), _ => WriteVectoredMutTo::write_vectored(&mut p, &mut s) }).map_err(|e| format!("packet {}: {e}", N[w]))?;
            ensure!(want.starts_with(&s.out), "packet {} of an already written packet: the sink received {} instead of {}", N[w], hex(&s.out), hex(&want));
        }
        let mut o = Vec::new();
        guard(|| if r.coin() { WriteMutTo::write_all(&mut p, &mut o) } else { WriteVectoredMutTo::write_vectored_all(&mut p, &mut o) })?.map_err(|e| e.to_string())?;
        ensure!(o == want, "a packet written before into sinks reacting {:?} is written differently afterwards: {} instead of {}", &script[..script.len().min(12)], hex(&o), hex(&want));
        st.add("rewritten_packets", 1);
    }
    // slices put together by hand
    if r.chance(10) {
        let parts: Vec<Vec<u8>> = (0..r.below(12)).map(|_| { let m = *r.pick(&[0, 1, 5, 40, 300]); rnd_bytes(&mut r, m) }).collect();
        let all = parts.concat();
        let mut io = brec::IoSlices::default();
        let mut tail = brec::IoSlices::default();
        let cut = r.below(parts.len() + 1);
        for (i, p) in parts.iter().enumerate() { let t = if i < cut { &mut io } else { &mut tail }; if r.coin() { t.add_slice(p) } else { t.add_buffered(p.clone()) } }
        io.append(tail);
        let script = fair(rnd_script(&mut r, all.len()));
        ensure!(io.get().iter().flat_map(|s| s.iter().copied()).collect::<Vec<u8>>() == all, "slices got back differ from the added ones");
        judge_sink("slices write_vectored_all", Box::new(|s| io.write_vectored_all(s).map(|_| None)), &all, script, st)?;
        st.add("slices_by_hand", 1);
    }
    // its header
    let h = brec::PacketHeader::new::<Block, Payload>(&pk.blocks, pk.payload.as_ref()).map_err(|e| e.to_string())?;
    judge_sink("packet header write_all", Box::new(|s| WriteTo::write_all(&h, s).map(|_| None)), &want[..HDR], script.clone(), st)?;
    judge_sink("packet header write", Box::new(|s| WriteTo::write(&h, s).map(Some)), &want[..HDR], script.clone(), st)?;
    if let Some(p) = &pk.payload {
        let e = enc_payload(p);
        let sc = fair(rnd_script(&mut r, e.len()));
        for w in 0..4 {
            let mut q = p.clone();
            let f: WriteFn = match w { 0 => Box::new(move |s| WriteMutTo::write_all(&mut q, s).map(|_| None)), 1 => Box::new(move |s| WriteVectoredMutTo::write_vectored_all(&mut q, s).map(|_| None)), 2 => Box::new(move |s| WriteMutTo::write(&mut q, s).map(Some)), _ => Box::new(move |s| WriteVectoredMutTo::write_vectored(&mut q, s).map(Some)) };
            judge_sink(&format!("payload {} {}", P_NAME[payload_kind(p)], N[w]), f, &e, sc.clone(), st)?;
        }
    }
    for _ in 0..2 {
        let k = rnd_block_kind(&mut r, &s);
        let script = fair(rnd_script(&mut r, B_LEN[k]));
        let b = gen_block(k, &mut r);
        let e = enc_block(&b);
        let m: Vec<(&str, WriteFn)> = vec![
            ("write_all", Box::new(|s| WriteTo::write_all(&b, s).map(|_| None))),
            ("write_vectored_all", Box::new(|s| WriteVectoredTo::write_vectored_all(&b, s).map(|_| None))),
            ("write", Box::new(|s| WriteTo::write(&b, s).map(Some))),
            ("write_vectored", Box::new(|s| WriteVectoredTo::write_vectored(&b, s).map(Some))),
        ];
        for (w, f) in m { judge_sink(&format!("Block ({}) {w}", B_NAME[k]), f, &e, script.clone(), st)? }
        visit_block(k, &mut BlockMethods { r: &mut r, script, st })?;
    }
    st.sample(|| format!("packet of {} bytes, sink reacting {:?}", want.len(), &script[..script.len().min(10)]));
    Ok(())
}
