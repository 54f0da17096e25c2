//! C11, C12, C13, C14, C15, C24: the storage against a list model, crash points, faults, damage and concurrent readers.
use crate::checks::codec::enc_storage;
use crate::io::*;
use crate::proto::*;
use crate::stream::*;
use crate::util::*;
use crate::{Check, Cx, Tier};
use std::io::{ErrorKind, Read, Seek, Write};
use std::sync::{Arc, Mutex};

pub type W = Writer<'static, MemStore>;
pub type R = Reader<'static, MemStore>;

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C11", run: c11, quick: 7500, thorough: 80_000, san: 10, jobs: 8, cpu_limit: 120 },
        Check { id: "C12", run: c12, quick: 1000, thorough: 20_000, san: 10, jobs: 8, cpu_limit: 120 },
        Check { id: "C13", run: c13, quick: 600, thorough: 12_000, san: 3, jobs: 8, cpu_limit: 240 },
        Check { id: "C14", run: c14, quick: 400, thorough: 10_000, san: 6, jobs: 8, cpu_limit: 120 },
        Check { id: "C15", run: c15, quick: 5000, thorough: 40_000, san: 6, jobs: 8, cpu_limit: 240 },
        Check { id: "C24", run: c24, quick: 8000, thorough: 30_000, san: 4, jobs: 8, cpu_limit: 240 },
    ]
}
/// A packet for long histories.
pub fn light(r: &mut Rng) -> Pk {
    match r.below(12) {
        0 => rnd_pk(r, &Shape::STD),
        1 | 2 => rnd_pk(r, &Shape::SMALL),
        3 => Pk { blocks: vec![], payload: None },
        4 => { let n = r.below(30); Pk { blocks: vec![], payload: Some(gen_payload(0, r, n)) } }
        _ => Pk { blocks: vec![gen_block(r.below(NB.min(12)), r)], payload: None },
    }
}
/// A number of packets, the neighbourhood of slot boundaries favoured.
pub fn rnd_count(r: &mut Rng, san: bool) -> usize {
    if san { return r.below(6); }
    match r.below(16) { 0 => 0, 1 => 1, 2 => 2, 3..=7 => r.below(40), 8..=11 => r.range(497, 503), 12 => r.range(997, 1003), 13 => r.below(1100), 14 if r.chance(20) => r.range(1497, 1503), _ => r.below(120) }
}
fn ctx(what: &str, e: impl std::fmt::Display) -> String { format!("{what}: {e}") }

pub fn list<S: Read + Write + Seek>(rd: &mut Reader<'_, S>, cap: usize) -> Vec<Result<Vec<u8>, String>> { rd.iter().take(cap).map(|p| p.map(|p| enc_packet(&p)).map_err(|e| e.to_string())).collect() }
fn same(got: &[Result<Vec<u8>, String>], want: &[Vec<u8>], what: &str) -> Result<(), String> {
    for (i, g) in got.iter().enumerate() {
        match (g, want.get(i)) {
            (Ok(a), Some(b)) if a == b => {}
            (Ok(a), Some(b)) => return Err(format!("{what}: position {i} of {} holds another packet: {} instead of {}{}", want.len(), hex(a), hex(b), want.iter().position(|x| x == a).map(|p| format!(" (it is packet {p})")).unwrap_or_default())),
            (Ok(a), None) => return Err(format!("{what}: packet {i} delivered, only {} expected: {}", want.len(), hex(a))),
            (Err(e), _) => return Err(format!("{what}: error at position {i} of {}: {e}", want.len())),
        }
    }
    ensure!(got.len() == want.len(), "{what}: {} of {} packets delivered", got.len(), want.len());
    Ok(())
}
/// Positions worth asking for.
fn rnd_index(r: &mut Rng, n: usize) -> usize {
    match r.below(14) {
        0 => 0, 1 => n, 2 => n.saturating_sub(1), 3 => n + 1, 4 => 499, 5 => 500, 6 => 501, 7 => *r.pick(&[998, 999, 1000, 1001]),
        8 => *r.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2, i64::MAX as usize, u32::MAX as usize, usize::MAX / 500, usize::MAX / 500 * 500]),
        9 => (n / 500) * 500, 10 => n.div_ceil(500) * 500, _ => r.below(n + 2),
    }
}
/// Compares everything a reader can be asked with the model.
pub fn check_reader<S: Read + Write + Seek>(rd: &mut Reader<'_, S>, model: &[Vec<u8>], r: &mut Rng, what: &str, deep: usize, st: &mut Stats) -> Result<(), String> {
    let n = model.len();
    let r2 = r.clone();
    *r = { let mut x = r.clone(); x.next(); x };
    let mut r = r2;
    guard(|| -> Result<(), String> {
        ensure!(rd.count() == n, "{what}: count is {}, {n} packets were inserted", rd.count());
        same(&list(rd, n + 10), model, &format!("{what}: iteration"))?;
        let v: Vec<_> = rd.filtered().take(n + 10).map(|p| p.map(|p| enc_packet(&p)).map_err(|e| e.to_string())).collect();
        same(&v, model, &format!("{what}: filtered iteration without rules"))?;
        st.add("packets_compared", 2 * n as u64);
        for _ in 0..deep {
            let i = rnd_index(&mut r, n);
            match r.below(5) {
                0 | 1 => {
                    match rd.nth(i) {
                        Ok(Some(p)) => { ensure!(i < n, "{what}: nth({i}) returns a packet, there are only {n}"); ensure!(enc_packet(&p) == model[i], "{what}: nth({i}) returns another packet: {} instead of {}", hex(&enc_packet(&p)), hex(&model[i])); }
                        Ok(None) => ensure!(i >= n, "{what}: nth({i}) returns nothing, there are {n} packets"),
                        Err(e) => ensure!(i >= n && matches!(e, brec::Error::OutOfBounds(..)), "{what}: nth({i}) of {n} fails: {e}"),
                    }
                    st.add("lookups", 1);
                }
                2 => {
                    match rd.seek(i) {
                        Ok(it) => { let lim = if r.coin() { n + 10 } else { r.below(700) }; let v: Vec<_> = it.take(lim).map(|p| p.map(|p| enc_packet(&p)).map_err(|e| e.to_string())).collect(); let w = &model[i.min(n)..]; same(&v, &w[..w.len().min(lim)], &format!("{what}: iteration from {i}"))?; st.add("packets_compared", v.len() as u64); }
                        Err(e) => ensure!(i >= n && matches!(e, brec::Error::OutOfBounds(..) | brec::Error::EmptySource), "{what}: seek({i}) of {n} fails: {e}"),
                    }
                    st.add("seeks", 1);
                }
                k => {
                    let len = match r.below(6) { 0 => 0, 1 => 1, 2 => usize::MAX, 3 => rnd_index(&mut r, n), _ => r.below(40) };
                    let w: Vec<Vec<u8>> = model.iter().skip(i).take(len).cloned().collect();
                    let v: Vec<_> = if k == 3 { rd.range(i, len).take(n + 10).map(|p| p.map(|p| enc_packet(&p)).map_err(|e| e.to_string())).collect() } else { rd.range_filtered(i, len).take(n + 10).map(|p| p.map(|p| enc_packet(&p)).map_err(|e| e.to_string())).collect() };
                    same(&v, &w, &format!("{what}: {}({i}, {len}) of {n}", if k == 3 { "range" } else { "range_filtered" }))?;
                    st.add("ranges", 1);
                    st.add("packets_compared", v.len() as u64);
                }
            }
        }
        Ok(())
    }).map_err(|p| format!("{what}: {p}"))?
}
pub fn open_r(s: &MemStore) -> Result<Result<R, brec::Error>, String> { guard(|| R::new(s.handle())).map_err(|p| format!("opening for reading: {p}")) }
pub fn open_w(s: &MemStore) -> Result<Result<W, brec::Error>, String> { guard(|| W::new(s.handle())).map_err(|p| format!("opening for writing: {p}")) }
pub fn insert(w: &mut W, pk: &Pk) -> Result<Result<(), brec::Error>, String> { guard(|| w.insert(pk.packet())).map_err(|p| format!("insert: {p}")) }
/// A store already holding n packets: laid out by the reference encoder or by the writer itself.
fn prefilled(r: &mut Rng, n: usize) -> Result<(MemStore, Vec<Vec<u8>>), String> {
    let pks: Vec<Pk> = (0..n).map(|_| light(r)).collect();
    let refs: Vec<Vec<u8>> = pks.iter().map(|p| p.reference().bytes).collect();
    if r.coin() { let mut b = enc_storage(&refs); if n % SLOT_CAP == 0 && r.coin() { b.extend(enc_slot(&[])) } let s = MemStore::with(b); if r.chance(30) { s.split_reads(r) } return Ok((s, refs)); }
    let s = MemStore::new();
    if r.chance(30) { s.split_reads(r) }
    let mut w = open_w(&s)?.map_err(|e| ctx("opening an empty storage for writing", e))?;
    for p in &pks { insert(&mut w, p)?.map_err(|e| ctx("insert", e))? }
    Ok((s, refs))
}

// ---------------------------------------------------------------- C11
fn c11(cx: &mut Cx) -> Result<(), String> {
    let san = cx.tier == Tier::San;
    let mut r = cx.r.clone();
    let total = rnd_count(&mut r, san);
    if r.chance(if san { 30 } else { 12 }) { return c11_huge(cx, r); }
    if !san && r.chance(8) { return c11_file(cx, r, total); }
    let pre = if r.chance(50) { let x = rnd_count(&mut r, san).min(total); x } else { 0 };
    let (s, mut model) = prefilled(&mut r, pre)?;
    let mut w = open_w(&s)?.map_err(|e| ctx(&format!("opening a storage of {pre} packets for writing"), e))?;
    let mut reopens = 0;
    let reopen_pct = *r.pick(&[0, 0, 1, 5, 50]);
    while model.len() < total {
        if r.chance(reopen_pct) || (matches!(model.len() % 500, 0 | 1 | 499) && r.chance(40)) {
            drop(w);
            w = open_w(&s)?.map_err(|e| ctx(&format!("reopening a storage of {} packets for writing", model.len()), e))?;
            reopens += 1;
        }
        let pk = if r.chance(1) && total < 60 { rnd_pk(&mut r, &Shape::BIG) } else { light(&mut r) };
        insert(&mut w, &pk)?.map_err(|e| format!("insert {} of {total}: {e}", model.len()))?;
        model.push(pk.reference().bytes);
        cx.st.add("inserts", 1);
        if r.chance(2) || (matches!(model.len() % 500, 0 | 1 | 499) && r.chance(30)) {
            let mut rd = open_r(&s)?.map_err(|e| ctx(&format!("opening a storage of {} packets", model.len()), e))?;
            check_reader(&mut rd, &model, &mut r, "while the writer is open", 4, cx.st)?;
            cx.st.add("readers_checked", 1);
        }
    }
    drop(w);
    let mut rd = open_r(&s)?.map_err(|e| ctx(&format!("opening a storage of {total} packets"), e))?;
    check_reader(&mut rd, &model, &mut r, "final", 24, cx.st)?;
    // the same reader, asked again after all this
    check_reader(&mut rd, &model, &mut r, "final, again", 3, cx.st)?;
    cx.st.add("readers_checked", 1);
    cx.st.add("reopenings", reopens);
    cx.st.add("portioned_medium_reads", s.inner.lock().unwrap().split_reads);
    if total == 0 { cx.st.trivial += 1 }
    cx.st.seen(fnv(&s.image()) ^ reopens);
    cx.st.sample(|| format!("{total} packets ({pre} there before), {reopens} reopenings, file of {} bytes", s.image().len()));
    Ok(())
}
pub fn scratch(cx: &Cx, name: &str) -> Result<std::path::PathBuf, String> {
    let d = std::path::Path::new(cx.work).join(format!("{name}-{}-{}", std::process::id(), cx.idx));
    std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
    Ok(d)
}
fn c11_file(cx: &mut Cx, mut r: Rng, total: usize) -> Result<(), String> {
    let dir = scratch(cx, "c11")?;
    let path = dir.join("s.bin");
    let res = (|| {
        let mut model = Vec::new();
        let mut w: Option<FileStorage<'static>> = None;
        while model.len() < total {
            if w.is_none() { w = Some(guard(|| FileStorage::new(&path, None, None))?.map_err(|e| ctx("opening the locked storage", e))?) }
            let pk = light(&mut r);
            guard(|| w.as_mut().unwrap().insert(pk.packet()))?.map_err(|e| ctx("insert", e))?;
            model.push(pk.reference().bytes);
            if r.chance(1) { w = None }
            cx.st.add("inserts", 1);
        }
        drop(w);
        if total == 0 { std::fs::File::create(&path).map_err(|e| e.to_string())?; }
        let f = std::fs::OpenOptions::new().read(true).write(true).open(&path).map_err(|e| e.to_string())?;
        let mut rd: Reader<'_, std::fs::File> = guard(|| Reader::new(f))?.map_err(|e| ctx("opening the file", e))?;
        check_reader(&mut rd, &model, &mut r, "file", 16, cx.st)?;
        cx.st.add("files_checked", 1);
        cx.st.seen(fnv(&std::fs::read(&path).unwrap_or_default()));
        Ok(())
    })();
    let _ = std::fs::remove_dir_all(&dir);
    res
}

/// A storage of gigabytes to exabytes: most packets are only lengths in the slots (zeros in a sparse
/// store), the others are real and lie behind offsets no 32-bit number holds.
fn c11_huge(cx: &mut Cx, mut r: Rng) -> Result<(), String> {
    let san = cx.tier == Tier::San;
    let s = SparseStore::default();
    let full = if san { r.below(2) } else { r.below(4) };
    let last = if r.chance(30) { *r.pick(&[0, 1, 499, 498]) } else { r.below(500) };
    let mag = *r.pick(&[10, 20, 22, 23, 24, 31, 32, 33, 40, 50]);
    // real[i]: bytes of packet i, absent for a dummy
    let mut real: Vec<Option<Vec<u8>>> = vec![];
    let mut tails: Vec<(usize, usize)> = vec![]; // (first of the real ones at the end of a slot, end of the slot)
    let mut pos = 0u64;
    let mut last_lens: Vec<u64> = vec![];
    let mut last_at = 0;
    for k in 0..=full {
        let n = if k == full { last } else { 500 };
        let head = r.below(4).min(n);
        let tail = r.range(0, if san { 4 } else { 12 }).min(n - head);
        let sprinkle = r.below(3);
        let first = real.len();
        let mut lens = vec![];
        last_at = pos;
        let mut at = pos + SLOT_LEN as u64;
        for i in 0..n {
            let is_real = i < head || i >= n - tail || r.below(500) < sprinkle;
            if is_real {
                let b = light(&mut r).reference().bytes;
                s.put(at, &b);
                lens.push(b.len() as u64);
                real.push(Some(b));
            } else {
                let l = match r.below(4) { 0 => 1 + r.next() % (1u64 << (mag + 1)), 1 => 1u64 << mag, 2 => (1u64 << mag) - 1 + r.next() % 3, _ => 64 };
                lens.push(l.max(1));
                real.push(None);
            }
            at += lens[i];
        }
        tails.push((first + n - tail, first + n));
        s.put(pos, &enc_slot(&lens));
        s.inner.lock().unwrap().len = s.len().max(at);
        pos = at;
        last_lens = lens;
    }
    let mut n = real.len();
    let what = format!("storage of {} bytes, {n} packets", s.len());
    cx.st.max("max_storage_bytes_log2", 64 - s.len().leading_zeros() as u64);
    if s.len() > u32::MAX as u64 { cx.st.add("storages_beyond_4gb", 1) }
    type SR = Reader<'static, SparseStore>;
    let open = |when: &str| -> Result<SR, String> { guard(|| SR::new(s.handle())).map_err(|p| format!("{what}: opening: {p}"))?.map_err(|e| format!("{what}: opening {when}: {e}")) };
    let look = |rd: &mut SR, real: &[Option<Vec<u8>>], tails: &[(usize, usize)], r: &mut Rng, st: &mut Stats, when: &str| -> Result<(), String> {
        let what = format!("{what}, {when}");
        let n = real.len();
        guard(|| -> Result<(), String> {
            ensure!(rd.count() == n, "{what}: count is {}, the slots hold {n}", rd.count());
            for (i, b) in real.iter().enumerate() {
                let Some(b) = b else { continue };
                if r.chance(40) { continue }
                match rd.nth(i) {
                    Ok(Some(p)) => ensure!(enc_packet(&p) == *b, "{what}: nth({i}) returns another packet: {} instead of {}", hex(&enc_packet(&p)), hex(b)),
                    o => return Err(format!("{what}: nth({i}): {}", match o { Ok(_) => "nothing".into(), Err(e) => e.to_string() })),
                }
                st.add("lookups", 1);
                // the run of real ones which begins here
                let run: Vec<Vec<u8>> = real[i..].iter().map_while(|x| x.clone()).collect();
                let len = r.range(1, run.len());
                let v: Vec<_> = if r.coin() { rd.range(i, len).take(run.len() + 9).map(|p| p.map(|p| enc_packet(&p)).map_err(|e| e.to_string())).collect() } else { rd.range_filtered(i, len).take(run.len() + 9).map(|p| p.map(|p| enc_packet(&p)).map_err(|e| e.to_string())).collect() };
                same(&v, &run[..len], &format!("{what}: range({i}, {len})"))?;
                st.add("ranges", 1);
                st.add("packets_compared", len as u64 + 1);
            }
            for &(a, e) in tails {
                if a == e { continue }
                let i = r.range(a, e - 1);
                match rd.seek(i) {
                    Ok(it) => { let v: Vec<_> = it.take(e - i).map(|p| p.map(|p| enc_packet(&p)).map_err(|e| e.to_string())).collect(); let w: Vec<Vec<u8>> = real[i..e].iter().flatten().cloned().collect(); same(&v, &w, &format!("{what}: iteration from {i}"))?; }
                    Err(e) => return Err(format!("{what}: seek({i}): {e}")),
                }
                st.add("seeks", 1);
            }
            for i in [n, n + 1, n + r.below(1000)] {
                match rd.nth(i) { Ok(None) | Err(brec::Error::OutOfBounds(..)) => {} Ok(Some(p)) => return Err(format!("{what}: nth({i}) returns {}", hex(&enc_packet(&p)))), Err(e) => return Err(format!("{what}: nth({i}) fails: {e}")) }
            }
            Ok(())
        }).map_err(|p| format!("{what}: {p}"))?
    };
    let mut rd = open("for reading")?;
    look(&mut rd, &real, &tails, &mut r, cx.st, "as laid out")?;
    // the writer continues it
    let mut w: Writer<'static, SparseStore> = guard(|| Writer::new(s.handle())).map_err(|p| format!("{what}: opening for writing: {p}"))?.map_err(|e| format!("{what}: opening for writing: {e}"))?;
    let more = if san { r.below(3) } else if last > 480 { r.below(30) } else { r.below(8) };
    for k in 0..more {
        let pk = light(&mut r);
        let b = pk.reference().bytes;
        guard(|| w.insert(pk.packet())).map_err(|p| format!("{what}: insert {k}: {p}"))?.map_err(|e| format!("{what}: insert {k}: {e}"))?;
        if last_lens.len() == SLOT_CAP { last_at += SLOT_LEN as u64 + last_lens.iter().sum::<u64>(); last_lens.clear(); tails.push((n, n)); }
        let at = last_at + SLOT_LEN as u64 + last_lens.iter().sum::<u64>();
        last_lens.push(b.len() as u64);
        ensure!(s.get(at, b.len()) == b, "{what}: inserted packet {k} is not at its offset {at}: {} instead of {}", hex(&s.get(at, b.len())), hex(&b));
        ensure!(s.get(last_at, SLOT_LEN) == enc_slot(&last_lens), "{what}: the slot at {last_at} does not hold the lengths of its {} packets", last_lens.len());
        real.push(Some(b));
        n += 1;
        if let Some(t) = tails.last_mut() { if t.0 == t.1 { t.0 = n - 1 } t.1 = n }
        cx.st.add("inserts", 1);
    }
    drop(w);
    let before = n - more;
    match guard(|| rd.reload()).map_err(|p| format!("{what}: reload: {p}"))? { Ok(k) => ensure!(k == more, "{what}: reload returns {k}, {more} were added to {before}"), Err(e) => return Err(format!("{what}: reload: {e}")) }
    look(&mut rd, &real, &tails, &mut r, cx.st, "after reload")?;
    let mut rd = open("again")?;
    look(&mut rd, &real, &tails, &mut r, cx.st, "opened again")?;
    cx.st.add("readers_checked", 3);
    cx.st.add("huge_storages", 1);
    cx.st.seen(fnv(&s.get(last_at, SLOT_LEN)) ^ s.len());
    cx.st.sample(|| format!("{what} ({} of them real), {more} inserted behind", real.iter().flatten().count()));
    Ok(())
}

// ---------------------------------------------------------------- C12
/// Reloads of a reader of a storage which grows by far more than fits in memory; most packets are holes.
fn c12_huge(cx: &mut Cx, mut r: Rng) -> Result<(), String> {
    let san = cx.tier == Tier::San;
    type SR = Reader<'static, SparseStore>;
    let s = SparseStore::default();
    let mag = *r.pick(&[10, 20, 22, 23, 24, 31, 32, 33, 40, 50]);
    let mut lens: Vec<u64> = vec![];
    let mut real: Vec<(usize, Vec<u8>)> = vec![];
    let mut readers: Vec<(SR, usize)> = vec![];
    let mut hist = String::new();
    let fail = |hist: &str, e: String| format!("storage of packets up to 2^{mag} bytes ({hist}): {e}");
    let stages = if san { 2 } else { r.range(2, 5) };
    for stage in 0..stages {
        let add = match r.below(8) { 0 => 0, 1 => 500 - lens.len() % 500, 2 => 501 - lens.len() % 500, 3 | 4 if !san => r.range(500, 1300), 5 => 1, _ => r.range(1, if san { 40 } else { 499 }) };
        if lens.len() + add > 3000 { break }
        let first = lens.len();
        for i in 0..add {
            let n = first + i;
            if i + 3 >= add || i < 2 || r.chance(1) {
                let b = light(&mut r).reference().bytes;
                lens.push(b.len() as u64);
                real.push((n, b));
            } else { lens.push(match r.below(4) { 0 => 1 + r.next() % (1u64 << (mag + 1)), 1 => 1u64 << mag, 2 => (1u64 << mag) - 1 + r.next() % 3, _ => 64 }) }
        }
        // all of the slots as they would be now
        let mut at = 0u64;
        let mut ri = real.iter().peekable();
        let mut n = 0;
        for c in lens.chunks(SLOT_CAP) {
            s.put(at, &enc_slot(c));
            at += SLOT_LEN as u64;
            for l in c { if let Some((_, b)) = ri.next_if(|x| x.0 == n) { s.put(at, b) } at += l; n += 1; }
        }
        // behind a full slot there may be an empty one
        if lens.len() % SLOT_CAP == 0 && r.coin() { s.put(at, &enc_slot(&[])); at += SLOT_LEN as u64 }
        { let mut i = s.inner.lock().unwrap(); i.len = i.len.max(at) }
        hist.push_str(&format!("+{add} "));
        for (k, (rd, seen)) in readers.iter_mut().enumerate() {
            if stage + 1 < stages && r.chance(35) { continue }
            let got = guard(|| rd.reload()).map_err(|e| fail(&hist, e))?.map_err(|e| fail(&hist, format!("reload of reader {k}, which saw {seen} of {} packets: {e}", lens.len())))?;
            ensure!(got == lens.len() - *seen, "{}", fail(&hist, format!("reload of reader {k}, which saw {seen} of {}, returns {got}", lens.len())));
            *seen = lens.len();
            cx.st.add("reloads", 1);
            ensure!(rd.count() == lens.len(), "{}", fail(&hist, format!("reader {k} counts {} of {} after reload", rd.count(), lens.len())));
            for (n, b) in real.iter().rev().take(if r.chance(20) { usize::MAX } else { 8 }) {
                match guard(|| rd.nth(*n)).map_err(|e| fail(&hist, e))? {
                    Ok(Some(p)) => ensure!(enc_packet(&p) == *b, "{}", fail(&hist, format!("reader {k} after reload: nth({n}) gives {} instead of {}", hex(&enc_packet(&p)), hex(b)))),
                    o => return Err(fail(&hist, format!("reader {k} after reload: nth({n}) gives {}", match o { Ok(_) => "nothing".into(), Err(e) => e.to_string() }))),
                }
                cx.st.add("lookups", 1);
            }
            let again = guard(|| rd.reload()).map_err(|e| fail(&hist, e))?.map_err(|e| fail(&hist, format!("repeated reload of reader {k}: {e}")))?;
            ensure!(again == 0, "{}", fail(&hist, format!("a reload with nothing new returns {again}")));
        }
        let rd = guard(|| SR::new(s.handle())).map_err(|e| fail(&hist, e))?.map_err(|e| fail(&hist, format!("opening: {e}")))?;
        ensure!(rd.count() == lens.len(), "{}", fail(&hist, format!("freshly opened reader counts {} of {}", rd.count(), lens.len())));
        readers.push((rd, lens.len()));
    }
    cx.st.add("huge_storages", 1);
    cx.st.seen(fnv(hist.as_bytes()) ^ s.len());
    Ok(())
}
fn c12(cx: &mut Cx) -> Result<(), String> {
    let san = cx.tier == Tier::San;
    let mut r = cx.r.clone();
    if r.chance(12) { return c12_huge(cx, r); }
    let pre = if r.coin() { rnd_count(&mut r, san) } else { 0 };
    let (s, mut model) = prefilled(&mut r, pre)?;
    let mut readers: Vec<(R, usize)> = Vec::new();
    let steps = if san { 12 } else if pre > 200 { *r.pick(&[10, 20, 40]) } else { *r.pick(&[10, 30, 60]) };
    let mut w = if r.coin() { Some(open_w(&s)?.map_err(|e| ctx("opening for writing", e))?) } else { None };
    let mut hist = String::new();
    let (mut reloads, mut grown) = (0u64, 0u64);
    for _ in 0..steps {
        match r.below(10) {
            0 if readers.len() < 4 => {
                let rd = open_r(&s)?.map_err(|e| ctx(&format!("opening a storage of {} packets", model.len()), e))?;
                ensure!(rd.count() == model.len(), "freshly opened reader counts {} of {} packets", rd.count(), model.len());
                readers.push((rd, model.len()));
                hist.push_str(&format!("o{} ", model.len()));
            }
            1 if r.chance(30) => { w = None; hist.push_str("c "); }
            2..=4 => {
                let n = if san { r.range(1, 2) } else { match r.below(10) { 0 => 500 - model.len() % 500, 1 => 501 - model.len() % 500, 2 => 499usize.saturating_sub(model.len() % 500), 3 if r.chance(20) => r.range(490, 1010), _ => r.range(1, 6) } };
                if model.len() + n > 2600 { continue; }
                if w.is_none() { w = Some(open_w(&s)?.map_err(|e| ctx("reopening for writing", e))?) }
                for _ in 0..n { let p = light(&mut r); insert(w.as_mut().unwrap(), &p)?.map_err(|e| ctx("insert", e))?; model.push(p.reference().bytes); }
                hist.push_str(&format!("i{n} "));
            }
            _ if !readers.is_empty() => {
                let k = r.below(readers.len());
                let (rd, seen) = &mut readers[k];
                if r.chance(15) { check_reader(rd, &model[..*seen], &mut r, &format!("reader {k} before reload ({hist})"), 2, cx.st)?; }
                let n = guard(|| rd.reload())?.map_err(|e| format!("reload of a reader that saw {seen} of {} packets fails: {e} ({hist})", model.len()))?;
                ensure!(n == model.len() - *seen, "reload returns {n}, {} packets were added (reader saw {seen}, now {}; {hist})", model.len() - *seen, model.len());
                if n > 0 { grown += 1 }
                *seen = model.len();
                reloads += 1;
                hist.push_str(&format!("r{k} "));
                check_reader(rd, &model, &mut r, &format!("reader {k} after reload ({hist})"), 3, cx.st)?;
            }
            _ => {}
        }
    }
    for (k, (rd, seen)) in readers.iter_mut().enumerate() {
        let n = guard(|| rd.reload())?.map_err(|e| format!("last reload: {e} ({hist})"))?;
        ensure!(n == model.len() - *seen, "last reload of reader {k} returns {n}, {} were added ({hist})", model.len() - *seen);
        let n = guard(|| rd.reload())?.map_err(|e| format!("repeated reload: {e} ({hist})"))?;
        ensure!(n == 0, "a reload with nothing new returns {n} ({hist})");
        check_reader(rd, &model, &mut r, &format!("reader {k} at the end ({hist})"), 6, cx.st)?;
        reloads += 2;
    }
    cx.st.add("reloads", reloads);
    cx.st.add("reloads_with_news", grown);
    cx.st.add("readers", readers.len() as u64);
    cx.st.add("portioned_medium_reads", s.inner.lock().unwrap().split_reads);
    if grown == 0 { cx.st.trivial += 1 } else { cx.st.seen(fnv(hist.as_bytes()) ^ pre as u64); }
    cx.st.sample(|| format!("{pre} packets at first; o=open at, i=insert, c=close writer, r=reload reader: {hist}"));
    Ok(())
}

// ---------------------------------------------------------------- C13
/// Scans a file with the streaming reader; the wanted packets must all be found, in order.
fn scan_finds(file: &[u8], want: &[Vec<u8>], what: &str) -> Result<usize, String> {
    let mut src = ChunkSource::new(file.to_vec(), vec![]);
    let o = drive(file.len(), &mut src, 0, None).map_err(|e| format!("{what}: {e}"))?;
    ensure!(o.ended, "{what}: scanning does not end");
    let f = o.found();
    let mut at = 0;
    for (i, p) in want.iter().enumerate() {
        match f[at..].iter().position(|b| *b == p) { Some(k) => at += k + 1, None => return Err(format!("{what}: packet {i} of {} inserted is not found by scanning the file ({} found, {} bytes)", want.len(), f.len(), file.len())) }
    }
    Ok(f.len())
}
/// The recovery of a file left by a dead writer. Returns what is visible, if it could be opened.
fn recover(file: &[u8], acked: &[Vec<u8>], inflight: Option<&Vec<u8>>, r: &mut Rng, what: &str, st: &mut Stats) -> Result<Option<Vec<Vec<u8>>>, String> {
    scan_finds(file, acked, what)?;
    st.add("files_scanned", 1);
    let s = MemStore::with(file.to_vec());
    let rd = open_r(&s).map_err(|e| format!("{what}: {e}"))?;
    let wr = open_w(&s).map_err(|e| format!("{what}: {e}"))?;
    let mut rd = match rd {
        Ok(rd) => rd,
        Err(brec::Error::DamagedSlot(_)) => {
            ensure!(wr.is_err(), "{what}: reading reports a damaged slot, writing does not");
            st.add("damaged_slot_reported", 1);
            return Ok(None);
        }
        Err(e) => return Err(format!("{what}: opening reports {e}")),
    };
    let mut view: Vec<Vec<u8>> = acked.to_vec();
    if rd.count() == acked.len() + 1 { if let Some(p) = inflight { view.push(p.clone()) } }
    check_reader(&mut rd, &view, r, &format!("{what} (acknowledged {})", acked.len()), 2, st)?;
    st.add(if view.len() > acked.len() { "opened_with_inflight" } else { "opened_with_acknowledged" }, 1);
    ensure!(wr.is_ok(), "{what}: opening for writing fails: {}", wr.err().map(|e| e.to_string()).unwrap_or_default());
    ensure!(s.image() == file, "{what}: opening modified the file");
    Ok(Some(view))
}
fn c13(cx: &mut Cx) -> Result<(), String> {
    if cx.tier != Tier::San && cx.idx % 40 == 7 { return c13_kill(cx); }
    let mut r = cx.r.clone();
    let san = cx.tier == Tier::San;
    let n = if san { r.below(3) } else { match r.below(10) { 0..=2 => r.below(6), 3..=6 => r.range(497, 501), 7 => r.range(997, 1001), _ => r.below(60) } };
    let (s, mut acked) = prefilled(&mut r, n)?;
    let mut start = s.image();
    if n % SLOT_CAP != 0 && r.chance(25) { start.extend(stale_tail(&mut r)); cx.st.add("storages_with_a_stale_tail", 1) }
    let rounds = r.range(1, 3);
    let mut crashes: Vec<String> = Vec::new();
    for round in 0..rounds {
        let s = MemStore::with(start.clone());
        let mut w = open_w(&s)?.map_err(|e| ctx("opening for writing", e))?;
        let k = r.range(1, 4);
        let pks: Vec<Pk> = (0..k).map(|_| match r.below(4) { 0 => rnd_pk(&mut r, &Shape::STD), 1 => { let mut p = light(&mut r); if p.payload.is_none() { p.payload = Some(gen_payload(0, &mut r, 300)) } p } _ => light(&mut r) }).collect();
        // what each insert does to the medium
        let mut plan: Vec<(usize, Op)> = Vec::new();
        for (i, p) in pks.iter().enumerate() {
            { let mut x = s.inner.lock().unwrap(); x.logging = true; x.log.clear(); }
            insert(&mut w, p)?.map_err(|e| ctx("insert", e))?;
            let log = std::mem::take(&mut s.inner.lock().unwrap().log);
            plan.extend(log.into_iter().filter(|o| matches!(o, Op::Write { .. } | Op::Flush)).map(|o| (i, o)));
        }
        let refs: Vec<Vec<u8>> = pks.iter().map(|p| p.reference().bytes).collect();
        // crash points: before and inside every write, and after the last
        let mut file = start.clone();
        let mut stops: Vec<(Vec<u8>, usize, String)> = vec![];
        let mut last = usize::MAX;
        // what a medium keeping writes in memory until it is flushed would have
        let mut durable = start.clone();
        for (pi, (i, op)) in plan.iter().enumerate() {
            let Op::Write { pos, data } = op else { durable.clone_from(&file); cx.st.add("flushes", 1); continue };
            let pos = *pos as usize;
            let mut cuts: Vec<usize> = vec![0, 1, data.len() - 1, data.len()];
            if data.len() <= 64 || cx.tier == Tier::Thorough && r.chance(10) { cuts.extend(0..data.len()) }
            for _ in 0..if san { 2 } else { 8 } { cuts.push(r.below(data.len())) }
            for b in [8, 16, 28, 29, SLOT_LEN - 4, SLOT_LEN - 5, 16 + 8 * (acked.len() % 500), 17 + 8 * (acked.len() % 500), 24 + 8 * (acked.len() % 500)] { if b < data.len() { cuts.push(b) } }
            cuts.sort(); cuts.dedup();
            for c in cuts {
                if c == 0 && last == *i { continue; }
                let mut f = file.clone();
                if c > 0 { if f.len() < pos + c { f.resize(pos + c, 0) } f[pos..pos + c].copy_from_slice(&data[..c]); }
                stops.push((f, *i, format!("death in insert {i} of {k} after {c} of {} bytes written at {pos} (storage of {}, round {round})", data.len(), acked.len())));
            }
            if file.len() < pos + data.len() { file.resize(pos + data.len(), 0) }
            file[pos..pos + data.len()].copy_from_slice(data);
            last = *i;
            if plan[pi + 1..].iter().find(|o| matches!(o.1, Op::Write { .. }) || o.0 != *i).map_or(true, |o| o.0 != *i) {
                // the last write of the insert: is it flushed before the insert returns?
                if plan[pi + 1..].iter().take_while(|o| o.0 == *i).any(|o| matches!(o.1, Op::Flush)) { cx.st.add("acknowledged_after_flush", 1) }
                else { stops.push((durable.clone(), *i + 1, format!("death after insert {i} of {k} has returned, without what was not flushed to the medium (storage of {}, round {round})", acked.len()))) }
            }
        }
        ensure!(file == s.image(), "the log of writes does not explain the file");
        stops.push((file, k, format!("death after {k} inserts (storage of {})", acked.len())));
        // large storages: a sample of the points
        if acked.len() > 100 && cx.tier != Tier::Thorough { r.shuffle(&mut stops); stops.truncate(45); }
        let carry = r.below(stops.len());
        let mut next: Option<(Vec<u8>, Vec<Vec<u8>>)> = None;
        for (si, (f, i, what)) in stops.iter().enumerate() {
            let mut ack = acked.clone();
            ack.extend_from_slice(&refs[..*i]);
            let view = recover(f, &ack, refs.get(*i), &mut r, what, cx.st)?;
            cx.st.add("crash_points", 1);
            cx.st.seen(fnv(what.as_bytes()) ^ fnv(&f[f.len().saturating_sub(300)..]));
            if let Some(view) = view {
                // life goes on: sometimes far enough to cross into the next slot
                if si == carry || r.chance(15) {
                    let s = MemStore::with(f.clone());
                    let mut w = open_w(&s)?.map_err(|e| ctx("opening after a crash", e))?;
                    let mut all = view.clone();
                    let m = if r.chance(30) && !san { 500 - view.len() % 500 + r.below(3) } else { r.range(1, 3) };
                    let m = if m > 40 && !r.chance(10) { 2 } else { m };
                    for _ in 0..m { let p = light(&mut r); insert(&mut w, &p)?.map_err(|e| format!("{what}: insert after reopening: {e}"))?; all.push(p.reference().bytes); }
                    let mut rd = open_r(&s)?.map_err(|e| format!("{what}: opening after {m} further inserts: {e}"))?;
                    check_reader(&mut rd, &all, &mut r, &format!("{what}, then {m} further inserts"), 4, cx.st)?;
                    scan_finds(&s.image(), &all, &format!("{what}, then {m} further inserts"))?;
                    cx.st.add("continued_after_crash", 1);
                }
                if si == carry { next = Some((f.clone(), view)) }
            }
        }
        crashes.push(format!("{} points over {k} inserts at {}", stops.len(), acked.len()));
        match next { Some((f, v)) => { start = f; acked = v; } None => break }
    }
    cx.st.sample(|| format!("storage of {n}: {}", crashes.join("; then ")));
    Ok(())
}
/// A real process with a locked file storage, killed at an arbitrary moment.
fn c13_kill(cx: &mut Cx) -> Result<(), String> {
    use std::io::BufRead;
    let mut r = cx.r.clone();
    let dir = scratch(cx, "c13")?;
    let path = dir.join("s.bin");
    let seed = r.next();
    let mut acked = 0usize;
    let res = (|| {
        for round in 0..3 {
            let mut ch = std::process::Command::new(cx.exe).args(["worker", "insert", path.to_str().unwrap(), &seed.to_string(), &acked.to_string(), "100000"]).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().map_err(|e| e.to_string())?;
            let out = ch.stdout.take().unwrap();
            // dies after this many acknowledgements plus an arbitrary little while
            let target = acked + match r.below(3) { 0 => r.below(5), 1 => 498 - acked.min(498) + r.below(5), _ => r.below(300) };
            let mut rd = std::io::BufReader::new(out);
            let mut line = String::new();
            let mut failed = None;
            while acked < target { line.clear(); if rd.read_line(&mut line).unwrap_or(0) == 0 { break } if let Some(n) = line.trim().strip_prefix("A ") { acked = n.parse().unwrap_or(acked) } else { failed = Some(line.trim().to_string()); break } }
            let t = std::time::Instant::now();
            let wait = r.below(400) as u128;
            while t.elapsed().as_micros() < wait {}
            let _ = ch.kill();
            let _ = ch.wait();
            loop { line.clear(); if rd.read_line(&mut line).unwrap_or(0) == 0 || !line.ends_with('\n') { break } if let Some(n) = line.trim().strip_prefix("A ") { acked = n.parse().unwrap_or(acked) } else { failed = Some(line.trim().to_string()) } }
            if let Some(f) = failed { return Err(format!("worker process: {f}")); }
            let refs: Vec<Vec<u8>> = (0..acked + 1).map(|i| worker_pk(seed, i).reference().bytes).collect();
            let file = std::fs::read(&path).unwrap_or_default();
            if file.is_empty() { ensure!(acked == 0, "{acked} acknowledged packets, the file is empty"); continue; }
            let view = recover(&file, &refs[..acked], Some(&refs[acked]), &mut r, &format!("process killed (round {round})"), cx.st)?;
            cx.st.add("processes_killed", 1);
            cx.st.seen(fnv(&file));
            match view { Some(v) => acked = v.len(), None => break }
        }
        Ok(())
    })();
    let _ = std::fs::remove_dir_all(&dir);
    res
}
pub fn worker_pk(seed: u64, i: usize) -> Pk { light(&mut Rng::of(&[seed, i as u64, 77])) }
/// worker insert PATH SEED FROM COUNT: inserts, reporting each acknowledged number of packets
pub fn worker_insert(a: &[String]) {
    let (path, seed, from, count): (&str, u64, usize, usize) = (&a[0], a[1].parse().unwrap(), a[2].parse().unwrap(), a[3].parse().unwrap());
    let out = std::io::stdout();
    let mut out = out.lock();
    let t0 = std::time::Instant::now();
    match FileStorage::new(path, Some(std::time::Duration::from_secs(20)), None) {
        Err(e) => { let _ = writeln!(out, "open fails: {e}"); }
        Ok(mut w) => for i in from..from + count {
            if t0.elapsed().as_secs() > 60 { break; }
            if let Err(e) = w.insert(worker_pk(seed, i).packet()) { let _ = writeln!(out, "insert {i} fails: {e}"); return; }
            if writeln!(out, "A {}", i + 1).and_then(|_| out.flush()).is_err() { return; }
        },
    }
}

// ---------------------------------------------------------------- C14
fn rnd_fault(r: &mut Rng) -> Fault {
    match r.below(8) {
        0..=3 => Fault::Fail(*r.pick(&[ErrorKind::Other, ErrorKind::StorageFull, ErrorKind::PermissionDenied, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::TimedOut])),
        4..=6 => Fault::ShortThenFail(*r.pick(&[1, 4, 8, 16, 20, 29, 100, 4000, 4019]) + r.below(3)),
        _ => Fault::Short(r.range(1, 4100)),
    }
}
fn c14(cx: &mut Cx) -> Result<(), String> {
    let mut r = cx.r.clone();
    let san = cx.tier == Tier::San;
    let n = if san { r.below(3) } else { match r.below(8) { 0..=2 => r.below(5), 3..=5 => r.range(497, 502), 6 => r.range(998, 1001), _ => r.below(60) } };
    let (base, prior) = prefilled(&mut r, n)?;
    let mut file = base.image();
    // what an interrupted writing may have left behind the last packet
    if n % SLOT_CAP != 0 && r.chance(45) { file.extend(stale_tail(&mut r)); base.inner.lock().unwrap().data = file.clone(); cx.st.add("storages_with_a_stale_tail", 1) }
    let pk = light(&mut r);
    // number of operations of a clean insert
    let s = MemStore::with(file.clone());
    let mut w = open_w(&s)?.map_err(|e| ctx("opening for writing", e))?;
    s.arm(vec![]);
    insert(&mut w, &pk)?.map_err(|e| ctx("insert", e))?;
    let ops = s.ops();
    drop(w);
    // 1. one fault at every operation of one insert
    let kinds: Vec<Fault> = if san { vec![rnd_fault(&mut r)] } else { vec![Fault::Fail(ErrorKind::Other), rnd_fault(&mut r), Fault::ShortThenFail(r.range(1, 60)), Fault::Short(r.range(1, 60))] };
    for f in kinds {
        for op in 0..ops {
            run_faults(&file, &prior, vec![(op, f)], 1, None, &mut r, cx.st)?;
            cx.st.add("single_fault_points", 1);
        }
    }
    // 2. several faults over several inserts, same writer
    for _ in 0..if san { 1 } else { 3 } {
        let k = r.range(2, 6);
        let m = r.range(1, 4);
        let plan: Vec<(usize, Fault)> = (0..m).map(|_| (r.below(ops * k + 4), rnd_fault(&mut r))).collect();
        run_faults(&file, &prior, plan, k, None, &mut r, cx.st)?;
        cx.st.add("fault_sequences", 1);
    }
    // 3. no space left at every kind of place
    let len = file.len();
    for _ in 0..if san { 1 } else { 3 } {
        let k = r.range(1, 4);
        let cap = len + *r.pick(&[0, 1, 10, 28, 29, 30, 60, SLOT_LEN - 1, SLOT_LEN, SLOT_LEN + 1]) + r.below(80);
        run_faults(&file, &prior, vec![], k, Some(cap), &mut r, cx.st)?;
        cx.st.add("full_media", 1);
    }
    // 4. errors of the medium while opening and reloading
    for what in 0..3 {
        let s = MemStore::with(file.clone());
        let mut rd = if what == 2 { let k = r.below(n + 1); let part = MemStore::with(enc_storage(&prior[..k])); let x = open_r(&part)?.map_err(|e| ctx("opening", e))?; part.inner.lock().unwrap().data = file.clone(); Some((x, part, k)) } else { None };
        let st = rd.as_ref().map(|x| x.1.clone()).unwrap_or(s.clone());
        // how many operations it takes when nothing fails
        let total = {
            let t = MemStore::with(file.clone());
            let mut twin = if let Some((_, _, k)) = &rd { let part = MemStore::with(enc_storage(&prior[..*k])); let x = open_r(&part)?.map_err(|e| ctx("opening", e))?; part.inner.lock().unwrap().data = file.clone(); Some((x, part)) } else { None };
            let t = twin.as_ref().map(|x| x.1.clone()).unwrap_or(t);
            t.inner.lock().unwrap().reads_fault = true;
            t.arm(vec![]);
            match what { 0 => { open_r(&t)?.map_err(|e| ctx("opening", e))?; } 1 => { open_w(&t)?.map_err(|e| ctx("opening", e))?; } _ => { guard(|| twin.as_mut().unwrap().0.reload())?.map_err(|e| ctx("reload", e))?; } }
            t.ops()
        };
        let mut places: Vec<usize> = (0..total.min(if san { 4 } else { 16 })).collect();
        if total > 16 { for _ in 0..if san { 2 } else { 40 } { places.push(r.below(total)) } places.push(total - 1) }
        for op in places {
            let kind = *r.pick(&[ErrorKind::Other, ErrorKind::TimedOut, ErrorKind::PermissionDenied]);
            st.inner.lock().unwrap().reads_fault = true;
            st.arm(vec![(op, Fault::Fail(kind))]);
            let failed = match what {
                0 => open_r(&st)?.is_err(),
                1 => open_w(&st)?.is_err(),
                _ => { let x = rd.as_mut().unwrap(); let known = x.0.count(); let e = guard(|| x.0.reload())?.is_err(); if e { ensure!(x.0.count() == known, "a failed reload changes the count from {known} to {}", x.0.count()) } e }
            };
            let fired = st.disarm();
            st.inner.lock().unwrap().reads_fault = false;
            if fired == 0 { break; }
            ensure!(failed, "an error of the medium ({kind:?}) at operation {op} of {} a storage of {n} packets is not reported", ["opening for reading", "opening for writing", "reloading"][what]);
            if let Some((x, _, k)) = rd.as_mut() { if r.chance(10) { check_reader(x, &prior[..*k], &mut r, &format!("reader of {k} of {n} packets after a reload that failed at operation {op}"), 2, cx.st)?; } }
            cx.st.add("open_faults_reported", 1);
        }
        if let Some((mut x, _, _)) = rd {
            guard(|| x.reload())?.map_err(|e| ctx("reload after failures of the medium", e))?;
            check_reader(&mut x, &prior, &mut r, "reader reloaded after failures of the medium", 2, cx.st)?;
        }
    }
    cx.st.sample(|| format!("storage of {n}: {ops} operations per insert, each failed in 4 ways; sequences; full medium; failing opens"));
    Ok(())
}
/// Bytes behind the end of a storage: of packets, of slots, of nothing known.
fn stale_tail(r: &mut Rng) -> Vec<u8> {
    let mut t = Vec::new();
    let want = *r.pick(&[1, 29, 300, SLOT_LEN, SLOT_LEN + 3000, 12_000]);
    while t.len() < want {
        match r.below(5) {
            0 => t.extend(light(r).reference().bytes),
            1 => { let k = r.range(1, 600); t.extend((0..k).map(|_| r.next() as u8)) }
            2 => { let k = r.range(1, 5000); t.extend(vec![0; k]) }
            3 => t.extend(enc_slot(&(0..r.range(1, 500)).map(|_| r.range(29, 90) as u64).collect::<Vec<_>>())),
            _ => { let b = light(r).reference().bytes; let k = r.range(1, b.len()); t.extend_from_slice(&b[..k]) }
        }
    }
    if r.coin() { let k = r.range(1, t.len()); t.truncate(k) }
    t
}
fn run_faults(file: &[u8], prior: &[Vec<u8>], plan: Vec<(usize, Fault)>, k: usize, cap: Option<usize>, r: &mut Rng, st: &mut Stats) -> Result<(), String> {
    let s = MemStore::with(file.to_vec());
    let mut w = open_w(&s)?.map_err(|e| ctx("opening for writing", e))?;
    let mut acked = prior.to_vec();
    let desc = format!("storage of {}, faults {plan:?}, capacity {cap:?}", prior.len());
    s.arm(plan.clone());
    s.inner.lock().unwrap().capacity = cap;
    let mut failures = 0;
    let mut trace = String::new();
    for i in 0..k {
        let p = light(r);
        let res = insert(&mut w, &p).map_err(|e| format!("{desc}: {e}"))?;
        let failing = s.inner.lock().unwrap().errors_returned;
        s.inner.lock().unwrap().errors_returned = 0;
        match res {
            Ok(()) => { ensure!(failing == 0, "{desc}: insert {i} succeeds although the medium reported {failing} errors"); acked.push(p.reference().bytes); trace.push('+') }
            Err(e) => { ensure!(failing > 0, "{desc}: insert {i} fails without any error of the medium: {e}"); failures += 1; trace.push('-') }
        }
        // previously inserted packets stay recoverable
        scan_finds(&s.image(), &acked, &format!("{desc}, history {trace}"))?;
        match open_r(&MemStore::with(s.image()))? {
            Ok(mut rd) => {
                let c = rd.count();
                ensure!(c == acked.len() || (c == acked.len() + 1 && trace.ends_with('-')), "{desc}, history {trace}: reader counts {c}, {} are acknowledged", acked.len());
                let l = list(&mut rd, c + 5);
                same(&l[..acked.len().min(l.len())], &acked, &format!("{desc}, history {trace}"))?;
            }
            Err(brec::Error::DamagedSlot(_)) if trace.ends_with('-') => st.add("damaged_until_repaired", 1),
            Err(e) => return Err(format!("{desc}, history {trace}: opening fails: {e}")),
        }
    }
    s.disarm();
    s.inner.lock().unwrap().capacity = None;
    let m = if r.chance(2) { 503 } else { r.range(1, 4) };
    for _ in 0..m {
        let p = light(r);
        insert(&mut w, &p)?.map_err(|e| format!("{desc}, history {trace}: insert after the medium works again fails: {e}"))?;
        acked.push(p.reference().bytes);
    }
    let what = format!("{desc}, history {trace}, then {m} inserts");
    let mut rd = open_r(&s)?.map_err(|e| format!("{what}: opening fails: {e}"))?;
    check_reader(&mut rd, &acked, r, &what, 3, st)?;
    scan_finds(&s.image(), &acked, &what)?;
    // a later writer continues
    let mut w2 = open_w(&s)?.map_err(|e| format!("{what}: reopening for writing fails: {e}"))?;
    let p = light(r);
    insert(&mut w2, &p)?.map_err(|e| format!("{what}: insert by a later writer fails: {e}"))?;
    acked.push(p.reference().bytes);
    let mut rd = open_r(&s)?.map_err(|e| format!("{what} and one by a later writer: opening fails: {e}"))?;
    check_reader(&mut rd, &acked, r, &format!("{what} and one by a later writer"), 1, st)?;
    st.add("failed_inserts", failures);
    st.add("histories", 1);
    if failures > 0 { st.seen(fnv(desc.as_bytes()) ^ fnv(trace.as_bytes())) }
    Ok(())
}

// ---------------------------------------------------------------- C15
fn c15(cx: &mut Cx) -> Result<(), String> {
    let mut r = cx.r.clone();
    let san = cx.tier == Tier::San;
    let n = if san { r.range(1, 4) } else { match r.below(10) { 0..=4 => r.range(1, 8), 5 => r.range(498, 503), 6 => r.range(998, 1003), _ => r.range(1, 60) } };
    let mut pks: Vec<Pk> = Vec::new();
    while pks.len() < n { let p = light(&mut r); if p.reference().checked { pks.push(p) } }
    let refs: Vec<Vec<u8>> = pks.iter().map(|p| p.reference().bytes).collect();
    let s = MemStore::new();
    if r.coin() { let mut w = open_w(&s)?.map_err(|e| ctx("opening", e))?; for p in &pks { insert(&mut w, p)?.map_err(|e| ctx("insert", e))? } } else { let b = enc_storage(&refs); s.inner.lock().unwrap().data = b }
    let clean = s.image();
    // where things are
    let mut slots = Vec::new();
    let mut spans = Vec::new();
    let mut at = 0;
    for c in refs.chunks(SLOT_CAP) { slots.push(at); at += SLOT_LEN; for p in c { spans.push((at, at + p.len())); at += p.len() } }
    if clean.len() == at + SLOT_LEN { slots.push(at) }
    ensure!(clean.len() == at || clean.len() == at + SLOT_LEN, "storage of {n} packets has {} bytes, {at} expected", clean.len());
    // 1. slot metadata
    let judge_slot = |d: Vec<u8>, what: &str, st: &mut Stats| -> Result<(), String> {
        if d == clean { return Ok(()); }
        let s = MemStore::with(d);
        let before = fnv(&s.image());
        let a = open_r(&s).map_err(|e| format!("{what}: {e}"))?;
        ensure!(a.is_err(), "{what} in a storage of {n} packets: opening for reading succeeds and shows {} packets", a.map(|x| x.count()).unwrap_or(0));
        let b = open_w(&s).map_err(|e| format!("{what}: {e}"))?;
        ensure!(b.is_err(), "{what} in a storage of {n} packets: opening for writing succeeds");
        ensure!(fnv(&s.image()) == before, "{what}: the failed opening modified the file");
        st.add("slot_damages_refused", 1);
        Ok(())
    };
    if !san && (cx.idx % 150 == 3 || cx.tier == Tier::Thorough && cx.idx % 60 == 3) && clean.len() < 20_000 {
        let base = *r.pick(&slots);
        for bit in 0..SLOT_LEN * 8 { let mut d = clean.clone(); d[base + bit / 8] ^= 1 << (bit % 8); judge_slot(d, &format!("bit {} of byte {} of the slot at {base} flipped", bit % 8, bit / 8), cx.st)?; }
        cx.st.add("exhaustive_slot_bit_flips", 1);
    }
    for _ in 0..if san { 4 } else { 30 } {
        let base = *r.pick(&slots);
        let used = ((n - 500 * slots.iter().position(|x| *x == base).unwrap().min(n / 500)).min(500)).max(1);
        let mut d = clean.clone();
        let (lo, hi) = match r.below(6) { 0 => (0, 8), 1 => (8, 16), 2 => (16, 16 + 8 * used), 3 => (SLOT_LEN - 4, SLOT_LEN), 4 => (16 + 8 * (used - 1), (16 + 8 * (used + 1)).min(SLOT_LEN - 4)), _ => (0, SLOT_LEN) };
        let k = base + r.range(lo, hi - 1);
        let e = |r: &mut Rng, n: usize| (k + r.range(1, n)).min(base + SLOT_LEN);
        let what = match r.below(8) {
            0 | 1 => { d[k] ^= 1 << r.below(8); "bit flip" }
            2 => { let e = e(&mut r, 8); for x in &mut d[k..e] { *x = r.next() as u8 } "burst" }
            3 => { let e = e(&mut r, 600); d[k..e].fill(0); "zeroed range" }
            4 => { d[base..base + SLOT_LEN].fill(*r.pick(&[0, 0xFF])); "slot overwritten" }
            5 => { let x = base + 16 + 8 * r.below(used); let v = *r.pick(&[0u64, 1, u64::MAX, 1 << 40, 29]); d[x..x + 8].copy_from_slice(&v.to_le_bytes()); "length replaced" }
            6 => { let v = *r.pick(&[0u64, 1, 499, 501, 1000, u64::MAX, 1 << 60]); d[base + 8..base + 16].copy_from_slice(&v.to_le_bytes()); if r.coin() { let c = crc32(&d[base + 8..base + SLOT_LEN - 4]); d[base + SLOT_LEN - 4..base + SLOT_LEN].copy_from_slice(&c.to_le_bytes()) } "capacity replaced" }
            _ => { let (a, b) = (base + 16 + 8 * r.below(used), base + 16 + 8 * r.below(500)); for i in 0..8 { d.swap(a + i, b + i) } "lengths swapped" }
        };
        cx.st.seen(fnv(&d[base..base + SLOT_LEN]));
        judge_slot(d, &format!("{what} at byte {} of the slot at {base}", k - base), cx.st)?;
    }
    // 2. damage inside packets
    for _ in 0..if san { 2 } else if n > 100 { 3 } else { 14 } {
        let m = *r.pick(&[1, 1, 1, 2, 3]);
        let mut hit: Vec<usize> = (0..m).map(|_| match r.below(4) { 0 => 0, 1 => n - 1, _ => r.below(n) }).collect();
        hit.sort(); hit.dedup();
        let mut forged: Vec<usize> = Vec::new();
        let mut d = clean.clone();
        for h in &hit {
            let (a, b) = spans[*h];
            let k = if r.chance(35) { r.range(a, (a + HDR).min(b) - 1) } else { r.range(a, b - 1) };
            match r.below(6) {
                0 | 1 => d[k] ^= 1 << r.below(8),
                2 => { let e = (k + r.range(1, 20)).min(b); for x in &mut d[k..e] { *x = r.next() as u8 } }
                3 => d[a..b].fill(0),
                // a valid header of another size: must not reach into the neighbours
                4 => { forged.push(*h); let h = enc_header(r.below(400) as u64, r.below(100) as u64, r.coin()); let e = (a + HDR).min(b); d[a..e].copy_from_slice(&h[..e - a]) }
                _ => { let e = (k + r.range(1, 60)).min(b); d[k..e].fill(0xA7) }
            }
        }
        judge_packets(&d, &refs, &|i| if forged.contains(&i) { Bad::Forged } else if hit.contains(&i) { Bad::Yes } else { Bad::No }, &format!("packets {hit:?} of {n} damaged"), &mut r, cx.st, true)?;
        cx.st.add("packet_damages_isolated", 1);
        cx.st.seen(fnv(&d));
    }
    // 3. truncation
    for _ in 0..if san { 2 } else if n > 100 { 3 } else { 14 } {
        let cut = match r.below(4) { 0 => { let (a, b) = spans[r.below(n)]; r.range(a, b) } 1 => { let b = *r.pick(&slots); r.range(b, (b + SLOT_LEN).min(clean.len())) } 2 => clean.len() - 1, _ => r.below(clean.len()) };
        let d = clean[..cut].to_vec();
        judge_packets(&d, &refs, &|i| if spans[i].1 > cut { Bad::Yes } else { Bad::No }, &format!("storage of {n} packets cut at {cut} of {}", clean.len()), &mut r, cx.st, slots.iter().all(|b| b + SLOT_LEN <= cut))?;
        cx.st.add("truncations", 1);
        cx.st.seen(cut as u64 ^ fnv(&d));
    }
    cx.st.sample(|| format!("storage of {n} packets ({} slots, {} bytes): slot damage, packet damage, truncation", slots.len(), clean.len()));
    Ok(())
}
#[derive(PartialEq, Clone, Copy)]
/// Forged: a header with a valid checksum was put in its place; the position may then give anything.
enum Bad { No, Yes, Forged }
/// Every packet but the damaged ones is readable at its index; nothing else appears anywhere.
fn judge_packets(d: &[u8], refs: &[Vec<u8>], bad: &dyn Fn(usize) -> Bad, what: &str, r: &mut Rng, st: &mut Stats, whole: bool) -> Result<(), String> {
    let s = MemStore::with(d.to_vec());
    let mut rd = match open_r(&s).map_err(|e| format!("{what}: {e}"))? {
        Ok(rd) => rd,
        Err(e) => { ensure!(!whole, "{what}: opening fails: {e}"); st.add("opening_refused", 1); return Ok(()); }
    };
    let n = refs.len();
    let res = guard(|| -> Result<(), String> {
        let c = rd.count();
        ensure!(if whole { c == n } else { c <= n }, "{what}: count is {c}");
        let pos = |from: usize, got: Vec<Result<Vec<u8>, String>>, how: &str| -> Result<(), String> {
            ensure!(got.len() == c.saturating_sub(from), "{what}: {how} gives {} results for {} packets", got.len(), c.saturating_sub(from));
            for (i, g) in got.into_iter().enumerate() {
                let i = from + i;
                match g { Ok(b) => ensure!(b == refs[i] || bad(i) == Bad::Forged, "{what}: {how} delivers at {i} what was not stored there: {} instead of {}", hex(&b), hex(&refs[i])), Err(e) => ensure!(bad(i) != Bad::No || !whole, "{what}: {how} fails at the undamaged packet {i}: {e}") }
            }
            Ok(())
        };
        let m = |p: Result<Packet, brec::Error>| p.map(|p| enc_packet(&p)).map_err(|e| e.to_string());
        pos(0, rd.iter().take(c + 50).map(m).collect(), "iteration")?;
        pos(0, rd.filtered().take(c + 50).map(m).collect(), "filtered iteration")?;
        pos(0, rd.range(0, c).take(c + 50).map(m).collect(), "range")?;
        pos(0, rd.range_filtered(0, usize::MAX).take(c + 50).map(m).collect(), "range_filtered")?;
        for _ in 0..4 { let k = r.below(c.max(1)); if let Ok(it) = rd.seek(k) { let v = it.take(c + 50).map(m).collect(); pos(k, v, "iteration from an index")?; } else { ensure!(c == 0, "{what}: seek({k}) fails") } }
        let idx: Vec<usize> = if n <= 60 { (0..n).collect() } else { (0..40).map(|_| r.below(n)).chain((0..n).filter(|i| bad(*i) != Bad::No || (*i > 0 && bad(*i - 1) != Bad::No)).take(40)).collect() };
        for i in idx { match rd.nth(i) { Ok(Some(p)) => { let b = enc_packet(&p); ensure!(b == refs[i] || bad(i) == Bad::Forged, "{what}: nth({i}) delivers what was not stored there: {} instead of {}", hex(&b), hex(&refs[i])); } Ok(None) => ensure!(i >= c, "{what}: nth({i}) gives nothing"), Err(e) => ensure!(bad(i) != Bad::No || !whole, "{what}: nth({i}) of an undamaged packet fails: {e}") } st.add("lookups", 1); }
        st.add("packets_judged", 4 * c as u64);
        Ok(())
    }).map_err(|p| format!("{what}: {p}"))?;
    res?;
    // opening for writing is no worse
    let _ = open_w(&s).map_err(|e| format!("{what}: {e}"))?;
    Ok(())
}

// ---------------------------------------------------------------- C24
struct Watch { mirror: MemStore, readers: Vec<(R, usize)>, best: usize, acked: usize, model: Vec<Vec<u8>>, err: Option<String>, r: Rng, looks: u64, damaged: u64, partial: u64, mid: u64, pct: usize, sigs: Vec<u64> }
impl Watch {
    fn look(&mut self, data: &[u8], quiet: bool) -> Result<(), String> {
        if !quiet && !self.r.chance(self.pct) { return Ok(()); }
        { let mut i = self.mirror.inner.lock().unwrap(); i.data.clear(); i.data.extend_from_slice(data); }
        let at = if quiet { "between inserts" } else { "inside an insert" };
        self.looks += 1;
        self.sigs.push(data.len() as u64 ^ fnv(&data[data.len().saturating_sub(64)..]));
        let judge = |rd: &mut R, seen: usize, acked: usize, model: &[Vec<u8>], how: &str, r: &mut Rng| -> Result<usize, String> {
            let c = rd.count();
            ensure!(c >= acked, "{at}: {how} sees {c} packets, {acked} inserts were completed");
            ensure!(c >= seen, "{at}: {how} saw {seen} packets before, now {c}");
            ensure!(c <= model.len(), "{at}: {how} counts {c} packets, only {} inserts were begun", model.len());
            // all of a small storage, the end of a large one
            if c <= 60 || r.chance(4) { same(&list(rd, c + 5), &model[..c], &format!("{at}: {how}"))? }
            else { let k = c - r.range(1, 12); let it = rd.seek(k).map_err(|e| format!("{at}: {how}: seek({k}) of {c}: {e}"))?; let v: Vec<_> = it.take(20).map(|p| p.map(|p| enc_packet(&p)).map_err(|e| e.to_string())).collect(); same(&v, &model[k..c], &format!("{at}: {how}, from {k}"))? }
            if c > 0 { let k = if r.coin() { c - 1 } else { r.below(c) }; match rd.nth(k) { Ok(Some(p)) => ensure!(enc_packet(&p) == model[k], "{at}: {how}: nth({k}) is another packet"), Ok(None) => return Err(format!("{at}: {how}: nth({k}) of {c} gives nothing")), Err(e) => return Err(format!("{at}: {how}: nth({k}) of {c} fails: {e}")) } }
            Ok(c)
        };
        let (acked, best) = (self.acked, self.best);
        match guard(|| R::new(self.mirror.handle()))? {
            Ok(mut rd) => { let c = guard(|| judge(&mut rd, best, acked, &self.model, "a fresh reader", &mut self.r))??; self.best = c; if c > acked { self.mid += 1 } if self.readers.len() < 3 && self.r.chance(10) { self.readers.push((rd, c)) } }
            Err(brec::Error::DamagedSlot(_)) if !quiet => self.damaged += 1,
            Err(e) => return Err(format!("{at}: opening fails: {e}")),
        }
        for k in 0..self.readers.len() {
            if !self.r.chance(40) { continue; }
            let (rd, seen) = &mut self.readers[k];
            match guard(|| rd.reload())? {
                Ok(n) => { let c = guard(|| judge(rd, *seen, acked, &self.model, "a reloaded reader", &mut self.r))??; ensure!(n == c - *seen, "{at}: reload returns {n}, count went from {seen} to {c}"); *seen = c; }
                Err(brec::Error::DamagedSlot(_)) if !quiet => {
                    // what it knows stays readable
                    let c = rd.count();
                    ensure!(c == *seen, "{at}: failed reload changes the count from {seen} to {c}");
                    if c > 0 { let k = self.r.below(c); let p = guard(|| rd.nth(k))?; ensure!(matches!(p, Ok(Some(ref p)) if enc_packet(p) == self.model[k]), "{at}: packet {k} seen before cannot be read after a failed reload"); }
                    self.partial += 1;
                }
                Err(e) => return Err(format!("{at}: reload fails: {e}")),
            }
        }
        Ok(())
    }
}
fn c24(cx: &mut Cx) -> Result<(), String> {
    if cx.tier != Tier::San && cx.idx % 60 == 11 { return c24_threads(cx, 400); }
    if cx.tier == Tier::San && cx.idx % 2 == 1 && !cfg!(miri) { return c24_threads(cx, 60); }
    let mut r = cx.r.clone();
    let san = cx.tier == Tier::San;
    let n = if san { r.below(3) } else { match r.below(8) { 0..=2 => r.below(4), 3..=5 => r.range(494, 500), 6 => r.range(995, 1000), _ => r.below(60) } };
    let (s, prior) = prefilled(&mut r, n)?;
    let watch = Arc::new(Mutex::new(Watch { mirror: MemStore::new(), readers: vec![], best: n, acked: n, model: prior, err: None, r: Rng::new(r.next()), looks: 0, damaged: 0, partial: 0, mid: 0, pct: if n > 200 { 60 } else { 100 }, sigs: vec![] }));
    let h = watch.clone();
    s.inner.lock().unwrap().hook = Some(Box::new(move |data, op| {
        if matches!(op, Op::Read) { return; }
        let mut w = h.lock().unwrap();
        if w.err.is_none() { if let Err(e) = w.look(data, false) { w.err = Some(e) } }
    }));
    let mut w = open_w(&s)?.map_err(|e| ctx("opening for writing", e))?;
    let k = if san { 3 } else { r.range(2, 12) };
    let torn = r.chance(60);
    for i in 0..k {
        let p = light(&mut r);
        watch.lock().unwrap().model.push(p.reference().bytes);
        // torn writes: the medium takes them in pieces, readers look in between
        s.arm(if torn { (0..40).map(|o| (o, Fault::Short(*r.pick(&[1, 8, 29, 100, 2000, 5000])))).filter(|_| true).collect() } else { vec![] });
        insert(&mut w, &p)?.map_err(|e| format!("insert {i}: {e}"))?;
        let data = s.image();
        let mut x = watch.lock().unwrap();
        if let Some(e) = x.err.take() { return Err(format!("storage of {n}, insert {i} (torn writes: {torn}): {e}")); }
        x.acked += 1;
        x.look(&data, true).map_err(|e| format!("storage of {n}, after insert {i} (torn writes: {torn}): {e}"))?;
    }
    s.inner.lock().unwrap().hook = None;
    let x = watch.lock().unwrap();
    cx.st.add("looks_inside_inserts", x.looks);
    cx.st.add("looks_seeing_the_inflight_packet", x.mid);
    cx.st.add("damaged_slot_inside_insert", x.damaged);
    cx.st.add("failed_reloads_judged", x.partial);
    cx.st.add("inserts", k as u64);
    for g in &x.sigs { cx.st.seen(*g) }
    cx.st.sample(|| format!("storage of {n}, {k} inserts (torn writes: {torn}), {} looks inside, {} persistent readers", x.looks, x.readers.len()));
    Ok(())
}
/// Real file, real threads: one writer, several readers.
fn c24_threads(cx: &mut Cx, k: usize) -> Result<(), String> {
    use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
    let mut r = cx.r.clone();
    let dir = scratch(cx, "c24")?;
    let path = dir.join("s.bin");
    let seed = r.next();
    let start = if cx.tier == Tier::San { 0 } else { *r.pick(&[0, 400, 490]) };
    let model: Vec<Vec<u8>> = (0..start + k).map(|i| worker_pk(seed, i).reference().bytes).collect();
    std::fs::write(&path, enc_storage(&model[..start])).map_err(|e| e.to_string())?;
    let acked = AtomicUsize::new(start);
    let begun = AtomicUsize::new(start);
    let done = AtomicBool::new(false);
    let res: Result<(u64, u64), String> = std::thread::scope(|sc| {
        let (acked, begun, done, path, model) = (&acked, &begun, &done, &path, &model);
        let mut rs: Vec<Rng> = (0..3).map(|_| Rng::new(r.next())).collect();
        let hs: Vec<_> = rs.drain(..).map(|mut r| sc.spawn(move || -> Result<(u64, u64), String> {
            let open = || std::fs::OpenOptions::new().read(true).write(true).open(path).map_err(|e| e.to_string());
            let (mut looks, mut seen) = (0u64, 0u64);
            let mut keep: Option<(Reader<'static, std::fs::File>, usize)> = None;
            while !done.load(Ordering::SeqCst) {
                let low = acked.load(Ordering::SeqCst);
                let mut rd: Reader<'static, std::fs::File>;
                let mut known = 0;
                if r.coin() && keep.is_some() {
                    let (x, s) = keep.take().unwrap();
                    rd = x; known = s;
                    match guard(|| rd.reload())? { Ok(_) => {} Err(brec::Error::DamagedSlot(_)) => { keep = Some((rd, known)); continue } Err(e) => return Err(format!("reload beside a writer: {e}")) }
                } else {
                    let f = open()?;
                    match guard(|| Reader::new(f))? { Ok(x) => rd = x, Err(brec::Error::DamagedSlot(_)) => continue, Err(e) => return Err(format!("opening beside a writer: {e}")) }
                }
                let c = rd.count();
                let high = begun.load(Ordering::SeqCst);
                ensure!(c >= low && c >= known && c <= high, "a reader beside a writer sees {c} packets: {low} acknowledged before, {known} seen before, {high} begun");
                let k = c.saturating_sub(r.range(1, 30));
                if c > 0 { let it = rd.seek(k).map_err(|e| format!("seek({k}) of {c}: {e}"))?; let v: Vec<_> = it.take(40).map(|p| p.map(|p| enc_packet(&p)).map_err(|e| e.to_string())).collect(); same(&v, &model[k..c], "a reader beside a writer")?; seen += v.len() as u64; }
                looks += 1;
                keep = Some((rd, c));
            }
            Ok((looks, seen))
        })).collect();
        let wres: Result<(), String> = (|| {
            let mut w: FileStorage<'static> = guard(|| FileStorage::new(path, None, None))?.map_err(|e| e.to_string())?;
            for i in start..start + k {
                let p = worker_pk(seed, i).packet();
                begun.store(i + 1, Ordering::SeqCst);
                guard(|| w.insert(p))?.map_err(|e| e.to_string())?;
                acked.store(i + 1, Ordering::SeqCst);
                if i % 16 == 0 { std::thread::yield_now() }
            }
            Ok(())
        })();
        done.store(true, Ordering::SeqCst);
        let mut t = (0, 0);
        for h in hs { let x = h.join().map_err(|_| "reader thread died".to_string())??; t.0 += x.0; t.1 += x.1; }
        wres?;
        Ok(t)
    });
    let _ = std::fs::remove_dir_all(&dir);
    let t = res?;
    cx.st.add("concurrent_looks", t.0);
    cx.st.add("concurrent_packets_compared", t.1);
    cx.st.add("concurrent_runs", 1);
    Ok(())
}
