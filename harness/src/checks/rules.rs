//! C10: filter rules select exactly the packets their predicates accept.
use crate::checks::codec::enc_storage;
use crate::io::*;
use crate::proto::*;
use crate::util::*;
use crate::{Check, Cx};
use std::cell::RefCell;

pub fn checks() -> Vec<Check> { vec![Check { id: "C10", run: c10, quick: 150000, thorough: 3000000, san: 120, jobs: 8, cpu_limit: 60 }] }

#[derive(Clone, Copy, PartialEq, Debug)]
enum K { Blocks, Payload, Whole, Ignored }
const KS: [K; 4] = [K::Blocks, K::Payload, K::Whole, K::Ignored];
fn id(k: K) -> brec::RuleDefId { match k { K::Blocks => brec::RuleDefId::FilterByBlocks, K::Payload => brec::RuleDefId::FilterByPayload, K::Whole => brec::RuleDefId::Filter, K::Ignored => brec::RuleDefId::Ignored } }
thread_local! {
    /// what predicates were shown: (kind, fingerprint, salt of the predicate)
    static SHOWN: RefCell<Vec<(u8, u64, u64)>> = const { RefCell::new(Vec::new()) };
}
fn shown(k: K, h: u64, salt: u64) -> bool { SHOWN.with(|s| s.borrow_mut().push((k as u8, h, salt))); verdict(h, salt) }
fn take_shown() -> Vec<(u8, u64, u64)> { SHOWN.with(|s| std::mem::take(&mut *s.borrow_mut())) }
fn verdict(h: u64, salt: u64) -> bool { match salt % 5 { 0 => true, 1 => false, _ => (h ^ salt).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 62 != 0 } }
fn h_blocks<'a>(it: impl Iterator<Item = (usize, Vec<u8>)> + 'a) -> u64 { let mut h = 77u64; for (k, b) in it { h = h.rotate_left(9) ^ fnv(&b) ^ (k as u64).wrapping_mul(0xABCD_EF01); h = h.wrapping_mul(0x2545_F491_4F6C_DD1D); } h }
const ST: u64 = 7;
fn st_blocks(b: &[BlockReferred<'_>]) -> bool { shown(K::Blocks, h_blocks(b.iter().map(view_kind_body)), ST) }
fn st_payload(b: &[u8]) -> bool { shown(K::Payload, fnv(b), ST) }
fn st_whole(p: &Packet) -> bool { shown(K::Whole, fnv(&enc_packet(p)), ST) }
fn st_ignored(b: &[u8]) { SHOWN.with(|s| s.borrow_mut().push((3, b.len() as u64, ST))) }
fn make<'a>(k: K, salt: u64, stat: bool) -> Rule<'a> {
    match (k, stat) {
        (K::Blocks, true) => Rule::FilterByBlocks(RuleFnDef::Static(st_blocks)),
        (K::Payload, true) => Rule::FilterByPayload(RuleFnDef::Static(st_payload)),
        (K::Whole, true) => Rule::Filter(RuleFnDef::Static(st_whole)),
        (K::Ignored, true) => Rule::Ignored(RuleFnDef::Static(st_ignored)),
        (K::Blocks, false) => Rule::FilterByBlocks(RuleFnDef::Dynamic(Box::new(move |b: &[BlockReferred<'_>]| shown(K::Blocks, h_blocks(b.iter().map(view_kind_body)), salt)))),
        (K::Payload, false) => Rule::FilterByPayload(RuleFnDef::Dynamic(Box::new(move |b: &[u8]| shown(K::Payload, fnv(b), salt)))),
        (K::Whole, false) => Rule::Filter(RuleFnDef::Dynamic(Box::new(move |p: &Packet| shown(K::Whole, fnv(&enc_packet(p)), salt)))),
        (K::Ignored, false) => Rule::Ignored(RuleFnDef::Dynamic(Box::new(move |b: &[u8]| SHOWN.with(|s| s.borrow_mut().push((3, b.len() as u64, salt)))))),
    }
}
struct Truth { bytes: Vec<u8>, hb: u64, hp: Option<u64>, hw: u64 }
fn truth(p: &Pk) -> Truth { let bytes = p.reference().bytes; Truth { hb: h_blocks(p.blocks.iter().map(|b| (block_kind(b), block_body(b)))), hp: p.payload.as_ref().map(|x| fnv(&payload_body(x))), hw: fnv(&bytes), bytes } }
#[derive(Default, Clone)]
struct Installed([Option<u64>; 4]);
impl Installed {
    fn accepts(&self, t: &Truth) -> bool { self.0[0].map(|s| verdict(t.hb, s)).unwrap_or(true) && self.0[1].and_then(|s| t.hp.map(|h| verdict(h, s))).unwrap_or(true) && self.0[2].map(|s| verdict(t.hw, s)).unwrap_or(true) }
    fn names(&self) -> String { KS.iter().filter(|k| self.0[**k as usize].is_some()).map(|k| format!("{k:?}")).collect::<Vec<_>>().join("+") }
    /// everything shown while one packet was judged belongs to that packet and to installed predicates
    fn judge_shown(&self, t: &Truth, what: &str) -> Result<u64, String> {
        let mut n = 0;
        for (k, h, salt) in take_shown() {
            let k = KS[k as usize];
            ensure!(self.0[k as usize] == Some(salt), "{what}: a predicate of kind {k:?} that is not installed was asked (installed: {})", self.names());
            match k {
                K::Blocks => ensure!(h == t.hb, "{what}: the predicate on blocks was shown something else than the packet's blocks"),
                K::Payload => ensure!(Some(h) == t.hp, "{what}: the predicate on payloads was shown something else than the packet's payload body"),
                K::Whole => ensure!(h == t.hw, "{what}: the predicate on packets was shown another packet"),
                K::Ignored => {}
            }
            n += 1;
        }
        Ok(n)
    }
}
/// Random changes of the rule set, with the refusals they must meet.
fn mutate<'a>(r: &mut Rng, inst: &mut Installed, add: &mut dyn FnMut(Rule<'a>) -> Result<(), brec::Error>, remove: &mut dyn FnMut(brec::RuleDefId), st: &mut Stats) -> Result<(), String> {
    for _ in 0..r.range(1, 3) {
        let k = *r.pick(&KS);
        if r.chance(35) {
            remove(id(k));
            inst.0[k as usize] = None;
            st.add("rules_removed", 1);
        } else {
            let stat = r.chance(30);
            let salt = if stat { ST } else { r.next() | 8 };
            match add(make(k, salt, stat)) {
                Ok(()) => { ensure!(inst.0[k as usize].is_none(), "a second rule of kind {k:?} was accepted"); inst.0[k as usize] = Some(salt); st.add("rules_added", 1) }
                Err(brec::Error::RuleDuplicate) => { ensure!(inst.0[k as usize].is_some(), "a rule of kind {k:?} was refused although none is installed"); st.add("duplicates_refused", 1) }
                Err(e) => return Err(format!("adding a rule fails: {e}")),
            }
        }
    }
    Ok(())
}
fn c10(cx: &mut Cx) -> Result<(), String> {
    let mut r = cx.r.clone();
    let n = *r.pick(&[1, 2, 3, 5, 8, 12]);
    let s = match r.below(25) { 0 => Shape::BIG, 1..=5 => Shape::STD, _ => Shape::SMALL };
    let pks: Vec<Pk> = (0..n).map(|_| rnd_pk(&mut r, &s)).collect();
    let ts: Vec<Truth> = pks.iter().map(truth).collect();
    take_shown();
    let st = &mut *cx.st;
    match r.below(3) {
        0 => stream(&mut r, &ts, st)?,
        1 => single(&mut r, &ts, st)?,
        _ => storage(&mut r, &ts, st)?,
    }
    st.seen(fnv(&ts.iter().flat_map(|t| t.hw.to_le_bytes()).collect::<Vec<_>>()));
    Ok(())
}
fn stream(r: &mut Rng, ts: &[Truth], st: &mut Stats) -> Result<(), String> {
    let mut bytes = Vec::new();
    for t in ts { if r.chance(40) { bytes.extend((0..r.below(60)).map(|_| r.next() as u8 & 0x7F)) } bytes.extend_from_slice(&t.bytes) }
    if r.coin() { bytes.extend((0..r.below(60)).map(|_| r.next() as u8 & 0x7F)) }
    let sp = rnd_split(r, bytes.len());
    let mut src = ChunkSource::new(bytes.clone(), sp);
    let res = guard(|| -> Result<(), String> {
        let mut rd = PacketBufReader::new(&mut src);
        let mut inst = Installed::default();
        let rd = std::cell::RefCell::new(&mut rd);
        mutate(r, &mut inst, &mut |x| rd.borrow_mut().add_rule(x), &mut |i| rd.borrow_mut().remove_rule(i), st)?;
        let mut i = 0;
        let mut calls = 0;
        let often = *r.pick(&[10, 60]);
        loop {
            calls += 1;
            ensure!(calls < 4 * bytes.len() + 300, "reading with rules does not reach the end of data");
            let next = rd.borrow_mut().read();
            match next {
                Ok(brec::NextPacket::NoData) => break,
                Ok(brec::NextPacket::NotFound | brec::NextPacket::NotEnoughData(_)) => continue,
                Err(e) => return Err(format!("packet {i} of {} with rules {}: {e}", ts.len(), inst.names())),
                Ok(x) => {
                    ensure!(i < ts.len(), "more results than packets");
                    let t = &ts[i];
                    let w = format!("streaming reader, packet {i} of {}, rules {}", ts.len(), inst.names());
                    st.add("predicate_calls", inst.judge_shown(t, &w)?);
                    match x {
                        brec::NextPacket::Found(p) => { ensure!(inst.accepts(t), "{w}: delivered although a predicate denies it"); ensure!(enc_packet(&p) == t.bytes, "{w}: delivered changed: {} instead of {}", hex(&enc_packet(&p)), hex(&t.bytes)); st.add("accepted", 1) }
                        _ => { ensure!(!inst.accepts(t), "{w}: skipped although every predicate accepts it"); st.add("denied", 1) }
                    }
                    i += 1;
                    if r.chance(often) { mutate(r, &mut inst, &mut |x| rd.borrow_mut().add_rule(x), &mut |i| rd.borrow_mut().remove_rule(i), st)?; }
                }
            }
        }
        ensure!(i == ts.len(), "streaming reader: {i} results for {} packets", ts.len());
        for (k, _, salt) in take_shown() { ensure!(k == 3 && inst.0[3] == Some(salt), "a predicate was asked although no packet was left"); }
        Ok(())
    })?;
    st.add("stream_histories", 1);
    st.sample(|| format!("stream of {} packets, {} bytes; rules changed between packets", ts.len(), bytes.len()));
    res
}
fn single(r: &mut Rng, ts: &[Truth], st: &mut Stats) -> Result<(), String> {
    let bytes: Vec<u8> = ts.iter().flat_map(|t| t.bytes.clone()).collect();
    let res = guard(|| -> Result<(), String> {
        let rules = std::cell::RefCell::new(brec::RulesDef::<Block, BlockReferred<'static>, Payload, Payload>::default());
        let mut inst = Installed::default();
        let mut c = std::io::Cursor::new(&bytes[..]);
        let mut end = 0u64;
        for (i, t) in ts.iter().enumerate() {
            if r.chance(70) { mutate(r, &mut inst, &mut |x| rules.borrow_mut().add_rule(x), &mut |i| rules.borrow_mut().remove_rule(i), st)?; }
            end += t.bytes.len() as u64;
            let w = format!("filtered read, packet {i} of {}, rules {}", ts.len(), inst.names());
            let got = Packet::filtered(&mut c, &rules.borrow());
            st.add("predicate_calls", inst.judge_shown(t, &w)?);
            match got {
                Ok(brec::LookInStatus::Accepted(_, p)) => { ensure!(inst.accepts(t), "{w}: accepted although a predicate denies it"); ensure!(enc_packet(&p) == t.bytes, "{w}: delivered changed"); st.add("accepted", 1) }
                Ok(brec::LookInStatus::Denied(_)) => { ensure!(!inst.accepts(t), "{w}: denied although every predicate accepts it"); st.add("denied", 1) }
                Ok(brec::LookInStatus::NotEnoughData(_)) => return Err(format!("{w}: not enough data")),
                Err(e) => return Err(format!("{w}: {e}")),
            }
            ensure!(c.position() == end, "{w}: the source stands at {}, the packet ends at {end}", c.position());
        }
        Ok(())
    })?;
    st.add("single_histories", 1);
    res
}
fn storage(r: &mut Rng, ts: &[Truth], st: &mut Stats) -> Result<(), String> {
    // sometimes across a slot boundary: the packets repeated
    let reps = if r.chance(4) { 520 / ts.len() + 1 } else { 1 };
    let ix: Vec<usize> = (0..reps).flat_map(|_| 0..ts.len()).collect();
    let image = |n: usize| enc_storage(&ix[..n].iter().map(|i| ts[*i].bytes.clone()).collect::<Vec<_>>());
    // what the reader knows: all of it, or it grows in steps with reloads in between
    let mut n = if r.coin() { ix.len() } else { r.below(ix.len() + 1) };
    let file = if n == 0 && r.coin() { vec![] } else { image(n) };
    let res = guard(|| -> Result<(), String> {
        let store = MemStore::with(file);
        let rd: Reader<'static, MemStore> = Reader::new(store.handle()).map_err(|e| e.to_string())?;
        let rd = std::cell::RefCell::new(rd);
        let mut inst = Installed::default();
        for step in 0..r.range(2, 6) {
            if step > 0 && n < ix.len() && r.coin() {
                let m = n + r.range(1, ix.len() - n);
                store.inner.lock().unwrap().data = image(m);
                let k = rd.borrow_mut().reload().map_err(|e| format!("reload of a storage of {n}, now {m}: {e}"))?;
                ensure!(k == m - n, "reload of a storage of {n}, now {m}, reports {k}");
                n = m;
                st.add("reloads_with_rules", (0..4).any(|i| inst.0[i].is_some()) as u64);
            }
            mutate(r, &mut inst, &mut |x| rd.borrow_mut().add_rule(x), &mut |i| rd.borrow_mut().remove_rule(i), st)?;
            let w = format!("storage of {n}, step {step}, rules {}", inst.names());
            let all: Vec<usize> = (0..n).filter(|i| inst.accepts(&ts[ix[*i]])).collect();
            let mut rd = rd.borrow_mut();
            // what predicates are shown must be the truth of the next packets, in order
            let judge = |from: usize, got: Vec<(Result<Packet, brec::Error>, Vec<(u8, u64, u64)>)>, want: &[usize], how: &str, st: &mut Stats| -> Result<(), String> {
                let mut at = from;
                let mut outs = 0;
                for (p, sh) in &got {
                    for (k, h, salt) in sh {
                        let k = KS[*k as usize];
                        ensure!(inst.0[k as usize] == Some(*salt), "{w}: {how}: a predicate of kind {k:?} that is not installed was asked");
                        let is = |t: &Truth| match k { K::Blocks => *h == t.hb, K::Payload => Some(*h) == t.hp, K::Whole => *h == t.hw, K::Ignored => true };
                        match (at..n).find(|i| is(&ts[ix[*i]])) { Some(i) => at = i, None => return Err(format!("{w}: {how}: a predicate of kind {k:?} was shown what belongs to no packet from {at} on")) }
                        st.add("predicate_calls", 1);
                    }
                    match p { Ok(p) => { ensure!(outs < want.len(), "{w}: {how}: more packets delivered than the {} accepted", want.len()); let t = &ts[ix[want[outs]]]; ensure!(enc_packet(p) == t.bytes, "{w}: {how}: result {outs} should be packet {}: {} instead of {}", want[outs], hex(&enc_packet(p)), hex(&t.bytes)); outs += 1 } Err(e) => return Err(format!("{w}: {how}: {e}")) }
                }
                ensure!(outs == want.len(), "{w}: {how}: {outs} of {} accepted packets delivered", want.len());
                st.add("accepted", outs as u64);
                Ok(())
            };
            take_shown();
            let got: Vec<_> = rd.filtered().take(n + 5).map(|p| (p, take_shown())).collect();
            judge(0, got, &all, "filtered", st)?;
            take_shown();
            st.add("denied", (n - all.len()) as u64);
            let from = match r.below(4) { 0 => 0, 1 => n, 2 => 500.min(n), _ => r.below(n.max(1)) };
            let len = match r.below(4) { 0 => usize::MAX, 1 => 0, _ => r.below(n + 2) };
            let got: Vec<_> = rd.range_filtered(from, len).take(n + 5).map(|p| (p, take_shown())).collect();
            let want: Vec<usize> = all.iter().copied().filter(|i| *i >= from).take(len).collect();
            judge(from, got, &want, &format!("range_filtered({from}, {len})"), st)?;
            take_shown();
            // reading without filter is not concerned
            let plain: Vec<_> = rd.iter().take(n + 5).map(|p| p.map(|p| fnv(&enc_packet(&p))).ok()).collect();
            ensure!(plain.len() == n && plain.iter().zip(&ix).all(|(a, i)| *a == Some(ts[*i].hw)), "{w}: plain iteration is affected by rules");
            ensure!(take_shown().is_empty(), "{w}: plain iteration asks predicates");
        }
        Ok(())
    })?;
    st.add("storage_histories", 1);
    res
}
