//! C08: a compact workload that passes every codec, view, reader and storage path, sized for the interpreter (Miri)
//! and repeated in bulk under the address sanitizer. The deciding oracle is the instrumentation; results are compared too.
use crate::checks::codec::{expect_reads, BlockRound};
use crate::checks::store::{open_r, open_w};
use crate::io::*;
use crate::proto::*;
use crate::rw::*;
use crate::stream::*;
use crate::util::*;
use crate::{Check, Cx};
use std::io::Cursor;

pub fn checks() -> Vec<Check> { vec![Check { id: "C08", run: c08, quick: 20_000, thorough: 400_000, san: 2000, jobs: 8, cpu_limit: 240 }] }

fn limit() -> usize { if cfg!(miri) { 120 } else { 20_000 } }
fn small_kind(r: &mut Rng) -> usize { loop { let k = r.below(NB); if B_LEN[k] <= limit() { return k } } }
fn tiny(r: &mut Rng) -> Pk {
    let blocks = (0..r.below(3)).map(|_| { let k = small_kind(r); gen_block(k, r) }).collect();
    let payload = if r.coin() { let k = r.below(NP); let n = r.below(24); Some(gen_payload(k, r, n)) } else { None };
    Pk { blocks, payload }
}
struct Views<'a> { d: &'a [u8] }
impl BlockVisitor for Views<'_> {
    type Out = Result<(), String>;
    fn visit<B: BlockSpec>(&mut self) -> Self::Out {
        let d = self.d;
        guard(|| {
            let _ = B::view_body(d, false);
            let _ = B::view_body(d.get(4..).unwrap_or(&[]), true);
            let _ = B::view_to_owned(d);
            let _ = <B as brec::ReadBlockFrom>::read(&mut Cursor::new(d), false);
            let _ = <B as brec::TryReadFrom>::try_read(&mut Cursor::new(d));
            let mut c = d;
            let _ = <B as brec::TryReadFromBuffered>::try_read(&mut c);
        })
    }
}
pub fn c08(cx: &mut Cx) -> Result<(), String> {
    let mut r = cx.r.clone();
    let st = &mut *cx.st;
    match cx.idx % 6 {
        0 => {
            // every declared block in turn, owned and zero-copy, at odd addresses
            let k = (cx.idx / 6) as usize % NB;
            let k = if B_LEN[k] <= limit() { k } else { small_kind(&mut r) };
            let n = visit_block(k, &mut BlockRound { r: &mut r, format: cx.idx % 12 == 0 })?;
            st.add("block_reads", n);
            st.seen(k as u64 ^ 0xB10C);
            st.sample(|| format!("block {}", B_NAME[k]));
        }
        1 => {
            // altered and cut blocks: every prefix, in an allocation of exactly that size
            let k = small_kind(&mut r);
            let e = enc_block(&gen_block(k, &mut r));
            let step = if cfg!(miri) { e.len() / 6 + 1 } else { 1 };
            for n in (0..=e.len()).rev().step_by(step) {
                let v: Box<[u8]> = e[..n].into();
                visit_block(k, &mut Views { d: &v })?;
                let mut v: Box<[u8]> = e.clone().into();
                if n < v.len() { v[n] ^= 1 << r.below(8) }
                visit_block(k, &mut Views { d: &v })?;
                guard(|| { let _ = <BlockReferred as brec::ReadBlockFromSlice>::read_from_slice(&v[..n], false).map(|b| view_kind_body(&b)); })?;
                st.add("damaged_blocks", 2);
            }
            st.seen(fnv(&e));
        }
        2 => {
            // packets: writing and reading methods
            let pk = tiny(&mut r);
            let want = pk.reference().bytes;
            let wm = r.below(WRITERS.len());
            let b = write_by(wm, &pk)?;
            let ms: Vec<Rd> = if cfg!(miri) { vec![*r.pick(&READERS), *r.pick(&READERS)] } else { READERS.to_vec() };
            for m in ms { expect_reads(m, &b, &[want.clone()], &[b.len()], &mut r, WRITERS[wm])?; st.add("write_read_pairs", 1) }
            // cut and damaged
            for _ in 0..if cfg!(miri) { 2 } else { 20 } {
                let mut v: Box<[u8]> = b[..if r.coin() { b.len() } else { r.below(b.len() + 1) }].into();
                if !v.is_empty() { let k = r.below(v.len()); v[k] ^= 1 << r.below(8) }
                let m = *r.pick(&READERS);
                let _ = read_by(m, &v, 8, &mut r)?;
                st.add("damaged_packets", 1);
            }
            st.seen(fnv(&want));
        }
        3 => {
            // filters looking into the views while the reader owns the bytes
            let pks: Vec<Pk> = (0..r.range(1, 2)).map(|_| tiny(&mut r)).collect();
            let mut d = Vec::new();
            for p in &pks { d.extend((0..r.below(10)).map(|_| r.next() as u8 & 0x7F)); d.extend(p.reference().bytes) }
            let split = vec![r.range(5, 40)];
            let res = guard(|| -> Result<(), String> {
                let mut src = ChunkSource::new(d.clone(), split);
                let mut rd = PacketBufReader::new(&mut src);
                let e = |e: brec::Error| e.to_string();
                rd.add_rule(Rule::FilterByBlocks(RuleFnDef::Dynamic(Box::new(|b: &[BlockReferred<'_>]| b.iter().map(|b| view_kind_body(b).1.iter().map(|x| *x as u64).sum::<u64>()).sum::<u64>() % 3 != 0)))).map_err(e)?;
                rd.add_rule(Rule::FilterByPayload(RuleFnDef::Dynamic(Box::new(|b: &[u8]| b.iter().map(|x| *x as u64).sum::<u64>() % 3 != 0)))).map_err(e)?;
                rd.add_rule(Rule::Filter(RuleFnDef::Dynamic(Box::new(|p: &Packet| enc_packet(p).len() % 5 != 0)))).map_err(e)?;
                rd.add_rule(Rule::Ignored(RuleFnDef::Dynamic(Box::new(|b: &[u8]| { let _ = fnv(b); })))).map_err(e)?;
                for _ in 0..4 * d.len() + 200 { if matches!(rd.read(), Ok(brec::NextPacket::NoData)) { return Ok(()) } }
                Err("the end of data is not reached".into())
            })?;
            res?;
            st.add("filtered_streams", 1);
            st.seen(fnv(&d));
        }
        4 => {
            // streaming with foreign bytes and damage
            let mut d = Vec::new();
            for _ in 0..2 { d.extend(rnd_garbage(&mut r, 16).into_iter().take(40)); d.extend(tiny(&mut r).reference().bytes) }
            if r.coin() { let k = r.below(d.len()); d[k] ^= 1 << r.below(8) }
            let len = d.len();
            let split = vec![r.range(8, 64)];
            let o = drive(len, &mut ChunkSource::new(d.clone(), split), 0, None)?;
            ensure!(o.ended, "the end of data is not reached");
            st.add("mixed_streams", 1);
            st.seen(fnv(&d));
        }
        _ => {
            // storage
            if cfg!(miri) && !r.chance(40) { let p = tiny(&mut r); let _ = write_by(2, &p)?; st.seen(fnv(&p.reference().bytes)); return Ok(()); }
            let s = MemStore::new();
            let n = r.range(1, 2);
            let pks: Vec<Pk> = (0..n).map(|_| tiny(&mut r)).collect();
            let mut w = open_w(&s)?.map_err(|e| e.to_string())?;
            for p in &pks { guard(|| w.insert(p.packet()))?.map_err(|e| e.to_string())?; }
            let mut rd = open_r(&s)?.map_err(|e| e.to_string())?;
            guard(|| -> Result<(), String> {
                ensure!(rd.iter().count() == n && rd.range(0, 1).count() == 1, "packets lost");
                ensure!(matches!(rd.nth(n - 1), Ok(Some(_))), "last packet lost");
                Ok(())
            })??;
            st.add("storages", 1);
            st.seen(fnv(&s.image()));
        }
    }
    Ok(())
}
