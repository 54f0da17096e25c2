//! Every writing and every reading method of packets, behind one interface.
use crate::io::*;
use crate::proto::*;
use crate::util::*;
use brec::{ReadFrom, ReadStatus, TryReadFrom, TryReadFromBuffered, WriteMutTo, WriteVectoredMutTo};
use std::io::{BufRead, Cursor, Read};

pub const WRITERS: [&str; 5] = ["write", "write_all", "write_vectored", "write_vectored_all", "slices"];
/// Output of one writing method; the count a method reports must equal what it wrote.
pub fn write_by(m: usize, pk: &Pk) -> Result<Vec<u8>, String> {
    let mut p = pk.packet();
    let mut o = Vec::new();
    let e = |e: std::io::Error| format!("{}: {e}", WRITERS[m]);
    let n = guard(|| Ok::<_, std::io::Error>(match m {
        0 => WriteMutTo::write(&mut p, &mut o)?,
        1 => { WriteMutTo::write_all(&mut p, &mut o)?; o.len() }
        2 => WriteVectoredMutTo::write_vectored(&mut p, &mut o)?,
        3 => { WriteVectoredMutTo::write_vectored_all(&mut p, &mut o)?; o.len() }
        _ => { let s = WriteVectoredMutTo::slices(&mut p)?; for b in s.get() { o.extend_from_slice(&b) } o.len() }
    }))?.map_err(e)?;
    ensure!(n == o.len(), "{}: {} bytes reported, {} written", WRITERS[m], n, o.len());
    Ok(o)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rd { Read, ReadSplit, TrySeek, TrySeekSplit, TryBuf, TryBufRefill, Filtered, FilteredSplit, Stream }
pub const READERS: [Rd; 9] = [Rd::Read, Rd::ReadSplit, Rd::TrySeek, Rd::TrySeekSplit, Rd::FilteredSplit, Rd::TryBuf, Rd::TryBufRefill, Rd::Filtered, Rd::Stream];
#[derive(Clone, Debug, PartialEq)]
pub enum Got { Packet(Vec<u8>), NotEnough, Error(String), End }
/// Reads up to `max` results from the start of `data`; each with the number of bytes consumed so far (None: not observable).
pub fn read_by(m: Rd, data: &[u8], max: usize, r: &mut Rng) -> Result<Vec<(Got, Option<usize>)>, String> {
    let split = rnd_split(r, data.len());
    let intr = rnd_interruptions(r, data.len());
    guard(|| {
        let mut o: Vec<(Got, Option<usize>)> = Vec::new();
        let st = |x: Result<ReadStatus<Packet>, brec::Error>| match x { Ok(ReadStatus::Success(p)) => Got::Packet(enc_packet(&p)), Ok(ReadStatus::NotEnoughData(_)) => Got::NotEnough, Err(e) => Got::Error(e.to_string()) };
        match m {
            Rd::Read => { let mut c = Cursor::new(data); while o.len() < max {
                let g = match <Packet as ReadFrom>::read(&mut c) { Ok(p) => Got::Packet(enc_packet(&p)), Err(e) => Got::Error(e.to_string()) };
                let stop = !matches!(g, Got::Packet(_));
                o.push((g, Some(c.position() as usize)));
                if stop { break }
            } }
            Rd::ReadSplit => { let mut c = ChunkSource::new(data.to_vec(), split).interrupted(&intr); while o.len() < max {
                let g = match <Packet as ReadFrom>::read(&mut c) { Ok(p) => Got::Packet(enc_packet(&p)), Err(e) => Got::Error(e.to_string()) };
                let stop = !matches!(g, Got::Packet(_));
                o.push((g, Some(c.position())));
                if stop { break }
            } }
            Rd::TrySeek => { let mut c = Cursor::new(data); while o.len() < max {
                let g = st(<Packet as TryReadFrom>::try_read(&mut c));
                let stop = !matches!(g, Got::Packet(_));
                o.push((g, Some(c.position() as usize)));
                if stop { break }
            } }
            Rd::TrySeekSplit => { let mut c = ChunkSource::new(data.to_vec(), split).interrupted(&intr); while o.len() < max {
                let g = st(<Packet as TryReadFrom>::try_read(&mut c));
                let stop = !matches!(g, Got::Packet(_));
                o.push((g, Some(c.position())));
                if stop { break }
            } }
            Rd::TryBuf => { let mut c = data; while o.len() < max {
                let g = st(<Packet as TryReadFromBuffered>::try_read(&mut c));
                let stop = !matches!(g, Got::Packet(_));
                o.push((g, Some(data.len() - c.len())));
                if stop { break }
            } }
            Rd::TryBufRefill => {
                // growing view: bytes arrive portion by portion, an incomplete packet is tried again
                let mut src = ChunkSource::new(data.to_vec(), split);
                let mut have: Vec<u8> = Vec::new();
                let mut used = 0;
                let mut portion = vec![0u8; 1 << 16];
                while o.len() < max {
                    let mut c = &have[used..];
                    let before = c.len();
                    let g = st(<Packet as TryReadFromBuffered>::try_read(&mut c));
                    used += before - c.len();
                    if g == Got::NotEnough {
                        let n = src.read(&mut portion).unwrap_or(0);
                        if n > 0 { have.extend_from_slice(&portion[..n]); continue; }
                    }
                    let stop = !matches!(g, Got::Packet(_));
                    o.push((g, Some(used)));
                    if stop { break }
                }
            }
            Rd::Filtered => { let rules: brec::RulesDef<Block, BlockReferred<'_>, Payload, Payload> = Default::default(); let mut c = Cursor::new(data); while o.len() < max {
                let g = match Packet::filtered(&mut c, &rules) { Ok(brec::LookInStatus::Accepted(_, p)) => Got::Packet(enc_packet(&p)), Ok(brec::LookInStatus::Denied(_)) => Got::Error("denied without rules".into()), Ok(brec::LookInStatus::NotEnoughData(_)) => Got::NotEnough, Err(e) => Got::Error(e.to_string()) };
                let stop = !matches!(g, Got::Packet(_));
                o.push((g, Some(c.position() as usize)));
                if stop { break }
            } }
            Rd::FilteredSplit => { let rules: brec::RulesDef<Block, BlockReferred<'_>, Payload, Payload> = Default::default(); let mut c = ChunkSource::new(data.to_vec(), split).interrupted(&intr); while o.len() < max {
                let g = match Packet::filtered(&mut c, &rules) { Ok(brec::LookInStatus::Accepted(_, p)) => Got::Packet(enc_packet(&p)), Ok(brec::LookInStatus::Denied(_)) => Got::Error("denied without rules".into()), Ok(brec::LookInStatus::NotEnoughData(_)) => Got::NotEnough, Err(e) => Got::Error(e.to_string()) };
                let stop = !matches!(g, Got::Packet(_));
                o.push((g, Some(c.position())));
                if stop { break }
            } }
            Rd::Stream => {
                let mut src = ChunkSource::new(data.to_vec(), split);
                let mut rd = PacketBufReader::new(&mut src);
                let mut calls = 0;
                while o.len() < max && calls < 4 * data.len() + 200 {
                    calls += 1;
                    match rd.read() {
                        Ok(brec::NextPacket::Found(p)) => o.push((Got::Packet(enc_packet(&p)), None)),
                        Ok(brec::NextPacket::NoData) => { o.push((Got::End, None)); break }
                        Ok(brec::NextPacket::Skipped) => o.push((Got::Error("skipped without rules".into()), None)),
                        Ok(_) => {}
                        Err(e) => o.push((Got::Error(e.to_string()), None)),
                    }
                }
            }
        }
        o
    }).map_err(|p| format!("{m:?}: {p}"))
}
/// Peeks through a BufRead to know how much is left of a slice-backed source.
pub fn left<B: BufRead>(b: &mut B) -> usize { b.fill_buf().map(|x| x.len()).unwrap_or(0) }

// ------------------------------------------------------------------ blocks
fn put(buf: &[u8], r: &mut Rng) -> (Vec<u8>, usize) {
    // at an arbitrary alignment inside a larger buffer
    let lead = r.below(9);
    let mut v = vec![0xEE; lead];
    v.extend_from_slice(buf);
    (v, lead)
}
pub fn block_outputs<B: BlockSpec>(b: &B) -> Result<Vec<(&'static str, Vec<u8>)>, String> {
    guard(|| {
        let mut v = Vec::new();
        let mut o = Vec::new();
        let n = brec::WriteTo::write(b, &mut o)?; v.push(("block write", o, n));
        let mut o = Vec::new();
        brec::WriteTo::write_all(b, &mut o)?; let n = o.len(); v.push(("block write_all", o, n));
        let mut o = Vec::new();
        let n = brec::WriteVectoredTo::write_vectored(b, &mut o)?; v.push(("block write_vectored", o, n));
        let mut o = Vec::new();
        brec::WriteVectoredTo::write_vectored_all(b, &mut o)?; let n = o.len(); v.push(("block write_vectored_all", o, n));
        let mut o = Vec::new();
        for s in brec::WriteVectoredTo::slices(b)?.get() { o.extend_from_slice(&s) } let n = o.len(); v.push(("block slices", o, n));
        Ok::<_, std::io::Error>(v)
    })?.map_err(|e| format!("block {}: {e}", B_NAME[B::KIND]))?.into_iter().map(|(w, o, n)| { ensure!(n == o.len(), "{w} of {}: {n} bytes reported, {} written", B_NAME[B::KIND], o.len()); Ok((w, o)) }).collect()
}
/// All ways to read one block (typed API) that starts at the beginning of `buf` and is `len` bytes long.
pub fn block_inputs<B: BlockSpec>(buf: &[u8], len: usize, want: &[u8], r: &mut Rng) -> Result<usize, String> {
    let name = B_NAME[B::KIND];
    let (v, lead) = put(buf, r);
    let at = &v[lead..];
    let split = rnd_split(r, len);
    let intr = rnd_interruptions(r, len);
    let res: Vec<(&str, Result<Vec<u8>, String>, Option<usize>)> = guard(|| {
        let e = |e: brec::Error| e.to_string();
        let st = |x: Result<ReadStatus<B>, brec::Error>| match x { Ok(ReadStatus::Success(b)) => Ok(b.body()), Ok(ReadStatus::NotEnoughData(n)) => Err(format!("not enough data ({n})")), Err(e) => Err(e.to_string()) };
        let mut o = Vec::new();
        let mut c = Cursor::new(at);
        o.push(("read", <B as brec::ReadBlockFrom>::read(&mut c, false).map(|b| b.body()).map_err(e), Some(c.position() as usize)));
        let mut c = ChunkSource::new(at.to_vec(), split.clone()).interrupted(&intr);
        o.push(("read (split source)", <B as brec::ReadBlockFrom>::read(&mut c, false).map(|b| b.body()).map_err(e), Some(c.position())));
        let mut c = Cursor::new(&at[4..]);
        o.push(("read without signature", <B as brec::ReadBlockFrom>::read(&mut c, true).map(|b| b.body()).map_err(e), Some(c.position() as usize + 4)));
        let mut c = Cursor::new(&v[..]); c.set_position(lead as u64);
        o.push(("try_read", st(<B as TryReadFrom>::try_read(&mut c)), Some(c.position() as usize - lead)));
        let mut c = at;
        o.push(("buffered try_read", st(<B as TryReadFromBuffered>::try_read(&mut c)), Some(at.len() - c.len())));
        o.push(("view", B::view_body(at, false).map_err(e), None));
        o.push(("view without signature", B::view_body(&at[4..], true).map_err(e), None));
        o.push(("view to owned", B::view_to_owned(at).map(|b| b.body()).map_err(e), None));
        o
    }).map_err(|p| format!("block {name}: {p}"))?;
    let n = res.len();
    for (w, b, used) in res {
        match b { Err(e) => return Err(format!("block {name}: {w} fails: {e}; bytes {}", hex(at))), Ok(b) => ensure!(b == want, "block {name}: {w} gives other field values: {} instead of {}; bytes {}", hex(&b), hex(want), hex(at)) }
        if let Some(u) = used { ensure!(u == len, "block {name}: {w} consumed {u} bytes of a block of {len}"); }
    }
    Ok(n)
}
/// All ways to read one block through the generated enum.
pub fn block_enum_inputs(buf: &[u8], len: usize, kind: usize, want: &[u8], r: &mut Rng) -> Result<usize, String> {
    let name = B_NAME[kind];
    let (v, lead) = put(buf, r);
    let at = &v[lead..];
    let split = rnd_split(r, len);
    let intr = rnd_interruptions(r, len);
    let kb = |b: Block| (block_kind(&b), block_body(&b));
    let res: Vec<(&str, Result<(usize, Vec<u8>), String>, Option<usize>)> = guard(|| {
        let e = |e: brec::Error| e.to_string();
        let st = |x: Result<ReadStatus<Block>, brec::Error>| match x { Ok(ReadStatus::Success(b)) => Ok(kb(b)), Ok(ReadStatus::NotEnoughData(n)) => Err(format!("not enough data ({n})")), Err(e) => Err(e.to_string()) };
        let mut o = Vec::new();
        let mut c = Cursor::new(at);
        o.push(("Block read", <Block as brec::ReadFrom>::read(&mut c).map(kb).map_err(e), Some(c.position() as usize)));
        let mut c = ChunkSource::new(at.to_vec(), split.clone()).interrupted(&intr);
        o.push(("Block read (split source)", <Block as brec::ReadFrom>::read(&mut c).map(kb).map_err(e), Some(c.position())));
        let mut c = Cursor::new(at);
        o.push(("Block read_block", <Block as brec::ReadBlockFrom>::read(&mut c, false).map(kb).map_err(e), Some(c.position() as usize)));
        let mut c = Cursor::new(&v[..]); c.set_position(lead as u64);
        o.push(("Block try_read", st(<Block as TryReadFrom>::try_read(&mut c)), Some(c.position() as usize - lead)));
        let mut c = at;
        o.push(("Block buffered try_read", st(<Block as TryReadFromBuffered>::try_read(&mut c)), Some(at.len() - c.len())));
        let view = <BlockReferred as brec::ReadBlockFromSlice>::read_from_slice(at, false);
        let used = view.as_ref().ok().map(|b| brec::Size::size(b) as usize);
        o.push(("BlockReferred", view.map(|b| view_kind_body(&b)).map_err(e), used));
        o.push(("BlockReferred to Block", <BlockReferred as brec::ReadBlockFromSlice>::read_from_slice(at, false).map(|b| kb(b.into())).map_err(e), None));
        o
    }).map_err(|p| format!("block {name}: {p}"))?;
    let n = res.len();
    for (w, b, used) in res {
        match b { Err(e) => return Err(format!("block {name}: {w} fails: {e}; bytes {}", hex(at))), Ok(b) => ensure!(b.0 == kind && b.1 == want, "block {name}: {w} gives {} {} instead of {}; bytes {}", B_NAME[b.0], hex(&b.1), hex(want), hex(at)) }
        if let Some(u) = used { ensure!(u == len, "block {name}: {w} consumed {u} bytes of a block of {len}"); }
    }
    Ok(n)
}

// ------------------------------------------------------------------ payloads
pub fn payload_outputs(p: &Payload) -> Result<Vec<(&'static str, Vec<u8>)>, String> {
    let k = payload_kind(p);
    guard(|| {
        let mut v = Vec::new();
        let mut q = p.clone();
        let mut o = Vec::new();
        let n = WriteMutTo::write(&mut q, &mut o)?; v.push(("payload write", o, n));
        let mut o = Vec::new();
        WriteMutTo::write_all(&mut q, &mut o)?; let n = o.len(); v.push(("payload write_all", o, n));
        let mut o = Vec::new();
        let n = WriteVectoredMutTo::write_vectored(&mut q, &mut o)?; v.push(("payload write_vectored", o, n));
        let mut o = Vec::new();
        WriteVectoredMutTo::write_vectored_all(&mut q, &mut o)?; let n = o.len(); v.push(("payload write_vectored_all", o, n));
        let mut o = Vec::new();
        for s in WriteVectoredMutTo::slices(&mut q)?.get() { o.extend_from_slice(&s) } let n = o.len(); v.push(("payload slices", o, n));
        Ok::<_, std::io::Error>(v)
    })?.map_err(|e| format!("payload {}: {e}", P_NAME[k]))?.into_iter().map(|(w, o, n)| { ensure!(n == o.len(), "{w} of {}: {n} bytes reported, {} written", P_NAME[k], o.len()); Ok((w, o)) }).collect()
}
pub type PayloadGot = Result<(usize, Vec<u8>), String>;
/// All ways to read one payload with its header from the start of `buf`: (method, result, consumed)
pub fn payload_inputs(buf: &[u8], r: &mut Rng) -> Result<Vec<(&'static str, PayloadGot, usize)>, String> {
    let split = rnd_split(r, buf.len());
    let intr = rnd_interruptions(r, buf.len());
    guard(|| {
        let kb = |p: Payload| (payload_kind(&p), payload_body(&p));
        let e = |e: brec::Error| e.to_string();
        let st = |x: Result<ReadStatus<Payload>, brec::Error>| match x { Ok(ReadStatus::Success(p)) => Ok(kb(p)), Ok(ReadStatus::NotEnoughData(n)) => Err(format!("not enough data ({n})")), Err(e) => Err(e.to_string()) };
        let mut o: Vec<(&'static str, PayloadGot, usize)> = Vec::new();
        let mut c = Cursor::new(buf);
        let g = <brec::PayloadHeader as ReadFrom>::read(&mut c).map_err(e).and_then(|h| <Payload as brec::ExtractPayloadFrom<Payload>>::read(&mut c, &h).map(kb).map_err(e));
        o.push(("payload read", g, c.position() as usize));
        let mut c = ChunkSource::new(buf.to_vec(), split).interrupted(&intr);
        let g = <brec::PayloadHeader as ReadFrom>::read(&mut c).map_err(e).and_then(|h| <Payload as brec::ExtractPayloadFrom<Payload>>::read(&mut c, &h).map(kb).map_err(e));
        o.push(("payload read (split source)", g, c.position()));
        let mut c = Cursor::new(buf);
        let g = match <brec::PayloadHeader as TryReadFrom>::try_read(&mut c) { Err(x) => Err(e(x)), Ok(ReadStatus::NotEnoughData(n)) => Err(format!("header: not enough data ({n})")), Ok(ReadStatus::Success(h)) => st(<Payload as brec::TryExtractPayloadFrom<Payload>>::try_read(&mut c, &h)) };
        o.push(("payload try_read", g, c.position() as usize));
        let mut c = buf;
        let g = match <brec::PayloadHeader as TryReadFromBuffered>::try_read(&mut c) { Err(x) => Err(e(x)), Ok(ReadStatus::NotEnoughData(n)) => Err(format!("header: not enough data ({n})")), Ok(ReadStatus::Success(h)) => {
            // documented: the buffered header read leaves the header in the buffer
            if c.len() == buf.len() { c = &c[h.size().min(c.len())..]; }
            st(<Payload as brec::TryExtractPayloadFromBuffered<Payload>>::try_read(&mut c, &h)) } };
        o.push(("payload buffered try_read", g, buf.len() - c.len()));
        o
    }).map_err(|p| format!("payload: {p}"))
}
