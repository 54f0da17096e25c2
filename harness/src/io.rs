//! Scripted media: sources that split and fail, sinks that accept little, a logged store with faults.
use crate::util::Rng;
use std::io::{self, ErrorKind, IoSlice, Read, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex};

pub const TRANSIENT: [ErrorKind; 3] = [ErrorKind::Interrupted, ErrorKind::WouldBlock, ErrorKind::TimedOut];

/// A byte source that delivers `data` in scripted portions, with transient errors in between.
pub struct ChunkSource {
    data: Vec<u8>,
    pos: usize,
    sizes: Vec<usize>,
    si: usize,
    /// (stream position at or after which the error fires once, kind)
    errs: Vec<(usize, ErrorKind)>,
    pub reads: usize,
    pub errors_fired: usize,
}
impl ChunkSource {
    pub fn new(data: Vec<u8>, sizes: Vec<usize>) -> Self { ChunkSource { data, pos: 0, sizes, si: 0, errs: vec![], reads: 0, errors_fired: 0 } }
    pub fn position(&self) -> usize { self.pos }
    /// Interruptions at up to four random moments: who reads plainly has to try again, nothing is lost.
    pub fn interrupted(self, at: &[usize]) -> Self { self.with_errors(at.iter().map(|p| (*p, ErrorKind::Interrupted)).collect()) }
    pub fn with_errors(mut self, mut errs: Vec<(usize, ErrorKind)>) -> Self { errs.sort_by_key(|e| e.0); errs.reverse(); self.errs = errs; self }
}
impl Read for ChunkSource {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        if let Some((p, k)) = self.errs.last().copied() {
            if self.pos >= p { self.errs.pop(); self.errors_fired += 1; return Err(io::Error::new(k, "injected")); }
        }
        let left = self.data.len().saturating_sub(self.pos);
        let want = if self.sizes.is_empty() { left } else { let s = self.sizes[self.si % self.sizes.len()]; self.si += 1; s.max(1) };
        let mut n = want.min(left).min(buf.len());
        if let Some((p, _)) = self.errs.last() { if *p > self.pos { n = n.min(*p - self.pos) } }
        if n > 0 { buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]); }
        self.pos += n;
        Ok(n)
    }
}
impl Seek for ChunkSource {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let np = match p { SeekFrom::Start(x) => x as i128, SeekFrom::End(x) => self.data.len() as i128 + x as i128, SeekFrom::Current(x) => self.pos as i128 + x as i128 };
        if np < 0 || np > u32::MAX as i128 { return Err(io::Error::new(ErrorKind::InvalidInput, "seek")); }
        self.pos = np as usize;
        Ok(np as u64)
    }
}
pub fn rnd_interruptions(r: &mut Rng, len: usize) -> Vec<usize> { if r.chance(50) { vec![] } else { (0..r.range(1, 4)).map(|_| r.below(len + 1)).collect() } }
/// chunk-size scripts of several characters; an empty script means "everything at once"
pub fn rnd_split(r: &mut Rng, len: usize) -> Vec<usize> {
    match r.below(9) {
        0 => vec![],
        1 => vec![1],
        2 => (0..r.range(1, 40)).map(|_| r.range(1, 3)).collect(),
        3 => (0..r.range(1, 40)).map(|_| r.range(1, 29)).collect(),
        4 => (0..r.range(1, 40)).map(|_| r.range(20, 40)).collect(),
        5 => (0..r.range(1, 20)).map(|_| r.range(1, len.max(2))).collect(),
        6 => vec![r.range(1, 64)],
        7 => vec![*r.pick(&[7, 8, 9, 28, 29, 30, 57, 58])],
        _ => { let k = r.range(1, len.max(2)); vec![k, len.max(1)] }
    }
}

/// One scripted reaction of a sink to a write call.
#[derive(Clone, Copy, Debug)]
pub enum Accept { All, Upto(usize), Zero, Fail(ErrorKind) }
pub struct ShortSink { pub out: Vec<u8>, script: Vec<Accept>, i: usize, pub calls: usize, pub zero_seen: bool, pub failed: Option<ErrorKind>, pub interrupts: usize, pub vectored: usize }
impl ShortSink {
    pub fn new(script: Vec<Accept>) -> Self { ShortSink { out: vec![], script, i: 0, calls: 0, zero_seen: false, failed: None, interrupts: 0, vectored: 0 } }
    fn step(&mut self) -> Accept { self.calls += 1; let a = if self.script.is_empty() { Accept::All } else { self.script[self.i % self.script.len()] }; self.i += 1; a }
    fn take(&mut self, bufs: &[&[u8]]) -> io::Result<usize> {
        let total: usize = bufs.iter().map(|b| b.len()).sum();
        if total == 0 { self.calls += 1; return Ok(0); }
        let n = match self.step() {
            Accept::All => total,
            Accept::Upto(n) => n.max(1).min(total),
            Accept::Zero => { self.zero_seen = true; 0 }
            Accept::Fail(k) => { if k == ErrorKind::Interrupted { self.interrupts += 1 } else { self.failed = Some(k) } return Err(io::Error::new(k, "injected")); }
        };
        let mut left = n;
        for b in bufs { let m = left.min(b.len()); self.out.extend_from_slice(&b[..m]); left -= m; }
        Ok(n)
    }
}
impl Write for ShortSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.take(&[b]) }
    fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> io::Result<usize> { self.vectored += 1; let v: Vec<&[u8]> = bufs.iter().map(|b| &b[..]).collect(); self.take(&v) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

// ------------------------------------------------------------------ logged, faulty store
#[derive(Clone, Debug)]
pub enum Op { Write { pos: u64, data: Vec<u8> }, Flush, Seek, Read }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault { Fail(ErrorKind), ShortThenFail(usize), Short(usize) }
type Hook = Box<dyn FnMut(&[u8], &Op) + Send>;
#[derive(Default)]
pub struct Inner {
    pub data: Vec<u8>,
    pub log: Vec<Op>,
    pub logging: bool,
    /// index of the next counted operation (writes, flushes, seeks) since arming
    pub op: usize,
    pub faults: Vec<(usize, Fault)>,
    pub fired: usize,
    pending_fail: bool,
    pub reads_fault: bool,
    /// reads deliver portions of these sizes (none: everything asked for); 0 stands for an interruption
    pub read_sizes: Vec<usize>,
    read_i: usize,
    pub split_reads: u64,
    /// errors actually returned to the caller since last reset (interruptions excluded)
    pub errors_returned: usize,
    pub hook: Option<Hook>,
    pub capacity: Option<usize>,
}
#[derive(Clone, Default)]
pub struct MemStore { pub inner: Arc<Mutex<Inner>>, pos: u64 }
impl MemStore {
    pub fn new() -> Self { Self::default() }
    pub fn with(data: Vec<u8>) -> Self { let s = Self::default(); s.inner.lock().unwrap().data = data; s }
    pub fn handle(&self) -> Self { MemStore { inner: self.inner.clone(), pos: 0 } }
    pub fn image(&self) -> Vec<u8> { self.inner.lock().unwrap().data.clone() }
    pub fn arm(&self, faults: Vec<(usize, Fault)>) { let mut i = self.inner.lock().unwrap(); i.op = 0; i.faults = faults; i.fired = 0; i.pending_fail = false; }
    pub fn disarm(&self) -> usize { let mut i = self.inner.lock().unwrap(); i.faults.clear(); i.pending_fail = false; i.fired }
    /// From now on reads give only portions and are interrupted at times.
    pub fn split_reads(&self, r: &mut Rng) { let k = r.range(1, 12); let top = *r.pick(&[1, 3, 20, 600]); let mut v: Vec<usize> = (0..k).map(|_| if r.chance(25) { 0 } else { r.range(1, top) }).collect(); v.push(r.range(1, top)); self.inner.lock().unwrap().read_sizes = v; }
    pub fn ops(&self) -> usize { self.inner.lock().unwrap().op }
}
fn injected(i: &mut Inner, k: ErrorKind) -> io::Error { if k != ErrorKind::Interrupted { i.errors_returned += 1 } io::Error::new(k, "injected") }
fn fault_at(i: &mut Inner) -> Option<Fault> {
    let op = i.op;
    i.op += 1;
    if i.pending_fail { i.pending_fail = false; i.fired += 1; return Some(Fault::Fail(ErrorKind::Other)); }
    let f = i.faults.iter().find(|f| f.0 == op).map(|f| f.1);
    if f.is_some() { i.fired += 1 }
    f
}
impl Write for MemStore {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut i = self.inner.lock().unwrap();
        if b.is_empty() { return Ok(0); }
        let mut n = b.len();
        match fault_at(&mut i) {
            Some(Fault::Fail(k)) => return Err(injected(&mut i, k)),
            Some(Fault::ShortThenFail(m)) => { n = m.clamp(1, b.len()); i.pending_fail = true; }
            Some(Fault::Short(m)) => n = m.clamp(1, b.len()),
            None => {}
        }
        if let Some(c) = i.capacity {
            let room = c.saturating_sub(self.pos as usize);
            if room == 0 { i.fired += 1; i.errors_returned += 1; return Err(io::Error::new(ErrorKind::StorageFull, "no space")); }
            n = n.min(room);
        }
        let end = self.pos as usize + n;
        if i.data.len() < end { i.data.resize(end, 0) }
        i.data[self.pos as usize..end].copy_from_slice(&b[..n]);
        let op = Op::Write { pos: self.pos, data: b[..n].to_vec() };
        self.pos += n as u64;
        let i = &mut *i;
        if let Some(h) = i.hook.as_mut() { h(&i.data, &op) }
        if i.logging { i.log.push(op) }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut i = self.inner.lock().unwrap();
        if let Some(f) = fault_at(&mut i) { if !matches!(f, Fault::Short(_)) { let k = if let Fault::Fail(k) = f { k } else { ErrorKind::Other }; return Err(injected(&mut i, k)); } }
        let i = &mut *i;
        if let Some(h) = i.hook.as_mut() { h(&i.data, &Op::Flush) }
        if i.logging { i.log.push(Op::Flush) }
        Ok(())
    }
}
impl Seek for MemStore {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let mut i = self.inner.lock().unwrap();
        if !matches!(p, SeekFrom::Current(0)) {
            if let Some(f) = fault_at(&mut i) { if !matches!(f, Fault::Short(_)) { let k = if let Fault::Fail(k) = f { k } else { ErrorKind::Other }; return Err(injected(&mut i, k)); } }
        }
        let np = match p { SeekFrom::Start(x) => x as i128, SeekFrom::End(x) => i.data.len() as i128 + x as i128, SeekFrom::Current(x) => self.pos as i128 + x as i128 };
        if np < 0 || np > u64::MAX as i128 { return Err(io::Error::new(ErrorKind::InvalidInput, "seek")); }
        self.pos = np as u64;
        let i = &mut *i;
        if let Some(h) = i.hook.as_mut() { h(&i.data, &Op::Seek) }
        Ok(self.pos)
    }
}
impl Read for MemStore {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let mut i = self.inner.lock().unwrap();
        if i.reads_fault { if let Some(f) = fault_at(&mut i) { let k = if let Fault::Fail(k) = f { k } else { ErrorKind::Other }; return Err(injected(&mut i, k)); } }
        let at = (self.pos as usize).min(i.data.len());
        let mut n = b.len().min(i.data.len() - at);
        if !i.read_sizes.is_empty() && n > 0 {
            let m = i.read_sizes[i.read_i % i.read_sizes.len()];
            i.read_i += 1;
            i.split_reads += 1;
            if m == 0 { return Err(io::Error::new(ErrorKind::Interrupted, "injected")) }
            n = n.min(m);
        }
        b[..n].copy_from_slice(&i.data[at..at + n]);
        self.pos += n as u64;
        Ok(n)
    }
}

// ------------------------------------------------------------------ a store larger than memory
/// Holds only the written extents of a file of any length; everything between them reads as zeros.
#[derive(Default)]
pub struct Sparse { pub pages: std::collections::BTreeMap<u64, Box<[u8; 4096]>>, pub len: u64, pub read: u64 }
#[derive(Clone, Default)]
pub struct SparseStore { pub inner: Arc<Mutex<Sparse>>, pos: u64 }
impl SparseStore {
    pub fn handle(&self) -> Self { SparseStore { inner: self.inner.clone(), pos: 0 } }
    pub fn put(&self, pos: u64, b: &[u8]) { let mut h = self.handle(); h.pos = pos; let _ = h.write(b); }
    pub fn get(&self, pos: u64, n: usize) -> Vec<u8> { let mut h = self.handle(); h.pos = pos; let mut v = vec![0; n]; let k = h.read(&mut v).unwrap_or(0); v.truncate(k); v }
    pub fn len(&self) -> u64 { self.inner.lock().unwrap().len }
}
impl Write for SparseStore {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut i = self.inner.lock().unwrap();
        if self.pos > i64::MAX as u64 - b.len() as u64 { return Err(io::Error::new(ErrorKind::FileTooLarge, "beyond the largest offset")); }
        let mut at = self.pos;
        let mut b2 = b;
        while !b2.is_empty() {
            let o = (at % 4096) as usize;
            let n = b2.len().min(4096 - o);
            i.pages.entry(at / 4096).or_insert_with(|| Box::new([0; 4096]))[o..o + n].copy_from_slice(&b2[..n]);
            at += n as u64;
            b2 = &b2[n..];
        }
        i.len = i.len.max(at);
        self.pos = at;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl Seek for SparseStore {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let i = self.inner.lock().unwrap();
        let np = match p { SeekFrom::Start(x) => x as i128, SeekFrom::End(x) => i.len as i128 + x as i128, SeekFrom::Current(x) => self.pos as i128 + x as i128 };
        if np < 0 || np > i64::MAX as i128 { return Err(io::Error::new(ErrorKind::InvalidInput, "seek")); }
        self.pos = np as u64;
        Ok(self.pos)
    }
}
impl Read for SparseStore {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let mut i = self.inner.lock().unwrap();
        i.read += b.len().min(i.len.saturating_sub(self.pos) as usize) as u64;
        if i.read > 1 << 30 { return Err(io::Error::new(ErrorKind::Other, "the harness reads no more than 1 GB of a store")); }
        let n = (b.len() as u64).min(i.len.saturating_sub(self.pos)) as usize;
        let mut done = 0;
        while done < n {
            let at = self.pos + done as u64;
            let o = (at % 4096) as usize;
            let m = (n - done).min(4096 - o);
            match i.pages.get(&(at / 4096)) { Some(p) => b[done..done + m].copy_from_slice(&p[o..o + m]), None => b[done..done + m].fill(0) }
            done += m;
        }
        self.pos += n as u64;
        Ok(n)
    }
}
