//! C16 (locked storages) and C17 (sensor): monitors over recorded histories of real threads and processes.
//!
//! Locks are only ever held in worker processes that start no process themselves: a child between fork and
//! exec shares the open lock file, which would keep a dropped lock for a moment and is no fault of the library.
use crate::checks::store::{scratch, worker_pk};
use crate::proto::*;
use crate::util::*;
use crate::{Check, Cx};
use std::io::{BufRead, Write};
use std::path::Path;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C16", run: c16, quick: 1000, thorough: 8_000, san: 6, jobs: 8, cpu_limit: 240 },
        Check { id: "C17", run: c17, quick: 4000, thorough: 60_000, san: 10, jobs: 12, cpu_limit: 120 },
    ]
}
#[repr(C)]
struct Ts { s: i64, n: i64 }
extern "C" { fn clock_gettime(c: i32, t: *mut Ts) -> i32; }
/// one clock for all processes
fn now() -> u64 { let mut t = Ts { s: 0, n: 0 }; unsafe { clock_gettime(1, &mut t) }; t.s as u64 * 1_000_000_000 + t.n as u64 }

fn ms(n: u64) -> Duration { Duration::from_millis(n) }
type Fs = FileStorage<'static>;
fn open_by(path: &Path, timeout: Option<Duration>, interval: Option<Duration>, opts: bool) -> Result<Fs, brec::Error> {
    if !opts { return Fs::new(path, timeout, interval); }
    let mut o = brec::FileStorageOptions::new(path);
    if let Some(t) = timeout { o = o.timeout(t) }
    if let Some(i) = interval { o = o.interval(i) }
    o.open::<Block, Payload, Payload>()
}
fn packets(path: &Path) -> Result<Vec<Vec<u8>>, String> {
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).map_err(|e| e.to_string())?;
    let mut rd: Reader<'_, std::fs::File> = guard(|| Reader::new(f))?.map_err(|e| format!("opening for reading: {e}"))?;
    let n = rd.count();
    let v: Result<Vec<_>, _> = rd.iter().take(n + 5).map(|p| p.map(|p| enc_packet(&p))).collect();
    v.map_err(|e| format!("iteration: {e}"))
}
fn spawn(exe: &str, a: &[&str], dir: &Path) -> Result<Child, String> {
    Command::new(exe).arg("worker").args(a).current_dir(dir).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| format!("worker: {e}"))
}
fn lines(c: Child) -> Result<Vec<String>, String> {
    let o = c.wait_with_output().map_err(|e| e.to_string())?;
    let v: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect();
    if !o.status.success() { return Err(format!("a process using the storage ended with {}: {}", o.status, v.last().cloned().unwrap_or_default())); }
    Ok(v)
}
fn c16(cx: &mut Cx) -> Result<(), String> {
    let dir = scratch(cx, "c16")?;
    let res = c16_in(cx, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    res
}
fn c16_in(cx: &mut Cx, dir: &Path) -> Result<(), String> {
    let mut r = cx.r.clone();
    let name = *r.pick(&["s.bin", "storage", "a.b.c", "with space.brec", ".hidden", "s.lck"]);
    let path = dir.join(name);
    let p = path.to_str().unwrap();
    match r.below(4) {
        0 | 1 => contention(cx, &mut r, dir, name),
        2 => {
            let seed = r.next().to_string();
            let v = lines(spawn(cx.exe, &["lock-alone", p, &seed], dir)?)?;
            match v.last() { Some(l) if l.starts_with("OK ") => { for l in &v[..v.len() - 1] { if let Some((k, n)) = l.split_once(' ').and_then(|(_, x)| x.split_once(' ')) { let n: u64 = n.parse().unwrap_or(0); match k { "refused" => cx.st.add("openings_refused_while_locked", n), "timeouts" => cx.st.add("timeouts_observed", n), "waits" => cx.st.add("waits_that_succeeded", n), _ => cx.st.add("reopenings", n) } } } }
                l => return Err(format!("{}", l.cloned().unwrap_or("no answer".into()))) }
            cx.st.seen(fnv(v.join("\n").as_bytes()) ^ cx.idx);
            cx.st.sample(|| format!("one process, file {name:?}: {}", v.join("; ")));
            Ok(())
        }
        _ => killed(cx, &mut r, dir, name),
    }
}
/// Several processes with several threads each fight for one storage.
fn contention(cx: &mut Cx, r: &mut Rng, dir: &Path, name: &str) -> Result<(), String> {
    let procs = r.range(1, 4);
    let threads = if procs == 1 { r.range(2, 5) } else { r.range(1, 3) };
    let rounds = if r.chance(20) { 60 } else { r.range(3, 15) };
    let hold = *r.pick(&[0u64, 0, 100, 1500]);
    let seed = r.next();
    let mut ch = Vec::new();
    for i in 0..procs {
        let p = if i % 2 == 1 { name.to_string() } else { dir.join(name).to_str().unwrap().to_string() };
        ch.push(spawn(cx.exe, &["lock-fight", &p, &seed.to_string(), &i.to_string(), &threads.to_string(), &rounds.to_string(), &hold.to_string()], dir)?);
    }
    // (acquired, before release, id)
    let mut ev: Vec<(u64, u64, usize)> = Vec::new();
    for c in ch {
        for l in lines(c)? {
            let f: Vec<&str> = l.split(' ').collect();
            match f[..] {
                ["H", a, b, id] => ev.push((a.parse().unwrap(), b.parse().unwrap(), id.parse().unwrap())),
                ["busy", n] => cx.st.add("openings_refused_while_locked", n.parse().unwrap()),
                _ => return Err(format!("a contender reports: {l}")),
            }
        }
    }
    let want = procs * threads * rounds;
    ensure!(ev.len() == want, "{} of {want} openings succeeded", ev.len());
    ev.sort();
    for w in ev.windows(2) { ensure!(w[0].1 <= w[1].0, "two locked storages were open at the same moment: holder {} from {} to {}, holder {} from {} ({} processes, {threads} threads)", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0, procs); }
    let got = packets(&dir.join(name))?;
    let exp: Vec<Vec<u8>> = ev.iter().map(|e| worker_pk(seed, e.2).reference().bytes).collect();
    ensure!(got.len() == exp.len(), "{} packets were inserted by successive holders, the storage has {}", exp.len(), got.len());
    if let Some(i) = (0..got.len()).find(|i| got[*i] != exp[*i]) { return Err(format!("packet {i} is not the one the {i}-th holder inserted")); }
    let handovers = ev.windows(2).filter(|w| w[0].2 / rounds != w[1].2 / rounds).count();
    cx.st.add("holders_observed", want as u64);
    cx.st.add("handovers_between_contenders", handovers as u64);
    cx.st.seen(fnv(ev.iter().map(|e| format!("{},", e.2)).collect::<String>().as_bytes()));
    if handovers == 0 { cx.st.trivial += 1 }
    cx.st.sample(|| format!("{procs} processes x {threads} threads x {rounds} rounds, {handovers} handovers, order {:?}", ev.iter().take(24).map(|e| e.2).collect::<Vec<_>>()));
    Ok(())
}
/// The holder dies without a chance to clean up.
fn killed(cx: &mut Cx, r: &mut Rng, dir: &Path, name: &str) -> Result<(), String> {
    let p = dir.join(name);
    let p = p.to_str().unwrap();
    let seed = r.next();
    let mut n = 0;
    for _ in 0..r.range(1, 3) {
        let mut h = spawn(cx.exe, &["lock-hold", p, &seed.to_string(), &n.to_string()], dir)?;
        let mut o = std::io::BufReader::new(h.stdout.take().unwrap());
        let mut l = String::new();
        let _ = o.read_line(&mut l);
        if l.trim() != "HELD" { let _ = h.kill(); let _ = h.wait(); return Err(format!("opening a storage nobody holds any more fails: {}", l.trim())); }
        n += 1;
        // another process is refused meanwhile
        let v = lines(spawn(cx.exe, &["lock-try", p, "0"], dir)?)?;
        ensure!(v.first().map(|s| s.as_str()) == Some("REFUSED locked"), "while another process holds the storage: {:?}", v);
        if r.chance(30) {
            let t = r.range(50, 200);
            let v = lines(spawn(cx.exe, &["lock-try", p, &t.to_string()], dir)?)?;
            ensure!(v.first().map(|s| s.as_str()) == Some("REFUSED timeout"), "with a timeout of {t} ms while another process holds the storage: {:?}", v);
            cx.st.add("timeouts_observed", 1);
        }
        let _ = h.kill();
        let _ = h.wait();
        let v = lines(spawn(cx.exe, &["lock-try", p, "0"], dir)?)?;
        ensure!(v.first().map(|s| s.as_str()) == Some("OPENED"), "after the holding process died: {:?}", v);
        cx.st.add("holders_killed", 1);
        cx.st.add("openings_refused_while_locked", 1);
    }
    let got = packets(Path::new(p))?;
    let exp: Vec<Vec<u8>> = (0..n).map(|i| worker_pk(seed, i).reference().bytes).collect();
    ensure!(got == exp, "packets of {n} killed holders: {} found", got.len());
    cx.st.seen(seed);
    Ok(())
}
pub fn worker_fight(a: &[String]) {
    let path = a[0].clone();
    let n: Vec<u64> = a[1..].iter().map(|x| x.parse().unwrap()).collect();
    let (seed, proc_, threads, rounds, hold) = (n[0], n[1] as usize, n[2] as usize, n[3] as usize, n[4]);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let path = &path;
            sc.spawn(move || {
                let mut r = Rng::of(&[seed, proc_ as u64, t as u64, 3]);
                let mut busy = 0;
                for k in 0..rounds {
                    let id = (proc_ * threads + t) * rounds + k;
                    // without a timeout (asking again by hand), or waiting for the lock
                    let byhand = r.chance(40);
                    let until = Instant::now() + Duration::from_secs(120);
                    let mut s = loop {
                        let x = if byhand { open_by(Path::new(path), None, Some(ms(60_000)), r.coin()) } else { open_by(Path::new(path), Some(Duration::from_secs(120)), Some(Duration::from_micros(r.range(50, 2000) as u64)), r.coin()) };
                        match x {
                            Ok(s) => break s,
                            Err(brec::Error::FileIsLocked(_)) if byhand && Instant::now() < until => { busy += 1; std::thread::yield_now(); if r.coin() { std::thread::sleep(Duration::from_micros(r.below(300) as u64)) } }
                            Err(e) => { println!("opening fails: {e}"); std::process::exit(0) }
                        }
                    };
                    let acq = now();
                    if hold > 0 && r.coin() { std::thread::sleep(Duration::from_micros(r.below(hold as usize) as u64)) }
                    if let Err(e) = s.insert(worker_pk(seed, id).packet()) { println!("insert fails: {e}"); std::process::exit(0) }
                    if hold > 0 && r.coin() { std::thread::sleep(Duration::from_micros(r.below(hold as usize) as u64)) }
                    let rel = now();
                    drop(s);
                    println!("H {acq} {rel} {id}");
                    if r.chance(30) { std::thread::sleep(Duration::from_micros(r.below(500) as u64)) }
                }
                println!("busy {busy}");
            });
        }
    });
}
pub fn worker_hold(a: &[String]) {
    let (path, seed, n): (&str, u64, usize) = (&a[0], a[1].parse().unwrap(), a[2].parse().unwrap());
    match open_by(Path::new(path), None, None, n % 2 == 0) {
        Err(e) => println!("{e}"),
        Ok(mut s) => {
            if let Err(e) = s.insert(worker_pk(seed, n).packet()) { println!("insert: {e}"); return; }
            println!("HELD");
            // until killed, or the parent is gone
            let mut l = String::new();
            let _ = std::io::stdin().read_line(&mut l);
            drop(s);
        }
    }
}
pub fn worker_try(a: &[String]) {
    let (path, t): (&str, u64) = (&a[0], a[1].parse().unwrap());
    let s = Instant::now();
    let x = if t == 0 { open_by(Path::new(path), None, Some(ms(60_000)), false) } else { open_by(Path::new(path), Some(ms(t)), Some(ms(7)), true) };
    let e = s.elapsed();
    match x {
        Ok(_) => println!("OPENED"),
        Err(brec::Error::FileIsLocked(_)) => println!("REFUSED {}", if e > ms(30_000) { "late" } else { "locked" }),
        Err(brec::Error::TimeoutToWaitLockedFile(_)) => println!("REFUSED {}", if e < ms(t) { "early" } else { "timeout" }),
        Err(e) => println!("{e}"),
    }
}
/// Histories inside one process that starts no others: refusals, timeouts, releases, failed openings, panics.
pub fn worker_alone(a: &[String]) {
    match guard(|| alone(Path::new(&a[0]), a[1].parse().unwrap())) { Ok(Ok(())) => println!("OK done"), Ok(Err(e)) => println!("{e}"), Err(p) => println!("{p}") }
}
fn alone(path: &Path, seed: u64) -> Result<(), String> {
    let mut r = Rng::of(&[seed, 16]);
    let mut n = 0usize;
    let (mut refused, mut timeouts, mut waits, mut reopenings) = (0u64, 0u64, 0u64, 0u64);
    let mut put = |s: &mut Fs| -> Result<(), String> { s.insert(worker_pk(seed, n).packet()).map_err(|e| format!("insert: {e}"))?; n += 1; Ok(()) };
    for _ in 0..r.range(3, 6) {
        let opts = r.coin();
        let mut s = open_by(path, None, None, opts).map_err(|e| format!("opening a storage that was released fails: {e}"))?;
        put(&mut s)?;
        match r.below(7) {
            0 => {
                // no timeout: refused at once, whatever the interval
                let t = Instant::now();
                let x = open_by(path, None, Some(ms(60_000)), r.coin());
                let e = t.elapsed();
                ensure!(matches!(x, Err(brec::Error::FileIsLocked(_))), "a second opening without timeout: {}", show(&x));
                ensure!(e < ms(30_000), "without timeout a locked file is refused only after {e:?}");
                refused += 1;
                put(&mut s)?;
            }
            1 => {
                // timeout while locked: refused, and not earlier
                let (to, iv) = (r.range(0, 150) as u64, r.range(1, 90) as u64);
                let t = Instant::now();
                let x = open_by(path, Some(ms(to)), Some(ms(iv)), r.coin());
                let e = t.elapsed();
                ensure!(matches!(x, Err(brec::Error::TimeoutToWaitLockedFile(_))), "waiting {to} ms (every {iv} ms) for a storage that stays locked: {}", show(&x));
                ensure!(e >= ms(to), "waiting {to} ms (every {iv} ms) is given up after {e:?}");
                ensure!(e < ms(to + iv) + ms(30_000), "waiting {to} ms (every {iv} ms) takes {e:?}");
                timeouts += 1;
                put(&mut s)?;
            }
            2 | 3 => {
                // released in time: succeeds, also when the last sleep passes the timeout
                let (to, at, iv) = match r.below(3) { 0 => (20_000, r.range(0, 60) as u64, r.range(1, 30) as u64), 1 => (260, r.range(60, 120) as u64, *r.pick(&[200, 280])), _ => (20_000, r.range(0, 20) as u64, 100) };
                let released = AtomicU64::new(u64::MAX);
                let t0 = now();
                let x = std::thread::scope(|sc| {
                    sc.spawn(|| { std::thread::sleep(ms(at)); drop(s); released.store(now(), Ordering::SeqCst); });
                    open_by(path, Some(ms(to)), Some(ms(iv)), true)
                });
                let rel = released.load(Ordering::SeqCst);
                // clearly in time: an attempt just before and a look at the clock just after the timeout are no fault
                if rel < u64::MAX && rel + 100_000_000 < t0 + to * 1_000_000 {
                    ensure!(x.is_ok(), "the storage was released {} ms after the opener began to wait for {to} ms (every {iv} ms): {}", (rel - t0) / 1_000_000, show(&x));
                    waits += 1;
                }
                drop(x);
                continue;
            }
            4 => {
                // drop and open again, many times
                drop(s);
                for _ in 0..r.range(5, 40) {
                    let mut s = open_by(path, None, None, r.coin()).map_err(|e| format!("opening right after the holder was dropped fails: {e}"))?;
                    if r.chance(30) { put(&mut s)? }
                    reopenings += 1;
                }
                continue;
            }
            5 => {
                // a failed opening keeps no lock
                drop(s);
                let good = std::fs::read(path).map_err(|e| e.to_string())?;
                let mut bad = good.clone();
                bad[r.below(8)] ^= 0x55;
                std::fs::write(path, &bad).map_err(|e| e.to_string())?;
                let x = open_by(path, None, None, r.coin());
                ensure!(x.is_err(), "a storage with a damaged slot is opened");
                std::fs::write(path, &good).map_err(|e| e.to_string())?;
                let mut s = open_by(path, None, None, r.coin()).map_err(|e| format!("opening after a failed opening (lock must be free): {e}"))?;
                put(&mut s)?;
                reopenings += 1;
                drop(s);
                continue;
            }
            _ => {
                // a holder that panics releases the lock
                let _ = guard(move || { let _s = s; panic!("holder") });
                let mut s = open_by(path, None, None, r.coin()).map_err(|e| format!("opening after the holder panicked: {e}"))?;
                put(&mut s)?;
                reopenings += 1;
                drop(s);
                continue;
            }
        }
        drop(s);
        reopenings += 1;
    }
    let x = open_by(path.parent().unwrap(), None, None, false);
    ensure!(matches!(x, Err(brec::Error::PathIsNotFile(_))), "opening a directory: {}", show(&x));
    let got = packets(path)?;
    ensure!(got.len() == n, "{n} packets were inserted, the storage has {}", got.len());
    for (i, g) in got.iter().enumerate() { ensure!(*g == worker_pk(seed, i).reference().bytes, "packet {i} differs"); }
    println!("N refused {refused}\nN timeouts {timeouts}\nN waits {waits}\nN reopenings {reopenings}");
    Ok(())
}
fn show(x: &Result<Fs, brec::Error>) -> String { match x { Ok(_) => "opened".into(), Err(e) => e.to_string() } }

// ---------------------------------------------------------------- C17
use brec::storage::verif::Sensor;
static DELAY: AtomicU64 = AtomicU64::new(0x1234_5678);
static POINTS: AtomicU64 = AtomicU64::new(0);
type Act = Box<dyn FnMut(&'static str)>;
thread_local! { static ACT: std::cell::RefCell<Option<Act>> = const { std::cell::RefCell::new(None) }; }
fn hooks() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| brec::storage::verif::set_hook(Box::new(|p| {
        POINTS.fetch_add(1, Ordering::Relaxed);
        // what this thread wants to happen exactly here (owner's thread), then a random delay
        ACT.with(|a| if let Some(f) = a.borrow_mut().as_mut() { f(p) });
        let x = DELAY.fetch_add(0x9E37_79B9_7F4A_7C15, Ordering::Relaxed);
        let x = (x ^ (x >> 31)).wrapping_mul(0xBF58_476D_1CE4_E5B9) >> 33;
        match x % 8 { 0 | 1 => std::thread::sleep(Duration::from_micros(x / 8 % 3000)), 2 => std::thread::yield_now(), 3 => std::thread::sleep(Duration::from_micros(x / 8 % 100)), _ => {} }
    })));
}
fn append(path: &Path, n: usize) {
    let mut f = std::fs::OpenOptions::new().append(true).open(path).unwrap();
    let _ = f.write_all(&vec![7u8; n]);
}
fn size(path: &Path) -> u64 { std::fs::metadata(path).map(|m| m.len()).unwrap_or(0) }
/// Makes a file grow: opened and closed for every portion, or kept open as owners of a file do.
enum Grower { Fresh, Append(std::fs::File), At(std::fs::File), Len(std::fs::File), Store(Box<Writer<'static, std::fs::File>>), Buffered(std::io::BufWriter<std::fs::File>) }
impl Grower {
    fn new(path: &Path, mode: usize) -> Result<Self, String> {
        let open = || std::fs::OpenOptions::new().read(true).write(true).open(path).map_err(|e| e.to_string());
        let add = || std::fs::OpenOptions::new().append(true).open(path).map_err(|e| e.to_string());
        Ok(match mode { 1 => Grower::Append(add()?), 2 => Grower::At(open()?), 3 => Grower::Len(open()?), 4 => Grower::Store(Box::new(guard(|| Writer::new(open()?).map_err(|e| e.to_string()))??)), 5 => Grower::Buffered(std::io::BufWriter::new(add()?)), _ => Grower::Fresh })
    }
    /// grows by n bytes (a storage: by some more); how many it were
    fn grow(&mut self, path: &Path, n: usize) -> u64 {
        use std::os::unix::fs::FileExt;
        let before = size(path);
        let data = vec![7u8; n];
        let res = match self {
            Grower::Fresh => { append(path, n); Ok(()) }
            Grower::Append(f) => f.write_all(&data),
            Grower::At(f) => f.write_all_at(&data, before),
            Grower::Len(f) => f.set_len(before + n as u64),
            Grower::Store(w) => w.insert(Packet::new(vec![], Some(Payload::Bytes(data)))).map_err(|e| std::io::Error::other(e.to_string())),
            Grower::Buffered(f) => f.write_all(&data).and_then(|_| f.flush()),
        };
        if let Err(e) = res { eprintln!("harness: growing: {e}"); }
        size(path) - before
    }
}
fn c17(cx: &mut Cx) -> Result<(), String> {
    hooks();
    let dir = scratch(cx, "c17")?;
    let res = c17_in(cx, &dir);
    ACT.with(|a| *a.borrow_mut() = None);
    let _ = std::fs::remove_dir_all(&dir);
    res
}
const LONG: u64 = 30;
static INSIDE: AtomicU64 = AtomicU64::new(0);
fn c17_in(cx: &mut Cx, dir: &Path) -> Result<(), String> {
    let mut r = cx.r.clone();
    let path = dir.join("s.bin");
    if r.chance(10) {
        ensure!(guard(|| Sensor::new(&path).is_err())?, "a sensor watches a file that does not exist");
        ensure!(guard(|| Sensor::new(dir).is_err())?, "a sensor watches a directory as if it were a file");
        cx.st.add("impossible_targets_refused", 2);
    }
    std::fs::write(&path, vec![1u8; r.below(3) * 100]).map_err(|e| e.to_string())?;
    let s0 = size(&path);
    let (sensor, rx) = guard(|| Sensor::new(&path))?.map_err(|e| format!("sensor: {e}"))?;
    let mut acked = 0u64;
    let mut trace: Vec<String> = vec![format!("size {s0}")];
    // may acknowledge what was there before
    if s0 > 0 && r.coin() {
        guard(|| sensor.processed(s0))?.map_err(|e| format!("acknowledge: {e}"))?;
        acked = s0;
        trace.push(format!("ack {s0}"));
    }
    let known = acked == s0;
    let steps: Vec<(u64, usize)> = (0..r.range(1, 25)).map(|_| (match r.below(4) { 0 => 0, 1 => r.below(200) as u64, _ => r.below(3000) as u64 }, r.range(1, 300))).collect();
    let mode = match r.below(8) { m @ 1..=5 => if m == 4 && s0 > 0 { 1 } else { m }, _ => 0 };
    let grower = Arc::new(Mutex::new(Grower::new(&path, mode)?));
    cx.st.add(["files_reopened_for_each_write", "files_kept_open_for_appending", "files_kept_open_for_writing", "files_grown_by_length", "storages_kept_open", "files_kept_open_behind_a_buffer"][mode], 1);
    // appends performed by the owner's own thread exactly inside its acknowledgement
    let inside = r.below(5);
    let where_ = *r.pick(&["sensor:acknowledged", "sensor:unlocked", "sensor:sized", "sensor:grown"]);
    let inside_bytes = std::rc::Rc::new(std::cell::Cell::new(0u64));
    if inside > 0 {
        let (p, b, g) = (path.clone(), inside_bytes.clone(), grower.clone());
        let mut left = inside;
        ACT.with(|a| *a.borrow_mut() = Some(Box::new(move |w| if w == where_ && left > 0 { left -= 1; let n = g.lock().unwrap().grow(&p, 11); b.set(b.get() + n); INSIDE.fetch_add(1, Ordering::Relaxed); })));
    }
    let pace = *r.pick(&[0usize, 300, 2500]);
    let mut wakes = 0u64;
    let p2 = path.clone();
    let g2 = grower.clone();
    let before_inside = INSIDE.load(Ordering::Relaxed);
    let appender = std::thread::spawn(move || { let mut grown = 0; for (d, n) in steps { if d > 0 { std::thread::sleep(Duration::from_micros(d)) } grown += g2.lock().unwrap().grow(&p2, n); } grown });
    let res = (|| -> Result<(), String> {
        loop {
            // is there still something to be signalled?
            let done = appender.is_finished();
            let sz = size(&path);
            if done && acked >= sz { break; }
            // nothing has grown yet in a file whose content was never acknowledged: no signal is owed
            if done && !known && wakes == 0 && sz == s0 { break; }
            let w = if acked < sz || !done {
                match rx.recv_timeout(if acked < sz && (sz > s0 || wakes > 0) { Duration::from_secs(LONG) } else { ms(5) }) {
                    Ok(w) => w,
                    Err(_) => { if acked < sz && (sz > s0 || wakes > 0) { return Err(format!("the file has grown to {sz}, {acked} is acknowledged, and no wake-up comes within {LONG} s")); } continue; }
                }
            } else { continue };
            wakes += 1;
            let sz = size(&path);
            trace.push(format!("wake {} of {sz}", w.size));
            ensure!(w.size <= sz, "a wake-up announces {} bytes, the file has {sz}", w.size);
            ensure!(w.size > acked, "a wake-up announces {} bytes although {acked} were acknowledged", w.size);
            for _ in 0..r.range(1, 3) {
                if pace > 0 { std::thread::sleep(Duration::from_micros(r.below(pace) as u64)) }
                if let Ok(x) = rx.try_recv() { return Err(format!("another wake-up ({} bytes) before the one for {} bytes is acknowledged", x.size, w.size)); }
            }
            // acknowledges what was announced, a part of it, or all that is there by now
            let until = match r.below(7) { 6 if wakes < 40 => r.below(acked as usize + 1) as u64, 0 => acked + (w.size - acked) / 2, 1 => size(&path), 2 if wakes < 40 => acked, _ => w.size };
            trace.push(format!("ack {until}"));
            guard(|| sensor.processed(until))?.map_err(|e| format!("acknowledge: {e}"))?;
            acked = acked.max(until);
            if wakes > 3000 { return Err("wake-ups without end".into()); }
        }
        Ok(())
    })();
    ACT.with(|a| *a.borrow_mut() = None);
    let grown = appender.join().unwrap_or(0);
    let tail = |t: &Vec<String>| t[t.len().saturating_sub(12)..].join(", ");
    res.map_err(|e| format!("{e}; history: {}", tail(&trace)))?;
    let fin = size(&path);
    ensure!(fin == s0 + grown + inside_bytes.get(), "harness: size {fin}");
    // silence: everything is acknowledged
    if r.coin() { append(&path, 0); let _ = std::fs::OpenOptions::new().write(true).open(&path).and_then(|f| f.set_modified(std::time::SystemTime::now())); }
    if let Ok(x) = rx.recv_timeout(ms(*r.pick(&[2, 10, 40]))) { return Err(format!("a wake-up ({} bytes) although all {fin} bytes are acknowledged; history: {}", x.size, tail(&trace))); }
    // an acknowledgement of less than what is acknowledged (a late one) takes nothing back
    if r.chance(40) {
        for _ in 0..r.range(1, 3) { guard(|| sensor.processed(r.below(fin as usize + 1) as u64))?.map_err(|e| format!("acknowledge: {e}"))?; }
        if let Ok(x) = rx.recv_timeout(ms(*r.pick(&[1, 5, 20]))) { return Err(format!("a wake-up ({} bytes) after a late acknowledgement although all {fin} bytes are acknowledged; history: {}", x.size, tail(&trace))); }
        cx.st.add("late_acknowledgements", 1);
    }
    // shrinking, and growing again up to what is acknowledged, is no growth
    if fin > 1 && mode != 4 && r.chance(30) {
        let k = r.below(fin as usize) as u64;
        std::fs::OpenOptions::new().write(true).open(&path).and_then(|f| f.set_len(k)).map_err(|e| e.to_string())?;
        if r.coin() { append(&path, r.below((fin - k) as usize + 1)); }
        if let Ok(x) = rx.recv_timeout(ms(*r.pick(&[2, 10]))) { return Err(format!("a wake-up ({} bytes) although the file was cut to {k} and {fin} bytes are acknowledged", x.size)); }
        let z = size(&path);
        append(&path, (fin - z) as usize);
        cx.st.add("files_cut", 1);
    }
    // and awake again
    if r.coin() {
        let n = r.range(1, 50);
        let n = grower.lock().unwrap().grow(&path, n);
        ensure!(n > 0, "harness: the file does not grow");
        match rx.recv_timeout(Duration::from_secs(LONG)) {
            Ok(w) => ensure!(w.size > fin && w.size <= fin + n, "after growth from {fin} by {n} a wake-up announces {}", w.size),
            Err(_) => return Err(format!("growth from {fin} by {n} after a pause is not signalled within {LONG} s; history: {}", tail(&trace))),
        }
        wakes += 1;
        // dropping the last acknowledgement on the floor: nothing more comes
        let m = grower.lock().unwrap().grow(&path, 3);
        if let Ok(x) = rx.recv_timeout(ms(3)) { return Err(format!("another wake-up ({} bytes) before the last one is acknowledged", x.size)); }
        guard(|| sensor.processed(fin + n))?.map_err(|e| format!("acknowledge: {e}"))?;
        match rx.recv_timeout(Duration::from_secs(LONG)) { Ok(w) => { ensure!(w.size == fin + n + m, "the file has {} bytes, announced {}", fin + n + m, w.size); wakes += 1 } Err(_) => return Err(format!("growth before the acknowledgement of the previous wake-up is not signalled within {LONG} s")) }
    }
    cx.st.add("wakeups_observed", wakes);
    cx.st.add("bytes_grown", grown + inside_bytes.get());
    cx.st.add("appends_inside_acknowledgement", INSIDE.load(Ordering::Relaxed) - before_inside);
    cx.st.max("max_sensor_points_passed", POINTS.load(Ordering::Relaxed));
    if wakes == 0 { cx.st.trivial += 1 } else { cx.st.seen(fnv(trace.join(",").as_bytes())) }
    cx.st.sample(|| tail(&trace));
    Ok(())
}
