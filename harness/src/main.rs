//! Runtime monitors for icsmw/brec. One sub-command per property; see /verif/DESIGN.md.
#![allow(clippy::all, non_snake_case)]
#![allow(dead_code, private_interfaces)]
#[macro_use]
mod util;
mod io;
mod proto;
mod stream;
mod rw;
mod checks;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;
use util::*;

#[global_allocator]
static A: Mon = Mon;

#[derive(Clone, Copy, PartialEq)]
pub enum Tier { Quick, Thorough, San }
pub struct Cx<'a> { pub r: Rng, pub idx: u64, pub seed: u64, pub tier: Tier, pub st: &'a mut Stats, pub work: &'a str, pub exe: &'a str }
pub struct Check { pub id: &'static str, pub run: fn(&mut Cx) -> Result<(), String>, pub quick: u64, pub thorough: u64, pub san: u64, pub jobs: usize, pub cpu_limit: u64 }

extern "C" { fn gettid() -> i32; fn sysconf(n: i32) -> i64; }
fn thread_cpu(tid: i32) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let t: f64 = f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?;
    Some(t / unsafe { sysconf(2) } as f64)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    install_panic_hook();
    let mode = args.get(1).map(|s| s.as_str()).unwrap_or("");
    if mode == "worker" { checks::worker(&args[2..]); return; }
    if mode != "run" { eprintln!("usage: mon run PROP key=value..."); std::process::exit(64); }
    let prop = args[2].clone();
    let kv: BTreeMap<String, String> = args[3..].iter().filter_map(|a| a.split_once('=').map(|(a, b)| (a.to_string(), b.to_string()))).collect();
    let get = |k: &str, d: &str| kv.get(k).cloned().unwrap_or_else(|| d.to_string());
    let seed: u64 = get("seed", "1").parse().unwrap();
    let tier = match get("tier", "quick").as_str() { "thorough" => Tier::Thorough, "san" => Tier::San, _ => Tier::Quick };
    let out = get("out", "");
    let work = get("work", "/tmp/mon-work");
    let cap: f64 = get("cap", "600").parse().unwrap();
    let all = checks::all();
    let Some(c) = all.iter().find(|c| c.id == prop) else { eprintln!("unknown check {prop}"); std::process::exit(64) };
    let total: u64 = kv.get("cases").map(|s| s.parse().unwrap()).unwrap_or(match tier { Tier::Quick => c.quick, Tier::Thorough => c.thorough, Tier::San => c.san });
    let only: Option<u64> = kv.get("only").map(|s| s.parse().unwrap());
    let jobs: usize = kv.get("jobs").map(|s| s.parse().unwrap()).unwrap_or(c.jobs);
    let exe = std::env::current_exe().ok().map(|p| p.to_string_lossy().to_string()).unwrap_or_default();
    let miri = cfg!(miri);
    let keep = get("keep", "0") == "1";
    let from: u64 = get("from", "0").parse().unwrap();
    let next = AtomicU64::new(only.unwrap_or(from));
    let end = only.map(|o| o + 1).unwrap_or(from + total);
    let stop = AtomicBool::new(false);
    let viol: Mutex<Option<(u64, String)>> = Mutex::new(None);
    let merged: Mutex<Stats> = Mutex::new(Stats::default());
    let slots: Vec<(AtomicU64, AtomicU64)> = (0..jobs).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
    let t0 = Instant::now();
    let cur_file = if out.is_empty() { None } else { Some(std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(format!("{out}.cur")).unwrap()) };
    let done = AtomicBool::new(false);
    let hang: Mutex<Option<u64>> = Mutex::new(None);
    let finish = |st: &Stats, v: &Option<(u64, String)>, wall: f64| {
        let mut s = String::from("{");
        s += &format!("\"cases\":{},\"trivial\":{},\"distinct\":{},\"wall\":{:.3},\"counts\":{{", st.cases, st.trivial, st.distinct.len(), wall);
        s += &st.counts.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(",");
        s += "},\"samples\":[";
        s += &st.samples.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(",");
        s += "],\"violation\":";
        match v { None => s += "null", Some((i, m)) => s += &format!("{{\"case\":{i},\"message\":{}}}", json_str(m)) }
        s += "}";
        if out.is_empty() { println!("{s}") } else { std::fs::write(&out, &s).unwrap() }
    };
    std::thread::scope(|sc| {
        if !miri {
            // watchdog: CPU time spent by one thread inside one case
            sc.spawn(|| {
                let mut base: Vec<(u64, f64)> = vec![(u64::MAX, 0.0); jobs];
                while !done.load(Ordering::SeqCst) {
                    std::thread::sleep(std::time::Duration::from_millis(200));
                    for (i, (case, tid)) in slots.iter().enumerate() {
                        let (c0, t) = (case.load(Ordering::SeqCst), tid.load(Ordering::SeqCst));
                        if c0 == u64::MAX || t == 0 { continue; }
                        let Some(cpu) = thread_cpu(t as i32) else { continue };
                        if base[i].0 != c0 { base[i] = (c0, cpu); continue; }
                        if cpu - base[i].1 > c.cpu_limit as f64 {
                            *hang.lock().unwrap() = Some(c0);
                            let v = Some((c0, format!("does not terminate: one call sequence used more than {} s of CPU time", c.cpu_limit)));
                            if let Ok(m) = merged.try_lock() { finish(&m, &v, t0.elapsed().as_secs_f64()) } else { finish(&Stats::default(), &v, 0.0) }
                            std::process::exit(1);
                        }
                    }
                }
            });
        }
        let hs: Vec<_> = (0..jobs).map(|w| {
            let (next, stop, viol, merged, slots, work, exe, cur_file) = (&next, &stop, &viol, &merged, &slots, &work, &exe, &cur_file);
            let run = move || {
                if !miri { slots[w].1.store(unsafe { gettid() } as u64, Ordering::SeqCst); }
                let mut st = Stats::default();
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= end || stop.load(Ordering::SeqCst) || t0.elapsed().as_secs_f64() > cap { break; }
                    slots[w].0.store(i, Ordering::SeqCst);
                    if let Some(f) = cur_file { use std::os::unix::fs::FileExt; let _ = f.write_at(format!("{i:>15}\n").as_bytes(), (w * 16) as u64); }
                    let triv = st.trivial;
                    let mut cx = Cx { r: Rng::of(&[seed, fnv(c.id.as_bytes()), i]), idx: i, seed, tier, st: &mut st, work, exe };
                    let res = match guard(|| (c.run)(&mut cx)) { Ok(r) => r, Err(p) => Err(format!("unexpected {p}")) };
                    st.close_case(triv);
                    tick();
                    if res.is_err() && keep { st.add("functional_differences_left_to_other_properties", 1); continue; }
                    if let Err(m) = res {
                        let mut v = viol.lock().unwrap();
                        if v.as_ref().map(|x| x.0 > i).unwrap_or(true) { *v = Some((i, m)); }
                        stop.store(true, Ordering::SeqCst);
                        break;
                    }
                }
                slots[w].0.store(u64::MAX, Ordering::SeqCst);
                if let Some(f) = cur_file { use std::os::unix::fs::FileExt; let _ = f.write_at(format!("{:>15}\n", "-").as_bytes(), (w * 16) as u64); }
                merged.lock().unwrap().merge(st);
            };
            std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, run).unwrap()
        }).collect();
        for h in hs { let _ = h.join(); }
        done.store(true, Ordering::SeqCst);
    });
    let v = viol.into_inner().unwrap();
    let st = merged.into_inner().unwrap();
    finish(&st, &v, t0.elapsed().as_secs_f64());
    if let Some((i, m)) = &v { eprintln!("case {i}: {m}"); std::process::exit(1) }
}
