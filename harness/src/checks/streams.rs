//! C03, C04, C06, C22: the streaming reader over hostile mixed streams.
use crate::io::*;
use crate::proto::*;
use crate::stream::*;
use crate::util::*;
use crate::{Check, Cx, Tier};

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C03", run: c03, quick: 150_000, thorough: 1500_000, san: 400, jobs: 8, cpu_limit: 60 },
        Check { id: "C04", run: c04, quick: 200_000, thorough: 2000_000, san: 400, jobs: 8, cpu_limit: 60 },
        Check { id: "C06", run: c06, quick: 200_000, thorough: 2000_000, san: 400, jobs: 8, cpu_limit: 60 },
        Check { id: "C22", run: c22, quick: 150_000, thorough: 1500_000, san: 400, jobs: 8, cpu_limit: 60 },
    ]
}
fn shape(r: &mut Rng) -> Shape { match r.below(20) { 0 => Shape::BIG, 1..=4 => Shape::STD, _ => Shape::SMALL } }
fn split_str(s: &[usize]) -> String { if s.is_empty() { "all-at-once".into() } else { format!("{:?}", &s[..s.len().min(12)]) } }

fn rule_set(skip: usize, salt: u64) -> Box<RuleMaker> {
    match skip {
        1 => Box::new(|rd| { let _ = rd.add_rule(Rule::FilterByBlocks(RuleFnDef::Static(|b| b.len() % 2 == 0))); }),
        2 => Box::new(move |rd| { let _ = rd.add_rule(Rule::FilterByPayload(RuleFnDef::Dynamic(Box::new(move |b: &[u8]| (fnv(b) ^ salt) & 1 == 0)))); }),
        3 => Box::new(move |rd| { let _ = rd.add_rule(Rule::Filter(RuleFnDef::Dynamic(Box::new(move |p: &Packet| (fnv(&enc_packet(p)) ^ salt) & 1 == 0)))); }),
        _ => Box::new(|_| {}),
    }
}
fn expect_packets(m: &Mixed, o: &Outcome, what: &str) -> Result<(), String> {
    ensure!(o.ended, "{what}: end of data not reached after {} calls over {} bytes", o.calls, m.bytes.len());
    ensure!(o.errors() == 0 && o.skipped() == 0, "{what}: undamaged stream produced {:?}", o.obs.iter().filter(|x| !matches!(x, Obs::Found(_))).collect::<Vec<_>>());
    let f = o.found();
    ensure!(f.len() == m.pks.len(), "{what}: {} of {} packets delivered; stream {}", f.len(), m.pks.len(), hex(&m.bytes));
    for (i, (a, p)) in f.iter().zip(&m.pks).enumerate() { ensure!(**a == p.reference().bytes, "{what}: packet {i} delivered with other content: {} instead of {}", hex(a), hex(&p.reference().bytes)); }
    Ok(())
}
fn c03(cx: &mut Cx) -> Result<(), String> {
    let r = &mut cx.r;
    let n = *r.pick(&[0, 1, 1, 2, 3, 3, 5, 8]);
    let s = shape(r);
    let mut m = rnd_mixed(r, n, &s, 120, true);
    let hurt = r.chance(30);
    let rule = if hurt { r.below(4) } else { 0 };
    let salt = r.next();
    if hurt { if r.coin() { damage(r, &mut m); } if r.chance(30) && !m.bytes.is_empty() { let k = r.below(m.bytes.len()); m.bytes.truncate(k) } }
    let rules = rule_set(rule, salt);
    let len = m.bytes.len();
    let mut splits: Vec<Vec<usize>> = vec![vec![], vec![1], rnd_split(r, len), rnd_split(r, len), rnd_split(r, len)];
    if len <= 400 && r.chance(4) {
        // every two-part split of the stream
        for k in 1..len { splits.push(vec![k, len]) }
        cx.st.add("exhaustive_two_part_splits", 1);
    }
    let x = extract(&m.bytes);
    let mut base: Option<Vec<Obs>> = None;
    for sp in &splits {
        let mut src = ChunkSource::new(m.bytes.clone(), sp.clone());
        let o = drive(len, &mut src, 0, Some(&*rules))?;
        if hurt {
            // damaged, cut or filtered: the sequence of results is the same for every split
            ensure!(o.ended, "end of data not reached (split {})", split_str(sp));
            match &base {
                None => { cx.st.add("sequences_with_errors_or_skips", (o.errors() + o.skipped() > 0) as u64); base = Some(o.obs.clone()) }
                Some(b) => ensure!(*b == o.obs, "sequence of packets, skips and errors depends on the split: {} results with {}, {} with everything at once, first difference {:?}; stream {}", o.obs.len(), split_str(sp), b.len(),
                    b.iter().zip(&o.obs).position(|(x, y)| x != y).map(|i| (i, &b[i], &o.obs[i])), hex(&m.bytes)),
            }
        } else { expect_packets(&m, &o, &format!("split {}", split_str(sp)))?; }
        cx.st.add("reader_runs", 1);
        cx.st.add("packets_delivered", o.found().len() as u64);
        cx.st.add("results_observed", o.calls as u64);
        cx.st.add("refill_or_wait_results", (o.not_enough + o.not_found) as u64);
        cx.st.seen(fnv(&[&fnv(&m.bytes).to_le_bytes()[..], format!("{sp:?}").as_bytes()].concat()));
    }
    cx.st.add("false_signatures_in_streams", x.false_sigs as u64);
    if m.pks.is_empty() || m.garbage.is_empty() { cx.st.trivial += 1 }
    cx.st.sample(|| format!("{} packets, {} foreign bytes ({} look-alike signatures), splits {:?}; stream {}", m.pks.len(), m.garbage.len(), x.false_sigs, splits.iter().take(5).map(|s| split_str(s)).collect::<Vec<_>>(), hex(&m.bytes)));
    Ok(())
}

fn c04(cx: &mut Cx) -> Result<(), String> {
    let r = &mut cx.r;
    let n = *r.pick(&[0, 1, 2, 3, 5]);
    let s = shape(r);
    let mut m = rnd_mixed(r, n, &s, 200, true);
    // some packets are damaged in the body (still packets), some filtered out
    let mut damaged = 0;
    if r.chance(30) {
        for (i, (a, b)) in m.spans.clone().into_iter().enumerate() {
            if r.coin() && b - a > HDR && m.pks[i].reference().checked { let k = r.range(a + HDR, b - 1); m.bytes[k] ^= 1 << r.below(8); damaged += 1; }
        }
    }
    let truncated = if r.chance(20) && !m.bytes.is_empty() { let k = r.below(m.bytes.len()); m.bytes.truncate(k); true } else { false };
    let x = extract(&m.bytes);
    let skip = r.below(4);
    let salt = r.next();
    let rules = rule_set(skip, salt);
    let len = m.bytes.len();
    for sp in [vec![], vec![1], rnd_split(r, len), rnd_split(r, len)] {
        let mut src = ChunkSource::new(m.bytes.clone(), sp.clone());
        let o = drive(len, &mut src, 0, Some(&*rules))?;
        ensure!(o.ended, "end of data not reached (split {})", split_str(&sp));
        let mut ok = o.ignored == x.garbage;
        if let Some(t) = x.tail { let mut alt = x.garbage.clone(); alt.extend_from_slice(&m.bytes[t..]); ok |= o.ignored == alt; }
        ensure!(ok, "split {} (skip rule {skip}, {damaged} damaged, truncated {truncated}): ignored bytes differ from the bytes outside packets: {} bytes reported, {} expected (tail {:?}); reported {} expected {}; stream {}", split_str(&sp), o.ignored.len(), x.garbage.len(), x.tail.map(|t| len - t), hex(&o.ignored), hex(&x.garbage), hex(&m.bytes));
        cx.st.add("reader_runs", 1);
        cx.st.add("ignored_bytes_checked", o.ignored.len() as u64);
        cx.st.add("ignore_callbacks", o.ignored_calls as u64);
        cx.st.add("packets_skipped_or_failed", (o.skipped() + o.errors()) as u64);
        cx.st.add("packets_delivered", o.found().len() as u64);
        cx.st.seen(fnv(&[&fnv(&m.bytes).to_le_bytes()[..], format!("{sp:?}{skip}").as_bytes()].concat()));
    }
    if x.garbage.is_empty() { cx.st.trivial += 1 }
    cx.st.sample(|| format!("{} packets ({damaged} damaged, rule {skip}), {} foreign bytes; stream {}", m.pks.len(), x.garbage.len(), hex(&m.bytes)));
    Ok(())
}

/// Damages some packets of the stream in place. Returns per packet whether it was touched.
fn damage(r: &mut Rng, m: &mut Mixed) -> Vec<bool> {
    let mut hit = vec![false; m.spans.len()];
    for (i, (a, b)) in m.spans.clone().into_iter().enumerate() {
        if !r.chance(45) { continue; }
        hit[i] = true;
        let re = m.pks[i].reference();
        let orig = m.bytes[a..b].to_vec();
        let (lo, hi) = match r.below(6) {
            0 => (a, a + 8), 1 => (a + 8, a + 25), 2 => (a + 25, a + 29),
            3 => re.blocks.first().map(|_| { let (s, l) = re.blocks[r.below(re.blocks.len())]; (a + s, a + s + l) }).unwrap_or((a, a + 29)),
            4 => re.payload_at.map(|p| (a + p, b)).unwrap_or((a, b)),
            _ => (a, b),
        };
        match r.below(4) {
            0 => { let k = r.range(lo, hi - 1); m.bytes[k] ^= 1 << r.below(8) }
            1 => { let k = r.range(lo, hi - 1); let e = (k + r.range(1, 16)).min(hi); for x in &mut m.bytes[k..e] { *x = r.next() as u8 } }
            2 => { let k = r.range(lo, hi - 1); let e = (k + r.range(1, 64)).min(hi); m.bytes[k..e].fill(0) }
            _ => for _ in 0..r.range(2, 5) { let k = r.range(lo, hi - 1); m.bytes[k] ^= 1 << r.below(8) },
        }
        if m.bytes[a..b] == orig[..] { m.bytes[lo] ^= 0x40 }
    }
    hit
}
fn c06(cx: &mut Cx) -> Result<(), String> {
    let r = &mut cx.r;
    let n = *r.pick(&[1, 2, 3, 4, 6, 9]);
    let s = shape(r).checked();
    let gm = *r.pick(&[0, 0, 60]);
    let mut m = loop { let mut m = rnd_mixed(r, n, &s, gm.max(1), false); if gm == 0 { let mut b = vec![]; let mut sp = vec![]; for p in &m.pks { let e = p.reference().bytes; sp.push((b.len(), b.len() + e.len())); b.extend_from_slice(&e) } m.bytes = b; m.spans = sp; m.garbage.clear(); } break m; };
    let hit = damage(r, &mut m);
    let cut = if r.chance(30) { r.below(m.bytes.len() + 1) } else { m.bytes.len() };
    m.bytes.truncate(cut);
    let len = m.bytes.len();
    // undamaged packets, unless swallowed by what a (damaged, yet valid) header claims: decided by the reference on the actual bytes
    let x = extract(&m.bytes);
    let must: Vec<usize> = (0..m.spans.len()).filter(|i| !hit[*i] && m.spans[*i].1 <= cut && x.claims.contains(&m.spans[*i])).collect();
    let refs: Vec<Vec<u8>> = m.pks.iter().map(|p| p.reference().bytes).collect();
    for sp in [vec![], vec![1], rnd_split(r, len), rnd_split(r, len)] {
        let mut src = ChunkSource::new(m.bytes.clone(), sp.clone());
        let o = drive(len, &mut src, 0, None)?;
        ensure!(o.ended, "reading does not reach the end of data: {} calls over {len} bytes (split {}), {} errors, last {:?}; stream {}", o.calls, split_str(&sp), o.errors(), o.obs.last(), hex(&m.bytes));
        let damaged = hit.iter().filter(|h| **h).count() + (cut < m.spans.last().map(|s| s.1).unwrap_or(0)) as usize;
        ensure!(o.errors() <= 4 * damaged, "{} errors for {damaged} damaged packets (split {})", o.errors(), split_str(&sp));
        // undamaged packets all delivered, in order (delivered list contains them as a subsequence)
        let f = o.found();
        let mut at = 0;
        for i in &must {
            match f[at..].iter().position(|b| **b == refs[*i]) {
                Some(p) => at += p + 1,
                None => return Err(format!("undamaged packet {i} of {} lost (damaged: {:?}, split {}); {} delivered, {} errors; stream {}", refs.len(), hit, split_str(&sp), f.len(), o.errors(), hex(&m.bytes))),
            }
        }
        cx.st.add("reader_runs", 1);
        cx.st.add("undamaged_packets_recovered", must.len() as u64);
        cx.st.add("error_results", o.errors() as u64);
        cx.st.add("results_observed", o.calls as u64);
        cx.st.seen(fnv(&[&fnv(&m.bytes).to_le_bytes()[..], format!("{sp:?}").as_bytes()].concat()));
    }
    cx.st.add("packets_damaged", hit.iter().filter(|h| **h).count() as u64);
    if cut < m.spans.last().unwrap().1 { cx.st.add("streams_cut_inside", 1) }
    if !hit.contains(&true) && cut == m.bytes.len() { cx.st.trivial += 1 }
    cx.st.sample(|| format!("{} packets, damaged {:?}, cut at {cut}: {} must survive; stream {}", refs.len(), hit, must.len(), hex(&m.bytes)));
    Ok(())
}

fn c22(cx: &mut Cx) -> Result<(), String> {
    let r = &mut cx.r;
    let n = *r.pick(&[0, 1, 2, 3, 4]);
    let s = shape(r);
    let m = rnd_mixed(r, n, &s, 80, true);
    let len = m.bytes.len();
    let mut plans: Vec<Vec<(usize, std::io::ErrorKind)>> = Vec::new();
    for _ in 0..3 { let k = r.range(1, 6); plans.push((0..k).map(|_| (r.below(len + 1), *r.pick(&TRANSIENT))).collect()) }
    if len <= 300 && r.chance(5) { for p in 0..=len { plans.push(vec![(p, *r.pick(&TRANSIENT))]) } cx.st.add("every_position_plans", 1); }
    for pl in plans {
        for sp in [vec![], vec![1], rnd_split(r, len)] {
            let mut src = ChunkSource::new(m.bytes.clone(), sp.clone()).with_errors(pl.clone());
            let o = drive(len, &mut src, pl.len(), None)?;
            let fired = src.errors_fired;
            let w = format!("errors at {:?}, split {}", pl, split_str(&sp));
            expect_packets(&m, &o, &w)?;
            ensure!(o.ignored == m.garbage, "{w}: ignored bytes differ after transient errors: {} instead of {}", hex(&o.ignored), hex(&m.garbage));
            ensure!(o.transient == fired, "{w}: {fired} source errors, {} reported to the caller", o.transient);
            cx.st.add("reader_runs", 1);
            cx.st.add("transient_errors_injected", fired as u64);
            cx.st.add("packets_delivered", o.found().len() as u64);
            if fired > 0 { cx.st.seen(fnv(&[&fnv(&m.bytes).to_le_bytes()[..], w.as_bytes()].concat())); }
        }
    }
    if m.pks.is_empty() { cx.st.trivial += 1 }
    cx.st.sample(|| format!("{} packets, {} foreign bytes; stream {}", m.pks.len(), m.garbage.len(), hex(&m.bytes)));
    let _ = cx.tier == Tier::Quick;
    Ok(())
}
