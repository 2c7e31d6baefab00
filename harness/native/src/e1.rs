use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::{BoxedStrategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use rcv_core::machine::{build, install_hook};
use rcv_core::plan::{plan, Plan};
use rcv_core::run::{run_case, Case, Cfg, NST, STATS};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::{Read, Seek, SeekFrom, Write};
use std::process::{Command, Stdio};

pub fn strategy(pl: &Plan) -> BoxedStrategy<Case> {
    let prof: Vec<u8> = pl.profiles.iter().flat_map(|&(p, w)| std::iter::repeat(p).take(w as usize)).collect();
    let kinds = pl.kinds.to_vec();
    let ops = if pl.prop == "C21" { prop::collection::vec(any::<[u8; 4]>(), 3..26).boxed() } else { prop_oneof![
        2 => prop::collection::vec(any::<[u8; 4]>(), 2..14),
        3 => prop::collection::vec(any::<[u8; 4]>(), 14..40),
        1 => prop::collection::vec(any::<[u8; 4]>(), 40..100),
    ].boxed() };
    (any::<bool>(), select(kinds), select(prof), ops).prop_map(|(arc, kind, profile, ops)| Case { arc, kind, profile, ops }).boxed()
}
pub fn rng(seed: u64, idx: u64) -> TestRng {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&seed.to_le_bytes());
    b[8..16].copy_from_slice(&idx.to_le_bytes());
    b[16..24].copy_from_slice(&(seed ^ 0x9e37_79b9_7f4a_7c15).to_le_bytes());
    TestRng::from_seed(RngAlgorithm::ChaCha, &b)
}
fn tree(st: &BoxedStrategy<Case>, seed: u64, idx: u64) -> Box<dyn ValueTree<Value = Case>> {
    let mut tr = TestRunner::new_with_rng(Config { failure_persistence: None, ..Config::default() }, rng(seed, idx));
    st.new_tree(&mut tr).unwrap()
}
extern "C" { fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32; }
/// CPU time limit for the next stretch of work; SIGVTALRM (26) ends the process. Not wall-clock time.
fn cpu_limit(secs: i64) { unsafe { setitimer(1, &[0, 0, secs, 0], std::ptr::null_mut()); } }

fn arg<'a>(a: &[&'a str], k: &str) -> Option<&'a str> { a.iter().position(|x| *x == k).and_then(|i| a.get(i + 1).copied()) }
fn num(a: &[&str], k: &str, d: u64) -> u64 { arg(a, k).and_then(|x| x.parse().ok()).unwrap_or(d) }
fn hash(c: &Case) -> u64 { let mut h = DefaultHasher::new(); c.hash(&mut h); h.finish() }

/// exit 0: done, prints one JSON line; exit 3: a violation, printed as "FAIL idx tag msg"; other: crashed, `status` names the case
pub fn worker(a: &[&str]) -> i32 {
    let pl = plan(arg(a, "--prop").unwrap()).unwrap();
    let (seed, from, n, step) = (num(a, "--seed", 1), num(a, "--from", 0), num(a, "--n", 1), num(a, "--step", 1));
    let mut status = std::fs::OpenOptions::new().write(true).open(arg(a, "--status").unwrap()).unwrap();
    let mut hashes = std::io::BufWriter::new(std::fs::File::create(arg(a, "--hashes").unwrap()).unwrap());
    install_hook();
    rcv_core::track::ENABLED.store(true, std::sync::atomic::Ordering::Relaxed);
    let st = strategy(pl);
    let cfg = Cfg { props: pl.mask, trace: false, quick_views: false, record: false };
    let mut tot = [0u64; NST];
    let mut cases_with = [0u64; NST];
    let mut idx = from;
    let mut done = 0u64;
    let mut nsample = 0;
    let mut samples = vec![];
    while idx < n {
        if done % 500 == 0 { cpu_limit(40) }
        let case = tree(&st, seed, idx).current();
        status.seek(SeekFrom::Start(0)).unwrap();
        status.write_all(&idx.to_le_bytes()).unwrap();
        let mut m = build(case.arc, case.kind as usize);
        let rep = run_case(&mut *m, &case, &cfg);
        if let Some(f) = rep.fail {
            println!("FAIL {idx} {} {}", f.tag, f.msg.replace('\n', " "));
            std::io::stdout().flush().unwrap();
            std::process::exit(3);
        }
        if rep.clean { drop(m) } else { std::mem::forget(m) }
        for i in 0..NST { tot[i] += rep.stats[i] as u64; cases_with[i] += (rep.stats[i] > 0) as u64 }
        if rep.nontrivial.unwrap_or_else(|| (pl.nontrivial)(&rep.stats)) {
            hashes.write_all(&hash(&case).to_le_bytes()).unwrap();
            if nsample < 1 && case.ops.len() < 20 { samples.push(case.encode()); nsample += 1 }
        }
        done += 1;
        idx += step;
    }
    hashes.flush().unwrap();
    println!("DONE {done}");
    for i in 0..NST { println!("STAT {} {} {}", STATS[i], tot[i], cases_with[i]) }
    for s in samples { println!("SAMPLE {s}") }
    0
}
/// run one encoded case in this process; exit 0 ok, 3 violation
pub fn one(a: &[&str]) -> i32 {
    let pl = plan(arg(a, "--prop").unwrap()).unwrap();
    let case = Case::decode(arg(a, "--case").unwrap()).unwrap();
    let trace = a.contains(&"--trace");
    install_hook();
    rcv_core::track::ENABLED.store(true, std::sync::atomic::Ordering::Relaxed);
    cpu_limit(num(a, "--cpu", 20) as i64);
    let mut m = build(case.arc, case.kind as usize);
    let info = m.info();
    if trace { println!("family {} items {}", if case.arc { "arc" } else { "rc" }, info.name); }
    let rep = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_case(&mut *m, &case, &Cfg { props: if a.contains(&"--all") { !0 } else { pl.mask }, trace, quick_views: false, record: false })));
    let rep = match rep { Ok(r) => r, Err(_) => {
        println!("FAIL crash an internal check failed: {}", rcv_core::machine::LAST_PANIC.with(|p| p.borrow().clone())); std::process::exit(3) } };
    if rep.clean { drop(m) } else { std::mem::forget(m) }
    for l in &rep.trace { println!("{l}") }
    if a.contains(&"--stats") { for i in 0..NST { if rep.stats[i] > 0 { println!("STAT {} {}", STATS[i], rep.stats[i]) } } }
    println!("NONTRIVIAL {}", (pl.nontrivial)(&rep.stats));
    match rep.fail {
        Some(f) => { println!("FAIL {} {} (at step {})", f.tag, f.msg, if f.at == usize::MAX { "final clean-up".to_string() } else { f.at.to_string() }); 3 }
        None => { println!("OK"); 0 }
    }
}
/// Prints, per case, "C <encoded case>" and then the calls it makes on the real library, each before it is made.
pub fn emit(a: &[&str]) -> i32 {
    let pl = plan(arg(a, "--prop").unwrap()).unwrap();
    let st = strategy(pl);
    let (seed, n, skip, step) = (num(a, "--seed", 1), num(a, "--n", 1), num(a, "--from", 0), num(a, "--step", 1));
    install_hook();
    rcv_core::track::ENABLED.store(true, std::sync::atomic::Ordering::Relaxed);
    let mut i = skip;
    while i < n {
        cpu_limit(20);
        let case = match arg(a, "--case") { Some(c) => Case::decode(c).unwrap(), None => tree(&st, seed, i).current() };
        println!("C {i} {}", case.encode());
        if case.profile < 100 {
            let mut m = build(case.arc, case.kind as usize);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_case(&mut *m, &case, &Cfg { props: 0, trace: false, quick_views: false, record: true })));
            match r { Ok(r) => { if r.clean { drop(m) } else { std::mem::forget(m) } if (pl.nontrivial)(&r.stats) { println!("N") } }, Err(_) => std::mem::forget(m) }
        } else { println!("N") }
        i += step;
    }
    0
}
#[derive(Debug, Clone, PartialEq)]
enum Res { Ok, Bad(String), Hang }
fn solo(exe: &std::path::Path, prop: &str, c: &Case) -> Res {
    let o = Command::new(exe).args(["e1-one", "--prop", prop, "--case", &c.encode()]).stdin(Stdio::null()).stderr(Stdio::null()).output().unwrap();
    use std::os::unix::process::ExitStatusExt;
    match (o.status.code(), o.status.signal()) {
        (Some(0), _) => Res::Ok,
        (Some(3), _) => Res::Bad(String::from_utf8_lossy(&o.stdout).lines().rev().find(|l| l.starts_with("FAIL")).unwrap_or("FAIL").to_string()),
        (_, Some(26)) => Res::Hang,
        (c, s) => Res::Bad(format!("FAIL crash the process died (code {c:?}, signal {s:?})")),
    }
}
/// exit 0: held; 1: prints "VIOLATED <replay>"; 2: error
pub fn drive(a: &[&str]) -> i32 {
    let prop = arg(a, "--prop").unwrap();
    let pl = plan(prop).unwrap();
    let seed = num(a, "--seed", 1);
    let n = num(a, "--n", pl.quick as u64 * num(a, "--share", 1000) / 1000);
    let tag = arg(a, "--tag").unwrap_or("e1");
    let shards = num(a, "--shards", 8);
    let dir = std::path::PathBuf::from(arg(a, "--dir").unwrap());
    let replay = arg(a, "--replay").unwrap();
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let kids: Vec<_> = (0..shards).map(|s| {
        let st = dir.join(format!("status{s}"));
        std::fs::write(&st, (s as u64).to_le_bytes()).unwrap();
        Command::new(&exe).args(["e1-worker", "--prop", prop, "--seed", &seed.to_string(), "--from", &s.to_string(), "--n", &n.to_string(), "--step", &shards.to_string(),
            "--status", st.to_str().unwrap(), "--hashes", dir.join(format!("hashes{s}")).to_str().unwrap()])
            .stdin(Stdio::null()).stderr(Stdio::null()).stdout(Stdio::piped()).spawn().unwrap()
    }).collect();
    let mut bad: Vec<(u64, String)> = vec![];
    let mut hangs = vec![];
    let mut evals = 0u64;
    let mut nt = HashSet::new();
    let mut stats: Vec<(String, u64, u64)> = STATS.iter().map(|s| (s.to_string(), 0, 0)).collect();
    let mut samples = vec![];
    for (s, k) in kids.into_iter().enumerate() {
        use std::os::unix::process::ExitStatusExt;
        let o = k.wait_with_output().unwrap();
        let out = String::from_utf8_lossy(&o.stdout).to_string();
        let mut idx = [0u8; 8];
        std::fs::File::open(dir.join(format!("status{s}"))).unwrap().read_exact(&mut idx).unwrap();
        let idx = u64::from_le_bytes(idx);
        match o.status.code() {
            Some(0) => {}
            Some(3) => bad.push((idx, out.lines().last().unwrap_or("").to_string())),
            _ if o.status.signal() == Some(26) => hangs.push(idx),
            _ => bad.push((idx, format!("crash {:?}", o.status))),
        }
        for l in out.lines() {
            let w: Vec<&str> = l.splitn(2, ' ').collect();
            match w[0] {
                "DONE" => evals += w[1].parse::<u64>().unwrap(),
                "STAT" => { let x: Vec<&str> = w[1].split(' ').collect(); if let Some(e) = stats.iter_mut().find(|e| e.0 == x[0]) { e.1 += x[1].parse::<u64>().unwrap(); e.2 += x[2].parse::<u64>().unwrap() } }
                "SAMPLE" => samples.push(w[1].to_string()),
                _ => {}
            }
        }
        if let Ok(b) = std::fs::read(dir.join(format!("hashes{s}"))) { for c in b.chunks_exact(8) { nt.insert(u64::from_le_bytes(c.try_into().unwrap())); } }
    }
    println!("EVALS {evals}");
    println!("NONTRIVIAL {}", nt.len());
    println!("RULE {}", pl.rule);
    for (n, t, c) in &stats { println!("STAT {n} {t} {c}") }
    for s in &samples { println!("SAMPLE {s}") }
    let st = strategy(pl);
    bad.sort();
    for (idx, why) in bad.iter().take(3) {
        let mut t = tree(&st, seed, *idx);
        let first = solo(&exe, prop, &t.current());
        let Res::Bad(mut msg) = first else {
            // seen in the worker but not alone: report only if a second worker run of this very case shows it again
            println!("ERROR case {idx} failed in the worker ({why}) but not alone ({first:?})");
            continue;
        };
        let mut best = t.current();
        let mut tries = 0u32;
        let t0 = std::time::Instant::now();
        let mut more = t.simplify();
        while more && tries < 1500 && t0.elapsed().as_secs() < 60 {
            tries += 1;
            let c = t.current();
            more = match solo(&exe, prop, &c) {
                Res::Bad(m) => { msg = m; best = c; t.simplify() }
                _ => t.complicate(),
            };
        }
        // further: blank out single operations and arguments, then remove the blanks
        let mut go = |c: Case, best: &mut Case, msg: &mut String, tries: &mut u32| if c != *best && *tries < 4000 && t0.elapsed().as_secs() < 120 {
            *tries += 1;
            if let Res::Bad(m) = solo(&exe, prop, &c) { *msg = m; *best = c }
        };
        for _round in 0..3 {
            let was = best.clone();
            let mut i = 0;
            while i < best.ops.len() {
                let n = best.ops.len();
                let mut c = best.clone(); c.ops.remove(i);
                go(c, &mut best, &mut msg, &mut tries);
                if best.ops.len() < n { continue }
                let mut c = best.clone(); c.ops[i][0] = 0;
                go(c, &mut best, &mut msg, &mut tries);
                for j in 1..4 { if best.ops[i][j] != 0 { let mut c = best.clone(); c.ops[i][j] = 0; go(c, &mut best, &mut msg, &mut tries); } }
                i += 1;
            }
            if best == was { break }
        }
        std::fs::write(replay, format!("{tag} {prop} {}\n", best.encode())).unwrap();
        println!("VIOLATED {msg}");
        println!("SHRUNK to {} operations after {tries} tries", best.ops.len());
        return 1;
    }
    for idx in &hangs {
        let c = tree(&st, seed, *idx).current();
        if prop == "C17" || prop == "C23" || prop == "C13" || prop == "C24" {
            if solo(&exe, prop, &c) == Res::Hang {
                std::fs::write(replay, format!("{tag} {prop} {}\n", c.encode())).unwrap();
                println!("VIOLATED hang a call of this single-threaded history did not return within 20 s of CPU time (a case takes well under a millisecond)");
                return 1;
            }
            println!("ERROR shard ran out of CPU time but case {idx} does not hang alone");
            return 2;
        }
        println!("INCOMPLETE case {idx} of this history does not return; left to C17");
    }
    if !bad.is_empty() { return 2 }
    if hangs.is_empty() { 0 } else { 4 }
}
