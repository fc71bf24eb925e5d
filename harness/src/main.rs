//! Command line: see `usage`.
use ilcheck::engine::*;
use ilcheck::props;
use std::fmt::Write as _;
use std::os::unix::process::ExitStatusExt;
use std::process::{exit, Command};
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn usage() -> ! {
    eprintln!(
        "usage: ilcheck run ID TIER SEED VERIF_DIR | replay FILE | list\n\
         (internal: worker, case, choices, probe)"
    );
    exit(2)
}

const HANG_QUICK: u64 = 780;
/// The exit code of a worker in which a case does not end.
const HUNG: i32 = 97;
/// The time a case has (they take milliseconds), in the worker and then alone.
const CASE_LIMIT: u64 = 90;
const ADDRESS_SPACE: u64 = 24 << 30;

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(resource: i32, limit: *const RLimit) -> i32;
}
/// A case that takes all the memory ends its process, with a signal of its own.
fn limit_memory() {
    const RLIMIT_AS: i32 = 9;
    let l = RLimit {
        cur: ADDRESS_SPACE,
        max: ADDRESS_SPACE,
    };
    unsafe {
        setrlimit(RLIMIT_AS, &l);
    }
}

/// What to print if shrinking a failure does not end, and since when it runs.
static SHRINKING: Mutex<Option<(Instant, String)>> = Mutex::new(None);

/// Looks for cases that do not end.
fn watch() {
    std::thread::spawn(|| {
        let mut seen: Vec<(u64, Instant)> = vec![(0, Instant::now()); THREADS];
        loop {
            std::thread::sleep(Duration::from_millis(500));
            if let Ok(g) = SHRINKING.lock() {
                if let Some((t, text)) = &*g {
                    if t.elapsed().as_secs() > 60 {
                        println!("{}", text);
                        exit(1)
                    }
                    continue;
                }
            }
            for (t, s) in seen.iter_mut().enumerate() {
                let k = STARTED[t].load(Ordering::Relaxed);
                if k == 0 || k != s.0 {
                    *s = (k, Instant::now());
                } else if s.1.elapsed().as_secs() > CASE_LIMIT {
                    exit(HUNG)
                }
            }
        }
    });
}
const HANG_THOROUGH: u64 = 6 * 3600;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s = |i: usize| -> &str { a.get(i).map(|x| x.as_str()).unwrap_or_else(|| usage()) };
    match s(0) {
        "list" => {
            for p in props::all() {
                println!("{}", p.id);
                for x in &p.suites {
                    println!("  {} quick={} thorough={}", x.name, x.quick, x.thorough);
                }
            }
        }
        "run" => run(s(1), s(2), s(3).parse().unwrap_or(1), s(4)),
        "worker" => worker(s(1), s(2), s(3).parse().unwrap_or(1), s(4), s(5)),
        "case" => case(
            s(1),
            s(2).parse().unwrap(),
            s(3).parse().unwrap(),
            s(4).parse().unwrap(),
            s(5),
        ),
        "choices" => choices(s(1), s(2), s(3)),
        "replay" => replay(s(1)),
        "probe" => props::probe(s(1)),
        "mixed" => mixed(s(1), s(2), s(3), s(4).parse().unwrap_or(0), s(5)),
        "guide" => guide(s(1), s(2).parse().unwrap_or(1), s(3).parse().unwrap_or(1), s(4).parse().unwrap_or(0), s(5)),
        _ => usage(),
    }
}

fn find(id: &str) -> Property {
    match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            exit(2)
        }
    }
}

fn exe() -> std::path::PathBuf {
    std::env::current_exe().expect("no current exe")
}

/// Waits for a child with a time limit. None: it had to be stopped.
fn wait(mut c: std::process::Child, limit: u64) -> Option<std::process::ExitStatus> {
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(s)) => return Some(s),
            Ok(None) => {
                if t0.elapsed().as_secs() > limit {
                    let _ = c.kill();
                    let _ = c.wait();
                    return None;
                }
                std::thread::sleep(Duration::from_millis(10));
            }
            Err(_) => return None,
        }
    }
}

/// A child that ended in a way no handled failure ends.
fn crashed(s: &std::process::ExitStatus) -> Option<i32> {
    match s.signal() {
        // Killed from outside (e.g. out of memory): nothing can be concluded.
        Some(9) | Some(15) | Some(2) => None,
        x => x,
    }
}

fn run(id: &str, tier: &str, seed: u64, dir: &str) {
    let t0 = Instant::now();
    find(id);
    let out = format!("{}/out", dir);
    std::fs::create_dir_all(&out).expect("cannot create the output directory");
    std::fs::create_dir_all(format!("{}/evidence", dir)).expect("cannot create evidence");
    let evidence = format!("{}/evidence/{}.json", dir, id);
    let _ = std::fs::remove_file(&evidence);
    let progress = format!("{}/{}.progress", out, id);

    let child = Command::new(exe())
        .args(["worker", id, tier, &seed.to_string(), dir, &progress])
        .spawn()
        .expect("cannot start the worker");
    let limit = if tier == "thorough" {
        HANG_THOROUGH
    } else {
        HANG_QUICK
    };
    let status = match wait(child, limit) {
        Some(s) => s,
        None => {
            eprintln!("{}: the time limit was reached: no conclusion", id);
            exit(2)
        }
    };
    if status.code() == Some(1) {
        exit(1);
    }
    if status.code() == Some(0) {
        match known_findings(id, dir) {
            Ok(()) => exit(0),
            Err(m) => {
                println!("{}", m);
                exit(1)
            }
        }
    }
    // The process died or a case does not end: find the case. All those that were running
    // are tried again, each alone in a process.
    let hung = status.code() == Some(HUNG);
    if !hung && crashed(&status).is_none() {
        eprintln!("{}: the worker ended with {}: no conclusion", id, status);
        exit(2)
    }
    let p = find(id);
    let running: Vec<(usize, u64, String, Option<std::process::Child>)> = Progress::read(&progress)
        .into_iter()
        .enumerate()
        .map(|(k, (si, idx))| {
            let cf = format!("{}/{}.{}.choices", out, id, k);
            let c = Command::new(exe())
                .args(["case", id, &si.to_string(), &idx.to_string(), &seed.to_string(), &cf])
                .stderr(std::process::Stdio::null())
                .stdout(std::process::Stdio::null())
                .spawn()
                .ok();
            (si, idx, cf, c)
        })
        .collect();
    let t1 = Instant::now();
    let mut bad: Vec<(usize, u64, Vec<u64>, Option<i32>)> = Vec::new();
    for (si, idx, cf, c) in running {
        if let Some(c) = c {
            let left = CASE_LIMIT.saturating_sub(t1.elapsed().as_secs());
            let st = wait(c, left);
            let sig = st.as_ref().and_then(crashed);
            if st.is_none() || sig.is_some() {
                bad.push((si, idx, read_choices(&cf), sig));
            }
        }
        let _ = std::fs::remove_file(&cf);
    }
    let (si, idx, start, sig) = match bad.into_iter().next() {
        Some(x) => x,
        None => {
            eprintln!("{}: the worker ended with {} and no case does so alone", id, status);
            exit(2)
        }
    };
    let name = p.suites[si].name;
    crash(id, name, idx, start, sig, tier, seed, dir, t0)
}

/// Runs the probes of the recorded findings of a property.
fn known_findings(id: &str, dir: &str) -> Result<(), String> {
    let text = std::fs::read_to_string(format!("{}/known_findings.txt", dir)).unwrap_or_default();
    for (name, what) in props::probes(id) {
        let c = Command::new(exe())
            .args(["probe", name])
            .stderr(std::process::Stdio::null())
            .stdout(std::process::Stdio::null())
            .spawn()
            .expect("cannot start a probe");
        let st = wait(c, 120);
        let fails = match st {
            Some(s) => !s.success(),
            None => false,
        };
        let listed = text
            .lines()
            .any(|l| l.starts_with("finding:") && l.contains(&format!("property={} ", id)) && l.contains(name));
        match (fails, listed) {
            (true, true) => println!("KNOWN-FINDING: property={} {} ({})", id, name, what),
            (true, false) => {
                let path = format!("{}/out/{}-{}.probe", dir, id, name);
                let _ = std::fs::write(&path, format!("probe={}\n{}\n", name, what));
                return Err(format!("VIOLATION property={} replay={}", id, path));
            }
            _ => (),
        }
    }
    Ok(())
}

fn read_choices(path: &str) -> Vec<u64> {
    std::fs::read_to_string(path)
        .unwrap_or_default()
        .split([',', '\n'])
        .filter_map(|x| x.trim().parse().ok())
        .collect()
}

fn worker(id: &str, tier: &str, seed: u64, dir: &str, progress: &str) {
    install_panic_hook();
    limit_memory();
    watch();
    let t0 = Instant::now();
    let p = find(id);
    let evidence = format!("{}/evidence/{}.json", dir, id);
    let prog = Arc::new(Progress::open(Some(progress)));
    // In the quick tier it is there for machines much slower than expected only.
    let budget = std::env::var("ILCHECK_BUDGET_S").ok().and_then(|x| x.parse().ok());
    let budget = Duration::from_secs(budget.unwrap_or(if tier == "thorough" { 3600 } else { 600 }));
    let mut stats = Vec::new();
    for (si, s) in p.suites.iter().enumerate() {
        let n = if tier == "thorough" {
            s.thorough
        } else {
            s.thorough.min(s.quick * props::quick_factor(p.id))
        };
        let t1 = Instant::now();
        // An equal part of the time that is left.
        let left = budget.saturating_sub(t0.elapsed()) / (p.suites.len() - si) as u32;
        let (st, fail) = run_suite(p.id, si, s, n, seed, t1 + left, &prog);
        if std::env::var("ILCHECK_TIMES").is_ok() {
            eprintln!("  {} {}: {} cases, {:.2} s", id, s.name, st.evaluations, t1.elapsed().as_secs_f64());
        }
        stats.push((s.name, st, t1.elapsed().as_secs_f64()));
        if let Some(f) = fail {
            report(&p, s, f, tier, seed, dir, &stats, t0)
        }
    }
    if stats.iter().all(|s| s.1.evaluations > 0) {
        guided_phase(&p, tier, seed, dir, &mut stats, t0);
    }
    let wall = t0.elapsed().as_secs_f64();
    let total: u64 = stats.iter().map(|s| s.1.evaluations + s.1.extra).sum();
    let nt: u64 = stats.iter().map(|s| s.1.distinct.len() as u64 + s.1.distinct_elsewhere).sum();
    write_evidence(&evidence, &p, tier, seed, &stats, wall, 0, "");
    println!(
        "{}: held on {} evaluations, {} distinct non-trivial cases, {:.1} s",
        id, total, nt, wall
    );
    exit(0)
}

/// The suites the guided search is for: random ones with short cases.
fn guided_suites(p: &Property) -> Vec<Suite> {
    p.suites
        .iter()
        // The histories of C26 are of threads, which say nothing about one another's coverage.
        .filter(|s| p.id != "C26" && s.kind == Kind::Random && s.quick * props::quick_factor(p.id) >= 5000)
        .copied()
        .collect()
}

/// One process (`k`) of the guided search. It runs its suites for `ms` milliseconds and
/// writes `out`.stats, `out`.log (the case it runs) and, if one fails, `out`.fail.
fn guide(id: &str, seed: u64, ms: u64, k: usize, out: &str) {
    install_panic_hook();
    limit_memory();
    watch();
    let p = find(id);
    let all = guided_suites(&p);
    let log = std::fs::File::create(format!("{}.log", out)).ok();
    if all.is_empty() || !covrt::instrumented() {
        exit(0)
    }
    // With more suites than processes each has several.
    let mine: Vec<Suite> = if all.len() <= THREADS {
        vec![all[k % all.len()]]
    } else {
        all.iter().enumerate().filter(|(i, _)| i % THREADS == k).map(|(_, s)| *s).collect()
    };
    let each = Duration::from_millis(ms / mine.len() as u64);
    let mut text = String::new();
    for s in mine {
        let _ = std::fs::write(format!("{}.suite", out), s.name);
        let log = log.as_ref().and_then(|f| f.try_clone().ok());
        let (st, found) = on_stack(move || {
            let seed = case_seed(seed, id_of(&s), "guided", k as u64);
            ilcheck::guided::search(&s, seed, Instant::now() + each, log.as_ref())
        });
        let _ = writeln!(
            text,
            "{}|{} {} {} {} {} {}",
            s.name,
            st.runs,
            st.extra,
            st.nontrivial,
            st.distinct.len(),
            st.corpus,
            st.features
        );
        if let Some(f) = found {
            let c: Vec<String> = f.choices.iter().map(|x| x.to_string()).collect();
            let _ = std::fs::write(format!("{}.fail", out), format!("{}\n{}\n{}", s.name, c.join(","), f.message));
            let _ = std::fs::write(format!("{}.stats", out), &text);
            exit(1)
        }
    }
    let _ = std::fs::write(format!("{}.stats", out), &text);
    exit(0)
}

fn id_of(s: &Suite) -> &'static str {
    s.name
}

/// Shrinks a failure and reports it.
#[allow(clippy::too_many_arguments)]
fn report(
    p: &Property,
    s: &Suite,
    f: Failure,
    tier: &str,
    seed: u64,
    dir: &str,
    stats: &[(&'static str, SuiteStats, f64)],
    t0: Instant,
) -> ! {
    let id = p.id;
    let evidence = format!("{}/evidence/{}.json", dir, id);
    // As it is now, in case shrinking it does not end.
    let path = write_replay(dir, id, s.name, &f.choices, &f.message, "");
    write_evidence(&evidence, p, tier, seed, stats, t0.elapsed().as_secs_f64(), 1, "");
    *SHRINKING.lock().unwrap() = Some((
        Instant::now(),
        format!(
            "{}: suite {} case {}: {}\nVIOLATION property={} replay={}",
            id, s.name, f.index, f.message, id, path
        ),
    ));
    // Shrinking runs in a thread of its own, with the stack the cases had.
    let suite = *s;
    let index = f.index;
    let (choices, message) = on_stack(move || {
        shrink(
            f.choices,
            f.message,
            |l| {
                let mut src = Src::replay(l);
                let mut ctx = Ctx::default();
                match run_one(suite.f, &mut src, &mut ctx) {
                    Err(m) => Some((src.choices, m)),
                    Ok(()) => None,
                }
            },
            20_000,
        )
    });
    let c2 = choices.clone();
    let desc = on_stack(move || {
        let mut src = Src::replay(&c2);
        let mut ctx = Ctx {
            want_desc: true,
            ..Ctx::default()
        };
        let _ = run_one(suite.f, &mut src, &mut ctx);
        ctx.desc
    });
    let path = write_replay(dir, id, s.name, &choices, &message, &desc);
    write_evidence(&evidence, p, tier, seed, stats, t0.elapsed().as_secs_f64(), 1, "");
    println!("{}: suite {} case {}: {}", id, s.name, index, message);
    if !desc.is_empty() {
        println!("{}: {}", id, clip(&desc, 2000));
    }
    println!("VIOLATION property={} replay={}", id, path);
    exit(1);
}

/// Seconds of the guided search.
fn guided_seconds(tier: &str) -> u64 {
    if let Some(n) = std::env::var("ILCHECK_GUIDED_S").ok().and_then(|x| x.parse().ok()) {
        return n;
    }
    if tier == "thorough" {
        900
    } else {
        10
    }
}

/// The coverage-guided search, in processes of the instrumented build. What it finds counts
/// only if the plain build fails too.
fn guided_phase(
    p: &Property,
    tier: &str,
    seed: u64,
    dir: &str,
    stats: &mut Vec<(&'static str, SuiteStats, f64)>,
    t0: Instant,
) {
    let cov = match std::env::var("ILCHECK_GUIDED") {
        Ok(c) if std::path::Path::new(&c).exists() => c,
        _ => return,
    };
    let suites = guided_suites(p);
    let seconds = guided_seconds(tier);
    if suites.is_empty() || seconds == 0 {
        return;
    }
    let t1 = Instant::now();
    let outs: Vec<String> = (0..THREADS).map(|k| format!("{}/out/{}.g{}", dir, p.id, k)).collect();
    let clear = |o: &String| {
        for x in ["stats", "fail", "log", "suite"] {
            let _ = std::fs::remove_file(format!("{}.{}", o, x));
        }
    };
    outs.iter().for_each(clear);
    let ms = (seconds * 1000).to_string();
    let children: Vec<_> = outs
        .iter()
        .enumerate()
        .filter_map(|(k, o)| {
            Command::new(&cov)
                .args(["guide", p.id, &seed.to_string(), &ms, &k.to_string(), o])
                .stderr(std::process::Stdio::null())
                .stdout(std::process::Stdio::null())
                .spawn()
                .ok()
                .map(|c| (o, c))
        })
        .collect();
    let limit = Instant::now() + Duration::from_secs(seconds + CASE_LIMIT + 30);
    let mut found = Vec::new();
    for (o, c) in children {
        let left = limit.saturating_duration_since(Instant::now()).as_secs();
        let st = wait(c, left);
        for l in std::fs::read_to_string(format!("{}.stats", o)).unwrap_or_default().lines() {
            let (name, rest) = l.rsplit_once('|').unwrap_or_default();
            let n: Vec<u64> = rest.split(' ').filter_map(|x| x.parse().ok()).collect();
            if n.len() != 6 {
                continue;
            }
            let name = format!("{} (coverage-guided)", name);
            let k = match stats.iter().position(|s| s.0 == name) {
                Some(k) => k,
                None => {
                    stats.push((Box::leak(name.into_boxed_str()), SuiteStats::default(), 0.0));
                    stats.len() - 1
                }
            };
            let e = &mut stats[k];
            e.1.evaluations += n[0];
            e.1.extra += n[1];
            e.1.nontrivial += n[2];
            e.1.distinct_elsewhere += n[3];
            *e.1.classes.entry("kept for new coverage").or_insert(0) += n[4];
            *e.1.classes.entry("coverage features").or_insert(0) += n[5];
            e.2 = seconds as f64;
        }
        let hung = matches!(&st, Some(s) if s.code() == Some(HUNG));
        match &st {
            Some(s) if s.code() == Some(0) => (),
            Some(s) if s.code() == Some(1) => {
                let text = std::fs::read_to_string(format!("{}.fail", o)).unwrap_or_default();
                let mut it = text.splitn(3, '\n');
                if let (Some(n), Some(c), Some(_)) = (it.next(), it.next(), it.next()) {
                    let c: Vec<u64> = c.split(',').filter_map(|x| x.parse().ok()).collect();
                    found.push((n.to_string(), c));
                }
            }
            Some(s) if hung || crashed(s).is_some() => {
                // The case it was running, with its random part.
                let name = std::fs::read_to_string(format!("{}.suite", o)).unwrap_or_default();
                let b: Vec<u64> = std::fs::read(format!("{}.log", o))
                    .unwrap_or_default()
                    .chunks_exact(8)
                    .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
                    .collect();
                if b.len() < 2 || b.len() < 2 + b[0] as usize {
                    continue;
                }
                let f = format!("{}.fail", o);
                let t: Vec<String> = b[2..2 + b[0] as usize].iter().map(|x| x.to_string()).collect();
                let _ = std::fs::write(&f, t.join(","));
                let full = format!("{}.log", o);
                for bin in [exe(), std::path::PathBuf::from(&cov)] {
                    let c = Command::new(bin)
                        .args(["mixed", p.id, &name, &f, &b[1].to_string(), &full])
                        .stderr(std::process::Stdio::null())
                        .stdout(std::process::Stdio::null())
                        .spawn();
                    let st = c.ok().map(|c| wait(c, CASE_LIMIT));
                    let l = read_choices(&full);
                    match st {
                        Some(None) => crash(p.id, &name, 0, l, None, tier, seed, dir, t0),
                        Some(Some(s)) if crashed(&s).is_some() => {
                            if probe_crash(p.id, &name, dir, &l) {
                                crash(p.id, &name, 0, l, crashed(&s), tier, seed, dir, t0)
                            }
                        }
                        _ => (),
                    }
                    let _ = std::fs::remove_file(&full);
                }
                eprintln!("{}: a guided process ended with {:?} and its case passes", p.id, st);
            }
            _ => eprintln!("{}: a guided process ended with {:?}", p.id, st),
        }
    }
    outs.iter().for_each(clear);
    for s in stats.iter_mut() {
        if s.0.ends_with("(coverage-guided)") {
            s.2 = t1.elapsed().as_secs_f64();
        }
    }
    for (name, c) in found {
        let s = match p.suites.iter().find(|s| s.name == name) {
            Some(s) => *s,
            None => continue,
        };
        // Some cases depend on the order of a hash map: a few attempts.
        for _ in 0..20 {
            let c2 = c.clone();
            let r = on_stack(move || {
                let mut src = Src::replay(&c2);
                let r = run_one(s.f, &mut src, &mut Ctx::default());
                (r, src.choices)
            });
            if let (Err(message), choices) = r {
                let f = Failure {
                    suite: 0,
                    index: 0,
                    choices,
                    message,
                };
                report(p, &s, f, tier, seed, dir, stats, t0)
            }
        }
        eprintln!("{}: a failure of the guided search in {} is not one of the plain build", p.id, name);
    }
}

/// Runs given choices and then random ones, writing them as they are drawn.
fn mixed(id: &str, suite: &str, file: &str, tail: u64, out: &str) {
    install_panic_hook();
    limit_memory();
    let p = find(id);
    let s = *p.suites.iter().find(|s| s.name == suite).expect("no suite");
    let l = read_choices(file);
    let out = out.to_string();
    let r = on_stack(move || {
        let mut src = Src::mixed(&l, tail);
        src.log_to(&out);
        run_one(s.f, &mut src, &mut Ctx::default())
    });
    exit(if r.is_ok() { 0 } else { 1 })
}

/// Tells if the choices end the process.
fn probe_crash(id: &str, name: &str, dir: &str, l: &[u64]) -> bool {
    let f = format!("{}/out/{}.try", dir, id);
    let text: Vec<String> = l.iter().map(|x| x.to_string()).collect();
    std::fs::write(&f, text.join(",")).expect("cannot write");
    let c = Command::new(exe())
        .args(["choices", id, name, &f])
        .stderr(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .spawn()
        .expect("cannot start a case");
    let r = matches!(wait(c, 10), Some(s) if crashed(&s).is_some());
    let _ = std::fs::remove_file(&f);
    r
}

/// Shrinks and reports a case that ends the process (`sig`) or does not end.
#[allow(clippy::too_many_arguments)]
fn crash(
    id: &str,
    name: &str,
    idx: u64,
    start: Vec<u64>,
    sig: Option<i32>,
    tier: &str,
    seed: u64,
    dir: &str,
    t0: Instant,
) -> ! {
    let p = find(id);
    let (best, msg) = match sig {
        None => (start, format!("the case does not end in {} s", CASE_LIMIT)),
        Some(sig) => {
            let msg = format!("the process died with signal {}", sig);
            if probe_crash(id, name, dir, &start) {
                shrink(
                    start,
                    msg.clone(),
                    |l| {
                        if probe_crash(id, name, dir, l) {
                            Some((l.to_vec(), msg.clone()))
                        } else {
                            None
                        }
                    },
                    400,
                )
            } else {
                (start, msg)
            }
        }
    };
    let path = write_replay(dir, id, name, &best, &msg, "(the process ends)");
    write_evidence(
        &format!("{}/evidence/{}.json", dir, id),
        &p,
        tier,
        seed,
        &[],
        t0.elapsed().as_secs_f64(),
        1,
        "The process died or did not end, so no case was counted.",
    );
    println!("{}: suite {} case {}: {}", id, name, idx, msg);
    println!("VIOLATION property={} replay={}", id, path);
    exit(1);
}

fn on_stack<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(f)
        .expect("cannot start a thread")
        .join()
        .expect("the thread failed")
}

fn case(id: &str, si: usize, idx: u64, seed: u64, out: &str) {
    install_panic_hook();
    limit_memory();
    let p = find(id);
    let suite = p.suites[si];
    let out = out.to_string();
    let pid = p.id;
    let r = on_stack(move || {
        let index = if suite.kind == Kind::Sweep {
            Some(idx)
        } else {
            None
        };
        let mut src = Src::random(case_seed(seed, pid, suite.name, idx), index);
        src.log_to(&out);
        run_one(suite.f, &mut src, &mut Ctx::default())
    });
    exit(if r.is_ok() { 0 } else { 1 })
}

fn choices(id: &str, suite: &str, file: &str) {
    install_panic_hook();
    limit_memory();
    let p = find(id);
    let s = *p.suites.iter().find(|s| s.name == suite).expect("no suite");
    let l = read_choices(file);
    let r = on_stack(move || {
        let mut src = Src::replay(&l);
        let mut ctx = Ctx {
            want_desc: true,
            ..Ctx::default()
        };
        let r = run_one(s.f, &mut src, &mut ctx);
        (r, ctx.desc)
    });
    println!("{}", r.1);
    match r.0 {
        Ok(()) => exit(0),
        Err(m) => {
            println!("{}", m);
            exit(1)
        }
    }
}

fn replay(file: &str) {
    let text = std::fs::read_to_string(file).expect("cannot read the file");
    let get = |k: &str| {
        text.lines()
            .find_map(|l| l.strip_prefix(&format!("{}=", k)).map(|x| x.to_string()))
            .unwrap_or_default()
    };
    if !get("probe").is_empty() {
        let st = Command::new(exe()).args(["probe", &get("probe")]).status();
        exit(if st.map(|s| s.success()).unwrap_or(false) { 0 } else { 1 });
    }
    let (id, suite) = (get("property"), get("suite"));
    let f = format!("{}.choices.tmp", file);
    std::fs::write(&f, get("choices")).expect("cannot write");
    let st = Command::new(exe())
        .args(["choices", &id, &suite, &f])
        .status()
        .expect("cannot run");
    let _ = std::fs::remove_file(&f);
    if st.success() {
        println!("the case passes");
        exit(0)
    }
    println!("VIOLATION property={} replay={}", id, file);
    exit(1)
}

fn write_replay(dir: &str, id: &str, suite: &str, choices: &[u64], msg: &str, desc: &str) -> String {
    let path = format!("{}/out/{}.replay", dir, id);
    let c: Vec<String> = choices.iter().map(|x| x.to_string()).collect();
    let one = |s: &str| s.replace('\n', " ");
    let text = format!(
        "property={}\nsuite={}\nchoices={}\nmessage={}\ndescription={}\n",
        id,
        suite,
        c.join(","),
        one(msg),
        one(desc)
    );
    let _ = std::fs::write(&path, text);
    path
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    path: &str,
    p: &Property,
    tier: &str,
    seed: u64,
    stats: &[(&'static str, SuiteStats, f64)],
    wall: f64,
    violations: u64,
    note: &str,
) {
    let evals: u64 = stats.iter().map(|s| s.1.evaluations + s.1.extra).sum();
    let nt: u64 = stats.iter().map(|s| s.1.distinct.len() as u64 + s.1.distinct_elsewhere).sum();
    let mut samples = Vec::new();
    for (name, st, _) in stats {
        for (i, d) in st.samples.iter().take(3) {
            samples.push(format!("{}: case {}: {}", name, i, clip(d, 700)));
        }
    }
    let mut o = String::from("{\n");
    let _ = writeln!(o, " \"property\": {},", js(p.id));
    let _ = writeln!(o, " \"tier\": {},", js(if tier == "thorough" { "thorough" } else { "quick" }));
    let _ = writeln!(o, " \"seed\": {},", seed);
    let _ = writeln!(o, " \"level\": {},", js(props::level(p.id)));
    let _ = writeln!(o, " \"coverage\": {{");
    let _ = writeln!(o, "  \"evaluations\": {},", evals);
    let _ = writeln!(o, "  \"distinct_nontrivial\": {},", nt);
    let _ = writeln!(o, "  \"rule\": {},", js(p.rule));
    if !note.is_empty() {
        let _ = writeln!(o, "  \"note\": {},", js(note));
    }
    let _ = writeln!(o, "  \"suites\": [");
    for (i, (name, st, w)) in stats.iter().enumerate() {
        let cl: Vec<String> = st
            .classes
            .iter()
            .map(|(k, v)| format!("{}: {}", js(k), v))
            .collect();
        let _ = writeln!(
            o,
            "   {{\"name\": {}, \"cases\": {}, \"evaluations_inside_cases\": {}, \"nontrivial\": {}, \"distinct_nontrivial\": {}, \"seconds\": {:.2}, \"classes\": {{{}}}}}{}",
            js(name), st.evaluations, st.extra, st.nontrivial, st.distinct.len() as u64 + st.distinct_elsewhere, w, cl.join(", "),
            if i + 1 < stats.len() { "," } else { "" }
        );
    }
    let _ = writeln!(o, "  ],");
    let sm: Vec<String> = samples.iter().map(|s| format!("   {}", js(s))).collect();
    let _ = writeln!(o, "  \"samples\": [\n{}\n  ]", sm.join(",\n"));
    let _ = writeln!(o, " }},");
    let asm: Vec<String> = p.assumptions.iter().map(|s| js(s)).collect();
    let _ = writeln!(o, " \"assumptions\": [{}],", asm.join(", "));
    let _ = writeln!(o, " \"wall_s\": {:.2},", wall);
    let _ = writeln!(o, " \"violations\": {}", violations);
    o.push_str("}\n");
    if let Err(e) = std::fs::write(path, o) {
        eprintln!("cannot write {}: {}", path, e);
        exit(2)
    }
}
