use std::collections::BTreeMap;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::process::{exit, Command};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

use vharness::engine::*;
use vharness::props;

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}
fn limit(resource: i32, v: u64) {
    unsafe {
        setrlimit(resource, &[v, v]);
    }
}
const RLIMIT_CPU: i32 = 0;
const RLIMIT_CORE: i32 = 4;
const RLIMIT_AS: i32 = 9;
fn env(k: &str, default: u64) -> u64 {
    std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(default)
}
const HANG_WALL_S: u64 = 90;
const HANG_CPU_S: u64 = 60;
const EXIT_HANG: i32 = 77;

#[derive(Clone)]
struct Opts {
    id: String,
    tier: String,
    seed: u64,
    root: String,
    scale: f64,
    only: Option<String>,
    known_off: bool,
}

struct Known {
    sub: String,
    sig: String,
    what: String,
}

/// "known: property=C01 sub=<sub> sig=<sig> :: <what fails>"
fn load_known(root: &str, id: &str) -> Vec<Known> {
    let text = std::fs::read_to_string(format!("{}/known_findings.txt", root)).unwrap_or_default();
    let mut out = vec![];
    for l in text.lines() {
        let pre = format!("known: property={} sub=", id);
        if let Some(rest) = l.strip_prefix(&pre) {
            let (head, what) = rest.split_once(" :: ").expect("known_findings.txt: missing ' :: '");
            let (sub, sig) = head.split_once(" sig=").expect("known_findings.txt: missing sig");
            out.push(Known { sub: sub.to_string(), sig: sig.to_string(), what: what.to_string() });
        }
    }
    out
}

fn n_cases(s: &Sub, o: &Opts) -> u64 {
    let n = if o.tier == "thorough" { s.thorough } else { s.quick };
    ((n as f64 * o.scale) as u64).max(1)
}

/// cases with many elements
fn shorten(t: &str) -> String {
    if t.chars().count() <= 20_000 { t.to_string() } else { t.chars().take(20_000).collect::<String>() + " ..." }
}
fn write_replay(o: &Opts, sub: &str, fail: &Fail, record: &[u64], desc: &str, shrunk: bool) -> String {
    let (msg, desc) = (shorten(&fail.msg), shorten(desc));
    let dir = format!("{}/replays", o.root);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}.replay", dir, o.id, sub);
    let mut t = String::new();
    t += &format!("property={}\nsub={}\nsig={}\nmsg={}\nshrunk={}\ncase={}\nchoices=", o.id, sub, fail.sig, msg.replace('\n', "\\n"), shrunk, desc.replace('\n', "\\n"));
    t += &record.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    t += "\n";
    let _ = std::fs::write(&path, t);
    path
}

fn read_choices(path: &str) -> Vec<u64> {
    let t = std::fs::read_to_string(path).expect("replay file");
    let mut out = vec![];
    for l in t.lines() {
        let body = l.strip_prefix("choices=").unwrap_or(if l.contains('=') { "" } else { l });
        for x in body.split(',') {
            if let Ok(v) = x.trim().parse() {
                out.push(v);
            }
        }
    }
    out
}

fn worker(o: &Opts, status_path: &str) -> i32 {
    let t0 = Instant::now();
    limit(RLIMIT_CORE, 0);
    limit(RLIMIT_AS, 24 << 30);
    install_panic_hook();
    let prop = props::get(&o.id).expect("unknown property");
    let known = if o.known_off { vec![] } else { load_known(&o.root, &o.id) };
    let status = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(status_path).unwrap();
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);

    // development only
    let threads = env("VH_THREADS", threads as u64) as usize;
    let hang_wall = env("VH_HANG", HANG_WALL_S);
    let budget = if env("VH_NOSHRINK", 0) == 1 { 0 } else { 4000 };
    // slots[t] = (sub+1) << 40 | case, 0 when idle
    let slots: Vec<(AtomicU64, Mutex<Instant>)> = (0..threads).map(|_| (AtomicU64::new(0), Mutex::new(Instant::now()))).collect();
    let finished = AtomicBool::new(false);
    let total = Mutex::new(Stats::default());
    let per_sub: Mutex<BTreeMap<String, (u64, u64)>> = Mutex::new(BTreeMap::new());
    let mut founds: Vec<Found> = vec![];

    std::thread::scope(|sc| {
        // watchdog: only detects, the parent confirms by re-running the case under a CPU limit
        sc.spawn(|| {
            while !finished.load(Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(100));
                for s in &slots {
                    let v = s.0.load(Ordering::Relaxed);
                    if v != 0 {
                        let st = *s.1.lock().unwrap();
                        if st.elapsed().as_secs() > hang_wall && s.0.load(Ordering::Relaxed) == v {
                            exit(EXIT_HANG);
                        }
                    }
                }
            }
        });

        for (si, s) in prop.subs.iter().enumerate() {
            if let Some(only) = &o.only {
                if s.name != only {
                    continue;
                }
            }
            let n = n_cases(s, o);
            let next = AtomicU64::new(0);
            let stop_at = AtomicU64::new(u64::MAX);
            let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
            let sub_stats = Mutex::new((0u64, 0u64));
            std::thread::scope(|sc2| {
                for t in 0..threads {
                    let (next, stop_at, found, slots, status, known, total, sub_stats, prop) = (&next, &stop_at, &found, &slots, &status, &known, &total, &sub_stats, &prop);
                    std::thread::Builder::new()
                        .stack_size(8 << 20)
                        .spawn_scoped(sc2, move || {
                            let s = &prop.subs[si];
                            let mut st = Stats::default();
                            loop {
                                let i = next.fetch_add(1, Ordering::Relaxed);
                                if i >= n || i > stop_at.load(Ordering::Relaxed) {
                                    break;
                                }
                                let code = ((si as u64 + 1) << 40) | i;
                                *slots[t].1.lock().unwrap() = Instant::now();
                                slots[t].0.store(code, Ordering::Relaxed);
                                let _ = status.write_at(&code.to_le_bytes(), 8 * t as u64);
                                let mut src = Src::random(case_seed(o.seed, prop.id, s.name, i), case_size(i));
                                let mut ctx = Ctx { want_desc: i < 10, ..Ctx::default() };
                                let r = run_case(s, &mut src, &mut ctx);
                                slots[t].0.store(0, Ordering::Relaxed);
                                st.evaluations += 1;
                                match r {
                                    Ok(()) => {
                                        for l in &ctx.labels {
                                            *st.labels.entry(format!("{}:{}", s.name, l)).or_insert(0) += 1;
                                        }
                                        if ctx.nontrivial && st.nontrivial.len() < 4_000_000 {
                                            st.nontrivial.insert(hash_record(&src.record) ^ si as u64);
                                            if i < 60 && !ctx.desc.is_empty() && st.samples.len() < 2 && ctx.desc.len() < 1500 {
                                                st.samples.push(format!("{} (case {}): {}", s.name, i, ctx.desc));
                                            }
                                        }
                                    }
                                    Err(e) => {
                                        if let Some(k) = known.iter().find(|k| k.sub == s.name && k.sig == e.sig) {
                                            *st.known_hits.entry(k.what.clone()).or_insert(0) += 1;
                                        } else {
                                            stop_at.fetch_min(i, Ordering::Relaxed);
                                            found.lock().unwrap().push(Found { sub: s.name, case: i, fail: e, record: src.record });
                                        }
                                    }
                                }
                            }
                            let _ = status.write_at(&0u64.to_le_bytes(), 8 * t as u64);
                            let mut ss = sub_stats.lock().unwrap();
                            ss.0 += st.evaluations;
                            ss.1 += st.nontrivial.len() as u64;
                            let mut tt = total.lock().unwrap();
                            tt.evaluations += st.evaluations;
                            tt.nontrivial.extend(st.nontrivial);
                            for (k, v) in st.labels {
                                *tt.labels.entry(k).or_insert(0) += v;
                            }
                            for (k, v) in st.known_hits {
                                *tt.known_hits.entry(k).or_insert(0) += v;
                            }
                            tt.samples.extend(st.samples);
                        })
                        .unwrap();
                }
            });
            per_sub.lock().unwrap().insert(s.name.to_string(), sub_stats.into_inner().unwrap());
            let mut f = found.into_inner().unwrap();
            f.sort_by_key(|x| x.case);
            if let Some(x) = f.into_iter().next() {
                // should a later case or shrinking take the process down, the parent reports the failure as it was found
                let path = write_replay(o, x.sub, &x.fail, &x.record, "(not shrunk)", false);
                let note = format!("{}: sub-check {} case {}: [{}] {}\nVIOLATION property={} replay={}\n", o.id, x.sub, x.case, x.fail.sig, x.fail.msg, o.id, path);
                let _ = std::fs::write(format!("{}.found", status_path), note);
                founds.push(x);
            }
        }
        finished.store(true, Ordering::Relaxed);
    });

    let total = total.into_inner().unwrap();
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", o.id, k.what);
    }
    let mut viol = 0;
    for f in &founds {
        report(o, &prop, f, budget);
        viol += 1;
    }
    let _ = std::fs::remove_file(format!("{}.found", status_path));
    write_evidence(o, &prop, &total, &per_sub.into_inner().unwrap(), viol, t0.elapsed().as_secs_f64());
    println!("{} {}: {} cases, {} distinct non-trivial, {} violation(s), {:.1}s", o.id, o.tier, total.evaluations, total.nontrivial.len(), viol, t0.elapsed().as_secs_f64());
    if viol > 0 { 1 } else { 0 }
}

/// shrinks a failure, writes its replay file and reports it
fn report(o: &Opts, prop: &Prop, f: &Found, budget: u64) {
    let s = prop.subs.iter().find(|s| s.name == f.sub).unwrap();
    // what shrinks must stay reproducible; the shrinker only keeps failures with the same signature
    let best = std::sync::Arc::new(Mutex::new(f.record.clone()));
    let (sub, rec, sig, b2) = (s.clone(), f.record.clone(), f.fail.sig.clone(), best.clone());
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            shrink_in_process(&sub, rec, &sig, budget, &b2);
            let _ = tx.send(());
        })
        .unwrap();
    let _ = rx.recv_timeout(std::time::Duration::from_secs(40));
    let best = best.lock().unwrap().clone();
    let mut src = Src::replay(best.clone());
    let mut ctx = Ctx { want_desc: true, ..Ctx::default() };
    let fl = match run_case(s, &mut src, &mut ctx) {
        Err(e) => e,
        Ok(()) => f.fail.clone(),
    };
    let path = write_replay(o, f.sub, &fl, &best, &ctx.desc, true);
    println!("{}: sub-check {} case {}: [{}] {}", o.id, f.sub, f.case, fl.sig, shorten(&fl.msg));
    println!("  minimal case: {}", shorten(&ctx.desc));
    println!("VIOLATION property={} replay={}", o.id, path);
}

/// Case that kills the process: shrinks it out of process where it ends quickly, and reports it
fn report_death(o: &Opts, sub: &str, case: &str, kind: &str, rec: Vec<u64>, tmp: &str) {
    let hang = kind.contains("terminate");
    let mut best = rec;
    if !hang {
        let mut budget = 600u64;
        let rpath = format!("{}.raw", tmp);
        best = shrink(best, &mut budget, &mut |c| {
            let t = c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("\n");
            std::fs::write(&rpath, t).ok()?;
            match child_dies(&["raw".into(), o.id.clone(), sub.into(), rpath.clone()]) {
                Some(k) if k == kind => Some(c.to_vec()),
                _ => None,
            }
        });
        let _ = std::fs::remove_file(&rpath);
    }
    let fl = Fail { sig: kind.into(), msg: kind.into() };
    let path = write_replay(o, sub, &fl, &best, "(see choices; the case kills the process)", !hang);
    println!("{}: sub-check {} case {}: {}", o.id, sub, case, kind);
    println!("VIOLATION property={} replay={}", o.id, path);
}

fn read_journal(path: &str) -> Vec<u64> {
    std::fs::read_to_string(path).unwrap_or_default().lines().filter_map(|l| l.parse().ok()).collect()
}

//------------------------------------------------------------------------------
// coverage-guided search: several single-threaded processes, each with a corpus of its own

/// "gworker INDEX OUT ID tier options": searches all sub-checks; OUT gets the result lines, OUT.cur the case being run
fn gworker(o: &Opts, index: u64, out: &str) -> i32 {
    limit(RLIMIT_CORE, 0);
    limit(RLIMIT_AS, 8 << 30);
    install_panic_hook();
    let prop = props::get(&o.id).expect("unknown property");
    let known = if o.known_off { vec![] } else { load_known(&o.root, &o.id) };
    let cur = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(format!("{}.cur", out)).unwrap();
    let hang_wall = env("VH_HANG", HANG_WALL_S);
    let running: &'static Mutex<Option<Instant>> = Box::leak(Box::new(Mutex::new(None)));
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        let r = *running.lock().unwrap();
        if r.map_or(false, |t| t.elapsed().as_secs() > hang_wall) {
            exit(EXIT_HANG);
        }
    });
    let o2 = o.clone();
    let out2 = out.to_string();
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let (o, out) = (o2, out2);
            let mut text = String::new();
            let mut code = 0;
            for (si, s) in prop.subs.iter().enumerate() {
                if o.only.as_ref().map_or(false, |x| x != s.name) {
                    continue;
                }
                let n = ((s.thorough as f64 / 30.0 * o.scale * GUIDED_FACTOR / GUIDED_WORKERS as f64) as u64).max(1);
                let seed = case_seed(o.seed, prop.id, s.name, (1 << 50) + index);
                let mut buf: Vec<u8> = vec![];
                let mut before = |base: &[u64], rest: u64, size: f64| {
                    buf.clear();
                    for x in [base.len() as u64 + 3, si as u64, rest, size.to_bits()].iter().chain(base.iter()) {
                        buf.extend_from_slice(&x.to_le_bytes());
                    }
                    let _ = cur.write_all_at(&buf, 0);
                    *running.lock().unwrap() = Some(Instant::now());
                };
                let mut after = || *running.lock().unwrap() = None;
                let g = vharness::guided::search(s, seed, n, &|sig| known.iter().any(|k| k.sub == s.name && k.sig == sig), &mut before, &mut after);
                text += &format!("sub {} {} {} {} {}\n", s.name, g.execs, g.nontrivial, g.corpus, g.counters);
                if let Some((f, rec)) = g.found {
                    text += &format!("found {}\t{}\t{}\t{}\n", s.name, f.sig.replace('\n', " ").replace('\t', " "), f.msg.replace('\n', " ").replace('\t', " "),
                        rec.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
                    code = 1;
                    break;
                }
            }
            std::fs::write(&out, text).unwrap();
            code
        })
        .unwrap()
        .join()
        .unwrap_or(3)
}

const GUIDED_WORKERS: u64 = 8;
/// cases of the guided search, as a multiple of a thirtieth of the random search's
const GUIDED_FACTOR: f64 = 6.0;

fn guided(o: &Opts, args: &[String]) -> i32 {
    let t0 = Instant::now();
    install_panic_hook();
    if vharness::guided::n_counters() == 0 {
        eprintln!("built without coverage counters");
        return 2;
    }
    let prop = props::get(&o.id).unwrap();
    let tmp = format!("{}/vharness-guided-{}-{}", std::env::temp_dir().display(), o.id, std::process::id());
    let mut children = vec![];
    for i in 0..GUIDED_WORKERS {
        let mut a: Vec<String> = vec!["gworker".into(), i.to_string(), format!("{}.{}", tmp, i)];
        a.extend(args.iter().cloned());
        children.push(Command::new(me()).args(&a).spawn().expect("spawn"));
    }
    let codes: Vec<Option<i32>> = children.into_iter().map(|mut c| c.wait().unwrap().code()).collect();
    let mut subs: BTreeMap<String, [u64; 4]> = BTreeMap::new();
    let mut found: Option<Found> = None;
    let mut died: Option<(String, String, Vec<u64>)> = None;
    let mut broken = false;
    for (i, c) in codes.iter().enumerate() {
        let out = format!("{}.{}", tmp, i);
        for l in std::fs::read_to_string(&out).unwrap_or_default().lines() {
            if let Some(x) = l.strip_prefix("sub ") {
                let p: Vec<&str> = x.split(' ').collect();
                let n: Vec<u64> = p[1..].iter().map(|x| x.parse().unwrap()).collect();
                let e = subs.entry(p[0].to_string()).or_insert([0; 4]);
                e[0] += n[0];
                e[1] += n[1];
                e[2] += n[2];
                e[3] = e[3].max(n[3]);
            }
            if let Some(x) = l.strip_prefix("found ") {
                let p: Vec<&str> = x.split('\t').collect();
                let s = prop.subs.iter().find(|s| s.name == p[0]).unwrap();
                let rec = p[3].split(',').filter_map(|x| x.parse().ok()).collect();
                found = Some(Found { sub: s.name, case: 0, fail: Fail { sig: p[1].into(), msg: p[2].into() }, record: rec });
            }
        }
        if *c == Some(EXIT_HANG) || c.is_none() {
            let w: Vec<u64> = std::fs::read(format!("{}.cur", out)).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
            let jpath = format!("{}.journal", out);
            if w.len() >= 4 && died.is_none() {
                let sub = prop.subs[w[1] as usize].name.to_string();
                let args: Vec<String> = vec!["gone".into(), o.id.clone(), sub.clone(), format!("{}.cur", out), jpath.clone()];
                match child_dies(&args) {
                    Some(kind) => died = Some((sub, kind, read_journal(&jpath))),
                    None => broken = true,
                }
            } else {
                broken = true;
            }
            let _ = std::fs::remove_file(&jpath);
        } else if *c != Some(0) && *c != Some(1) {
            broken = true;
        }
        let _ = std::fs::remove_file(&out);
        let _ = std::fs::remove_file(format!("{}.cur", out));
    }
    let viol = found.is_some() || died.is_some();
    if let Some(f) = &found {
        report(o, &prop, f, 4000);
    }
    if let Some((sub, kind, rec)) = died {
        report_death(o, &sub, "(guided)", &kind, rec, &tmp);
    }
    // into the evidence the random pass has written
    let path = format!("{}/evidence/{}.json", o.root, o.id);
    if let Ok(t) = std::fs::read_to_string(&path) {
        let s = subs.iter().map(|(k, v)| format!("{}: {{\"cases\": {}, \"nontrivial\": {}, \"corpus\": {}, \"branches\": {}}}", json_str(k), v[0], v[1], v[2], v[3])).collect::<Vec<_>>().join(", ");
        let t = t.replacen("  \"known_finding_hits\"", &format!("  \"coverage_guided\": {{{}}},\n  \"known_finding_hits\"", s), 1);
        let t = if viol { t.replacen("\"violations\": 0", "\"violations\": 1", 1) } else { t };
        let _ = std::fs::write(&path, t);
    }
    println!("{} guided: {} cases, corpus {}, {:.1}s", o.id, subs.values().map(|v| v[0]).sum::<u64>(), subs.values().map(|v| v[2]).sum::<u64>(), t0.elapsed().as_secs_f64());
    if viol {
        1
    } else if broken {
        eprintln!("a guided worker ended without a result");
        2
    } else {
        0
    }
}

fn write_evidence(o: &Opts, prop: &Prop, st: &Stats, per_sub: &BTreeMap<String, (u64, u64)>, viol: usize, wall: f64) {
    let dir = format!("{}/evidence", o.root);
    let _ = std::fs::create_dir_all(&dir);
    let mut samples = st.samples.clone();
    samples.sort();
    samples.truncate(40);
    let arr = |v: &Vec<String>| format!("[{}]", v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    let labels = st.labels.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", ");
    let subs = per_sub.iter().map(|(k, v)| format!("{}: {{\"cases\": {}, \"nontrivial\": {}}}", json_str(k), v.0, v.1)).collect::<Vec<_>>().join(", ");
    let kh = st.known_hits.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", ");
    let t = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": {},\n  \"per_subcheck\": {{{}}},\n  \"classes\": {{{}}},\n  \"known_finding_hits\": {{{}}}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(&o.id), json_str(&o.tier), o.seed, st.evaluations, st.nontrivial.len(), json_str(prop.rule), arr(&samples), subs, labels, kh,
        arr(&prop.assumptions.iter().map(|x| x.to_string()).collect()), wall, viol
    );
    let _ = std::fs::write(format!("{}/{}.json", dir, o.id), t);
}

fn me() -> std::path::PathBuf {
    std::env::current_exe().unwrap()
}

/// Runs one case in a child. Ok(None): passed; Ok(Some(kind)): died
fn child_dies(args: &[String]) -> Option<String> {
    let st = Command::new(me()).args(args).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().ok()?;
    match st.signal() {
        Some(24) | Some(9) => Some("does not terminate (CPU limit)".into()),
        Some(6) => Some("process aborted (stack overflow, out of memory or abort)".into()),
        Some(11) | Some(7) => Some("process crashed (segmentation fault)".into()),
        Some(n) => Some(format!("process killed by signal {}", n)),
        None => None,
    }
}

fn parent(o: &Opts, args: &[String]) -> i32 {
    let status_path = format!("{}/vharness-status-{}-{}", std::env::temp_dir().display(), o.id, std::process::id());
    let mut a: Vec<String> = vec!["worker".into(), status_path.clone()];
    a.extend(args.iter().cloned());
    let st = Command::new(me()).args(&a).status().expect("spawn worker");
    let code = st.code();
    let status = std::fs::read(&status_path).unwrap_or_default();
    let _ = std::fs::remove_file(&status_path);
    match code {
        Some(0) => return 0,
        Some(1) => return 1,
        Some(EXIT_HANG) | None => {}
        Some(c) => {
            eprintln!("worker error exit {}", c);
            return 2;
        }
    }
    let found_path = format!("{}.found", status_path);
    if let Ok(note) = std::fs::read_to_string(&found_path) {
        let _ = std::fs::remove_file(&found_path);
        print!("{}", note);
        let prop = props::get(&o.id).unwrap();
        let mut ss = Stats::default();
        ss.evaluations = 1;
        write_evidence(o, &prop, &ss, &BTreeMap::new(), 1, 0.0);
        return 1;
    }
    // a case took the whole process down (or did not come back): find it, confirm it alone, shrink it out of process
    let prop = props::get(&o.id).unwrap();
    for ch in status.chunks(8) {
        if ch.len() < 8 {
            continue;
        }
        let v = u64::from_le_bytes([ch[0], ch[1], ch[2], ch[3], ch[4], ch[5], ch[6], ch[7]]);
        if v == 0 {
            continue;
        }
        let (si, case) = ((v >> 40) as usize - 1, v & ((1 << 40) - 1));
        let s = &prop.subs[si];
        let jpath = format!("{}.journal", status_path);
        let _ = std::fs::remove_file(&jpath);
        let one: Vec<String> = vec!["one".into(), o.id.clone(), s.name.into(), o.seed.to_string(), case.to_string(), jpath.clone()];
        if let Some(kind) = child_dies(&one) {
            let rec = read_journal(&jpath);
            let _ = std::fs::remove_file(&jpath);
            report_death(o, s.name, &case.to_string(), &kind, rec, &status_path);
            let mut ss = Stats::default();
            ss.evaluations = 1;
            write_evidence(o, &prop, &ss, &BTreeMap::new(), 1, 0.0);
            return 1;
        }
        let _ = std::fs::remove_file(&jpath);
    }
    eprintln!("worker died ({:?}) but no single case reproduces it: inconclusive", st);
    2
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.is_empty() {
        eprintln!("usage: vharness run <id> <quick|thorough> | replay FILE | list");
        exit(2);
    }
    let parse = |a: &[String]| -> Opts {
        let mut o = Opts {
            id: a[0].clone(),
            tier: a.get(1).cloned().unwrap_or("quick".into()),
            seed: std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1),
            root: std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()),
            scale: 1.0,
            only: None,
            known_off: false,
        };
        let mut i = 2;
        while i < a.len() {
            match a[i].as_str() {
                "--seed" => { o.seed = a[i + 1].parse().unwrap(); i += 1; }
                "--scale" => { o.scale = a[i + 1].parse().unwrap(); i += 1; }
                "--only" => { o.only = Some(a[i + 1].clone()); i += 1; }
                "--no-known" => o.known_off = true,
                x => panic!("unknown option {}", x),
            }
            i += 1;
        }
        o
    };
    match args[0].as_str() {
        "list" => {
            for p in props::all() {
                println!("{} {}", p.id, p.subs.iter().map(|s| s.name).collect::<Vec<_>>().join(" "));
            }
        }
        "run" => {
            let o = parse(&args[1..]);
            if props::get(&o.id).is_none() {
                eprintln!("unknown property {}", o.id);
                exit(2);
            }
            let r = parent(&o, &args[1..]);
            exit(r);
        }
        "worker" => {
            let o = parse(&args[2..]);
            let r = worker(&o, &args[1]);
            std::io::stdout().flush().ok();
            exit(r);
        }
        "guided" => {
            let o = parse(&args[1..]);
            exit(guided(&o, &args[1..]));
        }
        "gworker" => {
            let o = parse(&args[3..]);
            exit(gworker(&o, args[1].parse().unwrap(), &args[2]));
        }
        "one" | "raw" | "gone" => {
            limit(RLIMIT_CORE, 0);
            limit(RLIMIT_CPU, env("VH_HANG", HANG_CPU_S));
            limit(RLIMIT_AS, 24 << 30);
            install_panic_hook();
            let prop = props::get(&args[1]).unwrap();
            let s = prop.subs.into_iter().find(|s| s.name == args[2]).unwrap();
            let mut src = if args[0] == "one" {
                let (seed, case): (u64, u64) = (args[3].parse().unwrap(), args[4].parse().unwrap());
                let mut src = Src::random(case_seed(seed, prop.id, s.name, case), case_size(case));
                src.journal = std::fs::File::create(&args[5]).ok();
                src
            } else if args[0] == "gone" {
                let w: Vec<u64> = std::fs::read(&args[3]).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
                let mut src = Src::hybrid(w[4..1 + w[0] as usize].to_vec(), w[2], f64::from_bits(w[3]));
                src.journal = std::fs::File::create(&args[4]).ok();
                src
            } else {
                Src::replay(read_choices(&args[3]))
            };
            let r = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
                let mut ctx = Ctx { want_desc: true, ..Ctx::default() };
                run_case(&s, &mut src, &mut ctx).is_err()
            }).unwrap().join().unwrap_or(true);
            exit(r as i32);
        }
        "replay" => {
            install_panic_hook();
            let t = std::fs::read_to_string(&args[1]).expect("replay file");
            let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
            let prop = props::get(&get("property=")).expect("property");
            let s = prop.subs.into_iter().find(|s| s.name == get("sub=")).expect("sub");
            let mut src = Src::replay(read_choices(&args[1]));
            let mut ctx = Ctx { want_desc: true, ..Ctx::default() };
            let r = run_case(&s, &mut src, &mut ctx);
            println!("case: {}", ctx.desc);
            match r {
                Ok(()) => println!("holds on this case"),
                Err(e) => {
                    println!("FAILS: [{}] {}", e.sig, e.msg);
                    println!("VIOLATION property={} replay={}", prop.id, args[1]);
                    exit(1);
                }
            }
        }
        _ => exit(2),
    }
}
