//! Search driver: shards, watchdog, minimisation, replay files and evidence.
use crate::ctx::{hash_str, Ctx};
use crate::props::{self, Prop};
use crate::tape::{hash64, Tape};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const SHARDS: u64 = 8;
/// CPU seconds one run may use before it counts as a hang (ordinary runs take milliseconds)
const HANG_CPU: f64 = 60.0;

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
static CURRENT: AtomicU64 = AtomicU64::new(0);

/// payload of panics the simulator injects on purpose
pub struct Injected;

pub fn silence_panics() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().downcast_ref::<Injected>().is_some() {
            return;
        }
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "non-string panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = format!("{msg} at {loc}");
        }
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default()
}

fn find(id: &str) -> Option<&'static Prop> {
    props::ALL.iter().find(|p| p.id == id)
}

fn run_seed(seed: u64, id: &str, idx: u64) -> u64 {
    hash64(&[seed, hash_str(id), idx])
}

/// one simulated run; Some(message) if the property was violated
fn execute(p: &Prop, tape: Tape, log: bool, deep: bool) -> (Ctx, Option<String>) {
    let mut ctx = Ctx::new(tape, log, deep);
    let r = catch_unwind(AssertUnwindSafe(|| (p.run)(&mut ctx)));
    let v = match r {
        Ok(Ok(())) => None,
        Ok(Err(m)) => Some(m),
        Err(e) => Some(if e.downcast_ref::<Injected>().is_some() {
            "an injected panic escaped its boundary".into()
        } else {
            format!("unexpected panic: {}", last_panic())
        }),
    };
    (ctx, v)
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

/// SIGILL, SIGABRT, SIGBUS, SIGFPE or SIGSEGV
fn crash_signal(s: &std::process::ExitStatus) -> bool {
    use std::os::unix::process::ExitStatusExt;
    matches!(s.signal(), Some(4 | 6 | 7 | 8 | 11))
}

fn cpu_seconds() -> f64 {
    let s = fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let after = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = after.split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (g(11) + g(12)) / 100.0
}

fn start_watchdog(on_hang: impl Fn(u64) + Send + 'static) {
    std::thread::spawn(move || {
        let mut cur = 0u64;
        let mut base = cpu_seconds();
        loop {
            std::thread::sleep(Duration::from_millis(250));
            let c = CURRENT.load(Ordering::SeqCst);
            let t = cpu_seconds();
            if c != cur {
                cur = c;
                base = t;
            } else if c != 0 && t - base > HANG_CPU {
                on_hang(c - 1);
                std::process::exit(3);
            }
        }
    });
}

// ---------------------------------------------------------------- shard (child process)

/// args: ID tier seed shard total outfile
pub fn shard(a: &[String]) -> i32 {
    silence_panics();
    let p = find(&a[0]).expect("property");
    let deep = a[1] == "thorough";
    let seed: u64 = a[2].parse().unwrap();
    let sh: u64 = a[3].parse().unwrap();
    let total: u64 = a[4].parse().unwrap();
    let out = PathBuf::from(&a[5]);
    {
        let out = out.clone();
        start_watchdog(move |idx| {
            let _ = fs::write(out.with_extension("hang"), format!("{idx}\n"));
        });
    }
    let mut o = String::new();
    let mut faults: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut cover: BTreeMap<&'static str, u64> = BTreeMap::new();
    let (mut runs, mut steps, mut checks, mut nontriv, mut decisions) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples = 0;
    let mut idx = sh;
    let progress = std::env::var_os("ELLSIM_PROGRESS").is_some();
    while idx < total {
        CURRENT.store(idx + 1, Ordering::SeqCst);
        if progress {
            let _ = fs::write(out.with_extension("at"), format!("{idx}\n"));
        }
        let want_log = sh == 0 && samples < 2;
        let (ctx, v) = execute(p, Tape::gen(run_seed(seed, p.id, idx)), want_log, deep);
        runs += 1;
        steps += ctx.steps;
        checks += ctx.checks;
        decisions += ctx.tape.rec.len() as u64;
        for (k, n) in &ctx.faults {
            *faults.entry(k).or_insert(0) += n;
        }
        for (k, n) in &ctx.cover {
            *cover.entry(k).or_insert(0) += n;
        }
        if ctx.nontrivial {
            nontriv += 1;
            hashes.insert(ctx.hist);
        }
        if want_log && ctx.nontrivial {
            samples += 1;
            let mut l = ctx.log.clone();
            if l.len() > 14 {
                let cut = l.len() - 14;
                l.truncate(14);
                l.push(format!("... {cut} more events"));
            }
            let _ = writeln!(o, "sample run {idx}: {}", esc(&l.join(" | ")));
        }
        if let Some(m) = v {
            let t: Vec<String> = ctx.tape.rec.iter().map(|x| x.to_string()).collect();
            let _ = writeln!(o, "viol {idx} {}", esc(&m));
            let _ = writeln!(o, "tape {}", t.join(","));
            break;
        }
        idx += SHARDS;
    }
    CURRENT.store(0, Ordering::SeqCst);
    let _ = writeln!(o, "runs {runs}\nsteps {steps}\nchecks {checks}\nnontriv {nontriv}\ndecisions {decisions}");
    for (k, n) in faults {
        let _ = writeln!(o, "fault {n} {k}");
    }
    for (k, n) in cover {
        let _ = writeln!(o, "cover {n} {k}");
    }
    let hs: Vec<String> = hashes.iter().map(|h| h.to_string()).collect();
    let _ = writeln!(o, "hashes {}", hs.join(","));
    let _ = writeln!(o, "done");
    fs::write(&out, o).expect("write shard result");
    0
}

/// args: ID seed from to -- prints one digest line per run (history hash, steps, decisions, verdict)
pub fn digest(a: &[String]) -> i32 {
    silence_panics();
    let p = find(&a[0]).expect("property");
    let (seed, from, to): (u64, u64, u64) =
        (a[1].parse().unwrap(), a[2].parse().unwrap(), a[3].parse().unwrap());
    for idx in from..to {
        let (c, v) = execute(p, Tape::gen(run_seed(seed, p.id, idx)), true, false);
        let th = hash64(&c.tape.rec);
        let lh = c.log.iter().fold(0u64, |h, l| hash64(&[h, hash_str(l)]));
        println!("{idx} {:016x} {th:016x} {lh:016x} {} {} {:?}", c.hist, c.steps, c.checks, v);
    }
    0
}

// ---------------------------------------------------------------- replay files

fn write_replay(path: &Path, p: &Prop, mode: &str, deep: bool, seed: u64, idx: u64, tape: &[u64], msg: &str, log: &[String], note: &str) {
    let t: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
    let l: Vec<String> = log.iter().map(|x| format!("  \"{}\"", esc(x))).collect();
    let s = format!(
        "{{\n\"property\": \"{}\",\n\"mode\": \"{mode}\",\n\"tier\": \"{}\",\n\"seed\": {seed},\n\"run\": {idx},\n\"violation\": \"{}\",\n\"note\": \"{}\",\n\"tape\": [{}],\n\"events\": [\n{}\n]\n}}\n",
        p.id, if deep { "thorough" } else { "quick" }, esc(msg), esc(note), t.join(","), l.join(",\n")
    );
    let tmp = path.with_extension("tmp");
    fs::write(&tmp, s).expect("write replay");
    fs::rename(&tmp, path).expect("rename replay");
}

struct Replay {
    id: String,
    mode: String,
    deep: bool,
    seed: u64,
    run: u64,
    tape: Vec<u64>,
}

fn read_replay(f: &str) -> Replay {
    let s = fs::read_to_string(f).expect("read replay file");
    let field = |k: &str| -> String {
        let pat = format!("\"{k}\": ");
        let i = s.find(&pat).unwrap_or_else(|| panic!("no field {k}")) + pat.len();
        let e = s[i..].find('\n').unwrap() + i;
        s[i..e].trim_end_matches(',').trim_matches('"').to_string()
    };
    let t = field("tape");
    let t = t.trim_start_matches('[').trim_end_matches(']');
    Replay {
        id: field("property"),
        mode: field("mode"),
        deep: field("tier") == "thorough",
        seed: field("seed").parse().unwrap(),
        run: field("run").parse().unwrap(),
        tape: t.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
    }
}

/// exit 1 (and a VIOLATION line when loud) if the violation reproduces, 0 otherwise
pub fn replay(f: &str, loud: bool) -> i32 {
    silence_panics();
    let r = read_replay(f);
    let p = find(&r.id).expect("property");
    if r.mode == "crash" && loud {
        let st = Command::new(std::env::current_exe().expect("exe")).arg("verify").arg(f)
            .stdout(Stdio::null()).stderr(Stdio::null()).status().expect("spawn");
        if crash_signal(&st) {
            println!("the process dies ({st})\nVIOLATION property={} replay={f}", r.id);
            return 1;
        }
        println!("no violation: property {} held on this replay", p.id);
        return 0;
    }
    start_watchdog({
        let id = r.id.clone();
        let f = f.to_string();
        move |_| {
            if loud {
                println!("run does not terminate\nVIOLATION property={id} replay={f}");
            }
            let _ = std::io::stdout().flush();
            std::process::exit(1);
        }
    });
    CURRENT.store(1, Ordering::SeqCst);
    let mut res = None;
    if r.mode == "tape" {
        res = Some(execute(p, Tape::replay(r.tape), loud, r.deep));
    } else {
        // the whole prefix of the shard, in order, in this one process
        let mut i = r.run % SHARDS;
        while i <= r.run {
            CURRENT.store(i + 1, Ordering::SeqCst);
            res = Some(execute(p, Tape::gen(run_seed(r.seed, p.id, i)), loud && i == r.run, r.deep));
            if res.as_ref().unwrap().1.is_some() {
                break;
            }
            i += SHARDS;
        }
    }
    let (c, v) = res.unwrap();
    if loud {
        for l in &c.log {
            println!("  {l}");
        }
    }
    match v {
        Some(m) => {
            if loud {
                println!("{m}");
                println!("VIOLATION property={} replay={}", p.id, f);
            }
            1
        }
        None => {
            if loud {
                println!("no violation: property {} held on this replay", p.id);
            }
            0
        }
    }
}

/// args: replay-file seconds -- shrink the tape in place, keeping any violation of the property
pub fn minimise(a: &[String]) -> i32 {
    silence_panics();
    let r = read_replay(&a[0]);
    let limit = Duration::from_secs(a[1].parse().unwrap());
    let p = find(&r.id).expect("property");
    start_watchdog(|_| {});
    let t0 = Instant::now();
    let counter = std::cell::Cell::new(1u64);
    let fails = |t: &[u64]| -> Option<(Vec<u64>, String)> {
        counter.set(counter.get() + 1);
        CURRENT.store(counter.get(), Ordering::SeqCst);
        let (c, v) = execute(p, Tape::replay(t.to_vec()), false, r.deep);
        v.map(|m| {
            let mut rec = c.tape.rec;
            while rec.last() == Some(&0) {
                rec.pop();
            }
            (rec, m)
        })
    };
    let Some((mut best, mut msg)) = fails(&r.tape) else { return 4 };
    let size = |t: &[u64]| (t.len(), t.iter().map(|x| 64 - x.leading_zeros() as u64).sum::<u64>());
    let save = |t: &[u64], m: &str, note: &str| {
        let (c, _) = execute(p, Tape::replay(t.to_vec()), true, r.deep);
        write_replay(Path::new(&a[0]), p, "tape", r.deep, r.seed, r.run, t, m, &c.log, note);
    };
    let orig = r.tape.len();
    let mut improved = true;
    let mut tries = 0u64;
    'outer: while improved {
        improved = false;
        let mut k = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                if t0.elapsed() > limit {
                    break 'outer;
                }
                let hi = (i + k).min(best.len());
                // delete the chunk
                let mut cand = best[..i].to_vec();
                cand.extend_from_slice(&best[hi..]);
                tries += 1;
                if let Some((t, m)) = fails(&cand) {
                    if size(&t) < size(&best) {
                        best = t;
                        msg = m;
                        improved = true;
                        continue;
                    }
                }
                // zero the chunk
                if best[i..hi.min(best.len())].iter().any(|x| *x != 0) {
                    let mut cand = best.clone();
                    let e = hi.min(cand.len());
                    cand[i..e].iter_mut().for_each(|x| *x = 0);
                    tries += 1;
                    if let Some((t, m)) = fails(&cand) {
                        if size(&t) < size(&best) {
                            best = t;
                            msg = m;
                            improved = true;
                        }
                    }
                }
                i += k;
            }
            if k == 1 {
                break;
            }
            k /= 2;
        }
        // shrink single values
        let mut i = 0;
        while i < best.len() {
            if t0.elapsed() > limit {
                break 'outer;
            }
            let v = best[i];
            for c in [v / 2, v.saturating_sub(1), v >> 8 << 8, v >> 32 << 32] {
                if c < v {
                    let mut cand = best.clone();
                    cand[i] = c;
                    tries += 1;
                    if let Some((t, m)) = fails(&cand) {
                        if size(&t) < size(&best) {
                            best = t;
                            msg = m;
                            improved = true;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    save(&best, &msg, &format!("minimised from {orig} to {} decisions in {tries} replays", best.len()));
    0
}

// ---------------------------------------------------------------- check (parent)

#[derive(Default)]
struct Merged {
    runs: u64,
    steps: u64,
    checks: u64,
    nontriv: u64,
    decisions: u64,
    faults: BTreeMap<String, u64>,
    cover: BTreeMap<String, u64>,
    hashes: HashSet<u64>,
    samples: Vec<String>,
    viol: Option<(u64, String, Vec<u64>)>,
    hang: Option<u64>,
}

pub fn check(id: &str, tier: &str, seed: u64, verif: &str) -> i32 {
    let Some(p) = find(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let deep = tier == "thorough";
    let t0 = Instant::now();
    let dir = std::env::temp_dir().join(format!("ellsim-{}-{}", id, std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).expect("scratch dir");
    let exe = std::env::current_exe().expect("exe");
    let total: u64 = std::env::var("ELLSIM_RUNS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if deep { p.thorough } else { p.quick });
    let mut kids = Vec::new();
    for s in 0..SHARDS {
        let out = dir.join(format!("shard{s}.txt"));
        let c = Command::new(&exe)
            .args(["shard", id, tier, &seed.to_string(), &s.to_string(), &total.to_string()])
            .arg(&out)
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn shard");
        kids.push((s, out, c));
    }
    let mut m = Merged::default();
    let mut broken: Vec<String> = Vec::new();
    let mut died: Vec<u64> = Vec::new();
    for (s, out, mut c) in kids {
        let stt = c.wait().expect("wait shard");
        let txt = fs::read_to_string(&out).unwrap_or_default();
        if let Ok(h) = fs::read_to_string(out.with_extension("hang")) {
            let i: u64 = h.trim().parse().unwrap_or(0);
            if m.hang.map_or(true, |x| i < x) {
                m.hang = Some(i);
            }
            continue;
        }
        if !txt.ends_with("done\n") {
            broken.push(format!("shard {s} ended with {stt} and no result"));
            if crash_signal(&stt) {
                died.push(s);
            }
            continue;
        }
        let mut pend: Option<(u64, String)> = None;
        for l in txt.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            let num = || v.parse::<u64>().unwrap_or(0);
            match k {
                "runs" => m.runs += num(),
                "steps" => m.steps += num(),
                "checks" => m.checks += num(),
                "nontriv" => m.nontriv += num(),
                "decisions" => m.decisions += num(),
                "fault" | "cover" => {
                    let (n, name) = v.split_once(' ').unwrap();
                    let map = if k == "fault" { &mut m.faults } else { &mut m.cover };
                    *map.entry(name.to_string()).or_insert(0) += n.parse::<u64>().unwrap_or(0);
                }
                "hashes" => m.hashes.extend(v.split(',').filter_map(|x| x.parse::<u64>().ok())),
                "sample" => m.samples.push(v.to_string()),
                "viol" => {
                    let (i, msg) = v.split_once(' ').unwrap_or((v, ""));
                    pend = Some((i.parse().unwrap_or(0), msg.to_string()));
                }
                "tape" => {
                    if let Some((i, msg)) = pend.take() {
                        if m.viol.as_ref().map_or(true, |x| i < x.0) {
                            m.viol = Some((i, msg, v.split(',').filter_map(|x| x.parse().ok()).collect()));
                        }
                    }
                }
                _ => {}
            }
        }
    }
    let rdir = Path::new(verif).join("replays");
    let mut code = 0;
    let mut nviol = 0;
    if let Some((idx, msg, tape)) = &m.viol {
        fs::create_dir_all(&rdir).expect("replay dir");
        let path = rdir.join(format!("{id}-seed{seed}-run{idx}.json"));
        write_replay(&path, p, "tape", deep, seed, *idx, tape, msg, &[], "not minimised");
        let verify = |f: &Path| {
            Command::new(&exe).arg("verify").arg(f).stdout(Stdio::null()).stderr(Stdio::null())
                .status().ok().and_then(|s| s.code()) == Some(1)
        };
        if verify(&path) {
            let keep = fs::read(&path).unwrap_or_default();
            let _ = Command::new(&exe).arg("minimise").arg(&path).arg(if deep { "120" } else { "25" })
                .stdout(Stdio::null()).stderr(Stdio::null()).status();
            if !verify(&path) {
                let _ = fs::write(&path, keep);
            }
        } else {
            // depends on what earlier runs left behind in the process: replay the shard's prefix
            write_replay(&path, p, "prefix", deep, seed, *idx, &[], msg, &[],
                "reproduces only after the preceding runs of its shard in the same process");
            if !verify(&path) {
                println!("note: the violation below did not reproduce in a fresh process (the code under test is nondeterministic)");
            }
        }
        let shown = fs::read_to_string(&path).unwrap_or_default();
        if let Some(i) = shown.find("\"violation\": ") {
            println!("{}", &shown[i + 13..].lines().next().unwrap_or("").trim_end_matches(','));
        }
        println!("VIOLATION property={id} replay={}", path.display());
        nviol += 1;
        code = 1;
    } else if let Some(idx) = m.hang {
        fs::create_dir_all(&rdir).expect("replay dir");
        let path = rdir.join(format!("{id}-seed{seed}-run{idx}-hang.json"));
        write_replay(&path, p, "prefix", deep, seed, idx, &[],
            &format!("run {idx} did not terminate within {HANG_CPU} CPU seconds"), &[], "hang");
        println!("run {idx} did not terminate within {HANG_CPU} CPU seconds");
        println!("VIOLATION property={id} replay={}", path.display());
        nviol += 1;
        code = 1;
    } else if !broken.is_empty() {
        for b in &broken {
            eprintln!("{b}");
        }
        code = 2;
        // a shard process brought down by a signal (abort, stack overflow) is the code under test
        // killing its caller's process: repeat that shard noting the current run, then report it
        for s in died {
            let out = dir.join(format!("again{s}.txt"));
            let again = Command::new(&exe)
                .args(["shard", id, tier, &seed.to_string(), &s.to_string(), &total.to_string()])
                .arg(&out)
                .env("ELLSIM_PROGRESS", "1")
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .status();
            let at = fs::read_to_string(out.with_extension("at")).ok().and_then(|t| t.trim().parse::<u64>().ok());
            if let (Ok(st), Some(idx)) = (again, at) {
                if crash_signal(&st) {
                    fs::create_dir_all(&rdir).expect("replay dir");
                    let path = rdir.join(format!("{id}-seed{seed}-run{idx}-crash.json"));
                    let msg = format!("run {idx} brought the whole process down ({st})");
                    write_replay(&path, p, "crash", deep, seed, idx, &[], &msg, &[], "process death");
                    println!("{msg}");
                    println!("VIOLATION property={id} replay={}", path.display());
                    nviol += 1;
                    code = 1;
                    break;
                }
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let js = |mp: &BTreeMap<String, u64>| {
        mp.iter().map(|(k, v)| format!("\"{}\": {v}", esc(k))).collect::<Vec<_>>().join(", ")
    };
    let samples: Vec<String> = m.samples.iter().map(|s| format!("    \"{s}\"")).collect();
    let assume: Vec<String> = p.assumptions.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    let ev = format!(
        "{{\n  \"property\": \"{id}\",\n  \"tier\": \"{tier}\",\n  \"seed\": {seed},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": \"{}\",\n    \"nontrivial_runs\": {},\n    \"runs_per_hour\": {:.0},\n    \"simulated_steps\": {},\n    \"simulated_time_note\": \"the system has no clock; simulated time is counted in steps (one step = one cut, oracle query or probe)\",\n    \"decisions_drawn\": {},\n    \"assertions_checked\": {},\n    \"faults_injected\": {{{}}},\n    \"situations_reached\": {{{}}},\n    \"distinct_histories_measure\": \"{}\",\n    \"real_components\": \"{}\",\n    \"stub_components\": \"{}\",\n    \"samples\": [\n{}\n    ]\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.3},\n  \"violations\": {nviol}\n}}\n",
        m.runs, m.hashes.len(), esc(p.rule), m.nontriv, m.runs as f64 / wall * 3600.0, m.steps, m.decisions, m.checks,
        js(&m.faults), js(&m.cover), esc(p.measure), esc(p.real), esc(p.stub),
        samples.join(",\n"), assume.join(", "), wall
    );
    let edir = Path::new(verif).join("evidence");
    fs::create_dir_all(&edir).expect("evidence dir");
    fs::write(edir.join(format!("{id}.json")), ev).expect("write evidence");
    let _ = fs::remove_dir_all(&dir);
    if code == 0 {
        println!(
            "property {id} held on {} simulated runs ({} distinct non-trivial histories, {} steps, {} assertions) in {:.1}s",
            m.runs, m.hashes.len(), m.steps, m.checks, wall
        );
    }
    code
}
