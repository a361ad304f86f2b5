//! C10, C11: interrupted/resumed sessions and interleaved/nested sessions.
use super::bisect::guarded;
use super::Prop;
use crate::ctx::{Ctx, Outcome};
use crate::la::V;
use crate::problems::*;
use crate::run::Injected;
use crate::spaces::*;
use crate::tape::{hash64, Tape};
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};

const NEVER: usize = usize::MAX;

fn probe_dirs(n: usize) -> Vec<V> {
    // fixed, generic directions
    (0..3)
        .map(|k| (0..n).map(|i| ((i * 7 + k * 13) as f64 * 0.61 + 0.3).sin()).collect())
        .collect()
}

fn region_bits(sp: &Sp, dirs: &[V]) -> Vec<u64> {
    let mut f = sp.fingerprint(dirs);
    f.push(sp.measure().to_bits());
    f
}

// ------------------------------------------------------------------ C10

fn c10(ctx: &mut Ctx) -> Outcome {
    let mut job = gen_job(ctx, false);
    if ctx.chance(1, 8) {
        job.max = ctx.range(30, 120);
    } else if ctx.chance(1, 400) {
        job.max = ctx.range(300, 800);
    }
    let n = job.c.len();
    let dirs = probe_dirs(n);
    // uninterrupted
    let mut o = Traced::new(job.spec.build(), Box::new(|_| {}));
    let mut sp = job.space();
    let mut g = job.spec.gamma0();
    let (x, it) = job.drive(&mut o, &mut sp, &mut g, job.max);
    let want_q = std::mem::take(&mut o.log);
    let want_b = std::mem::take(&mut o.better);
    let want = (x.map(|a| bits(a.data())), g.to_bits(), region_bits(&sp, &dirs), sp.calls);
    ev!(ctx, "{}: uninterrupted run makes {} queries, {} cuts, ends with index {it}", job.describe(), want_q.len(), sp.calls);
    ctx.sym(n as u64 * 8 + job.which as u64);
    ctx.sym(crate::ctx::hash_str(job.spec.name()));

    // interrupted
    let panic_at = Arc::new(AtomicUsize::new(NEVER));
    let pa = panic_at.clone();
    let mut o = Traced::new(job.spec.build(), Box::new(move |k| {
        if pa.load(Ordering::SeqCst) == k {
            pa.store(NEVER, Ordering::SeqCst);
            panic_any(Injected);
        }
    }));
    let mut sp = job.space();
    let mut g = job.spec.gamma0();
    let mut done = 0;
    let mut cuts = 0;
    let mut incumbent: Option<Vec<u64>> = None;
    let mut returned: Option<Vec<u64>> = None;
    let mut segs = 0;
    let style = ctx.pick(4);
    loop {
        let left = job.max - done;
        let b = match style {
            0 => left,
            1 => 1,
            _ => ctx.range(0, left),
        }
        .min(left);
        let b = if segs > 200 { left } else { b };
        if b < left {
            ctx.fault("cancelled by budget");
        }
        let crash = ctx.chance(1, if style == 0 { 2 } else { 5 }) && b > 0 && segs < 200;
        if crash {
            panic_at.store(o.log.len() + ctx.idx(b), Ordering::SeqCst);
        }
        let moved = ctx.chance(1, 10);
        let from = o.log.len();
        let c0 = sp.calls;
        let res = if moved {
            ctx.fault("segment on another thread");
            let (oo, ss, gg, jj) = (&mut o, &mut sp, &mut g, &job);
            std::thread::scope(|s| match s.spawn(move || guarded(|| jj.drive(oo, ss, gg, b))).join() {
                Ok(r) => r,
                Err(e) => resume_unwind(e),
            })
        } else {
            guarded(|| job.drive(&mut o, &mut sp, &mut g, b))
        };
        panic_at.store(NEVER, Ordering::SeqCst);
        segs += 1;
        cuts += sp.calls - c0;
        // the incumbent this segment established, as the oracle saw it
        if let Some(k) = (from..o.better.len()).rev().find(|k| o.better[*k]) {
            incumbent = Some(o.log[k].0.clone());
        }
        let seg_inc = (from..o.better.len()).rev().find(|k| o.better[*k]).map(|k| o.log[k].0.clone());
        ev!(ctx, "segment {segs}: budget {b}, {} queries, result {:?}{}", o.log.len() - from, res.as_ref().map(|r| (r.0.is_some(), r.1)), if moved { " (other thread)" } else { "" });
        ctx.sym(b as u64 * 2 + moved as u64);
        let mut over = false;
        match res {
            Some((x, it)) => {
                let x = x.map(|a| bits(a.data()));
                ensure!(ctx, x == seg_inc, "segment {segs} returns {:?} as its point, but the query it last improved (or was accepted) at is {:?}", x.as_ref().map(|v| v.len()), seg_inc.as_ref().map(|v| v.len()));
                if x.is_some() {
                    returned = x;
                }
                over = it != b;
            }
            None => ctx.fault("oracle panic"),
        }
        done += o.log.len() - from;
        if over || done >= job.max {
            break;
        }
        if ctx.chance(1, 3) {
            // carry on with a clone; whatever happens to the original must not matter
            ctx.fault("restored from a clone");
            let copy = sp.clone();
            for _ in 0..2 {
                let q = gen_cut(ctx, n, &[]).fit(&sp);
                let tau = sp.half_sq(&q.g).sqrt();
                sp.apply(q.kind, &q.g, &q.cut(tau));
            }
            sp = copy;
        }
    }
    ctx.steps += o.log.len() as u64;
    ctx.nontrivial |= segs > 1 && sp.calls > 0;
    ctx.sym(o.log.len() as u64);
    let same = want_q.iter().zip(&o.log).take_while(|(a, b)| a == b).count();
    ensure!(ctx, want_q == o.log, "resumed run departs from the uninterrupted one at query {same} of {} ({})", want_q.len(), job.describe());
    ensure!(ctx, want_b == o.better, "resumed run gets different verdicts ({})", job.describe());
    ensure!(ctx, want.1 == g.to_bits(), "resumed run ends with best value {g}, the uninterrupted one with {} ({})", f64::from_bits(want.1), job.describe());
    ensure!(ctx, want.2 == region_bits(&sp, &dirs), "resumed run ends with a different region ({})", job.describe());
    ensure!(ctx, want.3 == sp.calls && cuts == want.3, "resumed run applied {cuts} cuts, the uninterrupted one {} ({})", want.3, job.describe());
    ensure!(ctx, incumbent == want.0, "the last incumbent over all segments differs from that of the uninterrupted run ({})", job.describe());
    if let Some(r) = &returned {
        if !ctx.faults.contains_key("oracle panic") {
            ensure!(ctx, Some(r) == want.0.as_ref(), "the last point returned by a segment differs from the uninterrupted result ({})", job.describe());
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C11

#[derive(Clone, Debug, PartialEq)]
pub struct Trace {
    queries: Vec<Query>,
    result: Option<Vec<(Option<Vec<u64>>, usize)>>,
    gamma: u64,
    region: Vec<u64>,
}

#[derive(Clone)]
struct Session {
    job: Job,
    /// budgets of the consecutive segments (one for the discrete driver)
    segs: Vec<usize>,
    /// segments to run on a thread of their own
    moved: Vec<bool>,
    panic_at: Option<usize>,
    /// (query, session) pairs: run that session to its end inside the callback of that query
    nested: Vec<(usize, Session)>,
}

fn gen_session(ctx: &mut Ctx, depth: usize) -> Session {
    let mut job = gen_job(ctx, true);
    if depth > 0 {
        job.max = job.max.min(10);
    }
    let mut segs = vec![];
    if job.drv != Drv::Q && ctx.chance(1, 4) {
        let mut left = job.max;
        while left > 0 && segs.len() < 4 {
            let b = ctx.range(1, left);
            segs.push(b);
            left -= b;
        }
    } else {
        segs.push(job.max);
    }
    let moved = segs.iter().map(|_| ctx.chance(1, 6)).collect();
    let panic_at = if ctx.chance(1, 8) { Some(ctx.idx(12)) } else { None };
    let mut nested = Vec::new();
    if depth < 2 && ctx.chance(1, 3) {
        for _ in 0..ctx.range(1, 2) {
            let k = ctx.idx(8);
            nested.push((k, gen_session(ctx, depth + 1)));
        }
    }
    Session { job, segs, moved, panic_at, nested }
}

/// Run a session; `before` is called before every query (of this session and of nested ones).
fn run_session(s: &Session, with_faults: bool, before: &(dyn Fn() + Sync), nested_out: &Mutex<Vec<(Session, Trace)>>) -> Trace {
    let dirs = probe_dirs(s.job.c.len());
    let hook = |k: usize| {
        before();
        if with_faults {
            for (at, ns) in &s.nested {
                if *at == k {
                    let t = run_session(ns, true, before, nested_out);
                    nested_out.lock().unwrap().push((ns.clone(), t));
                }
            }
            if s.panic_at == Some(k) {
                panic_any(Injected);
            }
        }
    };
    let mut o = Traced::new(s.job.spec.build(), Box::new(hook));
    let mut sp = s.job.space();
    let mut g = s.job.spec.gamma0();
    let mut results = Some(Vec::new());
    for (i, b) in s.segs.iter().enumerate() {
        let r = if with_faults && s.moved[i] {
            let (oo, ss, gg, jj, bb) = (&mut o, &mut sp, &mut g, &s.job, *b);
            std::thread::scope(|sc| match sc.spawn(move || guarded(|| jj.drive(oo, ss, gg, bb))).join() {
                Ok(r) => r,
                Err(e) => resume_unwind(e),
            })
        } else {
            guarded(|| s.job.drive(&mut o, &mut sp, &mut g, *b))
        };
        match r {
            Some((x, it)) => {
                if let Some(v) = &mut results {
                    v.push((x.map(|a| bits(a.data())), it));
                }
                if it != *b {
                    break;
                }
            }
            None => {
                results = None;
                break;
            }
        }
    }
    Trace { queries: std::mem::take(&mut o.log), result: results, gamma: g.to_bits(), region: region_bits(&sp, &dirs) }
}

fn solo(s: &Session) -> Trace {
    let none = Mutex::new(Vec::new());
    // a thread of its own: nothing thread-local can be shared with anything else
    std::thread::scope(|sc| match sc.spawn(|| run_session(s, false, &|| {}, &none)).join() {
        Ok(t) => t,
        Err(e) => resume_unwind(e),
    })
}

fn trace_hash(t: &Trace) -> u64 {
    let mut h = 1;
    for q in &t.queries {
        h = hash64(&[h, hash64(&q.0), q.1, q.2 as u64]);
    }
    if let Some(r) = &t.result {
        for (x, i) in r {
            h = hash64(&[h, x.as_ref().map_or(0, |x| hash64(x)), *i as u64]);
        }
    }
    hash64(&[h, t.gamma, hash64(&t.region), t.result.is_some() as u64])
}

struct Baton {
    st: Mutex<BState>,
    cv: Condvar,
}
struct BState {
    turn: Option<usize>,
    abort: Vec<bool>,
    done: Vec<bool>,
}

impl Baton {
    fn wait_turn(&self, i: usize) {
        let mut g = self.st.lock().unwrap();
        while g.turn != Some(i) {
            g = self.cv.wait(g).unwrap();
        }
        if g.abort[i] {
            drop(g);
            panic_any(Injected);
        }
    }
    fn yield_now(&self, i: usize) {
        {
            let mut g = self.st.lock().unwrap();
            g.turn = None;
            self.cv.notify_all();
        }
        self.wait_turn(i);
    }
    fn finish(&self, i: usize) {
        let mut g = self.st.lock().unwrap();
        g.done[i] = true;
        g.turn = None;
        self.cv.notify_all();
    }
    /// let session i run until it parks or ends
    fn grant(&self, i: usize, abort: bool) {
        let mut g = self.st.lock().unwrap();
        if abort {
            g.abort[i] = true;
        }
        g.turn = Some(i);
        self.cv.notify_all();
        while g.turn.is_some() {
            g = self.cv.wait(g).unwrap();
        }
    }
    fn is_done(&self, i: usize) -> bool {
        self.st.lock().unwrap().done[i]
    }
}

fn compare(ctx: &mut Ctx, what: &str, s: &Session, got: &Trace, solo: &Trace) -> Outcome {
    let d = s.job.describe();
    if got.result.is_some() {
        let k = got.queries.iter().zip(&solo.queries).take_while(|(a, b)| a == b).count();
        ensure!(ctx, got.queries == solo.queries, "{what} session departs from its solo run at query {k} of {} ({d})", solo.queries.len());
        ensure!(ctx, got.result == solo.result, "{what} session returns something else than its solo run ({d})");
        ensure!(ctx, got.gamma == solo.gamma, "{what} session leaves best value {} instead of {} ({d})", f64::from_bits(got.gamma), f64::from_bits(solo.gamma));
        ensure!(ctx, got.region == solo.region, "{what} session leaves another region than its solo run ({d})");
    } else {
        let m = got.queries.len().min(solo.queries.len());
        ensure!(ctx, got.queries.len() <= solo.queries.len() && got.queries[..] == solo.queries[..m], "{what} session that was interrupted made other queries than its solo run ({d})");
    }
    Ok(())
}

fn sessions_of(ctx: &mut Ctx) -> Vec<Session> {
    let n = ctx.range(2, 4);
    let twin = ctx.chance(1, 3);
    let mut v: Vec<Session> = Vec::new();
    for i in 0..n {
        let mut s = gen_session(ctx, 0);
        if twin && i > 0 && ctx.chance(1, 2) {
            // the same problem again, so that anything keyed by the problem would collide
            s.job = v[0].job.clone();
            if ctx.chance(1, 2) {
                s.job.spec = sibling(ctx, &v[0].job.spec);
            }
            s.segs = vec![s.job.max];
            s.moved = vec![false];
        }
        v.push(s);
    }
    v
}

/// child process: print the solo trace hash of one session regenerated from a recorded tape
pub fn solo_child(a: &[String]) -> i32 {
    crate::run::silence_panics();
    let mut t = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut t).expect("tape");
    let tape: Vec<u64> = t.split_whitespace().map(|x| x.parse().unwrap()).collect();
    let mut ctx = Ctx::new(Tape::replay(tape), false, a[1] == "1");
    let v = sessions_of(&mut ctx);
    let i: usize = a[0].parse().unwrap();
    println!("{}", trace_hash(&solo(&v[i])));
    0
}

fn fresh_process_solo(tape: &[u64], i: usize, deep: bool) -> Option<u64> {
    use std::io::Write;
    let mut c = std::process::Command::new(std::env::current_exe().ok()?)
        .args(["solo", &i.to_string(), if deep { "1" } else { "0" }])
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .ok()?;
    let s: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
    c.stdin.take()?.write_all(s.join(" ").as_bytes()).ok()?;
    let o = c.wait_with_output().ok()?;
    String::from_utf8_lossy(&o.stdout).trim().parse().ok()
}

fn c11(ctx: &mut Ctx) -> Outcome {
    let ss = sessions_of(ctx);
    let gen_tape = ctx.tape.rec.clone();
    let n = ss.len();
    let kin = ss[1..].iter().any(|s| s.job.spec.name() == ss[0].job.spec.name() && s.job.c == ss[0].job.c);
    let fresh = ctx.chance(1, if kin { 4 } else { 24 }).then(|| ctx.idx(n));
    // give the sessions a common past on this thread, or none
    let solo_first = ctx.chance(1, 2);
    let mut solos: Vec<Option<Trace>> = vec![None; n];
    if solo_first {
        for i in 0..n {
            solos[i] = Some(solo(&ss[i]));
        }
    }
    let baton = Baton { st: Mutex::new(BState { turn: None, abort: vec![false; n], done: vec![false; n] }), cv: Condvar::new() };
    let nested_out: Mutex<Vec<(Session, Trace)>> = Mutex::new(Vec::new());
    let traces: Vec<Mutex<Option<Result<Trace, Box<dyn std::any::Any + Send>>>>> = (0..n).map(|_| Mutex::new(None)).collect();
    let mut schedule = Vec::new();
    let mut abandoned = vec![false; n];
    // single-threaded variant: sessions one after another with nesting only
    let threads = ctx.chance(2, 3);
    if threads {
        std::thread::scope(|sc| {
            for i in 0..n {
                let (baton, ss, nested_out, traces) = (&baton, &ss, &nested_out, &traces);
                sc.spawn(move || {
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        guarded(|| baton.wait_turn(i));
                        run_session(&ss[i], true, &|| baton.yield_now(i), nested_out)
                    }));
                    *traces[i].lock().unwrap() = Some(r);
                    baton.finish(i);
                });
            }
            let burst = ctx.pick(4);
            let mut cur = 0;
            let mut steps = 0u64;
            loop {
                let alive: Vec<usize> = (0..n).filter(|i| !baton.is_done(*i)).collect();
                if alive.is_empty() {
                    break;
                }
                steps += 1;
                let keep = burst == 1 && alive.contains(&cur) && ctx.chance(3, 4);
                if !keep {
                    cur = match burst {
                        2 => *alive.iter().find(|i| **i > cur).unwrap_or(&alive[0]),
                        _ => alive[ctx.idx(alive.len())],
                    };
                }
                let abort = !abandoned[cur] && ctx.chance(1, 150);
                if abort {
                    abandoned[cur] = true;
                }
                schedule.push(cur as u8);
                if steps > 60_000 {
                    // far beyond any budget: end everything so that the failure can be reported
                    abandoned[cur] = true;
                    baton.grant(cur, true);
                    continue;
                }
                baton.grant(cur, abort);
            }
        });
    } else {
        for i in 0..n {
            let r = catch_unwind(AssertUnwindSafe(|| run_session(&ss[i], true, &|| {}, &nested_out)));
            *traces[i].lock().unwrap() = Some(r);
            schedule.push(i as u8);
        }
    }
    ctx.steps += schedule.len() as u64;
    for s in &schedule {
        ctx.sym(*s as u64);
    }
    let mut out = Vec::new();
    for t in &traces {
        match t.lock().unwrap().take() {
            Some(Ok(t)) => out.push(t),
            Some(Err(e)) => resume_unwind(e),
            None => return Err("harness: session without result".into()),
        }
    }
    ctx.nontrivial |= n > 1 && out.iter().filter(|t| t.queries.len() > 1).count() > 1;
    if ctx.log_on {
        for (i, s) in ss.iter().enumerate() {
            ev!(ctx, "session {i}: {}, segments {:?} (moved {:?}), panic at {:?}, nested at {:?}: {} queries, {}", s.job.describe(), s.segs, s.moved, s.panic_at,
                s.nested.iter().map(|x| x.0).collect::<Vec<_>>(), out[i].queries.len(), if out[i].result.is_some() { "completed" } else { "interrupted" });
        }
        ev!(ctx, "schedule of {} turns: {:?}", schedule.len(), &schedule[..schedule.len().min(80)]);
    }
    for i in 0..n {
        if abandoned[i] {
            ctx.fault("session abandoned");
        } else if out[i].result.is_none() {
            ctx.fault("session panicked");
        }
        if solos[i].is_none() {
            solos[i] = Some(solo(&ss[i]));
        }
        compare(ctx, "an interleaved", &ss[i], &out[i], solos[i].as_ref().unwrap())?;
        ctx.sym(crate::ctx::hash_str(ss[i].job.spec.name()));
    }
    let nested: Vec<(Session, Trace)> = std::mem::take(&mut *nested_out.lock().unwrap());
    for (s, t) in &nested {
        ctx.fault("session nested in a callback");
        let want = solo(s);
        compare(ctx, "a nested", s, t, &want)?;
    }
    let moves = ss.iter().map(|s| s.moved.iter().filter(|x| **x).count()).sum::<usize>();
    for _ in 0..moves {
        ctx.fault("segment moved to another thread");
    }
    if let Some(i) = fresh {
        if let Some(h) = fresh_process_solo(&gen_tape, i, ctx.deep) {
            ctx.cover("solo runs repeated in a fresh process");
            ensure!(ctx, h == trace_hash(solos[i].as_ref().unwrap()), "a session run alone in a fresh process behaves differently than run alone in a process that has solved other problems ({})", ss[i].job.describe());
        }
    }
    Ok(())
}

const PROBLEMS: &str = "drivers, Ell, EllStable, EllCalc, profit (plain, robust, discrete), quasi-convex, low-pass, matrix-inequality, maximum-cut and classifier oracles";

pub const C10: Prop = Prop {
    id: "C10", run: c10, quick: 1600000, thorough: 20000000,
    rule: "one run = one problem and region solved once without interruption and once as segments cancelled by budget or panic, moved between threads and restored from clones; non-trivial when there was more than one segment and a cut; distinct by problem kind, dimension, region kind, segment budgets and faults",
    measure: "hash of problem kind, region kind, dimension, segment budgets, thread moves, faults and query count",
    real: PROBLEMS, stub: "generated polyhedron oracles in a sixth of the runs; panics injected before the wrapped oracle is entered; a user-written space in a quarter of the runs",
    assumptions: &["the oracle itself survives the panic unchanged (it is raised before the oracle is entered)", "the discrete driver is excluded: its retry flag is private to one call by design", "an incumbent found in a segment that panics is known to the caller only through its oracle"],
};
pub const C11: Prop = Prop {
    id: "C11", run: c11, quick: 100000, thorough: 1200000,
    rule: "one run = two to four sessions on threads parked at every oracle callback and released one at a time by the seeded scheduler (or run in turn), with nested sessions, segment migration, panics and abandonment; each compared with its solo run; non-trivial when at least two sessions made more than one query; distinct by schedule and problem kinds",
    measure: "hash of the schedule (sequence of session turns) and of the problem kinds",
    real: PROBLEMS, stub: "generated polyhedron oracles in a sixth of the sessions; a user-written space in a quarter of them",
    assumptions: &["scheduling granularity is the oracle callback: between two callbacks a session runs undisturbed (the crate has no other point at which it hands out control)"],
};
