//! Executes a scenario (inside a forked child) and judges it.
use crate::gen;
use crate::job::*;
use crate::prng::{mix, Rng};
use crate::proc::*;
use crate::rt::{self, Mode};
use crate::scn::*;
use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicPtr, Ordering::*};

#[derive(Clone, Debug)]
pub struct Base {
    pub parts: [u64; NP],
    pub steps: u64,
}
pub type Bases = HashMap<u64, Base>;

/// The job as its result must not depend on: without what happens inside the decoder besides decoding.
pub fn stripped(j: &Job) -> Job {
    let mut j = j.clone();
    for a in &mut j.acts {
        a.nested = None;
        a.stall = 0;
    }
    j
}
pub fn reference(j: &Job) -> Job {
    let mut j = stripped(j);
    j.tokens = true;
    j.name = "(eval)".into();
    j
}

static PROGRESS: AtomicPtr<u64> = AtomicPtr::new(std::ptr::null_mut());
pub fn set_progress(s: &Shm) {
    PROGRESS.store(s.ptr() as *mut u64, SeqCst);
}
pub fn mark(t: usize, k: usize) {
    let p = PROGRESS.load(Relaxed);
    if !p.is_null() {
        unsafe { *p = ((t as u64) << 32 | k as u64) + 1 }
    }
    cpu_rearm();
}
fn marked() -> Option<(usize, usize)> {
    let p = PROGRESS.load(Relaxed);
    if p.is_null() {
        return None;
    }
    let v = unsafe { *p };
    if v == 0 {
        None
    } else {
        Some((((v - 1) >> 32) as usize, (v - 1) as u32 as usize))
    }
}

pub fn all_jobs(s: &Scenario) -> Vec<Job> {
    fn add(j: &Job, out: &mut Vec<Job>) {
        out.push(stripped(j));
        for a in &j.acts {
            if let Some(n) = &a.nested {
                add(n, out);
            }
        }
    }
    let mut v = vec![];
    for j in s.threads.iter().flatten() {
        add(j, &mut v);
        if s.prop == "C03" {
            v.push(reference(j));
        }
    }
    v
}
pub fn needs_bases(p: &str) -> bool {
    matches!(p, "C01" | "C02" | "C03" | "C07")
}

pub fn baseline(shm: &Shm, j: &Job) -> Result<Base, End> {
    let e = isolated(shm, || {
        let q = rt::Quiet::new();
        rt::World::plain().enter();
        let o = crate::cover::watch(&j.src, || run_job(j, Want::hashes()));
        drop(q);
        let mut v = vec![];
        for p in o.parts {
            v.extend_from_slice(&p.to_le_bytes());
        }
        v.extend_from_slice(&o.steps.to_le_bytes());
        v
    });
    match e {
        End::Ok(v) if v.len() == 8 * (NP + 1) => {
            let g = |i: usize| u64::from_le_bytes(v[i * 8..i * 8 + 8].try_into().unwrap());
            let mut parts = [0; NP];
            for (i, p) in parts.iter_mut().enumerate() {
                *p = g(i);
            }
            Ok(Base { parts, steps: g(NP) })
        }
        e => Err(e),
    }
}
/// Full text of the job run alone, for explanations.
pub fn baseline_text(shm: &Shm, j: &Job) -> Vec<String> {
    match isolated(shm, || {
        let _q = rt::Quiet::new();
        rt::World::plain().enter();
        let o = run_job(j, Want { text: true, ..Want::hashes() });
        o.text.unwrap().iter().map(|t| esc(t.as_bytes())).collect::<Vec<_>>().join("\n").into_bytes()
    }) {
        End::Ok(v) => String::from_utf8_lossy(&v).lines().map(|s| s.to_string()).collect(),
        _ => vec![],
    }
}

/// Compares a job's outcome with the same job run alone.
fn compare(j: &Job, o: &Outcome, bases: &Bases, at: (usize, usize), rep: &mut Report) {
    let b = match bases.get(&stripped(j).key()) {
        Some(b) => b,
        None => return,
    };
    if let Some(i) = o.diff(&b.parts) {
        let got = o.panic.clone().map(|p| format!(" (panicked: {})", p)).unwrap_or_default();
        rep.fail(
            format!("differs from the same call run alone: {}", PARTS[i]),
            format!("thread {} job {}: {} differs from the same job run alone in a fresh process{}", at.0, at.1, PARTS[i], got),
            Some(at),
        );
    }
    for (k, n) in &o.nested {
        let a = &j.acts[(*k).min(j.acts.len() - 1)];
        if let Some(nj) = &a.nested {
            compare(nj, n, bases, at, rep);
        }
    }
}

struct Share(UnsafeCell<Shared>);
unsafe impl Sync for Share {}
#[derive(Default)]
struct Shared {
    outs: Vec<Vec<Option<Outcome>>>,
    mail: Vec<(usize, usize, Ran)>,
    handed: u64,
}

fn fire_stats(j: &Job, o: &Outcome, rep: &mut Report) {
    for k in 0..o.calls.len() {
        let a = &j.acts[k.min(j.acts.len() - 1)];
        rep.stat(&format!("fault {}", a.out.kind()), 1);
        if a.nested.is_some() {
            rep.stat("fault decoder:re-entrant parse", 1);
        }
    }
    if j.api == Api::Abandon {
        rep.stat("fault client:abandoned parser", 1);
    }
    for (k, n) in &o.nested {
        let a = &j.acts[(*k).min(j.acts.len() - 1)];
        if let Some(nj) = &a.nested {
            fire_stats(nj, n, rep);
        }
    }
}

/// Runs all jobs of the scenario under its schedule. Called in the child.
fn run_all(s: &Scenario, want: Want, cap: u64, rep: &mut Report) -> Vec<Vec<Option<Outcome>>> {
    let n = s.threads.len();
    let sh: &'static Share = Box::leak(Box::new(Share(UnsafeCell::new(Shared::default()))));
    let shared = sh.0.get();
    unsafe {
        (*shared).outs = s.threads.iter().map(|t| (0..t.len()).map(|_| None).collect()).collect();
    }
    if n == 1 && s.explore.is_none() && s.decisions.is_empty() {
        let _q = rt::Quiet::new();
        for (k, j) in s.threads[0].iter().enumerate() {
            mark(0, k);
            let o = run_job(j, want);
            unsafe { (&mut *shared).outs[0][k] = Some(o) };
        }
    } else {
        let handoff = s.param("handoff") != 0;
        let mut fs: Vec<Box<dyn FnOnce()>> = vec![];
        for (t, jobs) in s.threads.iter().cloned().enumerate() {
            let sh: &'static Share = sh;
            let threads = s.threads.clone();
            fs.push(Box::new(move || {
                let shared = sh.0.get();
                for (k, j) in jobs.iter().enumerate() {
                    mark(t, k);
                    rt::hot_point();
                    let ran = start_job(j, want);
                    if handoff {
                        // results travel: another thread inspects and drops them
                        let got = unsafe {
                            let m = &mut (*shared).mail;
                            m.push((t, k, ran));
                            let i = m.iter().position(|x| x.0 != t);
                            i.map(|i| m.remove(i))
                        };
                        if let Some((t2, k2, ran)) = got {
                            let o = finish_job(&threads[t2][k2], ran, want);
                            unsafe {
                                (&mut *shared).outs[t2][k2] = Some(o);
                                (&mut *shared).handed += 1;
                            }
                        }
                    } else {
                        let o = finish_job(j, ran, want);
                        unsafe { (&mut *shared).outs[t][k] = Some(o) };
                    }
                    rt::hot_point();
                }
            }));
        }
        let log = rt::run_threads(fs, &Mode { explore: s.explore.clone(), decisions: s.decisions.clone(), step_cap: cap });
        rep.stat("context switches", log.switches);
        rep.stat("steps", log.total_steps);
        rep.stat("accesses to writable statics", log.shared_hits);
        rep.stat("futex waits", log.futex_waits);
        rep.trace = log.trace;
        rep.decisions = log.decisions;
        if log.deadlock {
            rep.fail("deadlock", "every simulated thread is blocked", None);
        } else if log.capped {
            rep.fail("no progress", "a thread exceeded its step budget although every thread kept being scheduled", None);
        }
        if rep.violation.is_none() {
            let _q = rt::Quiet::new();
            unsafe {
                while let Some((t, k, ran)) = (&mut *shared).mail.pop() {
                    let o = finish_job(&s.threads[t][k], ran, want);
                    (&mut *shared).outs[t][k] = Some(o);
                }
                rep.stat("results inspected and dropped on another thread", (*shared).handed);
            }
        }
    }
    unsafe { std::mem::take(&mut (*shared).outs) }
}

fn mem_verdict(rep: &mut Report) {
    rt::quarantine_flush();
    let e = rt::MEM_ERR.load(SeqCst);
    if e != 0 {
        rep.fail(format!("memory: {}", rt::mem_err_text(e)), rt::mem_err_text(e).to_string(), None);
    }
    rep.stat("heap operations", rt::ALLOCS.load(SeqCst));
}

pub const BOUND_A: u64 = 400_000;
pub const BOUND_B: u64 = 20_000;

/// Judges the scenario. Called in the child; everything observable ends up in the report.
pub fn judge(s: &Scenario, bases: &Bases) -> Report {
    let mut rep = Report::default();
    s.world.enter();
    let n_jobs: usize = s.threads.iter().map(|t| t.len()).sum();
    let mut hist = 0u64;
    match s.prop.as_str() {
        "C01" | "C02" | "C03" | "C07" => {
            let edges: u64 = s.threads.iter().flatten().map(|j| bases.get(&stripped(j).key()).map(|b| b.steps).unwrap_or(0)).sum();
            let cap = 50_000_000 + 400 * edges;
            let outs = run_all(s, Want::hashes(), cap, &mut rep);
            for (t, l) in outs.iter().enumerate() {
                for (k, o) in l.iter().enumerate() {
                    if let Some(o) = o {
                        let j = &s.threads[t][k];
                        for p in o.parts {
                            hist = mix(hist ^ p);
                        }
                        fire_stats(j, o, &mut rep);
                        if o.panic.is_some() && !o.injected_panic {
                            rep.stat("library panics", 1);
                        }
                        compare(j, o, bases, (t, k), &mut rep);
                        if s.prop == "C03" {
                            c03_extra(j, o, bases, (t, k), &mut rep);
                        }
                        if s.prop == "C07" {
                            crate::checks::c07_extra(j, o, (t, k), &mut rep);
                        }
                    }
                }
            }
            rep.stat("jobs", n_jobs as u64);
            if rep.violation.is_none() {
                drop(outs);
                mem_verdict(&mut rep);
            }
            if s.prop == "C03" {
                rep.stat("fault world:entropy reads answered by the simulator", rt::CNT_ENTROPY.load(SeqCst));
                rep.stat("fault world:clock reads answered by the simulator", rt::CNT_CLOCK.load(SeqCst));
                rep.stat("fault world:environment reads answered by the simulator", rt::CNT_ENV.load(SeqCst));
            }
        }
        "C08" => crate::checks::c08(s, &mut rep, &mut hist),
        "C09" => crate::checks::c09(s, &mut rep, &mut hist),
        "C04" | "C05" | "C06" => crate::checks::decoder_checks(s, &mut rep, &mut hist),
        "C14" => crate::damage::judge_c14(s, &mut rep, &mut hist),
        "C15" => crate::damage::judge_c15(s, &mut rep, &mut hist),
        "C18" => crate::concat::judge_c18(s, &mut rep, &mut hist),
        "C19" => crate::concat::judge_c19(s, &mut rep, &mut hist),
        "C10" | "C16" | "C17" => {
            let _q = rt::Quiet::new();
            let want = Want { flaws: true, ..Want::hashes() };
            for (k, j) in s.threads[0].iter().enumerate() {
                mark(0, k);
                let o = run_job(j, want);
                hist = mix(hist ^ o.parts[1] ^ o.parts[2].rotate_left(7));
                c10_verdict(&s.prop, j, &o, k, &mut rep);
            }
            rep.stat("jobs", n_jobs as u64);
        }
        "C11" => crate::envmodel::judge(s, &mut rep, &mut hist),
        "C12" | "C13" => crate::cli::judge(s, &mut rep, &mut hist),
        _ => rep.fail("harness", format!("unknown property {}", s.prop), None),
    }
    rep.history = hist;
    rep
}

pub fn c10_verdict(prop: &str, j: &Job, o: &Outcome, k: usize, rep: &mut Report) {
    if prop == "C17" {
        if let Some(f) = o.flaws.iter().find(|f| f.starts_with("nesting")) {
            rep.fail("nesting", format!("job {}: {} on {}", k, f, esc(&j.src)), Some((0, k)));
        }
        if o.info.errors == 0 && o.info.has_ast {
            rep.stat("accepted sources whose locations nest", 1);
        }
        return;
    }
    if prop == "C16" {
        if o.info.errors == 0 && o.panic.is_none() {
            rep.stat("accepted sources accounted for", 1);
        }
        if let Some(f) = o.flaws.iter().find(|f| f.starts_with("silent loss")) {
            rep.fail("silent loss", format!("job {}: {} on {}", k, f, esc(&j.src)), Some((0, k)));
        }
        return;
    }
    if let Some(p) = &o.panic {
        if !o.injected_panic {
            rep.fail("panic", format!("job {}: panicked: {} on {}", k, p, esc(&j.src)), Some((0, k)));
        }
    }
    let own = |f: &String| f.starts_with("silent loss") || f.starts_with("nesting");
    if let Some(f) = o.flaws.iter().find(|f| !own(f)) {
        let class = f.split(':').next().unwrap_or("").to_string();
        rep.fail(format!("bad result: {}", class), format!("job {}: {} on {}", k, f, esc(&j.src)), Some((0, k)));
    }
    if j.api == Api::Parse && o.panic.is_none() && o.info.errors == 0 && o.info.has_ast {
        // accepted: the parser must have left every construct it entered
        let v = run_job(&Job { api: Api::Validate, ..j.clone() }, Want { step_limit: 400_000_000, ..Want::hashes() });
        rep.stat("accepted sources parsed again with state validation", 1);
        if let Some(p) = &v.panic {
            rep.fail("state validation fails on an accepted source", format!("job {}: {} on {}", k, p, esc(&j.src)), Some((0, k)));
        } else if v.parts != o.parts {
            rep.fail("state validation changes the result", format!("job {}: on {}", k, esc(&j.src)), Some((0, k)));
        }
    }
}

fn c03_extra(j: &Job, o: &Outcome, bases: &Bases, at: (usize, usize), rep: &mut Report) {
    let b = match bases.get(&reference(j).key()) {
        Some(b) => b,
        None => return,
    };
    let same_name = j.name == "(eval)";
    for i in 0..NP {
        if (i == 2 && !j.tokens && j.api != Api::Lex) || (i == 8 || i == 9) && !same_name {
            continue;
        }
        if o.parts[i] != b.parts[i] {
            rep.fail(
                format!("depends on record_tokens or buffer_name: {}", PARTS[i]),
                format!("job {}: {} changes with record_tokens={} buffer_name={:?}", at.1, PARTS[i], j.tokens, j.name),
                Some(at),
            );
        }
    }
    if matches!(j.api, Api::Parse | Api::Validate) && o.panic.is_none() {
        if !j.tokens && o.info.tokens != 0 {
            rep.fail("tokens recorded although record_tokens is off", format!("{} tokens", o.info.tokens), Some(at));
        }
        if o.parts[8] != crate::prng::hash_bytes(j.name.as_bytes()) {
            rep.fail("buffer name not kept", "input.name differs from buffer_name".to_string(), Some(at));
        }
    }
}

pub fn outer_mark(t: usize, k: usize) {
    mark(t, k)
}

/// Runs the scenario in a fresh child and folds crashes, hangs and step-limit exits into the report.
pub fn execute(shm: &Shm, s: &Scenario, bases: &Bases) -> Report {
    let p = PROGRESS.load(Relaxed);
    if !p.is_null() {
        unsafe { *p = 0 }
    }
    let e = isolated(shm, || judge(s, bases).encode().into_bytes());
    fold(s, e)
}
pub fn fold(s: &Scenario, e: End) -> Report {
    match e {
        End::Ok(v) => match Report::decode(&String::from_utf8_lossy(&v)) {
            Some(r) => r,
            None => {
                let mut r = Report::default();
                r.fail("harness", "unreadable report", None);
                r
            }
        },
        e => {
            let mut r = Report::default();
            let at = marked();
            let what = at.and_then(|(t, k)| s.threads.get(t).and_then(|x| x.get(k))).map(|j| esc(&j.src)).unwrap_or_default();
            match e {
                End::StepLimit => r.fail("work bound exceeded", format!("more library steps than the bound allows on {}", what), at),
                End::Hang => r.fail("hang", format!("no result after {} s of CPU on {}", CPU_LIMIT_S, what), at),
                End::Signal(sig) => r.fail(format!("crash: signal {}", sig), format!("process died with signal {} on {}", sig, what), at),
                End::Exit(c) => r.fail(format!("crash: exit {}", c), format!("process exited with {} on {}", c, what), at),
                End::Ok(_) => unreachable!(),
            }
            r
        }
    }
}

/// Baselines for every job of the scenario, cached.
pub fn fill_bases(shm: &Shm, s: &Scenario, bases: &mut Bases) -> Option<Report> {
    if !needs_bases(&s.prop) {
        return None;
    }
    for j in all_jobs(s) {
        let k = j.key();
        if !bases.contains_key(&k) {
            match baseline(shm, &j) {
                Ok(b) => {
                    bases.insert(k, b);
                }
                Err(e) => {
                    // the job alone, with nobody around, kills the process: not an isolation matter
                    let mut r = Report::default();
                    r.stat("skipped: job alone ends the process", 1);
                    let _ = e;
                    return Some(r);
                }
            }
        }
    }
    None
}

/// Fresh-process execution including baselines: what replay and the minimiser use.
pub fn execute_fresh(shm: &Shm, s: &Scenario) -> Report {
    let mut bases = Bases::new();
    if let Some(r) = fill_bases(shm, s, &mut bases) {
        return r;
    }
    execute(shm, s, &bases)
}

pub fn arb_explore(r: &mut Rng) -> rt::Explore {
    rt::Explore {
        seed: r.next(),
        mean: *r.pick(&[10, 30, 100, 300, 1000, 3000, 10_000, 40_000]),
        shared: *r.pick(&[0, 16, 64, 200]),
        hot: *r.pick(&[0, 64, 200, 255]),
    }
}
#[allow(dead_code)]
pub fn _unused(_: &gen::Corpus) {}
