mod checks;
mod cli;
mod cover;
mod envmodel;
mod concat;
mod damage;
mod dict;
mod exec;
mod fuzz;
mod gen;
mod job;
mod minimise;
mod prng;
mod proc;
mod rt;
mod ruby;
mod scn;

use exec::*;
use proc::*;
use scn::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;

pub struct Budget {
    pub runs: u64,
    pub wall: f64,
}
fn budget(prop: &str, thorough: bool) -> Budget {
    let (q, t) = match prop {
        "C01" | "C02" | "C07" => (200_000, 1_500_000),
        "C03" => (300_000, 2_500_000),
        "C04" | "C05" | "C06" => (800_000, 6_000_000),
        "C08" | "C09" => (100_000, 900_000),
        "C10" | "C16" | "C17" => (8, 8),
        "C14" | "C15" | "C18" | "C19" => (400_000, 4_000_000),
        "C11" => (1_000_000, 8_000_000),
        "C12" => (100_000, 1_000_000),
        "C13" => (50_000, 500_000),
        _ => (1000, 10_000),
    };
    let env = |k: &str| std::env::var(k).ok().and_then(|v| v.parse::<f64>().ok());
    Budget {
        runs: env("LRPSIM_RUNS").map(|x| x as u64).unwrap_or(if thorough { t } else { q }),
        wall: env("LRPSIM_WALL").unwrap_or(if thorough { 780.0 } else { 90.0 }),
    }
}

#[derive(Default)]
pub struct Total {
    pub runs: u64,
    pub stats: BTreeMap<String, u64>,
    pub maxes: BTreeMap<String, u64>,
    pub traces: BTreeSet<u64>,
    pub histories: BTreeSet<u64>,
    pub samples: Vec<String>,
    pub failures: Vec<(u64, String, String, String)>, // run index, class, detail, scenario text
    pub determinism_checked: u64,
    pub determinism_broken: Vec<String>,
    pub complete: bool,
}

impl Total {
    pub fn add(&mut self, i: u64, s: &Scenario, r: &Report) {
        self.runs += 1;
        for (k, v) in &r.stats {
            *self.stats.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &r.extra {
            if let Ok(n) = v.parse::<u64>() {
                let e = self.maxes.entry(k.clone()).or_default();
                *e = (*e).max(n);
            }
        }
        if self.traces.len() < 4_000_000 {
            self.traces.insert(r.trace);
            self.histories.insert(r.history);
        }
        if let Some((c, d)) = &r.violation {
            let mut s = s.clone();
            if s.explore.is_some() && !r.decisions.is_empty() {
                s.explore = None;
                s.decisions = r.decisions.clone();
            }
            self.failures.push((i, c.clone(), d.clone(), s.encode()));
        }
        if self.samples.len() < 2 && r.violation.is_none() && self.runs > 3 {
            let t = s.encode();
            let t: String = t.chars().take(900).collect();
            self.samples.push(format!("run {}: {} [{} switches]", i, t.replace('\n', " | "), r.decisions.len()));
        }
    }
    fn encode(&self) -> String {
        use job::esc;
        let e = |s: &str| esc(s.as_bytes());
        let mut o = format!("R\t{}\nC\t{}\nDC\t{}\n", self.runs, self.complete as u8, self.determinism_checked);
        for (k, v) in &self.stats {
            o.push_str(&format!("S\t{}\t{}\n", v, e(k)));
        }
        for (k, v) in &self.maxes {
            o.push_str(&format!("M\t{}\t{}\n", v, e(k)));
        }
        for t in &self.traces {
            o.push_str(&format!("T\t{}\n", t));
        }
        for t in &self.histories {
            o.push_str(&format!("H\t{}\n", t));
        }
        for t in &self.samples {
            o.push_str(&format!("P\t{}\n", e(t)));
        }
        for t in &self.determinism_broken {
            o.push_str(&format!("B\t{}\n", e(t)));
        }
        for (i, c, d, s) in &self.failures {
            o.push_str(&format!("F\t{}\t{}\t{}\t{}\n", i, e(c), e(d), e(s)));
        }
        o.push_str("END\n");
        o
    }
    fn merge(&mut self, t: &str) -> bool {
        let u = |s: &str| String::from_utf8_lossy(&job::unesc(s)).into_owned();
        let mut ended = false;
        for l in t.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "R" => self.runs += f[1].parse::<u64>().unwrap_or(0),
                "C" => self.complete &= f[1] == "1",
                "DC" => self.determinism_checked += f[1].parse::<u64>().unwrap_or(0),
                "S" => *self.stats.entry(u(f[2])).or_default() += f[1].parse::<u64>().unwrap_or(0),
                "M" => {
                    let e = self.maxes.entry(u(f[2])).or_default();
                    *e = (*e).max(f[1].parse().unwrap_or(0));
                }
                "T" => {
                    self.traces.insert(f[1].parse().unwrap_or(0));
                }
                "H" => {
                    self.histories.insert(f[1].parse().unwrap_or(0));
                }
                "P" => self.samples.push(u(f[1])),
                "B" => self.determinism_broken.push(u(f[1])),
                "F" => self.failures.push((f[1].parse().unwrap_or(0), u(f[2]), u(f[3]), u(f[4]))),
                "END" => ended = true,
                _ => {}
            }
        }
        ended
    }
}

fn worker(prop: &str, seed: u64, w: u64, n: u64, b: &Budget, t0: f64) -> Total {
    let shm = Shm::new(64 << 20);
    let prog = Shm::new(4096);
    set_progress(&prog);
    let mut tot = Total { complete: true, ..Default::default() };
    let c = gen::Corpus::load();
    if prop == "C10" || prop == "C16" || prop == "C17" {
        fuzz::worker(prop, &c, &shm, seed, w, b, t0, &mut tot);
        return tot;
    }
    let fb = cover::Feedback::new();
    let mut bases = Bases::new();
    let mut i = w;
    while i < b.runs {
        if rt::real_now() - t0 > b.wall || STOP.stop() {
            tot.complete = false;
            break;
        }
        if bases.len() > 200_000 {
            bases.clear();
        }
        let s = checks::generate(prop, &c, seed, i);
        let rep = match fill_bases(&shm, &s, &mut bases) {
            Some(r) => r,
            None => execute(&shm, &s, &bases),
        };
        if i % 199 == 3 && rep.violation.is_none() {
            // the same run again, from its recorded decisions: must be the same execution
            tot.determinism_checked += 1;
            let mut again = s.clone();
            if again.explore.is_some() {
                again.explore = None;
                again.decisions = rep.decisions.clone();
            }
            let r2 = execute(&shm, &again, &bases);
            if r2.history != rep.history || r2.trace != rep.trace || r2.violation.is_some() {
                tot.determinism_broken.push(format!("run {} of {} diverged on replay ({:?})", i, prop, r2.violation));
            }
        }
        let stop = rep.violation.is_some();
        tot.add(i, &s, &rep);
        for f in fb.drain() {
            let mut p = c.pool.borrow_mut();
            if p.len() >= 6000 {
                p.drain(..1000);
            }
            p.push(f);
        }
        if stop {
            STOP.hit();
            if tot.failures.len() >= 3 {
                tot.complete = false;
                break;
            }
        }
        i += n;
    }
    tot.maxes.insert("library edges reached (best worker)".into(), fb.edges());
    tot.maxes.insert("sources in the feedback pool (best worker)".into(), c.pool.borrow().len() as u64);
    tot
}

/// Shared by the workers: once somebody found a violation the others soon stop.
pub struct Stop(std::sync::atomic::AtomicPtr<u64>);
pub static STOP: Stop = Stop(std::sync::atomic::AtomicPtr::new(std::ptr::null_mut()));
impl Stop {
    fn init(&self) {
        let s = Box::leak(Box::new(Shm::new(4096)));
        self.0.store(s.ptr() as *mut u64, std::sync::atomic::Ordering::SeqCst);
    }
    pub fn hit(&self) {
        let p = self.0.load(std::sync::atomic::Ordering::Relaxed);
        if !p.is_null() {
            unsafe {
                if *p == 0 {
                    *p = (rt::real_now() * 1000.0) as u64 | 1;
                }
            }
        }
    }
    pub fn stop(&self) -> bool {
        let p = self.0.load(std::sync::atomic::Ordering::Relaxed);
        !p.is_null() && unsafe { *p != 0 && rt::real_now() * 1000.0 > *p as f64 + 6000.0 }
    }
}

fn run_workers(prop: &str, seed: u64, b: &Budget, t0: f64, nw: usize) -> Total {
    STOP.init();
    let mut kids = vec![];
    for w in 0..nw {
        let path = format!("/verif/target/run/{}.{}.w{}", prop, std::process::id(), w);
        let pid = unsafe { libc::fork() };
        if pid < 0 {
            die("fork failed");
        }
        if pid == 0 {
            pin(w);
            let t = worker(prop, seed, w as u64, nw as u64, b, t0);
            std::fs::write(&path, t.encode()).unwrap_or_else(|_| die("cannot write worker result"));
            unsafe { libc::_exit(0) };
        }
        kids.push((pid, path));
    }
    let mut tot = Total { complete: true, ..Default::default() };
    for (pid, path) in kids {
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        if st != 0 {
            die(&format!("worker ended with status {}", st));
        }
        let t = std::fs::read_to_string(&path).unwrap_or_default();
        if !tot.merge(&t) {
            die("worker result incomplete");
        }
        let _ = std::fs::remove_file(&path);
    }
    tot.failures.sort();
    tot
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "A run is 2-4 simulated threads with 1-3 API calls each under one seeded schedule; non-trivial and distinct: the sequence of (thread, step, next thread) hand-overs has not been seen before in this check.",
        "C02" => "A run is a history of 2-700 API calls in one process; distinct: the fingerprints of all results along the history differ from every other history.",
        "C03" => "A run is 1-3 API calls in a sampled world (entropy, clock, environment variables, heap contents and layout); distinct by result fingerprints.",
        "C04" | "C05" | "C06" => "A run is 1-4 parses of sources with (or almost with) encoding directives against a scripted decoder; distinct by fingerprints of decoder calls, diagnostics and AST.",
        "C07" => "A run is a history of 2-139 calls, about half with a decoder that panics, on one or two simulated threads; distinct by result fingerprints.",
        "C08" => "A run is 10 rounds of 4-19 calls (decoder failures, panics and abandoned parsers included) on a checked heap (a third of the runs with every n-th block fenced by an inaccessible page); distinct by result fingerprints.",
        "C09" => "A run is 40 parses of damaged sources against the step bound, or one scaling pair (a unit repeated n and 16 n times, edges executed and bytes moved compared); distinct by step counts.",
        "C14" => "A run is one source and 3-8 versions of it damaged from some position on; distinct by AST, tokens and diagnostics of all versions.",
        "C15" => "A run is 1-3 sources, each with up to 6 versions damaged inside comments or after __END__ only; distinct by AST, tokens and diagnostics of all versions.",
        "C18" => "A run is 2-3 sources; every accepted one is followed by itself and by another one; distinct by statements and errors of all parts and wholes.",
        "C19" => "A run is 1-3 sources, each with all and with some of its line ends rewritten to CR LF; distinct by statements and errors of all versions.",
        "C10" | "C16" | "C17" => "An evaluation is one parse of a source as left by a simulated storage fault; non-trivial: it was kept because it reached an edge-count bucket of the library no earlier one had.",
        "C12" | "C13" => "A run is one execution of the real parse command on 0-6 files under a seeded plan of I/O faults, latencies, directory order and clocks (plus a recovery run after a fatal fault); distinct by output and log of simulated calls.",
        "C11" => "A run is a history of operations on static_env handles, parsers and decoders; distinct by the answers observed along it.",
        _ => "",
    }
}

fn write_evidence(prop: &str, tier: &str, seed: u64, t: &Total, wall: f64, viol: usize, nw: usize) {
    let faults: Vec<String> = t.stats.iter().filter(|(k, _)| k.starts_with("fault ")).map(|(k, v)| format!("{}: {}", js(&k[6..]), v)).collect();
    let counts: Vec<String> = t.stats.iter().filter(|(k, _)| !k.starts_with("fault ")).map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    let maxes: Vec<String> = t.maxes.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    let (evals, distinct) = match prop {
        "C01" => (t.runs, t.traces.len() as u64),
        "C10" | "C16" | "C17" => (*t.stats.get("jobs").unwrap_or(&0), *t.stats.get("kept inputs").unwrap_or(&0)),
        _ => (t.runs, t.histories.len() as u64),
    };
    let samples: Vec<String> = t.samples.iter().take(4).map(|s| js(s)).collect();
    let real = "[\"lib-ruby-parser (lexer, parser, builder, source, static environment)\", \"lib-ruby-parser-ast\", \"alloc-from-pool\", \"std\"]";
    let stub = "[\"thread scheduler\", \"futex\", \"clock\", \"entropy\", \"environment variables\", \"heap (checked allocator over malloc)\", \"decoder callback (the embedding program)\", \"storage the source was read from\"]";
    let j = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"runs\": {},\n  \"runs_per_hour\": {},\n  \"faults_injected\": {{{}}},\n  \"counts\": {{{}}},\n  \"maxima\": {{{}}},\n  \"distinct_schedules\": {},\n  \"distinct_histories\": {},\n  \"replay_determinism_checks\": {},\n  \"planned_runs_completed\": {},\n  \"workers\": {},\n  \"library_edges_instrumented\": {},\n  \"simulated_time\": \"no timers in the library; simulated clock only answers reads\",\n  \"real_components\": {},\n  \"simulated_components\": {}\n }},\n \"assumptions\": [\"sequentially consistent memory: one simulated thread runs at a time, switches happen at instrumented edges, loads, stores, heap and futex operations\", \"nesting of generated sources stays below 1000 levels\"],\n \"wall_s\": {:.1},\n \"violations\": {}\n}}\n",
        js(prop), js(tier), seed, evals, distinct, js(rule(prop)), samples.join(", "), t.runs, (t.runs as f64 * 3600.0 / wall.max(0.1)) as u64,
        faults.join(", "), counts.join(", "), maxes.join(", "), t.traces.len(), t.histories.len(), t.determinism_checked, t.complete, nw, rt::guards(), real, stub, wall, viol
    );
    let _ = std::fs::create_dir_all("/verif/evidence");
    if std::fs::write(format!("/verif/evidence/{}.json", prop), j).is_err() {
        die("cannot write evidence");
    }
}

fn explain(shm: &Shm, s: &Scenario, rep: &Report) -> String {
    let mut o = String::new();
    if let Some((t, k)) = rep.at {
        if let Some(j) = s.threads.get(t).and_then(|x| x.get(k)) {
            if needs_bases(&s.prop) {
                o.push_str(&format!("# thread {} job {} run alone gives:\n", t, k));
                for (n, l) in job::PARTS.iter().zip(baseline_text(shm, &stripped(j))) {
                    let l: String = l.chars().take(400).collect();
                    o.push_str(&format!("#   {}: {}\n", n, l));
                }
            }
        }
    }
    o
}

fn check(prop: &str) -> i32 {
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|v| v.trim().parse::<i64>().ok()).unwrap_or(1) as u64;
    let b = budget(prop, thorough);
    let t0 = rt::real_now();
    let nw = std::env::var("LRPSIM_WORKERS").ok().and_then(|v| v.parse().ok()).unwrap_or_else(|| cpus().min(16));
    let _ = std::fs::create_dir_all("/verif/target/run");
    println!("{}: seed {} tier {} up to {} runs, {} s, {} workers", prop, seed, tier, b.runs, b.wall, nw);
    std::io::stdout().flush().ok();
    let tot = run_workers(prop, seed, &b, t0, nw);
    let wall = rt::real_now() - t0;
    let harness: Vec<_> = tot.failures.iter().filter(|f| f.1 == "harness").collect();
    if let Some(h) = harness.first() {
        die(&format!("run {}: {}", h.0, h.2));
    }
    println!("{}: {} runs in {:.1} s, {} distinct schedules, {} distinct histories, {} replays compared", prop, tot.runs, wall, tot.traces.len(), tot.histories.len(), tot.determinism_checked);
    for (k, v) in tot.stats.iter().chain(tot.maxes.iter()) {
        println!("  {:>12} {}", v, k);
    }
    if tot.failures.is_empty() && !tot.determinism_broken.is_empty() {
        // replays that diverge without a violation: something outside the simulator's control decided
        for d in tot.determinism_broken.iter().take(5) {
            eprintln!("  {}", d);
        }
        if matches!(prop, "C01" | "C02" | "C03") {
            return violation(prop, &tier, seed, &tot, wall, nw, true);
        }
        die("replay diverged");
    }
    if tot.failures.is_empty() {
        write_evidence(prop, &tier, seed, &tot, wall, 0, nw);
        return 0;
    }
    violation(prop, &tier, seed, &tot, wall, nw, false)
}

fn violation(prop: &str, tier: &str, seed: u64, tot: &Total, wall: f64, nw: usize, nondet: bool) -> i32 {
    let shm = Shm::new(64 << 20);
    let prog = Shm::new(4096);
    set_progress(&prog);
    let _ = std::fs::create_dir_all("/verif/target/replay");
    if nondet {
        let path = format!("/verif/target/replay/{}-nondeterministic.txt", prop);
        let _ = std::fs::write(&path, tot.determinism_broken.join("\n"));
        write_evidence(prop, tier, seed, tot, wall, 1, nw);
        println!("the same run twice gave different results: {}", tot.determinism_broken[0]);
        println!("VIOLATION property={} replay={}", prop, path);
        return 1;
    }
    let mut done: BTreeSet<String> = BTreeSet::new();
    let mut n = 0;
    for (i, class, detail, text) in tot.failures.iter() {
        if done.contains(class) || n >= 2 {
            continue;
        }
        done.insert(class.clone());
        let s0 = match Scenario::decode(text) {
            Some(s) => s,
            None => die("cannot read back a failing scenario"),
        };
        println!("run {} failed: {}: {}", i, class, detail.chars().take(600).collect::<String>());
        std::io::stdout().flush().ok();
        let secs = std::env::var("LRPSIM_MIN").ok().and_then(|v| v.parse().ok()).unwrap_or(25.0);
        let f = |shm: &Shm, s: &Scenario| execute_fresh(shm, s);
        let mut m = minimise::Min { shm: &shm, class: class.clone(), tries: 0, deadline: rt::real_now() + secs, run: &f };
        let again = execute_fresh(&shm, &s0);
        let min = if matches!(&again.violation, Some((c, _)) if c == class) { m.run(&s0) } else { s0.clone() };
        let rep = execute_fresh(&shm, &min);
        let (c, d) = rep.violation.clone().unwrap_or((class.clone(), detail.clone()));
        let path = format!("/verif/target/replay/{}-{:08x}.txt", prop, prng::hash_bytes(min.encode().as_bytes()) as u32);
        let head = format!(
            "# property {} violated: {}\n# {}\n# seed {} run {}; minimised with {} executions from {:?} to {:?} (threads, jobs, switches, bytes)\n# replay with: /verif/run.sh replay {}\n",
            prop, c, d.replace('\n', " "), seed, i, m.tries, s0.size(), min.size(), path
        );
        let _ = std::fs::write(&path, format!("{}{}{}", head, explain(&shm, &min, &rep), min.encode()));
        println!("minimised: {}: {}", c, d.chars().take(600).collect::<String>());
        println!("VIOLATION property={} replay={}", prop, path);
        n += 1;
    }
    write_evidence(prop, tier, seed, tot, wall, done.len(), nw);
    1
}

fn replay(path: &str) -> i32 {
    let t = std::fs::read_to_string(path).unwrap_or_else(|_| die("cannot read replay file"));
    let s = Scenario::decode(&t).unwrap_or_else(|| die("cannot parse replay file"));
    let shm = Shm::new(64 << 20);
    let prog = Shm::new(4096);
    set_progress(&prog);
    let a = execute_fresh(&shm, &s);
    let b = execute_fresh(&shm, &s);
    if a.history != b.history || a.trace != b.trace || a.violation != b.violation {
        println!("the two executions differ");
    }
    match &a.violation {
        Some((c, d)) => {
            println!("{}: {}", c, d);
            println!("VIOLATION property={} replay={}", s.prop, path);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

/// Determinism proof: many seeds, each executed twice in different processes, histories compared.
fn selftest(prop: &str, n: u64) -> i32 {
    let shm = Shm::new(64 << 20);
    let prog = Shm::new(4096);
    set_progress(&prog);
    let c = gen::Corpus::load();
    let mut bad = 0;
    for i in 0..n {
        let s = checks::generate(prop, &c, 1000 + i, i);
        let a = execute_fresh(&shm, &s);
        let b = execute_fresh(&shm, &s);
        let mut s2 = s.clone();
        if s2.explore.is_some() {
            s2.explore = None;
            s2.decisions = a.decisions.clone();
        }
        let d = execute_fresh(&shm, &s2);
        let t = Scenario::decode(&s.encode()).map(|x| x.encode()) == Some(s.encode());
        if a.history != b.history || a.trace != b.trace || a.decisions != b.decisions || d.history != a.history || d.trace != a.trace || !t {
            bad += 1;
            println!("seed {} diverges: {:?} {:?} {:?} text {}", i, (a.trace, a.history), (b.trace, b.history), (d.trace, d.history), t);
        }
        println!("{} {} {:x} {:x}", prop, i, a.trace, a.history);
    }
    println!("{}: {} seeds, {} divergent", prop, n, bad);
    (bad > 0) as i32
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        // panics of the library and injected ones are results; panics of the harness are not
        if let Some(l) = info.location() {
            if l.file().contains("sim/src") || l.file().starts_with("src/") && !l.file().contains("lexer") {
                if info.payload().downcast_ref::<job::Injected>().is_none() && std::env::var("LRPSIM_DEBUG").is_ok() {
                    eprintln!("panic at {}:{}", l.file(), l.line());
                }
            }
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() > 2 => check(&a[2]),
        Some("replay") if a.len() > 2 => replay(&a[2]),
        Some("literals") => {
            dict::print();
            0
        }
        Some("selftest") if a.len() > 3 => selftest(&a[2], a[3].parse().unwrap_or(100)),
        Some("gen") if a.len() > 3 => {
            let c = gen::Corpus::load();
            println!("{}", checks::generate(&a[2], &c, 1, a[3].parse().unwrap_or(0)).encode());
            0
        }
        _ => {
            eprintln!("usage: lrpsim check <ID> | replay <file> | selftest <ID> <n>");
            2
        }
    };
    std::process::exit(code);
}
