//! C12, C13: the real parse command in a scratch directory, its libc answered by shim/shim.c from a seeded plan.
use crate::gen::*;
use crate::job::*;
use crate::prng::{hash_bytes, mix, Rng};
use crate::rt;
use crate::scn::*;
use lib_ruby_parser::{Parser, ParserOptions};
use std::io::Read;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

const CLI: &str = "/verif/target/cli/debug/parse";
const SHIM: &str = "/verif/target/clishim.so";
const NAMES: [&str; 12] = ["a.rb", "b.rb", "c c.rb", "z.rb", "\u{e9}.rb", "A.rb", "10.rb", "2.rb", "m-n.rb", "u_v.rb", "long-name-of-a-file-0123456789.rb", "q.rb"];
const PATTERNS: [&str; 6] = ["*.rb", "**/*.rb", "d*/*.rb", "*.rb", "[a-m]*.rb", "nothing*.rb"];

pub fn generate(prop: &str, c: &Corpus, r: &mut Rng) -> Scenario {
    let mut s = Scenario::new(prop);
    let mut n = if r.chance(1, 10) { 0 } else { 1 + r.us(6) };
    let mut many = false;
    if let Some(k) = if crate::dict::quiet() { None } else { crate::dict::size(r, 6, 300) } {
        n = k;
        many = true;
    } else if r.chance(1, 12) {
        n = 7 + r.us(40);
        many = true;
    }
    let mode = *r.pick(&["N", "F", "L", "D", "D", "", "", ""]);
    let mut used = std::collections::BTreeSet::new();
    for i in 0..n {
        let dir = *r.pick(&["", "", "", "d1/", "d2/"]);
        let mut name = if many { format!("{}f{}.rb", dir, i) } else { format!("{}{}", dir, r.pick(&NAMES)) };
        if let Some(w) = if crate::dict::quiet() { None } else { crate::dict::name(r, 4) } {
            name = format!("{}{}{}.rb", dir, w, if many { i.to_string() } else { String::new() });
        }
        if !used.insert(name.clone()) {
            continue;
        }
        let mut src = match r.us(8) {
            0 => vec![],
            // a copy of an earlier file
            2 if i > 0 && !s.threads[0].is_empty() => {
                let k = r.us(s.threads[0].len());
                s.threads[0][k].src.clone()
            }
            _ if many => section(c, r).into_iter().take(200).collect(),
            1 => {
                // bigger than one read or one output buffer
                let mut v = vec![];
                let p = *r.pick(&[&b"foo(1, 2)"[..], b"def m(a) a.b { |c| c + 1 } end", b"x = [1, 2, 'three']", b"foo +", b"# comment \xc3\xa9"]);
                while v.len() < 6000 + r.us(30_000) {
                    v.extend_from_slice(p);
                    v.push(b'\n');
                }
                v
            }
            _ => program(c, r),
        };
        if r.chance(1, 3) {
            src = damage(c, r, &src).0;
        }
        // the nested dump of a whole result costs depth times size in std's formatter
        if mode == "F" || mode == "L" {
            src.truncate(if mode == "F" { 300 } else { 3000 });
            // and the locations of nested nodes the square of the depth
            if src.windows(40).any(|w| w.iter().all(|b| *b == w[0] && *b != b'\n')) {
                src.truncate(100);
            }
            if src.len() > 600 && src.iter().filter(|b| b"([{!~-+*&".contains(b)).count() > 100 {
                src.truncate(600);
            }
        }
        let mut j = Job::plain(src);
        j.name = name;
        s.threads[0].push(j);
    }
    let eval = r.chance(1, 8) && !s.threads[0].is_empty() && !s.threads[0][0].src.contains(&0);
    if eval {
        s.args.push("eval".into());
    } else {
        s.args.push(format!("glob {}", r.pick(&PATTERNS)));
    }
    if !mode.is_empty() {
        s.args.push(format!("print {}", mode));
    }
    if r.chance(1, 3) {
        let n = match if crate::dict::quiet() { None } else { crate::dict::size(r, 3, 300) } {
            Some(n) if s.threads[0].iter().map(|j| j.src.len()).sum::<usize>() < 3000 => n,
            _ if !many && r.chance(1, 8) && s.threads[0].iter().map(|j| j.src.len()).sum::<usize>() < 3000 => 10 + r.us(60),
            _ => r.us(4),
        };
        s.args.push(format!("repeat {}", n));
    }
    if r.chance(1, 4) {
        s.args.push("drop-tokens".into());
    }
    if prop == "C13" || r.chance(1, 4) {
        s.args.push("run-timer".into());
    }
    s.args.push(format!("latency {}", 1 + r.below(1 << 30)));
    s.args.push(format!("order {}", 1 + r.below(1 << 30)));
    s.args.push(format!("wall {}", 1 + r.below(1 << 30)));
    let faults = r.us(if prop == "C13" { 4 } else { 6 });
    for _ in 0..faults {
        let span = *r.pick(&[3, 12, 60]);
        let k = r.us(span);
        let benign = prop == "C13" || r.chance(1, 2);
        let f = if benign {
            match r.us(8) {
                0 => format!("open {} EINTR", k % 6),
                1 => format!("read {} EINTR", k),
                2 => format!("read {} short {}", k, 1 + r.us(200)),
                3 => format!("stat {} size {}", k % 6, *r.pick(&[0u64, 1, 10, 4096, 100_000])),
                4 => format!("stat {} EIO", k % 6),
                5 => format!("readdir {} untyped", k % 12),
                6 => format!("write {} EINTR", k),
                _ => format!("write {} short {}", k, 1 + r.us(60)),
            }
        } else {
            match r.us(9) {
                0 => format!("open {} {}", k % 6, r.pick(&["ENOENT", "EACCES", "EMFILE", "EIO", "ESTALE"])),
                1 | 2 => format!("read {} {}", k, r.pick(&["EIO", "ESTALE", "ENOMEM"])),
                3 => format!("opendir {} {}", k % 3, r.pick(&["EACCES", "EIO", "EMFILE"])),
                4 | 5 | 6 => format!("write {} {}", k, r.pick(&["ENOSPC", "EPIPE", "EIO", "EDQUOT"])),
                7 => format!("write {} tornkill {}", k, 1 + r.us(40)),
                _ => format!("any {} kill", k),
            }
        };
        s.args.push(format!("fault {}", f));
    }
    s
}

fn benign(f: &str) -> bool {
    let w: Vec<&str> = f.split(' ').collect();
    matches!(w.get(2), Some(&"EINTR") | Some(&"short") | Some(&"size") | Some(&"untyped")) || ((w[0] == "stat" || w[0] == "close") && w.get(2) == Some(&"EIO"))
}

struct Ran {
    out: Vec<u8>,
    code: Option<i32>,
    sig: Option<i32>,
    log: String,
}
/// Does the path match, and where does it sort: by path component.
fn matches(pat: &str, name: &str) -> bool {
    let top = !name.contains('/');
    match pat {
        "*.rb" => top,
        "**/*.rb" => true,
        "d*/*.rb" => !top,
        "[a-m]*.rb" => top && (b'a'..=b'm').contains(&name.as_bytes()[0]),
        _ => false,
    }
}

fn snapshot(dir: &Path) -> Vec<(PathBuf, Vec<u8>)> {
    let mut v = vec![];
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                v.push((p.clone(), b"dir".to_vec()));
                todo.push(p);
            } else {
                v.push((p.clone(), std::fs::read(&p).unwrap_or_default()));
            }
        }
    }
    v.sort();
    v
}

pub fn judge(s: &Scenario, rep: &mut Report, hist: &mut u64) {
    let _q = rt::Quiet::new();
    let dir = PathBuf::from(format!("/verif/target/run/cli.{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap_or_else(|_| crate::proc::die("cannot create scratch directory"));
    judge_in(s, &dir, rep, hist);
    let _ = std::fs::remove_dir_all(&dir);
    let _ = std::fs::remove_file(logfile(&dir));
}

fn judge_in(s: &Scenario, dir: &Path, rep: &mut Report, hist: &mut u64) {
    let mut files: Vec<(String, Vec<u8>)> = s.threads[0].iter().map(|j| (j.name.clone(), j.src.clone())).collect();
    let opt = |k: &str| s.args.iter().find_map(|a| a.strip_prefix(k).and_then(|x| x.strip_prefix(' '))).map(|x| x.to_string());
    let flag = |k: &str| s.args.iter().any(|a| a == k);
    for (n, b) in &files {
        let p = dir.join(n);
        if let Some(d) = p.parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(&p, b).unwrap_or_else(|_| crate::proc::die("cannot write scratch file"));
    }
    std::fs::write(dir.join("notes.txt"), "not ruby").ok();
    let mut cmd: Vec<std::ffi::OsString> = vec![];
    let eval = flag("eval") && !files.is_empty();
    if eval {
        use std::os::unix::ffi::OsStringExt;
        if files[0].1.contains(&0) {
            return;
        }
        files.truncate(1);
        files[0].0 = "(eval)".into();
        cmd.push("-e".into());
        cmd.push(std::ffi::OsString::from_vec(files[0].1.clone()));
    } else {
        let pat = opt("glob").unwrap_or_else(|| "*.rb".into());
        files.retain(|(n, _)| matches(&pat, n));
        files.sort_by(|a, b| a.0.split('/').collect::<Vec<_>>().cmp(&b.0.split('/').collect::<Vec<_>>()));
        cmd.push("--glob".into());
        cmd.push(pat.into());
    }
    let mode = opt("print").unwrap_or_default();
    let mut tail: Vec<std::ffi::OsString> = vec![];
    if !mode.is_empty() {
        tail.push("--print".into());
        tail.push(mode.clone().into());
    }
    let drop_tokens = flag("drop-tokens");
    if drop_tokens {
        tail.push("--drop-tokens".into());
    }
    let repeat = opt("repeat").and_then(|x| x.parse::<usize>().ok());
    // the report each file gives on its own
    let mut exp: Vec<u8> = vec![];
    for (n, b) in &files {
        if mode == "L" {
            let a: Vec<std::ffi::OsString> = if eval { cmd.clone() } else { vec!["--glob".into(), escape_glob(n).into()] };
            let a: Vec<std::ffi::OsString> = a.into_iter().chain(tail.iter().cloned()).collect();
            let r = run_os(dir, &a, &[]);
            if r.sig == Some(libc::SIGXCPU) {
                rep.stat("runs left out: report takes too long", 1);
                return;
            }
            if r.code != Some(0) {
                rep.fail("the command fails without any fault", format!("exit {:?} signal {:?} on {:?} {}", r.code, r.sig, n, esc(b)), None);
                return;
            }
            exp.extend_from_slice(&r.out);
            continue;
        }
        let t = catch_unwind(AssertUnwindSafe(|| {
            let o = ParserOptions { buffer_name: n.clone(), record_tokens: !drop_tokens, ..Default::default() };
            let r = Parser::new(b.clone(), o).do_parse();
            let mut t = String::new();
            if mode == "F" {
                t.push_str(&format!("{:#?}\n", r));
            } else if mode != "N" {
                for d in &r.diagnostics {
                    t.push_str(&d.render(&r.input).expect("renders"));
                    t.push('\n');
                }
                if mode.is_empty() {
                    if let Some(a) = &r.ast {
                        t.push_str(&a.inspect(0));
                        t.push('\n');
                    }
                }
            }
            t
        }));
        match t {
            Ok(t) => exp.extend_from_slice(t.as_bytes()),
            Err(_) => {
                rep.stat("sources the library itself panics on", 1);
                return;
            }
        }
    }
    let times = repeat.unwrap_or(1);
    if exp.len() * times > 16 << 20 {
        rep.stat("runs left out: report over 16 MB", 1);
        return;
    }
    let exp = exp.repeat(times);
    if let Some(n) = repeat {
        tail.push("--repeat".into());
        tail.push(n.to_string().into());
    }
    let timer = flag("run-timer");
    if timer {
        tail.push("--run-timer".into());
    }
    let args: Vec<std::ffi::OsString> = cmd.into_iter().chain(tail).collect();
    let plan: Vec<String> = s.args.iter().filter_map(|a| a.strip_prefix("fault ")).map(|x| x.to_string()).collect();
    let env = |plan: &str| -> Vec<(&'static str, String)> {
        vec![
            ("LRPSHIM_PLAN", plan.to_string()),
            ("LRPSHIM_LAT", opt("latency").unwrap_or_else(|| "0".into())),
            ("LRPSHIM_ORDER", opt("order").unwrap_or_else(|| "0".into())),
            ("LRPSHIM_WALL", opt("wall").unwrap_or_else(|| "0".into())),
        ]
    };
    let before = snapshot(dir);
    let r = run_os(dir, &args, &env(&plan.join("\n")));
    *hist = mix(hash_bytes(&r.out) ^ hash_bytes(r.log.as_bytes()).rotate_left(13) ^ r.code.unwrap_or(-1) as u64);
    rep.trace = hash_bytes(r.log.as_bytes());
    rep.stat("commands run", 1);
    let mut fatal = false;
    for l in r.log.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        if w.len() == 6 && w[2] != "-" {
            rep.stat(&format!("fault {}:{}", w[0], w[2]), 1);
            fatal |= !benign(&w[..4].join(" "));
        }
        if w.len() == 6 {
            rep.stat("I/O calls simulated", 1);
        }
    }
    if let Some(t) = last_clock(&r.log) {
        rep.stat("simulated milliseconds", (t - 1_000_000_000_000).max(0) as u64 / 1_000_000);
    }
    let show = |r: &Ran| format!("exit {:?} signal {:?}, {} of {} report bytes, plan {:?}", r.code, r.sig, r.out.len(), exp.len(), plan);
    let (report, rest) = r.out.split_at(exp.len().min(r.out.len()));
    let good = exp.starts_with(report);
    if !good {
        let at = exp.iter().zip(report).position(|(a, b)| a != b).unwrap_or(0);
        let clip = |b: &[u8]| esc(&b[at.saturating_sub(20).min(b.len())..(at + 60).min(b.len())]);
        rep.fail("output is not the report", format!("{}; differs at byte {}: {} instead of {}", show(&r), at, clip(report), clip(&exp)), None);
        return;
    }
    let timer_ok = |rest: &[u8], whole: bool| -> Option<f64> {
        let t = String::from_utf8_lossy(rest).into_owned();
        let tail = format!(" (total files: {})\n", files.len() * times);
        let x = t.strip_prefix("Time taken: ")?;
        let x = x.strip_suffix(tail.as_str());
        if whole {
            let x = x?;
            if x.len() < 12 || x.as_bytes()[x.len() - 11] != b'.' {
                return None;
            }
            return x.parse().ok();
        }
        None
    };
    let took = if timer { timer_ok(rest, true) } else { None };
    let complete = report.len() == exp.len() && if timer { took.is_some() } else { rest.is_empty() };
    if r.code == Some(0) && !complete {
        rep.fail("success reported for an incomplete or wrong report", format!("{}; after the report: {:?}", show(&r), esc(&rest[..rest.len().min(100)])), None);
        return;
    }
    if r.code != Some(0) && !fatal {
        rep.fail("command fails although every fault is recoverable", show(&r), None);
        return;
    }
    if r.code != Some(0) {
        let killed = r.sig == Some(9) || r.code == Some(101) || r.code == Some(1);
        if !killed {
            rep.fail("command ends abnormally", show(&r), None);
            return;
        }
        if !rest.is_empty() && !(timer && (b"Time taken: ".starts_with(&rest[..rest.len().min(12)]))) {
            rep.fail("output is not the report", format!("{}; after the report: {:?}", show(&r), esc(&rest[..rest.len().min(100)])), None);
            return;
        }
        rep.stat("commands that failed after a fatal fault", 1);
    }
    if snapshot(dir) != before {
        rep.fail("the command changed files", show(&r), None);
        return;
    }
    if r.code != Some(0) {
        // faults over: the same command must succeed
        let r2 = run_os(dir, &args, &env(""));
        if r2.code != Some(0) || !r2.out.starts_with(&exp) {
            rep.fail("no recovery after the fault is gone", show(&r2), None);
            return;
        }
        rep.stat("recoveries", 1);
    }
    if s.prop == "C13" && r.code == Some(0) && timer {
        if let Some(took) = took {
            let want = elapsed(&r.log, exp.len());
            rep.stat("timer readings judged", 1);
            if (took - want).abs() > 1.5e-9 {
                rep.fail("time taken is not the time that passed", format!("reported {:.10} s, {:.10} s passed on the monotonic clock between reading the inputs and the end of the report", took, want), None);
            }
        }
    }
}

fn last_clock(log: &str) -> Option<i64> {
    log.lines().rev().find_map(|l| l.split_once(" clock ").and_then(|x| x.1.parse().ok()))
}

/// Monotonic time from the last input operation to the last write that carried report bytes.
fn elapsed(log: &str, report: usize) -> f64 {
    let (mut input, mut output) = (1_000_000_000_000i64, None);
    let mut off = 0usize;
    for l in log.lines() {
        if let Some((a, c)) = l.split_once(" clock ") {
            let c: i64 = c.parse().unwrap_or(0);
            if a.starts_with("write ") {
                if off < report {
                    output = Some(c);
                }
            } else {
                input = c;
            }
        } else if let Some(n) = l.strip_prefix("wrote ") {
            off += n.parse::<usize>().unwrap_or(0);
        }
    }
    match output {
        Some(o) => (o - input) as f64 / 1e9,
        None => 0.0,
    }
}

fn escape_glob(n: &str) -> String {
    n.chars().map(|c| if "[]*?!".contains(c) { format!("[{}]", c) } else { c.to_string() }).collect()
}

fn run_os(dir: &Path, args: &[std::ffi::OsString], env: &[(&str, String)]) -> Ran {
    let log = logfile(dir);
    let _ = std::fs::remove_file(&log);
    let mut c = Command::new(CLI);
    c.args(args).current_dir(dir).env_clear().env("LD_PRELOAD", SHIM).env("LRPSHIM_LOG", &log).env("RUST_BACKTRACE", "0");
    for (k, v) in env {
        c.env(k, v);
    }
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
    let mut ch = c.spawn().unwrap_or_else(|e| crate::proc::die(&format!("cannot start the parse command: {}", e)));
    let mut out = vec![];
    let mut o = ch.stdout.take().unwrap();
    let _ = o.read_to_end(&mut out);
    let st = ch.wait().unwrap_or_else(|_| crate::proc::die("wait failed"));
    Ran { out, code: st.code(), sig: st.signal(), log: std::fs::read_to_string(&log).unwrap_or_default() }
}
fn logfile(dir: &Path) -> PathBuf {
    PathBuf::from(format!("{}-log", dir.display()))
}
