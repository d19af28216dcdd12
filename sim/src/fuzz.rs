//! C10, C16: sources as storage faults leave them, guided by which library edges they reach.
use crate::dict;
use crate::exec::*;
use crate::gen::*;
use crate::job::*;
use crate::prng::{mix, Rng};
use crate::proc::*;
use crate::rt;
use crate::scn::*;
use crate::{Budget, Total};

const BATCH: usize = 250;

fn bucket(n: u8) -> u8 {
    match n {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

pub fn worker(prop: &str, c: &Corpus, shm: &Shm, seed: u64, w: u64, b: &Budget, t0: f64, tot: &mut Total) {
    let n = cpus().min(16) as u64;
    let covm = Shm::new(rt::COV_N + 64);
    let cov = covm.ptr();
    let mut virgin = vec![0u8; rt::COV_N];
    let mut queue: Vec<Vec<u8>> = vec![];
    let mut r = Rng::derive(seed, if prop == "C10" { 0xC10 } else { 0xC16 }, w);
    // phase 1: every prefix of every corpus item (a write torn at every byte), split over the workers
    let mut prefixes: Vec<Vec<u8>> = vec![];
    for (k, it) in c.items.iter().enumerate() {
        if k as u64 % n == w {
            for e in 0..=it.len() {
                prefixes.push(it[..e].to_vec());
            }
            // and the same inside an unfinished construct
            for _ in 0..3 {
                let x = wrap(&mut r, it);
                for _ in 0..8 {
                    prefixes.push(x[..r.us(x.len() + 1)].to_vec());
                }
            }
        }
    }
    prefixes.reverse();
    let mut round = 0u64;
    loop {
        if rt::real_now() - t0 > b.wall || crate::STOP.stop() {
            break;
        }
        let mut s = Scenario::new(prop);
        let mut kinds = [0u64; DAMAGE.len()];
        while s.threads[0].len() < BATCH {
            let src = if let Some(p) = prefixes.pop() {
                kinds[0] += 1;
                p
            } else {
                let mut v = if !queue.is_empty() && r.chance(2, 3) {
                    // recent finds first
                    let k = if r.chance(1, 2) { queue.len() - 1 - r.us(queue.len().min(64)) } else { r.us(queue.len()) };
                    queue[k].clone()
                } else {
                    program(c, &mut r)
                };
                for _ in 0..r.us(5) {
                    let (x, k) = damage(c, &mut r, &v);
                    v = x;
                    kinds[k] += 1;
                }
                if r.chance(1, 8) {
                    v = wrap(&mut r, &v);
                }
                v.truncate(dict::cap(1500));
                v
            };
            let mut j = Job::plain(src);
            if prop == "C10" && r.chance(1, 12) {
                j.api = Api::Lex;
            }
            if r.chance(1, 16) {
                j.locals = vec!["a".into(), "foo".into()];
            }
            s.threads[0].push(j);
        }
        let sref = &s;
        let vref = &virgin;
        let end = isolated(shm, || {
            let mut rep = Report::default();
            rt::World::plain().enter();
            rt::set_cov_map(cov);
            let _q = rt::Quiet::new();
            let mut hist = 0;
            let want = Want { flaws: true, step_limit: 400_000_000, ..Want::hashes() };
            let mut local = vref.clone();
            let mut buf = vec![0u8; rt::COV_N];
            for (k, j) in sref.threads[0].iter().enumerate() {
                outer_mark(0, k);
                unsafe { std::ptr::write_bytes(cov, 0, rt::guards() as usize + 2) };
                let o = run_job(j, want);
                let g = (rt::guards() as usize + 2).min(rt::COV_N);
                unsafe { std::ptr::copy_nonoverlapping(cov, buf.as_mut_ptr(), g) };
                let mut new = false;
                for i in 0..g {
                    if buf[i] != 0 {
                        let bk = bucket(buf[i]);
                        if local[i] & bk == 0 {
                            local[i] |= bk;
                            new = true;
                        }
                    }
                }
                if new {
                    rep.extra.push(("keep".into(), k.to_string()));
                }
                hist = mix(hist ^ o.parts[1] ^ o.parts[2].rotate_left(7));
                if rep.violation.is_none() {
                    c10_verdict(prop, j, &o, k, &mut rep);
                }
                rep.stat("jobs", 1);
                if o.info.errors > 0 {
                    rep.stat("sources rejected with diagnostics", 1);
                }
                if o.info.has_ast {
                    rep.stat("sources that still give an AST", 1);
                }
            }
            let g = (rt::guards() as usize + 2).min(rt::COV_N);
            rep.history = hist;
            let mut out = rep.encode().into_bytes();
            out.extend_from_slice(&local[..g]);
            out
        });
        round += 1;
        let rep = match &end {
            End::Ok(v) => {
                let cut = v.windows(5).position(|x| x == b"\nEND\n").map(|p| p + 5).unwrap_or(v.len());
                let g = v.len() - cut;
                virgin[..g].copy_from_slice(&v[cut..]);
                match Report::decode(&String::from_utf8_lossy(&v[..cut])) {
                    Some(r) => r,
                    None => die("unreadable batch report"),
                }
            }
            _ => fold(&s, end.clone()),
        };
        let mut kept = 0;
        for (k, v) in &rep.extra {
            if k == "keep" {
                if let Ok(ix) = v.parse::<usize>() {
                    queue.push(s.threads[0][ix].src.clone());
                    kept += 1;
                }
            }
        }
        let mut rep2 = rep.clone();
        rep2.extra.clear();
        rep2.stat("kept inputs", kept);
        for (k, n) in kinds.iter().enumerate() {
            rep2.stat(&format!("fault {}", DAMAGE[k]), *n);
        }
        // the culprit alone, if it is enough; otherwise the batch up to it
        let mut blame = s.clone();
        if rep2.violation.is_some() {
            if let Some((_, k)) = rep2.at {
                let mut one = s.clone();
                one.threads[0] = vec![s.threads[0][k].clone()];
                let x = execute(shm, &one, &Bases::new());
                if x.violation.as_ref().map(|v| &v.0) == rep2.violation.as_ref().map(|v| &v.0) {
                    blame = one;
                } else {
                    blame.threads[0].truncate(k + 1);
                }
            }
        }
        let stop = rep2.violation.is_some();
        if stop {
            crate::STOP.hit();
        }
        if tot.samples.len() < 2 && round > 40 {
            let j = &s.threads[0][r.us(BATCH)];
            tot.samples.push(format!("worker {} batch {}: {}", w, round, esc(&j.src)));
        }
        let runs = tot.runs;
        tot.add(round, &blame, &rep2);
        tot.runs = runs + 1;
        if stop && tot.failures.len() >= 3 {
            break;
        }
    }
    let edges = virgin.iter().filter(|x| **x != 0).count() as u64;
    tot.maxes.insert("library edges reached (best worker)".into(), edges);
    tot.complete = true;
}
