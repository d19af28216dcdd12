//! Shrinks a failing scenario while the same class of violation persists in a fresh process.
use crate::exec::*;
use crate::job::*;
use crate::proc::Shm;
use crate::prng::Rng;
use crate::rt::{real_now, World};
use crate::scn::*;

pub struct Min<'a> {
    pub shm: &'a Shm,
    pub class: String,
    pub tries: u64,
    pub deadline: f64,
    pub run: &'a dyn Fn(&Shm, &Scenario) -> Report,
}

impl<'a> Min<'a> {
    fn fails(&mut self, s: &Scenario) -> bool {
        if real_now() > self.deadline {
            return false;
        }
        self.tries += 1;
        let r = (self.run)(self.shm, s);
        matches!(&r.violation, Some((c, _)) if *c == self.class)
    }
    /// Fails as is, or (threads) under some other schedule: returns the scenario with explicit decisions.
    fn fails_somehow(&mut self, s: &Scenario) -> Option<Scenario> {
        if self.fails(s) {
            return Some(s.clone());
        }
        if s.threads.len() > 1 {
            for k in 0..12u64 {
                if real_now() > self.deadline {
                    return None;
                }
                let mut x = s.clone();
                let mut r = Rng::derive(77, k, s.threads.len() as u64);
                let mut e = arb_explore(&mut r);
                if k % 2 == 0 {
                    e.shared = 200;
                    e.mean = 1000;
                }
                x.explore = Some(e);
                x.decisions.clear();
                self.tries += 1;
                let rep = (self.run)(self.shm, &x);
                if matches!(&rep.violation, Some((c, _)) if *c == self.class) {
                    x.explore = None;
                    x.decisions = rep.decisions;
                    if self.fails(&x) {
                        return Some(x);
                    }
                }
            }
        }
        None
    }

    fn list<T: Clone>(&mut self, cur: &mut Scenario, get: &dyn Fn(&Scenario) -> Vec<T>, put: &dyn Fn(&mut Scenario, Vec<T>), resched: bool) {
        let mut chunk = get(cur).len().max(1);
        while chunk > 0 {
            let mut i = 0;
            while i < get(cur).len() {
                let v = get(cur);
                let mut w = v.clone();
                w.drain(i..(i + chunk).min(v.len()));
                let mut x = cur.clone();
                put(&mut x, w);
                let got = if resched { self.fails_somehow(&x) } else if self.fails(&x) { Some(x) } else { None };
                match got {
                    Some(x) => *cur = x,
                    None => i += chunk,
                }
                if real_now() > self.deadline {
                    return;
                }
            }
            chunk /= 2;
        }
    }

    pub fn run(&mut self, s: &Scenario) -> Scenario {
        let mut cur = s.clone();
        for _pass in 0..3 {
            let before = cur.size();
            // whole threads, then jobs
            let mut t = 0;
            while cur.threads.len() > 1 && t < cur.threads.len() {
                let mut x = cur.clone();
                x.threads.remove(t);
                x.decisions.clear();
                if x.threads.len() == 1 {
                    x.explore = None;
                }
                match self.fails_somehow(&x) {
                    Some(x) => cur = x,
                    None => t += 1,
                }
            }
            for t in 0..cur.threads.len() {
                self.list(&mut cur, &|s| s.threads[t].clone(), &|s, v| s.threads[t] = v, true);
            }
            self.list(&mut cur, &|s| s.args.clone(), &|s, v| s.args = v, false);
            if cur.prop == "C11" {
                // the statements of each program
                for a in 0..cur.args.len() {
                    if !cur.args[a].starts_with("parser ") {
                        continue;
                    }
                    let words = |s: &Scenario| s.args[a].split(' ').map(str::to_string).collect::<Vec<_>>();
                    self.list(&mut cur, &|s| words(s).into_iter().skip(6).collect(), &|s, v: Vec<String>| s.args[a] = words(s).into_iter().take(6).chain(v).collect::<Vec<_>>().join(" "), false);
                }
            }
            if cur.world != World::plain() {
                let mut x = cur.clone();
                x.world = World::plain();
                if let Some(x) = self.fails_somehow(&x) {
                    cur = x;
                }
            }
            for k in ["handoff", "vseed"] {
                if cur.param(k) != 0 {
                    let mut x = cur.clone();
                    x.set(k, 0);
                    if let Some(x) = self.fails_somehow(&x) {
                        cur = x;
                    }
                }
            }
            // job details
            for t in 0..cur.threads.len() {
                for k in 0..cur.threads[t].len() {
                    let simpler: Vec<Box<dyn Fn(&mut Job)>> = vec![
                        Box::new(|j| j.acts.clear()),
                        Box::new(|j| j.acts.iter_mut().for_each(|a| a.nested = None)),
                        Box::new(|j| j.acts.iter_mut().for_each(|a| a.stall = 0)),
                        Box::new(|j| j.acts.iter_mut().for_each(|a| a.declare.clear())),
                        Box::new(|j| j.acts.truncate(1)),
                        Box::new(|j| j.locals.clear()),
                        Box::new(|j| j.name = "(eval)".into()),
                        Box::new(|j| j.tokens = true),
                        Box::new(|j| j.api = Api::Parse),
                    ];
                    for f in &simpler {
                        let mut x = cur.clone();
                        f(&mut x.threads[t][k]);
                        if x.threads[t][k] != cur.threads[t][k] {
                            if let Some(x) = self.fails_somehow(&x) {
                                cur = x;
                            }
                        }
                    }
                    let resched = cur.threads.len() > 1;
                    self.list(&mut cur, &|s| s.threads[t][k].src.clone(), &|s, v| s.threads[t][k].src = v, resched);
                    for a in 0..cur.threads[t][k].acts.len() {
                        if let Out::Const(_) | Out::Append(_) = cur.threads[t][k].acts[a].out {
                            self.list(
                                &mut cur,
                                &|s| match &s.threads[t][k].acts[a].out {
                                    Out::Const(b) | Out::Append(b) => b.clone(),
                                    _ => vec![],
                                },
                                &|s, v| match &mut s.threads[t][k].acts[a].out {
                                    Out::Const(b) | Out::Append(b) => *b = v,
                                    _ => {}
                                },
                                false,
                            );
                        }
                    }
                }
            }
            if cur.explore.is_none() {
                self.list(&mut cur, &|s| s.decisions.clone(), &|s, v| s.decisions = v, false);
            }
            if cur.size() == before || real_now() > self.deadline {
                break;
            }
        }
        cur
    }
}
