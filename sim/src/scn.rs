//! A scenario is one simulated run, written down: the world, the threads with their jobs, the schedule.
use crate::job::{esc, unesc, Job};
use crate::rt::{Dec, Explore, World};

#[derive(Clone, Debug)]
pub struct Scenario {
    pub prop: String,
    pub world: World,
    pub threads: Vec<Vec<Job>>,
    /// Some: seeded exploration of schedules. None: follow `decisions`.
    pub explore: Option<Explore>,
    pub decisions: Vec<Dec>,
    pub params: Vec<(String, u64)>,
    /// free-form arguments (the CLI checks)
    pub args: Vec<String>,
}

impl Scenario {
    pub fn new(prop: &str) -> Scenario {
        Scenario {
            prop: prop.to_string(),
            world: World::plain(),
            threads: vec![vec![]],
            explore: None,
            decisions: vec![],
            params: vec![],
            args: vec![],
        }
    }
    pub fn param(&self, k: &str) -> u64 {
        self.params.iter().find(|(n, _)| n == k).map(|(_, v)| *v).unwrap_or(0)
    }
    pub fn set(&mut self, k: &str, v: u64) {
        self.params.retain(|(n, _)| n != k);
        self.params.push((k.to_string(), v));
    }
    pub fn size(&self) -> (usize, usize, usize, usize) {
        (
            self.threads.len(),
            self.threads.iter().map(|t| t.len()).sum(),
            self.decisions.len(),
            self.threads.iter().flatten().map(|j| j.size()).sum::<usize>() + self.args.iter().map(|a| a.len()).sum::<usize>(),
        )
    }
    pub fn encode(&self) -> String {
        let w = &self.world;
        let mut s = format!("property={}\nworld={},{},{},{},{},{}\n", self.prop, w.entropy, w.clock, w.env, w.heap, w.quarantine as u8, w.fence);
        for (k, v) in &self.params {
            s.push_str(&format!("param={}:{}\n", k, v));
        }
        for a in &self.args {
            s.push_str(&format!("arg={}\n", esc(a.as_bytes())));
        }
        for t in &self.threads {
            s.push_str("thread\n");
            for j in t {
                s.push_str(&format!("job\t{}\n", j.encode()));
            }
        }
        if let Some(e) = &self.explore {
            s.push_str(&format!("explore={},{},{},{}\n", e.seed, e.mean, e.shared, e.hot));
        }
        for d in &self.decisions {
            s.push_str(&format!("switch={},{},{}\n", d.tid, d.step, d.to));
        }
        s
    }
    pub fn decode(text: &str) -> Option<Scenario> {
        let mut s = Scenario::new("");
        s.threads.clear();
        for l in text.lines() {
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            if l == "thread" {
                s.threads.push(vec![]);
                continue;
            }
            if let Some(j) = l.strip_prefix("job\t") {
                s.threads.last_mut()?.push(Job::decode(j)?);
                continue;
            }
            let (k, v) = l.split_once('=')?;
            let nums = || -> Option<Vec<u64>> { v.split(',').map(|x| x.parse().ok()).collect() };
            match k {
                "property" => s.prop = v.to_string(),
                "world" => {
                    let n = nums()?;
                    s.world = World { entropy: n[0], clock: n[1], env: n[2], heap: n[3], quarantine: n[4] != 0, fence: n.get(5).copied().unwrap_or(0) };
                }
                "param" => {
                    let (a, b) = v.split_once(':')?;
                    s.params.push((a.to_string(), b.parse().ok()?));
                }
                "arg" => s.args.push(String::from_utf8_lossy(&unesc(v)).into_owned()),
                "explore" => {
                    let n = nums()?;
                    s.explore = Some(Explore { seed: n[0], mean: n[1], shared: n[2], hot: n[3] });
                }
                "switch" => {
                    let n = nums()?;
                    s.decisions.push(Dec { tid: n[0] as u32, step: n[1], to: n[2] as u32 });
                }
                "class" | "detail" => {}
                _ => return None,
            }
        }
        Some(s)
    }
}

/// What one run reported.
#[derive(Clone, Debug, Default)]
pub struct Report {
    pub violation: Option<(String, String)>,
    pub stats: Vec<(String, u64)>,
    pub decisions: Vec<Dec>,
    pub trace: u64,
    /// fingerprint of the whole history, for replay and determinism comparison
    pub history: u64,
    /// index of the culprit job, when one job is to blame
    pub at: Option<(usize, usize)>,
    pub extra: Vec<(String, String)>,
}
impl Report {
    pub fn stat(&mut self, k: &str, v: u64) {
        if v == 0 {
            return;
        }
        if let Some(e) = self.stats.iter_mut().find(|(n, _)| n == k) {
            e.1 += v;
        } else {
            self.stats.push((k.to_string(), v));
        }
    }
    pub fn fail(&mut self, class: impl Into<String>, detail: impl Into<String>, at: Option<(usize, usize)>) {
        if self.violation.is_none() {
            self.violation = Some((class.into(), detail.into()));
            self.at = at;
        }
    }
    pub fn encode(&self) -> String {
        let mut s = format!("T {} {}\n", self.trace, self.history);
        if let Some((c, d)) = &self.violation {
            s.push_str(&format!("V {}\t{}\n", esc(c.as_bytes()), esc(d.as_bytes())));
        }
        if let Some((a, b)) = self.at {
            s.push_str(&format!("A {} {}\n", a, b));
        }
        for (k, v) in &self.stats {
            s.push_str(&format!("S {} {}\n", v, k));
        }
        for (k, v) in &self.extra {
            s.push_str(&format!("X {}\t{}\n", esc(k.as_bytes()), esc(v.as_bytes())));
        }
        for d in &self.decisions {
            s.push_str(&format!("D {} {} {}\n", d.tid, d.step, d.to));
        }
        s.push_str("END\n");
        s
    }
    pub fn decode(t: &str) -> Option<Report> {
        let mut r = Report::default();
        let mut ended = false;
        let st = |x: &str| String::from_utf8_lossy(&unesc(x)).into_owned();
        for l in t.lines() {
            if l == "END" {
                ended = true;
                break;
            }
            let (k, v) = l.split_once(' ')?;
            match k {
                "T" => {
                    let (a, b) = v.split_once(' ')?;
                    r.trace = a.parse().ok()?;
                    r.history = b.parse().ok()?;
                }
                "V" => {
                    let (a, b) = v.split_once('\t')?;
                    r.violation = Some((st(a), st(b)));
                }
                "A" => {
                    let (a, b) = v.split_once(' ')?;
                    r.at = Some((a.parse().ok()?, b.parse().ok()?));
                }
                "S" => {
                    let (a, b) = v.split_once(' ')?;
                    r.stats.push((b.to_string(), a.parse().ok()?));
                }
                "X" => {
                    let (a, b) = v.split_once('\t')?;
                    r.extra.push((st(a), st(b)));
                }
                "D" => {
                    let n: Vec<u64> = v.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
                    r.decisions.push(Dec { tid: n[0] as u32, step: n[1], to: n[2] as u32 });
                }
                _ => return None,
            }
        }
        if ended {
            Some(r)
        } else {
            None
        }
    }
}
