//! Per property: how a run is generated, and verdicts that need more than the comparison in exec.rs.
use crate::exec::*;
use crate::gen::*;
use crate::job::*;
use crate::prng::{mix, Rng};
use crate::rt::{self, World};
use crate::scn::*;
use lib_ruby_parser::source::{DecoderResult, InputError};
use std::sync::atomic::Ordering::*;

/// The scenario of run `i` under `seed`: a pure function of its arguments.
pub fn generate(prop: &str, c: &Corpus, seed: u64, i: u64) -> Scenario {
    let tag = prop.bytes().fold(7u64, |a, b| a * 131 + b as u64);
    let mut r = Rng::derive(seed, tag, i);
    let r = &mut r;
    let mut s = Scenario::new(prop);
    let sw = Swarm::arb(r);
    match prop {
        "C01" => {
            let nt = 2 + r.us(3);
            let per = 1 + r.us(3);
            let mut pool = if r.chance(2, 3) {
                family(c, r, &sw, nt * per)
            } else {
                (0..nt * per)
                    .map(|_| {
                        let p = program(c, r);
                        job(c, r, &sw, p, 0)
                    })
                    .collect()
            };
            s.threads = (0..nt).map(|_| pool.drain(..per).collect()).collect();
            s.explore = Some(arb_explore(r));
            s.world = World::arb(r);
            if r.chance(1, 3) {
                s.set("handoff", 1);
            }
        }
        "C02" => {
            let n = match r.us(40) {
                0 if r.chance(1, 5) => *r.pick(&[1030, 2050, 4100]) + r.us(30),
                0 => 300 + r.us(400),
                1..=3 => 30 + r.us(60),
                _ => 2 + r.us(9),
            };
            let n = if crate::dict::quiet() { n } else { crate::dict::size(r, 8, 5000).map(|n| n + 4 + r.us(9)).unwrap_or(n) };
            let fam = r.chance(1, 2);
            s.threads[0] = if n >= 300 {
                // long history of small calls: counters and caches get time to fill up
                let mut base = family(c, r, &sw, 12);
                for j in &mut base {
                    if j.acts.is_empty() {
                        j.src.truncate(if n > 1000 { 60 } else { 300 });
                    }
                }
                (0..n)
                    .map(|_| {
                        let mut j = r.pick(&base).clone();
                        if r.chance(1, 8) && j.acts.is_empty() {
                            j.src = c.pick(r).clone();
                            j.src.truncate(if n > 1000 { 60 } else { 300 });
                        }
                        j
                    })
                    .collect()
            } else if fam {
                family(c, r, &sw, n)
            } else {
                (0..n)
                    .map(|_| {
                        let p = program(c, r);
                        job(c, r, &sw, p, 0)
                    })
                    .collect()
            };
            s.world = World { quarantine: r.chance(1, 3), ..World::plain() };
        }
        "C03" => {
            let n = 1 + r.us(3);
            for _ in 0..n {
                let p = program(c, r);
                let mut j = job(c, r, &sw, p, 1);
                if r.chance(1, 3) {
                    j.tokens = !j.tokens;
                }
                if r.chance(1, 3) {
                    j.name = buffer_name(r);
                }
                s.threads[0].push(j);
            }
            s.world = World::arb(r);
        }
        "C14" => crate::damage::generate_c14(c, r, &mut s),
        "C15" => crate::damage::generate_c15(c, r, &mut s),
        "C18" => crate::concat::generate_c18(c, r, &mut s),
        "C19" => crate::concat::generate_c19(c, r, &mut s),
        "C04" | "C05" | "C06" => {
            let n = 1 + r.us(4);
            for _ in 0..n {
                s.threads[0].push(decoder_job(prop, c, r));
            }
            s.world = World { quarantine: r.chance(1, 2), ..World::plain() };
        }
        "C07" => {
            let long = r.chance(1, 12);
            let n = if long { 40 + r.us(100) } else { 2 + r.us(8) };
            for _ in 0..n {
                let j = if r.chance(1, 2) {
                    let mut b = high_body(c, r);
                    if long {
                        b.truncate(120);
                    }
                    let h = headed(r, &b);
                    let mut j = Job::plain(h.src);
                    let at = if h.names.len() > 1 { r.us(2) } else { 0 };
                    for _ in 0..at {
                        j.acts.push(Act::new(ok_out(r)));
                    }
                    let mut a = Act::new(Out::Panic(r.pick(&["gone", "", "x\u{e9}"]).to_string()));
                    if r.chance(1, 4) {
                        let p = program(c, r);
                        a.nested = Some(Box::new(job(c, r, &Swarm { panics: true, decoders: true, ..sw.clone() }, p, 1)));
                    }
                    if r.chance(1, 4) {
                        a.declare.push(local(r));
                    }
                    j.acts.push(a);
                    if r.chance(1, 4) {
                        j.locals.push(local(r));
                    }
                    j.tokens = r.chance(3, 4);
                    if r.chance(1, 6) {
                        j.api = *r.pick(&[Api::Lex, Api::Validate]);
                    }
                    j
                } else {
                    let mut p = program(c, r);
                    if long {
                        p.truncate(200);
                    }
                    job(c, r, &sw, p, 0)
                };
                s.threads[0].push(j);
            }
            s.world = World { quarantine: r.chance(1, 2), ..World::plain() };
            if r.chance(1, 3) && s.threads[0].len() >= 4 {
                // the survivors run next to the thread that was cancelled
                let half = s.threads[0].len() / 2;
                let h = s.threads[0].split_off(half);
                s.threads.push(h);
                s.explore = Some(arb_explore(r));
            }
        }
        "C08" => {
            let n = 4 + r.us(16);
            for _ in 0..n {
                let p = program(c, r);
                let mut j = job(c, r, &sw, p, 0);
                if sw.damage && r.chance(1, 3) {
                    j.src = damage(c, r, &j.src).0;
                }
                s.threads[0].push(j);
            }
            s.set("rounds", 10);
            s.set("vseed", r.next() >> 8);
            s.world = World { quarantine: r.chance(1, 2), ..World::plain() };
            if r.chance(1, 3) {
                s.world.fence = *r.pick(&[1, 3, 3, 10, 30]);
                s.world.entropy = r.next() >> 8;
                s.set("rounds", 6);
                s.threads[0].truncate(8);
            }
        }
        "C09" => {
            let n = c.lists.len() as u64;
            if i / 2 < n && i % 2 == 0 || i / 2 >= n && i % 13 == 0 {
                // whatever the grammar allows to go on and on: first each once, then with mutations
                let [a, u, b] = if i / 2 < n { c.lists[(i / 2) as usize].clone() } else { r.pick(&c.lists).clone() };
                let mut j = Job::plain(u);
                if i / 2 >= n {
                    match r.us(4) {
                        0 => j.src = variant(r, &j.src),
                        1 => j.src = damage(c, r, &j.src).0,
                        2 => j.src.extend_from_slice(&r.pick(&c.lists)[1]),
                        _ => {}
                    }
                }
                if j.src.is_empty() {
                    j.src.push(b'a');
                }
                let len = j.src.len() + 4 * j.src.contains(&1) as usize;
                s.set("scale", (*r.pick(&[48_000, 96_000]) / len / 16).clamp(4, 512) as u64);
                s.set("list", 1);
                s.threads[0].push(j);
                s.threads[0].push(Job::plain(a));
                s.threads[0].push(Job::plain(b));
            } else if i % 3 == 0 {
                // the unit sections walk over the whole corpus
                let k = (i / 3) as usize % c.items.len();
                let mut u = if i / 3 < c.items.len() as u64 { c.items[k].clone() } else { program(c, r) };
                if i / 3 >= c.items.len() as u64 && r.chance(1, 2) {
                    u = damage(c, r, &u).0;
                }
                if r.chance(1, 6) {
                    u = crate::ruby::sized(r, 60);
                } else if r.chance(1, 4) {
                    u = soup(c, r);
                }
                u.truncate(600);
                if u.is_empty() {
                    u.push(b'a');
                }
                let target = *r.pick(&[6_000, 12_000, 24_000, 50_000]);
                let small = (target / u.len() / 16).clamp(4, 128);
                let mut j = Job::plain(u);
                if r.chance(1, 10) {
                    j.api = Api::Lex;
                }
                s.threads[0].push(j);
                s.set("scale", small as u64);
                s.set("sep", r.below(SEPS.len() as u64));
                if r.chance(1, 3) {
                    s.set("wrap", 1 + r.below(WRAPS.len() as u64));
                }
                if r.chance(1, 4) {
                    s.set("head", r.below(6));
                }
            } else {
                for _ in 0..40 {
                    let p = program(c, r);
                    let mut j = job(c, r, &sw, p, 1);
                    for _ in 0..r.us(3) {
                        j.src = damage(c, r, &j.src).0;
                    }
                    s.threads[0].push(j);
                }
            }
        }
        "C11" => return crate::envmodel::generate(c, r),
        "C12" | "C13" => return crate::cli::generate(prop, c, r),
        _ => {}
    }
    s
}

// ---------------------------------------------------------------- C04, C05, C06
fn decoder_job(prop: &str, c: &Corpus, r: &mut Rng) -> Job {
    let body = high_body(c, r);
    let mut h = headed(r, &body);
    if prop == "C04" && r.chance(1, 4) {
        // not a directive: must not reach the decoder
        let name = enc_name(r);
        let d = format!("# coding: {}\n", name);
        h.src = match r.us(7) {
            0 => format!("\n{}", d).into_bytes(),
            1 => format!("x = 1 {}", d).into_bytes(),
            2 => format!("# plain comment\n{}", d).into_bytes(),
            3 => format!("\"{}\"\n", d.trim()).into_bytes(),
            4 => format!("#!ruby\n\n{}", d).into_bytes(),
            5 => format!("<<A\n{}A\n", d).into_bytes(),
            _ => body.clone(),
        };
        h.src.extend_from_slice(&body);
    }
    let mut j = Job::plain(h.src);
    let calls = h.names.len().max(1);
    match prop {
        "C05" => {
            if r.chance(1, 8) {
                // no decoder at all
            } else {
                let at = r.us(calls);
                for _ in 0..at {
                    j.acts.push(Act::new(ok_out(r)));
                }
                j.acts.push(Act::new(err_out(r)));
            }
        }
        _ => {
            for k in 0..calls {
                let last = k + 1 == calls;
                let out = match r.us(10) {
                    0 if last => Out::Trunc(h.prefix + r.us(j.src.len() - h.prefix.min(j.src.len()) + 1)),
                    1 if last && prop == "C06" => Out::Trunc(r.us(j.src.len() + 1)),
                    2 if last => {
                        let mut v = j.src[..h.prefix.min(j.src.len())].to_vec();
                        v.extend_from_slice(&program(c, r));
                        Out::Const(v)
                    }
                    3 if last && prop == "C06" => Out::Const(if r.chance(1, 3) { damage(c, r, &j.src).0 } else { program(c, r) }),
                    4 if last => Out::Append(program(c, r)),
                    5 if prop == "C04" => err_out(r),
                    6 if prop == "C04" => Out::Panic("stop".into()),
                    _ => ok_out(r),
                };
                j.acts.push(Act::new(out));
            }
        }
    }
    if r.chance(1, 8) {
        j.name = "b.rb".into();
    }
    if r.chance(1, 8) {
        j.tokens = false;
    }
    if prop == "C04" && r.chance(1, 8) {
        j.api = Api::Lex;
    }
    j
}

/// Small independent reading of the encoding directive. None: a form this model does not cover.
/// Some(names): the encodings (native ones included) the top comment asks for, in order.
pub fn model_directive(src: &[u8]) -> Option<(Vec<String>, usize)> {
    let mut pos = 0;
    if src.starts_with(b"\xef\xbb\xbf") {
        pos = 3;
    } else if src.starts_with(b"#!") {
        pos = src.iter().position(|b| *b == b'\n')? + 1;
        if String::from_utf8_lossy(&src[..pos]).contains("coding") {
            return None;
        }
    }
    let end = src[pos..].iter().position(|b| *b == b'\n').map(|p| pos + p + 1).unwrap_or(src.len());
    let line = &src[pos..end];
    if line.iter().any(|b| *b >= 0x80 || *b == 0 || *b == 4 || *b == 0x1a) {
        return None;
    }
    let line = String::from_utf8_lossy(line).into_owned();
    let rest = &src[end..];
    if !line.contains('#') {
        // no comment on the line an encoding directive could be on
        return Some((vec![], end));
    }
    let t = line.trim_start_matches([' ', '\t']);
    let comment = match t.strip_prefix('#') {
        Some(x) => x,
        None => {
            return if t.to_lowercase().contains("coding") && !code_before_comment(t) { None } else { Some((vec![], end)) };
        }
    };
    let _ = rest;
    if comment.starts_with('!') {
        return None;
    }
    let comment = comment.trim();
    if !comment.to_lowercase().contains("coding") {
        return Some((vec![], end));
    }
    let ok_value = |v: &str| !v.is_empty() && v.bytes().all(|b| b.is_ascii_alphanumeric() || b"-_.".contains(&b));
    let pair = |p: &str| -> Option<(String, String)> {
        let (k, v) = p.split_once(':')?;
        let (k, v) = (k.trim(), v.trim());
        let v = v.strip_prefix('"').and_then(|x| x.strip_suffix('"')).unwrap_or(v);
        if k.is_empty() || !k.bytes().all(|b| b.is_ascii_lowercase() || b == b'_') || !ok_value(v) {
            return None;
        }
        Some((k.to_string(), v.to_string()))
    };
    let mut pairs = vec![];
    if let Some(x) = comment.strip_prefix("-*- ") {
        let x = x.strip_suffix(" -*-")?;
        if x.contains("-*") || x.contains("*-") {
            return None;
        }
        for p in x.split("; ") {
            pairs.push(pair(p)?);
        }
    } else {
        if comment.contains("-*") || comment.contains("*-") || comment.len() < 7 {
            return None;
        }
        pairs.push(pair(comment)?);
    }
    Some((pairs.into_iter().filter(|(k, _)| k == "coding" || k == "encoding").map(|(_, v)| v).collect(), end))
}
/// Does code (not a string, not a comment) clearly come first on the line?
fn code_before_comment(t: &str) -> bool {
    t.starts_with("x = 1 #")
}

struct Model {
    /// (encoding, bytes handed to the decoder)
    calls: Vec<(String, Vec<u8>)>,
    /// source the rest of the parse works on
    fin: Vec<u8>,
    err: Option<InputError>,
    panics: bool,
    /// the decoded text still starts with the directive it was decoded for
    prefix_kept: bool,
}
/// Reference model of the decoding protocol. None: outside the model.
fn model(j: &Job) -> Option<Model> {
    let (names, end) = model_directive(&j.src)?;
    let mut cur = j.src.clone();
    let prefix = j.src[..end].to_vec();
    let mut m = Model { calls: vec![], fin: vec![], err: None, panics: false, prefix_kept: true };
    for (i, n) in names.iter().enumerate() {
        if is_native(n) {
            continue;
        }
        if j.acts.is_empty() {
            m.err = Some(InputError::UnsupportedEncoding(n.clone()));
            break;
        }
        let act = &j.acts[m.calls.len().min(j.acts.len() - 1)];
        m.calls.push((n.clone(), cur.clone()));
        if let Out::Panic(_) = act.out {
            m.panics = true;
            break;
        }
        match apply(&act.out, cur.clone()) {
            DecoderResult::Ok(v) => cur = v,
            DecoderResult::Err(e) => {
                m.err = Some(e);
                break;
            }
        }
        if !cur.starts_with(&prefix) || !(prefix.ends_with(b"\n") || cur.len() == prefix.len()) {
            m.prefix_kept = false;
            if i + 1 < names.len() || prefix.windows(3).any(|w| w == b"-*-") {
                // later pairs of a rewritten comment, or a list of pairs whose
                // reading goes on in the rewritten text: anything goes
                return None;
            }
        }
    }
    m.fin = cur;
    Some(m)
}

pub fn decoder_checks(s: &Scenario, rep: &mut Report, hist: &mut u64) {
    let _q = rt::Quiet::new();
    for (k, j) in s.threads[0].iter().enumerate() {
        outer_mark(0, k);
        let o = crate::cover::watch(&j.src, || run_job(j, Want { flaws: true, keep_bytes: true, ..Want::hashes() }));
        *hist = mix(*hist ^ o.parts[10] ^ o.parts[3].rotate_left(9) ^ o.parts[1].rotate_left(17));
        let at = Some((0, k));
        for i in 0..o.calls.len() {
            rep.stat(&format!("fault {}", j.acts[i.min(j.acts.len() - 1)].out.kind()), 1);
        }
        rep.stat("jobs", 1);
        let m = match model(j) {
            Some(m) => m,
            None => {
                rep.stat("jobs outside the directive model", 1);
                if let Some(p) = &o.panic {
                    if !o.injected_panic && s.prop == "C06" {
                        rep.fail("panic", format!("panicked: {} on {}", p, esc(&j.src)), at);
                    }
                }
                continue;
            }
        };
        if !m.calls.is_empty() {
            rep.stat("jobs that decoded", 1);
        }
        if m.calls.len() > 1 {
            rep.stat("jobs that decoded more than once", 1);
        }
        match s.prop.as_str() {
            "C04" => {
                if o.calls.len() != m.calls.len() {
                    rep.fail(
                        "decoder call count",
                        format!("decoder called {} times {:?}, expected {} {:?} on {}", o.calls.len(), o.calls.iter().map(|c| &c.0).collect::<Vec<_>>(), m.calls.len(), m.calls.iter().map(|c| &c.0).collect::<Vec<_>>(), esc(&j.src)),
                        at,
                    );
                } else {
                    for (a, b) in o.calls.iter().zip(&m.calls) {
                        if a.0 != b.0 {
                            rep.fail("decoder encoding name", format!("decoder got encoding {:?}, directive says {:?}", a.0, b.0), at);
                        } else if a.1 != b.1 {
                            rep.fail("decoder input bytes", format!("decoder got {} bytes {:?}, expected the {} bytes {:?}", a.1.len(), esc(&a.1), b.1.len(), esc(&b.1)), at);
                        }
                    }
                }
            }
            "C05" => {
                if let Some(e) = &m.err {
                    rep.stat("decoding failures judged", 1);
                    let want = e.to_string();
                    if let Some(p) = &o.panic {
                        rep.fail("failed decoding panics", format!("{} on {}", p, esc(&j.src)), at);
                    } else if o.info.encoding_errors != vec![want.clone()] || o.info.errors != 1 || o.info.warnings != 0 {
                        rep.fail(
                            "failed decoding diagnostics",
                            format!("expected one error {:?}, got {:?} ({} errors, {} warnings) on {}", want, o.info.encoding_errors, o.info.errors, o.info.warnings, esc(&j.src)),
                            at,
                        );
                    } else if o.info.has_ast {
                        rep.fail("failed decoding yields an AST", format!("AST returned for undecodable source {}", esc(&j.src)), at);
                    } else if !o.info.first_diag_renders {
                        rep.fail("failed decoding diagnostic does not render", format!("on {}", esc(&j.src)), at);
                    } else if o.info.bytes != m.fin {
                        rep.fail("failed decoding loses the source", format!("input.bytes has {} bytes {:?}, expected {:?}", o.info.bytes.len(), esc(&o.info.bytes), esc(&m.fin)), at);
                    } else if let Some(f) = o.flaws.first() {
                        rep.fail("failed decoding: bad result", f.clone(), at);
                    }
                }
            }
            "C06" => {
                if let (Some(p), false) = (&o.panic, m.panics) {
                    rep.fail("panic", format!("panicked: {} on {}", p, esc(&j.src)), at);
                    continue;
                }
                if m.panics || m.err.is_some() || j.api != Api::Parse {
                    continue;
                }
                if o.info.bytes != m.fin {
                    rep.fail("input is not the decoded text", format!("input.bytes {:?}, decoder returned {:?}", esc(&o.info.bytes), esc(&m.fin)), at);
                }
                if !m.prefix_kept {
                    // the directive the lexer was reading is gone from the text it works on:
                    // only "no panic" and "input is what the decoder returned" are promised
                    continue;
                }
                if let Some(f) = o.flaws.first() {
                    rep.fail("bad result after decoding", format!("{} on {}", f, esc(&j.src)), at);
                }
                if m.prefix_kept && !m.calls.is_empty() {
                    rep.stat("transparency comparisons", 1);
                    let mut j2 = j.clone();
                    j2.src = m.fin.clone();
                    j2.acts = vec![Act::new(Out::Ident)];
                    let o2 = run_job(&j2, Want::hashes());
                    for i in 1..10 {
                        if o.parts[i] != o2.parts[i] {
                            rep.fail(
                                format!("decoded parse differs from parsing the decoded text: {}", PARTS[i]),
                                format!("{} differs between decoding {} and parsing {} directly", PARTS[i], esc(&j.src), esc(&m.fin)),
                                at,
                            );
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- C07
pub fn c07_extra(j: &Job, o: &Outcome, at: (usize, usize), rep: &mut Report) {
    for k in 0..o.calls.len() {
        let a = &j.acts[k.min(j.acts.len() - 1)];
        if let Out::Panic(m) = &a.out {
            rep.stat("decoder panics judged", 1);
            if o.panic.as_deref() != Some(&format!("injected: {}", m)) {
                rep.fail("decoder panic not delivered to the caller", format!("decoder panicked with {:?}, caller saw {:?}", m, o.panic), Some(at));
            }
            if k + 1 != o.calls.len() {
                rep.fail("decoder called again after it panicked", format!("{} calls", o.calls.len()), Some(at));
            }
        }
    }
    if o.info.env_broken {
        rep.fail("static_env handle unusable after unwinding", "is_declared panicked".to_string(), Some(at));
    }
}

// ---------------------------------------------------------------- C08
pub fn c08(s: &Scenario, rep: &mut Report, hist: &mut u64) {
    let _q = rt::Quiet::new();
    let rounds = s.param("rounds").max(6) as usize;
    let vseed = s.param("vseed");
    let mut live: Vec<(i64, i64)> = Vec::with_capacity(rounds);
    for round in 0..rounds {
        let mut acc = 0u64;
        for (k, j) in s.threads[0].iter().enumerate() {
            outer_mark(0, k);
            let mut j = j.clone();
            if vseed != 0 {
                // fresh text of the same shape every round: what is remembered per input shows as growth
                let mut r = Rng::derive(vseed, round as u64, k as u64);
                let keep = model_directive(&j.src).map(|m| m.1).filter(|_| !j.acts.is_empty()).unwrap_or(0).min(j.src.len());
                let tail = variant(&mut r, &j.src[keep..]);
                j.src.truncate(keep);
                j.src.extend_from_slice(&tail);
                j.name = format!("{}{:04}", j.name, round);
            }
            let o = crate::cover::watch(&j.src, || run_job(&j, Want::hashes()));
            if round == 0 {
                for c in 0..o.calls.len() {
                    rep.stat(&format!("fault {}", j.acts[c.min(j.acts.len() - 1)].out.kind()), 1);
                }
                if j.api == Api::Abandon {
                    rep.stat("fault client:abandoned parser", 1);
                }
            }
            for p in o.parts {
                acc = mix(acc ^ p);
            }
        }
        *hist = mix(*hist ^ acc);
        live.push((rt::LIVE_BYTES.load(SeqCst), rt::LIVE_BLOCKS.load(SeqCst)));
    }
    rep.stat("jobs", (rounds * s.threads[0].len()) as u64);
    let tail = &live[rounds / 2..];
    let grows = |f: &dyn Fn(&(i64, i64)) -> i64| tail.windows(2).all(|w| f(&w[1]) > f(&w[0]));
    if grows(&|x| x.0) && grows(&|x| x.1) {
        rep.fail(
            "memory grows with every round",
            format!("live heap bytes after each round of {} calls: {:?}", s.threads[0].len(), live.iter().map(|x| x.0 - live[0].0).collect::<Vec<_>>()),
            None,
        );
    }
    rt::quarantine_flush();
    let e = rt::MEM_ERR.load(SeqCst);
    if e != 0 {
        rep.fail(format!("memory: {}", rt::mem_err_text(e)), rt::mem_err_text(e).to_string(), None);
    }
    rep.stat("heap operations", rt::ALLOCS.load(SeqCst));
    rep.stat("heap blocks fenced", rt::FENCED.load(SeqCst));
}

// ---------------------------------------------------------------- C09
pub const RATIO: u64 = 4;
pub const SEPS: [&str; 9] = ["\n", ";", " ", "\n\n", "", ", ", ".", " + ", "\r\n"];
const HEADS: [&str; 6] = ["", "#!/usr/bin/ruby\n", "# frozen_string_literal: true\n", "# warn_indent: true\n", "\u{feff}", "# encoding: utf-8\n"];
fn repeat(s: &Scenario, u: &[u8], n: usize) -> Vec<u8> {
    let sep = SEPS[s.param("sep") as usize % SEPS.len()].as_bytes();
    if let (1, [_, a, b]) = (s.param("list"), &s.threads[0][..]) {
        let mut v = a.src.clone();
        for i in 0..n {
            for c in u {
                match c {
                    1 => v.extend_from_slice(format!("{:05}", i).as_bytes()),
                    c => v.push(*c),
                }
            }
        }
        v.extend_from_slice(&b.src);
        return v;
    }
    let (mut a, mut b) = ("", "");
    if s.param("wrap") > 0 {
        (a, b) = WRAPS[(s.param("wrap") - 1) as usize % WRAPS.len()];
    }
    let head = HEADS[s.param("head") as usize % HEADS.len()];
    let mut v = Vec::with_capacity((u.len() + 4) * n + 100);
    v.extend_from_slice(head.as_bytes());
    v.extend_from_slice(a.as_bytes());
    for _ in 0..n {
        v.extend_from_slice(u);
        v.extend_from_slice(sep);
    }
    v.extend_from_slice(b.as_bytes());
    v
}
pub fn c09(s: &Scenario, rep: &mut Report, hist: &mut u64) {
    let _q = rt::Quiet::new();
    if s.param("scale") != 0 {
        let j = &s.threads[0][0];
        let small = s.param("scale").max(2) as usize;
        let a = Job { src: repeat(s, &j.src, small), tokens: true, api: j.api, ..Job::plain(vec![]) };
        let b = Job { src: repeat(s, &j.src, small * 16), tokens: true, api: j.api, ..Job::plain(vec![]) };
        outer_mark(0, 0);
        let oa = run_job(&a, Want { step_limit: BOUND_A + BOUND_B * a.src.len() as u64, look: false, ..Want::hashes() });
        let limit = ((oa.steps + 2000) * 16 * RATIO).max(BOUND_A);
        let ob = run_job(&b, Want { step_limit: limit, look: false, ..Want::hashes() });
        *hist = mix(oa.steps ^ ob.steps.rotate_left(20));
        rep.stat("scaling pairs", 1);
        rep.stat("jobs", 2);
        rep.stat("steps", oa.steps + ob.steps);
        rep.extra.push(("max ratio*100".into(), format!("{}", ob.steps * 100 / ((oa.steps + 2000) * 16))));
        rep.extra.push(("max byte ratio*100".into(), format!("{}", ob.moved * 100 / ((oa.moved + 20_000) * 16))));
        if let Some(x) = rt::hunt_ratio() {
            if ob.steps * 100 > (oa.steps + 2000) * 16 * x || ob.moved * 100 > (oa.moved + 20_000) * 16 * x {
                rep.fail("suspicious growth", format!("steps {} to {}, bytes {} to {}: {}", oa.steps, ob.steps, oa.moved, ob.moved, esc(&j.src)), Some((0, 0)));
            }
        }
        if ob.moved > (oa.moved + 20_000) * 16 * RATIO {
            rep.fail(
                "bytes moved grow faster than the source",
                format!("{} sections: {} bytes copied, compared or allocated; {} sections: {} ({})", small, oa.moved, small * 16, ob.moved, esc(&j.src)),
                Some((0, 0)),
            );
        }
        return;
    }
    let mut worst = 0;
    for (k, j) in s.threads[0].iter().enumerate() {
        outer_mark(0, k);
        let mut n = j.src.len();
        for a in &j.acts {
            match &a.out {
                Out::Const(b) => n = n.max(b.len()),
                Out::Append(b) => n += 2 * b.len(),
                Out::Latin1 => n *= 2,
                _ => {}
            }
        }
        let o = crate::cover::watch(&j.src, || run_job(j, Want { step_limit: BOUND_A + BOUND_B * n as u64, ..Want::hashes() }));
        *hist = mix(*hist ^ o.steps);
        worst = worst.max(o.steps * 1000 / (BOUND_A + BOUND_B * n as u64));
        rep.stat("steps", o.steps);
    }
    rep.extra.push(("max bound use per mille".into(), format!("{}", worst)));
    rep.stat("jobs", s.threads[0].len() as u64);
}
