//! C14 and C15: how far damage reaches. Both compare a source with damaged versions of itself.
use crate::dict;
use crate::exec::*;
use crate::gen::*;
use crate::job::*;
use crate::prng::{mix, Rng};
use crate::rt;
use crate::scn::*;
use lib_ruby_parser::{Lexer, ParserResult};

// ---------------------------------------------------------------- C14
/// job 0: the source; the others: what storage made of it
pub fn generate_c14(c: &Corpus, r: &mut Rng, s: &mut Scenario) {
    let mut src = program(c, r);
    for _ in 0..r.us(3) {
        src.extend_from_slice(*r.pick(&[&b"\n"[..], b"\n", b"\n\n", b" # x\n", b"\\\n"]));
        src.extend_from_slice(&section(c, r));
    }
    if r.chance(1, 4) {
        src = wrap(r, &src);
    }
    src.truncate(dict::cap(3000));
    for _ in 0..3 + r.us(6) {
        let lines: Vec<usize> = std::iter::once(0).chain(src.iter().enumerate().filter(|(_, b)| **b == b'\n').map(|(i, _)| i + 1)).collect();
        // a line, and the position in it where the damage starts
        let l = lines[r.us(lines.len())];
        let from = if r.chance(1, 2) { l } else { l + r.us(src.len() - l + 1) };
        let (tail, k) = match r.us(8) {
            0 | 1 => (vec![], 0),
            2 => (vec![0; 1 + r.us(40)], 3),
            3 => (section(c, r), 9),
            4 => {
                let n = 1 + r.us(12);
                ((0..n).map(|_| r.below(256) as u8).collect(), 7)
            }
            5 => {
                // what the lexer looks at when it looks ahead
                let mut t = r.pick(&[&b"."[..], b"..", b"&.", b"&", b"#", b"=begin\n", b"__END__\n", b"  .b", b"\t#x\n  .c\n", b"&.d", b"...", b"&&", b"::", b"# a\n\n.e", b"\\\n.f", b"\r\n.g", b" \r.h", b"=end"]).to_vec();
                t.extend_from_slice(&src[from..]);
                (t, 6)
            }
            _ => damage(c, r, &src[from..]),
        };
        let mut v = src[..from].to_vec();
        v.extend_from_slice(&tail);
        v.truncate(dict::cap(6000));
        s.set(&format!("k{}", s.threads[0].len()), k as u64);
        if s.threads[0].is_empty() {
            s.threads[0].push(Job::plain(src.clone()));
        }
        s.threads[0].push(Job::plain(v));
    }
}

struct Seen {
    /// kind, text, begin, end
    toks: Vec<(i32, Vec<u8>, usize, usize)>,
    comments: Vec<(usize, usize)>,
    magic: Vec<(usize, usize, usize, usize)>,
}
fn seen(r: &ParserResult) -> Seen {
    Seen {
        toks: r.tokens.iter().map(|t| (t.token_type, t.token_value.raw.clone(), t.loc.begin, t.loc.end)).collect(),
        comments: r.comments.iter().map(|c| (c.location.begin, c.location.end)).collect(),
        magic: r.magic_comments.iter().map(|m| (m.key_l.begin, m.key_l.end, m.value_l.begin, m.value_l.end)).collect(),
    }
}
fn observe(j: &Job, at: usize, rep: &mut Report, hist: &mut u64) -> Option<(Seen, Outcome)> {
    mark(0, at);
    let want = Want::hashes();
    let ran = crate::cover::watch(&j.src, || start_job(j, want));
    let see = match &ran.product {
        Product::Result(r) => Some(seen(r)),
        _ => None,
    };
    let o = finish_job(j, ran, want);
    *hist = mix(*hist ^ o.parts[1] ^ o.parts[2].rotate_left(7) ^ o.parts[3].rotate_left(13));
    rep.stat("jobs", 1);
    see.map(|s| (s, o))
}

/// The part of the token sequence that was complete before the lexer could see line start `d`.
/// (A token without extent ends a string that has no end: the lexer has read all there is.)
fn settled(t: &Seen, d: usize) -> usize {
    let mut k = t.toks.iter().position(|x| x.3 >= d || x.2 == x.3 || x.0 == Lexer::END_OF_INPUT).unwrap_or(t.toks.len());
    // whether a line end is a token, and whether text goes on, depends on how the next line starts
    while k > 0 && (t.toks[k - 1].0 == Lexer::tNL || t.toks[k - 1].0 == Lexer::tSTRING_CONTENT) {
        k -= 1;
    }
    k
}

/// Where the first heredoc starts that is not complete after these tokens: the rest of its line is read after its body.
fn open_heredoc(toks: &[(i32, Vec<u8>, usize, usize)], src: &[u8]) -> Option<usize> {
    let mut open: Vec<Option<usize>> = vec![];
    for t in toks {
        let text = src.get(t.2..t.3).unwrap_or(b"");
        match t.0 {
            Lexer::tSTRING_BEG | Lexer::tXSTRING_BEG => open.push(if text.starts_with(b"<<") { Some(t.2) } else { None }),
            Lexer::tREGEXP_BEG | Lexer::tWORDS_BEG | Lexer::tQWORDS_BEG | Lexer::tSYMBOLS_BEG | Lexer::tQSYMBOLS_BEG => open.push(None),
            Lexer::tSYMBEG if text.len() > 1 => open.push(None),
            Lexer::tSTRING_END | Lexer::tREGEXP_END | Lexer::tLABEL_END => {
                open.pop();
            }
            _ => {}
        }
    }
    open.into_iter().flatten().min()
}

pub fn judge_c14(s: &Scenario, rep: &mut Report, hist: &mut u64) {
    let _q = rt::Quiet::new();
    let jobs = &s.threads[0];
    if jobs.is_empty() {
        return;
    }
    let src = &jobs[0].src;
    let (a, _) = match observe(&jobs[0], 0, rep, hist) {
        Some(x) => x,
        None => return,
    };
    for (n, j) in jobs.iter().enumerate().skip(1) {
        let (b, _) = match observe(j, n, rep, hist) {
            Some(x) => x,
            None => continue,
        };
        rep.stat(&format!("fault {}", DAMAGE[(s.param(&format!("k{}", n - 1)) as usize).min(DAMAGE.len() - 1)]), 1);
        let same = src.iter().zip(&j.src).take_while(|(x, y)| x == y).count();
        if same == src.len() && same == j.src.len() {
            continue;
        }
        let d = src[..same].iter().rposition(|x| *x == b'\n').map(|p| p + 1).unwrap_or(0);
        let k = settled(&a, d).min(settled(&b, d));
        rep.stat("tokens before the damage compared", k as u64);
        // both sequences are complete up to the point where they first reach the damage
        let ka = settled(&a, d);
        let show = |t: Option<&(i32, Vec<u8>, usize, usize)>| match t {
            Some(t) => format!("token {} {} {}..{}", t.0, esc(&t.1), t.2, t.3),
            None => "nothing".to_string(),
        };
        for i in 0..ka {
            if b.toks.get(i) != Some(&a.toks[i]) {
                rep.fail(
                    "damage changed a token before it",
                    format!("job {}: sources equal up to {} (line start {}): token {} was {}, became {} in {}", n, same, d, i, show(a.toks.get(i)), show(b.toks.get(i)), esc(&j.src)),
                    Some((0, n)),
                );
                return;
            }
        }
        // comments on lines that were done before anything on or after the damaged line was read
        let first = a.toks[ka..].iter().chain(b.toks.iter().skip(ka)).map(|t| t.2).min().unwrap_or(d).min(d);
        let first = open_heredoc(&a.toks[..ka], src).unwrap_or(first).min(first);
        let p = src[..first].iter().rposition(|x| *x == b'\n').map(|p| p + 1).unwrap_or(0);
        let ca: Vec<_> = a.comments.iter().filter(|c| c.1 < p).collect();
        let cb: Vec<_> = b.comments.iter().filter(|c| c.1 < p).collect();
        rep.stat("comments before the damage compared", ca.len() as u64);
        let ma: Vec<_> = a.magic.iter().filter(|c| c.3 < p).collect();
        let mb: Vec<_> = b.magic.iter().filter(|c| c.3 < p).collect();
        if ca != cb || ma != mb {
            rep.fail(
                "damage changed a comment before it",
                format!("job {}: sources equal up to {}: comments {:?} became {:?}, magic comments {:?} became {:?} in {}", n, same, ca, cb, ma, mb, esc(&j.src)),
                Some((0, n)),
            );
            return;
        }
    }
}

// ---------------------------------------------------------------- C15
pub fn generate_c15(c: &Corpus, r: &mut Rng, s: &mut Scenario) {
    let n = 1 + r.us(3);
    for _ in 0..n {
        let base = program(c, r);
        let mut src: Vec<u8> = vec![];
        if r.chance(1, 6) {
            src.extend_from_slice(*r.pick(&[&b"#!/usr/bin/ruby\n"[..], b"\xef\xbb\xbf", b"# first\n", b"# frozen_string_literal: true\n"]));
        }
        let cr = r.chance(1, 8);
        for l in base.split_inclusive(|b| *b == b'\n') {
            let body = if l.ends_with(b"\n") { &l[..l.len() - 1] } else { l };
            src.extend_from_slice(body);
            if r.chance(1, 3) {
                let t = *r.pick(&[" # note", " # a: b", "# -*- x: y -*-", " # frozen_string_literal: true", " # \u{e9}t\u{e9}", " #", " # end }) \"", " # warn_indent: false", "\t#{x}"]);
                src.extend_from_slice(t.as_bytes());
            }
            if l.len() > body.len() || r.chance(1, 2) {
                src.extend_from_slice(if cr { b"\r\n" } else { b"\n" });
            }
            if r.chance(1, 12) {
                src.extend_from_slice(*r.pick(&[&b"=begin\nfoo\nbar baz\n=end\n"[..], b"=begin x\n\n a = 1\n=end y\n", b"=begin\nabcd efgh\n\n=x\n ijkl mnop qrst uvwx yz\n=endless\n\t=end\n=end\n", b"# alone on its line\n", b"   # indented\n"]));
            }
        }
        if r.chance(1, 4) {
            if !src.ends_with(b"\n") {
                src.push(b'\n');
            }
            src.extend_from_slice(b"__END__\n");
            src.extend_from_slice(&section(c, r));
        }
        src.truncate(dict::cap(5000));
        s.threads[0].push(Job::plain(src));
    }
    s.set("salt", r.next() >> 8);
}

fn has(b: &[u8], w: &[u8]) -> bool {
    b.windows(w.len()).any(|x| x.eq_ignore_ascii_case(w))
}

const NOTES: [&str; 40] = [
    "\\", "#{", "}", "end", "=end", "=begin", "__END__", "\"", "'", "`", "rubocop:disable all", "rubocop:enable all", ":nodoc:", ":nocov:", "TODO", "FIXME", "@param x [A]", "frozen_string_literal: true", "frozen_string_literal: false",
    "warn_indent: true", "shareable_constant_value: literal", "-*- x: y -*-", "-*-", "typed: true", "vim: ts=2", "!ruby", "line 10", "{{{", "}}}", "\u{0}", "\\\n", "?>", "%>", "*/", "<<A", "(", ")", "\t", "  ", "steep:ignore",
];
/// A damaged version of the source in which only comment text and the data section differ, and how it was damaged.
fn hurt(src: &[u8], a: &Seen, end: Option<usize>, r: &mut Rng) -> Option<(Vec<u8>, &'static str)> {
    let mut v = src.to_vec();
    if let Some(e) = end {
        if r.chance(1, 2) {
            // everything after the __END__ line
            v.truncate(e);
            let n = r.us(60);
            match r.us(6) {
                0 => return Some((v, "data section lost")),
                4 => v.extend_from_slice(&crate::ruby::source(r)),
                5 => {
                    for _ in 0..1 + r.us(6) {
                        v.extend_from_slice(r.pick(&NOTES).as_bytes());
                        v.extend_from_slice(*r.pick(&[&b"\n"[..], b"\n", b"\r\n", b" ", b""]));
                    }
                }
                1 => v.extend(std::iter::repeat(0).take(n)),
                2 => v.extend((0..n).map(|_| r.below(256) as u8)),
                _ => {
                    let t = src[e..].to_vec();
                    v.extend_from_slice(&t[..r.us(t.len() + 1)]);
                }
            }
            return Some((v, "data section damaged"));
        }
    }
    if a.comments.is_empty() {
        return None;
    }
    let second = src.iter().position(|b| *b == b'\n').map(|p| src[p + 1..].iter().position(|b| *b == b'\n').map(|q| p + 1 + q).unwrap_or(src.len())).unwrap_or(src.len());
    let mut any = false;
    for _ in 0..1 + r.us(3) {
        let (b, e) = a.comments[r.us(a.comments.len())];
        if b > e || e > src.len() {
            return None;
        }
        // the bytes that may be damaged: not the marker, no line ends, no line starts of =begin blocks
        let block = src[b] == b'=';
        let mut spots: Vec<usize> = vec![];
        if block {
            let first = src[b..e].iter().position(|x| *x == b'\n').map(|p| b + p).unwrap_or(e);
            let last = src[b..e].iter().rposition(|x| *x == b'\n').map(|p| b + p).unwrap_or(b);
            let last = if src[b..e].ends_with(b"\n") { src[b..last].iter().rposition(|x| *x == b'\n').map(|p| b + p).unwrap_or(b) } else { last };
            for i in first..last {
                // a line that starts with `=` could become the end of the block
                let l = src[..i].iter().rposition(|x| *x == b'\n').map(|p| p + 1).unwrap_or(0);
                if src[i] != b'\n' && src[i - 1] != b'\n' && src[i] != b'\r' && src[l] != b'=' {
                    spots.push(i);
                }
            }
        } else {
            spots.extend((b + 1..e).filter(|i| src[*i] != b'\n' && src[*i] != b'\r'));
            if b == 0 {
                // `#!` on the first line is a shebang
                spots.retain(|i| *i != 1);
            }
        }
        if spots.is_empty() {
            continue;
        }
        let kind = r.us(4);
        // what once was other text: a note to some tool, code, a key and value
        let text: Vec<u8> = if kind < 3 {
            vec![]
        } else if let Some(w) = if dict::quiet() { None } else { dict::word(r, 2) } {
            w
        } else {
            r.pick(&NOTES).as_bytes().to_vec()
        };
        let from = r.us(spots.len());
        let firsts: Vec<usize> = (0..spots.len()).filter(|i| *i == 0 || spots[*i] != spots[*i - 1] + 1).collect();
        let from = if r.chance(1, 3) { *r.pick(&firsts) } else { from };
        let from = if kind == 3 && r.chance(1, 3) { spots.len().saturating_sub(text.len()) } else { from };
        let len = match r.us(3) {
            0 => 1,
            1 => spots.len() - from,
            _ => 1 + r.us(spots.len() - from),
        };
        let len = if kind == 3 { text.len().min(spots.len() - from) } else { len };
        for (n, i) in spots[from..from + len].iter().enumerate() {
            let x = match kind {
                3 => text[n],
                0 => 0,
                1 => r.below(256) as u8,
                _ => v[*i] ^ 1 << r.us(8),
            };
            if x != b'\n' && x != b'\r' {
                v[*i] = x;
            }
        }
        // an encoding directive is not just a comment
        if b <= second {
            let e2 = src[b..].iter().position(|x| *x == b'\n').map(|p| b + p).unwrap_or(src.len());
            if has(&src[b..e2], b"coding") || has(&v[b..e2], b"coding") {
                v[b..e2].copy_from_slice(&src[b..e2]);
                continue;
            }
        }
        any = true;
    }
    if any && v != src {
        Some((v, "comment bytes damaged"))
    } else {
        None
    }
}

pub fn judge_c15(s: &Scenario, rep: &mut Report, hist: &mut u64) {
    let _q = rt::Quiet::new();
    let mut r = Rng::derive(s.param("salt"), 0xC15, 0);
    for (k, j) in s.threads[0].iter().enumerate() {
        let (a, oa) = match observe(j, k, rep, hist) {
            Some(x) => x,
            None => continue,
        };
        // where the data section starts, if no string or comment holds the marker
        let mut end = None;
        let mut p = 0;
        for l in j.src.split_inclusive(|b| *b == b'\n') {
            if l == b"__END__\n" && a.toks.iter().all(|t| t.0 == Lexer::END_OF_INPUT || t.3 <= p) && a.comments.iter().all(|c| c.1 <= p) && oa.info.errors == 0 {
                end = Some(p + l.len());
                break;
            }
            p += l.len();
        }
        for _ in 0..6 {
            let (v, kind) = match hurt(&j.src, &a, end, &mut r) {
                Some(x) => x,
                None => break,
            };
            let same_len = v.len() == j.src.len() && kind.starts_with("comment");
            let (b, ob) = match observe(&Job { src: v.clone(), ..j.clone() }, k, rep, hist) {
                Some(x) => x,
                None => continue,
            };
            rep.stat(&format!("fault storage:{}", kind), 1);
            // magic comments, the input and rendered lines hold the damaged text itself
            for i in [0usize, 1, 2, 3, 4, 7] {
                if i == 7 && !same_len {
                    continue;
                }
                // (the white space of a word list may go on after the body of a heredoc that holds the comment)
                let spaced = |s: &Seen| s.toks.iter().map(|t| (t.0, if t.0 == Lexer::tSPACE { vec![] } else { t.1.clone() }, t.2, t.3)).collect::<Vec<_>>();
                if oa.parts[i] != ob.parts[i] && (PARTS[i] != "tokens" || spaced(&a) != spaced(&b)) {
                    rep.fail(
                        format!("damage in a comment or the data section changes {}", PARTS[i]),
                        format!("job {}: {}: {} differ: {} became {}", k, kind, PARTS[i], esc(&j.src), esc(&v)),
                        Some((0, k)),
                    );
                    return;
                }
            }
        }
    }
}
