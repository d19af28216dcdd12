//! Jobs: one use of the library's public API by the simulated program, with a scripted decoder, and the
//! fingerprint of everything the caller can observe from it.
use crate::prng::hash_bytes;
use crate::rt::{self, loud, Quiet};
use lib_ruby_parser::source::{Decoder, DecoderResult, InputError};
use lib_ruby_parser::{Lexer, Parser, ParserOptions, ParserResult, StaticEnvironment, Token};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Api {
    Parse,
    Validate,
    Lex,
    /// built, then dropped without parsing (an abandoned request)
    Abandon,
}

/// What the decoder returns for one call.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Ident,
    /// ISO-8859-1 to UTF-8 (longer output)
    Latin1,
    /// every byte >= 0x80 becomes one ASCII letter (same length)
    Fold,
    /// every byte >= 0x80 is dropped (shorter output)
    Strip,
    /// torn output: only the first n bytes
    Trunc(usize),
    /// output replaced
    Const(Vec<u8>),
    /// output continued with other bytes
    Append(Vec<u8>),
    ErrDecoding(String),
    ErrUnsupported(String),
    Panic(String),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Act {
    pub out: Out,
    /// parse run from inside the decoder (re-entrancy)
    pub nested: Option<Box<Job>>,
    /// locals declared on the parser's shared static_env from inside the decoder
    pub declare: Vec<String>,
    /// scheduling points inside the decoder
    pub stall: u32,
}
impl Act {
    pub fn new(out: Out) -> Act {
        Act { out, nested: None, declare: vec![], stall: 0 }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Job {
    pub api: Api,
    pub src: Vec<u8>,
    pub name: String,
    pub tokens: bool,
    /// empty: no decoder. Call k uses acts[min(k, len-1)].
    pub acts: Vec<Act>,
    pub locals: Vec<String>,
}
impl Job {
    pub fn plain(src: Vec<u8>) -> Job {
        Job { api: Api::Parse, src, name: "(eval)".into(), tokens: true, acts: vec![], locals: vec![] }
    }
    pub fn key(&self) -> u64 {
        hash_bytes(self.encode().as_bytes())
    }
    pub fn size(&self) -> usize {
        self.src.len()
            + self.name.len()
            + self.locals.len()
            + self
                .acts
                .iter()
                .map(|a| {
                    1 + a.declare.len()
                        + a.stall as usize
                        + a.nested.as_ref().map(|n| n.size() + 1).unwrap_or(0)
                        + match &a.out {
                            Out::Const(b) | Out::Append(b) => b.len() + 1,
                            _ => 1,
                        }
                })
                .sum::<usize>()
    }
}

/// Panic payload used for injected decoder panics.
pub struct Injected(pub String);

pub fn apply(out: &Out, input: Vec<u8>) -> DecoderResult {
    match out {
        Out::Ident => DecoderResult::Ok(input),
        Out::Latin1 => {
            let mut v = Vec::with_capacity(input.len() * 2);
            for b in input {
                if b < 0x80 {
                    v.push(b)
                } else {
                    v.push(0xc0 | (b >> 6));
                    v.push(0x80 | (b & 0x3f));
                }
            }
            DecoderResult::Ok(v)
        }
        Out::Fold => DecoderResult::Ok(input.into_iter().map(|b| if b < 0x80 { b } else { b'a' + b % 26 }).collect()),
        Out::Strip => DecoderResult::Ok(input.into_iter().filter(|b| *b < 0x80).collect()),
        Out::Trunc(n) => {
            let mut v = input;
            v.truncate(*n);
            DecoderResult::Ok(v)
        }
        Out::Const(v) => DecoderResult::Ok(v.clone()),
        Out::Append(b) => {
            let mut v = input;
            v.extend_from_slice(b);
            DecoderResult::Ok(v)
        }
        Out::ErrDecoding(m) => DecoderResult::Err(InputError::DecodingError(m.clone())),
        Out::ErrUnsupported(m) => DecoderResult::Err(InputError::UnsupportedEncoding(m.clone())),
        Out::Panic(m) => std::panic::panic_any(Injected(m.clone())),
    }
}

#[derive(Default)]
pub struct DecLog {
    /// (encoding name, bytes handed over)
    pub calls: Vec<(String, Vec<u8>)>,
    pub nested: Vec<(usize, Outcome)>,
}

pub const PARTS: [&str; 12] = [
    "panic", "ast", "tokens", "diagnostics", "comments", "magic_comments", "input.bytes", "input.lines", "input.name",
    "rendered diagnostics", "decoder calls", "static_env",
];
pub const NP: usize = 12;

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub parts: [u64; NP],
    pub text: Option<Vec<String>>,
    pub steps: u64,
    /// bytes copied, compared and allocated
    pub moved: u64,
    pub panic: Option<String>,
    pub injected_panic: bool,
    pub calls: Vec<(String, Vec<u8>)>,
    /// (decoder call, outcome of the parse run inside it)
    pub nested: Vec<(usize, Outcome)>,
    /// result integrity problems (locations, rendering, source retention)
    pub flaws: Vec<String>,
    pub info: Info,
}
#[derive(Clone, Debug, Default)]
pub struct Info {
    pub has_ast: bool,
    pub errors: usize,
    pub warnings: usize,
    pub tokens: usize,
    pub comments: usize,
    pub magic: usize,
    pub encoding_errors: Vec<String>,
    pub first_diag_renders: bool,
    pub env_broken: bool,
    pub bytes: Vec<u8>,
}

impl Outcome {
    fn set(&mut self, i: usize, s: String) {
        self.parts[i] = hash_bytes(s.as_bytes());
        if let Some(t) = &mut self.text {
            t[i] = s;
        }
    }
    pub fn diff(&self, base: &[u64; NP]) -> Option<usize> {
        (0..NP).find(|i| self.parts[*i] != base[*i])
    }
}

/// Which optional work to do for a job's outcome.
#[derive(Clone, Copy, Debug)]
pub struct Want {
    pub text: bool,
    pub flaws: bool,
    pub step_limit: u64,
    pub keep_bytes: bool,
    /// fingerprint the result (off: only steps and panics)
    pub look: bool,
}
/// Far beyond any bound C09 allows for generated sources: what goes on after it will not come back.
pub const STEP_LIMIT: u64 = 400_000_000;
impl Want {
    pub fn hashes() -> Want {
        Want { text: false, flaws: false, step_limit: STEP_LIMIT, keep_bytes: false, look: true }
    }
}

fn decoder_for(job: &Job, env: Option<StaticEnvironment>, log: Rc<RefCell<DecLog>>, want: Want) -> Option<Decoder> {
    if job.acts.is_empty() {
        return None;
    }
    let acts = job.acts.clone();
    Some(Decoder::new(Box::new(move |enc: String, bytes: Vec<u8>| {
        let _q = Quiet::new();
        let k = log.borrow().calls.len();
        log.borrow_mut().calls.push((enc, bytes.clone()));
        let act = &acts[k.min(acts.len() - 1)];
        for _ in 0..act.stall {
            rt::hot_point();
        }
        if let Some(env) = &env {
            for l in &act.declare {
                loud(|| env.declare(l));
            }
        }
        if let Some(j) = &act.nested {
            let o = run_job(j, want);
            log.borrow_mut().nested.push((k, o));
        }
        apply(&act.out, bytes)
    })))
}

fn tokens_text(toks: &[Token]) -> String {
    let mut s = String::new();
    for t in toks {
        s.push_str(&format!("{} {} {:?} {}..{}\n", t.token_type, t.token_name(), t.token_value.raw, t.loc.begin, t.loc.end));
    }
    s
}

/// Scan a Debug dump of the AST for locations, which print as `begin...end`.
fn scan_locs(s: &str, len: usize, what: &str, flaws: &mut Vec<String>) -> std::collections::HashSet<(usize, usize)> {
    let mut all = std::collections::HashSet::new();
    let b = s.as_bytes();
    let mut i = 0;
    let mut in_str = false;
    while i < b.len() {
        let c = b[i];
        if in_str {
            if c == b'\\' {
                i += 2;
                continue;
            }
            if c == b'"' {
                in_str = false;
            }
            i += 1;
            continue;
        }
        if c == b'"' {
            in_str = true;
            i += 1;
            continue;
        }
        if c == b'.' && b[i..].starts_with(b"...") && i > 0 && b[i - 1].is_ascii_digit() {
            let mut a = i;
            while a > 0 && b[a - 1].is_ascii_digit() {
                a -= 1;
            }
            let mut e = i + 3;
            while e < b.len() && b[e].is_ascii_digit() {
                e += 1;
            }
            if e > i + 3 {
                if let (Ok(x), Ok(y)) = (s[a..i].parse::<usize>(), s[i + 3..e].parse::<usize>()) {
                    bounds(x, y, len, what, flaws);
                    all.insert((x, y));
                }
            }
            i = e;
            continue;
        }
        i += 1;
    }
    all
}
fn bounds(b: usize, e: usize, len: usize, what: &str, flaws: &mut Vec<String>) {
    if b > e {
        flaws.push(format!("{}: inverted location {}...{} (input length {})", what, b, e, len));
    } else if e > len {
        flaws.push(format!("{}: location {}...{} past the end of input (length {})", what, b, e, len));
    }
}

pub fn check_result(r: &ParserResult, given: Option<&[u8]>, flaws: &mut Vec<String>, ast_dbg: Option<&str>, tokens: bool) {
    let len = r.input.bytes.len();
    if let Some(g) = given {
        if r.input.bytes != g {
            flaws.push(format!("input.bytes: source not retained verbatim ({} bytes given, {} kept)", g.len(), len));
        }
    }
    // the line table partitions the input
    let mut pos = 0;
    let n = r.input.lines.len();
    if n == 0 {
        flaws.push("input.lines: empty line table".into());
    }
    for (i, l) in r.input.lines.iter().enumerate() {
        let last = i + 1 == n;
        let nl = l.end > l.start && r.input.bytes.get(l.end - 1) == Some(&b'\n');
        if l.start != pos || l.end < l.start || l.end > len || (last && l.end != len) || (!last && !nl) || l.ends_with_eof != last
            || (l.end > l.start && r.input.bytes[l.start..l.end - 1].contains(&b'\n')) || (last && nl)
        {
            flaws.push(format!("input.lines: line {} is {}..{} (expected to start at {}, input length {})", i, l.start, l.end, pos, len));
            break;
        }
        pos = l.end;
    }
    for t in &r.tokens {
        // END_OF_INPUT and newline tokens may be virtual: they may end one past the source
        let slack = if t.token_type == Lexer::END_OF_INPUT || t.token_type == Lexer::tNL { 1 } else { 0 };
        bounds(t.loc.begin, t.loc.end, len + slack, "token", flaws);
    }
    for d in &r.diagnostics {
        bounds(d.loc.begin, d.loc.end, len, "diagnostic", flaws);
        if d.loc.begin <= d.loc.end && d.render(&r.input).is_none() {
            flaws.push(format!("diagnostic: cannot be rendered ({:?})", d));
        }
    }
    for d in &r.diagnostics {
        // every reported position maps back to the line it is on
        for pos in [d.loc.begin, d.loc.end] {
            if pos <= len {
                let line = r.input.bytes[..pos].iter().filter(|b| **b == b'\n').count();
                let col = pos - r.input.bytes[..pos].iter().rposition(|b| *b == b'\n').map(|p| p + 1).unwrap_or(0);
                if r.input.line_col_for_pos(pos) != Some((line, col)) {
                    flaws.push(format!("line and column: position {} is line {} column {}, reported as {:?}", pos, line, col, r.input.line_col_for_pos(pos)));
                }
            }
        }
    }
    let mut spans: Vec<(usize, usize)> = vec![];
    for c in &r.comments {
        bounds(c.location.begin, c.location.end, len, "comment", flaws);
        if c.location.begin <= c.location.end && c.location.end <= len {
            let t = &r.input.bytes[c.location.begin..c.location.end];
            if !t.starts_with(b"#") && !t.starts_with(b"=begin") {
                flaws.push(format!("comment: {}...{} is not a comment", c.location.begin, c.location.end));
            }
            spans.push((c.location.begin, c.location.end));
        }
    }
    spans.sort();
    if let Some(w) = spans.windows(2).find(|w| w[0].1 > w[1].0) {
        flaws.push(format!("comment: {:?} and {:?} overlap", w[0], w[1]));
    }
    let tl: Vec<&Token> = r.tokens.iter().filter(|t| t.token_type != Lexer::END_OF_INPUT && t.token_type != Lexer::tNL && t.token_type != Lexer::tSEMI && t.loc.end > t.loc.begin).collect();
    if r.ast.is_none() && !r.diagnostics.iter().any(|d| d.is_error()) {
        if let Some(t) = tl.first() {
            flaws.push(format!("silent loss: no AST, no error, but token {:?}", t));
        }
    }
    if (tokens || r.ast.is_none()) && !r.diagnostics.iter().any(|d| d.is_error()) {
        // outside of literals a token carries the text it covers
        const OTHER: [i32; 6] = [Lexer::END_OF_INPUT, Lexer::tSTRING_END, Lexer::tLABEL, Lexer::tNL, Lexer::tCHAR, Lexer::tSTRING_CONTENT];
        for t in r.tokens.iter().filter(|t| t.token_type != Lexer::tREGEXP_END) {
            let text = r.input.bytes.get(t.loc.begin..t.loc.end).unwrap_or(b"");
            let raw = &t.token_value.raw[..];
            let label = t.token_type == Lexer::tLABEL && text.strip_suffix(b":") != Some(raw);
            if label || text != raw && !OTHER.contains(&t.token_type) {
                flaws.push(format!("silent loss: accepted, but {} at {}...{} carries {:?}", t.token_name(), t.loc.begin, t.loc.end, esc(raw)));
                break;
            }
        }
        if let Some((x, y)) = twice(r, &tl, &spans) {
            flaws.push(format!("silent loss: accepted, but {} and {} overlap", x, y));
        }
        if let Some(at) = unaccounted(r) {
            let to = (at + 20).min(len);
            flaws.push(format!("silent loss: accepted, but byte {} ({:?}) is in no token and no comment", at, esc(&r.input.bytes[at..to])));
        }
    }
    for m in &r.magic_comments {
        bounds(m.key_l.begin, m.key_l.end, len, "magic comment key", flaws);
        bounds(m.value_l.begin, m.value_l.end, len, "magic comment value", flaws);
    }
    if r.ast.is_some() {
        let own;
        let s = match ast_dbg {
            Some(s) => s,
            None => {
                own = format!("{:?}", r.ast);
                &own
            }
        };
        let locs = scan_locs(s, len, "ast", flaws);
        if tokens && !r.diagnostics.iter().any(|d| d.is_error()) {
            if let Some(n) = nesting(s, &r.input.bytes) {
                flaws.push(format!("nesting: {}", n));
            }
            if let Some(t) = unused(&r.tokens, &locs) {
                flaws.push(format!("silent loss: accepted, but {} at {}...{} is not in the AST", t.token_name(), t.loc.begin, t.loc.end));
            }
        }
    }
}

/// Checks in a Debug dump of the AST that the locations of each node and of its children lie within its own expression,
/// and that names and numbers are the text at their location.
fn nesting(s: &str, src: &[u8]) -> Option<String> {
    struct Frame {
        kind: String,
        expr: Option<(usize, usize)>,
        own: Vec<(String, usize, usize)>,
        kids: Vec<(String, usize, usize)>,
        name: Option<(String, String)>,
    }
    let b = s.as_bytes();
    let mut st: Vec<Frame> = vec![];
    let mut i = 0;
    let mut word = 0..0;
    let mut field = 0..0;
    while i < b.len() {
        match b[i] {
            b'"' | b'\'' => {
                let q = b[i];
                i += 1;
                let a = i;
                while i < b.len() && b[i] != q {
                    i += if b[i] == b'\\' { 2 } else { 1 };
                }
                if let Some(f) = st.last_mut() {
                    let n = &s[field.clone()];
                    if q == b'"' && (n == "name" || n == "value" || n == "method_name") && i <= b.len() {
                        f.name = Some((n.to_string(), s[a..i].to_string()));
                    }
                }
                i += 1;
            }
            b'{' => {
                st.push(Frame { kind: s[word.clone()].to_string(), expr: None, own: vec![], kids: vec![], name: None });
                i += 1;
            }
            b'}' => {
                i += 1;
                let f = st.pop()?;
                let (x, y) = match f.expr {
                    Some(e) => e,
                    None => continue,
                };
                for o in f.own.iter().filter(|o| o.1 < x || o.2 > y) {
                    // a heredoc is where its opener is; the line end that acts as `then` of an empty clause is outside of it
                    let apart = match o.0.as_str() {
                        "heredoc_end_l" | "heredoc_body_l" => f.kind.ends_with("Heredoc"),
                        "begin_l" => f.kind == "When" || f.kind == "InPattern",
                        _ => false,
                    };
                    if !apart {
                        return Some(format!("{} {}...{} does not contain its {} {}...{}", f.kind, x, y, o.0, o.1, o.2));
                    }
                }
                if !f.kind.ends_with("Heredoc") {
                    if let Some(o) = f.kids.iter().find(|o| o.1 < x || o.2 > y) {
                        return Some(format!("{} {}...{} does not contain its {} {}...{}", f.kind, x, y, o.0, o.1, o.2));
                    }
                }
                if let Some((n, v)) = &f.name {
                    let l = f.own.iter().find(|o| o.0 == "name_l" || o.0 == "selector_l").map(|o| (o.1, o.2)).unwrap_or((x, y));
                    let t = src.get(l.0..l.1).unwrap_or(b"");
                    let v = v.as_bytes();
                    let send = f.kind == "Send" || f.kind == "CSend";
                    let same = v == t
                        // escaped in the dump
                        || v.contains(&b'\\')
                        || f.kind == "NthRef" && t.strip_prefix(b"$") == Some(v)
                        // a.b = 1, -a, not a, a.()
                        || send && (v.strip_suffix(b"=") == Some(t) || v.strip_suffix(b"@") == Some(t) || v == b"!" && t == b"not" || v == b"call" && !f.own.iter().any(|o| o.0 == "selector_l"));
                    if !same {
                        return Some(format!("{} {}...{} does not contain its {} {:?} at {}...{}", f.kind, x, y, n, esc(v), l.0, l.1));
                    }
                }
                if let Some(p) = st.last_mut() {
                    p.kids.push((f.kind, x, y));
                }
            }
            b':' => {
                field = word.clone();
                i += 1;
            }
            c if c.is_ascii_alphabetic() || c == b'_' => {
                let a = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                    i += 1;
                }
                word = a..i;
            }
            c if c.is_ascii_digit() => {
                let a = i;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
                if b[i..].starts_with(b"...") {
                    let m = i;
                    i += 3;
                    while i < b.len() && b[i].is_ascii_digit() {
                        i += 1;
                    }
                    if let (Ok(x), Ok(y), Some(f)) = (s[a..m].parse(), s[m + 3..i].parse(), st.last_mut()) {
                        if &s[field.clone()] == "expression_l" {
                            f.expr = Some((x, y));
                        } else {
                            f.own.push((s[field.clone()].to_string(), x, y));
                        }
                    }
                }
            }
            _ => i += 1,
        }
    }
    None
}

/// The first token of an accepted source that left no trace in the AST: neither its own location nor that of the
/// literal it is part of.
/// Two tokens or comments that cover the same byte. (The text of a literal goes on after the bodies of heredocs
/// that started inside it, earlier on the same line.)
fn twice(r: &ParserResult, tl: &[&Token], comments: &[(usize, usize)]) -> Option<(String, String)> {
    let src = &r.input.bytes;
    let mut all: Vec<(usize, usize, i32)> = tl.iter().map(|t| (t.loc.begin, t.loc.end, t.token_type)).collect();
    all.extend(comments.iter().map(|c| (c.0, c.1, 0)));
    all.sort();
    let here: Vec<usize> = tl.iter().filter(|t| src.get(t.loc.begin..).map_or(false, |s| s.starts_with(b"<<")) && (t.token_type == Lexer::tSTRING_BEG || t.token_type == Lexer::tXSTRING_BEG)).map(|t| t.loc.begin).collect();
    let mut cur = (0, 0, 0);
    for t in all {
        if t.0 < cur.1 {
            let line = src[..cur.0].iter().rposition(|b| *b == b'\n').map_or(0, |p| p + 1);
            let goes_on = (cur.2 == Lexer::tSTRING_CONTENT || cur.2 == Lexer::tSPACE) && src[cur.0..t.0].contains(&b'\n') && here.iter().any(|h| (line..cur.0).contains(h));
            if !goes_on {
                let text = |t: (usize, usize, i32)| format!("{} {:?}", t.0, esc(&src[t.0..t.1.min(src.len())]));
                return Some((text(cur), text(t)));
            }
        }
        if t.1 > cur.1 {
            cur = t;
        }
    }
    None
}
fn unused<'a>(toks: &'a [Token], locs: &std::collections::HashSet<(usize, usize)>) -> Option<&'a Token> {
    // punctuation without a location of its own
    const SILENT: [i32; 13] = [
        Lexer::END_OF_INPUT, Lexer::tNL, Lexer::tSEMI, Lexer::tCOMMA, Lexer::tREGEXP_END, Lexer::tSTRING_CONTENT, Lexer::tSPACE,
        Lexer::tLABEL_END, Lexer::tSTRING_DVAR, Lexer::tLPAREN2, Lexer::tRPAREN, Lexer::tLPAREN, Lexer::tSTRING_BEG,
    ];
    // parentheses right after a name are those of a call or a parameter list
    let mut open: Vec<bool> = vec![];
    for (i, t) in toks.iter().enumerate() {
        let call = match t.token_type {
            Lexer::tLPAREN | Lexer::tLPAREN2 | Lexer::tLPAREN_ARG => {
                let own = i > 0
                    && t.token_type == Lexer::tLPAREN2
                    && toks[i - 1].loc.end == t.loc.begin
                    && [Lexer::tIDENTIFIER, Lexer::tFID, Lexer::tCONSTANT, Lexer::kSUPER, Lexer::kYIELD, Lexer::kNOT, Lexer::kDEFINED, Lexer::tDOT, Lexer::tANDDOT].contains(&toks[i - 1].token_type);
                open.push(own);
                own
            }
            Lexer::tRPAREN => open.pop().unwrap_or(false),
            _ => false,
        };
        if call && !locs.contains(&(t.loc.begin, t.loc.end)) {
            return Some(t);
        }
        if SILENT.contains(&t.token_type) {
            continue;
        }
        let (b, e) = (t.loc.begin, t.loc.end);
        let pb = if i > 0 { toks[i - 1].loc.begin } else { b };
        let ne = toks.get(i + 1).map(|n| n.loc.end).unwrap_or(e);
        if ![(b, e), (pb, e), (b, ne), (pb, ne), (b, e.wrapping_sub(1))].iter().any(|l| locs.contains(l)) {
            return Some(t);
        }
    }
    None
}

/// The first byte of an accepted source that belongs to no token, no comment and no white space.
fn unaccounted(r: &ParserResult) -> Option<usize> {
    let b = &r.input.bytes;
    let mut seen = vec![false; b.len()];
    let spans = r.tokens.iter().filter(|t| t.token_type != Lexer::END_OF_INPUT).map(|t| t.loc).chain(r.comments.iter().map(|c| c.location));
    for l in spans {
        if l.begin <= l.end && l.end <= b.len() {
            for x in &mut seen[l.begin..l.end] {
                *x = true;
            }
        }
    }
    let mut i = if b.starts_with(b"\xEF\xBB\xBF") { 3 } else { 0 };
    while i < b.len() {
        if seen[i] {
            i += 1;
            continue;
        }
        match b[i] {
            // end markers: nothing after them is code
            0 | 4 | 26 => return None,
            b' ' | b'\t' | b'\r' | b'\n' | 11 | 12 => i += 1,
            b';' if r.tokens.is_empty() => i += 1,
            b'\\' if b.get(i + 1) == Some(&b'\n') => i += 2,
            b'\\' if b[i + 1..].starts_with(b"\r\n") => i += 3,
            b'_' if (i == 0 || b[i - 1] == b'\n' || i == 3) && b[i..].starts_with(b"__END__") && matches!(b.get(i + 7), None | Some(b'\n') | Some(b'\r')) => return None,
            _ => return Some(i),
        }
    }
    None
}

fn payload_text(p: &(dyn std::any::Any + Send)) -> (String, bool) {
    if let Some(i) = p.downcast_ref::<Injected>() {
        (format!("injected: {}", i.0), true)
    } else if let Some(s) = p.downcast_ref::<&str>() {
        (s.to_string(), false)
    } else if let Some(s) = p.downcast_ref::<String>() {
        (s.clone(), false)
    } else {
        ("<other payload>".into(), false)
    }
}

pub enum Product {
    Result(ParserResult),
    Tokens(Vec<Token>),
    None,
}
pub struct Ran {
    pub product: Product,
    pub env: Option<StaticEnvironment>,
    pub out: Outcome,
}
unsafe impl Send for Ran {}

/// Runs the job's library calls. The caller is in a Quiet region; the library runs loud.
pub fn start_job(job: &Job, want: Want) -> Ran {
    let mut out = Outcome { text: if want.text { Some(vec![String::new(); NP]) } else { None }, ..Default::default() };
    let log = Rc::new(RefCell::new(DecLog::default()));
    let mut env_handle = None;
    rt::reset_steps(want.step_limit);
    let done = catch_unwind(AssertUnwindSafe(|| match job.api {
        Api::Lex => {
            let dec = decoder_for(job, None, log.clone(), want);
            let (src, name) = (job.src.clone(), job.name.clone());
            let toks = loud(move || {
                let mut l = Lexer::new(src, name, dec);
                l.tokenize_until_eof()
            });
            Product::Tokens(toks)
        }
        _ => {
            // the env handle has to exist before the decoder that uses it, and the parser owns both
            let slot: Rc<RefCell<Option<StaticEnvironment>>> = Rc::new(RefCell::new(None));
            let dec = if job.acts.is_empty() {
                None
            } else {
                let (job2, slot2, log2) = (job.clone(), slot.clone(), log.clone());
                Some(Decoder::new(Box::new(move |e: String, b: Vec<u8>| {
                    let q = Quiet::new();
                    let env = slot2.borrow().clone();
                    let k = log2.borrow().calls.len();
                    log2.borrow_mut().calls.push((e, b.clone()));
                    let act = &job2.acts[k.min(job2.acts.len() - 1)];
                    for _ in 0..act.stall {
                        rt::hot_point();
                    }
                    if let Some(env) = &env {
                        for l in &act.declare {
                            loud(|| env.declare(l));
                        }
                    }
                    if let Some(j) = &act.nested {
                        let o = run_job(j, want);
                        log2.borrow_mut().nested.push((k, o));
                    }
                    drop(env);
                    let r = apply(&act.out, b);
                    drop(q);
                    r
                })))
            };
            let opts = ParserOptions { buffer_name: job.name.clone(), decoder: dec, record_tokens: job.tokens };
            let src = job.src.clone();
            let p = loud(move || Parser::new(src, opts));
            let env = p.static_env.clone();
            for l in &job.locals {
                loud(|| env.declare(l));
            }
            *slot.borrow_mut() = Some(env.clone());
            env_handle = Some(env);
            match job.api {
                Api::Abandon => {
                    loud(move || drop(p));
                    Product::None
                }
                Api::Validate => Product::Result(loud(move || p.do_parse_with_state_validation())),
                _ => Product::Result(loud(move || p.do_parse())),
            }
        }
    }));
    out.steps = rt::steps();
    out.moved = rt::bytes_moved();
    rt::reset_steps(u64::MAX);
    let product = match done {
        Ok(p) => p,
        Err(payload) => {
            let (t, inj) = payload_text(&*payload);
            out.injected_panic = inj;
            out.panic = Some(t);
            // payload may be dropped here: it is the caller's
            drop(payload);
            Product::None
        }
    };
    if let Ok(mut l) = log.try_borrow_mut() {
        out.calls = std::mem::take(&mut l.calls);
        out.nested = std::mem::take(&mut l.nested);
    }
    Ran { product, env: env_handle, out }
}

/// Everything the caller can see of what `start_job` produced; consumes (drops) it.
pub fn finish_job(job: &Job, ran: Ran, want: Want) -> Outcome {
    let Ran { product, env, mut out } = ran;
    let p = out.panic.clone().unwrap_or_default();
    out.set(0, p);
    if !want.look {
        if let Product::Result(r) = &product {
            out.info.has_ast = r.ast.is_some();
            out.info.tokens = r.tokens.len();
        }
        loud(move || {
            drop(product);
            drop(env);
        });
        return out;
    }
    match &product {
        Product::Result(r) => {
            let ast = format!("{:?}", r.ast);
            if want.flaws {
                let given = if job.acts.is_empty() { Some(&job.src[..]) } else { None };
                let mut f = vec![];
                check_result(r, given, &mut f, Some(&ast), job.tokens);
                out.flaws = f;
            }
            out.set(1, ast);
            out.set(2, tokens_text(&r.tokens));
            out.set(3, format!("{:?}", r.diagnostics));
            out.set(4, format!("{:?}", r.comments));
            out.set(5, format!("{:?}", r.magic_comments));
            out.parts[6] = hash_bytes(&r.input.bytes);
            if let Some(t) = &mut out.text {
                t[6] = esc(&r.input.bytes);
            }
            out.set(7, format!("{:?}", r.input.lines));
            out.set(8, r.input.name.clone());
            let rend: Vec<Option<String>> = r
                .diagnostics
                .iter()
                .map(|d| if d.loc.begin <= d.loc.end { loud(|| d.render(&r.input)) } else { None })
                .collect();
            out.info.first_diag_renders = rend.first().map(|x| x.is_some()).unwrap_or(false);
            out.set(9, format!("{:?}", rend));
            out.info.has_ast = r.ast.is_some();
            out.info.errors = r.diagnostics.iter().filter(|d| d.is_error()).count();
            out.info.warnings = r.diagnostics.len() - out.info.errors;
            out.info.tokens = r.tokens.len();
            out.info.comments = r.comments.len();
            out.info.magic = r.magic_comments.len();
            for d in &r.diagnostics {
                if let lib_ruby_parser::DiagnosticMessage::EncodingError { error } = &d.message {
                    out.info.encoding_errors.push(error.clone());
                }
            }
            if want.keep_bytes {
                out.info.bytes = r.input.bytes.clone();
            }
        }
        Product::Tokens(t) => {
            out.set(2, tokens_text(t));
            out.info.tokens = t.len();
            if want.flaws {
                let mut f = vec![];
                for t in t {
                    bounds(t.loc.begin, t.loc.end, if job.acts.is_empty() { job.src.len() + 1 } else { usize::MAX }, "lexer token", &mut f);
                }
                out.flaws = f;
            }
        }
        Product::None => {}
    }
    let calls: Vec<(&String, String)> = out.calls.iter().map(|(e, b)| (e, esc(b))).collect();
    let c = format!("{:?}", calls);
    out.set(10, c);
    if let Some(e) = &env {
        let mut s = String::new();
        for l in job.locals.iter().map(|l| l.as_str()).chain(job.acts.iter().flat_map(|a| a.declare.iter().map(|s| s.as_str()))).chain(["a", "b", "x", "_1", "foo"]) {
            let d = catch_unwind(AssertUnwindSafe(|| e.is_declared(l)));
            if d.is_err() {
                out.info.env_broken = true;
            }
            s.push_str(&format!("{}={:?} ", l, d.ok()));
        }
        out.set(11, s);
    }
    loud(move || {
        drop(product);
        drop(env);
    });
    out
}

pub fn run_job(job: &Job, want: Want) -> Outcome {
    let ran = start_job(job, want);
    finish_job(job, ran, want)
}

// ---------------------------------------------------------------- text form
pub fn esc(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len());
    for c in b {
        match c {
            b'\\' => s.push_str("\\\\"),
            0x21..=0x7e => s.push(*c as char),
            b' ' => s.push(' '),
            b'\n' => s.push_str("\\n"),
            _ => s.push_str(&format!("\\x{:02x}", c)),
        }
    }
    s
}
pub fn unesc(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 1 < b.len() {
            match b[i + 1] {
                b'n' => {
                    v.push(b'\n');
                    i += 2;
                }
                b'x' if i + 3 < b.len() => {
                    v.push(u8::from_str_radix(std::str::from_utf8(&b[i + 2..i + 4]).unwrap_or("00"), 16).unwrap_or(0));
                    i += 4;
                }
                c => {
                    v.push(c);
                    i += 2;
                }
            }
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}
fn es(s: &str) -> String {
    esc(s.as_bytes())
}
fn us(s: &str) -> String {
    String::from_utf8_lossy(&unesc(s)).into_owned()
}

impl Out {
    fn encode(&self) -> String {
        match self {
            Out::Ident => "ident".into(),
            Out::Latin1 => "latin1".into(),
            Out::Fold => "fold".into(),
            Out::Strip => "strip".into(),
            Out::Trunc(n) => format!("trunc:{}", n),
            Out::Const(b) => format!("const:{}", esc(b)),
            Out::Append(b) => format!("append:{}", esc(b)),
            Out::ErrDecoding(m) => format!("errdec:{}", es(m)),
            Out::ErrUnsupported(m) => format!("errunsup:{}", es(m)),
            Out::Panic(m) => format!("panic:{}", es(m)),
        }
    }
    fn decode(s: &str) -> Option<Out> {
        let (k, v) = s.split_once(':').unwrap_or((s, ""));
        Some(match k {
            "ident" => Out::Ident,
            "latin1" => Out::Latin1,
            "fold" => Out::Fold,
            "strip" => Out::Strip,
            "trunc" => Out::Trunc(v.parse().ok()?),
            "const" => Out::Const(unesc(v)),
            "append" => Out::Append(unesc(v)),
            "errdec" => Out::ErrDecoding(us(v)),
            "errunsup" => Out::ErrUnsupported(us(v)),
            "panic" => Out::Panic(us(v)),
            _ => return None,
        })
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Out::Ident => "decoder:identity",
            Out::Latin1 => "decoder:longer output",
            Out::Fold => "decoder:same-length output",
            Out::Strip => "decoder:shorter output",
            Out::Trunc(_) => "decoder:torn output",
            Out::Const(_) => "decoder:replaced output",
            Out::Append(_) => "decoder:extended output",
            Out::ErrDecoding(_) => "decoder:decoding error",
            Out::ErrUnsupported(_) => "decoder:unsupported error",
            Out::Panic(_) => "decoder:panic",
        }
    }
}
/// One line; fields separated by TAB (never produced by esc).
impl Job {
    pub fn encode(&self) -> String {
        let mut s = format!(
            "api={:?}\tname={}\ttokens={}\tlocals={}\tsrc={}",
            self.api,
            es(&self.name),
            self.tokens as u8,
            self.locals.join(","),
            esc(&self.src)
        );
        for a in &self.acts {
            s.push_str(&format!("\tact={}", es(&a.out.encode())));
            if !a.declare.is_empty() {
                s.push_str(&format!("\tdeclare={}", a.declare.join(",")));
            }
            if a.stall > 0 {
                s.push_str(&format!("\tstall={}", a.stall));
            }
            if let Some(n) = &a.nested {
                s.push_str(&format!("\tnested={}", es(&n.encode())));
            }
        }
        s
    }
    pub fn decode(s: &str) -> Option<Job> {
        let mut j = Job::plain(vec![]);
        let list = |v: &str| -> Vec<String> { v.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect() };
        for f in s.split('\t') {
            let (k, v) = f.split_once('=')?;
            match k {
                "api" => {
                    j.api = match v {
                        "Parse" => Api::Parse,
                        "Validate" => Api::Validate,
                        "Lex" => Api::Lex,
                        "Abandon" => Api::Abandon,
                        _ => return None,
                    }
                }
                "name" => j.name = us(v),
                "tokens" => j.tokens = v == "1",
                "locals" => j.locals = list(v),
                "src" => j.src = unesc(v),
                "act" => j.acts.push(Act::new(Out::decode(&us(v))?)),
                "declare" => j.acts.last_mut()?.declare = list(v),
                "stall" => j.acts.last_mut()?.stall = v.parse().ok()?,
                "nested" => j.acts.last_mut()?.nested = Some(Box::new(Job::decode(&us(v))?)),
                _ => return None,
            }
        }
        Some(j)
    }
}
