//! Workload: Ruby sources, jobs and the storage simulator that damages sources.
use crate::dict;
use crate::job::{Act, Api, Job, Out};
use crate::prng::Rng;

pub struct Corpus {
    pub items: Vec<Vec<u8>>,
    /// what may be repeated: before, the repeated part (\x01: a running number), after
    pub lists: Vec<[Vec<u8>; 3]>,
    /// sources that reached new code in this worker
    pub pool: std::cell::RefCell<Vec<Vec<u8>>>,
}

fn unline(l: &str) -> Vec<u8> {
    let mut v = vec![];
    let mut it = l.chars();
    while let Some(c) = it.next() {
        match c {
            '␤' => v.push(b'\n'),
            '␍' => v.push(b'\r'),
            '№' => v.push(1),
            '¤' => {
                let a = it.next().and_then(|c| c.to_digit(16)).unwrap_or(0);
                let b = it.next().and_then(|c| c.to_digit(16)).unwrap_or(0);
                v.push((a * 16 + b) as u8);
            }
            c => {
                let mut b = [0; 4];
                v.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
            }
        }
    }
    v
}

impl Corpus {
    pub fn load() -> Corpus {
        let mut items: Vec<Vec<u8>> = vec![];
        let all = include_str!("../corpus/all.txt");
        let mut cur: Option<Vec<u8>> = None;
        for l in all.split_inclusive('\n') {
            if l.starts_with("=== ") {
                if let Some(c) = cur.take() {
                    items.push(c);
                }
                cur = Some(vec![]);
            } else if let Some(c) = &mut cur {
                c.extend_from_slice(l.as_bytes());
            }
        }
        if let Some(c) = cur {
            items.push(c);
        }
        for l in include_str!("../corpus/lines.txt").lines() {
            if !l.is_empty() {
                items.push(unline(l));
            }
        }
        let mut lists = vec![];
        for l in include_str!("../corpus/lists.txt").lines() {
            if let [a, u, b] = l.split('¦').map(unline).collect::<Vec<_>>().as_slice() {
                lists.push([a.clone(), u.clone(), b.clone()]);
            }
        }
        Corpus { items, lists, pool: Default::default() }
    }
    pub fn pick(&self, r: &mut Rng) -> &Vec<u8> {
        // the long sections are few: give them extra weight
        if r.chance(1, 6) {
            &self.items[r.us(40.min(self.items.len()))]
        } else {
            &self.items[r.us(self.items.len())]
        }
    }
}

pub const WRAPS: [(&str, &str); 34] = [
    ("def m\n", "\nend"),
    ("def m(a, *b, c: 1, **d, &e)\n", "\nend\n"),
    ("foo { ", " }"),
    ("foo do |x; y|\n", "\nend"),
    ("\"a#{", "}b\""),
    ("<<~H\n  a\n    #{", "}\n  b\nH\n"),
    ("<<-H\n", "\nH\n"),
    ("class A < B\n", "\nend"),
    ("module M\n", "\nend"),
    ("begin\n", "\nrescue E => e\n 1\nelse\n 2\nensure\n 3\nend"),
    ("->(x) { ", " }"),
    ("case v\nwhen 1 then ", "\nelse\nend"),
    ("case [0, 1]\nin [a, b] unless a == b\n", "\nend"),
    ("x = (", ")"),
    ("foo(", ")"),
    ("[", "]"),
    ("{ a: ", " }"),
    ("if a\n", "\nelsif b\nelse\nend"),
    ("while a do ", " end"),
    ("%w[", "]"),
    ("%W[a#{", "} b]"),
    ("`", "`"),
    ("/", "/mx"),
    (":\"", "\""),
    ("'", "'"),
    ("%q(", ")"),
    ("# ", "\n1"),
    ("=begin\n", "\n=end\n1\n"),
    ("__END__\n", ""),
    ("p(<<A, <<~B)\nx\nA\n  ", "\nB\n"),
    ("def m() = ", ""),
    ("a.b = ", " rescue 1"),
    ("defined?(", ")"),
    ("private def x ", " end"),
];

pub fn wrap(r: &mut Rng, s: &[u8]) -> Vec<u8> {
    let (a, b) = r.pick(&WRAPS);
    let mut v = a.as_bytes().to_vec();
    v.extend_from_slice(s);
    v.extend_from_slice(b.as_bytes());
    v
}

/// Same length, other names or digits: what a stale cache entry would be mistaken for.
pub fn variant(r: &mut Rng, s: &[u8]) -> Vec<u8> {
    let mut v = s.to_vec();
    let id = |b: u8| b.is_ascii_alphanumeric() || b == b'_' || b >= 0x80;
    let fresh = if dict::quiet() { None } else { dict::name(r, 3) };
    let fresh = fresh.or_else(|| {
        // another name of the same source, or one that is spelled differently
        let words: Vec<&[u8]> = s.split(|b| !id(*b)).filter(|w| w.first().map_or(false, |b| !b.is_ascii_digit())).collect();
        match r.us(8) {
            0 if !words.is_empty() => String::from_utf8(r.pick(&words).to_vec()).ok(),
            1 => Some(r.pick(&["\u{e9}", "\u{438}\u{43c}\u{44f}", "a\u{301}", "\u{540d}\u{524d}", "\u{1f600}", "_", "_a", "_1", "nil", "self", "A", "a?", "a!", "a=", "@a", "$a", "@@a", "if", "end"]).to_string()),
            _ => None,
        }
    });
    if let Some(n) = fresh {
        // one of the names becomes a fresh word
        let at: Vec<usize> = (0..v.len()).filter(|i| (v[*i].is_ascii_alphabetic() || v[*i] == b'_' || v[*i] >= 0x80) && (*i == 0 || !id(v[*i - 1]))).collect();
        if !at.is_empty() {
            let b = *r.pick(&at);
            let old: Vec<u8> = v[b..].iter().copied().take_while(|c| id(*c)).collect();
            let mut out = vec![];
            let mut i = 0;
            while i < v.len() {
                if v[i..].starts_with(&old) && (i == 0 || !id(v[i - 1])) && !v.get(i + old.len()).is_some_and(|c| id(*c)) {
                    out.extend_from_slice(n.as_bytes());
                    i += old.len();
                } else {
                    out.push(v[i]);
                    i += 1;
                }
            }
            return out;
        }
    }
    let pos: Vec<usize> = (0..v.len()).filter(|i| v[*i].is_ascii_alphanumeric()).collect();
    if pos.is_empty() {
        return v;
    }
    for _ in 0..1 + r.us(4) {
        let p = *r.pick(&pos);
        v[p] = match v[p] {
            b'0'..=b'9' => b'0' + r.us(10) as u8,
            b'a'..=b'z' => b'a' + r.us(26) as u8,
            _ => b'A' + r.us(26) as u8,
        };
    }
    v
}

/// A few tokens, operators and stray bytes in a row.
pub fn soup(c: &Corpus, r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..1 + r.us(5) {
        match r.us(6) {
            0 => v.push(*r.pick(b"\n\r\x0b\x0c\t \0\x04\x1a\x7f\x80\xe9\xff;,.:=<>#\\\"'`")),
            1 => v.push(b' '),
            2 => v.extend_from_slice(ruby_word(c, r).as_slice()),
            _ => v.extend_from_slice(r.pick(&TOKENS).as_bytes()),
        }
    }
    v
}
fn ruby_word(c: &Corpus, r: &mut Rng) -> Vec<u8> {
    let s = c.pick(r);
    let a = r.us(s.len() + 1);
    s[a..(a + 1 + r.us(8)).min(s.len())].to_vec()
}

const BEFORE: [&str; 56] = [
    "", "a ", "a = ", "f(", "(", "[", "{", "{ a: ", "f ", "f a, ", "a.", "a&.", "a::", ":", "::", "x ? ", "x ? y : ", "alias ", "alias a ", "undef ", "undef a, ", "def ", "def a.", "def a(", "def a(b = ", "if ", "while ", "case ", "case a\nin ", "case a\nin [", "case a\nwhen ", "class ", "class << ", "class A < ", "module ", "f { |", "f { |a, ", "f { ",
    "->(", "-> ", "\"#{", "\"a", "%", "?", "@", "$", "return ", "not ", "defined? ", "a, ", "*", "&", "1", "0", "a.b = ", "begin; a; rescue ",
];
/// One or two tokens in some lexer state, at the very end of the source or not.
pub fn edge(c: &Corpus, r: &mut Rng) -> Vec<u8> {
    let mut v = r.pick(&BEFORE).as_bytes().to_vec();
    match r.us(8) {
        0 => v.extend_from_slice(&soup(c, r)),
        1 => {
            v.extend_from_slice(r.pick(&TOKENS).as_bytes());
            v.extend_from_slice(r.pick(&TOKENS).as_bytes());
        }
        _ => v.extend_from_slice(r.pick(&TOKENS).as_bytes()),
    }
    v.extend_from_slice(r.pick(&["", "", "", "\n", " ", "a", "\r\n", "\n1\n"]).as_bytes());
    v
}

/// One section of a program: from the corpus, from the grammar, from the pool, or a stress shape.
pub fn section(c: &Corpus, r: &mut Rng) -> Vec<u8> {
    if !dict::quiet() && r.chance(1, 4) {
        if let Some(s) = dict::section(r) {
            return s;
        }
    }
    let pool = c.pool.borrow();
    match r.us(100) {
        0..=24 => crate::ruby::source(r),
        25..=27 => crate::ruby::sized(r, 1200),
        28 => edge(c, r),
        29..=31 => crate::ruby::nested(r),
        32..=49 if !pool.is_empty() => {
            let k = if r.chance(1, 2) { pool.len() - 1 - r.us(pool.len().min(48)) } else { r.us(pool.len()) };
            pool[k].clone()
        }
        _ => c.pick(r).clone(),
    }
}

pub fn program(c: &Corpus, r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 25) {
        return edge(c, r);
    }
    let n = match r.us(10) {
        0..=5 => 1,
        6..=7 => 2,
        8 => 3,
        _ => 4 + r.us(6),
    };
    let mut v: Vec<u8> = vec![];
    for i in 0..n {
        if i > 0 {
            v.extend_from_slice(*r.pick(&[&b"\n"[..], b"\n", b"; ", b"\n\n", b" "]));
        }
        let mut s = section(c, r);
        if r.chance(1, 5) {
            s = wrap(r, &s);
        }
        if r.chance(1, 4) {
            s = variant(r, &s);
        }
        v.extend_from_slice(&s);
    }
    v.truncate(dict::cap(6000));
    v
}

// ---------------------------------------------------------------- encoding directives
pub const ENCODINGS: [&str; 16] = [
    "us-ascii", "US-ASCII", "iso-8859-1", "koi8-r", "Windows-1251", "sjis", "EUC-JP", "x", "utf-16", "latin1", "Shift_JIS", "CP949",
    "utf8-mac", "utf-8-unix", "utf_8", "ascii",
];
pub const NATIVE: [&str; 7] = ["utf-8", "UTF-8", "Utf-8", "ascii-8bit", "ASCII-8BIT", "binary", "BINARY"];

/// A source that starts with an encoding directive, plus the encoding names whose decoding it asks for, in order.
#[derive(Clone, Debug)]
pub struct Headed {
    pub src: Vec<u8>,
    /// decoder calls the documented semantics ask for if every call returns its input
    pub names: Vec<String>,
    /// length of the prefix up to the end of the directive's line
    pub prefix: usize,
}

pub fn enc_name(r: &mut Rng) -> String {
    if !dict::quiet() {
        if let Some(n) = dict::text(r, 3) {
            let n: String = n.chars().filter(|c| c.is_ascii_alphanumeric() || "-_.".contains(*c)).collect();
            if n.len() > 1 && n.chars().next().unwrap().is_ascii_alphanumeric() {
                return if r.chance(1, 3) { format!("x{}", n) } else { n };
            }
        }
    }
    if r.chance(1, 8) {
        let n = if r.chance(1, 6) { 1 + r.us(400) } else { 1 + r.us(12) };
        (0..n).map(|_| *r.pick(b"abcxyzABZ0189-_.") as char).collect::<String>().trim_matches(|c| c == '.' ).to_string() + "q"
    } else {
        r.pick(&ENCODINGS).to_string()
    }
}
pub fn is_native(n: &str) -> bool {
    matches!(n.to_uppercase().as_str(), "UTF-8" | "ASCII-8BIT" | "BINARY")
}

pub fn headed(r: &mut Rng, body: &[u8]) -> Headed {
    let mut src: Vec<u8> = vec![];
    let mut names = vec![];
    if r.chance(1, 12) {
        src.extend_from_slice(b"\xef\xbb\xbf");
    } else if r.chance(1, 5) {
        src.extend_from_slice(*r.pick(&[&b"#!/usr/bin/ruby\n"[..], b"#!ruby\n", b"#!/usr/bin/env ruby -w\r\n"]));
    } else if r.chance(1, 8) {
        src.extend_from_slice(*r.pick(&[&b" "[..], b"\t", b"  "]));
    }
    let name = if r.chance(1, 6) { r.pick(&NATIVE).to_string() } else { enc_name(r) };
    let key = *r.pick(&["coding", "encoding", "coding"]);
    match r.us(6) {
        0 | 1 => {
            // several pairs
            let sp = *r.pick(&["", " "]);
            src.extend_from_slice(b"# -*- ");
            if r.chance(1, 3) {
                src.extend_from_slice(b"mode: ruby; ");
            }
            let q = if r.chance(1, 8) { "\"" } else { "" };
            src.extend_from_slice(format!("{}:{}{}{}{}", key, sp, q, name, q).as_bytes());
            names.push(name);
            if r.chance(1, 3) {
                let n2 = enc_name(r);
                src.extend_from_slice(format!("; coding: {}", n2).as_bytes());
                names.push(n2);
            }
            if r.chance(1, 3) {
                src.extend_from_slice(b"; frozen_string_literal: true");
            }
            src.extend_from_slice(b" -*-");
        }
        _ => {
            let q = if r.chance(1, 8) { "\"" } else { "" };
            src.extend_from_slice(format!("{}{}{}{}{}{}", r.pick(&["#", "# ", "#  "]), key, r.pick(&[": ", ":", ":  "]), q, name, q).as_bytes());
            names.push(name);
        }
    }
    src.extend_from_slice(*r.pick(&[&b"\n"[..], b"\n", b"\n", b"\r\n", b""]));
    let prefix = src.len();
    if src.ends_with(b"\n") {
        src.extend_from_slice(body);
    }
    names.retain(|n| !is_native(n));
    Headed { src, names, prefix }
}

pub fn high_body(c: &Corpus, r: &mut Rng) -> Vec<u8> {
    let mut b = match r.us(4) {
        0 => b"x = \"h\xe9llo\" # caf\xe9\n\xe9t\xe9 = 1\n".to_vec(),
        1 => b"puts '\xd0\xd1'\n".to_vec(),
        _ => program(c, r),
    };
    let n = r.us(4);
    for _ in 0..n {
        if b.is_empty() {
            break;
        }
        let p = r.us(b.len());
        if b[p].is_ascii_alphabetic() {
            b[p] = 0x80 + r.us(0x80) as u8;
        }
    }
    b
}

pub fn ok_out(r: &mut Rng) -> Out {
    r.pick(&[Out::Ident, Out::Ident, Out::Latin1, Out::Fold, Out::Strip]).clone()
}
pub fn err_out(r: &mut Rng) -> Out {
    let fresh = if dict::quiet() { None } else { dict::text(r, 3) };
    let msg = if let Some(m) = fresh {
        m
    } else if r.chance(1, 8) {
        // any text of any length
        let n = *r.pick(&[8, 40, 130, 300, 1100, 5000]);
        (0..r.us(n)).map(|_| *r.pick(&['a', 'b', ' ', '\n', '\t', '\0', '%', '{', '}', '\u{e9}', '\u{1f600}', '"', ':', '.'])).collect()
    } else {
        r.pick(&["boom", "", "bad byte 0xff", "unknown \u{201c}enc\u{201d}", "a\nb"]).to_string()
    };
    if r.chance(1, 2) {
        Out::ErrDecoding(msg)
    } else {
        Out::ErrUnsupported(msg)
    }
}

pub const LOCALS: [&str; 8] = ["a", "b", "foo", "x", "_1", "name", "zz", "bar"];

pub fn local(r: &mut Rng) -> String {
    if !dict::quiet() {
        if let Some(n) = dict::name(r, 3) {
            return n;
        }
    }
    r.pick(&LOCALS).to_string()
}

pub const BUFFER_NAMES: [&str; 30] = [
    "a.rb", "", "x\ny", "/very/long/path/to/a/file/with spaces.rb", "lib/x y.rb", "\u{e9}.rb", "-e", "-", "(irb)", "main", "(pry)", "(string)", "<main>", "Rakefile", "Gemfile", "config.ru",
    "foo.gemspec", "foo_spec.rb", "test_foo.rb", "/dev/stdin", "../x.rb", "./x.rb", "C:\\x.rb", "x.erb", "x.RB", ".irbrc", "a:1", "%s%d{}", "\0", "spec/\u{1F600}_test.rb",
];
pub fn buffer_name(r: &mut Rng) -> String {
    if !dict::quiet() {
        if let Some(n) = dict::text(r, 2) {
            return n;
        }
        if let Some(n) = dict::size(r, 4, 70_000) {
            return "n".repeat(n);
        }
    }
    match r.us(12) {
        0 => "n".repeat(*r.pick(&[31, 64, 127, 128, 255, 256, 300, 1024, 4097])),
        1 => (0..r.us(12)).map(|_| (32 + r.us(95)) as u8 as char).collect(),
        _ => r.pick(&BUFFER_NAMES).to_string(),
    }
}

/// Feature switches of one run (swarm).
#[derive(Clone, Debug)]
pub struct Swarm {
    pub decoders: bool,
    pub errors: bool,
    pub panics: bool,
    pub nested: bool,
    pub lex: bool,
    pub abandon: bool,
    pub damage: bool,
}
impl Swarm {
    pub fn arb(r: &mut Rng) -> Swarm {
        Swarm {
            decoders: r.chance(2, 3),
            errors: r.chance(1, 2),
            panics: r.chance(1, 2),
            nested: r.chance(1, 3),
            lex: r.chance(1, 3),
            abandon: r.chance(1, 3),
            damage: r.chance(1, 2),
        }
    }
}

/// A job around `src` (or with an encoding directive in front of it).
pub fn job(c: &Corpus, r: &mut Rng, sw: &Swarm, src: Vec<u8>, depth: u32) -> Job {
    let mut j = Job::plain(src);
    if r.chance(1, 5) {
        j.name = buffer_name(r);
    }
    if r.chance(1, 6) {
        j.tokens = false;
    }
    if r.chance(1, 6) {
        for _ in 0..1 + r.us(3) {
            j.locals.push(local(r));
        }
    }
    if sw.damage && r.chance(1, 4) {
        j.src = damage(c, r, &j.src).0;
    }
    if sw.lex && r.chance(1, 5) {
        j.api = Api::Lex;
    } else if sw.abandon && r.chance(1, 8) {
        j.api = Api::Abandon;
    }
    if sw.decoders && r.chance(2, 5) {
        let h = headed(r, &j.src);
        j.src = h.src;
        for _ in 0..1 + r.us(2) {
            let out = match r.us(8) {
                0 | 1 if sw.errors => err_out(r),
                2 if sw.panics => Out::Panic("decoder gave up".into()),
                3 => Out::Trunc(r.us(j.src.len() + 1)),
                4 => Out::Const(program(c, r)),
                _ => ok_out(r),
            };
            let mut a = Act::new(out);
            a.stall = if r.chance(1, 2) { r.us(3) as u32 } else { 0 };
            if sw.nested && depth == 0 && r.chance(1, 2) {
                let s = program(c, r);
                let s = if r.chance(1, 2) { variant(r, &j.src) } else { s };
                a.nested = Some(Box::new(job(c, r, sw, s, depth + 1)));
            }
            if r.chance(1, 6) {
                a.declare.push(local(r));
            }
            j.acts.push(a);
        }
    }
    j
}

/// A family of related jobs: same feature mix, variants of the same sources.
pub fn family(c: &Corpus, r: &mut Rng, sw: &Swarm, n: usize) -> Vec<Job> {
    let base = program(c, r);
    let base_job = job(c, r, sw, base.clone(), 0);
    let mut v = vec![];
    for _ in 0..n {
        let j = match r.us(6) {
            0 => base_job.clone(),
            1 | 2 => {
                let mut j = base_job.clone();
                j.src = variant(r, &j.src);
                j
            }
            3 => {
                let s = variant(r, &base);
                job(c, r, sw, s, 0)
            }
            4 => {
                let mut s = base.clone();
                s.extend_from_slice(b"\n");
                s.extend_from_slice(c.pick(r));
                job(c, r, sw, s, 0)
            }
            _ => {
                let s = program(c, r);
                job(c, r, sw, s, 0)
            }
        };
        v.push(j);
    }
    v
}

// ---------------------------------------------------------------- storage
pub const DAMAGE: [&str; 11] = [
    "storage:torn write (prefix)",
    "storage:lost blocks (old content)",
    "storage:lost blocks (zeros)",
    "storage:bit flips",
    "storage:reordered blocks",
    "storage:duplicated block",
    "storage:dropped range",
    "storage:two files spliced",
    "storage:byte replaced",
    "storage:bytes inserted",
    "storage:short head (suffix)",
];

const TOKENS: [&str; 120] = [
    "\n", "\r\n", "\r", "\0", "\x04", "\x1a", "\\", "\"", "'", "`", "#", "#{", "}", "{", "(", ")", "[", "]", "<<A", "<<~A", "<<-\"B\"", "<<", "\nA\n",
    "%", "%w(", "%W[", "%i(", "%I<", "%q", "%r{", "%x(", "%s(", "/", "?", "?\\", ":", "::", ":\"", "->", "=>", "=", "==", "=~", "!", "!~", "&", "&&",
    "&.", "|", "||", "*", "**", "@", "@@", "$", "$1", "$-", "$0", "@1", "\\u", "\\u{", "\\u{110000}", "\\x", "\\M-", "\\C-", "\\c", "\\M-\\C-", "\\777",
    "0x", "0b", "0o", "0d", "1e", "1.", "1_", "08", "1r", "1i", "..", "...", ".", ",", ";", "~", "^", "+", "-", "def ", "end", "do ", "begin ", "rescue ",
    "ensure ", "case ", "in ", "when ", "if ", "unless ", "while ", "class ", "module ", "BEGIN{", "END{", "__END__\n", "=begin\n", "=end\n", "yield ",
    "super", "alias ", "undef ", "not ", "defined? ", "# coding: x\n", "# -*- coding: x -*-\n", "_1", "it", "\u{e9}", "\u{fffd}", "_9", "..."
];

/// What a reader finds after the writer of `src` crashed or the medium went bad. Returns bytes and fault kind.
pub fn damage(c: &Corpus, r: &mut Rng, src: &[u8]) -> (Vec<u8>, usize) {
    let mut kind = r.us(DAMAGE.len());
    if !dict::quiet() && r.chance(1, 5) {
        kind = 9;
    }
    let n = src.len();
    let bs = *r.pick(&[1usize, 2, 4, 8, 16, 64, 512]);
    let mut v = src.to_vec();
    match kind {
        0 => v.truncate(r.us(n + 1)),
        1 => {
            let old = c.pick(r);
            for b in 0..n / bs + 1 {
                if r.chance(1, 3) {
                    for i in b * bs..((b + 1) * bs).min(n) {
                        if i < old.len() {
                            v[i] = old[i];
                        }
                    }
                }
            }
        }
        2 => {
            for b in 0..n / bs + 1 {
                if r.chance(1, 4) {
                    for i in b * bs..((b + 1) * bs).min(n) {
                        v[i] = 0;
                    }
                }
            }
        }
        3 => {
            for _ in 0..1 + r.us(3) {
                if n > 0 {
                    let p = r.us(n);
                    v[p] ^= 1 << r.us(8);
                }
            }
        }
        4 => {
            let mut bl: Vec<&[u8]> = src.chunks(bs.max(2)).collect();
            if bl.len() > 1 {
                let a = r.us(bl.len());
                let b = r.us(bl.len());
                bl.swap(a, b);
            }
            v = bl.concat();
        }
        5 => {
            if n > 0 {
                let a = r.us(n);
                let e = (a + 1 + r.us(16)).min(n);
                let piece = src[a..e].to_vec();
                let at = r.us(n + 1);
                v.splice(at..at, piece);
            }
        }
        6 => {
            if n > 0 {
                let a = r.us(n);
                let e = (a + 1 + r.us(12)).min(n);
                v.drain(a..e);
            }
        }
        7 => {
            let o = c.pick(r);
            v.truncate(r.us(n + 1));
            v.extend_from_slice(&o[r.us(o.len() + 1)..]);
        }
        8 => {
            if n > 0 {
                let p = r.us(n);
                v[p] = if r.chance(1, 2) { r.next() as u8 } else { *r.pick(b"\n\r\0\\\"'#{}()[]<>|&=:;,.%@$?!~^*+-/_ ") };
            }
        }
        9 => {
            for _ in 0..1 + r.us(2) {
                let at = r.us(v.len() + 1);
                let fresh = if dict::quiet() { None } else { dict::word(r, 2) };
                let t = fresh.unwrap_or_else(|| r.pick(&TOKENS).as_bytes().to_vec());
                v.splice(at..at, t);
            }
        }
        _ => {
            let a = r.us(n + 1);
            v.drain(..a);
        }
    }
    (v, kind)
}
