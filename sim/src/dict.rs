//! Constants as hints. The literals in the sources under test are collected when a check starts; those that the
//! committed list (corpus/literals.txt) does not know are words and sizes the code may treat specially, so they
//! are mixed into names, encodings, messages, sources and sizes. They guide inputs, never verdicts. On the tree
//! the list was made from there are none, and nothing changes.
use crate::job::{esc, unesc};
use crate::prng::Rng;
use std::collections::BTreeMap;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
    pub words: Vec<Vec<u8>>,
    pub sizes: Vec<usize>,
}

fn files(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(d) = std::fs::read_dir(dir) else { return };
    for e in d.flatten() {
        let p = e.path();
        let n = e.file_name().to_string_lossy().into_owned();
        if p.is_dir() {
            if n != "tests" {
                files(&p, out);
            }
        } else if (n.ends_with(".rs") && n != "parse.rs" && n != "list.rs") || n.ends_with(".y") || p.ends_with("bin/parse.rs") || p.ends_with("helpers/parse.rs") {
            out.push(p);
        }
    }
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] != b'\\' || i + 1 >= s.len() {
            v.push(s[i]);
            i += 1;
            continue;
        }
        i += 1;
        match s[i] {
            b'n' => v.push(b'\n'),
            b'r' => v.push(b'\r'),
            b't' => v.push(b'\t'),
            b'0' => v.push(0),
            b'x' => {
                let h = s.get(i + 1..i + 3).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u8::from_str_radix(h, 16).ok());
                if let Some(h) = h {
                    v.push(h);
                    i += 2;
                }
            }
            b'u' => {
                if let Some(e) = s[i..].iter().position(|c| *c == b'}') {
                    let h = s.get(i + 2..i + e).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u32::from_str_radix(h, 16).ok()).and_then(char::from_u32);
                    if let Some(h) = h {
                        v.extend_from_slice(h.to_string().as_bytes());
                    }
                    i += e;
                }
            }
            b'\n' => {
                while i + 1 < s.len() && s[i + 1].is_ascii_whitespace() {
                    i += 1;
                }
            }
            c => v.push(c),
        }
        i += 1;
    }
    v
}

fn scan(s: &[u8], out: &mut BTreeMap<(bool, Vec<u8>), u32>) {
    let id = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c >= 0x80;
    let mut i = 0;
    while i < s.len() {
        let rest = &s[i..];
        if rest.starts_with(b"//") {
            i += rest.iter().position(|c| *c == b'\n').unwrap_or(rest.len());
        } else if rest.starts_with(b"/*") {
            i += rest.windows(2).position(|c| c == b"*/").map_or(rest.len(), |e| e + 2);
        } else if rest[0] == b'"' {
            let mut e = 1;
            while e < rest.len() && rest[e] != b'"' {
                e += if rest[e] == b'\\' { 2 } else { 1 };
            }
            let w = unescape(&rest[1..e.min(rest.len())]);
            *out.entry((true, w)).or_default() += 1;
            i += e + 1;
        } else if rest[0] == b'r' && (i == 0 || !id(s[i - 1]) || s[i - 1] == b'b') && rest.len() > 2 && (rest[1] == b'"' || rest.starts_with(b"r#\"")) {
            let h = if rest[1] == b'"' { 0 } else { 1 };
            let close: &[u8] = if h == 0 { b"\"" } else { b"\"#" };
            let from = 2 + h;
            let e = rest[from..].windows(close.len()).position(|c| c == close).map_or(rest.len(), |e| e + from);
            *out.entry((true, rest[from.min(e)..e].to_vec())).or_default() += 1;
            i += e + close.len();
        } else if rest[0] == b'\'' && rest.len() > 2 {
            let e = if rest[1] == b'\\' {
                (3..rest.len().min(12)).find(|e| rest[*e] == b'\'')
            } else {
                (2..rest.len().min(6)).find(|e| rest[*e] == b'\'' && (*e == 2 || rest[1] >= 0x80))
            };
            match e {
                Some(e) => {
                    *out.entry((true, unescape(&rest[1..e]))).or_default() += 1;
                    i += e + 1;
                }
                None => i += 1,
            }
        } else if rest[0].is_ascii_digit() && (i == 0 || !id(s[i - 1])) {
            let mut e = 0;
            while e < rest.len() && id(rest[e]) {
                e += 1;
            }
            let t: String = rest[..e].iter().filter(|c| **c != b'_').map(|c| *c as char).collect();
            let (base, t) = match t.get(..2) {
                Some("0x") => (16, &t[2..]),
                Some("0b") => (2, &t[2..]),
                Some("0o") => (8, &t[2..]),
                _ => (10, &t[..]),
            };
            let n = t.find(|c: char| !c.is_digit(base)).unwrap_or(t.len());
            if let Ok(v) = u64::from_str_radix(&t[..n], base) {
                *out.entry((false, v.to_string().into_bytes())).or_default() += 1;
                // 1 << 12, 64 * 1024
                let before: Vec<u8> = s[i.saturating_sub(12)..i].iter().filter(|c| **c != b' ' && **c != b'_').cloned().collect();
                let num = |op: &[u8]| {
                    let b = before.strip_suffix(op)?;
                    let from = b.iter().rposition(|c| !c.is_ascii_digit()).map_or(0, |p| p + 1);
                    std::str::from_utf8(&b[from..]).ok()?.parse::<u64>().ok()
                };
                let more = if let Some(a) = num(b"<<") { a.checked_shl(v as u32).filter(|_| v < 40) } else { num(b"*").and_then(|a| a.checked_mul(v)) };
                if let Some(m) = more {
                    *out.entry((false, m.to_string().into_bytes())).or_default() += 1;
                }
            }
            i += e;
        } else if id(rest[0]) {
            // a width: what does not fit into it
            let e = rest.iter().position(|c| !id(*c)).unwrap_or(rest.len());
            let wide = match &rest[..e] {
                b"i8" => 128u64,
                b"u8" => 256,
                b"i16" => 32768,
                b"u16" => 65536,
                _ => 0,
            };
            if wide > 0 {
                *out.entry((false, wide.to_string().into_bytes())).or_default() += 1;
            }
            while i < s.len() && id(s[i]) && !(s[i] == b'r' && i + 1 < s.len() && s[i + 1] == b'"') {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
}

fn collect() -> BTreeMap<(bool, Vec<u8>), u32> {
    let mut fs = vec![];
    files(std::path::Path::new("/repo/src"), &mut fs);
    fs.sort();
    let mut m = BTreeMap::new();
    for f in fs {
        scan(&std::fs::read(f).unwrap_or_default(), &mut m);
    }
    m
}

pub fn print() {
    for ((w, t), n) in collect() {
        println!("{}{} {}", if w { 'w' } else { 'n' }, n, esc(&t));
    }
}

pub fn fresh() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut known: BTreeMap<(bool, Vec<u8>), u32> = BTreeMap::new();
        for l in include_str!("../corpus/literals.txt").lines() {
            if let Some((h, t)) = l.split_once(' ') {
                known.insert((h.starts_with('w'), unesc(t)), h[1..].parse().unwrap_or(0));
            }
        }
        let mut d = Dict::default();
        for (k, n) in collect() {
            if known.get(&k).is_some_and(|b| *b >= n) {
                continue;
            }
            if k.0 {
                if (1..60).contains(&k.1.len()) {
                    d.words.push(k.1);
                }
            } else if let Ok(v) = String::from_utf8_lossy(&k.1).parse::<usize>() {
                if (3..=70_000).contains(&v) {
                    d.sizes.push(v);
                }
                if (32..256).contains(&v) {
                    d.words.push(vec![v as u8]);
                }
            }
        }
        if std::env::var("LRPSIM_DICT").is_ok() {
            eprintln!("{:?}", d);
        }
        d
    })
}

/// How long a source may get: with fresh sizes around, long enough for them.
pub fn cap(n: usize) -> usize {
    n.max(fresh().sizes.iter().max().map_or(0, |s| (2 * s + 2000).min(72_000)))
}

pub fn quiet() -> bool {
    fresh().words.is_empty() && fresh().sizes.is_empty()
}

/// A fresh word, often with something around it.
pub fn word(r: &mut Rng, of: u64) -> Option<Vec<u8>> {
    let d = fresh();
    if d.words.is_empty() || !r.chance(1, of) {
        return None;
    }
    let mut w = r.pick(&d.words).clone();
    match r.us(8) {
        0 => w.splice(0..0, b"a".to_vec()).for_each(drop),
        1 => w.extend_from_slice(b"b"),
        2 => w.splice(0..0, b"lib/x".to_vec()).for_each(drop),
        3 => w.make_ascii_uppercase(),
        4 => w = [w.clone(), r.pick(&d.words).clone()].concat(),
        _ => {}
    }
    Some(w)
}
pub fn text(r: &mut Rng, of: u64) -> Option<String> {
    word(r, of).map(|w| String::from_utf8_lossy(&w).into_owned())
}
pub fn name(r: &mut Rng, of: u64) -> Option<String> {
    let t = text(r, of)?;
    let t: String = t.chars().filter(|c| c.is_alphanumeric() || *c == '_').collect();
    let t = t.trim_start_matches(|c: char| !(c.is_ascii_lowercase() || c == '_')).to_string();
    (!t.is_empty()).then_some(t)
}
/// A size at, just below, just above or at a multiple of a fresh number.
pub fn size(r: &mut Rng, of: u64, cap: usize) -> Option<usize> {
    let d = fresh();
    let s: Vec<usize> = d.sizes.iter().copied().filter(|s| *s <= cap).collect();
    if s.is_empty() || !r.chance(1, of) {
        return None;
    }
    let n = *r.pick(&s);
    Some(match r.us(6) {
        0 => n - 1,
        1 | 2 => n,
        3 | 4 => n + 1,
        _ => (2 * n + 1).min(cap),
    })
}

fn rep(s: &str, n: usize) -> Vec<u8> {
    s.repeat(n).into_bytes()
}
/// A piece of source shaped by the fresh words and numbers.
pub fn section(r: &mut Rng) -> Option<Vec<u8>> {
    let d = fresh();
    if d.words.is_empty() && d.sizes.is_empty() {
        return None;
    }
    if d.sizes.is_empty() || (!d.words.is_empty() && r.chance(1, 2)) {
        let w = word(r, 1)?;
        let (a, b) = *r.pick(&[
            ("", ""), ("", " = 1\n"), ("x = '", "'\n"), ("x = \"", "#{a}\"\n"), (":", "\n"), ("# ", "\n"), ("a # ", "\nb\n"), ("<<", "\n"), ("f ", "\n"), ("def ", "; end\n"), ("class ", "; end\n"), ("$", "\n"),
            ("@", " = 1\n"), ("f { |", "| }\n"), ("{ ", ": 1 }\n"), ("%w[", "]\n"), ("/", "/\n"), ("=begin\n", "\n=end\n"), ("a.", "\n"), ("a = 1\n", "\n"), ("# -*- ", ": 1 -*-\n"), ("# ", ": true\n"), ("if ", "; end\n"),
            ("__END__\n", "\n"), ("`", "`\n"), ("?", "\n"), ("a ", " b\n"), ("(", ")\n"), ("\"\\", "\"\n"), ("", "\n"), (" ", "\n"), ("def m(", ") end\n"), ("case a; in ", "; end\n"), ("f(", ": 1)\n"), ("-> (", ") {}\n"),
        ]);
        let mut v = a.as_bytes().to_vec();
        v.extend_from_slice(&w);
        v.extend_from_slice(b.as_bytes());
        if a == "<<" {
            v.extend_from_slice(b"t\n");
            v.extend_from_slice(&w);
            v.push(b'\n');
        }
        return Some(v);
    }
    let n = size(r, 1, 70_000)?;
    let deep = n.min(400);
    Some(match r.us(26) {
        0 => rep("a", n),
        1 => rep("a\n", n.min(6000)),
        2 => rep("b;", n.min(6000)),
        3 => [b"f(".to_vec(), rep("a, ", n.min(4000)), b"1)\n".to_vec()].concat(),
        4 => [rep("(", deep), b"1".to_vec(), rep(")", deep)].concat(),
        5 => [b"'".to_vec(), rep("s", n), b"'\n".to_vec()].concat(),
        6 => rep("# c\n", n.min(4000)),
        7 => [b"\"".to_vec(), rep("#{a}", n.min(2000)), b"\"\n".to_vec()].concat(),
        8 => rep("<<A\nx\nA\n", n.min(1500)),
        9 => format!("{}\n", n).into_bytes(),
        10 => [rep(" ", n), b"a\n".to_vec()].concat(),
        11 => rep("def m; end\n", n.min(1500)),
        12 => [rep("f { ", deep), rep(" }", deep)].concat(),
        13 => (0..n.min(1500)).map(|i| format!("v{} = {}\n", i, i)).collect::<String>().into_bytes(),
        14 => [b"{".to_vec(), (0..n.min(1000)).map(|i| format!("k{}: 1, ", i)).collect::<String>().into_bytes(), b"}\n".to_vec()].concat(),
        15 => rep("f *a\n", n.min(1500)),
        16 => rep("1 = 2\n", n.min(1000)),
        17 => [b"# ".to_vec(), rep("c", n), b"\n".to_vec()].concat(),
        18 => [b"<<A\n".to_vec(), rep("text\n", n.min(4000)), b"A\n".to_vec()].concat(),
        19 => rep("\n", n),
        20 => [b"%w[".to_vec(), rep("w ", n.min(4000)), b"]\n".to_vec()].concat(),
        21 => [rep("1 + ", n.min(1500)), b"1\n".to_vec()].concat(),
        22 => [b"a".to_vec(), rep(".b", n.min(1500)), b"\n".to_vec()].concat(),
        23 => [rep("if a; ", deep), rep("end; ", deep)].concat(),
        24 => [b"x = \"".to_vec(), rep("\u{e9}", n.min(4000)), b"\"\n".to_vec()].concat(),
        _ => [b"def m(".to_vec(), (0..n.min(800)).map(|i| format!("p{}, ", i)).collect::<String>().into_bytes(), b"z) end\n".to_vec()].concat(),
    })
}
