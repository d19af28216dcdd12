//! C18 and C19: what storage and transfer do to whole files. C18: writes that are applied twice or appended to
//! another file (the reader has to be in its initial state again after every complete statement). C19: text-mode
//! transfers that rewrite line ends.
use crate::dict;
use crate::exec::*;
use crate::gen::*;
use crate::job::*;
use crate::prng::{mix, Rng};
use crate::rt;
use crate::scn::*;
use lib_ruby_parser::{ErrorLevel, Lexer, Node};

pub struct View {
    toks: Vec<(i32, Vec<u8>, usize, usize)>,
    comments: Vec<(usize, usize)>,
    magic: Vec<(usize, usize, usize, usize)>,
    /// top-level statements, or those of the body asked for
    stmts: Vec<String>,
    errors: Vec<String>,
    warnings: Vec<(usize, usize, String)>,
    inspect: String,
    /// which of the asked names are declared when the parse is done
    declared: Vec<String>,
}

fn statements(n: Option<&Node>) -> Vec<&Node> {
    match n {
        None => vec![],
        Some(Node::Begin(b)) if b.begin_l.is_none() && b.end_l.is_none() => b.statements.iter().collect(),
        Some(n) => vec![n],
    }
}
/// The statements inside the one construct a context of CONTEXTS puts around them.
fn inside(n: &Node) -> Option<Vec<&Node>> {
    Some(match n {
        Node::Def(n) => statements(n.body.as_deref()),
        Node::Class(n) => statements(n.body.as_deref()),
        Node::Module(n) => statements(n.body.as_deref()),
        Node::SClass(n) => statements(n.body.as_deref()),
        Node::Block(n) => statements(n.body.as_deref()),
        Node::While(n) => statements(n.body.as_deref()),
        Node::For(n) => statements(n.body.as_deref()),
        Node::Preexe(n) => statements(n.body.as_deref()),
        Node::Postexe(n) => statements(n.body.as_deref()),
        Node::If(n) => statements(n.if_true.as_deref()),
        Node::Begin(n) => n.statements.iter().collect(),
        Node::KwBegin(n) => n.statements.iter().collect(),
        Node::Dstr(n) => return inside(n.parts.first()?),
        Node::Case(n) => match n.when_bodies.first()? {
            Node::When(n) => statements(n.body.as_deref()),
            _ => return None,
        },
        Node::Send(n) => return inside(n.args.last()?),
        _ => return None,
    })
}

fn view(j: &Job, at: usize, depth: usize, names: &[String], rep: &mut Report, hist: &mut u64) -> Option<View> {
    mark(0, at);
    let want = Want { look: false, ..Want::hashes() };
    let ran = crate::cover::watch(&j.src, || start_job(j, want));
    let mut v = match &ran.product {
        Product::Result(r) => {
            let mut stmts = statements(r.ast.as_deref());
            for _ in 0..depth {
                stmts = match stmts[..] {
                    [n] => inside(n).unwrap_or_default(),
                    _ => vec![],
                };
            }
            let stmts = stmts.into_iter().map(|n| format!("{:?}", n)).collect();
            let mut warnings: Vec<_> = r.diagnostics.iter().filter(|d| d.level == ErrorLevel::Warning).map(|d| (d.loc.begin, d.loc.end, d.render_message())).collect();
            warnings.sort();
            Some(View {
                toks: r.tokens.iter().map(|t| (t.token_type, t.token_value.raw.clone(), t.loc.begin, t.loc.end)).collect(),
                comments: r.comments.iter().map(|c| (c.location.begin, c.location.end)).collect(),
                magic: r.magic_comments.iter().map(|m| (m.key_l.begin, m.key_l.end, m.value_l.begin, m.value_l.end)).collect(),
                stmts,
                errors: r.diagnostics.iter().filter(|d| d.level == ErrorLevel::Error).map(|d| format!("{} at {}..{}", d.render_message(), d.loc.begin, d.loc.end)).collect(),
                warnings,
                inspect: r.ast.as_ref().map(|n| n.inspect(0)).unwrap_or_default(),
                declared: vec![],
            })
        }
        _ => None,
    };
    if let (Some(v), Some(env)) = (&mut v, &ran.env) {
        v.declared = names.iter().filter(|n| env.is_declared(n.as_str())).cloned().collect();
        for s in v.stmts.iter().chain(&v.errors) {
            *hist = mix(*hist ^ crate::prng::hash_bytes(s.as_bytes()));
        }
    }
    finish_job(j, ran, want);
    rep.stat("jobs", 1);
    v
}

/// Everything that could be the name of a local variable.
fn words(src: &[u8], out: &mut Vec<String>) {
    for w in src.split(|b| !(b.is_ascii_alphanumeric() || *b == b'_' || *b >= 0x80)) {
        if w.is_empty() || w[0].is_ascii_digit() || w.len() > 60 {
            continue;
        }
        if let Ok(w) = std::str::from_utf8(w) {
            if !out.iter().any(|x| x == w) {
                out.push(w.to_string());
            }
        }
    }
}

fn has(b: &[u8], w: &[u8]) -> bool {
    b.windows(w.len()).any(|x| x.eq_ignore_ascii_case(w))
}

// ---------------------------------------------------------------- C18
/// How these are read depends on state an earlier construct could have left behind.
const PROBES: [&str; 84] = [
    "a = 1...", "foo 1...", "1..", "foo do end", "while a do b end", "until a do end", "x y do |z| end", "x(y) do end", "-> do end", "-> { }", "->(a) { a }", "->(a; b) do end", "p ->(x) do end", "{}", "{a: 1}", "a { }", "a b { }", "a ? b : c", "a ?b :c", "p ?a",
    "<<A\nA", "<<-A\n  A", "<<~A\n  a\nA", "<<'A'\nA", "<<~'A'\n\n  a\n    b\nA", "<<A + <<B\na\nA\nb\nB", "_1", "p { _1 }", "-> { _1 + _2 }", "p { |a| _1 }", "return", "return 1", "yield", "foo(&)", "foo(...)", "foo(*)", "def f(a = a) end", "def f(...) g(...) end", "def f(&) g(&) end",
    "a /b/", "a / b", "f -1", "f [1]", "f [1].a", "f *a", "f &a", "f ::A", "f (1).a", "f(1)", "%w[a b]", "%i[a]", "f %w[a]", "class A; end", "class << self; end", "module A; end", "def f; class A; end; end", "def f; A = 1; end", "A = 1", "BEGIN { 1 }", "END { 1 }", "break", "next", "redo", "retry", "a = b = 1 rescue 2", "foo a: 1 do end",
    "case a\nin b: then c\nend", "case a\nin {b:}\nend", "1 => a", "1 in a", "1 in a | b", "alias $a $1", "undef a", "def a.b=(c) end", "def []=(a, b) end", "def [](a) end", "a.[]=(1, 2)", "a.b c do end", "if a then b end", "a if b", "for a in b do end", "defined? a", "not a", "\"#{a}\"",
];
fn probes(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    for i in 0..1 + r.us(3) {
        if i > 0 {
            v.push(b'\n');
        }
        let p = *r.pick(&PROBES);
        match r.us(8) {
            0 => v.extend_from_slice(format!("\"#{{{}\n}}\"", p).as_bytes()),
            1 => v.extend_from_slice(format!("({}\n)", p).as_bytes()),
            2 => v.extend_from_slice(format!("def m(a)\n{}\nend", p).as_bytes()),
            3 => v.extend_from_slice(format!("m do\n{}\nend", p).as_bytes()),
            _ => v.extend_from_slice(p.as_bytes()),
        }
    }
    v
}
pub fn generate_c18(c: &Corpus, r: &mut Rng, s: &mut Scenario) {
    for _ in 0..2 + r.us(2) {
        let mut src = if r.chance(1, 3) { probes(r) } else { program(c, r) };
        if r.chance(1, 5) {
            src = wrap(r, &src);
        }
        src.truncate(dict::cap(2500));
        s.threads[0].push(Job::plain(src));
    }
    s.set("salt", r.next() >> 8);
}

fn ends(toks: &[(i32, Vec<u8>, usize, usize)], upto: usize) -> Vec<(i32, Vec<u8>, usize, usize)> {
    let mut v: Vec<_> = toks.iter().take_while(|t| t.0 != Lexer::END_OF_INPUT).filter(|t| t.2 < upto).cloned().collect();
    // whether the last line end is a token depends on what follows
    while v.last().map_or(false, |t| t.0 == Lexer::tNL) {
        v.pop();
    }
    v
}

fn diff<T: PartialEq + std::fmt::Debug>(x: &[T], y: &[T]) -> String {
    let i = x.iter().zip(y).take_while(|(a, b)| a == b).count();
    format!("number {} of {}/{}: {:?} became {:?}", i, x.len(), y.len(), x.get(i), y.get(i))
}

pub fn judge_c18(s: &Scenario, rep: &mut Report, hist: &mut u64) {
    let _q = rt::Quiet::new();
    let mut r = Rng::derive(s.param("salt"), 0xC18, 0);
    let jobs = &s.threads[0];
    for k in 0..jobs.len() {
        let mut a = jobs[k].src.clone();
        if !a.ends_with(b"\n") {
            a.push(b'\n');
        }
        if a.ends_with(b"\\\n") || a.ends_with(b"\\\r\n") || has(&a, b"__END__") || has(&a, b"coding") || a.starts_with(b"\xef\xbb\xbf") || a.iter().any(|b| matches!(b, 0 | 4 | 0x1a)) {
            continue;
        }
        let mut names = vec![];
        words(&a, &mut names);
        for j in jobs {
            words(&j.src, &mut names);
        }
        let top = match view(&Job { src: a.clone(), ..jobs[k].clone() }, k, 0, &names, rep, hist) {
            Some(v) if v.errors.is_empty() => v,
            _ => continue,
        };
        // the same file once more, and the next one
        let mut others = vec![k];
        if jobs.len() > 1 {
            others.push((k + 1 + r.us(jobs.len() - 1)) % jobs.len());
        }
        for o in others {
            let b = &jobs[o].src;
            if has(b, b"coding") {
                continue;
            }
            if !pair(jobs, k, o, &a, &top, &[], rep, hist) {
                return;
            }
            // once more, inside some other construct
            let mut ctx = vec![r.us(CONTEXTS.len())];
            if r.chance(1, 3) {
                ctx.push(r.us(CONTEXTS.len()));
            }
            if has(b, b"__END__") || b.iter().any(|b| matches!(b, 0 | 4 | 0x1a)) || [&a, b].iter().any(|s| s.windows(2).any(|w| w[0] == b'_' && (b'1'..=b'9').contains(&w[1]))) {
                continue;
            }
            if !top.declared.is_empty() && ctx.iter().any(|c| CONTEXTS[*c].2) {
                continue;
            }
            if !pair(jobs, k, o, &a, &top, &ctx, rep, hist) {
                return;
            }
        }
    }
}

/// What may be around the two parts; true: they cannot see the locals around it.
const CONTEXTS: [(&str, &str, bool); 22] = [
    ("def m\n", "\nend\n", true),
    ("class K\n", "\nend\n", true),
    ("class << z\n", "\nend\n", true),
    ("module K\n", "\nend\n", true),
    ("def m\n", "\nend\n", true),
    ("class K\n", "\nend\n", true),
    ("z do\n", "\nend\n", false),
    ("z {\n", "\n}\n", false),
    ("z y do\n", "\nend\n", false),
    ("-> do\n", "\nend\n", false),
    ("-> {\n", "\n}\n", false),
    ("begin\n", "\nend\n", false),
    ("if z\n", "\nend\n", false),
    ("while z\n", "\nend\n", false),
    ("for i in z\n", "\nend\n", false),
    ("(\n", "\n)\n", false),
    ("\"#{\n", "\n}\"\n", false),
    ("case z\nwhen 1\n", "\nend\n", false),
    ("p(z do\n", "\nend)\n", false),
    ("p z, -> do\n", "\nend\n", false),
    ("END {\n", "\n}\n", false),
    ("BEGIN {\n", "\n}\n", false),
];

/// Compares parts k and o with their sequence; false: a violation was reported.
#[allow(clippy::too_many_arguments)]
fn pair(jobs: &[Job], k: usize, o: usize, a: &[u8], top: &View, ctx: &[usize], rep: &mut Report, hist: &mut u64) -> bool {
    let b = &jobs[o].src;
    let kind = if o == k { "storage:file written twice" } else { "storage:another file appended" };
    let (mut pre, mut post) = (vec![], vec![]);
    for c in ctx {
        pre.extend_from_slice(CONTEXTS[*c].0.as_bytes());
        post.splice(0..0, CONTEXTS[*c].1.bytes());
    }
    // (an endless range, or a label without value, goes on in the next line)
    let sep = b";\n";
    let blank = vec![b'\n'; a.len() + sep.len()];
    let end = pre.len() + a.len();
    let off = end + sep.len();
    let wrapped;
    let va = if ctx.is_empty() {
        top
    } else {
        // the second part has to be complete by itself
        match view(&Job { src: [&blank, &b[..]].concat(), locals: top.declared.clone(), ..jobs[o].clone() }, o, 0, &[], rep, hist) {
            Some(v) if v.errors.is_empty() => {}
            _ => return true,
        }
        match view(&Job { src: [&pre, a, &post].concat(), ..jobs[k].clone() }, k, ctx.len(), &[], rep, hist) {
            Some(v) if v.errors.is_empty() => wrapped = v,
            _ => return true,
        }
        &wrapped
    };
    let vb = match view(&Job { src: [&pre, &blank, &b[..], &post].concat(), locals: top.declared.clone(), ..jobs[o].clone() }, o, ctx.len(), &[], rep, hist) {
        Some(v) => v,
        None => return true,
    };
    let ab = [&pre, a, sep, &b[..], &post].concat();
    let vc = match view(&Job { src: ab.clone(), ..jobs[k].clone() }, k, ctx.len(), &[], rep, hist) {
        Some(v) => v,
        None => return true,
    };
    rep.stat(&format!("fault {}", kind), 1);
    if !ctx.is_empty() {
        rep.stat("pairs inside another construct", 1);
    }
    let mut fail = |class: &str, text: String| {
        rep.fail(class, format!("jobs {}+{}: {} ({}): {}", k, o, text, kind, esc(&ab)), Some((0, k)));
        false
    };
    if vb.errors.is_empty() != vc.errors.is_empty() {
        return fail("parts and whole disagree on acceptance", format!("the second part alone has errors {:?}, the whole has {:?}", vb.errors, vc.errors));
    }
    // what was complete before the second part started stays as it was, even if that part is rejected
    let (x, y) = (ends(&va.toks, end), ends(&vc.toks, end));
    if x != y {
        return fail("a following part changes tokens", diff(&x, &y));
    }
    if !vb.errors.is_empty() {
        // (how the parser goes on after an error depends on what it has on its stack)
        if vb.errors[0] != vc.errors[0] {
            return fail("a preceding part changes the first error", diff(&vb.errors[..1], &vc.errors[..1]));
        }
        rep.stat("rejected second parts", 1);
        return true;
    }
    let want: Vec<String> = va.stmts.iter().chain(&vb.stmts).cloned().collect();
    if want != vc.stmts {
        return fail("the whole is not the sequence of its parts", diff(&want, &vc.stmts));
    }
    let tb: Vec<_> = vb.toks.iter().filter(|t| t.2 >= off).collect();
    let tc: Vec<_> = vc.toks.iter().filter(|t| t.2 >= off).collect();
    if tb != tc {
        return fail("a preceding part changes tokens", diff(&tb, &tc));
    }
    let cs: Vec<_> = va.comments.iter().chain(&vb.comments).cloned().collect();
    let ms: Vec<_> = va.magic.iter().chain(&vb.magic).cloned().collect();
    if cs != vc.comments || ms != vc.magic {
        return fail("comments of the whole are not those of its parts", format!("{}; magic {}", diff(&cs, &vc.comments), diff(&ms, &vc.magic)));
    }
    let mut ws: Vec<_> = va.warnings.iter().filter(|w| w.0 >= pre.len() && w.0 < end).chain(&vb.warnings).cloned().collect();
    ws.sort();
    if ws != vc.warnings {
        return fail("warnings of the whole are not those of its parts", diff(&ws, &vc.warnings));
    }
    rep.stat("accepted pairs compared", 1);
    true
}

// ---------------------------------------------------------------- C19
pub fn generate_c19(c: &Corpus, r: &mut Rng, s: &mut Scenario) {
    for _ in 0..1 + r.us(3) {
        let mut src = program(c, r);
        if r.chance(1, 6) {
            src = wrap(r, &src);
        }
        src.truncate(dict::cap(4000));
        s.threads[0].push(Job::plain(src));
    }
    s.set("salt", r.next() >> 8);
}

pub fn judge_c19(s: &Scenario, rep: &mut Report, hist: &mut u64) {
    let _q = rt::Quiet::new();
    let mut r = Rng::derive(s.param("salt"), 0xC19, 0);
    for (k, j) in s.threads[0].iter().enumerate() {
        // a heredoc without a name: Ruby itself does not find the end of an empty one after CR LF
        if j.src.contains(&b'\r') || ["\"\"", "''", "``"].iter().any(|q| ["<<", "<<-", "<<~"].iter().any(|h| has(&j.src, format!("{}{}", h, q).as_bytes()))) {
            continue;
        }
        let mut a = j.src.clone();
        if !a.ends_with(b"\n") {
            a.push(b'\n');
        }
        let va = match view(&Job { src: a.clone(), ..j.clone() }, k, 0, &[], rep, hist) {
            Some(v) => v,
            None => continue,
        };
        let lines: Vec<&[u8]> = a.split_inclusive(|b| *b == b'\n').collect();
        for n in 0..2 {
            let mut v = vec![];
            let mut map = vec![];
            for l in &lines {
                for b in *l {
                    if *b == b'\n' && (n == 0 || r.chance(1, 2)) {
                        v.push(b'\r');
                    }
                    map.push(v.len());
                    v.push(*b);
                }
            }
            map.push(v.len());
            let vb = match view(&Job { src: v.clone(), ..j.clone() }, k, 0, &[], rep, hist) {
                Some(v) => v,
                None => continue,
            };
            rep.stat(if n == 0 { "fault storage:all line ends rewritten" } else { "fault storage:some line ends rewritten" }, 1);
            if va.errors.is_empty() != vb.errors.is_empty() {
                rep.fail("line ends decide on acceptance", format!("job {}: errors {:?} became {:?}: {}", k, va.errors, vb.errors, esc(&v)), Some((0, k)));
                return;
            }
            if !va.errors.is_empty() {
                continue;
            }
            rep.stat("accepted sources compared", 1);
            if va.inspect != vb.inspect {
                let (x, y): (Vec<_>, Vec<_>) = (va.inspect.lines().collect(), vb.inspect.lines().collect());
                rep.fail("line ends change the tree", format!("job {}: {}: {}", k, diff(&x, &y), esc(&v)), Some((0, k)));
                return;
            }
            // tokens that are line ends hold what was in the file
            let plain = |b: &[u8]| if b.ends_with(b"\r\n") { [&b[..b.len() - 2], b"\n"].concat() } else { b.to_vec() };
            let kinds = |v: &View| {
                v.toks
                    .iter()
                    .map(|t| match t.0 {
                        Lexer::tSPACE => (t.0, vec![]),
                        Lexer::tSTRING_CONTENT => (t.0, t.1.clone()),
                        _ => (t.0, plain(&t.1)),
                    })
                    .collect::<Vec<_>>()
            };
            if kinds(&va) != kinds(&vb) {
                rep.fail("line ends change tokens", format!("job {}: {}: {}", k, diff(&kinds(&va), &kinds(&vb)), esc(&v)), Some((0, k)));
                return;
            }
            // a position at a line end may be before, inside or after CR LF (where text starts and ends is looser still)
            let same = |x: usize, y: usize| map.get(x).map_or(false, |m| *m == y || (*m == y + 1 && (v.get(y) == Some(&b'\r') || (y > 0 && v[y - 1] == b'\r'))));
            if let Some((x, y)) = va.toks.iter().zip(&vb.toks).find(|(x, y)| x.0 != Lexer::tNL && x.0 != Lexer::tSTRING_CONTENT && (!same(x.2, y.2) || !same(x.3, y.3))) {
                rep.fail("line ends move tokens", format!("job {}: {:?} became {:?}: {}", k, x, y, esc(&v)), Some((0, k)));
                return;
            }
            let texts = |v: &View| v.warnings.iter().map(|w| w.2.clone()).collect::<Vec<_>>();
            if texts(&va) != texts(&vb) {
                rep.fail("line ends change warnings", format!("job {}: {}: {}", k, diff(&texts(&va), &texts(&vb)), esc(&v)), Some((0, k)));
                return;
            }
            if va.comments.len() != vb.comments.len() || va.magic.len() != vb.magic.len() {
                rep.fail("line ends change comments", format!("job {}: {:?} {:?} became {:?} {:?}: {}", k, va.comments, va.magic, vb.comments, vb.magic, esc(&v)), Some((0, k)));
                return;
            }
        }
    }
}
