//! C11: a shared static_env handle is an observable object. Histories of operations on it (from outside, from
//! inside a running decoder, by the parser itself) are checked against a model: a stack of sets.
use crate::exec::outer_mark;
use crate::gen::Corpus;
use crate::job::Injected;
use crate::prng::{hash_bytes, mix, Rng};
use crate::rt::{self, loud, Quiet};
use crate::scn::*;
use lib_ruby_parser::nodes::{Lvar, Send};
use lib_ruby_parser::source::{Decoder, DecoderResult, InputError};
use lib_ruby_parser::traverse::visitor::{visit_send, Visitor};
use lib_ruby_parser::{Parser, ParserOptions, StaticEnvironment};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

const VARS: [&str; 10] = ["a", "b", "cc", "foo", "x", "y", "zed", "_w", "val", "it0"];

#[derive(Clone, Default, Debug)]
struct Env {
    vars: BTreeSet<String>,
    stack: Vec<BTreeSet<String>>,
}
impl Env {
    fn push_static(&mut self) {
        let v = std::mem::take(&mut self.vars);
        self.stack.push(v);
    }
    fn push_dynamic(&mut self) {
        self.stack.push(self.vars.clone());
    }
    fn pop(&mut self) -> bool {
        match self.stack.pop() {
            Some(v) => {
                self.vars = v;
                true
            }
            None => false,
        }
    }
}

// ---------------------------------------------------------------- mini programs
/// Longer statements, as templates over two different names. In order of reading:
/// `①②` a name that is declared here, `❶❷` a name that is used here (what it resolves to is judged), `○◎` a name
/// that neither declares nor resolves, `●` a use that must be a local, `⟦` a block scope opens, `⟪` a method scope
/// opens, `⦉` a class-like scope opens, `⟧` the scope closes, `№` a number of its own, `∎` a nested program.
/// A leading `!` marks what is not allowed inside a method.
const TEMPLATES: &[&str] = &[
    // assignments
    "① += 1", "① &&= ❶", "① = ❶", "① = ② = ❶", "①, ② = ❶, ❷", "*①, ② = ❷", "①, *② = ❶", "(①, ②), x№ = ❷", "①, (x№, (②, *)) = ❶, ❷", "①, = ❶", "① = *❶", "① = ❷, ❶",
    "① = begin\n∎② = 1\nend", "① = if ❶ then ② = 1 else ❷ end", "② = (❶ rescue ❷)", "❶ rescue ① = 1", "① = 1 rescue ❶", "not(① = ❶)", "!(① = 1)", "① = 1 and ❶", "(❶) || (① = 2) || ❶", "❶ if ① = 1",
    "① = 1 if ❶", "① = 1 while ❶", "❶ until ① = ❶", "begin; ① = 1; end while ❶", "(① = 1; ❶)", "❶; ① = 1; ❶", "defined?(① = 1)", "@○, $○, ① = ❶, ❷", "x№[① = 1] = ❶", "x№(① = 1).y = ❶", "!::K№, ① = 1, ❶",
    "x№.○ += (① = 1)", "① = ->{⟦ ② = ❶ ⟧}; ❷", "① ||= (② ||= ❶)", "q№(① = 1) if ❶", "① = yield0 ❶, ② = 3", "[① = 1, ❶, ② = 2]", "{k: (① = 1), ○: ❶}", "{❶ => (① = ❷)}", "(① = 1)..❶", "(❶) ? (① = 1) : ❶", "-(① = ❷)",
    // things that declare nothing
    "self.○ = ❶", "@○ = ❶", "@@○ = 1", "$○ = ❶", "x№.○ = ❶", "x№.○, x№[0] = ❶, 2", "x№&.○ = 1", "x№.○ ||= ❶", "x№[:○] = ❶", "q№ ○: 1, ◎: ❶", "q№(:○, ❶)", "○()", "○(❷)", "x№.○; ❶", "x№::○; ❶", "q№(&:○)",
    "%w[○ ◎]; ❶", "%i[○]; ❶", "'#{○ = 1}'; ❶", "\"\\#{○ = 1}\"; ❶", "# ○ = 1\n❶", "\n=begin\n○ = 1\n=end\n❶", "%q(○ = 1); ❶", "alias ○ ◎; ❶", "undef ○; ❶", "alias :○ :◎", "○! ; ❶", "○?; ❶", "○ { }; ❶",
    "x№ == ○(); ❶", "{○: 1}; ❶", "{\"○\": 1}; ❶", ":○; ❶", ":\"○\"; ❶", "?a; ❶", "<<'H№'\n#{○ = 1}\nH№\n❶", "BasicK::○; ❶", "for x№.○ in [❶] do ❶ end", "begin; 1; rescue E => x№.○; ❶; end", "begin; 1; rescue E => @○; ❶; end",
    "case 1; in {○: 1}; ❶; end", "case 1; in ○: Integer; ❶; end", "def ○; end; ❶", "def self.○; end; ❶",
    // text that is code
    "\"#{❶}#{① = 1}#{❶}\"", "`#{① = 1}#{❶}`", "/#{① = 1}#{❶}/", "%W[a#{① = 1} #{❶}]", "%I[a#{① = 1}b#{❶}]", ":\"a#{① = 1}\"; ❶", "{\"a#{① = 1}\": ❶}", "<<~H№\n  a #{① = 1} b\n    #{❶}\nH№\n❶", "x№(<<H№, ●)\n#{① = 1}\nH№\n",
    "\"#{q№ {⟦ ① = 1; \"#{❶}\" ⟧}}#{❶}\"", "<<-H№.y(●) + \"#{② = 2}\"\n#{① = 1}\n  H№\n❷", "\"a\" \"#{① = 1}\" \"#{❶}\"", "%Q(#{\n∎})", "<<H№\n#{\n∎}\nH№\n", "%x(#{❶})", "/#{\n∎}/o",
    // loops, conditions
    "while ① = ❶ do ❶ end", "until ❶ do\n∎end\n❶", "unless ❶\n∎else\n∎end", "if ① = 1\n∎elsif ② = ❶\n∎else\n∎end", "case ❶ when ① = 2 then ❶\nelse ② = 1 end", "case\nwhen ❶, ① = 1\n∎else\n∎end", "for ①, ② in [❶, ❷] do ❶ end",
    "for (①, x№), *② in [❶] do\n∎end\n❷", "for *① in [❶] do ❶ end", "for ① in q№ { |y№|⟦ ❶; ② = 1 ⟧} do ❷ end", "loop0 do⟦ break(① = 1) if ❶ ⟧end; ❶", "while ❶; ① = 1; next if ❶; end", "begin\n∎rescue E, ❶ => ①\n∎else\n∎ensure\n∎end",
    "begin; ❶; rescue *❷ => ①; ❶; end", "begin; 1; rescue (① = E) => ②; ❷; end", "END { ① = 1 }; ❶", "begin; ❶; ensure; ① = 1; end; ❶", "(\n∎)", "(❶) and (① = 1)", "❶ unless ① = 1", "begin\n∎end until ❶", "if (①, ② = 1, 2) then ❶ end",
    // patterns
    "1 => ①\n❶", "1 in ①\n❶", "❶ => {①:, k: ②}", "❶ => [①, *②]", "1 => {k: [①, {②:}]}\n❷", "case ❶; in {①:}; ❶; end", "case 1; in [*①]; ❶; end", "case 1; in {**①}; ❶; end", "case 1; in {k: 1, **②}; ❷; end", "case 1; in Integer => ①; ❶; end",
    "case 1; in 1 | 2 => ①; ❶; end", "case 1; in [*, ①, *②]; ❷; end", "case 1; in K№(①); ❶; end", "case 1; in K№(k: ①); ❶; end", "case 1; in K№[①, [②]]; ❷; end", "case 1; in ① if ❶; 1; in ② unless ❷; ❶; end", "case 1; in {\"①\":}; ❶; end",
    "① = 1; case 1; in ^○; ❶; in [^○, ②]; ❷; end", "case 1\nin ①, ②\n∎in {①:}\n∎else\n∎end", "case 1; in []; ❶; in {}; ❶; in nil; ❶; end", "(1 in [①, ②]) && ❶", "case 1; in (①); ❶; end", "case 1; in [Integer => ①, String => ②]; ❷; end", "case 1; in ①, *; ❶; end",
    "case 1; in k: ①, **nil; ❶; end", "case (① = 1); in [1, *②]; ❷; end", "case 1; in ^(❶) => ①; ❶; end", "case 1; in ①; end; case 1; in ①; end", "case 1; in ..5 => ①; ❶; end",
    // blocks
    "q№(❶) {⟦ |①|\n∎⟧}\n", "q№ ❶ do⟦ |①, ② = ❶|\n∎⟧end\n", "q№ {⟦ |(①, *②), z№| ❷; ❶ ⟧}; ❶; ❷", "q№ {⟦ |*①| ❶ ⟧}; ❶", "q№ {⟦ |①:, ②: ❶| ❷ ⟧}; ❶", "q№ {⟦ |**①| ❶ ⟧}; ❶", "q№ {⟦ |&①| ❶ ⟧}; ❶", "q№ {⟦ |①,| ❶ ⟧}; ❶",
    "q№ {⟦ |a№, (b№, (①, c№)), *d№, e№, f№:, **g№, &②| ∎⟧}\n", "q№ {⟦ |;①| ❶; ② = 1 ⟧}; ❶; ❷", "q№ {⟦ |a№; ①, ②| ❷ ⟧}; ❶", "q№(① = 1) {⟦ ❶ ⟧}; ❶", "q№ {⟦ ① = 1; ❶ ⟧}; q№ {⟦ ❶ ⟧}; ❶", "q№ {⟦ |①| ❶ ⟧}.r№ {⟦ |②| ❶; ❷ ⟧}; ❶; ❷",
    "q№ do⟦ |①|\n∎rescue E => ②\n∎ensure\n∎⟧end\n❶", "q№ {⟦ |a№ = (① = 1)| ❶ ⟧}; ❶", "x№.y(❶) do⟦ ① = 1 ⟧end; ❶", "x№[❶] = q№ {⟦ ① = 1 ⟧}; ❶", "q№ {⟦ |①| q№ {⟦ |②| ❶; ❷ ⟧}; ❷ ⟧}; ❶", "② = q№ {⟦ |①| ❷ ⟧}; ❶", "q№ r№ {⟦ ① = 1; ❶ ⟧}; ❶",
    "q№ q№(❶) do⟦ |①| ❶ ⟧end; ❶", "q№ {⟦ _1; ❶ ⟧}", "while ❶ do q№ {⟦ ① = 1; break ⟧}; ❶ end", "q№ {⟦ (① = 1) if ❶ ⟧}; ❶", "super() {⟦ |①| ❶ ⟧}; ❶", "super {⟦ ① = 1 ⟧}; ❶", "x№::y {⟦ |①| ❶ ⟧}; ❶",
    // lambdas
    "->⟦(①, ② = ❶) {\n∎⟧}\n", "->⟦ ①, ② do\n∎⟧end\n❶", "->⟦(a№; ①, ②) { ❶; ❷ ⟧}; ❶", "->⟦ { ① = 1; ❶ ⟧}; ❶", "->⟦(a№ = (① = 1)) { ❶ ⟧}; ❶", "->⟦(*①, k№: ❶, **②, &b№) { ❷ ⟧}.(❷)", "->⟦((①, ②)) { ❷ ⟧}; ❷", "->⟦(①) { ->⟦(②) { ❶; ❷ ⟧}; ❷ ⟧}; ❶",
    "① = ->⟦(②) { ❶ ⟧}; ❷", "->⟦(①:, ②: ❶) do ❷ ⟧end; ❷", "q№ ->⟦(①) do ❶ ⟧end do⟦ ❶ ⟧end", "->⟦ do\n∎⟧end\n",
    // methods
    "def m№⟪(①, ② = ❶)\n∎⟧end\n❶", "def m№⟪ ①, *②\n∎⟧end\n❶", "def m№⟪(①:, ②: ❶)\n❷\n⟧end\n❷", "def m№⟪(**①)\n❶\n⟧end\n", "def m№⟪(&①)\n❶\n⟧end\n❶", "def m№⟪((①, *②), z№)\n❷\n⟧end\n❷", "def m№⟪(①, ...)\n❶; q№(...)\n⟧end\n",
    "def m№⟪(①) = ❶\n⟧❶", "def m№⟪() = (❶; ① = 1; ❶)\n⟧❶", "def m№⟪ = ❶\n⟧❶", "def m№⟪() = begin\n∎end\n⟧", "def self.m№⟪(①) = ❶\n⟧❶", "def m№⟪(①)\n∎rescue E => ②\n∎else\n∎ensure\n∎⟧end\n❶", "def m№⟪(a№ = (① = 1), ② = ❶)\n❷\n⟧end\n❶",
    "def self.m№⟪ ①, ②\n∎⟧end\n❶", "def ❶.m№⟪(②)\n∎⟧end\n❷", "def (① = 1).m№⟪(②)\n❶; ❷\n⟧end\n❶", "private def m№⟪(①)\n∎⟧end\n❶", "def m№⟪\n❶; ① = 1; q№ {⟦ ❶; ② = 1 ⟧}; ❷\n⟧end\n❶", "def m№⟪(*, **, &b№)\n∎⟧end\n", "def m№⟪()\ndef n№⟪(①)\n❶; ❷\n⟧end\n❶; ② = 1\n⟧end\n❷",
    "② = def m№⟪(①) = ❷\n⟧❷", "def m№⟪(①) = q№ ❶\n⟧❶", "def m№⟪\nclass << self⦉\n∎⟧end\n❶\n⟧end\n", "def m№⟪(①)\nreturn ❶ if ② = 1\n❷\n⟧end\n❷",
    // classes
    "class << ❶⦉\n∎⟧end\n❶", "class << (① = 1)⦉\n❶\n⟧end\n❶", "!class K№ < (① = ❶)⦉\n∎⟧end\n❶", "!class K№::L⦉\n❶; ① = 1\n∎⟧end\n❶", "!class ::K№⦉\n∎rescue\n∎ensure\n∎⟧end\n", "!module K№::M⦉\n① = 1; ❶\n∎⟧end\n❶",
    "!class K№ < q№ {⟦ |①| ❶ ⟧}⦉\n❶\n⟧end\n", "!② = class K№⦉; ❷; ① = 1; self; ⟧end; ❶", "!class K№⦉\ndef m№⟪(①) = ❶\n⟧❶\n② = 1\nclass << self⦉\n❷\n⟧end\n❷\n⟧end\n❷", "!q№ {⟦ ① = 1; class K№⦉; ❶; ⟧end; ❶ ⟧}; ❶", "!class K№::L < ❶⦉; ⟧end",
    "!class (① = K№)::L⦉\n❶\n⟧end\n❶", "!module K№⦉\nmodule L№⦉\n① = 1; ❶\n⟧end\n❶\n⟧end\n❶",
];

fn template(t: &str, a: &str, b: &str, p: &[&str], i: &mut usize, e: &mut Emit, env: &mut Env) {
    let n = e.defs;
    e.defs += 1;
    let mut methods = vec![];
    let t = match t.strip_prefix('!') {
        // what Ruby does not allow inside a method body becomes plain blocks
        Some(_) if e.in_def > 0 => "q№ {⟦ ① = 1\n∎❶ ⟧}; ❶",
        Some(t) => t,
        None => t,
    };
    for c in t.chars() {
        match c {
            '①' | '②' => {
                let v = if c == '①' { a } else { b };
                e.src.push_str(v);
                env.vars.insert(v.into());
            }
            '❶' | '❷' | '●' => {
                let v = if c == '❷' { b } else { a };
                e.uses.insert(e.src.len(), (v.into(), c == '●' || env.vars.contains(v)));
                e.src.push_str(v);
            }
            '○' => e.src.push_str(a),
            '◎' => e.src.push_str(b),
            '№' => e.src.push_str(&n.to_string()),
            '⟦' | '⟪' | '⦉' => {
                methods.push(e.in_def);
                match c {
                    '⟦' => env.push_dynamic(),
                    '⟪' => {
                        e.in_def += 1;
                        env.push_static();
                    }
                    _ => {
                        e.in_def = 0;
                        env.push_static();
                    }
                }
                e.max_depth = e.max_depth.max(env.stack.len());
            }
            '⟧' => {
                env.pop();
                e.in_def = methods.pop().unwrap_or(0);
            }
            '∎' => emit(p, i, e, env),
            c => e.src.push(c),
        }
    }
    e.src.push('\n');
}

/// Statements in prefix notation, one token each: `=v` assign, `|v` op-assign, `,v.w` multi-assign, `?v` use,
/// `fv` for, `rv` rescue, `pv` pattern, `kv` kwarg-free call with block-pass, `{x` block, `(x` lambda, `dx` def,
/// `Dx` singleton def, `c` class, `s` sclass, `m` module, `i` if, `w` while, `"` interpolation, `.` end of a body.
pub fn gen_prog(r: &mut Rng, depth: u32, out: &mut Vec<String>) {
    let n = 1 + r.us(5);
    for _ in 0..n {
        let v = r.pick(vars()).to_string();
        match r.us(32) {
            22.. => {
                let w = loop {
                    let w = r.pick(vars());
                    if *w != v {
                        break w;
                    }
                };
                let k = r.us(TEMPLATES.len());
                let bodies = TEMPLATES[k].matches('∎').count();
                if bodies > 0 && depth >= 3 {
                    out.push(format!("?{}", v));
                    continue;
                }
                out.push(format!("T{}.{}.{}", k, v, w));
                for _ in 0..bodies {
                    gen_prog(r, depth + if bodies > 1 { 2 } else { 1 }, out);
                    out.push(".".into());
                }
            }
            0..=2 => out.push(format!("={}", v)),
            3 => out.push(format!("|{}", v)),
            4 => out.push(format!(",{}.{}", v, r.pick(vars()))),
            5..=9 => out.push(format!("?{}", v)),
            10 => out.push(format!("f{}", v)),
            11 => out.push(format!("r{}", v)),
            12 => out.push(format!("p{}", v)),
            13 => out.push(format!("h{}", v)),
            _ if depth < 3 => {
                let o = *r.pick(&["{", "(", "d", "D", "c", "s", "m", "i", "w", "\"", "b", "n", "o"]);
                out.push(format!("{}{}", o, if "{(dDbo".contains(o) { &v } else { "" }));
                gen_prog(r, depth + 1, out);
                out.push(".".into());
            }
            _ => out.push(format!("?{}", v)),
        }
    }
}

struct Emit {
    src: String,
    /// offset of a use -> is it a local there
    uses: BTreeMap<usize, (String, bool)>,
    defs: u32,
    in_def: u32,
    max_depth: usize,
}

/// Emits Ruby and steps the model through it, the way Ruby's scoping rules say.
fn emit(p: &[&str], i: &mut usize, e: &mut Emit, env: &mut Env) {
    while *i < p.len() {
        let t = p[*i];
        *i += 1;
        if t.is_empty() {
            continue;
        }
        let (op, v) = t.split_at(1);
        let simple = |s: String, e: &mut Emit| {
            e.src.push_str(&s);
            e.src.push('\n');
        };
        match op {
            "." => return,
            "T" => {
                let f: Vec<&str> = v.split('.').collect();
                let t = f.first().and_then(|k| k.parse::<usize>().ok()).and_then(|k| TEMPLATES.get(k));
                if let (Some(t), 3) = (t, f.len()) {
                    template(t, f[1], f[2], p, i, e, env);
                }
            }
            "=" => {
                simple(format!("{} = 1", v), e);
                env.vars.insert(v.into());
            }
            "|" => {
                simple(format!("{} ||= 1", v), e);
                env.vars.insert(v.into());
            }
            "," => {
                let (a, b) = v.split_once('.').unwrap_or((v, v));
                simple(format!("{}, {} = 1, 2", a, b), e);
                env.vars.insert(a.into());
                env.vars.insert(b.into());
            }
            "?" => {
                e.uses.insert(e.src.len(), (v.into(), env.vars.contains(v)));
                simple(v.to_string(), e);
            }
            "f" => {
                simple(format!("for {} in [1] do 2 end", v), e);
                env.vars.insert(v.into());
            }
            "r" => {
                simple(format!("begin; 1; rescue E => {}; 2; end", v), e);
                env.vars.insert(v.into());
            }
            "p" => {
                simple(format!("case 1; in [{}, 2]; 3; end", v), e);
                env.vars.insert(v.into());
            }
            "h" => {
                simple(format!("case 1; in {{k: {}}}; 3; end", v), e);
                env.vars.insert(v.into());
            }
            _ => {
                let n = e.defs;
                e.defs += 1;
                let in_def = e.in_def;
                // what Ruby does not allow inside a method body becomes a plain block
                let op = if in_def > 0 && (op == "c" || op == "m") { "n" } else { op };
                let (open, close): (String, &str) = match op {
                    "{" => (format!("q{} {{ |{}|\n", n, v), "}\n"),
                    "b" => (format!("q{} do |t{}, {} = 1|\n", n, n, v), "end\n"),
                    "o" => (format!("q{} {{ |u{}; {}|\n", n, n, v), "}\n"),
                    "(" => (format!("->({}) {{\n", v), "}\n"),
                    "n" => (format!("q{} {{\n", n), "}\n"),
                    "d" => (format!("def m{}({})\n", n, v), "end\n"),
                    "D" => (format!("def self.m{}(*{})\n", n, v), "end\n"),
                    "c" => (format!("class K{}\n", n), "end\n"),
                    "s" => ("class << self\n".to_string(), "end\n"),
                    "m" => (format!("module M{}\n", n), "end\n"),
                    "i" => ("if 1\n".to_string(), "end\n"),
                    "w" => ("while 1\n".to_string(), "end\n"),
                    "\"" => ("\"k#{\n".to_string(), "}\"\n"),
                    _ => continue,
                };
                e.src.push_str(&open);
                match op {
                    "{" | "b" | "o" | "(" | "n" => {
                        env.push_dynamic();
                        if op == "b" {
                            env.vars.insert(format!("t{}", n));
                        }
                        if op == "o" {
                            env.vars.insert(format!("u{}", n));
                        }
                        if op != "n" {
                            env.vars.insert(v.into());
                        }
                    }
                    "d" | "D" => {
                        e.in_def += 1;
                        env.push_static();
                        env.vars.insert(v.into());
                    }
                    "c" | "s" | "m" => {
                        if op == "s" {
                            e.in_def = 0;
                        }
                        env.push_static();
                    }
                    _ => {}
                }
                e.max_depth = e.max_depth.max(env.stack.len());
                emit(p, i, e, env);
                if !"iw\"".contains(op) {
                    env.pop();
                }
                e.in_def = in_def;
                e.src.push_str(close);
            }
        }
    }
}

#[derive(Default)]
struct Seen {
    at: BTreeMap<usize, (String, bool)>,
}
impl Visitor for Seen {
    fn on_lvar(&mut self, n: &Lvar) {
        self.at.insert(n.expression_l.begin, (n.name.clone(), true));
    }
    fn on_send(&mut self, n: &Send) {
        if n.recv.is_none() && n.args.is_empty() && n.begin_l.is_none() {
            self.at.entry(n.expression_l.begin).or_insert((n.method_name.clone(), false));
        }
        visit_send(self, n);
    }
}

// ---------------------------------------------------------------- histories
pub fn generate(_c: &Corpus, r: &mut Rng) -> Scenario {
    let mut s = Scenario::new("C11");
    let mut ops: Vec<String> = vec![];
    let n = 3 + r.us(14);
    let mut handles = 1u32;
    let mut parsers = 0u32;
    ops.push("new 0".into());
    for _ in 0..n {
        let h = r.us(handles as usize);
        let v = r.pick(vars()).to_string();
        match r.us(14) {
            0 => {
                ops.push(format!("new {}", handles));
                handles += 1;
            }
            1 => {
                ops.push(format!("clone {} {}", h, handles));
                handles += 1;
            }
            2 | 3 => ops.push(format!("declare {} {}", h, v)),
            4 => ops.push(format!("static {}", h)),
            5 => ops.push(format!("dynamic {}", h)),
            6 => ops.push(format!("pop {}", h)),
            7 => ops.push(format!("query {}", h)),
            8 | 9 => {
                let mut p = vec![];
                gen_prog(r, 0, &mut p);
                // parser P, its handle H, fault inside its decoder, locals declared from inside the decoder
                let fault = *r.pick(&["none", "none", "plain", "declare", "declare", "error", "panic", "nested", "use"]);
                ops.push(format!("parser {} {} {} {} {} {}", parsers, handles, fault, v, r.us(handles as usize + 1), p.join(" ")));
                parsers += 1;
                handles += 1;
            }
            10..=12 if parsers > 0 => ops.push(format!("run {}", r.us(parsers as usize))),
            13 if parsers > 0 => ops.push(format!("{} {}", r.pick(&["drop", "run"]), r.us(parsers as usize))),
            _ => ops.push(format!("query {}", h)),
        }
    }
    for p in 0..parsers {
        ops.push(format!("run {}", p));
    }
    for h in 0..handles {
        ops.push(format!("drain {}", h));
    }
    s.args = ops;
    s
}

struct P {
    parser: Option<Parser>,
    env: usize,
    prog: Vec<String>,
    fault: String,
    var: String,
    side: u32,
}
struct W {
    /// handle -> (real handle, model env index)
    handles: BTreeMap<u32, (StaticEnvironment, usize)>,
    envs: Vec<Env>,
    parsers: BTreeMap<u32, P>,
    fails: Vec<(String, String)>,
    decoded: bool,
    hist: u64,
    stats: Vec<(String, u64)>,
}

const KEYWORDS: [&str; 40] = [
    "alias", "and", "begin", "break", "case", "class", "def", "defined", "do", "else", "elsif", "end", "ensure", "false", "for", "if", "in", "module", "next", "nil", "not", "or", "redo", "rescue", "retry", "return", "self", "super",
    "then", "true", "undef", "unless", "until", "when", "while", "yield", "__method__", "raise", "p", "puts",
];
/// The names used, and what fresh literals of the code under test suggest.
fn vars() -> &'static Vec<String> {
    static V: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    V.get_or_init(|| {
        let mut v: Vec<String> = VARS.iter().map(|s| s.to_string()).collect();
        let d = crate::dict::fresh();
        for w in &d.words {
            let Ok(t) = String::from_utf8(w.clone()) else { continue };
            for t in [t.clone(), format!("{}x", t), format!("x{}", t)] {
                let ok = t.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && t.bytes().next().is_some_and(|c| c.is_ascii_lowercase() || c == b'_');
                let numparam = t.len() == 2 && t.starts_with('_');
                if ok && !numparam && !KEYWORDS.contains(&t.as_str()) && !t.starts_with("__") && !v.contains(&t) && v.len() < 30 {
                    v.push(t);
                }
            }
        }
        for n in d.sizes.iter().filter(|n| **n <= 300).take(4) {
            v.push("v".repeat(*n));
            v.push("w".repeat(*n + 1));
        }
        v
    })
}
fn names() -> Vec<String> {
    vars().iter().cloned().chain(["FOO".to_string(), "nope".to_string(), "".to_string()]).collect()
}
fn query(w: &mut W, h: u32, when: &str) {
    let (real, env) = match w.handles.get(&h) {
        Some(x) => (x.0.clone(), x.1),
        None => return,
    };
    for n in names() {
        let got = catch_unwind(AssertUnwindSafe(|| loud(|| real.is_declared(&n))));
        let want = w.envs[env].vars.contains(&n);
        match got {
            Ok(g) if g == want => {}
            Ok(g) => w.fails.push(("static_env disagrees with the model".into(), format!("{}: is_declared({:?}) on handle {} is {}, model says {}", when, n, h, g, want))),
            Err(_) => w.fails.push(("static_env operation panicked".into(), format!("{}: is_declared({:?}) on handle {}", when, n, h))),
        }
        w.hist = mix(w.hist ^ want as u64 ^ hash_bytes(n.as_bytes()));
    }
}

fn run_parser(wr: &Rc<RefCell<W>>, pid: u32, depth: u32) {
    let (parser, env_ix, prog, fault, _var, side) = {
        let mut w = wr.borrow_mut();
        match w.parsers.get_mut(&pid) {
            Some(p) => match p.parser.take() {
                Some(x) => (x, p.env, p.prog.clone(), p.fault.clone(), p.var.clone(), p.side),
                None => return,
            },
            None => return,
        }
    };
    let _ = depth;
    let _ = side;
    wr.borrow_mut().decoded = false;
    let res = catch_unwind(AssertUnwindSafe(|| loud(move || parser.do_parse_with_state())));
    let mut w = wr.borrow_mut();
    let head = if fault == "none" { "" } else { "# coding: x\n" };
    match res {
        Err(p) => {
            if p.downcast_ref::<Injected>().is_some() && fault == "panic" {
                w.stats.push(("fault decoder:panic".into(), 1));
            } else {
                let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                w.fails.push(("panic".into(), format!("parse {} panicked: {}", pid, m)));
            }
        }
        Ok(r) => {
            if fault == "error" {
                w.stats.push(("fault decoder:decoding error".into(), 1));
                if r.ast.is_some() {
                    w.fails.push(("failed decoding yields an AST".into(), String::new()));
                }
            } else {
                // step the model through the program from the state the handle was in
                let mut e = Emit { src: head.to_string(), uses: BTreeMap::new(), defs: 0, in_def: 0, max_depth: 0 };
                let mut env = w.envs[env_ix].clone();
                let d0 = env.stack.len();
                let toks: Vec<&str> = prog.iter().map(|s| s.as_str()).collect();
                let mut i = 0;
                while i < toks.len() {
                    emit(&toks, &mut i, &mut e, &mut env);
                }
                while env.stack.len() > d0 {
                    env.pop();
                }
                let errs: Vec<String> = r.diagnostics.iter().filter(|d| d.is_error()).map(|d| d.render_message()).collect();
                if !errs.is_empty() {
                    w.fails.push(("well-scoped program rejected".into(), format!("{:?} in {:?}", errs, e.src)));
                    return;
                }
                w.envs[env_ix] = env;
                let mut seen = Seen::default();
                if let Some(a) = &r.ast {
                    seen.visit(a);
                }
                for (off, (name, local)) in &e.uses {
                    w.hist = mix(w.hist ^ *off as u64 ^ *local as u64);
                    let got = seen.at.get(off);
                    if got != Some(&(name.clone(), *local)) {
                        w.fails.push((
                            "variable resolution disagrees with the model".into(),
                            format!("{:?} at offset {} should be {}, got {:?} in {:?}", name, off, if *local { "a local variable" } else { "a method call" }, got, e.src),
                        ));
                    }
                }
                let n_uses = e.uses.len() as u64;
                w.stats.push(("variable uses judged".into(), n_uses));
                w.stats.push(("programs judged".into(), 1));
            }
        }
    }
}

trait DoParse {
    fn do_parse_with_state(self) -> lib_ruby_parser::ParserResult;
}
impl DoParse for Parser {
    fn do_parse_with_state(self) -> lib_ruby_parser::ParserResult {
        self.do_parse()
    }
}

fn build_parser(wr: &Rc<RefCell<W>>, pid: u32, h: u32, fault: &str, var: &str, side: u32, prog: Vec<String>) {
    let head = if fault == "none" { "" } else { "# coding: x\n" };
    let mut e = Emit { src: head.to_string(), uses: BTreeMap::new(), defs: 0, in_def: 0, max_depth: 0 };
    let toks: Vec<&str> = prog.iter().map(|s| s.as_str()).collect();
    let mut i = 0;
    let mut scratch = Env::default();
    while i < toks.len() {
        emit(&toks, &mut i, &mut e, &mut scratch);
    }
    let mut opts = ParserOptions::default();
    if fault != "none" {
        let (wr2, fault, var) = (Rc::downgrade(wr), fault.to_string(), var.to_string());
        opts.decoder = Some(Decoder::new(Box::new(move |_e, b| {
            let _q = Quiet::new();
            let wr = wr2.upgrade().unwrap();
            let declare = |h: u32| {
                let mut w = wr.borrow_mut();
                if let Some((real, env)) = w.handles.get(&h).map(|x| (x.0.clone(), x.1)) {
                    loud(|| real.declare(&var));
                    w.envs[env].vars.insert(var.clone());
                    w.stats.push(("fault decoder:declares locals".into(), 1));
                }
            };
            match fault.as_str() {
                "declare" => declare(h),
                "error" => {
                    declare(h);
                    return DecoderResult::Err(InputError::DecodingError("no".into()));
                }
                "panic" => {
                    declare(h);
                    std::panic::panic_any(Injected("no".into()));
                }
                "use" => {
                    declare(side);
                    query(&mut wr.borrow_mut(), h, "inside the decoder");
                }
                "nested" => {
                    run_parser(&wr, side, 1);
                    wr.borrow_mut().stats.push(("fault decoder:re-entrant parse".into(), 1));
                    declare(h);
                }
                _ => {}
            }
            DecoderResult::Ok(b)
        })));
    }
    let src = e.src.clone();
    let parser = loud(move || Parser::new(src, opts));
    let handle = parser.static_env.clone();
    let mut w = wr.borrow_mut();
    w.envs.push(Env::default());
    let ix = w.envs.len() - 1;
    w.handles.insert(h, (handle, ix));
    w.parsers.insert(pid, P { parser: Some(parser), env: ix, prog, fault: fault.into(), var: var.into(), side });
    let _ = &w.parsers[&pid].var;
}

pub fn judge(s: &Scenario, rep: &mut Report, hist: &mut u64) {
    let _q = rt::Quiet::new();
    let wr = Rc::new(RefCell::new(W {
        handles: BTreeMap::new(),
        envs: vec![],
        parsers: BTreeMap::new(),
        fails: vec![],
        decoded: false,
        hist: 0,
        stats: vec![],
    }));
    for (k, op) in s.args.iter().enumerate() {
        outer_mark(0, k);
        let f: Vec<&str> = op.split(' ').collect();
        let num = |i: usize| f.get(i).and_then(|x| x.parse::<u32>().ok()).unwrap_or(9999);
        rep.stat("operations", 1);
        match f[0] {
            "new" => {
                let e = loud(StaticEnvironment::new);
                let mut w = wr.borrow_mut();
                w.envs.push(Env::default());
                let ix = w.envs.len() - 1;
                w.handles.insert(num(1), (e, ix));
            }
            "clone" => {
                let mut w = wr.borrow_mut();
                if let Some(x) = w.handles.get(&num(1)).map(|x| (x.0.clone(), x.1)) {
                    w.handles.insert(num(2), x);
                }
            }
            "parser" if f.len() > 5 => {
                if wr.borrow().handles.contains_key(&num(2)) {
                    continue;
                }
                build_parser(&wr, num(1), num(2), f[3], f[4], num(5), f[6..].iter().map(|s| s.to_string()).collect())
            }
            "run" => run_parser(&wr, num(1), 0),
            "drop" => {
                let p = wr.borrow_mut().parsers.remove(&num(1));
                loud(move || drop(p));
            }
            op2 => {
                let got = wr.borrow().handles.get(&num(1)).map(|x| (x.0.clone(), x.1));
                let (real, env) = match got {
                    Some(x) => x,
                    None => continue,
                };
                let mut w = wr.borrow_mut();
                let fail = |w: &mut W, e: Result<(), Box<dyn std::any::Any + std::marker::Send>>| {
                    if e.is_err() {
                        w.fails.push(("static_env operation panicked".into(), op.clone()));
                    }
                };
                match op2 {
                    "declare" => {
                        let e = catch_unwind(AssertUnwindSafe(|| loud(|| real.declare(f[2]))));
                        fail(&mut w, e);
                        w.envs[env].vars.insert(f[2].into());
                    }
                    "static" => {
                        let e = catch_unwind(AssertUnwindSafe(|| loud(|| real.extend_static())));
                        fail(&mut w, e);
                        w.envs[env].push_static();
                    }
                    "dynamic" => {
                        let e = catch_unwind(AssertUnwindSafe(|| loud(|| real.extend_dynamic())));
                        fail(&mut w, e);
                        w.envs[env].push_dynamic();
                    }
                    "pop" => {
                        if w.envs[env].stack.is_empty() {
                            continue;
                        }
                        let e = catch_unwind(AssertUnwindSafe(|| loud(|| real.unextend())));
                        fail(&mut w, e);
                        w.envs[env].pop();
                    }
                    "query" => query(&mut w, num(1), "query"),
                    "drain" => {
                        // every scope that should still be open is there, with its own variables, and no other
                        query(&mut w, num(1), "before drain");
                        while !w.envs[env].stack.is_empty() {
                            let e = catch_unwind(AssertUnwindSafe(|| loud(|| real.unextend())));
                            fail(&mut w, e);
                            w.envs[env].pop();
                            query(&mut w, num(1), "during drain");
                        }
                        let more = catch_unwind(AssertUnwindSafe(|| loud(|| real.unextend())));
                        if more.is_ok() {
                            w.fails.push(("static_env left with an open scope".into(), format!("handle {} has more scopes than were opened", num(1))));
                        }
                        // leave it usable for the other handles of the same environment
                    }
                    _ => {}
                }
            }
        }
        let mut w = wr.borrow_mut();
        let st = std::mem::take(&mut w.stats);
        for (k, v) in st {
            rep.stat(&k, v);
        }
        if let Some((c, d)) = w.fails.first().cloned() {
            rep.fail(c, format!("after `{}`: {}", op, d), None);
            break;
        }
    }
    *hist = wr.borrow().hist;
    rep.stat("jobs", 1);
}
