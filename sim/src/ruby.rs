//! Random Ruby, from a grammar: constructs the corpus does not hold, in combinations nobody wrote down.
use crate::prng::Rng;

const NAMES: [&str; 22] = [
    "a", "b", "c", "x", "y", "foo", "bar", "_a", "__a", "_", "_1", "_2", "_9", "it", "self", "nil", "baz?", "qux!", "@iv", "@@cv", "$gv", "Const",
];
const IDS: [&str; 14] = ["a", "b", "c", "x", "y", "foo", "bar", "_a", "_b", "__a", "_", "name", "e\u{e9}", "zz9"];
const CONSTS: [&str; 6] = ["A", "B", "Foo", "Bar", "FooBar", "X1"];
const KEYS: [&str; 8] = ["a", "b", "c", "foo", "_a", "class", "if", "k"];
const BIN: [&str; 31] = [
    "+", "-", "*", "/", "%", "**", "==", "!=", "===", "=~", "!~", "<", ">", "<=", ">=", "<=>", "<<", ">>", "&", "|", "^", "&&", "||", "and", "or", "..", "...",
    "if", "unless", "while", "rescue",
];
const ASG: [&str; 10] = ["=", "+=", "-=", "||=", "&&=", "<<=", "**=", "|=", "%=", ">>="];

pub struct G<'a> {
    r: &'a mut Rng,
    pub o: Vec<u8>,
    fuel: u32,
    /// heredoc bodies to write at the next end of line
    here: Vec<Vec<u8>>,
    in_def: bool,
    inline: u32,
}

/// One generated program.
fn ident(r: &mut Rng) -> String {
    if !crate::dict::quiet() {
        if let Some(n) = crate::dict::name(r, 6) {
            return n;
        }
    }
    if r.chance(2, 3) {
        return r.pick(&IDS).to_string();
    }
    format!("{}{}{}", r.pick(&["", "_", "__", "___"]), r.pick(&["a", "b", "c", "foo", "x"]), r.pick(&["", "", "1", "_", "b"]))
}

pub fn source(r: &mut Rng) -> Vec<u8> {
    let fuel = *r.pick(&[3, 6, 10, 16, 25, 40]);
    let mut g = G { r, o: vec![], fuel, here: vec![], in_def: false, inline: 0 };
    let n = 1 + g.r.us(4);
    g.stmts(n);
    g.nl();
    if g.r.chance(1, 30) {
        g.p("__END__\nrest of # file\n");
    }
    g.o
}

impl<'a> G<'a> {
    fn p(&mut self, s: &str) {
        self.o.extend_from_slice(s.as_bytes());
    }
    fn any(&mut self, l: &[&str]) {
        let s = *self.r.pick(l);
        self.p(s);
    }
    fn nl(&mut self) {
        if self.inline > 0 {
            self.p("; ");
            return;
        }
        if self.r.chance(1, 20) {
            self.p(" # note");
        }
        if self.r.chance(1, 40) {
            self.p("\r");
        }
        self.p("\n");
        for h in std::mem::take(&mut self.here) {
            self.o.extend_from_slice(&h);
        }
        if self.r.chance(1, 40) {
            self.any(&["=begin\ntext\n=end\n", "# c1\n# c2\n", "\n\n", "  \t\n", "# frozen_string_literal: true\n", "# warn_indent: true\n", "#\n"]);
        }
    }
    fn sep(&mut self) {
        if self.r.chance(1, 8) {
            self.p("; ")
        } else {
            self.nl()
        }
    }
    fn burn(&mut self) -> bool {
        if self.fuel == 0 {
            return false;
        }
        self.fuel -= 1;
        true
    }
    fn id(&mut self) {
        let s = ident(self.r);
        self.p(&s)
    }
    fn stmts(&mut self, n: usize) {
        for i in 0..n {
            if i > 0 {
                self.sep();
            }
            self.stmt();
        }
    }
    fn body(&mut self) {
        let n = self.r.us(3);
        self.stmts(n);
        if n > 0 {
            self.sep();
        }
    }
    fn then(&mut self) {
        if self.r.chance(1, 4) {
            self.p(" then ");
        } else {
            self.nl();
        }
    }
    fn list(&mut self, max: usize, f: &mut dyn FnMut(&mut Self)) {
        let n = self.r.us(max + 1);
        for i in 0..n {
            if i > 0 {
                self.any(&[", ", ",", ", ", ",\n  "]);
            }
            f(self);
        }
    }

    fn stmt(&mut self) {
        if !self.burn() {
            return self.atom();
        }
        match self.r.us(34) {
            0..=4 => self.expr(),
            5..=7 => self.assign(),
            8 => self.masgn(),
            9 | 10 => self.def(),
            11 => {
                self.p("class ");
                match self.r.us(4) {
                    0 => {
                        self.p("<< ");
                        self.any(&["self", "foo", "A"]);
                    }
                    _ => {
                        self.any(&CONSTS);
                        if self.r.chance(1, 3) {
                            self.p("::B");
                        }
                        if self.r.chance(1, 2) {
                            self.p(" < ");
                            self.any(&CONSTS);
                        }
                    }
                }
                self.nl();
                self.body();
                self.p("end");
            }
            12 => {
                self.p("module ");
                self.any(&CONSTS);
                self.nl();
                self.body();
                self.p("end");
            }
            13 | 14 => {
                self.any(&["if ", "unless "]);
                self.expr();
                self.then();
                self.body();
                if self.r.chance(1, 3) {
                    self.p("elsif ");
                    self.expr();
                    self.then();
                    self.body();
                }
                if self.r.chance(1, 2) {
                    self.p("else");
                    self.nl();
                    self.body();
                }
                self.p("end");
            }
            15 => {
                self.any(&["while ", "until "]);
                self.expr();
                self.any(&[" do ", "\n"]);
                self.body();
                self.p("end");
            }
            16 => {
                self.p("for ");
                self.any(&["a", "a, b", "@iv", "a, (b, *c)", "*a"]);
                self.p(" in ");
                self.expr();
                self.any(&[" do ", "\n"]);
                self.body();
                self.p("end");
            }
            17 | 18 => {
                self.p("case");
                if self.r.chance(3, 4) {
                    self.p(" ");
                    self.expr();
                }
                self.nl();
                for _ in 0..1 + self.r.us(4) {
                    self.p("when ");
                    self.list(2, &mut |g| match g.r.us(5) {
                        0 => {
                            g.p("*");
                            g.atom()
                        }
                        1 => g.any(&["1", "2", "'a'", ":a", "nil", "1.0", "/x/", "1..2", "__LINE__"]),
                        _ => g.atom(),
                    });
                    self.then();
                    self.body();
                }
                if self.r.chance(1, 2) {
                    self.p("else\n");
                    self.body();
                }
                self.p("end");
            }
            19..=21 => {
                self.p("case ");
                self.expr();
                self.nl();
                for _ in 0..1 + self.r.us(3) {
                    self.p("in ");
                    self.top_pattern();
                    if self.r.chance(1, 3) {
                        self.any(&[" if ", " unless "]);
                        self.expr();
                    }
                    self.then();
                    self.body();
                }
                if self.r.chance(1, 3) {
                    self.p("else\n");
                    self.body();
                }
                self.p("end");
            }
            22 => {
                self.expr();
                self.any(&[" => ", " in "]);
                self.top_pattern();
            }
            23 | 24 => {
                self.p("begin");
                self.nl();
                self.body();
                self.rescues();
                self.p("end");
                if self.r.chance(1, 5) {
                    self.any(&[" while ", " until "]);
                    self.expr();
                }
            }
            25 => {
                self.any(&["alias ", "alias ", "undef "]);
                self.any(&["a b", "$a $b", ":a :b", "a=\tb", "+ -", "[] []=", "$a $1", "foo", ":\"a#{b}\", c", "$& $b"]);
            }
            26 => {
                self.any(&["BEGIN { ", "END { "]);
                self.inline += 1;
                self.body();
                self.inline -= 1;
                self.p("}");
            }
            27 => {
                self.any(&["return", "break", "next", "redo", "retry", "yield"]);
                if self.r.chance(1, 2) {
                    self.p(" ");
                    self.list(2, &mut |g| g.expr());
                }
            }
            28 => {
                // command call
                self.any(&["puts ", "foo ", "a.b ", "A::b ", "a&.b ", "yield ", "super ", "raise ", "not ", "defined? "]);
                self.args(3);
                if self.r.chance(1, 3) {
                    self.block();
                }
            }
            29 => {
                self.expr();
                for _ in 0..1 + self.r.us(3) {
                    self.nl();
                    self.any(&["  .foo", "  &.bar", "  .a(1)", "  # c\n  .b", "  .()", "  ::Foo"]);
                }
            }
            30 => {
                self.any(&["(", "[", "->(a) ", "!", "-", "*", "&", "::A", "..", "%", "?a", ":a", "p ?a ? :b : c", "{}"]);
            }
            31 => {
                self.stmt();
                self.any(&[" if ", " unless ", " while ", " until ", " rescue "]);
                self.expr();
            }
            _ => {
                self.expr();
                self.p(" ");
                self.any(&BIN);
                self.p(" ");
                self.expr();
            }
        }
    }
    fn rescues(&mut self) {
        for _ in 0..self.r.us(3) {
            self.p("rescue");
            if self.r.chance(1, 2) {
                self.p(" ");
                self.list(2, &mut |g| g.any(&["A", "B::C", "*e", "foo"]));
            }
            if self.r.chance(1, 2) {
                self.any(&[" => e", " => @e", " => a.b", " => a[0]", " => A::B"]);
            }
            self.then();
            self.body();
        }
        if self.r.chance(1, 4) {
            self.p("else\n");
            self.body();
        }
        if self.r.chance(1, 4) {
            self.p("ensure\n");
            self.body();
        }
    }
    fn lhs(&mut self, depth: u32) {
        match self.r.us(12) {
            0..=4 => self.id(),
            5 => self.any(&["@iv", "@@cv", "$gv", "A", "A::B", "::C", "@_x", "$_"]),
            6 => {
                self.atom();
                self.p("[");
                self.list(2, &mut |g| g.atom());
                self.p("]");
            }
            7 => {
                self.id();
                self.any(&[".b", "&.b", "::b", "::B", ".B"]);
            }
            8 if depth > 0 => {
                self.p("(");
                self.mlhs(depth - 1);
                self.p(")");
            }
            _ => self.any(&NAMES),
        }
    }
    fn mlhs(&mut self, depth: u32) {
        let n = 1 + self.r.us(3);
        let star = self.r.us(6);
        for i in 0..n {
            if i > 0 {
                self.p(", ");
            }
            if i == star {
                self.p("*");
                if self.r.chance(1, 4) {
                    continue;
                }
            }
            self.lhs(depth);
        }
        if n == 1 || self.r.chance(1, 8) {
            self.p(",");
        }
    }
    fn masgn(&mut self) {
        self.mlhs(2);
        self.p(" = ");
        self.list(3, &mut |g| {
            if g.r.chance(1, 5) {
                g.p("*");
            }
            g.expr()
        });
    }
    fn assign(&mut self) {
        self.lhs(0);
        self.p(" ");
        self.any(&ASG);
        self.p(" ");
        match self.r.us(6) {
            0 => {
                self.assign();
            }
            1 => {
                self.expr();
                self.p(" rescue ");
                self.expr();
            }
            2 => self.list(3, &mut |g| g.expr()),
            _ => self.expr(),
        }
    }
    fn param(&mut self) {
        match self.r.us(17) {
            0..=4 => self.id(),
            5 | 6 => {
                self.id();
                self.p(" = ");
                self.atom();
            }
            7 => {
                self.p("*");
                if self.r.chance(3, 4) {
                    self.id();
                }
            }
            8 | 9 => {
                self.any(&KEYS);
                self.p(":");
                if self.r.chance(1, 2) {
                    self.p(" ");
                    self.atom();
                }
            }
            10 | 11 => {
                self.p("**");
                if self.r.chance(3, 4) {
                    self.any(&["k", "a", "_a", "nil", "opts"]);
                }
            }
            12 | 13 => {
                self.p("&");
                if self.r.chance(3, 4) {
                    self.any(&["blk", "a", "_a"]);
                }
            }
            14 => self.any(&["(a, b)", "(a, *b)", "(*)", "((a, b), c)", "(_a, _a)"]),
            15 => self.any(&["...", "@a", "A", "$a", "@@a", "_1", "a, a", "_, _"]),
            _ => self.any(&["_", "_a", "__a"]),
        }
    }
    /// parameters, mostly in an order Ruby allows
    fn params(&mut self) {
        if self.r.chance(1, 5) {
            return self.list(4, &mut |g| g.param());
        }
        if self.r.chance(1, 8) {
            // many parameters with similar names
            let mut all: Vec<String> = vec![];
            for l in ["a", "b", "c", "x"] {
                for p in ["", "_", "__"] {
                    all.push(format!("{}{}", p, l));
                }
            }
            let mut s = String::new();
            for i in 0..2 + self.r.us(9) {
                let k = self.r.us(all.len());
                s += if i == 0 { "" } else { ", " };
                s += &all.swap_remove(k);
            }
            return self.p(&s);
        }
        let mut parts: Vec<String> = vec![];
        let id = ident;
        for _ in 0..self.r.us(3) {
            let s = if self.r.chance(1, 6) { format!("({}, *{})", id(self.r), id(self.r)) } else { id(self.r) };
            parts.push(s);
        }
        for _ in 0..self.r.us(2) {
            parts.push(format!("{} = {}", id(self.r), self.r.pick(&["1", "a", "[]", "{}", "foo(1)", "->{}", "\"#{a}\""])));
        }
        if self.r.chance(1, 4) {
            parts.push(if self.r.chance(1, 4) { "*".into() } else { format!("*{}", id(self.r)) });
        }
        for _ in 0..self.r.us(2) {
            parts.push(id(self.r));
        }
        for _ in 0..self.r.us(3) {
            let k = if self.r.chance(1, 2) { id(self.r) } else { self.r.pick(&KEYS).to_string() };
            parts.push(format!("{}:{}", k, self.r.pick(&["", " 1", " nil", " a", ""])));
        }
        if self.r.chance(1, 4) {
            parts.push(self.r.pick(&["**opts", "**nil", "**", "**_a", "..."]).to_string());
        }
        if self.r.chance(1, 4) {
            parts.push(self.r.pick(&["&blk", "&", "&_a", "&a"]).to_string());
        }
        let s = parts.join(", ");
        self.p(&s);
    }
    fn def(&mut self) {
        let was = std::mem::replace(&mut self.in_def, true);
        if self.r.chance(1, 8) {
            self.any(&["private ", "memo "]);
        }
        self.p("def ");
        self.any(&["foo", "foo", "m", "m?", "m!", "m=", "self.x", "a.b", "+", "[]", "[]=", "!", "-@", "`", "A", "if", "(a).b", "self.end", "<=>", "==", "call"]);
        match self.r.us(4) {
            0 => {}
            1 => {
                self.p(" ");
                self.params();
            }
            _ => {
                self.p("(");
                self.params();
                self.p(")");
            }
        }
        if self.r.chance(1, 6) {
            self.p(" = ");
            self.expr();
        } else {
            self.nl();
            self.body();
            self.rescues();
            self.p("end");
        }
        self.in_def = was;
    }
    fn block(&mut self) {
        let brace = self.r.chance(1, 2);
        self.p(if brace { " { " } else { " do " });
        if self.r.chance(1, 2) {
            self.p("|");
            if self.r.chance(1, 6) {
                self.p("a,");
            } else {
                self.params();
            }
            if self.r.chance(1, 6) {
                self.any(&["; z", "; y, z", "; a"]);
            }
            self.p("| ");
        }
        self.body();
        if !brace && self.r.chance(1, 8) {
            self.rescues();
        }
        self.p(if brace { "}" } else { "end" });
    }
    fn args(&mut self, n: usize) {
        self.list(n, &mut |g| match g.r.us(12) {
            0 => {
                g.p("*");
                g.atom()
            }
            1 => {
                g.p("**");
                g.atom()
            }
            2 => {
                g.any(&KEYS);
                g.p(": ");
                g.expr()
            }
            3 => {
                g.atom();
                g.p(" => ");
                g.atom()
            }
            4 => g.any(&["&blk", "&:sym", "&", "...", "a:", "*", "**", "\"a\": 1", "\"a#{b}\": 2"]),
            _ => g.expr(),
        });
    }
    fn pair(&mut self) {
        match self.r.us(8) {
            0..=2 => {
                self.any(&KEYS);
                self.any(&[": 1", ": nil", ": a", ":"]);
            }
            3 => {
                self.any(&["1", "1", "\"a\"", ":a", "1.0", "2r", "1i", "__LINE__", "'a'", "/a/", "nil"]);
                self.p(" => ");
                self.atom();
            }
            4 => {
                self.p("**");
                self.atom();
            }
            5 => {
                self.p("\"k");
                if self.r.chance(1, 2) {
                    self.interp();
                }
                self.p("\": ");
                self.atom();
            }
            _ => {
                self.expr();
                self.p(" => ");
                self.expr();
            }
        }
    }

    fn top_pattern(&mut self) {
        match self.r.us(6) {
            0 => {
                let n = 1 + self.r.us(3);
                for i in 0..n {
                    if i > 0 {
                        self.p(", ");
                    }
                    self.pat_elem();
                }
                if self.r.chance(1, 5) {
                    self.p(",");
                }
            }
            1 => {
                self.pat_keys();
            }
            _ => self.pattern(),
        }
    }
    fn pat_elem(&mut self) {
        if self.r.chance(1, 4) {
            self.p("*");
            if self.r.chance(2, 3) {
                self.id();
            }
        } else {
            self.pattern();
        }
    }
    fn pat_keys(&mut self) {
        let n = 1 + self.r.us(3);
        for i in 0..n {
            if i > 0 {
                self.p(", ");
            }
            self.any(&["a:", "b:", "_a:", "\"a\":", "\"b#{c}\":", "if:", "A:", "a?:"]);
            if self.r.chance(1, 2) {
                self.p(" ");
                self.pattern();
            }
        }
        if self.r.chance(1, 3) {
            self.any(&[", **rest", ", **nil", ", **", ", **a"]);
        }
    }
    fn pattern(&mut self) {
        if !self.burn() {
            return self.any(&["a", "1", "nil", "_"]);
        }
        match self.r.us(16) {
            0..=3 => self.id(),
            4 => self.any(&["1", "1..", "..2", "1..2", "'a'", ":a", "nil", "true", "self", "/x/", "%w[a b]", "-1", "1.5...2", "__FILE__", "->{ }", "\"a#{b}\""]),
            5 => {
                self.p("^");
                self.any(&["a", "@iv", "@@c", "$g", "(1 + 2)", "foo", "_1", "nope"]);
            }
            6 => {
                self.p("[");
                self.list(3, &mut |g| g.pat_elem());
                self.p("]");
            }
            7 => {
                self.p("{");
                if self.r.chance(3, 4) {
                    self.pat_keys();
                } else {
                    self.any(&["**nil", "**a", ""]);
                }
                self.p("}");
            }
            8 => {
                self.any(&CONSTS);
                self.any(&["(", "["]);
                let sq = self.o.last() == Some(&b'[');
                match self.r.us(3) {
                    0 => self.pat_keys(),
                    1 => self.list(2, &mut |g| g.pat_elem()),
                    _ => {}
                }
                self.p(if sq { "]" } else { ")" });
            }
            9 => {
                self.pattern();
                self.p(" | ");
                self.pattern();
            }
            10 => {
                self.pattern();
                self.p(" => ");
                self.id();
            }
            11 => {
                self.p("(");
                self.pattern();
                self.p(")");
            }
            12 => self.any(&["[*, x, *]", "[*a, 1, *b]", "{a: Integer => n}", "A::B", "::C", "A(*)", "A()", "[Integer, String] => z"]),
            _ => self.any(&CONSTS),
        }
    }

    fn expr(&mut self) {
        if !self.burn() {
            return self.atom();
        }
        match self.r.us(30) {
            0..=5 => self.atom(),
            6..=8 => {
                self.expr();
                self.p(" ");
                let k = self.r.us(23);
                self.p(BIN[k]);
                self.p(" ");
                self.expr();
            }
            9 => {
                self.any(&["!", "-", "+", "~", "not ", "defined? ", "defined?(", "&.", "::"]);
                let c = self.o.last() == Some(&b'(');
                self.expr();
                if c {
                    self.p(")");
                }
            }
            10 => {
                self.expr();
                self.p(" ? ");
                self.expr();
                self.p(" : ");
                self.expr();
            }
            11..=14 => {
                match self.r.us(4) {
                    0 => {
                        self.atom();
                        self.any(&[".", "&.", "::", "."]);
                    }
                    1 => {
                        self.expr();
                        self.p(".");
                    }
                    _ => {}
                }
                self.any(&["foo", "bar", "each", "call", "x?", "y!", "class", "lambda", "proc", "puts", "A"]);
                match self.r.us(4) {
                    0 => {}
                    _ => {
                        self.p("(");
                        self.args(3);
                        self.any(&[")", ")", ")", ",)"]);
                    }
                }
                if self.r.chance(1, 3) {
                    self.block();
                }
            }
            15 => {
                self.p("->");
                match self.r.us(3) {
                    0 => {}
                    1 => {
                        self.p("(");
                        self.params();
                        if self.r.chance(1, 8) {
                            self.p("; z");
                        }
                        self.p(")");
                    }
                    _ => {
                        self.p(" ");
                        self.id();
                    }
                }
                self.inline += 1;
                if self.r.chance(1, 2) {
                    self.p(" { ");
                    self.body();
                    self.p("}");
                } else {
                    self.p(" do ");
                    self.body();
                    self.p("end");
                }
                self.inline -= 1;
            }
            16 | 17 => {
                self.p("[");
                self.list(4, &mut |g| g.expr());
                self.p("]");
            }
            18..=20 => {
                self.p("{");
                self.list(4, &mut |g| g.pair());
                self.p("}");
            }
            21 => {
                self.p("(");
                let n = self.r.us(3);
                self.stmts(n);
                self.p(")");
            }
            22 => {
                self.atom();
                self.p("[");
                self.list(2, &mut |g| g.expr());
                self.p("]");
            }
            23 => {
                self.any(&["1..", "..1", "(a..b)", "(1...)", "a..b", "nil..nil", "(1..2).each"]);
            }
            24 => {
                self.p("(");
                self.assign();
                self.p(")");
            }
            25 => {
                self.any(&["super", "super()", "yield", "yield(1)", "super(...)", "foo(&)", "self", "__method__", "block_given?"]);
            }
            _ => self.strlit(),
        }
    }
    fn interp(&mut self) {
        match self.r.us(6) {
            0 => self.any(&["#@a", "#@@b", "#$c", "#$1", "#@", "#", "#@1", "#$"]),
            _ => {
                self.p("#{");
                self.inline += 1;
                if self.burn() {
                    self.stmt();
                } else {
                    self.any(&["a", "", "1"]);
                }
                self.inline -= 1;
                self.p("}");
            }
        }
    }
    fn frag(&mut self, sq: bool) {
        for _ in 0..self.r.us(3) {
            match self.r.us(if sq { 4 } else { 8 }) {
                0 | 1 => self.any(&["abc", "x y", "1", "\u{e9}", " ", "\u{3042}\u{3044}", "a_b", "<>"]),
                2 => self.any(&["\\\\", "\\'", "\\\n", "\n", "\t", "é"]),
                3 => self.any(&["a", "b "]),
                4 => self.any(&["\\n", "\\t", "\\x41", "\\101", "\\u0041", "\\u{41 42}", "\\u{1F600}", "\\C-a", "\\M-a", "\\M-\\C-a", "\\ca", "\\e", "\\s", "\\0", "\\\"", "\\#", "\\xff", "\\c?"]),
                _ => self.interp(),
            }
        }
    }
    fn strlit(&mut self) {
        match self.r.us(22) {
            0..=3 => {
                self.p("\"");
                self.frag(false);
                self.p("\"");
                if self.r.chance(1, 8) {
                    self.any(&[" 'x'", " \"y\"", " \\\n 'z'"]);
                }
            }
            4 | 5 => {
                self.p("'");
                self.frag(true);
                self.p("'");
            }
            6 => {
                self.p("`");
                self.frag(false);
                self.p("`");
            }
            7 | 8 => {
                self.p("/");
                match self.r.us(4) {
                    0 => self.any(&["(?<a>x)", "(?<_a>.)(?<b>y)", "a|b", "[a-z]+", "\\/", "\\d{1,3}", "(?<A>x)", "(?<é>x)", "(?<a>.)(?<a>.)"]),
                    _ => self.frag(false),
                }
                self.p("/");
                self.any(&["", "", "i", "mx", "o", "u", "n", "imxo"]);
                if self.r.chance(1, 3) {
                    self.p(" =~ ");
                    self.atom();
                }
            }
            9 => {
                self.p(":\"");
                self.frag(false);
                self.p("\"");
            }
            10 => self.any(&[":a", ":'a b'", ":+", ":[]=", ":!", ":A", ":@a", ":$a", ":@@a", ":if", ":a?", ":a=", ":\"\"", ":<=>", ":-@"]),
            11..=13 => {
                let (a, b) = *self.r.pick(&[("(", ")"), ("[", "]"), ("{", "}"), ("<", ">"), ("|", "|"), ("!", "!"), ("_", "_"), ("\n", "\n")]);
                let k = *self.r.pick(&["%", "%q", "%Q", "%w", "%W", "%i", "%I", "%r", "%s", "%x"]);
                self.p(k);
                self.p(a);
                let n = self.r.us(3);
                for i in 0..n {
                    if i > 0 {
                        self.p(" ");
                    }
                    if self.r.chance(1, 4) && a != b {
                        self.p(a);
                        self.p("n");
                        self.p(b);
                    }
                    self.frag(matches!(k, "%q" | "%w" | "%i" | "%s"));
                }
                self.p(b);
            }
            14..=18 if self.inline == 0 => {
                let id = *self.r.pick(&["A", "B", "EOS", "e", "\u{e9}"]);
                let sigil = *self.r.pick(&["<<", "<<-", "<<~", "<<~"]);
                let q = *self.r.pick(&["", "", "\"", "'", "`"]);
                self.p(&format!("{}{}{}{}", sigil, q, id, q));
                if self.r.chance(1, 5) {
                    self.any(&[".strip", ".a(1)", " + 'x'", "[0]"]);
                }
                let o = std::mem::take(&mut self.o);
                let outer = std::mem::take(&mut self.here);
                self.inline += 1;
                for _ in 0..self.r.us(4) {
                    self.any(&["  ", "    ", "\t", "", "        ", " \t", "\t "]);
                    self.frag(q == "'");
                    self.p("\n");
                }
                self.inline -= 1;
                if sigil != "<<" {
                    self.any(&["", "  ", "\t"]);
                }
                self.p(id);
                self.p("\n");
                let b = std::mem::replace(&mut self.o, o);
                self.here = outer;
                self.here.push(b);
            }
            19 => self.any(&["?a", "?\\n", "?\\C-a", "?\\u0041", "?\u{e9}", "? ", "?\\M-a", "?{", "?\\s"]),
            _ => self.atom(),
        }
    }
    fn atom(&mut self) {
        match self.r.us(12) {
            0..=3 => self.any(&NAMES),
            4 => self.id(),
            5 | 6 => self.any(&[
                "0", "1", "42", "1_000", "0x1F", "0b101", "0o17", "017", "0d9", "1.5", "1e3", "1.5e-3", "2r", "3i", "1.5r", "2ri", "-1", "-2.5", "-1 ** 2", "123456789012345678901234567890",
                "1__0", "1_", "08", "0x", "1.e", "1e", "5..", "0_7", "1e400", "1.5ri",
            ]),
            7 => self.any(&["true", "false", "nil", "self", "__FILE__", "__LINE__", "__ENCODING__", "$1", "$&", "$~", "$stderr", "$-w", "$_", "$0", "$10", "$99999999999"]),
            8 => self.any(&CONSTS),
            9 => self.any(&["A::B", "::A", "a.b", "[]", "{}", "()", "''", "\"\"", "foo()", "a&.b"]),
            _ => self.strlit(),
        }
    }
}

const SIZES: [usize; 30] = [
    3, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1000, 1024,
];
/// One construct, very long or very often: sizes around powers of two and ten.
pub fn sized(r: &mut Rng, max: usize) -> Vec<u8> {
    let mut n = *r.pick(&SIZES);
    if max > 20_000 && r.chance(1, 6) {
        n = *r.pick(&[1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 10_000]);
    }
    let unit: (&str, &str, &str) = *r.pick(&[
        ("a", "b", " = 1"),
        ("\"", "x", "\""),
        ("'", "\u{e9}", "'"),
        ("1", "0", ""),
        ("1.", "5", ""),
        (":", "s", ""),
        ("@", "i", " = 2"),
        ("$", "g", ""),
        ("A", "B", ""),
        ("# ", "c", "\n1"),
        ("", "# c\n", "1"),
        ("=begin\n", "t\n", "=end\n1"),
        ("", "\n", "1"),
        ("", " ", "1"),
        ("", "1\n", ""),
        ("", "a;", "b"),
        ("foo(", "1, ", "2)"),
        ("[", "1, ", "]"),
        ("{", "a: 1, ", "}"),
        ("{", "1 => 2, ", "}"),
        ("case 1\n", "when 1 then 2\n", "end"),
        ("a", ".b", ""),
        ("a", "\n.b", ""),
        ("a", "[0]", ""),
        ("1", " + 1", ""),
        ("a", " = b", ""),
        ("", "a = ", "1"),
        ("", "!", "a"),
        ("", "-", "1"),
        ("%w[", "a ", "]"),
        ("\"", "#{1}", "\""),
        ("\"", "\\n", "\""),
        ("\"", "\\u0041", "\""),
        ("\"", "\\u{41}", "\""),
        ("\"\\u{", "41 ", "}\""),
        ("<<A\n", "x\n", "A\n"),
        ("<<~A\n", "  x\n", "A\n"),
        ("p(", "<<A, ", "1)\n"),
        ("/", "a", "/"),
        ("", "\"a\" ", ""),
        ("def m(", "a, ", "b) end"),
        ("a, ", "b, ", "c = 1"),
        ("foo", " a", ""),
        ("alias $a $b\n", "alias $c $d\n", ""),
        ("undef a", ", b", ""),
        ("begin\n", "rescue A\n", "end"),
        ("if a\n", "elsif b\n", "end"),
        ("->(a) { ", "a; ", "}"),
        ("foo.each { |", "a,", "|}"),
        ("case a\n", "in b\n", "end"),
        ("a in [", "b, ", "c]"),
        ("x = 1 if ", "a and ", "b"),
        ("__END__\n", "z\n", ""),
        ("a\\\n", "\\\n", "b"),
        ("", "\\\n", "1"),
        ("", "\t", "1"),
        ("", "\r\n", "1"),
        ("", "foo;\r\n", "1"),
        ("", "\u{e9}", " = 1"),
        ("%q(", "(", ")"),
    ]);
    let mut v = unit.0.as_bytes().to_vec();
    let n = n.min(max / unit.1.len().max(1));
    for _ in 0..n {
        v.extend_from_slice(unit.1.as_bytes());
    }
    v.extend_from_slice(unit.2.as_bytes());
    v
}
/// Deep nesting, modest enough for any stack.
pub fn nested(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[3, 5, 8, 9, 16, 17, 31, 32, 33, 40, 63, 64, 65, 80]);
    let mut open: Vec<u8> = vec![];
    let mut close: Vec<Vec<u8>> = vec![];
    let one = r.chance(2, 3);
    let pick = |r: &mut Rng| {
        *r.pick(&[
            ("(", ")"),
            ("[", "]"),
            ("{a: ", "}"),
            ("foo(", ")"),
            ("foo { ", " }"),
            ("foo do |x| ", " end"),
            ("\"#{", "}\""),
            ("->(a) { ", " }"),
            ("if a; ", "; end"),
            ("def m; ", "; end"),
            ("class A; ", "; end"),
            ("class << self; ", "; end"),
            ("begin; ", "; end"),
            ("while a do ", " end"),
            ("case a; when b; ", "; end"),
            ("case a; in b; ", "; end"),
            ("a[", "]"),
            ("%w[", "]"),
            ("/#{", "}/"),
            ("a ? b : ", ""),
            ("!", ""),
            ("not ", ""),
            ("x = ", ""),
            ("p ", ""),
            ("foo[{", " => 1}]"),
        ])
    };
    let mut p = pick(r);
    for _ in 0..n {
        if !one {
            p = pick(r);
        }
        open.extend_from_slice(p.0.as_bytes());
        close.push(p.1.as_bytes().to_vec());
    }
    open.extend_from_slice(*r.pick(&[&b"1"[..], b"a", b"", b"foo 1", b"_1"]));
    for c in close.iter().rev() {
        open.extend_from_slice(c);
    }
    open
}
