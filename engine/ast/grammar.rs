//! The reader against the grammar file it was made from: the file is interpreted rule by rule.
use super::*;
use pest::{Atomicity, Lookahead, ParseResult, ParserState, Token};
use sm_parser::{Parser, Rule, SMParser};
use std::collections::BTreeMap;
use std::sync::OnceLock;

const RULES: &[(&str, Rule)] = include!(concat!(env!("OUT_DIR"), "/rules.rs"));

#[derive(Debug, Clone)]
enum X {
    Str(&'static str),
    Insens(&'static str),
    Range(char, char),
    Name(&'static str),
    Ahead(bool, Box<X>),
    Seq(Vec<X>),
    Choice(Vec<X>),
    Opt(Box<X>),
    Rep(Box<X>),
    Push(Box<X>),
}
struct Def {
    name: &'static str,
    /// _ @ $ ! or nothing
    kind: char,
    body: X,
}
struct Grammar {
    rules: BTreeMap<&'static str, Def>,
}
fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

// ---- the notation of the file
#[derive(Debug, Clone, PartialEq)]
enum Tok {
    Word(String),
    Text(String),
    Char(char),
    Sign(char),
}
fn tokens(s: &str) -> Vec<Tok> {
    let c: Vec<char> = s.chars().collect();
    let (mut i, mut out) = (0, vec![]);
    let escape = |i: &mut usize| -> char {
        if c[*i] != '\\' {
            *i += 1;
            return c[*i - 1];
        }
        *i += 2;
        match c[*i - 1] {
            'n' => '\n',
            'r' => '\r',
            't' => '\t',
            '0' => '\0',
            'u' => {
                let e = *i + c[*i..].iter().position(|x| *x == '}').expect("}");
                let h: String = c[*i + 1..e].iter().collect();
                *i = e + 1;
                char::from_u32(u32::from_str_radix(&h, 16).expect("hex")).expect("char")
            }
            x => x,
        }
    };
    while i < c.len() {
        match c[i] {
            '/' if c.get(i + 1) == Some(&'/') => {
                while i < c.len() && c[i] != '\n' {
                    i += 1
                }
            }
            '/' if c.get(i + 1) == Some(&'*') => {
                while !(c[i] == '*' && c[i + 1] == '/') {
                    i += 1
                }
                i += 2;
            }
            '"' => {
                let mut t = String::new();
                i += 1;
                while c[i] != '"' {
                    t.push(escape(&mut i));
                }
                i += 1;
                out.push(Tok::Text(t));
            }
            '\'' => {
                i += 1;
                let x = escape(&mut i);
                i += 1;
                out.push(Tok::Char(x));
            }
            x if x.is_whitespace() => i += 1,
            x if x.is_alphanumeric() || x == '_' => {
                let b = i;
                while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                    i += 1
                }
                out.push(Tok::Word(c[b..i].iter().collect()));
            }
            x => {
                out.push(Tok::Sign(x));
                i += 1;
            }
        }
    }
    out
}
struct Notation {
    t: Vec<Tok>,
    i: usize,
}
impl Notation {
    fn sign(&mut self, c: char) -> bool {
        let y = self.t.get(self.i) == Some(&Tok::Sign(c));
        self.i += y as usize;
        y
    }
    fn need(&mut self, c: char) {
        assert!(self.sign(c), "{} expected in the grammar at {:?}", c, &self.t[self.i..(self.i + 5).min(self.t.len())]);
    }
    fn word(&mut self) -> String {
        match self.t[self.i].clone() {
            Tok::Word(w) => {
                self.i += 1;
                w
            }
            x => panic!("a name expected in the grammar, not {:?}", x),
        }
    }
    fn choice(&mut self) -> X {
        self.sign('|');
        let mut v = vec![self.seq()];
        while self.sign('|') {
            v.push(self.seq());
        }
        if v.len() == 1 { v.remove(0) } else { X::Choice(v) }
    }
    fn seq(&mut self) -> X {
        let mut v = vec![self.item()];
        while self.sign('~') {
            v.push(self.item());
        }
        if v.len() == 1 { v.remove(0) } else { X::Seq(v) }
    }
    fn item(&mut self) -> X {
        if self.sign('!') {
            return X::Ahead(false, Box::new(self.item()));
        }
        if self.sign('&') {
            return X::Ahead(true, Box::new(self.item()));
        }
        let mut x = if self.sign('(') {
            let x = self.choice();
            self.need(')');
            x
        } else if self.sign('^') {
            match self.t[self.i].clone() {
                Tok::Text(t) => {
                    self.i += 1;
                    X::Insens(leak(t))
                }
                x => panic!("a text expected in the grammar, not {:?}", x),
            }
        } else {
            match self.t[self.i].clone() {
                Tok::Text(t) => {
                    self.i += 1;
                    X::Str(leak(t))
                }
                Tok::Char(a) => {
                    self.i += 1;
                    self.need('.');
                    self.need('.');
                    match self.t[self.i].clone() {
                        Tok::Char(b) => {
                            self.i += 1;
                            X::Range(a, b)
                        }
                        x => panic!("a character expected in the grammar, not {:?}", x),
                    }
                }
                _ => {
                    let w = self.word();
                    if w == "PUSH" {
                        self.need('(');
                        let x = self.choice();
                        self.need(')');
                        X::Push(Box::new(x))
                    } else {
                        X::Name(leak(w))
                    }
                }
            }
        };
        loop {
            x = if self.sign('?') {
                X::Opt(Box::new(x))
            } else if self.sign('*') {
                X::Rep(Box::new(x))
            } else if self.sign('+') {
                X::Seq(vec![x.clone(), X::Rep(Box::new(x))])
            } else if self.sign('{') {
                let n: usize = self.word().parse().expect("a number of times");
                self.need('}');
                X::Seq(vec![x; n])
            } else {
                return x;
            };
        }
    }
}
fn grammar() -> &'static Grammar {
    static G: OnceLock<Grammar> = OnceLock::new();
    G.get_or_init(|| {
        let mut n = Notation { t: tokens(include_str!(concat!(env!("OUT_DIR"), "/grammar.pest"))), i: 0 };
        let mut rules = BTreeMap::new();
        while n.i < n.t.len() {
            let name = leak(n.word());
            n.need('=');
            let mut kind = ' ';
            if n.t[n.i] == Tok::Word("_".into()) {
                n.i += 1;
                kind = '_';
            }
            for k in ['@', '$', '!'] {
                if n.sign(k) {
                    kind = k;
                }
            }
            n.need('{');
            let body = n.choice();
            n.need('}');
            assert!(rules.insert(name, Def { name, kind, body }).is_none(), "{} twice in the grammar", name);
        }
        Grammar { rules }
    })
}

// ---- what the rules mean
type S<'i> = Box<ParserState<'i, &'static str>>;
type R<'i> = ParseResult<S<'i>>;
impl Grammar {
    fn skip<'i>(&self, s: S<'i>) -> R<'i> {
        if s.atomicity() != Atomicity::NonAtomic {
            return Ok(s);
        }
        let blank = |s: S<'i>| self.rule("WHITESPACE", s);
        match (self.rules.contains_key("WHITESPACE"), self.rules.contains_key("COMMENT")) {
            (false, false) => Ok(s),
            (true, false) => s.repeat(blank),
            (false, true) => s.repeat(|s| self.rule("COMMENT", s)),
            (true, true) => s.sequence(|s| {
                s.repeat(blank).and_then(|s| s.repeat(|s| s.sequence(|s| self.rule("COMMENT", s).and_then(|s| s.repeat(blank)))))
            }),
        }
    }
    fn rule<'i>(&self, name: &'static str, s: S<'i>) -> R<'i> {
        let d = match self.rules.get(name) {
            Some(d) => d,
            None => return builtin(name, s),
        };
        let body = |s: S<'i>| self.expr(&d.body, s);
        // blanks have no blanks in them
        let body = |s: S<'i>| if ["WHITESPACE", "COMMENT"].contains(&name) { s.atomic(Atomicity::Atomic, body) } else { body(s) };
        match d.kind {
            '_' => body(s),
            '@' => s.rule(d.name, |s| s.atomic(Atomicity::Atomic, body)),
            '$' => s.atomic(Atomicity::CompoundAtomic, |s| s.rule(d.name, body)),
            '!' => s.atomic(Atomicity::NonAtomic, |s| s.rule(d.name, body)),
            _ => s.rule(d.name, body),
        }
    }
    fn expr<'i>(&self, x: &X, s: S<'i>) -> R<'i> {
        match x {
            X::Str(t) => s.match_string(t),
            X::Insens(t) => s.match_insensitive(t),
            X::Range(a, b) => s.match_range(*a..*b),
            X::Name(n) => self.rule(n, s),
            X::Ahead(yes, x) => s.lookahead(*yes, |s| self.expr(x, s)),
            X::Seq(v) => s.restore_on_err(|s| {
                s.sequence(|s| {
                    let mut s = self.expr(&v[0], s)?;
                    for x in &v[1..] {
                        s = self.skip(s)?;
                        s = self.expr(x, s)?;
                    }
                    Ok(s)
                })
            }),
            X::Choice(v) => {
                let mut r = s.restore_on_err(|s| self.expr(&v[0], s));
                for x in &v[1..] {
                    r = r.or_else(|s| s.restore_on_err(|s| self.expr(x, s)));
                }
                r
            }
            X::Opt(x) => s.optional(|s| s.restore_on_err(|s| self.expr(x, s))),
            X::Rep(x) => s.sequence(|s| {
                s.optional(|s| {
                    s.restore_on_err(|s| self.expr(x, s)).and_then(|s| {
                        s.repeat(|s| s.sequence(|s| self.skip(s).and_then(|s| s.restore_on_err(|s| self.expr(x, s)))))
                    })
                })
            }),
            X::Push(x) => s.stack_push(|s| self.expr(x, s)),
        }
    }
}
fn builtin<'i>(name: &str, s: S<'i>) -> R<'i> {
    match name {
        "SOI" => s.start_of_input(),
        "EOI" => s.rule("EOI", |s| s.end_of_input()),
        "ANY" => s.skip(1),
        "PEEK" => s.stack_peek(),
        "POP" => s.stack_pop(),
        "NEWLINE" => s.match_string("\n").or_else(|s| s.match_string("\r\n")).or_else(|s| s.match_string("\r")),
        "ASCII_DIGIT" => s.match_range('0'..'9'),
        "ASCII_NONZERO_DIGIT" => s.match_range('1'..'9'),
        "ASCII_BIN_DIGIT" => s.match_range('0'..'1'),
        "ASCII_OCT_DIGIT" => s.match_range('0'..'7'),
        "ASCII_HEX_DIGIT" => s.match_range('0'..'9').or_else(|s| s.match_range('a'..'f')).or_else(|s| s.match_range('A'..'F')),
        "ASCII_ALPHA_LOWER" => s.match_range('a'..'z'),
        "ASCII_ALPHA_UPPER" => s.match_range('A'..'Z'),
        "ASCII_ALPHA" => s.match_range('a'..'z').or_else(|s| s.match_range('A'..'Z')),
        "ASCII_ALPHANUMERIC" => s.match_range('a'..'z').or_else(|s| s.match_range('A'..'Z')).or_else(|s| s.match_range('0'..'9')),
        "WHITE_SPACE" => s.match_char_by(pest::unicode::WHITE_SPACE),
        "XID_START" => s.match_char_by(pest::unicode::XID_START),
        "XID_CONTINUE" => s.match_char_by(pest::unicode::XID_CONTINUE),
        n => panic!("{} is not known to the harness", n),
    }
}
/// begins and ends of the rules met, by characters
fn events<T: pest::RuleType>(pairs: pest::iterators::Pairs<'_, T>, name: impl Fn(&T) -> String) -> Vec<(bool, String, usize)> {
    pairs
        .tokens()
        .map(|t| match t {
            Token::Start { rule, pos } => (true, name(&rule), pos.pos()),
            Token::End { rule, pos } => (false, name(&rule), pos.pos()),
        })
        .collect()
}
fn judge_grammar(rule: (&'static str, Rule), t: &str) {
    let got = SMParser::parse(rule.1, t).ok().map(|p| events(p, |r| format!("{:?}", r)));
    let g = grammar();
    let want = pest::state(t, |s| g.rule(rule.0, s)).ok().map(|p| events(p, |r| r.to_string()));
    let text = match &got {
        None => "refused".to_string(),
        Some(v) => v.iter().map(|e| format!("{}{}{}", if e.0 { "<" } else { ">" }, e.1, t[..e.2].chars().count())).collect(),
    };
    note("events", &text);
    reach(if got.is_some() { "read" } else { "refused" });
    check(got.is_some() == want.is_some(), if want.is_some() { "a text of the grammar is refused" } else { "a text outside the grammar is read" });
    check(got == want, "a text is taken apart in another way than the grammar says");
}
fn known() -> Vec<(&'static str, Rule)> {
    RULES.iter().copied().filter(|r| grammar().rules.contains_key(r.0)).collect()
}
fn program() -> (&'static str, Rule) {
    ("program", Rule::program)
}

// ---- sentences
/// the shortest text of a rule, and its variants one level deep
struct Maker<'g> {
    g: &'g Grammar,
    short: BTreeMap<&'static str, String>,
}
impl<'g> Maker<'g> {
    fn new(g: &'g Grammar) -> Maker<'g> {
        let mut m = Maker { g, short: BTreeMap::new() };
        loop {
            let mut news = vec![];
            for d in g.rules.values() {
                let atomic = ['@', '$'].contains(&d.kind);
                if let Some(t) = m.least(&d.body, if atomic { "" } else { " " }) {
                    if m.short.get(d.name).map_or(true, |o| o.chars().count() > t.chars().count()) {
                        news.push((d.name, t));
                    }
                }
            }
            if news.is_empty() {
                return m;
            }
            m.short.extend(news);
        }
    }
    fn least(&self, x: &X, gap: &str) -> Option<String> {
        Some(match x {
            X::Str(t) | X::Insens(t) => t.to_string(),
            X::Range(a, _) => a.to_string(),
            X::Name(n) => self.name(n)?,
            X::Ahead(..) | X::Opt(_) | X::Rep(_) => String::new(),
            X::Seq(v) => {
                let parts: Option<Vec<String>> = v.iter().map(|x| self.least(x, gap)).collect();
                let parts: Vec<String> = parts?.into_iter().filter(|p| !p.is_empty()).collect();
                parts.join(gap)
            }
            X::Choice(v) => v.iter().filter_map(|x| self.least(x, gap)).min_by_key(|t| t.chars().count())?,
            X::Push(x) => self.least(x, gap)?,
        })
    }
    fn name(&self, n: &'static str) -> Option<String> {
        if self.g.rules.contains_key(n) {
            return self.short.get(n).cloned();
        }
        Some(match n {
            "SOI" | "EOI" | "PEEK" | "POP" => "",
            "ANY" => "q",
            "NEWLINE" => "\n",
            "WHITE_SPACE" => " ",
            "ASCII_NONZERO_DIGIT" | "ASCII_BIN_DIGIT" | "ASCII_DIGIT" | "ASCII_OCT_DIGIT" | "ASCII_HEX_DIGIT" => "1",
            _ => "z",
        }.to_string())
    }
    /// one of the texts of an expression, its parts of the given depth spelled out
    fn text(&self, x: &X, gap: &str, path: &mut u32, depth: u32, left: &mut u32) -> String {
        *path += 1;
        let here = format!("s{}", path);
        let mut free = |n: u32| {
            if *left == 0 {
                return None;
            }
            let k = choose(&here, n);
            if k > 0 {
                *left -= 1;
            }
            Some(k)
        };
        match x {
            X::Name(n) if self.g.rules.contains_key(n) && depth > 0 => {
                let d = &self.g.rules[n];
                self.text(&d.body, if ['@', '$'].contains(&d.kind) { "" } else if d.kind == '!' { " " } else { gap }, path, depth - 1, left)
            }
            X::Opt(x) => match free(2) {
                Some(1) => self.text(x, gap, path, depth, left),
                _ => String::new(),
            },
            X::Rep(x) => match free(3) {
                None | Some(0) => String::new(),
                Some(k) => {
                    let one = self.text(x, gap, path, depth, left);
                    if k == 1 { one } else { format!("{}{}{}", one, gap, self.text(x, gap, path, depth, left)) }
                }
            },
            X::Seq(v) => {
                let parts: Vec<String> = v.iter().map(|x| self.text(x, gap, path, depth, left)).filter(|p| !p.is_empty()).collect();
                parts.join(gap)
            }
            X::Choice(v) => {
                // the shortest one first: choosing another is what counts
                let least = (0..v.len()).min_by_key(|i| self.least(&v[*i], gap).map_or(usize::MAX, |t| t.chars().count())).unwrap();
                let k = free(v.len() as u32).unwrap_or(0) as usize;
                let k = if k == 0 { least } else if k <= least { k - 1 } else { k };
                self.text(&v[k], gap, path, depth, left)
            }
            X::Push(x) => self.text(x, gap, path, depth, left),
            x => self.least(x, gap).unwrap_or_default(),
        }
    }
}
fn maker() -> &'static Maker<'static> {
    static M: OnceLock<Maker<'static>> = OnceLock::new();
    M.get_or_init(|| Maker::new(grammar()))
}
fn sentence() -> ((&'static str, Rule), String) {
    let rules = known();
    let r = rules[choose("rule", rules.len() as u32) as usize];
    let d = &grammar().rules[r.0];
    let gap = if ['@', '$'].contains(&d.kind) || choose("tight", 2) == 1 { "" } else { " " };
    let mut left = if tier() { 4 } else { 3 };
    let t = maker().text(&d.body, gap, &mut 0, if tier() { 3 } else { 2 }, &mut left);
    (r, t)
}
fn grammar_sentences() {
    let (r, t) = sentence();
    let r = if choose("whole", 2) == 1 { program() } else { r };
    judge_grammar(r, &t);
}
/// a sentence with any one character replaced or put in somewhere
fn grammar_slips() {
    words(WORDS);
    let rules = known();
    let r = rules[choose("rule", rules.len() as u32) as usize];
    let d = &grammar().rules[r.0];
    let mut left = if tier() { 2 } else { 1 };
    let t = maker().text(&d.body, if ['@', '$'].contains(&d.kind) { "" } else { " " }, &mut 0, if tier() { 1 } else { 0 }, &mut left);
    let cs: Vec<char> = t.chars().collect();
    let at = choose("at", cs.len() as u32 + 1) as usize;
    let drop = (at < cs.len() && choose("drop", 2) == 1) as usize;
    let c = letter("c", ANY_CHAR);
    let t: String = cs[..at].iter().chain(&[c]).chain(&cs[at + drop..]).collect();
    judge_grammar(r, &t);
}
/// any text, by any rule
fn grammar_any() {
    words(WORDS);
    let rules = known();
    let r = rules[choose("rule", rules.len() as u32) as usize];
    let n = choose("length", if tier() { 4 } else { 3 });
    judge_grammar(r, &any_text(n));
}
const STATEMENTS: [&str; 44] = [
    "let x~", "let x: ~ = 1", "let (a, ~) = x", "let x = ~", "let x {~}", "def f~", "def f(~)", "def f(x: ~, y = 1)", "def f(x) = ~", "def f() {1~}", "class A~", "class A {~}", "class A {def f() {~}; x: y}",
    "trait A {~}", "trait ~", "extends A~", "extends A with ~ {}", "extends A {@~ let x}", "using a~", "using a.~", "using a.{b~}", "using \"~\" as b", "using ..a as ~", "using a::{b, ~}", "if x ~{1}", "if (x) {1, ~}",
    "if x then {~} else {2}", "if x then {1} otherwise {~}", "for x ~ y {1}", "for x in ~ {1}", "for x in y {~}", "return ~", "break~", "pass~", "@a~", "@[1]~ x", "@(~) let x", "x ~ y", "{a: ~}", "{1: 2~}", "a''~(x)", "1 {~}",
    ";;~", "x;~",
];
fn grammar_statements() {
    words(WORDS);
    let all = PLACES.len() + STATEMENTS.len();
    let k = choose("place", all as u32) as usize;
    let p = if k < PLACES.len() { PLACES[k] } else { STATEMENTS[k - PLACES.len()] };
    let n = 1 + choose("length", if tier() { 2 } else { 1 });
    judge_grammar(program(), &p.replace('~', &any_text(n)));
}

pub fn harnesses() -> Vec<Harness> {
    vec![
        Harness { name: "grammar_any", labels: &["read", "refused"], run: grammar_any, cfg: |k| {
            k.bound = format!("every text of up to {} characters, by each rule of the grammar", if k.thorough { 3 } else { 2 });
        } },
        Harness { name: "grammar_sentences", labels: &["read", "refused"], run: grammar_sentences, cfg: |k| {
            k.bound = format!("sentences of each rule of the grammar: rules within it spelled out {} deep, up to {} of the choices not the shortest, with and without blanks, by the rule itself and as a program", if k.thorough { 3 } else { 2 }, if k.thorough { 4 } else { 3 });
        } },
        Harness { name: "grammar_slips", labels: &["read", "refused"], run: grammar_slips, cfg: |k| {
            k.bound = format!("sentences of each rule of the grammar with up to {} choices not the shortest, any one character replaced or put in anywhere", if k.thorough { 2 } else { 1 });
        } },
        Harness { name: "grammar_statements", labels: &["read", "refused"], run: grammar_statements, cfg: |k| {
            k.bound = format!("{} constructs and statements with every text of 1 to {} characters inside", PLACES.len() + STATEMENTS.len(), if k.thorough { 2 } else { 1 });
        } },
    ]
}
