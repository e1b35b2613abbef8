//! Harnesses over the public interface of sm_ast: text in, trees and text out.
#[path = "grammar.rs"]
mod grammar;
#[path = "more.rs"]
mod more;
#[path = "../vm/vm.rs"]
mod vm;
use sm_ast::{parser::ParserSettings, Context, Runner, SMError, ToWolfram, AST};
use vm::*;
use wolfram_wxf::WolframValue as W;

/// the words the code compares texts with
const WORDS: &[&str] = include!(concat!(env!("OUT_DIR"), "/words.rs"));

// ---- the tree a text stands for ----------------------------------------------------------
/// what a harness writes down and what it expects to be read
#[derive(Clone, Debug)]
enum E {
    Int(BigInt),
    Sym(&'static str),
    Str(String),
    Dec(&'static str),
    Op(char, Box<E>, Box<E>),
    Pre(char, Box<E>),
    Suf(&'static str, Box<E>),
    /// factors side by side
    Product(Vec<E>),
    /// head, groups of (arguments, options)
    Call(String, Vec<(Vec<E>, Vec<(&'static str, E)>)>),
}
fn op(o: char, a: E, b: E) -> E {
    E::Op(o, Box::new(a), Box::new(b))
}
fn pre(o: char, a: E) -> E {
    E::Pre(o, Box::new(a))
}
fn suf(o: &'static str, a: E) -> E {
    E::Suf(o, Box::new(a))
}
fn call(h: &str, a: Vec<E>) -> E {
    E::Call(h.to_string(), vec![(a, vec![])])
}
fn head(h: &str) -> Box<W> {
    Box::new(W::symbol(h))
}
fn infix_name(o: char) -> &'static str {
    match o {
        '+' => "Add",
        '-' => "Subtract",
        '*' => "Times",
        '/' => "Divide",
        '^' => "Power",
        _ => unreachable!(),
    }
}
fn prefix_name(o: char) -> &'static str {
    match o {
        '+' => "Plus",
        '-' => "Minus",
        '*' => "Unpack",
        '!' => "Not",
        _ => unreachable!(),
    }
}
fn suffix_name(o: &str) -> &'static str {
    match o {
        "!" => "Factorial",
        "!!" => "Factorial2",
        _ => unreachable!(),
    }
}
fn capital(s: &str) -> String {
    let mut c = s.chars();
    c.next().map_or(String::new(), |f| f.to_uppercase().collect::<String>() + c.as_str())
}
fn upper(s: &str) -> String {
    let (a, b) = s.split_at(1);
    a.to_uppercase() + b
}
impl E {
    fn w(&self) -> W {
        match self {
            E::Int(i) => W::BigInteger(i.clone()),
            E::Sym(s) => W::symbol(*s),
            E::Str(s) => W::String(s.clone().into_boxed_str()),
            E::Dec(s) => W::BigDecimal((*s).into()),
            E::Op(o, a, b) => W::Function(head(infix_name(*o)), vec![a.w(), b.w()]),
            E::Pre(o, a) => W::Function(head(prefix_name(*o)), vec![a.w()]),
            E::Suf(o, a) => W::Function(head(suffix_name(o)), vec![a.w()]),
            E::Product(v) => W::Function(head("Times"), v.iter().map(|a| a.w()).collect()),
            E::Call(h, groups) => {
                let mut f = W::symbol(upper(h));
                for (args, opts) in groups {
                    let mut v: Vec<W> = args.iter().map(|a| a.w()).collect();
                    let mut opts = opts.clone();
                    opts.sort_by_key(|o| o.0);
                    v.extend(opts.iter().map(|(k, x)| W::Function(head("Rule"), vec![W::symbol(*k), x.w()])));
                    f = W::Function(Box::new(f), v);
                }
                f
            }
        }
    }
    /// with every compound operand in parentheses
    fn text(&self) -> String {
        let atom = |e: &E| match e {
            E::Op(..) | E::Pre(..) | E::Suf(..) | E::Product(..) => format!("({})", e.text()),
            e => e.text(),
        };
        match self {
            E::Int(i) => i.to_string(),
            E::Sym(s) | E::Dec(s) => s.to_string(),
            E::Str(s) => format!("\"{}\"", s),
            E::Op(o, a, b) => format!("{}{}{}", atom(a), o, atom(b)),
            E::Pre(o, a) => format!("{}{}", o, atom(a)),
            E::Suf(o, a) => format!("{}{}", atom(a), o),
            E::Product(v) => v.iter().map(|a| a.text()).collect::<Vec<_>>().join(" "),
            E::Call(h, groups) => {
                let mut t = h.clone();
                for (args, opts) in groups {
                    let mut v: Vec<String> = args.iter().map(|a| a.text()).collect();
                    v.extend(opts.iter().map(|(k, x)| format!("{}: {}", k, x.text())));
                    t += &format!("({})", v.join(", "));
                }
                t
            }
        }
    }
}
fn same(a: &W, b: &W) -> bool {
    match (a, b) {
        (W::BigInteger(x), W::BigInteger(y)) => x == y,
        (W::Function(f, x), W::Function(g, y)) => {
            x.len() == y.len() && same(f, g) && x.iter().zip(y.iter()).all(|(p, q)| same(p, q))
        }
        (W::Symbol(x), W::Symbol(y)) | (W::String(x), W::String(y)) | (W::BigDecimal(x), W::BigDecimal(y)) => {
            x == y || {
                let (p, q) = (settled(x), settled(y));
                // a letter that was open when its word was capitalised stayed as it was
                p == q || ((**x != *p || **y != *q) && !p.is_empty() && !q.is_empty() && capital(&p) == capital(&q))
            }
        }
        (a, b) => a == b,
    }
}
fn parse(t: &str) -> Result<AST, SMError> {
    ParserSettings::default().parse(t)
}
/// the tree the code reads, or a failed check
fn read(t: &str) -> AST {
    match parse(t) {
        Ok(a) => a,
        Err(_) => {
            check(false, "a well formed expression is refused");
            unreachable!()
        }
    }
}
/// the integers of a tree, in order, and its shape
fn shape(w: &W, ints: &mut Vec<BigInt>) -> String {
    match w {
        W::Skip => "skip".into(),
        W::Function(h, a) => {
            let h = shape(h, ints);
            let a: Vec<String> = a.iter().map(|x| shape(x, ints)).collect();
            format!("{}[{}]", h, a.join(","))
        }
        W::BigInteger(i) => {
            ints.push(i.clone());
            "#".into()
        }
        W::BigDecimal(d) => d.to_string(),
        W::Symbol(s) => s.to_string(),
        W::String(s) => format!("\"{}\"", s),
    }
}
fn show(w: &W) {
    let mut ints = vec![];
    let s = shape(w, &mut ints);
    note("tree", &s);
    for i in &ints {
        observe("int", i);
    }
}
fn pos(name: &str) -> BigInt {
    input(name, Some(&bi(1)), None)
}

// ---- C12 grouping ----------------------------------------------------------------------------
const OPS: [char; 5] = ['+', '-', '*', '/', '^'];
fn level(o: char) -> u32 {
    match o {
        '+' | '-' => 1,
        '*' => 2,
        '/' => 3,
        '^' => 4,
        _ => unreachable!(),
    }
}
/// the operator applied last is the weakest one: the last of equals, but the first for ^
fn group(xs: &[E], os: &[char]) -> E {
    if os.is_empty() {
        return xs[0].clone();
    }
    let mut k = 0;
    for (i, o) in os.iter().enumerate() {
        let (l, m) = (level(*o), level(os[k]));
        if l < m || (l == m && *o != '^') {
            k = i;
        }
    }
    op(os[k], group(&xs[..=k], &os[..k]), group(&xs[k + 1..], &os[k + 1..]))
}
/// an operand: its text and its tree
fn operand(kind: u32, v: &BigInt) -> (String, E) {
    let i = E::Int(v.clone());
    match kind {
        0 => (format!("{}", v), i),
        1 => (format!("-{}", v), pre('-', i)),
        2 => (format!("{}!", v), suf("!", i)),
        3 => (format!("-{}!", v), pre('-', suf("!", i))),
        4 => ("x".into(), E::Sym("x")),
        5 => (format!("f({}, y)", v), call("f", vec![i, E::Sym("y")])),
        6 => (format!("+-{}!!", v), pre('+', pre('-', suf("!!", i)))),
        7 => (format!("{} x", v), op('*', i, E::Sym("x"))),
        8 => ("-x!!!".into(), pre('-', suf("!", suf("!!", E::Sym("x"))))),
        9 => (format!("(-{})!", v), suf("!", pre('-', i))),
        10 => (format!("*!{}", v), pre('*', pre('!', i))),
        11 => (format!("x.f({})", v), call("f", vec![E::Sym("x"), i])),
        12 => (format!("x.y.g[{}]", v), call("Index", vec![call("g", vec![call("y", vec![E::Sym("x")])]), i])),
        13 => (format!("a[{}:]!", v), suf("!", call("Index", vec![E::Sym("a"), call("Span", vec![i, E::Sym("All"), E::Int(bi(1))])]))),
        14 => (format!("-f({}).g", v), call("g", vec![pre('-', call("f", vec![i]))])),
        15 => ("\"s\"".into(), E::Str("s".into())),
        16 => ("2.5".into(), E::Dec("2.5")),
        _ => unreachable!(),
    }
}
fn judge_tree(text: &str, want: &E) {
    let w = read(text).to_wolfram();
    show(&w);
    let want = want.w();
    reach("read");
    check(same(&w, &want), "an expression is read with the wrong structure");
}
fn join(xs: &[(String, E)], os: &[char], paren: Option<(usize, usize)>, sp: &str, grouped: bool) -> (String, Option<E>) {
    let mut t = String::new();
    for (i, x) in xs.iter().enumerate() {
        if i > 0 {
            t += &format!("{}{}{}", sp, os[i - 1], sp);
        }
        if paren.map_or(false, |p| p.0 == i) {
            t += "(";
        }
        t += &x.0;
        if paren.map_or(false, |p| p.1 == i) {
            t += ")";
        }
    }
    if !grouped {
        return (t, None);
    }
    let es: Vec<E> = xs.iter().map(|x| x.1.clone()).collect();
    let e = match paren {
        None => group(&es, os),
        Some((a, b)) => {
            let inner = group(&es[a..=b], &os[a..b]);
            let mut ys = es[..a].to_vec();
            ys.push(inner);
            ys.extend_from_slice(&es[b + 1..]);
            let mut ps = os[..a].to_vec();
            ps.extend_from_slice(&os[b..]);
            group(&ys, &ps)
        }
    };
    (t, Some(e))
}
/// the operators as they may be written
const OP_CHARS: &[(u32, u32)] = &[(0x2A, 0x2B), (0x2D, 0x2D), (0x2F, 0x2F), (0x5E, 0x5E), (0xD7, 0xD7), (0xF7, 0xF7)];
/// a symbolic operator between two operands
fn op_char(name: &str) -> char {
    letter(name, OP_CHARS)
}
/// which operator it is
fn which(c: char) -> char {
    for (x, o) in [('+', '+'), ('-', '-'), ('*', '*'), ('/', '/'), ('^', '^'), ('\u{d7}', '*'), ('\u{f7}', '/')] {
        if is_char(c, x) {
            return o;
        }
    }
    unreachable!()
}
fn chain(n: usize, kinds: impl Fn(usize) -> u32, paren: Option<(usize, usize)>, sp: &str) {
    words(WORDS);
    let cs: Vec<char> = (0..n).map(|i| op_char(&format!("op{}", i))).collect();
    let xs: Vec<(String, E)> = (0..=n).map(|i| operand(kinds(i), &pos(&format!("v{}", i)))).collect();
    let (t, _) = join(&xs, &cs, paren, sp, false);
    let w = read(&t).to_wolfram();
    show(&w);
    let os: Vec<char> = cs.iter().map(|c| which(*c)).collect();
    let (_, e) = join(&xs, &os, paren, sp, true);
    let want = e.unwrap().w();
    reach("read");
    check(same(&w, &want), "an expression is read with the wrong structure");
}
fn blank() -> &'static str {
    ["", " "][choose("spaces", 2) as usize]
}
/// chains of operators on plain numbers
fn grouping_chain() {
    let n = 1 + choose("operators", if tier() { 5 } else { 4 }) as usize;
    let sp = blank();
    chain(n, |_| 0, None, sp);
}
/// operands with prefixes and suffixes, calls, juxtaposition
fn grouping_operands() {
    let n = 1 + choose("operators", 2) as usize;
    let sp = blank();
    // of three operands one has any form, the others are plain in the quick check
    let any = choose("any", if n == 1 || tier() { 1 } else { 3 }) as usize;
    chain(n, |i| choose(&format!("kind{}", i), if n == 1 { 17 } else if tier() { 11 } else if i == any { 17 } else { 2 }), None, sp);
}
/// how many of something a long text has
fn size() -> usize {
    let sizes = [5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 66, 100, 127, 128, 129, 130, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025];
    sizes[choose("size", if tier() { 36 } else { 29 }) as usize]
}
/// the largest of them
fn most(thorough: bool) -> usize {
    if thorough { 1025 } else { 300 }
}
/// long chains: a few operators over and over, one of them another
fn grouping_long() {
    let n = size();
    let period = 1 + choose("period", 2) as usize;
    let ring: Vec<char> = (0..period).map(|i| OPS[choose(&format!("o{}", i), 5) as usize]).collect();
    let odd = [0, n / 2, n - 1][choose("place", 3) as usize];
    let mut os: Vec<char> = (0..n).map(|i| ring[i % period]).collect();
    os[odd] = ['^', '+', '/', '-', '*'][choose("odd", if tier() { 5 } else { 2 }) as usize];
    let v = pos("v");
    let xs: Vec<(String, E)> = (0..=n).map(|i| if i == odd { operand(0, &v) } else { operand(4, &v) }).collect();
    let (t, e) = join(&xs, &os, None, "", true);
    judge_tree(&t, &e.unwrap());
}
/// as many statements, elements, arguments, options, groups, indices or factors as one likes
fn wide(v: &BigInt) -> Vec<E> {
    let n = size();
    let odd = [0, n / 2, n - 1][choose("place", 3) as usize];
    (0..n).map(|i| if i == odd { E::Int(v.clone()) } else { E::Int(bi(i as i64)) }).collect()
}
fn calls_wide() {
    let v = pos("v");
    let es = wide(&v);
    let n = es.len();
    let all = || es.iter().map(|e| e.text()).collect::<Vec<_>>();
    let (t, want) = match choose("form", 7) {
        0 => (format!("f({})", all().join(", ")), call("f", es.clone()).w()),
        1 => (format!("[{}]", all().join(",")), call("list", es.clone()).w()),
        2 => (format!("f{}", all().iter().map(|t| format!("({})", t)).collect::<String>()), E::Call("f".into(), es.iter().map(|e| (vec![e.clone()], vec![])).collect()).w()),
        3 => (all().join(";"), W::Function(head("CompoundExpression"), es.iter().map(|e| e.w()).collect())),
        4 => {
            let names: Vec<String> = (0..n).map(|i| format!("k{:04}", i)).collect();
            let w = es.iter().zip(&names).map(|(e, k)| W::Function(head("Rule"), vec![W::symbol(k.as_str()), e.w()])).collect();
            (format!("f({})", names.iter().zip(all()).map(|(k, t)| format!("{}: {}", k, t)).collect::<Vec<_>>().join(", ")), W::Function(head("F"), w))
        }
        5 => {
            // one inside the other
            let mut t = v.to_string();
            let mut e = E::Int(v.clone());
            let n = n.min(if tier() { 256 } else { 100 });
            for i in 0..n {
                let x = E::Int(bi(i as i64));
                t = format!("f({}, {})", t, i);
                e = call("f", vec![e, x]);
            }
            (t, e.w())
        }
        _ => {
            let mut t = v.to_string();
            let mut e = E::Int(v.clone());
            let n = n.min(if tier() { 256 } else { 100 });
            for i in 0..n {
                let x = E::Int(bi(i as i64));
                t = format!("[{}, {}]", i, t);
                e = call("list", vec![x, e]);
            }
            (t, e.w())
        }
    };
    let w = read(&t).to_wolfram();
    show(&w);
    reach("read");
    check(same(&w, &want), "part of a long text is lost or changed");
}
fn dots_long() {
    let n = size();
    let v = pos("v");
    assume(n <= if tier() { 300 } else { 130 });
    let odd = [0, n / 2, n - 1][choose("place", 3) as usize];
    let kind = choose("kind", 3);
    let mut t = "x".to_string();
    let mut e = E::Sym("x");
    for i in 0..n {
        if i == odd {
            t += &format!(".h({}, y)", v);
            e = call("h", vec![e, E::Int(v.clone()), E::Sym("y")]);
        } else if kind == 0 {
            t += ".g";
            e = call("g", vec![e]);
        } else if kind == 1 {
            t += ".g()!";
            e = suf("!", call("g", vec![e]));
        } else {
            t += ".g[1:]";
            e = call("Index", vec![call("g", vec![e]), call("Span", vec![E::Int(bi(1)), E::Sym("All"), E::Int(bi(1))])]);
        }
    }
    judge_tree(&t, &e);
}
fn slices_wide() {
    let v = pos("v");
    let es = wide(&v);
    let all: Vec<String> = es.iter().map(|e| e.text()).collect();
    let (t, e) = match choose("form", 3) {
        0 => {
            let mut args = vec![E::Sym("a")];
            args.extend(es.clone());
            (format!("a[{}]", all.join(",")), call("Index", args))
        }
        1 => {
            let mut args = vec![E::Sym("a")];
            args.extend(es.iter().map(|e| call("Span", vec![E::Int(bi(1)), E::Sym("All"), e.clone()])));
            (format!("a[{}]", all.iter().map(|t| format!("::{}", t)).collect::<Vec<_>>().join(",")), call("Index", args))
        }
        _ => (format!("a{}", all.iter().map(|t| format!("[{}]", t)).collect::<String>()), es.iter().fold(E::Sym("a"), |a, e| call("Index", vec![a, e.clone()]))),
    };
    judge_tree(&t, &e);
}
/// much between two tokens
fn layout_long() {
    let n = size();
    let v = pos("v");
    let piece = ["%%% c %%%", "/// c\n", " ", "\t \u{3000}", "\n", "%%%%%%", "//!!\n"][choose("piece", 7) as usize];
    let gap = piece.repeat(n);
    let parts = ["x", "+", "f(", "#", ",", "y", ")", "*", "z!"];
    let place = choose("place", parts.len() as u32 + 1) as usize;
    let mut t = String::new();
    for i in 0..=parts.len() {
        if i == place {
            t += &gap;
        }
        if i < parts.len() {
            t += &if parts[i] == "#" { v.to_string() } else { parts[i].to_string() };
        }
    }
    judge_tree(&t, &op('+', E::Sym("x"), op('*', call("f", vec![E::Int(v), E::Sym("y")]), suf("!", E::Sym("z")))));
}
/// a long expression is displayed as itself
fn display_long() {
    let v = pos("v");
    let es = wide(&v);
    let n = es.len();
    let o = OPS[choose("operator", 5) as usize];
    let p = if tier() { OPS[choose("other", 5) as usize] } else { ['*', '-', '/', '^', '+'][n % 5] };
    let e = match choose("form", 4) {
        0 => es[1..].iter().enumerate().fold(es[0].clone(), |a, (i, e)| op(if i % 2 == 0 { o } else { p }, a, e.clone())),
        1 => es[1..].iter().take(60).enumerate().fold(es[0].clone(), |a, (i, e)| op(if i % 2 == 0 { o } else { p }, e.clone(), a)),
        2 => (0..n.min(60)).fold(E::Sym("x"), |a, i| pre(if i % 3 == 0 { '-' } else { '!' }, op(o, a, E::Int(v.clone())))),
        _ => E::Call("f".into(), vec![(vec![op(o, call("list", es.clone()), E::Sym("x"))], vec![("k", op(p, E::Sym("y"), E::Int(v.clone())))])]),
    };
    judge_back(&read(&e.text()))
}
/// one pair of parentheses around part of a chain
fn grouping_parentheses() {
    let n = 2 + choose("operators", if tier() { 3 } else { 2 }) as usize;
    let a = choose("from", n as u32 + 1) as usize;
    let b = a + choose("span", (n - a) as u32 + 1) as usize;
    chain(n, |_| 0, Some((a, b)), "");
}

/// runs of prefixes and suffixes around an operand, in an operator or alone
fn grouping_signs() {
    words(WORDS);
    let signs = ['+', '-', '*', '!', '\u{ac}'];
    let n = choose("prefixes", if tier() { 6 } else { 5 });
    let ps: Vec<char> = (0..n).map(|i| letter(&format!("p{}", i), &[(0x21, 0x21), (0x2A, 0x2B), (0x2D, 0x2D), (0xAC, 0xAC)])).collect();
    let bangs = choose("bangs", 6) as usize;
    let v = pos("v");
    let (bt, be) = match choose("base", 5) {
        0 => (v.to_string(), E::Int(v.clone())),
        1 => ("x".into(), E::Sym("x")),
        2 => (format!("(x+{})", v), op('+', E::Sym("x"), E::Int(v.clone()))),
        3 => (format!("f({})", v), call("f", vec![E::Int(v.clone())])),
        _ => (format!("a[{}]", v), call("Index", vec![E::Sym("a"), E::Int(v.clone())])),
    };
    let t = format!("{}{}{}", ps.iter().collect::<String>(), bt, "!".repeat(bangs));
    let form = choose("around", 4);
    let u = pos("u");
    let text = match form {
        0 => t,
        1 => format!("{}-{}", t, u),
        2 => format!("{}/{}", u, t),
        _ => format!("f({})", t),
    };
    let w = read(&text).to_wolfram();
    show(&w);
    // the sign nearest to the operand comes first; two bangs are one operator
    let mut e = be;
    let mut left = bangs;
    while left > 0 {
        let k = left.min(2);
        e = suf(if k == 2 { "!!" } else { "!" }, e);
        left -= k;
    }
    for c in ps.iter().rev() {
        let s = signs.iter().cloned().find(|s| is_char(*c, *s)).unwrap();
        e = pre(if s == '\u{ac}' { '!' } else { s }, e);
    }
    let want = match form {
        0 => e,
        1 => op('-', e, E::Int(u)),
        2 => op('/', E::Int(u), e),
        _ => call("f", vec![e]),
    };
    reach("read");
    check(same(&w, &want.w()), "an expression is read with the wrong structure");
}
/// factors side by side: numbers, names and calls, also the same one again
fn grouping_products() {
    words(WORDS);
    let n = 2 + choose("factors", if tier() { 5 } else { 4 });
    let mut v = vec![];
    for i in 0..n {
        // a call cannot begin a product
        v.push(match choose(&format!("k{}", i), if i == 0 { 3 } else { 4 }) {
            0 => E::Int(pos(&format!("v{}", i))),
            1 => E::Sym("x"),
            2 => E::Dec("2.50"),
            _ => call("f", vec![E::Int(pos(&format!("v{}", i))), E::Sym("y")]),
        });
    }
    let e = E::Product(v);
    let t = e.text();
    let (text, want) = match choose("around", 4) {
        0 => (t, e),
        1 => (format!("{}^2", t), op('^', e, E::Int(bi(2)))),
        2 => (format!("3-{}", t), op('-', E::Int(bi(3)), e)),
        _ => (format!("({})!", t), suf("!", e)),
    };
    judge_tree(&text, &want);
}

// ---- C13 display -----------------------------------------------------------------------------
/// what a tree means, whatever sums and products of it are nested: a canonical tree
fn normal(w: &W) -> W {
    fn sum(w: &W, plus: bool, out: &mut Vec<(bool, W)>) {
        if let W::Function(h, a) = w {
            if let W::Symbol(s) = &**h {
                if &**s == "Add" {
                    a.iter().for_each(|x| sum(x, plus, out));
                    return;
                }
                if &**s == "Subtract" && a.len() == 2 {
                    sum(&a[0], plus, out);
                    sum(&a[1], !plus, out);
                    return;
                }
            }
        }
        out.push((plus, normal(w)));
    }
    fn product(w: &W, up: bool, out: &mut Vec<(bool, W)>) {
        if let W::Function(h, a) = w {
            if let W::Symbol(s) = &**h {
                if &**s == "Times" {
                    a.iter().for_each(|x| product(x, up, out));
                    return;
                }
                if &**s == "Divide" && a.len() == 2 {
                    product(&a[0], up, out);
                    product(&a[1], !up, out);
                    return;
                }
            }
        }
        out.push((up, normal(w)));
    }
    let flag = |b: bool, yes: &str, no: &str, x: W| W::Function(head(if b { yes } else { no }), vec![x]);
    if let W::Function(h, a) = w {
        if let W::Symbol(s) = &**h {
            match (&**s, a.len()) {
                ("Add", _) | ("Subtract", 2) => {
                    let mut v = vec![];
                    sum(w, true, &mut v);
                    return W::Function(head("Sum"), v.into_iter().map(|(p, x)| flag(p, "Pos", "Neg", x)).collect());
                }
                ("Times", _) | ("Divide", 2) => {
                    let mut v = vec![];
                    product(w, true, &mut v);
                    return W::Function(head("Product"), v.into_iter().map(|(p, x)| flag(p, "Up", "Down", x)).collect());
                }
                ("Minus", 1) => {
                    return match normal(&a[0]) {
                        W::BigInteger(i) => W::BigInteger(-i),
                        x => W::Function(Box::new(normal(h)), vec![x]),
                    };
                }
                _ => (),
            }
        }
        return W::Function(Box::new(normal(h)), a.iter().map(normal).collect());
    }
    w.clone()
}
/// the tree as it is held: names with everything before them
fn full(a: &AST) -> W {
    match a {
        AST::Function(s, ps) => {
            // an operator is not the function of that name
            let part = if s.name_space.len() == 2 && s.name_space[0] == "std" { s.name_space[1].as_str() } else { "" };
            let mut h = W::symbol(if ["prefix", "infix", "suffix"].contains(&part) { capital(&s.name) } else { s.to_string() });
            for p in ps {
                let mut v: Vec<W> = p.arguments.iter().map(full).collect();
                v.extend(p.options.iter().map(|(k, x)| W::Function(head("Rule"), vec![full(k), full(x)])));
                h = W::Function(Box::new(h), v);
            }
            h
        }
        AST::Program(v) => W::Function(head("CompoundExpression"), v.iter().map(full).collect()),
        AST::Symbol(s) => W::symbol(s.to_string()),
        a => a.to_wolfram(),
    }
}
/// replace the integers of a tree, in order
fn plant(a: &mut AST, vs: &mut dyn Iterator<Item = BigInt>) {
    match a {
        AST::Integer(i) => *i = vs.next().unwrap(),
        AST::Function(_, ps) => {
            for p in ps.iter_mut() {
                for x in p.arguments.iter_mut() {
                    plant(x, vs)
                }
            }
        }
        _ => (),
    }
}
fn leaf(k: u32) -> E {
    match k {
        0 => E::Int(bi(1)),
        1 => E::Sym("x"),
        _ => op('*', E::Int(bi(1)), E::Sym("y")),
    }
}
/// a tree of the given height at most, chosen node by node; `wide` picks among every operator
fn tree(path: &str, height: u32, wide: bool) -> E {
    let leaves = 2;
    if height == 0 {
        return leaf(choose(path, leaves));
    }
    let (pres, sufs) = (if wide { vec!['-', '+', '!', '*'] } else { vec!['-'] }, if wide { vec!["!", "!!"] } else { vec!["!"] });
    let k = choose(path, leaves + OPS.len() as u32 + (pres.len() + sufs.len()) as u32);
    if k < leaves {
        return leaf(k);
    }
    let k = (k - leaves) as usize;
    if k < OPS.len() {
        let a = tree(&format!("{}l", path), height - 1, wide);
        let b = tree(&format!("{}r", path), height - 1, wide);
        return op(OPS[k], a, b);
    }
    let k = k - OPS.len();
    if k < pres.len() {
        return pre(pres[k], tree(&format!("{}p", path), height - 1, wide));
    }
    suf(sufs[k - pres.len()], tree(&format!("{}s", path), height - 1, wide))
}
fn count(w: &W) -> usize {
    let mut v = vec![];
    shape(w, &mut v);
    v.len()
}
fn judge_display(e: &E, any_sign: bool) {
    let mut a = read(&e.text());
    let n = count(&a.to_wolfram());
    let vs: Vec<BigInt> = (0..n).map(|i| if any_sign { int(&format!("v{}", i)) } else { pos(&format!("v{}", i)) }).collect();
    plant(&mut a, &mut vs.into_iter());
    judge_back(&a)
}
/// what it displays as is the same tree again
fn judge_back(a: &AST) {
    let w = full(a);
    let t = a.to_string();
    match parse(&t) {
        Err(_) => check(false, "what an expression displays as cannot be read"),
        Ok(b) => {
            let v = full(&b);
            show(&v);
            reach("read back");
            check(same(&normal(&v), &normal(&w)), "what an expression displays as means something else");
        }
    }
}
fn display_small() {
    judge_display(&tree("t", 2, false), true)
}
fn display_wide() {
    // one operator over operands of height 1, every operator there is
    let t = tree("t", if tier() { 2 } else { 1 }, true);
    judge_display(&t, true)
}
fn display_chain() {
    // three nested operators, along one branch
    let n = if tier() { 4 } else { 3 };
    let mut e = leaf(0);
    let sign = choose("sign", 2);
    for i in 0..n {
        let k = choose(&format!("n{}", i), 13) as usize;
        e = match k {
            0..=4 => op(OPS[k], e, leaf(sign)),
            5..=9 => op(OPS[k - 5], leaf(sign), e),
            10 => pre('-', e),
            11 => suf("!", e),
            _ => suf("!!", e),
        };
    }
    judge_display(&e, sign == 1)
}
/// products written side by side keep all their factors
fn display_space() {
    let n = 2 + choose("factors", 3);
    let vs: Vec<BigInt> = (0..n).map(|i| pos(&format!("v{}", i))).collect();
    let ts: Vec<String> = vs.iter().enumerate().map(|(i, v)| if i == 0 { v.to_string() } else { format!("x{} {}", i, v) }).collect();
    let t = ts.join(" ");
    let t = match choose("around", 4) {
        0 => t,
        1 => format!("{}^2", t),
        2 => format!("3-{}", t),
        _ => format!("({})!", t),
    };
    judge_back(&read(&t));
}
/// what stands around a dot
fn display_dots() {
    let n = 1 + choose("dots", if tier() { 3 } else { 2 });
    let mut t = match choose("base", 5) {
        0 => "x".to_string(),
        1 => format!("(x-{})", pos("b")),
        2 => format!("{}!", pos("b")),
        3 => format!("f({})", pos("b")),
        _ => format!("[{}]", pos("b")),
    };
    for i in 0..n {
        let v = pos(&format!("v{}", i));
        t += &match choose(&format!("d{}", i), 13) {
            0 => format!(".-{}", v),
            1 => format!(".({}!)", v),
            2 => format!(".(x!!)"),
            3 => format!(".(x+{})", v),
            4 => format!(".(f({}))", v),
            5 => format!(".({})", v),
            6 => ".(y)".to_string(),
            7 => format!(".[{}, x]", v),
            8 => ".true".to_string(),
            9 => format!(".(x.-{})", v),
            10 => format!(".(-{})!", v),
            11 => format!(".g({}, y)", v),
            _ => format!(".(a[{}])", v),
        };
        if choose(&format!("end{}", i), 2) == 1 {
            t = format!("({})*y", t);
        }
    }
    judge_back(&read(&t));
}
/// calls, lists, slices and names of several parts, also twice the same
fn display_calls() {
    let n = choose("parts", if tier() { 4 } else { 3 });
    let part = |id: String| -> String {
        let v = || pos(&format!("{}v", id));
        match choose(&id, 12) {
            0 => v().to_string(),
            1 => "x".into(),
            2 => format!("-{}", v()),
            3 => "std::core::x".into(),
            4 => "std::f(x)(y)".into(),
            5 => format!("[x, {}]", v()),
            6 => format!("a[{}:, x]", v()),
            7 => "null".into(),
            8 => format!("x-{}", v()),
            9 => format!("#{}", v()),
            10 => "true".into(),
            _ => "g()".into(),
        }
    };
    let mut ps: Vec<String> = (0..n).map(|i| part(format!("p{}", i))).collect();
    if n > 0 && choose("again", 2) == 1 {
        ps.push(ps[0].clone());
    }
    match choose("options", 3) {
        0 => (),
        1 => ps.push("k: x".into()),
        _ => ps.extend(vec!["k: x".into(), format!("b: {}", part("o".into()))]),
    }
    let t = ps.join(", ");
    let t = match choose("around", 5) {
        0 => format!("f({})", t),
        1 => format!("m::n::f({})({})", t, t),
        2 => format!("f({})^2", t),
        3 => format!("f({})(x)!", t),
        _ => format!("x.f({})", t),
    };
    judge_back(&read(&t));
}
/// several statements
fn display_programs() {
    let n = 1 + choose("statements", if tier() { 4 } else { 3 });
    let mut t = String::new();
    for i in 0..n {
        let v = pos(&format!("v{}", i));
        t += &match choose(&format!("s{}", i), 9) {
            0 => v.to_string(),
            1 => "null".into(),
            2 => format!("x-{}", v),
            3 => format!("f({}, k: x)", v),
            4 => format!("-{}", v),
            5 => "x".into(),
            6 => "false".into(),
            7 => format!("[{}]", v),
            _ => ";;".into(),
        };
        t += "; ";
    }
    let a = read(&t);
    if let AST::EmptyStatement = a {
        return reach("nothing");
    }
    judge_back(&a);
}

// ---- C14 literals ------------------------------------------------------------------------------
fn judge_literal(t: &str, want: &BigInt) {
    match read(t) {
        AST::Integer(i) => {
            observe("value", &i);
            reach("value");
            check(i == *want, "a literal is read as another number");
        }
        _ => check(false, "an integer literal is not read as an integer"),
    }
}
fn literal_decimal() {
    let v = int("v");
    assume(!v.is_negative());
    let t = match choose("form", 4) {
        0 => format!("{}", v),
        1 => format!("  {}\n", v),
        2 => format!("({})", v),
        _ => format!("%%% note %%% {}", v),
    };
    judge_literal(&t, &v);
}
fn literal_radix() {
    let r = [16u32, 8, 2][choose("radix", 3) as usize];
    let (lo, up) = match r {
        16 => ("0x", "0X"),
        8 => ("0o", "0O"),
        _ => ("0b", "0B"),
    };
    let mark = if choose("case", 2) == 0 { lo } else { up };
    let v = BigInt::from(nat("v"));
    let digits = v.to_str_radix(r);
    let digits = if choose("digit_case", 2) == 0 { digits } else { digits.to_uppercase() };
    let k = bi(r as i64);
    let last = choose("last", r);
    let d = std::char::from_digit(last, r).unwrap();
    let low = bi(last as i64);
    let (body, want) = match choose("form", 7) {
        0 => (digits, v),
        1 => (format!("{}{}", digits, d), v * &k + low),
        2 => (format!("{}_{}", digits, d), v * &k + low),
        3 => (format!("_{}", digits), v),
        4 => (format!("_{}{}_0", digits, d), (v * &k + low) * &k),
        5 => (format!("_{}_{}_0_1_1_0", digits, d), (((v * &k + low) * &k * &k + bi(1)) * &k + bi(1)) * &k),
        _ => (format!("00{}", digits), v),
    };
    judge_literal(&format!("{}{}", mark, body), &want);
}
/// digits that are symbolic themselves
fn digit_chars(name: &str, n: u32, set: &[(u32, u32)]) -> String {
    (0..n).map(|i| letter(&format!("{}{}", name, i), set)).collect()
}
const DIGITS: &[(u32, u32)] = &[(0x30, 0x39)];
const NONZERO: &[(u32, u32)] = &[(0x31, 0x39)];
fn literal_digits() {
    words(WORDS);
    let v = pos("v");
    let radix = choose("radix", 4);
    // a hexadecimal digit is three ranges: fewer of them
    let n = 1 + choose("length", match (radix, tier()) { (1, false) => 4, (1, true) => 6, (_, false) => 70, _ => 140 });
    let set: &[(u32, u32)];
    let (t, r) = match radix {
        0 => (format!("{}{}", letter("first", NONZERO), digit_chars("d", n - 1, DIGITS)), 10),
        k => {
            let (mark, r) = [("0x", 16), ("0o", 8), ("0b", 2)][k as usize - 1];
            set = match r {
                16 => &[(0x30, 0x39), (0x41, 0x46), (0x61, 0x66)],
                8 => &[(0x30, 0x37)],
                _ => &[(0x30, 0x31)],
            };
            let (a, b) = (digit_chars("a", n, set), digit_chars("b", choose("more", 3), set));
            let sep = if !b.is_empty() && choose("underscore", 2) == 1 { "_" } else { "" };
            (format!("{}{}{}{}", mark, a, sep, b), r)
        }
    };
    let (text, k) = match choose("around", 3) {
        0 => (t.clone(), 0),
        1 => (format!("f(x, {})", t), 1),
        _ => (format!("{}-{}", v, t), 1),
    };
    let a = read(&text);
    let got = match &a {
        AST::Integer(i) if k == 0 => Some(i.clone()),
        AST::Function(_, p) if k == 1 => match p[0].arguments.get(1) {
            Some(AST::Integer(i)) => Some(i.clone()),
            _ => None,
        },
        _ => None,
    };
    let digits_only: String = if r == 10 { t.clone() } else { t[2..].replace('_', "") };
    let want = digits(&digits_only, r);
    match got {
        Some(i) => {
            observe("value", &i);
            reach("value");
            check(i == want, "a literal is read as another number");
        }
        None => check(false, "an integer literal is not read as an integer"),
    }
}
/// decimal fractions keep every digit
fn literal_fraction() {
    words(WORDS);
    let whole = match choose("whole", 2) {
        0 => "0".to_string(),
        _ => format!("{}{}", letter("first", NONZERO), digit_chars("w", choose("wholes", if tier() { 12 } else { 5 }), DIGITS)),
    };
    let n = 1 + choose("digits", if tier() { 20 } else { 8 });
    let t = format!("{}.{}", whole, digit_chars("d", n, DIGITS));
    let d = W::BigDecimal(t.clone().into_boxed_str());
    let (text, want) = match choose("around", 4) {
        0 => (t, d),
        1 => (format!("-{}", t), W::Function(head("Minus"), vec![d])),
        2 => (format!("{} x", t), W::Function(head("Times"), vec![d, W::symbol("x")])),
        _ => (format!("x^{}", t), W::Function(head("Power"), vec![W::symbol("x"), d])),
    };
    let w = read(&text).to_wolfram();
    show(&w);
    reach("fraction");
    check(same(&w, &want), "a decimal fraction is read as another number");
}

// ---- C11 evaluation ------------------------------------------------------------------------------
/// the exact value of an operation on integers, where it has one that the reference computes
enum Ref {
    Value(BigInt),
    /// no integer value: only an error is right
    Nothing,
}
fn power_of(a: &BigInt, e: &BigInt) -> Ref {
    if e.is_zero() {
        return if a.is_zero() { Ref::Nothing } else { Ref::Value(bi(1)) };
    }
    if a.is_one() {
        return Ref::Value(bi(1));
    }
    if a.is_zero() {
        return if e.is_negative() { Ref::Nothing } else { Ref::Value(bi(0)) };
    }
    if *a == bi(-1) {
        return Ref::Value(if e.mod_floor(&bi(2)).is_zero() { bi(1) } else { bi(-1) });
    }
    if e.is_negative() {
        return Ref::Nothing;
    }
    let n = machine(e);
    if n > 3000 {
        out_of_bound("powers with an exponent above 3000 that are given a value");
    }
    Ref::Value((0..n).fold(bi(1), |p, _| p * a))
}
fn fact(n: &BigInt, step: i64) -> Ref {
    if n.is_negative() {
        return Ref::Nothing;
    }
    let mut k = machine(n);
    let mut p = bi(1);
    while k > 1 {
        p = p * bi(k);
        k -= step;
    }
    Ref::Value(p)
}
fn fib(n: &BigInt) -> Ref {
    let n = machine(n);
    let (mut a, mut b) = (bi(0), bi(1));
    for _ in 0..n.abs() {
        let c = &a + &b;
        a = b;
        b = c;
    }
    Ref::Value(if n < 0 && n % 2 == 0 { -a } else { a })
}
fn judge_value(got: &Result<AST, SMError>, want: impl Fn() -> Ref) {
    match got {
        Err(_) => {
            note("result", "error");
            reach("error");
        }
        Ok(AST::Integer(v)) => {
            observe("value", v);
            match want() {
                Ref::Value(x) => {
                    reach("value");
                    check(*v == x, "evaluation gives a wrong number");
                }
                Ref::Nothing => check(false, "evaluation gives a number where there is none"),
            }
        }
        Ok(_) => check(false, "evaluation of numbers gives something that is no number"),
    }
}
/// operators and functions on integers of any sign
const FUNS: [(&str, &str); 21] = [
    ("times", "1*1"), ("times", "1 1"), ("times", "times(1,1)"), ("times", "1.times(1)"),
    ("power", "1^1"), ("power", "power(1,1)"), ("power", "1.power(1)"),
    ("plus", "1+1"), ("plus", "plus(1,1)"), ("plus", "1.plus(1)"),
    ("subtract", "1-1"), ("divide", "1/1"),
    ("minus", "-1"), ("id", "+1"),
    ("factorial", "1!"), ("factorial", "factorial(1)"), ("factorial", "1.factorial"), ("factorial2", "1!!"),
    ("fibonacci", "fibonacci(1)"), ("fibonacci", "1.fibonacci"), ("id", "1"),
];
fn two(k: usize) -> BigInt {
    bi(1) << k
}
fn value_of(f: &str, v: &[BigInt]) -> Ref {
    match f {
        "times" => Ref::Value(&v[0] * &v[1]),
        "power" => power_of(&v[0], &v[1]),
        "plus" => Ref::Value(&v[0] + &v[1]),
        "subtract" => Ref::Value(&v[0] - &v[1]),
        "divide" => {
            if v[1].is_zero() || !v[0].mod_floor(&v[1]).is_zero() {
                Ref::Nothing
            } else {
                Ref::Value(v[0].div_floor(&v[1]))
            }
        }
        "minus" => Ref::Value(-v[0].clone()),
        "id" => Ref::Value(v[0].clone()),
        "factorial" => fact(&v[0], 1),
        "factorial2" => fact(&v[0], 2),
        "fibonacci" => fib(&v[0]),
        _ => unreachable!(),
    }
}
/// functions that can be relied on for small arguments: an error would hide the value
fn judge_served(f: &str, v: &[BigInt], got: &Result<AST, SMError>) {
    let served = match f {
        "times" | "plus" | "id" => true,
        "power" => !v[1].is_negative() && v[1] <= bi(1000) && !(v[0].is_zero() && v[1].is_zero()),
        "factorial" => !v[0].is_negative() && v[0] <= bi(1000),
        "fibonacci" => v[0].abs() <= bi(1000),
        _ => false,
    };
    if served && got.is_err() {
        check(false, "a supported operation is refused");
    }
}
fn evaluate_tree() {
    judge_evaluation(false)
}
fn evaluate_power() {
    judge_evaluation(true)
}
fn judge_evaluation(power: bool) {
    let k = choose("function", FUNS.len() as u32) as usize;
    let (f, t) = FUNS[k];
    let mut a = read(t);
    let n = count(&a.to_wolfram());
    let bases = [0i64, 1, -1, 2, -3, 10];
    let mut vs: Vec<BigInt> = vec![];
    if (f == "power") != power {
        assume(false);
    }
    if power {
        let b = choose("base", bases.len() as u32 + 1) as usize;
        vs.push(if b < bases.len() { bi(bases[b]) } else { int("v0") });
        let e = int("v1");
        if b == bases.len() {
            assume(vs[0].abs() > bi(1) && e < bi(6));
        }
        vs.push(e);
    } else {
        vs = (0..n).map(|i| int(&format!("v{}", i))).collect();
    }
    plant(&mut a, &mut vs.clone().into_iter());
    let r = a.forward(&mut Context::default());
    judge_value(&r, || value_of(f, &vs));
    // as written, "plus" is served by the function only
    if t != "1+1" && t != "+1" {
        judge_served(f, &vs, &r);
    }
}
/// two operands, also at the ends of every machine type
const BINARY: [&str; 11] = ["1*1", "1 1", "times(1,1)", "1.times(1)", "plus(1,1)", "1.plus(1)", "1-1", "1/1", "1+1", "power(1,1)", "1^1"];
fn evaluate_binary() {
    let t = BINARY[choose("function", BINARY.len() as u32) as usize];
    let f = match t {
        "1*1" | "1 1" => "times",
        "1-1" => "subtract",
        "1/1" => "divide",
        "1+1" => "plus",
        "1^1" => "power",
        t => FUNS.iter().find(|x| x.1 == t).unwrap().0,
    };
    let mut a = read(t);
    let vs = if f == "power" { vec![int("v0"), range("v1", 0, 5)] } else { vec![int("v0"), int("v1")] };
    plant(&mut a, &mut vs.clone().into_iter());
    let r = a.forward(&mut Context::default());
    judge_value(&r, || value_of(f, &vs));
    if t != "1+1" {
        judge_served(f, &vs, &r);
    }
}
/// several statements: the value of the last, unless one of them has none
fn evaluate_programs() {
    let n = 2 + choose("statements", if tier() { 3 } else { 2 });
    let mut t = String::new();
    let mut value = bi(0);
    let mut fails = false;
    for i in 0..n {
        let v = pos(&format!("v{}", i));
        let s = match choose(&format!("s{}", i), 6) {
            0 => {
                value = v.clone();
                v.to_string()
            }
            1 => {
                value = &v * bi(3);
                format!("{}*3", v)
            }
            2 => {
                value = &v + bi(7);
                format!("plus({}, 7)", v)
            }
            3 => {
                fails = true;
                format!("unknown({})", v)
            }
            4 => {
                fails = true;
                "0^0".to_string()
            }
            // nothing to compute
            _ => {
                if i == 0 {
                    value = v.clone();
                    format!(";;{}", v)
                } else {
                    ";;".to_string()
                }
            }
        };
        t += &s;
        t += [";", "\n"][choose(&format!("sep{}", i), 2) as usize];
    }
    let r = Runner::default().evaluate(&t).map(|s| match s.parse::<BigInt>() {
        Ok(v) => AST::Integer(v),
        Err(_) => AST::string(s),
    });
    judge_value(&r, || if fails { Ref::Nothing } else { Ref::Value(value.clone()) });
    if !fails && r.is_err() {
        check(false, "a supported operation is refused");
    }
}
/// the functions behind the evaluator, on their own
fn internal_functions() {
    use sm_ast::internal;
    let k = choose("function", 5);
    let v = int("v");
    let a = match choose("operand", 8) {
        0 => AST::integer(v.clone()),
        1 => AST::symbol("x"),
        2 => AST::Boolean(true),
        3 => AST::EmptyStatement,
        4 => read("2.5"),
        5 => read("[1]"),
        6 => AST::Program(vec![AST::integer(v.clone())]),
        _ => AST::string("a\u{e9}\u{4e2d}z"),
    };
    let r = match k {
        0 => internal::factorial(&a),
        1 => internal::fibonacci(&a),
        2 => internal::length(&a),
        3 => internal::first(&a),
        _ => internal::last(&a),
    };
    match (&a, &r) {
        (AST::String(_), Ok(x)) => {
            reach("text");
            let want = match k {
                2 => AST::integer(4),
                3 => AST::string("a"),
                4 => AST::string("z"),
                _ => return check(false, "a number comes out of operands that are no integers"),
            };
            check(*x == want, "a function of a text gives something else");
        }
        (AST::String(_), Err(_)) => check(k < 2, "a function of a text is refused"),
        (AST::Integer(_), _) if k < 2 => {
            let f = ["factorial", "fibonacci"][k as usize];
            judge_value(&r, || value_of(f, &[v.clone()]));
            judge_served(f, &[v.clone()], &r);
        }
        (_, Err(_)) => reach("error"),
        _ => check(false, "an unsupported call is given a value"),
    }
}
/// the same, from text to text
/// long numbers, texts, programs, sums and nests; the evaluator serves the first seven
fn evaluate_long() {
    let n = size();
    let v = pos("v");
    let odd = [0, n / 2, n - 1][choose("place", 3) as usize];
    let nest = n.min(if tier() { 256 } else { 100 });
    let all: Vec<String> = (0..n).map(|i| if i == odd { v.to_string() } else { (i + 1).to_string() }).collect();
    let sum = |m: usize| &bi((m * (m + 1) / 2) as i64) + if odd < m { &v - bi(odd as i64 + 1) } else { bi(0) };
    let digits: String = (0..n).map(|i| if i == odd { '7' } else { '1' }).collect();
    let number = big(&digits);
    let form = choose("form", 14);
    let (t, want) = match form {
        0 => (format!("{}*{}", digits, v), &number * &v),
        1 => (format!("plus({}, {})", v, digits), &v + &number),
        2 => (format!("times({}, {})", v, digits), &v * &number),
        3 => (format!("length(\"{}\")", digits), bi(n as i64)),
        4 => (format!("first(\"{}\")", digits), bi(if odd == 0 { 7 } else { 1 })),
        5 => (format!("last(\"{}\")", digits), bi(if odd == n - 1 { 7 } else { 1 })),
        6 => (format!("{};plus({}, 1);{}*3", all.join(";"), v, v), &v * bi(3)),
        7 => (all.join("+"), sum(n)),
        8 => (format!("plus({})", all.join(",")), sum(n)),
        9 => (format!("{}-{}", v, all.join("-")), &v - sum(n)),
        10 => (all[..nest].iter().fold("0".to_string(), |a, x| format!("({}+{})", a, x)), sum(nest)),
        11 => (all[..nest].iter().fold("0".to_string(), |a, x| format!("plus({}, {})", x, a)), sum(nest)),
        12 => (vec!["2"; n].join("*") + &format!("*{}", v), two(n) * &v),
        _ => ("-".repeat(nest) + &v.to_string(), if nest % 2 == 0 { v.clone() } else { -v.clone() }),
    };
    match Runner::default().evaluate(&t) {
        Ok(s) => {
            reach("value");
            note("value", &s);
            check(s.parse::<BigInt>().map_or(false, |g| g == want), "an expression is evaluated to another value");
        }
        Err(_) => {
            reach("error");
            note("value", "error");
            check(form >= 7, "an expression with a value is refused")
        }
    }
}
fn evaluate_text() {
    let k = choose("function", FUNS.len() as u32) as usize;
    let (f, t) = FUNS[k];
    let vs: Vec<BigInt> = (0..t.matches('1').count()).map(|i| {
        let hi = if i == 1 && f == "power" { Some(bi(5)) } else { None };
        input(&format!("v{}", i), Some(&bi(0)), hi.as_ref())
    }).collect();
    let mut it = vs.iter();
    let text: String = t.chars().map(|c| if c == '1' { it.next().unwrap().to_string() } else { c.to_string() }).collect();
    let r = Runner::default().evaluate(&text).map(|s| match s.parse::<BigInt>() {
        Ok(v) => AST::Integer(v),
        Err(_) => AST::string(s),
    });
    judge_value(&r, || value_of(f, &vs));
    if t != "1+1" && t != "+1" {
        judge_served(f, &vs, &r);
    }
}
/// whatever the operands, evaluation ends with a result or an error; a number needs numbers
fn evaluate_odd() {
    let v = pos("v");
    let arg = |k: u32| -> String {
        match k {
            0 => v.to_string(),
            1 => "x".into(),
            2 => format!("{}.5", 7),
            3 => "\"s\"".into(),
            4 => "true".into(),
            5 => format!("[{}]", v),
            6 => format!("f({})", v),
            7 => format!("-{}", v),
            8 => "null".into(),
            _ => format!("k: {}", v),
        }
    };
    let names = ["first", "last", "length", "factorial", "fibonacci", "plus", "times", "power", "minus", "divide", "prime_sum", "unknown"];
    let name = names[choose("name", names.len() as u32) as usize];
    let n = choose("arguments", 4);
    let ks: Vec<u32> = (0..n).map(|i| choose(&format!("a{}", i), 10)).collect();
    let args: Vec<String> = ks.iter().map(|k| arg(*k)).collect();
    let text = format!("{}({})", name, args.join(", "));
    let r = Runner::default().evaluate(&text);
    match &r {
        Err(_) => {
            note("result", "error");
            reach("error");
        }
        Ok(s) => {
            reach("value");
            if let Ok(x) = s.parse::<BigInt>() {
                observe("value", &x);
                if ks.iter().all(|k| *k == 0) {
                    // the exact value is judged elsewhere for one and two arguments
                    let arity = match name {
                        "factorial" | "fibonacci" | "minus" => 1,
                        "plus" | "times" => n.max(2),
                        "power" | "divide" => 2,
                        _ => 0,
                    };
                    check(n == arity, "a function is given a value with the wrong number of arguments");
                } else {
                    check(name == "length" && n == 1 && ks[0] == 3 && x == bi(1), "a number comes out of operands that are no integers");
                }
            } else {
                note("text", s);
                let text_of_string = (name == "first" || name == "last") && n == 1 && ks[0] == 3;
                check(text_of_string && s == "s", "an unsupported call is given a value");
            }
        }
    }
}
/// operators the evaluator does not know are refused, not dropped
fn evaluate_operators() {
    let (a, b) = (pos("a"), pos("b"));
    let ops = ["%", "//", "==", "=", ">", ">=", "×", "÷", "⋅", "⊗", "⊙"];
    let o = ops[choose("operator", ops.len() as u32) as usize];
    let sp = if choose("spaces", 2) == 0 { "" } else { " " };
    let form = choose("form", 4);
    let t = match form {
        0 => format!("{}{}{}{}{}", a, sp, o, sp, b),
        1 => format!("{}*{}{}{}{}{}", a, b, sp, o, sp, a),
        2 => format!("{}{}?", a, sp),
        _ => format!("x{}'", sp),
    };
    let r = Runner::default().evaluate(&t);
    match r {
        Err(_) => {
            note("result", "error");
            reach("error");
        }
        Ok(s) => {
            let v = match s.parse::<BigInt>() {
                Ok(v) => v,
                Err(_) => {
                    check(false, "an unsupported operator is given a value");
                    return;
                }
            };
            observe("value", &v);
            reach("value");
            check(form == 0, "an unsupported operator is dropped");
            match o {
                "×" | "⋅" => check(v == &a * &b, "evaluation gives a wrong number"),
                "÷" => check(&v * &b == a, "evaluation gives a wrong number"),
                "%" => check(v >= bi(0) && v < b && (&a - &v).mod_floor(&b).is_zero(), "evaluation gives a wrong number"),
                "//" => check(&v * &b <= a && a < (&v + bi(1)) * &b, "evaluation gives a wrong number"),
                _ => check(false, "an unsupported operator is given a number"),
            }
        }
    }
}

// ---- C15 sessions -----------------------------------------------------------------------------
fn session() {
    let n = 1 + choose("steps", if tier() { 4 } else { 3 });
    let mut r = Runner::default();
    check(r.last().is_err(), "a new session has a last result");
    for i in 0..n {
        let v = pos(&format!("v{}", i));
        let (text, want) = match choose(&format!("step{}", i), 8) {
            0 => (format!("{}*3", v), Some(&v * bi(3))),
            1 => (format!("{}", v), Some(v.clone())),
            2 => (format!("plus({}, 1)", v), Some(&v + bi(1))),
            3 => (format!("{} + 1", v), None),
            4 => ("1 +".to_string(), None),
            5 => (format!("foo({})", v), None),
            6 => (format!("{}^2", v), Some(&v * &v)),
            _ => ("0^0".to_string(), None),
        };
        match r.evaluate(&text) {
            Ok(s) => {
                let got = s.parse::<BigInt>();
                check(got.is_ok(), "a session step gives no number");
                let got = got.unwrap_or_else(|_| bi(0));
                observe("step", &got);
                let want = match want {
                    Some(w) => w,
                    None if text.contains("+ 1") => &v + bi(1),
                    None => {
                        check(false, "a failing step is given a value");
                        bi(0)
                    }
                };
                reach("value");
                check(got == want, "a step of a session gives another value than on its own");
                match r.last() {
                    Ok(AST::Integer(l)) => check(l == want, "the last result is not the one just computed"),
                    _ => check(false, "the last result is not the one just computed"),
                }
            }
            Err(_) => {
                note("step", "error");
                reach("error");
                check(want.is_none(), "a step of a session fails that succeeds on its own");
                check(r.last().is_err(), "a failed step leaves an earlier result as the last one");
            }
        }
    }
}

/// a long history, then any step
fn session_long() {
    let n = size();
    let pattern = choose("pattern", 4);
    let last = choose("last", 4);
    let v = pos("v");
    let mut r = Runner::default();
    for i in 0..=n {
        let kind = if i == n { last } else if pattern < 3 { [0, 1, 2][pattern as usize] } else { i as u32 % 4 };
        let k = bi(i as i64);
        let (text, want) = match kind {
            0 => (format!("times({}, {})", i, v), Some(&k * &v)),
            1 => (format!("{} +", i), None),
            2 => (format!("foo({})", i), None),
            _ => (format!("{}", i), Some(k)),
        };
        match (r.evaluate(&text), want) {
            (Ok(s), Some(w)) => {
                reach("value");
                if i == n || i % 32 == 0 || i % 32 > 29 {
                    check(s.parse::<BigInt>().map_or(false, |g| g == w), "a step of a session gives another value than on its own");
                    check(matches!(r.last(), Ok(AST::Integer(l)) if l == w), "the last result is not the one just computed");
                }
            }
            (Err(_), None) => {
                reach("error");
                check(r.last().is_err(), "a failed step leaves an earlier result as the last one");
            }
            (Ok(_), None) => check(false, "a failing step is given a value"),
            (Err(_), Some(_)) => check(false, "a step of a session fails that succeeds on its own"),
        }
    }
}

// ---- C16 dot calls ----------------------------------------------------------------------------
fn dot_calls() {
    let n = choose("dots", if tier() { 4 } else { 3 }) + 1;
    let (bt, mut e) = match choose("base", 5) {
        0 => ("x".to_string(), E::Sym("x")),
        1 => {
            let v = pos("b");
            (format!("[{}]", v), call("list", vec![E::Int(v)]))
        }
        2 => ("f(y)".to_string(), call("f", vec![E::Sym("y")])),
        3 => ("(x+y)".to_string(), op('+', E::Sym("x"), E::Sym("y"))),
        _ => ("\"s\"".to_string(), E::Str("s".into())),
    };
    let mut t = bt;
    let mut kind = 0;
    for i in 0..n {
        let minus = kind == 8;
        kind = choose(&format!("dot{}", i), 16);
        match kind {
            0 => {
                t += ".g";
                e = call("g", vec![e]);
            }
            1 => {
                t += ".g()";
                e = call("g", vec![e]);
            }
            2 => {
                let v = pos(&format!("v{}", i));
                t += &format!(".h({}, y)", v);
                e = call("h", vec![e, E::Int(v), E::Sym("y")]);
            }
            3 => {
                let v = pos(&format!("v{}", i));
                t += &format!(".h(y, k: {})", v);
                e = E::Call("h".into(), vec![(vec![e, E::Sym("y")], vec![("k", E::Int(v))])]);
            }
            4 => {
                let v = pos(&format!("v{}", i));
                t += &format!(".h({})(z)", v);
                e = E::Call("h".into(), vec![(vec![e, E::Int(v)], vec![]), (vec![E::Sym("z")], vec![])]);
            }
            5 => {
                t += ".g!";
                e = suf("!", call("g", vec![e]));
            }
            6 => {
                let v = pos(&format!("v{}", i));
                t += &format!(".g(y)[{}]", v);
                e = call("Index", vec![call("g", vec![e, E::Sym("y")]), E::Int(v)]);
            }
            7 => {
                t += ".n::g(y)!!";
                e = suf("!!", call("g", vec![e, E::Sym("y")]));
            }
            // what is not called stays an operand of the dot
            8 => {
                let v = pos(&format!("v{}", i));
                t += &format!(".-{}", v);
                e = call(".", vec![e, pre('-', E::Int(v))]);
            }
            9 => {
                t += ".\"s\"";
                e = call(".", vec![e, E::Str("s".into())]);
            }
            10 => {
                let v = pos(&format!("v{}", i));
                t += &format!(".[{}]", v);
                e = call(".", vec![e, call("list", vec![E::Int(v)])]);
            }
            11 => {
                let v = pos(&format!("v{}", i));
                t += &format!(".(x+{})!", v);
                e = suf("!", call(".", vec![e, op('+', E::Sym("x"), E::Int(v))]));
            }
            12 => {
                let v = pos(&format!("v{}", i));
                t += &format!(".h({}, y, z, m: {}, k: x)", v, v);
                e = E::Call("h".into(), vec![(vec![e, E::Int(v.clone()), E::Sym("y"), E::Sym("z")], vec![("k", E::Sym("x")), ("m", E::Int(v))])]);
            }
            13 => {
                if minus {
                    out_of_bound("an index after a number");
                }
                let v = BigInt::from(nat(&format!("v{}", i)));
                t += &format!(".{}[{}]", v, v);
                e = call("Index", vec![call("index", vec![e, E::Int(v.clone())]), E::Int(v)]);
            }
            14 => {
                let v = pos(&format!("v{}", i));
                t += &format!(".g[{}:][y]", v);
                e = call("Index", vec![call("g", vec![e]), call("Span", vec![E::Int(v), E::Sym("All"), E::Int(bi(1))])]);
                e = call("Index", vec![e, E::Sym("y")]);
            }
            _ => {
                // after a number it is the fraction of that
                if minus {
                    out_of_bound("an index after a number");
                }
                let v = BigInt::from(nat(&format!("v{}", i)));
                // a digit right after an index would make a fraction
                if i + 1 < n {
                    out_of_bound("an index in the middle of a chain of dots");
                }
                t += &format!(".{}", v);
                e = call("index", vec![e, E::Int(v)]);
            }
        }
    }
    // as an operand
    if n < 3 {
        let v = pos("operand");
        let i = E::Int(v.clone());
        match choose("around", 7) {
            0 => (),
            1 => {
                t = format!("{}^{}", t, v);
                e = op('^', e, i);
            }
            2 => {
                t = format!("{}^{}", v, t);
                e = op('^', i, e);
            }
            3 => {
                t = format!("-{}*{}", v, t);
                e = op('*', pre('-', i), e);
            }
            4 => {
                t = format!("{}/z-{}", t, v);
                e = op('-', op('/', e, E::Sym("z")), i);
            }
            5 => {
                t = format!("[{}, {}]", t, v);
                e = call("list", vec![e, i]);
            }
            _ => {
                t = format!("q(z, k: {})({})", t, v);
                e = E::Call("q".into(), vec![(vec![E::Sym("z")], vec![("k", e)]), (vec![i], vec![])]);
            }
        }
    }
    let w = read(&t).to_wolfram();
    show(&w);
    reach("read");
    check(same(&w, &e.w()), "a call with a dot is not the call with its first argument");
}

// ---- C17 slices -------------------------------------------------------------------------------
fn slices() {
    let groups = 1 + choose("groups", 2);
    let mut t = "a".to_string();
    let mut e = E::Sym("a");
    for g in 0..groups {
        let n = 1 + if tier() || groups == 1 { choose(&format!("indices{}", g), 2) } else { 0 };
        let mut ts = vec![];
        let mut args = vec![e];
        for i in 0..n {
            let part = |name: &str, dflt: E| -> (String, E) {
                let id = format!("{}{}{}", name, g, i);
                match choose(&id, 4) {
                    0 => (String::new(), dflt),
                    1 => {
                        let v = BigInt::from(nat(&format!("{}v", id)));
                        (v.to_string(), E::Int(v))
                    }
                    2 => {
                        let v = pos(&format!("{}v", id));
                        (format!("-{}", v), pre('-', E::Int(v)))
                    }
                    _ => ("(x+y)".into(), op('+', E::Sym("x"), E::Sym("y"))),
                }
            };
            let (ta, ea) = match choose(&format!("kind{}{}", g, i), 3) {
                0 => {
                    let v = BigInt::from(nat(&format!("v{}{}", g, i)));
                    (format!("{}", v), E::Int(v))
                }
                1 => {
                    let (s, a) = part("start", E::Int(bi(1)));
                    let (u, b) = part("end", E::Sym("All"));
                    (format!("{}:{}", s, u), call("Span", vec![a, b, E::Int(bi(1))]))
                }
                _ => {
                    let (s, a) = part("start", E::Int(bi(1)));
                    let (u, b) = part("end", E::Sym("All"));
                    let (p, c) = part("step", E::Int(bi(1)));
                    (format!("{}:{}:{}", s, u, p), call("Span", vec![a, b, c]))
                }
            };
            ts.push(ta);
            args.push(ea);
        }
        let comma = if choose(&format!("comma{}", g), 2) == 0 { "" } else { "," };
        t += &format!("[{}{}]", ts.join(", "), comma);
        e = call("Index", args);
    }
    let w = read(&t).to_wolfram();
    show(&w);
    reach("read");
    check(same(&w, &e.w()), "a slice is read with other bounds");
}

// ---- C18 calls and lists ---------------------------------------------------------------------
/// arguments and options, in order, in every group
fn call_arguments() {
    let groups = 1 + choose("groups", 2);
    let keys = ["k", "b", "z"];
    let mut gs = vec![];
    for g in 0..groups {
        let (na, no) = (choose(&format!("args{}", g), 4), choose(&format!("opts{}", g), 3));
        if groups == 2 && !tier() {
            assume(na <= 2 && no <= 1);
        }
        let args: Vec<E> = (0..na)
            .map(|i| match choose(&format!("a{}{}", g, i), 5) {
                0 => E::Int(BigInt::from(nat(&format!("v{}{}", g, i)))),
                1 => E::Sym("x"),
                2 => op('-', E::Sym("x"), E::Int(pos(&format!("v{}{}", g, i)))),
                3 => call("list", vec![E::Int(pos(&format!("v{}{}", g, i))), E::Sym("y")]),
                _ => call("g", vec![]),
            })
            .collect();
        let first = if no > 0 { choose(&format!("key{}", g), 3) as usize } else { 0 };
        let opts: Vec<(&'static str, E)> =
            (0..no as usize).map(|i| (keys[(first + i) % 3], E::Int(pos(&format!("o{}{}", g, i))))).collect();
        gs.push((args, opts));
    }
    let e = E::Call("f".into(), gs);
    // lists are written in brackets
    let t = list_text(&e);
    let w = read(&t).to_wolfram();
    show(&w);
    reach("read");
    check(same(&w, &e.w()), "a call is exported with other arguments");
}
/// the name of a called function is exported with a capital first letter, but for factor
fn call_names() {
    words(WORDS);
    let n = 1 + choose("length", if tier() { 9 } else { 8 });
    let name = name_of(n);
    let v = pos("v");
    let form = choose("form", 4);
    let t = match form {
        0 => format!("{}({})", name, v),
        1 => format!("x.{}", name),
        2 => format!("m::{}({})(y)", name, v),
        _ => name.clone(),
    };
    let w = match parse(&t) {
        Ok(a) => a.to_wolfram(),
        Err(_) => W::Skip,
    };
    let fixed = settled(&name);
    if RESERVED.contains(&fixed.as_str()) {
        out_of_bound("a reserved word as a name");
    }
    reach("read");
    let h = if fixed == "factor" { "FactorInteger".to_string() } else { capital(&name) };
    let want = match form {
        0 => W::Function(head(&h), vec![W::BigInteger(v)]),
        1 => W::Function(head(&h), vec![W::symbol("x")]),
        2 => W::Function(Box::new(W::Function(head(&h), vec![W::BigInteger(v)])), vec![W::symbol("y")]),
        _ => W::symbol(name),
    };
    check(same(&w, &want), "a call is exported under another name");
}
fn list_text(e: &E) -> String {
    match e {
        E::Call(h, g) if h == "list" => {
            format!("[{}]", g[0].0.iter().map(list_text).collect::<Vec<_>>().join(", "))
        }
        E::Call(h, groups) => {
            let mut t = h.clone();
            for (args, opts) in groups {
                let mut v: Vec<String> = args.iter().map(list_text).collect();
                v.extend(opts.iter().map(|(k, x)| format!("{}: {}", k, list_text(x))));
                t += &format!("({})", v.join(", "));
            }
            t
        }
        e => e.text(),
    }
}
/// nested lists keep every element
fn lists() {
    fn gen(path: &str, height: u32) -> E {
        let k = choose(path, if height == 0 { 2 } else { 6 });
        match k {
            0 => E::Int(pos(&format!("{}v", path))),
            1 => E::Str("s t".into()),
            k => call("list", (0..k - 2).map(|i| gen(&format!("{}{}", path, i), height - 1)).collect()),
        }
    }
    let e = gen("t", if tier() { 3 } else { 2 });
    let t = list_text(&e);
    let t = if choose("comma", 2) == 1 && t.ends_with(']') && t != "[]" && !t.ends_with("[]]") { format!("{},]", &t[..t.len() - 1]) } else { t };
    let w = read(&t).to_wolfram();
    show(&w);
    reach("read");
    check(same(&w, &e.w()), "a list is read with other elements");
}
/// a text of several expressions is kept whole
fn programs() {
    let n = 1 + choose("statements", 3);
    let mut t = String::new();
    let mut want = vec![];
    for i in 0..n {
        let v = BigInt::from(nat(&format!("v{}", i)));
        let (s, e) = match choose(&format!("s{}", i), 3) {
            0 => (format!("{}", v), E::Int(v)),
            1 => (format!("f({})", v), call("f", vec![E::Int(v)])),
            _ => (format!("x*{}", v), op('*', E::Sym("x"), E::Int(v))),
        };
        t += &s;
        t += [";", "\n", ";\n"][choose(&format!("sep{}", i), 3) as usize];
        want.push(e.w());
    }
    let want = if n == 1 { want.remove(0) } else { W::Function(head("CompoundExpression"), want) };
    match parse(&t) {
        Ok(a) => {
            let w = a.to_wolfram();
            show(&w);
            reach("read");
            check(same(&w, &want), "a program loses part of its statements");
        }
        Err(_) => {
            note("result", "error");
            check(n > 1, "a well formed expression is refused");
        }
    }
}

// ---- C19 layout ---------------------------------------------------------------------------------
/// every blank of Unicode
const BLANKS: &[(u32, u32)] = &[(9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)];
/// anything but the end of a line
const LINE: &[(u32, u32)] = &[(0, 9), (11, 12), (14, 0xD7FF), (0xE000, 0xEFFFF), (0xF0400, 0x10FFFF)];
/// anything but the end of a %%% comment
const NOTE: &[(u32, u32)] = &[(0, 0x24), (0x26, 0xD7FF), (0xE000, 0xEFFFF), (0xF0400, 0x10FFFF)];
fn filling(name: &str, kinds: u32) -> String {
    let c = |k: &str, set| letter(&format!("{}{}", name, k), set);
    let line = |mark: &str| format!("//{}{}{}\n", mark, c("a", LINE), c("b", LINE));
    match choose(name, kinds) {
        0 => String::new(),
        1 => format!("%%%{}%%%", c("a", NOTE)),
        2 => format!("{}{}", c("a", BLANKS), c("b", BLANKS)),
        3 => line("/"),
        4 => line("?"),
        5 => line("!"),
        6 => line("*"),
        7 => c("a", BLANKS).to_string(),
        _ => format!("%%%{}{}%%%", c("a", NOTE), c("b", NOTE)),
    }
}
fn layout() {
    words(WORDS);
    let v = pos("v");
    // the same pieces, with something between them
    let forms: [(Vec<&str>, E); 8] = [
        (vec!["#", "+", "x", "*", "y"], op('+', E::Int(v.clone()), op('*', E::Sym("x"), E::Sym("y")))),
        (vec!["(", "x", "-", "#", ")", "/", "y!"], op('/', op('-', E::Sym("x"), E::Int(v.clone())), suf("!", E::Sym("y")))),
        (vec!["f(", "#", ",", "x", ",", "k", ":", "y", ")"], E::Call("f".into(), vec![(vec![E::Int(v.clone()), E::Sym("x")], vec![("k", E::Sym("y"))])])),
        (vec!["[", "#", ",", "[", "x", "]", ",", "]"], call("list", vec![E::Int(v.clone()), call("list", vec![E::Sym("x")])])),
        (vec!["x", ".", "g(", "#", ")", "^", "-y"], op('^', call("g", vec![E::Sym("x"), E::Int(v.clone())]), pre('-', E::Sym("y")))),
        (vec!["a[", "#", ":", "x", "]"], call("Index", vec![E::Sym("a"), call("Span", vec![E::Int(v.clone()), E::Sym("x"), E::Int(bi(1))])])),
        (vec!["#", "\u{d7}", "x", "\u{f7}", "2.5"], op('*', E::Int(v.clone()), op('/', E::Sym("x"), E::Dec("2.5")))),
        (vec!["f(", "\"s t\"", "\u{ff0c}", "#", "\u{ff0c}", "k", "\u{ff1a}", "x", ")"], E::Call("f".into(), vec![(vec![E::Str("s t".into()), E::Int(v.clone())], vec![("k", E::Sym("x"))])])),
    ];
    let (parts, e) = &forms[choose("form", 8) as usize];
    let n = parts.len() as u32 + 1;
    // two places with any filling, the rest alike
    let (p, q) = (choose("place", n), choose("other", n));
    assume(p <= q);
    let f = filling("f", 9);
    let g = if p == q { String::new() } else { filling("g", if tier() { 9 } else { 2 }) };
    let rest = ["", " "][choose("rest", 2) as usize];
    let mut t = String::new();
    for i in 0..n {
        let gap: &str = if i == p { &f } else if i == q { &g } else { rest };
        // an operator / is not the start of a comment
        if t.ends_with('/') && gap.starts_with('/') {
            t += " ";
        }
        t += gap;
        if i < n - 1 {
            let x = parts[i as usize];
            t += &if x == "#" { v.to_string() } else { x.to_string() };
        }
    }
    judge_tree(&t, e);
}

// ---- C20 any text -------------------------------------------------------------------------------
fn any_text(n: u32) -> String {
    words(WORDS);
    (0..n).map(|i| letter(&format!("c{}", i), ANY_CHAR)).collect()
}
/// whether display and reader share a notation for all of it: strings are displayed bare
fn displayable(w: &W) -> bool {
    match w {
        W::Skip | W::String(_) => false,
        W::Function(h, a) => displayable(h) && a.iter().all(displayable),
        _ => true,
    }
}
fn total(t: &str) {
    match parse(t) {
        Ok(a) => {
            reach("read");
            let w = full(&a);
            a.to_wolfram();
            let d = a.to_string();
            note("text", &d);
            if displayable(&w) {
                match parse(&d) {
                    Err(_) => check(false, "what an expression displays as cannot be read"),
                    Ok(b) => check(same(&normal(&full(&b)), &normal(&w)), "what an expression displays as means something else"),
                }
            }
        }
        Err(e) => {
            reach("refused");
            check(!format!("{:?}", e).is_empty(), "an error without a text");
            note("text", "refused");
        }
    }
}
fn text_any() {
    let n = choose("length", if tier() { 5 } else { 4 });
    total(&any_text(n));
}
/// symbolic characters inside every construct of the language; ~ stands for them
const PLACES: [&str; 48] = [
    "1~2", "x~y", "f(~)", "f(x~)", "f(~:1)", "[~]", "[1,~]", "a[~]", "a[1~]", "a[~:]", "a[::~]", "\"~\"", "\"\"\"~\"\"\"", "#~", "##~", "0x~", "0b1~", "0o_~",
    "1.~", "10~", "\u{b6}~", "\u{204b}~", "%%%~%%%x", "x%%%~", "1 ///~\n", "(~)", "(~", "~)", "-~", "~!", "x!~", "x.~", "x.f(~)", "x^~", "{~}", "a'~(x)", "@~", "a::~", "let ~", "if ~",
    "def f~", "x = ~", "1;~", "1\n~", "f(x)(~)", "tru~", "nul~", "length(~)",
];
fn place() -> String {
    place_of(if tier() { 3 } else { 2 })
}
fn place_of(most: u32) -> String {
    words(WORDS);
    let p = PLACES[choose("place", PLACES.len() as u32) as usize];
    let n = 1 + choose("length", most);
    p.replace('~', &any_text(n))
}
fn text_inside() {
    total(&place());
}
/// numbers of any size inside every construct
fn numbers_inside() {
    words(WORDS);
    let p = PLACES[choose("place", PLACES.len() as u32) as usize];
    let v = input("v", Some(&bi(0)), None).to_string();
    // a number is kept apart from other digits and letters
    if ["1~2", "x~y", "0x~", "0b1~", "0o_~", "1.~", "10~", "a[1~]", "tru~", "nul~", "let ~"].contains(&p) {
        out_of_bound("a symbolic number inside a run of digits");
    }
    let w = ["", "-", "(", "!", "[", " "][choose("before", 6) as usize];
    let u = ["", ".", ":", " ", ",", ")", "!", "("][choose("after", 8) as usize];
    total(&p.replace('~', &format!("{}{}{}", w, v, u)));
}
/// constructs inside each other, closed or not, are answered like a short text
const WRAPS: [&str; 28] = [
    "(~)", "[~]", "[1, ~, ]", "f(~)", "f(x, k: ~)", "f(x)(~)", "x.g(~)", "x.(~)", "a[~]", "a[~:2:3]", "a[1:~]", "a[1, ::~]", "-~", "~!!", "{a: ~}", "f'(~)", "2 f(~)", "x^~", "~*1", "1 + %%% c %%% ~",
    "1 - /// c\n ~", "if (~) {1}", "def f(x) {~}", "let a = ~", "@a ~", "a::f(~)", "f( ~ ; ~", "\"~\"",
];
fn nested_text() {
    let n = WRAPS.len() as u32;
    let (a, b) = (WRAPS[choose("a", n) as usize], WRAPS[choose("b", n) as usize]);
    let depth = if tier() { 64 } else { 24 };
    let v = pos("v");
    let mut t = v.to_string();
    let mut open = v.to_string();
    for i in 0..depth {
        let w = if i % 2 == 0 { a } else { b };
        let (l, r) = w.split_at(w.find('~').unwrap());
        let r = r[1..].split('~').next().unwrap();
        t = format!("{}{}{}", l, t, r);
        open = format!("{}{}", l, open);
    }
    total(if choose("open", 2) == 1 { &open } else { &t });
}
/// a session takes any text and goes on
fn session_any() {
    let t = if choose("inside", 2) == 1 { place() } else { any_text(choose("length", 4)) };
    let mut r = Runner::default();
    match r.evaluate(&t) {
        Ok(s) => {
            reach("value");
            note("value", &s);
            check(r.last().is_ok(), "an evaluation leaves no last result");
            check(r.last().map_or(false, |l| settled(&l.to_string()) == settled(&s)), "the answer of a session is not its last result");
        }
        Err(_) => {
            reach("error");
            note("value", "error");
            check(r.last().is_err(), "a failed step leaves an earlier result as the last one");
        }
    }
    let v = pos("v");
    match r.evaluate(&format!("times({}, 3)", v)) {
        Ok(s) => check(s.parse::<BigInt>().map_or(false, |g| g == &v * bi(3)), "a step of a session gives another value than on its own"),
        Err(_) => check(false, "a step of a session fails that succeeds on its own"),
    }
}

// ---- C21 names and texts ---------------------------------------------------------------------------
/// letters of many scripts
const LETTERS: &[(u32, u32)] = &[(0x41, 0x5A), (0x61, 0x7A), (0xE0, 0xF6), (0x3B1, 0x3C9), (0x430, 0x44F), (0x3041, 0x3096), (0x4E00, 0x9FA5), (0xAC00, 0xD7A3)];
const NAME_REST: &[(u32, u32)] = &[(0x30, 0x39), (0x41, 0x5A), (0x5F, 0x5F), (0x61, 0x7A), (0xE0, 0xF6), (0x3B1, 0x3C9), (0x430, 0x44F), (0x3041, 0x3096), (0x4E00, 0x9FA5), (0xAC00, 0xD7A3)];
/// words with a meaning of their own
const RESERVED: [&str; 14] = ["using", "class", "trait", "extends", "if", "for", "return", "break", "pass", "let", "def", "null", "true", "false"];
fn name_of(n: u32) -> String {
    (0..n).map(|i| letter(&format!("n{}", i), if i == 0 { LETTERS } else { NAME_REST })).collect()
}
/// the name of the symbol as the program holds it
fn is_name(s: &AST, want: &str) -> bool {
    match s {
        AST::Symbol(s) => settled(&s.to_string()) == settled(want),
        _ => false,
    }
}
fn names() {
    words(WORDS);
    let n = 1 + choose("length", if tier() { 9 } else { 8 });
    let name = match choose("start", 2) {
        0 => name_of(n),
        _ => format!("_{}", letter("u", NAME_REST)),
    };
    let v = pos("v");
    let form = choose("form", 11);
    let t = match form {
        0 => name.clone(),
        1 => format!("{}({})", name, v),
        2 => format!("{}+{}", v, name),
        3 => format!("{} {}", v, name),
        4 => format!("x.{}", name),
        5 => format!("f({}: {})", name, v),
        6 => format!("a::{}", name),
        7 => format!("{}::a", name),
        8 => format!("[{}]", name),
        9 => format!("{}*2", name),
        _ => format!("#{}", name),
    };
    let r = parse(&t);
    if RESERVED.contains(&settled(&name).as_str()) {
        out_of_bound("a reserved word as a name");
    }
    note("tree", &match &r { Ok(a) => a.to_string(), Err(_) => "refused".into() });
    let a = match r {
        Ok(a) => a,
        Err(_) => return check(false, "a well formed name is refused"),
    };
    reach("name");
    let arg = |k: usize| match &a {
        AST::Function(_, p) if p.len() == 1 => p[0].arguments.get(k).cloned(),
        _ => None,
    };
    let ok = match form {
        0 => is_name(&a, &name),
        1 => matches!(&a, AST::Function(s, p) if settled(&s.to_string()) == settled(&name) && p.len() == 1 && p[0].arguments == [AST::integer(v)]),
        2 | 3 => arg(1).map_or(false, |s| is_name(&s, &name)),
        4 => matches!(&a, AST::Function(s, p) if settled(&s.to_string()) == settled(&name) && p.len() == 1 && p[0].arguments == [AST::symbol("x")]),
        5 => matches!(&a, AST::Function(_, p) if p.len() == 1 && p[0].arguments.is_empty() && p[0].options.len() == 1
            && p[0].options.iter().all(|(k, x)| is_name(k, &name) && *x == AST::integer(v.clone()))),
        6 => is_name(&a, &format!("a::{}", name)),
        7 => is_name(&a, &format!("{}::a", name)),
        8 | 9 => arg(0).map_or(false, |s| is_name(&s, &name)),
        _ => matches!(arg(0), Some(AST::String(s)) if settled(&s) == settled(&name)),
    };
    check(ok, "a name is read as something else");
}
/// the text between the quotes is kept, character by character
fn strings() {
    words(WORDS);
    let mut n = choose("length", if tier() { 6 } else { 5 });
    let plain: &[(u32, u32)] = &[(0, 0x21), (0x23, 0x5B), (0x5D, 0xD7FF), (0xE000, 0xEFFFF), (0xF0400, 0x10FFFF)];
    let form = choose("form", 9);
    if form == 1 || form == 4 {
        n += 1;
    }
    let mut s: String = (0..n).map(|i| letter(&format!("c{}", i), plain)).collect();
    let t = match form {
        0 => format!("\"{}\"", s),
        1 => format!("\"\"\"{}\"\"\"", s),
        2 => format!("[\"{}\"]", s),
        3 => format!("f(\"{}\", 1)", s),
        4 => {
            s = format!("{}\"{}\"\"{}", s, s, s);
            format!("\"\"\"\"\"{}\"\"\"\"\"", s)
        }
        5 => {
            s = format!("{}\\\"{}\\\\", s, s);
            format!("\"{}\"", s)
        }
        6 => {
            s = format!("{}\\\"", s);
            format!("\"{}\"", s)
        }
        7 => {
            s = format!("\\\"{}\\\"\\\"", s);
            format!("\"{}\"", s)
        }
        _ => {
            s = format!(" {}\n{}\t ", s, s);
            format!("\"{}\"", s)
        }
    };
    let a = read(&t);
    note("tree", &a.to_string());
    reach("text");
    let got = match &a {
        AST::Function(_, p) => p[0].arguments.get(0).cloned(),
        a => Some(a.clone()),
    };
    check(matches!(got, Some(AST::String(g)) if settled(&g) == settled(&s)), "a text is read as another one");
}
/// the length, first and last character of a text
fn string_functions() {
    words(WORDS);
    let n = choose("length", if tier() { 5 } else { 4 });
    // one byte, or more than one
    let wide: &[(u32, u32)] = &[(0x80, 0xD7FF), (0xE000, 0xEFFFF), (0xF0400, 0x10FFFF)];
    let narrow: &[(u32, u32)] = &[(0, 0x21), (0x23, 0x5B), (0x5D, 0x7F)];
    let cs: Vec<char> = (0..n).map(|i| letter(&format!("c{}", i), if choose(&format!("w{}", i), 2) == 1 { wide } else { narrow })).collect();
    let s: String = cs.iter().collect();
    let f = ["length", "first", "last"][choose("function", 3) as usize];
    let t = if choose("dot", 2) == 1 { format!("\"{}\".{}", s, f) } else { format!("{}(\"{}\")", f, s) };
    match Runner::default().evaluate(&t) {
        Ok(g) => {
            note("value", &g);
            reach("value");
            let want = match f {
                "length" => n.to_string(),
                _ if n == 0 => return check(false, "the empty text has a first or last character"),
                "first" => cs[0].to_string(),
                _ => cs[n as usize - 1].to_string(),
            };
            check(settled(&g) == settled(&want), "a function of a text gives something else");
        }
        Err(_) => {
            note("value", "error");
            reach("error");
            check(n == 0 && f != "length", "a function of a text is refused");
        }
    }
}
/// slots and references to earlier inputs and outputs
fn references() {
    words(WORDS);
    let v = pos("v");
    let k = 1 + choose("count", 4);
    let back = |c: &str| c.repeat(k as usize);
    let form = choose("form", 12);
    if form > 8 {
        // words with a value
        let (t, x) = [("true", "True"), ("false", "False"), ("null", "Null")][form as usize - 9];
        let gap = [" ", "\n%%% a long comment before the word %%% ", ""][choose("gap", 3) as usize];
        let text = format!("f({}{}, {},{}{})", gap, t, v, gap, t);
        let w = read(&text).to_wolfram();
        show(&w);
        reach("read");
        let want = W::Function(head("F"), vec![W::symbol(x), W::BigInteger(v), W::symbol(x)]);
        return check(same(&w, &want), "a word is read as another one");
    }
    let (t, h, a) = match form {
        0 => (format!("#{}", v), "Slot", Some(v.clone())),
        1 => ("#".to_string(), "Slot", None),
        2 => (format!("##{}", v), "Slot_sequence", Some(v.clone())),
        3 => ("##".to_string(), "Slot_sequence", None),
        4 => ("#0".to_string(), "Slot", Some(bi(0))),
        5 => (format!("\u{b6}{}", v), "Input", Some(v.clone())),
        6 => (format!("\u{204b}{}", v), "Output", Some(v.clone())),
        7 => (back("\u{b6}"), "Input", Some(bi(-(k as i64)))),
        _ => (back("\u{204b}"), "Output", Some(bi(-(k as i64)))),
    };
    let want = W::Function(head(h), a.into_iter().map(W::BigInteger).collect());
    let (t, want) = match choose("around", 3) {
        0 => (t, want),
        1 => (format!("f({})", t), W::Function(head("F"), vec![want])),
        _ => (format!("{}*x", t), W::Function(head("Times"), vec![want, W::symbol("x")])),
    };
    let w = read(&t).to_wolfram();
    show(&w);
    reach("read");
    check(same(&w, &want), "a slot or a reference is read as another one");
}

fn main() {
    let mut hs = vec![
        Harness { name: "text_any", labels: &["read", "refused"], run: text_any, cfg: |k| {
            k.bound = format!("every text of up to {} characters", if k.thorough { 4 } else { 3 });
        } },
        Harness { name: "text_inside", labels: &["read", "refused"], run: text_inside, cfg: |k| {
            k.bound = format!("{} constructs with every text of 1 to {} characters inside", PLACES.len(), if k.thorough { 3 } else { 2 });
        } },
        Harness { name: "numbers_inside", labels: &["read", "refused"], run: numbers_inside, cfg: |k| {
            k.bound = format!("{} constructs with every natural number inside, after 5 beginnings and before 7 ends", PLACES.len() - 11);
        } },
        Harness { name: "nested_text", labels: &["read", "refused"], run: nested_text, cfg: |k| {
            k.bound = format!("{} constructs in each other, alternating in pairs {} deep, closed and unclosed, every positive integer inside", WRAPS.len(), if k.thorough { 64 } else { 24 });
        } },
        Harness { name: "session_any", labels: &["value", "error"], run: session_any, cfg: |k| {
            k.window = (0, 1000);
            k.bound = format!("a session with any text of up to 3 characters, or any of up to {} inside {} constructs, then an ordinary step", if k.thorough { 3 } else { 2 }, PLACES.len());
        } },
        Harness { name: "names", labels: &["name"], run: names, cfg: |k| {
            k.bound = format!("names of up to {} letters of 8 scripts, digits and underscores in 11 places, except reserved words", if k.thorough { 9 } else { 8 });
        } },
        Harness { name: "strings", labels: &["text"], run: strings, cfg: |k| {
            k.bound = format!("texts of up to {} characters of any kind, with escapes, nested quotes and blanks at the ends, in 9 forms", if k.thorough { 5 } else { 4 });
        } },
        Harness { name: "string_functions", labels: &["value", "error"], run: string_functions, cfg: |k| {
            k.bound = format!("length, first and last of texts of up to {} characters of any kind", if k.thorough { 4 } else { 3 });
        } },
        Harness { name: "references", labels: &["read"], run: references, cfg: |k| {
            k.bound = "slots and references with every positive number, or 1 to 4 marks; the words true, false and null".into();
        } },
        Harness { name: "grouping_chain", labels: &["read"], run: grouping_chain, cfg: |k| {
            k.bound = format!("every chain of 1 to {} of the operators + - * / ^ \u{d7} \u{f7} over every positive integer, with and without spaces", if k.thorough { 5 } else { 4 });
        } },
        Harness { name: "grouping_operands", labels: &["read"], run: grouping_operands, cfg: |k| {
            k.bound = "chains of 1 or 2 operators, operands of 17 forms (for two operators one of 17 and two of 2 in the quick check, of 11 in the thorough one): prefixes, suffixes, calls, juxtaposition, over every positive integer".into();
        } },
        Harness { name: "grouping_parentheses", labels: &["read"], run: grouping_parentheses, cfg: |k| {
            k.bound = format!("chains of 2 to {} operators with one pair of parentheses anywhere, every positive integer", if k.thorough { 4 } else { 3 });
        } },
        Harness { name: "grouping_signs", labels: &["read"], run: grouping_signs, cfg: |k| {
            k.bound = format!("up to {} prefixes + - * ! \u{ac} and up to 5 ! around 5 kinds of operand, in 4 surroundings", if k.thorough { 5 } else { 4 });
        } },
        Harness { name: "grouping_products", labels: &["read"], run: grouping_products, cfg: |k| {
            k.bound = format!("2 to {} factors side by side of 4 kinds, in 4 surroundings, every positive integer", if k.thorough { 6 } else { 5 });
        } },
        Harness { name: "display_dots", labels: &["read back"], run: display_dots, cfg: |k| {
            k.bound = format!("up to {} dots with 13 kinds of right side on 5 kinds of base, every positive integer", if k.thorough { 3 } else { 2 });
        } },
        Harness { name: "display_calls", labels: &["read back"], run: display_calls, cfg: |k| {
            k.bound = format!("calls of up to {} arguments of 12 kinds, one of them twice, up to 2 options, in 5 surroundings", if k.thorough { 3 } else { 2 });
        } },
        Harness { name: "display_programs", labels: &["read back"], run: display_programs, cfg: |k| {
            k.bound = format!("up to {} statements of 9 kinds", if k.thorough { 4 } else { 3 });
        } },
        Harness { name: "evaluate_binary", labels: &["value", "error"], run: evaluate_binary, cfg: |k| {
            k.window = (-3, 6);
            k.edges = true;
            k.bound = "11 ways to write an operation of two integers, every pair of integers (exponents 0 to 5); machine integers also at the ends of their types".into();
        } },
        Harness { name: "evaluate_programs", labels: &["value", "error"], run: evaluate_programs, cfg: |k| {
            k.bound = format!("2 to {} statements of 6 kinds, every positive integer", if k.thorough { 4 } else { 3 });
        } },
        Harness { name: "internal_functions", labels: &["value", "error", "text"], run: internal_functions, cfg: |k| {
            k.window = (-8, if k.thorough { 200 } else { 60 });
            k.bound = "5 functions behind the evaluator on every integer and 7 other operands".into();
        } },
        Harness { name: "call_names", labels: &["read"], run: call_names, cfg: |k| {
            k.bound = format!("names of up to {} letters of 8 scripts, digits and underscores in 4 places", if k.thorough { 9 } else { 8 });
        } },
        Harness { name: "display_small", labels: &["read back"], run: display_small, cfg: |k| {
            k.bound = "every tree of height 2 over + - * / ^, prefix -, suffix !, symbols and every integer".into();
        } },
        Harness { name: "display_wide", labels: &["read back"], run: display_wide, cfg: |k| {
            k.bound = format!("every tree of height {} over + - * / ^, prefixes - + ! *, suffixes ! !!, symbols and every integer", if k.thorough { 2 } else { 1 });
        } },
        Harness { name: "display_chain", labels: &["read back"], run: display_chain, cfg: |k| {
            k.bound = format!("{} nested operators, prefixes - and suffixes ! !! along a branch, every integer", if k.thorough { 4 } else { 3 });
        } },
        Harness { name: "display_space", labels: &["read back"], run: display_space, cfg: |k| {
            k.bound = "products of 2 to 4 numbers and symbols side by side, every positive integer".into();
        } },
        Harness { name: "literal_decimal", labels: &["value"], run: literal_decimal, cfg: |k| {
            k.bound = "every natural number, in 4 surroundings".into();
        } },
        Harness { name: "literal_radix", labels: &["value"], run: literal_radix, cfg: |k| {
            k.bound = "every natural number in base 2, 8 and 16, both cases, 7 forms with underscores, leading zeros and a final digit".into();
        } },
        Harness { name: "literal_digits", labels: &["value"], run: literal_digits, cfg: |k| {
            k.bound = format!("every string of up to {} digits in base 10, 8 and 2, up to {} in base 16, and 2 more after an underscore, in 3 surroundings", if k.thorough { 140 } else { 70 }, if k.thorough { 6 } else { 4 });
        } },
        Harness { name: "literal_fraction", labels: &["fraction"], run: literal_fraction, cfg: |k| {
            k.bound = format!("every whole part of up to {} digits, every fraction of up to {} digits, in 4 surroundings", if k.thorough { 12 } else { 5 }, if k.thorough { 20 } else { 8 });
        } },
        Harness { name: "evaluate_tree", labels: &["value", "error"], run: evaluate_tree, cfg: |k| {
            let w = if k.thorough { 200 } else { 30 };
            k.window = (-8, w);
            k.bound = format!("18 operators and functions over every integer; the arguments of factorial and fibonacci in -8..{}, or too large for a machine word", w);
        } },
        Harness { name: "evaluate_power", labels: &["value", "error"], run: evaluate_power, cfg: |k| {
            let w = if k.thorough { 200 } else { 30 };
            k.window = (-8, w);
            k.corners = vec![two(32), two(32) + bi(1), two(33) + bi(2), two(63), two(64), two(64) + bi(1), -two(32), -two(64)];
            k.bound = format!("3 ways to write a power; bases 0 1 -1 2 -3 10 with every negative exponent, exponents in 0..{} and from 2^32 on, every other base with exponents below 6", w);
        } },
        Harness { name: "evaluate_long", labels: &["value", "error"], run: evaluate_long, cfg: |k| {
            k.bound = format!("numbers of 5 to {0} digits with any positive integer, texts of as many characters, programs of as many statements, sums, differences and products of as many numbers, side by side or nested (up to {1})", most(k.thorough), if k.thorough { 256 } else { 100 });
        } },
        Harness { name: "session_long", labels: &["value", "error"], run: session_long, cfg: |k| {
            k.bound = format!("4 patterns of 5 to {} evaluations, then one of 4 kinds, with any positive integer", most(k.thorough));
        } },
        Harness { name: "grouping_long", labels: &["read"], run: grouping_long, cfg: |k| {
            k.bound = format!("chains of 5 to {} operators, one or two of them over and over and one odd one, with any positive integer", most(k.thorough));
        } },
        Harness { name: "calls_wide", labels: &["read"], run: calls_wide, cfg: |k| {
            k.bound = format!("5 to {} arguments, elements, groups, statements or options, or calls and lists nested up to {}, with any positive integer", most(k.thorough), if k.thorough { 256 } else { 100 });
        } },
        Harness { name: "dots_long", labels: &["read"], run: dots_long, cfg: |k| {
            k.bound = format!("chains of 5 to {} dots of 3 kinds, one with any positive integer", if k.thorough { 300 } else { 130 });
        } },
        Harness { name: "slices_wide", labels: &["read"], run: slices_wide, cfg: |k| {
            k.bound = format!("slices of 5 to {} indices or spans, or as many slices, with any positive integer", most(k.thorough));
        } },
        Harness { name: "layout_long", labels: &["read"], run: layout_long, cfg: |k| {
            k.bound = format!("5 to {} blanks or comments of 7 kinds in any place of an expression with any positive integer", most(k.thorough));
        } },
        Harness { name: "display_long", labels: &["read back"], run: display_long, cfg: |k| {
            k.bound = format!("sums and the like of 5 to {} operands, or nested up to 60, with one or two operators over and over, with any positive integer", most(k.thorough));
        } },
        Harness { name: "evaluate_text", labels: &["value", "error"], run: evaluate_text, cfg: |k| {
            let w = if k.thorough { 200 } else { 30 };
            k.window = (-8, w);
            k.bound = "21 operators and functions from text over every natural number; exponents up to 5".into();
        } },
        Harness { name: "evaluate_odd", labels: &["value", "error"], run: evaluate_odd, cfg: |k| {
            k.window = (0, 12);
            k.bound = "12 function names, 0 to 3 arguments of 10 kinds, every positive integer".into();
        } },
        Harness { name: "evaluate_operators", labels: &["error"], run: evaluate_operators, cfg: |k| {
            k.bound = "11 operators outside the table and 2 suffixes, every pair of positive integers".into();
        } },
        Harness { name: "session", labels: &["value", "error"], run: session, cfg: |k| {
            k.bound = format!("every history of up to {} evaluations of 8 kinds, every positive integer", if k.thorough { 4 } else { 3 });
        } },
        Harness { name: "dot_calls", labels: &["read"], run: dot_calls, cfg: |k| {
            k.bound = format!("chains of up to {} dots of 16 kinds over 5 bases, up to 2 also in 6 surroundings, every natural number", if k.thorough { 4 } else { 3 });
        } },
        Harness { name: "slices", labels: &["read"], run: slices, cfg: |k| {
            k.bound = "1 or 2 slices of 1 or 2 indices, each part absent, a number, a negated number or a sum; every positive integer".into();
        } },
        Harness { name: "call_arguments", labels: &["read"], run: call_arguments, cfg: |k| {
            k.bound = "1 or 2 groups of up to 3 arguments of 5 kinds and up to 2 options, every natural number".into();
        } },
        Harness { name: "lists", labels: &["read"], run: lists, cfg: |k| {
            k.bound = format!("nested lists of height {} and up to 3 elements, every natural number", if k.thorough { 3 } else { 2 });
        } },
        Harness { name: "layout", labels: &["read"], run: layout, cfg: |k| {
            k.bound = "8 expressions with up to two blanks of any kind, or a comment of any of 6 kinds with any two characters in it, in any two places between their tokens, every positive integer".into();
        } },
        Harness { name: "programs", labels: &["read"], run: programs, cfg: |k| {
            k.bound = "up to 3 statements of 3 kinds with 3 separators, every natural number".into();
        } },
    ];
    hs.extend(more::harnesses());
    hs.extend(grammar::harnesses());
    drive(&hs);
}
