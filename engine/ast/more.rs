//! Export, files and positions.
use super::*;
use sm_ast::{
    parser::{infix_map, prefix_map, suffix_map},
    ToTex,
};
use sm_parser::{Parser, Rule, SMParser};
use std::sync::atomic::{AtomicUsize, Ordering};

// ---- C22 export ------------------------------------------------------------------------------
/// what the export of a tree has to be
pub fn mirror(a: &AST) -> W {
    match a {
        AST::EmptyStatement => W::Skip,
        AST::Program(v) => W::Function(head("CompoundExpression"), v.iter().map(mirror).collect()),
        AST::Function(s, groups) => {
            let name = settled(&s.name);
            let mut f = W::symbol(if name == "factor" { "FactorInteger".to_string() } else { capital(&s.name) });
            for g in groups {
                let mut v: Vec<W> = g.arguments.iter().map(mirror).collect();
                v.extend(g.options.iter().map(|(k, x)| W::Function(head("Rule"), vec![mirror(k), mirror(x)])));
                f = W::Function(Box::new(f), v);
            }
            f
        }
        AST::Boolean(b) => W::symbol(if *b { "True" } else { "False" }),
        AST::Integer(i) => W::BigInteger(i.clone()),
        AST::Decimal(d) => W::BigDecimal(d.to_string().into()),
        AST::Symbol(s) => W::symbol(s.name.clone()),
        AST::String(s) => W::String(s.clone().into()),
    }
}
fn judge_export(a: &AST) {
    let w = a.to_wolfram();
    show(&w);
    reach("exported");
    check(same(&w, &mirror(a)), "an expression is exported as another one");
    check(same(&a.to_wolfram(), &w), "an expression is exported in two ways");
}
/// pieces of the language with a hole
const PIECES: [&str; 40] = [
    "~", "-~", "!~", "+~", "*~", "~!", "~!!", "~+y", "y-~", "~*~", "y/~", "~^2", "y×~", "2 f(~)", "f(~)", "f(~, 3)", "f(2, ~)(4)", "f(1)(~, y)", "f(~, a: ~)", "f(b: 1, a: ~)", "factor(~)",
    "factors(~)", "m::factor(~)", "m::g(~)", "é(~)", "x_1(~)", "[~]", "[1, ~, [~]]", "x[~]", "x[~:]", "x[:~, ~]", "x[1:2:~]", "x.f(~)", "x.factor(~)", "(~).f", "x.(~)", "f(\"s\", ~)", "f(2.50, ~)", "f(true, ~, null)", "f(#1, ~, ¶¶)",
];
fn export_pieces() {
    words(WORDS);
    let n = PIECES.len() as u32;
    let outer = PIECES[choose("outer", n) as usize];
    let inner = PIECES[choose("inner", n) as usize];
    let v = pos("v");
    let mut t = outer.replace('~', &format!("({})", inner.replace('~', &v.to_string())));
    if tier() {
        t = PIECES[choose("around", n) as usize].replace('~', &format!("({})", t));
    } else if choose("statements", 2) == 1 {
        t = format!("{}; f({}); {}", t, v, t);
    }
    match parse(&t) {
        Ok(a) => judge_export(&a),
        Err(_) => {
            note("tree", "refused");
            reach("refused");
        }
    }
}
/// trees put together by hand: every integer, programs inside programs
fn export_trees() {
    fn gen(path: &str, height: u32) -> AST {
        match choose(path, if height == 0 { 7 } else { 10 }) {
            0 => AST::EmptyStatement,
            1 => AST::Boolean(true),
            2 => AST::Boolean(false),
            3 => AST::integer(input(&format!("{}v", path), None, None)),
            4 => AST::string("a \"b\" \\ c"),
            5 => AST::symbol("m::n::x"),
            6 => parse("0.050").unwrap_or(AST::EmptyStatement),
            7 => AST::Program((0..choose(&format!("{}n", path), 3)).map(|i| gen(&format!("{}{}", path, i), height - 1)).collect()),
            k => {
                // a call with the arguments of the tree
                let mut f = parse(if k == 8 { "factor(1, 2)(a: 3)" } else { "f(1)(2, z: 3)" }).unwrap_or(AST::EmptyStatement);
                // in one of its places
                let mut at = choose(&format!("{}at", path), 3) as i32;
                if let AST::Function(_, groups) = &mut f {
                    for g in groups.iter_mut() {
                        for x in g.arguments.iter_mut().chain(g.options.values_mut()) {
                            if at == 0 {
                                *x = gen(&format!("{}a", path), height - 1);
                            }
                            at -= 1;
                        }
                    }
                }
                f
            }
        }
    }
    judge_export(&gen("t", 2));
}
/// whatever is read from any text in any place
fn export_any() {
    match parse(&place()) {
        Ok(a) => judge_export(&a),
        Err(_) => {
            note("tree", "refused");
            reach("refused");
        }
    }
}
/// many of everything
fn export_long() {
    words(WORDS);
    let n = size();
    let at = [0, n / 2, n - 1][choose("at", 3) as usize];
    let v = pos("v");
    let item = |i: usize| if i == at { v.to_string() } else { i.to_string() };
    let all = |sep: &str| (0..n).map(item).collect::<Vec<_>>().join(sep);
    let form = choose("form", 9);
    let deep = n.min(if tier() { 256 } else { 100 });
    let t = match form {
        0 => format!("f({})", all(",")),
        1 => format!("[{}]", all(", ")),
        2 => format!("f({})", all(")(")),
        3 => all("; "),
        4 => format!("f({})", (0..n).map(|i| format!("k{}: {}", i, item(i))).collect::<Vec<_>>().join(", ")),
        5 => all("+"),
        6 => format!("x[{}]", all("][")),
        7 => format!("{}{}{}", "f(1, ".repeat(deep), v, ")".repeat(deep)),
        _ => format!("f(\"{}\", {})", "ab".repeat(n), v),
    };
    judge_export(&read(&t));
}

// ---- C23 files ----------------------------------------------------------------------------------
/// a directory of its own, gone at the end of the path
struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new() -> Scratch {
        static N: AtomicUsize = AtomicUsize::new(0);
        let d = std::env::temp_dir().join(format!("sm-files-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).expect("a scratch directory");
        Scratch(d)
    }
    fn path(&self, name: &str) -> String {
        self.0.join(name).to_string_lossy().into_owned()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// parse_file writes the export of the text, or fails and leaves the target alone
fn file_export() {
    words(WORDS);
    let v = pos("v");
    let texts = [
        "~", "f(~, k: -~)", "[1, ~]\n", "\n\n  ~ + x  ", "a; ~; b", "\"é ~ \\\" text\"", "~ /// comment\n* 2", "%%% ~ %%%", "", "x[~:]\r\n", "0xFF*~", "f(~", "~ +", "let x = ~", "\u{feff}~", "α(~)",
        "\"a\r\nb\tc  d\n\" + ~", "\"\u{feff} \u{1}\r\" ; ~\r", "\"\"\"\n a \n\n ~\t\n\"\"\"",
    ];
    let k = choose("text", texts.len() as u32 + 1) as usize;
    let t = if k < texts.len() { texts[k].replace('~', &v.to_string()) } else { place_of(if tier() { 2 } else { 1 }) };
    run_file(&t, k < texts.len());
}
/// long texts, long outputs
fn file_long() {
    words(WORDS);
    let sizes = [5, 16, 33, 64, 100, 128, 137, 256, 300, 512, 1000, 1025];
    let n = sizes[choose("size", if tier() { 12 } else { 9 }) as usize];
    let v = pos("v");
    let t = match choose("form", 4) {
        0 => format!("f({}{})", "1, ".repeat(n * 4), v),
        1 => format!("{}{}", " ".repeat(n * 30), v),
        2 => format!("f(\"{}\", {})", "é".repeat(n * 30), v),
        _ => format!("{};{}", "x+1\n".repeat(n), v),
    };
    run_file(&t, true);
}
fn run_file(t: &str, fixed: bool) {
    let s = Scratch::new();
    let (from, mut to) = (s.path("in.sm"), s.path("out.m"));
    std::fs::write(&from, t).unwrap();
    // what stands in the target already
    let before: Option<String> = match if fixed || tier() { choose("before", 5) } else { 3 * choose("before", 2) } {
        0 => None,
        1 => Some(String::new()),
        2 => Some("short".into()),
        3 => Some(format!("a long text that no export is likely to cover {}", "+ 0123456789".repeat(4000))),
        _ => {
            to = from.clone();
            Some(t.to_string())
        }
    };
    if let Some(b) = &before {
        std::fs::write(&to, b).unwrap();
    }
    let p = ParserSettings::default();
    let want = p.parse(t).map(|a| a.to_wolfram_string());
    let mut got = vec![];
    // a second time gives the same again
    for _ in 0..(if to == from { 1 } else { 2 }) {
        got.push((p.parse_file(&from, &to).is_ok(), std::fs::read(&to).ok()));
    }
    let source = std::fs::read(&from).ok();
    let others = std::fs::read_dir(&s.0).map(|d| d.count()).unwrap_or(0);
    for (ok, out) in got {
        match &want {
            Ok(w) => {
                reach("written");
                check(ok, "a file that can be read is refused");
                let out = out.map(|o| String::from_utf8_lossy(&o).into_owned());
                check(out.map_or(false, |o| settled(&o) == settled(w)), "a file holds something else than the export of its source");
            }
            Err(_) => {
                reach("refused");
                check(!ok, "a file that cannot be read is accepted");
                check(out.as_deref() == before.as_ref().map(|b| b.as_bytes()), "a refused file changes the target");
            }
        }
    }
    if to != from {
        check(source.as_deref() == Some(t.as_bytes()), "the source of an export is changed");
        let made = want.is_ok() || before.is_some();
        check(others == 1 + made as usize, "an export leaves other files behind");
    }
    note("done", if want.is_ok() { "written" } else { "refused" });
}
/// sources that are missing or no text, targets that cannot be written
fn file_trouble() {
    trouble(false)
}
/// the kind of error such files give, and files whose text is refused
fn errors_files() {
    trouble(true)
}
fn trouble(kinds: bool) {
    let s = Scratch::new();
    let v = pos("v");
    let (from, to) = (s.path("in.sm"), s.path("out.m"));
    let mut target = to.clone();
    let case = choose("kind", if kinds { 13 } else { 10 });
    match case {
        0 => (),
        10 => std::fs::write(&from, format!("f({}", v)).unwrap(),
        11 => std::fs::write(&from, format!("if {} {{1}}", v)).unwrap(),
        12 => {
            std::fs::write(&from, format!("{} +", v)).unwrap();
            target = s.path("none/out.m");
        }
        1 => std::fs::create_dir(&from).unwrap(),
        2 => std::fs::write(&from, [0xff, 0xfe, b'1']).unwrap(),
        3 => std::fs::write(&from, [b'1', b'+', 0xc3]).unwrap(),
        4 => {
            std::fs::write(&from, v.to_string()).unwrap();
            target = s.path("none/out.m");
        }
        5 => {
            std::fs::write(&from, v.to_string()).unwrap();
            target = s.path("dir");
            std::fs::create_dir(&target).unwrap();
        }
        6 => {
            std::fs::write(&from, v.to_string()).unwrap();
            target = String::new();
        }
        8 | 9 => {
            // a device without room behind a link: opening it works, writing does not
            let t = if case == 8 { v.to_string() } else { format!("[{}{}]", "1,".repeat(4000), v) };
            std::fs::write(&from, t).unwrap();
            target = s.path("full.m");
            std::os::unix::fs::symlink("/dev/full", &target).unwrap();
        }
        _ => std::fs::write(&from, [b'"', 0xed, 0xa0, 0x80, b'"']).unwrap(),
    }
    let there = choose("there", 2) == 1;
    if there {
        std::fs::write(&to, "kept").unwrap();
    }
    let r = ParserSettings::default().parse_file(&from, &target);
    reach("refused");
    note("done", if r.is_ok() { "ok" } else { "refused" });
    // whoever replaces the link by a file has written the export after all
    let replaced = (case == 8 || case == 9) && std::fs::symlink_metadata(&target).map_or(false, |m| m.is_file() && m.len() > 0);
    check(r.is_err() || replaced, "trouble with a file is not reported");
    if kinds {
        let want = match &r {
            _ if replaced => return,
            Err(e) => kind(e),
            Ok(_) => return,
        };
        reach(want);
        check(want == if case < 10 { "file" } else { match ParserSettings::default().parse(&std::fs::read_to_string(&from).unwrap()) { Err(e) => kind(&e), Ok(_) => "none" } }, "trouble with a file is another kind of error");
    }
    check(std::fs::read(&to).ok() == if there { Some(b"kept".to_vec()) } else { None }, "a refused file changes the target");
}

// ---- C24 positions --------------------------------------------------------------------------------
type At = (usize, usize);
/// a text with the places its parts were written at
#[derive(Default)]
struct Marked {
    text: String,
    /// in the order of the tree: begin, end, whether the end is exact
    marks: Vec<(usize, usize, bool)>,
    gap_at: usize,
    gaps: usize,
    gap: String,
    line_gap: bool,
}
impl Marked {
    fn put(&mut self, s: &str) {
        self.text += s;
    }
    /// a place for a blank; `inline` takes no line break
    fn blank(&mut self, inline: bool) {
        if self.gaps == self.gap_at && !(inline && self.line_gap) {
            let g = self.gap.clone();
            self.put(&g);
        }
        self.gaps += 1;
    }
    fn here(&self) -> usize {
        self.text.chars().count()
    }
    fn mark(&mut self) -> usize {
        self.marks.push((0, 0, true));
        self.marks.len() - 1
    }
    fn number(&mut self, path: &str) {
        let d = [(0x31, 0x39)];
        let t: String = (0..1 + choose(&format!("{}d", path), 2)).map(|i| letter(&format!("{}d{}", path, i), &d)).collect();
        self.put(&t);
    }
    fn name(&mut self, path: &str) {
        // no letter a keyword begins with
        let t = letter(&format!("{}n", path), &[(0x3B1, 0x3C9), (0x4E00, 0x9FA5), (0x1D400, 0x1D454)]);
        self.put(&t.to_string());
    }
    fn gen(&mut self, path: &str, height: u32) {
        let (l, r) = (format!("{}l", path), format!("{}r", path));
        let k = choose(path, if height == 0 { 2 } else { 18 });
        match k {
            0 => self.number(path),
            1 => self.name(path),
            2 | 3 => {
                // a call, of one group or two
                self.name(path);
                for g in 0..k - 1 {
                    let m = self.mark();
                    self.blank(true);
                    let a = self.here();
                    self.put("(");
                    self.blank(false);
                    if g == 0 {
                        self.gen(&l, height - 1);
                        self.blank(false);
                        self.put(",");
                    }
                    self.blank(false);
                    self.gen(&r, if g == 0 { height - 1 } else { 0 });
                    self.blank(false);
                    self.put(")");
                    self.marks[m] = (a, self.here(), true);
                }
            }
            4 => {
                let m = self.mark();
                let a = self.here();
                self.put("[");
                self.blank(false);
                self.gen(&l, height - 1);
                self.blank(false);
                self.put(",");
                self.blank(false);
                self.gen(&r, height - 1);
                self.blank(false);
                self.put("]");
                self.marks[m] = (a, self.here(), true);
            }
            5 | 6 => {
                // prefixes
                let m = self.mark();
                let a = self.here();
                self.put(if k == 5 { "-" } else { "!" });
                self.marks[m] = (a, a + 1, true);
                self.put("(");
                self.blank(false);
                self.gen(&l, height - 1);
                self.blank(false);
                self.put(")");
            }
            7 | 8 => {
                // suffixes
                let m = self.mark();
                self.put("(");
                self.gen(&l, height - 1);
                self.blank(false);
                self.put(")");
                let a = self.here();
                self.put(if k == 7 { "!" } else { "!!" });
                self.marks[m] = (a, self.here(), true);
            }
            9 | 10 => {
                // a slice, of an index or a span
                let m = self.mark();
                self.name(path);
                self.blank(true);
                let a = self.here();
                self.put("[");
                self.blank(false);
                if k == 9 {
                    self.gen(&l, height - 1);
                } else {
                    let span = self.mark();
                    let b = self.here();
                    self.gen(&l, height - 1);
                    self.blank(false);
                    self.put(":");
                    self.blank(false);
                    self.gen(&r, height - 1);
                    self.marks[span] = (b, self.here(), false);
                }
                self.blank(false);
                self.put("]");
                self.marks[m] = (a, self.here(), true);
            }
            11 | 12 => {
                // a chain of operators: the whole of it
                let m = self.mark();
                self.put("(");
                self.blank(false);
                let a = self.here();
                self.put("(");
                self.gen(&l, height - 1);
                self.put(")");
                self.blank(false);
                self.put(if k == 11 { "*" } else { "-" });
                self.blank(false);
                self.put("(");
                self.gen(&r, height - 1);
                self.put(")");
                self.marks[m] = (a, self.here(), false);
                self.blank(false);
                self.put(")");
            }
            13 => {
                // prefixes before, an index and a suffix behind
                let count = 1 + choose(&format!("{}p", path), 2);
                for i in 0..count {
                    let (m, a) = (self.mark(), self.here());
                    self.put(if i == 0 { "-" } else { "!" });
                    self.marks[m] = (a, a + 1, true);
                }
                let behind = choose(&format!("{}b", path), 3);
                let suffix = if behind > 0 { Some(self.mark()) } else { None };
                let m = self.mark();
                self.name(path);
                let a = self.here();
                self.put("[");
                self.blank(false);
                self.gen(&l, height - 1);
                self.blank(false);
                self.put("]");
                self.marks[m] = (a, self.here(), true);
                if let Some(m) = suffix {
                    let a = self.here();
                    self.put(if behind == 1 { "!" } else { "!!" });
                    self.marks[m] = (a, self.here(), true);
                }
            }
            14 | 15 => {
                // a dot: the whole chain, except for a call, which has its own group
                let form = choose(&format!("{}o", path), 3);
                let chain = if k == 15 { Some(self.mark()) } else { None };
                self.put("(");
                self.blank(false);
                let a = self.here();
                if k == 15 {
                    self.number(&r);
                    self.blank(false);
                    self.put("+");
                    self.blank(false);
                }
                let m = self.mark();
                self.put("(");
                self.gen(&l, height - 1);
                self.put(")");
                self.blank(false);
                self.put(".");
                match form {
                    0 => self.name(path),
                    1 => self.number(path),
                    _ => self.name(path),
                }
                let b = self.here();
                if form == 2 {
                    self.put("(");
                    self.blank(false);
                    self.number(&format!("{}c", path));
                    self.put(")");
                }
                let end = self.here();
                self.marks[m] = if form == 2 { (b, end, true) } else { (a, end, false) };
                if let Some(c) = chain {
                    self.marks[c] = (a, end, false);
                }
                self.blank(false);
                self.put(")");
            }
            16 => {
                // a product written side by side
                let m = self.mark();
                let a = self.here();
                self.number(path);
                self.blank(true);
                self.name(path);
                self.marks[m] = (a, self.here(), true);
            }
            _ => {
                let m = self.mark();
                let a = self.here();
                self.put(["#1", "##", "\u{b6}\u{b6}", "\u{204b}12"][choose(&format!("{}s", path), 4) as usize]);
                self.marks[m] = (a, self.here(), true);
            }
        }
    }
    /// line and column of a character, from 1
    fn place(&self, n: usize) -> At {
        let (mut line, mut col) = (1, 1);
        let cs: Vec<char> = self.text.chars().take(n).collect();
        for (i, c) in cs.iter().enumerate() {
            if *c == '\n' {
                line += 1;
                col = 1;
            } else if *c == '\r' && self.text.chars().nth(i + 1) == Some('\n') {
                // a pair is one break
            } else {
                col += 1;
            }
        }
        (line, col)
    }
}
fn positions_of(a: &AST, file: &str, out: &mut Vec<(At, At)>) -> bool {
    match a {
        AST::Function(_, groups) => groups.iter().all(|g| {
            out.push((g.position.start, g.position.end));
            g.position.file == file && g.arguments.iter().all(|x| positions_of(x, file, out)) && g.options.values().all(|x| positions_of(x, file, out))
        }),
        AST::Program(v) => v.iter().all(|x| positions_of(x, file, out)),
        _ => true,
    }
}
fn positions() {
    words(WORDS);
    let gaps = ["", " ", "\n", "\r\n ", "%%% a\nb %%%", "/// c\n  ", "\u{3000}"];
    let g = gaps[choose("gap", if tier() { 7 } else { 5 }) as usize];
    let file = ["", "anonymous", "dir/é.sm"][choose("file", 3) as usize].to_string();
    let mut m = Marked { gap: g.to_string(), line_gap: g.contains('\n'), ..Marked::default() };
    m.gap_at = if g.is_empty() { 0 } else { choose("at", 6) as usize };
    let before = choose("before", 3);
    m.put(["", "\n\n", "α+1;\n"][before as usize]);
    let lead = before == 2;
    m.gen("t", if tier() { 2 } else { 1 });
    if m.gaps <= m.gap_at && !g.is_empty() {
        out_of_bound("fewer places for a blank");
    }
    let p = ParserSettings { file: file.clone(), refine: true };
    let a = match p.parse(&m.text) {
        Ok(a) => a,
        Err(_) => return check(false, "a well formed expression is refused"),
    };
    let a = match (lead, a) {
        (false, a) => a,
        (true, AST::Program(v)) if v.len() == 2 => v[1].clone(),
        _ => return check(false, "a text of two expressions is read as something else"),
    };
    let mut got = vec![];
    check(positions_of(&a, &file, &mut got), "a part of an expression names another file");
    reach("placed");
    note("positions", &format!("{:?}", got));
    check(got.len() == m.marks.len(), "an expression has other parts");
    for (g, (b, e, exact)) in got.iter().zip(&m.marks) {
        check(g.0 == m.place(*b), "a part of an expression begins somewhere else");
        let end = m.place(*e);
        if *exact {
            check(g.1 == end, "a part of an expression ends somewhere else");
        } else {
            // blanks behind it may count
            check(g.1 >= end && g.1 <= m.place(m.here()), "a part of an expression ends before its last character");
        }
    }
}
/// far down and far to the right
fn positions_long() {
    words(WORDS);
    let n = size();
    let v = letter("v", &[(0x31, 0x39)]);
    let (t, want): (String, (At, At)) = match choose("form", 4) {
        0 => (format!("{}f({})", "\n".repeat(n), v), ((n + 1, 2), (n + 1, 5))),
        1 => (format!("{}f({})", " ".repeat(n), v), ((1, n + 2), (1, n + 5))),
        2 => (format!("{}({})", "é".repeat(n), v), ((1, n + 1), (1, n + 4))),
        _ => (format!("f({}{})", "\r\n".repeat(n), v), ((1, 2), (n + 1, 3))),
    };
    let p = ParserSettings { file: "f".repeat(n), refine: false };
    let a = match p.parse(&t) {
        Ok(a) => a,
        Err(_) => return check(false, "a well formed expression is refused"),
    };
    let mut got = vec![];
    check(positions_of(&a, &p.file, &mut got), "a part of an expression names another file");
    reach("placed");
    note("positions", &format!("{:?}", got));
    check(got == [want], "a part of an expression is placed somewhere else");
}

// ---- C26 TeX ---------------------------------------------------------------------------------------
const BARE: [&str; 18] = [
    "sin", "cos", "tan", "cot", "sec", "csc", "arcsin", "arccos", "arctan", "arccot", "arcsec", "arccsc", "arcsinh", "arccosh", "arctanh", "arccoth", "arcsech", "arccsch",
];
/// what an operator's call is written with: its sign, and 0 for infix, 1 for prefix, 2 for suffix
fn operator(a: &AST) -> Option<(String, u32)> {
    let (s, count) = match a {
        AST::Function(s, g) if g.len() == 1 && g[0].options.is_empty() => (s, g[0].arguments.len()),
        _ => return None,
    };
    let name = s.name.as_str();
    if count > 1 {
        let signs = ["+", "-", "*", "/", "//", "^", name];
        return signs.iter().find(|o| *s == infix_map(o)).map(|o| (o.to_string(), 0));
    }
    if count == 1 {
        let pre = ["+", "-", "*", "!", "¬"].iter().find(|o| *s == prefix_map(o)).map(|o| (o.to_string(), 1));
        return pre.or(["!", "!!"].iter().find(|o| *s == suffix_map(o)).map(|o| (o.to_string(), 2)));
    }
    None
}
/// the TeX form an expression has to have, but for blanks and the marks `compact` drops
fn tex_of(a: &AST) -> String {
    macro_rules! terms {
        ($g:expr) => {{
            let options = $g.options.iter().map(|(k, v)| format!("{}:{}", tex_of(k), tex_of(v)));
            $g.arguments.iter().map(tex_of).chain(options).collect::<Vec<_>>().join(",")
        }};
    }
    match a {
        AST::EmptyStatement => String::new(),
        AST::Boolean(b) => if *b { "true" } else { "false" }.into(),
        AST::Integer(i) => i.to_string(),
        AST::Decimal(d) => d.to_string(),
        AST::Symbol(s) => s.name.clone(),
        AST::String(s) => s.clone(),
        AST::Program(v) => v.iter().map(tex_of).collect::<Vec<_>>().join(";"),
        AST::Function(s, groups) => {
            let args = || groups[0].arguments.iter();
            match operator(a) {
                // the operands of an infix operator are shown as in an output
                Some((o, 0)) => args().map(|x| x.to_string()).collect::<Vec<_>>().join(if o == "*" { " " } else { &o }),
                Some((o, k)) => {
                    let x = &groups[0].arguments[0];
                    let x = if operator(x).is_some() { format!("({})", tex_of(x)) } else { tex_of(x) };
                    if k == 1 { o + &x } else { x + &o }
                }
                None if s.name == "List" && groups.len() == 1 && groups[0].options.is_empty() => format!("\\{{{}\\}}", terms!(groups[0])),
                None => {
                    let mut t = s.name.clone();
                    for (i, g) in groups.iter().enumerate() {
                        let bare = i == 0 && BARE.contains(&s.name.as_str()) && g.options.is_empty() && g.arguments.len() == 1 && operator(&g.arguments[0]).is_none();
                        t += &if bare { format!(" {}", terms!(g)) } else { format!("({})", terms!(g)) };
                    }
                    t
                }
            }
        }
    }
}
/// without the marks that only concern looks: commands for fonts and brackets, braces, needless blanks
fn compact(t: &str) -> String {
    let mut t = t.replace("\\\\", "\\");
    for c in ["\\left", "\\right", "\\operatorname", "\\mathtt", "\\text"] {
        t = t.replace(c, "");
    }
    t = t.replace("\\{", "\u{1}").replace("\\}", "\u{2}").replace(|c| "\\{}".contains(c), "").replace('\u{1}', "\\{").replace('\u{2}', "\\}");
    let word = |c: char| c.is_alphanumeric() || c == '_' || c as u32 >= 0xF0000;
    // a blank that keeps two words apart stays
    let mut kept = String::new();
    let chars: Vec<char> = t.chars().collect();
    for (i, c) in chars.iter().enumerate() {
        if *c != ' ' {
            kept.push(*c);
        } else {
            let next = chars[i..].iter().find(|c| **c != ' ');
            if kept.chars().last().map_or(false, word) && next.map_or(false, |c| word(*c)) {
                kept.push(' ');
            }
        }
    }
    kept
}
/// whether a text in it has characters that mean something to TeX
fn has_marks(a: &AST) -> bool {
    match a {
        AST::String(s) => s.contains(|c| "\\{}".contains(c)),
        AST::Program(v) => v.iter().any(has_marks),
        AST::Function(_, g) => g.iter().any(|g| g.arguments.iter().any(has_marks) || g.options.values().any(has_marks)),
        _ => false,
    }
}
fn judge_tex(a: &AST) {
    let t = a.to_tex();
    reach("shown");
    note("tex", &t);
    check(a.to_tex() == t, "an expression has two TeX forms");
    if !has_marks(a) {
        check(settled(&compact(&t)) == settled(&compact(&tex_of(a))), "the TeX form is that of another expression");
    }
}
fn judge_read(t: &str) {
    match parse(t) {
        Ok(a) => judge_tex(&a),
        Err(_) => {
            note("tex", "refused");
            reach("refused");
        }
    }
}
/// constructs inside each other
fn tex_pieces() {
    words(WORDS);
    let n = PIECES.len() as u32;
    let outer = PIECES[choose("outer", n) as usize];
    let inner = PIECES[choose("inner", n) as usize];
    let mut t = outer.replace('~', &format!("({})", inner.replace('~', &pos("v").to_string())));
    if tier() {
        t = PIECES[choose("around", n) as usize].replace('~', &format!("({})", t));
    } else if choose("statements", 2) == 1 {
        t = format!("{}; f(1); {}", t, t);
    }
    judge_read(&t);
}
/// functions that need no brackets, next to some that do
fn tex_functions() {
    words(WORDS);
    let more = ["sinh", "f", "List", "log", "m::sin", "é"];
    let k = choose("name", (BARE.len() + more.len()) as u32) as usize;
    let name = if k < BARE.len() { BARE[k] } else { more[k - BARE.len()] };
    let inner = PIECES[choose("inner", PIECES.len() as u32) as usize].replace('~', &pos("v").to_string());
    let forms = ["()", "(~)", "(~, x)", "(x, ~, y)", "(k: ~)", "(~, k: x)", "(x)(~)", "(~)(x)(y)", "(~)[1]", "(~)!", "(x).f(~)", "()(~)"];
    let mut t = format!("{}{}", name, forms[choose("form", forms.len() as u32) as usize].replace('~', &inner));
    match choose("outside", 4) {
        0 => (),
        1 => t = format!("-({})", t),
        2 => t = format!("cos({})", t),
        _ => t = format!("1+{}", t),
    }
    judge_read(&t);
}
/// whatever is read from any text in any place
fn tex_any() {
    judge_read(&place());
}
/// what a session has to show: every integer, and whatever else comes out
fn tex_results() {
    words(WORDS);
    let (v, w) = (int("v"), int("w"));
    let forms = ["", "", "", "", "fibonacci(7)", "5!", "\"a b\"", "first(\"é~\")", "x_1", "m::n::x", "true", "false", "2.50", "0.1", "null", "", "f(1)", "x+1", "(~)!"];
    let k = choose("form", forms.len() as u32) as usize;
    // no text denotes a negative number the evaluator takes: those are put in as trees
    let mut c = Context::default();
    let r = match k {
        0 | 1 | 2 | 3 => {
            let t = ["1+2", "1*2", "plus(1, 2)", "1; 2"][k];
            let mut a = read(t);
            let mut vs = vec![v.clone(), w.clone()].into_iter();
            match &mut a {
                AST::Program(p) => {
                    p[0] = AST::integer(v.clone());
                    p[1] = AST::integer(w.clone());
                }
                a => plant(a, &mut vs),
            }
            a.forward(&mut c).ok()
        }
        _ => {
            let mut r = Runner::default();
            let _ = r.evaluate(&forms[k].replace('~', "3").replace('@', "4"));
            r.last().ok()
        }
    };
    match r {
        None => {
            note("tex", "none");
            reach("none");
        }
        Some(a) => {
            if let AST::Integer(i) = &a {
                reach("number");
                check(a.to_tex() == i.to_string(), "the TeX form of a number is another number");
            }
            judge_tex(&a);
        }
    }
}
/// many of everything
fn tex_long() {
    words(WORDS);
    let n = size();
    let at = [0, n / 2, n - 1][choose("at", 3) as usize];
    let v = pos("v");
    let item = |i: usize| if i == at { v.to_string() } else { i.to_string() };
    let all = |sep: &str| (0..n).map(item).collect::<Vec<_>>().join(sep);
    let deep = n.min(if tier() { 256 } else { 100 });
    let t = match choose("form", 11) {
        0 => format!("f({})", all(",")),
        1 => format!("[{}]", all(", ")),
        2 => format!("sin({})", all(")(")),
        3 => all("; "),
        4 => format!("f({})", (0..n).map(|i| format!("k{}: {}", i, item(i))).collect::<Vec<_>>().join(", ")),
        5 => all("+"),
        6 => all(" "),
        7 => format!("{}{}{}", "f(1, ".repeat(deep), v, ")".repeat(deep)),
        8 => format!("{}{}{}", "sin(-".repeat(deep), v, ")".repeat(deep)),
        9 => format!("{}{}", v, "!".repeat(deep)),
        _ => format!("f(\"{}\", {})", "ab".repeat(n), v),
    };
    judge_read(&t);
}

// ---- C28 operators -----------------------------------------------------------------------------------
/// every operator with the function it has in common with others of its kind, infix first
const FORMS: [(&str, u32); 27] = [
    ("~+$", 0), ("~-$", 1), ("~*$", 2), ("~×$", 2), ("~/$", 3), ("~÷$", 3), ("~^$", 4), ("~ /@ $", 5), ("~ // $", 6), ("~ % $", 7), ("~=$", 8), ("~==$", 9), ("~>$", 10), ("~>=$", 11), ("~⋅$", 12), ("~⊗$", 13), ("~⊙$", 14), ("~.(1+$)", 15),
    ("+~", 20), ("-~", 21), ("*~", 22), ("!~", 23), ("¬~", 23), ("~!", 30), ("~!!", 31), ("~'", 32), ("~?", 33),
];
const INFIX: usize = 18;
const OPERANDS: [&str; 8] = ["(#)", "x", "f(#)", "(# + 1)", "[#, 2]", "\"s\"", "(-#)", "2.50"];
fn operators() {
    words(WORDS);
    let n = FORMS.len() as u32;
    let (i, j) = (choose("one", n) as usize, choose("other", n) as usize);
    let (v, w) = (pos("v"), pos("w"));
    let a = OPERANDS[choose("left", 8) as usize].replace('#', &v.to_string());
    let b = OPERANDS[choose("right", if tier() { 8 } else { 3 }) as usize].replace('#', &w.to_string());
    let (s, t) = (FORMS[i].0.replace('~', &a).replace('$', &b), FORMS[j].0.replace('~', "y").replace('$', "z"));
    let (one, other) = match (parse(&s), parse(&t)) {
        (Ok(x), Ok(y)) => (x, y),
        (x, _) => {
            // what an operator stands for does not hang on its operands
            let plain = parse(&FORMS[i].0.replace('~', "y").replace('$', "z"));
            check(x.is_ok() == plain.is_ok(), "an operator is refused for some operands");
            note("tree", "refused");
            reach("refused");
            return;
        }
    };
    reach("read");
    let same_operator = FORMS[i].1 == FORMS[j].1;
    let parts = |x: &AST| match x {
        AST::Function(f, g) if g.len() == 1 && g[0].options.is_empty() => Some((f.to_string(), g[0].arguments.clone())),
        _ => None,
    };
    match (parts(&one), parts(&other)) {
        (Some((f, args)), Some((g, _))) => {
            note("name", &f);
            check((f == g) == same_operator, "two operators are one function, or one operator is two");
            let count = if i < INFIX { 2 } else { 1 };
            check(args.len() == count, "an operator takes another number of operands");
            check(bare(&args[0]) == bare(&read(&a)), "an operator has another first operand");
            if count == 2 {
                let b = if FORMS[i].0.contains('(') { format!("1+{}", b) } else { b };
                check(bare(&args[1]) == bare(&read(&b)), "an operator has another second operand");
            }
        }
        _ => check(false, "an operator is not a call of one function"),
    }
    let export = |x: &AST| match x.to_wolfram() {
        W::Function(h, _) => format!("{:?}", h),
        _ => String::new(),
    };
    check((export(&one) == export(&other)) == same_operator, "two operators are exported as one function");
    // side by side in one text
    if let Ok(AST::Function(_, g)) = parse(&format!("[{}, {}]", s, t)) {
        check(g.len() == 1 && g[0].arguments.len() == 2 && bare(&g[0].arguments[0]) == bare(&one) && bare(&g[0].arguments[1]) == bare(&other), "an operator means something else beside another");
    } else {
        check(false, "two operators in a list are refused");
    }
    // the sign it was written with is displayed, or another spelling of it
    let shown = one.to_string();
    let signs: Vec<&str> = FORMS.iter().filter(|f| f.1 == FORMS[i].1).map(|f| f.0.split('(').next().unwrap_or("").trim_matches(|c| "~$ ".contains(c))).collect();
    check(signs.iter().any(|o| settled(&shown).contains(&settled(o))), "an operator is displayed without its sign");
}
/// without the positions
fn bare(a: &AST) -> AST {
    let mut a = a.clone();
    fn strip(a: &mut AST) {
        match a {
            AST::Program(v) => v.iter_mut().for_each(strip),
            AST::Function(_, g) => {
                for g in g.iter_mut() {
                    g.position = Default::default();
                    g.arguments.iter_mut().for_each(strip);
                    g.options.values_mut().for_each(strip);
                }
            }
            _ => (),
        }
    }
    strip(&mut a);
    a
}

// ---- C29 what went before ----------------------------------------------------------------------------
fn judge_again(t: &str, between: &str, parser: u32) {
    let settings = |k: u32| ParserSettings { file: if k == 0 { "anonymous" } else { "other.sm" }.to_string(), refine: k < 2 };
    let mine = settings(parser);
    let first = ParserSettings::default().parse(t);
    let _ = mine.parse(between);
    let mut r = Runner::default();
    let _ = r.evaluate(between);
    let forms = |a: &AST| (a.to_string(), a.to_tex(), a.to_wolfram());
    let before = first.as_ref().map(forms);
    if let Ok(b) = parse(between) {
        let _ = forms(&b);
        let _ = b.forward(&mut Context::default());
    }
    for again in [mine.parse(t), mine.clone().parse(t), ParserSettings::default().parse(t)] {
        match (&first, &again, &before) {
            (Ok(a), Ok(b), Ok(f)) => {
                reach("read");
                check(bare(a) == bare(b), "a text is read in another way the second time");
                let g = forms(b);
                check(settled(&g.0) == settled(&f.0), "an expression is displayed in another way the second time");
                check(settled(&g.1) == settled(&f.1), "an expression has another TeX form the second time");
                check(same(&g.2, &f.2), "an expression is exported in another way the second time");
                let (mut p, mut q) = (vec![], vec![]);
                places_of(a, &mut p);
                places_of(b, &mut q);
                check(p == q, "an expression has another place the second time");
            }
            (Err(a), Err(b), _) => {
                reach("refused");
                check(format!("{:?}", a) == format!("{:?}", b), "a text is refused for another reason the second time");
            }
            _ => check(false, "a text is refused at one time and read at another"),
        }
    }
    // and its value
    let mut fresh = Runner::default();
    match (r.evaluate(t), fresh.evaluate(t)) {
        (Ok(a), Ok(b)) => check(settled(&a) == settled(&b), "an evaluation gives another value after another one"),
        (Err(a), Err(b)) => check(kind(&a) == kind(&b), "an evaluation fails in another way after another one"),
        _ => check(false, "an evaluation depends on what went before"),
    }
}
fn places_of(a: &AST, out: &mut Vec<(At, At)>) {
    match a {
        AST::Program(v) => v.iter().for_each(|x| places_of(x, out)),
        AST::Function(_, g) => g.iter().for_each(|g| {
            out.push((g.position.start, g.position.end));
            g.arguments.iter().chain(g.options.values()).for_each(|x| places_of(x, out));
        }),
        _ => (),
    }
}
/// any text, after one of a few others
fn again_any() {
    let t = place();
    let between = ["f(1, a: 2)(3); x", "(", "3!", "\"a\" ", "if x {1}"];
    let k = choose("between", if tier() { 15 } else { 3 });
    judge_again(&t, between[k as usize % 5], k % 3);
}
/// one construct after another, which may be the same with another number
fn again_pieces() {
    words(WORDS);
    let n = PIECES.len() as u32;
    let (v, w) = (pos("v"), pos("w"));
    let (one, other) = (PIECES[choose("one", n) as usize], PIECES[choose("other", n) as usize]);
    // the product of a hundred thousand factors is not waited for
    for (p, n) in [(one, &v), (other, &w)] {
        if p.ends_with('!') && *n > bi(1000) {
            out_of_bound("a factorial beyond 1000");
        }
    }
    let t = one.replace('~', &v.to_string());
    let b = other.replace('~', &w.to_string());
    judge_again(&t, &b, choose("parser", 3));
}

// ---- C30 heads -----------------------------------------------------------------------------------------
fn judge_heads(a: &AST) {
    use sm_ast::internal::head;
    let h = head(a);
    let std = |n: &str| AST::symbol(format!("std::core::{}", n));
    reach("head");
    let want = match a {
        AST::EmptyStatement | AST::Program(_) => AST::EmptyStatement,
        AST::Boolean(_) => std("Boolean"),
        AST::Integer(_) => std("Integer"),
        AST::Decimal(_) => std("Decimal"),
        AST::Symbol(_) => std("Symbol"),
        AST::String(_) => std("String"),
        AST::Function(s, g) => {
            reach(if g.len() > 1 { "call of a call" } else { "call" });
            match g.split_last() {
                Some((last, rest)) => {
                    // applied to the last arguments again it is the whole
                    let whole = match &h {
                        AST::Symbol(f) if rest.is_empty() => AST::Function(f.clone(), vec![last.clone()]),
                        AST::Function(f, p) => AST::Function(f.clone(), p.iter().cloned().chain(Some(last.clone())).collect()),
                        _ => AST::EmptyStatement,
                    };
                    check(whole == *a, "a head and the last arguments are not the whole call");
                    if rest.is_empty() { AST::Symbol(s.clone()) } else { AST::Function(s.clone(), rest.to_vec()) }
                }
                None => std("Symbol"),
            }
        }
    };
    check(h == want, "an expression has the head of another kind");
    match a {
        AST::Program(v) => v.iter().for_each(judge_heads),
        AST::Function(_, g) => g.iter().for_each(|g| g.arguments.iter().chain(g.options.values()).for_each(judge_heads)),
        _ => (),
    }
}
fn heads() {
    words(WORDS);
    let n = PIECES.len() as u32;
    let inner = PIECES[choose("inner", n) as usize].replace('~', &pos("v").to_string());
    let t = PIECES[choose("outer", n) as usize].replace('~', &format!("({})", inner));
    let t = ["@", "@; f(1)(2, 3)(4); @", "f(@)(@)(x: @)(@)", "f()(@)()", ""][choose("form", 5) as usize].replace('@', &t);
    match parse(&t) {
        Ok(a) => {
            note("head", &sm_ast::internal::head(&a).to_string());
            judge_heads(&a);
        }
        Err(_) => note("head", "refused"),
    }
}

// ---- C15 clones of a session -------------------------------------------------------------------------
/// a session and its clone go on by themselves
fn session_clones() {
    words(WORDS);
    let steps = ["times(@, 3)", "@", "1 +", "foo(@)", "plus(@, ~)", "\"a@\"", "f(@; 2)"];
    let pick = |name: &str, v: &BigInt| steps[choose(name, if tier() { 7 } else { 6 }) as usize].replace('@', &v.to_string()).replace('~', "7");
    let mut own: Vec<Vec<String>> = vec![vec![], vec![]];
    let mut r = Runner::default();
    let before = choose("before", 3);
    for i in 0..before {
        let t = pick(&format!("b{}", i), &pos(&format!("v{}", i)));
        let _ = r.evaluate(&t);
        own[0].push(t.clone());
        own[1].push(t);
    }
    let mut rs = vec![r.clone(), r];
    for i in 0..(if tier() { 3 } else { 2 }) {
        let who = choose(&format!("who{}", i), 2) as usize;
        let t = pick(&format!("s{}", i), &pos(&format!("w{}", i)));
        let got = rs[who].evaluate(&t);
        own[who].push(t.clone());
        let alone = Runner::default().evaluate(&t);
        match (&got, &alone) {
            (Ok(a), Ok(b)) => {
                reach("value");
                note("value", a);
                check(settled(a) == settled(b), "a step of a session with a clone gives another value than on its own");
            }
            (Err(a), Err(b)) => {
                reach("error");
                check(kind(a) == kind(b), "a step of a session with a clone fails in another way than on its own");
            }
            _ => check(false, "a step of a session with a clone is not answered as on its own"),
        }
        // each remembers its own last step only
        for k in 0..2 {
            let want = own[k].last().map(|t| Runner::default().evaluate(t));
            match (rs[k].last(), want) {
                (Ok(l), Some(Ok(s))) => check(settled(&l.to_string()) == settled(&s), "the last result of a session is that of another"),
                (Err(e), Some(Err(_))) | (Err(e), None) => check(kind(&e) == "empty", "a session without a result gives another kind of error"),
                _ => check(false, "the last result of a session is that of another"),
            }
        }
    }
}

// ---- C27 errors --------------------------------------------------------------------------------------
fn kind(e: &SMError) -> &'static str {
    match e {
        SMError::Unknown => "unknown",
        SMError::IOError(_) => "file",
        SMError::ParseError(_) => "text",
        SMError::EmptyContainer(_) => "empty",
        SMError::Overflow => "overflow",
        SMError::Infinity => "infinity",
        SMError::ComplexInfinity => "complex infinity",
        SMError::Unimplemented(_) => "unimplemented",
        SMError::Unreachable(_) => "unreachable",
    }
}
fn judge_kind<X>(r: &Result<X, SMError>, want: &[&str]) {
    match r {
        Ok(_) => {
            reach("value");
            note("result", "value");
        }
        Err(e) => {
            let k = kind(e);
            reach(k);
            note("result", k);
            check(want.contains(&k), "an error of another kind");
        }
    }
}
/// evaluations of any two integers that have no value
fn errors_values() {
    words(WORDS);
    let (v, w) = (int("v"), int("w"));
    let texts = ["1!", "factorial(1)", "fibonacci(1)", "1^2", "power(1, 2)", "1-2", "1/2", "+1", "-1", "1!!", "f(1)", "f(1)(2)", "plus(1)", "plus(1, 2, 3)", "factorial(1, 2)", "length(1)", "first(1)", "last([1])", "factorial(x)", "x+1", "plus(1, a: 2)", "[1, 2]", "x[1]", "x.1", "#1", "¶1"];
    let k = choose("text", texts.len() as u32) as usize;
    let mut a = read(texts[k]);
    plant(&mut a, &mut vec![v.clone(), w.clone(), v.clone()].into_iter());
    let r = match choose("how", 2) {
        0 => a.forward(&mut Context::default()),
        // behind another statement
        _ => AST::Program(vec![AST::integer(1), a, AST::integer(2)]).forward(&mut Context::default()),
    };
    let zero = bi(0);
    let want: &[&str] = match k {
        0 | 1 => if v < zero { &["complex infinity"] } else { &["overflow"] },
        2 => &["overflow"],
        3 | 4 => {
            if w < zero {
                &["unimplemented"]
            } else if v == zero && w == zero {
                &["unknown"]
            } else {
                &["overflow"]
            }
        }
        _ => &["unimplemented"],
    };
    judge_kind(&r, want);
}
/// the functions behind the evaluator
fn errors_functions() {
    words(WORDS);
    use sm_ast::internal::*;
    let v = int("v");
    let a = match choose("operand", 6) {
        0 => AST::integer(v.clone()),
        1 => AST::string(""),
        2 => AST::string("é"),
        3 => AST::symbol("x"),
        4 => read("[]"),
        _ => read("2.5"),
    };
    let k = choose("function", 5);
    let r = match k {
        0 => factorial(&a),
        1 => fibonacci(&a),
        2 => length(&a),
        3 => first(&a),
        _ => last(&a),
    };
    let negative = v < bi(0);
    let want: &[&str] = match (&a, k) {
        (AST::Integer(_), 0) if negative => &["complex infinity"],
        (AST::Integer(_), 0) | (AST::Integer(_), 1) => &["overflow"],
        (AST::String(s), 3) | (AST::String(s), 4) if s.is_empty() => &["empty"],
        _ => &["unimplemented"],
    };
    if want == ["empty"] || want == ["complex infinity"] {
        check(r.is_err(), "what has no value gets one");
    }
    judge_kind(&r, want);
}
/// texts that are refused, and what a session says about them
fn errors_texts() {
    let t = place();
    let read = parse(&t);
    let grammar = SMParser::parse(Rule::program, &t).map(|_| ()).map_err(|e| e.to_string());
    match (&read, &grammar) {
        (Err(SMError::ParseError(m)), Err(g)) => check(m == g, "an error about a text names another place"),
        (_, Err(_)) => check(false, "a text that is not of the language gives another kind of error"),
        (r, Ok(_)) => check(r.as_ref().err().map_or(true, |e| kind(e) == "unimplemented"), "a text of the language gives another kind of error"),
    }
    let mut r = Runner::default();
    let got = r.evaluate(&t);
    match (&read, &got) {
        (Err(a), Err(b)) => check(kind(a) == kind(b) && format!("{:?}", a) == format!("{:?}", b), "a session gives another error than the reader"),
        (Err(_), Ok(_)) => check(false, "a session answers a text that is refused"),
        _ => (),
    }
    judge_kind(&got, &["text", "unimplemented", "overflow", "complex infinity", "empty", "unknown"]);
    match (&got, r.last()) {
        (Err(_), Err(e)) => check(kind(&e) == "empty", "a session without a result gives another kind of error"),
        (Err(_), Ok(_)) => check(false, "a failed evaluation has a result"),
        (Ok(_), l) => check(l.is_ok(), "an evaluation has no result"),
    }
}

pub fn harnesses() -> Vec<Harness> {
    vec![
        Harness { name: "export_pieces", labels: &["exported"], run: export_pieces, cfg: |k| {
            k.bound = format!("{} constructs in each other, {}, every positive integer", PIECES.len(), if k.thorough { "3 deep" } else { "2 deep, alone or as a program of 3 statements" });
        } },
        Harness { name: "export_trees", labels: &["exported"], run: export_trees, cfg: |k| {
            k.bound = "trees of height 2 put together by hand of 7 kinds of leaves (every integer), programs of up to 2 statements and 2 calls with two groups and an option".into();
        } },
        Harness { name: "export_any", labels: &["exported", "refused"], run: export_any, cfg: |k| {
            k.bound = format!("{} constructs with every text of 1 to {} characters inside", PLACES.len(), if k.thorough { 3 } else { 2 });
        } },
        Harness { name: "export_long", labels: &["exported"], run: export_long, cfg: |k| {
            k.bound = format!("9 kinds of expression with 5 to {} parts, one of them any positive integer", most(k.thorough));
        } },
        Harness { name: "tex_pieces", labels: &["shown"], run: tex_pieces, cfg: |k| {
            k.bound = format!("{} constructs in each other, {}, every positive integer", PIECES.len(), if k.thorough { "3 deep" } else { "2 deep, alone or as a program of 3 statements" });
        } },
        Harness { name: "tex_functions", labels: &["shown"], run: tex_functions, cfg: |k| {
            k.bound = format!("24 functions with 12 forms of arguments and {} constructs inside, in 4 surroundings, every positive integer", PIECES.len());
        } },
        Harness { name: "tex_any", labels: &["shown", "refused"], run: tex_any, cfg: |k| {
            k.bound = format!("{} constructs with every text of 1 to {} characters inside", PLACES.len(), if k.thorough { 3 } else { 2 });
        } },
        Harness { name: "tex_results", labels: &["shown", "number", "none"], run: tex_results, cfg: |k| {
            k.bound = "19 evaluations, 4 of them with every two integers".into();
        } },
        Harness { name: "tex_long", labels: &["shown"], run: tex_long, cfg: |k| {
            k.bound = format!("11 kinds of expression with 5 to {} parts or up to {} levels, one of them any positive integer", most(k.thorough), if k.thorough { 256 } else { 100 });
        } },
        Harness { name: "errors_values", labels: &["value", "overflow", "complex infinity", "unimplemented", "unknown"], run: errors_values, cfg: |k| {
            k.window = (-8, if k.thorough { 100 } else { 30 });
            k.bound = "26 expressions, alone or inside a program, with every integer (arguments the evaluator counts up to in a window, or too large for a machine word)".into();
        } },
        Harness { name: "errors_functions", labels: &["value", "overflow", "complex infinity", "unimplemented", "empty"], run: errors_functions, cfg: |k| {
            k.window = (-8, if k.thorough { 100 } else { 30 });
            k.bound = "5 functions with 6 kinds of operand, every integer".into();
        } },
        Harness { name: "errors_texts", labels: &["value", "text", "unimplemented"], run: errors_texts, cfg: |k| {
            k.bound = format!("{} constructs with every text of 1 to {} characters inside", PLACES.len(), if k.thorough { 3 } else { 2 });
        } },
        Harness { name: "errors_files", labels: &["file", "text"], run: errors_files, cfg: |k| {
            k.bound = "13 kinds of source or target that cannot be read or written, and texts that are refused".into();
        } },
        Harness { name: "operators", labels: &["read", "refused"], run: operators, cfg: |k| {
            k.bound = format!("every two of {} operators, with 8 kinds of first and {} kinds of second operand, every positive integer", FORMS.len(), if k.thorough { 8 } else { 3 });
        } },
        Harness { name: "again_any", labels: &["read", "refused"], run: again_any, cfg: |k| {
            k.bound = format!("{} constructs with every text of 1 to {} characters inside, after {} other texts, by 3 parsers", PLACES.len(), if k.thorough { 3 } else { 2 }, if k.thorough { 5 } else { 3 });
        } },
        Harness { name: "again_pieces", labels: &["read"], run: again_pieces, cfg: |k| {
            k.bound = format!("{} constructs after one of as many, by 3 parsers, every two positive integers (of which a factorial is taken: up to 1000)", PIECES.len());
        } },
        Harness { name: "heads", labels: &["head", "call", "call of a call"], run: heads, cfg: |k| {
            k.bound = format!("{} constructs in each other, in 5 surroundings, every positive integer; the heads of all their parts", PIECES.len());
        } },
        Harness { name: "session_clones", labels: &["value", "error"], run: session_clones, cfg: |k| {
            k.bound = format!("a session of up to 2 steps, cloned, and {} steps of {} kinds of either, every positive integer", if k.thorough { 3 } else { 2 }, if k.thorough { 7 } else { 6 });
        } },
        Harness { name: "file_export", labels: &["written", "refused"], run: file_export, cfg: |k| {
            k.bound = format!("19 texts with every positive integer, and {} constructs with every text of up to {} characters inside, written over 5{} kinds of target, twice", PLACES.len(), if k.thorough { 2 } else { 1 }, if k.thorough { "" } else { " or 2" });
        } },
        Harness { name: "file_long", labels: &["written"], run: file_long, cfg: |k| {
            k.bound = format!("4 kinds of text of up to {} characters, written over 5 kinds of target", 30 * most(k.thorough));
        } },
        Harness { name: "file_trouble", labels: &["refused"], run: file_trouble, cfg: |k| {
            k.bound = "10 kinds of source or target that cannot be read or written".into();
        } },
        Harness { name: "positions", labels: &["placed"], run: positions, cfg: |k| {
            k.bound = format!("expressions of height {} of 18 kinds with symbolic names and numbers, {} kinds of blank in any of the first 6 places, 3 beginnings, 3 file names", if k.thorough { 2 } else { 1 }, if k.thorough { 6 } else { 4 });
        } },
        Harness { name: "positions_long", labels: &["placed"], run: positions_long, cfg: |k| {
            k.bound = format!("5 to {} lines or characters before or inside a call", most(k.thorough));
        } },
    ]
}
