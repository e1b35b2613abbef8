//! collects the string literals of the code under test: the words it may compare texts with
use std::{env, fs, path::Path};
fn walk(dir: &Path, out: &mut Vec<String>) {
    let mut files: Vec<_> = fs::read_dir(dir).unwrap().map(|f| f.unwrap().path()).collect();
    files.sort();
    for p in files {
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().map_or(false, |e| e == "rs") {
            literals(&fs::read_to_string(&p).unwrap(), out);
        }
    }
}
fn literals(s: &str, out: &mut Vec<String>) {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '/' if c.get(i + 1) == Some(&'/') => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            '\'' if c.get(i + 1) == Some(&'\\') => i += 4,
            '\'' if c.get(i + 2) == Some(&'\'') => i += 3,
            '"' => {
                let mut t = String::new();
                i += 1;
                while i < c.len() && c[i] != '"' {
                    if c[i] == '\\' {
                        i += 1;
                        t.push(match c.get(i) {
                            Some('n') => '\n',
                            Some('t') => '\t',
                            Some('r') => '\r',
                            Some(x) => *x,
                            None => ' ',
                        });
                    } else {
                        t.push(c[i]);
                    }
                    i += 1;
                }
                i += 1;
                if !t.is_empty() && !t.contains('{') && t.chars().count() <= 16 {
                    out.push(t);
                }
            }
            _ => i += 1,
        }
    }
}
fn main() {
    let src = "/repo/projects/sm-ast/src";
    let mut w = vec![];
    walk(Path::new(src), &mut w);
    w.sort();
    w.dedup();
    println!("cargo:rerun-if-changed={}", src);
    let out = env::var("OUT_DIR").unwrap();
    fs::write(Path::new(&out).join("words.rs"), format!("&{:?}", w)).unwrap();
    // the grammar file, and the rules of the reader under their names
    let parser = "/repo/projects/sm-parser";
    println!("cargo:rerun-if-changed={}", parser);
    fs::write(Path::new(&out).join("grammar.pest"), fs::read_to_string(format!("{}/simple-math.pest", parser)).unwrap_or_default()).unwrap();
    let code = fs::read_to_string(format!("{}/src/sm_parser.rs", parser)).unwrap_or_default();
    let names: Vec<String> = code
        .split("enum Rule")
        .nth(1)
        .and_then(|c| Some(c[c.find('{')? + 1..c.find('}')?].to_string()))
        .unwrap_or_default()
        .split(',')
        .map(|n| n.trim().to_string())
        .filter(|n| !n.is_empty() && n.chars().all(|c| c.is_alphanumeric() || c == '_'))
        .collect();
    let list: Vec<String> = names.iter().map(|n| format!("({:?}, Rule::{})", n, n)).collect();
    fs::write(Path::new(&out).join("rules.rs"), format!("&[{}]", list.join(", "))).unwrap();
}
