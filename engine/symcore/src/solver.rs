//! A piped SMT-LIB solver process.
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

pub struct Solver {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    buf: String,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub errors: u64,
    pub nanos: u128,
    log: Option<String>,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        let cmd = std::env::var("SYM_SOLVER").unwrap_or_else(|_| "z3-new".into());
        let mut child = Command::new(&cmd)
            .arg("-in")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| panic!("cannot start solver {}: {}", cmd, e));
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let mut s = Solver { child, inp, out, buf: String::new(), queries: 0, sat: 0, unsat: 0, unknown: 0, errors: 0, nanos: 0, log: std::env::var("SYM_LOG").ok().map(|_| String::new()) };
        s.send(&format!("(set-option :timeout {})\n(set-option :print-success false)\n", timeout_ms));
        s
    }
    pub fn send(&mut self, t: &str) {
        self.buf.push_str(t);
        if let Some(l) = &mut self.log {
            l.push_str(t);
        }
    }
    fn flush(&mut self) {
        let b = std::mem::take(&mut self.buf);
        let _ = self.inp.write_all(b.as_bytes());
        let _ = self.inp.flush();
    }
    pub fn check(&mut self) -> Sat {
        self.check_with("(check-sat)\n")
    }
    pub fn check_with(&mut self, command: &str) -> Sat {
        self.send(command);
        let t = Instant::now();
        self.flush();
        let mut line = String::new();
        let r = loop {
            line.clear();
            match self.out.read_line(&mut line) {
                Ok(0) | Err(_) => break Sat::Unknown,
                Ok(_) => {}
            }
            let l = line.trim();
            if l == "sat" {
                break Sat::Sat;
            } else if l == "unsat" {
                break Sat::Unsat;
            } else if l == "unknown" || l == "timeout" {
                break Sat::Unknown;
            } else if l.starts_with("(error") {
                self.errors += 1;
                eprintln!("solver error: {}", l);
                // the answer that follows an error is not trusted
                line.clear();
                let _ = self.out.read_line(&mut line);
                break Sat::Unknown;
            }
        };
        self.nanos += t.elapsed().as_nanos();
        if let (Some(l), Sat::Unknown) = (&self.log, r) {
            let f = format!("{}/q{}.smt2", std::env::var("SYM_LOG").unwrap(), self.nanos);
            let _ = std::fs::write(f, l);
        }
        self.queries += 1;
        match r {
            Sat::Sat => self.sat += 1,
            Sat::Unsat => self.unsat += 1,
            Sat::Unknown => self.unknown += 1,
        }
        r
    }
    /// (get-value (n1 n2 ...)) -> decimal strings with sign
    pub fn values(&mut self, names: &[String]) -> Option<Vec<String>> {
        if names.is_empty() {
            return Some(vec![]);
        }
        self.send(&format!("(get-value ({}))\n", names.join(" ")));
        self.flush();
        let mut text = String::new();
        let mut depth: i64 = 0;
        loop {
            let mut line = String::new();
            match self.out.read_line(&mut line) {
                Ok(0) | Err(_) => return None,
                Ok(_) => {}
            }
            if line.starts_with("(error") {
                self.errors += 1;
                return None;
            }
            for ch in line.chars() {
                if ch == '(' {
                    depth += 1
                } else if ch == ')' {
                    depth -= 1
                }
            }
            text.push_str(&line);
            if depth <= 0 {
                break;
            }
        }
        // ((a 1) (b (- 2)))
        let toks: Vec<String> =
            text.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|s| s.to_string()).collect();
        let mut res = vec![];
        let mut i = 1;
        while i < toks.len() && toks[i] == "(" {
            i += 2; // "(" name
            if toks.get(i)? == "(" {
                // ( - n )
                let v = toks.get(i + 2)?.clone();
                res.push(format!("-{}", v));
                i += 4;
            } else {
                res.push(toks.get(i)?.clone());
                i += 1;
            }
            i += 1; // ")"
        }
        if res.len() == names.len() {
            Some(res)
        } else {
            None
        }
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
