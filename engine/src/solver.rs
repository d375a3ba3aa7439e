//! SMT solving through a pipe.

use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

pub struct Solver {
    child: Child,
    input: ChildStdin,
    output: BufReader<ChildStdout>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub nanos: u64,
    pub max_nanos: u64,
    pub log: Option<std::fs::File>,
    command: Vec<String>,
    since: u64,
}

#[derive(PartialEq, Debug)]
pub enum Answer {
    Sat,
    Unsat,
}

impl Solver {
    pub fn new(command: &[String]) -> Result<Self, String> {
        let (child, input, output) = spawn(command)?;
        Ok(Solver {
            child,
            input,
            output,
            queries: 0,
            sat: 0,
            unsat: 0,
            nanos: 0,
            max_nanos: 0,
            log: None,
            command: command.to_vec(),
            since: 0,
        })
    }

    /// Decide the conjunction of the assertions.
    ///
    /// With `exact`, bytes are applications of an uninterpreted function so
    /// that equal positions have equal contents; otherwise, they are free.
    /// On satisfiable, the values of the requested expressions are returned.
    pub fn check(
        &mut self,
        pool: &Pool,
        asserts: &[E],
        exact: bool,
        want: &[E],
    ) -> Result<(Answer, HashMap<E, u128>), String> {
        self.since += 1;
        if self.since > 20000 {
            // keep the solver process small
            let _ = self.child.kill();
            let _ = self.child.wait();
            let (c, i, o) = spawn(&self.command)?;
            self.child = c;
            self.input = i;
            self.output = o;
            self.since = 0;
        }
        let mut text = String::with_capacity(4096);
        text.push_str("(push 1)\n");
        let mut done: HashSet<E> = HashSet::new();
        let mut tapes: HashSet<u32> = HashSet::new();
        let mut vars: HashSet<u32> = HashSet::new();
        for &a in asserts.iter().chain(want.iter()) {
            emit(pool, a, exact, &mut done, &mut tapes, &mut vars, &mut text);
        }
        for &a in asserts {
            text.push_str(&format!("(assert {})\n", reference(pool, a)));
        }
        text.push_str("(check-sat)\n");
        let start = Instant::now();
        self.send(&text)?;
        let mut line = self.line()?;
        let mut values = HashMap::new();
        let answer = match line.as_str() {
            "sat" => Answer::Sat,
            "unsat" => Answer::Unsat,
            _ => {
                if line.starts_with("(error") {
                    return Err(format!("solver error {line} for\n{text}"));
                }
                self.send("(pop 1)\n")?;
                line.insert_str(0, "solver answered ");
                return Err(line);
            }
        };
        if answer == Answer::Sat && !want.is_empty() {
            let mut q = String::from("(get-value (");
            for &e in want {
                q.push_str(&reference(pool, e));
                q.push(' ');
            }
            q.push_str("))\n");
            self.send(&q)?;
            let mut depth = 0i64;
            let mut all = String::new();
            loop {
                let l = self.line()?;
                if l.starts_with("(error") {
                    return Err(format!("solver error {l}"));
                }
                for c in l.chars() {
                    match c {
                        '(' => depth += 1,
                        ')' => depth -= 1,
                        _ => {}
                    }
                }
                all.push_str(&l);
                all.push(' ');
                if depth <= 0 {
                    break;
                }
            }
            let found = parse_values(&all);
            if found.len() != want.len() {
                return Err(format!("unexpected values {all}"));
            }
            for (e, v) in want.iter().zip(found) {
                values.insert(*e, v);
            }
        }
        self.send("(pop 1)\n")?;
        let n = start.elapsed().as_nanos() as u64;
        self.nanos += n;
        self.max_nanos = self.max_nanos.max(n);
        self.queries += 1;
        match answer {
            Answer::Sat => self.sat += 1,
            Answer::Unsat => self.unsat += 1,
        }
        if let Some(f) = self.log.as_mut() {
            let _ = writeln!(f, "{}; {:?} {}us\n(pop 1)", text, answer, n / 1000);
        }
        Ok((answer, values))
    }

    /// Change the time limit, which zero resets.
    pub fn limit(&mut self, milliseconds: u64) -> Result<(), String> {
        if self.command[0].contains("z3") {
            let milliseconds = if milliseconds == 0 { 120000 } else { milliseconds };
            self.send(&format!("(set-option :timeout {milliseconds})\n"))?;
        }
        Ok(())
    }

    fn send(&mut self, s: &str) -> Result<(), String> {
        self.input.write_all(s.as_bytes()).map_err(|e| e.to_string())?;
        self.input.flush().map_err(|e| e.to_string())
    }
    fn line(&mut self) -> Result<String, String> {
        let mut l = String::new();
        loop {
            l.clear();
            let n = self.output.read_line(&mut l).map_err(|e| e.to_string())?;
            if n == 0 {
                return Err("the solver closed its output".into());
            }
            let t = l.trim();
            if !t.is_empty() {
                return Ok(t.to_string());
            }
        }
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn spawn(command: &[String]) -> Result<(Child, ChildStdin, BufReader<ChildStdout>), String> {
    let mut child = Command::new(&command[0])
        .args(&command[1..])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| format!("{}: {e}", command[0]))?;
    let mut input = child.stdin.take().unwrap();
    let output = BufReader::new(child.stdout.take().unwrap());
    let _ = input.write_all(b"(set-option :produce-models true)\n(set-logic QF_UFBV)\n");
    Ok((child, input, output))
}

fn reference(pool: &Pool, e: E) -> String {
    if let Some(v) = pool.cv(e) {
        return const_smt(v, pool.w(e));
    }
    match pool.node(e) {
        Node::Var(i) => format!("v{i}"),
        _ => format!("n{e}"),
    }
}

fn emit(
    pool: &Pool,
    e: E,
    exact: bool,
    done: &mut HashSet<E>,
    tapes: &mut HashSet<u32>,
    vars: &mut HashSet<u32>,
    out: &mut String,
) {
    if pool.cv(e).is_some() || !done.insert(e) {
        return;
    }
    match pool.node(e) {
        Node::Var(i) => {
            if vars.insert(*i) {
                let w = pool.w(e);
                if w == 1 {
                    out.push_str(&format!("(declare-const v{i} Bool)\n"));
                } else {
                    out.push_str(&format!("(declare-const v{i} (_ BitVec {w}))\n"));
                    let (lo, hi) = pool.range(e);
                    if lo > 0 {
                        out.push_str(&format!("(assert (bvuge v{i} {}))\n", const_smt(lo, w)));
                    }
                    if hi < mask(w) {
                        out.push_str(&format!("(assert (bvule v{i} {}))\n", const_smt(hi, w)));
                    }
                }
            }
            return;
        }
        Node::Byte(..) if !exact => {
            out.push_str(&format!("(declare-const n{e} (_ BitVec 8))\n"));
            return;
        }
        Node::Byte(t, _) => {
            if tapes.insert(*t) {
                out.push_str(&format!("(declare-fun tape{t} ((_ BitVec 64)) (_ BitVec 8))\n"));
            }
        }
        _ => {}
    }
    for k in pool.kids(e) {
        emit(pool, k, exact, done, tapes, vars, out);
    }
    let w = pool.w(e);
    let s = pool.smt_node(e, &|x| reference(pool, x));
    if w == 1 {
        out.push_str(&format!("(define-fun n{e} () Bool {s})\n"));
    } else {
        out.push_str(&format!("(define-fun n{e} () (_ BitVec {w}) {s})\n"));
    }
}

fn parse_values(s: &str) -> Vec<u128> {
    // ((term value) ...); the values are #x..., #b..., true, false
    let mut out = vec![];
    let mut tokens = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        match c {
            '(' | ')' | ' ' | '\n' | '\t' => {
                if !cur.is_empty() {
                    tokens.push(std::mem::take(&mut cur));
                }
                if c == '(' || c == ')' {
                    tokens.push(c.to_string());
                }
            }
            _ => cur.push(c),
        }
    }
    for i in 1..tokens.len() {
        if tokens[i] == ")" && tokens[i - 1] != ")" {
            let t = &tokens[i - 1];
            if let Some(h) = t.strip_prefix("#x") {
                out.push(u128::from_str_radix(h, 16).unwrap_or(0));
            } else if let Some(h) = t.strip_prefix("#b") {
                out.push(u128::from_str_radix(h, 2).unwrap_or(0));
            } else if t == "true" {
                out.push(1);
            } else if t == "false" {
                out.push(0);
            }
        }
    }
    out
}
