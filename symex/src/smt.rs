//! SMT layer: terms over F_r are emitted as QF_FF (z3 5.x finite fields), solved, models read back.
use std::collections::HashMap;
use std::io::Write;
use std::process::{Command, Stdio};
use std::time::Instant;
use symcore::{arena, Fr, Node, TermId};

pub const R_DEC: &str = "52435875175126190479447740508185965837690552500527637822603658699938581184513";

#[derive(Clone, Debug)]
pub enum Form {
    Zero(TermId),
    NonZero(TermId),
    And(Vec<Form>),
    Or(Vec<Form>),
}
impl Form {
    pub fn not(&self) -> Form {
        match self {
            Form::Zero(t) => Form::NonZero(*t),
            Form::NonZero(t) => Form::Zero(*t),
            Form::And(v) => Form::Or(v.iter().map(|f| f.not()).collect()),
            Form::Or(v) => Form::And(v.iter().map(|f| f.not()).collect()),
        }
    }
    fn terms(&self, out: &mut Vec<TermId>) {
        match self {
            Form::Zero(t) | Form::NonZero(t) => out.push(*t),
            Form::And(v) | Form::Or(v) => v.iter().for_each(|f| f.terms(out)),
        }
    }
    fn emit(&self, s: &mut String) {
        match self {
            Form::Zero(t) => s.push_str(&format!("(= t{} (as ff0 F))", t)),
            Form::NonZero(t) => s.push_str(&format!("(not (= t{} (as ff0 F)))", t)),
            Form::And(v) => {
                if v.is_empty() {
                    s.push_str("true");
                    return;
                }
                s.push_str("(and");
                for f in v {
                    s.push(' ');
                    f.emit(s);
                }
                s.push(')');
            }
            Form::Or(v) => {
                if v.is_empty() {
                    s.push_str("false");
                    return;
                }
                s.push_str("(or");
                for f in v {
                    s.push(' ');
                    f.emit(s);
                }
                s.push(')');
            }
        }
    }
    pub fn holds(&self, env: &mut Env) -> bool {
        match self {
            Form::Zero(t) => env.eval(*t).is_zero(),
            Form::NonZero(t) => !env.eval(*t).is_zero(),
            Form::And(v) => v.iter().all(|f| f.holds(env)),
            Form::Or(v) => v.iter().any(|f| f.holds(env)),
        }
    }
}

/// challenges and random draws are assumed to be non-zero (and different from one)
pub fn assumed_nonzero(name: &str) -> bool {
    name.starts_with("ch") && name.as_bytes().get(2).map_or(false, |c| c.is_ascii_digit()) || name.starts_with("rnd") || name.starts_with("nz_")
}

#[derive(Clone, Debug)]
pub enum Res {
    Unsat,
    Sat(HashMap<String, Fr>),
    Unknown(String),
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub trivial: u64,
    pub time: f64,
    pub max_time: f64,
    pub terms: u64,
}
thread_local! {
    pub static STATS: std::cell::RefCell<Stats> = std::cell::RefCell::new(Stats::default());
}
pub fn stats() -> Stats {
    STATS.with(|s| s.borrow().clone())
}

/// concrete evaluation of terms under an assignment
pub struct Env {
    pub vals: HashMap<String, Fr>,
    memo: HashMap<TermId, Fr>,
    /// value of variables the assignment does not mention
    pub default: Fr,
    pub rnd: Option<u64>,
}
impl Env {
    pub fn new(vals: HashMap<String, Fr>) -> Env {
        Env { vals, memo: HashMap::new(), default: Fr::zero(), rnd: None }
    }
    /// deterministic pseudo-random values for all variables
    pub fn random(seed: u64) -> Env {
        Env { vals: HashMap::new(), memo: HashMap::new(), default: Fr::zero(), rnd: Some(seed) }
    }
    fn var(&mut self, name: &str) -> Fr {
        if let Some(v) = self.vals.get(name) {
            return *v;
        }
        let v = match self.rnd {
            None => {
                if assumed_nonzero(name) {
                    Fr::from_u64(2)
                } else {
                    self.default
                }
            }
            Some(seed) => {
                let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
                for b in name.bytes() {
                    h = (h ^ b as u64).wrapping_mul(0x100000001b3);
                }
                let mut raw = [0u64; 4];
                for r in raw.iter_mut() {
                    h = h.wrapping_add(0x9E3779B97F4A7C15);
                    let mut z = h;
                    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
                    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
                    *r = z ^ (z >> 31);
                }
                raw[3] &= 0x3fff_ffff_ffff_ffff;
                Fr::from_raw(raw)
            }
        };
        self.vals.insert(name.to_string(), v);
        v
    }
    pub fn eval(&mut self, t: TermId) -> Fr {
        if let Some(v) = self.memo.get(&t) {
            return *v;
        }
        let order = reach(&[t]);
        for n in order {
            if self.memo.contains_key(&n) {
                continue;
            }
            let (node, nm) = {
                let a = arena();
                (a.nodes[n as usize], a.name_of(n).map(|s| s.to_string()))
            };
            let v = match node {
                Node::Const(c) => c,
                Node::Var(_) => self.var(&nm.unwrap()),
                Node::Add(x, y) => self.memo[&x].add(&self.memo[&y]),
                Node::Mul(x, y) => self.memo[&x].mul(&self.memo[&y]),
                Node::Inv(x) => self.memo[&x].inv(),
            };
            self.memo.insert(n, v);
        }
        self.memo[&t]
    }
}

/// nodes reachable from the roots, children first
pub fn reach(roots: &[TermId]) -> Vec<TermId> {
    let a = arena();
    let mut seen = std::collections::HashSet::new();
    let mut stack: Vec<(TermId, bool)> = roots.iter().rev().map(|t| (*t, false)).collect();
    let mut out = vec![];
    while let Some((t, done)) = stack.pop() {
        if done {
            out.push(t);
            continue;
        }
        if !seen.insert(t) {
            continue;
        }
        stack.push((t, true));
        match a.nodes[t as usize] {
            Node::Add(x, y) | Node::Mul(x, y) => {
                stack.push((x, false));
                stack.push((y, false));
            }
            Node::Inv(x) => stack.push((x, false)),
            _ => {}
        }
    }
    out
}

pub fn script(asserts: &[Form], ne_one: bool) -> (String, HashMap<TermId, String>) {
    let mut roots = vec![];
    asserts.iter().for_each(|f| f.terms(&mut roots));
    let order = reach(&roots);
    let a = arena();
    let mut s = String::with_capacity(order.len() * 48);
    s.push_str("(set-logic QF_FF)\n");
    s.push_str(&format!("(define-sort F () (_ FiniteField {}))\n", R_DEC));
    let mut vars = HashMap::new();
    let mut tail = String::new();
    let mut has_inv = std::collections::HashSet::new();
    for t in &order {
        if let Node::Inv(x) = a.nodes[*t as usize] {
            has_inv.insert(x);
        }
    }
    for t in &order {
        match a.nodes[*t as usize] {
            Node::Const(c) => s.push_str(&format!("(define-fun t{} () F (as ff{} F))\n", t, c.to_dec())),
            Node::Var(k) => {
                s.push_str(&format!("(declare-const t{} F)\n", t));
                vars.insert(*t, a.names[k as usize].clone());
                if assumed_nonzero(&a.names[k as usize]) && !has_inv.contains(t) {
                    tail.push_str(&format!("(assert (not (= t{} (as ff0 F))))\n", t));
                }
                let _ = ne_one;
            }
            Node::Add(x, y) => s.push_str(&format!("(define-fun t{} () F (ff.add t{} t{}))\n", t, x, y)),
            Node::Mul(x, y) => s.push_str(&format!("(define-fun t{} () F (ff.mul t{} t{}))\n", t, x, y)),
            Node::Inv(x) => {
                s.push_str(&format!("(declare-const t{} F)\n", t));
                vars.insert(*t, format!("inv!{}", t));
                let nz = match a.name_of(x) {
                    Some(n) => assumed_nonzero(n),
                    None => false,
                };
                if nz {
                    tail.push_str(&format!("(assert (= (ff.mul t{} t{}) (as ff1 F)))\n", t, x));
                } else {
                    // inv0
                    tail.push_str(&format!("(assert (= (ff.mul t{0} t{1} t{1}) t{1}))\n", t, x));
                    tail.push_str(&format!("(assert (= (ff.mul t{0} t{0} t{1}) t{0}))\n", t, x));
                }
            }
        }
    }
    s.push_str(&tail);
    for f in asserts {
        s.push_str("(assert ");
        f.emit(&mut s);
        s.push_str(")\n");
    }
    (s, vars)
}

pub fn run_solver(bin: &str, args: &[&str], text: &str, timeout_s: u64) -> Result<String, String> {
    let mut c = Command::new("timeout")
        .arg("-k")
        .arg("2")
        .arg(format!("{}", timeout_s))
        .arg(bin)
        .args(args)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| format!("cannot start {}: {}", bin, e))?;
    {
        let mut si = c.stdin.take().unwrap();
        let _ = si.write_all(text.as_bytes());
    }
    let o = c.wait_with_output().map_err(|e| e.to_string())?;
    Ok(String::from_utf8_lossy(&o.stdout).into_owned())
}

pub const MEM_MB: &str = "-memory:6000";

/// Decide the conjunction. Sat answers are checked by evaluation.
pub fn solve(asserts: &[Form], timeout_s: u64) -> Res {
    let t0 = Instant::now();
    let (mut txt, vars) = script(asserts, true);
    let nterms = txt.lines().count() as u64;
    txt.push_str("(check-sat)\n");
    let ids: Vec<TermId> = {
        let mut v: Vec<TermId> = vars.keys().cloned().collect();
        v.sort();
        v
    };
    if !ids.is_empty() {
        txt.push_str("(get-value (");
        for i in &ids {
            txt.push_str(&format!("t{} ", i));
        }
        txt.push_str("))\n");
    }
    if let Ok(d) = std::env::var("SYMEX_DUMP") {
        let n = stats().queries;
        let _ = std::fs::write(format!("{}/q{}.smt2", d, n), &txt);
    }
    let out = run_solver("z3-new", &["-in", MEM_MB], &txt, timeout_s);
    let dt = t0.elapsed().as_secs_f64();
    let res = match out {
        Err(e) => Res::Unknown(e),
        Ok(o) => {
            let first = o.lines().next().unwrap_or("").trim().to_string();
            if first == "unsat" {
                Res::Unsat
            } else if first == "sat" {
                match parse_model(&o, &vars) {
                    Some(m) => {
                        let mut env = Env::new(m.clone());
                        if asserts.iter().all(|f| f.holds(&mut env)) {
                            Res::Sat(env.vals)
                        } else {
                            Res::Unknown("model does not satisfy the query".into())
                        }
                    }
                    None => Res::Unknown("model not readable".into()),
                }
            } else {
                Res::Unknown(format!("solver said '{}'", if first.is_empty() { "timeout" } else { &first }))
            }
        }
    };
    STATS.with(|s| {
        let mut s = s.borrow_mut();
        s.queries += 1;
        s.time += dt;
        s.terms += nterms;
        if dt > s.max_time {
            s.max_time = dt;
        }
        match &res {
            Res::Unsat => s.unsat += 1,
            Res::Sat(_) => s.sat += 1,
            Res::Unknown(_) => s.unknown += 1,
        }
    });
    if std::env::var("SYMEX_TRACE").is_ok() {
        eprintln!("query: {} lines {:.2}s {}", nterms, dt, match &res { Res::Unsat => "unsat".to_string(), Res::Sat(_) => "sat".to_string(), Res::Unknown(w) => w.clone() });
    }
    res
}

/// a query in another theory, given as text
pub fn solve_text(txt: &str, timeout_s: u64) -> (Res, String) {
    let t0 = Instant::now();
    let o = run_solver("z3-new", &["-in", MEM_MB], txt, timeout_s).unwrap_or_default();
    let dt = t0.elapsed().as_secs_f64();
    let first = o.lines().next().unwrap_or("").trim().to_string();
    let res = match first.as_str() {
        "unsat" => Res::Unsat,
        "sat" => Res::Sat(HashMap::new()),
        w => Res::Unknown(format!("solver said '{}'", w)),
    };
    STATS.with(|s| {
        let mut s = s.borrow_mut();
        s.queries += 1;
        s.time += dt;
        s.terms += txt.lines().count() as u64;
        s.max_time = s.max_time.max(dt);
        match &res {
            Res::Unsat => s.unsat += 1,
            Res::Sat(_) => s.sat += 1,
            Res::Unknown(_) => s.unknown += 1,
        }
    });
    (res, o)
}

fn parse_model(o: &str, vars: &HashMap<TermId, String>) -> Option<HashMap<String, Fr>> {
    let mut m = HashMap::new();
    if vars.is_empty() {
        return Some(m);
    }
    // pairs (tN (as ffV (_ FiniteField r)))
    let toks: Vec<&str> = o.split(|c: char| c.is_whitespace() || c == '(' || c == ')').filter(|s| !s.is_empty()).collect();
    let mut cur: Option<TermId> = None;
    for t in toks {
        if t.starts_with('t') && t[1..].chars().all(|c| c.is_ascii_digit()) && t.len() > 1 {
            cur = t[1..].parse().ok();
        } else if t.starts_with("ff") && cur.is_some() {
            let v = Fr::from_dec(&t[2..])?;
            let n = vars.get(&cur.unwrap())?;
            if !n.starts_with("inv!") {
                m.insert(n.clone(), v);
            }
            cur = None;
        }
    }
    Some(m)
}

/// Is the formula valid under the hypotheses? Ok(()) valid; Err(Some(model)) counterexample; Err(None) unknown.
pub fn valid(hyp: &[Form], goal: &Form, timeout_s: u64) -> Result<(), Option<HashMap<String, Fr>>> {
    // cheap falsification: a pseudo-random point is a counterexample as good as any
    for seed in 1..3u64 {
        let mut env = Env::random(seed);
        if hyp.iter().all(|h| h.holds(&mut env)) && !goal.holds(&mut env) {
            return Err(Some(env.vals));
        }
    }
    let mut q = hyp.to_vec();
    q.push(goal.not());
    match solve(&q, timeout_s) {
        Res::Unsat => Ok(()),
        Res::Sat(m) => Err(Some(m)),
        Res::Unknown(_) => Err(None),
    }
}

/// Variables of the terms that occur under an inverse and are assumed non-zero (challenges).
fn inverted(ts: &[TermId]) -> Vec<TermId> {
    let order = reach(ts);
    let a = arena();
    let mut v: Vec<TermId> = order
        .iter()
        .filter_map(|t| match a.nodes[*t as usize] {
            Node::Inv(x) if a.name_of(x).map_or(false, assumed_nonzero) => Some(x),
            _ => None,
        })
        .collect();
    v.sort();
    v.dedup();
    v
}

/// The Laurent coefficients of `t` in the challenges it contains (or in those that are inverted, if the
/// decomposition in all of them is too large). If every coefficient is identically zero, so is `t`.
pub fn laurent(t: TermId) -> Option<Vec<TermId>> {
    let mut vars = inverted(&[t]);
    {
        let order = reach(&[t]);
        let a = arena();
        for n in order {
            if let Some(nm) = a.name_of(n) {
                if nm.starts_with("ch") && assumed_nonzero(nm) && !vars.contains(&n) {
                    vars.push(n);
                }
            }
        }
    }
    let mut cur = vec![t];
    for v in vars {
        let ls = crate::poly::collect_many(&cur, v)?;
        let mut next: Vec<TermId> = vec![];
        for l in ls {
            next.extend(l.values().cloned());
        }
        if next.len() > 60000 {
            return None;
        }
        cur = next;
    }
    cur.sort();
    cur.dedup();
    Some(cur)
}

/// Does the solver show that `t` vanishes identically (for all values, non-zero challenges)?
pub fn identically_zero(t: TermId, timeout_s: u64) -> bool {
    all_identically_zero(&[t], timeout_s)
}
pub fn all_identically_zero(ts: &[TermId], timeout_s: u64) -> bool {
    all_zero_under(&[], ts, timeout_s)
}
/// Do all of them vanish for all values (non-zero challenges) that satisfy the hypotheses, coefficient by
/// coefficient in the challenges?
pub fn all_zero_under(hyp: &[Form], ts: &[TermId], timeout_s: u64) -> bool {
    let mut cs = vec![];
    for seed in 1..3u64 {
        let mut env = Env::random(seed);
        if hyp.iter().all(|h| h.holds(&mut env)) && ts.iter().any(|t| !env.eval(*t).is_zero()) {
            return false;
        }
    }
    for t in ts {
        match laurent(*t) {
            Some(c) => {
                if c.is_empty() {
                    STATS.with(|s| s.borrow_mut().trivial += 1);
                }
                cs.extend(c)
            }
            None => {
                dbg("laurent: none");
                return false;
            }
        }
    }
    cs.sort();
    cs.dedup();
    dbg(&format!("laurent: {} coefs", cs.len()));
    for seed in 1..3u64 {
        let mut env = Env::random(seed);
        if hyp.iter().all(|h| h.holds(&mut env)) && cs.iter().any(|c| !env.eval(*c).is_zero()) {
            return false;
        }
    }
    for ch in cs.chunks(if hyp.is_empty() { 64 } else { 4 }) {
        let mut q = hyp.to_vec();
        q.push(Form::Or(ch.iter().map(|c| Form::NonZero(*c)).collect()));
        match solve(&q, timeout_s) {
            Res::Unsat => {}
            _ => return false,
        }
    }
    true
}
pub fn dbg(s: &str) {
    if std::env::var("SYMEX_TRACE").is_ok() {
        eprintln!("{}", s);
    }
}
