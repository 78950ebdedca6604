//! Path exploration of real code: every branch on a symbolic condition is decided by the solver.
#[allow(unused_imports)]
use crate::smt::{all_zero_under, assumed_nonzero, identically_zero, solve, Env, Form, Res};
use crate::poly;
use std::panic::{catch_unwind, AssertUnwindSafe};
use symcore::{arena, Cond, Fr, Node, PointId, RandEvent, TEvent, ABORT_MSG};

pub struct Path<R> {
    pub trail: Vec<(Cond, bool)>,
    /// Err: the code panicked with this message
    pub result: Result<R, String>,
    pub tlog: Vec<(u32, TEvent)>,
    pub rand_log: Vec<RandEvent>,
    pub pzero: Vec<(PointId, bool)>,
    pub unsupported: Option<String>,
}

pub fn cond_form(c: &Cond, b: bool) -> Option<Form> {
    match c {
        Cond::Zero(t) => Some(if b { Form::Zero(*t) } else { Form::NonZero(*t) }),
        Cond::PointZero(p) => {
            let v: Vec<Form> = arena().points[*p as usize].iter().map(|(_, t)| Form::Zero(*t)).collect();
            let f = Form::And(v);
            Some(if b { f } else { f.not() })
        }
        Cond::Opaque(_) => None,
    }
}
pub fn trail_forms(trail: &[(Cond, bool)]) -> Vec<Form> {
    trail.iter().filter_map(|(c, b)| cond_form(c, *b)).collect()
}

fn challenge_minus(c: &Cond) -> bool {
    // ch = 0 or ch = 1 (also of the inverse of a challenge)
    let a = arena();
    let is_ch = |t: u32| -> bool {
        let mut t = t;
        if let Node::Inv(x) = a.nodes[t as usize] {
            t = x;
        }
        a.name_of(t).map_or(false, assumed_nonzero)
    };
    if let Cond::Zero(t) = c {
        if is_ch(*t) {
            return true;
        }
        if let Node::Add(x, y) = a.nodes[*t as usize] {
            for (p, q) in [(x, y), (y, x)].iter() {
                if let Some(k) = a.as_const(*p) {
                    if k == Fr::one().neg() && is_ch(*q) {
                        return true;
                    }
                }
            }
        }
    }
    false
}

pub struct Opts {
    pub assume: Vec<Form>,
    pub timeout: u64,
    pub max_paths: usize,
    /// take both sides of every open test of a point against the identity without asking the solver
    pub free: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { assume: vec![], timeout: 60, max_paths: 5000, free: false }
    }
}

fn oracle(assume: Vec<Form>, timeout: u64, free: bool) -> symcore::Oracle {
    let mut envs: Vec<Env> = vec![];
    let _ = &mut envs;
    Box::new(move |trail, c| {
        if challenge_minus(c) {
            return (false, true);
        }
        if let (Cond::PointZero(_), true) = (c, free) {
            return (true, true);
        }
        let (ft, ff) = match (cond_form(c, true), cond_form(c, false)) {
            (Some(a), Some(b)) => (a, b),
            _ => return (true, true),
        };
        let mut hyp = assume.clone();
        hyp.extend(trail_forms(trail));
        let feasible = |f: &Form| -> bool {
            for seed in 1..3u64 {
                let mut env = Env::random(seed);
                if f.holds(&mut env) && hyp.iter().all(|h| h.holds(&mut env)) {
                    return true;
                }
            }
            if let Form::NonZero(t) = f {
                if identically_zero(*t, timeout) || (!assume.is_empty() && all_zero_under(&assume, &[*t], timeout)) {
                    return false;
                }
            }
            let mut q = hyp.clone();
            q.push(f.clone());
            match solve(&q, timeout) {
                Res::Unsat => false,
                Res::Sat(_) => true,
                Res::Unknown(_) => true, // explored; reported as a path with an undecided condition
            }
        };
        if let Cond::PointZero(p) = c {
            // one query per coefficient: some coefficient non-zero?
            let coefs: Vec<u32> = arena().points[*p as usize].iter().map(|(_, t)| *t).collect();
            let mut live = vec![];
            let mut nz = false;
            for t in coefs {
                let mut env = Env::random(1);
                if env.eval(t).is_zero() && (all_zero_under(&assume, &[t], timeout) || (!assume.is_empty() && identically_zero(t, timeout))) {
                    continue;
                }
                live.push(poly::tidy(t));
                nz = nz || feasible(&Form::NonZero(t));
            }
            if !nz {
                return (true, false);
            }
            // can it be the identity nevertheless? coefficients one at a time, small ones first
            live.sort_by_key(|t| crate::smt::reach(&[*t]).len());
            for t in &live {
                let mut q = hyp.clone();
                q.push(Form::Zero(*t));
                if let Res::Unsat = solve(&q, timeout.min(10)) {
                    return (false, true);
                }
            }
            let f = Form::And(live.iter().map(|t| Form::Zero(*t)).collect());
            return (feasible(&f), true);
        }
        let can_f = feasible(&ff);
        let can_t = feasible(&ft);
        (can_t, can_f)
    })
}

/// Run `f` on every feasible path.
pub fn explore<R, F: FnMut() -> R>(opts: &Opts, mut f: F) -> Vec<Path<R>> {
    symcore::set_oracle(Some(oracle(opts.assume.clone(), opts.timeout, opts.free)));
    let mut work: Vec<Vec<bool>> = vec![vec![]];
    let mut out = vec![];
    while let Some(prefix) = work.pop() {
        {
            let mut a = arena();
            a.reset_run();
            a.prefix = prefix;
            a.pending.clear();
            a.exploring = true;
        }
        let r = catch_unwind(AssertUnwindSafe(|| f()));
        let mut a = arena();
        work.append(&mut a.pending);
        let result = match r {
            Ok(v) => Ok(v),
            Err(e) => {
                let m = if let Some(s) = e.downcast_ref::<String>() {
                    s.clone()
                } else if let Some(s) = e.downcast_ref::<&str>() {
                    s.to_string()
                } else {
                    "panic".to_string()
                };
                if m.contains("infeasible path") && m.starts_with(ABORT_MSG) {
                    continue;
                }
                Err(m)
            }
        };
        out.push(Path {
            trail: a.trail.clone(),
            result,
            tlog: a.tlog.clone(),
            rand_log: a.rand_log.clone(),
            pzero: a.pzero_log.clone(),
            unsupported: a.unsupported.clone(),
        });
        drop(a);
        if out.len() >= opts.max_paths {
            out.last_mut().unwrap().unsupported = Some("path limit reached".into());
            break;
        }
    }
    symcore::set_oracle(None);
    arena().exploring = false;
    out
}

/// One concrete-control run (no fork expected). Panics are returned as Err.
pub fn run_once<R, F: FnOnce() -> R>(f: F) -> Path<R> {
    let mut g = Some(f);
    let mut v = explore(&Opts { max_paths: 1, ..Default::default() }, || (g.take().unwrap())());
    v.remove(0)
}
