//! Units of work, obligations, counterexamples.
use crate::dse::{explore, trail_forms, Opts, Path};
use crate::scen::{self, Claim, Scn};
use crate::smt::{self, Env, Form, Res};
use serde_json::{json, Value};
use std::collections::HashMap;
use symcore::{arena, Fr, Node};

pub type Model = HashMap<String, Fr>;

#[derive(Default)]
pub struct Out {
    pub obligations: u64,
    pub discharged: u64,
    pub paths: u64,
    pub witnessed: u64,
    pub unknown: Vec<String>,
    pub viols: Vec<(String, Value)>,
    pub notes: Vec<String>,
}
impl Out {
    pub fn json(&self) -> Value {
        let s = smt::stats();
        json!({
            "obligations": self.obligations, "discharged": self.discharged, "paths": self.paths,
            "witnessed": self.witnessed, "unknown": self.unknown,
            "viols": self.viols.iter().map(|(c, v)| json!({"claim": c, "replay": v})).collect::<Vec<_>>(),
            "notes": self.notes,
            "queries": s.queries, "unsat": s.unsat, "sat": s.sat, "solver_unknown": s.unknown, "trivial": s.trivial,
            "time": s.time, "max_time": s.max_time, "terms": s.terms,
        })
    }
    pub fn ob(&mut self, ok: bool) {
        self.obligations += 1;
        if ok {
            self.discharged += 1;
        }
    }
    pub fn viol(&mut self, claim: &str, replay: Value) {
        if self.viols.len() < 4 {
            self.viols.push((claim.to_string(), replay));
        }
    }
    pub fn unk(&mut self, why: &str) {
        if self.unknown.len() < 8 {
            self.unknown.push(why.to_string());
        }
    }
}

pub struct Unit {
    pub name: String,
    pub run: Box<dyn Fn(&mut Out)>,
}
pub fn unit<F: Fn(&mut Out) + 'static>(name: &str, f: F) -> Unit {
    Unit { name: name.to_string(), run: Box::new(f) }
}

/// all variables of the arena with their value under the model
pub fn full_model(m: &Model) -> Model {
    let mut env = Env::new(m.clone());
    let vars: Vec<(u32, String)> = {
        let a = arena();
        (0..a.nodes.len() as u32).filter_map(|t| match a.nodes[t as usize] { Node::Var(k) => Some((t, a.names[k as usize].clone())), _ => None }).collect()
    };
    vars.into_iter().map(|(t, n)| (n, env.eval(t))).collect()
}
pub fn model_json(m: &Model) -> Value {
    let mut o = serde_json::Map::new();
    let mut k: Vec<_> = m.keys().collect();
    k.sort();
    for n in k {
        o.insert(n.clone(), Value::String(m[n].to_dec()));
    }
    Value::Object(o)
}

/// a model of the conjunction; Err(true) = none exists, Err(false) = unknown
pub fn find_model(fs: &[Form], timeout: u64) -> Result<Model, bool> {
    for seed in 1..4u64 {
        let mut env = Env::random(seed);
        if fs.iter().all(|f| f.holds(&mut env)) {
            return Ok(env.vals);
        }
    }
    match smt::solve(fs, timeout) {
        Res::Sat(m) => Ok(m),
        Res::Unsat => Err(true),
        Res::Unknown(_) => Err(false),
    }
}

pub fn replay_scn(scn: &Scn, m: &Model, claim: &str) -> Value {
    json!({"kind": "scenario", "scenario": scn.kind, "params": scn.p, "claim": claim, "model": model_json(&full_model(m))})
}

/// Decide every claim of the scenario on every feasible path.
pub fn scenario(out: &mut Out, scn: &Scn) {
    scenario_with(out, scn, &Opts::default())
}
pub fn scenario_with(out: &mut Out, scn: &Scn, opts: &Opts) {
    if !out.viols.is_empty() {
        return; // the unit's verdict is known
    }
    if opts.assume.is_empty() {
        arena().hard_reset();
    }
    let paths: Vec<Path<Vec<Claim>>> = explore(opts, || scen::run(scn));
    let label = format!("{} {:?}", scn.kind, scn.p);
    if paths.is_empty() {
        out.unk(&format!("{}: no feasible path", label));
    }
    for p in &paths {
        out.paths += 1;
        if let Some(u) = &p.unsupported {
            out.unk(&format!("{}: not encodable: {}", label, u));
            continue;
        }
        let mut hyp = opts.assume.clone();
        hyp.extend(trail_forms(&p.trail));
        match &p.result {
            Err(msg) => {
                out.ob(false);
                let claim = format!("{}: panics: {}", label, msg);
                match find_model(&hyp, opts.timeout) {
                    Ok(m) => out.viol(&claim, replay_scn(scn, &m, "no panic")),
                    Err(true) => out.discharged += 1,
                    Err(false) => out.unk(&claim),
                }
            }
            Ok(claims) => {
                let mut witnessed = opts.free;
                // all identities of the path in one go; one by one only if that fails
                let zs: Vec<u32> = claims.iter().filter_map(|c| match c { Claim::Zero(_, e) => Some(e.term()), _ => None }).collect();
                let batch = zs.len() > 1 && smt::all_identically_zero(&zs, opts.timeout);
                for c in claims {
                    match c {
                        Claim::True(n, b) => {
                            out.ob(*b);
                            if !*b {
                                let claim = format!("{}: {}", label, n);
                                match find_model(&hyp, opts.timeout) {
                                    Ok(m) => out.viol(&claim, replay_scn(scn, &m, n)),
                                    Err(true) => out.discharged += 1,
                                    Err(false) => out.unk(&format!("{} (undecided path)", claim)),
                                }
                            }
                        }
                        Claim::Zero(n, e) => {
                            let t = e.term();
                            if batch {
                                out.ob(true);
                                continue;
                            }
                            let r = zero_under(&hyp, t, opts.timeout);
                            out.ob(r.is_ok());
                            let claim = format!("{}: {}", label, n);
                            match r {
                                Ok(()) => {}
                                Err(Some(m)) => out.viol(&claim, replay_scn(scn, &m, n)),
                                Err(None) => out.unk(&claim),
                            }
                        }
                        Claim::NonZero(n, e) => {
                            let r = smt::valid(&hyp, &Form::NonZero(e.term()), opts.timeout);
                            out.ob(r.is_ok());
                            let claim = format!("{}: {}", label, n);
                            match r {
                                Ok(()) => {}
                                Err(Some(m)) => out.viol(&claim, replay_scn(scn, &m, n)),
                                Err(None) => out.unk(&claim),
                            }
                        }
                    }
                }
                // vacuity: the path is real
                if !witnessed {
                    if let Ok(_) = find_model(&hyp, opts.timeout) {
                        witnessed = true;
                    }
                }
                if witnessed {
                    out.witnessed += 1;
                } else {
                    out.unk(&format!("{}: path without a witness", label));
                }
            }
        }
    }
}

pub fn zero_under(hyp: &[Form], t: u32, timeout: u64) -> Result<(), Option<Model>> {
    if let Some(c) = arena().as_const(t) {
        if c.is_zero() {
            smt::STATS.with(|s| s.borrow_mut().trivial += 1);
            return Ok(());
        }
    }
    if smt::identically_zero(t, timeout) {
        return Ok(());
    }
    smt::valid(hyp, &Form::Zero(t), timeout)
}
