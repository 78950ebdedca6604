//! Hiding: the masks of a proof are as many independent fresh coins.
use crate::circ::{self, Shape};
use crate::dse::{explore, Opts};
use crate::fw::{model_json, Out};
use crate::poly::collect_many;
use crate::prim::fe;
use crate::smt::{self, Env, Form, Res};
use amcl_wrapper::group_elem_g1::G1;
use bulletproofs_amcl::r1cs::R1CSProof;
use serde_json::{json, Value};
use symcore::{arena, RandEvent, TermId};

pub fn coef(p: u32, basis: &str) -> TermId {
    let mut a = arena();
    let b = a.basis_id(basis);
    let f = a.points[p as usize].iter().find(|(k, _)| *k == b).map(|x| x.1);
    match f {
        Some(t) => t,
        None => a.cst(symcore::Fr::zero()),
    }
}
pub fn point(v: &Value, k: &str) -> u32 {
    serde_json::from_value::<G1>(v[k].clone()).map(|g| g.point_id()).unwrap_or(0)
}

/// The slots are independent, uniformly random masks: no linear relation between them survives the coins.
pub fn independent(out: &mut Out, label: &str, slots: &[(String, TermId)], coins: &[RandEvent], coins2: &[RandEvent]) {
    let terms: Vec<TermId> = slots.iter().map(|s| s.1).collect();
    // derivative of every slot by every coin
    let mut jac: Vec<Vec<TermId>> = vec![vec![]; slots.len()];
    let zero = arena().cst(symcore::Fr::zero());
    for c in coins {
        match collect_many(&terms, c.var) {
            Some(ls) => {
                for (i, l) in ls.iter().enumerate() {
                    if l.keys().any(|e| *e != 0 && *e != 1) {
                        out.unk(&format!("{}: {} is not affine in the prover's coins", label, slots[i].0));
                        return;
                    }
                    jac[i].push(l.get(&1).cloned().unwrap_or(zero));
                }
            }
            None => {
                out.unk(&format!("{}: masks are not affine in the prover's coins", label));
                return;
            }
        }
    }
    let lam: Vec<TermId> = (0..slots.len()).map(|i| arena().var(&format!("lambda{}", i))).collect();
    let mut q = vec![];
    for k in 0..coins.len() {
        let mut s = zero;
        for i in 0..slots.len() {
            let mut a = arena();
            let m = a.mul(lam[i], jac[i][k]);
            s = a.add(s, m);
        }
        q.push(Form::Zero(s));
    }
    q.push(Form::Or(lam.iter().map(|t| Form::NonZero(*t)).collect()));
    match smt::solve(&q, 60) {
        Res::Unsat => out.ob(true),
        Res::Unknown(u) => {
            out.ob(false);
            out.unk(&format!("{}: {}", label, u));
        }
        Res::Sat(m) => {
            out.ob(false);
            let mut env = Env::new(m);
            let l: Vec<symcore::Fr> = lam.iter().map(|t| env.eval(*t)).collect();
            let names: Vec<String> = slots.iter().zip(&l).filter(|(_, c)| !c.is_zero()).map(|(s, _)| s.0.clone()).collect();
            // replay: the relation holds with the same value for two independent sets of coins
            let val = |seed: u64| -> symcore::Fr {
                let mut e = Env::random(9);
                let mut f = Env::random(seed);
                for c in coins {
                    let n = arena().name_of(c.var).unwrap().to_string();
                    e.vals.insert(n, f.eval(c.var));
                }
                let mut s = symcore::Fr::zero();
                for i in 0..slots.len() {
                    s = s.add(&l[i].mul(&e.eval(slots[i].1)));
                }
                s
            };
            if val(21) == val(22) {
                let w: std::collections::HashMap<String, symcore::Fr> = slots.iter().zip(&l).map(|(s, c)| (s.0.clone(), *c)).collect();
                out.viol(&format!("{}: the masks {} are not independent: a combination of them does not depend on the prover's coins", label, names.join(", ")), json!({"kind": "shim", "what": "this combination of the masks has the same value for every choice of the prover's randomness", "combination": model_json(&w)}));
            } else {
                out.unk(&format!("{}: masks {} may depend on each other", label, names.join(", ")));
            }
            return;
        }
    }
    // coins come fresh from a real generator: two runs never see the same bytes
    let stale = coins.len() != coins2.len() || coins.iter().zip(coins2).any(|(a, b)| a.kind != "os" && a.bytes == b.bytes);
    out.ob(!stale);
    if stale {
        out.viol(&format!("{}: the prover's coins repeat from run to run", label), json!({"kind": "shim", "what": "two runs of the real prover draw the same randomness"}));
    }
}

pub fn masks(out: &mut Out, s: &Shape) {
    arena().hard_reset();
    let label = s.label();
    let go = || {
        let gs = circ::gens(s.n().next_power_of_two());
        circ::prove(s, &gs).ok().map(|(p, c)| (p, c))
    };
    let run = || explore(&Opts { max_paths: 16, ..Default::default() }, go);
    let (ps, ps2): (Vec<crate::dse::Path<Option<(R1CSProof, Vec<G1>)>>>, _) = (run(), run());
    if ps.len() != ps2.len() {
        out.unk(&format!("{}: the prover's paths change from run to run", label));
        return;
    }
    for (p, p2) in ps.iter().zip(&ps2) {
        out.paths += 1;
        let (proof, comms) = match &p.result {
            Ok(Some(x)) => x,
            _ => {
                out.unk(&format!("{}: no proof", label));
                continue;
            }
        };
        out.witnessed += 1;
        let v = serde_json::to_value(proof).unwrap();
        let mut slots: Vec<(String, TermId)> = vec![];
        let (n1, n) = (s.n1, s.n());
        for ph in 1..3 {
            if ph == 2 && s.n2 == 0 {
                continue;
            }
            for k in ["A_I", "A_O", "S"].iter() {
                let f = format!("{}{}", k, ph);
                slots.push((format!("blinding of {}", f), coef(point(&v, &f), "h")));
            }
            let sp = point(&v, &format!("S{}", ph));
            for i in if ph == 1 { 0..n1 } else { n1..n } {
                slots.push((format!("s_L{}", i), coef(sp, &format!("G{}", i))));
                slots.push((format!("s_R{}", i), coef(sp, &format!("H{}", i))));
            }
        }
        for k in ["T_1", "T_3", "T_4", "T_5", "T_6"].iter() {
            slots.push((format!("blinding of {}", k), coef(point(&v, k), "h")));
        }
        independent(out, &label, &slots, &p.rand_log, &p2.rand_log);
        // commitments are v g + gamma h
        for (j, c) in comms.iter().enumerate() {
            let id = c.point_id();
            let (a, b) = (coef(id, "g"), coef(id, "h"));
            let (va, vb) = (fe(&format!("v{}", j)).term(), fe(&format!("gam{}", j)).term());
            let d0 = arena().sub(a, va);
            let d1 = arena().sub(b, vb);
            let d = vec![d0, d1];
            let ok = smt::all_identically_zero(&d, 30) && arena().points[id as usize].len() <= 2;
            out.ob(ok);
            if !ok {
                out.viol(&format!("{}: commitment {} is not v g + gamma h", label, j), json!({"kind": "shim", "what": format!("commitment: {:?}", c)}));
            }
        }
    }
}

/// the commitments of a gadget: the caller's values, under the caller's blindings or coins of their own
pub fn gadget(out: &mut Out, i: &crate::gadgets::Inst) {
    arena().hard_reset();
    let label = i.label();
    let assume = crate::gad::hypotheses(i);
    let run = || {
        explore(&Opts { max_paths: 16, assume: assume.clone(), ..Default::default() }, || {
            let s = i.secret();
            let q = i.honest(&s);
            i.prove(&s, &q, &i.gens()).ok()
        })
    };
    let (ps, ps2) = (run(), run());
    if ps.len() != ps2.len() {
        out.unk(&format!("{}: the prover's paths change from run to run", label));
        return;
    }
    for (p, p2) in ps.iter().zip(&ps2) {
        out.paths += 1;
        let (proof, comms) = match &p.result {
            Ok(Some(x)) => x,
            _ => {
                out.unk(&format!("{}: no proof", label));
                continue;
            }
        };
        out.witnessed += 1;
        let s = i.secret();
        let v = serde_json::to_value(proof).unwrap();
        let mut slots: Vec<(String, TermId)> = vec![];
        for k in ["A_I1", "A_O1", "S1", "T_1", "T_3", "T_4", "T_5", "T_6"].iter() {
            slots.push((format!("blinding of {}", k), coef(point(&v, k), "h")));
        }
        for (j, c) in comms.iter().enumerate() {
            let id = c.point_id();
            let mut want = vec![];
            let k = s.at.iter().position(|a| *a == j);
            if let Some(k) = k {
                let (t, w) = (coef(id, "g"), s.vals[k].term());
                let d = arena().sub(t, w);
                want.push(d);
            }
            match (k, &s.rands) {
                (Some(k), Some(r)) => {
                    let (t, w) = (coef(id, "h"), r[k].term());
                    let d = arena().sub(t, w);
                    want.push(d);
                }
                _ => slots.push((format!("blinding of commitment {}", j), coef(id, "h"))),
            }
            let ok = smt::all_identically_zero(&want, 30) && arena().points[id as usize].len() <= 2;
            out.ob(ok);
            if !ok {
                out.viol(&format!("{}: commitment {} is not one to the caller's value under the caller's blinding", label, j), json!({"kind": "shim", "what": format!("commitment: {:?}", c)}));
                return;
            }
        }
        independent(out, &label, &slots, &p.rand_log, &p2.rand_log);
    }
}
