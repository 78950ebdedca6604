//! Completeness of large gadgets: the values the honest prover commits to satisfy every row and every multiplication
//! of the constraint system the verifier checks, read off its verification equation. (That a satisfied system has an
//! accepted proof is what C01 decides, and the end to end scenarios for smaller instances of the same gadgets.)
use crate::dse::{explore, trail_forms, Opts};
use crate::fw::{find_model, replay_scn, zero_under, Out};
use crate::gadgets::{Inst, Public};
use amcl_wrapper::field_elem::FieldElement;
use amcl_wrapper::group_elem::GroupElementVector;
use crate::hide::{coef, point};
use crate::poly::subst;
use crate::scen::scn;
use crate::smt::{self, Form};
use crate::sound::{extract, row_value, sweep, Wire};
use std::collections::HashMap;
use symcore::{arena, Node, TermId};

fn inputs(open: &Public, honest: &Public, put: &mut HashMap<TermId, TermId>) {
    let mut pair = |a: &FieldElement, b: &FieldElement| {
        if a.term() != b.term() {
            put.insert(a.term(), b.term());
        }
    };
    pair(&open.out, &honest.out);
    for (a, b) in open.set.iter().zip(honest.set.iter()) {
        pair(a, b);
    }
    for (a, b) in open.parts.iter().zip(honest.parts.iter()) {
        inputs(a, b, put);
    }
}
fn replace(f: &Form, put: &HashMap<TermId, TermId>) -> Form {
    let one = |t: TermId| subst(&[t], put)[0];
    match f {
        Form::Zero(t) => Form::Zero(one(*t)),
        Form::NonZero(t) => Form::NonZero(one(*t)),
        Form::And(v) => Form::And(v.iter().map(|g| replace(g, put)).collect()),
        Form::Or(v) => Form::Or(v.iter().map(|g| replace(g, put)).collect()),
    }
}
pub fn gadget(out: &mut Out, i: &Inst) {
    if !out.viols.is_empty() {
        return;
    }
    arena().hard_reset();
    let label = i.label();
    let sc = scn(&format!("complete:{}", i.kind), &i.p);
    let assume = crate::gad::hypotheses(i);
    let gs = i.gens();
    let paths = explore(&Opts { assume: assume.clone(), max_paths: 256, ..Default::default() }, || {
        let s = i.secret();
        let q = i.honest(&s);
        i.prove(&s, &q, &gs)
    });
    // the verifier's system for any public inputs, then the honest ones put in
    let q = i.open();
    let mut put: HashMap<TermId, TermId> = HashMap::new();
    inputs(&q, &i.honest(&i.secret()), &mut put);
    let lg = gs.G.len().trailing_zeros() as usize;
    let mut systems = match extract(out, &label, i.commitments(), lg, &mut |proof, comms| i.verify(&q, proof, comms, &gs)) {
        Some(s) => s,
        None => return,
    };
    for s in systems.iter_mut() {
        let mut ts: Vec<TermId> = vec![];
        for (r, c) in &s.rows {
            ts.extend(r.iter().map(|e| e.1));
            ts.push(*c);
        }
        let mut ts = subst(&ts, &put).into_iter();
        for (r, c) in s.rows.iter_mut() {
            for e in r.iter_mut() {
                e.1 = ts.next().unwrap();
            }
            *c = ts.next().unwrap();
        }
        s.hyp = s.hyp.iter().map(|f| replace(f, &put)).collect();
    }
    for p in &paths {
        out.paths += 1;
        if let Some(u) = &p.unsupported {
            out.unk(&format!("{}: not encodable: {}", label, u));
            return;
        }
        let mut hyp = assume.clone();
        hyp.extend(trail_forms(&p.trail));
        let bad = |out: &mut Out, hyp: &[Form], claim: &str| {
            out.ob(false);
            let full = format!("{}: {}", label, claim);
            match find_model(hyp, 60) {
                Ok(m) => out.viol(&full, replay_scn(&sc, &m, claim)),
                Err(true) => out.discharged += 1,
                Err(false) => out.unk(&full),
            }
        };
        let (proof, comms) = match &p.result {
            Ok(Ok(x)) => x,
            Ok(Err(_)) => {
                bad(out, &hyp, "a true statement has a proof");
                continue;
            }
            Err(_) => {
                bad(out, &hyp, "no panic");
                continue;
            }
        };
        if comms.len() != i.commitments() {
            bad(out, &hyp, "the number of commitments");
            continue;
        }
        let v = serde_json::to_value(proof).unwrap();
        let mut rounds = 0;
        let mut v2 = v.clone();
        crate::eqn::rebuild(&mut v2, "", None, &mut |name, _| {
            if name.starts_with('L') {
                rounds += 1;
            }
            String::new()
        });
        let mut feasible = 0;
        for s in &systems {
            let mut all = hyp.clone();
            all.extend(s.hyp.iter().cloned());
            match find_model(&all, 60) {
                Err(true) => continue,
                Err(false) => {
                    out.unk(&format!("{}: undecided path", label));
                    continue;
                }
                Ok(_) => feasible += 1,
            }
            if s.n != 1 << rounds {
                bad(out, &all, "the honest proof is accepted");
                continue;
            }
            let mut wires: HashMap<Wire, TermId> = HashMap::new();
            for (j, c) in comms.iter().enumerate() {
                wires.insert(Wire::V(j), coef(c.point_id(), "g"));
            }
            let both = |a: &str, b: &str, g: &str| -> TermId {
                let (x, y) = (coef(point(&v, a), g), coef(point(&v, b), g));
                arena().add(x, y)
            };
            for k in 0..s.n {
                wires.insert(Wire::L(k), both("A_I1", "A_I2", &format!("G{}", k)));
                wires.insert(Wire::R(k), both("A_I1", "A_I2", &format!("H{}", k)));
                wires.insert(Wire::O(k), both("A_O1", "A_O2", &format!("G{}", k)));
            }
            let mut eqs: Vec<TermId> = s.rows.iter().map(|r| row_value(r, &wires, None)).collect();
            // as left and right hand side
            let mut sides: HashMap<TermId, (TermId, TermId)> = HashMap::new();
            let zero = arena().cst(symcore::Fr::zero());
            for (r, e) in s.rows.iter().zip(eqs.iter()) {
                let l = row_value(&(r.0.clone(), zero), &wires, None);
                let c = arena().sub(zero, r.1);
                sides.insert(*e, (l, c));
            }
            for k in 0..s.n {
                let (l, r, o) = (wires[&Wire::L(k)], wires[&Wire::R(k)], wires[&Wire::O(k)]);
                let m = arena().mul(l, r);
                let d = arena().sub(o, m);
                eqs.push(d);
            }
            let total = eqs.len() as u64;
            eqs.retain(|t| arena().as_const(*t).map_or(true, |c| !c.is_zero()));
            out.obligations += total - eqs.len() as u64;
            out.discharged += total - eqs.len() as u64;
            out.witnessed += 1;
            // with the products as unknowns: most rows only say how the next factor is made of them
            let mut cut: HashMap<TermId, TermId> = HashMap::new();
            for k in 0..s.n {
                let o = wires[&Wire::O(k)];
                let node = arena().nodes[o as usize];
                if let Node::Mul(_, _) = node {
                    let w = arena().var(&format!("prod_{}", k));
                    cut.entry(o).or_insert(w);
                }
            }
            let local = subst(&eqs, &cut);
            let mut rest = vec![];
            for chunk in local.chunks(64).zip(eqs.chunks(64)) {
                if smt::all_identically_zero(chunk.0, 60) {
                    out.obligations += chunk.0.len() as u64;
                    out.discharged += chunk.0.len() as u64;
                    continue;
                }
                for (l, e) in chunk.0.iter().zip(chunk.1.iter()) {
                    if smt::identically_zero(*l, 30) {
                        out.ob(true);
                    } else {
                        rest.push(*e);
                    }
                }
            }
            for e in rest {
                let mut ok = false;
                if smt::reach(&[e]).len() > 400 {
                    let (l, c) = sides.get(&e).cloned().unwrap_or((e, zero));
                    let r = sweep(out, &[l, c], &all);
                    ok = r[0] == r[1];
                }
                if ok {
                    out.ob(true);
                    continue;
                }
                // the hypotheses about its subterms first
                let parts: std::collections::HashSet<TermId> = smt::reach(&[e]).into_iter().collect();
                let near: Vec<Form> = all.iter().filter(|f| if let Form::NonZero(t) = f { parts.contains(t) } else { false }).cloned().collect();
                if near.len() < all.len() && zero_under(&near, e, 20).is_ok() {
                    out.ob(true);
                    continue;
                }
                match zero_under(&all, e, 60) {
                    Ok(()) => out.ob(true),
                    Err(Some(m)) => {
                        out.ob(false);
                        out.viol(&format!("{}: the honest witness does not satisfy what the verifier checks", label), replay_scn(&sc, &m, "the honest proof is accepted"));
                        return;
                    }
                    Err(None) => {
                        // any assignment will do
                        out.ob(false);
                        let mut env = smt::Env::random(5);
                        if !env.eval(e).is_zero() && all.iter().all(|f| f.holds(&mut env)) {
                            out.viol(&format!("{}: the honest witness does not satisfy what the verifier checks", label), replay_scn(&sc, &env.vals, "the honest proof is accepted"));
                            return;
                        }
                        out.unk(&format!("{}: a row of the honest witness", label));
                    }
                }
            }
        }
        if feasible == 0 {
            bad(out, &hyp, "the honest proof is accepted");
        }
    }
}
