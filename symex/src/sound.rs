//! Soundness of the gadgets: the constraint system a gadget's verifier really checks is read off its
//! verification equation, and the solver shows that every solution of it satisfies the statement.
use crate::blocks;
use crate::dse::{cond_form, explore, Opts};
use crate::eqn::{chals, symbolic_proof, vect, Accept};
use crate::fw::{full_model, model_json, Model, Out};
use crate::gadgets::Inst;
use crate::poly::{collect_many, subst};
use crate::prim::{basis, fe};
use crate::smt::{self, Env, Form, Res};
use amcl_wrapper::field_elem::FieldElement;
use amcl_wrapper::group_elem::GroupElementVector;
use amcl_wrapper::group_elem_g1::G1;
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::R1CSProof;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use symcore::{arena, Cond, Fr, Node, TEvent, TermId};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Wire {
    V(usize),
    L(usize),
    R(usize),
    O(usize),
}
pub type Row = (Vec<(Wire, TermId)>, TermId);
pub struct Sys {
    /// multipliers (padded)
    pub n: usize,
    /// commitments supplied by the prover
    pub m: usize,
    pub rows: Vec<Row>,
    /// commitments in transcript order: one of the prover's, or a public one (value with zero blinding)
    pub commits: Vec<Result<usize, Fr>>,
    /// conditions on the public inputs along the path
    pub hyp: Vec<Form>,
}
fn add(a: TermId, b: TermId) -> TermId {
    arena().add(a, b)
}
fn sub(a: TermId, b: TermId) -> TermId {
    arena().sub(a, b)
}
fn mul(a: TermId, b: TermId) -> TermId {
    arena().mul(a, b)
}
fn cst(x: u64) -> TermId {
    arena().cst(Fr::from_u64(x))
}
fn var(n: &str) -> TermId {
    arena().var(n)
}
fn konst(t: TermId) -> Option<Fr> {
    arena().as_const(t)
}

/// The constraint systems of the accepting paths of the verifier, called with `m` commitments and any proof.
pub fn extract(out: &mut Out, label: &str, m: usize, max_lg: usize, f: &mut dyn FnMut(R1CSProof, Vec<G1>) -> Result<(), R1CSError>) -> Option<Vec<Sys>> {
    for lg in 0..=max_lg {
        let np = 1usize << lg;
        let paths = explore(&Opts { free: true, max_paths: 256, ..Default::default() }, || {
            let comms: Vec<G1> = (0..m).map(|j| basis(&format!("V{}", j))).collect();
            f(symbolic_proof(np, "", true), comms)
        });
        let mut systems = vec![];
        for p in &paths {
            out.paths += 1;
            if let Some(u) = &p.unsupported {
                out.unk(&format!("{}: not encodable: {}", label, u));
                return None;
            }
            match &p.result {
                Err(e) => {
                    out.ob(false);
                    out.viol(&format!("{}: verification panics: {}", label, e), json!({"kind": "shim", "what": format!("the real verifier panics: {}", e)}));
                    return None;
                }
                Ok(Ok(())) => {
                    let acc = Accept {
                        combos: p.pzero.iter().filter(|(_, b)| *b).map(|(q, _)| *q).collect(),
                        challenges: p.tlog.iter().filter_map(|(_, e)| match e { TEvent::Challenge(l, len, t) => Some((String::from_utf8_lossy(l).into_owned(), *t, *len)), _ => None }).collect(),
                        rand: p.rand_log.clone(),
                        tlog: p.tlog.clone(),
                        hyp: p.trail.iter().filter(|(c, _)| if let Cond::PointZero(_) = c { false } else { true }).filter_map(|(c, b)| cond_form(c, *b)).collect(),
                    };
                    match system(&acc, np, m) {
                        Ok(s) => systems.push(s),
                        Err(e) => {
                            out.unk(&format!("{}: {}", label, e));
                            return None;
                        }
                    }
                }
                Ok(Err(_)) => {}
            }
        }
        if !systems.is_empty() {
            return Some(systems);
        }
    }
    out.unk(&format!("{}: no accepting path", label));
    None
}

/// read the rows off the verification equation
fn system(acc: &Accept, np: usize, m: usize) -> Result<Sys, String> {
    let ch = chals(acc, false, 0).ok_or("unexpected challenges")?;
    if acc.combos.len() != 1 {
        return Err(format!("{} combinations", acc.combos.len()));
    }
    let v = vect(acc.combos[0]);
    let keys: Vec<String> = v.keys().cloned().collect();
    let mut terms: Vec<TermId> = keys.iter().map(|k| v[k]).collect();
    let (zero, one) = (cst(0), cst(1));
    let mut map: HashMap<TermId, TermId> = HashMap::new();
    for n in ["PF_a", "PF_b", "PF_t_x", "PF_t_x_blinding", "PF_e_blinding"].iter() {
        map.insert(var(n), zero);
    }
    map.insert(ch.w, zero);
    map.insert(ch.u, one);
    map.insert(ch.y, one);
    for r in &acc.rand {
        map.insert(r.var, one);
    }
    for r in &ch.rounds {
        map.insert(*r, one);
    }
    terms = subst(&terms, &map);
    // by powers of x, then of z
    let by_x = collect_many(&terms, ch.x).ok_or("not polynomial in x")?;
    let part = |k: &str, e: i32| -> TermId { keys.iter().position(|n| n == k).and_then(|i| by_x[i].get(&e).cloned()).unwrap_or(zero) };
    let mut want: Vec<(Option<Wire>, TermId)> = vec![];
    for i in 0..np {
        want.push((Some(Wire::R(i)), part(&format!("G{}", i), 1)));
        want.push((Some(Wire::L(i)), part(&format!("H{}", i), 1)));
        want.push((Some(Wire::O(i)), add(part(&format!("H{}", i), 0), one)));
    }
    for j in 0..m {
        want.push((Some(Wire::V(j)), part(&format!("V{}", j), 2)));
    }
    want.push((None, part("g", 2)));
    let by_z = collect_many(&want.iter().map(|w| w.1).collect::<Vec<_>>(), ch.z).ok_or("not polynomial in z")?;
    // the constant part comes with delta = sum wR wL
    let mut konsts = by_z[want.len() - 1].clone();
    for i in 0..np {
        let (r, l) = (&by_z[3 * i], &by_z[3 * i + 1]);
        for (a, x) in r {
            for (b, y) in l {
                let p = mul(*x, *y);
                let o = konsts.get(&(a + b)).cloned().unwrap_or(zero);
                let d = sub(o, p);
                konsts.insert(a + b, d);
            }
        }
    }
    let mut top = 0;
    for l in by_z.iter().chain(std::iter::once(&konsts)) {
        for (e, t) in l {
            if konst(*t).map_or(true, |c| !c.is_zero()) {
                let t = crate::poly::tidy(*t);
                if konst(t).map_or(true, |c| !c.is_zero()) {
                    if *e <= 0 {
                        return Err("a constraint without a power of z".into());
                    }
                    top = top.max(*e);
                }
            }
        }
    }
    let mut rows = vec![];
    for e in 1..=top {
        let mut r = vec![];
        for (k, (w, _)) in want.iter().enumerate() {
            if let (Some(w), Some(t)) = (w, by_z[k].get(&e)) {
                // commitments enter with the opposite sign
                let t = if let Wire::V(_) = w { sub(zero, *t) } else { *t };
                if konst(t).map_or(true, |c| !c.is_zero()) {
                    r.push((*w, t));
                }
            }
        }
        let c = sub(zero, konsts.get(&e).cloned().unwrap_or(zero));
        rows.push((r, crate::poly::tidy(c)));
    }
    // commitments in the order of the transcript
    let mut commits = vec![];
    for (_, e) in &acc.tlog {
        if let TEvent::Append(_, b) = e {
            for id in crate::fs::points(b) {
                let a = arena();
                let pt = &a.points[id as usize];
                match pt.first() {
                    None => commits.push(Err(Fr::zero())),
                    Some((bid, t)) => {
                        let n = a.basis[*bid as usize].clone();
                        if n.starts_with('V') && pt.len() == 1 {
                            commits.push(Ok(n[1..].parse().map_err(|_| "commitment")?));
                        } else if n == "g" && pt.len() == 1 {
                            commits.push(Err(a.as_const(*t).ok_or("public commitment")?));
                        } else if !n.starts_with("PF_") {
                            return Err("a commitment that is neither the prover's nor public".into());
                        }
                    }
                }
            }
        }
    }
    Ok(Sys { n: np, m, rows, commits, hyp: acc.hyp.clone() })
}

/// The system after elimination: every wire is a term over the remaining unknowns.
pub struct Solved {
    pub wires: HashMap<Wire, TermId>,
    /// must vanish
    pub residuals: Vec<TermId>,
    pub free: Vec<TermId>,
    /// what was divided by, as hypotheses
    pub facts: Vec<Form>,
}
fn wire_name(w: Wire) -> String {
    match w {
        Wire::V(j) => format!("val_{}", j),
        Wire::L(i) => format!("wL_{}", i),
        Wire::R(i) => format!("wR_{}", i),
        Wire::O(i) => format!("wO_{}", i),
    }
}
/// `wide`: the largest row that defines a multiplier's wire
pub fn eliminate(s: &Sys, keep: &dyn Fn(usize) -> bool, wide: usize) -> Solved {
    let mut def: HashMap<Wire, (usize, Fr)> = HashMap::new();
    let mut is_def = vec![false; s.rows.len()];
    // does `from` depend on `w` through the definitions?
    fn depends(def: &HashMap<Wire, (usize, Fr)>, s: &Sys, from: &[Wire], w: Wire) -> bool {
        let mut seen = HashSet::new();
        let mut st: Vec<Wire> = from.to_vec();
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            if x == w {
                return true;
            }
            if let Wire::O(i) = x {
                st.push(Wire::L(i));
                st.push(Wire::R(i));
            } else if let Some((r, _)) = def.get(&x) {
                st.extend(s.rows[*r].0.iter().map(|e| e.0).filter(|y| *y != x));
            }
        }
        false
    }
    for (k, (r, _)) in s.rows.iter().enumerate() {
        let mut cands: Vec<(Wire, Fr)> = r
            .iter()
            .filter_map(|(w, t)| match w {
                Wire::O(_) => None,
                Wire::V(j) if keep(*j) => None,
                Wire::L(_) | Wire::R(_) if r.len() > wide => None,
                _ => konst(*t).map(|c| (*w, c)),
            })
            .filter(|(w, _)| !def.contains_key(w))
            .collect();
        // the newest multiplier first, commitments last
        cands.sort_by_key(|(w, _)| match w {
            Wire::L(i) => (0, usize::max_value() - i, 0),
            Wire::R(i) => (0, usize::max_value() - i, 1),
            _ => (1, 0, 0),
        });
        for (w, c) in cands {
            let others: Vec<Wire> = r.iter().map(|e| e.0).filter(|y| *y != w).collect();
            if !depends(&def, s, &others, w) {
                def.insert(w, (k, c));
                is_def[k] = true;
                break;
            }
        }
    }
    let mut wires: HashMap<Wire, TermId> = HashMap::new();
    let mut free = vec![];
    let mut all: Vec<Wire> = (0..s.m).map(Wire::V).collect();
    for i in 0..s.n {
        all.extend(vec![Wire::L(i), Wire::R(i), Wire::O(i)]);
    }
    for w in all {
        let mut st = vec![w];
        while let Some(x) = st.last().cloned() {
            if wires.contains_key(&x) {
                st.pop();
                continue;
            }
            let deps: Vec<Wire> = match x {
                Wire::O(i) => vec![Wire::L(i), Wire::R(i)],
                _ => match def.get(&x) {
                    Some((r, _)) => s.rows[*r].0.iter().map(|e| e.0).filter(|y| *y != x).collect(),
                    None => vec![],
                },
            };
            let todo: Vec<Wire> = deps.iter().filter(|d| !wires.contains_key(d)).cloned().collect();
            if !todo.is_empty() {
                st.extend(todo);
                continue;
            }
            let t = match (x, def.get(&x)) {
                (Wire::O(i), _) => mul(wires[&Wire::L(i)], wires[&Wire::R(i)]),
                (_, Some((r, c))) => {
                    let rest = row_value(&s.rows[*r], &wires, Some(x));
                    let f = arena().cst(c.inv().neg());
                    mul(f, rest)
                }
                _ => {
                    let t = var(&wire_name(x));
                    free.push(t);
                    t
                }
            };
            wires.insert(x, t);
            st.pop();
        }
    }
    let mut residuals = vec![];
    for (k, r) in s.rows.iter().enumerate() {
        if !is_def[k] {
            let t = row_value(r, &wires, None);
            if konst(t).map_or(true, |c| !c.is_zero()) {
                residuals.push(t);
            }
        }
    }
    residuals.sort();
    residuals.dedup();
    Solved { wires, residuals, free, facts: vec![] }
}
pub fn row_value(r: &Row, wires: &HashMap<Wire, TermId>, skip: Option<Wire>) -> TermId {
    let mut acc = r.1;
    for (w, c) in &r.0 {
        if Some(*w) != skip {
            let p = mul(*c, wires[w]);
            acc = add(acc, p);
        }
    }
    acc
}

/// Replace variables everywhere.
pub fn substitute(z: &mut Solved, map: &HashMap<TermId, TermId>) {
    let keys: Vec<Wire> = z.wires.keys().cloned().collect();
    let mut roots: Vec<TermId> = keys.iter().map(|k| z.wires[k]).collect();
    let n = roots.len();
    roots.extend(z.residuals.iter());
    let r = subst(&roots, map);
    for (k, t) in keys.iter().zip(r.iter()) {
        z.wires.insert(*k, *t);
    }
    z.residuals = r[n..].iter().cloned().filter(|t| konst(*t).map_or(true, |c| !c.is_zero())).collect();
    z.residuals.sort();
    z.residuals.dedup();
    z.free.retain(|t| !map.contains_key(t));
}

/// variables of a term
pub fn support(t: TermId) -> Vec<TermId> {
    let o = smt::reach(&[t]);
    let a = arena();
    o.into_iter().filter(|n| if let Node::Var(_) = a.nodes[*n as usize] { true } else { false }).collect()
}

/// free wires r with l*r - 1 = 0 among the residuals: r is the inverse of l. The solver confirms each replacement.
pub fn resolve_inverses(out: &mut Out, z: &mut Solved) {
    loop {
        let mut found = None;
        for t in &z.residuals {
            let free: Vec<TermId> = support(*t).into_iter().filter(|v| z.free.contains(v)).collect();
            for v in free {
                // t = c*v + d with d a constant; first at a few points
                let n = arena().name_of(v).unwrap().to_string();
                let at = |seed: u64, x: u64| -> Fr {
                    let mut e = Env::random(seed);
                    e.vals.insert(n.clone(), Fr::from_u64(x));
                    e.eval(*t)
                };
                let (f0, f1, f2) = (at(51, 0), at(51, 1), at(51, 2));
                if at(52, 0) != f0 || f2.sub(&f1) != f1.sub(&f0) {
                    continue;
                }
                let l = match collect_many(&[*t], v) {
                    Some(mut l) => l.remove(0),
                    None => continue,
                };
                if l.len() != 2 || !l.contains_key(&1) || !l.contains_key(&0) {
                    continue;
                }
                let (c, d) = (l[&1], l[&0]);
                if konst(d).is_none() || !support(c).iter().all(|x| *x != v) {
                    continue;
                }
                found = Some((*t, v, c, d));
                break;
            }
            if found.is_some() {
                break;
            }
        }
        let (t, v, c, d) = match found {
            Some(f) => f,
            None => return,
        };
        let i = arena().inv(c);
        let nd = arena().neg(d);
        let r = mul(nd, i);
        // lemma with c as an unknown: c*v + d = 0 implies v = -d * inv(c), and c is not zero
        let cut = var("lemma_c");
        let whole = sub(t, add(mul(c, v), d));
        let row = add(mul(cut, v), d);
        let ci = arena().inv(cut);
        let claim = sub(v, mul(nd, ci));
        let ok = smt::identically_zero(whole, 20) && smt::valid(&[Form::Zero(row)], &Form::And(vec![Form::Zero(claim), Form::NonZero(cut)]), 20).is_ok();
        out.ob(ok);
        if !ok {
            // leave the row as it is
            out.notes.push("an inverse was not resolved".into());
            return;
        }
        z.facts.push(Form::NonZero(c));
        let map: HashMap<TermId, TermId> = vec![(v, r)].into_iter().collect();
        let facts: Vec<Form> = std::mem::replace(&mut z.facts, vec![]);
        z.residuals.retain(|x| *x != t);
        substitute(z, &map);
        z.facts = facts
            .into_iter()
            .map(|f| match f {
                Form::NonZero(x) => Form::NonZero(subst(&[x], &map)[0]),
                f => f,
            })
            .collect();
    }
}

/// Merge equal subterms: candidates by value at pseudo-random points, each merge shown by the solver on the part
/// of the two terms above their common subterms.
pub fn sweep(out: &mut Out, roots: &[TermId], facts: &[Form]) -> Vec<TermId> {
    let order = smt::reach(roots);
    let mut memo: HashMap<TermId, TermId> = HashMap::new();
    let mut envs = vec![Env::random(11), Env::random(12)];
    let mut table: HashMap<String, TermId> = HashMap::new();
    let mut failed = 0;
    for t in order {
        let node = arena().nodes[t as usize];
        let nn = match node {
            Node::Add(x, y) => add(memo[&x], memo[&y]),
            Node::Mul(x, y) => mul(memo[&x], memo[&y]),
            Node::Inv(x) => arena().inv(memo[&x]),
            _ => t,
        };
        let sig: String = envs.iter_mut().map(|e| e.eval(nn).to_dec()).collect::<Vec<_>>().join(",");
        let rep = match table.get(&sig) {
            Some(r) if *r != nn && failed < 40 => {
                let r = *r;
                if merge(out, nn, r, facts) {
                    r
                } else {
                    failed += 1;
                    nn
                }
            }
            Some(r) if *r == nn => nn,
            _ => {
                table.insert(sig, nn);
                nn
            }
        };
        memo.insert(t, rep);
    }
    roots.iter().map(|t| memo[t]).collect()
}
fn merge(out: &mut Out, a: TermId, b: TermId, facts: &[Form]) -> bool {
    if konst(a).is_some() && konst(b).is_some() {
        return konst(a) == konst(b);
    }
    let ca: HashSet<TermId> = smt::reach(&[a]).into_iter().collect();
    let cb: HashSet<TermId> = smt::reach(&[b]).into_iter().collect();
    let shared: Vec<TermId> = ca.intersection(&cb).cloned().filter(|t| konst(*t).is_none()).collect();
    // sums are compared as sums of the common products
    let mut cut: HashMap<TermId, TermId> = HashMap::new();
    for t in &shared {
        let node = arena().nodes[*t as usize];
        let product = match node {
            Node::Mul(x, y) => konst(x).is_none() && konst(y).is_none(),
            Node::Inv(_) => true,
            _ => false,
        };
        if product {
            let v = var(&format!("cut_{}", t));
            cut.insert(*t, v);
        }
    }
    let d = {
        let r = subst(&[a, b], &cut);
        sub(r[0], r[1])
    };
    if Env::random(21).eval(d).is_zero() && smt::reach(&[d]).len() < 600 && smt::identically_zero(d, 20) {
        out.obligations += 1;
        out.discharged += 1;
        return true;
    }
    // above the common subterms: those become unknowns
    let mut cut: HashMap<TermId, TermId> = HashMap::new();
    for t in &shared {
        let is_var = if let Node::Var(_) = arena().nodes[*t as usize] { true } else { false };
        if !is_var {
            let v = var(&format!("cut_{}", t));
            cut.insert(*t, v);
        }
    }
    let d = {
        let r = subst(&[a, b], &cut);
        sub(r[0], r[1])
    };
    let mut env = Env::random(21);
    if env.eval(d).is_zero() {
        if let Some(c) = konst(d) {
            if c.is_zero() {
                return true;
            }
        }
        if let Res::Unsat = smt::solve(&[Form::NonZero(d)], 30) {
            out.obligations += 1;
            out.discharged += 1;
            return true;
        }
    }
    // the whole terms
    let d = sub(a, b);
    if smt::reach(&[d]).len() < 3000 {
        let mut q = facts.to_vec();
        q.push(Form::NonZero(d));
        if let Res::Unsat = smt::solve(&q, 20) {
            out.obligations += 1;
            out.discharged += 1;
            return true;
        }
    }
    false
}

/// A solution of the residuals that violates the goal, by solving for one unknown at a time.
pub fn numeric(z: &Solved, hyp: &[Form], goal: &Form, solvable: &[TermId]) -> Option<Model> {
    for seed in 30..42u64 {
        let mut fixed: Model = HashMap::new();
        let mut left: Vec<TermId> = z.residuals.clone();
        let mut used: HashSet<TermId> = HashSet::new();
        let value = |fixed: &Model, t: TermId| -> Fr {
            let mut e = Env::random(seed);
            e.vals = fixed.clone();
            e.eval(t)
        };
        let mut progress = true;
        while progress {
            progress = false;
            for k in 0..left.len() {
                if value(&fixed, left[k]).is_zero() {
                    continue;
                }
                for v in support(left[k]).into_iter().rev() {
                    if !solvable.contains(&v) && !z.free.contains(&v) || used.contains(&v) {
                        continue;
                    }
                    let n = arena().name_of(v).unwrap().to_string();
                    let at = |x: Fr| -> Fr {
                        let mut f = fixed.clone();
                        f.insert(n.clone(), x);
                        value(&f, left[k])
                    };
                    let (f0, f1, f2) = (at(Fr::zero()), at(Fr::one()), at(Fr::from_u64(2)));
                    let sl = f1.sub(&f0);
                    if sl.is_zero() || f2.sub(&f1) != sl {
                        continue;
                    }
                    let x = f0.neg().mul(&sl.inv());
                    fixed.insert(n, x);
                    used.insert(v);
                    progress = true;
                    break;
                }
            }
        }
        left.retain(|t| !value(&fixed, *t).is_zero());
        let mut e = Env::random(seed);
        e.vals = fixed.clone();
        // the model names every unknown it depends on
        for t in z.residuals.iter().chain(z.wires.values()) {
            e.eval(*t);
        }
        if left.is_empty() && hyp.iter().all(|h| h.holds(&mut e)) && z.facts.iter().all(|h| h.holds(&mut e)) && !goal.holds(&mut e) {
            return Some(e.vals);
        }
    }
    None
}

/// the counterexample as inputs of a dishonest prover
pub fn unsound(i: &Inst, s: &Sys, z: &Solved, m: &Model, what: &str) -> Value {
    unsound_with(&i.kind, &i.p, s, z, m, what)
}
pub fn unsound_with(kind: &str, p: &[i64], s: &Sys, z: &Solved, m: &Model, what: &str) -> Value {
    let mut env = Env::new(m.clone());
    let w = |env: &mut Env, x: Wire| env.eval(z.wires[&x]).to_dec();
    let rows: Vec<Value> = s
        .rows
        .iter()
        .map(|(r, c)| {
            let e: Vec<Value> = r
                .iter()
                .map(|(w, t)| {
                    let (k, i) = match w {
                        Wire::V(j) => ("V", *j),
                        Wire::L(i) => ("L", *i),
                        Wire::R(i) => ("R", *i),
                        Wire::O(i) => ("O", *i),
                    };
                    json!([k, i, env.eval(*t).to_dec()])
                })
                .collect();
            json!({"terms": e, "const": env.eval(*c).to_dec()})
        })
        .collect();
    let mults: Vec<Value> = (0..s.n).map(|k| json!([w(&mut env, Wire::L(k)), w(&mut env, Wire::R(k))])).collect();
    let vals: Vec<Value> = (0..s.m).map(|j| json!(w(&mut env, Wire::V(j)))).collect();
    let commits: Vec<Value> = s.commits.iter().map(|c| match c { Ok(j) => json!({"value": j}), Err(x) => json!({"public": x.to_dec()}) }).collect();
    json!({"kind": "unsound", "gadget": kind, "params": p, "what": what, "values": vals, "commits": commits, "multipliers": mults, "rows": rows, "model": model_json(&full_model(&env.vals))})
}

fn val(j: usize) -> FieldElement {
    fe(&format!("val_{}", j))
}
fn vt(j: usize) -> TermId {
    var(&format!("val_{}", j))
}

/// t = 0; a product vanishes iff a factor does
fn vanishes(t: TermId) -> Form {
    let mut todo = vec![t];
    let mut seen = HashSet::new();
    let mut parts = vec![];
    while let Some(t) = todo.pop() {
        if !seen.insert(t) {
            continue;
        }
        let n = arena().nodes[t as usize];
        match n {
            Node::Mul(a, b) => {
                todo.push(a);
                todo.push(b);
            }
            _ => parts.push(Form::Zero(t)),
        }
    }
    // (the solver is better at b * (b - 1) = 0 by itself)
    if parts.len() < 5 { Form::Zero(t) } else { Form::Or(parts) }
}
/// residuals = 0 implies goal?
fn decide(out: &mut Out, i: &Inst, s: &Sys, z: &Solved, goal: &Form, what: &str, solvable: &[TermId], timeout: u64) -> bool {
    let label = format!("{}: {}", i.label(), what);
    out.obligations += 1;
    let mut hyp = s.hyp.clone();
    hyp.extend(z.facts.iter().cloned());
    if let Some(m) = numeric(z, &hyp, goal, solvable) {
        out.viol(&label, unsound(i, s, z, &m, what));
        return false;
    }
    let mut q = hyp;
    q.extend(z.residuals.iter().map(|t| vanishes(*t)));
    q.push(goal.not());
    match smt::solve(&q, timeout) {
        Res::Unsat => {
            out.discharged += 1;
            true
        }
        Res::Sat(m) => {
            out.viol(&label, unsound(i, s, z, &m, what));
            false
        }
        Res::Unknown(w) => {
            out.unk(&format!("{}: {}", label, w));
            false
        }
    }
}

/// the wires that the residuals force to be 0 or 1, shown by the solver one at a time
pub fn bits(out: &mut Out, z: &Solved) -> Vec<TermId> {
    let one = cst(1);
    let mut b = vec![];
    for t in &z.residuals {
        let s = support(*t);
        if s.len() == 1 && !b.contains(&s[0]) {
            let v = s[0];
            let g = Form::Or(vec![Form::Zero(v), Form::Zero(sub(v, one))]);
            if smt::valid(&[Form::Zero(*t)], &g, 10).is_ok() {
                out.obligations += 1;
                out.discharged += 1;
                b.push(v);
            }
        }
    }
    b
}

/// every solution of what the verifier checks satisfies the statement
pub fn gadget(out: &mut Out, i: &Inst) {
    if !out.viols.is_empty() {
        return;
    }
    arena().hard_reset();
    let gs = i.gens();
    let m = i.commitments();
    let lg = gs.G.len().trailing_zeros() as usize;
    let q = i.open();
    let systems = match extract(out, &i.label(), m, lg, &mut |proof, comms| i.verify(&q, proof, comms, &gs)) {
        Some(s) => s,
        None => return,
    };
    out.witnessed += 1;
    for s in &systems {
        out.notes.push(format!("{}: {} multipliers (padded), {} rows, {} commitments", i.label(), s.n, s.rows.len(), s.m));
        let parts: Vec<Inst> = if i.kind == "comp" { i.parts() } else { vec![i.clone()] };
        let pubs = if i.kind == "comp" { q.parts.clone() } else { vec![q.clone()] };
        let mut keep: HashSet<usize> = HashSet::new();
        let mut offs = vec![];
        let mut off = 0;
        for p in &parts {
            offs.push(off);
            if p.kind.starts_with("merkle") || p.kind == "rand" {
                keep.extend(off..off + p.commitments());
            } else {
                keep.extend(p.secret().at.iter().map(|k| k + off));
            }
            off += p.commitments();
        }
        let wide = if parts.iter().any(|p| p.kind == "bound" || p.kind == "blk" && p.p[0] == blocks::POSITIVE) { 2 } else { usize::max_value() };
        let z = eliminate(s, &|j| keep.contains(&j), wide);
        if i.kind != "comp" {
            statement(out, i, i, &q, 0, s, z);
            continue;
        }
        for (k, p) in parts.iter().enumerate() {
            // the rows that share unknowns with the part first; they usually settle it
            let mine: HashSet<TermId> = (offs[k]..offs[k] + p.commitments()).map(|j| z.wires[&Wire::V(j)]).flat_map(support).collect();
            let local = Solved { wires: z.wires.clone(), residuals: connected(&z.residuals, mine), free: z.free.clone(), facts: vec![] };
            let mut trial = Out::default();
            statement(&mut trial, i, p, &pubs[k], offs[k], s, local);
            if trial.viols.is_empty() && trial.unknown.is_empty() {
                out.obligations += trial.obligations;
                out.discharged += trial.discharged;
                out.notes.extend(trial.notes);
            } else {
                statement(out, i, p, &pubs[k], offs[k], s, copy(&z));
            }
            if !out.viols.is_empty() {
                return;
            }
        }
    }
}
fn copy(z: &Solved) -> Solved {
    Solved { wires: z.wires.clone(), residuals: z.residuals.clone(), free: z.free.clone(), facts: z.facts.clone() }
}
fn connected(rows: &[TermId], mine: HashSet<TermId>) -> Vec<TermId> {
    let mut mine = mine;
    let sup: Vec<Vec<TermId>> = rows.iter().map(|t| support(*t)).collect();
    let mut taken = vec![false; rows.len()];
    loop {
        let mut more = false;
        for k in 0..rows.len() {
            if !taken[k] && sup[k].iter().any(|v| mine.contains(v)) {
                taken[k] = true;
                more = true;
                mine.extend(sup[k].iter().cloned());
            }
        }
        if !more {
            return rows.iter().zip(taken.iter()).filter(|x| *x.1).map(|x| *x.0).collect();
        }
    }
}

fn set64_large(p: &Inst) -> bool {
    p.set64().len() > 17
}

/// the statement of the part `p` of `i`, whose commitments start at `off`
fn statement(out: &mut Out, i: &Inst, p: &Inst, q: &crate::gadgets::Public, off: usize, s: &Sys, z: Solved) {
    let mut z = z;
    let m = p.commitments();
    let set: Vec<TermId> = q.set.iter().map(|e| e.term()).collect();
    let outv = q.out.term();
    let v = vt(off + p.secret().at[0]);
    match p.kind.as_str() {
        "blk" => block(out, i, p, &set, off, s, z),
        "nonzero" => {
            decide(out, i, s, &z, &Form::NonZero(v), "the committed value is not zero", &[v], 60);
        }
        "member" => {
            let g = Form::Or(set.iter().map(|x| Form::Zero(sub(v, *x))).collect());
            decide(out, i, s, &z, &g, "the committed value is in the set", &set, 60);
        }
        "nonmember" => {
            let g = Form::And(set.iter().map(|x| Form::NonZero(sub(v, *x))).collect());
            decide(out, i, s, &z, &g, "the committed value is not in the set", &set, 60);
        }
        "alt" => {
            let g = Form::Or(p.set64().iter().map(|x| Form::Zero(sub(v, cst(*x)))).collect());
            if set64_large(p) {
                // unknowns that vanish unless the statement holds, one row at a time
                let mut map = HashMap::new();
                for t in &z.residuals {
                    let u: Vec<TermId> = support(*t).into_iter().filter(|x| *x != v).collect();
                    if u.len() == 1 && support(*t).len() == 2 && !map.contains_key(&u[0]) && smt::valid(&[Form::Zero(*t), g.not()], &Form::Zero(u[0]), 10).is_ok() {
                        out.obligations += 1;
                        out.discharged += 1;
                        map.insert(u[0], cst(0));
                    }
                }
                let mut y = copy(&z);
                substitute(&mut y, &map);
                let mut q: Vec<Form> = y.residuals.iter().map(|t| Form::Zero(*t)).collect();
                q.push(g.not());
                if let Res::Unsat = smt::solve(&q, 30) {
                    out.obligations += 1;
                    out.discharged += 1;
                    return;
                }
            }
            decide(out, i, s, &z, &g, "the committed value is in the set", &[v], 60);
        }
        "hamming" => hamming(out, i, p, off, s, &z, &set),
        "bound" => bound(out, i, off + p.secret().at[0], &(p.p[1] as u64).to_string(), &(p.p[2] as u64).to_string(), s, &z),
        "mimc" => {
            let n = p.p[0] as usize;
            let want = crate::gadgets::mimc_ref(&val(off), &val(off + 1), &crate::gadgets::names("k", n));
            image(out, i, s, z, want.term(), outv);
        }
        "pos2" | "pos4" | "pos8" => {
            resolve_inverses(out, &mut z);
            let want = p.hash((off..off + m).map(val).collect());
            image(out, i, s, z, want.term(), outv);
        }
        "merkle4" | "merkle8" => merkle(out, i, p, off, s, z, outv),
        "rand" => {
            // every committed value is in the tree with the committed root, and putting them into the public tree gives that root
            let (d, pp) = (i.p[6] as usize, i.params());
            let root = vt(0);
            let vals: Vec<FieldElement> = i.secret().at.iter().map(|k| val(*k)).collect();
            let mut wants = vec![(crate::trees::root(4, d as u32, &i.contents(&vals), &pp).term(), "the public tree with the committed values has the committed root".to_string())];
            for (k, at) in i.secret().at.iter().enumerate() {
                let path: Vec<Vec<FieldElement>> = (0..d).map(|l| (0..3).map(|c| val(at + 1 + 3 * l + c)).collect()).collect();
                wants.push((crate::trees::climb(4, &vals[k], i.p[8 + k] as u64, &path, &pp).term(), format!("value {} is in the committed tree", k)));
            }
            for (w, what) in wants {
                let y = Solved { wires: z.wires.clone(), residuals: z.residuals.clone(), free: z.free.clone(), facts: z.facts.clone() };
                image_of(out, i, s, y, w, root, &what);
            }
        }
        k => out.unk(&format!("no statement for {}", k)),
    }
}

fn block(out: &mut Out, i: &Inst, p: &Inst, set: &[TermId], off: usize, s: &Sys, z: Solved) {
    let mut z = z;
    let b = &p.p;
    let m = p.commitments();
    let vals: Vec<FieldElement> = (off..off + m).map(val).collect();
    let vs: Vec<TermId> = (off..off + m).map(vt).collect();
    match b[0] {
        blocks::BIT => {
            let g = Form::Or(vec![Form::Zero(vs[0]), Form::Zero(sub(vs[0], cst(1)))]);
            decide(out, i, s, &z, &g, "the value is a bit", &vs, 60);
        }
        blocks::POSITIVE => {
            let top = arena().cst((0..b[3]).fold(Fr::one(), |x, _| x.add(&x)).sub(&Fr::one()));
            let top = konst(top).unwrap().to_dec();
            bound(out, i, off, "0", &top, s, &z);
        }
        blocks::SUM => {
            let mut acc = cst(b[2] as u64);
            for k in &b[4..] {
                acc = sub(acc, vs[*k as usize]);
            }
            decide(out, i, s, &z, &Form::Zero(acc), "the sum is the public number", &vs, 60);
        }
        blocks::PRODUCT => {
            let n = m - 1;
            let v = vs[n];
            let mut acc = v;
            let mut goals = vec![];
            for k in 0..n {
                let item = cst(b[3 + k] as u64);
                goals.push(Form::Zero(mul(vs[k], sub(item, v))));
                acc = sub(acc, mul(item, vs[k]));
            }
            goals.push(Form::Zero(acc));
            decide(out, i, s, &z, &Form::And(goals), "every chosen item is the value, and the chosen items sum to it", &vs, 60);
        }
        blocks::NONZERO => {
            let g = sub(mul(vs[0], vs[1]), cst(1));
            decide(out, i, s, &z, &Form::Zero(g), "the second value is the inverse of the first", &vs, 60);
        }
        _ => {
            resolve_inverses(out, &mut z);
            for (k, w) in blocks::outputs(p, &vals).iter().enumerate() {
                image_all(out, i, s, copy(&z), w.term(), set[k], set, &format!("output {} is that of the committed values", k));
            }
        }
    }
}

fn hamming(out: &mut Out, i: &Inst, p: &Inst, off: usize, s: &Sys, z: &Solved, set: &[TermId]) {
    let n = set.len();
    let (zero, count) = (cst(0), p.p[1]);
    // every pattern; for long vectors listed ones
    let mut masks: Vec<u64> = vec![];
    if n <= 7 {
        masks.extend(0..(1u64 << n));
    } else {
        let all = (1u64 << n) - 1;
        let few = (1u64 << count.min(n as i64) as u32) - 1;
        masks.extend(vec![0, all, all / 3, all / 7, few, few << 1 & all, few >> 1, few << 2 & all]);
        for k in 0..n {
            masks.extend(vec![1 << k, all ^ 1 << k, few ^ 1 << k, (few << (n as i64 - count).max(0)) & all ^ 1 << k]);
        }
        masks.sort();
        masks.dedup();
    }
    for mask in masks {
        if mask.count_ones() as i64 == count {
            continue;
        }
        // exactly the positions of `mask` differ: impossible
        let mut y = Solved { wires: z.wires.clone(), residuals: z.residuals.clone(), free: z.free.clone(), facts: vec![] };
        let mut map = HashMap::new();
        for k in 0..n {
            if mask >> k & 1 == 0 {
                map.insert(set[k], vt(off + k));
            } else {
                y.facts.push(Form::NonZero(sub(vt(off + k), set[k])));
            }
        }
        substitute(&mut y, &map);
        let _ = zero;
        let before = out.viols.len();
        let sys = Sys { n: s.n, m: s.m, rows: subst_rows(s, &map), commits: s.commits.clone(), hyp: s.hyp.clone() };
        decide(out, i, &sys, &y, &Form::Or(vec![]), &format!("{} differing positions are not {}", mask.count_ones(), count), &[], 60);
        if out.viols.len() > before {
            // the public values of equal positions
            let (_, r) = out.viols.last_mut().unwrap();
            for k in 0..n {
                if mask >> k & 1 == 0 {
                    r["model"][format!("{}n{}", p.tag, k)] = r["values"][off + k].clone();
                }
            }
            return;
        }
    }
}
fn subst_rows(s: &Sys, map: &HashMap<TermId, TermId>) -> Vec<Row> {
    s.rows
        .iter()
        .map(|(r, c)| {
            let mut roots: Vec<TermId> = r.iter().map(|e| e.1).collect();
            roots.push(*c);
            let t = subst(&roots, map);
            (r.iter().zip(t.iter()).map(|(e, t)| (e.0, *t)).collect(), *t.last().unwrap())
        })
        .collect()
}

/// out = want is forced
fn image(out: &mut Out, i: &Inst, s: &Sys, z: Solved, want: TermId, outv: TermId) {
    image_of(out, i, s, z, want, outv, "the public output is the image of the committed values")
}
fn image_of(out: &mut Out, i: &Inst, s: &Sys, z: Solved, want: TermId, outv: TermId, what: &str) {
    image_all(out, i, s, z, want, outv, &[outv], what)
}
/// `solvable`: every public output
fn image_all(out: &mut Out, i: &Inst, s: &Sys, z: Solved, want: TermId, outv: TermId, solvable: &[TermId], what: &str) {
    let goal = Form::Zero(sub(want, outv));
    let mut hyp = s.hyp.clone();
    hyp.extend(z.facts.iter().cloned());
    if let Some(m) = numeric(&z, &hyp, &goal, solvable) {
        out.obligations += 1;
        out.viol(&format!("{}: {}", i.label(), what), unsound(i, s, &z, &m, what));
        return;
    }
    let mut roots = z.residuals.clone();
    let n = roots.len();
    roots.push(want);
    let r = sweep(out, &roots, &z.facts);
    // common subterms of the two sides become unknowns
    let g = sub(r[n], outv);
    let mut all: Vec<TermId> = r[..n].to_vec();
    all.push(g);
    let ca: HashSet<TermId> = smt::reach(&r[..n]).into_iter().collect();
    let cb: HashSet<TermId> = smt::reach(&[r[n]]).into_iter().collect();
    let mut cut: HashMap<TermId, TermId> = HashMap::new();
    for t in ca.intersection(&cb) {
        let node = arena().nodes[*t as usize];
        match node {
            Node::Add(..) | Node::Mul(..) | Node::Inv(_) => {
                let v = var(&format!("cut_{}", t));
                cut.insert(*t, v);
            }
            _ => {}
        }
    }
    let c = subst(&all, &cut);
    let mut q: Vec<Form> = c[..n].iter().map(|t| Form::Zero(*t)).collect();
    q.push(Form::NonZero(c[n]));
    out.obligations += 1;
    if let Res::Unsat = smt::solve(&q, 60) {
        out.discharged += 1;
        return;
    }
    out.obligations -= 1;
    let y = Solved { wires: z.wires.clone(), residuals: z.residuals.clone(), free: z.free.clone(), facts: z.facts.clone() };
    decide(out, i, s, &y, &goal, what, solvable, 60);
}

fn deep() -> bool {
    std::env::args().any(|a| a == "thorough")
}
fn merkle(out: &mut Out, i: &Inst, p: &Inst, off: usize, s: &Sys, z: Solved, outv: TermId) {
    let depth = p.p[6] as usize;
    let arity = p.arity();
    let bs = bits(out, &z);
    // every combination of bits; for deep trees listed ones
    let n = bs.len();
    let mut masks: Vec<u64> = vec![];
    if n <= 8 {
        masks.extend(0..(1u64 << n));
    } else if n > 60 {
        out.unk(&format!("{}: {} bits", i.label(), n));
        return;
    } else {
        let all = (1u64 << n) - 1;
        masks.extend(vec![0, all, all / 3, all / 3 * 2, all / 7, all / 5]);
        for k in 0..n {
            masks.push(1 << k);
            masks.push(all ^ 1 << k);
        }
        let mut x = 1u64;
        for _ in 0..10 {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            masks.push(x >> 3 & all);
        }
        masks.sort();
        masks.dedup();
        if deep() {
            masks.extend((0..200u64).map(|k| k.wrapping_mul(0x9E3779B97F4A7C15) >> 2 & all));
        }
    }
    let path: Vec<Vec<FieldElement>> = (0..depth).map(|l| (0..arity - 1).map(|k| val(off + 2 + l * (arity - 1) + k)).collect()).collect();
    let mut seen: HashSet<String> = HashSet::new();
    for mask in masks {
        if !out.viols.is_empty() {
            return;
        }
        let map: HashMap<TermId, TermId> = bs.iter().enumerate().map(|(k, b)| (*b, cst(mask >> k & 1))).collect();
        let mut y = Solved { wires: z.wires.clone(), residuals: z.residuals.clone(), free: z.free.clone(), facts: vec![] };
        substitute(&mut y, &map);
        if y.residuals.iter().any(|t| konst(*t).is_some()) {
            // contradictory choice of bits
            out.obligations += 1;
            out.discharged += 1;
            continue;
        }
        // the index is determined by the bits
        let idx = vt(off + 1);
        let mut fixed = None;
        for t in &y.residuals {
            if support(*t) == vec![idx] {
                if let Some(l) = collect_many(&[*t], idx) {
                    let (a, b) = (l[0].get(&1).cloned().and_then(konst), l[0].get(&0).cloned().map_or(Some(Fr::zero()), konst));
                    if let (Some(a), Some(b), true) = (a, b, l[0].keys().all(|k| *k == 0 || *k == 1)) {
                        fixed = Some(b.neg().mul(&a.inv()));
                    }
                }
            }
        }
        let dec = fixed.map(|f| f.to_dec()).unwrap_or("any".into());
        let index: Option<u64> = dec.parse().ok().filter(|x: &u64| *x < (arity as u64).pow(depth as u32));
        match (fixed, index) {
            (Some(f), Some(k)) => {
                let c = arena().cst(f);
                substitute(&mut y, &vec![(idx, c)].into_iter().collect());
                resolve_inverses(out, &mut y);
                seen.insert(dec);
                let want = p.climb(&val(off), k, &path);
                image(out, i, s, y, want.term(), outv);
            }
            _ if n > 12 => out.unk(&format!("{}: the index is not determined", i.label())),
            _ => {
                // the index is not pinned to a position of the tree: is there a solution?
                let goal = Form::Or((0..(arity as u64).pow(depth as u32)).map(|k| Form::Zero(sub(idx, cst(k)))).collect());
                decide(out, i, s, &y, &goal, "the committed index is a position of the tree", &[outv, idx], 60);
                let want: Vec<TermId> = (0..(arity as u64).pow(depth as u32)).map(|k| p.climb(&val(off), k, &path).term()).collect();
                let g = Form::And(want.iter().enumerate().map(|(k, w)| Form::Or(vec![Form::NonZero(sub(idx, cst(k as u64))), Form::Zero(sub(*w, outv))])).collect());
                if out.viols.is_empty() {
                    decide(out, i, s, &y, &g, "the root is the hash of the path", &[outv, idx], 60);
                }
            }
        }
    }
    out.notes.push(format!("{}: {} positions", i.label(), seen.len()));
}

/// The value lies in the bounds: the bits are shown to be bits over the field, the rest is linear integer arithmetic.
fn bound(out: &mut Out, i: &Inst, at: usize, lo: &str, hi: &str, s: &Sys, z: &Solved) {
    let what = "the committed value is within the bounds";
    let bs = bits(out, z);
    let v = vt(at);
    let r = smt::R_DEC;
    let name = |t: TermId| format!("x{}", t);
    let lit = |c: &str| if c.starts_with('-') { format!("(- {})", &c[1..]) } else { c.to_string() };
    // rows that are linear in the bits and other unknowns, as integers modulo r
    let mut rows: Vec<(Vec<(TermId, String)>, Vec<(TermId, String)>, String)> = vec![];
    let mut dropped = 0;
    for t in &z.residuals {
        let sup = support(*t);
        if sup.len() == 1 && bs.contains(&sup[0]) && sup[0] != v {
            continue;
        }
        let e = match crate::poly::expand(*t, 4000) {
            Some(e) => e,
            None => {
                out.unk(&format!("{}: large row", i.label()));
                return;
            }
        };
        let (mut b, mut o, mut c0, mut linear) = (vec![], vec![], String::from("0"), true);
        for (mono, c) in &e {
            match mono.as_slice() {
                [] => c0 = c.to_signed_dec(),
                [(x, 1)] if bs.contains(x) && *x != v => b.push((*x, c.to_signed_dec())),
                [(x, 1)] => o.push((*x, c.to_signed_dec())),
                _ => linear = false,
            }
        }
        if linear {
            rows.push((b, o, c0));
        } else {
            // without this row the statement to show is only stronger
            dropped += 1;
        }
    }
    // the range of the sum of the bits of each row, shown by the solver; then the rows over these sums
    let mut head = String::from("(set-logic QF_LIA)\n");
    let mut seen: HashSet<TermId> = HashSet::new();
    let mut declare = |t: TermId, head: &mut String| {
        if seen.insert(t) {
            head.push_str(&format!("(declare-const {0} Int)\n(assert (and (<= 0 {0}) (< {0} {1})))\n", name(t), r));
        }
    };
    declare(v, &mut head);
    if bs.contains(&v) {
        head.push_str(&format!("(assert (<= {} 1))\n", name(v)));
    }
    let mut body = String::new();
    for (k, (b, o, c0)) in rows.iter().enumerate() {
        let neg: String = b.iter().filter(|x| x.1.starts_with('-')).map(|x| format!(" {}", lit(&x.1))).collect();
        let pos: String = b.iter().filter(|x| !x.1.starts_with('-')).map(|x| format!(" {}", lit(&x.1))).collect();
        let sum: String = b.iter().map(|x| format!(" (* {} {})", lit(&x.1), name(x.0))).collect();
        if !b.is_empty() {
            let mut q = String::from("(set-logic QF_LIA)\n");
            for (x, _) in b {
                q.push_str(&format!("(declare-const {0} Int)\n(assert (and (<= 0 {0}) (<= {0} 1)))\n", name(*x)));
            }
            q.push_str(&format!("(assert (or (< (+ 0{0}) (+ 0{1})) (> (+ 0{0}) (+ 0{2}))))\n(check-sat)\n", sum, neg, pos));
            out.obligations += 1;
            match smt::solve_text(&q, 60).0 {
                Res::Unsat => out.discharged += 1,
                _ => {
                    out.unk(&format!("{}: the range of a sum of bits", i.label()));
                    return;
                }
            }
        }
        let mut others = String::new();
        for (x, c) in o {
            declare(*x, &mut head);
            others.push_str(&format!(" (* {} {})", lit(c), name(*x)));
        }
        head.push_str(&format!("(declare-const k{0} Int)\n(declare-const s{0} Int)\n", k));
        body.push_str(&format!("(assert (and (<= (+ 0{1}) s{0}) (<= s{0} (+ 0{2}))))\n(assert (= (+ s{0}{3} {4}) (* {5} k{0})))\n", k, neg, pos, others, lit(c0), r));
    }
    let mut text = format!("{}{}(assert (or (< {2} {3}) (> {2} {4})))\n(check-sat)\n(get-value ({2}", head, body, name(v), lo, hi);
    for x in &seen {
        text.push_str(&format!(" {}", name(*x)));
    }
    for k in 0..rows.len() {
        text.push_str(&format!(" s{}", k));
    }
    text.push_str("))\n");
    out.obligations += 1;
    match smt::solve_text(&text, 60) {
        (Res::Unsat, _) => out.discharged += 1,
        (Res::Sat(_), o) => {
            // read the assignment back, choose the bits of each sum and check it over the field
            let toks: Vec<&str> = o.split(|c: char| c.is_whitespace() || c == '(' || c == ')').filter(|s| !s.is_empty()).collect();
            let mut got: HashMap<String, Fr> = HashMap::new();
            let mut w = 0;
            while w + 1 < toks.len() {
                if toks[w].starts_with('x') || toks[w].starts_with('s') && toks[w] != "sat" {
                    let (val, step) = if toks[w + 1] == "-" { (Fr::from_dec(toks[w + 2]).map(|x| x.neg()), 3) } else { (Fr::from_dec(toks[w + 1]), 2) };
                    if let Some(x) = val {
                        got.insert(toks[w].to_string(), x);
                    }
                    w += step;
                } else {
                    w += 1;
                }
            }
            let mut m: Model = HashMap::new();
            for x in &seen {
                if let Some(f) = got.get(&name(*x)) {
                    let n = arena().name_of(*x).unwrap().to_string();
                    m.insert(n, *f);
                }
            }
            for (k, (b, _, _)) in rows.iter().enumerate() {
                let (mut q, mut sgn) = (String::from("(set-logic QF_LIA)\n"), String::new());
                for (x, c) in b {
                    q.push_str(&format!("(declare-const {0} Int)\n(assert (and (<= 0 {0}) (<= {0} 1)))\n", name(*x)));
                    sgn.push_str(&format!(" (* {} {})", lit(c), name(*x)));
                    // a bit already chosen through another row
                    let n = arena().name_of(*x).unwrap().to_string();
                    if let Some(f) = m.get(&n) {
                        q.push_str(&format!("(assert (= {} {}))\n", name(*x), f.to_dec()));
                    }
                }
                let s0 = got.get(&format!("s{}", k)).map(|f| lit(&f.to_signed_dec())).unwrap_or("0".into());
                q.push_str(&format!("(assert (= (+ 0{}) {}))\n(check-sat)\n(get-value (", sgn, s0));
                for (x, _) in b {
                    q.push_str(&format!("{} ", name(*x)));
                }
                q.push_str("))\n");
                if b.is_empty() {
                    continue;
                }
                if let (Res::Sat(_), o) = smt::solve_text(&q, 60) {
                    let toks: Vec<&str> = o.split(|c: char| c.is_whitespace() || c == '(' || c == ')').filter(|s| !s.is_empty()).collect();
                    for w in toks.windows(2) {
                        if let Some((x, _)) = b.iter().find(|(x, _)| name(*x) == w[0]) {
                            if let Some(f) = Fr::from_dec(w[1]) {
                                let n = arena().name_of(*x).unwrap().to_string();
                                m.insert(n, f);
                            }
                        }
                    }
                }
            }
            let mut e = Env::new(m.clone());
            if z.residuals.iter().all(|t| e.eval(*t).is_zero()) {
                out.viol(&format!("{}: {}", i.label(), what), unsound(i, s, z, &m, what));
            } else if dropped > 0 && hi.parse::<u64>().and_then(|h| lo.parse::<u64>().map(|l| h.wrapping_sub(l) < 32)).unwrap_or(false) {
                out.obligations -= 1;
                let g = Form::Or((lo.parse::<u64>().unwrap()..=hi.parse::<u64>().unwrap()).map(|x| Form::Zero(sub(v, cst(x)))).collect());
                decide(out, i, s, z, &g, what, &[v], 60);
            } else {
                out.unk(&format!("{}: {} (model not confirmed)", i.label(), what));
            }
        }
        (Res::Unknown(w), _) => out.unk(&format!("{}: {}: {}", i.label(), what, w)),
    }
}

/// The linear layer of the built-in parameters loses nothing: only the zero state is mapped to zero.
pub fn mds(out: &mut Out, kind: &str) {
    arena().hard_reset();
    let i = crate::gadgets::inst(kind, &[0, 1, 1, 1, 0, 1]);
    let m = i.params().MDS_matrix;
    let xs: Vec<TermId> = (0..i.width()).map(|k| var(&format!("st{}", k))).collect();
    let mut q: Vec<Form> = vec![];
    for c in 0..i.width() {
        let mut acc = cst(0);
        for (r, x) in xs.iter().enumerate() {
            let e = m[r][c].term();
            let p = mul(e, *x);
            acc = add(acc, p);
        }
        q.push(Form::Zero(acc));
    }
    q.push(Form::Or(xs.iter().map(|x| Form::NonZero(*x)).collect()));
    out.obligations += 1;
    out.paths += 1;
    match smt::solve(&q, 60) {
        Res::Unsat => {
            out.discharged += 1;
            out.witnessed += 1;
        }
        Res::Sat(m) => out.viol("the linear layer is invertible", json!({"kind": "scenario", "scenario": format!("mds:{}", kind), "params": [0, 1, 1, 1, 0, 1], "model": model_json(&full_model(&m))})),
        Res::Unknown(w) => out.unk(&w),
    }
}
