//! The verification equation: what the verifier really checks, against the Bulletproofs equations.
use crate::circ::{self, Gens, Shape};
use crate::dse::{explore, Opts};
use crate::fw::{model_json, Out};
use crate::poly::collect_many;
use crate::prim::{basis, fe};
use crate::smt::{self, Env, Form, Res};
use amcl_wrapper::field_elem::FieldElement;
use amcl_wrapper::group_elem::GroupElement;
use amcl_wrapper::group_elem_g1::G1;
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::linear_combination::{LinearCombination, Variable};
use bulletproofs_amcl::r1cs::{ConstraintSystem, R1CSProof, RandomizedConstraintSystem, Verifier};
use merlin::Transcript;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use symcore::{arena, Cond, Fr, PointId, RandEvent, TEvent, TermId};

/// Replace every element of the proof: `p` gives the point / scalar for a path such as "A_I1" or "L2".
pub fn rebuild(v: &mut Value, path: &str, idx: Option<usize>, p: &mut dyn FnMut(&str, bool) -> String) {
    match v {
        Value::Object(m) => {
            for (k, x) in m.iter_mut() {
                let np = if k == "elems" { path.to_string() } else { k.clone() };
                rebuild(x, &np, idx, p);
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter_mut().enumerate() {
                rebuild(x, path, Some(i), p);
            }
        }
        Value::String(s) => {
            let name = match idx {
                Some(i) => format!("{}{}", path, i),
                None => path.to_string(),
            };
            if s.starts_with("g1:") {
                *s = p(&name, true);
            } else {
                *s = p(&name, false);
            }
        }
        _ => {}
    }
}
pub fn scalar_str(e: &FieldElement) -> String {
    match serde_json::to_value(e).unwrap() {
        Value::String(s) => s,
        v => v.to_string(),
    }
}
pub fn point_str(e: &G1) -> String {
    match serde_json::to_value(e).unwrap() {
        Value::String(s) => s,
        v => v.to_string(),
    }
}

/// A proof of the right shape whose every element is a fresh symbol.
pub fn symbolic_proof(n_padded: usize, tag: &str, opaque_points: bool) -> R1CSProof {
    let lg = n_padded.trailing_zeros() as usize;
    let z = serde_json::to_value(&fe("zero")).unwrap();
    let g = serde_json::to_value(&basis("zero")).unwrap();
    let mut m = serde_json::Map::new();
    for k in ["A_I1", "A_O1", "S1", "A_I2", "A_O2", "S2", "T_1", "T_3", "T_4", "T_5", "T_6"].iter() {
        m.insert(k.to_string(), g.clone());
    }
    for k in ["t_x", "t_x_blinding", "e_blinding"].iter() {
        m.insert(k.to_string(), z.clone());
    }
    m.insert("ipp_proof".into(), json!({"L": {"elems": vec![g.clone(); lg]}, "R": {"elems": vec![g.clone(); lg]}, "a": z.clone(), "b": z}));
    let mut v = Value::Object(m);
    rebuild(&mut v, "", None, &mut |name, pt| {
        if pt {
            let b = basis(&format!("PF_{}", name));
            if opaque_points {
                point_str(&b)
            } else {
                point_str(&(&b * &fe(&format!("{}d_{}", tag, name))))
            }
        } else {
            scalar_str(&fe(&format!("{}PF_{}", tag, name)))
        }
    });
    serde_json::from_value(v).expect("proof layout")
}

/// rows with free coefficients: the terms of row q of phase `tag` over n multipliers, as (variable, name, times the challenge)
pub fn free_terms(s: &Shape, tag: &str, q: usize, n: usize) -> Vec<(Variable, String, bool)> {
    let mut terms: Vec<(Variable, String, bool)> = vec![];
    let mut idx = 0;
    let mut put = |v: Variable, nm: String, odd: bool| {
        idx += 1;
        for rep in 0..circ::mention(s, q, idx, n) {
            terms.push((v, if rep == 0 { nm.clone() } else { format!("{}_bis", nm) }, odd));
        }
    };
    for i in 0..n {
        put(Variable::MultiplierLeft(i), format!("cL_{}{}_{}", tag, q, i), true);
        put(Variable::MultiplierRight(i), format!("cR_{}{}_{}", tag, q, i), false);
        put(Variable::MultiplierOutput(i), format!("cO_{}{}_{}", tag, q, i), true);
    }
    for j in 0..s.m {
        put(Variable::Committed(j), format!("cV_{}{}_{}", tag, q, j), false);
    }
    if s.dense != 2 || terms.is_empty() {
        // the constant comes in two terms of the same variable
        terms.push((Variable::One(), format!("cK_{}{}", tag, q), true));
        terms.push((Variable::One(), format!("cJ_{}{}", tag, q), false));
    }
    terms
}
fn free_row(s: &Shape, tag: &str, q: usize, n: usize, ch: Option<&FieldElement>) -> LinearCombination {
    free_terms(s, tag, q, n)
        .into_iter()
        .map(|(v, nm, odd)| {
            let mut c = fe(&nm);
            if let (Some(ch), true) = (ch, odd) {
                c = c * ch;
            }
            (v, c)
        })
        .collect()
}

pub fn free_verify(s: &Shape, gs: &Gens, proof: &R1CSProof, comms: &[G1], pre: Option<&[u8]>) -> Result<(), R1CSError> {
    let mut t = Transcript::new(b"verif");
    if let Some(m) = pre {
        t.append_message(b"before", m);
    }
    let mut v = Verifier::new(&mut t);
    for c in comms {
        v.commit(c.clone());
    }
    for _ in 0..s.n1 {
        v.allocate_multiplier(None)?;
    }
    for q in 0..s.q1 {
        v.constrain(free_row(s, "a", q, s.n1, None));
    }
    if s.two_phase {
        let draw = std::rc::Rc::new(std::cell::RefCell::new(None));
        for c in 0..s.calls {
            let (s2, draw) = (s.clone(), draw.clone());
            v.specify_randomized_constraints(move |cs| {
                if c == 0 {
                    *draw.borrow_mut() = Some(cs.challenge_scalar(b"verif challenge"));
                }
                let ch: FieldElement = draw.borrow().clone().unwrap();
                let (lo, hi) = circ::share(s2.n2, s2.calls, c);
                for _ in lo..hi {
                    cs.allocate_multiplier(None)?;
                }
                let (lo, hi) = circ::share(s2.q2, s2.calls, c);
                for q in lo..hi {
                    cs.constrain(free_row(&s2, "b", q, circ::upto(&s2, q), Some(&ch)));
                }
                Ok(())
            })?;
        }
    }
    v.verify(proof, &gs.g, &gs.h, &gs.G, &gs.H)
}

pub struct Accept {
    /// the combinations that were found to be the identity
    pub combos: Vec<PointId>,
    pub challenges: Vec<(String, TermId, usize)>,
    pub rand: Vec<RandEvent>,
    pub tlog: Vec<(u32, TEvent)>,
    /// conditions on scalars along the path
    pub hyp: Vec<Form>,
}

/// The accepting paths of a verification; None and a note if there is none.
pub fn accepting<F: FnMut() -> Result<(), R1CSError>>(out: &mut Out, label: &str, f: F) -> Option<Vec<Accept>> {
    let paths = explore(&Opts { free: true, max_paths: 64, ..Default::default() }, f);
    let mut acc = vec![];
    for p in &paths {
        out.paths += 1;
        if let Some(u) = &p.unsupported {
            out.unk(&format!("{}: not encodable: {}", label, u));
            return None;
        }
        match &p.result {
            Err(m) => {
                out.ob(false);
                out.viol(&format!("{}: verification panics: {}", label, m), json!({"kind": "shim", "what": format!("the real verifier panics on a well-formed proof: {}", m)}));
                return None;
            }
            Ok(Ok(())) => {
                acc.push(Accept {
                    combos: p.pzero.iter().filter(|(_, b)| *b).map(|(q, _)| *q).collect(),
                    challenges: p.tlog.iter().filter_map(|(_, e)| match e { TEvent::Challenge(l, len, t) => Some((String::from_utf8_lossy(l).into_owned(), *t, *len)), _ => None }).collect(),
                    rand: p.rand_log.clone(),
                    tlog: p.tlog.clone(),
                    hyp: p.trail.iter().filter(|(c, _)| if let Cond::PointZero(_) = c { false } else { true }).filter_map(|(c, b)| crate::dse::cond_form(c, *b)).collect(),
                });
            }
            Ok(Err(_)) => {}
        }
    }
    if acc.is_empty() {
        out.unk(&format!("{}: no accepting path", label));
        return None;
    }
    Some(acc)
}

pub type Vect = BTreeMap<String, TermId>;
pub fn vect(p: PointId) -> Vect {
    let a = arena();
    a.points[p as usize].iter().map(|(b, t)| (a.basis[*b as usize].clone(), *t)).collect()
}

struct Ops;
impl Ops {
    fn add(a: TermId, b: TermId) -> TermId {
        arena().add(a, b)
    }
    fn sub(a: TermId, b: TermId) -> TermId {
        arena().sub(a, b)
    }
    fn mul(a: TermId, b: TermId) -> TermId {
        arena().mul(a, b)
    }
    fn inv(a: TermId) -> TermId {
        arena().inv(a)
    }
    fn neg(a: TermId) -> TermId {
        arena().neg(a)
    }
    fn c(x: u64) -> TermId {
        arena().cst(Fr::from_u64(x))
    }
    fn var(n: &str) -> TermId {
        arena().var(n)
    }
}

pub struct Chals {
    pub phase2: Option<TermId>,
    pub y: TermId,
    pub z: TermId,
    pub u: TermId,
    pub x: TermId,
    pub w: TermId,
    pub rounds: Vec<TermId>,
}
/// by order: an optional phase-two challenge, then y z u x w, then one per round
pub fn chals(acc: &Accept, two_phase: bool, extra_phase2: usize) -> Option<Chals> {
    let c: Vec<TermId> = acc.challenges.iter().map(|x| x.1).collect();
    let off = if two_phase { extra_phase2 } else { 0 };
    if c.len() < off + 5 {
        return None;
    }
    let d = &c[off..];
    Some(Chals { phase2: if off > 0 { Some(c[0]) } else { None }, y: d[0], z: d[1], u: d[2], x: d[3], w: d[4], rounds: d[5..].to_vec() })
}

/// s_i of the inner product argument from its definition: the product of u_k^{+1} or u_k^{-1} by the bits of i
pub fn s_vec(n: usize, us: &[TermId]) -> Vec<TermId> {
    let lg = us.len();
    (0..n)
        .map(|i| {
            let mut acc = Ops::c(1);
            for (k, u) in us.iter().enumerate() {
                // the first challenge folds the halves: the most significant bit
                let bit = (i >> (lg - 1 - k)) & 1;
                let f = if bit == 1 { *u } else { Ops::inv(*u) };
                acc = Ops::mul(acc, f);
            }
            acc
        })
        .collect()
}

fn reference(s: &Shape, ch: &Chals) -> (Vect, Vect) {
    let n = s.n();
    let np = n.next_power_of_two();
    let zero = Ops::c(0);
    let one = Ops::c(1);
    let (mut wl, mut wr, mut wo, mut wv, mut wc) = (vec![zero; np], vec![zero; np], vec![zero; np], vec![zero; s.m], zero);
    let mut zq = one;
    let mut rows: Vec<(&str, usize, usize)> = (0..s.q1).map(|q| ("a", q, s.n1)).collect();
    if s.two_phase {
        rows.extend((0..s.q2).map(|q| ("b", q, circ::upto(s, q))));
    }
    for (tag, q, k) in rows {
        zq = Ops::mul(zq, ch.z);
        for (v, nm, odd) in free_terms(s, tag, q, k) {
            let mut c = Ops::var(&nm);
            if let (Some(p), true) = (ch.phase2, tag == "b" && odd) {
                c = Ops::mul(c, p);
            }
            let c = Ops::mul(zq, c);
            match v {
                Variable::MultiplierLeft(i) => wl[i] = Ops::add(wl[i], c),
                Variable::MultiplierRight(i) => wr[i] = Ops::add(wr[i], c),
                Variable::MultiplierOutput(i) => wo[i] = Ops::add(wo[i], c),
                Variable::Committed(j) => wv[j] = Ops::sub(wv[j], c),
                Variable::One() => wc = Ops::sub(wc, c),
            }
        }
    }
    let yi = Ops::inv(ch.y);
    let mut yp = vec![one];
    for i in 1..np {
        let last = yp[i - 1];
        yp.push(Ops::mul(last, yi));
    }
    let mut delta = zero;
    for i in 0..n {
        delta = Ops::add(delta, Ops::mul(Ops::mul(yp[i], wr[i]), wl[i]));
    }
    let sv = s_vec(np, &ch.rounds);
    let x2 = Ops::mul(ch.x, ch.x);
    let x3 = Ops::mul(x2, ch.x);
    let pf = |n: &str| Ops::var(&format!("PF_{}", n));
    let mut p: Vect = BTreeMap::new();
    let b = |n: &str| format!("PF_{}", n);
    for (k, e) in [("A_I", ch.x), ("A_O", x2), ("S", x3)].iter() {
        p.insert(b(&format!("{}1", k)), *e);
        p.insert(b(&format!("{}2", k)), Ops::mul(ch.u, *e));
    }
    p.insert("h".into(), Ops::neg(pf_term("e_blinding")));
    p.insert("g".into(), Ops::mul(ch.w, Ops::sub(pf("t_x"), Ops::mul(pf("a"), pf("b")))));
    for i in 0..np {
        let u = if i < s.n1 { one } else { ch.u };
        let gi = Ops::sub(Ops::mul(ch.x, Ops::mul(yp[i], wr[i])), Ops::mul(pf("a"), sv[i]));
        p.insert(format!("G{}", i), Ops::mul(u, gi));
        let si = Ops::inv(sv[i]);
        let inner = Ops::sub(Ops::add(Ops::mul(ch.x, wl[i]), wo[i]), Ops::mul(pf("b"), si));
        p.insert(format!("H{}", i), Ops::mul(u, Ops::sub(Ops::mul(yp[i], inner), one)));
    }
    for (k, u) in ch.rounds.iter().enumerate() {
        p.insert(b(&format!("L{}", k)), Ops::mul(*u, *u));
        let ui = Ops::inv(*u);
        p.insert(b(&format!("R{}", k)), Ops::mul(ui, ui));
    }
    let mut t: Vect = BTreeMap::new();
    for j in 0..s.m {
        t.insert(format!("V{}", j), Ops::mul(wv[j], x2));
    }
    let mut e = ch.x;
    for k in 1..7 {
        if k != 2 {
            t.insert(b(&format!("T_{}", k)), e);
        }
        e = Ops::mul(e, ch.x);
    }
    t.insert("g".into(), Ops::sub(Ops::mul(x2, Ops::add(wc, delta)), pf("t_x")));
    t.insert("h".into(), Ops::neg(pf_term("t_x_blinding")));
    (p, t)
}
fn pf_term(n: &str) -> TermId {
    Ops::var(&format!("PF_{}", n))
}

/// coefficients with respect to the verifier's own random draws
pub fn by_randomness(v: &Vect, rand: &[TermId]) -> Option<Vec<Vect>> {
    let keys: Vec<String> = v.keys().cloned().collect();
    let mut cur: Vec<Vec<TermId>> = vec![keys.iter().map(|k| v[k]).collect()];
    let zero = Ops::c(0);
    for r in rand {
        let mut next: Vec<Vec<TermId>> = vec![];
        for c in &cur {
            let ls = collect_many(c, *r)?;
            let mut exps: Vec<i32> = ls.iter().flat_map(|l| l.keys().cloned()).collect();
            exps.sort();
            exps.dedup();
            for e in exps {
                next.push(ls.iter().map(|l| l.get(&e).cloned().unwrap_or(zero)).collect());
            }
        }
        cur = next;
    }
    Some(cur.into_iter().map(|c| keys.iter().cloned().zip(c.into_iter()).collect()).collect())
}

pub fn setup(s: &Shape) -> (Gens, Vec<G1>) {
    let np = s.n().next_power_of_two();
    (circ::gens(np), (0..s.m).map(|j| basis(&format!("V{}", j))).collect())
}

/// C02: the verifier's acceptance condition is the conjunction of the two Bulletproofs equations.
pub fn r1cs_equation(out: &mut Out, s: &Shape) {
    r1cs_equation_with(out, s, &[])
}
fn without(mut v: Vect, ident: &[&str]) -> Vect {
    for k in ident {
        v.remove(*k);
    }
    v
}
/// `ident`: proof points ("PF_S1") and commitments ("V0") that are the identity
pub fn r1cs_equation_with(out: &mut Out, s: &Shape, ident: &[&str]) {
    arena().hard_reset();
    let label = if ident.is_empty() { s.label() } else { format!("{} identity={}", s.label(), ident.join(",")) };
    let point = |n: &str| -> G1 { if ident.contains(&n) { G1::identity() } else { basis(n) } };
    let setup = |s: &Shape| -> (Gens, Vec<G1>) { let (g, c) = setup(s); (g, c.into_iter().enumerate().map(|(j, p)| if ident.contains(&format!("V{}", j).as_str()) { G1::identity() } else { p }).collect()) };
    let proof_of = |np: usize| -> R1CSProof {
        let mut v = serde_json::to_value(&symbolic_proof(np, "", true)).unwrap();
        rebuild(&mut v, "", None, &mut |name, pt| if pt { point_str(&point(&format!("PF_{}", name))) } else { scalar_str(&fe(&format!("PF_{}", name))) });
        serde_json::from_value(v).unwrap()
    };
    let pv = [["PF_A_I1", "PF_S1", "PF_A_I2", "PF_S2"].iter().cloned().find(|k| !ident.contains(k)).unwrap(), ["PF_T_1", "PF_T_3", "PF_T_6"].iter().cloned().find(|k| !ident.contains(k)).unwrap()];
    let np = s.n().next_power_of_two();
    let accs = match accepting(out, &label, || {
        let (gs, comms) = setup(s);
        let proof = proof_of(np);
        free_verify(s, &gs, &proof, &comms, None)
    }) {
        Some(a) => a,
        None => return,
    };
    out.witnessed += 1;
    for acc in &accs {
    let ch = match chals(acc, s.two_phase, 1) {
        Some(c) if c.rounds.len() == np.trailing_zeros() as usize => c,
        _ => {
            out.unk(&format!("{}: unexpected challenges {:?}", label, acc.challenges));
            return;
        }
    };
    let (rp, rt) = reference(s, &ch);
    let (rp, rt) = (without(rp, ident), without(rt, ident));
    compare(out, &label, acc, &[rp, rt], &pv, &["the inner product equation (P)", "the polynomial equation (t)"], &mut |chal, rnd, pts, scal| {
        let (gs, comms) = setup(s);
        let mut proof = symbolic_proof(np, "", true);
        let mut v = serde_json::to_value(&proof).unwrap();
        rebuild(&mut v, "", None, &mut |name, pt| {
            if pt && ident.contains(&format!("PF_{}", name).as_str()) {
                point_str(&G1::identity())
            } else if pt {
                point_str(&pts(&format!("PF_{}", name)))
            } else {
                scalar_str(&scal(&format!("PF_{}", name)))
            }
        });
        proof = serde_json::from_value(v).unwrap();
        {
            let mut a = arena();
            a.chal_prog = Some(chal.to_vec());
            a.rand_prog = Some(rnd.to_vec());
        }
        let p = explore(&Opts { free: true, max_paths: 4, ..Default::default() }, || {
            // circuit coefficients are still symbolic names: programmed below by substitution
            free_verify(s, &gs, &proof, &comms, None)
        });
        {
            let mut a = arena();
            a.chal_prog = None;
            a.rand_prog = None;
        }
        p.into_iter().map(|x| (x.result.map(|r| r.is_ok()), x.pzero.clone())).collect()
    });
    }
}

pub type Runner<'a> = &'a mut dyn FnMut(&[Fr], &[Fr], &dyn Fn(&str) -> G1, &dyn Fn(&str) -> FieldElement) -> Vec<(Result<bool, String>, Vec<(PointId, bool)>)>;

/// Acceptance <=> all references vanish. `pivots[i]` is a basis element only reference i mentions.
pub fn compare(out: &mut Out, label: &str, acc: &Accept, refs: &[Vect], pivots: &[&str], names: &[&str], run: Runner) {
    let rand: Vec<TermId> = acc.rand.iter().map(|r| r.var).collect();
    let mut ds: Vec<Vect> = vec![];
    for p in &acc.combos {
        match by_randomness(&vect(*p), &rand) {
            Some(v) => ds.extend(v),
            None => {
                out.unk(&format!("{}: combination not polynomial in the verifier's randomness", label));
                return;
            }
        }
    }
    let zero = Ops::c(0);
    let get = |v: &Vect, k: &str| v.get(k).cloned().unwrap_or(zero);
    // coordinates of every checked combination with respect to the references
    let mut coords: Vec<Vec<TermId>> = vec![];
    let mut residuals: Vec<(usize, String, TermId)> = vec![];
    for (k, d) in ds.iter().enumerate() {
        let c: Vec<TermId> = (0..refs.len()).map(|i| Ops::mul(get(d, pivots[i]), Ops::inv(get(&refs[i], pivots[i])))).collect();
        let mut keys: Vec<&String> = d.keys().collect();
        for r in refs {
            keys.extend(r.keys());
        }
        keys.sort();
        keys.dedup();
        for b in keys {
            let mut e = get(d, b);
            for i in 0..refs.len() {
                e = Ops::sub(e, Ops::mul(c[i], get(&refs[i], b)));
            }
            residuals.push((k, b.clone(), e));
        }
        coords.push(c);
    }
    let all: Vec<TermId> = residuals.iter().map(|r| r.2).collect();
    let mut bad: Vec<String> = vec![];
    if smt::all_identically_zero(&all, 60) {
        out.obligations += all.len() as u64;
        out.discharged += all.len() as u64;
    } else {
        for (_, b, e) in &residuals {
            let r = crate::fw::zero_under(&acc.hyp, *e, 60);
            out.ob(r.is_ok());
            match r {
                Ok(()) => {}
                Err(Some(_)) => bad.push(b.clone()),
                Err(None) => {
                    out.unk(&format!("{}: coefficient of {} undecided", label, b));
                    return;
                }
            }
        }
    }
    // every reference is really enforced: the coordinates have full rank
    let rank_ok = if refs.len() == 1 {
        coords.iter().any(|c| nonzero(c[0]))
    } else {
        let mut ok = false;
        for i in 0..coords.len() {
            for j in 0..i {
                let m = Ops::sub(Ops::mul(coords[i][0], coords[j][1]), Ops::mul(coords[i][1], coords[j][0]));
                ok = ok || nonzero(m);
            }
        }
        ok
    };
    out.ob(rank_ok);
    // the draws that separate the equations are fresh
    let stale = acc.rand.iter().any(|r| r.kind != "os" && r.bytes.iter().all(|b| *b == 0));
    out.ob(!stale);
    if bad.is_empty() && rank_ok && !stale {
        return;
    }
    let what = if !bad.is_empty() {
        format!("{}: the verifier's equation differs from the Bulletproofs equations in the coefficient of {}", label, bad.join(", "))
    } else if !rank_ok {
        format!("{}: {} not both enforced", label, names.join(" and "))
    } else {
        format!("{}: predictable verifier randomness", label)
    };
    forge(out, label, &what, acc, &ds, refs, pivots, &rand, run);
}
fn nonzero(t: TermId) -> bool {
    if let Some(c) = arena().as_const(t) {
        return !c.is_zero();
    }
    let t = crate::poly::tidy(t);
    if let Some(c) = arena().as_const(t) {
        return !c.is_zero();
    }
    match smt::solve(&[Form::Zero(t)], 30) {
        Res::Unsat => true,
        _ => false,
    }
}

/// Build a proof that violates the references and show that the real verifier accepts it
/// (formal group, programmed challenges), or one that satisfies them and is rejected.
fn forge(out: &mut Out, label: &str, what: &str, acc: &Accept, ds: &[Vect], refs: &[Vect], pivots: &[&str], rand: &[TermId], run: Runner) {
    let base = || -> Env {
        if acc.hyp.is_empty() {
            return Env::random(5);
        }
        let mut e = match crate::fw::find_model(&acc.hyp, 30) {
            Ok(m) => Env::new(m),
            Err(_) => Env::random(5),
        };
        e.rnd = Some(5);
        e
    };
    let mut env = base();
    let chal: Vec<Fr> = acc.challenges.iter().map(|c| env.eval(c.1)).collect();
    let rnd: Vec<Fr> = rand.iter().map(|c| env.eval(*c)).collect();
    let get = |env: &mut Env, v: &Vect, k: &str| -> Fr { v.get(k).map(|t| env.eval(*t)).unwrap_or(Fr::zero()) };
    let mut keys: Vec<String> = vec![];
    for v in ds.iter().chain(refs.iter()) {
        keys.extend(v.keys().cloned());
    }
    keys.sort();
    keys.dedup();
    let free: Vec<String> = keys.iter().filter(|k| !pivots.contains(&k.as_str())).cloned().collect();
    // target: either all checked combinations vanish (accepted) or all references vanish (should be accepted)
    for (goal, mats) in [("accepted", ds), ("rejected", refs)].iter() {
        // unknown: coefficient of b in each pivot point; per b a small linear system
        let np = pivots.len();
        let mut pts: Vec<HashMap<String, Fr>> = vec![HashMap::new(); np];
        let mut solvable = true;
        for b in &free {
            let rows: Vec<(Vec<Fr>, Fr)> = mats.iter().map(|d| ((0..np).map(|i| get(&mut env, d, pivots[i])).collect(), get(&mut env, d, b).neg())).collect();
            match solve_small(&rows, np) {
                Some(x) => {
                    for i in 0..np {
                        pts[i].insert(b.clone(), x[i]);
                    }
                }
                None => solvable = false,
            }
        }
        if !solvable {
            continue;
        }
        // value of a list of vectors under this assignment of the pivot points
        let vanish = |env: &mut Env, vs: &[Vect]| -> bool {
            vs.iter().all(|d| {
                free.iter().all(|b| {
                    let mut s = get(env, d, b);
                    for i in 0..np {
                        s = s.add(&get(env, d, pivots[i]).mul(&pts[i][b]));
                    }
                    s.is_zero()
                })
            })
        };
        let (acc_c, ref_c) = (vanish(&mut env, ds), vanish(&mut env, refs));
        if acc_c == ref_c {
            continue;
        }
        let vals = std::cell::RefCell::new(env.vals.clone());
        let envc = std::cell::RefCell::new(base());
        let pts_ref = &pts;
        let mk_point = |name: &str| -> G1 {
            match pivots.iter().position(|p| *p == name) {
                Some(i) => {
                    let mut items = vec![];
                    for (b, c) in &pts_ref[i] {
                        let p = arena().basis_point(b);
                        let t = arena().cst(*c);
                        items.push((p, t));
                    }
                    items.sort();
                    let q = arena().lincomb(&items);
                    G1::from_point_id(q)
                }
                None => basis(name),
            }
        };
        let mk_scalar = |name: &str| -> FieldElement {
            let t = arena().var(name);
            let v = envc.borrow_mut().eval(t);
            vals.borrow_mut().insert(name.to_string(), v);
            let t = arena().cst(v);
            FieldElement::from_term(t)
        };
        let rs = run(&chal, &rnd, &mk_point, &mk_scalar);
        // decide the real code's combination under the assignment of the remaining names
        let mut verdict = None;
        for (r, pz) in &rs {
            let consistent = pz.iter().all(|(p, b)| {
                let cs: Vec<TermId> = arena().points[*p as usize].iter().map(|(_, t)| *t).collect();
                cs.iter().all(|t| env.eval(*t).is_zero()) == *b
            });
            if consistent {
                verdict = Some(r.clone());
            }
        }
        let real = match verdict {
            Some(Ok(b)) => b,
            _ => continue,
        };
        if (*goal == "accepted") == real && real == acc_c {
            let detail = if real { "the real verifier accepts a proof that violates the equations" } else { "the real verifier rejects a proof that satisfies the equations" };
            out.viol(
                &format!("{} - {}", what, detail),
                json!({"kind": "shim", "label": label, "what": what, "detail": detail, "challenges": chal.iter().map(|c| c.to_dec()).collect::<Vec<_>>(),
                "randomness": rnd.iter().map(|c| c.to_dec()).collect::<Vec<_>>(), "scalars": model_json(&env.vals),
                "points": pivots.iter().enumerate().map(|(i, p)| json!({"point": p, "in_basis": model_json(&pts[i])})).collect::<Vec<_>>()}),
            );
            return;
        }
    }
    out.unk(&format!("{} (no forged proof found)", what));
}

/// solve rows . x = rhs with at most two unknowns; free unknowns become 3
fn solve_small(rows: &[(Vec<Fr>, Fr)], n: usize) -> Option<Vec<Fr>> {
    let mut m: Vec<(Vec<Fr>, Fr)> = rows.to_vec();
    let mut piv: Vec<Option<usize>> = vec![None; n];
    let mut r = 0;
    for c in 0..n {
        let k = match (r..m.len()).find(|k| !m[*k].0[c].is_zero()) {
            Some(k) => k,
            None => continue,
        };
        m.swap(r, k);
        let i = m[r].0[c].inv();
        for j in 0..n {
            m[r].0[j] = m[r].0[j].mul(&i);
        }
        m[r].1 = m[r].1.mul(&i);
        for k in 0..m.len() {
            if k != r && !m[k].0[c].is_zero() {
                let f = m[k].0[c];
                for j in 0..n {
                    let d = f.mul(&m[r].0[j]);
                    m[k].0[j] = m[k].0[j].sub(&d);
                }
                let d = f.mul(&m[r].1);
                m[k].1 = m[k].1.sub(&d);
            }
        }
        piv[c] = Some(r);
        r += 1;
    }
    if m.iter().any(|(a, b)| a.iter().all(|x| x.is_zero()) && !b.is_zero()) {
        return None;
    }
    let mut x = vec![Fr::from_u64(3); n];
    for c in 0..n {
        if let Some(k) = piv[c] {
            let mut v = m[k].1;
            for j in 0..n {
                if j != c && piv[j].is_none() {
                    v = v.sub(&m[k].0[j].mul(&x[j]));
                }
            }
            x[c] = v;
        }
    }
    Some(x)
}

/// C05: IPP::verify_ipp accepts exactly when P equals the combination of the definition.
pub fn ipp_equation(out: &mut Out, n: usize) {
    use amcl_wrapper::field_elem::FieldElementVector;
    use bulletproofs_amcl::ipp::IPP;
    arena().hard_reset();
    let label = format!("ipp n={}", n);
    let lg = n.trailing_zeros() as usize;
    let fv = |nm: &str| -> FieldElementVector { (0..n).map(|i| fe(&format!("{}{}", nm, i))).collect::<Vec<_>>().into() };
    let go = |pts: &dyn Fn(&str) -> G1, sc: &dyn Fn(&str) -> FieldElement| -> Result<(), R1CSError> {
        let mut t = Transcript::new(b"ipp");
        let L: amcl_wrapper::group_elem_g1::G1Vector = (0..lg).map(|i| pts(&format!("PF_L{}", i))).collect::<Vec<_>>().into();
        let R: amcl_wrapper::group_elem_g1::G1Vector = (0..lg).map(|i| pts(&format!("PF_R{}", i))).collect::<Vec<_>>().into();
        IPP::verify_ipp(n, &mut t, &fv("gf"), &fv("hf"), &pts("PF_P"), &basis("Q"), &circ::basis_vec("G", n), &circ::basis_vec("H", n), &sc("PF_a"), &sc("PF_b"), &L, &R)
    };
    let accs = match accepting(out, &label, || go(&|x| basis(x), &|x| fe(x))) {
        Some(a) => a,
        None => return,
    };
    out.witnessed += 1;
    for acc in &accs {
    let us: Vec<TermId> = acc.challenges.iter().map(|c| c.1).collect();
    if us.len() != lg {
        out.unk(&format!("{}: {} challenges", label, us.len()));
        return;
    }
    let sv = s_vec(n, &us);
    let mut r: Vect = BTreeMap::new();
    r.insert("PF_P".into(), Ops::c(1));
    let (a, b) = (Ops::var("PF_a"), Ops::var("PF_b"));
    r.insert("Q".into(), Ops::neg(Ops::mul(a, b)));
    for i in 0..n {
        let g = Ops::mul(Ops::mul(a, sv[i]), Ops::var(&format!("gf{}", i)));
        r.insert(format!("G{}", i), Ops::neg(g));
        let h = Ops::mul(Ops::mul(b, Ops::inv(sv[i])), Ops::var(&format!("hf{}", i)));
        r.insert(format!("H{}", i), Ops::neg(h));
    }
    for (k, u) in us.iter().enumerate() {
        r.insert(format!("PF_L{}", k), Ops::mul(*u, *u));
        let ui = Ops::inv(*u);
        r.insert(format!("PF_R{}", k), Ops::mul(ui, ui));
    }
    compare(out, &label, acc, &[r], &["PF_P"], &["the inner product equation"], &mut |chal, _rnd, pts, scal| {
        arena().chal_prog = Some(chal.to_vec());
        let p = explore(&Opts { free: true, max_paths: 4, ..Default::default() }, || go(pts, scal));
        arena().chal_prog = None;
        p.into_iter().map(|x| (x.result.map(|r| r.is_ok()), x.pzero.clone())).collect()
    });
    }
}
