//! Scenarios: the real code driven with inputs named by `fe`, and the claims that must hold for all of them.
//! Compiled twice: with symbolic elements (symex) and with the real curve (replay).
use crate::circ::{self, Shape};
use crate::prim::{basis, fe, fu};
use amcl_wrapper::field_elem::{FieldElement, FieldElementVector};
use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
use amcl_wrapper::group_elem_g1::{G1Vector, G1};
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::ipp::IPP;
use bulletproofs_amcl::r1cs::linear_combination::{LinearCombination, Variable};
use bulletproofs_amcl::r1cs::{ConstraintSystem, Prover, R1CSProof, RandomizedConstraintSystem, Verifier};
use bulletproofs_amcl::utils::vector_poly::{Poly2, Poly6, VecPoly1, VecPoly3};
use merlin::Transcript;
use std::cell::RefCell;
use std::rc::Rc;

pub enum Claim {
    Zero(String, FieldElement),
    NonZero(String, FieldElement),
    True(String, bool),
}
#[derive(Clone, Debug)]
pub struct Scn {
    pub kind: String,
    pub p: Vec<i64>,
}
pub fn scn(kind: &str, p: &[i64]) -> Scn {
    Scn { kind: kind.to_string(), p: p.to_vec() }
}
pub fn t(n: &str, b: bool) -> Claim {
    Claim::True(n.to_string(), b)
}
pub fn eq(n: &str, a: &FieldElement, b: &FieldElement) -> Claim {
    Claim::Zero(n.to_string(), a - b)
}

pub fn run(s: &Scn) -> Vec<Claim> {
    match s.kind.as_str() {
        "r1cs" => r1cs(&s.p),
        "ipp" => ipp(&s.p),
        "ipp_bad" => ipp_bad(&s.p),
        "hist" => hist(&s.p),
        "missing" => missing(&s.p),
        "lc" => lc_ops(&s.p),
        "lc_simplify" => lc_simplify(&s.p),
        "poly" => polys(&s.p),
        "bad_ipp_len" => bad_ipp_len(&s.p),
        "bad_gens" => bad_gens(&s.p),
        k => crate::gadgets::run(k, &s.p),
    }
}

pub fn shape(p: &[i64]) -> Shape {
    Shape { m: p[0] as usize, n1: p[1] as usize, n2: p[2] as usize, q1: p[3] as usize, q2: p[4] as usize, two_phase: p[5] == 1, alloc: p[6] as u8, dense: (p[7] % 10) as u8, calls: 1 + (p[7] / 10) as usize }
}

/// [m, n1, n2, q1, q2, two_phase, alloc, dense + 10 (callbacks - 1), extra generators]
fn r1cs(p: &[i64]) -> Vec<Claim> {
    let s = shape(p);
    let n = s.n().next_power_of_two() + p.get(8).cloned().unwrap_or(0) as usize;
    let gs = circ::gens(n);
    match circ::prove(&s, &gs) {
        Ok((proof, comms)) => {
            let r = circ::verify(&s, &gs, &proof, &comms);
            let mut cs = vec![t("a satisfied circuit has a proof", true), t("the honest proof is accepted", r.is_ok())];
            if p.len() > 9 {
                // the proof as it arrives: serialised and deserialised
                let text = serde_json::to_string(&proof).unwrap();
                let r = serde_json::from_str::<R1CSProof>(&text).map(|q| circ::verify(&s, &gs, &q, &comms).is_ok());
                cs.push(t("the proof is accepted after a serialisation round trip", r.unwrap_or(false)));
            }
            cs
        }
        Err(_) => vec![t("a satisfied circuit has a proof", false)],
    }
}

pub fn fvec(name: &str, n: usize) -> FieldElementVector {
    (0..n).map(|i| fe(&format!("{}{}", name, i))).collect::<Vec<_>>().into()
}
fn g1vec(name: &str, n: usize) -> G1Vector {
    circ::basis_vec(name, n)
}

/// [n, kind of factors: 0 arbitrary, 1 all one]
fn ipp(p: &[i64]) -> Vec<Claim> {
    let n = p[0] as usize;
    let (a, b) = (fvec("a", n), fvec("b", n));
    let (gf, hf): (FieldElementVector, FieldElementVector) =
        if p[1] == 0 { (fvec("gf", n), fvec("hf", n)) } else { (vec![FieldElement::one(); n].into(), vec![FieldElement::one(); n].into()) };
    let (G, H, Q) = (g1vec("G", n), g1vec("H", n), basis("Q"));
    let mut tp = Transcript::new(b"ipp");
    let pr = IPP::create_ipp(&mut tp, &Q, &gf, &hf, &G, &H, &a, &b);
    let mut P = G1::identity();
    let mut c = FieldElement::zero();
    for i in 0..n {
        P = P + &G[i] * &(&a[i] * &gf[i]) + &H[i] * &(&b[i] * &hf[i]);
        c = c + &a[i] * &b[i];
    }
    P = P + &Q * &c;
    let mut tv = Transcript::new(b"ipp");
    let r = IPP::verify_ipp(n, &mut tv, &gf, &hf, &P, &Q, &G, &H, &pr.a, &pr.b, &pr.L, &pr.R);
    let mut lg = 0;
    while (1 << lg) < n {
        lg += 1;
    }
    // both ends of the argument leave their transcripts in the same state
    let mut x = [0u8; 32];
    let mut y = [0u8; 32];
    tp.challenge_bytes(b"next", &mut x);
    tv.challenge_bytes(b"next", &mut y);
    vec![
        t("the honest inner product proof is accepted", r.is_ok()),
        t("the proof has log2(n) rounds", pr.L.len() == lg && pr.R.len() == lg),
        t("prover and verifier transcripts end equal", x[..] == y[..]),
    ]
}

/// wrong inner product, wrong vectors or wrong size are rejected: [n, what]
fn ipp_bad(p: &[i64]) -> Vec<Claim> {
    let n = p[0] as usize;
    let (a, b) = (fvec("a", n), fvec("b", n));
    let gf: FieldElementVector = vec![FieldElement::one(); n].into();
    let hf: FieldElementVector = vec![FieldElement::one(); n].into();
    let (G, H, Q) = (g1vec("G", n), g1vec("H", n), basis("Q"));
    let mut tp = Transcript::new(b"ipp");
    let pr = IPP::create_ipp(&mut tp, &Q, &gf, &hf, &G, &H, &a, &b);
    let d = fe("nz_d");
    let mut P = G1::identity();
    let mut c = FieldElement::zero();
    for i in 0..n {
        P = P + &G[i] * &a[i] + &H[i] * &b[i];
        c = c + &a[i] * &b[i];
    }
    P = P + &Q * &c;
    let k = p[2] as usize % n;
    match p[1] {
        0 => P = P + &Q * &d,
        1 => P = P + &G[k] * &d,
        2 => P = P + &H[k] * &d,
        _ => P = P + &basis("other") * &d,
    }
    let mut tv = Transcript::new(b"ipp");
    let r = IPP::verify_ipp(n, &mut tv, &gf, &hf, &P, &Q, &G, &H, &pr.a, &pr.b, &pr.L, &pr.R);
    vec![t("a commitment that does not match the vectors is rejected", r.is_err())]
}

// ---- histories of the constraint system API ----

#[derive(Default)]
struct Hist {
    handles: Vec<(Variable, FieldElement)>,
    pending: Option<FieldElement>,
    mult: usize,
    ctr: usize,
    same: Vec<Claim>,
}
impl Hist {
    fn lc(&self, tag: &str) -> (LinearCombination, FieldElement) {
        // the two most recent handles and the oldest, symbolic coefficients, a constant
        let k = fe(&format!("k_{}", tag));
        let mut terms = vec![(Variable::One(), k.clone())];
        let mut val = k;
        let n = self.handles.len();
        let mut pick: Vec<usize> = vec![];
        for i in [n.wrapping_sub(1), n.wrapping_sub(2), 0].iter() {
            if *i < n && !pick.contains(i) {
                pick.push(*i);
            }
        }
        for i in pick {
            let c = fe(&format!("c_{}_{}", tag, i));
            val = val + &c * &self.handles[i].1;
            terms.push((self.handles[i].0, c));
        }
        (terms.into_iter().collect(), val)
    }
    fn step<CS: ConstraintSystem>(&mut self, cs: &mut CS, op: i64, prover: bool) -> Result<(), R1CSError> {
        let k = self.ctr;
        self.ctr += 1;
        let a = fe(&format!("a{}", k));
        let b = fe(&format!("b{}", k));
        let before = self.handles.len();
        match op {
            1 => {
                let v = cs.allocate(if prover { Some(a.clone()) } else { None })?;
                self.handles.push((v, a.clone()));
                self.pair(a);
            }
            2 => {
                let (v, o) = cs.allocate_single(if prover { Some(a.clone()) } else { None })?;
                let left = self.pending.clone();
                self.handles.push((v, a.clone()));
                self.same.push(t("allocate_single returns the product exactly when it completes a multiplier", o.is_some() == left.is_some()));
                if let (Some(o), Some(l)) = (o, left) {
                    self.handles.push((o, &l * &a));
                }
                self.pair(a);
            }
            3 => {
                let (l, r, o) = cs.allocate_multiplier(if prover { Some((a.clone(), b.clone())) } else { None })?;
                self.handles.push((l, a.clone()));
                self.handles.push((r, b.clone()));
                self.handles.push((o, &a * &b));
                self.mult += 1;
            }
            4 => {
                let (lc1, v1) = self.lc(&format!("l{}", k));
                let (lc2, v2) = self.lc(&format!("r{}", k));
                let (l, r, o) = cs.multiply(lc1, lc2);
                let o_val = &v1 * &v2;
                self.handles.push((l, v1));
                self.handles.push((r, v2));
                self.handles.push((o, o_val));
                self.mult += 1;
            }
            _ => {
                let (lc, v) = self.lc(&format!("q{}", k));
                cs.constrain(lc - v);
            }
        }
        for i in before..self.handles.len() {
            let (v, val) = self.handles[i].clone();
            for j in 0..i {
                if self.handles[j].0 == v {
                    self.same.push(t("every allocation returns a new variable", false));
                }
            }
            match cs.evaluate_lc(&LinearCombination::from(v)) {
                Some(x) => {
                    self.same.push(t("only the prover can evaluate", prover));
                    self.same.push(eq("the variable holds the value it was given", &x, &val));
                }
                None => self.same.push(t("the prover can evaluate", !prover)),
            }
        }
        Ok(())
    }
    fn pair(&mut self, a: FieldElement) {
        if self.pending.take().is_none() {
            self.pending = Some(a);
            self.mult += 1;
        }
    }
}

/// all handles are pinned to their values by constraints; `teeth` adds nz_d to one of the pinned values
fn pin<CS: ConstraintSystem>(cs: &mut CS, hs: &[(Variable, FieldElement)], teeth: i64, off: usize) {
    for (i, (v, val)) in hs.iter().enumerate() {
        let val = if teeth == (off + i) as i64 { val + &fe("nz_d") } else { val.clone() };
        cs.constrain(*v - LinearCombination::from(val));
    }
}

fn hist_run<CS: ConstraintSystem>(cs: &mut CS, ops: &[i64], vs: &[(Variable, FieldElement)], teeth: i64, prover: bool) -> Result<Rc<RefCell<Hist>>, R1CSError>
where
    CS::RandomizedCS: ConstraintSystem,
{
    let h = Rc::new(RefCell::new(Hist::default()));
    h.borrow_mut().handles.extend(vs.iter().cloned());
    let split = ops.iter().position(|o| *o == 6).unwrap_or(ops.len());
    for op in &ops[..split] {
        h.borrow_mut().step(cs, *op, prover)?;
    }
    let n1 = {
        let hb = h.borrow();
        pin(cs, &hb.handles, teeth, 0);
        hb.handles.len()
    };
    if split < ops.len() {
        let rest: Vec<i64> = ops[split + 1..].to_vec();
        let h2 = h.clone();
        cs.specify_randomized_constraints(move |cs| {
            let mut hb = h2.borrow_mut();
            // a half-used multiplier of the first phase is not completed in the second
            hb.pending = None;
            let c1 = cs.challenge_scalar(b"one");
            let c2 = cs.challenge_scalar(b"two");
            let k = hb.ctr;
            for op in &rest {
                if *op == 7 {
                    // nested registration runs at once
                    let ran = Rc::new(RefCell::new(false));
                    let ran2 = ran.clone();
                    cs.specify_randomized_constraints(move |_| {
                        *ran2.borrow_mut() = true;
                        Ok(())
                    })?;
                    let ok = *ran.borrow();
                    hb.same.push(t("a nested randomised constraint is not lost", ok));
                    continue;
                }
                hb.step(cs, *op, prover)?;
            }
            // a constraint whose coefficients are challenges
            let _ = k;
            if let Some((v, val)) = hb.handles.first().cloned() {
                let lc: LinearCombination = vec![(v, &c1 * &c2)].into_iter().collect();
                cs.constrain(lc - (&c1 * &c2) * &val);
            }
            let hs: Vec<_> = hb.handles[n1..].to_vec();
            pin(cs, &hs, teeth, n1);
            Ok(())
        })?;
    }
    Ok(h)
}

/// [teeth (-1: none), committed, op...]; ops 1 allocate 2 allocate_single 3 allocate_multiplier 4 multiply 5 constrain 6 second phase 7 nested
fn hist(p: &[i64]) -> Vec<Claim> {
    let teeth = p[0];
    let m = p[1] as usize;
    let ops = &p[2..];
    let n = (ops.len() + 1).next_power_of_two();
    let gs = circ::gens(n);
    let mut out = vec![];
    // prover
    let mut tp = Transcript::new(b"hist");
    let mut pr = Prover::new(&gs.g, &gs.h, &mut tp);
    let mut comms = vec![];
    let mut vs = vec![];
    for j in 0..m {
        let v = fe(&format!("v{}", j));
        let (c, var) = pr.commit(v.clone(), fe(&format!("gam{}", j)));
        comms.push(c);
        vs.push((var, v));
    }
    let hp = match hist_run(&mut pr, ops, &vs, teeth, true) {
        Ok(h) => h,
        Err(_) => return vec![t("the prover can run the history", false)],
    };
    out.push(t("num_multipliers counts the first phase", pr.num_multipliers() == hp.borrow().mult));
    let proof = match pr.prove(&gs.G, &gs.H) {
        Ok(p) => p,
        Err(_) => return vec![t("the prover produces a proof", false)],
    };
    // verifier
    let mut tv = Transcript::new(b"hist");
    let mut ve = Verifier::new(&mut tv);
    let vs2: Vec<_> = comms.iter().zip(vs.iter()).map(|(c, v)| (ve.commit(c.clone()), v.1.clone())).collect();
    let hv = match hist_run(&mut ve, ops, &vs2, teeth, false) {
        Ok(h) => h,
        Err(_) => return vec![t("the verifier can run the history", false)],
    };
    let r = ve.verify(&proof, &gs.g, &gs.h, &gs.G, &gs.H);
    let (a, b) = (hp.borrow(), hv.borrow());
    out.push(t("prover and verifier return the same variables", a.handles.iter().map(|h| h.0).collect::<Vec<_>>() == b.handles.iter().map(|h| h.0).collect::<Vec<_>>()));
    if teeth < 0 {
        out.push(t("the history's proof is accepted", r.is_ok()));
        let mut x = [0u8; 32];
        let mut y = [0u8; 32];
        tp.challenge_bytes(b"next", &mut x);
        tv.challenge_bytes(b"next", &mut y);
        out.push(t("prover and verifier transcripts end equal", x[..] == y[..]));
    } else if (teeth as usize) < a.handles.len() {
        out.push(t("a constraint the witness violates is rejected", r.is_err()));
    }
    drop((a, b));
    for h in [hp, hv].iter() {
        out.append(&mut h.borrow_mut().same);
    }
    out
}

/// a prover without assignments reports it: [op]
fn missing(p: &[i64]) -> Vec<Claim> {
    let gs = circ::gens(2);
    let mut tp = Transcript::new(b"missing");
    let mut pr = Prover::new(&gs.g, &gs.h, &mut tp);
    if p[1] == 1 {
        let _ = pr.allocate(Some(fe("a")));
    }
    let e = match p[0] {
        1 => pr.allocate(None).map(|_| ()),
        2 => pr.allocate_single(None).map(|_| ()),
        _ => pr.allocate_multiplier(None).map(|_| ()),
    };
    vec![t("a missing assignment is an error", e == Err(R1CSError::MissingAssignment))]
}

// ---- linear combinations ----

fn lc_vars() -> Vec<Variable> {
    vec![Variable::Committed(0), Variable::Committed(1), Variable::MultiplierLeft(0), Variable::MultiplierRight(0), Variable::MultiplierOutput(0), Variable::MultiplierLeft(1), Variable::One()]
}
fn lc_val(v: &Variable) -> FieldElement {
    match v {
        Variable::Committed(i) => fe(&format!("xC{}", i)),
        Variable::MultiplierLeft(i) => fe(&format!("xL{}", i)),
        Variable::MultiplierRight(i) => fe(&format!("xR{}", i)),
        Variable::MultiplierOutput(i) => fe(&format!("xO{}", i)),
        Variable::One() => FieldElement::one(),
    }
}
fn lc_eval(lc: &LinearCombination) -> FieldElement {
    lc.terms.iter().fold(FieldElement::zero(), |s, (v, c)| s + c * lc_val(v))
}
pub const LC_OPS: i64 = 22;
/// a sequence of operations on (lc, value); every prefix must evaluate to its value
fn lc_ops(p: &[i64]) -> Vec<Claim> {
    let vars = lc_vars();
    let mut lc = LinearCombination::default();
    let mut val = FieldElement::zero();
    let mut out = vec![eq("default is zero", &lc_eval(&lc), &val)];
    for (k, op) in p.iter().enumerate() {
        let s = fe(&format!("s{}", k));
        let v = vars[(k * 3 + 1) % vars.len()];
        let w = vars[(k * 5 + 2) % vars.len()];
        let (xv, xw) = (lc_val(&v), lc_val(&w));
        let other: LinearCombination = vec![(v, s.clone()), (w, fe(&format!("t{}", k)))].into_iter().collect();
        let oval = &s * &xv + fe(&format!("t{}", k)) * &xw;
        match op {
            0 => { lc = LinearCombination::from(v); val = xv; }
            1 => { lc = LinearCombination::from(s.clone()); val = s; }
            2 => { lc = s.clone() * lc; val = s * val; }
            3 => { lc = &s * lc; val = &s * &val; }
            4 => { lc = -lc; val = val.negation(); }
            5 => { lc = lc + other; val = val + oval; }
            6 => { lc = lc - other; val = val - oval; }
            7 => { lc = lc + v; val = val + xv; }
            8 => { lc = lc - v; val = val - xv; }
            9 => { lc = lc + s.clone(); val = val + s; }
            10 => { lc = lc - s.clone(); val = val - s; }
            11 => { lc += other; val = val + oval; }
            12 => { lc = lc.simplify(); }
            13 => { lc = v + lc; val = xv + val; }
            14 => { lc = v - lc; val = xv - val; }
            15 => { lc = lc + (s.clone() + v); val = val + s + xv; }
            16 => { lc = lc + (s.clone() - v); val = val + s - xv; }
            17 => { lc = lc + (s.clone() * v); val = val + s * xv; }
            18 => { lc = lc + (-v); val = val - xv; }
            19 => { let ts = lc.get_terms(); lc = ts.iter().collect(); }
            20 => { let ts = lc.clone().get_terms(); lc = ts.into_iter().chain(lc.terms.into_iter()).collect(); val = &val + &val; }
            _ => { lc += v; lc += s.clone(); val = val + xv + s; }
        }
        out.push(eq(&format!("value after operation {}", k), &lc_eval(&lc), &val));
        out.push(t("len counts the terms", lc.len() == lc.terms.len()));
    }
    let l = lc.len();
    let sl = lc.clone().simplify();
    let mut seen: Vec<Variable> = vec![];
    let mut dup = false;
    for (v, _) in &sl.terms {
        dup |= seen.contains(v);
        seen.push(*v);
    }
    out.push(t("simplify leaves one term per variable", !dup && sl.len() <= l));
    out.push(eq("simplify keeps the value", &lc_eval(&sl), &val));
    out
}
/// duplicates in every pattern: [a0, a1, ..] variable of term i
fn lc_simplify(p: &[i64]) -> Vec<Claim> {
    let vars = lc_vars();
    let lc: LinearCombination = p.iter().enumerate().map(|(i, k)| (vars[*k as usize], fe(&format!("c{}", i)))).collect();
    let want = lc_eval(&lc);
    let s = lc.simplify();
    let mut out = vec![eq("simplify keeps the value", &lc_eval(&s), &want)];
    for v in vars.iter() {
        let mut tot = FieldElement::zero();
        for (i, k) in p.iter().enumerate() {
            if vars[*k as usize] == *v {
                tot = tot + fe(&format!("c{}", i));
            }
        }
        let got: Vec<&FieldElement> = s.terms.iter().filter(|(w, _)| w == v).map(|(_, c)| c).collect();
        out.push(t("one term per variable", got.len() <= 1));
        let g = got.get(0).map(|c| (*c).clone()).unwrap_or(FieldElement::zero());
        out.push(eq("coefficient of the variable", &g, &tot));
    }
    out
}

// ---- vector polynomials ----

/// [n]
fn polys(p: &[i64]) -> Vec<Claim> {
    let n = p[0] as usize;
    let x = fe("x");
    let mut out = vec![];
    let ip = |a: &FieldElementVector, b: &FieldElementVector| -> FieldElement { (0..n).fold(FieldElement::zero(), |s, i| s + &a[i] * &b[i]) };
    // degree one
    let l = VecPoly1(fvec("l0_", n), fvec("l1_", n));
    let r = VecPoly1(fvec("r0_", n), fvec("r1_", n));
    let t2 = l.inner_product(&r);
    let (le, re) = (l.eval(&x), r.eval(&x));
    out.push(t("VecPoly1 eval length", le.len() == n && re.len() == n));
    for i in 0..n {
        out.push(eq("VecPoly1 eval", &le[i], &(&l.0[i] + &l.1[i] * &x)));
    }
    out.push(eq("VecPoly1 inner product at x", &t2.eval(&x), &ip(&le, &re)));
    out.push(eq("VecPoly1 inner product t0", &t2.0, &ip(&l.0, &r.0)));
    out.push(eq("VecPoly1 inner product t2", &t2.2, &ip(&l.1, &r.1)));
    // degree three with the zero vectors the proof system has
    let z = FieldElementVector::new(n);
    let l = VecPoly3(z.clone(), fvec("L1_", n), fvec("L2_", n), fvec("L3_", n));
    let r = VecPoly3(fvec("R0_", n), fvec("R1_", n), z.clone(), fvec("R3_", n));
    let t6 = VecPoly3::special_inner_product(&l, &r);
    let (le, re) = (l.eval(&x), r.eval(&x));
    out.push(t("VecPoly3 eval length", le.len() == n && re.len() == n));
    out.push(eq("VecPoly3 inner product at x", &t6.eval(&x), &ip(&le, &re)));
    let full = VecPoly3(fvec("F0_", n), fvec("F1_", n), fvec("F2_", n), fvec("F3_", n));
    let fev = full.eval(&x);
    let (x2, x3) = (&x * &x, &(&x * &x) * &x);
    for i in 0..n {
        out.push(eq("VecPoly3 eval", &fev[i], &(&full.0[i] + &full.1[i] * &x + &full.2[i] * &x2 + &full.3[i] * &x3)));
    }
    // coefficients of t(x) one by one: t1..t6
    let want = [ip(&l.1, &r.0), ip(&l.1, &r.1) + ip(&l.2, &r.0), ip(&l.2, &r.1) + ip(&l.3, &r.0), ip(&l.1, &r.3) + ip(&l.3, &r.1), ip(&l.2, &r.3), ip(&l.3, &r.3)];
    let got = [&t6.t1, &t6.t2, &t6.t3, &t6.t4, &t6.t5, &t6.t6];
    for k in 0..6 {
        out.push(eq(&format!("t{}", k + 1), got[k], &want[k]));
    }
    // scalar polynomials
    let q = Poly2(fe("p0"), fe("p1"), fe("p2"));
    out.push(eq("Poly2 eval", &q.eval(&x), &(fe("p0") + fe("p1") * &x + fe("p2") * &x2)));
    let q = Poly6 { t1: fe("q1"), t2: fe("q2"), t3: fe("q3"), t4: fe("q4"), t5: fe("q5"), t6: fe("q6") };
    let mut w = FieldElement::zero();
    let mut e = FieldElement::one();
    for k in 1..7 {
        e = &e * &x;
        w = w + fe(&format!("q{}", k)) * &e;
    }
    out.push(eq("Poly6 eval", &q.eval(&x), &w));
    // zero polynomials
    let z1 = VecPoly1::zero(n);
    let z3 = VecPoly3::zero(n);
    out.push(t("zero has the length asked for", z1.0.len() == n && z1.1.len() == n && z3.0.len() == n && z3.1.len() == n && z3.2.len() == n && z3.3.len() == n));
    let (e1, e3) = (z1.eval(&x), z3.eval(&x));
    for i in 0..n {
        out.push(Claim::Zero("zero polynomial".into(), e1[i].clone()));
        out.push(Claim::Zero("zero polynomial".into(), e3[i].clone()));
    }
    out
}

// ---- malformed input ----

/// set the length of the vector `key` inside the proof (elements repeat)
pub fn relength(v: &mut serde_json::Value, key: &str, n: usize) -> bool {
    match v {
        serde_json::Value::Object(m) => {
            for (k, x) in m.iter_mut() {
                if k == key {
                    if set_len(x, n) {
                        return true;
                    }
                }
                if relength(x, key, n) {
                    return true;
                }
            }
            false
        }
        _ => false,
    }
}
fn set_len(x: &mut serde_json::Value, n: usize) -> bool {
    match x {
        serde_json::Value::Array(a) => {
            let fill = a.get(0).cloned().unwrap_or_else(|| serde_json::to_value(&basis("fill")).unwrap());
            a.resize(n, fill);
            true
        }
        serde_json::Value::Object(m) => m.iter_mut().any(|(_, y)| set_len(y, n)),
        _ => false,
    }
}

/// [m,n1,n2,q1,q2,two,alloc,dense, len L, len R]
fn bad_ipp_len(p: &[i64]) -> Vec<Claim> {
    let s = shape(p);
    let n = s.n().next_power_of_two();
    let gs = circ::gens(n);
    let (proof, comms) = match circ::prove(&s, &gs) {
        Ok(x) => x,
        Err(_) => return vec![t("a satisfied circuit has a proof", false)],
    };
    let mut v = serde_json::to_value(&proof).unwrap();
    let ok = relength(&mut v, "L", p[8] as usize) && relength(&mut v, "R", p[9] as usize);
    if !ok {
        return vec![t("the proof has L and R", false)];
    }
    let q: R1CSProof = match serde_json::from_value(v) {
        Ok(q) => q,
        Err(_) => return vec![t("malformed proof refused at parsing", true)],
    };
    let mut lg = 0;
    while (1 << lg) < n {
        lg += 1;
    }
    let r = circ::verify(&s, &gs, &q, &comms);
    if p[8] == lg && p[9] == lg {
        vec![t("the honest proof is accepted", r.is_ok())]
    } else {
        vec![t("a proof with the wrong number of rounds is an error", r.is_err())]
    }
}

/// [m,n1,n2,q1,q2,two,alloc,dense, gens G prover, gens H prover, gens G verifier, gens H verifier]
fn bad_gens(p: &[i64]) -> Vec<Claim> {
    let s = shape(p);
    let n = s.n().next_power_of_two() as i64;
    let full = circ::gens(n as usize + 2);
    let cut = |v: &G1Vector, k: i64| -> G1Vector { v.as_slice()[0..k as usize].to_vec().into() };
    let gp = circ::Gens { g: full.g.clone(), h: full.h.clone(), G: cut(&full.G, p[8]), H: cut(&full.H, p[9]) };
    let r = circ::prove(&s, &gp);
    if p[8] < n || p[9] < n {
        let e = r.as_ref().err().cloned();
        let mut out = vec![t("proving with too few generators is InvalidGeneratorsLength", e == Some(R1CSError::InvalidGeneratorsLength))];
        // and so is verifying (with a proof made with enough of them)
        let (proof, comms) = match circ::prove(&s, &full) {
            Ok(x) => x,
            Err(_) => return vec![t("a satisfied circuit has a proof", false)],
        };
        let e = circ::verify(&s, &gp, &proof, &comms).err();
        out.push(t("verifying with too few generators is InvalidGeneratorsLength", e == Some(R1CSError::InvalidGeneratorsLength)));
        return out;
    }
    let (proof, comms) = match r {
        Ok(x) => x,
        Err(_) => return vec![t("a satisfied circuit has a proof", false)],
    };
    let gv = circ::Gens { g: full.g.clone(), h: full.h.clone(), G: cut(&full.G, p[10]), H: cut(&full.H, p[11]) };
    let r = circ::verify(&s, &gv, &proof, &comms);
    if p[10] < n || p[11] < n {
        vec![t("verifying with too few generators is InvalidGeneratorsLength", r.err() == Some(R1CSError::InvalidGeneratorsLength))]
    } else {
        vec![t("surplus generators do not matter", r.is_ok())]
    }
}
#[allow(dead_code)]
fn _unused() -> FieldElement {
    fu(0)
}
