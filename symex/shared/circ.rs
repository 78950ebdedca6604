//! Generic rank-1 circuits with symbolic coefficients and witnesses, driven through the public API.
use amcl_wrapper::field_elem::FieldElement;
use amcl_wrapper::group_elem_g1::{G1Vector, G1};
use bulletproofs_amcl::r1cs::linear_combination::{LinearCombination, Variable};
use bulletproofs_amcl::r1cs::{ConstraintSystem, Prover, R1CSProof, RandomizedConstraintSystem, Verifier};
use bulletproofs_amcl::errors::R1CSError;
use merlin::Transcript;
use crate::prim::{basis, fe};

pub fn basis_vec(name: &str, n: usize) -> G1Vector {
    let v: Vec<G1> = (0..n).map(|i| basis(&format!("{}{}", name, i))).collect();
    v.into()
}
pub struct Gens {
    pub g: G1,
    pub h: G1,
    pub G: G1Vector,
    pub H: G1Vector,
}
pub fn gens(n: usize) -> Gens {
    Gens { g: basis("g"), h: basis("h"), G: basis_vec("G", n), H: basis_vec("H", n) }
}

/// shape of a circuit; all coefficients symbolic unless `sparse`
#[derive(Clone, Debug)]
pub struct Shape {
    pub m: usize,
    pub n1: usize,
    pub n2: usize,
    pub q1: usize,
    pub q2: usize,
    pub two_phase: bool,
    /// how variables are made: 0 allocate_multiplier, 1 multiply of linear combinations, 2 allocate/allocate_single pairs
    pub alloc: u8,
    /// 1 every row mentions all variables; 0 a sliding window of them; 2 one variable per row; 3 every variable twice;
    /// 4 every second row is empty
    pub dense: u8,
    /// over how many callbacks the second phase is spread; every third has its rows in a callback of its own
    pub calls: usize,
}
impl Shape {
    pub fn n(&self) -> usize {
        self.n1 + self.n2
    }
    pub fn label(&self) -> String {
        format!("m={} n1={} n2={} q1={} q2={} phases={} alloc={} {}{}", self.m, self.n1, self.n2, self.q1, self.q2, if self.two_phase { 2 } else { 1 }, self.alloc, ["window", "dense", "single", "double", "gaps"][self.dense as usize], if self.calls > 1 { format!(" callbacks={}", self.calls) } else { String::new() })
    }
}

/// how often row `row` over `n` multipliers mentions its k-th variable (k from 1)
pub fn mention(s: &Shape, row: usize, k: usize, n: usize) -> usize {
    match s.dense {
        0 => ((row + k) % 3 != 1) as usize,
        2 => {
            let all = 3 * n + s.m;
            (all > 0 && (k - 1) == (row * 5 + 3 * n) % all) as usize
        }
        3 => 2,
        4 => (row % 2 == 1) as usize,
        _ => 1,
    }
}

/// values of the wires as the witness fixes them (l, r, o per multiplier)
fn wires(s: &Shape) -> (Vec<FieldElement>, Vec<FieldElement>) {
    let l: Vec<FieldElement> = (0..s.n()).map(|i| fe(&format!("l{}", i))).collect();
    let r: Vec<FieldElement> = (0..s.n()).map(|i| fe(&format!("r{}", i))).collect();
    (l, r)
}
pub fn vals_v(s: &Shape) -> Vec<FieldElement> {
    (0..s.m).map(|j| fe(&format!("v{}", j))).collect()
}

/// row `k` over the first `n` multipliers; the constant makes the witness satisfy it.
/// `ch` (phase two) multiplies the coefficients of the odd wires.
pub fn row(s: &Shape, tag: &str, k: usize, n: usize, ch: Option<&FieldElement>) -> LinearCombination {
    let (l, r) = wires(s);
    let v = vals_v(s);
    let mut terms: Vec<(Variable, FieldElement)> = vec![];
    let mut acc = FieldElement::zero();
    let mut idx = 0;
    let mut put = |var: Variable, val: FieldElement, nm: String, terms: &mut Vec<(Variable, FieldElement)>, acc: &mut FieldElement| {
        idx += 1;
        for rep in 0..mention(s, k, idx, n) {
            let mut c = if rep == 0 { fe(&nm) } else { fe(&format!("{}_bis", nm)) };
            if let Some(ch) = ch {
                if idx % 2 == 1 {
                    c = c * ch;
                }
            }
            *acc = &*acc + &c * &val;
            terms.push((var, c));
        }
    };
    for i in 0..n {
        put(Variable::MultiplierLeft(i), l[i].clone(), format!("cL_{}{}_{}", tag, k, i), &mut terms, &mut acc);
        put(Variable::MultiplierRight(i), r[i].clone(), format!("cR_{}{}_{}", tag, k, i), &mut terms, &mut acc);
        put(Variable::MultiplierOutput(i), &l[i] * &r[i], format!("cO_{}{}_{}", tag, k, i), &mut terms, &mut acc);
    }
    for j in 0..s.m {
        put(Variable::Committed(j), v[j].clone(), format!("cV_{}{}_{}", tag, k, j), &mut terms, &mut acc);
    }
    if s.dense == 2 {
        // a lone variable has to be zero: leave the row out unless it is a constant one
        if let Some((var, c)) = terms.pop() {
            let neg = acc.negation();
            return vec![(var, c), (Variable::One(), neg)].into_iter().collect();
        }
    }
    if !terms.is_empty() {
        terms.push((Variable::One(), acc.negation()));
    }
    terms.into_iter().collect()
}

/// allocate multipliers lo..hi the way the shape says
fn alloc_range<CS: ConstraintSystem>(cs: &mut CS, s: &Shape, lo: usize, hi: usize, prover: bool) -> Result<(), R1CSError> {
    let (l, r) = wires(s);
    for i in lo..hi {
        let (lv, rv) = (l[i].clone(), r[i].clone());
        match s.alloc {
            0 => {
                cs.allocate_multiplier(if prover { Some((lv, rv)) } else { None })?;
            }
            1 => {
                // inputs as linear combinations: l_i = a*v0 + c, r_i = a*l_{i-1}.. + c
                let mk = |val: &FieldElement, nm: &str| -> LinearCombination {
                    let a = fe(nm);
                    if s.m > 0 {
                        let v0 = fe("v0");
                        let c = val - &(&a * &v0);
                        vec![(Variable::Committed(0), a), (Variable::One(), c)].into_iter().collect()
                    } else if i > 0 {
                        let p = &l[i - 1];
                        let c = val - &(&a * p);
                        vec![(Variable::MultiplierLeft(i - 1), a), (Variable::One(), c)].into_iter().collect()
                    } else {
                        vec![(Variable::One(), val.clone())].into_iter().collect()
                    }
                };
                let left = mk(&lv, &format!("ml{}", i));
                let right = mk(&rv, &format!("mr{}", i));
                cs.multiply(left, right);
            }
            2 => {
                cs.allocate(if prover { Some(lv) } else { None })?;
                cs.allocate(if prover { Some(rv) } else { None })?;
            }
            _ => {
                cs.allocate_single(if prover { Some(lv) } else { None })?;
                cs.allocate_single(if prover { Some(rv) } else { None })?;
            }
        }
    }
    Ok(())
}

pub fn build<CS: ConstraintSystem>(cs: &mut CS, s: &Shape, prover: bool) -> Result<(), R1CSError>
where
    CS::RandomizedCS: ConstraintSystem,
{
    alloc_range(cs, s, 0, s.n1, prover)?;
    for k in 0..s.q1 {
        cs.constrain(row(s, "a", k, s.n1, None));
    }
    if s.two_phase {
        let draw = std::rc::Rc::new(std::cell::RefCell::new(None));
        for c in 0..s.calls {
            let (s2, draw) = (s.clone(), draw.clone());
            cs.specify_randomized_constraints(move |cs| {
                if c == 0 {
                    *draw.borrow_mut() = Some(cs.challenge_scalar(b"verif challenge"));
                }
                let ch: FieldElement = draw.borrow().clone().unwrap();
                let (lo, hi) = share(s2.n2, s2.calls, c);
                alloc_range(cs, &s2, s2.n1 + lo, s2.n1 + hi, prover)?;
                let (lo, hi) = share(s2.q2, s2.calls, c);
                if c % 3 == 2 {
                    // a callback within a callback runs at once
                    let s3 = s2.clone();
                    return cs.specify_randomized_constraints(move |cs| {
                        for k in lo..hi {
                            cs.constrain(row(&s3, "b", k, upto(&s3, k), Some(&ch)));
                        }
                        Ok(())
                    });
                }
                for k in lo..hi {
                    cs.constrain(row(&s2, "b", k, upto(&s2, k), Some(&ch)));
                }
                Ok(())
            })?;
        }
    }
    Ok(())
}
/// what the c-th of `calls` callbacks does of `n` things
pub fn share(n: usize, calls: usize, c: usize) -> (usize, usize) {
    (n * c / calls, n * (c + 1) / calls)
}
/// the multipliers there are when row k of the second phase is made
pub fn upto(s: &Shape, k: usize) -> usize {
    let c = (0..s.calls).find(|c| k < share(s.q2, s.calls, *c).1).unwrap();
    s.n1 + share(s.n2, s.calls, c).1
}

pub fn prove(s: &Shape, gs: &Gens) -> Result<(R1CSProof, Vec<G1>), R1CSError> {
    prove_pre(s, gs, b"")
}
/// `pre`: what the application put into the transcript before
pub fn prove_pre(s: &Shape, gs: &Gens, pre: &[u8]) -> Result<(R1CSProof, Vec<G1>), R1CSError> {
    let mut t = Transcript::new(b"verif");
    if !pre.is_empty() {
        t.append_message(b"before", pre);
    }
    let mut p = Prover::new(&gs.g, &gs.h, &mut t);
    let mut comms = vec![];
    for (j, v) in vals_v(s).into_iter().enumerate() {
        let (c, _) = p.commit(v, fe(&format!("gam{}", j)));
        comms.push(c);
    }
    build(&mut p, s, true)?;
    let pr = p.prove(&gs.G, &gs.H)?;
    Ok((pr, comms))
}
pub fn verify(s: &Shape, gs: &Gens, proof: &R1CSProof, comms: &[G1]) -> Result<(), R1CSError> {
    verify_pre(s, gs, proof, comms, b"")
}
pub fn verify_pre(s: &Shape, gs: &Gens, proof: &R1CSProof, comms: &[G1], pre: &[u8]) -> Result<(), R1CSError> {
    let mut t = Transcript::new(b"verif");
    if !pre.is_empty() {
        t.append_message(b"before", pre);
    }
    let mut v = Verifier::new(&mut t);
    for c in comms {
        v.commit(c.clone());
    }
    build(&mut v, s, false)?;
    v.verify(proof, &gs.g, &gs.h, &gs.G, &gs.H)
}
