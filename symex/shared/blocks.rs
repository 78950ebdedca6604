//! The building blocks of the gadgets, on committed variables or linear combinations of them.
//! parameters: [block, in the second phase, ..]
use crate::gadgets::{mimc_ref, names, poseidon_params, poseidon_ref, sbox, Inst, Public, Secret};
use crate::prim::fu;
use amcl_wrapper::field_elem::FieldElement;
use amcl_wrapper::group_elem_g1::G1;
use bulletproofs_amcl::errors::R1CSError;
#[cfg(feature = "blocks")]
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::bit::bit_gadget;
#[cfg(feature = "blocks")]
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::constrain_lc_with_scalar;
#[cfg(feature = "blocks")]
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::mimc::*;
#[cfg(feature = "blocks")]
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::non_zero::is_nonzero_gadget;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::*;
#[cfg(feature = "blocks")]
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::positive_no::positive_no_gadget;
#[cfg(feature = "blocks")]
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::vector_sum::vector_sum_constraints;
#[cfg(feature = "blocks")]
use bulletproofs_amcl::r1cs::gadgets::set_membership_alt::vector_product_gadget;
#[cfg(feature = "blocks")]
use bulletproofs_amcl::r1cs::linear_combination::AllocatedQuantity;
use bulletproofs_amcl::r1cs::{ConstraintSystem, LinearCombination, Prover, Variable, Verifier};

/// [0, ph, value or -1]               a bit
pub const BIT: i64 = 0;
/// [1, ph, value, n]                  a number below 2^n
pub const POSITIVE: i64 = 1;
/// [2, ph, sum, n, indices..]         the sum of n committed variables, taken at the indices
pub const SUM: i64 = 2;
/// [3, ph, hot, items..]              b_i * item_i = b_i * value and the sum of item_i * b_i is the value
pub const PRODUCT: i64 = 3;
/// [4, ph]                            x * x_inv = 1
pub const NONZERO: i64 = 4;
/// [5, ph, n]                         a linear combination is a public scalar
pub const SCALAR: i64 = 5;
/// [6, ph, width, sbox, begin, partial, end, free]   the whole permutation of committed variables
pub const PERM: i64 = 6;
/// [7, ph, width, sbox, begin, partial, end, free]   the hash of linear combinations
pub const HASH: i64 = 7;
/// [8, ph, rounds]                    MiMC of linear combinations
pub const MIMC: i64 = 8;
/// [9, ph, rounds]                    mimc_gadget
pub const MIMC_GADGET: i64 = 9;

fn items(i: &Inst) -> Vec<u64> {
    i.p[3..].iter().map(|x| *x as u64).collect()
}
fn params(p: &[i64]) -> PoseidonParams {
    poseidon_params(p[2] as usize, &p[4..7], p[7] == 1)
}
pub fn commitments(i: &Inst) -> usize {
    let p = &i.p;
    match p[0] {
        BIT | POSITIVE => 1,
        SUM => p[3] as usize,
        PRODUCT => p.len() - 3 + 1,
        NONZERO | MIMC | MIMC_GADGET => 2,
        SCALAR => p[2] as usize,
        PERM => p[2] as usize,
        HASH => p[2] as usize - 1,
        k => panic!("block {}", k),
    }
}
pub fn room(i: &Inst) -> usize {
    let p = &i.p;
    match p[0] {
        POSITIVE => p[3] as usize,
        PRODUCT => 2 * p.len(),
        PERM | HASH => (p[4] + p[6]) as usize * p[2] as usize * 3 + p[5] as usize * 3,
        MIMC | MIMC_GADGET => 2 * p[2] as usize,
        _ => 2,
    }
}
pub fn secret(i: &Inst) -> Secret {
    let p = &i.p;
    let n = commitments(i);
    let mut vals = i.ns("x", n);
    match p[0] {
        BIT | POSITIVE => {
            if p[2] >= 0 || p[0] == POSITIVE {
                vals[0] = fu(p[2] as u64);
            }
        }
        SUM => {
            // the last index makes the sum come out
            let last = *p.last().unwrap();
            let mut acc = fu(p[2] as u64);
            let mut times = 0;
            for k in &p[4..] {
                if *k == last {
                    times += 1;
                } else {
                    acc = &acc - &vals[*k as usize];
                }
            }
            vals[last as usize] = &acc * &fu(times).inverse();
        }
        PRODUCT => {
            for k in 0..n - 1 {
                vals[k] = fu((k as i64 == p[2]) as u64);
            }
            vals[n - 1] = fu(items(i)[p[2] as usize]);
        }
        NONZERO => vals[1] = vals[0].inverse(),
        _ => {}
    }
    Secret { vals, rands: Some(i.ns("rho", n)), at: (0..n).collect(), path: vec![], norng: false, parts: vec![] }
}
/// the coefficients of the linear combinations a block works on
fn coefs(n: usize) -> Vec<Vec<FieldElement>> {
    (0..n).map(|k| names(&format!("lc{}_", k), n + 1)).collect()
}
/// combination k holds variables k and k+1 and a constant
fn combine(vals: &[FieldElement]) -> Vec<FieldElement> {
    let n = vals.len();
    coefs(n).iter().enumerate().map(|(k, c)| {
        let r = &(&c[0] * &vals[k]) + &c[n];
        if n > 1 { &r + &(&c[1] * &vals[(k + 1) % n]) } else { r }
    }).collect()
}
fn combine_vars(vars: &[Variable]) -> Vec<LinearCombination> {
    let n = vars.len();
    coefs(n).iter().enumerate().map(|(k, c)| {
        let mut v = vec![(vars[k], c[0].clone()), (Variable::One(), c[n].clone())];
        if n > 1 {
            v.push((vars[(k + 1) % n], c[1].clone()));
        }
        v.iter().collect::<LinearCombination>()
    }).collect()
}
/// what the values of the committed variables imply for the public ones
pub fn outputs(i: &Inst, vals: &[FieldElement]) -> Vec<FieldElement> {
    let p = &i.p;
    match p[0] {
        SCALAR => {
            let mut acc = i.n("c");
            for (c, v) in i.ns("c", vals.len()).iter().zip(vals.iter()) {
                acc = &acc + &(c * v);
            }
            vec![acc]
        }
        PERM => poseidon_ref(vals, &params(p), p[3]),
        HASH => {
            let mut st = vec![FieldElement::zero()];
            st.extend(combine(vals));
            vec![poseidon_ref(&st, &params(p), p[3])[1].clone()]
        }
        MIMC => {
            let l = combine(vals);
            vec![mimc_ref(&l[0], &l[1], &names("k", p[2] as usize))]
        }
        MIMC_GADGET => vec![mimc_ref(&vals[0], &vals[1], &names("k", p[2] as usize))],
        _ => vec![],
    }
}
pub fn open(i: &Inst) -> Public {
    let n = match i.p[0] {
        PERM => i.p[2] as usize,
        SCALAR | HASH | MIMC | MIMC_GADGET => 1,
        _ => 0,
    };
    Public { set: i.ns("out", n), out: FieldElement::zero(), count: 0, parts: vec![] }
}
pub fn honest(i: &Inst, s: &Secret) -> Public {
    let mut q = open(i);
    q.set = outputs(i, &s.vals);
    q
}
/// what must not be zero for the statement to have a proof
pub fn nonzero(i: &Inst) -> Vec<FieldElement> {
    match i.p[0] {
        NONZERO => vec![i.n("x0")],
        _ => vec![],
    }
}
/// without the feature (the repository's building blocks no longer have the signatures known here) only C19 is without an answer
#[cfg(not(feature = "blocks"))]
fn block<CS: ConstraintSystem>(_: &Inst, _: &Public, _: &[Variable], _: Option<&[FieldElement]>, _: &mut CS) -> Result<(), R1CSError> {
    panic!("the building blocks have other signatures");
}
#[cfg(feature = "blocks")]
fn block<CS: ConstraintSystem>(i: &Inst, q: &Public, vars: &[Variable], vals: Option<&[FieldElement]>, cs: &mut CS) -> Result<(), R1CSError> {
    let p = &i.p;
    let qs: Vec<AllocatedQuantity> = vars.iter().enumerate().map(|(k, v)| AllocatedQuantity { variable: *v, assignment: vals.map(|x| x[k].clone()) }).collect();
    match p[0] {
        BIT => bit_gadget(cs, &qs[0]),
        POSITIVE => positive_no_gadget(cs, qs[0].clone(), p[3] as usize),
        SUM => vector_sum_constraints(cs, p[4..].iter().map(|k| vars[*k as usize]).collect(), p[2] as u64),
        PRODUCT => vector_product_gadget(cs, &items(i), &qs[..qs.len() - 1], &qs[qs.len() - 1]),
        NONZERO => is_nonzero_gadget(cs, vars[0], vars[1]),
        SCALAR => {
            let mut lc = vec![(Variable::One(), i.n("c"))];
            for (c, v) in i.ns("c", vars.len()).into_iter().zip(vars.iter()) {
                lc.push((*v, c));
            }
            constrain_lc_with_scalar(cs, lc.iter().collect(), &q.set[0]);
            Ok(())
        }
        PERM => Poseidon_permutation_gadget(cs, qs, &params(p), &sbox(p[3]), &q.set),
        HASH => {
            let mut l = combine_vars(vars);
            let statics = vec![LinearCombination::from(FieldElement::zero())];
            let o = match p[2] {
                3 => {
                    let r = l.remove(1);
                    Poseidon_hash_2_constraints(cs, l.remove(0), r, statics, &params(p), &sbox(p[3]))?
                }
                5 => Poseidon_hash_4_constraints(cs, l, statics, &params(p), &sbox(p[3]))?,
                _ => Poseidon_hash_8_constraints(cs, l, statics[0].clone(), &params(p), &sbox(p[3]))?,
            };
            constrain_lc_with_scalar(cs, o, &q.set[0]);
            Ok(())
        }
        MIMC => {
            let mut l = combine_vars(vars);
            let r = l.remove(1);
            let o = enforce_mimc_2_inputs(cs, l.remove(0), r, p[2] as usize, &names("k", p[2] as usize))?;
            constrain_lc_with_scalar(cs, o, &q.set[0]);
            Ok(())
        }
        MIMC_GADGET => mimc_gadget(cs, qs[0].clone(), qs[1].clone(), p[2] as usize, &names("k", p[2] as usize), &q.set[0]),
        k => panic!("block {}", k),
    }
}
fn place<CS: ConstraintSystem>(i: &Inst, q: &Public, vars: Vec<Variable>, vals: Option<Vec<FieldElement>>, cs: &mut CS) -> Result<(), R1CSError> {
    if i.p[1] == 1 {
        let (i, q) = (i.clone(), q.clone());
        cs.specify_randomized_constraints(move |cs| block(&i, &q, &vars, vals.as_ref().map(|v| v.as_slice()), cs))
    } else {
        block(i, q, &vars, vals.as_ref().map(|v| v.as_slice()), cs)
    }
}
pub fn prove(i: &Inst, s: &Secret, q: &Public, prover: &mut Prover) -> Result<Vec<G1>, R1CSError> {
    let rands = s.rands.clone().unwrap();
    let (mut comms, mut vars) = (vec![], vec![]);
    for (v, r) in s.vals.iter().zip(rands.iter()) {
        let (c, x) = prover.commit(v.clone(), r.clone());
        comms.push(c);
        vars.push(x);
    }
    place(i, q, vars, Some(s.vals.clone()), prover)?;
    Ok(comms)
}
pub fn verify(i: &Inst, q: &Public, comms: Vec<G1>, verifier: &mut Verifier) -> Result<(), R1CSError> {
    let vars = comms.into_iter().map(|c| verifier.commit(c)).collect();
    place(i, q, vars, None, verifier)
}
