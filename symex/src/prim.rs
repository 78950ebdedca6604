//! Symbolic primitives the shared scenarios are written against (the replay crate has concrete ones).
use amcl_wrapper::field_elem::FieldElement;
use amcl_wrapper::group_elem_g1::G1;
use symcore::{arena, Fr};

pub fn fe(name: &str) -> FieldElement {
    let t = arena().var(name);
    FieldElement::from_term(t)
}
pub fn fu(x: u64) -> FieldElement {
    let t = arena().cst(Fr::from_u64(x));
    FieldElement::from_term(t)
}
pub fn basis(name: &str) -> G1 {
    let p = arena().basis_point(name);
    G1::from_point_id(p)
}
pub fn rng() -> rand::rngs::ThreadRng {
    rand::thread_rng()
}
/// claims are settled by the solver, not by looking at the value
pub fn eq_now(_a: &FieldElement, _b: &FieldElement) -> Option<bool> {
    None
}
pub const SYMBOLIC: bool = true;
/// false only if the two differ for some values (at a pseudo-random point)
pub fn maybe_same(a: &FieldElement, b: &FieldElement) -> bool {
    let d = {
        let (x, y) = (a.term(), b.term());
        arena().sub(x, y)
    };
    crate::smt::Env::random(1).eval(d).is_zero()
}
