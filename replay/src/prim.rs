//! Concrete counterparts of symex/src/prim.rs: names are looked up in the counterexample.
use amcl_wrapper::constants::MODBYTES;
use amcl_wrapper::field_elem::FieldElement;
use amcl_wrapper::group_elem::GroupElement;
use amcl_wrapper::group_elem_g1::G1;
use std::collections::HashMap;
use std::sync::Mutex;

static MODEL: Mutex<Option<HashMap<String, String>>> = Mutex::new(None);
pub fn set_model(m: HashMap<String, String>) {
    *MODEL.lock().unwrap() = Some(m);
}
pub fn from_dec(s: &str) -> FieldElement {
    let mut be = [0u8; MODBYTES];
    for ch in s.bytes() {
        let mut carry = (ch - b'0') as u32;
        for b in be.iter_mut().rev() {
            let v = *b as u32 * 10 + carry;
            *b = v as u8;
            carry = v >> 8;
        }
    }
    FieldElement::from(&be)
}
pub fn fe(name: &str) -> FieldElement {
    if let Some(m) = MODEL.lock().unwrap().as_ref() {
        if let Some(v) = m.get(name) {
            return from_dec(v);
        }
    }
    FieldElement::from_msg_hash(name.as_bytes())
}
pub fn fu(x: u64) -> FieldElement {
    from_dec(&x.to_string())
}
pub fn basis(name: &str) -> G1 {
    G1::from_msg_hash(name.as_bytes())
}
pub fn rng() -> rand::rngs::ThreadRng {
    rand::thread_rng()
}
pub fn eq_now(a: &FieldElement, b: &FieldElement) -> Option<bool> {
    Some(a == b)
}
pub const SYMBOLIC: bool = false;
pub fn maybe_same(a: &FieldElement, b: &FieldElement) -> bool {
    a == b
}
