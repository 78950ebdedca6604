//! The gadgets, driven through their public proving and verifying functions.
//! An instance is a kind and a list of integers; public inputs, secret inputs and generators follow from it.
use crate::circ::{self, Gens};
use crate::prim::{basis, fe, fu, rng};
use crate::scen::{eq, t, Claim};
use amcl_wrapper::field_elem::FieldElement;
use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
use bulletproofs_amcl::utils::{gen_challenges, get_generators};
use amcl_wrapper::group_elem_g1::G1;
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::gadgets::bound_check::*;
use bulletproofs_amcl::r1cs::gadgets::hamming_distance::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::mimc::mimc;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::*;
use bulletproofs_amcl::r1cs::gadgets::mimc::*;
use bulletproofs_amcl::r1cs::gadgets::non_zero::*;
use bulletproofs_amcl::r1cs::gadgets::poseidon_constants::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_4_ary::{DBVal_4_ary, VanillaSparseMerkleTree_4};
use bulletproofs_amcl::r1cs::gadgets::poseidon_hash::*;
use bulletproofs_amcl::r1cs::gadgets::randomizer::*;
use bulletproofs_amcl::utils::hash_db::InMemoryHashDb;
use bulletproofs_amcl::r1cs::gadgets::set_membership::*;
use bulletproofs_amcl::r1cs::gadgets::set_membership_alt::*;
use bulletproofs_amcl::r1cs::gadgets::set_non_membership::*;
use bulletproofs_amcl::r1cs::gadgets::sparse_merkle_tree_4_ary::*;
use bulletproofs_amcl::r1cs::gadgets::sparse_merkle_tree_8_ary::*;
use bulletproofs_amcl::r1cs::{Prover, R1CSProof, Verifier};
use merlin::Transcript;

pub const LABEL: &[u8] = b"gadget";

#[derive(Clone, Debug)]
pub struct Inst {
    pub kind: String,
    pub p: Vec<i64>,
    /// prefix of the names of its inputs
    pub tag: String,
}
pub fn inst(kind: &str, p: &[i64]) -> Inst {
    Inst { kind: kind.to_string(), p: p.to_vec(), tag: String::new() }
}
/// what a composition ("comp") is made of: [kind, number of parameters, parameters.., ...]
pub const KINDS: [&str; 13] = ["bound", "member", "nonmember", "alt", "nonzero", "hamming", "mimc", "pos2", "pos4", "pos8", "merkle4", "merkle8", "blk"];

/// public inputs
#[derive(Clone)]
pub struct Public {
    pub set: Vec<FieldElement>,
    pub out: FieldElement,
    pub count: u64,
    pub parts: Vec<Public>,
}
/// the values the caller proves something about, with the randomness given for each (if any)
pub struct Secret {
    pub vals: Vec<FieldElement>,
    pub rands: Option<Vec<FieldElement>>,
    /// positions of the commitments to `vals`
    pub at: Vec<usize>,
    /// siblings of a Merkle path
    pub path: Vec<Vec<FieldElement>>,
    /// no source of randomness is given
    pub norng: bool,
    pub parts: Vec<Secret>,
}

pub fn names(pre: &str, n: usize) -> Vec<FieldElement> {
    (0..n).map(|i| fe(&format!("{}{}", pre, i))).collect()
}
pub fn sbox(k: i64) -> SboxType {
    match k {
        0 => SboxType::Cube,
        1 => SboxType::Inverse,
        _ => SboxType::Quint,
    }
}
/// rounds [begin, partial, end]; `free`: arbitrary keys and matrix instead of the built-in ones
pub fn poseidon_params(width: usize, rounds: &[i64], free: bool) -> PoseidonParams {
    let (b, pr, e) = (rounds[0] as usize, rounds[1] as usize, rounds[2] as usize);
    if free {
        PoseidonParams {
            width,
            full_rounds_beginning: b,
            full_rounds_end: e,
            partial_rounds: pr,
            round_keys: names("key", width * (b + pr + e)),
            MDS_matrix: (0..width).map(|i| names(&format!("mds{}_", i), width)).collect(),
        }
    } else {
        PoseidonParams::new(width, b, e, pr)
    }
}

impl Inst {
    pub fn n(&self, s: &str) -> FieldElement {
        fe(&format!("{}{}", self.tag, s))
    }
    pub fn ns(&self, pre: &str, n: usize) -> Vec<FieldElement> {
        names(&format!("{}{}", self.tag, pre), n)
    }
    pub fn parts(&self) -> Vec<Inst> {
        if self.kind != "comp" {
            return vec![];
        }
        let mut v = vec![];
        let mut k = 0;
        while k < self.p.len() {
            let len = self.p[k + 1] as usize;
            let mut i = inst(KINDS[self.p[k] as usize], &self.p[k + 2..k + 2 + len]);
            i.tag = format!("{}q{}_", self.tag, v.len());
            v.push(i);
            k += 2 + len;
        }
        v
    }
    pub fn width(&self) -> usize {
        match self.kind.as_str() {
            "pos2" => 3,
            "pos4" | "merkle4" | "rand" => 5,
            _ => 9,
        }
    }
    /// pos*: [sbox, begin, partial, end, free, given randomness]
    /// merkle*: [sbox, begin, partial, end, free, given randomness, depth, index]
    pub fn params(&self) -> PoseidonParams {
        poseidon_params(self.width(), &self.p[1..4], self.p[4] == 1)
    }
    pub fn arity(&self) -> usize {
        if self.kind == "merkle4" || self.kind == "rand" {
            4
        } else {
            8
        }
    }
    pub fn label(&self) -> String {
        format!("{} {:?}", self.kind, self.p)
    }
    pub fn hash(&self, xs: Vec<FieldElement>) -> FieldElement {
        let mut xs = xs;
        match xs.len() {
            2 => {
                let r = xs.remove(1);
                let l = xs.remove(0);
                Poseidon_hash_2(l, r, &self.params(), &sbox(self.p[0]))
            }
            4 => Poseidon_hash_4(xs, &self.params(), &sbox(self.p[0])),
            _ => Poseidon_hash_8(xs, &self.params(), &sbox(self.p[0])),
        }
    }
    /// the root obtained by hashing `leaf` up along `idx` (base `arity`, lowest digit next to the leaf)
    pub fn climb(&self, leaf: &FieldElement, idx: u64, path: &[Vec<FieldElement>]) -> FieldElement {
        let mut cur = leaf.clone();
        let mut i = idx as usize;
        for sib in path.iter().rev() {
            let mut xs = sib.clone();
            xs.insert(i % self.arity(), cur);
            i /= self.arity();
            cur = self.hash(xs);
        }
        cur
    }
    /// rand: the tree with the given values at the distorted positions and the other leaf
    pub fn tree<'a>(&self, vals: &[FieldElement], params: &'a PoseidonParams, db: &mut InMemoryHashDb<DBVal_4_ary>) -> Result<VanillaSparseMerkleTree_4<'a>, R1CSError> {
        let mut t = VanillaSparseMerkleTree_4::new(params, self.p[6] as usize, db);
        if self.p[7] >= 0 {
            t.update(&fu(self.p[7] as u64), self.n("b"), db)?;
        }
        for (i, v) in self.indices().iter().zip(vals.iter()) {
            t.update(i, v.clone(), db)?;
        }
        Ok(t)
    }
    pub fn indices(&self) -> Vec<FieldElement> {
        self.p[8..].iter().map(|i| fu(*i as u64)).collect()
    }
    /// rand: what the tree holds
    pub fn contents(&self, vals: &[FieldElement]) -> crate::trees::Map {
        let mut m = crate::trees::Map::new();
        if self.p[7] >= 0 {
            m.insert(self.p[7] as u64, self.n("b"));
        }
        for (i, v) in self.p[8..].iter().zip(vals.iter()) {
            m.insert(*i as u64, v.clone());
        }
        m
    }
    /// positions of committed values
    pub fn secret(&self) -> Secret {
        let p = &self.p;
        if self.kind == "comp" {
            let parts: Vec<Secret> = self.parts().iter().map(|i| i.secret()).collect();
            let (mut vals, mut at, mut off) = (vec![], vec![], 0);
            for (i, s) in self.parts().iter().zip(parts.iter()) {
                vals.extend(s.vals.iter().cloned());
                at.extend(s.at.iter().map(|k| k + off));
                off += i.commitments();
            }
            return Secret { vals, rands: None, at, path: vec![], norng: false, parts };
        }
        if self.kind == "blk" {
            return crate::blocks::secret(self);
        }
        let (vals, at, given): (Vec<FieldElement>, Vec<usize>, bool) = match self.kind.as_str() {
            // [value, lower, upper, bits, given]
            "bound" => (vec![fu(p[0] as u64)], vec![0], p[4] == 1),
            // [size, index or -1, given]
            "member" => (vec![if p[1] >= 0 { self.n(&format!("s{}", p[1])) } else { self.n("v") }], vec![0], p[2] == 1),
            "nonmember" => (vec![if p[1] >= 0 { self.n(&format!("s{}", p[1])) } else { self.n("v") }], vec![0], p[2] == 1),
            // [given, value, set..]
            "alt" => (vec![fu(p[1] as u64)], vec![p.len() - 2], p[0] == 1),
            // [zero, given]
            "nonzero" => (vec![if p[0] == 1 { FieldElement::zero() } else { self.n("v") }], vec![0], p[1] == 1),
            // [size, count, differing..]
            "hamming" => (self.ns("o", p[0] as usize), (0..p[0] as usize).collect(), false),
            // [rounds, given]
            "mimc" => (self.ns("x", 2), vec![0, 1], p[1] == 1),
            "pos2" | "pos4" | "pos8" => (self.ns("x", self.width() - 1), (0..self.width() - 1).collect(), p[5] == 1),
            "merkle4" | "merkle8" => (vec![self.n("leaf"), fu(p[7] as u64)], vec![0, 1], p[5] == 1),
            // [sbox, begin, partial, end, 0, 0, depth, other leaf or -1, distorted positions..]
            "rand" => (self.ns("o", p.len() - 8), (0..p.len() - 8).map(|k| 1 + k * (1 + 3 * p[6] as usize)).collect(), false),
            k => panic!("unknown gadget {}", k),
        };
        let rands = if given { Some(self.ns("rho", vals.len())) } else { None };
        let path = if self.kind.starts_with("merkle") { (0..p[6]).map(|l| self.ns(&format!("sib{}_", l), self.arity() - 1)).collect() } else { vec![] };
        Secret { vals, rands, at, path, norng: false, parts: vec![] }
    }
    /// the public inputs that make the statement true
    pub fn honest(&self, s: &Secret) -> Public {
        let p = &self.p;
        let mut q = self.open();
        if self.kind == "comp" {
            q.parts = self.parts().iter().zip(s.parts.iter()).map(|(i, s)| i.honest(s)).collect();
        }
        if self.kind == "blk" {
            return crate::blocks::honest(self, s);
        }
        match self.kind.as_str() {
            "hamming" => {
                q.set = (0..p[0] as usize).map(|i| if p[2 + i] == 1 { self.n(&format!("n{}", i)) } else { s.vals[i].clone() }).collect();
            }
            "mimc" => q.out = mimc(&s.vals[0], &s.vals[1], &names("k", p[0] as usize), p[0] as usize),
            "pos2" | "pos4" | "pos8" => q.out = self.hash(s.vals.clone()),
            "merkle4" | "merkle8" => q.out = self.climb(&s.vals[0], p[7] as u64, &s.path),
            _ => {}
        }
        q
    }
    /// arbitrary public inputs
    pub fn open(&self) -> Public {
        let p = &self.p;
        let mut q = Public { set: vec![], out: self.n("out"), count: 0, parts: self.parts().iter().map(|i| i.open()).collect() };
        if self.kind == "blk" {
            return crate::blocks::open(self);
        }
        match self.kind.as_str() {
            "member" | "nonmember" => q.set = self.ns("s", p[0] as usize),
            "rand" => q.set = self.ns("n", p.len() - 8),
            "hamming" => {
                q.set = self.ns("n", p[0] as usize);
                q.count = p[1] as u64;
            }
            _ => {}
        }
        q
    }
    pub fn set64(&self) -> Vec<u64> {
        self.p[2..].iter().map(|x| *x as u64).collect()
    }
    /// enough generators for the circuit
    pub fn gens(&self) -> Gens {
        circ::gens(self.room().max(1).next_power_of_two())
    }
    fn room(&self) -> usize {
        let p = &self.p;
        let rounds = |w: usize| -> usize { (p[1] as usize + p[3] as usize) * w * 3 + p[2] as usize * 3 };
        match self.kind.as_str() {
            "comp" => self.parts().iter().map(|i| i.room()).sum(),
            "blk" => crate::blocks::room(self),
            "bound" => 2 * p[3] as usize,
            "member" => p[0] as usize,
            "nonmember" => 2 * p[0] as usize,
            "alt" => 3 * p.len(),
            "nonzero" => 2,
            "hamming" => 2 * p[0] as usize,
            "mimc" => 2 * p[0] as usize,
            "pos2" | "pos4" | "pos8" => rounds(self.width()),
            "rand" => (p.len() - 8) * 2 * p[6] as usize * (rounds(5) + 2),
            _ => p[6] as usize * (rounds(self.width()) + 40),
        }
    }
    pub fn prove(&self, s: &Secret, q: &Public, gs: &Gens) -> Result<(R1CSProof, Vec<G1>), R1CSError> {
        self.prove_as(s, q, gs, LABEL)
    }
    pub fn prove_as(&self, s: &Secret, q: &Public, gs: &Gens, label: &'static [u8]) -> Result<(R1CSProof, Vec<G1>), R1CSError> {
        let p = &self.p;
        let (g, h, G, H) = (&gs.g, &gs.h, &gs.G, &gs.H);
        let mut r = rng();
        let rg = if s.norng { None } else { Some(&mut r) };
        let one = s.rands.as_ref().and_then(|v| v.first().cloned());
        match self.kind.as_str() {
            "comp" | "blk" => {
                let mut tr = Transcript::new(label);
                let mut prover = Prover::new(g, h, &mut tr);
                let comms = self.prove_in(s, q, &mut prover)?;
                let proof = prover.prove(G, H)?;
                Ok((proof, comms))
            }
            "bound" => gen_proof_of_bounded_num(p[0] as u64, one, p[1] as u64, p[2] as u64, p[3] as usize, rg, label, g, h, G, H),
            "member" => gen_proof_of_set_membership(s.vals[0].clone(), one, &q.set, rg, label, g, h, G, H),
            "nonmember" => gen_proof_of_set_non_membership(s.vals[0].clone(), one, &q.set, rg, label, g, h, G, H),
            "alt" => gen_proof_of_set_membership_alt(p[1] as u64, one, &self.set64(), rg, label, g, h, G, H),
            "nonzero" => gen_proof_of_non_zero_val(s.vals[0].clone(), one, rg, label, g, h, G, H),
            "hamming" => gen_proof_for_hamming_distance(&s.vals, &q.set, q.count, label, g, h, G, H),
            "mimc" => gen_proof_of_knowledge_of_preimage_of_mimc(s.vals.clone(), s.rands.clone(), &q.out, &names("k", p[0] as usize), p[0] as usize, rg, label, g, h, G, H),
            "pos2" => gen_proof_of_knowledge_of_preimage_of_Poseidon_2(s.vals.clone(), s.rands.clone(), &q.out, &self.params(), &sbox(p[0]), rg, label, g, h, G, H),
            "pos4" => gen_proof_of_knowledge_of_preimage_of_Poseidon_4(s.vals.clone(), s.rands.clone(), &q.out, &self.params(), &sbox(p[0]), rg, label, g, h, G, H),
            "pos8" => gen_proof_of_knowledge_of_preimage_of_Poseidon_8(s.vals.clone(), s.rands.clone(), &q.out, &self.params(), &sbox(p[0]), rg, label, g, h, G, H),
            "rand" => {
                let params = self.params();
                let mut odb = InMemoryHashDb::<DBVal_4_ary>::new();
                let mut ndb = InMemoryHashDb::<DBVal_4_ary>::new();
                let ot = self.tree(&s.vals, &params, &mut odb)?;
                let mut nt = self.tree(&q.set, &params, &mut ndb)?;
                gen_proof_for_randomizer(&ot, &odb, &mut nt, &mut ndb, &self.indices(), &s.vals, p[6] as usize, &params, &sbox(p[0]), label, g, h, G, H)
            }
            "merkle4" => {
                let path = s.path.iter().map(|v| [v[0].clone(), v[1].clone(), v[2].clone()]).collect();
                gen_proof_of_leaf_inclusion_4_ary_merkle_tree(s.vals[0].clone(), s.vals[1].clone(), s.rands.clone(), path, &q.out, p[6] as usize, &self.params(), &sbox(p[0]), rg, label, g, h, G, H)
            }
            "merkle8" => {
                let path = s.path.iter().map(|v| [v[0].clone(), v[1].clone(), v[2].clone(), v[3].clone(), v[4].clone(), v[5].clone(), v[6].clone()]).collect();
                gen_proof_of_leaf_inclusion_8_ary_merkle_tree(s.vals[0].clone(), s.vals[1].clone(), s.rands.clone(), path, &q.out, p[6] as usize, &self.params(), &sbox(p[0]), rg, label, g, h, G, H)
            }
            k => panic!("unknown gadget {}", k),
        }
    }
    pub fn verify(&self, q: &Public, proof: R1CSProof, comms: Vec<G1>, gs: &Gens) -> Result<(), R1CSError> {
        self.verify_as(q, proof, comms, gs, LABEL)
    }
    pub fn verify_as(&self, q: &Public, proof: R1CSProof, comms: Vec<G1>, gs: &Gens, label: &'static [u8]) -> Result<(), R1CSError> {
        let p = &self.p;
        let (g, h, G, H) = (&gs.g, &gs.h, &gs.G, &gs.H);
        match self.kind.as_str() {
            "comp" | "blk" => {
                let mut tr = Transcript::new(label);
                let mut verifier = Verifier::new(&mut tr);
                self.verify_in(q, comms, gs, &mut verifier)?;
                verifier.verify(&proof, g, h, G, H)
            }
            "bound" => verify_proof_of_bounded_num(p[1] as u64, p[2] as u64, p[3] as usize, proof, comms, label, g, h, G, H),
            "member" => verify_proof_of_set_membership(&q.set, proof, comms, label, g, h, G, H),
            "nonmember" => verify_proof_of_set_non_membership(&q.set, proof, comms, label, g, h, G, H),
            "alt" => verify_proof_of_set_membership_alt(&self.set64(), proof, comms, label, g, h, G, H),
            "nonzero" => verify_proof_of_non_zero_val(proof, comms, label, g, h, G, H),
            "hamming" => verify_proof_for_hamming_distance(&q.set, q.count, proof, comms, label, g, h, G, H),
            "mimc" => verify_knowledge_of_preimage_of_mimc(&q.out, &names("k", p[0] as usize), p[0] as usize, proof, comms, label, g, h, G, H),
            "pos2" => verify_proof_of_knowledge_of_preimage_of_Poseidon_2(&q.out, &self.params(), &sbox(p[0]), proof, comms, label, g, h, G, H),
            "pos4" => verify_proof_of_knowledge_of_preimage_of_Poseidon_4(&q.out, &self.params(), &sbox(p[0]), proof, comms, label, g, h, G, H),
            "pos8" => verify_proof_of_knowledge_of_preimage_of_Poseidon_8(&q.out, &self.params(), &sbox(p[0]), proof, comms, label, g, h, G, H),
            "rand" => {
                let params = self.params();
                let mut ndb = InMemoryHashDb::<DBVal_4_ary>::new();
                let mut nt = self.tree(&q.set, &params, &mut ndb)?;
                verify_proof_for_randomizer(&mut nt, &mut ndb, &self.indices(), p[6] as usize, &params, &sbox(p[0]), proof, comms, label, g, h, G, H)
            }
            "merkle4" => verify_proof_of_leaf_inclusion_4_ary_merkle_tree(&q.out, p[6] as usize, &self.params(), &sbox(p[0]), proof, comms, label, g, h, G, H),
            "merkle8" => verify_proof_of_leaf_inclusion_8_ary_merkle_tree(&q.out, p[6] as usize, &self.params(), &sbox(p[0]), proof, comms, label, g, h, G, H),
            k => panic!("unknown gadget {}", k),
        }
    }
    /// how many commitments the verifier is given
    pub fn commitments(&self) -> usize {
        let p = &self.p;
        match self.kind.as_str() {
            "comp" => self.parts().iter().map(|i| i.commitments()).sum(),
            "blk" => crate::blocks::commitments(self),
            "bound" => 3,
            "member" => 1 + p[0] as usize,
            "nonmember" => 1 + 2 * p[0] as usize,
            "alt" => p.len() - 1,
            "nonzero" | "mimc" => 2,
            "hamming" => p[0] as usize,
            "pos2" | "pos4" | "pos8" => self.width() - 1,
            "rand" => 1 + (p.len() - 8) * (1 + 3 * p[6] as usize),
            _ => 2 + p[6] as usize * (self.arity() - 1),
        }
    }
    /// as a part of a larger proof
    pub fn prove_in(&self, s: &Secret, q: &Public, prover: &mut Prover) -> Result<Vec<G1>, R1CSError> {
        let p = &self.p;
        let mut r = rng();
        let rg = Some(&mut r);
        let one = s.rands.as_ref().and_then(|v| v.first().cloned());
        match self.kind.as_str() {
            "comp" => {
                let mut all = vec![];
                for (k, i) in self.parts().iter().enumerate() {
                    all.extend(i.prove_in(&s.parts[k], &q.parts[k], prover)?);
                }
                Ok(all)
            }
            "blk" => crate::blocks::prove(self, s, q, prover),
            "bound" => prove_bounded_num(p[0] as u64, one, p[1] as u64, p[2] as u64, p[3] as usize, rg, prover),
            "member" => prove_set_membership(s.vals[0].clone(), one, &q.set, rg, prover),
            "nonmember" => prove_set_non_membership(s.vals[0].clone(), one, &q.set, rg, prover),
            "alt" => prove_set_membership_alt(p[1] as u64, one, &self.set64(), rg, prover),
            "nonzero" => prove_non_zero_val(s.vals[0].clone(), one, rg, prover),
            "hamming" => prove_hamming_distance(&s.vals, &q.set, q.count, prover),
            "mimc" => prove_mimc_preimage(s.vals.clone(), s.rands.clone(), &q.out, &names("k", p[0] as usize), p[0] as usize, rg, prover),
            "pos2" => prove_knowledge_of_preimage_of_Poseidon_2(s.vals.clone(), s.rands.clone(), &q.out, &self.params(), &sbox(p[0]), rg, prover),
            "pos4" => prove_knowledge_of_preimage_of_Poseidon_4(s.vals.clone(), s.rands.clone(), &q.out, &self.params(), &sbox(p[0]), rg, prover),
            "pos8" => prove_knowledge_of_preimage_of_Poseidon_8(s.vals.clone(), s.rands.clone(), &q.out, &self.params(), &sbox(p[0]), rg, prover),
            "merkle4" => {
                let path = s.path.iter().map(|v| [v[0].clone(), v[1].clone(), v[2].clone()]).collect();
                prove_leaf_inclusion_4_ary_merkle_tree(s.vals[0].clone(), s.vals[1].clone(), s.rands.clone(), path, &q.out, p[6] as usize, &self.params(), &sbox(p[0]), rg, prover)
            }
            "merkle8" => {
                let path = s.path.iter().map(|v| [v[0].clone(), v[1].clone(), v[2].clone(), v[3].clone(), v[4].clone(), v[5].clone(), v[6].clone()]).collect();
                prove_leaf_inclusion_8_ary_merkle_tree(s.vals[0].clone(), s.vals[1].clone(), s.rands.clone(), path, &q.out, p[6] as usize, &self.params(), &sbox(p[0]), rg, prover)
            }
            k => panic!("unknown gadget {}", k),
        }
    }
    pub fn verify_in(&self, q: &Public, comms: Vec<G1>, gs: &Gens, verifier: &mut Verifier) -> Result<(), R1CSError> {
        let p = &self.p;
        let (g, h) = (&gs.g, &gs.h);
        match self.kind.as_str() {
            "comp" => {
                let mut at = 0;
                for (k, i) in self.parts().iter().enumerate() {
                    let n = i.commitments();
                    i.verify_in(&q.parts[k], comms[at..at + n].to_vec(), gs, verifier)?;
                    at += n;
                }
                Ok(())
            }
            "blk" => crate::blocks::verify(self, q, comms, verifier),
            "bound" => verify_bounded_num(p[1] as u64, p[2] as u64, p[3] as usize, comms, verifier),
            "member" => verify_set_membership(&q.set, comms, verifier),
            "nonmember" => verify_set_non_membership(&q.set, comms, verifier),
            "alt" => verify_set_membership_alt(&self.set64(), comms, verifier),
            "nonzero" => verify_non_zero_val(comms, verifier),
            "hamming" => verify_hamming_distance(&q.set, q.count, comms, verifier),
            "mimc" => verify_mimc_preimage(&q.out, &names("k", p[0] as usize), p[0] as usize, comms, verifier),
            "pos2" => verify_knowledge_of_preimage_of_Poseidon_2(&q.out, &self.params(), &sbox(p[0]), comms, g, h, verifier),
            "pos4" => verify_knowledge_of_preimage_of_Poseidon_4(&q.out, &self.params(), &sbox(p[0]), comms, g, h, verifier),
            "pos8" => verify_knowledge_of_preimage_of_Poseidon_8(&q.out, &self.params(), &sbox(p[0]), comms, g, h, verifier),
            "merkle4" => verify_leaf_inclusion_4_ary_merkle_tree(&q.out, p[6] as usize, &self.params(), &sbox(p[0]), comms, g, h, verifier),
            "merkle8" => verify_leaf_inclusion_8_ary_merkle_tree(&q.out, p[6] as usize, &self.params(), &sbox(p[0]), comms, g, h, verifier),
            k => panic!("unknown gadget {}", k),
        }
    }
}

/// MiMC from its definition: xL, xR := xR + (xL + c)^3, xL
pub fn mimc_ref(l: &FieldElement, r: &FieldElement, cs: &[FieldElement]) -> FieldElement {
    let (mut l, mut r) = (l.clone(), r.clone());
    for c in cs {
        let s = &l + c;
        let n = &(&s * &s) * &s + &r;
        r = l;
        l = n;
    }
    l
}

/// an honest proof of a true statement is accepted and its commitments open to the caller's values
fn complete(i: &Inst) -> Vec<Claim> {
    let s = i.secret();
    let q = i.honest(&s);
    let gs = i.gens();
    match i.prove(&s, &q, &gs) {
        Err(_) => vec![t("a true statement has a proof", false)],
        Ok((proof, comms)) => {
            let mut cs = vec![t("a true statement has a proof", true), t("the number of commitments", comms.len() == i.commitments())];
            let mut opens = |i: &Inst, s: &Secret, off: usize| {
                let _ = i;
                if let Some(r) = &s.rands {
                    for (k, at) in s.at.iter().enumerate() {
                        let want = &gs.g * &s.vals[k] + &gs.h * &r[k];
                        cs.push(t("the commitment opens to the caller's value and randomness", comms.get(off + *at).map_or(false, |c| *c == want)));
                    }
                }
            };
            opens(i, &s, 0);
            let mut off = 0;
            for (j, sec) in i.parts().iter().zip(s.parts.iter()) {
                opens(j, sec, off);
                off += j.commitments();
            }
            cs.push(t("the honest proof is accepted", i.verify(&q, proof, comms, &gs).is_ok()));
            cs
        }
    }
}

/// a statement the prover itself must refuse
fn refused(i: &Inst) -> Vec<Claim> {
    let s = i.secret();
    vec![t("the prover returns an error", i.prove(&s, &i.honest(&s), &i.gens()).is_err())]
}
/// a false statement: whatever comes out, nothing panics
fn total(i: &Inst) -> Vec<Claim> {
    let s = i.secret();
    let q = i.honest(&s);
    let gs = i.gens();
    if let Ok((proof, comms)) = i.prove(&s, &q, &gs) {
        let _ = i.verify(&q, proof, comms, &gs);
    }
    vec![t("returned", true)]
}

/// the verifier is given `k` commitments
fn commitments(i: &Inst, k: usize) -> Vec<Claim> {
    let s = i.secret();
    let q = i.honest(&s);
    let gs = i.gens();
    match i.prove(&s, &q, &gs) {
        Err(_) => vec![t("a true statement has a proof", false)],
        Ok((proof, mut comms)) => {
            let need = comms.len();
            comms.truncate(k);
            while comms.len() < k {
                comms.push(gs.g.clone());
            }
            let r = i.verify(&q, proof, comms, &gs);
            vec![t("too few commitments are an error", k >= need || r.is_err())]
        }
    }
}
/// prover and verifier with different numbers of generators
fn generators(i: &Inst) -> Vec<Claim> {
    let s = i.secret();
    let q = i.honest(&s);
    let full = i.gens();
    let (proof, comms) = match i.prove(&s, &q, &full) {
        Err(_) => return vec![t("a true statement has a proof", false)],
        Ok(x) => x,
    };
    // as many as the inner product argument has positions
    let rounds = |v: &serde_json::Value| -> usize {
        fn find<'a>(v: &'a serde_json::Value, in_l: bool) -> Option<usize> {
            match v {
                serde_json::Value::Array(a) if in_l => Some(a.len()),
                serde_json::Value::Object(m) => m.iter().filter_map(|(k, x)| find(x, in_l || k == "L")).next(),
                _ => None,
            }
        }
        find(v, false).unwrap()
    };
    let n = 1usize << rounds(&serde_json::to_value(&proof).unwrap());
    let cut = |a: usize, b: usize| -> Gens {
        let all = circ::gens(a.max(b).max(1));
        Gens { g: full.g.clone(), h: full.h.clone(), G: all.G.as_slice()[..a].to_vec().into(), H: all.H.as_slice()[..b].to_vec().into() }
    };
    let mut cs = vec![];
    let bad = Some(R1CSError::InvalidGeneratorsLength);
    for (a, b) in vec![(0, 0), (n - 1, n), (n, n - 1), (n - 1, n - 1), (n / 2, n), (n, n / 2), (n, 0), (0, n), (2 * n, n - 1), (n - 1, 2 * n)] {
        let gs = cut(a, b);
        cs.push(t("proving with too few generators is InvalidGeneratorsLength", i.prove(&s, &q, &gs).err() == bad));
        cs.push(t("verifying with too few generators is InvalidGeneratorsLength", i.verify(&q, proof.clone(), comms.clone(), &gs).err() == bad));
    }
    for (a, b) in vec![(n, n), (n + 1, n), (n, 2 * n)] {
        cs.push(t("surplus generators do not matter", i.verify(&q, proof.clone(), comms.clone(), &cut(a, b)).is_ok()));
    }
    cs
}
/// blindings: none at all, or a wrong number of them; a wrong number of inputs
fn blindings(i: &Inst) -> Vec<Claim> {
    let mut cs = vec![];
    let mut s = i.secret();
    let q = i.honest(&s);
    let gs = i.gens();
    s.norng = true;
    s.rands = Some(names("rho", s.vals.len()));
    cs.push(t("given randomness is enough", i.prove(&s, &q, &gs).is_ok()));
    s.rands = None;
    cs.push(t("neither randomness nor a source of it is an error", i.prove(&s, &q, &gs).is_err()));
    if ["mimc", "pos2", "pos4", "pos8", "merkle4", "merkle8"].contains(&i.kind.as_str()) {
        let n = s.vals.len();
        for k in vec![0, 1, n - 1, n + 1, n + 3] {
            if k != n {
                s.rands = Some(names("rho", k));
                cs.push(t("a wrong number of blindings is an error", i.prove(&s, &q, &gs).is_err()));
            }
        }
        if !i.kind.starts_with("merkle") {
            let all = names("x", n + 3);
            for k in vec![0, 1, n - 1, n + 1, n + 3] {
                if k != n {
                    s.vals = all[..k].to_vec();
                    s.rands = Some(names("rho", n));
                    cs.push(t("a wrong number of inputs is an error", i.prove(&s, &q, &gs).is_err()));
                    s.rands = Some(names("rho", k));
                    cs.push(t("a wrong number of inputs is an error", i.prove(&s, &q, &gs).is_err()));
                }
            }
        }
    }
    cs
}

pub fn run(k: &str, p: &[i64]) -> Vec<Claim> {
    let _ = eq;
    if k.starts_with("comms") {
        let c = k.find(':').unwrap();
        return commitments(&inst(&k[c + 1..], p), k[5..c].parse().unwrap());
    }
    if k.starts_with("gens:") {
        return generators(&inst(&k[5..], p));
    }
    if k.starts_with("blind:") {
        return blindings(&inst(&k[6..], p));
    }
    if k.starts_with("complete:") {
        return complete(&inst(&k[9..], p));
    }
    if k.starts_with("refused:") {
        return refused(&inst(&k[8..], p));
    }
    if k.starts_with("total:") {
        return total(&inst(&k[6..], p));
    }
    if k.starts_with("native:") {
        return native(&inst(&k[7..], p));
    }
    if k.starts_with("mds:") {
        // the counterexample: a non-zero state that the linear layer maps to zero
        let i = inst(&k[4..], p);
        let m = i.params().MDS_matrix;
        let xs = names("st", i.width());
        let zero = (0..i.width()).all(|c| {
            let mut acc = FieldElement::zero();
            for r in 0..i.width() {
                acc = &acc + &(&m[r][c] * &xs[r]);
            }
            acc.is_zero()
        });
        return vec![t("the linear layer is invertible", !zero || xs.iter().all(|x| x.is_zero()))];
    }
    if k == "generators" {
        let n = p[0] as usize;
        let mut cs = vec![];
        let mut seen: Vec<Vec<u8>> = vec![];
        for pre in ["g", "h", "G", "H"].iter() {
            let all = get_generators(pre, n);
            cs.push(t("as many generators as asked for", all.len() == n));
            seen.extend(all.iter().map(|x| x.to_bytes()));
            cs.push(t("no generator is the identity", all.iter().all(|x| !x.is_identity())));
            for m in 0..n {
                if m < 9 || m % 61 == 0 {
                    cs.push(t("fewer generators are the first ones", get_generators(pre, m).iter().zip(all.iter()).all(|(a, b)| a == b)));
                }
            }
        }
        seen.sort();
        let before = seen.len();
        seen.dedup();
        cs.push(t("all generators are different", seen.len() == before));
        return cs;
    }
    if k == "challenges" {
        let (i, n) = (p[0] as usize, p[1] as usize);
        let pts: Vec<G1> = (0..i).map(|k| basis(&format!("I{}", k))).collect();
        let mut state = vec![1, 2, 3];
        let r = gen_challenges(&pts.iter().collect::<Vec<_>>(), &mut state, n);
        let mut want = vec![1, 2, 3];
        for x in &pts {
            want.extend_from_slice(&x.to_bytes());
        }
        let mut cs = vec![t("as many challenges as asked for", r.len() == n), t("all challenges are different", (0..n.min(r.len())).all(|a| (0..a).all(|b| r[a].to_bytes() != r[b].to_bytes())))];
        for (k, c) in r.iter().enumerate() {
            cs.push(eq(&format!("challenge {} is the hash of the state, the points and the challenges before it", k), c, &FieldElement::from_msg_hash(&want)));
            if k + 1 < r.len() {
                want.extend_from_slice(&(&G1::generator() * c).to_bytes());
            }
        }
        cs.push(t("the state keeps what was hashed", state == want));
        return cs;
    }
    if k == "mimc_native" {
        let n = p[0] as usize;
        let (x, y, ks) = (fe("x0"), fe("x1"), names("k", n));
        return vec![eq("mimc is the Feistel network of its definition", &mimc(&x, &y, &ks, n), &mimc_ref(&x, &y, &ks))];
    }
    match crate::trees::run(k, p) {
        Some(c) => c,
        None => panic!("unknown scenario {}", k),
    }
}

/// Poseidon from its definition: add round keys, S-box on the whole state or on the last element, multiply by the matrix
pub fn poseidon_ref(input: &[FieldElement], p: &PoseidonParams, s: i64) -> Vec<FieldElement> {
    let w = p.width;
    let pow = |x: &FieldElement| -> FieldElement {
        match s {
            0 => &(x * x) * x,
            1 => x.inverse(),
            _ => {
                let q = &(x * x) * &(x * x);
                &q * x
            }
        }
    };
    let mut st = input.to_vec();
    for r in 0..(p.full_rounds_beginning + p.partial_rounds + p.full_rounds_end) {
        let partial = r >= p.full_rounds_beginning && r < p.full_rounds_beginning + p.partial_rounds;
        for i in 0..w {
            st[i] = &st[i] + &p.round_keys[r * w + i];
            if !partial || i == w - 1 {
                st[i] = pow(&st[i]);
            }
        }
        let mut next = vec![];
        for i in 0..w {
            let mut acc = FieldElement::zero();
            for j in 0..w {
                acc = &acc + &(&st[j] * &p.MDS_matrix[j][i]);
            }
            next.push(acc);
        }
        st = next;
    }
    st
}
fn native(i: &Inst) -> Vec<Claim> {
    let p = i.params();
    let w = p.width;
    let mut cs = vec![];
    let st = names("x", w);
    let got = Poseidon_permutation(&st, &p, &sbox(i.p[0]));
    let want = poseidon_ref(&st, &p, i.p[0]);
    cs.push(t("the width of the output", got.len() == w));
    for (a, b) in got.iter().zip(want.iter()) {
        cs.push(eq("the permutation is Poseidon's", a, b));
    }
    let mut st = st;
    st[0] = FieldElement::zero();
    cs.push(eq("the hash is the second element of the permutation of (0, inputs)", &i.hash(st[1..].to_vec()), &poseidon_ref(&st, &p, i.p[0])[1]));
    if i.p[4] == 0 {
        // the built-in keys and matrix are the tabulated ones, in order
        let (keys, mds): (Vec<&str>, Vec<Vec<&str>>) = match w {
            3 => (ROUND_CONSTS_W_3.to_vec(), MDS_ENTRIES_W_3.iter().map(|r| r.to_vec()).collect()),
            5 => (ROUND_CONSTS_W_5.to_vec(), MDS_ENTRIES_W_5.iter().map(|r| r.to_vec()).collect()),
            _ => (ROUND_CONSTS_W_9.to_vec(), MDS_ENTRIES_W_9.iter().map(|r| r.to_vec()).collect()),
        };
        cs.push(t("as many round keys as rounds need", p.round_keys.len() == w * (i.p[1] + i.p[2] + i.p[3]) as usize));
        let num = |s: &str| FieldElement::from_hex(s[2..].to_string()).unwrap();
        cs.push(t("the round keys are the tabulated ones", p.round_keys.iter().zip(keys.iter()).all(|(a, b)| *a == num(b))));
        cs.push(t("the matrix is the tabulated one", p.MDS_matrix.iter().zip(mds.iter()).all(|(a, b)| a.iter().zip(b.iter()).all(|(x, y)| *x == num(y)))));
    }
    cs
}
