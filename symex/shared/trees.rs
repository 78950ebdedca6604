//! Sparse Merkle trees: histories of updates against a plain map, and the randomizer built on them.
use crate::prim::{fe, fu, maybe_same};
use crate::scen::{eq, t, Claim};
use crate::gadgets::{names, poseidon_params};
use amcl_wrapper::field_elem::{FieldElement, FieldElementVector};
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_4_ary::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_8_ary::*;
use bulletproofs_amcl::r1cs::gadgets::randomizer::*;
use bulletproofs_amcl::utils::hash_db::{HashDb, InMemoryHashDb};
use std::collections::{BTreeMap, HashSet};

pub type Map = BTreeMap<u64, FieldElement>;

pub fn hash(arity: u64, xs: Vec<FieldElement>, p: &PoseidonParams) -> FieldElement {
    if arity == 4 {
        Poseidon_hash_4(xs, p, &SboxType::Quint)
    } else {
        Poseidon_hash_8(xs, p, &SboxType::Quint)
    }
}
/// root of the tree that holds `m` and zero everywhere else, from the definition
pub fn root(arity: u64, depth: u32, m: &Map, p: &PoseidonParams) -> FieldElement {
    let mut empty = vec![FieldElement::zero()];
    for _ in 0..depth {
        let e = empty.last().unwrap().clone();
        empty.push(hash(arity, vec![e; arity as usize], p));
    }
    fn go(arity: u64, depth: u32, m: &Map, base: u64, empty: &[FieldElement], p: &PoseidonParams) -> FieldElement {
        let width = arity.pow(depth);
        if m.range(base..base + width).next().is_none() {
            return empty[depth as usize].clone();
        }
        if depth == 0 {
            return m[&base].clone();
        }
        let w = width / arity;
        hash(arity, (0..arity).map(|k| go(arity, depth - 1, m, base + k * w, empty, p)).collect(), p)
    }
    go(arity, depth, m, 0, &empty, p)
}
/// the root above `leaf`, from the definition
pub fn climb(arity: u64, leaf: &FieldElement, idx: u64, path: &[Vec<FieldElement>], p: &PoseidonParams) -> FieldElement {
    let mut cur = leaf.clone();
    let mut i = idx;
    for sib in path.iter().rev() {
        let mut xs = sib.clone();
        xs.insert((i % arity) as usize, cur);
        i /= arity;
        cur = hash(arity, xs, p);
    }
    cur
}
pub fn same(n: &str, a: &[FieldElement], b: &[FieldElement]) -> Vec<Claim> {
    let mut v = vec![t(n, a.len() == b.len())];
    v.extend(a.iter().zip(b.iter()).map(|(x, y)| eq(n, x, y)));
    v
}

macro_rules! tree {
    ($run:ident, $check:ident, $digits:ident, $exact:ident, $T:ident, $DB:ident, $Node:ident, $ar:expr, $repr:ident) => {
        /// what `tree` says about the state `m`
        fn $check(tree: &$T, db: &InMemoryHashDb<$DB>, m: &Map, probe: &[u64], p: &PoseidonParams, when: &str) -> Vec<Claim> {
            let d = tree.depth as u32;
            let want = root($ar, d, m, p);
            let mut cs = vec![eq(&format!("the root is the root of the contents {}", when), &tree.root, &want)];
            if !maybe_same(&tree.root, &want) {
                return cs; // the claim above fails; the rest would only follow from it
            }
            for i in probe {
                let v = m.get(i).cloned().unwrap_or(FieldElement::zero());
                let mut proof = Some(vec![]);
                match (tree.get(&fu(*i), &mut None, db), tree.get(&fu(*i), &mut proof, db)) {
                    (Ok(a), Ok(b)) => {
                        cs.push(eq(&format!("get returns what was last written {}", when), &a, &v));
                        cs.push(eq(&format!("get with a proof returns what was last written {}", when), &b, &v));
                        let proof = proof.unwrap();
                        cs.push(t("a proof has one node per level", proof.len() == d as usize));
                        let path: Vec<Vec<FieldElement>> = proof.iter().map(|n| n.to_vec()).collect();
                        let top = climb($ar, &v, *i, &path, p);
                        cs.push(eq(&format!("the proof hashes up to the root {}", when), &top, &want));
                        if !maybe_same(&top, &want) {
                            return cs;
                        }
                        cs.push(t(&format!("verify_proof accepts the proof {}", when), tree.verify_proof(&fu(*i), &v, &proof, None)));
                        cs.push(t(&format!("verify_proof accepts the proof for the given root {}", when), tree.verify_proof(&fu(*i), &v, &proof, Some(&want))));
                    }
                    _ => cs.push(t(&format!("get finds every leaf {}", when), false)),
                }
            }
            cs
        }
        /// [begin, partial, end, depth, ops..]; op 4*i: write a fresh value at i; 4*i+1: write zero; 4*i+2: write the
        /// value written first; 4*i+3: go back to the state before the previous operation, then write a fresh value
        fn $run(q: &[i64]) -> Vec<Claim> {
            let p = poseidon_params($ar + 1, &q[0..3], false);
            let depth = q[3] as usize;
            let mut db = InMemoryHashDb::<$DB>::new();
            let mut tree = $T::new(&p, depth, &mut db);
            let size = ($ar as u64).pow(depth as u32);
            let ops = &q[4..];
            let mut probe: Vec<u64> = ops.iter().map(|o| *o as u64 / 4).collect();
            probe.extend(vec![0, size - 1, 1, size / 2]);
            for o in ops {
                let i = *o as u64 / 4;
                probe.extend(vec![i.wrapping_sub(1), i + 1, i ^ 1, (i + $ar) % size, i / $ar]);
            }
            probe.retain(|i| *i < size);
            probe.sort();
            probe.dedup();
            let mut m = Map::new();
            let mut cs = $check(&tree, &db, &m, &probe, &p, "of an empty tree");
            let mut states: Vec<(FieldElement, Map)> = vec![(tree.root.clone(), m.clone())];
            for (k, o) in ops.iter().enumerate() {
                let i = *o as u64 / 4;
                let v = match *o % 4 {
                    1 => FieldElement::zero(),
                    2 => fe("v0"),
                    _ => fe(&format!("v{}", k)),
                };
                if *o % 4 == 3 && states.len() > 1 {
                    let (r, old) = states[states.len() - 2].clone();
                    tree.root = r;
                    m = old;
                }
                m.insert(i, v.clone());
                match tree.update(&fu(i), v, &mut db) {
                    Ok(r) => cs.push(eq("update returns the new root", &r, &tree.root)),
                    Err(_) => cs.push(t("update succeeds", false)),
                }
                cs.extend($check(&tree, &db, &m, &probe, &p, "after an update"));
                states.push((tree.root.clone(), m.clone()));
            }
            // the database still holds every earlier state
            for (r, m) in &states {
                let mut old = tree.clone();
                old.root = r.clone();
                cs.extend($check(&old, &db, m, &probe, &p, "of an earlier root"));
            }
            // a database without the nodes: an error, and the tree stays as it was
            if depth > 0 {
                let mut other = InMemoryHashDb::<$DB>::new();
                let before = tree.root.clone();
                cs.push(t("a missing node is an error", tree.get(&fu(0), &mut None, &other).is_err()));
                cs.push(t("updating with a missing node is an error", tree.update(&fu(0), fe("w"), &mut other).is_err()));
                cs.push(eq("a failed update leaves the root", &tree.root, &before));
            }
            cs
        }
        /// [begin, partial, end, depth, index, nodes]: any value, proof and root
        fn $exact(q: &[i64]) -> Vec<Claim> {
            let p = poseidon_params($ar + 1, &q[0..3], false);
            let depth = q[3] as usize;
            let mut db = InMemoryHashDb::<$DB>::new();
            let tree = $T::new(&p, depth, &mut db);
            let path: Vec<Vec<FieldElement>> = (0..q[5]).map(|l| names(&format!("sib{}_", l), $ar - 1)).collect();
            let proof: Vec<$Node> = path
                .iter()
                .map(|v| {
                    let mut n: $Node = Default::default();
                    n.clone_from_slice(v);
                    n
                })
                .collect();
            let (idx, val, r) = (fu(q[4] as u64), fe("val"), fe("root"));
            let got = tree.verify_proof(&idx, &val, &proof, Some(&r));
            if path.len() != depth {
                return vec![t("a proof of the wrong length is rejected", !got)];
            }
            let want = climb($ar, &val, q[4] as u64, &path, &p);
            vec![if got { eq("an accepted proof hashes up to the root", &want, &r) } else { Claim::NonZero("a proof that hashes up to the root is accepted".into(), &want - &r) }]
        }
        /// [digits, index]: the path to a leaf
        fn $digits(q: &[i64]) -> Vec<Claim> {
            let n = q[0] as usize;
            if q[1] < 0 {
                // the index is given by its digits
                let mut idx = FieldElement::zero();
                for d in &q[2..] {
                    idx = idx * fu($ar) + fu(*d as u64);
                }
                let mut want: Vec<u8> = q[2..].iter().map(|d| *d as u8).collect();
                while want.len() < n {
                    want.insert(0, 0);
                }
                return vec![t("the base representation", $repr(&idx, n) == want), t("the path of an index is its digits, highest first", $T::leaf_index_to_path(&idx, n) == want)];
            }
            let mut i = q[1] as u64;
            let mut want: Vec<u8> = vec![];
            for _ in 0..n {
                want.insert(0, (i % $ar) as u8);
                i /= $ar;
            }
            vec![t("the base representation", $repr(&fu(q[1] as u64), n) == want), t("the path of an index is its digits, highest first", $T::leaf_index_to_path(&fu(q[1] as u64), n) == want)]
        }
    };
}
tree!(tree4, check4, digits4, exact4, VanillaSparseMerkleTree_4, InMemoryDb4, ProofNode_4_ary, 4, get_base_4_repr);
tree!(tree8, check8, digits8, exact8, VanillaSparseMerkleTree_8, InMemoryDb8, ProofNode_8_ary, 8, get_base_8_repr);
type InMemoryDb4 = DBVal_4_ary;
type InMemoryDb8 = DBVal_8_ary;

/// [n, indices..]: the data after distorting the given positions
fn distort(q: &[i64]) -> Vec<Claim> {
    let n = q[0] as usize;
    let orig = names("d", n);
    let set: HashSet<FieldElement> = q[1..].iter().map(|i| fu(*i as u64)).collect();
    let (kept, new) = get_randomized_data(&FieldElementVector::from(orig.clone()), &set);
    let mut cs = vec![t("one original value per distorted position", kept.len() == set.len())];
    let at: HashSet<i64> = q[1..].iter().cloned().collect();
    for i in 0..n {
        if at.contains(&(i as i64)) {
            cs.push(eq("a distorted position holds the hash of the original", &new[i], &randomize(&orig[i])));
            match kept.get(&fu(i as u64)) {
                Some(x) => cs.push(eq("the original value is kept", x, &orig[i])),
                None => cs.push(t("the original value is kept", false)),
            }
        } else {
            cs.push(eq("other positions are unchanged", &new[i], &orig[i]));
            cs.push(t("other positions are not reported", kept.get(&fu(i as u64)).is_none()));
        }
    }
    cs
}

/// the database by itself: the last value stored under a key, an error for other keys
fn hashdb(q: &[i64]) -> Vec<Claim> {
    let mut db = InMemoryHashDb::<DBVal_4_ary>::new();
    let mut m: BTreeMap<Vec<u8>, DBVal_4_ary> = BTreeMap::new();
    let mut cs = vec![];
    for (k, key) in q.iter().enumerate() {
        let kb = vec![*key as u8; *key as usize];
        let v = names(&format!("e{}_", k), 4);
        let mut a: DBVal_4_ary = Default::default();
        a.clone_from_slice(&v);
        db.insert(kb.clone(), a.clone());
        m.insert(kb, a);
        for j in 0..6u8 {
            let kb = vec![j; j as usize];
            match (db.get(&kb), m.get(&kb)) {
                (Ok(x), Some(y)) => cs.extend(same("the stored value", &x, y)),
                (Err(_), None) => {}
                _ => cs.push(t("exactly the stored keys are found", false)),
            }
        }
    }
    cs
}

pub fn run(k: &str, p: &[i64]) -> Option<Vec<Claim>> {
    Some(match k {
        "tree4" => tree4(p),
        "tree8" => tree8(p),
        "digits4" => digits4(p),
        "digits8" => digits8(p),
        "exact4" => exact4(p),
        "exact8" => exact8(p),
        "distort" => distort(p),
        "hashdb" => hashdb(p),
        _ => return None,
    })
}
