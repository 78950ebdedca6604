//! Rewriting of terms: substitution, and collection by powers of a variable.
use std::collections::{BTreeMap, HashMap};
use symcore::{arena, Fr, Node, TermId};

pub fn subst(roots: &[TermId], map: &HashMap<TermId, TermId>) -> Vec<TermId> {
    let order = crate::smt::reach(roots);
    let mut memo: HashMap<TermId, TermId> = HashMap::new();
    let mut a = arena();
    for t in order {
        let r = match map.get(&t) {
            Some(r) => *r,
            None => match a.nodes[t as usize] {
                Node::Const(_) | Node::Var(_) => t,
                Node::Add(x, y) => {
                    let (x, y) = (memo[&x], memo[&y]);
                    a.add(x, y)
                }
                Node::Mul(x, y) => {
                    let (x, y) = (memo[&x], memo[&y]);
                    a.mul(x, y)
                }
                Node::Inv(x) => {
                    let x = memo[&x];
                    a.inv(x)
                }
            },
        };
        memo.insert(t, r);
    }
    roots.iter().map(|t| memo[t]).collect()
}

type Laurent = BTreeMap<i32, TermId>;

/// t as a Laurent polynomial in the variable x; None if x occurs under an inverse of a non-monomial
pub fn collect(t: TermId, x: TermId) -> Option<Laurent> {
    collect_many(&[t], x).map(|mut v| v.remove(0))
}
pub fn collect_many(ts: &[TermId], x: TermId) -> Option<Vec<Laurent>> {
    let order = crate::smt::reach(ts);
    let mut memo: HashMap<TermId, Laurent> = HashMap::new();
    let mut a = arena();
    let one = a.cst(Fr::one());
    for n in order {
        let l: Laurent = match a.nodes[n as usize] {
            Node::Const(c) => {
                if c.is_zero() {
                    BTreeMap::new()
                } else {
                    [(0, n)].iter().cloned().collect()
                }
            }
            Node::Var(_) => {
                if n == x {
                    [(1, one)].iter().cloned().collect()
                } else {
                    [(0, n)].iter().cloned().collect()
                }
            }
            Node::Add(p, q) => {
                let mut r = memo[&p].clone();
                for (k, v) in memo[&q].clone() {
                    let s = match r.get(&k) {
                        Some(o) => {
                            let o = *o;
                            a.add(o, v)
                        }
                        None => v,
                    };
                    r.insert(k, s);
                }
                r
            }
            Node::Mul(p, q) => {
                let mut r: Laurent = BTreeMap::new();
                let (lp, lq) = (memo[&p].clone(), memo[&q].clone());
                for (i, u) in &lp {
                    for (j, v) in &lq {
                        let m = a.mul(*u, *v);
                        let s = match r.get(&(i + j)) {
                            Some(o) => {
                                let o = *o;
                                a.add(o, m)
                            }
                            None => m,
                        };
                        r.insert(i + j, s);
                    }
                }
                r
            }
            Node::Inv(p) => {
                let lp = memo[&p].clone();
                if lp.len() != 1 {
                    if lp.is_empty() || lp.keys().all(|k| *k == 0) {
                        [(0, n)].iter().cloned().collect()
                    } else {
                        return None;
                    }
                } else {
                    let (k, v) = lp.into_iter().next().unwrap();
                    let i = a.inv(v);
                    [(-k, i)].iter().cloned().collect()
                }
            }
        };
        let l = l.into_iter().filter(|(_, v)| a.as_const(*v).map_or(true, |c| !c.is_zero())).collect();
        memo.insert(n, l);
    }
    Some(ts.iter().map(|t| memo[t].clone()).collect())
}

/// Full expansion into monomials over the variables (inverses of assumed-nonzero variables are
/// negative exponents, other inverses are atoms). Used to cross-check the solver, and to print.
pub type Mono = Vec<(TermId, i32)>;
pub fn expand(t: TermId, limit: usize) -> Option<HashMap<Mono, Fr>> {
    let order = crate::smt::reach(&[t]);
    let mut memo: HashMap<TermId, HashMap<Mono, Fr>> = HashMap::new();
    for n in order {
        let (node, invnz) = {
            let a = arena();
            let node = a.nodes[n as usize];
            let nz = match node {
                Node::Inv(x) => a.name_of(x).map_or(false, crate::smt::assumed_nonzero),
                _ => false,
            };
            (node, nz)
        };
        let mut r: HashMap<Mono, Fr> = HashMap::new();
        match node {
            Node::Const(c) => {
                if !c.is_zero() {
                    r.insert(vec![], c);
                }
            }
            Node::Var(_) => {
                r.insert(vec![(n, 1)], Fr::one());
            }
            Node::Inv(x) => {
                if invnz {
                    r.insert(vec![(x, -1)], Fr::one());
                } else {
                    r.insert(vec![(n, 1)], Fr::one());
                }
            }
            Node::Add(x, y) => {
                r = memo[&x].clone();
                for (m, c) in &memo[&y] {
                    let e = r.entry(m.clone()).or_insert(Fr::zero());
                    *e = e.add(c);
                }
                r.retain(|_, c| !c.is_zero());
            }
            Node::Mul(x, y) => {
                if memo[&x].len() * memo[&y].len() > limit * 8 {
                    return None;
                }
                for (m, c) in &memo[&x] {
                    for (k, d) in &memo[&y] {
                        let mm = mul_mono(m, k);
                        let e = r.entry(mm).or_insert(Fr::zero());
                        *e = e.add(&c.mul(d));
                    }
                }
                r.retain(|_, c| !c.is_zero());
            }
        }
        if r.len() > limit {
            return None;
        }
        memo.insert(n, r);
    }
    memo.remove(&t)
}
fn mul_mono(a: &Mono, b: &Mono) -> Mono {
    let mut m: BTreeMap<TermId, i32> = BTreeMap::new();
    for (v, e) in a.iter().chain(b.iter()) {
        *m.entry(*v).or_insert(0) += e;
    }
    m.into_iter().filter(|(_, e)| *e != 0).collect()
}
pub fn show(t: TermId) -> String {
    let a = arena();
    show_in(&a, t, 0)
}
fn show_in(a: &symcore::Arena, t: TermId, d: usize) -> String {
    if d > 12 {
        return format!("#{}", t);
    }
    match a.nodes[t as usize] {
        Node::Const(c) => c.to_signed_dec(),
        Node::Var(k) => a.names[k as usize].clone(),
        Node::Add(x, y) => format!("({} + {})", show_in(a, x, d + 1), show_in(a, y, d + 1)),
        Node::Mul(x, y) => format!("{}*{}", show_in(a, x, d + 1), show_in(a, y, d + 1)),
        Node::Inv(x) => format!("inv({})", show_in(a, x, d + 1)),
    }
}

/// the same value with everything multiplied out, if that is not too large
pub fn tidy(t: TermId) -> TermId {
    let m = match expand(t, 4000) {
        Some(m) => m,
        None => return t,
    };
    let mut ks: Vec<(&Mono, &Fr)> = m.iter().collect();
    ks.sort_by(|a, b| a.0.cmp(b.0));
    let mut a = arena();
    let mut acc = a.cst(Fr::zero());
    for (mono, c) in ks {
        let mut p = a.cst(*c);
        for (v, e) in mono {
            let b = if *e < 0 { a.inv(*v) } else { *v };
            for _ in 0..e.abs() {
                p = a.mul(p, b);
            }
        }
        acc = a.add(acc, p);
    }
    acc
}
