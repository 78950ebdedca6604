//! Fiat-Shamir: every challenge is bound to everything the prover chose before it.
use crate::circ::{self, Shape};
use crate::dse::{explore, Opts};
use crate::eqn::{free_verify, rebuild, scalar_str, point_str, symbolic_proof};
use crate::fw::{model_json, Out};
use crate::poly::subst;
use crate::prim::{basis, fe};
use crate::smt::{self, Env, Form, Res};
use crate::gadgets::Inst;
use amcl_wrapper::field_elem::{FieldElement, FieldElementVector};
use amcl_wrapper::group_elem_g1::{G1Vector, G1};
use bulletproofs_amcl::ipp::{InnerProductArgumentProof, IPP};
use merlin::Transcript;
use bulletproofs_amcl::r1cs::R1CSProof;
use serde_json::json;
use std::collections::HashMap;
use symcore::{arena, Fr, TEvent, TermId};

const FE_MAGIC: &[u8; 6] = b"\xFDSYMFE";
const G1_MAGIC: &[u8; 6] = b"\xFDSYMG1";
const GY_MAGIC: &[u8; 6] = b"\xFDSYMGY";

/// What a message determines about the scalars and points whose encodings it contains. A scalar counts when all of its
/// 32 significant bytes are there, a point when at least 32 bytes of x and 8 of y (or the compressed form's sign) are;
/// a point without y is known up to its sign: the products of its coordinates are.
pub fn contents(bytes: &[u8]) -> Vec<TermId> {
    let mut v = vec![];
    let mut i = 0;
    let whole = |at: usize, id: u32, n: usize| at + n <= bytes.len() && (10..n).all(|j| bytes[at + j] == symcore::filler(id, j));
    while i + 10 <= bytes.len() {
        let id = u32::from_be_bytes([bytes[i + 6], bytes[i + 7], bytes[i + 8], bytes[i + 9]]);
        if &bytes[i..i + 6] == FE_MAGIC {
            if whole(i, id, 32) {
                v.push(id);
            }
            i += 10;
        } else if &bytes[i..i + 6] == G1_MAGIC {
            let y = i + 48;
            let sign = i > 0 && (bytes[i - 1] == 2 || bytes[i - 1] == 3);
            let mut a = arena();
            if whole(i, id, 32) {
                let full = if y + 18 <= bytes.len() && &bytes[y..y + 6] == GY_MAGIC {
                    let id = u32::from_be_bytes([bytes[y + 6], bytes[y + 7], bytes[y + 8], bytes[y + 9]]);
                    if whole(y, id, 18) { Some(id) } else { None }
                } else if sign {
                    Some(id)
                } else {
                    None
                };
                let neg = sign && bytes[i - 1] == 3;
                let co: Vec<TermId> = a.points[full.unwrap_or(id) as usize].iter().map(|(_, t)| *t).collect();
                if full.is_some() {
                    for t in co {
                        let t = if neg { a.neg(t) } else { t };
                        v.push(t);
                    }
                } else {
                    for j in 0..co.len() {
                        for k in 0..j + 1 {
                            let t = a.mul(co[j], co[k]);
                            v.push(t);
                        }
                    }
                }
            }
            i += 10;
        } else {
            i += 1;
        }
    }
    v
}

/// the points whose encodings a message contains, in order
pub fn points(bytes: &[u8]) -> Vec<u32> {
    let id = |i: usize| u32::from_be_bytes([bytes[i + 6], bytes[i + 7], bytes[i + 8], bytes[i + 9]]);
    (0..bytes.len().saturating_sub(9)).filter(|i| &bytes[*i..*i + 6] == G1_MAGIC).map(|i| if i + 58 <= bytes.len() && &bytes[i + 48..i + 54] == GY_MAGIC { id(i + 48) } else { id(i) }).collect()
}
/// history of one transcript instance: challenges with what was absorbed before each
pub fn histories(tlog: &[(u32, TEvent)], inst: u32) -> Vec<(String, usize, TermId, Vec<TEvent>)> {
    let mut h = vec![];
    let mut out = vec![];
    for (i, e) in tlog {
        if *i != inst {
            continue;
        }
        if let TEvent::Challenge(l, len, t) = e {
            out.push((String::from_utf8_lossy(l).into_owned(), *len, *t, h.clone()));
        }
        h.push(e.clone());
    }
    out
}

/// (field, index of the first challenge that must depend on it)
fn deadlines(s: &Shape, np: usize) -> Vec<(String, usize)> {
    let p2 = if s.two_phase { 1 } else { 0 };
    let (y, x, w, r0) = (p2, p2 + 3, p2 + 4, p2 + 5);
    let mut v: Vec<(String, usize)> = vec![("pre".into(), 0)];
    for j in 0..s.m {
        v.push((format!("d_V{}", j), 0));
    }
    for f in ["A_I1", "A_O1", "S1"].iter() {
        v.push((format!("d_{}", f), 0));
    }
    for f in ["A_I2", "A_O2", "S2"].iter() {
        v.push((format!("d_{}", f), y));
    }
    for f in ["T_1", "T_3", "T_4", "T_5", "T_6"].iter() {
        v.push((format!("d_{}", f), x));
    }
    for f in ["t_x", "t_x_blinding", "e_blinding"].iter() {
        v.push((format!("PF_{}", f), w));
    }
    for k in 0..np.trailing_zeros() as usize {
        v.push((format!("d_L{}", k), r0 + k));
        v.push((format!("d_R{}", k), r0 + k));
    }
    v
}

fn run_verify(s: &Shape, scal: &dyn Fn(&str) -> FieldElement) -> Vec<Hist> {
    let np = s.n().next_power_of_two();
    let ps = explore(&Opts { free: true, max_paths: 64, ..Default::default() }, || {
        let gs = circ::gens(np);
        let comms: Vec<G1> = (0..s.m).map(|j| &basis(&format!("V{}", j)) * &scal(&format!("d_V{}", j))).collect();
        let mut v = serde_json::to_value(&symbolic_proof(np, "", false)).unwrap();
        rebuild(&mut v, "", None, &mut |name, pt| {
            if pt {
                point_str(&(&basis(&format!("PF_{}", name)) * &scal(&format!("d_{}", name))))
            } else {
                scalar_str(&scal(&format!("PF_{}", name)))
            }
        });
        let proof: R1CSProof = serde_json::from_value(v).unwrap();
        let pre = scal("pre").to_bytes();
        let _ = free_verify(s, &gs, &proof, &comms, Some(&pre));
    });
    ps.into_iter().filter(|p| p.result.is_ok()).map(|p| histories(&p.tlog, 0)).collect()
}

/// C03: two runs that agree on what was absorbed before a challenge agree on every field with an earlier deadline
pub fn binding(out: &mut Out, s: &Shape) {
    arena().hard_reset();
    let label = s.label();
    let np = s.n().next_power_of_two();
    let dl = deadlines(s, np);
    let want = 5 + (if s.two_phase { 1 } else { 0 }) + np.trailing_zeros() as usize;
    // points and scalars nobody forces to be special: the path on which the verification runs to its end
    let hs = run_verify(s, &|n| fe(n));
    out.paths += hs.len() as u64;
    let h = match hs.iter().find(|h| h.len() == want) {
        Some(h) => h.clone(),
        None => {
            out.unk(&format!("{}: {:?} challenges where {} are expected", label, hs.iter().map(|h| h.len()).collect::<Vec<_>>(), want));
            return;
        }
    };
    out.witnessed += 1;
    bind(out, &label, &h, &dl, &|vals| {
        run_verify(s, &|n| match vals.get(n) {
            Some(c) => { let t = arena().cst(*c); FieldElement::from_term(t) }
            None => fe(n),
        })
    });
}
type Hist = Vec<(String, usize, TermId, Vec<TEvent>)>;
/// challenge k of `h` determines every field whose deadline is at most k; `rerun` gives the histories for concrete fields
fn bind(out: &mut Out, label: &str, h: &Hist, dl: &[(String, usize)], rerun: &dyn Fn(&HashMap<String, Fr>) -> Vec<Hist>) {
    let fields: Vec<TermId> = dl.iter().map(|d| arena().var(&d.0)).collect();
    let primed: HashMap<TermId, TermId> = fields.iter().map(|t| { let mut a = arena(); let n = format!("{}'", a.name_of(*t).unwrap()); (*t, a.var(&n)) }).collect();
    for (k, (name, len, _, ev)) in h.iter().enumerate() {
        out.ob(*len >= 32);
        if *len < 32 {
            out.viol(&format!("{}: challenge {} has only {} bytes", label, name, len), json!({"kind": "shim", "what": format!("the transcript is asked for {} bytes for challenge {}: fewer than 2^128 challenges", len, name)}));
        }
        // equality of the two histories
        let mut absorbed: Vec<TermId> = vec![];
        for e in ev {
            if let TEvent::Append(_, b) = e {
                absorbed.extend(contents(b));
            }
        }
        let copy = subst(&absorbed, &primed);
        let same: Vec<Form> = absorbed.iter().zip(copy.iter()).map(|(a, b)| { let d = arena().sub(*a, *b); Form::Zero(d) }).collect();
        let due: Vec<usize> = (0..dl.len()).filter(|i| dl[*i].1 <= k).collect();
        let differs = Form::Or(due.iter().map(|i| { let d = arena().sub(fields[*i], primed[&fields[*i]]); Form::NonZero(d) }).collect());
        let mut q = same.clone();
        q.push(differs);
        match smt::solve(&q, 60) {
            Res::Unsat => out.ob(true),
            Res::Unknown(u) => {
                out.ob(false);
                out.unk(&format!("{}: challenge {}: {}", label, name, u));
            }
            Res::Sat(m) => {
                out.ob(false);
                // replay: the real verifier on both proofs, concretely
                let mut env = Env::new(m);
                let va: HashMap<String, Fr> = dl.iter().zip(&fields).map(|(d, t)| (d.0.clone(), env.eval(*t))).collect();
                let vb: HashMap<String, Fr> = dl.iter().zip(&fields).map(|(d, t)| (d.0.clone(), env.eval(primed[t]))).collect();
                let ch = |vals: &HashMap<String, Fr>| -> Option<(TermId, Vec<TermId>)> {
                    rerun(vals).into_iter().find(|h| h.len() > k).map(|h| (h[k].2, h.iter().map(|x| x.2).collect()))
                };
                let collide = |vb: &HashMap<String, Fr>| -> Option<Vec<String>> {
                    let diff: Vec<String> = due.iter().map(|i| dl[*i].0.clone()).filter(|f| va[f] != vb[f]).collect();
                    match (ch(&va), ch(vb)) {
                        (Some(a), Some(b)) if a.0 == b.0 && !diff.is_empty() => Some(diff),
                        _ => None,
                    }
                };
                let maybe: Vec<String> = due.iter().map(|i| dl[*i].0.clone()).filter(|f| va[f] != vb[f]).collect();
                // the solver's pair, then pairs that differ in one byte of one scalar or in the sign of one point
                let mut pairs = vec![vb.clone()];
                for f in &maybe {
                    let mut alt = vec![va[f].neg()];
                    if !f.starts_with("d_") {
                        let mut p = Fr::one();
                        for _ in 0..32 {
                            alt.push(va[f].add(&p));
                            p = p.mul(&Fr::from_u64(256));
                        }
                    }
                    for x in alt {
                        let mut w = va.clone();
                        w.insert(f.clone(), x);
                        pairs.push(w);
                    }
                }
                match pairs.iter().find_map(|w| collide(w).map(|d| (d, w))) {
                    Some((diff, w)) => {
                        out.viol(&format!("{}: challenge {} (number {}) does not depend on {}", label, name, k, diff.join(", ")), json!({"kind": "shim", "what": format!("two proofs that differ in {} get the same challenge {}", diff.join(", "), name), "first": model_json(&va), "second": model_json(w)}));
                        return;
                    }
                    None => out.unk(&format!("{}: challenge {} may not depend on {}", label, name, maybe.join(", "))),
                }
            }
        }
    }
}

/// C03: prover and verifier absorb the same messages in the same order, starting from the caller's transcript
pub fn same_log(out: &mut Out, s: &Shape) {
    arena().hard_reset();
    let label = s.label();
    let ps = explore(&Opts { free: true, ..Default::default() }, || {
        let gs = circ::gens(s.n().next_power_of_two());
        let pre = fe("pre").to_bytes();
        let (p, c) = circ::prove_pre(s, &gs, &pre).ok()?;
        let _ = circ::verify_pre(s, &gs, &p, &c, &pre);
        Some(())
    });
    for p in &ps {
        out.paths += 1;
        if p.result != Ok(Some(())) {
            continue;
        }
        let pick = |i: u32| -> Vec<TEvent> { p.tlog.iter().filter(|(k, _)| *k == i).map(|(_, e)| e.clone()).collect() };
        let (a, b) = (pick(0), pick(1));
        let ok = a == b && !a.is_empty() && p.tlog.iter().all(|(i, _)| *i < 2);
        out.ob(ok);
        if ok {
            out.witnessed += 1;
        } else {
            let k = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
            out.viol(&format!("{}: prover and verifier transcripts part at message {}", label, k), json!({"kind": "scenario", "scenario": "r1cs", "params": [s.m, s.n1, s.n2, s.q1, s.q2, s.two_phase as i64, s.alloc, s.dense as usize + 10 * (s.calls - 1), 0], "claim": "the honest proof is accepted", "model": {}}));
        }
    }
}

fn run_ipp(n: usize, scal: &dyn Fn(&str) -> FieldElement) -> Vec<Hist> {
    let ps = explore(&Opts { free: true, max_paths: 64, ..Default::default() }, || {
        let lg = n.trailing_zeros() as usize;
        let mut tr = Transcript::new(b"outer");
        tr.append_message(b"pre", &scal("pre").to_bytes());
        let pts = |p: &str| -> Vec<G1> { (0..n).map(|i| basis(&format!("{}{}", p, i))).collect() };
        let rounds = |p: &str| -> G1Vector { (0..lg).map(|k| &basis(&format!("PF_{}{}", p, k)) * &scal(&format!("d_{}{}", p, k))).collect::<Vec<G1>>().into() };
        let ones: FieldElementVector = vec![FieldElement::one(); n].into();
        let proof = InnerProductArgumentProof { L: rounds("L"), R: rounds("R"), a: fe("PF_a"), b: fe("PF_b") };
        let _ = IPP::verify_ipp(n, &mut tr, &ones, &ones, &basis("P"), &basis("Q"), &pts("G").into(), &pts("H").into(), &proof.a, &proof.b, &proof.L, &proof.R);
    });
    ps.into_iter().filter(|p| p.result.is_ok()).map(|p| histories(&p.tlog, 0)).collect()
}
/// C03: the inner product argument on its own
pub fn ipp_binding(out: &mut Out, n: usize) {
    arena().hard_reset();
    let lg = n.trailing_zeros() as usize;
    let mut dl: Vec<(String, usize)> = vec![("pre".into(), 0)];
    for k in 0..lg {
        dl.push((format!("d_L{}", k), k));
        dl.push((format!("d_R{}", k), k));
    }
    let label = format!("inner product argument of size {}", n);
    let hs = run_ipp(n, &|x| fe(x));
    out.paths += hs.len() as u64;
    match hs.iter().find(|h| h.len() == lg) {
        None => out.unk(&format!("{}: unexpected challenges", label)),
        Some(h) => {
            out.witnessed += 1;
            let h = h.clone();
            bind(out, &label, &h, &dl, &|vals| {
                run_ipp(n, &|x| match vals.get(x) {
                    Some(c) => { let t = arena().cst(*c); FieldElement::from_term(t) }
                    None => fe(x),
                })
            });
        }
    }
    // a different size, a different statement
    if n > 1 {
        let other = run_ipp(n * 2, &|x| fe(x));
        let first = |hs: &[Hist]| hs.iter().filter_map(|h| h.first().map(|c| c.3.iter().filter_map(|e| if let TEvent::Append(l, b) = e { Some((l.clone(), b.clone())) } else { None }).collect::<Vec<_>>())).next();
        let differ = first(&hs).is_some() && first(&hs) != first(&other);
        out.ob(differ);
        if !differ {
            out.viol(&format!("{}: the first challenge does not depend on the size", label), json!({"kind": "shim", "what": "sizes n and 2n get the same first challenge"}));
        }
    }
    // prover and verifier
    arena().hard_reset();
    let ps = explore(&Opts { free: true, ..Default::default() }, || {
        let pts = |p: &str| -> G1Vector { (0..n).map(|i| basis(&format!("{}{}", p, i))).collect::<Vec<G1>>().into() };
        let sc = |p: &str| -> FieldElementVector { (0..n).map(|i| fe(&format!("{}{}", p, i))).collect::<Vec<FieldElement>>().into() };
        let mut t1 = Transcript::new(b"outer");
        t1.append_message(b"pre", &fe("pre").to_bytes());
        let p = IPP::create_ipp(&mut t1, &basis("Q"), &sc("gf"), &sc("hf"), &pts("G"), &pts("H"), &sc("a"), &sc("b"));
        let mut t2 = Transcript::new(b"outer");
        t2.append_message(b"pre", &fe("pre").to_bytes());
        let _ = IPP::verify_ipp(n, &mut t2, &sc("gf"), &sc("hf"), &basis("P"), &basis("Q"), &pts("G"), &pts("H"), &p.a, &p.b, &p.L, &p.R);
    });
    compare(out, &label, &ps, json!({"kind": "scenario", "scenario": "ipp", "params": [n, 0], "model": {}}));
}
/// the two transcripts of a run
fn compare<T>(out: &mut Out, label: &str, ps: &[crate::dse::Path<T>], replay: serde_json::Value) {
    for p in ps {
        out.paths += 1;
        if p.result.is_err() {
            continue;
        }
        let pick = |i: u32| -> Vec<TEvent> { p.tlog.iter().filter(|(k, _)| *k == i).map(|(_, e)| e.clone()).collect() };
        let (a, b) = (pick(0), pick(1));
        let ok = a == b && !a.is_empty();
        out.ob(ok);
        if ok {
            out.witnessed += 1;
        } else {
            let k = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
            out.viol(&format!("{}: prover and verifier transcripts part at message {}", label, k), replay.clone());
        }
    }
}
/// C03: a gadget's prover and verifier use the transcript the caller's label stands for
pub fn gadget_label(out: &mut Out, i: &Inst) {
    arena().hard_reset();
    let assume = crate::gad::hypotheses(i);
    let mut logs = vec![];
    for label in vec![&b"one label"[..], &b"another label"[..], &b""[..]] {
        let ps = explore(&Opts { free: true, assume: assume.clone(), ..Default::default() }, || {
            let s = i.secret();
            let q = i.honest(&s);
            let gs = i.gens();
            let (p, c) = i.prove_as(&s, &q, &gs, label).ok()?;
            let _ = i.verify_as(&q, p, c, &gs, label);
            Some(())
        });
        compare(out, &i.label(), &ps, json!({"kind": "scenario", "scenario": format!("complete:{}", i.kind), "params": i.p, "model": {}}));
        // what precedes the first challenge
        let p = match ps.iter().find(|p| p.result == Ok(Some(()))) {
            Some(p) => p,
            None => {
                out.unk(&format!("{}: no proof", i.label()));
                return;
            }
        };
        for t in 0..2 {
            let l: Vec<TEvent> = p.tlog.iter().filter(|(k, _)| *k == t).map(|(_, e)| e.clone()).take_while(|e| if let TEvent::Challenge(..) = e { false } else { true }).filter(|e| if let TEvent::Append(l, _) = e { l != b"V" } else { true }).collect();
            logs.push((t, String::from_utf8_lossy(label).into_owned(), l));
        }
    }
    for a in 0..logs.len() {
        for b in 0..a {
            let ok = logs[a].0 != logs[b].0 || logs[a].1 == logs[b].1 || logs[a].2[..3.min(logs[a].2.len())] != logs[b].2[..3.min(logs[b].2.len())];
            out.ob(ok);
            if !ok {
                out.viol(&format!("{}: the transcript does not depend on the caller's label", i.label()), json!({"kind": "shim", "what": format!("labels {:?} and {:?} give the same {} transcript", logs[a].1, logs[b].1, if logs[a].0 == 0 { "prover" } else { "verifier" })}));
                return;
            }
        }
    }
}

/// C21: challenges derived by hashing
fn run_challenges(inputs: usize, n: usize, scal: &dyn Fn(&str) -> FieldElement) -> Vec<Hist> {
    let ps = explore(&Opts { free: true, max_paths: 16, ..Default::default() }, || {
        let pts: Vec<G1> = (0..inputs).map(|i| &basis(&format!("I{}", i)) * &scal(&format!("d_{}", i))).collect();
        let mut state = scal("pre").to_bytes();
        let r = bulletproofs_amcl::utils::gen_challenges(&pts.iter().collect::<Vec<_>>(), &mut state, n);
        r.iter().map(|x| x.term()).collect::<Vec<TermId>>()
    });
    ps.into_iter()
        .filter_map(|p| p.result.ok())
        .map(|r| {
            r.iter()
                .map(|t| {
                    let name = arena().name_of(*t).map(|s| s.to_string()).unwrap_or_default();
                    let hex = name.trim_start_matches("H_");
                    let bytes: Vec<u8> = (0..hex.len() / 2).filter_map(|k| u8::from_str_radix(&hex[2 * k..2 * k + 2], 16).ok()).collect();
                    (name.chars().take(8).collect(), 48, *t, vec![TEvent::Append(vec![], bytes)])
                })
                .collect()
        })
        .collect()
}
pub fn challenges(out: &mut Out, inputs: usize, n: usize) {
    arena().hard_reset();
    let mut dl: Vec<(String, usize)> = vec![("pre".into(), 0)];
    for k in 0..inputs {
        dl.push((format!("d_{}", k), 0));
    }
    let label = format!("{} challenges from {} points", n, inputs);
    let hs = run_challenges(inputs, n, &|x| fe(x));
    for h in &hs {
        out.paths += 1;
        let distinct = h.len() == n && (0..n).all(|a| (0..a).all(|b| h[a].2 != h[b].2 && h[a].3 != h[b].3));
        out.ob(distinct);
        if !distinct {
            out.viol(&format!("{}: as many different ones as asked for", label), json!({"kind": "scenario", "scenario": "challenges", "params": [inputs, n], "model": {}}));
            return;
        }
        out.witnessed += 1;
        bind(out, &label, h, &dl, &|vals| {
            run_challenges(inputs, n, &|x| match vals.get(x) {
                Some(c) => { let t = arena().cst(*c); FieldElement::from_term(t) }
                None => fe(x),
            })
        });
    }
}
/// C21: no linear relation between the generators
pub fn generators(out: &mut Out, n: usize) {
    arena().hard_reset();
    let mut pts: Vec<G1> = vec![];
    for p in ["g", "h", "G", "H"].iter() {
        pts.extend(bulletproofs_amcl::utils::get_generators(p, n));
    }
    out.paths += 1;
    let lam: Vec<TermId> = (0..pts.len()).map(|i| arena().var(&format!("lambda{}", i))).collect();
    let mut by: std::collections::BTreeMap<u32, TermId> = Default::default();
    for (p, l) in pts.iter().zip(&lam) {
        let cs = arena().points[p.point_id() as usize].clone();
        for (b, t) in cs {
            let m = arena().mul(*l, t);
            let z = arena().cst(Fr::zero());
            let old = by.get(&b).cloned().unwrap_or(z);
            let s = arena().add(old, m);
            by.insert(b, s);
        }
    }
    let mut q: Vec<Form> = by.values().map(|t| Form::Zero(*t)).collect();
    q.push(Form::Or(lam.iter().map(|t| Form::NonZero(*t)).collect()));
    let replay = json!({"kind": "scenario", "scenario": "generators", "params": [n], "model": {}});
    out.ob(pts.len() == 4 * n);
    if pts.len() != 4 * n {
        out.viol(&format!("{} generators: as many as asked for", n), replay);
        return;
    }
    match smt::solve(&q, 60) {
        Res::Unsat => {
            out.ob(true);
            out.witnessed += 1;
        }
        Res::Sat(_) => {
            out.ob(false);
            out.viol(&format!("{} generators of four families have a linear relation", n), replay);
        }
        Res::Unknown(u) => {
            out.ob(false);
            out.unk(&format!("{} generators: {}", n, u));
        }
    }
}
