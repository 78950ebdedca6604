//! The properties: units of symbolic work per property and tier.
use crate::fw::{scenario, unit, Unit};
use crate::scen::scn;

pub fn units(prop: &str, tier: &str) -> Vec<Unit> {
    match prop {
        "C01" => c01(tier == "thorough"),
        "C02" => c02(tier == "thorough"),
        "C05" => c05(tier == "thorough"),
        "C06" => c06(tier == "thorough"),
        "C07" => c07(tier == "thorough"),
        "C08" => c08(tier == "thorough"),
        "C03" => c03(tier == "thorough"),
        "C09" => c09(tier == "thorough"),
        "C04" => c04(tier == "thorough"),
        "C10" => crate::gprops::c10(tier == "thorough"),
        "C11" => crate::gprops::c11(tier == "thorough"),
        "C12" => crate::gprops::c12(tier == "thorough"),
        "C13" => crate::gprops::c13(tier == "thorough"),
        "C14" => crate::gprops::c14(tier == "thorough"),
        "C15" => crate::gprops::c15(tier == "thorough"),
        "C16" => crate::gprops::c16(tier == "thorough"),
        "C17" => crate::gprops::c17(tier == "thorough"),
        "C18" => crate::gprops::c18(tier == "thorough"),
        "C19" => crate::gprops::c19(tier == "thorough"),
        "C21" => c21(tier == "thorough"),
        "C20" => crate::gprops::c20(tier == "thorough"),
        _ => vec![],
    }
}

/// one unit per chunk of scenarios
fn chunks(name: &str, kind: &'static str, all: Vec<Vec<i64>>, per: usize) -> Vec<Unit> {
    let n = (all.len() + per - 1) / per;
    (0..n)
        .map(|k| {
            // strided, so that the units are balanced
            let part: Vec<Vec<i64>> = all.iter().skip(k).step_by(n).cloned().collect();
            unit(&format!("{} {}/{} ({} scenarios)", name, k + 1, n, part.len()), move |o| {
                for p in &part {
                    scenario(o, &scn(kind, p));
                }
            })
        })
        .collect()
}

/// (committed, multipliers in each phase, rows in each phase)
fn bigger(deep: bool) -> Vec<(usize, usize, usize, usize, usize)> {
    let mut v = vec![(6, 8, 0, 5, 0), (5, 9, 3, 4, 3), (0, 16, 0, 1, 0), (3, 17, 0, 2, 0), (1, 5, 12, 1, 2), (8, 1, 0, 9, 0), (7, 0, 1, 0, 8), (2, 33, 0, 1, 0), (1, 65, 0, 1, 0), (1, 20, 80, 1, 1), (1, 129, 0, 1, 0), (1, 200, 57, 1, 1), (1, 513, 0, 1, 0), (1, 1, 300, 1, 1)];
    if deep {
        v.extend(vec![(4, 32, 32, 2, 2), (1, 64, 1, 1, 1), (12, 20, 20, 6, 6), (3, 1000, 100, 2, 2)]);
    }
    v
}

/// many rows, many commitments, several callbacks: (committed, multipliers in each phase, rows in each phase, dense, callbacks)
fn wide(deep: bool) -> Vec<(usize, usize, usize, usize, usize, u8, usize)> {
    let mut v = vec![
        (1, 1, 0, 40, 0, 2, 1), (2, 2, 0, 70, 0, 2, 1), (1, 3, 0, 130, 0, 0, 1), (1, 1, 1, 1, 140, 2, 1), (2, 1, 0, 270, 0, 2, 1),
        (17, 1, 0, 2, 0, 1, 1), (33, 2, 0, 2, 0, 1, 1), (70, 1, 0, 3, 0, 0, 1), (130, 1, 1, 1, 2, 0, 1), (260, 1, 0, 1, 0, 1, 1),
        (2, 2, 2, 1, 2, 1, 2), (1, 1, 3, 1, 3, 1, 3), (1, 0, 4, 0, 4, 1, 4), (2, 3, 5, 1, 5, 0, 5), (1, 2, 0, 1, 2, 1, 2), (2, 1, 1, 2, 6, 1, 6), (1, 0, 3, 1, 9, 3, 9), (1, 1, 17, 1, 17, 0, 17),
    ];
    if deep {
        v.extend(vec![(3, 2, 0, 1030, 0, 2, 1), (1030, 1, 0, 1, 0, 0, 1), (1, 1, 33, 1, 40, 0, 33), (300, 1, 2, 150, 150, 2, 3)]);
    }
    v
}
fn wide_shape((m, n1, n2, q1, q2, dense, calls): (usize, usize, usize, usize, usize, u8, usize), alloc: u8) -> crate::circ::Shape {
    crate::circ::Shape { m, n1, n2, q1, q2, two_phase: n2 + q2 > 0, alloc, dense, calls }
}

fn c02(deep: bool) -> Vec<Unit> {
    let mut v = vec![];
    let lim = if deep { 9 } else { 6 };
    for n1 in 0..=lim {
        for n2 in 0..=(lim - n1) {
            for q in 0..2usize {
                let two = n2 > 0 || (q == 1 && n1 % 2 == 0);
                let s = crate::circ::Shape { m: 1 + (n1 + n2 + q) % 3, n1, n2, q1: q + 1, q2: if two { 2 - q } else { 0 }, two_phase: two, alloc: 0, dense: 1, calls: 1 };
                v.push(unit(&format!("equation {}", s.label()), move |o| crate::eqn::r1cs_equation(o, &s)));
            }
        }
    }
    // proofs and commitments with points that are the identity
    let sets: Vec<Vec<&'static str>> = vec![
        vec!["PF_A_I2", "PF_A_O2", "PF_S2"], vec!["PF_A_I2"], vec!["PF_A_O2"], vec!["PF_S2"], vec!["PF_A_I1", "PF_A_O1", "PF_S1"], vec!["PF_A_I1"], vec!["PF_A_O1"], vec!["PF_S1"],
        vec!["PF_T_1"], vec!["PF_T_3"], vec!["PF_T_4"], vec!["PF_T_5"], vec!["PF_T_6"], vec!["PF_T_4", "PF_T_5", "PF_T_6"], vec!["PF_L0"], vec!["PF_R0"], vec!["PF_L0", "PF_R0"], vec!["V0"], vec!["V0", "V1"],
    ];
    for (k, ids) in sets.into_iter().enumerate() {
        for (m, n1, n2, q1, q2) in vec![(2, 2, 0, 2, 0), (2, 1, 2, 1, 2), (2, 1, 0, 1, 0)] {
            if k % 3 != 0 && n1 + n2 == 1 && !deep {
                continue;
            }
            let s = crate::circ::Shape { m, n1, n2, q1, q2, two_phase: n2 + q2 > 0, alloc: 0, dense: 1, calls: 1 };
            let ids = ids.clone();
            v.push(unit(&format!("equation {} identity={}", s.label(), ids.join(",")), move |o| crate::eqn::r1cs_equation_with(o, &s, &ids)));
        }
    }
    // rows with one variable, repeated variables, windows
    for dense in [0u8, 2, 3].iter().cloned() {
        for (m, n1, n2, q1, q2) in vec![(1, 0, 0, 3, 0), (2, 1, 0, 4, 0), (2, 2, 0, 7, 0), (1, 2, 1, 4, 4), (2, 3, 2, 6, 6), (3, 0, 2, 3, 9)] {
            let s = crate::circ::Shape { m, n1, n2, q1, q2, two_phase: n2 + q2 > 0, alloc: 0, dense, calls: 1 };
            v.push(unit(&format!("equation {}", s.label()), move |o| crate::eqn::r1cs_equation(o, &s)));
        }
    }
    for (m, n1, n2, q1, q2) in bigger(deep) {
        let s = crate::circ::Shape { m, n1, n2, q1, q2, two_phase: n2 + q2 > 0, alloc: 0, dense: 1, calls: 1 };
        v.push(unit(&format!("equation {}", s.label()), move |o| crate::eqn::r1cs_equation(o, &s)));
    }
    for w in wide(deep) {
        let s = wide_shape(w, 0);
        v.push(unit(&format!("equation {}", s.label()), move |o| crate::eqn::r1cs_equation(o, &s)));
    }
    v
}

fn c03(deep: bool) -> Vec<Unit> {
    let mut v = vec![];
    let lim = if deep { 9 } else { 5 };
    for n1 in 0..=lim {
        for n2 in 0..=(lim - n1) {
            for two in 0..2usize {
                if n2 > 0 && two == 0 {
                    continue;
                }
                let s = crate::circ::Shape { m: (n1 + n2 + two) % 4, n1, n2, q1: 1, q2: two, two_phase: two == 1, alloc: 0, dense: 1, calls: 1 };
                let s2 = s.clone();
                v.push(unit(&format!("binding {}", s.label()), move |o| crate::fs::binding(o, &s)));
                v.push(unit(&format!("transcripts {}", s2.label()), move |o| crate::fs::same_log(o, &s2)));
            }
        }
    }
    for (m, n1, n2, q1, q2) in bigger(deep) {
        let s = crate::circ::Shape { m, n1, n2, q1, q2, two_phase: n2 + q2 > 0, alloc: 0, dense: 1, calls: 1 };
        v.push(unit(&format!("binding {}", s.label()), move |o| crate::fs::binding(o, &s)));
    }
    for w in wide(deep) {
        let s = wide_shape(w, 0);
        let s2 = s.clone();
        v.push(unit(&format!("binding {}", s.label()), move |o| crate::fs::binding(o, &s)));
        v.push(unit(&format!("transcripts {}", s2.label()), move |o| crate::fs::same_log(o, &s2)));
    }
    for n in if deep { vec![1usize, 2, 4, 8, 16, 32] } else { vec![1usize, 2, 4, 8, 16] } {
        v.push(unit(&format!("inner product argument {}", n), move |o| crate::fs::ipp_binding(o, n)));
    }
    for (kind, p) in crate::gprops::small() {
        let g = crate::gadgets::inst(kind, &p);
        v.push(unit(&format!("label of {}", g.label()), move |o| crate::fs::gadget_label(o, &g)));
    }
    v
}

fn c09(deep: bool) -> Vec<Unit> {
    let mut v = vec![];
    let lim = if deep { 10 } else { 6 };
    for n1 in 0..=lim {
        for n2 in 0..=(lim - n1) {
            for alloc in 0..2u8 {
                let two = n2 > 0 || (alloc == 1 && n1 == 1);
                let s = crate::circ::Shape { m: 1 + (n1 + n2) % 2, n1, n2, q1: 1, q2: if two { 1 } else { 0 }, two_phase: two, alloc, dense: 1, calls: 1 };
                v.push(unit(&format!("masks {}", s.label()), move |o| crate::hide::masks(o, &s)));
            }
        }
    }
    for (m, n1, n2, q1, q2) in bigger(deep) {
        let s = crate::circ::Shape { m, n1, n2, q1, q2, two_phase: n2 + q2 > 0, alloc: 0, dense: 0, calls: 1 };
        v.push(unit(&format!("masks {}", s.label()), move |o| crate::hide::masks(o, &s)));
    }
    for w in wide(deep) {
        let s = wide_shape(w, 0);
        v.push(unit(&format!("masks {}", s.label()), move |o| crate::hide::masks(o, &s)));
    }
    for (kind, p) in crate::gprops::small() {
        let g = crate::gadgets::inst(kind, &p);
        v.push(unit(&format!("commitments of {}", g.label()), move |o| crate::hide::gadget(o, &g)));
    }
    v
}

fn c05(deep: bool) -> Vec<Unit> {
    let mut v = vec![];
    for n in if deep { vec![1usize, 2, 4, 8, 16, 32, 64, 128, 256, 512] } else { vec![1, 2, 4, 8, 16, 32, 64, 128] } {
        v.push(unit(&format!("ipp equation n={}", n), move |o| crate::eqn::ipp_equation(o, n)));
    }
    let ns: Vec<i64> = if deep { vec![1, 2, 4, 8, 16, 32, 64, 128, 256] } else { vec![1, 2, 4, 8, 16, 32, 64, 128] };
    for n in ns {
        for k in 0..2 {
            v.push(unit(&format!("ipp n={} factors={}", n, k), move |o| scenario(o, &scn("ipp", &[n, k]))));
        }
    }
    let mut bad = vec![];
    for n in [1, 2, 4, 8].iter() {
        bad.push(vec![*n, 0, 0]);
        bad.push(vec![*n, 3, 0]);
        for k in 0..*n {
            bad.push(vec![*n, 1, k]);
            bad.push(vec![*n, 2, k]);
        }
    }
    v.extend(chunks("ipp rejects", "ipp_bad", bad, 5));
    v
}

fn seqs(alphabet: &[i64], len: usize) -> Vec<Vec<i64>> {
    let mut cur: Vec<Vec<i64>> = vec![vec![]];
    for _ in 0..len {
        let mut next = vec![];
        for s in &cur {
            for a in alphabet {
                let mut t = s.clone();
                t.push(*a);
                next.push(t);
            }
        }
        cur = next;
    }
    cur
}

fn c06(deep: bool) -> Vec<Unit> {
    let mut v = vec![];
    let mut all: Vec<Vec<i64>> = vec![];
    let max = if deep { 4 } else { 3 };
    for len in 1..=max {
        for s in seqs(&[1, 2, 3, 4, 5], len) {
            // one phase
            all.push([vec![-1, 1], s.clone()].concat());
            // second phase starting at every position
            for cut in 0..=len {
                let mut t = s.clone();
                t.insert(cut, 6);
                all.push([vec![-1, 1], t].concat());
            }
        }
    }
    for s in [vec![6, 7], vec![1, 6, 7, 2], vec![3, 6, 3, 7, 4], vec![6, 7, 7, 1]].iter() {
        all.push([vec![-1, 2], s.clone()].concat());
    }
    v.extend(chunks("histories", "hist", all, if deep { 120 } else { 45 }));
    // longer ones
    let mut long: Vec<Vec<i64>> = vec![];
    let mut x = 12345u64;
    for len in (5..=(if deep { 24 } else { 16 })).chain(vec![32, 33]) {
        for k in 0..4usize {
            let mut t: Vec<i64> = (0..len).map(|_| { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); 1 + (x >> 33) as i64 % 5 }).collect();
            if k > 0 {
                t.insert(len * k / 4, 6);
            }
            if len < 20 || k < 2 {
                long.push([vec![-1, 1 + (len % 3) as i64], t].concat());
            }
        }
    }
    v.extend(chunks("long histories", "hist", long, 2));
    // teeth: every variable really is the wire it claims to be
    let mut teeth: Vec<Vec<i64>> = vec![];
    for len in 1..=3 {
        for (n, s) in seqs(&[1, 2, 3, 4], len).into_iter().enumerate() {
            if len == 3 && n % 4 != 1 && !deep {
                continue;
            }
            for cut in 0..=len + 1 {
                let mut t = s.clone();
                if cut <= len {
                    t.insert(cut, 6);
                }
                for k in 0..(1 + 3 * len as i64) {
                    teeth.push([vec![k, 1], t.clone()].concat());
                }
            }
        }
    }
    v.extend(chunks("violated constraints", "hist", teeth, if deep { 150 } else { 45 }));
    v.push(unit("missing assignments", |o| {
        for op in 1..4 {
            for pre in 0..2 {
                scenario(o, &scn("missing", &[op, pre]));
            }
        }
    }));
    v
}

fn c07(deep: bool) -> Vec<Unit> {
    let mut v = vec![];
    let ops: Vec<i64> = (0..crate::scen::LC_OPS).collect();
    let mut all = vec![];
    for len in 1..=(if deep { 4 } else { 3 }) {
        all.extend(seqs(&ops, len).into_iter().enumerate().filter(|(i, _)| len < 4 || i % 7 == 3).map(|(_, s)| s));
    }
    v.extend(chunks("operation sequences", "lc", all, if deep { 1500 } else { 700 }));
    let mut dup = vec![];
    for len in 0..=(if deep { 5 } else { 4 }) {
        dup.extend(seqs(&[0, 2, 3, 6], len));
    }
    v.extend(chunks("simplify", "lc_simplify", dup, 100));
    // longer ones
    let mut x = 777u64;
    let mut next = |m: u64| { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((x >> 33) % m) as i64 };
    let mut long = vec![];
    for len in 4..=40 {
        for _ in 0..4 {
            long.push((0..len).map(|_| next(crate::scen::LC_OPS as u64)).map(|o| if o == 20 || o < 2 { 5 } else { o }).collect::<Vec<i64>>());
        }
    }
    v.extend(chunks("long operation sequences", "lc", long, 12));
    let mut long = vec![];
    for len in 5..=40 {
        for m in vec![2u64, 4, 7] {
            long.push((0..len).map(|_| next(m)).collect::<Vec<i64>>());
        }
    }
    v.extend(chunks("simplify long", "lc_simplify", long, 12));
    v
}

fn c08(deep: bool) -> Vec<Unit> {
    (0..=(if deep { 24 } else { 12 })).chain(vec![16, 17, 24]).map(|n| unit(&format!("vectors of length {}", n), move |o| scenario(o, &scn("poly", &[n])))).collect()
}

fn c04(deep: bool) -> Vec<Unit> {
    let mut v = vec![];
    let shapes: Vec<Vec<i64>> = vec![vec![1, 0, 0, 1, 0, 0, 0, 1], vec![1, 1, 0, 1, 0, 0, 0, 1], vec![1, 2, 0, 1, 0, 0, 0, 1], vec![1, 3, 0, 1, 0, 0, 0, 1], vec![1, 2, 2, 1, 1, 1, 0, 1], vec![1, 0, 3, 0, 1, 1, 0, 1], vec![1, 5, 0, 1, 0, 0, 0, 1]];
    let mut lens = vec![];
    for s in &shapes {
        for l in 0..=(if deep { 7 } else { 5 }) {
            for r in 0..=(if deep { 7 } else { 5 }) {
                lens.push([s.clone(), vec![l, r]].concat());
            }
        }
        for big in [31i64, 32, 33, 63, 64, 65, 70].iter() {
            lens.push([s.clone(), vec![*big, *big]].concat());
        }
    }
    v.extend(chunks("L and R lengths", "bad_ipp_len", lens, 40));
    let mut gl = vec![];
    for s in &shapes {
        let n = ((s[1] + s[2]) as usize).next_power_of_two() as i64;
        for a in 0..=n + 1 {
            for b in 0..=n + 1 {
                if a < n || b < n {
                    gl.push([s.clone(), vec![a, b, 0, 0]].concat());
                } else {
                    for c in 0..=n + 1 {
                        for d in 0..=n + 1 {
                            if n > 4 && (c + d) % 3 != 0 && !deep {
                                continue;
                            }
                            gl.push([s.clone(), vec![a, b, c, d]].concat());
                        }
                    }
                }
            }
        }
    }
    v.extend(chunks("generator counts", "bad_gens", gl, 60));
    crate::gprops::c04_gadgets(&mut v);
    v
}

fn c01(deep: bool) -> Vec<Unit> {
    let mut v = vec![];
    let lim = if deep { 9 } else { 5 };
    // every split of up to lim multipliers over the phases, dense rows; serialised on the way in half of them
    for alloc in 0..4i64 {
        for n1 in 0..=lim {
            for n2 in 0..=(lim - n1) {
                let two = if n2 > 0 || (alloc == 2 && n1 % 2 == 1) { 1 } else { 0 };
                let mut p = vec![(1 + n1 + alloc) % 3, n1, n2, (1 + n1) % 3, if two == 1 { 1 + n2 % 2 } else { 0 }, two, alloc, 1, alloc % 2];
                if (n1 + n2 + alloc) % 2 == 0 {
                    p.push(1);
                }
                v.push(unit(&format!("r1cs {:?}", p), move |o| scenario(o, &scn("r1cs", &p))));
            }
        }
    }
    // rows with one variable, repeated variables, empty rows
    for dense in 2..5i64 {
        for alloc in 0..2i64 {
            for p in vec![vec![1, 0, 0, 3, 0, 0], vec![2, 1, 0, 4, 0, 0], vec![2, 2, 0, 7, 0, 0], vec![1, 2, 1, 4, 4, 1], vec![2, 3, 2, 6, 6, 1], vec![3, 0, 2, 3, 9, 1]] {
                let p = [p, vec![alloc, dense, 0]].concat();
                v.push(unit(&format!("r1cs {:?}", p), move |o| scenario(o, &scn("r1cs", &p))));
            }
        }
    }
    // larger circuits at, below and above powers of two
    let mut big: Vec<(i64, i64)> = vec![(7, 0), (8, 0), (9, 0), (15, 0), (16, 0), (17, 0), (4, 4), (8, 1), (1, 8), (8, 8), (16, 1), (3, 14), (31, 0), (32, 0), (33, 0), (20, 13), (64, 0), (65, 0), (40, 25)];
    if deep {
        big.extend(vec![(63, 0), (1, 64), (100, 0), (128, 0), (129, 0)]);
    }
    for (k, (n1, n2)) in big.into_iter().enumerate() {
        let two = if n2 > 0 { 1 } else { 0 };
        let p = vec![2, n1, n2, 2, two, two, (k % 4) as i64, 0, (k % 3) as i64, 1];
        v.push(unit(&format!("r1cs {:?}", p), move |o| scenario(o, &scn("r1cs", &p))));
    }
    for (k, (m, n1, n2, q1, q2, dense, calls)) in wide(deep).into_iter().enumerate() {
        let p = vec![m as i64, n1 as i64, n2 as i64, q1 as i64, q2 as i64, (n2 + q2 > 0) as i64, (k % 4) as i64, dense as i64 + 10 * (calls as i64 - 1), 0, 1];
        v.push(unit(&format!("r1cs {:?}", p), move |o| scenario(o, &scn("r1cs", &p))));
    }
    v
}

fn c21(deep: bool) -> Vec<Unit> {
    let mut v = vec![];
    for n in if deep { vec![1usize, 2, 9, 16, 100, 257, 1000] } else { vec![1usize, 2, 9, 16, 100, 257] } {
        v.push(unit(&format!("independence of {} generators", n), move |o| crate::fs::generators(o, n)));
    }
    for n in if deep { vec![0i64, 1, 64, 300, 1100, 4096] } else { vec![0i64, 1, 64, 300, 1100] } {
        v.push(unit(&format!("{} generators", n), move |o| scenario(o, &scn("generators", &[n]))));
    }
    for i in (0..7).chain(vec![9usize, 17, 33, 70]) {
        for n in if i < 7 || deep { vec![1usize, 2, 3, 5, 9, 33] } else { vec![1, 2, 9] } {
            v.push(unit(&format!("chain of {} challenges from {} points", n, i), move |o| scenario(o, &scn("challenges", &[i as i64, n as i64]))));
            v.push(unit(&format!("{} challenges from {} points", n, i), move |o| crate::fs::challenges(o, i, n)));
        }
    }
    v
}
