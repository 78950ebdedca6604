//! Units of the gadget properties.
use crate::fw::{unit, Unit};
use crate::gad;
use crate::gadgets::inst;
use crate::scen::scn;

/// prove a true statement, verify it
fn complete(v: &mut Vec<Unit>, kind: &str, ps: Vec<Vec<i64>>, per: usize) {
    run(v, "complete", kind, ps, per)
}
pub fn run(v: &mut Vec<Unit>, what: &'static str, kind: &str, ps: Vec<Vec<i64>>, per: usize) {
    let n = (ps.len() + per - 1) / per;
    for k in 0..n {
        let part: Vec<Vec<i64>> = ps.iter().skip(k).step_by(n).cloned().collect();
        let kind = kind.to_string();
        let name = if part.len() == 1 { format!("{} {} {:?}", what, kind, part[0]) } else { format!("{} {} {}/{} ({} instances)", what, kind, k + 1, n, part.len()) };
        v.push(unit(&name, move |o| {
            for p in &part {
                gad::scenario(o, &scn(&format!("{}:{}", what, kind), p));
            }
        }));
    }
}
fn sound(v: &mut Vec<Unit>, kind: &str, ps: Vec<Vec<i64>>, per: usize) {
    let n = (ps.len() + per - 1) / per;
    for k in 0..n {
        let part: Vec<Vec<i64>> = ps.iter().skip(k).step_by(n).cloned().collect();
        let kind = kind.to_string();
        let name = if part.len() == 1 { format!("soundness {} {:?}", kind, part[0]) } else { format!("soundness {} {}/{} ({} instances)", kind, k + 1, n, part.len()) };
        v.push(unit(&name, move |o| {
            for p in &part {
                crate::sound::gadget(o, &inst(&kind, p));
            }
        }));
    }
}
/// the honest prover's values satisfy the verifier's system
fn witness(v: &mut Vec<Unit>, kind: &str, ps: Vec<Vec<i64>>, per: usize) {
    let n = (ps.len() + per - 1) / per;
    for k in 0..n {
        let part: Vec<Vec<i64>> = ps.iter().skip(k).step_by(n).cloned().collect();
        let kind = kind.to_string();
        let name = if part.len() == 1 { format!("witness {} {:?}", kind, part[0]) } else { format!("witness {} {}/{} ({} instances)", kind, k + 1, n, part.len()) };
        v.push(unit(&name, move |o| {
            for p in &part {
                crate::witness::gadget(o, &inst(&kind, p));
            }
        }));
    }
}
fn cat(a: &[i64], b: &[i64]) -> Vec<i64> {
    [a, b].concat()
}

pub fn c10(deep: bool) -> Vec<Unit> {
    let mut v = vec![];
    let top = u64::max_value() as i64;
    let mut widths: Vec<i64> = vec![1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 32, 33, 58, 63, 64];
    if deep {
        widths = (1..=64).collect();
    }
    let mut all: Vec<Vec<i64>> = vec![];
    for bits in widths.iter().cloned() {
        // the largest range for this many bits, at both ends and in the middle, from zero and shifted
        let span: u64 = if bits == 64 { u64::max_value() } else { (1u64 << bits) - 1 };
        let mut lows = vec![0u64];
        if bits < 64 {
            lows.push(1);
            lows.push(u64::max_value() - span);
        }
        for lo in lows {
            let hi = lo + span;
            for val in vec![lo, hi, lo + span / 2, hi - span / 3] {
                all.push(vec![val as i64, lo as i64, hi as i64, bits, ((val ^ bits as u64) & 1) as i64]);
            }
        }
    }
    // narrow ranges with more bits than needed, limb boundaries, equal bounds
    for (val, lo, hi, bits) in vec![(5, 5, 5, 1), (5, 5, 5, 8), (0, 0, 0, 1), (1, 0, 1, 1), (5, 2, 9, 8), (9, 2, 9, 3), (2, 2, 9, 3), (7, 2, 9, 64), ((1 << 58) - 1, 0, 1 << 58, 59), (1 << 58, 0, 1 << 58, 59), (1 << 58, 1 << 58, top, 64), (i64::max_value(), 0, i64::max_value(), 63), (top, 0, top, 64), (top, top, top, 4), (0, 0, top, 64)] {
        all.push(vec![val, lo, hi, bits, 1]);
        all.push(vec![val, lo, hi, bits, 0]);
    }
    all.sort();
    all.dedup();
    let (small, large): (Vec<Vec<i64>>, Vec<Vec<i64>>) = all.into_iter().partition(|p| p[3] <= 9);
    complete(&mut v, "bound", small, 12);
    complete(&mut v, "bound", large, 3);
    let mut s: Vec<Vec<i64>> = vec![];
    for bits in widths.iter().cloned() {
        let span: u64 = if bits == 64 { u64::max_value() } else { (1u64 << bits) - 1 };
        let mid: u64 = u64::max_value() / 2;
        for (lo, hi) in vec![(0u64, span), (0, 0), (1, span.max(1)), (u64::max_value() - span, u64::max_value()), (mid, mid.saturating_add(span)), (0, span / 2), (2, 9)] {
            s.push(vec![lo as i64, lo as i64, hi as i64, bits, 1]);
        }
    }
    for bits in 1..65i64 {
        let span: u64 = if bits == 64 { u64::max_value() } else { (1u64 << bits) - 1 };
        if !widths.contains(&bits) {
            s.push(vec![0, 0, span as i64, bits, 1]);
            s.push(vec![1, 1, span as i64, bits, 1]);
        }
    }
    let (small, large): (Vec<Vec<i64>>, Vec<Vec<i64>>) = s.into_iter().partition(|p| p[3] <= 9);
    sound(&mut v, "bound", small, 10);
    sound(&mut v, "bound", large, 3);
    // every width, several values
    let mut w: Vec<Vec<i64>> = vec![];
    for bits in 1..65i64 {
        let span: u64 = if bits == 64 { u64::max_value() } else { (1u64 << bits) - 1 };
        for lo in vec![0u64, 1, u64::max_value() / 3, u64::max_value() - span] {
            if let Some(hi) = lo.checked_add(span) {
                for val in vec![lo, hi, lo + span / 2, lo + span / 2 + 1, lo + span / 3, lo + 1, hi - 1] {
                    w.push(vec![val as i64, lo as i64, hi as i64, bits, (val & 1) as i64]);
                }
            }
        }
    }
    witness(&mut v, "bound", w, 60);
    // what the prover must refuse
    let mut r = vec![];
    for (val, lo, hi) in vec![(1, 2, 9), (10, 2, 9), (0, 1, 1), (2, 1, 1), (top, 0, 9), (0, 1, top), (9, 9, 2), (2, 9, 2), (1 << 40, 0, (1 << 40) - 1)] {
        for bits in vec![1, 4, 8, 64] {
            r.push(vec![val, lo, hi, bits, 0]);
        }
    }
    run(&mut v, "refused", "bound", r, 12);
    // too few bits for the range: no panic, and (soundness above) never a proof of a false statement
    run(&mut v, "total", "bound", vec![vec![9, 2, 200, 4, 1], vec![9, 2, 200, 1, 0], vec![0, 0, top, 32, 0]], 3);
    v
}

pub fn c11(deep: bool) -> Vec<Unit> {
    let mut v = vec![];
    let sizes: Vec<i64> = if deep { (1..=16).collect() } else { vec![1, 2, 3, 4, 5, 8] };
    let mut a = vec![];
    for n in &sizes {
        for k in 0..*n {
            a.push(vec![*n, k, (n + k) % 2]);
        }
    }
    a.extend(vec![vec![17, 16, 1], vec![17, 0, 0], vec![33, 31, 0], vec![65, 64, 1]]);
    let sizes = cat(&sizes, &[16, 17, 20, 33, 65, 130]);
    complete(&mut v, "member", a, 6);
    sound(&mut v, "member", sizes.iter().map(|n| vec![*n, -1, 1]).collect(), 2);
    let mut w = vec![];
    for n in vec![6i64, 7, 9, 16, 17, 32, 33, 64, 65, 70, 130, 257] {
        for k in vec![0, 1, n / 2, n - 2, n - 1] {
            w.push(vec![n, k, k % 2]);
        }
    }
    witness(&mut v, "member", w, 12);
    run(&mut v, "total", "member", vec![vec![1, -1, 1], vec![3, -1, 0], vec![4, -1, 1]], 3);
    let top = u64::max_value() as i64;
    let mut sets: Vec<Vec<i64>> = vec![vec![5], vec![5, 7], vec![0, 1], vec![3, 1, 2], vec![1, 0, top], vec![1 << 58, (1 << 58) - 1, 1 << 32, 7], vec![2, 3, 5, 7, 11], vec![10, 20, 30, 40, 50, 60, 70, 80]];
    let wide: Vec<Vec<i64>> = vec![16i64, 17, 33, 40].into_iter().map(|n| (0..n).map(|k| 1000 + 7 * k).collect()).collect();
    if deep {
        sets.push((1..=12).map(|x| x * x * 1000003).collect());
        sets.push((0..16).map(|x| top - x * 977).collect());
    }
    let mut a = vec![];
    for s in &sets {
        for (k, x) in s.iter().enumerate() {
            a.push(cat(&[(k % 2) as i64, *x], s));
        }
    }
    for s in &wide {
        for k in vec![0, 1, s.len() - 2, s.len() - 1] {
            if s.len() < 30 || k == s.len() - 1 {
                a.push(cat(&[(k % 2) as i64, s[k]], s));
            }
        }
    }
    let mut w = vec![];
    for n in vec![9i64, 16, 33, 64, 65, 70, 100, 130] {
        let s: Vec<i64> = (0..n).map(|k| top - 12345 * k * k).collect();
        for k in vec![0, 1, n / 2, n - 2, n - 1] {
            w.push(cat(&[k % 2, s[k as usize]], &s));
        }
    }
    witness(&mut v, "alt", w, 10);
    sets.extend(wide);
    complete(&mut v, "alt", a, 4);
    sound(&mut v, "alt", sets.iter().map(|s| cat(&[1, s[0]], s)).collect(), 2);
    run(&mut v, "total", "alt", vec![vec![1, 4, 5], vec![0, 9, 5, 7, 8], vec![1, 0, 1, 2]], 3);
    v
}

pub fn c12(deep: bool) -> Vec<Unit> {
    let mut v = vec![];
    let sizes: Vec<i64> = if deep { (1..=12).collect() } else { vec![1, 2, 3, 4, 5, 8] };
    complete(&mut v, "nonmember", vec![vec![17, -1, 1], vec![33, -1, 0]], 1);
    let wide = cat(&sizes, &[16, 17, 32, 33, 65, 130]);
    complete(&mut v, "nonmember", sizes.iter().flat_map(|n| vec![vec![*n, -1, 0], vec![*n, -1, 1]]).collect(), 3);
    sound(&mut v, "nonmember", wide.iter().map(|n| vec![*n, -1, 1]).collect(), 2);
    witness(&mut v, "nonmember", (6..20).chain(vec![32, 33, 63, 64, 65, 66, 130]).map(|n| vec![n, -1, n % 2]).collect(), 1);
    run(&mut v, "total", "nonmember", vec![vec![1, 0, 1], vec![3, 1, 0], vec![4, 3, 1]], 3);
    complete(&mut v, "nonzero", vec![vec![0, 0], vec![0, 1]], 2);
    sound(&mut v, "nonzero", vec![vec![0, 1]], 1);
    run(&mut v, "total", "nonzero", vec![vec![1, 0], vec![1, 1]], 2);
    v
}

pub fn c13(deep: bool) -> Vec<Unit> {
    let mut v = vec![];
    let mut a = vec![];
    for n in 1..=(if deep { 6i64 } else { 4 }) {
        for mask in 0..(1i64 << n) {
            let f: Vec<i64> = (0..n).map(|k| mask >> k & 1).collect();
            a.push(cat(&[n, f.iter().sum()], &f));
        }
    }
    a.push(vec![8, 3, 1, 0, 0, 1, 0, 0, 0, 1]);
    a.push(vec![9, 9, 1, 1, 1, 1, 1, 1, 1, 1, 1]);
    for n in vec![16i64, 17, 33] {
        let f: Vec<i64> = (0..n).map(|k| (k * k % 5 == 1 || k == n - 1) as i64).collect();
        a.push(cat(&[n, f.iter().sum()], &f));
    }
    complete(&mut v, "hamming", a, 6);
    let mut w = vec![];
    for n in vec![5i64, 6, 7, 8, 9, 12, 16, 17, 31, 32, 33, 34, 63, 64, 65, 66, 128, 129, 254, 256, 300] {
        for m in 0..4i64 {
            if m == 1 && n > 16 && !(deep && n < 70) {
                continue;
            }
            let f: Vec<i64> = (0..n).map(|k| match m { 0 => 0, 1 => 1, 2 => (k % 31 == 17 || k == n - 1) as i64, _ => (k == 0) as i64 }).collect();
            w.push(cat(&[n, f.iter().sum()], &f));
        }
    }
    witness(&mut v, "hamming", w, 4);
    let mut s = vec![];
    for n in 1..=(if deep { 7i64 } else { 5 }) {
        for c in 0..=n + 1 {
            s.push(cat(&[n, c], &vec![0; n as usize]));
        }
    }
    s.push(vec![6, 2, 0, 0, 0, 0, 0, 0]);
    for (n, c) in vec![(8i64, 7i64), (8, 3), (9, 0), (12, 6), (16, 5), (17, 16), (33, 10)] {
        s.push(cat(&[n, c], &vec![0; n as usize]));
    }
    sound(&mut v, "hamming", s, 1);
    v
}

pub fn c14(deep: bool) -> Vec<Unit> {
    let mut v = vec![];
    let rounds: Vec<i64> = if deep { vec![1, 2, 3, 4, 5, 8, 16, 32, 64, 110] } else { vec![1, 2, 3, 4, 5, 8, 16, 33] };
    complete(&mut v, "mimc", rounds.iter().enumerate().map(|(k, r)| vec![*r, (k % 2) as i64]).collect(), 1);
    complete(&mut v, "mimc", rounds.iter().take(5).enumerate().map(|(k, r)| vec![*r, ((k + 1) % 2) as i64]).collect(), 2);
    witness(&mut v, "mimc", (if deep { vec![6, 7, 9, 10, 17, 33, 64, 110, 200, 322, 323] } else { vec![6, 7, 9, 17, 33, 64, 110, 322] }).into_iter().map(|r| vec![r, r % 2]).rev().collect(), 1);
    let mut s: Vec<i64> = rounds.clone();
    s.push(if deep { 322 } else { 110 });
    sound(&mut v, "mimc", s.iter().map(|r| vec![*r, 1]).collect(), 1);
    v.push(unit("the native permutation", move |o| {
        for r in s.iter() {
            gad::scenario(o, &scn("mimc_native", &[*r]));
        }
    }));
    v
}

pub fn c15(deep: bool) -> Vec<Unit> {
    let mut v = vec![];
    for (kind, w) in vec![("pos2", 3i64), ("pos4", 5), ("pos8", 9)] {
        for sbox in 0..3i64 {
            let mut rounds: Vec<Vec<i64>> = vec![vec![1, 0, 0], vec![0, 1, 0], vec![0, 0, 1], vec![1, 1, 1], vec![2, 1, 1], vec![1, 2, 2]];
            if w == 3 {
                rounds.push(vec![2, 3, 2]);
            }
            if deep {
                rounds.push(vec![2, 4, 3]);
                if w < 9 {
                    rounds.push(vec![4, 6, 4]);
                }
            }
            for (k, r) in rounds.iter().enumerate() {
                let big = (r[0] + r[2]) * w + r[1] > 18;
                for free in 0..2i64 {
                    // arbitrary parameters only for few rounds
                    if free == 1 && (r.iter().sum::<i64>() > 3 || big && sbox == 2) {
                        continue;
                    }
                    // end to end
                    if (k as i64 + free + sbox) % 2 == 0 || deep {
                        if !(big && sbox == 1 && !deep) {
                            complete(&mut v, kind, vec![cat(&cat(&[sbox], r), &[free, (k as i64 + sbox) % 2])], 1);
                        }
                    }
                    sound(&mut v, kind, vec![cat(&cat(&[sbox], r), &[free, 1])], 1);
                }
            }
            // the number of rounds in use
            let real: Vec<i64> = vec![4, if w == 3 { 55 } else { 56 }, 4];
            if deep || (w, sbox) != (9, 1) {
                sound(&mut v, kind, vec![cat(&cat(&[sbox], &real), &[0, 1])], 1);
            }
            // (the inverse S-box divides by every intermediate value: only end to end, for few rounds)
            if sbox != 1 {
                witness(&mut v, kind, vec![cat(&cat(&[sbox], &real), &[0, 0])], 1);
                witness(&mut v, kind, vec![cat(&[sbox], &[2, 3, 2, 0, 1])], 1);
            }
            if deep && w == 3 && sbox == 0 {
                complete(&mut v, kind, vec![cat(&cat(&[sbox], &real), &[0, 1])], 1);
            }
            let mut rs = rounds.clone();
            rs.push(real);
            let kind = kind.to_string();
            v.push(unit(&format!("the native permutation {} sbox {}", kind, sbox), move |o| {
                for r in &rs {
                    for free in 0..(if r[1] > 9 { 1 } else { 2i64 }) {
                        gad::scenario(o, &scn(&format!("native:{}", kind), &cat(&cat(&[sbox], r), &[free, 1])));
                    }
                }
            }));
        }
        let kind = kind.to_string();
        v.push(unit(&format!("the linear layer of {}", kind), move |o| crate::sound::mds(o, &kind)));
    }
    v
}

pub fn c16(deep: bool) -> Vec<Unit> {
    let mut v = vec![];
    let mut e2e: Vec<(&str, Vec<i64>)> = vec![];
    for k in 0..4i64 {
        e2e.push(("merkle4", vec![k % 3, 1, 0, 0, 0, k % 2, 1, k]));
    }
    for (k, i) in vec![0i64, 1, 2, 3, 5, 6, 11, 12, 15].into_iter().enumerate() {
        e2e.push(("merkle4", vec![if k % 2 == 0 { 0 } else { 2 }, 1, 0, 0, (k % 2) as i64, (k % 2) as i64, 2, i]));
    }
    for k in 0..8i64 {
        e2e.push(("merkle8", vec![if k % 2 == 0 { 0 } else { 2 }, 1, 0, 0, 0, k % 2, 1, k]));
    }
    e2e.push(("merkle8", vec![0, 1, 0, 0, 0, 1, 2, 42]));
    e2e.push(("merkle4", vec![2, 1, 1, 1, 0, 1, 1, 2]));
    e2e.push(("merkle4", vec![0, 1, 0, 0, 0, 1, 3, 27]));
    if deep {
        for i in 0..16i64 {
            e2e.push(("merkle4", vec![2, 1, 1, 1, 0, i % 2, 2, i]));
        }
        for i in vec![0i64, 7, 8, 13, 29, 54, 63] {
            e2e.push(("merkle4", vec![0, 1, 0, 0, 0, 0, 3, i]));
            e2e.push(("merkle8", vec![2, 1, 0, 1, 0, 0, 2, i]));
        }
    }
    let mut s: Vec<(&str, Vec<i64>)> = vec![
        ("merkle4", vec![0, 1, 1, 1, 0, 1, 1, 0]),
        ("merkle4", vec![1, 1, 1, 1, 0, 1, 1, 0]),
        ("merkle4", vec![2, 1, 1, 1, 1, 1, 1, 0]),
        ("merkle4", vec![2, 1, 1, 1, 0, 1, 2, 0]),
        ("merkle4", vec![0, 2, 1, 2, 0, 1, 2, 0]),
        ("merkle4", vec![0, 1, 0, 0, 0, 1, 3, 0]),
        ("merkle8", vec![0, 1, 1, 1, 0, 1, 1, 0]),
        ("merkle8", vec![2, 1, 0, 1, 1, 1, 1, 0]),
        ("merkle8", vec![1, 1, 0, 0, 0, 1, 1, 0]),
        ("merkle8", vec![2, 1, 0, 0, 0, 1, 2, 0]),
        ("merkle4", vec![2, 0, 1, 0, 0, 1, 5, 0]),
        ("merkle4", vec![2, 0, 1, 0, 0, 1, 8, 0]),
        ("merkle4", vec![0, 0, 1, 0, 0, 1, 12, 0]),
        ("merkle8", vec![2, 0, 1, 0, 0, 1, 3, 0]),
        ("merkle8", vec![0, 0, 1, 0, 0, 1, 6, 0]),
    ];
    if deep {
        s.push(("merkle4", vec![1, 1, 1, 1, 0, 1, 2, 0]));
        s.push(("merkle4", vec![2, 2, 2, 2, 0, 1, 3, 0]));
        s.push(("merkle8", vec![0, 2, 2, 2, 0, 1, 2, 0]));
        s.push(("merkle4", vec![2, 1, 0, 0, 0, 1, 4, 0]));
    }
    s.reverse();
    for (k, p) in s {
        sound(&mut v, k, vec![p], 1);
    }
    for (k, p) in e2e {
        complete(&mut v, k, vec![p], 1);
    }
    // deep trees, and the number of rounds in use
    let mut w4 = vec![];
    for depth in vec![3i64, 4, 5, 8, 12, 16, 17, 20, 24, 30] {
        let top = 4i64.pow(depth as u32) - 1;
        for (k, i) in vec![0, top, top / 2, top / 3, top - 7, 1].into_iter().enumerate() {
            w4.push(vec![if k % 2 == 0 { 0 } else { 2 }, 0, 1, 0, 0, (k % 2) as i64, depth, i]);
        }
    }
    witness(&mut v, "merkle4", w4, 15);
    let mut w8 = vec![];
    for depth in vec![2i64, 3, 4, 5, 6, 8, 10, 11, 16, 20] {
        let top = 8i64.pow(depth as u32) - 1;
        for (k, i) in vec![0, top, top / 2, top / 3, top - 7, 1].into_iter().enumerate() {
            w8.push(vec![if k % 2 == 0 { 0 } else { 2 }, 0, 1, 0, 0, (k % 2) as i64, depth, i]);
        }
    }
    witness(&mut v, "merkle8", w8, 15);
    witness(&mut v, "merkle4", vec![vec![2, 4, 56, 4, 0, 1, 1, 2]], 1);
    witness(&mut v, "merkle8", vec![vec![2, 4, 56, 4, 0, 1, 1, 5]], 1);
    if deep {
        witness(&mut v, "merkle4", vec![vec![0, 4, 56, 4, 0, 1, 1, 1], vec![2, 4, 56, 4, 0, 1, 2, 13]], 1);
    }
    v
}

/// scenarios without hypotheses
fn plain(v: &mut Vec<Unit>, name: &str, kind: &'static str, ps: Vec<Vec<i64>>, per: usize) {
    let n = (ps.len() + per - 1) / per;
    for k in 0..n {
        let part: Vec<Vec<i64>> = ps.iter().skip(k).step_by(n).cloned().collect();
        v.push(unit(&format!("{} {} {}/{} ({} instances)", name, kind, k + 1, n, part.len()), move |o| {
            for p in &part {
                gad::scenario(o, &scn(kind, p));
            }
        }));
    }
}

pub fn c17(deep: bool) -> Vec<Unit> {
    let mut v = vec![];
    for (ar, tree, exact, digits) in vec![(4i64, "tree4", "exact4", "digits4"), (8, "tree8", "exact8", "digits8")] {
        let rounds: Vec<Vec<i64>> = vec![vec![1, 0, 0], vec![0, 1, 0], vec![1, 1, 1]];
        let mut h: Vec<Vec<i64>> = vec![];
        // every index, one and two writes of every kind, depth 1
        for i in 0..ar {
            h.push(cat(&rounds[2], &[1, 4 * i]));
            h.push(cat(&rounds[0], &[1, 4 * i + 1]));
            for j in 0..ar {
                for k in 0..4i64 {
                    for l in 0..4i64 {
                        if ar == 8 && !deep && (i + j + k + l) % 4 != 0 {
                            continue;
                        }
                        h.push(cat(&rounds[0], &[1, 4 * i + k, 4 * j + l]));
                    }
                }
            }
        }
        // depth 2: every pair of indices
        let size = ar * ar;
        for i in 0..size {
            for j in 0..size {
                if ar == 8 && !(j == i || j == i ^ 1 || j / 8 == i / 8 && deep || j == (i + 8) % 64 || j == 63 - i || deep && j % 8 == i % 8) {
                    continue;
                }
                h.push(cat(&rounds[((i + j) % 2) as usize], &[2, 4 * i + (i % 2) * 2, 4 * j + (i + 3 * j) % 4]));
            }
        }
        // longer histories
        let seqs: Vec<Vec<i64>> = vec![vec![0, 1, 2, 3, 4, 5, 6, 7], vec![3, 2, 1, 0], vec![5, 5, 5, 5], vec![0, 15, 0, 15], vec![1, 4, 7, 10, 13], vec![6, 9, 6, 9, 6]];
        for (n, s) in seqs.iter().enumerate() {
            for k in 0..4i64 {
                for depth in 2..4i64 {
                    let ops: Vec<i64> = s.iter().enumerate().map(|(m, i)| 4 * (i * (depth * depth - 3) % ar.pow(depth as u32)) + (k + (m as i64) * (n as i64 + 1)) % 4).collect();
                    h.push(cat(&cat(&rounds[(n + k as usize) % 3], &[depth]), &ops));
                }
            }
        }
        plain(&mut v, "histories", tree, h, 60);
        // deep trees
        let mut d = vec![];
        for depth in if ar == 4 { vec![3, 4, 5, 8, 10, 16, 20] } else { vec![3, 4, 5, 8, 10] } {
            let top = ar.pow(depth as u32) - 1;
            for (a, b) in vec![(0, top), (top, top - 1), (top / 2, top / 2 + 1), (1, top / ar), (top / 3, top / 3)] {
                for k in 0..4 {
                    d.push(cat(&rounds[(depth % 2) as usize], &[depth, 4 * a, 4 * b + k]));
                }
            }
        }
        plain(&mut v, "deep trees", tree, d, 8);
        // with the number of rounds in use
        let d: Vec<Vec<i64>> = vec![vec![4, 56, 4, 1, 4, 9], vec![4, 56, 4, 2, 4 * (size - 1), 23]];
        plain(&mut v, "real rounds", tree, d, 1);
        // any value, any proof, any root
        let mut e = vec![];
        for depth in 0..=(if deep { 6i64 } else { 4 }) {
            for i in 0..ar.pow(depth as u32) {
                if depth > 1 && (i % (7 + 8 * (depth - 2))) != depth - 2 && !(deep && depth < 3) {
                    continue;
                }
                for n in 0..=depth + 2 {
                    if n == depth || i % 3 == 0 {
                        e.push(cat(&rounds[((i + depth) % 3) as usize], &[depth, i, n]));
                    }
                }
            }
        }
        plain(&mut v, "any proof", exact, e, 40);
        let mut g = vec![];
        for n in 1..=4i64 {
            for i in 0..ar.pow(n as u32).min(700) {
                g.push(vec![n, i]);
            }
        }
        for n in vec![5i64, 7, 11, 15, 16, 21, 29, 30, 31, 40, 60] {
            for s in 0..ar {
                g.push(cat(&[n, -1], &(0..n).map(|k| (s + k * k + k) % ar).collect::<Vec<i64>>()));
                g.push(cat(&[n + 3, -1], &(0..n).map(|k| (s * 3 + k * 5 + 1) % ar).collect::<Vec<i64>>()));
            }
        }
        plain(&mut v, "paths", digits, g, 400);
    }
    let mut k = vec![];
    for a in 0..5 {
        for b in 0..5 {
            for c in 0..5 {
                k.push(vec![a, b, c]);
            }
        }
    }
    k.push(vec![]);
    plain(&mut v, "database", "hashdb", k, 130);
    v
}

pub fn c18(deep: bool) -> Vec<Unit> {
    let mut v = vec![];
    let r = |b: i64, p: i64, e: i64, d: i64| vec![2, b, p, e, 0, 0, d];
    let mut s: Vec<Vec<i64>> = vec![];
    // depth 1: every position, every pair of positions in both orders
    for i in 0..4 {
        s.push(cat(&r(1, 0, 0, 1), &[(i + 1) % 4, i]));
        for j in 0..4 {
            if i != j {
                s.push(cat(&r(0, 1, 0, 1), &[-1, i, j]));
                s.push(cat(&r(0, 1, 1, 1), &[(0..4).find(|k| *k != i && *k != j).unwrap(), i, j]));
            }
        }
    }
    s.push(cat(&r(1, 0, 0, 1), &[-1, 3, 1, 0, 2]));
    // depth 2: siblings, cousins, the whole bottom row
    for (a, b) in vec![(0, 1), (1, 0), (5, 6), (2, 7), (15, 0), (4, 8), (12, 15), (9, 8), (3, 13)] {
        s.push(cat(&r(0, 1, 0, 2), &[10, a, b]));
    }
    s.push(cat(&r(0, 1, 0, 2), &[-1, 0, 1, 2, 3]));
    s.push(cat(&r(0, 1, 0, 2), &[14, 0, 5, 10, 15, 1]));
    s.push(cat(&r(1, 0, 1, 2), &[8, 6, 7, 9]));
    s.push(cat(&r(0, 1, 0, 3), &[63, 0, 1, 21]));
    s.push(cat(&r(0, 1, 0, 3), &[20, 42, 43, 37, 58]));
    s.push(cat(&r(0, 1, 0, 5), &[-1, 1000, 3]));
    if deep {
        s.push(cat(&r(2, 2, 2, 2), &[8, 6, 7, 9]));
        s.push(cat(&r(1, 1, 1, 3), &[20, 42, 43, 37]));
        s.push(cat(&r(4, 56, 4, 1), &[2, 0, 3]));
        for a in 0..16 {
            for b in 0..16 {
                if a != b {
                    s.push(cat(&r(0, 1, 0, 2), &[(0..16).find(|k| *k != a && *k != b).unwrap(), a, b]));
                }
            }
        }
    }
    let mut w = s.clone();
    w.push(cat(&r(0, 1, 0, 3), &[7, 0, 1, 2, 3, 16, 21, 63, 62]));
    w.push(cat(&r(0, 1, 0, 2), &cat(&[3], &(0..16).filter(|k| *k != 3).collect::<Vec<i64>>())));
    w.push(cat(&r(0, 1, 0, 4), &[200, 0, 255, 128, 127, 64, 1]));
    w.push(cat(&r(0, 1, 0, 6), &[4095, 0, 4094, 2048]));
    w.push(cat(&r(0, 1, 0, 8), &[5, 65535, 40000, 4]));
    witness(&mut v, "rand", w, 6);
    witness(&mut v, "rand", vec![cat(&r(4, 56, 4, 1), &[1, 0, 3])], 1);
    sound(&mut v, "rand", s.clone(), 6);
    let e: Vec<Vec<i64>> = s.into_iter().filter(|p| {
        let per = (p[1] + p[3]) * 15 + p[2] * 3;
        let mult = (p.len() as i64 - 8) * 2 * p[6] * per;
        mult <= (if deep { 130 } else { 64 })
    }).collect();
    complete(&mut v, "rand", e, 3);
    let mut d = vec![];
    for n in 1..=(if deep { 7i64 } else { 5 }) {
        for mask in 0..(1i64 << n) {
            d.push(cat(&[n], &(0..n).filter(|k| mask >> k & 1 == 1).collect::<Vec<i64>>()));
        }
    }
    plain(&mut v, "distortion", "distort", d, 70);
    v
}

/// small instances of every gadget
pub fn small() -> Vec<(&'static str, Vec<i64>)> {
    vec![
        ("bound", vec![5, 2, 9, 3, 0]),
        ("bound", vec![5, 2, 9, 4, 1]),
        ("member", vec![1, 0, 0]),
        ("member", vec![3, 1, 1]),
        ("alt", vec![0, 7, 5, 7, 9]),
        ("alt", vec![1, 5, 5]),
        ("nonmember", vec![1, -1, 1]),
        ("nonmember", vec![3, -1, 0]),
        ("nonzero", vec![0, 0]),
        ("hamming", vec![1, 1, 1]),
        ("hamming", vec![3, 1, 0, 1, 0]),
        ("mimc", vec![1, 0]),
        ("mimc", vec![3, 1]),
        ("pos2", vec![0, 1, 1, 0, 0, 0]),
        ("pos4", vec![2, 0, 1, 0, 0, 1]),
        ("pos8", vec![2, 0, 1, 0, 0, 0]),
        ("merkle4", vec![2, 0, 1, 0, 0, 0, 1, 2]),
        ("merkle4", vec![2, 0, 1, 0, 0, 1, 2, 7]),
        ("merkle8", vec![2, 0, 1, 0, 0, 0, 1, 5]),
        ("rand", vec![2, 0, 1, 0, 0, 0, 1, 0, 2]),
        ("rand", vec![2, 0, 1, 0, 0, 0, 1, -1, 3, 1]),
    ]
}
/// what the gadgets do with wrong numbers of commitments, generators and blindings
pub fn c04_gadgets(v: &mut Vec<Unit>) {
    for (kind, p) in small() {
        let need = inst(kind, &p).commitments();
        v.push(unit(&format!("commitments {} {:?}", kind, p), {
            let p = p.clone();
            move |o| {
                for k in 0..need + 2 {
                    gad::scenario(o, &scn(&format!("comms{}:{}", k, kind), &p));
                }
            }
        }));
        run(v, "gens", kind, vec![p.clone()], 1);
        if kind != "hamming" && kind != "rand" {
            run(v, "blind", kind, vec![p], 1);
        }
    }
}

/// kind and parameters of a part of a composition
fn part(kind: &str, p: &[i64]) -> Vec<i64> {
    let k = crate::gadgets::KINDS.iter().position(|x| *x == kind).unwrap() as i64;
    cat(&[k, p.len() as i64], p)
}
pub fn c19(deep: bool) -> Vec<Unit> {
    use crate::blocks::*;
    let mut v = vec![];
    let top = u64::max_value() as i64;
    for ph in 0..2i64 {
        let mut e: Vec<Vec<i64>> = vec![vec![BIT, ph, 0], vec![BIT, ph, 1], vec![NONZERO, ph]];
        for (x, n) in vec![(0, 0), (0, 1), (1, 1), (5, 3), (7, 3), (0, 8), (200, 8), (255, 8), (1 << 31, 32), (top, 64), (1 << 58, 59), (i64::max_value(), 63), (12345, 64), (1, 65), (top, 100)] {
            if ph == 0 || n < 20 {
                e.push(vec![POSITIVE, ph, x, n]);
            }
        }
        for s in vec![vec![0, 1, 0], vec![1, 1, 0], vec![7, 2, 0, 1], vec![top, 3, 2, 0, 1], vec![1, 4, 3, 1, 0, 2], vec![5, 2, 0, 1, 1], vec![3, 3, 1, 2]] {
            e.push(cat(&[SUM, ph], &s));
        }
        for s in vec![vec![5], vec![0], vec![3, 8], vec![0, 1, 2], vec![top, 1 << 58, 9, 4]] {
            for k in 0..s.len() {
                e.push(cat(&[PRODUCT, ph, k as i64], &s));
            }
        }
        for n in 1..4 {
            e.push(vec![SCALAR, ph, n]);
        }
        complete(&mut v, "blk", e, 5);
        let mut e: Vec<Vec<i64>> = vec![];
        for r in 1..=(if deep { 8 } else { 4 }) {
            e.push(vec![MIMC, ph, r]);
            e.push(vec![MIMC_GADGET, ph, r]);
        }
        for w in vec![3i64, 5, 9] {
            for sb in 0..3i64 {
                e.push(vec![PERM, ph, w, sb, 1, 0, 0, 1]);
                e.push(vec![HASH, ph, w, sb, 0, 1, 0, 1]);
                if w < 9 && sb != 1 {
                    e.push(vec![HASH, ph, w, sb, 1, 0, 0, 0]);
                }
                if w == 3 {
                    e.push(vec![PERM, ph, w, sb, 1, 1, 0, 0]);
                    e.push(vec![HASH, ph, w, sb, 0, 1, 1, 0]);
                }
            }
        }
        complete(&mut v, "blk", e, 3);
    }
    let mut s: Vec<Vec<i64>> = vec![vec![BIT, 0, 0], vec![NONZERO, 0], vec![SCALAR, 0, 1], vec![SCALAR, 0, 3], vec![SCALAR, 0, 8]];
    for t in vec![vec![0, 1, 0], vec![1, 1, 0], vec![7, 2, 0, 1], vec![top, 3, 2, 0, 1], vec![5, 2, 0, 1, 1], vec![3, 3, 1, 2], vec![9, 8, 0, 1, 2, 3, 4, 5, 6, 7], cat(&[77, 16], &(0..16).collect::<Vec<i64>>()), cat(&[78, 33], &(0..33).collect::<Vec<i64>>())] {
        s.push(cat(&[SUM, 0], &t));
    }
    for t in vec![vec![5], vec![0], vec![3, 8], vec![0, 1, 2], vec![top, 1 << 58, 9, 4], vec![1, 2, 3, 4, 5, 6, 7, 8], (3..19).collect(), (1..36).collect()] {
        s.push(cat(&[PRODUCT, 0, 0], &t));
    }
    let mut ns: Vec<i64> = vec![0, 1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 33, 58, 63, 64, 65, 100, 128, 200, 254];
    if deep {
        ns = (0..255).collect();
    }
    let mut w = s.clone();
    for n in ns.iter() {
        for x in vec![0u64, 1, 0xdead_beef_0bad_cafe, u64::max_value()] {
            w.push(vec![POSITIVE, 0, (if *n >= 64 { x } else { x & ((1 << n) - 1) }) as i64, *n]);
        }
    }
    w.push(cat(&[SUM, 0, 78, 130], &(0..130).collect::<Vec<i64>>()));
    for k in vec![0, 1, 34, 64, 99] {
        w.push(cat(&[PRODUCT, 0, k], &(1..101).collect::<Vec<i64>>()));
    }
    witness(&mut v, "blk", w, 20);
    sound(&mut v, "blk", s, 4);
    sound(&mut v, "blk", ns.iter().map(|n| vec![POSITIVE, 0, 0, *n]).collect(), 4);
    let mut s: Vec<Vec<i64>> = vec![];
    for r in vec![1, 2, 3, 4, 8, 33] {
        s.push(vec![MIMC, 0, r]);
        s.push(vec![MIMC_GADGET, 0, r]);
    }
    for w in vec![3i64, 5, 9] {
        for sb in 0..3i64 {
            s.push(vec![PERM, 0, w, sb, 1, 0, 0, 1]);
            s.push(vec![PERM, 0, w, sb, 1, 1, 1, 0]);
            s.push(vec![HASH, 0, w, sb, 0, 1, 0, 1]);
            s.push(vec![HASH, 0, w, sb, 1, 1, 1, 0]);
        }
    }
    witness(&mut v, "blk", s.iter().filter(|p| !((p[0] == PERM || p[0] == HASH) && p[3] == 1 && p[4] > 0)).cloned().collect(), 4);
    sound(&mut v, "blk", s, 2);
    v
}
/// several gadgets in one proof
pub fn c20(deep: bool) -> Vec<Unit> {
    use crate::blocks::*;
    let mut v = vec![];
    let atoms: Vec<Vec<i64>> = vec![
        part("bound", &[5, 2, 9, 3, 1]),
        part("member", &[2, 1, 1]),
        part("nonmember", &[2, -1, 0]),
        part("alt", &[1, 7, 5, 7]),
        part("nonzero", &[0, 1]),
        part("hamming", &[2, 1, 0, 1]),
        part("mimc", &[2, 1]),
        part("pos2", &[0, 0, 1, 0, 0, 1]),
        part("pos4", &[2, 0, 1, 0, 0, 0]),
        part("pos8", &[2, 0, 1, 0, 0, 1]),
        part("merkle4", &[2, 0, 1, 0, 0, 1, 1, 2]),
        part("merkle8", &[2, 0, 1, 0, 0, 0, 1, 5]),
        part("blk", &[BIT, 0, 1]),
        part("blk", &[SCALAR, 0, 2]),
    ];
    let mut c: Vec<Vec<i64>> = vec![];
    // every ordered pair
    for (k, a) in atoms.iter().enumerate() {
        for (l, b) in atoms.iter().enumerate() {
            if deep || k == l || (k + 2 * l) % 3 == 0 || l == (k + 1) % atoms.len() {
                c.push(cat(a, b));
            }
        }
    }
    // chains
    for k in 0..atoms.len() {
        c.push((0..3).flat_map(|j| atoms[(k + 4 * j) % atoms.len()].clone()).collect());
    }
    complete(&mut v, "comp", c.clone(), 5);
    witness(&mut v, "comp", (0..atoms.len()).map(|k| (0..6).flat_map(|j| atoms[(k + 3 * j) % atoms.len()].clone()).collect()).collect(), 3);
    sound(&mut v, "comp", c, 5);
    v
}
