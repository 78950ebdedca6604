//! Gadgets: completeness scenarios under the hypotheses that make the statement true (or false).
use crate::dse::Opts;
use crate::fw::{scenario_with, Out};
use crate::gadgets::{inst, Inst};
use crate::scen::Scn;
use crate::smt::Form;
use symcore::{arena, Node};

fn diff(a: &str, b: &str) -> u32 {
    let x = arena().var(a);
    let y = arena().var(b);
    arena().sub(x, y)
}
/// what the inputs of the instance satisfy
pub fn hypotheses(i: &Inst) -> Vec<Form> {
    let p = &i.p;
    let diff = |a: &str, b: &str| diff(&format!("{}{}", i.tag, a), &format!("{}{}", i.tag, b));
    match i.kind.as_str() {
        "comp" => i.parts().iter().flat_map(|k| hypotheses(k)).collect(),
        "member" | "nonmember" if p[1] < 0 => (0..p[0]).map(|k| Form::NonZero(diff(&format!("s{}", k), "v"))).collect(),
        "nonzero" if p[0] == 0 => vec![Form::NonZero(arena().var(&format!("{}v", i.tag)))],
        "hamming" => (0..p[0] as usize).filter(|k| p[2 + k] == 1).map(|k| Form::NonZero(diff(&format!("o{}", k), &format!("n{}", k)))).collect(),
        "blk" if (p[0] == crate::blocks::PERM || p[0] == crate::blocks::HASH) && p[3] == 1 => inverted(i),
        "blk" => crate::blocks::nonzero(i).into_iter().map(|e| Form::NonZero(e.term())).collect(),
        "pos2" | "pos4" | "pos8" | "merkle4" | "merkle8" if p[0] == 1 => inverted(i),
        _ => vec![],
    }
}
/// the inverse S-box is only defined away from zero
fn inverted(i: &Inst) -> Vec<Form> {
    i.honest(&i.secret());
    let a = arena();
    a.nodes.iter().filter_map(|n| match n { Node::Inv(x) => Some(Form::NonZero(*x)), _ => None }).collect()
}
pub fn scenario(out: &mut Out, s: &Scn) {
    if !out.viols.is_empty() {
        return;
    }
    arena().hard_reset();
    let assume = match s.kind.find(':') {
        Some(k) => hypotheses(&inst(&s.kind[k + 1..], &s.p)),
        None => vec![],
    };
    scenario_with(out, s, &Opts { assume, free: (s.kind.starts_with("total:") || s.kind.starts_with("comms")), ..Opts::default() })
}
