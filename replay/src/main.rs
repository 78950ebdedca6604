#![allow(non_snake_case, dead_code)]
#[path = "../../symex/shared/circ.rs"]
mod circ;
mod prim;
#[path = "../../symex/shared/blocks.rs"]
mod blocks;
#[path = "../../symex/shared/gadgets.rs"]
mod gadgets;
#[path = "../../symex/shared/trees.rs"]
mod trees;
#[path = "../../symex/shared/scen.rs"]
mod scen;
use amcl_wrapper::field_elem::FieldElement;
use amcl_wrapper::group_elem_g1::G1;
use bulletproofs_amcl::r1cs::{ConstraintSystem, LinearCombination, Prover, Variable};
use merlin::Transcript;
use scen::Claim;
use serde_json::Value;

/// A dishonest prover: the wire values and rows of the counterexample, proved with the real prover and shown to the
/// real verifier of the gadget.
fn unsound(v: &Value) -> String {
    let inst = gadgets::inst(v["gadget"].as_str().unwrap(), &v["params"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect::<Vec<_>>());
    let num = |x: &Value| prim::from_dec(x.as_str().unwrap());
    let gs = inst.gens();
    let rows = v["rows"].as_array().unwrap();
    let mults = v["multipliers"].as_array().unwrap();
    let used = rows
        .iter()
        .flat_map(|r| r["terms"].as_array().unwrap().iter())
        .filter(|t| t[0] != "V")
        .map(|t| t[1].as_u64().unwrap() as usize + 1)
        .max()
        .unwrap_or(0);
    let mut why = String::new();
    for n in used..=mults.len() {
        let mut tr = Transcript::new(gadgets::LABEL);
        let mut prover = Prover::new(&gs.g, &gs.h, &mut tr);
        let values = v["values"].as_array().unwrap();
        let mut comms: Vec<Option<G1>> = vec![None; values.len()];
        let mut vars: Vec<Option<Variable>> = vec![None; values.len()];
        for c in v["commits"].as_array().unwrap() {
            if let Some(j) = c["value"].as_u64() {
                let (p, x) = prover.commit(num(&values[j as usize]), FieldElement::from_msg_hash(&[j as u8]));
                comms[j as usize] = Some(p);
                vars[j as usize] = Some(x);
            } else {
                prover.commit(num(&c["public"]), FieldElement::zero());
            }
        }
        if comms.iter().any(|c| c.is_none()) {
            return "NOT-REPRODUCED a commitment is not in the transcript".into();
        }
        let mut wires = vec![];
        for m in &mults[..n] {
            wires.push(prover.allocate_multiplier(Some((num(&m[0]), num(&m[1])))).unwrap());
        }
        for r in rows {
            let mut lc: Vec<(Variable, FieldElement)> = vec![(Variable::One(), num(&r["const"]))];
            for t in r["terms"].as_array().unwrap() {
                let i = t[1].as_u64().unwrap() as usize;
                let x = match t[0].as_str().unwrap() {
                    "V" => vars[i].unwrap(),
                    "L" => wires[i].0,
                    "R" => wires[i].1,
                    _ => wires[i].2,
                };
                lc.push((x, num(&t[2])));
            }
            prover.constrain(lc.iter().collect::<LinearCombination>());
        }
        let proof = match prover.prove(&gs.G, &gs.H) {
            Ok(p) => p,
            Err(e) => {
                why = format!("{:?}", e);
                continue;
            }
        };
        match inst.verify(&inst.open(), proof, comms.into_iter().map(|c| c.unwrap()).collect(), &gs) {
            Ok(()) => return format!("REPRODUCED the real verifier accepts a proof of a false statement ({})", v["what"].as_str().unwrap()),
            Err(e) => why = format!("{:?}", e),
        }
    }
    format!("NOT-REPRODUCED {}", why)
}

fn main() {
    let path = std::env::args().nth(1).expect("replay <file>");
    let v: Value = serde_json::from_str(&std::fs::read_to_string(&path).unwrap()).unwrap();
    let model = v["model"].as_object().map(|m| m.iter().map(|(k, x)| (k.clone(), x.as_str().unwrap().to_string())).collect()).unwrap_or_default();
    prim::set_model(model);
    std::panic::set_hook(Box::new(|_| {}));
    match v["kind"].as_str().unwrap() {
        "scenario" => {
            let s = scen::Scn { kind: v["scenario"].as_str().unwrap().to_string(), p: v["params"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect() };
            match std::panic::catch_unwind(|| scen::run(&s)) {
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    println!("REPRODUCED the real code panics: {}", m.replace('\n', " "));
                }
                Ok(cs) => {
                    let mut bad = vec![];
                    for c in &cs {
                        match c {
                            Claim::True(n, b) if !*b => bad.push(n.clone()),
                            Claim::Zero(n, e) if !e.is_zero() => bad.push(n.clone()),
                            Claim::NonZero(n, e) if e.is_zero() => bad.push(n.clone()),
                            _ => {}
                        }
                    }
                    if bad.is_empty() {
                        println!("NOT-REPRODUCED all {} claims hold for these values", cs.len());
                    } else {
                        println!("REPRODUCED violated on the real code: {}", bad.join("; "));
                    }
                }
            }
        }
        "unsound" => match std::panic::catch_unwind(|| unsound(&v)) {
            Ok(s) => println!("{}", s),
            Err(_) => println!("NOT-REPRODUCED the dishonest prover panics"),
        },
        k => println!("NOT-REPRODUCED unknown kind {}", k),
    }
}
