//! C27: a call reports the parts it was made from and its own transposition.

#[path = "../bf.rs"]
mod bf;
#[path = "../pn.rs"]
mod pn;

use bellframe::{call, Block, Call, PnBlock, SameStageVec};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use vcore::{ensure, ensure_eq, gen, Facet, Obs, Property};

type P = Vec<usize>;

fn same(c: &Call, notation: char, location: &str, covers: usize, rows: &[P]) -> Result<(), String> {
    let n = rows[0].len();
    ensure_eq!(c.notation(), notation, "notation");
    ensure_eq!(c.location(), location, "location");
    ensure_eq!(c.cover_len(), covers, "covered length");
    ensure_eq!(bf::ssv_rows(c.block().row_vec()), rows, "rows");
    ensure_eq!(c.len(), rows.len() - 1, "length");
    ensure_eq!(c.stage().num_bells(), n, "stage");
    let eff = rows
        .iter()
        .map(|r| (0..n).rev().find(|&i| r[i] != i).map_or(1, |i| i + 1))
        .max()
        .unwrap();
    ensure_eq!(c.effective_stage().num_bells(), eff, "effective stage");
    bf::is_row(c.transposition(), &rows[rows.len() - 1], "transposition")
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Parts {
    notation: char,
    location: String,
    covers: usize,
    n: usize,
    rest: Vec<P>,
}

fn check_parts(c: &Parts, obs: &mut Obs) -> Result<(), String> {
    let mut rows = vec![gen::id(c.n)];
    rows.extend(c.rest.iter().cloned());
    let mut v = SameStageVec::new(bf::stage(c.n));
    v.extend(rows.iter().map(|r| bf::row(r)))
        .map_err(|e| e.to_string())?;
    let call = Call::new(
        c.notation,
        c.location.clone(),
        c.covers,
        Block::with_default_annots(v),
    );
    same(&call, c.notation, &c.location, c.covers, &rows)?;
    let copy = call.clone();
    drop(call);
    same(&copy, c.notation, &c.location, c.covers, &rows).map_err(|e| format!("clone: {}", e))?;
    obs.label_if(c.covers != rows.len() - 1, "covers another length");
    obs.nontrivial_if(rows.len() > 2);
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct LeadEnd {
    n: usize,
    changes: Vec<P>,
}

fn check_lead_end(c: &LeadEnd, obs: &mut Obs) -> Result<(), String> {
    let block = PnBlock::from_vec(c.changes.iter().map(|p| pn::build(p, c.n)).collect())
        .map_err(|e| e.to_string())?;
    let mut rows = vec![gen::id(c.n)];
    for ch in &c.changes {
        rows.push(gen::mul(rows.last().unwrap(), &gen::change_perm(c.n, ch)));
    }
    let bob = Call::le_bob(block.clone());
    let single = Call::le_single(block);
    same(&bob, '-', "LE", c.changes.len(), &rows).map_err(|e| format!("bob: {}", e))?;
    same(&single, 's', "LE", c.changes.len(), &rows).map_err(|e| format!("single: {}", e))?;
    same(&bob.clone(), '-', "LE", c.changes.len(), &rows)
        .map_err(|e| format!("cloned bob: {}", e))?;
    same(&single.clone(), 's', "LE", c.changes.len(), &rows)
        .map_err(|e| format!("cloned single: {}", e))?;
    ensure!(
        call::NOTATION_BOB == '-' && call::NOTATION_SINGLE == 's',
        "published notations"
    );
    ensure_eq!(
        bellframe::method::LABEL_LEAD_END,
        "LE",
        "published lead end label"
    );
    obs.nontrivial_if(c.changes.len() >= 2);
    Ok(())
}

fn main() {
    vcore::main(Property {
        id: "C27",
        facets: vec![
            Facet::random(
                "from parts",
                250_000,
                4_000_000,
                "two rows or more",
                |_| {
                    (
                        any::<char>(),
                        ".*",
                        prop_oneof![0usize..8, any::<usize>()],
                        gen::stage(),
                    )
                        .prop_flat_map(|(a, b, c, n)| {
                            (
                                Just(a),
                                Just(b),
                                Just(c),
                                Just(n),
                                gen::list(gen::perm(n), 1, 7, if n > 16 { 40 } else { 300 }),
                            )
                        })
                        .prop_map(|(notation, location, covers, n, rest)| Parts {
                            notation,
                            location,
                            covers,
                            n,
                            rest,
                        })
                        .boxed()
                },
                check_parts,
            ),
            Facet::random(
                "lead-end calls",
                250_000,
                4_000_000,
                "two changes or more",
                |_| {
                    gen::wide_stage()
                        .prop_flat_map(|n| (Just(n), pn::changes(n, 6)))
                        .prop_map(|(n, changes)| LeadEnd { n, changes })
                        .boxed()
                },
                check_lead_end,
            ),
        ],
        assumptions: vec!["the block of a call starts from rounds, as its documentation requires"],
    })
}
