//! C14: a place notation block generates the rows its changes ring.

#[path = "../bf.rs"]
mod bf;
#[path = "../pn.rs"]
mod pn;

use bellframe::{AnnotBlock, Block, PnBlock};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcore::{ensure, ensure_eq, gen, Facet, Obs, Property};

type P = Vec<usize>;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    n: usize,
    changes: Vec<P>,
    /// Parsed from a palindromic text rather than listed
    sym: bool,
    start: P,
}

fn check(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let (block, changes) = if c.sym && c.n <= 33 {
        let text: Vec<String> = c
            .changes
            .iter()
            .map(|p| pn::build(p, c.n).to_string())
            .collect();
        let s = format!("{},{}", text.join("."), text[0]);
        let mut all = c.changes.clone();
        all.extend(c.changes.iter().rev().skip(1).cloned());
        all.push(c.changes[0].clone());
        obs.label("palindrome");
        (
            PnBlock::parse(&s, bf::stage(c.n)).map_err(|e| format!("{:?}: {}", s, e))?,
            all,
        )
    } else {
        let b = PnBlock::from_vec(c.changes.iter().map(|p| pn::build(p, c.n)).collect())
            .map_err(|e| e.to_string())?;
        (b, c.changes.clone())
    };
    ensure_eq!(block.len(), changes.len(), "length of the block of changes");
    let raw =
        unsafe { PnBlock::from_vec_unchecked(changes.iter().map(|p| pn::build(p, c.n)).collect()) };
    ensure!(
        raw == block,
        "the block {:?} built without checks differs",
        changes
    );
    let start = bf::row(&c.start);
    let rows = block.to_rows(start.clone());
    let built: Result<AnnotBlock<Option<String>>, _> = block.to_block(start.clone());
    let plain: Result<Block, _> = block.to_block(start.clone());
    let model = |start: &[usize]| {
        let mut out = vec![start.to_vec()];
        for ch in &changes {
            out.push(gen::mul(out.last().unwrap(), &gen::change_perm(c.n, ch)));
        }
        out
    };
    if c.start.len() != c.n {
        ensure!(
            rows.is_err() && built.is_err() && plain.is_err(),
            "a row of {} bells was accepted by changes of {}",
            c.start.len(),
            c.n
        );
        obs.label("mixed stages");
    } else {
        let want = model(&c.start);
        let rows =
            rows.map_err(|e| format!("a starting row of the same stage was refused: {}", e))?;
        ensure_eq!(
            bf::ssv_rows(&rows),
            want,
            "rows of {:?} from {:?}",
            changes,
            c.start
        );
        ensure_eq!(rows.len(), changes.len() + 1, "number of rows");
        for r in &rows {
            bf::valid(r)?;
        }
        let built =
            built.map_err(|e| format!("a starting row of the same stage was refused: {}", e))?;
        let plain =
            plain.map_err(|e| format!("a starting row of the same stage was refused: {}", e))?;
        ensure_eq!(built.len(), changes.len(), "length of the block");
        ensure_eq!(plain.len(), changes.len(), "length of the plain block");
        ensure!(
            built.row_vec() == &rows && plain.row_vec() == &rows,
            "rows of the blocks differ from the rows generated"
        );
        ensure!(
            built.annots().count() == changes.len() && built.annots().all(Option::is_none),
            "annotations aren't the default"
        );
        ensure_eq!(
            plain.annots().count(),
            changes.len(),
            "number of annotations of the plain block"
        );
        bf::is_row(built.leftover_row(), want.last().unwrap(), "leftover row")?;
    }
    // From rounds
    let b: AnnotBlock<u32> = block.to_block_from_rounds();
    let want = model(&gen::id(c.n));
    ensure_eq!(bf::ssv_rows(b.row_vec()), want, "rows from rounds");
    ensure!(
        b.annots().all(|a| *a == 0) && b.len() == changes.len(),
        "annotations from rounds"
    );
    let product = changes.iter().fold(gen::id(c.n), |a, ch| {
        gen::mul(&a, &gen::change_perm(c.n, ch))
    });
    bf::is_row(b.leftover_row(), &product, "leftover row from rounds")?;
    obs.nontrivial_if(changes.len() >= 2 && product != gen::id(c.n));
    Ok(())
}

/// Tens of thousands of changes
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Long {
    unit: Case,
    len: usize,
}

fn main() {
    vcore::main(Property {
        id: "C14",
        facets: vec![
            Facet::random(
                "long",
                48,
                2_000,
                "two changes or more, which don't return to the first row",
                |_| {
                    let len = prop_oneof![2 => 65_500usize..65_600, 1 => 32_750usize..32_780, 1 => 1000usize..10_000, 1 => 65_600usize..100_000];
                    (
                        (2usize..=8).prop_flat_map(|n| {
                            (
                                pn::changes(n, 24),
                                prop_oneof![4 => Just(false), 1 => Just(true)],
                                gen::perm(n),
                                Just(n),
                            )
                        }),
                        len,
                    )
                        .prop_map(|((changes, sym, start, n), len)| Long {
                            unit: Case {
                                n,
                                changes,
                                sym,
                                start,
                            },
                            len,
                        })
                        .boxed()
                },
                |c: &Long, obs: &mut Obs| {
                    let mut u = c.unit.clone();
                    u.changes = c
                        .unit
                        .changes
                        .iter()
                        .cycle()
                        .take(if u.sym { c.len / 2 } else { c.len })
                        .cloned()
                        .collect();
                    obs.label_if(c.len > 65_536, "over 65,536 changes");
                    check(&u, obs)
                },
            ),
            Facet::random(
                "rows",
                400_000,
                6_000_000,
                "two changes or more, which don't return to the first row",
                |_| {
                    gen::wide_stage()
                    .prop_flat_map(|n| {
                        let start = prop_oneof![12 => gen::perm(n), 1 => gen::perm(n + 1), 1 => gen::any_perm()];
                        (pn::changes(n, if n > 20 { 8 } else { 24 }), any::<bool>(), start, Just(n))
                    })
                    .prop_map(|(changes, sym, start, n)| Case { n, changes, sym, start })
                    .boxed()
                },
                check,
            ),
        ],
        assumptions: vec![],
    })
}
