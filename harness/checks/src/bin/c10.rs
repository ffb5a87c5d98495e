//! C10: repeating a block rings it forever from the given row.

#[path = "../bf.rs"]
mod bf;

use bellframe::{AnnotBlock, RowBuf, SameStageVec};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use vcore::{ensure, ensure_eq, gen, Facet, Obs, Property};

type P = Vec<usize>;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    /// Rows after the first (which is rounds); the last is left over
    rest: Vec<P>,
    start: P,
    stage: usize,
    steps: usize,
    /// Which form of `next` to use at each step
    forms: Vec<u8>,
    dest: P,
}

fn check(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let n = c.stage;
    let mut rows = vec![gen::id(n)];
    rows.extend(c.rest.iter().cloned());
    let len = rows.len() - 1;
    let mut v = SameStageVec::new(bf::stage(n));
    v.extend(rows.iter().map(|r| bf::row(r)))
        .map_err(|e| e.to_string())?;
    let block = AnnotBlock::with_annots_from_indices(v, |i| format!("annotation {}", i)).unwrap();
    let it = block.repeat_iter(bf::row(&c.start));
    if c.start.len() != n {
        ensure!(
            it.is_err(),
            "a starting row of {} bells was accepted by a block of {}",
            c.start.len(),
            n
        );
        obs.label("mixed stages");
        return Ok(());
    }
    let mut it = it.map_err(|e| format!("a starting row of the same stage was refused: {}", e))?;
    let mut out = bf::row(&c.dest);
    if len == 0 {
        ensure!(
            it.next().is_none() && it.next_into(&mut out).is_none() && it.next().is_none(),
            "an empty block repeats"
        );
        bf::is_row(&out, &c.dest, "the buffer after nothing was yielded")?;
        obs.label("empty block");
        return Ok(());
    }
    let mut head = c.start.clone();
    let mut clones = vec![];
    for k in 0..c.steps {
        let i = k % len;
        if k > 0 && i == 0 {
            head = gen::mul(&head, &rows[len]);
        }
        let want = gen::mul(&head, &rows[i]);
        let form = c.forms[k % c.forms.len()];
        let (row, idx, annot): (RowBuf, usize, &String) = match form % 4 {
            0 | 1 => it.next().ok_or_else(|| format!("ended after {} rows", k))?,
            2 => {
                let (i, a) = it
                    .next_into(&mut out)
                    .ok_or_else(|| format!("ended after {} rows", k))?;
                (out.clone(), i, a)
            }
            _ => {
                clones.push((k, it.clone()));
                it.next().ok_or_else(|| format!("ended after {} rows", k))?
            }
        };
        bf::is_row(
            &row,
            &want,
            &format!("row {} of the repetition (row {} of the block)", k, i),
        )?;
        ensure_eq!(idx, i, "index of row {} of the repetition", k);
        ensure!(
            std::ptr::eq(annot, block.get_annot(i).unwrap())
                || annot == block.get_annot(i).unwrap(),
            "annotation of row {} of the repetition is {}",
            k,
            annot
        );
    }
    // Clones carry on from where they were taken
    for (k, mut cl) in clones.into_iter().take(3) {
        let lap = (k / len) as u64;
        let mut head = gen::mul(&c.start, &gen::pow(&rows[len], lap));
        for j in k..(k + 2 * len + 2).min(k + 40) {
            if j > k && j % len == 0 {
                head = gen::mul(&head, &rows[len]);
            }
            let (r, i, _) = cl.next().ok_or("a clone ended")?;
            ensure_eq!(i, j % len, "index in a clone");
            bf::is_row(&r, &gen::mul(&head, &rows[j % len]), "row of a clone")?;
        }
    }
    obs.label_if(c.steps > 2 * len, "more than two rounds");
    obs.nontrivial_if(c.steps > len && rows[len] != gen::id(n));
    Ok(())
}

fn strategy() -> BoxedStrategy<Case> {
    (
        gen::stage(),
        prop_oneof![100 => 0usize..9, 1 => 9usize..300],
        prop_oneof![100 => 1usize..60, 1 => 60usize..900],
    )
        .prop_flat_map(|(n, len, steps)| {
            (
                vec(gen::perm(n), len),
                prop_oneof![12 => gen::perm(n), 1 => gen::perm(n + 1), 1 => gen::any_perm()],
                Just(n),
                Just(steps),
                vec(any::<u8>(), 1..8),
                gen::any_perm(),
            )
        })
        .prop_map(|(rest, start, stage, steps, forms, dest)| Case {
            rest,
            start,
            stage,
            steps,
            forms,
            dest,
        })
        .boxed()
}

/// Long blocks, and many rows
fn long() -> BoxedStrategy<Case> {
    (prop_oneof![2usize..=6], prop_oneof![1 => 1usize..20, 2 => 200usize..300, 2 => 65_500usize..65_600, 1 => 65_600usize..70_000], vec(any::<u8>(), 1..8))
        .prop_flat_map(|(n, len, forms)| {
            let extra = prop_oneof![1 => Just(66_000usize), 1 => 0usize..300, 1 => 0usize..3000];
            (vec(gen::perm(n), 1..30), gen::perm(n), Just((n, len, forms)), extra)
        })
        .prop_map(|(unit, start, (stage, len, forms), extra)| Case {
            rest: unit.iter().cycle().take(len).cloned().collect(),
            start,
            stage,
            steps: len + extra,
            forms: forms.iter().map(|f| if f % 4 == 3 { 0 } else { *f }).collect(),
            dest: gen::id(stage),
        })
        .boxed()
}

fn main() {
    vcore::main(Property {
        id: "C10",
        facets: vec![
            Facet::random(
                "long",
                80,
                3_000,
                "goes round more than once, with a lead head other than rounds",
                |_| long(),
                check,
            ),
            Facet::random(
                "repeat",
                120_000,
                3_000_000,
                "goes round more than once, with a lead head other than rounds",
                |_| strategy(),
                check,
            ),
        ],
        assumptions: vec![],
    })
}
