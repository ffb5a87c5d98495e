//! C31: a row accumulator equals the product of what it was given.

#[path = "../bf.rs"]
mod bf;

use bellframe::row::RowAccumulator;
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use vcore::{ensure, ensure_eq, gen, Facet, Obs, Property};

type P = Vec<usize>;

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Right(P),
    Left(P),
    Assign(P),
    AssignRef(P),
    Set(P),
    Fork,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    start: P,
    from_rounds: bool,
    ops: Vec<Op>,
}

fn check(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let mut m = if c.from_rounds {
        gen::id(c.start.len())
    } else {
        c.start.clone()
    };
    let mut acc = if c.from_rounds {
        RowAccumulator::rounds(bf::stage(m.len()))
    } else {
        RowAccumulator::new(bf::row(&m))
    };
    let mut forks = vec![];
    let mut steps = 0;
    for (k, op) in c.ops.iter().enumerate() {
        let what = format!("step {} {:?}", k, op);
        match op {
            Op::Right(p) => {
                let r = acc.accumulate(&bf::row(p));
                ensure_eq!(r.is_ok(), p.len() == m.len(), "{}", what);
                if r.is_ok() {
                    m = gen::mul(&m, p);
                    steps += 1;
                }
            }
            Op::Left(p) => {
                let r = acc.pre_accumulate(&bf::row(p));
                ensure_eq!(r.is_ok(), p.len() == m.len(), "{}", what);
                if r.is_ok() {
                    m = gen::mul(p, &m);
                    steps += 1;
                }
            }
            Op::Assign(p) | Op::AssignRef(p) => {
                let row = bf::row(p);
                let r = vcore::panics(|| {
                    if matches!(op, Op::Assign(_)) {
                        acc *= &row
                    } else {
                        acc *= row.as_row()
                    }
                });
                ensure_eq!(r.is_ok(), p.len() == m.len(), "{}", what);
                if r.is_ok() {
                    m = gen::mul(&m, p);
                    steps += 1;
                }
            }
            Op::Set(p) => {
                acc.set(&bf::row(p));
                obs.label_if(p.len() != m.len(), "set to another stage");
                m = p.clone();
            }
            Op::Fork => forks.push((m.clone(), acc.clone())),
        }
        bf::is_row(acc.total(), &m, &format!("total after {}", what))?;
    }
    bf::is_row(&acc.into_total(), &m, "final total")?;
    for (m, a) in forks {
        bf::is_row(a.total(), &m, "total of a clone")?;
    }
    obs.nontrivial_if(steps >= 2 && m.len() >= 3);
    Ok(())
}

fn strategy() -> BoxedStrategy<Case> {
    (gen::stage(), gen::stage())
        .prop_flat_map(|(n, o)| {
            let row =
                move || prop_oneof![8 => gen::perm(n), 2 => gen::perm(o), 1 => gen::perm(n + 1)];
            let op = prop_oneof![
                3 => row().prop_map(Op::Right),
                3 => row().prop_map(Op::Left),
                1 => row().prop_map(Op::Assign),
                1 => row().prop_map(Op::AssignRef),
                1 => row().prop_map(Op::Set),
                1 => Just(Op::Fork),
            ];
            (
                gen::perm(n),
                any::<bool>(),
                gen::list(op, 0, 16, if n > 16 { 40 } else { 300 }),
            )
        })
        .prop_map(|(start, from_rounds, ops)| Case {
            start,
            from_rounds,
            ops,
        })
        .boxed()
}

/// On tens of thousands of bells
fn giants() -> BoxedStrategy<Case> {
    gen::giant_stage()
        .prop_flat_map(|n| {
            let row = move || {
                prop_oneof![8 => gen::giant_of(n), 1 => gen::giant_of(n + 1), 1 => gen::giant()]
                    .prop_map(|g| g.perm())
            };
            let op = prop_oneof![
                3 => row().prop_map(Op::Right),
                3 => row().prop_map(Op::Left),
                1 => row().prop_map(Op::Assign),
                1 => row().prop_map(Op::AssignRef),
                1 => row().prop_map(Op::Set),
            ];
            (gen::giant_of(n), any::<bool>(), vec(op, 0..6))
        })
        .prop_map(|(start, from_rounds, ops)| Case {
            start: start.perm(),
            from_rounds,
            ops,
        })
        .boxed()
}

fn main() {
    vcore::main(Property {
        id: "C31",
        facets: vec![
            Facet::random(
                "history",
                120_000,
                3_000_000,
                "two rows accumulated on three or more bells",
                |_| strategy(),
                check,
            ),
            Facet::random(
                "giants",
                60,
                2_000,
                "two rows accumulated on three or more bells",
                |_| giants(),
                check,
            ),
        ],
        assumptions: vec![],
    })
}
