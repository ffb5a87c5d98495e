//! C13: place notation blocks expand symmetry and delimiters exactly.

#[path = "../bf.rs"]
mod bf;
#[path = "../pn.rs"]
mod pn;

use bellframe::{place_not::InvalidPnBlockError, PlaceNot, PnBlock};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use vcore::{ensure, ensure_eq, gen, Facet, Obs, Property};

type P = Vec<usize>;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Text {
    s: String,
    n: usize,
}

fn listed(b: &PnBlock, what: &str) -> Result<Vec<P>, String> {
    let n = b.stage().num_bells();
    let mut out = vec![];
    for (i, p) in b.place_nots().enumerate() {
        let places = pn::places(p);
        pn::is_pn(p, &places, n, &format!("change {} of {}", i, what))?;
        out.push(places);
    }
    ensure_eq!(b.len(), out.len(), "length of {}", what);
    Ok(out)
}

fn check_text(c: &Text, obs: &mut Obs) -> Result<(), String> {
    let m = pn::block_model(&c.s, c.n);
    let what = format!("{:?} on {} bells", c.s, c.n);
    match PnBlock::parse(&c.s, bf::stage(c.n)) {
        Ok(b) => {
            ensure!(
                m.faults.is_empty(),
                "{} was accepted, despite {:?}",
                what,
                m.faults
            );
            ensure!(
                !m.changes.is_empty(),
                "{} was accepted, but has no changes",
                what
            );
            ensure_eq!(b.stage().num_bells(), c.n, "stage of {}", what);
            ensure_eq!(listed(&b, &what)?, m.changes, "changes of {}", what);
            // Written out in full, without symmetry, it's the same block
            if c.n <= 33 {
                let long: Vec<String> = b.place_nots().map(|p| p.to_string()).collect();
                let again = PnBlock::parse(&long.join("."), bf::stage(c.n))
                    .map_err(|e| format!("{} written out is rejected: {}", what, e))?;
                ensure!(
                    again == b && bf::hash(&again) == bf::hash(&b),
                    "{} written out is {:?}",
                    what,
                    again
                );
            }
            obs.label("accepted");
        }
        Err(e) => {
            ensure!(
                !m.faults.is_empty() || m.changes.is_empty(),
                "{} was rejected: {:?}",
                what,
                e
            );
            pn::judge_block_error(&c.s, c.n, &m, &e)?;
            obs.label("rejected");
            obs.label_if(m.num_parts > 1, "rejected in several parts");
        }
    }
    obs.label_if(m.palindromes > 0, "palindrome");
    obs.label_if(m.palindromes > 1, "two palindromes");
    obs.nontrivial_if(m.changes.len() + m.faults.len() >= 3);
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct List {
    changes: Vec<(usize, P)>,
}

fn check_list(c: &List, obs: &mut Obs) -> Result<(), String> {
    let pns: Vec<PlaceNot> = c.changes.iter().map(|(n, p)| pn::build(p, *n)).collect();
    let a = PnBlock::from_vec(pns.clone());
    let b = PnBlock::from_iter(pns.iter().cloned());
    ensure!(a == b, "from_vec and from_iter disagree: {:?} / {:?}", a, b);
    let how = pns.len() + c.changes.iter().map(|(n, p)| n + p.len()).sum::<usize>();
    let b = PnBlock::from_iter(bf::hinted(pns.iter().cloned(), how));
    ensure!(
        a == b,
        "from_vec and from_iter (another iterator) disagree: {:?} / {:?}",
        a,
        b
    );
    let odd_one: Vec<usize> = (0..pns.len())
        .filter(|&i| c.changes[i].0 != c.changes[0].0)
        .collect();
    match a {
        Ok(bl) => {
            ensure!(
                !pns.is_empty() && odd_one.is_empty(),
                "{:?} was accepted",
                c.changes
            );
            let want: Vec<P> = c.changes.iter().map(|x| x.1.clone()).collect();
            ensure_eq!(listed(&bl, "a listed block")?, want, "changes");
            ensure_eq!(bl.stage().num_bells(), c.changes[0].0, "stage");
            ensure!(
                bl.place_nots().eq(pns.iter()),
                "place notations differ from those given"
            );
            obs.nontrivial_if(pns.len() >= 2);
        }
        Err(e) => {
            ensure!(!e.to_string().is_empty(), "{:?} displays as nothing", e);
            match e {
                InvalidPnBlockError::EmptyBlock => {
                    ensure!(pns.is_empty(), "{:?} reported as empty", c.changes)
                }
                InvalidPnBlockError::IncompatibleStages(i, inner) => {
                    ensure!(
                        odd_one.contains(&i),
                        "change {} of {:?} reported",
                        i,
                        c.changes
                    );
                    let (first, other) = (bf::stage(c.changes[0].0), bf::stage(c.changes[i].0));
                    for text in [e.to_string(), inner.to_string()] {
                        ensure!(
                            text.contains(&first.to_string()) && text.contains(&other.to_string()),
                            "'{}' doesn't name stages {} and {}",
                            text,
                            first,
                            other
                        );
                    }
                    obs.label("mixed stages");
                }
            }
        }
    }
    Ok(())
}

/// Every text of a few characters over an alphabet which includes each kind of character
fn short_texts(max: usize) -> Box<dyn Iterator<Item = Text>> {
    const ALPHA: [char; 9] = ['1', '4', '5', 'x', '.', ',', '+', ' ', 'é'];
    Box::new((0..=max).flat_map(|len| {
        (0..ALPHA.len().pow(len as u32)).flat_map(move |mut k| {
            let mut s = String::new();
            for _ in 0..len {
                s.push(ALPHA[k % ALPHA.len()]);
                k /= ALPHA.len();
            }
            [4usize, 5]
                .into_iter()
                .map(move |n| Text { s: s.clone(), n })
        })
    }))
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Long {
    parts: Vec<Vec<P>>,
    tail: String,
    len: usize,
    k: usize,
    n: usize,
}

fn main() {
    vcore::main(Property {
        id: "C13",
        facets: vec![
            Facet::enumerated(
                "every short text",
                "three changes or faults, or more",
                |t| short_texts(if t == vcore::Tier::Quick { 5 } else { 6 }),
                check_text,
            ),
            Facet::random(
                "texts",
                400_000,
                8_000_000,
                "three changes or faults, or more",
                |_| {
                    let structured = gen::stage().prop_flat_map(|n| (pn::block_text(n), Just(n)));
                    let any = (gen::text(14), gen::wide_stage());
                    prop_oneof![8 => structured, 2 => any]
                        .prop_map(|(s, n)| Text { s, n })
                        .boxed()
                },
                check_text,
            ),
            Facet::random(
                "long texts",
                96,
                4_000,
                "three changes or faults, or more",
                |_| {
                    let len = prop_oneof![3 => 65_400usize..65_700, 1 => 250usize..270, 1 => 1000usize..100_000];
                    (4usize..=10)
                        .prop_flat_map(move |n| {
                            (
                                vec(pn::changes(n, 5), 1..4),
                                pn::block_text(n),
                                len.clone(),
                                0usize..4,
                                Just(n),
                            )
                        })
                        .prop_map(|(parts, tail, len, k, n)| Long {
                            parts,
                            tail,
                            len,
                            k,
                            n,
                        })
                        .boxed()
                },
                |c: &Long, obs| {
                    // Good changes, in a part or more, and then anything
                    let mut s = String::new();
                    for part in &c.parts {
                        let unit: Vec<String> =
                            part.iter().map(|p| pn::build(p, c.n).to_string()).collect();
                        let unit = unit.join(".");
                        let from = s.len();
                        while s.len() - from < c.len / c.parts.len() {
                            s.push_str(&unit);
                            s.push('.');
                        }
                        s.pop();
                        s.push(if c.k == 0 { ',' } else { '.' });
                    }
                    s.push_str(&c.tail);
                    obs.label_if(s.len() > 65_536, "over 65,536 bytes");
                    check_text(&Text { s, n: c.n }, obs)
                },
            ),
            Facet::random(
                "lists",
                150_000,
                3_000_000,
                "two changes or more, of one stage",
                |_| {
                    gen::wide_stage()
                        .prop_flat_map(|n| {
                            let one = prop_oneof![
                                12 => gen::change(n).prop_map(move |p| (n, p)),
                                1 => gen::stage().prop_flat_map(|m| gen::change(m).prop_map(move |p| (m, p)))
                            ];
                            vec(one, 0..8)
                        })
                        .prop_map(|changes| List { changes })
                        .boxed()
                },
                check_list,
            ),
        ],
        assumptions: vec!["which of several faults of a text is reported is left open"],
    })
}
