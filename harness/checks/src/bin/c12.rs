//! C12: applying a place notation keeps its places and swaps the other pairs.

#[path = "../bf.rs"]
mod bf;
#[path = "../pn.rs"]
mod pn;

use bellframe::PlaceNot;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcore::{ensure, ensure_eq, gen, Facet, Obs, Property};

type P = Vec<usize>;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Apply {
    n: usize,
    places: P,
    row: P,
}

/// Keep the bells in the places, swap the other neighbours
fn applied(row: &[usize], places: &[usize]) -> P {
    let mut out = row.to_vec();
    let mut i = 0;
    while i < out.len() {
        if places.contains(&i) {
            i += 1;
        } else {
            out.swap(i, i + 1);
            i += 2;
        }
    }
    out
}

fn check_apply(c: &Apply, obs: &mut Obs) -> Result<(), String> {
    let pn = pn::build(&c.places, c.n);
    let what = format!("{:?} on {} bells", c.places, c.n);
    pn::is_pn(&pn, &c.places, c.n, &what)?;
    let internal = c.places.iter().any(|&p| p != 0 && p != c.n - 1);
    ensure_eq!(
        pn.has_internal_places(),
        internal,
        "internal places of {}",
        what
    );
    let cross = PlaceNot::cross(bf::stage(c.n));
    ensure_eq!(
        cross.is_some(),
        c.n % 2 == 0,
        "the cross on {} bells exists",
        c.n
    );
    if let Some(x) = cross {
        pn::is_pn(&x, &[], c.n, "cross")?;
        ensure_eq!(x == pn, c.places.is_empty(), "{} is the cross", what);
    }
    bf::is_row(
        &pn.transposition(),
        &applied(&gen::id(c.n), &c.places),
        &format!("transposition of {}", what),
    )?;

    let row = bf::row(&c.row);
    let mut r = row.clone();
    if c.row.len() != c.n {
        obs.label("mixed stages");
        ensure!(
            pn.permute(&mut r).is_err(),
            "{} permuted a row of {} bells",
            what,
            c.row.len()
        );
        bf::is_row(&r, &c.row, "a row which was refused")?;
        ensure!(
            pn.permute_new(&row).is_err(),
            "{} permuted a copy of a row of {} bells",
            what,
            c.row.len()
        );
        return Ok(());
    }
    let want = applied(&c.row, &c.places);
    pn.permute(&mut r)
        .map_err(|e| format!("{} refused a row of its own stage: {}", what, e))?;
    bf::is_row(&r, &want, &format!("{} applied to {:?}", what, c.row))?;
    let new = pn
        .permute_new(&row)
        .map_err(|e| format!("{} refused to copy a row of its own stage: {}", what, e))?;
    bf::is_row(
        &new,
        &want,
        &format!("{} applied to a copy of {:?}", what, c.row),
    )?;
    bf::is_row(&row, &c.row, "the row copied from")?;
    // The unchecked forms are safe here
    bf::is_row(
        &unsafe { pn.permute_new_unchecked(&row) },
        &want,
        &format!("{} applied, unchecked, to a copy of {:?}", what, c.row),
    )?;
    let mut r2 = row.clone();
    unsafe { pn.permute_unchecked(&mut r2) };
    bf::is_row(
        &r2,
        &want,
        &format!("{} applied, unchecked, to {:?}", what, c.row),
    )?;
    bf::is_row(
        &(&row * &pn.transposition()),
        &want,
        &format!("{:?} times the transposition of {}", c.row, what),
    )?;
    pn.permute(&mut r).unwrap();
    bf::is_row(&r, &c.row, &format!("{} applied twice", what))?;
    let between = PlaceNot::pn_between(&row, &new)
        .ok_or_else(|| format!("no place notation between {:?} and {:?}", c.row, want))?;
    pn::is_pn(
        &between,
        &c.places,
        c.n,
        &format!("the notation between {:?} and {:?}", c.row, want),
    )?;
    ensure!(
        between == pn && bf::hash(&between) == bf::hash(&pn),
        "{} and the one found between rows differ",
        what
    );
    obs.label_if(c.places.is_empty(), "cross");
    obs.label_if(internal, "internal places");
    obs.nontrivial_if(want != c.row && !c.places.is_empty());
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Between {
    a: P,
    b: P,
}

fn check_between(c: &Between, obs: &mut Obs) -> Result<(), String> {
    let (ra, rb) = (bf::row(&c.a), bf::row(&c.b));
    let got = PlaceNot::pn_between(&ra, &rb);
    if c.a.len() != c.b.len() {
        obs.label("mixed stages");
        ensure!(
            got.is_none(),
            "a place notation between rows of {} and {} bells",
            c.a.len(),
            c.b.len()
        );
        return Ok(());
    }
    let n = c.a.len();
    let (ia, ib) = (gen::inv(&c.a), gen::inv(&c.b));
    let moves = |b: usize| ia[b].abs_diff(ib[b]);
    let adjacent = (0..n).all(|b| moves(b) <= 1);
    match got {
        None => {
            ensure!(
                !adjacent,
                "no place notation found between {:?} and {:?}",
                c.a,
                c.b
            );
            obs.label("not adjacent");
        }
        Some(p) => {
            ensure!(adjacent, "{} found between {:?} and {:?}", p, c.a, c.b);
            let places: P = (0..n).filter(|&i| c.a[i] == c.b[i]).collect();
            pn::is_pn(
                &p,
                &places,
                n,
                &format!("the notation between {:?} and {:?}", c.a, c.b),
            )?;
            bf::is_row(
                &p.permute_new(&ra).map_err(|e| e.to_string())?,
                &c.b,
                &format!("{} applied to {:?}", p, c.a),
            )?;
            let back = PlaceNot::pn_between(&rb, &ra).ok_or("not adjacent the other way round")?;
            ensure!(
                back == p,
                "the notation between {:?} and {:?} depends on the order",
                c.a,
                c.b
            );
            obs.label("adjacent");
            obs.nontrivial_if(c.a != c.b);
        }
    }
    bf::is_row(&ra, &c.a, "first row")?;
    bf::is_row(&rb, &c.b, "second row")
}

fn all_changes(max: usize) -> Box<dyn Iterator<Item = Apply>> {
    Box::new((1..=max).flat_map(|n| {
        (0u32..1 << n).filter_map(move |bits| {
            let places: P = (0..n).filter(|i| bits >> i & 1 == 1).collect();
            // Gaps between places must be even
            let mut edges = vec![-1i64];
            edges.extend(places.iter().map(|&p| p as i64));
            edges.push(n as i64);
            if edges.windows(2).any(|w| (w[1] - w[0] - 1) % 2 != 0) {
                return None;
            }
            let row: P = (0..n).map(|i| (i * 7 + 3) % n).collect();
            let row = if gen::is_perm(&row) {
                row
            } else {
                (0..n).rev().collect()
            };
            Some(Apply { n, places, row })
        })
    }))
}

/// Changes of very many bells with few places
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Giant {
    row: gen::Giant,
    marks: Vec<usize>,
    /// Two places of the second row to swap
    spoil: Option<(usize, usize)>,
}

fn check_giant(c: &Giant, obs: &mut Obs) -> Result<(), String> {
    let n = c.row.n;
    let mut marks: Vec<usize> = c.marks.iter().map(|m| m % n).collect();
    marks.sort();
    // Places are made at the marks, and wherever else the parity needs one
    let mut places = vec![];
    let mut next = 0;
    for m in marks {
        if m >= next {
            if (m - next) % 2 == 1 {
                places.push(next);
            }
            places.push(m);
            next = m + 1;
        }
    }
    if (n - next) % 2 == 1 {
        places.push(n - 1);
    }
    let row = c.row.perm();
    check_apply(
        &Apply {
            n,
            places: places.clone(),
            row: row.clone(),
        },
        obs,
    )?;
    let mut b = applied(&row, &places);
    if let Some((i, j)) = c.spoil {
        b.swap(i % n, j % n);
    }
    check_between(&Between { a: row, b }, obs)?;
    obs.label_if(n > 65_536, "over 65,536 bells");
    obs.nontrivial();
    Ok(())
}

fn giants() -> BoxedStrategy<Giant> {
    let mark = || prop_oneof![2 => 65_530usize..65_545, 1 => 0usize..10, 2 => any::<usize>(), 1 => 250usize..260, 1 => 131_065usize..131_080];
    (
        gen::giant(),
        proptest::collection::vec(mark(), 0..6),
        proptest::option::of((mark(), mark())),
    )
        .prop_map(|(row, marks, spoil)| Giant { row, marks, spoil })
        .boxed()
}

fn main() {
    vcore::main(Property {
        id: "C12",
        facets: vec![
            Facet::enumerated(
                "every change of small stages",
                "changes some row, but isn't the cross",
                |t| all_changes(if t == vcore::Tier::Quick { 14 } else { 20 }),
                check_apply,
            ),
            Facet::enumerated(
                "every pair of rows of small stages",
                "different rows with a place notation between them",
                |t| {
                    let max = if t == vcore::Tier::Quick { 5 } else { 6 };
                    Box::new((1..=max).flat_map(|n| {
                        gen::all_perms(n).into_iter().flat_map(move |a| {
                            gen::all_perms(n)
                                .into_iter()
                                .map(move |b| Between { a: a.clone(), b })
                        })
                    }))
                },
                check_between,
            ),
            Facet::random(
                "hundreds of places",
                4_000,
                100_000,
                "changes some row, but isn't the cross",
                |_| {
                    prop_oneof![2 => 127usize..135, 3 => 250usize..300, 1 => 300usize..900]
                        .prop_flat_map(|n| {
                            let coin = prop_oneof![1 => 0u8..160, 40 => 160u8..];
                            (proptest::collection::vec(coin, n), gen::perm(n))
                        })
                        .prop_map(|(coins, row)| Apply {
                            n: row.len(),
                            places: gen::change_from(row.len(), &coins),
                            row,
                        })
                        .boxed()
                },
                check_apply,
            ),
            Facet::random("giants", 160, 5_000, "always", |_| giants(), check_giant),
            Facet::random(
                "apply",
                500_000,
                8_000_000,
                "changes some row, but isn't the cross",
                |_| {
                    gen::wide_stage()
                        .prop_flat_map(|n| {
                            let row = prop_oneof![12 => gen::perm(n), 1 => gen::perm(n + 1), 1 => gen::any_perm()];
                            (gen::change(n), row, Just(n))
                        })
                        .prop_map(|(places, row, n)| Apply { n, places, row })
                        .boxed()
                },
                check_apply,
            ),
            Facet::random(
                "between",
                400_000,
                6_000_000,
                "different rows with a place notation between them",
                |_| {
                    let near = gen::wide_stage()
                        .prop_flat_map(|n| {
                            (
                                gen::perm(n),
                                gen::change(n),
                                proptest::collection::vec((0..n, 0..n), 0..2),
                            )
                        })
                        .prop_map(|(a, ch, swaps)| {
                            let mut b = applied(&a, &ch);
                            for (i, j) in swaps {
                                b.swap(i, j);
                            }
                            Between { a, b }
                        });
                    let any = gen::perm_pair().prop_map(|(a, b)| Between { a, b });
                    prop_oneof![6 => near, 1 => any].boxed()
                },
                check_between,
            ),
        ],
        assumptions: vec![],
    })
}
