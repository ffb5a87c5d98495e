//! C06: generated row sets are exactly the group or product they claim.

#[path = "../bf.rs"]
mod bf;

use std::collections::BTreeSet;

use bellframe::{Row, RowBuf};
use proptest::{collection::vec, prelude::*};
use vcore::{ensure, gen, Facet, Obs, Property};

type P = Vec<usize>;

fn rows(ps: &[P]) -> Vec<RowBuf> {
    ps.iter().map(|p| bf::row(p)).collect()
}

fn listed(rs: &[RowBuf]) -> Result<Vec<P>, String> {
    rs.iter().map(|r| bf::valid(r)).collect()
}

fn check_closure(p: &P, obs: &mut Obs) -> Result<(), String> {
    let order = gen::order(p);
    if order > 3000 {
        obs.label("skipped: order over 3000");
        return Ok(());
    }
    let mut want = vec![gen::id(p.len())];
    for _ in 0..order {
        want.push(gen::mul(want.last().unwrap(), p));
    }
    let r = bf::row(p);
    let got = listed(&r.closure())?;
    ensure!(
        got == want[1..],
        "closure of {} lists {:?}, not its {} powers in order",
        r,
        got,
        order
    );
    let got = listed(&r.closure_from_rounds())?;
    ensure!(
        got == want[..order as usize],
        "closure from rounds of {} lists {:?}, not its {} powers in order",
        r,
        got,
        order
    );
    obs.nontrivial_if(order > 1);
    Ok(())
}

/// All finite non-empty products, by breadth-first search with multiplication on the left
fn products(gens: &[P]) -> BTreeSet<P> {
    let mut seen: BTreeSet<P> = gens.iter().cloned().collect();
    let mut todo: Vec<P> = seen.iter().cloned().collect();
    while let Some(x) = todo.pop() {
        for g in gens {
            let y = gen::mul(g, &x);
            if seen.insert(y.clone()) {
                todo.push(y);
            }
        }
    }
    seen
}

fn one_stage(ps: &[P]) -> bool {
    ps.windows(2).all(|w| w[0].len() == w[1].len())
}

fn check_group(gens: &Vec<P>, obs: &mut Obs) -> Result<(), String> {
    let rs = rows(gens);
    let how = gens.iter().flatten().take(3).sum::<usize>() + rs.len();
    let got = match how % 7 {
        0 => Row::least_group_containing(rs.iter().map(|r| r.as_row())),
        h => Row::least_group_containing(bf::hinted(rs.iter().map(|r| r.as_row()), h)),
    };
    if !one_stage(gens) {
        ensure!(
            got.is_err(),
            "rows of several stages ({:?}) gave a group",
            rs
        );
        obs.label("mixed stages");
        return Ok(());
    }
    let got = got.map_err(|e| format!("rows of one stage ({:?}) gave {}", rs, e))?;
    let list: Vec<RowBuf> = got.iter().cloned().collect();
    let got: BTreeSet<P> = listed(&list)?.into_iter().collect();
    if gens.is_empty() {
        // Either convention (no rows, or none but the unknowable identity) has at most one row
        ensure!(got.len() <= 1, "no rows gave the group {:?}", got);
        return Ok(());
    }
    let want = products(gens);
    ensure!(
        got == want,
        "the group of {:?} has {} rows, expected {} (unexpected {:?}, missing {:?})",
        rs,
        got.len(),
        want.len(),
        got.difference(&want).next(),
        want.difference(&got).next()
    );
    // The result is a group, by the code's own test
    let is = Row::is_group(list.iter().map(|r| r.as_row())).map_err(|e| e.to_string())?;
    ensure!(is, "the group of {:?} is not called a group", rs);
    obs.nontrivial_if(want.len() > 2);
    obs.label_if(want.len() > 24, "more than 24 rows");
    Ok(())
}

fn gens() -> BoxedStrategy<Vec<P>> {
    let single = prop_oneof![4 => 1usize..=4, 2 => Just(5usize), 1 => Just(6)];
    let of_one = single.prop_flat_map(|n| vec(gen::perm(n), 0..4));
    // Larger stages, but only the bells of the front or back move
    let wide = prop_oneof![3 => 5usize..=14, 2 => 15usize..=40, 1 => 41usize..=70, 1 => proptest::sample::select(vec![128usize, 255, 256, 257, 300])];
    let sparse = wide.prop_flat_map(|n| {
        // One place for all the generators, or one for each
        let one = 0..=n - 4;
        vec((0..4usize, gen::perm(4), 0..=n - 4), 1..4)
            .prop_flat_map(move |v| (Just(v), one.clone()))
            .prop_map(move |(v, one)| {
                // Generators which move different bells make bigger groups, so few of them
                let two = v.len() == 2;
                v.into_iter()
                    .map(|(side, p, off)| {
                        let off = match side {
                            0 if two => 0,
                            0 | 1 => n - 4,
                            2 => one,
                            _ if two => off,
                            _ => one,
                        };
                        let mut r = gen::id(n);
                        for (i, x) in p.into_iter().enumerate() {
                            r[off + i] = off + x;
                        }
                        r
                    })
                    .collect::<Vec<_>>()
            })
    });
    let cyclic = (2usize..=20).prop_flat_map(|n| {
        vec(
            (0..n).prop_map(move |k| (0..n).map(|i| (i + k) % n).collect::<P>()),
            1..4,
        )
    });
    let mixed = vec((1usize..=5).prop_flat_map(gen::perm), 1..5);
    prop_oneof![6 => of_one, 2 => sparse, 2 => cyclic, 2 => mixed].boxed()
}

fn check_is_group(set: &Vec<P>, obs: &mut Obs) -> Result<(), String> {
    let rs = rows(set);
    let how = set.iter().flatten().take(3).sum::<usize>() + rs.len();
    let got = match how % 7 {
        0 => Row::is_group(rs.iter().map(|r| r.as_row())),
        h => Row::is_group(bf::hinted(rs.iter().map(|r| r.as_row()), h)),
    };
    if !one_stage(set) {
        ensure!(
            got.is_err(),
            "rows of several stages ({:?}) gave {:?}",
            rs,
            got
        );
        obs.label("mixed stages");
        return Ok(());
    }
    let got = got.map_err(|e| format!("rows of one stage ({:?}) gave {}", rs, e))?;
    let s: BTreeSet<&P> = set.iter().collect();
    let want = !set.is_empty()
        && s.iter()
            .all(|a| s.contains(&gen::inv(a)) && s.iter().all(|b| s.contains(&gen::mul(a, b))));
    ensure!(got == want, "is_group({:?}) is {}", rs, got);
    obs.label(if want { "a group" } else { "not a group" });
    obs.nontrivial_if(set.len() >= 2);
    Ok(())
}

fn sets() -> BoxedStrategy<Vec<P>> {
    let from_group = (
        gens(),
        any::<u8>(),
        any::<proptest::sample::Index>(),
        any::<proptest::sample::Index>(),
    )
        .prop_map(|(g, k, i, j)| {
            if !one_stage(&g) || g.is_empty() {
                return g;
            }
            let mut v: Vec<P> = products(&g).into_iter().collect();
            if v.len() > 150 {
                v.truncate(150);
            }
            let n = v[0].len();
            match k % 7 {
                0 | 1 => {}
                2 => {
                    v.remove(i.index(v.len()));
                }
                3 => {
                    let i = i.index(v.len());
                    v[i].swap(0, j.index(n));
                }
                4 => v.push(v[i.index(v.len())].clone()), // a duplicate changes nothing
                5 => {
                    // Keep rounds and one row
                    let r = v[i.index(v.len())].clone();
                    v = vec![gen::id(n), r];
                }
                _ => {
                    // A left coset: same size, usually not a group
                    let mut t = gen::id(n);
                    t.swap(i.index(n), j.index(n));
                    v = v.iter().map(|x| gen::mul(&t, x)).collect();
                }
            }
            v
        });
    prop_oneof![8 => from_group, 1 => gens(), 1 => Just(vec![])].boxed()
}

fn check_product(sets: &Vec<Vec<P>>, obs: &mut Obs) -> Result<(), String> {
    let rs: Vec<Vec<RowBuf>> = sets.iter().map(|s| rows(s)).collect();
    let how = sets.iter().flatten().flatten().take(3).sum::<usize>() + rs.len();
    let got = match how % 7 {
        0 => Row::multi_cartesian_product(rs.iter().map(|s| s.iter())),
        h => {
            let sets = rs.iter().enumerate();
            let sets = sets.map(|(i, s)| bf::hinted(s.iter(), h + i));
            Row::multi_cartesian_product(bf::hinted(sets, h / 2))
        }
    };
    let all: Vec<P> = sets.iter().flatten().cloned().collect();
    let empty = sets.is_empty() || sets.iter().any(|s| s.is_empty());
    if !one_stage(&all) {
        obs.label("mixed stages");
        match got {
            Err(_) => return Ok(()),
            // A product with an empty set is empty whatever else is in it
            Ok(v) if empty && v.is_empty() => return Ok(()),
            Ok(v) => return Err(format!("sets of several stages {:?} gave {:?}", rs, v)),
        }
    }
    let got = got.map_err(|e| format!("sets of one stage {:?} gave {}", rs, e))?;
    let mut got = listed(&got)?;
    let mut want: Vec<P> = Vec::new();
    if !empty {
        want = sets[0].clone();
        for s in &sets[1..] {
            want = want
                .iter()
                .flat_map(|a| s.iter().map(move |b| gen::mul(a, b)))
                .collect();
        }
    }
    got.sort();
    want.sort();
    ensure!(
        got == want,
        "the product of {:?} is {:?}, expected {:?}",
        rs,
        got,
        want
    );
    obs.label_if(empty, "an empty set");
    obs.nontrivial_if(sets.len() >= 2 && want.len() >= 2);
    Ok(())
}

fn product_sets() -> BoxedStrategy<Vec<Vec<P>>> {
    prop_oneof![
        8 => gen::stage().prop_flat_map(|n| vec(vec(gen::perm(n), 1..4), 0..5)),
        2 => gen::small_stage().prop_flat_map(|n| vec(vec(gen::perm(n), 0..3), 0..5)),
        2 => vec(vec((3usize..=4).prop_flat_map(gen::perm), 0..3), 0..5),
    ]
    .boxed()
}

fn main() {
    vcore::main(Property {
        id: "C06",
        facets: vec![
            Facet::enumerated(
                "all-small-closures",
                "more than one power",
                |tier| {
                    let max = if tier == vcore::Tier::Quick { 6 } else { 8 };
                    Box::new((1..=max).flat_map(gen::all_perms))
                },
                check_closure,
            ),
            Facet::enumerated(
                "all-subsets-of-three-bells",
                "two or more rows",
                |_| {
                    Box::new((1usize..=3).flat_map(|n| {
                        let all = gen::all_perms(n);
                        (0u32..1 << all.len()).map(move |m| {
                            (0..all.len())
                                .filter(|i| m >> i & 1 == 1)
                                .map(|i| all[i].clone())
                                .collect::<Vec<P>>()
                        })
                    }))
                },
                |s: &Vec<P>, obs| {
                    check_is_group(s, obs)?;
                    check_group(s, obs)
                },
            ),
            Facet::random(
                "closure",
                30_000,
                800_000,
                "more than one power",
                |_| gen::any_perm(),
                check_closure,
            ),
            Facet::random(
                "least-group",
                12_000,
                400_000,
                "more than two rows in the group",
                |_| gens(),
                check_group,
            ),
            Facet::random(
                "is-group",
                20_000,
                600_000,
                "two or more rows",
                |_| sets(),
                check_is_group,
            ),
            Facet::random(
                "product",
                50_000,
                1_500_000,
                "two sets and two products",
                |_| product_sets(),
                check_product,
            ),
        ],
        assumptions: vec![],
    })
}
