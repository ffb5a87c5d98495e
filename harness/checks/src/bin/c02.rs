//! C02: row construction and parsing accept exactly the valid rows.

#[path = "../bf.rs"]
mod bf;

use bellframe::{InvalidRowError, Row, RowBuf};
use proptest::{collection::vec, prelude::*, sample::Index};
use serde::{Deserialize, Serialize};
use vcore::{ensure, gen, Facet, Obs, Property};

/// The row which a list of bells denotes, if any
fn expected(list: &[usize], stage: Option<usize>) -> Option<Vec<usize>> {
    match stage {
        None => (!list.is_empty() && gen::is_perm(list)).then(|| list.to_vec()),
        Some(n) => {
            // Bells written must be exactly those up to the largest written
            if !gen::is_perm(list) || list.len() > n {
                return None;
            }
            let mut v = list.to_vec();
            v.extend(list.len()..n);
            Some(v)
        }
    }
}

fn judge(
    what: &str,
    got: Result<RowBuf, InvalidRowError>,
    list: &[usize],
    stage: Option<usize>,
) -> Result<bool, String> {
    let want = expected(list, stage);
    if list.is_empty() && stage.is_some() {
        // Nothing was written: all covers, or no bells at all, are both fair
        if let Err(InvalidRowError::NoBells) = got {
            return Ok(false);
        }
    }
    match (got, want) {
        (Ok(r), Some(w)) => {
            bf::is_row(&r, &w, what)?;
            Ok(true)
        }
        (Err(e), None) => {
            bf::truthful(list, stage, &e).map_err(|m| format!("{}: {}", what, m))?;
            Ok(false)
        }
        (Ok(r), None) => Err(format!(
            "{} accepted {:?} (stage {:?}) as {}",
            what, list, stage, r
        )),
        (Err(e), Some(_)) => Err(format!(
            "{} rejected {:?} (stage {:?}): {}",
            what, list, stage, e
        )),
    }
}

fn check_list(list: &[usize], stage: Option<usize>, obs: &mut Obs) -> Result<(), String> {
    let bells = || list.iter().map(|&i| bf::bell(i)).collect::<Vec<_>>();
    let ok = match stage {
        None => {
            judge(
                "from_bell_iter",
                RowBuf::from_bell_iter(bells().into_iter()),
                list,
                None,
            )?;
            judge(
                "from_bell_iter (another iterator)",
                RowBuf::from_bell_iter(bf::hinted(
                    bells(),
                    list.iter().fold(0, |a: usize, &b| a.wrapping_add(b)),
                )),
                list,
                None,
            )?;
            judge("from_vec", RowBuf::from_vec(bells()), list, None)?
        }
        Some(n) => judge(
            "from_vec_with_stage",
            RowBuf::from_vec_with_stage(bells(), bf::stage(n)),
            list,
            stage,
        )?,
    };
    obs.label(if ok { "accepted" } else { "rejected" });
    obs.label_if(stage.is_some(), "with stage");
    obs.nontrivial_if(list.len() >= 2);
    if ok {
        let r = match stage {
            None => RowBuf::from_vec(bells()).unwrap(),
            Some(n) => RowBuf::from_vec_with_stage(bells(), bf::stage(n)).unwrap(),
        };
        if expected(list, None).is_some() {
            // The unchecked constructors are safe here
            bf::is_row(
                &unsafe { RowBuf::from_vec_unchecked(bells()) },
                list,
                "from_vec_unchecked",
            )?;
            bf::is_row(
                &unsafe { RowBuf::from_bell_iter_unchecked(bells().into_iter()) },
                list,
                "from_bell_iter_unchecked",
            )?;
            bf::is_row(
                &unsafe {
                    RowBuf::from_bell_iter_unchecked(bf::hinted(bells(), list[0] + list.len()))
                },
                list,
                "from_bell_iter_unchecked (another iterator)",
            )?;
            let mut slice = bells();
            bf::is_row(
                unsafe { Row::from_slice_unchecked(&slice) },
                list,
                "from_slice_unchecked",
            )?;
            let row = unsafe { Row::from_mut_slice_unchecked(&mut slice) };
            bf::is_row(row, list, "from_mut_slice_unchecked")?;
            row.swap(0, list.len() - 1);
            let mut swapped = list.to_vec();
            swapped.swap(0, list.len() - 1);
            let now: Vec<usize> = slice.iter().map(|b| b.index()).collect();
            ensure!(
                now == swapped,
                "swapping the ends of a row of borrowed bells {:?} made them {:?}",
                list,
                now
            );
        }
        let back: Vec<usize> = r.into_bell_vec().iter().map(|b| b.index()).collect();
        ensure!(
            Some(&back) == expected(list, stage).as_ref(),
            "into_bell_vec gives {:?} for {:?}",
            back,
            list
        );
    }
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct List {
    list: Vec<usize>,
    stage: Option<usize>,
}

/// A permutation, then possibly spoilt
fn lists() -> BoxedStrategy<List> {
    let edit = (
        0u8..6,
        any::<Index>(),
        prop_oneof![6 => 0usize..14, 2 => 0usize..70, 1 => any::<usize>()],
    );
    (
        prop_oneof![1 => Just(vec![]), 30 => gen::wide_perm()],
        prop_oneof![3 => Just(vec![]).boxed(), 3 => vec(edit, 1..4).boxed()],
        prop_oneof![2 => Just(None), 2 => (-2isize..4).prop_map(Some), 1 => (-40isize..40).prop_map(Some), 1 => (-400isize..400).prop_map(Some)],
    )
        .prop_map(|(mut list, edits, ds)| {
            for (k, i, b) in edits {
                if list.is_empty() {
                    list.push(b);
                    continue;
                }
                let i = i.index(list.len());
                match k {
                    0 => list[i] = b,
                    1 => {
                        list.remove(i);
                    }
                    2 => list.insert(i, b),
                    3 => list.truncate(i),
                    4 => list[i] = list[0],
                    _ => list[i] = list.len() + b % 3,
                }
            }
            let stage = ds.map(|d| (list.len() as isize + d).max(1) as usize);
            List { list, stage }
        })
        .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Text {
    text: String,
    stage: usize,
}

fn texts() -> BoxedStrategy<Text> {
    let noisy = (gen::stage(), gen::noise(4))
        .prop_flat_map(|(n, noise)| (gen::perm(n), Just(noise)))
        .prop_map(|(p, noise)| (gen::with_noise(&gen::names(&p), &noise), p.len()));
    let spoilt = lists().prop_map(|l| {
        let n = l.list.len();
        (gen::names(&l.list), n)
    });
    let soup = (gen::text(14), 1usize..14).prop_map(|(t, n)| (t, n));
    (
        prop_oneof![5 => noisy, 3 => spoilt, 3 => soup],
        prop_oneof![6 => -1isize..3, 2 => -20isize..20, 1 => -400isize..400],
    )
        .prop_map(|((text, n), d)| Text {
            text,
            stage: (n as isize + d).max(1) as usize,
        })
        .boxed()
}

fn check_text(t: &Text, obs: &mut Obs) -> Result<(), String> {
    let list = gen::bells_in(&t.text);
    let ok = judge("parse", RowBuf::parse(&t.text), &list, None)?;
    judge("from_str", t.text.parse::<RowBuf>(), &list, None)?;
    let ok_s = judge(
        "parse_with_stage",
        RowBuf::parse_with_stage(&t.text, bf::stage(t.stage)),
        &list,
        Some(t.stage),
    )?;
    obs.label_if(ok, "accepted");
    obs.label_if(ok_s, "accepted with stage");
    obs.label_if(!ok && !ok_s, "rejected both ways");
    obs.label_if(
        t.text.chars().any(|c| gen::name_to_index(c).is_none()),
        "with other characters",
    );
    obs.nontrivial_if(list.len() >= 2);
    Ok(())
}

/// A permutation of very many bells, with faults
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Far {
    giant: gen::Giant,
    cut: usize,
    edits: Vec<(usize, usize)>,
    stage: Option<isize>,
}

fn far() -> BoxedStrategy<Far> {
    let edit = (
        any::<usize>(),
        prop_oneof![
            0usize..10,
            65_530usize..65_545,
            any::<usize>(),
            131_000usize..131_100
        ],
    );
    (
        gen::giant(),
        prop_oneof![3 => Just(0usize), 1 => 1usize..4],
        prop_oneof![2 => Just(vec![]), 1 => vec(edit, 1..3)],
        proptest::option::of(prop_oneof![3 => -2isize..4, 1 => -70_000isize..70_000, 1 => Just(65_536isize), 1 => Just(-65_536isize)]),
    )
        .prop_map(|(giant, cut, edits, stage)| Far { giant, cut, edits, stage })
        .boxed()
}

fn check_far(c: &Far, obs: &mut Obs) -> Result<(), String> {
    let mut list = c.giant.perm();
    list.truncate(list.len() - c.cut);
    let n = list.len();
    for &(i, b) in &c.edits {
        list[i % n] = b;
    }
    obs.label_if(n > 65_536, "over 65,536 bells");
    check_list(
        &list,
        c.stage.map(|d| (n as isize + d).max(1) as usize),
        obs,
    )
}

fn main() {
    vcore::main(Property {
        id: "C02",
        facets: vec![
            Facet::enumerated(
                "all-short-lists",
                "at least two bells",
                |tier| {
                    let max = if tier == vcore::Tier::Quick { 5 } else { 6 };
                    Box::new((0..=max).flat_map(move |len: usize| {
                        let base = len + 2;
                        (0..base.pow(len as u32)).flat_map(move |mut code| {
                            let mut list = vec![];
                            for _ in 0..len {
                                list.push(code % base);
                                code /= base;
                            }
                            std::iter::once(None)
                                .chain((1..=len + 2).map(Some))
                                .map(move |stage| List {
                                    list: list.clone(),
                                    stage,
                                })
                        })
                    }))
                },
                |l: &List, obs| check_list(&l.list, l.stage, obs),
            ),
            Facet::random(
                "lists",
                150_000,
                4_000_000,
                "at least two bells",
                |_| lists(),
                |l: &List, obs| check_list(&l.list, l.stage, obs),
            ),
            Facet::random(
                "giants",
                320,
                8_000,
                "at least two bells",
                |_| far(),
                check_far,
            ),
            Facet::random(
                "texts",
                150_000,
                4_000_000,
                "at least two bells",
                |_| texts(),
                check_text,
            ),
            Facet::random(
                "display",
                60_000,
                1_000_000,
                "more than one bell",
                |_| gen::wide_perm(),
                |p: &Vec<usize>, obs| {
                    let r = bf::row(p);
                    let s = r.to_string();
                    ensure!(s == gen::names(p), "{:?} displays as {}", p, s);
                    ensure!(
                        r.as_row().to_string() == s,
                        "Row and RowBuf display differently"
                    );
                    let d = format!("{:?} {:?}", r, r.as_row());
                    ensure!(
                        d.matches(s.as_str()).count() >= 2,
                        "debug form {} doesn't list the bells {}",
                        d,
                        s
                    );
                    if p.len() <= 33 {
                        let back = RowBuf::parse(&s)
                            .map_err(|e| format!("{} doesn't parse back: {}", s, e))?;
                        bf::is_row(&back, p, "parsing the displayed row")?;
                        ensure!(back == r, "{} parses back as a row which isn't equal", s);
                    }
                    obs.label_if(p.len() > 33, "some bells have no one-character name");
                    obs.nontrivial_if(p.len() > 1);
                    Ok(())
                },
            ),
        ],
        assumptions: vec![],
    })
}
