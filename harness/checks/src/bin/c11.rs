//! C11: a place notation's text denotes exactly its places, or is rejected.

#[path = "../bf.rs"]
mod bf;
#[path = "../pn.rs"]
mod pn;

use bellframe::{place_not::ParseError, PlaceNot};
use proptest::{prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use vcore::{ensure, ensure_eq, gen, Facet, Obs, Property};

type P = Vec<usize>;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Text {
    s: String,
    n: usize,
    rot: usize,
}

fn check_text(c: &Text, obs: &mut Obs) -> Result<(), String> {
    let n = c.n;
    let stage = bf::stage(n);
    let written = gen::bells_in(&c.s);
    let got = PlaceNot::parse(&c.s, stage);
    let what = format!("{:?} on {} bells", c.s, n);
    let mut cs = c.s.chars();
    let lone_cross = cs.next().is_some_and(pn::is_cross_char) && cs.next().is_none();
    let noisy_cross = written.is_empty() && c.s.chars().any(pn::is_cross_char);
    if lone_cross {
        obs.label("lone cross");
        match &got {
            Ok(p) => {
                ensure!(n % 2 == 0, "{} was accepted", what);
                pn::is_pn(p, &[], n, &what)?;
            }
            Err(e) => ensure!(
                n % 2 == 1 && matches!(e, ParseError::OddStageCross(s) if s.num_bells() == n),
                "{}: rejected with '{}'",
                what,
                e
            ),
        }
    } else if noisy_cross {
        // A cross among meaningless characters: whether it counts as a cross isn't specified, but
        // it can't be anything else
        obs.label("cross among noise");
        match &got {
            Ok(p) => {
                ensure!(n % 2 == 0, "{} was accepted", what);
                pn::is_pn(p, &[], n, &what)?;
            }
            Err(ParseError::OddStageCross(_)) => {
                ensure!(n % 2 == 1, "{}: an odd cross was reported", what)
            }
            Err(e) => ensure!(
                *e == ParseError::NoPlacesGiven,
                "{}: rejected with '{}'",
                what,
                e
            ),
        }
    } else {
        match (&got, pn::denote(&written, n)) {
            (Ok(p), Ok(want)) => {
                pn::is_pn(p, &want, n, &what)?;
                obs.label("accepted");
                obs.label_if(want.len() > written.len(), "with implied places");
            }
            (Ok(p), Err(f)) => {
                return Err(format!("{} was accepted as {}, despite {:?}", what, p, f))
            }
            (Err(e), _) => {
                pn::truthful(&written, n, e).map_err(|m| format!("{}: {}", what, m))?;
                obs.label("rejected");
            }
        }
        obs.nontrivial_if(written.len() >= 2);
    }
    // Order of writing doesn't matter
    if written.len() > 1 {
        let mut w = written.clone();
        w.reverse();
        let k = c.rot % w.len();
        w.rotate_left(k);
        let other = PlaceNot::parse(&gen::names(&w), stage);
        ensure!(
            other.is_ok() == got.is_ok(),
            "{} and {:?} disagree: {:?} / {:?}",
            what,
            gen::names(&w),
            got,
            other
        );
        if let (Ok(a), Ok(b)) = (&got, &other) {
            ensure!(
                a == b && bf::hash(a) == bf::hash(b),
                "{} and {:?} give different notations",
                what,
                gen::names(&w)
            );
        }
    }
    if let Ok(p) = &got {
        if n <= 33 {
            let again = PlaceNot::parse(&p.to_string(), stage)
                .map_err(|e| format!("{} displays as {}, which is rejected: {}", what, p, e))?;
            ensure!(
                again == *p && bf::hash(&again) == bf::hash(p),
                "{} displays as {}, which parses as {}",
                what,
                p,
                again
            );
            // The same places on another stage are a different notation
            if let Ok(q) = PlaceNot::parse(&p.to_string(), bf::stage(n + 1)) {
                ensure!(q != *p, "notations of different stages are equal: {}", p);
            }
        }
        ensure_eq!(p.clone(), *p, "clone of {}", what);
    }
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Slice {
    places: P,
    n: usize,
}

/// The same rules for sorted lists of places, which can go beyond the named bells
fn check_slice(c: &Slice, obs: &mut Obs) -> Result<(), String> {
    let mut w = c.places.clone();
    w.sort();
    let what = format!("places {:?} on {} bells", w, c.n);
    // The list is sorted, as the function requires
    let got = unsafe { PlaceNot::from_sorted_slice(&w, bf::stage(c.n)) };
    match (&got, pn::denote(&w, c.n)) {
        (Ok(p), Ok(want)) => {
            obs.label("accepted");
            pn::is_pn(p, &want, c.n, &what)?
        }
        (Ok(p), Err(f)) => return Err(format!("{} were accepted as {}, despite {:?}", what, p, f)),
        (Err(e), _) => {
            obs.label("rejected");
            pn::truthful(&w, c.n, e)?
        }
    }
    obs.nontrivial_if(w.len() >= 2);
    Ok(())
}

/// Every subset of places (up to one past the stage), and each with one place repeated
fn all_small(max: usize) -> Box<dyn Iterator<Item = Text>> {
    Box::new((1..=max).flat_map(|n| {
        (0u32..1 << (n + 1)).flat_map(move |bits| {
            let base: P = (0..=n).filter(|i| bits >> i & 1 == 1).collect();
            let extra = base
                .first()
                .into_iter()
                .chain(base.last())
                .copied()
                .collect::<P>();
            std::iter::once(base.clone())
                .chain(extra.into_iter().map(move |e| {
                    let mut b = base.clone();
                    b.push(e);
                    b
                }))
                .map(move |w| Text {
                    s: gen::names(&w),
                    n,
                    rot: 1,
                })
        })
    }))
}

fn text_strategy() -> BoxedStrategy<Text> {
    let valid = (gen::stage(), any::<usize>())
        .prop_flat_map(|(n, rot)| (pn::change_text(n), gen::noise(2), Just(n), Just(rot)))
        .prop_map(|(s, k, n, rot)| Text {
            s: if s.len() > 1 {
                gen::with_noise(&s, &k)
            } else {
                s
            },
            n,
            rot,
        });
    let listed = (gen::stage(), any::<usize>())
        .prop_flat_map(|(n, rot)| {
            (
                proptest::collection::vec(0..(n + 2).min(33), 0..7),
                Just(n),
                Just(rot),
            )
        })
        .prop_map(|(w, n, rot)| Text {
            s: gen::names(&w),
            n,
            rot,
        });
    let crosses = (
        gen::stage(),
        select(vec![
            "x", "X", "-", "--", " x", "x ", "-x", "xX", "", " ", "×", "x1", "-14", "+x",
        ]),
    )
        .prop_map(|(n, s)| Text {
            s: s.to_owned(),
            n,
            rot: 0,
        });
    let any_text = (gen::wide_stage(), gen::text(8), any::<usize>()).prop_map(|(n, s, rot)| Text {
        s,
        n,
        rot,
    });
    prop_oneof![6 => valid, 6 => listed, 1 => crosses, 3 => any_text].boxed()
}

fn main() {
    vcore::main(Property {
        id: "C11",
        facets: vec![
            Facet::enumerated(
                "small stages",
                "two places or more are written",
                |t| all_small(if t == vcore::Tier::Quick { 12 } else { 16 }),
                check_text,
            ),
            Facet::random("text", 600_000, 12_000_000, "two places or more are written", |_| text_strategy(), check_text),
            Facet::random(
                "lists of places",
                300_000,
                6_000_000,
                "two places or more are listed",
                |_| {
                    let any = gen::wide_stage().prop_flat_map(|n| (proptest::collection::vec(0..n + 2, 0..8), Just(n)));
                    let valid = gen::wide_stage().prop_flat_map(|n| (gen::change(n), Just(n)));
                    let far = || prop_oneof![2 => 65_530usize..65_545, 1 => 0usize..10, 1 => 0usize..140_000, 1 => 250usize..260];
                    let giant = (proptest::collection::vec(far(), 0..5), gen::giant_stage(), proptest::bool::ANY).prop_map(|(mut v, n, close): (P, usize, bool)| {
                        // Often with places in range and no ambiguity
                        if close {
                            v.iter_mut().for_each(|p| *p %= n);
                            v.sort();
                            v.dedup();
                            if let Some(&first) = v.first() {
                                v.iter_mut().for_each(|p| *p -= (*p - first) % 2);
                                v.dedup();
                                let more: P = v.windows(2).map(|w| w[0] + 1).collect();
                                v.extend(more);
                                v.sort();
                                v.dedup();
                            }
                        }
                        (v, n)
                    });
                    prop_oneof![200 => any, 200 => valid, 1 => giant].prop_map(|(places, n)| Slice { places, n }).boxed()
                },
                check_slice,
            ),
        ],
        assumptions: vec![
            "whether a cross surrounded only by meaningless characters counts as a lone cross is left open",
            "which of several true problems is reported is left open",
        ],
    })
}
