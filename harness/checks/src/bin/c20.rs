//! C20: the predicted number of matching rows is the true number.

#[path = "../bf.rs"]
mod bf;
#[path = "../pat.rs"]
mod pat;

use pat::E;
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use vcore::{ensure, ensure_eq, gen, Facet, Obs, Property, Tier};

/// Ask for the number, and compare it with the truth
fn judge(p: &[E], n: usize, obs: &mut Obs) -> Result<(), String> {
    let re = pat::real(p);
    let what = format!("number of rows on {} matching {}", n, re);
    let norm = pat::normal(p);
    let truth = pat::count(&norm, n);
    let got = vcore::panics(|| re.num_matching_rows(bf::stage(n)))
        .map_err(|e| format!("{}: panic: {}", what, e))?;
    match got {
        Some(x) => {
            ensure!(
                truth == Some(x as u128),
                "{}: got {}, but the true number is {:?}",
                what,
                x,
                truth
            );
            obs.label("counted");
        }
        None => {
            // Nothing on the way to the answer needs to overflow if it, the factorial of the unfixed
            // bells, and the falling product for the smaller side of the binomial all fit
            let shape = pat::shape(&norm, n);
            let easy = match shape {
                None => true,
                Some((free, anys, globs)) => {
                    anys > free || free <= 20 && falling_product_fits(free - anys, globs)
                }
            };
            let fits = truth.map_or(false, |t| t <= usize::MAX as u128);
            ensure!(
                !(easy && fits),
                "{}: no answer, but the true number is {:?}",
                what,
                truth
            );
            obs.label("too large");
        }
    }
    Ok(())
}

/// Can `items` be shared out between `globs` without any product overflowing?
fn falling_product_fits(items: usize, globs: usize) -> bool {
    if globs == 0 {
        return true;
    }
    let n = items + globs - 1;
    let k = items.min(globs - 1);
    (n - k + 1..=n)
        .try_fold(1usize, |p, x| p.checked_mul(x))
        .is_some()
}

fn brute(p: &[E], n: usize, perms: &[Vec<usize>]) -> Result<u128, String> {
    let model = perms.iter().filter(|r| pat::matches(p, r)).count() as u128;
    // The closed form used for large stages is itself checked here
    ensure_eq!(
        pat::count(&pat::normal(p), n),
        Some(model),
        "(oracle) number of rows on {} matching {:?}",
        n,
        p
    );
    Ok(model)
}

fn check_every(p: &Vec<E>, obs: &mut Obs) -> Result<(), String> {
    let mut all = vec![];
    for n in 1..=5 {
        let perms = gen::all_perms(n);
        let re = pat::real(p);
        let count = brute(p, n, &perms)?;
        let got = vcore::panics(|| re.num_matching_rows(bf::stage(n)))?;
        ensure_eq!(
            got.map(|x| x as u128),
            Some(count),
            "number of rows on {} matching {}",
            n,
            re
        );
        all.push(count);
    }
    obs.nontrivial_if(all.iter().any(|&c| c > 1));
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    p: Vec<E>,
    n: usize,
}

fn check_brute(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let perms = gen::all_perms(c.n);
    let re = pat::real(&c.p);
    let real = perms.iter().filter(|r| re.matches(&bf::row(r))).count();
    let count = brute(&c.p, c.n, &perms)?;
    ensure_eq!(real as u128, count, "rows on {} which match {}", c.n, re);
    judge(&c.p, c.n, obs)?;
    obs.nontrivial_if(count > 1 && c.p.iter().any(|e| matches!(e, E::B(_))));
    Ok(())
}

fn check_large(c: &Case, obs: &mut Obs) -> Result<(), String> {
    judge(&c.p, c.n, obs)?;
    let shape = pat::shape(&pat::normal(&c.p), c.n);
    obs.label_if(shape.is_none(), "repeated or out-of-stage bells");
    obs.label_if(
        matches!(shape, Some((f, ..)) if f > 20),
        "over 20 unfixed bells",
    );
    obs.nontrivial_if(matches!(shape, Some((f, a, g)) if f > a && g > 0));
    Ok(())
}

/// A pattern with chosen numbers of bells, crosses and globs
fn shaped(n: usize) -> BoxedStrategy<Vec<E>> {
    let bells = prop_oneof![1 => 0..=n, 2 => Just(n), 2 => n.saturating_sub(12)..=n, 1 => n.saturating_sub(21)..=n];
    (
        gen::perm(n),
        bells,
        0usize..24,
        0usize..24,
        vec(any::<u8>(), 64),
        0u8..10,
    )
        .prop_map(move |(perm, k, anys, globs, coins, fault)| {
            let mut p: Vec<E> = perm[..k].iter().map(|&b| E::B(b)).collect();
            let mut coins = coins.into_iter().cycle().map(|c| c as usize);
            let free = n - k;
            // Mostly no more crosses than will fit
            let anys = if fault < 8 { anys % (free + 1) } else { anys };
            for _ in 0..anys {
                let i = coins.next().unwrap() % (p.len() + 1);
                p.insert(i, E::Any);
            }
            for _ in 0..if fault % 2 == 0 { globs % 5 } else { globs } {
                let i = coins.next().unwrap() % (p.len() + 1);
                p.insert(i, E::Glob);
            }
            if fault == 9 {
                let i = coins.next().unwrap() % (p.len() + 1);
                p.insert(i, E::B(coins.next().unwrap() % (n + 3)));
            }
            p
        })
        .boxed()
}

/// A pattern with a glob almost everywhere, and few enough bells left over to count the rows
fn globby() -> BoxedStrategy<Case> {
    (
        prop_oneof![8 => 1usize..40, 1 => 40usize..140, 1 => 250usize..270],
        prop_oneof![3 => 1usize..24, 1 => 1usize..4],
        0usize..4,
    )
        .prop_flat_map(|(globs, free, anys)| {
            (Just(globs), Just(free), Just(anys), 0usize..globs + 12)
        })
        .prop_flat_map(|(globs, free, anys, k)| {
            let n = k + free;
            (
                Just((globs, free, anys, k, n)),
                gen::perm(n),
                vec(any::<u16>(), 64),
            )
        })
        .prop_map(|((globs, free, anys, k, n), perm, coins)| {
            // Distinct gaps between the bells for the globs where possible
            let mut gaps: Vec<usize> = (0..=k).collect();
            let mut chosen = vec![0usize; k + 1];
            for g in 0..globs {
                let c = coins[g % 64] as usize;
                if gaps.is_empty() {
                    chosen[c % (k + 1)] += 1;
                } else {
                    let i = gaps.swap_remove(c % gaps.len());
                    chosen[i] += 1;
                }
            }
            let mut p = vec![];
            for i in 0..=k {
                p.extend(std::iter::repeat(E::Glob).take(chosen[i]));
                if i < k {
                    p.push(E::B(perm[i]));
                }
            }
            for a in 0..anys.min(free) {
                let i = coins[40 + a] as usize % (p.len() + 1);
                p.insert(i, E::Any);
            }
            Case { p, n }
        })
        .boxed()
}

fn main() {
    vcore::main(Property {
        id: "C20",
        assumptions: vec![
            "an answer is demanded when it fits in usize, and so do the factorial of the unfixed bells and the falling \
             product of the binomial for the bells shared between globs (taken on its smaller side)",
        ],
        facets: vec![
            Facet::enumerated(
                "every-short-pattern",
                "more than one row matches on some stage of up to five bells",
                |t| {
                    let (b, l) = if t == Tier::Quick { (3, 5) } else { (4, 6) };
                    Box::new(pat::every_pattern(b, l).into_iter())
                },
                check_every,
            ),
            Facet::random(
                "counted-by-listing",
                3_000,
                60_000,
                "more than one row matches, and the pattern has bells",
                |_| {
                    (1usize..=7)
                        .prop_flat_map(|n| {
                            prop_oneof![pat::loose(n).boxed(), pat::row_and_pattern(n).prop_map(|x| x.1).boxed(), shaped(n)]
                                .prop_map(move |p| Case { p, n })
                        })
                        .boxed()
                },
                check_brute,
            ),
            Facet::random(
                "counted-by-formula",
                150_000,
                4_000_000,
                "a sound pattern with globs and bells left over to go in them",
                |_| {
                    (gen::wide_stage())
                        .prop_flat_map(|n| {
                            prop_oneof![1 => pat::loose(n), 1 => pat::row_and_pattern(n).prop_map(|x| x.1), 5 => shaped(n)]
                                .prop_map(move |p| Case { p, n })
                        })
                        .boxed()
                },
                check_large,
            ),
            Facet::random(
                "many-globs",
                100_000,
                3_000_000,
                "a sound pattern with globs and bells left over to go in them",
                |_| globby(),
                check_large,
            ),
        ],
    });
}
