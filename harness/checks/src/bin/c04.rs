//! C04: the parity of rows.

#[path = "../bf.rs"]
mod bf;

use bellframe::Parity;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcore::{ensure, gen, Facet, Obs, Property};

fn parity(p: &[usize]) -> Parity {
    bf::row(p).parity()
}

fn of(odd: bool) -> Parity {
    if odd {
        Parity::Odd
    } else {
        Parity::Even
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    a: Vec<usize>,
    b: Vec<usize>,
    i: usize,
    j: usize,
}

fn check(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let (pa, pb) = (parity(&c.a), parity(&c.b));
    ensure!(
        pa == of(gen::is_odd(&c.a)),
        "{} is called {:?}",
        gen::names(&c.a),
        pa
    );
    ensure!(
        pb == of(gen::is_odd(&c.b)),
        "{} is called {:?}",
        gen::names(&c.b),
        pb
    );
    let (a, b) = (bf::row(&c.a), bf::row(&c.b));
    ensure!(
        (&a * &b).parity() == pa * pb,
        "parity of the product of {} and {}",
        a,
        b
    );
    ensure!((!&a).parity() == pa, "parity of the inverse of {}", a);
    let n = c.a.len();
    let (i, j) = (c.i % n, c.j % n);
    let mut s = bf::row(&c.a);
    s.swap(i, j);
    let want = pa * of(i != j);
    ensure!(
        s.parity() == want,
        "parity of {} after swapping places {} and {}",
        a,
        i,
        j
    );
    obs.label(if gen::is_odd(&c.a) { "odd" } else { "even" });
    obs.nontrivial_if(n >= 3);
    Ok(())
}

fn check_number(v: &usize, obs: &mut Obs) -> Result<(), String> {
    let odd = v % 2 == 1;
    let p = Parity::from_number(*v);
    ensure!(p == of(odd), "{} is called {:?}", v, p);
    ensure!(p == Parity::from_is_odd(odd), "from_is_odd({})", odd);
    ensure!(
        p.zero_or_one() == odd as u8,
        "{:?} as a number is {}",
        p,
        p.zero_or_one()
    );
    ensure!(
        p.plus_or_minus() == if odd { '-' } else { '+' },
        "{:?} as a sign is {}",
        p,
        p.plus_or_minus()
    );
    ensure!(p as u8 == odd as u8, "discriminant of {:?}", p);
    for q in [Parity::Even, Parity::Odd] {
        let w = of(odd != (q == Parity::Odd));
        ensure!(p * q == w, "{:?} * {:?} is {:?}", p, q, p * q);
    }
    obs.nontrivial();
    Ok(())
}

fn main() {
    vcore::main(Property {
        id: "C04",
        facets: vec![
            Facet::enumerated(
                "all-small-rows",
                "three or more bells",
                |tier| {
                    let max = if tier == vcore::Tier::Quick { 7 } else { 9 };
                    Box::new((1..=max).flat_map(|n: usize| {
                        gen::all_perms(n)
                            .into_iter()
                            .enumerate()
                            .map(move |(k, a)| {
                                let b = gen::mul(
                                    &a,
                                    &gen::inv(&(0..n).map(|x| (x + k) % n).collect::<Vec<_>>()),
                                );
                                Case {
                                    a,
                                    b,
                                    i: k,
                                    j: k / n,
                                }
                            })
                    }))
                },
                check,
            ),
            Facet::random(
                "rows",
                400_000,
                6_000_000,
                "three or more bells",
                |_| {
                    gen::wide_stage()
                        .prop_flat_map(|n| (gen::perm(n), gen::perm(n), 0..n, 0..n))
                        .prop_map(|(a, b, i, j)| Case { a, b, i, j })
                },
                check,
            ),
            Facet::random(
                "giants",
                400,
                10_000,
                "three or more bells",
                |_| {
                    (
                        gen::giant_stage().prop_flat_map(|n| (gen::giant_of(n), gen::giant_of(n))),
                        any::<usize>(),
                        any::<usize>(),
                    )
                },
                |((a, b), i, j): &((gen::Giant, gen::Giant), usize, usize), obs| {
                    check(
                        &Case {
                            a: a.perm(),
                            b: b.perm(),
                            i: *i,
                            j: *j,
                        },
                        obs,
                    )
                },
            ),
            Facet::random(
                "numbers",
                20_000,
                200_000,
                "always",
                |_| {
                    prop_oneof![
                        0usize..20,
                        any::<usize>(),
                        (0usize..4).prop_map(|d| usize::MAX - d)
                    ]
                },
                check_number,
            ),
        ],
        assumptions: vec![],
    })
}
