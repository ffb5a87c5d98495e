//! C03: row arithmetic is exactly the arithmetic of permutations.

#[path = "../bf.rs"]
mod bf;

use bellframe::{Row, RowBuf};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use vcore::{ensure, gen, Facet, Obs, Property};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    a: Vec<usize>,
    b: Vec<usize>,
    /// Previous contents of destinations
    dest: Vec<usize>,
    e: i64,
}

fn untouched(r: &Row, was: &[usize], what: &str) -> Result<(), String> {
    bf::is_row(r, was, &format!("{} changed a row it shouldn't have", what))
}

fn check(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let (a, b) = (bf::row(&c.a), bf::row(&c.b));
    let same = c.a.len() == c.b.len();
    obs.label(if same { "one stage" } else { "mixed stages" });
    obs.label_if(c.dest.len() != c.a.len(), "destination of another stage");
    obs.nontrivial_if(c.a.len() > 2 && c.a != gen::id(c.a.len()));

    // Multiplication
    let want = same.then(|| gen::mul(&c.a, &c.b));
    let forms: Vec<(&str, Result<RowBuf, String>)> = vec![
        ("mul_result", a.mul_result(&b).map_err(|e| e.to_string())),
        ("&RowBuf * &RowBuf", vcore::panics(|| &a * &b)),
        ("&Row * &RowBuf", vcore::panics(|| a.as_row() * &b)),
        ("&RowBuf * &Row", vcore::panics(|| &a * b.as_row())),
        ("&Row * &Row", vcore::panics(|| a.as_row() * b.as_row())),
    ];
    for (name, got) in forms {
        match (&want, got) {
            (Some(w), Ok(r)) => bf::is_row(&r, w, name)?,
            (None, Err(_)) => {}
            (Some(_), Err(e)) => {
                return Err(format!("{} of two rows of one stage failed: {}", name, e))
            }
            (None, Ok(r)) => {
                return Err(format!("{} of rows of different stages gave {}", name, r))
            }
        }
    }
    {
        let mut out = bf::row(&c.dest);
        match (a.mul_into(&b, &mut out), &want) {
            (Ok(()), Some(w)) => bf::is_row(&out, w, "mul_into")?,
            (Err(_), None) => untouched(&out, &c.dest, "failing mul_into")?,
            (r, _) => return Err(format!("mul_into gave {:?}", r)),
        }
        let mut out = bf::row(&c.dest);
        let ok = same && c.dest.len() == c.a.len();
        match (a.mul_into_row(&b, &mut out), ok) {
            (Ok(()), true) => bf::is_row(&out, want.as_ref().unwrap(), "mul_into_row")?,
            (Err(_), false) => untouched(&out, &c.dest, "failing mul_into_row")?,
            (r, _) => return Err(format!("mul_into_row gave {:?}", r)),
        }
    }
    if same {
        // The unchecked forms are safe here
        bf::is_row(
            &unsafe { a.mul_unchecked(&b) },
            want.as_ref().unwrap(),
            "mul_unchecked",
        )?;
        let mut out = bf::row(&c.dest);
        unsafe { a.mul_into_unchecked(&b, &mut out) };
        bf::is_row(&out, want.as_ref().unwrap(), "mul_into_unchecked")?;
        if c.dest.len() == c.a.len() {
            let mut out = bf::row(&c.dest);
            unsafe { a.mul_into_row_unchecked(&b, &mut out) };
            bf::is_row(&out, want.as_ref().unwrap(), "mul_into_row_unchecked")?;
        }
    }

    // Inversion
    let inv = gen::inv(&c.a);
    bf::is_row(&a.inv(), &inv, "inv")?;
    bf::is_row(&!&a, &inv, "!&RowBuf")?;
    bf::is_row(&!a.as_row(), &inv, "!&Row")?;
    let mut out = bf::row(&c.dest);
    a.inv_into_buf(&mut out);
    bf::is_row(&out, &inv, "inv_into_buf")?;
    let mut out = bf::row(&c.dest);
    match (a.inv_into(&mut out), c.dest.len() == c.a.len()) {
        (Ok(()), true) => bf::is_row(&out, &inv, "inv_into")?,
        (Err(_), false) => untouched(&out, &c.dest, "failing inv_into")?,
        (r, _) => return Err(format!("inv_into gave {:?}", r)),
    }

    // Division
    let (ax, xa) = (
        Row::solve_ax_equals_b(&a, &b),
        Row::solve_xa_equals_b(&a, &b),
    );
    #[allow(deprecated)]
    let tr = a.tranposition_to(&b);
    if same {
        let x = ax.map_err(|e| format!("solve_ax_equals_b failed: {}", e))?;
        bf::is_row(&x, &gen::mul(&inv, &c.b), "solve_ax_equals_b")?;
        let x = xa.map_err(|e| format!("solve_xa_equals_b failed: {}", e))?;
        bf::is_row(&x, &gen::mul(&c.b, &inv), "solve_xa_equals_b")?;
        let x = tr.map_err(|e| format!("tranposition_to failed: {}", e))?;
        bf::is_row(&x, &gen::mul(&c.b, &inv), "tranposition_to")?;
        #[allow(deprecated)]
        let x = unsafe { a.tranposition_to_unchecked(&b) };
        bf::is_row(&x, &gen::mul(&c.b, &inv), "tranposition_to_unchecked")?;
    } else {
        ensure!(
            ax.is_err(),
            "solve_ax_equals_b of different stages gave {:?}",
            ax
        );
        ensure!(
            xa.is_err(),
            "solve_xa_equals_b of different stages gave {:?}",
            xa
        );
        ensure!(
            tr.is_err(),
            "tranposition_to of different stages gave {:?}",
            tr
        );
    }

    // Powers
    let want = if c.e < 0 {
        gen::pow(&inv, c.e.unsigned_abs())
    } else {
        gen::pow(&c.a, c.e as u64)
    };
    bf::is_row(&a.pow_i(c.e as isize), &want, &format!("pow_i({})", c.e))?;
    let u = c.e.unsigned_abs();
    bf::is_row(
        &a.pow_u(u as usize),
        &gen::pow(&c.a, u),
        &format!("pow_u({})", u),
    )?;
    untouched(&a, &c.a, "arithmetic")?;
    untouched(&b, &c.b, "arithmetic")?;
    Ok(())
}

fn strategy() -> BoxedStrategy<Case> {
    let e = prop_oneof![80 => -12i64..40, 20 => -400i64..400, 10 => Just(0i64), 10 => Just(-1i64), 1 => -70_000i64..70_000];
    (
        prop_oneof![20 => gen::perm_pair(), 1 => gen::wide_stage().prop_flat_map(|n| (gen::perm(n), gen::perm(n)))],
        e,
        any::<u8>(),
        gen::any_perm(),
    )
        .prop_flat_map(|((a, b), e, k, other)| {
            let n = a.len();
            let dest = if k < 150 { gen::perm(n) } else { Just(other).boxed() };
            (Just(a), Just(b), dest, Just(e))
        })
        .prop_map(|(a, b, dest, e)| Case { a, b, dest, e })
        .boxed()
}

/// Long chains through reused destinations
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Chain {
    rows: Vec<Vec<usize>>,
}

fn check_chain(c: &Chain, obs: &mut Obs) -> Result<(), String> {
    let mut out = RowBuf::rounds(bf::stage(1));
    let mut inv = RowBuf::backrounds(bf::stage(7));
    for w in c.rows.windows(2) {
        let (a, b) = (bf::row(&w[0]), bf::row(&w[1]));
        let before = bf::idx(&out);
        let r = a.mul_into(&b, &mut out);
        if w[0].len() == w[1].len() {
            ensure!(r.is_ok(), "mul_into failed on one stage");
            bf::is_row(&out, &gen::mul(&w[0], &w[1]), "mul_into a reused buffer")?;
        } else {
            ensure!(r.is_err(), "mul_into mixed stages");
            bf::is_row(&out, &before, "failed mul_into a reused buffer")?;
        }
        b.inv_into_buf(&mut inv);
        bf::is_row(&inv, &gen::inv(&w[1]), "inv_into_buf a reused buffer")?;
        obs.nontrivial();
    }
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Giants {
    a: gen::Giant,
    b: gen::Giant,
    e: i64,
    dest: usize,
}

fn giants() -> BoxedStrategy<Giants> {
    (gen::giant_pair(), -4i64..5, 0usize..5)
        .prop_map(|((a, b), e, dest)| Giants { a, b, e, dest })
        .boxed()
}

fn check_giants(c: &Giants, obs: &mut Obs) -> Result<(), String> {
    let (a, b) = (c.a.perm(), c.b.perm());
    let dest = match c.dest {
        0 => gen::id(3),
        1 => gen::id(b.len()),
        2 => gen::id(a.len() + 1),
        _ => (0..a.len()).rev().collect(),
    };
    obs.label_if(a.len() > 65_536, "over 65,536 bells");
    check(&Case { a, b, dest, e: c.e }, obs)
}

fn main() {
    vcore::main(Property {
        id: "C03",
        facets: vec![
            Facet::enumerated(
                "all-small-pairs",
                "not rounds, three or more bells",
                |tier| {
                    let max = if tier == vcore::Tier::Quick { 4 } else { 5 };
                    Box::new((1..=max).flat_map(move |n: usize| {
                        let all = gen::all_perms(n);
                        let all2 = all.clone();
                        all.into_iter().enumerate().flat_map(move |(i, a)| {
                            let all2 = all2.clone();
                            (0..all2.len()).map(move |j| Case {
                                a: a.clone(),
                                b: all2[j].clone(),
                                dest: gen::id(1 + (i + j) % (n + 1)),
                                e: (i as i64 % 9) - 4,
                            })
                        })
                    }))
                },
                check,
            ),
            Facet::random(
                "arithmetic",
                250_000,
                4_000_000,
                "not rounds, three or more bells",
                |_| strategy(),
                check,
            ),
            Facet::random(
                "giants",
                160,
                6_000,
                "not rounds, three or more bells",
                |_| giants(),
                check_giants,
            ),
            Facet::random(
                "reused-destinations",
                30_000,
                800_000,
                "at least two rows",
                |_| {
                    vec(
                        prop_oneof![3 => gen::perm(6), 3 => gen::perm(5), 1 => gen::any_perm()],
                        1..16,
                    )
                    .prop_map(|rows| Chain { rows })
                },
                check_chain,
            ),
        ],
        assumptions: vec![],
    })
}
