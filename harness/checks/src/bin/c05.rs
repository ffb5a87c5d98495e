//! C05: queries on rows and the standard rows agree with the listed bells.

#[path = "../bf.rs"]
mod bf;

use std::{
    borrow::{Borrow, BorrowMut},
    collections::{BTreeSet, HashMap, HashSet},
};

use bellframe::{run_len, Bell, Row, RowBuf};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcore::{ensure, ensure_eq, gen, Facet, Obs, Property};

fn check_standard(n: &usize, obs: &mut Obs) -> Result<(), String> {
    let n = *n;
    let s = bf::stage(n);
    let rounds: Vec<usize> = gen::id(n);
    let back: Vec<usize> = (0..n).rev().collect();
    // Queens: odd bells ascending, then even bells ascending (1-based)
    let mut queens: Vec<usize> = (1..=n).filter(|b| b % 2 == 1).map(|b| b - 1).collect();
    queens.extend((1..=n).filter(|b| b % 2 == 0).map(|b| b - 1));
    bf::is_row(&RowBuf::rounds(s), &rounds, "rounds")?;
    bf::is_row(&RowBuf::backrounds(s), &back, "backrounds")?;
    bf::is_row(&RowBuf::queens(s), &queens, "queens")?;
    obs.nontrivial_if(n >= 3);
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Query {
    row: Vec<usize>,
    bell: usize,
    i: usize,
    j: usize,
    more: usize,
    dest: Vec<usize>,
}

fn model_run_len(p: &[usize]) -> usize {
    let mut n = 1;
    while n < p.len() && p[n].abs_diff(p[n - 1]) == 1 {
        n += 1;
    }
    n
}

fn check_queries(c: &Query, obs: &mut Obs) -> Result<(), String> {
    let p = &c.row;
    let n = p.len();
    let mut r = bf::row(p);
    ensure_eq!(r.stage().num_bells(), n, "stage of {}", r);
    for b in (0..n).chain([n, c.bell]) {
        ensure_eq!(
            r.place_of(bf::bell(b)),
            p.iter().position(|&x| x == b),
            "place of bell {} in {:?}",
            b,
            p
        );
    }
    for i in 0..n {
        ensure_eq!(r[i], bf::bell(p[i]), "bell in place {} of {:?}", i, p);
        ensure_eq!(
            unsafe { r.get_bell_unchecked(i) },
            bf::bell(p[i]),
            "unchecked bell in place {} of {:?}",
            i,
            p
        );
    }
    for i in [n, n + 1, c.bell.max(n)] {
        ensure!(
            vcore::panics(|| r[i]).is_err(),
            "place {} of {:?} has a bell",
            i,
            p
        );
    }
    ensure_eq!(r.is_rounds(), *p == gen::id(n), "{:?} is rounds", p);
    ensure_eq!(
        r.is_backrounds(),
        p.iter().rev().copied().eq(0..n),
        "{:?} is backrounds",
        p
    );
    let eff = (0..n).rev().find(|&i| p[i] != i).map_or(1, |i| i + 1);
    ensure_eq!(
        r.effective_stage().num_bells(),
        eff,
        "effective stage of {:?}",
        p
    );
    let fixed: Vec<usize> = r.fixed_bells().map(Bell::index).collect();
    let want: Vec<usize> = (0..n).filter(|&i| p[i] == i).collect();
    ensure_eq!(fixed, want, "fixed bells of {:?}", p);
    ensure_eq!(
        run_len(r.bell_iter()),
        model_run_len(p),
        "run off the front of {:?}",
        p
    );
    let rev: Vec<usize> = p.iter().rev().copied().collect();
    ensure_eq!(
        run_len(r.bell_iter().rev()),
        model_run_len(&rev),
        "run off the back of {:?}",
        p
    );
    ensure_eq!(
        run_len(&r),
        model_run_len(p),
        "run off the front of {:?} (by reference)",
        p
    );
    let it: Vec<usize> = (&r).into_iter().map(|b| b.index()).collect();
    ensure_eq!(it, *p, "iterating {:?}", p);
    let it: Vec<usize> = r.as_row().into_iter().rev().map(|b| b.index()).collect();
    ensure_eq!(it, rev, "iterating {:?} backwards", p);
    bf::is_row(&r, p, "querying")?;

    // In-place changes
    let (i, j) = (c.i % n, c.j % n);
    let mut want = p.clone();
    want.swap(i, j);
    for k in 0..5 {
        let mut s = bf::row(p);
        match k {
            0 => s.swap(i, j),
            1 => s.as_mut_row().swap(i, j),
            2 => (&mut *s).swap(i, j),
            3 => AsMut::<Row>::as_mut(&mut s).swap(i, j),
            _ => BorrowMut::<Row>::borrow_mut(&mut s).swap(i, j),
        }
        bf::is_row(&s, &want, "swap")?;
    }
    let mut s = bf::row(p);
    s.extend_to_stage(bf::stage(n + c.more));
    let mut want = p.clone();
    want.extend(n..n + c.more);
    bf::is_row(&s, &want, "extend_to_stage")?;
    for m in 1..n.min(4) {
        let mut s = bf::row(p);
        if vcore::panics(|| s.extend_to_stage(bf::stage(n - m))).is_ok() {
            return Err(format!("{:?} was 'extended' to {} bells: {}", p, n - m, s));
        }
        bf::is_row(&s, p, "failing extend_to_stage")?;
    }
    let mut s = bf::row(&c.dest);
    r.copy_into(&mut s);
    bf::is_row(&s, p, "copy_into")?;
    let mut s = bf::row(&c.dest);
    s.overwrite_from(&r);
    bf::is_row(&s, p, "overwrite_from")?;
    let q = r.parity();
    ensure!(q == r.parity() || !p.is_empty(), "unreachable");

    // Ownership
    let r = bf::row(p);
    let (rc, arc) = (r.to_rc(), r.to_arc());
    let owned: RowBuf = r.as_row().to_owned();
    let forms: [&Row; 7] = [&r, &rc, &arc, &owned, r.as_ref(), r.borrow(), &rc.clone()];
    for f in forms {
        bf::is_row(f, p, "another form")?;
        ensure!(
            f == r.as_row() && r == *f && *f == r,
            "forms of {} compare unequal",
            r
        );
        ensure!(
            bf::hash(f) == bf::hash(&r),
            "forms of {} hash differently",
            r
        );
        ensure!(
            f.fast_hash() == r.fast_hash(),
            "forms of {} fast-hash differently",
            r
        );
    }
    ensure!(
        bf::hash(&rc) == bf::hash(&r) && bf::hash(&arc) == bf::hash(&r),
        "shared {} hashes differently",
        r
    );
    drop(r);
    bf::is_row(&rc, p, "a shared row which outlives its source")?;
    let rc2 = rc.clone();
    drop(rc);
    bf::is_row(&rc2, p, "a shared row")?;
    let arc2 = arc.clone();
    let moved = std::thread::scope(|s| s.spawn(move || arc2.to_string()).join().unwrap());
    ensure_eq!(moved, gen::names(p), "a row shared with another thread");
    bf::is_row(&arc, p, "a shared row")?;
    obs.label_if(eff < n, "with cover bells");
    obs.nontrivial_if(n >= 3);
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Pair {
    a: Vec<usize>,
    b: Vec<usize>,
}

fn check_pair(c: &Pair, obs: &mut Obs) -> Result<(), String> {
    let (a, b) = (bf::row(&c.a), bf::row(&c.b));
    let (ra, rb) = (a.as_row(), b.as_row());
    let eq = c.a == c.b;
    ensure!(
        (a == b) == eq
            && (ra == rb) == eq
            && (a == *rb) == eq
            && (*ra == b) == eq
            && (a.to_rc() == b.to_rc()) == eq,
        "{} == {} is not {}",
        a,
        b,
        eq
    );
    let want = c.a.cmp(&c.b);
    for got in [
        a.cmp(&b),
        ra.cmp(rb),
        a.to_rc().cmp(&b.to_rc()),
        a.to_arc().cmp(&b.to_arc()),
    ] {
        ensure_eq!(got, want, "order of {} and {}", a, b);
    }
    ensure_eq!(
        a.partial_cmp(&b),
        Some(want),
        "partial order of {} and {}",
        a,
        b
    );
    ensure_eq!(
        ra.partial_cmp(rb),
        Some(want),
        "partial order of {} and {}",
        a,
        b
    );
    if eq {
        ensure!(
            bf::hash(&a) == bf::hash(&b) && bf::hash(ra) == bf::hash(&b),
            "equal rows hash differently"
        );
    }
    // Collections keyed by one form and looked up by another
    let set: HashSet<RowBuf> = [a.clone()].into_iter().collect();
    ensure_eq!(
        set.contains(rb),
        eq,
        "looking up {} in a hash set of {}",
        b,
        a
    );
    let map: HashMap<&Row, u8> = [(ra, 1)].into_iter().collect();
    ensure_eq!(
        map.contains_key(rb),
        eq,
        "looking up {} in a hash map of {}",
        b,
        a
    );
    let tree: BTreeSet<RowBuf> = [a.clone()].into_iter().collect();
    ensure_eq!(
        tree.contains(rb),
        eq,
        "looking up {} in a tree set of {}",
        b,
        a
    );
    // The fast hash
    let (fa, fb) = (a.fast_hash(), b.fast_hash());
    if eq {
        ensure_eq!(fa, fb, "fast hash of equal rows {}", a);
    } else if c.a.len() == c.b.len() && c.a.len() <= 16 {
        ensure!(fa != fb, "{} and {} share the fast hash {}", a, b, fa);
        obs.label("fast hash must differ");
    }
    obs.label_if(eq, "equal");
    obs.label_if(c.a.len() != c.b.len(), "different stages");
    obs.nontrivial_if(!eq && c.a.len() >= 3);
    Ok(())
}

fn pairs() -> BoxedStrategy<Pair> {
    let near = gen::stage()
        .prop_flat_map(|n| (gen::perm(n), 0..n, 0..n))
        .prop_map(|(a, i, j)| {
            let mut b = a.clone();
            b.swap(i, j);
            (a, b)
        });
    let sixteen = (12usize..=16)
        .prop_flat_map(|n| (gen::perm(n), 0..n, 0..n, 0..n))
        .prop_map(|(a, i, j, k)| {
            let mut b = a.clone();
            b.swap(i, j);
            b.swap(j, k);
            (a, b)
        });
    let prefix = (gen::any_perm(), 1usize..4).prop_map(|(a, m)| {
        let mut b = a.clone();
        b.extend(a.len()..a.len() + m);
        (a, b)
    });
    prop_oneof![3 => gen::perm_pair(), 3 => near, 3 => sixteen, 1 => prefix]
        .prop_map(|(a, b)| Pair { a, b })
        .boxed()
}

/// Runs in lists of bells, which needn't be rows
fn check_runs(list: &Vec<usize>, obs: &mut Obs) -> Result<(), String> {
    let bells: Vec<Bell> = list.iter().map(|&i| bf::bell(i)).collect();
    let rev: Vec<usize> = list.iter().rev().copied().collect();
    let want = model_run_len(list);
    ensure_eq!(
        run_len(bells.iter().copied()),
        want,
        "run off the front of {:?}",
        list
    );
    ensure_eq!(
        run_len(bells.iter().rev().copied()),
        model_run_len(&rev),
        "run off the back of {:?}",
        list
    );
    ensure_eq!(
        run_len(bells.clone()),
        want,
        "run off the front of {:?} (by value)",
        list
    );
    ensure_eq!(
        run_len(bf::hinted(
            bells.iter().copied(),
            list.iter().fold(0, |a: usize, &b| a.wrapping_add(b))
        )),
        want,
        "run off the front of {:?} (another iterator)",
        list
    );
    obs.label_if(
        list.windows(2).any(|w| w[0].abs_diff(w[1]) > 100),
        "far jumps",
    );
    obs.nontrivial_if(want > 1 && want < list.len());
    Ok(())
}

fn runs() -> BoxedStrategy<Vec<usize>> {
    let far = proptest::sample::select(vec![
        2isize,
        127,
        128,
        129,
        255,
        256,
        257,
        511,
        513,
        65_535,
        65_536,
        65_537,
        1 << 31,
        (1 << 32) - 1,
        1 << 32,
        (1 << 32) + 1,
    ]);
    let step =
        prop_oneof![6 => Just(1isize), 1 => Just(0), 1 => 2isize..5, 1 => far, 1 => 2isize..1000];
    (
        prop_oneof![5 => 0usize..300, 1 => 0usize..1 << 40],
        any::<bool>(),
        proptest::collection::vec(
            (step, prop_oneof![5 => Just(false), 1 => Just(true)]),
            0..30,
        ),
    )
        .prop_map(|(start, mut down, steps)| {
            let mut list = vec![start];
            for (d, flip) in steps {
                down ^= flip;
                let last = *list.last().unwrap() as isize;
                let next = if down && last >= d {
                    last - d
                } else {
                    last + d
                };
                list.push(next as usize);
            }
            list
        })
        .boxed()
}

/// Rows of hundreds of bells in which one jump is `gap`
fn long_rows() -> BoxedStrategy<Vec<usize>> {
    (
        proptest::sample::select(vec![127usize, 128, 129, 254, 255, 256, 257, 258]),
        1usize..60,
        1usize..100,
        any::<bool>(),
    )
        .prop_map(|(gap, more, run, back)| {
            let n = gap + run + more;
            // 0..run ascending, then the bell `gap` on from the last, then the rest
            let mut r: Vec<usize> = (0..run).collect();
            r.push(run - 1 + gap);
            r.extend((run..n).filter(|&b| b != run - 1 + gap));
            if back {
                r.reverse();
            }
            r
        })
        .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Giants {
    a: gen::Giant,
    b: gen::Giant,
    bells: Vec<usize>,
}

fn giants() -> BoxedStrategy<Giants> {
    let bell = prop_oneof![2 => 65_530usize..65_545, 1 => 131_000usize..131_100, 1 => 0usize..10, 2 => any::<usize>(), 1 => 250usize..260];
    (gen::giant_pair(), proptest::collection::vec(bell, 1..6))
        .prop_map(|((a, b), bells)| Giants { a, b, bells })
        .boxed()
}

fn check_giants(c: &Giants, obs: &mut Obs) -> Result<(), String> {
    let (a, b) = (c.a.perm(), c.b.perm());
    let n = a.len();
    obs.label_if(n > 65_536, "over 65,536 bells");
    check_standard(&n, obs)?;
    let r = bf::row(&a);
    ensure_eq!(r.stage().num_bells(), n, "stage of a giant row");
    for &k in c.bells.iter().chain(&[0, n - 1, n]) {
        for k in [k, k % n] {
            ensure_eq!(
                r.place_of(bf::bell(k)),
                a.iter().position(|&x| x == k),
                "place of bell {} of {}",
                k,
                n
            );
            if k < n {
                ensure_eq!(r[k].index(), a[k], "bell in place {} of {}", k, n);
            }
        }
    }
    ensure_eq!(
        r.is_rounds(),
        a.iter().copied().eq(0..n),
        "whether a giant row is rounds"
    );
    ensure_eq!(
        r.is_backrounds(),
        a.iter().rev().copied().eq(0..n),
        "whether a giant row is backrounds"
    );
    let eff = (0..n).rev().find(|&i| a[i] != i).map_or(1, |i| i + 1);
    ensure_eq!(
        r.effective_stage().num_bells(),
        eff,
        "effective stage of a giant row"
    );
    let fixed: Vec<usize> = r.fixed_bells().map(Bell::index).collect();
    let want: Vec<usize> = (0..n).filter(|&i| a[i] == i).collect();
    ensure!(
        fixed == want,
        "fixed bells of a row of {}: {} of them, expected {}",
        n,
        fixed.len(),
        want.len()
    );
    ensure_eq!(
        run_len(&r),
        model_run_len(&a),
        "run off the front of a row of {}",
        n
    );
    let rev: Vec<usize> = a.iter().rev().copied().collect();
    ensure_eq!(
        run_len(r.bell_iter().rev()),
        model_run_len(&rev),
        "run off the back of a row of {}",
        n
    );
    let (i, j) = (c.bells[0] % n, c.bells[c.bells.len() - 1] % n);
    let mut s = r.clone();
    s.swap(i, j);
    let mut want = a.clone();
    want.swap(i, j);
    bf::is_row(&s, &want, "swap")?;
    s.extend_to_stage(bf::stage(n + 300));
    want.extend(n..n + 300);
    bf::is_row(&s, &want, "extend_to_stage")?;
    check_pair(&Pair { a, b }, obs)
}

fn main() {
    vcore::main(Property {
        id: "C05",
        facets: vec![
            Facet::enumerated(
                "standard-rows",
                "three or more bells",
                |_| Box::new(1usize..=400),
                check_standard,
            ),
            Facet::enumerated(
                "all-small-rows",
                "three or more bells",
                |tier| {
                    let max = if tier == vcore::Tier::Quick { 6 } else { 8 };
                    Box::new((1..=max).flat_map(|n: usize| {
                        gen::all_perms(n)
                            .into_iter()
                            .enumerate()
                            .map(move |(k, row)| Query {
                                row,
                                bell: n + k,
                                i: k,
                                j: k / n,
                                more: k % 3,
                                dest: gen::id(1 + k % 8),
                            })
                    }))
                },
                check_queries,
            ),
            Facet::enumerated(
                "fast-hash-distinct",
                "three or more bells",
                |tier| Box::new(1usize..=if tier == vcore::Tier::Quick { 8 } else { 10 }),
                |&n: &usize, obs| {
                    let all = gen::all_perms(n);
                    let seen: HashSet<usize> = all.iter().map(|p| bf::row(p).fast_hash()).collect();
                    ensure_eq!(
                        seen.len(),
                        all.len(),
                        "distinct fast hashes of the rows on {} bells",
                        n
                    );
                    obs.nontrivial_if(n >= 3);
                    Ok(())
                },
            ),
            Facet::random(
                "queries",
                60_000,
                2_000_000,
                "three or more bells",
                |_| {
                    (
                        gen::wide_perm(),
                        prop_oneof![5 => 0usize..60, 1 => any::<usize>()],
                        any::<usize>(),
                        any::<usize>(),
                        0usize..6,
                        gen::any_perm(),
                    )
                        .prop_map(|(row, bell, i, j, more, dest)| Query {
                            row,
                            bell,
                            i,
                            j,
                            more,
                            dest,
                        })
                },
                check_queries,
            ),
            Facet::random(
                "runs",
                60_000,
                2_000_000,
                "a run of two or more bells which ends before the list does",
                |_| prop_oneof![8 => runs(), 1 => long_rows()],
                check_runs,
            ),
            Facet::random(
                "giants",
                240,
                6_000,
                "three or more bells",
                |_| giants(),
                check_giants,
            ),
            Facet::random(
                "pairs",
                200_000,
                5_000_000,
                "two different rows of three or more bells",
                |_| pairs(),
                check_pair,
            ),
        ],
        assumptions: vec![],
    })
}
