//! C19: a music pattern matches exactly the rows its elements describe.

#[path = "../bf.rs"]
mod bf;
#[path = "../pat.rs"]
mod pat;

use bellframe::music::{Regex, RegexElem};
use pat::E;
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use vcore::{ensure, ensure_eq, gen, Facet, Obs, Property, Tier};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    p: Vec<E>,
    row: Vec<usize>,
    coins: Vec<u8>,
    /// Another pattern, to compare
    q: Vec<E>,
}

fn judge(re: &Regex, p: &[E], row: &[usize], obs: &mut Obs) -> Result<bool, String> {
    let r = bf::row(row);
    let want = pat::matches(p, row);
    ensure_eq!(re.matches(&r), want, "pattern {:?} matches {}", re, r);
    let places = re.match_pattern(&r);
    let want_places = want.then(|| {
        let mut named = vec![false; row.len()];
        for e in p {
            if let E::B(b) = e {
                named[*b] = true;
            }
        }
        (0..row.len())
            .filter(|&i| named[row[i]])
            .collect::<Vec<_>>()
    });
    ensure_eq!(places, want_places, "places of {:?} in {}", re, r);
    obs.label_if(want, "match");
    Ok(want)
}

fn check(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let p = &c.p;
    let want = pat::normal(p);
    let re = pat::real(p);
    ensure_eq!(pat::data(&re), want, "pattern {}", pat::text(p));
    ensure_eq!(
        re.to_string(),
        pat::text(&want),
        "display of pattern {}",
        pat::text(p)
    );
    for (got, e) in re.elems().iter().zip(&want) {
        ensure_eq!(
            got.bell().map(|b| b.index()),
            if let E::B(b) = e { Some(*b) } else { None },
            "bell of {}",
            got
        );
        ensure_eq!(got.to_string(), pat::text(&[*e]), "display of {:?}", got);
    }
    // Every way of making it
    let named = p.iter().all(|e| !matches!(e, E::B(b) if *b >= 33));
    let mut same = vec![
        Regex::from_elems(pat::elems(p)),
        Regex::from_elems(re.elems().iter().copied()),
        Regex::from_elems(bf::hinted(pat::elems(p), c.coins.len() + p.len())),
        Regex::from_vec(re.elems().to_vec()),
        // Safe, because this has been normalised
        unsafe { Regex::from_elems_unchecked(pat::elems(&want)) },
        unsafe { Regex::from_vec_unchecked(pat::elems(&want)) },
        pat::real(&pat::scramble(p, &c.coins)),
        re.clone(),
    ];
    // 'This is the only operation which doesn't rely on the input being normalised'
    let mut raw = unsafe { Regex::from_vec_unchecked(pat::elems(p)) };
    raw.normalise();
    same.push(raw.clone());
    raw.normalise();
    same.push(raw);
    if named {
        same.push(Regex::parse(&pat::text(p)));
        same.push(Regex::parse(&pat::text(p).replace('x', ".")));
        same.push(Regex::parse(&re.to_string()));
    }
    let first = judge(&re, p, &c.row, obs)?;
    for s in &same {
        ensure!(
            *s == re && re == *s,
            "{:?} ({:?}) isn't equal to {:?}",
            s,
            s.elems(),
            re
        );
        ensure!(
            bf::hash(s) == bf::hash(&re),
            "equal patterns {:?} hash differently",
            s
        );
        ensure_eq!(s.to_string(), re.to_string(), "display of equal patterns");
    }
    // Bells in another order, and the other stages
    let rev: Vec<usize> = c.row.iter().rev().copied().collect();
    judge(&re, p, &rev, obs)?;
    judge(&re, p, &gen::id(c.row.len()), obs)?;
    judge(&re, p, &gen::id(c.row.len() + 1), obs)?;
    if c.row.len() > 1 {
        judge(&re, p, &gen::id(c.row.len() - 1), obs)?;
    }
    let q = pat::real(&c.q);
    judge(&q, &c.q, &c.row, obs)?;
    ensure_eq!(q == re, pat::normal(&c.q) == want, "{:?} == {:?}", q, re);
    obs.label_if(*p != want, "not written in normal form");
    let bells = p.iter().filter(|e| matches!(e, E::B(_))).count();
    obs.nontrivial_if(
        first && bells > 0 && bells < p.len() || !first && bells > 0 && c.row.len() >= 3,
    );
    Ok(())
}

fn case(n: usize) -> BoxedStrategy<Case> {
    pat::row_and_pattern(n)
        .prop_flat_map(move |(row, p)| {
            let q = prop_oneof![
                pat::loose(n),
                pat::tweak(p.clone(), n),
                pat::from_row(row.clone())
            ];
            (Just(row), Just(p), vec(any::<u8>(), 8), q)
        })
        .prop_flat_map(|(row, p, coins, q)| {
            let messy = pat::scramble(&p, &coins);
            (
                Just(row),
                prop_oneof![Just(p), Just(messy)],
                vec(any::<u8>(), 8),
                Just(q),
            )
        })
        .prop_map(|(row, p, coins, q)| Case { row, p, coins, q })
        .boxed()
}

/// Each short pattern against every row of up to four (or five) bells
fn check_every(p: &Vec<E>, obs: &mut Obs) -> Result<(), String> {
    let want = pat::normal(p);
    let re = pat::real(p);
    ensure_eq!(pat::data(&re), want, "pattern {}", pat::text(p));
    ensure!(
        Regex::parse(&pat::text(p)) == re,
        "{} parses differently",
        pat::text(p)
    );
    let mut any = false;
    for n in 1..=4 {
        for row in gen::all_perms(n) {
            any |= judge(&re, p, &row, obs)?;
        }
    }
    if p.len() >= 5 {
        for row in gen::all_perms(5).iter().step_by(7) {
            any |= judge(&re, p, row, obs)?;
        }
    }
    obs.nontrivial_if(any && p.iter().any(|e| matches!(e, E::B(_))) && p.contains(&E::Glob));
    Ok(())
}

/// Patterns from any text: crosses, dots, stars and bell names mean what is documented
fn check_text(s: &String, obs: &mut Obs) -> Result<(), String> {
    let want: Vec<E> = s
        .chars()
        .filter_map(|c| match c {
            'x' | '.' => Some(E::Any),
            '*' => Some(E::Glob),
            c => gen::name_to_index(c).map(E::B),
        })
        .collect();
    let re = Regex::parse(s);
    ensure_eq!(
        pat::data(&re),
        pat::normal(&want),
        "pattern parsed from {:?}",
        s
    );
    ensure_eq!(
        Regex::parse(&re.to_string()),
        re,
        "parsing the display of {:?}",
        re
    );
    ensure!(!format!("{:?}", re).is_empty(), "no debug form");
    for n in [1, 3, 8, 33] {
        judge(&re, &want, &gen::id(n), obs)?;
    }
    ensure!(
        RegexElem::Any.bell().is_none() && RegexElem::Glob.bell().is_none(),
        "wildcards have bells"
    );
    obs.nontrivial_if(want.len() < s.chars().count() && want.len() >= 2);
    Ok(())
}

/// A few elements against a row of very many bells
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Giant {
    row: gen::Giant,
    picks: Vec<(usize, usize)>,
    p: Vec<(u8, usize)>,
}

fn check_giant(c: &Giant, obs: &mut Obs) -> Result<(), String> {
    let row = c.row.perm();
    let n = row.len();
    // Bells at chosen places, in order, with wildcards which (usually) take up the rest
    let mut places: Vec<usize> = c.picks.iter().map(|(a, _)| a % n).collect();
    places.sort();
    places.dedup();
    let mut p = vec![];
    let mut at = 0;
    for (&i, &(kind, d)) in places.iter().zip(&c.p) {
        match kind % 8 {
            0 | 1 | 2 => p.push(E::Glob),
            3 => p.extend(std::iter::repeat(E::Any).take(i - at)),
            4 => {
                p.extend(std::iter::repeat(E::Any).take((i - at).saturating_sub(d % 3)));
                p.push(E::Glob);
            }
            5 => p.extend(std::iter::repeat(E::Any).take((i - at + d % 3).saturating_sub(1))),
            _ => p.extend(row[at..i].iter().map(|b| E::B(*b))),
        }
        p.push(E::B(if kind == 255 { d } else { row[i] }));
        at = i + 1;
    }
    match c.p.last().map_or(0, |x| x.0) % 4 {
        0 => {}
        1 => p.extend(std::iter::repeat(E::Any).take(n - at)),
        _ => p.push(E::Glob),
    }
    let re = pat::real(&p);
    ensure!(
        pat::data(&re) == pat::normal(&p),
        "elements of a pattern of {} elements",
        p.len()
    );
    judge(&re, &p, &row, obs)?;
    obs.label_if(n > 65_536, "over 65,536 bells");
    obs.nontrivial_if(p.contains(&E::Glob));
    Ok(())
}

fn giants() -> BoxedStrategy<Giant> {
    let place = || prop_oneof![2 => 65_530usize..65_545, 1 => 0usize..10, 2 => any::<usize>(), 1 => 250usize..260, 1 => 131_065usize..131_080];
    (
        gen::giant(),
        vec((place(), 0usize..1), 0..5),
        vec((any::<u8>(), place()), 5),
    )
        .prop_map(|(row, picks, p)| Giant { row, picks, p })
        .boxed()
}

fn main() {
    vcore::main(Property {
        id: "C19",
        assumptions: vec!["the unchecked constructors are only given normalised elements"],
        facets: vec![
            Facet::enumerated(
                "every-short-pattern",
                "has a bell and a glob, and matches some row",
                |t| {
                    let (b, l) = if t == Tier::Quick { (3, 5) } else { (4, 6) };
                    Box::new(pat::every_pattern(b, l).into_iter())
                },
                check_every,
            ),
            Facet::random(
                "patterns",
                150_000,
                4_000_000,
                "a match involving bells and wildcards, or a failure to match involving bells on three or more",
                |_| prop_oneof![3 => (1usize..=8).prop_flat_map(case), 1 => gen::stage().prop_flat_map(case)].boxed(),
                check,
            ),
            Facet::random("giants", 200, 6_000, "has a glob", |_| giants(), check_giant),
            Facet::random(
                "text",
                40_000,
                1_000_000,
                "at least two elements and some ignored characters",
                |_| {
                    let p = ((3usize..10).prop_flat_map(pat::loose), gen::noise(4))
                        .prop_map(|(p, noise)| gen::with_noise(&pat::text(&p), &noise));
                    prop_oneof![2 => p, 1 => gen::text(14).prop_map(|s| s.replace('X', ""))].boxed()
                },
                check_text,
            ),
        ],
    });
}
