//! C18: a mask is the set of rows which have its fixed bells in its fixed places.

#[path = "../bf.rs"]
mod bf;

use bellframe::{
    music::{Regex, RegexElem},
    Mask, Row, RowBuf,
};
use proptest::{collection::vec, prelude::*, sample::Index};
use serde::{Deserialize, Serialize};
use vcore::{ensure, ensure_eq, gen, Facet, Obs, Property, Tier};

/// A mask as data: the bell required in each place
type M = Vec<Option<usize>>;

fn matches(m: &M, row: &[usize]) -> bool {
    m.len() == row.len() && m.iter().zip(row).all(|(b, r)| b.map_or(true, |b| b == *r))
}

/// No bell fixed twice, none outside the stage
fn sound(m: &M) -> bool {
    let mut seen = std::collections::HashSet::new();
    m.iter().flatten().all(|&b| b < m.len() && seen.insert(b))
}

fn text(m: &M) -> String {
    m.iter()
        .map(|b| b.map_or("x".to_owned(), gen::name))
        .collect()
}

/// Build the mask in one of the ways that the API offers
fn real(m: &M, how: u8) -> Mask {
    let n = m.len();
    match how % 4 {
        0 if n <= 33 => Mask::parse(&text(m)),
        1 if m.iter().all(Option::is_some) && sound(m) => {
            Mask::full_row(&bf::row(&m.iter().map(|b| b.unwrap()).collect::<Vec<_>>()))
        }
        2 if m
            .iter()
            .enumerate()
            .all(|(i, b)| b.map_or(true, |b| b == i)) =>
        {
            let bells = m.iter().flatten().map(|&b| bf::bell(b));
            match n % 2 {
                0 => Mask::fix_bells(bf::stage(n), bells),
                _ => {
                    // The order of the bells doesn't matter
                    let bells: Vec<_> = bells.rev().collect();
                    Mask::fix_bells(bf::stage(n), bf::hinted(bells, how as usize / 4 + n / 2))
                }
            }
        }
        _ => {
            let mut mask = Mask::empty(bf::stage(n));
            for (i, b) in m.iter().enumerate().rev() {
                if let Some(b) = b {
                    mask.set_bell(bf::bell(*b), i)
                        .expect("the bell isn't set yet");
                }
            }
            mask
        }
    }
}

/// Read a mask through its getters
fn data(m: &Mask) -> Result<M, String> {
    let n = m.stage().num_bells();
    let mut out: M = vec![None; n];
    for b in 0..n {
        if let Some(p) = m.place_of(bf::bell(b)) {
            ensure!(p < n, "{} has bell {} in place {}", m, b, p);
            ensure!(out[p].is_none(), "{} has two bells in place {}", m, p);
            out[p] = Some(b);
        }
    }
    let free: Vec<usize> = m.unspecified_places().collect();
    let want: Vec<usize> = (0..n).filter(|&i| out[i].is_none()).collect();
    ensure_eq!(free, want, "unspecified places of {}", m);
    ensure_eq!(m.is_empty(), free.len() == n, "is {} empty", m);
    ensure_eq!(m.to_string(), text(&out), "display of {:?}", m);
    Ok(out)
}

/// All the rows of the mask's stage if there are few; otherwise rows which match it, rows which
/// nearly do, and some others
fn rows(m: &M, extra: &[Vec<usize>], picks: &[usize]) -> Vec<Vec<usize>> {
    let n = m.len();
    if n <= 5 {
        return gen::all_perms(n);
    }
    let mut out: Vec<Vec<usize>> = extra.iter().filter(|r| r.len() == n).cloned().collect();
    if sound(m) {
        for r in out.clone() {
            // Rearrange so that it matches, then swap two places
            let mut r = r;
            for (i, b) in m.iter().enumerate() {
                if let Some(b) = b {
                    let j = r.iter().position(|x| x == b).unwrap();
                    r.swap(i, j);
                }
            }
            // (later swaps never move bells already put in place)
            out.push(r.clone());
            for w in picks.chunks_exact(2) {
                let mut s = r.clone();
                s.swap(w[0] % n, w[1] % n);
                out.push(s);
            }
        }
    }
    out
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    m: M,
    other: M,
    how: (u8, u8),
    extra: Vec<Vec<usize>>,
    picks: Vec<usize>,
    sets: Vec<(usize, usize)>,
    fixes: Vec<usize>,
    row: Vec<usize>,
}

fn check(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let (m, o) = (&c.m, &c.other);
    let n = m.len();
    let mask = real(m, c.how.0);
    let other = real(o, c.how.1);
    ensure_eq!(data(&mask)?, *m, "the mask built from {}", text(m));
    ensure_eq!(data(&other)?, *o, "the mask built from {}", text(o));
    ensure_eq!(mask == other, m == o, "{} == {}", mask, other);
    ensure!(
        mask == real(m, c.how.0.wrapping_add(1)),
        "two ways of building {} differ",
        mask
    );
    ensure!(
        bf::hash(&mask) == bf::hash(&mask.clone()),
        "a copy of {} hashes differently",
        mask
    );
    if n <= 33 {
        ensure_eq!(
            Mask::parse(&mask.to_string()),
            mask,
            "parsing the display of {}",
            mask
        );
    }

    let re = Regex::from(mask.clone());
    let elems: Vec<Option<usize>> = re
        .elems()
        .iter()
        .map(|e| e.bell().map(|b| b.index()))
        .collect();
    ensure_eq!(elems, *m, "the pattern of {}", mask);
    ensure!(
        re.elems().iter().all(|e| !matches!(e, RegexElem::Glob)),
        "the pattern of {} has globs: {}",
        mask,
        re
    );

    // The sets of rows
    let all = rows(m, &c.extra, &c.picks);
    let mut both = false;
    let mut some = 0;
    for r in &all {
        let row = bf::row(r);
        let is = matches(m, r);
        some += is as usize;
        ensure_eq!(mask.matches(&row), is, "{} matches {}", mask, row);
        ensure_eq!(
            re.matches(&row),
            is,
            "pattern {} of {} matches {}",
            re,
            mask,
            row
        );
        ensure_eq!(
            other.matches(&row),
            matches(o, r),
            "{} matches {}",
            other,
            row
        );
        both |= is && matches(o, r);
    }
    for r in [gen::id(n + 1), gen::id(n.max(2) - 1)] {
        ensure!(
            r.len() == n || !mask.matches(&bf::row(&r)),
            "{} matches {:?} of another stage",
            mask,
            r
        );
    }
    let free = m.iter().filter(|b| b.is_none()).count();
    match mask.as_row() {
        Some(r) => {
            ensure!(free <= 1, "{} is said to match only {}", mask, r);
            let r = bf::valid(&r)?;
            ensure!(
                matches(m, &r),
                "{} is said to match only {:?}, which it doesn't",
                mask,
                r
            );
        }
        None => ensure!(
            free > 1,
            "{} matches exactly one row, but none is given",
            mask
        ),
    }

    // Relations between two masks
    let same = n == o.len();
    let mut merged = Some(vec![None; n]);
    if same {
        for i in 0..n {
            let cell = match (m[i], o[i]) {
                (Some(a), Some(b)) if a != b => {
                    merged = None;
                    break;
                }
                (a, b) => a.or(b),
            };
            merged.as_mut().unwrap()[i] = cell;
        }
        if let Some(x) = &merged {
            if !sound(x) {
                merged = None;
            }
        }
    } else {
        merged = None;
    }
    if same && n <= 5 {
        ensure!(
            both == merged.is_some(),
            "the oracle is wrong about {} and {}",
            mask,
            other
        );
        let sub = all.iter().all(|r| !matches(m, r) || matches(o, r));
        ensure_eq!(
            mask.is_subset_of(&other),
            sub,
            "{} is a subset of {}",
            mask,
            other
        );
    } else {
        // A mask with one free place has one row; with two or more, each free place and each
        // unfixed bell has a choice, so every requirement of the other mask must be fixed
        let sub = same
            && if free <= 1 {
                let used: Vec<usize> = m.iter().flatten().copied().collect();
                let missing = (0..n).find(|b| !used.contains(b));
                (0..n).all(|i| o[i].is_none() || o[i] == m[i].or(missing))
            } else {
                (0..n).all(|i| o[i].is_none() || o[i] == m[i])
            };
        ensure_eq!(
            mask.is_subset_of(&other),
            sub,
            "{} is a subset of {}",
            mask,
            other
        );
    }
    ensure_eq!(
        mask.is_compatible_with(&other),
        merged.is_some(),
        "{} is compatible with {}",
        mask,
        other
    );
    ensure_eq!(
        other.is_compatible_with(&mask),
        merged.is_some(),
        "{} is compatible with {}",
        other,
        mask
    );
    match (mask.combine(&other), other.combine(&mask), &merged) {
        (Some(x), Some(y), Some(want)) => {
            ensure_eq!(data(&x)?, *want, "{} combined with {}", mask, other);
            ensure_eq!(x, y, "{} combined with {}, both ways round", mask, other);
            ensure!(
                x.is_subset_of(&mask) && x.is_subset_of(&other),
                "{} isn't a subset of {} and {}",
                x,
                mask,
                other
            );
            for r in &all {
                ensure_eq!(
                    x.matches(&bf::row(r)),
                    matches(m, r) && matches(o, r),
                    "{} ({} combined with {}) matches {:?}",
                    x,
                    mask,
                    other,
                    r
                );
            }
        }
        (None, None, None) => {}
        (x, y, want) => {
            return Err(format!(
                "{} combined with {} is {:?}/{:?}, not {:?}",
                mask, other, x, y, want
            ))
        }
    }
    ensure!(
        mask.is_subset_of(&mask) && mask.is_compatible_with(&mask),
        "{} and itself",
        mask
    );
    ensure_eq!(
        mask.combine(&mask),
        Some(mask.clone()),
        "{} combined with itself",
        mask
    );

    // Multiplication
    let row = bf::row(&c.row);
    let (right, left) = (
        vcore::panics(|| &mask * row.as_row()),
        vcore::panics(|| row.as_row() * &mask),
    );
    if c.row.len() == n {
        let (right, left) = (right?, left?);
        let want: M = c.row.iter().map(|&b| m[b]).collect();
        ensure_eq!(data(&right)?, want, "{} * {}", mask, row);
        let want: M = m.iter().map(|b| b.map(|b| c.row[b])).collect();
        ensure_eq!(data(&left)?, want, "{} * {}", row, mask);
        for r in all.iter().take(200) {
            let is = matches(m, r);
            let s: RowBuf = bf::row(&gen::mul(r, &c.row));
            ensure_eq!(right.matches(&s), is, "({} * {}) matches {}", mask, row, s);
            let s: RowBuf = bf::row(&gen::mul(&c.row, r));
            ensure_eq!(left.matches(&s), is, "({} * {}) matches {}", row, mask, s);
        }
    } else {
        ensure!(
            right.is_err() && left.is_err(),
            "{} and {} were multiplied",
            mask,
            row
        );
    }
    ensure_eq!(data(&mask)?, *m, "after queries, {}", text(m));

    // Fixing bells
    let mut cur = mask.clone();
    let mut model = m.clone();
    let steps = c
        .sets
        .iter()
        .map(|&(b, p)| (b % n, p % n, false))
        .chain(c.fixes.iter().map(|&b| (b % n, b % n, true)));
    for (b, p, home) in steps {
        let before = model.clone();
        let raw = match model.iter().position(|x| *x == Some(b)) {
            // The unchecked forms are safe if the bell isn't fixed, or is fixed there
            Some(q) if q != p => None,
            _ => {
                let mut raw = cur.clone();
                unsafe {
                    if home {
                        raw.fix_unchecked(bf::bell(b))
                    } else {
                        raw.set_bell_unchecked(bf::bell(b), p)
                    }
                }
                Some(raw)
            }
        };
        let res = if home {
            cur.fix(bf::bell(b))
        } else {
            cur.set_bell(bf::bell(b), p)
        };
        match model.iter().position(|x| *x == Some(b)) {
            Some(q) => ensure_eq!(
                res.is_ok(),
                p == q,
                "fixing {} in place {} of {}",
                b,
                p,
                text(&before)
            ),
            None => {
                ensure!(
                    res.is_ok(),
                    "fixing {} in place {} of {} failed",
                    b,
                    p,
                    text(&before)
                );
                obs.label_if(model[p].is_some(), "replaced a bell");
                model[p] = Some(b);
            }
        }
        if let Some(raw) = raw {
            ensure_eq!(
                data(&raw)?,
                model,
                "fixing {}, unchecked, in place {} of {}",
                b,
                p,
                text(&before)
            );
        }
        ensure_eq!(
            data(&cur)?,
            model,
            "fixing {} in place {} of {}",
            b,
            p,
            text(&before)
        );
    }
    obs.label_if(merged.is_some() && m != o, "compatible");
    obs.label_if(some > 1 && some < all.len(), "matches some rows");
    obs.nontrivial_if(n >= 3 && free > 0 && free < n && same);
    Ok(())
}

/// A mask on `n` bells, with some of the bells of a permutation
fn mask(n: usize) -> BoxedStrategy<M> {
    let keep = prop_oneof![
        3 => vec(any::<bool>(), n).boxed(),
        1 => Just(vec![true; n]).boxed(),
        1 => Just(vec![false; n]).boxed(),
        // All but one or two
        2 => (any::<Index>(), any::<Index>()).prop_map(move |(i, j)| {
            let mut k = vec![true; n];
            k[i.index(n)] = false;
            k[j.index(n)] = false;
            k
        }).boxed(),
        // One or two
        2 => (any::<Index>(), any::<Index>()).prop_map(move |(i, j)| {
            let mut k = vec![false; n];
            k[i.index(n)] = true;
            k[j.index(n)] = true;
            k
        }).boxed(),
    ];
    (gen::perm(n), keep)
        .prop_map(|(p, keep)| {
            p.into_iter()
                .zip(keep)
                .map(|(b, k)| k.then_some(b))
                .collect()
        })
        .boxed()
}

/// Two masks: unrelated, or sharing a row, or one narrowed from the other
fn masks(n: usize) -> BoxedStrategy<(M, M)> {
    let shared = (gen::perm(n), vec(0u8..5, n)).prop_map(|(p, c)| {
        let a: M = p
            .iter()
            .zip(&c)
            .map(|(b, k)| (*k & 1 == 0 && *k < 4).then_some(*b))
            .collect();
        let b: M = p
            .iter()
            .zip(&c)
            .map(|(b, k)| (*k & 2 == 0 && *k < 4).then_some(*b))
            .collect();
        (a, b)
    });
    let narrowed = (mask(n), vec(any::<bool>(), n), any::<bool>()).prop_map(|(m, k, flip)| {
        let o: M = m
            .iter()
            .zip(k)
            .map(|(b, k)| if k { *b } else { None })
            .collect();
        if flip {
            (o, m)
        } else {
            (m, o)
        }
    });
    // One requirement of the second differs from the first
    let near = (mask(n), any::<Index>(), any::<Index>()).prop_map(move |(m, i, j)| {
        let mut o = m.clone();
        o.swap(i.index(n), j.index(n));
        (m, o)
    });
    prop_oneof![
        2 => (mask(n), mask(n)),
        2 => shared,
        2 => narrowed,
        2 => near,
        1 => mask(n).prop_map(|m| (m.clone(), m)),
        1 => (mask(n), mask(n + 1)),
    ]
    .boxed()
}

fn case(n: usize) -> BoxedStrategy<Case> {
    (
        masks(n),
        any::<(u8, u8)>(),
        vec(gen::perm(n), 3),
        vec(any::<usize>(), 8),
        vec((any::<usize>(), any::<usize>()), 0..4),
        vec(any::<usize>(), 0..3),
        prop_oneof![8 => gen::perm(n), 1 => gen::perm(n + 1), 1 => gen::perm(n.max(2) - 1)],
    )
        .prop_map(|((m, other), how, extra, picks, sets, fixes, row)| Case {
            m,
            other,
            how,
            extra,
            picks,
            sets,
            fixes,
            row,
        })
        .boxed()
}

/// Every pair of sound masks on few bells
fn every_pair(max: usize) -> impl Iterator<Item = Case> {
    (1..=max).flat_map(|n| {
        let mut all: std::collections::BTreeSet<M> = Default::default();
        for p in gen::all_perms(n) {
            for bits in 0..1u32 << n {
                all.insert(
                    (0..n)
                        .map(|i| (bits >> i & 1 == 1).then_some(p[i]))
                        .collect(),
                );
            }
        }
        let all: Vec<M> = all.into_iter().collect();
        let perms = gen::all_perms(n);
        (0..all.len() * all.len()).map(move |k| Case {
            m: all[k / all.len()].clone(),
            other: all[k % all.len()].clone(),
            how: (k as u8, (k / 4) as u8),
            extra: vec![],
            picks: vec![],
            sets: vec![(k, k / n)],
            fixes: vec![k / 3],
            row: perms[k % perms.len()].clone(),
        })
    })
}

/// Masks from text: every cross or dot is an unfixed place, every bell name that bell, and all
/// else is ignored.  A mask which repeats a bell or has one outside its stage matches nothing.
fn check_text(s: &String, obs: &mut Obs) -> Result<(), String> {
    let want: M = s
        .chars()
        .filter_map(|c| match c {
            'x' | 'X' | '.' => Some(None),
            c => gen::name_to_index(c).map(Some),
        })
        .collect();
    let mask = Mask::parse(s);
    ensure_eq!(mask.to_string(), text(&want), "mask parsed from {:?}", s);
    ensure_eq!(
        Mask::parse(&mask.to_string()),
        mask,
        "parsing the display of {}",
        mask
    );
    let _ = format!("{:?}", mask);
    let free: Vec<usize> = (0..want.len()).filter(|&i| want[i].is_none()).collect();
    ensure_eq!(
        mask.unspecified_places().collect::<Vec<_>>(),
        free,
        "unspecified places of {}",
        mask
    );
    ensure_eq!(
        mask.is_empty(),
        free.len() == want.len(),
        "is {} empty",
        mask
    );
    for b in 0..40 {
        ensure_eq!(
            mask.place_of(bf::bell(b)),
            want.iter().position(|x| *x == Some(b)),
            "place of bell {} in {}",
            b,
            mask
        );
    }
    let n = want.len();
    let ok = sound(&want);
    obs.label_if(!ok, "repeated or out-of-stage bells");
    if n > 0 {
        ensure_eq!(mask.stage().num_bells(), n, "stage of {}", mask);
        let re = Regex::from(mask.clone());
        let tests: Vec<Vec<usize>> = if n <= 5 {
            gen::all_perms(n)
        } else {
            let mut r = gen::id(n);
            if ok {
                for (i, b) in want.iter().enumerate() {
                    if let Some(b) = b {
                        let j = r.iter().position(|x| x == b).unwrap();
                        r.swap(i, j);
                    }
                }
            }
            vec![r, gen::id(n)]
        };
        for r in tests {
            let row: &Row = &bf::row(&r);
            ensure_eq!(
                mask.matches(row),
                matches(&want, &r),
                "{} matches {}",
                mask,
                row
            );
            ensure_eq!(
                re.matches(row),
                matches(&want, &r),
                "{} matches {}",
                re,
                row
            );
        }
        let row = mask.as_row();
        ensure_eq!(
            row.is_some(),
            ok && free.len() <= 1,
            "as a row, {} is {:?}",
            mask,
            row
        );
    } else {
        ensure!(
            mask.as_row().is_none(),
            "a mask of no places is {:?}",
            mask.as_row()
        );
        ensure!(
            !mask.matches(&bf::row(&[0])),
            "a mask of no places matches 1"
        );
    }
    obs.nontrivial_if(n > 0 && n < s.chars().count());
    Ok(())
}

/// Masks of very many bells, fixing a few of those of a row (or all but a few)
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Giants {
    row: gen::Giant,
    other: gen::Giant,
    masks: [(bool, Vec<usize>); 2],
    swap: (usize, usize),
}

fn check_giants(c: &Giants, obs: &mut Obs) -> Result<(), String> {
    let (p, q) = (c.row.perm(), c.other.perm());
    let n = p.len();
    let make = |all: bool, places: &[usize]| {
        let mut m: M = p.iter().map(|&b| all.then_some(b)).collect();
        for &i in places {
            m[i % n] = (!all).then_some(p[i % n]);
        }
        m
    };
    let build = |m: &M| -> Result<Mask, String> {
        if let Some(row) = m.iter().copied().collect::<Option<Vec<usize>>>() {
            return Ok(Mask::full_row(&bf::row(&row)));
        }
        let mut mask = Mask::empty(bf::stage(n));
        for (i, b) in m.iter().enumerate() {
            if let Some(b) = b {
                // Safe: every bell is set once
                unsafe { mask.set_bell_unchecked(bf::bell(*b), i) };
            }
        }
        Ok(mask)
    };
    let bells = |mask: &Mask| -> M {
        Regex::from(mask.clone())
            .elems()
            .iter()
            .map(|e| e.bell().map(|b| b.index()))
            .collect()
    };
    let m = make(c.masks[0].0, &c.masks[0].1);
    let mut o = make(c.masks[1].0, &c.masks[1].1);
    // Perhaps not compatible
    o.swap(c.swap.0 % n, c.swap.1 % n);
    let (mask, other) = (
        build(&m)?,
        if sound(&o) { build(&o)? } else { return Ok(()) },
    );
    ensure!(
        bells(&mask) == m && mask.stage().num_bells() == n,
        "a mask on {} bells",
        n
    );
    ensure!(
        mask.unspecified_places()
            .eq((0..n).filter(|&i| m[i].is_none())),
        "unspecified places on {} bells",
        n
    );
    for &i in c.masks[0].1.iter().take(8) {
        let i = i % n;
        ensure_eq!(
            mask.place_of(bf::bell(p[i])),
            m[i].map(|_| i),
            "place of bell {}",
            p[i]
        );
    }
    let mut rows = vec![p.clone(), q.clone()];
    let mut near = p.clone();
    near.swap(c.swap.0 % n, c.swap.1 % n);
    rows.push(near);
    for r in rows.iter().filter(|r| r.len() == n) {
        ensure_eq!(
            mask.matches(&bf::row(r)),
            matches(&m, r),
            "matching a row on {} bells",
            n
        );
        ensure_eq!(
            other.matches(&bf::row(r)),
            matches(&o, r),
            "matching a row on {} bells",
            n
        );
    }
    // (finding a bell takes time in proportion to the stage, so only compare masks of few bells)
    if !c.masks[1].0 {
        let merged: M = m.iter().zip(&o).map(|(a, b)| a.or(*b)).collect();
        let ok = m
            .iter()
            .zip(&o)
            .all(|(a, b)| a.is_none() || b.is_none() || a == b)
            && sound(&merged);
        ensure_eq!(
            mask.is_compatible_with(&other),
            ok,
            "compatibility on {} bells",
            n
        );
        ensure_eq!(
            mask.combine(&other).map(|x| bells(&x) == merged),
            ok.then_some(true),
            "combining on {} bells",
            n
        );
        obs.label_if(ok, "compatible");
    }
    let free = m.iter().filter(|b| b.is_none()).count();
    if free > 1 {
        ensure!(mask.as_row().is_none(), "{} free bells give a row", free);
        let sub = (0..n).all(|i| o[i].is_none() || o[i] == m[i]);
        ensure_eq!(mask.is_subset_of(&other), sub, "subset on {} bells", n);
    }
    if q.len() == n {
        let row = bf::row(&q);
        let want: M = q.iter().map(|&b| m[b]).collect();
        ensure!(
            bells(&(&mask * row.as_row())) == want,
            "mask by row on {} bells",
            n
        );
        let want: M = m.iter().map(|b| b.map(|b| q[b])).collect();
        ensure!(
            bells(&(row.as_row() * &mask)) == want,
            "row by mask on {} bells",
            n
        );
    }
    obs.label_if(n > 65_536, "over 65,536 bells");
    obs.nontrivial_if(free > 0 && free < n);
    Ok(())
}

fn giants() -> BoxedStrategy<Giants> {
    let place = || prop_oneof![2 => 65_530usize..65_545, 1 => 0usize..10, 1 => 250usize..260, 1 => any::<usize>()];
    let spec = move || (prop::bool::weighted(0.3), vec(place(), 0..12));
    (
        gen::giant_pair(),
        spec(),
        spec(),
        (place(), place()),
        any::<bool>(),
    )
        .prop_map(|((row, other), a, b, swap, swapped)| Giants {
            row,
            other,
            masks: [a, b],
            swap: if swapped { swap } else { (0, 0) },
        })
        .boxed()
}

fn main() {
    vcore::main(Property {
        id: "C18",
        assumptions: vec!["set relations are claimed of masks whose fixed bells are distinct and within the stage"],
        facets: vec![
            Facet::enumerated(
                "every-pair",
                "two masks of one stage of three or more bells, the first fixing some but not all bells",
                |t| Box::new(every_pair(if t == Tier::Quick { 4 } else { 5 })),
                check,
            ),
            Facet::random("giants", 150, 5_000, "some bells fixed and some not", |_| giants(), check_giants),
            Facet::random(
                "pairs",
                40_000,
                1_000_000,
                "two masks of one stage of three or more bells, the first fixing some but not all bells",
                |_| prop_oneof![3 => (1usize..=5).prop_flat_map(case), 2 => gen::stage().prop_flat_map(case)].boxed(),
                check,
            ),
            Facet::random(
                "text",
                40_000,
                1_000_000,
                "the text has both places and ignored characters",
                |_| {
                    let masky = (1usize..=10).prop_flat_map(|n| (mask(n), gen::noise(4))).prop_map(|(m, noise)| {
                        gen::with_noise(&text(&m), &noise)
                    });
                    let loose = (vec(prop_oneof![2 => Just("x".to_owned()), 1 => Just(".".to_owned()), 1 => Just("X".to_owned()),
                        4 => (0usize..7).prop_map(gen::name)], 0..8), gen::noise(3))
                        .prop_map(|(v, noise)| gen::with_noise(&v.concat(), &noise));
                    prop_oneof![3 => masky, 3 => loose, 2 => gen::text(14)].boxed()
                },
                check_text,
            ),
        ],
    });
}
