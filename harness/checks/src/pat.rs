//! Music patterns as data: the model of matching, normalisation and counting, and generators.
#![allow(dead_code)]

use bellframe::{
    music::{Regex, RegexElem},
    Bell,
};
use proptest::{collection::vec, prelude::*, sample::Index};
use serde::{Deserialize, Serialize};
use vcore::gen;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum E {
    B(usize),
    Any,
    Glob,
}
use E::*;

pub fn text(p: &[E]) -> String {
    p.iter()
        .map(|e| match e {
            B(b) => gen::name(*b),
            Any => "x".to_owned(),
            Glob => "*".to_owned(),
        })
        .collect()
}

pub fn elem(e: &E) -> RegexElem {
    match e {
        B(b) => RegexElem::Bell(Bell::from_index(*b)),
        Any => RegexElem::Any,
        Glob => RegexElem::Glob,
    }
}

pub fn elems(p: &[E]) -> Vec<RegexElem> {
    p.iter().map(elem).collect()
}

pub fn real(p: &[E]) -> Regex {
    Regex::from_vec(elems(p))
}

pub fn data(r: &Regex) -> Vec<E> {
    r.elems()
        .iter()
        .map(|e| match e {
            RegexElem::Bell(b) => B(b.index()),
            RegexElem::Any => Any,
            RegexElem::Glob => Glob,
        })
        .collect()
}

/// Between two bells: the single wildcards, then at most one glob
pub fn normal(p: &[E]) -> Vec<E> {
    let mut out = Vec::new();
    let (mut anys, mut glob) = (0, false);
    for e in p.iter().map(Some).chain([None]) {
        match e {
            Some(Any) => anys += 1,
            Some(Glob) => glob = true,
            bell_or_end => {
                out.extend(std::iter::repeat(Any).take(anys));
                if glob {
                    out.push(Glob);
                }
                anys = 0;
                glob = false;
                out.extend(bell_or_end.copied());
            }
        }
    }
    out
}

/// Can the row be divided between the elements?  By dynamic programming: `can[j]` after `i`
/// elements is whether the first `j` bells can be divided between the first `i` elements.
pub fn matches(p: &[E], row: &[usize]) -> bool {
    let n = row.len();
    // The numbers of bells which the elements so far can take up: `exact`, and all of `from..=n`
    let mut exact = vec![0];
    let mut from = n + 1;
    for e in p {
        match e {
            B(b) => {
                exact.extend(from..=n);
                exact.retain(|&j| j < n && row[j] == *b);
                exact.iter_mut().for_each(|j| *j += 1);
                from = n + 1;
            }
            Any => {
                exact.iter_mut().for_each(|j| *j += 1);
                exact.retain(|&j| j <= n);
                from = (from + 1).min(n + 1);
            }
            Glob => {
                from = exact.iter().copied().min().unwrap_or(from).min(from);
                exact.clear();
            }
        }
        if exact.is_empty() && from > n {
            return false;
        }
    }
    exact.contains(&n) || from <= n
}

/// The number of rows on `n` bells which match, or `None` if that doesn't fit in 128 bits.
///
/// The unfixed bells fill the crosses and globs: choose how many each glob takes (counted by
/// repeated summing), and the bells go into those places in every order.
pub fn count(p: &[E], n: usize) -> Option<u128> {
    let mut seen = vec![false; n];
    let (mut anys, mut globs) = (0, 0);
    for e in p {
        match e {
            B(b) if *b >= n || std::mem::replace(&mut seen[*b], true) => return Some(0),
            B(_) => {}
            Any => anys += 1,
            Glob => globs += 1,
        }
    }
    let free = seen.iter().filter(|s| !**s).count();
    if anys > free {
        return Some(0);
    }
    let spare = free - anys;
    // ways[k]: ways of sharing k bells (as numbers, not identities) between the globs so far
    let mut ways = vec![0u128; spare + 1];
    ways[0] = 1;
    for _ in 0..globs {
        for k in 1..=spare {
            ways[k] = ways[k].checked_add(ways[k - 1])?;
        }
    }
    if ways[spare] == 0 {
        return Some(0);
    }
    let mut total = ways[spare];
    for k in 1..=free as u128 {
        total = total.checked_mul(k)?;
    }
    Some(total)
}

/// The bells, crosses and globs of a pattern on `n` bells: (unfixed bells, crosses, globs), if no
/// bell is repeated or outside the stage
pub fn shape(p: &[E], n: usize) -> Option<(usize, usize, usize)> {
    let mut seen = vec![false; n];
    let (mut anys, mut globs) = (0, 0);
    for e in p {
        match e {
            B(b) if *b >= n || std::mem::replace(&mut seen[*b], true) => return None,
            B(_) => {}
            Any => anys += 1,
            Glob => globs += 1,
        }
    }
    Some((seen.iter().filter(|s| !**s).count(), anys, globs))
}

//////////////////////
// GENERATORS       //
//////////////////////

/// A pattern with nothing to do with any row, on around `n` bells
pub fn loose(n: usize) -> BoxedStrategy<Vec<E>> {
    gen::list(
        prop_oneof![3 => (0..n + 1).prop_map(B), 2 => Just(Any), 2 => Just(Glob)],
        0,
        10,
        100,
    )
}

/// Shuffle each stretch of wildcards, and repeat some of its globs
pub fn scramble(p: &[E], coins: &[u8]) -> Vec<E> {
    let mut out: Vec<E> = Vec::new();
    let mut coins = coins.iter().copied().cycle();
    let mut coin = move || coins.next().unwrap_or(0) as usize;
    let mut start = 0;
    for e in p {
        match e {
            B(_) => {
                out.push(*e);
                start = out.len();
            }
            e => {
                let mut times = 1;
                if *e == Glob {
                    times += [0, 0, 1, 2][coin() % 4];
                }
                for _ in 0..times {
                    let at = start + coin() % (out.len() - start + 1);
                    out.insert(at, *e);
                }
            }
        }
    }
    out
}

/// A pattern which the row matches: bells kept, replaced by crosses, or swallowed by globs; with
/// globs added
pub fn from_row(row: Vec<usize>) -> BoxedStrategy<Vec<E>> {
    let n = row.len();
    (vec(0u8..12, n + 1), 0u8..4)
        .prop_map(move |(coins, style)| {
            let mut out = Vec::new();
            let mut i = 0;
            for (k, c) in coins.iter().enumerate() {
                if *c == 0 || *c == 1 && style == 1 {
                    out.push(Glob);
                }
                if k < i || k >= n {
                    continue;
                }
                match (style, c) {
                    (0, 0..=6) | (1, 0..=2) | (2, 0..=8) | (3, 0..=1) => out.push(B(row[k])),
                    (_, 7..=9) | (2, _) => out.push(Any),
                    _ => {
                        out.push(Glob);
                        i = k + 1 + (*c as usize);
                        continue;
                    }
                }
                i = k + 1;
            }
            if i > n {
                // the last glob swallowed everything to the end
            }
            out
        })
        .boxed()
}

/// Change one element of a pattern
pub fn tweak(p: Vec<E>, n: usize) -> BoxedStrategy<Vec<E>> {
    (any::<Index>(), any::<Index>(), 0u8..5, 0..n + 1)
        .prop_map(move |(i, j, how, b)| {
            let mut p = p.clone();
            let k = p.len();
            match how {
                0 if k > 0 => {
                    p.remove(i.index(k));
                }
                1 => p.insert(i.index(k + 1), Any),
                2 if k > 0 => p.swap(i.index(k), j.index(k)),
                3 if k > 0 => p[i.index(k)] = B(b),
                _ => p.insert(i.index(k + 1), B(b)),
            }
            p
        })
        .boxed()
}

/// A row and a pattern: usually related
pub fn row_and_pattern(n: usize) -> BoxedStrategy<(Vec<usize>, Vec<E>)> {
    gen::perm(n)
        .prop_flat_map(move |r| {
            let p = from_row(r.clone());
            (
                Just(r.clone()),
                prop_oneof![
                    4 => p.clone(),
                    4 => p.clone().prop_flat_map(move |p| tweak(p, n)),
                    1 => p.prop_flat_map(move |p| tweak(p, n)).prop_flat_map(move |p| tweak(p, n)),
                    1 => loose(n),
                ],
            )
        })
        .boxed()
}

/// Every pattern of up to `len` elements on up to `bells` bells
pub fn every_pattern(bells: usize, len: usize) -> Vec<Vec<E>> {
    let alphabet: Vec<E> = (0..bells).map(B).chain([Any, Glob]).collect();
    let mut out = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..len {
        let mut next = Vec::new();
        for p in &last {
            for e in &alphabet {
                let mut q: Vec<E> = p.clone();
                q.push(*e);
                next.push(q);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}
