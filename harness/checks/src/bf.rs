//! Conversions between plain data and the types of the code under test, shared by the checks.
#![allow(dead_code)]

use bellframe::{Bell, Row, RowBuf, SameStageVec, Stage};
use std::hash::{Hash, Hasher};

pub fn bell(i: usize) -> Bell {
    Bell::from_index(i)
}

pub fn stage(n: usize) -> Stage {
    Stage::new(n)
}

/// Build a row through the checked constructor
pub fn row(p: &[usize]) -> RowBuf {
    RowBuf::from_vec(p.iter().map(|&i| bell(i)).collect()).expect("a permutation is a valid row")
}

pub fn idx(r: &Row) -> Vec<usize> {
    r.bell_iter().map(|b| b.index()).collect()
}

/// Read a row through every raw accessor, failing if they disagree or if it isn't a permutation
pub fn valid(r: &Row) -> Result<Vec<usize>, String> {
    let a = idx(r);
    let b: Vec<usize> = r.slice().iter().map(|b| b.index()).collect();
    vcore::ensure!(a == b, "iterator {:?} and slice {:?} differ", a, b);
    vcore::ensure!(!a.is_empty(), "a row with no bells exists");
    vcore::ensure!(
        r.stage().num_bells() == a.len(),
        "row {:?} claims stage {}",
        a,
        r.stage().num_bells()
    );
    vcore::ensure!(
        vcore::gen::is_perm(&a),
        "{:?} (0-indexed bells) is not a permutation",
        a
    );
    Ok(a)
}

pub fn is_row(r: &Row, want: &[usize], what: &str) -> Result<(), String> {
    let got = valid(r).map_err(|e| format!("{}: {}", what, e))?;
    vcore::ensure!(
        got == want,
        "{}: got {} ({:?}), expected {} ({:?})",
        what,
        vcore::gen::names(&got),
        got,
        vcore::gen::names(want),
        want
    );
    Ok(())
}

pub fn ssv_rows(v: &SameStageVec) -> Vec<Vec<usize>> {
    v.iter().map(idx).collect()
}

pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Does the error describe a problem which the list has?
pub fn truthful(
    list: &[usize],
    stage: Option<usize>,
    e: &bellframe::InvalidRowError,
) -> Result<(), String> {
    let n = stage.unwrap_or(list.len());
    let text = e.to_string();
    vcore::ensure!(!text.is_empty(), "{:?} displays as nothing", e);
    match e {
        bellframe::InvalidRowError::NoBells => {
            vcore::ensure!(list.is_empty(), "'no bells' reported for {:?}", list)
        }
        bellframe::InvalidRowError::DuplicateBell(b) => {
            let k = list.iter().filter(|&&x| x == b.index()).count();
            vcore::ensure!(
                k >= 2,
                "duplicate bell {} reported, which occurs {} times in {:?}",
                b,
                k,
                list
            );
            vcore::ensure!(text.contains(&b.name()), "'{}' doesn't name the bell", text);
        }
        bellframe::InvalidRowError::BellOutOfStage(b, s) => {
            vcore::ensure!(
                list.contains(&b.index()),
                "bell {} reported, which isn't in {:?}",
                b,
                list
            );
            vcore::ensure!(
                s.num_bells() == n && b.index() >= n,
                "bell {} reported as outside stage {} for {:?} on {} bells",
                b,
                s,
                list,
                n
            );
            vcore::ensure!(text.contains(&b.name()), "'{}' doesn't name the bell", text);
        }
        bellframe::InvalidRowError::MissingBell(b) => {
            vcore::ensure!(
                !list.contains(&b.index()) && list.iter().any(|&x| x > b.index()),
                "bell {} reported missing from {:?}",
                b,
                list
            );
            vcore::ensure!(text.contains(&b.name()), "'{}' doesn't name the bell", text);
        }
    }
    Ok(())
}

/// How many ways there are for an iterator to tell how long it is
pub const HINTS: usize = 6;

/// The items of a list, from an iterator which tells how many are left in one of the ways that
/// iterators may: exactly, not at all, or with bounds which are true but loose.
#[derive(Clone)]
pub struct Hinted<T> {
    left: std::vec::IntoIter<T>,
    how: usize,
}

pub fn hinted<T>(items: impl IntoIterator<Item = T>, how: usize) -> Hinted<T> {
    let items: Vec<T> = items.into_iter().collect();
    let left = items.into_iter();
    Hinted { left, how }
}

impl<T> Iterator for Hinted<T> {
    type Item = T;

    fn next(&mut self) -> Option<T> {
        self.left.next()
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.left.len();
        match self.how % HINTS {
            0 => (0, None),
            1 => (0, Some(usize::MAX)),
            2 => (n.min(1), None),
            3 => (0, Some(n + 3)),
            4 => (n / 2, Some(2 * n)),
            _ => (n, Some(n)),
        }
    }
}
