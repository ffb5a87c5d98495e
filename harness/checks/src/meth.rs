//! Independent models of method classes and titles, and generators of methods.
#![allow(dead_code)]

use bellframe::method::class::{Class, FullClass};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use vcore::gen;

pub type P = Vec<usize>;

////////////
// TITLES //
////////////

pub const STAGES: [&str; 22] = [
    "One",
    "Two",
    "Singles",
    "Minimus",
    "Doubles",
    "Minor",
    "Triples",
    "Major",
    "Caters",
    "Royal",
    "Cinques",
    "Maximus",
    "Sextuples",
    "Fourteen",
    "Septuples",
    "Sixteen",
    "Octuples",
    "Eighteen",
    "Nonuples",
    "Twenty",
    "Decuples",
    "Twenty-two",
];

pub const CLASSES: [&str; 9] = [
    "Principle",
    "Place",
    "Bob",
    "Treble Bob",
    "Delight",
    "Surprise",
    "Treble Place",
    "Alliance",
    "Hybrid",
];

pub fn stage_name(n: usize) -> String {
    STAGES
        .get(n - 1)
        .map_or_else(|| format!("{} bells", n), |s| s.to_string())
}

/// A class as data: the index of its name, and its flags
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub struct C {
    pub class: usize,
    pub jump: bool,
    pub little: bool,
    pub diff: bool,
}

pub fn real_class(i: usize) -> Class {
    [
        Class::Principle,
        Class::Place,
        Class::Bob,
        Class::TrebleBob,
        Class::Delight,
        Class::Surprise,
        Class::TreblePlace,
        Class::Alliance,
        Class::Hybrid,
    ][i]
}

impl C {
    pub fn real(self) -> FullClass {
        FullClass::new(self.jump, self.little, self.diff, real_class(self.class))
    }

    pub fn of(f: FullClass) -> C {
        C {
            class: (0..9).find(|&i| real_class(i) == f.class()).unwrap(),
            jump: f.is_jump(),
            little: f.is_little(),
            diff: f.is_differential(),
        }
    }

    pub fn all() -> Vec<C> {
        let mut v = vec![];
        for class in 0..9 {
            for k in 0..8 {
                v.push(C {
                    class,
                    jump: k & 1 > 0,
                    little: k & 2 > 0,
                    diff: k & 4 > 0,
                });
            }
        }
        v
    }

    pub fn display(self) -> String {
        let mut parts = vec![];
        if self.jump {
            parts.push("Jump");
        }
        if self.diff {
            parts.push("Differential");
        }
        if self.little {
            parts.push("Little");
        }
        parts.push(CLASSES[self.class]);
        parts.join(" ")
    }
}

pub fn title(name: &str, c: C, n: usize) -> String {
    let stage = stage_name(n);
    let mut parts = vec![];
    if !name.is_empty() {
        parts.push(name);
    }
    if c.jump {
        parts.push("Jump");
    }
    if c.diff {
        parts.push("Differential");
    }
    let has_word = c.class != 0 && c.class != 8;
    if has_word {
        if c.little {
            parts.push("Little");
        }
        parts.push(CLASSES[c.class]);
    }
    parts.push(&stage);
    parts.join(" ")
}

////////////////////
// CLASSIFICATION //
////////////////////

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum Hunter {
    Plain,
    TrebleDodging,
    TreblePlace,
    Alliance,
    Hybrid,
}

fn hunter(path: &[usize]) -> Hunter {
    let len = path.len();
    let mut visits = std::collections::BTreeMap::<usize, usize>::new();
    for p in path {
        *visits.entry(*p).or_default() += 1;
    }
    let counts: Vec<usize> = visits.values().copied().collect();
    if counts.len() == 1 {
        return Hunter::TreblePlace;
    }
    if counts.iter().all(|&c| c == 2) {
        return Hunter::Plain;
    }
    // Is there an axis about which the (circular) path reflects onto itself?
    let symmetric = (0..len).any(|axis| (0..len).all(|i| path[i] == path[(axis + len - i) % len]));
    if !symmetric {
        return Hunter::Hybrid;
    }
    if counts.iter().any(|&c| c != counts[0]) {
        return Hunter::Alliance;
    }
    let places_made = (0..len).filter(|&i| path[i] == path[(i + 1) % len]).count();
    match places_made {
        0 | 1 => Hunter::Hybrid,
        2 => Hunter::TrebleDodging,
        _ => Hunter::TreblePlace,
    }
}

/// Classify a lead given as its changes (lists of places made)
pub fn classify(n: usize, changes: &[P]) -> C {
    let mut rows = vec![gen::id(n)];
    for ch in changes {
        rows.push(gen::mul(rows.last().unwrap(), &gen::change_perm(n, ch)));
    }
    let len = changes.len();
    let place = |r: usize, b: usize| rows[r].iter().position(|&x| x == b).unwrap();
    let path = |b: usize| (0..len).map(|r| place(r, b)).collect::<P>();

    // Follow each bell from lead to lead
    let mut seen = vec![false; n];
    let mut hunts: Vec<(usize, P)> = vec![];
    let mut working: Vec<(usize, P)> = vec![]; // number of leads, path over all of them
    for b in 0..n {
        if seen[b] {
            continue;
        }
        let mut whole = vec![];
        let mut at = b;
        let mut leads = 0;
        while !seen[at] {
            seen[at] = true;
            whole.extend(path(at));
            at = place(len, at);
            leads += 1;
        }
        if leads == 1 {
            hunts.push((b, whole));
        } else {
            working.push((leads, whole));
        }
    }
    let diff = working.iter().any(|w| w.0 != working[0].0);
    if hunts.is_empty() {
        return C {
            class: 0,
            jump: false,
            little: false,
            diff,
        };
    }
    let best = hunts.iter().map(|h| hunter(&h.1)).min().unwrap();
    let dominant: Vec<&(usize, P)> = hunts.iter().filter(|h| hunter(&h.1) == best).collect();
    let little = dominant.iter().all(|h| (0..n).any(|p| !h.1.contains(&p)));
    let class = match best {
        Hunter::Plain => {
            let others = working
                .iter()
                .map(|w| &w.1)
                .chain(hunts.iter().filter(|h| hunter(&h.1) != best).map(|h| &h.1));
            let mut bob = false;
            for p in others {
                let l = p.len();
                bob |= (0..l).any(|i| p[i] == p[(i + 2) % l] && p[i].abs_diff(p[(i + 1) % l]) == 1);
            }
            if bob {
                2
            } else {
                1
            }
        }
        Hunter::TrebleDodging => {
            // Internal places at the changes where a dominant bell moves between dodging positions
            let mut with = 0;
            let mut without = 0;
            for (i, ch) in changes.iter().enumerate() {
                let section = dominant.iter().any(|(_, p)| {
                    let low = *p.iter().min().unwrap();
                    (p[i] - low) / 2 != (p[(i + 1) % len] - low) / 2
                });
                if section {
                    if ch.iter().any(|&x| x != 0 && x != n - 1) {
                        with += 1;
                    } else {
                        without += 1;
                    }
                }
            }
            match (with, without) {
                (0, _) => 3,
                (_, 0) => 5,
                _ => 4,
            }
        }
        Hunter::TreblePlace => 6,
        Hunter::Alliance => 7,
        Hunter::Hybrid => 8,
    };
    C {
        class,
        jump: false,
        little,
        diff,
    }
}

////////////////
// GENERATORS //
////////////////

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Lead {
    pub n: usize,
    pub changes: Vec<P>,
}

/// A change in which the bell in place `from` moves to place `to`
fn change_moving(n: usize, from: usize, to: usize, coins: &[u8], internal: Option<bool>) -> P {
    let (lo, hi) = (from.min(to), from.max(to));
    let mut places = vec![];
    let mut i = 0;
    let mut swap_likely = 160;
    if internal == Some(false) {
        swap_likely = 255;
    } else if internal == Some(true) {
        swap_likely = 60;
    }
    while i < n {
        if i == lo {
            if lo == hi {
                places.push(i);
                i += 1;
            } else {
                i += 2;
            }
            continue;
        }
        let room = i + 1 < n && i + 1 != lo;
        if room && (coins[i] as u32) <= swap_likely {
            i += 2;
        } else {
            places.push(i);
            i += 1;
        }
    }
    places
}

/// Half of the path of a hunt bell, from which the whole is made by reflection
fn half_path(n: usize, kind: u8, a: usize, b: usize, coins: &[u8], most: usize) -> P {
    let (lo, hi) = (a.min(b), a.max(b));
    match kind % 6 {
        // Plain hunting
        0 => (lo..=hi).collect(),
        // Treble dodging, with a number of dodges
        1 | 2 => {
            let dodges = 1 + coins[0] as usize % most;
            let hi = if (hi - lo) % 2 == 0 {
                if hi + 1 < n {
                    hi + 1
                } else {
                    hi.max(1) - 1
                }
            } else {
                hi
            };
            let mut p = vec![];
            let mut x = lo;
            while x + 1 <= hi {
                for _ in 0..=dodges {
                    p.push(x);
                    p.push(x + 1);
                }
                x += 2;
            }
            if p.is_empty() {
                p.push(lo);
            }
            p
        }
        // The same number of blows in each place
        3 => {
            let blows = 1 + coins[0] as usize % most;
            (lo..=hi).flat_map(|x| vec![x; blows]).collect()
        }
        // A random walk
        _ => {
            let mut p = vec![lo];
            for c in coins.iter().take(3 + coins[0] as usize % 8) {
                let x = *p.last().unwrap();
                p.push(match c % 3 {
                    0 => x,
                    1 if x + 1 < n => x + 1,
                    _ if x > 0 => x - 1,
                    _ => x,
                });
            }
            p
        }
    }
}

/// A lead in which one bell follows a chosen path; with both halves the same (or not), started
/// from anywhere
fn shaped(max_stage: usize) -> BoxedStrategy<Lead> {
    shaped_to((2usize..=max_stage).boxed(), 3, |n| {
        if n <= 12 {
            100
        } else {
            200
        }
    })
}

/// As `shaped`, on given stages with at most so many dodges or blows in each place
fn shaped_to(
    stages: BoxedStrategy<usize>,
    most: usize,
    cap: fn(usize) -> usize,
) -> BoxedStrategy<Lead> {
    stages
        .prop_flat_map(|n| {
            (
                Just(n),
                any::<u8>(),
                (
                    0..n,
                    prop_oneof![3 => Just(0usize), 1 => 0..n],
                    prop_oneof![3 => Just(n - 1), 1 => 0..n],
                ),
                vec(any::<u8>(), 16),
                vec(vec(any::<u8>(), n), 64),
                (
                    any::<bool>(),
                    any::<bool>(),
                    0u8..4,
                    prop_oneof![3 => Just(0usize), 2 => 0usize..64],
                ),
            )
        })
        .prop_map(
            move |(n, kind, (_, a, b), pcoins, coins, (sym, reflect, internal, rot))| {
                let half = half_path(n, kind, a, b, &pcoins, most);
                let mut whole = half.clone();
                if reflect || kind % 6 < 4 {
                    whole.extend(half.iter().rev());
                } else {
                    // Walk back to the start without reflecting
                    let mut x = *half.last().unwrap();
                    while x.abs_diff(half[0]) > 0 {
                        x = if x > half[0] { x - 1 } else { x + 1 };
                        whole.push(x);
                    }
                }
                whole.truncate(cap(n));
                let len = whole.len();
                // Close up a truncated path
                while whole[whole.len() - 1].abs_diff(whole[0]) > 1 {
                    let x = whole[whole.len() - 1];
                    whole.push(if x > whole[0] { x - 1 } else { x + 1 });
                }
                let l = whole.len();
                let mut changes: Vec<P> = (0..l)
                    .map(|i| {
                        let flag = match internal {
                            1 => Some(false),
                            2 => Some(true),
                            3 => Some(pcoins[(i * 5 + 3) % 16] & 1 == 1),
                            _ => None,
                        };
                        change_moving(n, whole[i], whole[(i + 1) % l], &coins[i % 64], flag)
                    })
                    .collect();
                if sym && l == len && l % 2 == 0 && l == 2 * half.len() {
                    for i in 0..half.len() - 1 {
                        changes[l - 2 - i] = changes[i].clone();
                    }
                }
                let k = rot % l;
                changes.rotate_left(k);
                Lead { n, changes }
            },
        )
        .boxed()
}

/// Leads of hundreds of changes: of many dodges or blows, or on many bells
pub fn long_lead() -> BoxedStrategy<Lead> {
    let reps = (1usize..=8).prop_flat_map(|n| {
        (
            Just(n),
            vec(gen::change(n), 1..12),
            20usize..90,
            any::<bool>(),
        )
    });
    prop_oneof![
        3 => shaped_to((2usize..=9).boxed(), 60, |_| 700),
        1 => shaped_to((2usize..=4).boxed(), 140, |_| 1300),
        2 => shaped_to(prop_oneof![20usize..=40, 60usize..=70, 124usize..=136, 250usize..=262].boxed(), 2, |_| 1100),
        1 => reps.prop_map(|(n, mut changes, reps, sym)| {
            if sym {
                let back: Vec<P> = changes.iter().rev().skip(1).cloned().collect();
                changes.extend(back);
            }
            let len = (changes.len() * reps).min(700);
            Lead { n, changes: changes.into_iter().cycle().take(len).collect() }
        }),
    ]
    .boxed()
}

/// A lead made by repeating a short block so that several bells come home, or of random changes
fn random_lead(max_stage: usize) -> BoxedStrategy<Lead> {
    (1usize..=max_stage)
        .prop_flat_map(|n| {
            (
                Just(n),
                vec(gen::change(n), 1..12),
                1usize..6,
                any::<bool>(),
                any::<bool>(),
            )
        })
        .prop_map(|(n, mut changes, reps, sym, add)| {
            if sym {
                let mut back: Vec<P> = changes.iter().rev().skip(1).cloned().collect();
                if add {
                    back.push(changes[0].clone());
                }
                changes.extend(back);
            }
            let one = changes.clone();
            for _ in 1..reps {
                changes.extend(one.iter().cloned());
            }
            changes.truncate(100);
            Lead { n, changes }
        })
        .boxed()
}

pub fn lead(max_stage: usize) -> BoxedStrategy<Lead> {
    prop_oneof![5 => shaped(max_stage), 2 => random_lead(max_stage)].boxed()
}
