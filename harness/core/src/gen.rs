//! Generators of plain data (no types of the code under test) and the permutation arithmetic the
//! oracles share.  A row is a `Vec<usize>` of 0-indexed bells.

use proptest::{
    collection::vec,
    prelude::*,
    sample::{select, Index},
};

pub type P = Vec<usize>;

/// The published bell names: `1`-`9`, then `0`, `E`, `T`, then the unambiguous letters
pub const NAMES: &str = "1234567890ETABCDFGHJKLMNPQRSUVWYZ";

pub fn name(i: usize) -> String {
    match NAMES.chars().nth(i) {
        Some(c) => c.to_string(),
        None => format!("<{}>", i + 1),
    }
}

pub fn name_to_index(c: char) -> Option<usize> {
    NAMES.chars().position(|x| x == c)
}

pub fn names(p: &[usize]) -> String {
    p.iter().map(|&i| name(i)).collect()
}

pub fn bells_in(s: &str) -> P {
    s.chars().filter_map(name_to_index).collect()
}

pub fn id(n: usize) -> P {
    (0..n).collect()
}

/// `a` permuted by `b`: place `i` of the result is the bell of `a` found at place `b[i]`
pub fn mul(a: &[usize], b: &[usize]) -> P {
    b.iter().map(|&x| a[x]).collect()
}

pub fn inv(a: &[usize]) -> P {
    let mut r = vec![0; a.len()];
    for (i, &x) in a.iter().enumerate() {
        r[x] = i;
    }
    r
}

pub fn is_perm(p: &[usize]) -> bool {
    let mut seen = vec![false; p.len()];
    p.iter()
        .all(|&x| x < seen.len() && !std::mem::replace(&mut seen[x], true))
}

/// `p` to the power `e` by repeated squaring
pub fn pow(p: &[usize], mut e: u64) -> P {
    let mut base = p.to_vec();
    let mut r = id(p.len());
    while e > 0 {
        if e & 1 == 1 {
            r = mul(&r, &base);
        }
        base = mul(&base, &base);
        e >>= 1;
    }
    r
}

/// Is `p` an odd permutation?  (number of inversions, or for long ones of cycles of even length)
pub fn is_odd(p: &[usize]) -> bool {
    if p.len() > 400 {
        return cycle_lengths(p).iter().filter(|l| *l % 2 == 0).count() % 2 == 1;
    }
    let mut n = 0usize;
    for i in 0..p.len() {
        for j in i + 1..p.len() {
            n += (p[i] > p[j]) as usize;
        }
    }
    n % 2 == 1
}

/// The order of `p` (least positive exponent giving the identity), from its cycle lengths
pub fn order(p: &[usize]) -> u128 {
    fn gcd(a: u128, b: u128) -> u128 {
        if b == 0 {
            a
        } else {
            gcd(b, a % b)
        }
    }
    cycle_lengths(p)
        .iter()
        .fold(1u128, |acc, &l| acc / gcd(acc, l as u128) * l as u128)
}

pub fn cycle_lengths(p: &[usize]) -> Vec<usize> {
    let mut seen = vec![false; p.len()];
    let mut out = Vec::new();
    for s in 0..p.len() {
        let (mut x, mut n) = (s, 0);
        while !seen[x] {
            seen[x] = true;
            x = p[x];
            n += 1;
        }
        if n > 0 {
            out.push(n);
        }
    }
    out
}

/// Every permutation of `0..n`, in lexicographic order
pub fn all_perms(n: usize) -> Vec<P> {
    fn go(n: usize, cur: &mut P, used: &mut Vec<bool>, out: &mut Vec<P>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in 0..n {
            if !used[i] {
                used[i] = true;
                cur.push(i);
                go(n, cur, used, out);
                cur.pop();
                used[i] = false;
            }
        }
    }
    let mut out = Vec::new();
    go(n, &mut Vec::new(), &mut vec![false; n], &mut out);
    out
}

//////////////////////
// STAGES           //
//////////////////////

/// Stages people ring, with some single-bell and unnamed ones
pub fn stage() -> BoxedStrategy<usize> {
    prop_oneof![
        8 => 1usize..=8,
        4 => 9usize..=16,
        1 => 17usize..=33,
        1 => prop_oneof![16 => 34usize..=48, 4 => 49usize..=140, 1 => 141usize..=300, 1 => select(vec![127usize, 128, 129, 255, 256, 257])],
    ]
    .boxed()
}

/// As `stage`, but sometimes very large
pub fn wide_stage() -> BoxedStrategy<usize> {
    prop_oneof![30 => stage(), 1 => 49usize..=300].boxed()
}

pub fn small_stage() -> BoxedStrategy<usize> {
    prop_oneof![6 => 1usize..=6, 3 => 7usize..=12].boxed()
}

/// A list of `lo..=hi` elements, and about once in a hundred cases of up to `rare` elements
pub fn list<S>(element: S, lo: usize, hi: usize, rare: usize) -> BoxedStrategy<Vec<S::Value>>
where
    S: Strategy + 'static,
    S::Value: Clone + 'static,
{
    let element = element.boxed();
    prop_oneof![100 => vec(element.clone(), lo..=hi), 1 => vec(element, hi..=rare)].boxed()
}

//////////////////////
// PERMUTATIONS     //
//////////////////////

fn uniform(n: usize) -> BoxedStrategy<P> {
    Just(id(n)).prop_shuffle().boxed()
}

/// A permutation of `0..n`: uniform, or structured (rounds, a few swaps away from rounds, cover
/// bells, a rotation, reversed, queens, one fixed treble)
pub fn perm(n: usize) -> BoxedStrategy<P> {
    if n == 1 {
        return Just(vec![0]).boxed();
    }
    let swaps = vec((any::<Index>(), any::<Index>()), 0..4).prop_map(move |sw| {
        let mut p = id(n);
        for (a, b) in sw {
            p.swap(a.index(n), b.index(n));
        }
        p
    });
    let adjacent = vec(any::<Index>(), 0..6).prop_map(move |sw| {
        let mut p = id(n);
        for a in sw {
            let i = a.index(n - 1);
            p.swap(i, i + 1);
        }
        p
    });
    let covered = (1..=n).prop_flat_map(move |k| {
        uniform(k).prop_map(move |mut p| {
            p.extend(k..n);
            p
        })
    });
    let led = uniform(n - 1).prop_map(|p| {
        let mut r = vec![0];
        r.extend(p.into_iter().map(|x| x + 1));
        r
    });
    let rotated = (0..n).prop_map(move |k| (0..n).map(|i| (i + k) % n).collect::<P>());
    let special = select(vec![
        id(n),
        (0..n).rev().collect::<P>(),
        (0..n).step_by(2).chain((1..n).step_by(2)).collect::<P>(),
    ]);
    prop_oneof![
        6 => uniform(n),
        2 => swaps,
        1 => adjacent,
        2 => covered,
        1 => led,
        1 => rotated,
        1 => special,
    ]
    .boxed()
}

/// A permutation on a generated stage
pub fn any_perm() -> BoxedStrategy<P> {
    stage().prop_flat_map(perm).boxed()
}

pub fn wide_perm() -> BoxedStrategy<P> {
    wide_stage().prop_flat_map(perm).boxed()
}

/// Two permutations, usually (but not always) of one stage
pub fn perm_pair() -> BoxedStrategy<(P, P)> {
    prop_oneof![
        6 => stage().prop_flat_map(|n| (perm(n), perm(n))),
        1 => (any_perm(), any_perm()),
        1 => stage().prop_flat_map(|n| (perm(n), perm(n + 1))),
        1 => stage().prop_flat_map(|n| (perm(n + 1), perm(n))),
    ]
    .boxed()
}

/// A permutation of very many bells, described compactly
#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
pub struct Giant {
    pub n: usize,
    pub kind: u8,
    pub rot: usize,
    pub swaps: Vec<(usize, usize)>,
}

impl Giant {
    pub fn perm(&self) -> P {
        let n = self.n;
        let mut p: P = match self.kind % 8 {
            0 | 1 => id(n),
            2 => (0..n).rev().collect(),
            3 => (0..n).step_by(2).chain((1..n).step_by(2)).collect(),
            4 => (0..n).map(|i| if i ^ 1 < n { i ^ 1 } else { i }).collect(),
            // Shuffled, by a small generator of its own
            _ => {
                let mut p = id(n);
                let mut x = self.rot as u64 ^ 0x9e37_79b9_7f4a_7c15;
                for i in (1..n).rev() {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    p.swap(i, (x % (i as u64 + 1)) as usize);
                }
                p
            }
        };
        if self.kind & 8 != 0 {
            p.rotate_left(self.rot % n);
        }
        for &(a, b) in &self.swaps {
            p.swap(a % n, b % n);
        }
        p
    }
}

/// Stages far beyond what anyone rings, around the sizes at which narrow integers overflow
pub fn giant_stage() -> BoxedStrategy<usize> {
    prop_oneof![
        2 => prop_oneof![255usize..=259, 511usize..=514, 300usize..3000],
        5 => 65_530usize..=65_545,
        2 => 65_546usize..=70_000,
        1 => 131_070usize..=131_080,
    ]
    .boxed()
}

pub fn giant_of(n: usize) -> BoxedStrategy<Giant> {
    let place = move || prop_oneof![2 => 0..n, 2 => n.saturating_sub(6)..n, 1 => 0..6.min(n), 1 => (65_533usize..65_540).prop_map(move |i| i.min(n - 1))];
    (0u8..16, 0..n, vec((place(), place()), 0..5))
        .prop_map(move |(kind, rot, swaps)| Giant {
            n,
            kind,
            rot,
            swaps,
        })
        .boxed()
}

pub fn giant() -> BoxedStrategy<Giant> {
    giant_stage().prop_flat_map(giant_of).boxed()
}

pub fn giant_pair() -> BoxedStrategy<(Giant, Giant)> {
    let twist = |(mut a, b, same): (Giant, Giant, u8)| {
        // Sometimes a near copy, sometimes of another stage
        match same {
            0 | 1 => {
                let mut c = a.clone();
                c.swaps.extend(b.swaps.into_iter().take(1));
                (a, c)
            }
            2 => {
                a.n = (a.n + 1).max(2);
                (a, b)
            }
            3 => {
                a.n += 65_536;
                (a, b)
            }
            _ => (a, b),
        }
    };
    giant_stage()
        .prop_flat_map(|n| (giant_of(n), giant_of(n), 0u8..12))
        .prop_map(twist)
        .boxed()
}

/// A place-notation change on stage `n`, as the sorted list of places made: any set of places
/// whose complement splits into adjacent pairs
pub fn change(n: usize) -> BoxedStrategy<P> {
    // Mostly swaps and places in about equal measure, sometimes nearly all of either
    let shift = prop_oneof![6 => Just(0u8), 1 => Just(90), 1 => Just(155), 1 => Just(120)];
    let sparse = prop_oneof![8 => Just(false), 1 => Just(true)];
    (vec(any::<u8>(), n), shift, sparse)
        .prop_map(move |(mut coins, shift, sparse)| {
            for c in &mut coins {
                *c = if sparse {
                    *c / 2
                } else {
                    c.saturating_add(shift)
                };
            }
            change_from(n, &coins)
        })
        .boxed()
}

pub fn change_from(n: usize, coins: &[u8]) -> P {
    let mut places = Vec::new();
    let mut i = 0;
    while i < n {
        // Small values (which shrinking goes towards) swap, so that shrunk changes are crosses
        if i + 1 < n && coins[i] < 160 {
            i += 2;
        } else {
            places.push(i);
            i += 1;
        }
    }
    places
}

/// The transposition a change performs
pub fn change_perm(n: usize, places: &[usize]) -> P {
    let mut p = id(n);
    let mut i = 0;
    while i < n {
        if places.contains(&i) {
            i += 1;
        } else {
            p.swap(i, i + 1);
            i += 2;
        }
    }
    p
}

//////////////////////
// TEXT             //
//////////////////////

/// Single characters which ought to matter to one parser or another, plus arbitrary ones
pub fn charlike() -> BoxedStrategy<String> {
    prop_oneof![
        8 => select(NAMES.chars().map(|c| c.to_string()).collect::<Vec<_>>()),
        6 => (0usize..12).prop_map(name),
        3 => select(vec!["x", "X", "-", ".", "+", ",", "*", "&", " ", "\n", "\r\n", "\t", "|", "_", "<34>"])
            .prop_map(str::to_owned),
        1 => select(vec!["e", "t", "o", "O", "i", "I", "l", "a", "é", "１", "𝟏", "\u{0}", "\u{2028}", "\u{85}",
                         "\r", "🔔", "\u{feff}", "Ｅ", "Ⅻ", "ß", "İ"])
            .prop_map(str::to_owned),
        1 => any::<char>().prop_map(|c| c.to_string()),
    ]
    .boxed()
}

/// Text assembled from those characters
pub fn text(max: usize) -> BoxedStrategy<String> {
    vec(charlike(), 0..max).prop_map(|v| v.concat()).boxed()
}

/// Characters which no parser of rows or places gives a meaning to
pub fn noise_char() -> BoxedStrategy<String> {
    select(vec![
        " ", "\t", "|", "[", "]", "_", "~", "!", "e", "t", "o", "O", "I", "é", "🔔", "１", "\u{0}",
        "a", "z", "\u{a0}", "?", "&", "\\", "\"",
    ])
    .prop_map(str::to_owned)
    .boxed()
}

/// Interleave noise into `s` at the given positions (0 = before the first char)
pub fn with_noise(s: &str, noise: &[(Index, String)]) -> String {
    let chars: Vec<char> = s.chars().collect();
    let mut slots = vec![String::new(); chars.len() + 1];
    for (i, n) in noise {
        slots[i.index(chars.len() + 1)].push_str(n);
    }
    let mut out = String::new();
    for (i, c) in chars.iter().enumerate() {
        out.push_str(&slots[i]);
        out.push(*c);
    }
    out.push_str(&slots[chars.len()]);
    out
}

pub fn noise(max: usize) -> BoxedStrategy<Vec<(Index, String)>> {
    vec((any::<Index>(), noise_char()), 0..=max).boxed()
}
