//! C26: names, numbers and indices of bells and stages correspond one to one.

#[path = "../bf.rs"]
mod bf;

use std::convert::TryFrom;

use bellframe::{Bell, Stage};
use proptest::prelude::*;
use vcore::{ensure, ensure_eq, gen, Facet, Obs, Property};

const STAGES: [&str; 22] = [
    "One",
    "Two",
    "Singles",
    "Minimus",
    "Doubles",
    "Minor",
    "Triples",
    "Major",
    "Caters",
    "Royal",
    "Cinques",
    "Maximus",
    "Sextuples",
    "Fourteen",
    "Septuples",
    "Sixteen",
    "Octuples",
    "Eighteen",
    "Nonuples",
    "Twenty",
    "Decuples",
    "Twenty-two",
];

fn check_char(c: &char, obs: &mut Obs) -> Result<(), String> {
    let want = gen::NAMES.chars().position(|x| x == *c);
    let got = Bell::from_name(*c);
    ensure_eq!(got.map(Bell::index), want, "the bell named {:?}", c);
    if let Some(b) = got {
        ensure_eq!(
            b.to_char(),
            Some(*c),
            "the character of the bell named {:?}",
            c
        );
        ensure_eq!(
            b.name(),
            c.to_string(),
            "the name of the bell named {:?}",
            c
        );
        obs.label("names a bell");
    }
    obs.nontrivial();
    Ok(())
}

/// Every character, a block of 256 at a time
fn check_chars(block: &u32, obs: &mut Obs) -> Result<(), String> {
    for c in (block * 256..block * 256 + 256).filter_map(char::from_u32) {
        check_char(&c, obs)?;
    }
    Ok(())
}

fn check_bell(v: &(usize, usize, usize), obs: &mut Obs) -> Result<(), String> {
    let (i, k, other) = *v;
    let b = Bell::from_index(i);
    ensure_eq!(b.index(), i, "index");
    ensure_eq!(b.number(), i + 1, "number of the bell with index {}", i);
    ensure_eq!(
        Bell::from_number(i + 1),
        Some(b),
        "the bell numbered {}",
        i + 1
    );
    ensure_eq!(
        Bell::from_number(i),
        i.checked_sub(1).map(Bell::from_index),
        "the bell numbered {}",
        i
    );
    ensure_eq!(
        b.to_char(),
        gen::NAMES.chars().nth(i.min(99)),
        "character of the bell with index {}",
        i
    );
    ensure_eq!(b.name(), gen::name(i), "name of the bell with index {}", i);
    ensure_eq!(
        b.to_string(),
        gen::name(i),
        "displayed name of the bell with index {}",
        i
    );
    ensure!(
        format!("{:?}", b).contains(&gen::name(i)),
        "debug form of the bell with index {}",
        i
    );
    ensure_eq!(i == 0, b == Bell::TREBLE, "being the treble");
    // Moving
    if let Some(j) = i.checked_add(k) {
        let up = b + k;
        ensure_eq!(up.index(), j, "{} + {}", b, k);
        ensure_eq!(up - k, b, "{} + {} - {}", b, k, k);
        let mut x = b;
        x += k;
        ensure_eq!(x, up, "{} += {}", b, k);
        x -= k;
        ensure_eq!(x, b, "{} -= {}", up, k);
    }
    if k <= i {
        ensure_eq!((b - k).index(), i - k, "{} - {}", b, k);
    }
    let o = Bell::from_index(other);
    ensure_eq!(b.cmp(&o), i.cmp(&other), "order of {} and {}", b, o);
    ensure_eq!(b == o, i == other, "equality of {} and {}", b, o);
    if b == o {
        ensure!(bf::hash(&b) == bf::hash(&o), "hash of {}", b);
    }
    obs.label_if(i >= 33, "no one-character name");
    obs.nontrivial_if(i > 0);
    Ok(())
}

fn check_stage(v: &(usize, usize), obs: &mut Obs) -> Result<(), String> {
    let (n, m) = *v;
    if n == 0 {
        ensure!(
            Stage::try_from(0usize).is_err(),
            "a stage of no bells was made"
        );
        ensure!(
            !Stage::try_from(0usize).unwrap_err().to_string().is_empty(),
            "the error says nothing"
        );
        ensure!(
            vcore::panics(|| Stage::new(0)).is_err(),
            "a stage of no bells was made"
        );
        return Ok(());
    }
    let s = Stage::try_from(n).map_err(|_| format!("no stage of {} bells", n))?;
    ensure_eq!(s, Stage::new(n), "new and try_from");
    ensure_eq!(s.num_bells(), n, "number of bells");
    #[allow(deprecated)]
    let u = s.as_usize();
    ensure_eq!(u, n, "as_usize");
    ensure_eq!(s.is_even(), n % 2 == 0, "evenness of {}", n);
    ensure_eq!(s.tenor(), Bell::from_index(n - 1), "tenor of {}", n);
    ensure_eq!(Bell::tenor(s), Bell::from_index(n - 1), "tenor of {}", n);
    let name = STAGES.get(n - 1).copied();
    ensure_eq!(s.name(), name, "name of the stage of {} bells", n);
    match name {
        Some(x) => {
            ensure_eq!(s.to_string(), x, "displayed stage of {} bells", n);
            ensure_eq!(
                Stage::from_lower_case_name(&x.to_lowercase()),
                Some(s),
                "the stage named {}",
                x.to_lowercase()
            );
            ensure!(
                n == 0 || Stage::from_lower_case_name(x).is_none(),
                "'{}' isn't lower case",
                x
            );
        }
        None => ensure_eq!(
            s.to_string(),
            format!("{} bells", n),
            "displayed stage of {} bells",
            n
        ),
    }
    ensure!(!format!("{:?}", s).is_empty(), "debug form");
    if n <= 5000 {
        let bells: Vec<usize> = s.bells().map(Bell::index).collect();
        ensure_eq!(bells, gen::id(n), "bells of the stage of {} bells", n);
    } else {
        ensure_eq!(
            s.bells().nth(4000),
            Some(Bell::from_index(4000)),
            "a bell of the stage of {} bells",
            n
        );
    }
    if m > 0 {
        let t = Stage::new(m);
        ensure_eq!(s.cmp(&t), n.cmp(&m), "order of stages {} and {}", n, m);
        ensure_eq!(s == t, n == m, "equality of stages {} and {}", n, m);
        ensure_eq!(
            s.to_string() == t.to_string(),
            n == m,
            "displayed stages {} and {}",
            n,
            m
        );
        ensure_eq!(
            format!("{:?}", s) == format!("{:?}", t),
            n == m,
            "debug forms of stages {} and {}",
            n,
            m
        );
    }
    obs.label_if(n > 22, "unnamed");
    obs.nontrivial();
    Ok(())
}

fn check_stage_name(s: &String, obs: &mut Obs) -> Result<(), String> {
    let want = STAGES
        .iter()
        .position(|n| n.to_lowercase() == *s)
        .map(|i| i + 1);
    ensure_eq!(
        Stage::from_lower_case_name(s).map(Stage::num_bells),
        want,
        "the stage named {:?}",
        s
    );
    obs.label_if(want.is_some(), "names a stage");
    obs.nontrivial_if(!s.is_empty());
    Ok(())
}

/// Characters which may be dropped from the ends of a text by mistake
const ODD: [char; 30] = [
    '\0', '\t', '\n', '\x0b', '\x0c', '\r', '\x1a', '\x1c', '\x1f', ' ', '\x7f', '\u{85}',
    '\u{a0}', '\u{ad}', '\u{1680}', '\u{180e}', '\u{2003}', '\u{200b}', '\u{200d}', '\u{200e}',
    '\u{2028}', '\u{2029}', '\u{2060}', '\u{3000}', '\u{feff}', '\u{fffd}', '.', '-', '\'', 's',
];

fn stage_names() -> BoxedStrategy<String> {
    let near = (
        proptest::sample::select(STAGES.to_vec()),
        any::<u8>(),
        any::<proptest::sample::Index>(),
        any::<char>(),
    )
        .prop_map(|(n, k, i, c)| {
            let mut cs: Vec<char> = n.to_lowercase().chars().collect();
            let i = i.index(cs.len());
            // Characters which look like nothing, or are taken for space
            let odd = ODD[i * 7 % ODD.len()];
            match k % 10 {
                0 | 1 => {}
                8 => cs.push(ODD[c as usize % ODD.len()]),
                9 => cs.insert(0, odd),
                2 => cs[i] = c,
                3 => {
                    cs.remove(i);
                }
                4 => cs.insert(i, c),
                5 => cs[i] = cs[i].to_ascii_uppercase(),
                6 => cs.push(' '),
                _ => cs.retain(|c| *c != '-'),
            }
            cs.into_iter().collect()
        });
    prop_oneof![4 => near, 1 => any::<String>(), 1 => "[a-z]{1,9}"].boxed()
}

fn constants() -> Vec<(Stage, usize)> {
    vec![
        (Stage::ONE, 1),
        (Stage::TWO, 2),
        (Stage::SINGLES, 3),
        (Stage::MINIMUS, 4),
        (Stage::DOUBLES, 5),
        (Stage::MINOR, 6),
        (Stage::TRIPLES, 7),
        (Stage::MAJOR, 8),
        (Stage::CATERS, 9),
        (Stage::ROYAL, 10),
        (Stage::CINQUES, 11),
        (Stage::MAXIMUS, 12),
        (Stage::SEXTUPLES, 13),
        (Stage::FOURTEEN, 14),
        (Stage::SEPTUPLES, 15),
        (Stage::SIXTEEN, 16),
    ]
}

fn main() {
    let big = || prop_oneof![6 => 0usize..60, 2 => 0usize..5000, 1 => 0usize..usize::MAX - 1, 1 => Just(usize::MAX - 1)];
    vcore::main(Property {
        id: "C26",
        facets: vec![
            Facet::enumerated(
                "every-character",
                "always",
                |_| Box::new(0..0x1100u32),
                check_chars,
            ),
            Facet::enumerated(
                "small-stages",
                "a stage exists",
                |_| Box::new((0usize..120).flat_map(|n| (0usize..60).map(move |m| (n, m)))),
                check_stage,
            ),
            Facet::enumerated(
                "constants",
                "always",
                |_| Box::new(0..16usize),
                |&i: &usize, obs: &mut Obs| {
                    let (s, n) = constants()[i];
                    ensure_eq!(s.num_bells(), n, "bells of the constant for {}", n);
                    ensure!(s == Stage::new(n), "constant for {}", n);
                    obs.nontrivial();
                    Ok(())
                },
            ),
            Facet::random(
                "bells",
                100_000,
                2_000_000,
                "not the treble",
                move |_| (big(), big(), big()),
                check_bell,
            ),
            Facet::random(
                "stages",
                50_000,
                1_000_000,
                "a stage exists",
                move |_| (big(), big()),
                check_stage,
            ),
            Facet::random(
                "stage-names",
                100_000,
                2_000_000,
                "not empty",
                |_| stage_names(),
                check_stage_name,
            ),
        ],
        assumptions: vec![],
    })
}
