//! An independent model of place notation, shared by the checks.
#![allow(dead_code)]

use bellframe::{
    place_not::{ParseError, PnBlockParseError},
    PlaceNot, Stage,
};
use proptest::{collection::vec, prelude::*, sample::select};
use vcore::{ensure, ensure_eq, gen};

pub type P = Vec<usize>;

/// Why written places don't denote a change (all reasons which apply)
#[derive(Debug, Default, Clone, PartialEq, Eq)]
pub struct Faults {
    pub empty: bool,
    pub outside: Vec<usize>,
    pub repeated: Vec<usize>,
    pub ambiguous: Vec<(usize, usize)>,
}

/// The places denoted by a list of written places, or everything that is wrong with them
pub fn denote(written: &[usize], n: usize) -> Result<P, Faults> {
    let mut w = written.to_vec();
    w.sort();
    let mut f = Faults {
        empty: w.is_empty(),
        ..Faults::default()
    };
    f.outside = w.iter().copied().filter(|&p| p >= n).collect();
    f.repeated = w
        .iter()
        .copied()
        .filter(|p| w.iter().filter(|q| *q == p).count() > 1)
        .collect();
    let mut set = w.clone();
    set.dedup();
    let mut made = vec![];
    if set.first().is_some_and(|p| p % 2 == 1) {
        made.push(0);
    }
    for pair in set.windows(2) {
        let gap = pair[1] - pair[0] - 1;
        made.push(pair[0]);
        if gap == 1 {
            made.push(pair[0] + 1);
        } else if gap % 2 == 1 {
            f.ambiguous.push((pair[0], pair[1]));
        }
    }
    made.extend(set.last());
    if let Some(&last) = set.last() {
        if last < n && (n - 1 - last) % 2 == 1 {
            made.push(n - 1);
        }
    }
    if f == Faults::default() {
        Ok(made)
    } else {
        Err(f)
    }
}

/// Is the parser's complaint about these written places true?
pub fn truthful(written: &[usize], n: usize, e: &ParseError) -> Result<(), String> {
    let f = match denote(written, n) {
        Err(f) => f,
        Ok(p) => {
            return Err(format!(
                "places {:?} on {} bells denote {:?}, but '{}' was reported",
                written, n, p, e
            ))
        }
    };
    let ok = match e {
        ParseError::NoPlacesGiven => f.empty,
        ParseError::PlaceOutOfStage { place, stage } => {
            f.outside.contains(place) && stage.num_bells() == n
        }
        ParseError::DuplicatePlace(p) => f.repeated.contains(p),
        ParseError::AmbiguousPlacesBetween { p, q } => f.ambiguous.contains(&(*p, *q)),
        ParseError::OddStageCross(_) => false,
    };
    ensure!(
        ok,
        "places {:?} on {} bells: '{}' ({:?}) was reported, but what's wrong is {:?}",
        written,
        n,
        e,
        e,
        f
    );
    shown(e)
}

fn shown(e: &ParseError) -> Result<(), String> {
    let s = e.to_string();
    let named: Vec<usize> = match e {
        ParseError::NoPlacesGiven | ParseError::OddStageCross(_) => vec![],
        ParseError::PlaceOutOfStage { place, .. } => vec![*place],
        ParseError::DuplicatePlace(p) => vec![*p],
        ParseError::AmbiguousPlacesBetween { p, q } => vec![*p, *q],
    };
    ensure!(
        !s.is_empty() && named.iter().all(|&p| s.contains(&gen::name(p))),
        "{:?} displays as '{}'",
        e,
        s
    );
    Ok(())
}

/// The places made by a place notation, in ascending order
pub fn places(pn: &PlaceNot) -> P {
    (0..pn.stage().num_bells())
        .filter(|&i| pn.contains(i))
        .collect()
}

/// Build a place notation through a checked constructor
pub fn build(places: &[usize], n: usize) -> PlaceNot {
    let stage = Stage::new(n);
    if places.is_empty() {
        PlaceNot::cross(stage).expect("an even stage has a cross")
    } else {
        // The places are sorted, as the function requires
        unsafe { PlaceNot::from_sorted_slice(places, stage) }.expect("these places denote a change")
    }
}

pub fn is_cross_char(c: char) -> bool {
    matches!(c, 'x' | 'X' | '-')
}

/// Is `got` the place notation with exactly these places on this stage, by every way of asking?
pub fn is_pn(got: &PlaceNot, want: &[usize], n: usize, what: &str) -> Result<(), String> {
    ensure_eq!(got.stage().num_bells(), n, "stage of {}", what);
    ensure_eq!(places(got), want, "places of {}", what);
    for p in [n, n + 1, 2 * n, usize::MAX] {
        ensure!(
            !got.contains(p),
            "{} contains place {} on {} bells",
            what,
            p,
            n
        );
    }
    ensure_eq!(got.is_cross(), want.is_empty(), "is_cross of {}", what);
    let shown = if want.is_empty() {
        "-".to_owned()
    } else {
        gen::names(want)
    };
    ensure_eq!(got.to_string(), shown, "display of {}", what);
    Ok(())
}

////////////
// BLOCKS //
////////////

/// One invalid spot of a block's text
#[derive(Debug, Clone)]
pub enum Fault {
    /// '+' at this byte
    Plus(usize),
    /// A cross at this byte of an odd stage
    OddCross(usize),
    /// Bells from the first to the last of this byte range (the last character included), with
    /// only meaningless characters up to the second end
    Chunk {
        start: usize,
        end: usize,
        slack_end: usize,
        written: P,
    },
}

#[derive(Debug, Default)]
pub struct BlockModel {
    pub changes: Vec<P>,
    pub faults: Vec<Fault>,
    pub num_parts: usize,
    pub palindromes: usize,
}

/// Read a block of place notation the slow way: text -> parts -> tokens -> changes
pub fn block_model(s: &str, n: usize) -> BlockModel {
    let mut m = BlockModel::default();
    let alone = !s.contains(',');
    let mut offset = 0;
    for part in s.split(',') {
        m.num_parts += 1;
        let mut changes: Vec<P> = vec![];
        let mut fully_started = false; // has anything meaningful been seen in this part?
        let mut asym = false;
        let mut chunk: Option<(usize, usize, usize, P)> = None;
        let mut chars: Vec<(usize, char)> = part.char_indices().collect();
        chars.push((part.len(), '.'));
        for (i, c) in chars {
            let at = offset + i;
            if let Some(b) = gen::name_to_index(c) {
                fully_started = true;
                let k = chunk.get_or_insert((at, at, at, vec![]));
                k.1 = at + c.len_utf8();
                k.3.push(b);
                continue;
            }
            let ends = is_cross_char(c) || c == '.' || c == ' ' || c == '+';
            if !ends {
                continue; // no meaning
            }
            if let Some((start, end, _, written)) = chunk.take() {
                match denote(&written, n) {
                    Ok(p) => changes.push(p),
                    Err(_) => m.faults.push(Fault::Chunk {
                        start,
                        end,
                        slack_end: at,
                        written,
                    }),
                }
            }
            if is_cross_char(c) {
                fully_started = true;
                if n % 2 == 0 {
                    changes.push(vec![]);
                } else {
                    m.faults.push(Fault::OddCross(at));
                }
            }
            if c == '+' {
                if fully_started {
                    m.faults.push(Fault::Plus(at));
                }
                fully_started = true;
                asym = true;
            }
        }
        m.changes.extend(changes.iter().cloned());
        if !alone && !asym && !changes.is_empty() {
            m.palindromes += 1;
            m.changes.extend(changes.iter().rev().skip(1).cloned());
        }
        offset += part.len() + 1;
    }
    m
}

/// Is the block parser's complaint about this text true, and does it point at the right bytes?
pub fn judge_block_error(
    s: &str,
    n: usize,
    m: &BlockModel,
    e: &PnBlockParseError,
) -> Result<(), String> {
    ensure!(!e.to_string().is_empty(), "{:?} displays as nothing", e);
    let fail = || {
        format!(
            "{:?} on {} bells: {:?} was reported, but what's wrong is {:?}",
            s, n, e, m.faults
        )
    };
    match e {
        PnBlockParseError::EmptyBlock => {
            ensure!(
                m.changes.is_empty() && m.faults.is_empty(),
                "{:?} on {} bells: reported as empty",
                s,
                n
            )
        }
        PnBlockParseError::PlusNotAtBlockStart(i) => {
            ensure!(
                m.faults
                    .iter()
                    .any(|f| matches!(f, Fault::Plus(j) if j == i)),
                "{}",
                fail()
            );
            ensure!(
                e.to_string().contains(&i.to_string()),
                "'{}' doesn't say where",
                e
            );
        }
        PnBlockParseError::PnError(range, err) => {
            ensure!(
                e.to_string().contains(&range.start.to_string()),
                "'{}' doesn't say where",
                e
            );
            ensure!(
                s.get(range.clone()).is_some(),
                "{:?}: {:?} points outside the text",
                s,
                e
            );
            for f in &m.faults {
                match f {
                    Fault::OddCross(i) => {
                        if *range == (*i..i + 1) {
                            ensure!(
                                matches!(err, ParseError::OddStageCross(st) if st.num_bells() == n),
                                "{}",
                                fail()
                            );
                            return shown(err);
                        }
                    }
                    Fault::Chunk {
                        start,
                        end,
                        slack_end,
                        written,
                    } => {
                        if range.start == *start && (*end..=*slack_end).contains(&range.end) {
                            return truthful(written, n, err)
                                .map_err(|m| format!("{:?}: {}", s, m));
                        }
                    }
                    Fault::Plus(_) => {}
                }
            }
            return Err(fail());
        }
    }
    Ok(())
}

////////////////
// GENERATORS //
////////////////

/// The text of some change of `n` bells, sometimes with implied places left out
pub fn change_text(n: usize) -> BoxedStrategy<String> {
    let cross = select(vec!["x", "-", "X"]).prop_map(str::to_owned);
    let written = (gen::change(n), any::<u8>(), any::<u8>()).prop_map(move |(p, drop, rot)| {
        let mut w = p.clone();
        if w.is_empty() {
            return if n % 2 == 0 {
                "x".to_owned()
            } else {
                "1".to_owned()
            };
        }
        if drop & 1 == 1 && w.len() > 1 && w[0] == 0 && w[1] % 2 == 1 {
            w.remove(0);
        }
        if drop & 2 == 2
            && w.len() > 1
            && w[w.len() - 1] == n - 1
            && (n - 1 - w[w.len() - 2]) % 2 == 1
        {
            w.pop();
        }
        if drop & 12 == 12 {
            if let Some(i) = (1..w.len().max(1) - 1).find(|&i| w[i - 1] + 2 == w[i + 1]) {
                w.remove(i);
            }
        }
        if rot >= 200 {
            let k = rot as usize % w.len();
            w.rotate_left(k);
        }
        w.into_iter().filter(|&p| p < 33).map(gen::name).collect()
    });
    if n % 2 == 0 {
        prop_oneof![1 => cross, 2 => written].boxed()
    } else {
        written.boxed()
    }
}

/// The text of a block of `n` bells: mostly valid, with every kind of separator and fault
pub fn block_text(n: usize) -> BoxedStrategy<String> {
    let part = move || {
        (
            gen::list(
                (
                    change_text(n),
                    prop_oneof![20 => Just("."), 3 => Just(" "), 1 => Just(".."), 1 => Just(". "), 1 => Just("\n."), 1 => Just("é."), 1 => Just("a b")],
                ),
                0,
                6,
                150,
            ),
            prop_oneof![10 => Just(""), 2 => Just("+"), 1 => Just("&"), 1 => Just(" "), 1 => Just(" +"), 1 => Just(".é+ ")],
        )
            .prop_map(|(cs, lead)| {
                let mut s = lead.to_owned();
                let last = cs.len().max(1) - 1;
                for (i, (c, sep)) in cs.iter().enumerate() {
                    s.push_str(c);
                    if i < last {
                        s.push_str(sep);
                    }
                }
                s
            })
    };
    let bad = prop_oneof![
        select(vec![
            "+", "x", "-", "99", "15", "1W", "34", "W", "é", "+é", ".+", ",", ",,", "🔔", " ", "11"
        ])
        .prop_map(str::to_owned),
        gen::charlike()
    ];
    (
        vec(part(), 1..4),
        prop_oneof![12 => Just(vec![]).boxed(), 3 => vec((any::<proptest::sample::Index>(), bad), 1..3).boxed()],
        prop_oneof![8 => Just(""), 1 => Just(","), 1 => Just(" "), 1 => Just(".")],
    )
        .prop_map(|(parts, bad, tail)| {
            let s = parts.join(",") + tail;
            gen::with_noise(&s, &bad)
        })
        .boxed()
}

/// A list of changes (as lists of places made) of `n` bells
pub fn changes(n: usize, max: usize) -> BoxedStrategy<Vec<P>> {
    gen::list(
        gen::change(n),
        1,
        max,
        if n > 16 { 40.max(max) } else { 300 },
    )
}
