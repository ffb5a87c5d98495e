//! C28: no text makes any parser panic, hang or give a self-inconsistent value.
//!
//! One text (structured, damaged, arbitrary or very long) and one stage go through every parser of
//! the crate; whatever comes back is displayed, queried by every safe method and parsed again.

#[path = "../bf.rs"]
mod bf;
#[path = "../meth.rs"]
mod meth;
#[path = "../mlib.rs"]
mod mlib;
#[path = "../pat.rs"]
mod pat;
#[path = "../pn.rs"]
mod pn;

use bellframe::{
    method::Method, music::Regex, place_not::PnBlock, Bell, Block, Mask, MethodLib, PlaceNot, Row,
    RowBuf, SameStageVec, Stage,
};
use proptest::{collection::vec, prelude::*, sample::Index};
use serde::{Deserialize, Serialize};
use std::{fmt::Debug, str::FromStr};
use vcore::{ensure, ensure_eq, gen, Facet, Obs, Property};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    text: String,
    /// The text is this many copies of `text` (so that long texts are written shortly)
    copies: usize,
    n: usize,
}

/// Displayed and debugged forms exist
fn shown<T: std::fmt::Display + Debug>(t: &T, what: &str) -> Result<(), String> {
    ensure!(
        !format!("{:?}", t).is_empty(),
        "{} has an empty debug form",
        what
    );
    let _ = t.to_string();
    Ok(())
}

fn error_shown<T: std::fmt::Display + Debug>(t: &T, what: &str) -> Result<(), String> {
    ensure!(
        !t.to_string().is_empty(),
        "the error from {} displays as nothing ({:?})",
        what,
        t
    );
    Ok(())
}

/// Parse twice: both results must be the same
fn twice<T: Debug>(what: &str, f: impl Fn() -> T) -> Result<T, String> {
    let (a, b) = (f(), f());
    let (x, y) = (format!("{:?}", a), format!("{:?}", b));
    ensure!(x == y, "{} gives {} and then {}", what, x, y);
    Ok(a)
}

fn query_row(r: &Row) -> Result<(), String> {
    let p = bf::valid(r)?;
    shown(&r, "a row")?;
    let n = p.len();
    ensure_eq!(r.stage().num_bells(), n, "stage");
    for i in [0, n / 2, n - 1, n, n + 1] {
        let place = r.place_of(Bell::from_index(i));
        ensure_eq!(
            place,
            p.iter().position(|&b| b == i),
            "place of bell {} in {}",
            i,
            r
        );
    }
    let _ = (
        r.is_rounds(),
        r.is_backrounds(),
        r.effective_stage(),
        r.fixed_bells().count(),
        r.fast_hash(),
    );
    bf::is_row(&(r * &!r), &gen::id(n), "a row times its inverse")?;
    Ok(())
}

fn check_rows(s: &str, n: usize, obs: &mut Obs) -> Result<(), String> {
    let stage = Stage::new(n);
    match twice("RowBuf::parse", || RowBuf::parse(s))? {
        Ok(r) => {
            obs.label("row");
            query_row(&r)?;
            ensure_eq!(RowBuf::from_str(s), Ok(r.clone()), "from_str of {:?}", s);
            ensure_eq!(
                RowBuf::parse(&r.to_string()),
                Ok(r),
                "parsing the row shown for {:?}",
                s
            );
        }
        Err(e) => {
            error_shown(&e, "RowBuf::parse")?;
            ensure_eq!(RowBuf::from_str(s), Err(e), "from_str of {:?}", s);
        }
    }
    match twice("RowBuf::parse_with_stage", || {
        RowBuf::parse_with_stage(s, stage)
    })? {
        Ok(r) => {
            query_row(&r)?;
            ensure_eq!(r.stage(), stage, "stage of {:?} parsed on {} bells", s, n);
        }
        Err(e) => error_shown(&e, "RowBuf::parse_with_stage")?,
    }
    match twice("SameStageVec::parse", || SameStageVec::parse(s))? {
        Ok(v) => {
            obs.label("rows");
            for r in &v {
                query_row(r)?;
                ensure_eq!(r.stage(), v.stage(), "stage of a row of {:?}", s);
            }
            ensure_eq!(v.iter().count(), v.len(), "number of rows of {:?}", s);
            ensure_eq!(
                v.iter().rev().count(),
                v.len(),
                "number of rows of {:?} backwards",
                s
            );
            let _ = (
                v.first(),
                v.last(),
                v.path_of(Bell::TREBLE),
                v.get(v.len()),
                v.is_empty(),
            );
            let _ = format!("{:?}", v);
            let again: String = v
                .iter()
                .map(|r| r.to_string())
                .collect::<Vec<_>>()
                .join("\n");
            ensure!(
                SameStageVec::parse(&again).ok().as_ref() == Some(&v),
                "the rows of {:?} don't parse again",
                s
            );
        }
        Err(e) => error_shown(&e, "SameStageVec::parse")?,
    }
    match twice("Block::parse", || Block::parse(s))? {
        Ok(b) => {
            ensure_eq!(b.row_vec().len(), b.len() + 1, "rows of the block {:?}", s);
            query_row(b.first_row())?;
            query_row(b.leftover_row())?;
            ensure_eq!(b.annot_rows().count(), b.len(), "annotated rows of {:?}", s);
            let _ = (
                b.effective_stage(),
                b.path_of(Bell::TREBLE),
                b.get_annot_row(b.len()),
                b.is_empty(),
            );
            let _ = format!("{:?}", b);
        }
        Err(e) => error_shown(&e, "Block::parse")?,
    }
    Ok(())
}

fn query_pn(p: &PlaceNot, n: usize) -> Result<(), String> {
    ensure_eq!(p.stage().num_bells(), n, "stage of a place notation");
    let places = pn::places(p);
    let unfixed: Vec<usize> = (0..n).filter(|i| !places.contains(i)).collect();
    let pairs = unfixed.chunks(2).all(|c| c.len() == 2 && c[0] + 1 == c[1]);
    ensure!(
        pairs,
        "the places {:?} on {} bells leave something other than neighbours to swap",
        places,
        n
    );
    bf::is_row(
        &p.transposition(),
        &gen::change_perm(n, &places),
        "transposition",
    )?;
    let _ = p.has_internal_places();
    ensure_eq!(p.is_cross(), places.is_empty(), "is_cross");
    shown(p, "a place notation")
}

fn check_pns(s: &str, n: usize, obs: &mut Obs) -> Result<(), String> {
    let stage = Stage::new(n);
    match twice("PlaceNot::parse", || PlaceNot::parse(s, stage))? {
        Ok(p) => {
            obs.label("place notation");
            query_pn(&p, n)?;
            let again = PlaceNot::parse(&p.to_string(), stage);
            ensure!(
                n > gen::NAMES.len() || again.as_ref() == Ok(&p),
                "{:?} shows as {}, which parses as {:?}",
                s,
                p,
                again
            );
        }
        Err(e) => error_shown(&e, "PlaceNot::parse")?,
    }
    match twice("PnBlock::parse", || PnBlock::parse(s, stage))? {
        Ok(b) => {
            obs.label("place notation block");
            ensure!(
                b.len() >= 1 && b.place_nots().count() == b.len(),
                "{:?} is a block of {} changes",
                s,
                b.len()
            );
            ensure_eq!(b.stage(), stage, "stage of the block {:?}", s);
            for p in b.place_nots().take(50) {
                query_pn(p, n)?;
            }
            let _ = format!("{:?}", b);
            let rows = b.to_block_from_rounds::<()>();
            ensure_eq!(rows.len(), b.len(), "rows of {:?}", s);
            query_row(rows.leftover_row())?;
        }
        Err(e) => error_shown(&e, "PnBlock::parse")?,
    }
    // Classification follows every bell through every lead
    if s.len() > 3_000 && n > 40 {
        return Ok(());
    }
    match twice("Method::from_place_not_string", || {
        Method::from_place_not_string(s.to_owned(), stage, s)
    })? {
        Ok(mut m) => {
            obs.label("method");
            ensure_eq!(m.name(), s, "name");
            ensure!(
                m.title().contains(s),
                "title {:?} of the method named {:?}",
                m.title(),
                s
            );
            ensure_eq!(m.stage(), stage, "stage of the method {:?}", s);
            ensure_eq!(m.lead_len(), m.lead().len(), "lead length of {:?}", s);
            ensure!(m.lead_len() >= 1, "the method {:?} has an empty lead", s);
            query_row(m.lead_head())?;
            let order = gen::order(&bf::idx(m.lead_head()));
            if order * m.lead_len() as u128 <= 400 {
                let course = m.plain_course();
                ensure_eq!(
                    course.len() as u128,
                    order * m.lead_len() as u128,
                    "course length of {:?}",
                    s
                );
                ensure!(
                    course.leftover_row().is_rounds(),
                    "the plain course of {:?} doesn't end in rounds",
                    s
                );
            }
            query_row(&m.row_in_plain_course(m.lead_len() + 1))?;
            m.set_lead_end_label();
            let _ = (m.get_label(0).map(str::len), m.label_indices(s).count());
            let _ = format!("{:?}", m);
        }
        Err(e) => error_shown(&e, "Method::from_place_not_string")?,
    }
    Ok(())
}

fn check_patterns(s: &str, n: usize, obs: &mut Obs) -> Result<(), String> {
    let rows = [
        RowBuf::rounds(Stage::new(n)),
        RowBuf::backrounds(Stage::new(n)),
    ];
    let re = twice("Regex::parse", || Regex::parse(s))?;
    shown(&re, "a pattern")?;
    obs.label_if(re.elems().len() > 2, "pattern");
    ensure!(
        Regex::parse(&re.to_string()) == re,
        "{:?} is the pattern {}, which parses as another",
        s,
        re
    );
    let mut same = re.clone();
    same.normalise();
    ensure!(same == re, "the pattern {:?} isn't normalised", s);
    for r in &rows {
        ensure_eq!(
            re.match_pattern(r).is_some(),
            re.matches(r),
            "whether {} matches {}",
            re,
            r
        );
    }
    for k in [1, n, 8, 200] {
        let _ = re.num_matching_rows(Stage::new(k));
    }

    let m = twice("Mask::parse", || Mask::parse(s))?;
    shown(&m, "a mask")?;
    ensure!(
        Mask::parse(&m.to_string()) == m,
        "{:?} is the mask {}, which parses as another",
        s,
        m
    );
    let len = m.to_string().chars().count();
    ensure_eq!(
        m.unspecified_places().all(|i| i < len),
        true,
        "unspecified places of {:?}",
        s
    );
    ensure_eq!(
        m.is_empty(),
        m.unspecified_places().count() == len,
        "is_empty of {:?}",
        s
    );
    ensure_eq!(
        Regex::from(m.clone()).elems().len(),
        len,
        "elements of the pattern of the mask {:?}",
        s
    );
    for r in &rows {
        let _ = (m.matches(r), m.place_of(r.slice()[0]));
    }
    if let Some(r) = m.as_row() {
        query_row(&r)?;
        ensure!(
            m.matches(&r),
            "the row {} of the mask {:?} doesn't match it",
            r,
            s
        );
        obs.label("mask of one row");
    }
    let empty = Mask::empty(Stage::new(n));
    let _ = (
        m.is_subset_of(&empty),
        empty.is_subset_of(&m),
        m.is_compatible_with(&empty),
        m.combine(&empty),
    );
    ensure!(
        m.is_subset_of(&m),
        "the mask {:?} isn't a subset of itself",
        s
    );
    // Known finding: a mask of no places has no stage
    if len > 0 {
        let stage = m.stage();
        ensure_eq!(stage.num_bells(), len, "stage of the mask {:?}", s);
        let back = RowBuf::backrounds(stage);
        let turned = &m * back.as_row();
        let reversed: String = m.to_string().chars().rev().collect();
        ensure_eq!(
            turned.to_string(),
            reversed,
            "the mask {:?} times backrounds",
            s
        );
        // Known finding: a mask can name bells which its stage doesn't have
        let inside = m
            .to_string()
            .chars()
            .all(|c| gen::name_to_index(c).map_or(true, |b| b < len));
        if inside {
            let mirrored = back.as_row() * &m;
            ensure!(
                &(back.as_row() * &mirrored) == &m,
                "the mask {:?} doesn't mirror back",
                s
            );
        }
        let mut fixed = m.clone();
        let _ = fixed.fix(Bell::TREBLE);
        let _ = fixed.to_string();
    }
    Ok(())
}

fn check_names(s: &str, obs: &mut Obs) -> Result<(), String> {
    let lower = s.to_lowercase();
    if let Some(stage) = twice("Stage::from_lower_case_name", || {
        Stage::from_lower_case_name(&lower)
    })? {
        obs.label("stage name");
        ensure_eq!(
            stage.to_string().to_lowercase(),
            lower,
            "name of the stage called {:?}",
            s
        );
    }
    for c in s.chars().take(50) {
        if let Some(b) = Bell::from_name(c) {
            ensure_eq!(b.to_char(), Some(c), "name of the bell called {:?}", c);
        }
    }
    Ok(())
}

fn check_lib(s: &str, obs: &mut Obs) -> Result<(), String> {
    let read = || MethodLib::from_json(s).map_err(|e| e.to_string());
    match read() {
        Ok(lib) => {
            obs.label("library");
            let json = lib
                .to_json()
                .map_err(|e| format!("{:?} doesn't write again: {}", s, e))?;
            ensure!(
                MethodLib::from_json(&json).is_ok(),
                "{:?} was written as {:?}, which isn't valid",
                s,
                json
            );
            for q in ["", "cambridge surprise major", s] {
                let short: String = q.chars().take(100).collect();
                let _ = format!("{:?}", lib.get_by_title(&short).is_ok());
                let _ = format!("{:?}", lib.get_by_title_with_suggestions(&short, 2).is_ok());
            }
            ensure!(read().is_ok(), "{:?} was read once, but not again", s);
        }
        Err(e) => {
            ensure!(!e.is_empty(), "an empty error");
            ensure_eq!(read().err(), Some(e), "error from reading {:?} again", s);
        }
    }
    Ok(())
}

fn check(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let s = c.text.repeat(c.copies);
    check_rows(&s, c.n, obs)?;
    check_pns(&s, c.n, obs)?;
    check_patterns(&s, c.n, obs)?;
    check_names(&s, obs)?;
    check_lib(&s, obs)?;
    obs.label_if(s.len() > 1_000, "over 1000 bytes");
    obs.label_if(!s.is_ascii(), "not ASCII");
    obs.nontrivial_if(
        s.chars()
            .filter(|&ch| gen::name_to_index(ch).is_some())
            .count()
            >= 2
            || s.len() >= 20,
    );
    Ok(())
}

////////////////
// GENERATORS //
////////////////

#[derive(Debug, Clone)]
enum Edit {
    Delete(Index),
    Insert(Index, String),
    Duplicate(Index, Index),
    Swap(Index, Index),
    Truncate(Index),
    Cut(Index, Index),
}

fn edit() -> BoxedStrategy<Edit> {
    let i = any::<Index>;
    prop_oneof![
        3 => i().prop_map(Edit::Delete),
        4 => (i(), gen::charlike()).prop_map(|(i, c)| Edit::Insert(i, c)),
        2 => (i(), i()).prop_map(|(a, b)| Edit::Duplicate(a, b)),
        2 => (i(), i()).prop_map(|(a, b)| Edit::Swap(a, b)),
        1 => i().prop_map(Edit::Truncate),
        1 => (i(), i()).prop_map(|(a, b)| Edit::Cut(a, b)),
    ]
    .boxed()
}

fn apply(s: &str, edits: &[Edit]) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for e in edits {
        let n = v.len();
        match e {
            Edit::Insert(i, c) => {
                let at = i.index(n + 1);
                v.splice(at..at, c.chars());
            }
            _ if n == 0 => {}
            Edit::Delete(i) => {
                v.remove(i.index(n));
            }
            Edit::Duplicate(a, b) => {
                let (lo, hi) = (a.index(n).min(b.index(n)), a.index(n).max(b.index(n)));
                let part: Vec<char> = v[lo..=hi].to_vec();
                v.splice(lo..lo, part);
            }
            Edit::Swap(a, b) => v.swap(a.index(n), b.index(n)),
            Edit::Truncate(i) => v.truncate(i.index(n)),
            Edit::Cut(a, b) => {
                let (lo, hi) = (a.index(n).min(b.index(n)), a.index(n).max(b.index(n)));
                v.drain(lo..hi);
            }
        }
    }
    v.into_iter().collect()
}

fn seed_text(n: usize) -> BoxedStrategy<String> {
    let rows = vec(gen::perm(n), 1..5).prop_map(|rs| {
        rs.iter()
            .map(|r| gen::names(r))
            .collect::<Vec<_>>()
            .join("\n")
    });
    let row = gen::perm(n).prop_map(|r| gen::names(&r));
    let pattern = gen::perm(n)
        .prop_flat_map(pat::from_row)
        .prop_map(|p| pat::text(&p));
    let mask = (gen::perm(n), any::<u64>()).prop_map(|(p, bits)| {
        p.iter()
            .enumerate()
            .map(|(i, &b)| {
                if bits >> (i % 64) & 1 == 1 {
                    gen::name(b)
                } else {
                    "x".to_owned()
                }
            })
            .collect()
    });
    let name = (1usize..=30, any::<bool>()).prop_map(|(k, up)| {
        let s = meth::stage_name(k);
        if up {
            s.to_uppercase()
        } else {
            s.to_lowercase()
        }
    });
    prop_oneof![
        2 => row,
        2 => rows,
        4 => pn::block_text(n),
        2 => pattern,
        2 => mask,
        1 => name,
        2 => mlib::lib(3).prop_map(|l| l.text()),
    ]
    .boxed()
}

fn strategy() -> BoxedStrategy<Case> {
    prop_oneof![12 => gen::stage(), 1 => gen::wide_stage()]
        .prop_flat_map(|n| {
            let edits = prop_oneof![1 => vec(edit(), 0..1), 3 => vec(edit(), 1..4), 1 => vec(edit(), 4..12)];
            let text = prop_oneof![
                8 => (seed_text(n), edits).prop_map(|(s, e)| apply(&s, &e)),
                3 => gen::text(24),
                1 => any::<String>(),
                1 => "\\PC{0,30}",
            ];
            (text, Just(n))
        })
        .prop_map(|(text, n)| Case { text, copies: 1, n })
        .boxed()
}

/// Long texts: something short repeated many times
fn long() -> BoxedStrategy<Case> {
    gen::stage()
        .prop_flat_map(|n| {
            let unit = prop_oneof![
                3 => gen::text(6),
                2 => seed_text(n),
                2 => proptest::sample::select(vec![
                    "[", "{\"minor\":", "1", "x", "-", ".", ",", "+", "*", "x*", "*1", "1*", "12\n", "\n", "\r", "&", " ", "é",
                    "1,", ",+", "12.", "-1", "[[", "{\"", "1e", "9", "0",
                ]).prop_map(str::to_owned),
            ];
            (unit, 2usize..3_000, Just(n))
        })
        .prop_map(|(text, copies, n)| Case { copies: copies.min(60_000 / text.len().max(1)), text, n })
        .boxed()
}

/// Texts of a megabyte or more: whatever grows with the text (a recursion's depth, say) has room to
/// fail.  Only parsing, displaying and the simplest queries are affordable.
fn huge() -> BoxedStrategy<Case> {
    gen::stage()
        .prop_flat_map(|n| {
            let unit = prop_oneof![
                1 => gen::text(6),
                1 => pn::block_text(n),
                4 => proptest::sample::select(vec![
                    "x", "x*", "*1", "*", "1", "x1*", "é", "[", "{\"minor\":", "-", "-1", "-.", "x.", "12.", "1.", ".", ",", "+x,",
                    "&x,", "&", "+", "12\n", "\n", "21\r\n", " ", "1 ", "9", "[[",
                ]).prop_map(str::to_owned),
            ];
            (unit, 1_000_000usize..1_300_000, Just(n))
        })
        .prop_map(|(text, chars, n)| Case { copies: chars / text.chars().count().max(1), text, n })
        .boxed()
}

fn check_huge(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let s = c.text.repeat(c.copies);
    let stage = Stage::new(c.n);
    let chars = s.chars().count();
    let show = format!("{} copies of {:?}", c.copies, c.text);
    let told = |what: &str, e: String| {
        ensure!(!e.is_empty(), "the error from {} displays as nothing", what);
        Ok::<(), String>(())
    };
    match RowBuf::parse(&s) {
        Ok(r) => query_row(&r)?,
        Err(e) => told("RowBuf::parse", e.to_string())?,
    }
    if let Err(e) = RowBuf::parse_with_stage(&s, stage) {
        told("RowBuf::parse_with_stage", e.to_string())?;
    }
    match SameStageVec::parse(&s) {
        Ok(v) => {
            obs.label("rows");
            ensure_eq!(v.iter().count(), v.len(), "number of rows of {}", show);
            query_row(v.last().unwrap())?;
        }
        Err(e) => told("SameStageVec::parse", e.to_string())?,
    }
    match Block::parse(&s) {
        Ok(b) => {
            ensure_eq!(b.row_vec().len(), b.len() + 1, "rows of the block {}", show);
            query_row(b.leftover_row())?;
        }
        Err(e) => told("Block::parse", e.to_string())?,
    }
    if let Err(e) = PlaceNot::parse(&s, stage) {
        told("PlaceNot::parse", e.to_string())?;
    }
    match PnBlock::parse(&s, stage) {
        Ok(b) => {
            obs.label("place notation block");
            ensure_eq!(b.place_nots().count(), b.len(), "changes of {}", show);
            let rows = b.to_block_from_rounds::<()>();
            ensure_eq!(rows.len(), b.len(), "rows of {}", show);
            query_row(rows.leftover_row())?;
        }
        Err(e) => told("PnBlock::parse", e.to_string())?,
    }
    if c.n <= 8 {
        match Method::from_place_not_string(String::new(), stage, &s) {
            Ok(m) => {
                obs.label("method");
                ensure_eq!(m.lead_len(), m.lead().len(), "lead length of {}", show);
                query_row(m.lead_head())?;
            }
            Err(e) => told("Method::from_place_not_string", e.to_string())?,
        }
    }
    let re = Regex::parse(&s);
    ensure!(
        Regex::parse(&re.to_string()) == re,
        "the pattern {} is shown as another",
        show
    );
    let rounds = RowBuf::rounds(stage);
    ensure_eq!(
        re.match_pattern(&rounds).is_some(),
        re.matches(&rounds),
        "whether the pattern {} matches rounds",
        show
    );
    obs.label_if(
        re.elems().len() > 100_000,
        "pattern of over 100,000 elements",
    );
    drop(re);
    let m = Mask::parse(&s);
    ensure!(
        Mask::parse(&m.to_string()) == m,
        "the mask {} is shown as another",
        show
    );
    let _ = (m.matches(&rounds), m.unspecified_places().count());
    drop(m);
    let _ = Stage::from_lower_case_name(&s);
    match MethodLib::from_json(&s) {
        Ok(_) => obs.label("library"),
        Err(e) => told("MethodLib::from_json", e.to_string())?,
    }
    obs.nontrivial_if(chars >= 500_000);
    Ok(())
}

/// Every text of up to three of the characters which mean something
fn short() -> Box<dyn Iterator<Item = Case>> {
    let chars: Vec<char> = "1234560ETWx-.,+*& \né{".chars().collect();
    let mut texts = vec![String::new()];
    let mut last = texts.clone();
    for _ in 0..3 {
        last = last
            .iter()
            .flat_map(|s| chars.iter().map(move |c| format!("{}{}", s, c)))
            .collect();
        texts.extend(last.iter().cloned());
    }
    Box::new(texts.into_iter().flat_map(|text| {
        [1, 2, 5, 6, 12].map(|n| Case {
            text: text.clone(),
            copies: 1,
            n,
        })
    }))
}

////////////////////
// KNOWN FINDINGS //
////////////////////

/// The inputs recorded in KNOWN_FINDINGS.txt.  Each fails here and nowhere else in this check.
const KNOWN: [(&str, &str, fn()); 2] = [
    (
        "Mask::parse(\"\").stage()",
        "a mask parsed from text naming no places panics when asked for its stage",
        || {
            let _ = Mask::parse("").stage();
        },
    ),
    (
        "Row * Mask::parse(\"9\")",
        "a mask parsed from text naming a bell outside its stage panics when permuted",
        || {
            let _ = RowBuf::rounds(Stage::ONE).as_row() * &Mask::parse("9");
        },
    ),
];

fn is_listed(key: &str) -> bool {
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_owned());
    let text = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", dir)).unwrap_or_default();
    text.lines()
        .any(|l| l.starts_with("finding: property=C28 ") && l.contains(key))
}

fn check_known(i: &usize, obs: &mut Obs) -> Result<(), String> {
    let (key, what, f) = KNOWN[*i];
    obs.label_if(is_listed(key), "listed");
    match vcore::panics(f) {
        Err(e) if !is_listed(key) => Err(format!("{}: {}", what, e)),
        _ => Ok(()),
    }
}

fn main() {
    if std::env::args().len() == 1 {
        let hook = std::panic::take_hook();
        std::panic::set_hook(Box::new(|_| {}));
        for (key, what, f) in KNOWN {
            if is_listed(key) && std::panic::catch_unwind(f).is_err() {
                println!("KNOWN-FINDING: property=C28 {}: {}", key, what);
            }
        }
        std::panic::set_hook(hook);
    }
    vcore::main(Property {
        id: "C28",
        facets: vec![
            Facet::enumerated("known", "never", |_| Box::new(0..KNOWN.len()), check_known),
            Facet::enumerated(
                "short texts",
                "at least two bell names or 20 bytes",
                |_| short(),
                check,
            ),
            Facet::random(
                "texts",
                60_000,
                2_000_000,
                "at least two bell names or 20 bytes",
                |_| strategy(),
                check,
            ),
            Facet::random(
                "long texts",
                600,
                20_000,
                "at least two bell names or 20 bytes",
                |_| long(),
                check,
            ),
            Facet::random(
                "huge texts",
                60,
                2_000,
                "at least 500,000 characters",
                |_| huge(),
                check_huge,
            ),
        ],
        assumptions: vec!["A hang is a text (of up to a few MB) which needs more than 90 seconds."],
    })
}
