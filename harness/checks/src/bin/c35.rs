//! C35: errors and debug texts tell exactly the data they carry.
//!
//! Every error is made both directly (with arbitrary data) and by giving damaged text to the
//! parsers; the data it carries must be readable, in the documented roles, in its displayed text.

#[path = "../bf.rs"]
mod bf;
#[path = "../pat.rs"]
mod pat;
#[path = "../pn.rs"]
mod pn;

use bellframe::{
    block,
    place_not::{self, InvalidPnBlockError, PnBlock, PnBlockParseError},
    row::{same_stage_vec, MulIntoError},
    AnnotBlock, Bell, IncompatibleStages, InvalidRowError, Mask, PlaceNot, RowBuf, SameStageVec,
    Stage,
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use vcore::{ensure, ensure_eq, gen, Facet, Obs, Property};

type P = Vec<usize>;

const STAGES: [&str; 22] = [
    "One",
    "Two",
    "Singles",
    "Minimus",
    "Doubles",
    "Minor",
    "Triples",
    "Major",
    "Caters",
    "Royal",
    "Cinques",
    "Maximus",
    "Sextuples",
    "Fourteen",
    "Septuples",
    "Sixteen",
    "Octuples",
    "Eighteen",
    "Nonuples",
    "Twenty",
    "Decuples",
    "Twenty-two",
];

/// Something which a text must say
#[derive(Debug, Clone)]
enum Say {
    Bell(usize),
    Stage(usize),
    Number(usize),
}

impl Say {
    fn text(&self) -> String {
        match self {
            Say::Bell(b) => gen::name(*b),
            Say::Stage(n) => STAGES
                .get(n - 1)
                .map_or(format!("{} bells", n), |s| s.to_string()),
            Say::Number(n) => n.to_string(),
        }
    }

    /// May the character stand beside this (or would it make something else of it)?
    fn apart(&self, c: char) -> bool {
        match self {
            Say::Number(_) => !c.is_ascii_digit(),
            _ => !c.is_alphanumeric() && c != '-' && c != '<' && c != '>',
        }
    }
}

/// Does `text` say all of these, one after another?
fn says(text: &str, all: &[Say]) -> Result<(), String> {
    let mut from = 0;
    for s in all {
        let t = s.text();
        let mut at = from;
        let end = loop {
            let i = text[at..].find(&t).map(|i| i + at);
            match i {
                None => {
                    return Err(format!(
                        "'{}' doesn't say {:?} (as '{}', in the order {:?})",
                        text, s, t, all
                    ));
                }
                Some(i) => {
                    let before = text[..i].chars().next_back().map_or(true, |c| s.apart(c));
                    let after = text[i + t.len()..]
                        .chars()
                        .next()
                        .map_or(true, |c| s.apart(c));
                    if before && after {
                        break i + t.len();
                    }
                    at = i + text[i..].chars().next().map_or(1, char::len_utf8);
                }
            }
        };
        from = end;
    }
    Ok(())
}

fn row_error(e: &InvalidRowError) -> Vec<Say> {
    match e {
        InvalidRowError::NoBells => vec![],
        InvalidRowError::DuplicateBell(b) | InvalidRowError::MissingBell(b) => {
            vec![Say::Bell(b.index())]
        }
        InvalidRowError::BellOutOfStage(b, s) => {
            vec![Say::Bell(b.index()), Say::Stage(s.num_bells())]
        }
    }
}

fn pn_error(e: &place_not::ParseError) -> Vec<Say> {
    use place_not::ParseError::*;
    match e {
        PlaceOutOfStage { place, stage } => vec![Say::Bell(*place), Say::Stage(stage.num_bells())],
        AmbiguousPlacesBetween { p, q } => {
            vec![Say::Number(q - p - 1), Say::Bell(*p), Say::Bell(*q)]
        }
        DuplicatePlace(p) => vec![Say::Bell(*p)],
        OddStageCross(s) => vec![Say::Stage(s.num_bells())],
        NoPlacesGiven => vec![],
    }
}

fn pn_block_error(e: &PnBlockParseError) -> Vec<Say> {
    match e {
        PnBlockParseError::EmptyBlock => vec![],
        PnBlockParseError::PlusNotAtBlockStart(i) => vec![Say::Number(*i)],
        PnBlockParseError::PnError(r, e) => [vec![Say::Number(r.start)], pn_error(e)].concat(),
    }
}

fn ssv_error(e: &same_stage_vec::ParseError) -> Vec<Say> {
    use same_stage_vec::ParseError::*;
    match e {
        ZeroStage => vec![],
        InvalidRow { line_num, err } => [vec![Say::Number(*line_num)], row_error(err)].concat(),
        IncompatibleStages {
            line_num,
            first_stage,
            different_stage,
        } => {
            vec![
                Say::Number(*line_num),
                Say::Stage(different_stage.num_bells()),
                Say::Stage(first_stage.num_bells()),
            ]
        }
    }
}

/// Arbitrary data for the errors
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Data {
    bell: usize,
    other: usize,
    a: usize,
    b: usize,
    number: usize,
    len: usize,
}

/// Every error with this data, and what it must say.  `kind` distinguishes those with the same data.
fn errors(d: &Data) -> Vec<(&'static str, Vec<Say>, String)> {
    let bell = Bell::from_index;
    let (a, b) = (bf::stage(d.a), bf::stage(d.b));
    let mut out: Vec<(&'static str, Vec<Say>, String)> = vec![];
    let rows = [
        ("no bells", InvalidRowError::NoBells),
        (
            "duplicate bell",
            InvalidRowError::DuplicateBell(bell(d.bell)),
        ),
        (
            "bell out of stage",
            InvalidRowError::BellOutOfStage(bell(d.bell), a),
        ),
        ("missing bell", InvalidRowError::MissingBell(bell(d.bell))),
    ];
    let (p, q) = (d.bell.min(d.other), d.bell.max(d.other));
    let mut changes = vec![
        (
            "place out of stage",
            place_not::ParseError::PlaceOutOfStage {
                place: d.bell,
                stage: a,
            },
        ),
        (
            "duplicate place",
            place_not::ParseError::DuplicatePlace(d.bell),
        ),
        ("odd stage cross", place_not::ParseError::OddStageCross(a)),
        ("no places", place_not::ParseError::NoPlacesGiven),
    ];
    if p != q {
        changes.push((
            "ambiguous places",
            place_not::ParseError::AmbiguousPlacesBetween { p, q },
        ));
    }
    for (k, e) in &rows {
        out.push((*k, row_error(e), e.to_string()));
        let e = same_stage_vec::ParseError::InvalidRow {
            line_num: d.number,
            err: e.clone(),
        };
        out.push(("row in a list of rows", ssv_error(&e), e.to_string()));
        let b = block::ParseError::Other(e.clone());
        out.push(("row in a block", ssv_error(&e), b.to_string()));
    }
    let e = same_stage_vec::ParseError::ZeroStage;
    out.push(("list of no bells", vec![], e.to_string()));
    out.push((
        "block of no rows",
        vec![],
        block::ParseError::ZeroLengthBlock.to_string(),
    ));
    let e = same_stage_vec::ParseError::IncompatibleStages {
        line_num: d.number,
        first_stage: a,
        different_stage: b,
    };
    out.push(("stages of rows", ssv_error(&e), e.to_string()));
    for (k, e) in &changes {
        out.push((*k, pn_error(e), e.to_string()));
        let e = PnBlockParseError::PnError(d.number..d.number.saturating_add(d.len), *e);
        out.push(("change in a block", pn_block_error(&e), e.to_string()));
    }
    for e in [
        PnBlockParseError::EmptyBlock,
        PnBlockParseError::PlusNotAtBlockStart(d.number),
    ] {
        out.push(("block of changes", pn_block_error(&e), e.to_string()));
    }
    out.push((
        "block of no changes",
        vec![],
        InvalidPnBlockError::EmptyBlock.to_string(),
    ));
    if let Err(e) = IncompatibleStages::test_err(a, b) {
        let both = vec![Say::Stage(d.a), Say::Stage(d.b)];
        out.push(("stages", both.clone(), e.to_string()));
        out.push((
            "stages to multiply",
            both.clone(),
            MulIntoError::RhsStage(e).to_string(),
        ));
        out.push((
            "stages to write into",
            both,
            MulIntoError::IntoStage(e).to_string(),
        ));
        let e = InvalidPnBlockError::IncompatibleStages(d.number, e);
        out.push((
            "stages of changes",
            vec![Say::Stage(d.a), Say::Number(d.number), Say::Stage(d.b)],
            e.to_string(),
        ));
    }
    out
}

fn check_errors(d: &Data, obs: &mut Obs) -> Result<(), String> {
    let all = errors(d);
    for (k, says_what, text) in &all {
        ensure!(
            !text.trim().is_empty(),
            "the error for {} ({:?}) displays as nothing",
            k,
            d
        );
        says(text, says_what).map_err(|e| format!("the error for {} on {:?}: {}", k, d, e))?;
    }
    // Errors of one type which differ are told apart by their text
    for (k, rows) in [
        (
            "rows",
            &[
                "no bells",
                "duplicate bell",
                "bell out of stage",
                "missing bell",
            ][..],
        ),
        (
            "places",
            &[
                "place out of stage",
                "duplicate place",
                "odd stage cross",
                "no places",
                "ambiguous places",
            ][..],
        ),
    ] {
        let texts: Vec<&String> = all
            .iter()
            .filter(|(n, ..)| rows.contains(n))
            .map(|(.., t)| t)
            .collect();
        for (i, t) in texts.iter().enumerate() {
            ensure!(
                !texts[..i].contains(t),
                "two errors of {} ({:?}) both say '{}'",
                k,
                d,
                t
            );
        }
    }
    obs.label_if(d.a > 22 || d.b > 22, "unnamed stage");
    obs.label_if(d.bell >= 33, "unnamed bell");
    obs.nontrivial_if(d.a != d.b && d.bell != d.other);
    Ok(())
}

fn data() -> BoxedStrategy<Data> {
    let bell = || prop_oneof![6 => 0usize..40, 2 => 0usize..300, 1 => 0usize..1 << 40];
    let stage = || prop_oneof![6 => 1usize..=24, 2 => 20usize..=40, 2 => 1usize..=300, 1 => 1usize..1 << 40];
    let number = || prop_oneof![4 => 0usize..20, 2 => 0usize..300, 1 => 0usize..100_000, 1 => any::<usize>()];
    let near = (0usize..40, 1usize..12);
    (
        prop_oneof![2 => (bell(), bell()), 1 => near.prop_map(|(p, d)| (p, p + d))],
        stage(),
        prop_oneof![5 => stage().prop_map(|s| (false, s)), 2 => (1usize..3).prop_map(|s| (true, s))],
        number(),
        number(),
    )
        .prop_map(|((bell, other), a, (rel, b), number, len)| Data { bell, other, a, b: if rel { a + b } else { b }, number, len })
        .boxed()
}

/// Damaged texts given to the parsers
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Bad {
    stage: usize,
    rows: String,
    change: String,
    changes: String,
}

fn check_parsers(c: &Bad, obs: &mut Obs) -> Result<(), String> {
    let s = bf::stage(c.stage);
    let mut found = 0;
    let mut judge = |what: &str, text: String, all: Vec<Say>| -> Result<(), String> {
        found += 1;
        ensure!(!text.trim().is_empty(), "{} fails with an empty text", what);
        says(&text, &all).map_err(|e| format!("{}: {}", what, e))
    };
    let line = c.rows.lines().next().unwrap_or("");
    for e in [
        RowBuf::parse(line).err(),
        RowBuf::parse_with_stage(line, s).err(),
    ]
    .into_iter()
    .flatten()
    {
        judge(
            &format!("parsing {:?} as a row (on {})", line, c.stage),
            e.to_string(),
            row_error(&e),
        )?;
    }
    if let Err(e) = SameStageVec::parse(&c.rows) {
        judge(
            &format!("parsing {:?} as rows", c.rows),
            e.to_string(),
            ssv_error(&e),
        )?;
    }
    match AnnotBlock::<()>::parse(&c.rows) {
        Err(block::ParseError::Other(e)) => {
            let text = block::ParseError::Other(e.clone()).to_string();
            judge(
                &format!("parsing {:?} as a block", c.rows),
                text,
                ssv_error(&e),
            )?
        }
        Err(e) => judge(
            &format!("parsing {:?} as a block", c.rows),
            e.to_string(),
            vec![],
        )?,
        Ok(_) => {}
    }
    if let Err(e) = PlaceNot::parse(&c.change, s) {
        judge(
            &format!("parsing {:?} as a change of {}", c.change, c.stage),
            e.to_string(),
            pn_error(&e),
        )?;
    }
    if let Err(e) = PnBlock::parse(&c.changes, s) {
        judge(
            &format!("parsing {:?} as changes of {}", c.changes, c.stage),
            e.to_string(),
            pn_block_error(&e),
        )?;
        if let PnBlockParseError::PnError(r, e) = &e {
            // The error of the part is what parsing only that part says
            let part = c
                .changes
                .get(r.clone())
                .ok_or_else(|| format!("{:?} has no part {:?}", c.changes, r))?;
            let alone = PlaceNot::parse(part, s).err().map(|x| x.to_string());
            ensure_eq!(
                alone,
                Some(e.to_string()),
                "the error for the part {:?} of {:?}",
                part,
                c.changes
            );
        }
    }
    obs.label_if(found >= 3, "three or more errors");
    obs.nontrivial_if(found > 0);
    Ok(())
}

fn bad() -> BoxedStrategy<Bad> {
    prop_oneof![8 => 2usize..=14, 1 => 15usize..=34, 1 => 30usize..=60]
        .prop_flat_map(|n| {
            let line = prop_oneof![
                8 => gen::perm(n).prop_map(|p| gen::names(&p)),
                1 => gen::perm(n + 1).prop_map(|p| gen::names(&p)),
                2 => vec(0..n + 3, 0..n + 3).prop_map(|p| gen::names(&p)),
                1 => (gen::perm(n), 0..n, 0..n + 2).prop_map(|(mut p, i, b)| { p[i] = b; gen::names(&p) }),
                1 => (gen::perm(n), 0..n).prop_map(|(mut p, i)| { p.remove(i); gen::names(&p) }),
                1 => Just(String::new()),
            ];
            let rows = gen::list(line, 0, 12, 60).prop_map(|l| l.join("\n"));
            let written = || vec(0..n + 3, 0..5).prop_map(|p| gen::names(&p));
            let change = prop_oneof![3 => written(), 2 => pn::change_text(n)];
            // Good changes (many, sometimes) and then a bad one
            let long = (pn::changes(n, 80), written(), vec(0usize..3, 1..4)).prop_map(move |(cs, w, seps)| {
                let mut s = String::new();
                for (i, c) in cs.iter().enumerate() {
                    if i > 0 {
                        s.push_str([".", " ", ". "][seps[i % seps.len()]]);
                    }
                    s.push_str(&pn::build(c, n).to_string());
                }
                format!("{}.{}", s, w)
            });
            let changes = prop_oneof![3 => pn::block_text(n), 2 => long];
            (Just(n), rows, change, changes)
        })
        .prop_map(|(stage, rows, change, changes)| Bad { stage, rows, change, changes })
        .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Values {
    rows: Vec<P>,
    annots: Vec<u32>,
    words: Vec<String>,
    change: P,
    holes: Vec<bool>,
    pattern: Vec<pat::E>,
}

/// These texts, one after another, in `text` (in which spaces and line breaks don't matter)
fn in_order(text: &str, parts: &[String], what: &str) -> Result<(), String> {
    let mut from = 0;
    for (i, p) in parts.iter().enumerate() {
        match text[from..].find(p.as_str()) {
            Some(at) => from += at + p.len(),
            None => {
                return Err(format!(
                    "the debug text of {} is {}, without {:?} (part {} of {:?})",
                    what, text, p, i, parts
                ))
            }
        }
    }
    Ok(())
}

fn check_values(c: &Values, obs: &mut Obs) -> Result<(), String> {
    let n = c.rows[0].len();
    macro_rules! shows {
        ($v:expr, $parts:expr, $what:expr) => {{
            let parts: Vec<String> = $parts;
            in_order(&format!("{:?}", $v), &parts, $what)?;
            in_order(&format!("{:#?}", $v), &parts, $what)?;
        }};
    }
    let names: Vec<String> = c.rows.iter().map(|r| gen::names(r)).collect();
    for (p, s) in c.rows.iter().zip(&names) {
        let r = bf::row(p);
        ensure_eq!(r.to_string(), *s, "display of {:?}", p);
        ensure_eq!(r.as_row().to_string(), *s, "display of {:?}", p);
        shows!(r, vec![s.clone()], "a row");
        shows!(r.as_row(), vec![s.clone()], "a row");
        shows!(r.to_rc(), vec![s.clone()], "a shared row");
        shows!(r[0], vec![gen::name(p[0])], "a bell");
        // The bells one by one are the row
        let one_by_one: String = r.bell_iter().map(|b| b.to_string()).collect();
        ensure_eq!(one_by_one, *s, "bells of {:?}", p);
    }
    // Buffers list their rows
    let mut v = SameStageVec::new(bf::stage(n));
    for r in &c.rows {
        v.push(&bf::row(r)).map_err(|e| e.to_string())?;
    }
    shows!(v, names.clone(), "a buffer");
    // Blocks list their rows, each with its annotation, and the leftover row last
    let len = c.rows.len() - 1;
    let numbers = AnnotBlock::with_annots_from_indices(v.clone(), |i| c.annots[i % c.annots.len()])
        .ok_or("no block")?;
    let word = |i: usize| c.words[i % c.words.len()].clone();
    let words = AnnotBlock::with_annots_from_indices(v, word).ok_or("no block")?;
    let mut parts = vec![];
    let mut word_parts = vec![];
    for i in 0..len {
        parts.push(names[i].clone());
        parts.push(c.annots[i % c.annots.len()].to_string());
        word_parts.push(names[i].clone());
        word_parts.push(format!("{:?}", word(i)));
    }
    parts.push(names[len].clone());
    word_parts.push(names[len].clone());
    shows!(numbers, parts, "a block annotated with numbers");
    shows!(words, word_parts, "a block annotated with words");
    for (i, a) in words.annot_rows().enumerate() {
        shows!(a, vec![names[i].clone()], "an annotated row");
        shows!(a, vec![format!("{:?}", word(i))], "an annotated row");
    }
    // Changes
    let change = pn::build(&c.change, n);
    let text = if c.change.is_empty() {
        "-".to_owned()
    } else {
        gen::names(&c.change)
    };
    ensure_eq!(
        change.to_string(),
        text,
        "display of the places {:?}",
        c.change
    );
    shows!(change, vec![text.clone()], "a change");
    let block = PnBlock::from_vec(vec![change.clone(), change.clone(), change])
        .map_err(|e| e.to_string())?;
    shows!(
        block,
        vec![text.clone(), text.clone(), text],
        "a block of changes"
    );
    // Masks and patterns
    let fixed = c.rows[0]
        .iter()
        .enumerate()
        .filter(|(i, _)| !c.holes[i % c.holes.len()])
        .map(|(_, b)| *b);
    let mask = Mask::fix_bells(bf::stage(n), fixed.clone().map(bf::bell));
    let mut want = String::new();
    let fixed: Vec<usize> = fixed.collect();
    for i in 0..n {
        want += &if fixed.contains(&i) {
            gen::name(i)
        } else {
            "x".to_owned()
        };
    }
    ensure_eq!(
        mask.to_string(),
        want,
        "display of the mask fixing {:?}",
        fixed
    );
    shows!(mask, vec![want], "a mask");
    let re = pat::real(&c.pattern);
    ensure_eq!(
        re.to_string(),
        pat::text(&pat::normal(&c.pattern)),
        "display of the pattern {:?}",
        c.pattern
    );
    shows!(re, vec![re.to_string()], "a pattern");
    for e in &c.pattern {
        ensure_eq!(
            pat::elem(e).to_string(),
            pat::text(&[*e]),
            "display of an element"
        );
    }
    obs.label_if(n > 33, "unnamed bells");
    obs.nontrivial_if(n >= 3 && len >= 1);
    Ok(())
}

fn values() -> BoxedStrategy<Values> {
    gen::wide_stage()
        .prop_flat_map(|n| {
            (
                vec(gen::perm(n), 1..6),
                vec(any::<u32>(), 1..5),
                vec(prop_oneof![3 => "[a-z]{1,4}", 1 => any::<String>()], 1..5),
                gen::change(n),
                vec(any::<bool>(), 1..9),
                pat::loose(n),
            )
        })
        .prop_map(|(rows, annots, words, change, holes, pattern)| Values {
            rows,
            annots,
            words,
            change,
            holes,
            pattern,
        })
        .boxed()
}

/// The debug text of a stage is how to write it in code: a constant's name, or the number of bells
fn check_stage(v: &(usize, usize), obs: &mut Obs) -> Result<(), String> {
    let (n, m) = *v;
    let (s, t) = (Stage::new(n), Stage::new(m));
    let texts = [format!("{:?}", s), format!("{:#?}", s)];
    for d in &texts {
        if n <= 16 {
            let name = STAGES[n - 1].to_uppercase();
            ensure!(
                d.split(|c: char| !c.is_alphabetic()).any(|w| w == name),
                "the stage of {} bells, {}, debugs as {}",
                n,
                name,
                d
            );
        } else {
            says(d, &[Say::Number(n)])?;
        }
    }
    ensure_eq!(
        texts[0] == format!("{:?}", t),
        n == m,
        "whether stages {} and {} debug alike",
        n,
        m
    );
    says(&s.to_string(), &[Say::Stage(n)])?;
    obs.nontrivial();
    Ok(())
}

fn main() {
    vcore::main(Property {
        id: "C35",
        facets: vec![
            Facet::enumerated(
                "small-stages",
                "always",
                |_| Box::new((1usize..=60).flat_map(|n| (1usize..=60).map(move |m| (n, m)))),
                check_stage,
            ),
            Facet::enumerated(
                "errors-of-small-data",
                "two stages and two bells which differ",
                |_| {
                    Box::new((1usize..=24).flat_map(|a| {
                        (1usize..=24).flat_map(move |b| {
                            (0usize..12).map(move |i| Data { bell: i, other: (a * 7 + b + i * i) % 36, a, b, number: (a + b * 3) % 14, len: 1 })
                        })
                    }))
                },
                check_errors,
            ),
            Facet::random("stages", 20_000, 400_000, "always", |_| (1usize..1 << 40, prop_oneof![1usize..60, 1usize..1 << 40]), check_stage),
            Facet::random("errors", 60_000, 1_500_000, "two stages and two bells which differ", |_| data(), check_errors),
            Facet::random("parsers", 100_000, 3_000_000, "some parser fails", |_| bad(), check_parsers),
            Facet::random("values", 40_000, 1_000_000, "rows of three or more bells, with annotations", |_| values(), check_values),
        ],
        assumptions: vec![
            "The data must stand in the text in the order the error describes it (a place before the stage it is outside, \
             the expected or left-hand stage before the other, a gap before its two places); the words around it are free.",
        ],
    })
}
