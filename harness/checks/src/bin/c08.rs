//! C08: multi-line row text parses line by line with exact error lines.

#[path = "../bf.rs"]
mod bf;

use bellframe::{block, row::same_stage_vec::ParseError, AnnotBlock, Block, SameStageVec};
use proptest::{collection::vec, prelude::*};
use vcore::{ensure, ensure_eq, gen, Facet, Obs, Property};

type P = Vec<usize>;

/// The lines of a text: split at line feeds, with no line after a final one
fn lines_of(text: &str) -> Vec<P> {
    let mut ls: Vec<&str> = text.split('\n').collect();
    if ls.last() == Some(&"") {
        ls.pop();
    }
    ls.into_iter().map(gen::bells_in).collect()
}

fn valid_line(l: &P) -> bool {
    !l.is_empty() && gen::is_perm(l)
}

/// Which line (0-based) is wrong first?
fn first_bad(lines: &[P]) -> Option<usize> {
    lines
        .iter()
        .position(|l| !valid_line(l) || l.len() != lines[0].len())
}

fn judge_error(lines: &[P], e: &ParseError) -> Result<(), String> {
    let shown = e.to_string();
    ensure!(!shown.is_empty(), "{:?} displays as nothing", e);
    let bad = match first_bad(lines) {
        Some(b) => b,
        None if lines.is_empty() => return Ok(()), // Any error will do for no lines
        None => return Err(format!("a good text was rejected: {}", e)),
    };
    let line = &lines[bad];
    match e {
        ParseError::ZeroStage => {
            ensure!(
                line.is_empty() && bad == 0,
                "{:?} reported, but line 1 has bells",
                e
            )
        }
        ParseError::InvalidRow { line_num, err } => {
            ensure_eq!(*line_num, bad + 1, "line number of '{}'", e);
            ensure!(
                !valid_line(line),
                "line {} holds a valid row, but '{}' was reported",
                line_num,
                err
            );
            bf::truthful(line, None, err)?;
            ensure!(
                shown.contains(&line_num.to_string()),
                "'{}' doesn't say line {}",
                shown,
                line_num
            );
        }
        ParseError::IncompatibleStages {
            line_num,
            first_stage,
            different_stage,
        } => {
            ensure_eq!(*line_num, bad + 1, "line number of '{}'", e);
            ensure!(
                valid_line(line),
                "line {} isn't a row, but '{}' was reported",
                line_num,
                e
            );
            ensure_eq!(
                first_stage.num_bells(),
                lines[0].len(),
                "first stage of '{}'",
                e
            );
            ensure_eq!(
                different_stage.num_bells(),
                line.len(),
                "different stage of '{}'",
                e
            );
            ensure!(
                shown.contains(&line_num.to_string()),
                "'{}' doesn't say line {}",
                shown,
                line_num
            );
        }
    }
    Ok(())
}

fn check(text: &String, obs: &mut Obs) -> Result<(), String> {
    let lines = lines_of(text);
    let good = !lines.is_empty() && first_bad(&lines).is_none();
    match SameStageVec::parse(text) {
        Ok(v) => {
            ensure!(good, "{:?} was accepted as {:?}", text, v);
            ensure_eq!(bf::ssv_rows(&v), lines, "rows of {:?}", text);
            ensure_eq!(v.stage().num_bells(), lines[0].len(), "stage of {:?}", text);
            for r in &v {
                bf::valid(r)?;
            }
        }
        Err(e) => judge_error(&lines, &e).map_err(|m| format!("{:?}: {}", text, m))?,
    }
    // Blocks
    match (Block::parse(text), AnnotBlock::<Vec<u8>>::parse(text)) {
        (Ok(b), Ok(a)) => {
            ensure!(good, "{:?} was accepted as a block", text);
            let n = lines.len() - 1;
            ensure_eq!(b.len(), n, "length of the block {:?}", text);
            ensure_eq!(
                b.rows().map(bf::idx).collect::<Vec<_>>(),
                lines[..n],
                "rows of the block {:?}",
                text
            );
            ensure_eq!(
                bf::idx(b.leftover_row()),
                lines[n],
                "leftover row of the block {:?}",
                text
            );
            ensure!(a.row_vec() == b.row_vec(), "annotated block's rows");
            ensure!(
                a.annots().all(|x| x.is_empty()) && a.annots().count() == n,
                "annotations aren't default"
            );
        }
        (Err(e), Err(_)) => {
            ensure!(
                !e.to_string().is_empty(),
                "a block error displays as nothing"
            );
            match e {
                block::ParseError::Other(e) => {
                    judge_error(&lines, &e).map_err(|m| format!("{:?} as a block: {}", text, m))?
                }
                block::ParseError::ZeroLengthBlock => {
                    ensure!(
                        lines.is_empty(),
                        "{:?}: 'zero length' reported for {} lines",
                        text,
                        lines.len()
                    )
                }
            }
        }
        (a, b) => return Err(format!("{:?}: blocks disagree: {:?} {:?}", text, a, b)),
    }
    obs.label(if good { "accepted" } else { "rejected" });
    obs.label_if(text.contains('\r'), "with carriage returns");
    obs.label_if(
        matches!(first_bad(&lines), Some(b) if b > 0),
        "bad after the first line",
    );
    obs.nontrivial_if(lines.len() >= 2);
    Ok(())
}

/// Characters which end a line elsewhere, but not here
const SEPARATORS: [char; 10] = [
    '\r', '\x0b', '\x0c', '\x1c', '\x1d', '\x1e', '\0', '\u{85}', '\u{2028}', '\u{2029}',
];

fn separator() -> impl Strategy<Value = char> {
    proptest::sample::select(SEPARATORS.to_vec())
}

fn strategy() -> BoxedStrategy<String> {
    let line = |n: usize| {
        prop_oneof![
            30 => gen::perm(n).prop_map(|p| gen::names(&p)),
            4 => (gen::perm(n), gen::noise(3)).prop_map(|(p, k)| gen::with_noise(&gen::names(&p), &k)),
            1 => (gen::perm(n), any::<proptest::sample::Index>(), separator()).prop_map(|(p, i, c)| {
                let mut cs: Vec<char> = gen::names(&p).chars().collect();
                cs.insert(i.index(cs.len() + 1), c);
                cs.into_iter().collect()
            }),
            1 => gen::perm(n + 1).prop_map(|p| gen::names(&p)),
            1 => vec(0..n + 2, 0..n + 2).prop_map(|p| gen::names(&p)),
            1 => gen::text(6).prop_map(|s| s.replace('\n', "")),
            1 => Just(String::new()),
        ]
    };
    // Only a line feed ends a line: other separators are ignored like every other non-bell character
    let ending = || {
        proptest::sample::select(vec![
            "\n",
            "\n",
            "\n",
            "\n",
            "\r\n",
            "\r\n",
            " \n",
            "\r\r\n",
            "\x0c\n",
            "\n\x0c",
            "\x0b\n",
            "\n\u{2028}",
            "\u{85}\n",
            "\u{2029}\n",
            "\x1c\n",
            "\n\x1e",
            "\0\n",
            "\n\r",
        ])
    };
    let structured = prop_oneof![8 => 1usize..=8, 2 => 9usize..=16, 1 => 17usize..=33]
        .prop_flat_map(move |n| {
            (
                gen::list((line(n), ending()), 0, 7, if n > 16 { 40 } else { 300 }),
                prop_oneof![4 => Just(0u8), 2 => Just(1), 1 => Just(2)],
            )
        })
        .prop_map(|(ls, tail)| {
            let mut s = String::new();
            for (i, (l, e)) in ls.iter().enumerate() {
                s.push_str(l);
                if i + 1 < ls.len() || tail == 1 {
                    s.push_str(e);
                } else if tail == 2 {
                    s.push_str(e);
                    s.push_str(e);
                }
            }
            s
        });
    prop_oneof![12 => structured, 1 => gen::text(10)].boxed()
}

/// Tens of thousands of lines, one of which may be wrong
fn long_texts() -> BoxedStrategy<Long> {
    let lines = prop_oneof![3 => 65_530usize..65_545, 1 => 250usize..260, 1 => 10_000usize..80_000];
    let at = prop_oneof![2 => 65_530usize..65_545, 1 => any::<usize>(), 1 => 250usize..260];
    (2usize..=4)
        .prop_flat_map(move |n| {
            (
                vec(gen::perm(n), 1..6),
                lines.clone(),
                proptest::option::weighted(0.8, (at.clone(), vec(0..n + 2, 0..n + 2))),
                0u8..4,
            )
        })
        .prop_map(|(unit, lines, bad, end)| Long {
            unit,
            lines,
            bad,
            end,
        })
        .boxed()
}

#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
struct Long {
    unit: Vec<P>,
    lines: usize,
    bad: Option<(usize, P)>,
    end: u8,
}

fn check_long(c: &Long, obs: &mut Obs) -> Result<(), String> {
    let end = if c.end & 1 == 0 { "\n" } else { "\r\n" };
    let mut lines: Vec<String> = c
        .unit
        .iter()
        .cycle()
        .take(c.lines)
        .map(|p| gen::names(p))
        .collect();
    if let Some((i, l)) = &c.bad {
        let i = i % lines.len();
        lines[i] = gen::names(l);
        obs.label_if(i >= 65_535, "wrong beyond line 65,535");
    }
    let mut s = lines.join(end);
    if c.end & 2 == 0 {
        s.push_str(end);
    }
    check(&s, obs)
}

fn main() {
    vcore::main(Property {
        id: "C08",
        facets: vec![
            Facet::enumerated(
                "all-short-texts",
                "two or more lines",
                |tier| {
                    let max = if tier == vcore::Tier::Quick { 6 } else { 8 };
                    let chars = ['1', '2', '3', '\n', '\r'];
                    Box::new((0..=max).flat_map(move |len: u32| {
                        (0..chars.len().pow(len)).map(move |mut k| {
                            (0..len)
                                .map(|_| {
                                    let c = chars[k % chars.len()];
                                    k /= chars.len();
                                    c
                                })
                                .collect::<String>()
                        })
                    }))
                },
                check,
            ),
            Facet::enumerated(
                "all short texts with another separator",
                "two or more lines",
                |_| {
                    Box::new(SEPARATORS.into_iter().flat_map(|sep| {
                        let chars = ['1', '2', '\n', sep];
                        (0u32..=6).flat_map(move |len| {
                            (0..chars.len().pow(len)).map(move |mut k| {
                                (0..len)
                                    .map(|_| {
                                        let c = chars[k % chars.len()];
                                        k /= chars.len();
                                        c
                                    })
                                    .collect::<String>()
                            })
                        })
                    }))
                },
                check,
            ),
            Facet::random(
                "long texts",
                80,
                3_000,
                "two or more lines",
                |_| long_texts(),
                check_long,
            ),
            Facet::random(
                "texts",
                300_000,
                4_000_000,
                "two or more lines",
                |_| strategy(),
                check,
            ),
        ],
        assumptions: vec![],
    })
}
