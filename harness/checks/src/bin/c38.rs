//! C38: what a call gives depends on its arguments alone.
//!
//! A case is a history of calls whose arguments are easily confused (rows which agree in their
//! first or last bells, texts which differ in letter case or are read on two stages, methods of
//! the same name).  The calls are made in one order, in the same order again, in the opposite order
//! in another process (built for release, so without debug assertions or overflow checks), and by
//! several threads at once; each must give the same result everywhere.

#[path = "../bf.rs"]
mod bf;
#[path = "../meth.rs"]
mod meth;
#[path = "../mlib.rs"]
mod mlib;
#[path = "../pat.rs"]
mod pat;
#[path = "../pn.rs"]
mod pn;

use std::io::{Read, Write};
use std::ops::Bound;
use std::process::{Command, Stdio};

use bellframe::{
    method::Method, method_lib::QueryError, music::Regex, row::RowAccumulator, run_len, Bell,
    Block, Call, Mask, MethodLib, PlaceNot, PnBlock, Row, RowBuf, SameStageVec, Stage,
};
use proptest::{collection::vec, prelude::*, sample::Index};
use serde::{Deserialize, Serialize};
use vcore::{ensure, gen, Facet, Obs, Property};

type P = Vec<usize>;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Call_ {
    kind: u8,
    a: u8,
    b: u8,
    k: i16,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    rows: Vec<P>,
    stages: Vec<usize>,
    texts: Vec<String>,
    libs: Vec<mlib::Lib>,
    calls: Vec<Call_>,
}

const KINDS: u8 = 39;

fn method(text: &str, stage: Stage, name: &str) -> Option<Method> {
    Method::from_place_not_string(name.to_owned(), stage, text).ok()
}

fn sorted<T: Ord>(items: impl IntoIterator<Item = T>) -> Vec<T> {
    let mut v: Vec<T> = items.into_iter().collect();
    v.sort();
    v
}

/// Every result as text.  (Where an order, or which of several equals is chosen, isn't specified
/// it is left out.)
fn eval(c: &Case, call: &Call_) -> String {
    vcore::panics(|| eval_inner(c, call)).unwrap_or_else(|_| "a panic".to_owned())
}

fn eval_inner(c: &Case, call: &Call_) -> String {
    let rows: Vec<RowBuf> = c.rows.iter().map(|p| bf::row(p)).collect();
    let (i, j) = (call.a as usize, call.b as usize);
    let a = &rows[i % rows.len()];
    let b = &rows[j % rows.len()];
    let text = &c.texts[i % c.texts.len()];
    let other = &c.texts[j % c.texts.len()];
    let stage = bf::stage(c.stages[(i + j) % c.stages.len()]);
    let k = call.k;
    match call.kind % KINDS {
        0 => format!("{:?}", a.mul_result(b)),
        1 => format!("{}", a.inv()),
        2 => format!("{}", a.pow_i(k as isize)),
        3 => format!("{}", a.pow_u(k.unsigned_abs() as usize)),
        4 => format!("{:?}", a.clone().parity()),
        5 => format!("{:?}", Row::solve_ax_equals_b(a, b)),
        6 => format!("{:?}", Row::solve_xa_equals_b(a, b)),
        7 => format!(
            "{:?} {} {} {} {:?} {:?}",
            a.effective_stage(),
            a.is_rounds(),
            a.is_backrounds(),
            run_len(a),
            a.fixed_bells().collect::<Vec<_>>(),
            a.place_of(bf::bell(k.unsigned_abs() as usize))
        ),
        8 => format!(
            "{} {} {:?}",
            a == b,
            a.fast_hash() == b.fast_hash(),
            a.cmp(b)
        ),
        9 => format!("{:?}", RowBuf::parse(text)),
        10 => format!("{:?}", RowBuf::parse_with_stage(text, stage)),
        11 => format!("{:?}", PlaceNot::parse(text, stage)),
        12 => match PnBlock::parse(text, stage) {
            Ok(p) => format!("{:?} {:?}", p, p.to_block_from_rounds::<()>()),
            Err(e) => format!("{:?}", e),
        },
        13 => match method(text, stage, other) {
            Some(m) => {
                let course = m.plain_course();
                format!(
                    "{} {:?} {} {} {}",
                    m.title(),
                    m.lead(),
                    course.len(),
                    course.leftover_row(),
                    m.row_in_plain_course(k.unsigned_abs() as usize)
                )
            }
            None => "no method".to_owned(),
        },
        14 => {
            let m = Mask::parse(text);
            let o = Mask::parse(other);
            format!(
                "{:?} {:?} {:?} {} {} {}",
                m,
                m.as_row(),
                m.combine(&o),
                m.matches(a),
                m.is_subset_of(&o),
                m.is_compatible_with(&o)
            )
        }
        15 => {
            let r = Regex::parse(text);
            format!(
                "{} {} {:?} {:?}",
                r,
                r.matches(a),
                r.match_pattern(b),
                r.num_matching_rows(stage)
            )
        }
        16 => {
            let lines = format!("{}\n{}\n{}", a, b, text);
            format!("{:?}", SameStageVec::parse(&lines))
        }
        17 => {
            let mut v = SameStageVec::new(a.stage());
            let r = (
                v.push(a),
                v.push(b),
                v.pre_multiply(b),
                v.path_of(bf::bell(k.unsigned_abs() as usize)),
            );
            format!("{:?} {:?}", r, v)
        }
        18 => match PnBlock::parse(text, a.stage()) {
            Ok(p) => {
                let mut block: Block = p.to_block_from_rounds();
                let r = block.pre_multiply(b);
                let more = block.extend_range(&p.to_block_from_rounds(), ..1);
                let rings: Vec<_> = match block.repeat_iter(a.clone()) {
                    Ok(it) => it.take(30).map(|(r, i, _)| (r, i)).collect(),
                    Err(_) => vec![],
                };
                format!("{:?} {:?} {:?} {:?}", r, more, block, rings)
            }
            Err(e) => format!("{}", e),
        },
        19 if a.stage().num_bells() <= 6 => {
            let set = [a.as_row(), b.as_row()];
            match Row::least_group_containing(set) {
                Ok(g) => format!("{:?} {:?}", sorted(g), Row::is_group(set).ok()),
                Err(e) => format!("{}", e),
            }
        }
        // (Which two of several stages are reported may differ)
        19 => format!("{:?}", Row::is_group([a.as_row(), b.as_row()]).ok()),
        20 => {
            let all: Vec<&RowBuf> = rows.iter().take(3).collect();
            match Row::multi_cartesian_product([&all[..], &[a, b][..]]) {
                Ok(v) => format!("{:?}", sorted(v)),
                Err(e) => format!("{}", e),
            }
        }
        21 | 22 => {
            let Some(lib) = c.libs.get(j % c.libs.len().max(1)) else {
                return String::new();
            };
            let Ok(lib) = MethodLib::from_json(&lib.text()) else {
                return "bad JSON".to_owned();
            };
            let first = match lib.get_by_title(text) {
                Ok(m) => format!("{} {} {:?}", m.title(), m.name(), m.lead()),
                Err(QueryError::PnParseErr { pn, error }) => format!("{} {:?}", pn, error),
                Err(QueryError::NotFound(())) => "not found".to_owned(),
            };
            let close = lib.get_by_title_with_suggestions(text, 3);
            let close = match close {
                Err(QueryError::NotFound(v)) => v.iter().map(|(_, d)| *d).collect(),
                _ => vec![],
            };
            let json: serde_json::Value =
                serde_json::from_str(&lib.to_json().unwrap_or_default()).unwrap_or_default();
            let _ = json;
            format!("{} {:?}", first, close)
        }
        23 => format!(
            "{:?} {} {:?} {:?}",
            Stage::from_lower_case_name(&text.to_lowercase()),
            stage,
            stage,
            serde_json::to_string(&stage).ok()
        ),
        24 => {
            let bell = bf::bell(k.unsigned_abs() as usize % 80);
            format!(
                "{} {:?} {:?} {:?}",
                bell,
                bell.to_char(),
                text.chars().map(Bell::from_name).collect::<Vec<_>>(),
                serde_json::to_string(&bell).ok()
            )
        }
        25 => {
            let mut acc = RowAccumulator::new(a.clone());
            let r = (
                acc.accumulate(b).is_ok(),
                acc.pre_accumulate(&rows[0]).is_ok(),
                acc.accumulate(a).is_ok(),
            );
            format!("{:?} {}", r, acc.total())
        }
        26 => match PnBlock::parse(text, stage) {
            Ok(p) => {
                let bob = Call::le_bob(p);
                format!("{:?} {}", bob, bob.transposition())
            }
            Err(e) => format!("{}", e),
        },
        27 => format!(
            "{} {} {} {}",
            RowBuf::rounds(stage),
            RowBuf::backrounds(stage),
            RowBuf::queens(stage),
            RowBuf::backrounds(a.stage()),
        ),
        28 if gen::order(&c.rows[i % rows.len()]) < 500 => {
            format!("{:?} {:?}", sorted(a.closure()), a.closure_from_rounds())
        }
        28 => format!("{:?}", PlaceNot::pn_between(a, b)),
        30..=38 => in_place(call.kind % KINDS, &rows, a, b, text, stage, k),
        _ => {
            let mut out = RowBuf::rounds(stage);
            let r = a.mul_into(b, &mut out).is_ok();
            let len = k.unsigned_abs() as usize % (stage.num_bells() + 2);
            format!(
                "{} {} {} {:?}",
                r,
                out,
                a.tranposition_to(b)
                    .map_or(String::new(), |t| t.to_string()),
                Regex::runs_front_or_back(stage, len).len()
            )
        }
    }
}

/// A range of the first `n` numbers
fn range(k: i16, n: usize) -> std::ops::Range<usize> {
    let (x, y) = (
        k.unsigned_abs() as usize % (n + 1),
        k.unsigned_abs() as usize / 7 % (n + 1),
    );
    x.min(y)..x.max(y)
}

/// Calls which change what they are given: what is left of it is part of the result
fn in_place(
    kind: u8,
    rows: &[RowBuf],
    a: &RowBuf,
    b: &RowBuf,
    text: &str,
    stage: Stage,
    k: i16,
) -> String {
    let ku = k.unsigned_abs() as usize;
    match kind {
        30 => {
            let mut bufs: Vec<RowBuf> = (0..4).map(|_| b.clone()).collect();
            a.inv_into_buf(&mut bufs[0]);
            a.copy_into(&mut bufs[1]);
            bufs[2].overwrite_from(a);
            bufs[3].extend_to_stage(stage);
            let n = bufs[3].stage().num_bells();
            bufs[3].as_mut_row().swap(ku % n, n - 1);
            let last = b.inv_into(&mut bufs[2]);
            let mut at = bufs[1].clone();
            let into = at.clone().mul_into_row(b, &mut at).is_ok();
            format!(
                "{:?} {:?} {} {} {} {}",
                bufs,
                last,
                into,
                at,
                a.to_rc(),
                b.to_arc()
            )
        }
        31 => {
            let mut v = SameStageVec::with_capacity(a.stage(), ku % 5);
            let mut other = SameStageVec::from_row_buf(a.clone());
            let r = (
                v.extend(rows),
                v.extend(rows.iter().filter(|r| r.stage() == a.stage())),
                other.push(b),
                other.extend_from_buf(&v),
                v.extend_range_transposed(b, &other, range(k, 2)),
                v.extend_transposed_from_within(range(k, v.len()), a),
                v.extend_transposed(a, &other),
            );
            let popped = (v.pop(), v.len(), v.pop(), v.is_empty());
            let more = v.pre_multiplied(b);
            let ends = format!("{:?} {:?} {:?}", v.first(), v.last(), v.get(ku));
            let back: Vec<String> = v.iter().rev().map(|r| r.to_string()).collect();
            let at = ku % (v.len() + 2);
            let halves = v.clone().split(at);
            let gone: Vec<Option<RowBuf>> = (0..v.len() + 1).map(|_| v.pop()).collect();
            format!(
                "{:?} {:?} {:?} {} {:?} {:?} {:?} {:?}",
                r, popped, more, ends, back, halves, gone, v
            )
        }
        32 => {
            let Ok(p) = PnBlock::parse(text, a.stage()) else {
                return "no block".to_owned();
            };
            let Ok(made) = p.to_block::<()>(a.clone()) else {
                return "another stage".to_owned();
            };
            let mut block = made.map_annots_with_index(|i, ()| i);
            let start = block.clone();
            let n = block.len();
            block.extend_from_within(range(k, n));
            let r = block.extend(&start);
            let kept = block.clone_map_annots_with_index(|i, x| i + 2 * *x);
            let mut seen = vec![];
            if let Ok(mut it) = kept.repeat_iter(b.clone()) {
                let mut out = a.clone();
                while let Some((i, x)) = it.next_into(&mut out) {
                    seen.push(format!("{} {} {}", out, i, x));
                    if seen.len() > 40 {
                        break;
                    }
                }
            }
            let path = block.full_path_of(bf::bell(ku % 9));
            let halves = block.clone().split(ku % (block.len() + 2));
            let shown: Vec<String> = block
                .annot_rows()
                .map(|r| format!("{} {}", r.row(), r.annot()))
                .collect();
            format!(
                "{:?} {:?} {:?} {:?} {:?} {:?}",
                r, kept, seen, path, halves, shown
            )
        }
        38 => {
            // Ranges at (and far past) the end
            let n = a.stage().num_bells();
            let top = usize::MAX;
            let far = [
                1,
                2,
                3,
                4,
                9,
                top,
                top - 1,
                top / n,
                top / n + 1,
                top / 2 + 1,
            ];
            let (lo, hi) = (far[ku % 10], far[ku / 10 % 10]);
            let mut v = SameStageVec::from_row_buf(a.clone());
            let w = v.clone();
            let _ = v.extend_range_transposed(b, &w, ..);
            let Ok(mut block) =
                PnBlock::parse(text, a.stage()).map(|p| p.to_block_from_rounds::<()>())
            else {
                return "no block".to_owned();
            };
            let other = block.clone();
            let ends = match ku / 100 % 4 {
                0 => (Bound::Included(0), Bound::Excluded(hi)),
                1 => (Bound::Included(0), Bound::Included(hi)),
                2 => (Bound::Excluded(lo), Bound::Unbounded),
                _ => (Bound::Excluded(lo), Bound::Included(hi)),
            };
            let r = (
                vcore::panics(|| v.extend_range_transposed(b, &w, ends)).ok(),
                vcore::panics(|| v.extend_transposed_from_within(ends, a)).ok(),
                vcore::panics(|| block.extend_range(&other, ends)).ok(),
                vcore::panics(|| block.extend_from_within(ends)).ok(),
            );
            format!("{:?} {:?} {:?} {:?}", r, v, block, v.get(hi).or(v.get(lo)))
        }
        33 => {
            let bells: Vec<Bell> = text.chars().filter_map(Bell::from_name).collect();
            let from = a.slice().iter().chain(b.slice()).copied().skip(ku % 9);
            format!(
                "{:?} {:?} {:?} {:?}",
                RowBuf::from_vec(bells.clone()),
                RowBuf::from_vec_with_stage(bells.clone(), stage),
                RowBuf::from_bell_iter(from),
                Block::parse(&format!("{}\n{}", a, text)).map(|b: Block| b.into_row_vec()),
            )
        }
        34 => {
            let mut m = Mask::empty(stage);
            let mut o = Mask::parse(text);
            let n = stage.num_bells();
            let mut r = vec![];
            for (i, bell) in a.bell_iter().enumerate() {
                if (ku >> (i % 12)) & 1 == 1 && i < n && bell.index() < n {
                    r.push(m.set_bell(bell, i).is_ok());
                }
            }
            if ku % n.max(2) < o.stage().num_bells() {
                r.push(o.fix(bf::bell(ku % n.max(2))).is_ok());
            }
            format!(
                "{:?} {} {} {:?} {:?} {} {:?} {:?}",
                r,
                m,
                o,
                m.unspecified_places().collect::<Vec<_>>(),
                m.place_of(bf::bell(ku % 9)),
                m.matches(a),
                Mask::fix_bells(stage, b.fixed_bells().filter(|b| b.index() < n)),
                Mask::full_row(a).combine(&o)
            )
        }
        35 => {
            let Ok(pn) = PlaceNot::parse(text, a.stage()) else {
                return "no change".to_owned();
            };
            let mut out = a.clone();
            let r = (pn.permute(&mut out), pn.permute_new(b));
            let block = PnBlock::from_vec(vec![pn.clone(), pn.clone()]);
            format!(
                "{:?} {} {} {} {} {:?} {} {:?}",
                r,
                out,
                pn.transposition(),
                pn.is_cross(),
                pn.has_internal_places(),
                PlaceNot::pn_between(a, &out),
                pn.contains(ku % 9),
                block.map(|b| b.to_rows(a.clone()))
            )
        }
        36 => {
            let Some(mut m) = method(text, a.stage(), "It") else {
                return "no method".to_owned();
            };
            let n = m.lead_len();
            m.set_lead_end_label();
            m.set_label(ku % n, Some("there".to_owned()));
            m.set_label(ku / 5 % n, (ku % 2 == 0).then(|| "LE".to_owned()));
            format!(
                "{:?} {:?} {:?} {} {:?}",
                m.label_indices("LE").collect::<Vec<_>>(),
                m.label_indices("there").collect::<Vec<_>>(),
                m.get_label(n - 1),
                m.row_in_plain_lead(ku % n),
                m.plain_course()
                    .annots()
                    .map(|a| a.label())
                    .collect::<Vec<_>>()
            )
        }
        _ => {
            let mut r = Regex::parse(text);
            r.normalise();
            let n = a.stage().num_bells();
            let len = ku % (n + 2);
            let counts: Vec<Option<usize>> = Regex::runs(a.stage(), len, k % 2 == 0)
                .iter()
                .map(|r| r.num_matching_rows(a.stage()))
                .collect();
            format!("{} {:?} {} {:?}", r, r.elems(), r.matches(b), counts)
        }
    }
}

/// The same program, built for release (by `build.sh`)
fn other_build() -> std::path::PathBuf {
    let me = std::env::current_exe().unwrap();
    me.parent().unwrap().parent().unwrap().join("release/c38")
}

/// All the results, of calls made in the opposite order by another process, with the crate built
/// without debug assertions and overflow checks
fn other_history(c: &Case) -> Result<Vec<String>, String> {
    let mut child = Command::new(other_build())
        .arg("--other-history")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| panic!("another process: {}", e));
    let text = serde_json::to_string(c).unwrap();
    let mut input = child.stdin.take().unwrap();
    let mut out = String::new();
    std::thread::scope(|s| {
        s.spawn(move || input.write_all(text.as_bytes()));
        child.stdout.take().unwrap().read_to_string(&mut out)
    })
    .unwrap_or_else(|e| panic!("another process: {}", e));
    let status = child.wait().unwrap();
    ensure!(
        status.success(),
        "in the opposite order, the calls end the process with {}",
        status
    );
    let mut all: Vec<String> = serde_json::from_str(&out).map_err(|e| e.to_string())?;
    all.reverse();
    Ok(all)
}

fn be_other() -> ! {
    vcore::quiet();
    // Calls which never end, or use ever more memory, end this process
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(20));
        std::process::exit(97)
    });
    vcore::alloc::begin_case(1 << 30);
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).unwrap();
    let c: Case = serde_json::from_str(&text).unwrap();
    let all: Vec<String> = c.calls.iter().rev().map(|k| eval(&c, k)).collect();
    print!("{}", serde_json::to_string(&all).unwrap());
    std::process::exit(0)
}

fn check(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let other = other_history(c)?;
    let first: Vec<String> = c.calls.iter().map(|k| eval(c, k)).collect();
    let again: Vec<String> = c.calls.iter().map(|k| eval(c, k)).collect();
    let n = c.calls.len();
    let threads: Vec<Vec<(usize, String)>> = std::thread::scope(|s| {
        let all: Vec<_> = (0..3)
            .map(|t| {
                s.spawn(move || {
                    (0..n)
                        .map(|i| {
                            let at = (i + t * n / 3) % n;
                            let at = if t == 1 { n - 1 - at } else { at };
                            (at, eval(c, &c.calls[at]))
                        })
                        .collect()
                })
            })
            .collect();
        all.into_iter().map(|t| t.join().unwrap()).collect()
    });
    let same = |at: usize, got: &str, who: &str| {
        ensure!(
            got == first[at],
            "call {} ({:?}) gives {:?}, but {} {:?}",
            at,
            c.calls[at],
            first[at],
            who,
            got
        );
        Ok(())
    };
    for at in 0..n {
        same(at, &again[at], "the second time")?;
        same(at, &other[at], "after other calls (in a release build)")?;
    }
    for t in &threads {
        for (at, got) in t {
            same(*at, got, "on another thread")?;
        }
    }
    let kinds: std::collections::BTreeSet<u8> = c.calls.iter().map(|k| k.kind % KINDS).collect();
    let results: std::collections::BTreeSet<&String> = first.iter().collect();
    obs.nontrivial_if(kinds.len() >= 3 && results.len() >= 8);
    obs.label_if(first.iter().any(|r| r == "a panic"), "a panic");
    obs.label_if(c.rows[0].len() > 16, "more than 16 bells");
    Ok(())
}

/// Rows which are easily mistaken for each other
fn rows(n: usize) -> BoxedStrategy<Vec<P>> {
    let edit = (0u8..6, any::<Index>(), any::<Index>());
    (gen::perm(n), vec(edit, 2..7))
        .prop_map(move |(first, edits)| {
            let mut all = vec![first];
            for (how, x, y) in edits {
                let mut r = all[x.index(all.len())].clone();
                let (i, j) = (x.index(n), y.index(n));
                match how {
                    0 => r.swap(i, j),
                    1 => r.swap(n - 1, n - 1 - i.min(2).min(n - 1)),
                    2 => r.swap(0, i.min(2)),
                    3 => r.rotate_left(i),
                    4 => r = gen::inv(&r),
                    _ if how == 5 && i % 3 == 0 => r.push(n),
                    _ => r.reverse(),
                }
                if !gen::is_perm(&r) {
                    r = gen::id(n);
                }
                all.push(r);
            }
            all
        })
        .boxed()
}

fn texts(n: usize, rows: Vec<P>, libs: &[mlib::Lib]) -> BoxedStrategy<Vec<String>> {
    let titles: Vec<String> = libs
        .iter()
        .flat_map(|l| l.methods.iter().map(|m| m.full_title()))
        .chain([format!("Plain Bob {}", meth::stage_name(n))])
        .collect();
    let named: Vec<String> = rows
        .iter()
        .map(|p| {
            p.iter()
                .filter(|&&b| b < 33)
                .map(|&b| gen::name(b))
                .collect()
        })
        .collect();
    let one = prop_oneof![
        3 => pn::block_text(n),
        1 => pn::change_text(n),
        2 => mlib::pn(n),
        2 => proptest::sample::select(named.clone()),
        2 => (proptest::sample::select(named), vec(0u8..6, 1..9)).prop_map(|(r, coins)| {
            r.chars()
                .zip(coins.iter().cycle())
                .map(|(c, k)| match k { 0 => 'x', 1 => '*', _ => c })
                .collect()
        }),
        3 => (proptest::sample::select(titles), vec(any::<u8>(), 1..6))
            .prop_map(|(t, coins)| mlib::recase(&t, &coins)),
    ];
    (vec(one, 3..9), vec((any::<Index>(), any::<u8>()), 0..4))
        .prop_map(|(mut texts, more)| {
            // ... and texts like each of those
            for (i, how) in more {
                let t = texts[i.index(texts.len())].clone();
                texts.push(match how % 5 {
                    0 => t.to_lowercase(),
                    1 => t.to_uppercase(),
                    2 => format!("{} ", t),
                    3 => t.chars().skip(1).collect(),
                    _ => t.chars().rev().collect(),
                });
            }
            texts
        })
        .boxed()
}

fn strategy() -> BoxedStrategy<Case> {
    let n = prop_oneof![6 => 2usize..=8, 3 => 9usize..=20, 2 => 21usize..=40];
    let lib = prop_oneof![2 => Just(vec![]), 1 => vec(mlib::lib(5), 1..3)];
    (n, lib)
        .prop_flat_map(|(n, libs)| {
            let call = (
                0u8..KINDS,
                0u8..12,
                0u8..12,
                prop_oneof![4 => -40i16..40, 1 => any::<i16>()],
            )
                .prop_map(|(kind, a, b, k)| Call_ { kind, a, b, k });
            // Few kinds of calls, so that each is made again and again
            let few = vec(0u8..KINDS, 1..5);
            let calls = (few, vec((call, any::<Index>()), 8..70)).prop_map(|(few, calls)| {
                calls
                    .into_iter()
                    .map(|(mut c, i)| {
                        if c.kind % 4 > 0 {
                            c.kind = few[i.index(few.len())];
                        }
                        c
                    })
                    .collect::<Vec<_>>()
            });
            rows(n).prop_flat_map(move |rows| {
                (
                    Just(rows.clone()),
                    texts(n, rows, &libs),
                    Just(libs.clone()),
                    calls.clone(),
                    (1usize..40).prop_map(move |m| vec![n, n + 1, m]),
                )
            })
        })
        .prop_map(|(rows, texts, libs, calls, stages)| Case {
            rows,
            stages,
            texts,
            libs,
            calls,
        })
        .boxed()
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--other-history") {
        be_other()
    }
    vcore::main(Property {
        id: "C38",
        facets: vec![Facet::random(
            "histories",
            12_000,
            200_000,
            "three kinds of calls, with eight or more results",
            |_| strategy(),
            check,
        )],
        assumptions: vec![],
    })
}
