//! C34: a touch put together from a method's leads and calls rings exactly the changes written.

#[path = "../bf.rs"]
mod bf;
#[path = "../pat.rs"]
mod pat;
#[path = "../pn.rs"]
mod pn;

use bellframe::{
    music::Regex, row::RowAccumulator, AnnotBlock, Block, Call, IncompatibleStages, Method,
    PlaceNot, PnBlock, Row, RowBuf,
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeSet, HashMap, HashSet};
use vcore::{ensure, ensure_eq, gen, Facet, Obs, Property};

type P = Vec<usize>;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Lead {
    /// 0: plain, 1: bob, 2: single
    call: u8,
    /// The call comes this many changes before the end of the lead, as far as it fits
    early: u8,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    n: usize,
    lead: Vec<P>,
    /// The changes of the bob and of the single
    calls: [Vec<P>; 2],
    touch: Vec<Lead>,
    parts: usize,
    /// The first lead of each part starts at this row
    snap: u16,
    /// The touch is cut off here
    finish: u16,
    start: P,
    music: Vec<pat::E>,
}

type Piece = AnnotBlock<Option<String>>;

/// A piece of the touch as the composer writes it: part of a lead (from, to), or a call
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Part {
    Lead(usize, usize),
    Call(usize),
}

fn e<T>(r: Result<T, IncompatibleStages>) -> Result<T, String> {
    r.map_err(|_| "values of one stage were refused as of different stages".to_owned())
}

fn pn_block(n: usize, changes: &[P]) -> Result<PnBlock, String> {
    PnBlock::from_vec(changes.iter().map(|p| pn::build(p, n)).collect()).map_err(|e| e.to_string())
}

fn check(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let (n, len) = (c.n, c.lead.len());
    // What is written
    let mut plan: Vec<Part> = vec![];
    for (i, l) in c.touch.iter().enumerate() {
        let from = if i == 0 { c.snap as usize % len } else { 0 };
        let call = (l.call as usize)
            .checked_sub(1)
            .filter(|&k| from + c.calls[k].len() <= len);
        match call {
            None => plan.push(Part::Lead(from, len)),
            Some(k) => {
                let covers = c.calls[k].len();
                let end = len - (l.early as usize).min(len - covers - from);
                if from < end - covers {
                    plan.push(Part::Lead(from, end - covers));
                }
                plan.push(Part::Call(k));
                if end < len {
                    plan.push(Part::Lead(end, len));
                }
            }
        }
    }
    // Model: the changes, one after another
    let mut changes: Vec<&P> = vec![];
    let mut labels: Vec<Option<String>> = vec![];
    for _ in 0..c.parts {
        for p in &plan {
            match *p {
                Part::Lead(a, b) => {
                    changes.extend(&c.lead[a..b]);
                    labels.extend((a..b).map(|i| (i == 0).then(|| "LE".to_owned())));
                }
                Part::Call(k) => {
                    changes.extend(&c.calls[k]);
                    labels.extend(
                        (0..c.calls[k].len()).map(|i| (i == 0).then(|| "-s"[k..k + 1].to_owned())),
                    );
                }
            }
        }
    }
    let mut rows = vec![c.start.clone()];
    for ch in &changes {
        rows.push(gen::mul(rows.last().unwrap(), &gen::change_perm(n, ch)));
    }
    let total = changes.len();
    // The library's pieces
    let start = bf::row(&c.start);
    let mut method = Method::with_lead_end("Made Up".to_owned(), &pn_block(n, &c.lead)?);
    method.set_lead_end_label();
    let calls = [
        Call::le_bob(pn_block(n, &c.calls[0])?),
        Call::le_single(pn_block(n, &c.calls[1])?),
    ];
    for (k, call) in calls.iter().enumerate() {
        ensure_eq!(
            (call.cover_len(), call.len()),
            (c.calls[k].len(), c.calls[k].len()),
            "lengths of call {}",
            k
        );
    }
    let call_pieces: Vec<Piece> = calls
        .iter()
        .map(|k| {
            k.block()
                .clone_map_annots_with_index(|i, _| (i == 0).then(|| k.notation().to_string()))
        })
        .collect();
    // Where the label of the lead end is put is C15's business; here it marks the first row of a lead
    let first = method.first_lead();
    let lead_piece: Piece =
        first.clone_map_annots_with_index(|i, _| (i == 0).then(|| "LE".to_owned()));
    let add = |to: &mut Piece, p: &Part| -> Result<(), String> {
        match *p {
            Part::Lead(0, b) if b == len => e(to.extend(&lead_piece)),
            Part::Lead(a, b) if b == len => e(to.extend_range(&lead_piece, a..)),
            Part::Lead(0, b) => e(to.extend_range(&lead_piece, ..b)),
            Part::Lead(a, b) => e(to.extend_range(&lead_piece, a..=b - 1)),
            Part::Call(k) => e(to.extend(&call_pieces[k])),
        }
    };
    let mut part: Piece = AnnotBlock::empty(bf::stage(n));
    for p in &plan {
        add(&mut part, p)?;
    }
    // 1: piece by piece from rounds, then moved to the start
    let mut touch: Piece = AnnotBlock::empty(bf::stage(n));
    for _ in 0..c.parts {
        for p in &plan {
            add(&mut touch, p)?;
        }
    }
    e(touch.pre_multiply(&start))?;
    let is_touch = |b: &Piece, what: &str| -> Result<(), String> {
        let got = bf::ssv_rows(b.row_vec());
        if got != rows {
            let i = got
                .iter()
                .zip(&rows)
                .position(|(a, b)| a != b)
                .unwrap_or(got.len().min(rows.len()));
            return Err(format!(
                "{}: {} rows instead of {}, different from row {} on: {:?} instead of {:?} ({:?} by {} parts)",
                what,
                got.len(),
                rows.len(),
                i,
                got.get(i),
                rows.get(i),
                plan,
                c.parts
            ));
        }
        ensure_eq!(b.len(), total, "{}: length", what);
        let got: Vec<Option<String>> = b.annots().cloned().collect();
        ensure_eq!(
            got,
            labels,
            "{}: annotations of {:?} by {} parts",
            what,
            plan,
            c.parts
        );
        bf::is_row(b.leftover_row(), &rows[total], what)
    };
    is_touch(&touch, "touch assembled piece by piece")?;
    // 2: the first part repeated
    let mut repeated = part.clone();
    e(repeated.pre_multiply(&start))?;
    for _ in 1..c.parts {
        repeated.extend_from_within(0..part.len());
    }
    is_touch(&repeated, "first part repeated within itself")?;
    ensure!(
        repeated == touch,
        "the touch assembled in two ways isn't equal"
    );
    // 3: the part rung over and over
    let over: Vec<(P, usize, Option<String>)> = e(part.repeat_iter(start.clone()))?
        .take(total)
        .map(|(r, i, a)| Ok((bf::valid(&r)?, i, a.clone())))
        .collect::<Result<_, String>>()?;
    for (i, (r, k, a)) in over.iter().enumerate() {
        ensure!(
            *r == rows[i] && *k == i % part.len() && *a == labels[i],
            "row {} of the part rung over and over is {:?}, row {} of the part, labelled {:?}; should be {:?}, {:?}",
            i,
            r,
            k,
            a,
            rows[i],
            labels[i]
        );
    }
    // 4: all of the changes as one block
    let all = pn_block(n, &changes.iter().map(|p| p.to_vec()).collect::<Vec<_>>())?;
    let plain: Block = e(all.to_block(start.clone()))?;
    ensure!(
        plain.row_vec() == touch.row_vec(),
        "the changes written out ring other rows than the touch"
    );
    ensure!(
        e(all.to_rows(start.clone()))? == *touch.row_vec(),
        "the rows of the changes differ from those of the touch"
    );
    // 5: part heads
    let part_head = part.leftover_row().to_owned();
    // (a group which fits in memory)
    let order = gen::order(&bf::valid(&part_head)?);
    let heads = if order.saturating_mul(n as u128) < 20_000_000 {
        Some(e(Row::least_group_containing([part_head.as_row()]))?)
    } else {
        obs.label("part heads without end");
        None
    };
    for k in 0..c.parts {
        let head = part_head.pow_u(k);
        ensure!(
            heads.as_ref().map_or(true, |h| h.contains(&head)),
            "part head {} isn't a power of the first, {}",
            head,
            part_head
        );
        let from_start = start.as_row() * head.as_row();
        for (i, r) in part.rows().enumerate() {
            let (want, got) = (&rows[k * part.len() + i], from_start.as_row() * r);
            bf::is_row(&got, want, &format!("row {} of part {}", i, k))?;
        }
    }
    // 6: heads of leads by accumulating what leads and calls do
    let mut acc = RowAccumulator::new(start.clone());
    let mut at = 0;
    for p in (0..c.parts).flat_map(|_| &plan) {
        match *p {
            Part::Lead(a, b) => {
                let from = method.row_in_plain_lead(a);
                let to = if b == len {
                    method.lead_head()
                } else {
                    method.row_in_plain_lead(b)
                };
                e(acc.accumulate(&e(Row::solve_ax_equals_b(from, to))?))?;
                at += b - a;
            }
            Part::Call(k) => {
                e(acc.accumulate(calls[k].transposition()))?;
                at += calls[k].len();
            }
        }
        bf::is_row(
            acc.total(),
            &rows[at],
            &format!("row after {} changes, by transpositions", at),
        )?;
    }
    // Cut short
    let cut = c.finish as usize % (total + 1);
    let (left, right) = touch
        .clone()
        .split(cut)
        .ok_or("a touch wasn't cut at a row it has")?;
    ensure_eq!(
        bf::ssv_rows(left.row_vec()),
        &rows[..=cut],
        "rows up to {}",
        cut
    );
    ensure_eq!(
        bf::ssv_rows(right.row_vec()),
        &rows[cut..],
        "rows from {}",
        cut
    );
    let mut again = left.clone();
    if !right.is_empty() {
        e(again.extend(&right))?;
    }
    is_touch(&again, "touch cut and joined")?;
    // Proof: which rows come more than once (the leftover row is the next touch's)
    let mut seen: HashMap<&P, Vec<usize>> = HashMap::new();
    rows[..total]
        .iter()
        .enumerate()
        .for_each(|(i, r)| seen.entry(r).or_default().push(i));
    let real: HashSet<&Row> = touch.rows().collect();
    ensure_eq!(real.len(), seen.len(), "number of different rows");
    let sorted: BTreeSet<RowBuf> = touch.rows().map(|r| r.to_owned()).collect();
    ensure_eq!(sorted.len(), seen.len(), "number of different rows, sorted");
    let mut places: HashMap<RowBuf, Vec<usize>> = HashMap::new();
    touch
        .rows()
        .enumerate()
        .for_each(|(i, r)| places.entry(r.to_owned()).or_default().push(i));
    for (r, at) in &seen {
        ensure_eq!(places.get(&bf::row(r)), Some(at), "where {:?} is rung", r);
    }
    // Music
    let regex = pat::real(&c.music);
    let want: Vec<usize> = (0..total)
        .filter(|&i| pat::matches(&c.music, &rows[i]))
        .collect();
    let got: Vec<usize> = touch
        .rows()
        .enumerate()
        .filter(|(_, r)| regex.matches(r))
        .map(|(i, _)| i)
        .collect();
    ensure_eq!(got, want, "rows which match {}", regex);
    if n >= 4 {
        let runs = Regex::runs_front(bf::stage(n), 4);
        let run = |r: &P| {
            r[..4].windows(2).all(|w| w[1] == w[0] + 1)
                || r[..4].windows(2).all(|w| w[0] == w[1] + 1)
        };
        let want = rows[..total].iter().filter(|r| run(r)).count();
        ensure_eq!(
            touch
                .rows()
                .filter(|r| runs.iter().any(|x| x.matches(r)))
                .count(),
            want,
            "runs of four at the front"
        );
    }
    // The path of each bell, and the changes between the rows
    for b in [0, n / 2, n - 1] {
        let path: P = rows
            .iter()
            .map(|r| r.iter().position(|&x| x == b).unwrap())
            .collect();
        ensure_eq!(
            touch.full_path_of(bf::bell(b)),
            Some(path),
            "path of bell {}",
            b
        );
    }
    let mut odd = gen::is_odd(&c.start);
    for (i, (a, b)) in touch.all_rows().zip(touch.all_rows().skip(1)).enumerate() {
        let between = PlaceNot::pn_between(a, b)
            .ok_or_else(|| format!("no change between {} and {}", a, b))?;
        pn::is_pn(&between, changes[i], n, &format!("change {}", i))?;
        odd ^= (n - changes[i].len()) / 2 % 2 == 1;
        if i % 16 == 0 {
            let parity = b.to_owned().parity();
            ensure_eq!(parity.zero_or_one(), odd as u8, "parity of {}", b);
        }
    }
    let called = plan.iter().filter(|p| matches!(p, Part::Call(_))).count();
    let false_rows = total - seen.len();
    obs.label_if(called > 0, "with calls");
    obs.label_if(c.snap as usize % len > 0, "starts within a lead");
    obs.label_if(c.parts > 1, "several parts");
    obs.label_if(false_rows > 0, "false");
    obs.label_if(
        false_rows == 0 && rows[total] == c.start,
        "true round block",
    );
    obs.label_if(!want.is_empty(), "with music");
    obs.label_if(total > 256, "over 256 changes");
    obs.nontrivial_if(called > 0 && c.touch.len() >= 2 && n >= 4 && len >= 3);
    Ok(())
}

/// A lead: mirrored, or any changes
fn lead(n: usize) -> BoxedStrategy<Vec<P>> {
    let half = prop_oneof![30 => vec(gen::change(n), 1..8), if n > 100 { 0 } else { 1 } => vec(gen::change(n), 8..70)];
    (half, 0u8..4, gen::change(n))
        .prop_map(|(half, how, end)| {
            if how == 0 {
                return half;
            }
            let mut all = half.clone();
            all.extend(half.into_iter().rev().skip(1));
            all.push(end);
            all
        })
        .boxed()
}

fn strategy() -> BoxedStrategy<Case> {
    let n = prop_oneof![1 => 1usize..4, 10 => 4usize..=9, 3 => 10usize..=16, 1 => 17usize..40, 1 => proptest::sample::select(vec![65usize, 65, 65, 65, 65, 65, 129, 129, 257])];
    n.prop_flat_map(|n| {
        let call = move || prop_oneof![3 => vec(gen::change(n), 1), 1 => vec(gen::change(n), 2..4)];
        let one = prop_oneof![3 => Just(0u8), 2 => Just(1), 1 => Just(2)];
        let early = prop_oneof![3 => Just(0u8), 1 => 0..20u8];
        let leads = (one, early).prop_map(|(call, early)| Lead { call, early });
        let start = prop_oneof![3 => Just(gen::id(n)), 1 => gen::perm(n)];
        (
            lead(n),
            [call(), call()],
            vec(leads, 1..8),
            prop_oneof![3 => Just(1usize), 2 => 2..4usize, if n > 100 { 0 } else { 1 } => 4..7usize],
            prop_oneof![3 => Just(0u16), 1 => any::<u16>()],
            any::<u16>(),
            start,
            gen::perm(n).prop_flat_map(move |r| {
                prop_oneof![
                    pat::from_row(r.clone()),
                    pat::from_row(gen::id(n)),
                    pat::loose(n)
                ]
            }),
            Just(n),
        )
    })
    .prop_map(
        |(lead, calls, touch, parts, snap, finish, start, music, n)| Case {
            n,
            lead,
            calls,
            touch,
            parts,
            snap,
            finish,
            start,
            music,
        },
    )
    .boxed()
}

fn main() {
    vcore::main(Property {
        id: "C34",
        facets: vec![Facet::random(
            "touch",
            50_000,
            1_000_000,
            "two leads or more of three changes or more on four bells or more, with a call",
            |_| strategy(),
            check,
        )],
        assumptions: vec![],
    })
}
