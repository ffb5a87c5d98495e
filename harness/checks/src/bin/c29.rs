//! C29: mixing stages is always reported with the two stages and changes nothing.
//!
//! Every operation with two (or more) staged operands is run on generated operands.  Each must
//! report a mismatch exactly when the stages differ, the report must name two of the stages which
//! differ, and after a report every operand and output must read as it did before.

#![allow(deprecated)]

#[path = "../bf.rs"]
mod bf;
#[path = "../pat.rs"]
mod pat;
#[path = "../pn.rs"]
mod pn;

use bellframe::{
    music::Regex,
    place_not::{InvalidPnBlockError, PnBlock},
    row::{same_stage_vec::ParseError, MulIntoError, RowAccumulator},
    AnnotBlock, IncompatibleStages, Mask, PlaceNot, Row, RowBuf, SameStageVec, Stage,
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use vcore::{ensure, ensure_eq, gen, Facet, Obs, Property};

type P = Vec<usize>;
type B = AnnotBlock<u16>;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    /// Rows of the left operand, all of one stage
    left: Vec<P>,
    /// Rows of the right operand, all of one stage
    right: Vec<P>,
    /// A third row (usually of one of those stages)
    third: P,
    /// The places of one change on each of the first two stages
    change_l: P,
    change_r: P,
    /// Which places the masks leave unfixed
    holes: Vec<bool>,
    at: usize,
}

/// The stages named by an error, judged by its text and by its value
fn names_two(e: &IncompatibleStages, stages: &[usize], what: &str) -> Result<(), String> {
    let s = e.to_string();
    for &a in stages {
        for &b in stages {
            if a == b {
                continue;
            }
            let made = IncompatibleStages::test_err(Stage::new(a), Stage::new(b)).err();
            if made.as_ref() == Some(e)
                && s.contains(&Stage::new(a).to_string())
                && s.contains(&Stage::new(b).to_string())
            {
                return Ok(());
            }
        }
    }
    Err(format!(
        "{}: on stages {:?}, the error says '{}' ({:?})",
        what, stages, s, e
    ))
}

fn differ(stages: &[usize]) -> bool {
    stages.iter().any(|s| *s != stages[0])
}

fn judge<T>(
    r: Result<T, IncompatibleStages>,
    stages: &[usize],
    what: &str,
) -> Result<Option<T>, String> {
    match (r, differ(stages)) {
        (Ok(v), false) => Ok(Some(v)),
        (Err(e), true) => names_two(&e, stages, what).map(|_| None),
        (Ok(_), true) => Err(format!(
            "{}: no mismatch reported on stages {:?}",
            what, stages
        )),
        (Err(e), false) => Err(format!(
            "{}: '{}' reported, but every stage is {}",
            what, e, stages[0]
        )),
    }
}

fn judge_panic<T>(r: Result<T, String>, stages: &[usize], what: &str) -> Result<(), String> {
    ensure_eq!(
        r.is_err(),
        differ(stages),
        "whether {} panics on stages {:?}",
        what,
        stages
    );
    Ok(())
}

fn row_is(r: &Row, want: &[usize], what: &str) -> Result<(), String> {
    bf::is_row(r, want, &format!("after a reported mismatch in {}", what))
}

fn buf(rows: &[P]) -> SameStageVec {
    let mut v = SameStageVec::new(bf::stage(rows[0].len()));
    for r in rows {
        v.push(&bf::row(r))
            .expect("a row of the buffer's own stage");
    }
    v
}

fn vec_is(v: &SameStageVec, want: &[P], what: &str) -> Result<(), String> {
    ensure_eq!(
        v.stage().num_bells(),
        want[0].len(),
        "stage of the buffer after {}",
        what
    );
    ensure_eq!(
        bf::ssv_rows(v),
        want,
        "rows of the buffer after a reported mismatch in {}",
        what
    );
    ensure_eq!(
        v.len(),
        want.len(),
        "length of the buffer after a reported mismatch in {}",
        what
    );
    Ok(())
}

fn block(rows: &[P]) -> B {
    AnnotBlock::with_annots_from_indices(buf(rows), |i| i as u16 + 7).expect("not empty")
}

fn block_is(b: &B, want: &[P], what: &str) -> Result<(), String> {
    vec_is(b.row_vec(), want, what)?;
    let annots: Vec<u16> = b.annots().copied().collect();
    let expected: Vec<u16> = (0..want.len() - 1).map(|i| i as u16 + 7).collect();
    ensure_eq!(
        annots,
        expected,
        "annotations of the block after a reported mismatch in {}",
        what
    );
    ensure_eq!(
        b.len(),
        want.len() - 1,
        "length of the block after {}",
        what
    );
    Ok(())
}

fn check(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let (pa, pb, pc) = (&c.left[0], &c.right[0], &c.third);
    let (n, m, k) = (pa.len(), pb.len(), pc.len());
    let ab = [n, m];
    let abc = [n, m, k];
    obs.label(if n == m {
        "equal stages"
    } else {
        "different stages"
    });
    obs.label_if(n == m && k != n, "only the third operand differs");
    obs.nontrivial_if(n != m || k != n);
    rows(c, &ab, &abc)?;
    sets(c)?;
    changes(c, &ab)?;
    masks(c, &ab)?;
    accumulator(c, &ab)?;
    buffers(c, &ab, &abc)?;
    blocks(c, &ab)?;
    stages(c)
}

fn rows(c: &Case, ab: &[usize], abc: &[usize]) -> Result<(), String> {
    let (pa, pb, pc) = (&c.left[0], &c.right[0], &c.third);
    let (a, b) = (bf::row(pa), bf::row(pb));
    let bc = [pb.len(), pc.len()];

    judge(a.mul_result(&b), ab, "mul_result")?;
    judge_panic(vcore::panics(|| &a * &b), ab, "&RowBuf * &RowBuf")?;
    judge_panic(vcore::panics(|| a.as_row() * &b), ab, "&Row * &RowBuf")?;
    judge_panic(vcore::panics(|| &a * b.as_row()), ab, "&RowBuf * &Row")?;
    judge_panic(vcore::panics(|| a.as_row() * b.as_row()), ab, "&Row * &Row")?;
    judge(Row::solve_ax_equals_b(&a, &b), ab, "solve_ax_equals_b")?;
    judge(Row::solve_xa_equals_b(&a, &b), ab, "solve_xa_equals_b")?;
    judge(a.tranposition_to(&b), ab, "tranposition_to")?;

    let mut out = bf::row(pc);
    if judge(a.mul_into(&b, &mut out), ab, "mul_into")?.is_none() {
        row_is(&out, pc, "mul_into (its output)")?;
    }
    let mut out = bf::row(pc);
    let r = a.mul_into_row(&b, &mut out);
    ensure_eq!(
        r.is_err(),
        differ(abc),
        "whether mul_into_row on stages {:?} fails",
        abc
    );
    if let Err(e) = r {
        row_is(&out, pc, "mul_into_row (its output)")?;
        match e {
            MulIntoError::RhsStage(e) => names_two(&e, ab, "mul_into_row (right-hand side)")?,
            MulIntoError::IntoStage(e) => {
                names_two(&e, &[pa.len(), pc.len()], "mul_into_row (output)").or_else(|x| {
                    // The result would be of the right-hand side's stage too
                    names_two(&e, &bc, "mul_into_row (output)").map_err(|_| x)
                })?
            }
        }
        let (s, (p, q)) = (
            e.to_string(),
            match e {
                MulIntoError::RhsStage(_) => (pa.len(), pb.len()),
                MulIntoError::IntoStage(_) => (pa.len(), pc.len()),
            },
        );
        ensure!(
            s.contains(&Stage::new(p).to_string()) && s.contains(&Stage::new(q).to_string()),
            "mul_into_row on stages {:?} says only '{}'",
            abc,
            s
        );
    }
    let mut out = bf::row(pb);
    if judge(a.inv_into(&mut out), ab, "inv_into")?.is_none() {
        row_is(&out, pb, "inv_into (its output)")?;
    }
    row_is(&a, pa, "the operations on rows (left operand)")?;
    row_is(&b, pb, "the operations on rows (right operand)")
}

fn sets(c: &Case) -> Result<(), String> {
    // The sets {left}, {right, third}
    let all: Vec<&P> = c
        .left
        .iter()
        .take(2)
        .chain(c.right.iter().take(2))
        .chain([&c.third])
        .collect();
    let stages: Vec<usize> = all.iter().map(|p| p.len()).collect();
    let made: Vec<RowBuf> = all.iter().map(|p| bf::row(p)).collect();
    judge(
        Row::is_group(made.iter().map(|r| r.as_row())),
        &stages,
        "is_group",
    )?;
    if differ(&stages) || stages[0] <= 4 {
        judge(
            Row::least_group_containing(made.iter().map(|r| r.as_row())),
            &stages,
            "least_group_containing",
        )?;
    }
    for cut in 1..made.len() {
        let parts = [&made[..cut], &made[cut..]];
        judge(
            Row::multi_cartesian_product(parts),
            &stages,
            "multi_cartesian_product",
        )?;
    }
    judge(
        Row::multi_cartesian_product([&made]),
        &stages,
        "multi_cartesian_product of one set",
    )?;
    let singles: Vec<&[RowBuf]> = made.chunks(1).collect();
    judge(
        Row::multi_cartesian_product(singles),
        &stages,
        "multi_cartesian_product of single rows",
    )?;
    for (r, p) in made.iter().zip(&all) {
        row_is(r, p, "the operations on sets")?;
    }
    Ok(())
}

fn changes(c: &Case, ab: &[usize]) -> Result<(), String> {
    let (n, m) = (ab[0], ab[1]);
    let (pl, pr) = (pn::build(&c.change_l, n), pn::build(&c.change_r, m));
    let pb = &c.right[0];
    let mut r = bf::row(pb);
    if judge(pl.permute(&mut r), ab, "PlaceNot::permute")?.is_none() {
        row_is(&r, pb, "PlaceNot::permute")?;
    }
    let r = bf::row(pb);
    judge(pl.permute_new(&r), ab, "PlaceNot::permute_new")?;
    row_is(&r, pb, "PlaceNot::permute_new")?;
    if n != m {
        ensure!(
            PlaceNot::pn_between(&bf::row(&c.left[0]), &r).is_none(),
            "a place notation between rows of {} and {} bells",
            n,
            m
        );
    }
    // A list with changes of the other stage at a generated place
    let mut list = vec![pl.clone(), pl.clone(), pl.clone(), pl.clone()];
    let at = c.at % 4;
    list[at] = pr.clone();
    let (x, y) = (PnBlock::from_vec(list.clone()), PnBlock::from_iter(list));
    for (r, what) in [(x, "PnBlock::from_vec"), (y, "PnBlock::from_iter")] {
        match r {
            Ok(b) => {
                ensure!(n == m, "{} takes changes on {} and {} bells", what, n, m);
                ensure_eq!(b.stage().num_bells(), n, "stage of {}", what);
            }
            Err(InvalidPnBlockError::IncompatibleStages(i, e)) => {
                names_two(&e, ab, what)?;
                // The first change is the one the others are compared to
                ensure_eq!(
                    i,
                    if at == 0 { 1 } else { at },
                    "index reported by {}",
                    what
                );
                let s = InvalidPnBlockError::IncompatibleStages(i, e).to_string();
                ensure!(
                    s.contains(&Stage::new(n).to_string())
                        && s.contains(&Stage::new(m).to_string()),
                    "{} says only '{}'",
                    what,
                    s
                );
            }
            Err(e) => return Err(format!("{} reports '{}'", what, e)),
        }
    }
    let b = PnBlock::from_vec(vec![pl.clone(), pl]).map_err(|e| e.to_string())?;
    judge(b.to_rows(bf::row(pb)), ab, "PnBlock::to_rows")?;
    judge(b.to_block::<u8>(bf::row(pb)), ab, "PnBlock::to_block")?;
    Ok(())
}

fn mask(p: &[usize], holes: &[bool]) -> Mask {
    Mask::fix_bells(
        bf::stage(p.len()),
        p.iter()
            .enumerate()
            .filter(|(i, x)| i == *x && !holes[*i % holes.len()])
            .map(|(_, x)| bf::bell(*x)),
    )
}

fn masks(c: &Case, ab: &[usize]) -> Result<(), String> {
    let (n, m) = (ab[0], ab[1]);
    let (pa, pb) = (&c.left[0], &c.right[0]);
    let (a, b) = (bf::row(pa), bf::row(pb));
    let pairs = [
        (Mask::full_row(&a), Mask::full_row(&b)),
        (mask(pa, &c.holes), mask(pb, &c.holes)),
        (Mask::empty(bf::stage(n)), Mask::empty(bf::stage(m))),
    ];
    for (x, y) in &pairs {
        let (sx, sy) = (x.to_string(), y.to_string());
        judge_panic(vcore::panics(|| x * b.as_row()), ab, "&Mask * &Row")?;
        judge_panic(vcore::panics(|| a.as_row() * y), ab, "&Row * &Mask")?;
        if n != m {
            ensure!(!x.matches(&b), "mask {} matches {}", x, b);
            ensure!(!y.matches(&a), "mask {} matches {}", y, a);
            ensure!(
                !x.is_subset_of(y) && !y.is_subset_of(x),
                "masks {} and {} are in a subset relation",
                x,
                y
            );
            ensure!(
                !x.is_compatible_with(y),
                "masks {} and {} are compatible",
                x,
                y
            );
            ensure!(
                !y.is_compatible_with(x),
                "masks {} and {} are compatible",
                y,
                x
            );
            ensure!(
                x.combine(y).is_none() && y.combine(x).is_none(),
                "masks {} and {} combine",
                x,
                y
            );
            let re = Regex::from(x.clone());
            ensure!(
                !re.matches(&b),
                "pattern {} of a mask on {} bells matches {}",
                re,
                n,
                b
            );
            ensure!(
                re.match_pattern(&b).is_none(),
                "pattern {} matches {}",
                re,
                b
            );
        }
        ensure_eq!(
            (x.to_string(), y.to_string()),
            (sx, sy),
            "masks after mixing stages"
        );
    }
    if n == m {
        let e = &pairs[2].0;
        ensure!(
            e.matches(&b) && e.is_compatible_with(&pairs[0].1),
            "the empty mask refuses a row of its stage"
        );
        ensure!(
            pairs[0].1.is_subset_of(e) && e.combine(&pairs[0].1).is_some(),
            "the empty mask refuses a mask of its stage"
        );
    }
    Ok(())
}

fn accumulator(c: &Case, ab: &[usize]) -> Result<(), String> {
    let (pa, pb) = (&c.left[0], &c.right[0]);
    let b = bf::row(pb);
    // One accumulator used again and again, so that a failure shows up in later steps
    let mut acc = RowAccumulator::new(bf::row(pa));
    let mut want = pa.clone();
    for round in 0..2 {
        let what = |s: &str| format!("{} (round {})", s, round);
        if judge(acc.accumulate(&b), ab, "accumulate")?.is_some() {
            want = gen::mul(&want, pb);
        }
        bf::is_row(acc.total(), &want, &what("total after accumulate"))?;
        if judge(acc.pre_accumulate(&b), ab, "pre_accumulate")?.is_some() {
            want = gen::mul(pb, &want);
        }
        bf::is_row(acc.total(), &want, &what("total after pre_accumulate"))?;
        for as_row in [false, true] {
            let r = vcore::panics(|| if as_row { acc *= b.as_row() } else { acc *= &b });
            judge_panic(r, ab, "accumulator *= row")?;
            if pa.len() == pb.len() {
                want = gen::mul(&want, pb);
            }
            bf::is_row(acc.total(), &want, &what("total after *="))?;
        }
        let own = bf::row(pa);
        judge(
            acc.accumulate(&own),
            &[pa.len()],
            "accumulate of its own stage",
        )?;
        want = gen::mul(&want, pa);
        bf::is_row(
            acc.total(),
            &want,
            &what("total after a row of its own stage"),
        )?;
    }
    row_is(&b, pb, "accumulation")
}

fn buffers(c: &Case, ab: &[usize], abc: &[usize]) -> Result<(), String> {
    let (l, r) = (&c.left, &c.right);
    let (pb, pc) = (&r[0], &c.third);
    let b = bf::row(pb);
    let third = bf::row(pc);
    let other = buf(r);
    let fresh = || buf(l);
    macro_rules! try_it {
        ($what:expr, $stages:expr, $v:ident => $e:expr) => {{
            let mut $v = fresh();
            if judge($e, $stages, $what)?.is_none() {
                vec_is(&$v, l, $what)?;
                // The buffer must still take rows of its own stage
                ensure!(
                    $v.push(&bf::row(&l[0])).is_ok(),
                    "a buffer refuses its own stage after {}",
                    $what
                );
                ensure_eq!(
                    $v.last().map(bf::idx),
                    Some(l[0].clone()),
                    "row pushed after {}",
                    $what
                );
            }
        }};
    }
    try_it!("push", ab, v => v.push(&b));
    // Some rows of the right stage first, and some after
    let mut mixed: Vec<RowBuf> = l.iter().map(|p| bf::row(p)).collect();
    mixed.insert(c.at % (mixed.len() + 1), b.clone());
    try_it!("extend (mixed)", ab, v => v.extend(&mixed));
    try_it!("extend", ab, v => v.extend(other.iter().map(Row::to_owned)));
    try_it!("extend_from_buf", ab, v => v.extend_from_buf(&other));
    try_it!("extend_transposed", abc, v => v.extend_transposed(&third, &other));
    let (lo, hi) = (c.at % (r.len() + 1), r.len());
    try_it!("extend_range_transposed", abc, v => v.extend_range_transposed(&third, &other, lo..hi));
    let within = c.at % l.len()..l.len();
    try_it!("extend_transposed_from_within", ab, v => v.extend_transposed_from_within(within, &b));
    try_it!("permute", ab, v => v.permute(&b));
    try_it!("pre_multiply", ab, v => v.pre_multiply(&b));
    try_it!("pre_multiplied", ab, v => v.pre_multiplied(&b));
    vec_is(&other, r, "operations on buffers (the other operand)")?;
    row_is(&third, pc, "operations on buffers (the transposition)")?;

    // Empty buffers have a stage too, on either side
    let none = SameStageVec::new(bf::stage(pb.len()));
    try_it!("extend_from_buf (of no rows)", ab, v => v.extend_from_buf(&none));
    try_it!("extend_transposed (of no rows)", abc, v => v.extend_transposed(&third, &none));
    try_it!("extend_range_transposed (of no rows)", abc, v => v.extend_range_transposed(&third, &none, ..));
    try_it!("extend_range_transposed (an empty range)", abc, v => v.extend_range_transposed(&third, &other, hi..hi));
    try_it!("extend_transposed_from_within (an empty range)", ab, v => v.extend_transposed_from_within(0..0, &b));
    let n = ab[0];
    macro_rules! try_empty {
        ($what:expr, $stages:expr, $v:ident => $e:expr) => {{
            let mut $v = SameStageVec::with_capacity(bf::stage(n), c.at);
            if judge($e, $stages, $what)?.is_none() {
                ensure!(
                    $v.is_empty() && $v.len() == 0,
                    "an empty buffer isn't after a mismatch in {}",
                    $what
                );
                ensure_eq!(
                    $v.stage().num_bells(),
                    n,
                    "stage of an empty buffer after {}",
                    $what
                );
                ensure!(
                    $v.push(&bf::row(&l[0])).is_ok(),
                    "an empty buffer refuses its own stage after {}",
                    $what
                );
                ensure_eq!(bf::ssv_rows(&$v), l[..1], "rows pushed after {}", $what);
            }
        }};
    }
    try_empty!("push to no rows", ab, v => v.push(&b));
    try_empty!("extend of no rows", ab, v => v.extend(other.iter().map(Row::to_owned)));
    try_empty!("extend of no rows (mixed)", ab, v => v.extend(&mixed));
    try_empty!("extend_from_buf to no rows", ab, v => v.extend_from_buf(&other));
    try_empty!("extend_from_buf of no rows to no rows", ab, v => v.extend_from_buf(&none));
    try_empty!("extend_transposed to no rows", abc, v => v.extend_transposed(&third, &other));
    try_empty!("extend_transposed of no rows to no rows", abc, v => v.extend_transposed(&third, &none));
    try_empty!("extend_range_transposed to no rows", abc, v => v.extend_range_transposed(&third, &other, lo..hi));
    try_empty!("extend_transposed_from_within no rows", ab, v => v.extend_transposed_from_within(.., &b));
    try_empty!("permute no rows", ab, v => v.permute(&b));
    try_empty!("pre_multiply no rows", ab, v => v.pre_multiply(&b));
    try_empty!("pre_multiplied no rows", ab, v => v.pre_multiplied(&b));

    // The same rows as text, for stages with names for each bell
    if ab.iter().all(|&s| s <= gen::NAMES.len()) {
        let mut lines: Vec<String> = l.iter().map(|p| gen::names(p)).collect();
        let at = c.at % (lines.len() + 1);
        lines.insert(at, gen::names(pb));
        let s = lines.join("\n");
        let got = SameStageVec::parse(&s);
        let as_block = B::parse(&s);
        ensure_eq!(
            got.is_ok(),
            ab[0] == ab[1],
            "whether the rows {:?} parse",
            s
        );
        ensure_eq!(
            as_block.is_ok(),
            ab[0] == ab[1],
            "whether the block {:?} parses",
            s
        );
        if let Err(e) = got {
            let bad_line = if at == 0 { 2 } else { at + 1 };
            match &e {
                ParseError::IncompatibleStages {
                    line_num,
                    first_stage,
                    different_stage,
                } => {
                    let (f, d) = if at == 0 {
                        (ab[1], ab[0])
                    } else {
                        (ab[0], ab[1])
                    };
                    ensure_eq!(
                        (
                            *line_num,
                            first_stage.num_bells(),
                            different_stage.num_bells()
                        ),
                        (bad_line, f, d),
                        "line, first and different stages of {:?}",
                        s
                    );
                    let text = e.to_string();
                    ensure!(
                        [f, d]
                            .iter()
                            .all(|&x| text.contains(&Stage::new(x).to_string())),
                        "parsing {:?} says only '{}'",
                        s,
                        text
                    );
                }
                e => return Err(format!("parsing {:?} reports '{}'", s, e)),
            }
        }
    }
    Ok(())
}

fn blocks(c: &Case, ab: &[usize]) -> Result<(), String> {
    let (l, r) = (&c.left, &c.right);
    let b = bf::row(&r[0]);
    let other = block(r);
    macro_rules! try_it {
        ($what:expr, $v:ident => $e:expr) => {{
            let mut $v = block(l);
            if judge($e, ab, $what)?.is_none() {
                block_is(&$v, l, $what)?;
            }
        }};
    }
    try_it!("Block::permute", v => v.permute(&b));
    try_it!("Block::pre_multiply", v => v.pre_multiply(&b));
    try_it!("Block::extend", v => v.extend(&other));
    let at = c.at % r.len();
    try_it!("Block::extend_range", v => v.extend_range(&other, at..));
    try_it!("Block::extend_range (up to)", v => v.extend_range(&other, ..at));
    // Blocks of no rows but the leftover one
    let bare = B::empty(bf::stage(ab[1]));
    try_it!("Block::extend (of a bare block)", v => v.extend(&bare));
    try_it!("Block::extend_range (of a bare block)", v => v.extend_range(&bare, ..));
    try_it!("Block::extend_range (an empty range)", v => v.extend_range(&other, at..at));
    let mut v = B::empty(bf::stage(ab[0]));
    if judge(v.extend(&other), ab, "extending a bare block")?.is_none() {
        ensure!(
            v.len() == 0 && bf::ssv_rows(v.row_vec()) == [gen::id(ab[0])],
            "a bare block became {:?}",
            v
        );
    }
    let mut v = B::empty(bf::stage(ab[0]));
    if judge(v.extend(&bare), ab, "extending a bare block by another")?.is_none() {
        ensure!(
            v.len() == 0 && bf::ssv_rows(v.row_vec()) == [gen::id(ab[0])],
            "a bare block became {:?}",
            v
        );
    }
    let mut v = B::empty(bf::stage(ab[0]));
    if judge(v.pre_multiply(&b), ab, "transposing a bare block")?.is_none() {
        ensure!(
            v.len() == 0 && bf::ssv_rows(v.row_vec()) == [gen::id(ab[0])],
            "a bare block became {:?}",
            v
        );
    }
    let v = block(l);
    judge(
        v.repeat_iter(b.clone()).map(|_| ()),
        ab,
        "Block::repeat_iter",
    )?;
    block_is(&v, l, "Block::repeat_iter")?;
    block_is(&other, r, "operations on blocks (the other operand)")
}

fn stages(c: &Case) -> Result<(), String> {
    let all: Vec<usize> = c
        .left
        .iter()
        .chain(&c.right)
        .chain([&c.third])
        .map(|p| p.len())
        .collect();
    let (n, m) = (all[0], c.right[0].len());
    judge(
        IncompatibleStages::test_err(Stage::new(n), Stage::new(m)),
        &[n, m],
        "test_err",
    )?;
    // Folding over all the stages fails at the first one which isn't that of the first
    let mut opt = None;
    for (i, &s) in all.iter().enumerate() {
        judge(
            IncompatibleStages::test_err_opt(&mut opt, Stage::new(s)),
            &[n, s],
            "test_err_opt",
        )?;
        ensure_eq!(
            opt,
            Some(Stage::new(n)),
            "the remembered stage after {} stages",
            i + 1
        );
    }
    // Rows can't be extended downwards
    let mut r = bf::row(&c.left[0]);
    let res = vcore::panics(|| r.extend_to_stage(Stage::new(m)));
    ensure_eq!(
        res.is_err(),
        m < n,
        "whether extending a row of {} bells to {} panics",
        n,
        m
    );
    let mut want = c.left[0].clone();
    want.extend(n..m);
    bf::is_row(
        &r,
        &want,
        &format!("a row of {} bells extended to {}", n, m),
    )
}

fn strategy() -> BoxedStrategy<Case> {
    let stage = || prop_oneof![10 => gen::stage(), 1 => gen::wide_stage()];
    (stage(), stage(), stage(), 0u8..10)
        .prop_map(|(n, m, k, how)| match how {
            0 => (n, m, k),
            1 | 2 => (n, m, n),
            3 => (n, m, m),
            4 => (n, n, m),
            5 => (n, n + 1, n),
            6 => (n + 1, n, n),
            7 => (n, n * 2, n),
            8 => (n * 2, n, n * 2),
            _ => (n, n, n),
        })
        .prop_flat_map(|(n, m, k)| {
            (
                vec(gen::perm(n), 1..5),
                vec(gen::perm(m), 1..5),
                gen::perm(k),
                gen::change(n),
                gen::change(m),
                vec(any::<bool>(), 1..9),
                0usize..20,
            )
        })
        .prop_map(|(left, right, third, change_l, change_r, holes, at)| Case {
            left,
            right,
            third,
            change_l,
            change_r,
            holes,
            at,
        })
        .boxed()
}

/// Every triple of small stages, with fixed rows
fn small() -> Box<dyn Iterator<Item = Case>> {
    let row = |n: usize, rot: usize| -> P { (0..n).map(|i| (i + rot) % n).collect() };
    let change = |n: usize| -> P {
        if n % 2 == 0 {
            vec![]
        } else {
            vec![n - 1]
        }
    };
    Box::new((1..=9usize).flat_map(move |n| {
        (1..=9usize).flat_map(move |m| {
            (1..=9usize).flat_map(move |k| {
                (0..3usize).map(move |at| Case {
                    left: (0..=at).map(|i| row(n, i)).collect(),
                    right: (0..3 - at).map(|i| row(m, i + 1)).collect(),
                    third: row(k, 2),
                    change_l: change(n),
                    change_r: change(m),
                    holes: vec![true, false, false],
                    at,
                })
            })
        })
    }))
}

fn main() {
    vcore::main(Property {
        id: "C29",
        facets: vec![
            Facet::enumerated(
                "small stages",
                "two of the stages differ",
                |_| small(),
                check,
            ),
            Facet::random(
                "operations",
                80_000,
                1_500_000,
                "two of the stages differ",
                |_| strategy(),
                check,
            ),
        ],
        assumptions: vec![
            "Which of the two stages of an error is called left and which right isn't asserted.",
        ],
    })
}
