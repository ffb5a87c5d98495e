//! C07: a row buffer behaves as a list of rows of one stage.

#[path = "../bf.rs"]
mod bf;

use std::ops::Bound;

use bellframe::SameStageVec;
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use vcore::{ensure, ensure_eq, gen, Facet, Obs, Property};

type P = Vec<usize>;

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum RangeForm {
    Half,
    Closed,
    To,
    ToClosed,
    From,
    Full,
    Bounds,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Push(P),
    Pop,
    Extend(Vec<P>),
    ExtendBuf(Vec<P>),
    ExtendSelf,
    ExtendTransposed(P, Vec<P>),
    ExtendRange(P, Vec<P>, usize, usize, RangeForm),
    ExtendWithin(P, usize, usize, RangeForm),
    /// A range which ends past the last row: `(itself?, rows, transposition, start, end, form)`
    BadRange(bool, Vec<P>, P, usize, usize, u8),
    PreMultiply(P),
    PreMultiplied(P),
    Split(usize, bool),
    Swap(usize, usize, usize),
    SwapFirst(usize, usize),
    SwapLast(usize, usize),
    Assign(usize, P),
    Rebuild,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    stage: usize,
    start: Vec<P>,
    ops: Vec<Op>,
    bell: usize,
    far: usize,
    ends: Vec<bool>,
}

/// Rows of `other`'s stage; an empty list has the given stage
fn buf(rows: &[P], stage: usize) -> SameStageVec {
    let n = rows.first().map_or(stage, |r| r.len());
    let mut v = SameStageVec::with_capacity(bf::stage(n), rows.len() / 2);
    for r in rows {
        v.push(&bf::row(r))
            .expect("rows of one stage can be pushed");
    }
    v
}

/// Call `f` with the range `lo..hi` written in some form
macro_rules! ranged {
    ($form:expr, $lo:expr, $hi:expr, $len:expr, |$r:ident| $call:expr) => {{
        let (lo, hi, len): (usize, usize, usize) = ($lo, $hi, $len);
        match $form {
            RangeForm::Closed if hi > lo => {
                let $r = lo..=hi - 1;
                $call
            }
            RangeForm::To if lo == 0 => {
                let $r = ..hi;
                $call
            }
            RangeForm::ToClosed if lo == 0 && hi > 0 => {
                let $r = ..=hi - 1;
                $call
            }
            RangeForm::From if hi == len => {
                let $r = lo..;
                $call
            }
            RangeForm::Full if lo == 0 && hi == len => {
                let $r = ..;
                $call
            }
            RangeForm::Bounds if lo > 0 => {
                let $r = (Bound::Excluded(lo - 1), Bound::Excluded(hi));
                $call
            }
            _ => {
                let $r = lo..hi;
                $call
            }
        }
    }};
}

/// Pick a valid range of `0..=len`, aligned to what its form can express
fn pick(form: RangeForm, a: usize, b: usize, len: usize) -> (usize, usize) {
    let (a, b) = (a % (len + 1), b % (len + 1));
    let (lo, hi) = (a.min(b), a.max(b));
    match form {
        RangeForm::To | RangeForm::ToClosed => (0, hi),
        RangeForm::From => (lo, len),
        RangeForm::Full => (0, len),
        _ => (lo, hi),
    }
}

fn compare(v: &SameStageVec, m: &[P], n: usize, c: &Case) -> Result<(), String> {
    ensure_eq!(v.stage().num_bells(), n, "stage");
    ensure_eq!(v.len(), m.len(), "length");
    ensure_eq!(v.is_empty(), m.is_empty(), "emptiness");
    for (i, want) in m.iter().enumerate() {
        let r = v
            .get(i)
            .ok_or_else(|| format!("no row at {} of {}", i, m.len()))?;
        bf::is_row(r, want, "get")?;
        bf::is_row(&v[i], want, "indexing")?;
    }
    for i in [
        m.len(),
        m.len() + 1,
        c.far.max(m.len()),
        usize::MAX,
        usize::MAX / n,
        (usize::MAX / n).saturating_add(1),
    ] {
        ensure!(v.get(i).is_none(), "a row exists at {} of {}", i, m.len());
        ensure!(
            v.clone().get_mut(i).is_none(),
            "a mutable row exists at {} of {}",
            i,
            m.len()
        );
        ensure!(
            vcore::panics(|| v[i].to_owned()).is_err(),
            "indexing gave a row at {} of {}",
            i,
            m.len()
        );
    }
    ensure_eq!(v.first().map(bf::idx).as_ref(), m.first(), "first row");
    ensure_eq!(v.last().map(bf::idx).as_ref(), m.last(), "last row");
    ensure_eq!(
        v.clone().first_mut().map(|r| bf::idx(r)).as_ref(),
        m.first(),
        "first mutable row"
    );
    ensure_eq!(
        v.clone().last_mut().map(|r| bf::idx(r)).as_ref(),
        m.last(),
        "last mutable row"
    );

    let fwd: Vec<P> = v.iter().map(bf::idx).collect();
    ensure_eq!(fwd, m, "rows in order");
    let fwd: Vec<P> = v.into_iter().map(bf::idx).collect();
    ensure_eq!(fwd, m, "rows in order (by reference)");
    let mut back: Vec<P> = v.iter().rev().map(bf::idx).collect();
    back.reverse();
    ensure_eq!(back, m, "rows in reverse order");
    // Both ends, with exact sizes
    let mut it = v.iter();
    let (mut lo, mut hi) = (0, m.len());
    let mut k = 0;
    loop {
        ensure_eq!(it.len(), hi - lo, "remaining length");
        ensure_eq!(it.size_hint(), (hi - lo, Some(hi - lo)), "size hint");
        ensure_eq!(it.clone().count(), hi - lo, "rows left");
        let from_back = c
            .ends
            .get(k % c.ends.len().max(1))
            .copied()
            .unwrap_or(false);
        k += 1;
        let got = if from_back { it.next_back() } else { it.next() };
        if lo == hi {
            ensure!(
                got.is_none() && it.next().is_none() && it.next_back().is_none(),
                "the iterator doesn't end"
            );
            break;
        }
        let want = if from_back { &m[hi - 1] } else { &m[lo] };
        ensure_eq!(got.map(bf::idx).as_ref(), Some(want), "row from one end");
        if from_back {
            hi -= 1
        } else {
            lo += 1
        }
    }
    let step = 1 + c.far % 3;
    ensure_eq!(
        v.iter()
            .skip(c.far % 5)
            .step_by(step)
            .map(bf::idx)
            .collect::<Vec<_>>(),
        m.iter()
            .skip(c.far % 5)
            .step_by(step)
            .cloned()
            .collect::<Vec<_>>(),
        "every {}th row",
        step
    );
    ensure_eq!(
        v.iter().nth(c.far % 6).map(bf::idx).as_ref(),
        m.get(c.far % 6),
        "nth row"
    );
    ensure_eq!(
        v.iter().last().map(bf::idx).as_ref(),
        m.last(),
        "last row iterated"
    );

    for b in 0..n {
        let want: P = m
            .iter()
            .map(|r| r.iter().position(|&x| x == b).unwrap())
            .collect();
        ensure_eq!(v.path_of(bf::bell(b)), Some(want), "path of bell {}", b);
    }
    for b in [n, n + 1, c.bell.max(n)] {
        ensure_eq!(
            v.path_of(bf::bell(b)),
            None,
            "path of bell {} on {} bells",
            b,
            n
        );
    }
    let fresh = buf(m, n);
    ensure!(
        &fresh == v && bf::hash(&fresh) == bf::hash(v),
        "a buffer of the same rows isn't equal"
    );
    ensure!(&v.clone() == v, "a clone isn't equal");
    if !m.is_empty() {
        let mut other = v.clone();
        other.pop();
        ensure!(&other != v, "a shorter buffer is equal");
    }
    let dbg = format!("{:?}", v);
    ensure!(
        m.iter().all(|r| dbg.contains(&gen::names(r))),
        "the debug form {} doesn't list the rows {:?}",
        dbg,
        m
    );
    Ok(())
}

fn outcome(
    r: Result<(), bellframe::IncompatibleStages>,
    ok: bool,
    what: &str,
) -> Result<(), String> {
    ensure!(r.is_ok() == ok, "{} returned {:?}", what, r);
    Ok(())
}

fn lefts(t: &P, rows: &[P]) -> Vec<P> {
    rows.iter().map(|r| gen::mul(t, r)).collect()
}

fn check(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let n = c.stage;
    let mut m: Vec<P> = c.start.clone();
    let mut v = buf(&m, n);
    if m.len() == 1 {
        let w = SameStageVec::from_row_buf(bf::row(&m[0]));
        ensure!(w == v, "from_row_buf differs from pushing the row");
    }
    ensure!(
        m.len() > 0 || v == SameStageVec::new(bf::stage(n)),
        "an empty buffer isn't new"
    );
    compare(&v, &m, n, c)?;
    let mut edits = 0;
    for (k, op) in c.ops.iter().enumerate() {
        if m.len() > 200 {
            break;
        }
        let before = m.len();
        let step = || -> Result<(), String> {
            match op {
                Op::Push(r) => {
                    let ok = r.len() == n;
                    outcome(v.push(&bf::row(r)), ok, "push")?;
                    if ok {
                        m.push(r.clone());
                    }
                }
                Op::Pop => {
                    let got = v.pop();
                    if let Some(r) = &got {
                        bf::valid(r)?;
                    }
                    ensure_eq!(got.map(|r| bf::idx(&r)), m.pop(), "popped row");
                }
                Op::Extend(rs) => {
                    let ok = rs.iter().all(|r| r.len() == n);
                    let rows: Vec<_> = rs.iter().map(|r| bf::row(r)).collect();
                    let res = match k % 4 {
                        0 => v.extend(&rows),
                        1 => v.extend(rows.iter().filter(|_| true)),
                        2 => v.extend(bf::hinted(&rows, k / 4 + rows.len())),
                        _ => v.extend(rows.clone()),
                    };
                    outcome(res, ok, "extend")?;
                    if ok {
                        m.extend(rs.iter().cloned());
                    }
                }
                Op::ExtendBuf(rs) => {
                    let w = buf(rs, n);
                    let ok = w.stage().num_bells() == n;
                    outcome(v.extend_from_buf(&w), ok, "extend_from_buf")?;
                    if ok {
                        m.extend(rs.iter().cloned());
                    }
                }
                Op::ExtendSelf => {
                    let w = v.clone();
                    outcome(v.extend_from_buf(&w), true, "extend_from_buf")?;
                    let d = m.clone();
                    m.extend(d);
                }
                Op::ExtendTransposed(t, rs) => {
                    let w = buf(rs, n);
                    let ok = t.len() == n && w.stage().num_bells() == n;
                    outcome(
                        v.extend_transposed(&bf::row(t), &w),
                        ok,
                        "extend_transposed",
                    )?;
                    if ok {
                        m.extend(lefts(t, rs));
                    }
                }
                Op::ExtendRange(t, rs, a, b, form) => {
                    let w = buf(rs, n);
                    let ok = t.len() == n && w.stage().num_bells() == n;
                    let (lo, hi) = pick(*form, *a, *b, rs.len());
                    let res = ranged!(form, lo, hi, rs.len(), |r| v.extend_range_transposed(
                        &bf::row(t),
                        &w,
                        r
                    ));
                    outcome(res, ok, "extend_range_transposed")?;
                    if ok {
                        m.extend(lefts(t, &rs[lo..hi]));
                    }
                }
                Op::ExtendWithin(t, a, b, form) => {
                    let ok = t.len() == n;
                    let (lo, hi) = pick(*form, *a, *b, m.len());
                    let res = ranged!(form, lo, hi, m.len(), |r| v
                        .extend_transposed_from_within(r, &bf::row(t)));
                    outcome(res, ok, "extend_transposed_from_within")?;
                    if ok {
                        let new = lefts(t, &m[lo..hi]);
                        m.extend(new);
                    }
                }
                Op::BadRange(own, rs, t, a, b, form) => {
                    let w = buf(rs, n);
                    let len = if *own { m.len() } else { w.len() };
                    // Just past the end, far past it, or so far that counting the bells overflows
                    let over = [
                        len + 1 + b % 4,
                        len + 1 + b % 40,
                        usize::MAX,
                        usize::MAX - b % 9,
                        (usize::MAX / n).saturating_add(1 + b % 9),
                        1 << (40 + b % 24),
                    ][*b % 6]
                        .max(len + 1);
                    let lo = if *a % 4 == 3 && *form == 0 {
                        over - 1
                    } else {
                        a % (len + 1)
                    };
                    let t = bf::row(t);
                    let res = vcore::panics(|| {
                        macro_rules! call {
                            ($r:expr) => {
                                if *own {
                                    v.extend_transposed_from_within($r, &t)
                                } else {
                                    v.extend_range_transposed(&t, &w, $r)
                                }
                            };
                        }
                        match form {
                            0 => call!(lo..over),
                            1 => call!(lo..=over),
                            2 => call!(..over),
                            3 => call!(..=over),
                            4 => call!((Bound::Excluded(lo), Bound::Included(over))),
                            _ => call!((Bound::Excluded(over), Bound::Unbounded)),
                        }
                    });
                    ensure!(
                        res.is_err(),
                        "extending by a range from {} to {} (form {}) of {} rows is accepted: {:?}",
                        lo,
                        over,
                        form,
                        len,
                        bf::ssv_rows(&v)
                    );
                    ensure_eq!(bf::ssv_rows(&v)[..m.len()], m[..], "rows after a bad range");
                    v = buf(&m, n);
                }
                Op::PreMultiply(t) => {
                    let ok = t.len() == n;
                    #[allow(deprecated)]
                    let res = if k % 2 == 0 {
                        v.pre_multiply(&bf::row(t))
                    } else {
                        v.permute(&bf::row(t))
                    };
                    outcome(res, ok, "pre_multiply")?;
                    if ok {
                        m = lefts(t, &m);
                    }
                }
                Op::PreMultiplied(t) => {
                    let ok = t.len() == n;
                    let w = v.pre_multiplied(&bf::row(t));
                    ensure!(w.is_ok() == ok, "pre_multiplied returned {:?}", w);
                    if let Ok(w) = w {
                        // The original keeps its rows (compared below when it goes first)
                        ensure_eq!(bf::ssv_rows(&v), m, "rows after pre_multiplied");
                        v = w;
                        m = lefts(t, &m);
                    }
                }
                Op::Split(i, left) => {
                    let far =
                        [*i, usize::MAX / n, (usize::MAX / n).saturating_add(1 + i)][(*i / 7) % 3];
                    let i = if far < 1000 { far % (m.len() + 2) } else { far };
                    match v.clone().split(i) {
                        None => ensure!(
                            i > m.len(),
                            "splitting at {} of {} gave nothing",
                            i,
                            m.len()
                        ),
                        Some((a, b)) => {
                            ensure!(
                                i <= m.len(),
                                "splitting at {} of {} gave {:?} and {:?}",
                                i,
                                m.len(),
                                a,
                                b
                            );
                            ensure_eq!(bf::ssv_rows(&a), m[..i], "left of a split");
                            ensure_eq!(bf::ssv_rows(&b), m[i..], "right of a split");
                            ensure!(
                                a.stage() == v.stage() && b.stage() == v.stage(),
                                "splitting changes the stage"
                            );
                            if *left && i > 0 {
                                v = a;
                                m.truncate(i);
                            } else if i < m.len() {
                                v = b;
                                m = m.split_off(i);
                            }
                        }
                    }
                }
                Op::Swap(i, a, b) => {
                    if !m.is_empty() {
                        let i = i % m.len();
                        v.get_mut(i).ok_or("no mutable row")?.swap(a % n, b % n);
                        m[i].swap(a % n, b % n);
                    }
                }
                Op::SwapFirst(a, b) => {
                    if let Some(r) = v.first_mut() {
                        r.swap(a % n, b % n);
                        m[0].swap(a % n, b % n);
                    }
                }
                Op::SwapLast(a, b) => {
                    if let Some(r) = v.last_mut() {
                        r.swap(a % n, b % n);
                        m.last_mut().unwrap().swap(a % n, b % n);
                    }
                }
                Op::Assign(i, p) => {
                    if !m.is_empty() {
                        let i = i % m.len();
                        let slot = v.get_mut(i).ok_or("no mutable row")?;
                        let rounds = bellframe::RowBuf::rounds(bf::stage(p.len()));
                        let ok = bf::row(p).mul_into_row(&rounds, slot).is_ok();
                        ensure_eq!(ok, p.len() == n, "writing a row into the buffer");
                        if ok {
                            m[i] = p.clone();
                        }
                    }
                }
                Op::Rebuild => {
                    v = unsafe {
                        SameStageVec::from_bell_vec_unchecked(
                            m.iter().flatten().map(|&b| bf::bell(b)).collect(),
                            bf::stage(n),
                        )
                    };
                }
            }
            Ok(())
        };
        match vcore::panics(step) {
            Ok(r) => r.map_err(|e| format!("step {} {:?}: {}", k, op, e))?,
            Err(e) => return Err(format!("step {} {:?} panicked: {}", k, op, e)),
        }
        compare(&v, &m, n, c)
            .map_err(|e| format!("after step {} {:?} (from {} rows): {}", k, op, before, e))?;
        edits += 1;
    }
    obs.label_if(m.is_empty(), "ends empty");
    obs.label_if(m.len() >= 10, "ends with ten or more rows");
    obs.nontrivial_if(edits >= 3 && n >= 3);
    Ok(())
}

fn form() -> BoxedStrategy<RangeForm> {
    use RangeForm::*;
    proptest::sample::select(vec![Half, Half, Closed, To, ToClosed, From, Full, Bounds]).boxed()
}

fn strategy(max_ops: usize) -> BoxedStrategy<Case> {
    prop_oneof![1 => Just(1usize), 8 => 2usize..=6, 3 => 7usize..=12, 1 => 13usize..=40, 1 => proptest::sample::select(vec![63usize, 64, 65, 70, 127, 128, 130, 255, 256, 257, 300])]
        .prop_flat_map(move |n| {
            // Mostly of stage n
            let row = move || prop_oneof![12 => gen::perm(n), 1 => gen::perm(n + 1), 1 => gen::any_perm()];
            let rows = move |m| {
                prop_oneof![
                    8 => vec(gen::perm(n), 0..m),
                    1 => vec(gen::perm(n + 1), 1..m),
                    1 => (1usize..9).prop_flat_map(move |k| vec(gen::perm(k), 1..m)),
                ]
            };
            let i = || prop_oneof![5 => 0usize..24, 1 => 0usize..150];
            // Mostly a few rows, sometimes many (all good up to some point)
            let many = move || {
                prop_oneof![
                    4 => vec(row(), 0..4),
                    1 => (vec(gen::perm(n), 0..40), vec(row(), 0..3)).prop_map(|(mut a, b)| { a.extend(b); a }),
                    // More rows than a byte counts (only of small stages, for the time it takes)
                    (n <= 8) as u32 * 2 => (vec(gen::perm(n), 1..6), 200usize..300, vec(row(), 0..2)).prop_map(|(a, k, b)| {
                        a.iter().cycle().take(k).cloned().chain(b).collect()
                    }),
                ]
            };
            let size = || prop_oneof![4 => Just(6usize), 1 => Just(40)];
            let op = prop_oneof![
                4 => row().prop_map(Op::Push),
                2 => Just(Op::Pop),
                3 => many().prop_map(Op::Extend),
                1 => size().prop_flat_map(rows).prop_map(Op::ExtendBuf),
                1 => Just(Op::ExtendSelf),
                1 => (row(), size().prop_flat_map(rows)).prop_map(|(t, r)| Op::ExtendTransposed(t, r)),
                3 => (row(), size().prop_flat_map(rows), i(), i(), form()).prop_map(|(t, r, a, b, f)| Op::ExtendRange(t, r, a, b, f)),
                3 => (row(), i(), i(), form()).prop_map(|(t, a, b, f)| Op::ExtendWithin(t, a, b, f)),
                1 => (any::<bool>(), vec(gen::perm(n), 0..6), gen::perm(n), i(), i(), 0u8..6).prop_map(|(o, r, t, a, b, f)| Op::BadRange(o, r, t, a, b, f)),
                1 => row().prop_map(Op::PreMultiply),
                1 => row().prop_map(Op::PreMultiplied),
                2 => (i(), any::<bool>()).prop_map(|(i, l)| Op::Split(i, l)),
                1 => (i(), i(), i()).prop_map(|(i, a, b)| Op::Swap(i, a, b)),
                1 => (i(), i()).prop_map(|(a, b)| Op::SwapFirst(a, b)),
                1 => (i(), i()).prop_map(|(a, b)| Op::SwapLast(a, b)),
                1 => (i(), row()).prop_map(|(i, p)| Op::Assign(i, p)),
                1 => Just(Op::Rebuild),
            ];
            (Just(n), prop_oneof![6 => vec(gen::perm(n), 0..6), 1 => vec(gen::perm(n), 0..if n < 13 { 70 } else { 20 }), if n < 13 { 1 } else { 0 } => (vec(gen::perm(n), 1..6), 250usize..270).prop_map(|(r, k)| r.iter().cycle().take(k).cloned().collect::<Vec<P>>())], vec(op, 0..max_ops), prop_oneof![5 => 0usize..50, 1 => any::<usize>()], prop_oneof![5 => 0usize..80, 1 => any::<usize>()], vec(any::<bool>(), 1..12))
        })
        .prop_map(|(stage, start, ops, bell, far, ends)| Case { stage, start, ops, bell, far, ends })
        .boxed()
}

/// Buffers of tens of thousands of rows
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Huge {
    base: Vec<P>,
    len: usize,
    how: usize,
    t: P,
    at: Vec<usize>,
}

fn check_huge(c: &Huge, obs: &mut Obs) -> Result<(), String> {
    let n = c.base[0].len();
    let mut m: Vec<P> = c.base.iter().cycle().take(c.len).cloned().collect();
    let mut v = SameStageVec::new(bf::stage(n));
    let what = [
        "push",
        "extend",
        "extend_from_buf",
        "from_bell_vec_unchecked",
        "extend_transposed_from_within",
    ][c.how % 5];
    match c.how % 5 {
        0 => m
            .iter()
            .try_for_each(|r| v.push(&bf::row(r)))
            .map_err(|e| e.to_string())?,
        1 => v
            .extend(m.iter().map(|r| bf::row(r)))
            .map_err(|e| e.to_string())?,
        2 => {
            let unit = buf(&c.base, n);
            while v.len() + unit.len() <= c.len {
                v.extend_from_buf(&unit).map_err(|e| e.to_string())?;
            }
            for r in &m[v.len()..] {
                v.push(&bf::row(r)).map_err(|e| e.to_string())?;
            }
        }
        3 => {
            v = unsafe {
                SameStageVec::from_bell_vec_unchecked(
                    m.iter().flatten().map(|&b| bf::bell(b)).collect(),
                    bf::stage(n),
                )
            }
        }
        _ => {
            // Doubled again and again
            v = buf(&c.base, n);
            m = c.base.clone();
            while m.len() < c.len {
                v.extend_transposed_from_within(.., &bf::row(&c.t))
                    .map_err(|e| e.to_string())?;
                let new = lefts(&c.t, &m);
                m.extend(new);
            }
        }
    }
    huge_is(&v, &m, &c.at, what)?;
    // Long ranges, and splits far in
    let len = m.len();
    let (a, b) = (c.at[0] % (len + 1), c.at[1] % (len + 1));
    let (lo, hi) = (a.min(b), a.max(b));
    let t = bf::row(&c.t);
    let mut w = SameStageVec::new(bf::stage(n));
    w.extend_range_transposed(&t, &v, lo..hi)
        .map_err(|e| e.to_string())?;
    huge_is(
        &w,
        &lefts(&c.t, &m[lo..hi]),
        &c.at,
        "extend_range_transposed",
    )?;
    let mut w = v.clone();
    w.extend_transposed_from_within(lo..hi, &t)
        .map_err(|e| e.to_string())?;
    let mut long = m.clone();
    long.extend(lefts(&c.t, &m[lo..hi]));
    huge_is(&w, &long, &c.at, "extend_transposed_from_within")?;
    huge_is(
        &v.pre_multiplied(&t).map_err(|e| e.to_string())?,
        &lefts(&c.t, &m),
        &c.at,
        "pre_multiplied",
    )?;
    let (x, y) = v
        .clone()
        .split(lo)
        .ok_or_else(|| format!("no split at {} of {}", lo, len))?;
    huge_is(&x, &m[..lo], &c.at, "split (left)")?;
    huge_is(&y, &m[lo..], &c.at, "split (right)")?;
    ensure!(
        v.clone().split(len + 1).is_none(),
        "a split past the end of {} rows",
        len
    );
    let popped = v.pop();
    ensure_eq!(
        popped.map(|r| bf::idx(&r)).as_ref(),
        m.last(),
        "row popped from {}",
        len
    );
    m.pop();
    huge_is(&v, &m, &c.at, "pop")?;
    obs.label(what);
    obs.label_if(len > 65_536, "over 65,536 rows");
    obs.nontrivial_if(len * n > 65_536);
    Ok(())
}

fn huge_is(v: &SameStageVec, m: &[P], at: &[usize], what: &str) -> Result<(), String> {
    let n = v.stage().num_bells();
    let short = |e: String| format!("{} rows after {}: {}", m.len(), what, e);
    ensure_eq!(v.len(), m.len(), "length after {}", what);
    for (i, (r, want)) in v.iter().zip(m).enumerate() {
        ensure!(
            r.bell_iter().map(|b| b.index()).eq(want.iter().copied()),
            "{} rows after {}: row {} is {}, expected {:?}",
            m.len(),
            what,
            i,
            r,
            want
        );
    }
    ensure_eq!(v.iter().count(), m.len(), "rows listed after {}", what);
    ensure_eq!(
        v.iter().rev().map(|r| r[0].index()).collect::<Vec<_>>(),
        m.iter().rev().map(|r| r[0]).collect::<Vec<_>>(),
        "trebles in reverse"
    );
    for &i in at.iter().chain(&[
        m.len(),
        m.len().saturating_sub(1),
        65_535,
        65_536,
        65_536 / n,
        65_535 / n + 1,
    ]) {
        match (v.get(i), m.get(i)) {
            (Some(r), Some(want)) => bf::is_row(r, want, "get").map_err(short)?,
            (None, None) => {}
            (got, want) => {
                return Err(short(format!(
                    "row {} is {:?}, expected {:?}",
                    i, got, want
                )))
            }
        }
    }
    let some = |b: &usize| n < 100 || at.iter().any(|a| a % n == *b) || *b == 0 || *b + 1 == n;
    for b in (0..n).filter(some) {
        let got = v
            .path_of(bf::bell(b))
            .ok_or_else(|| short(format!("no path of bell {}", b)))?;
        ensure_eq!(
            got.len(),
            m.len(),
            "length of the path of bell {} after {}",
            b,
            what
        );
        for (i, (&place, r)) in got.iter().zip(m).enumerate() {
            ensure!(
                r.get(place) == Some(&b),
                "{} rows after {}: bell {} is in place {} of row {}, not of {:?}",
                m.len(),
                what,
                b,
                place,
                i,
                r
            );
        }
    }
    Ok(())
}

fn huge() -> BoxedStrategy<Huge> {
    prop_oneof![1 => 1usize..=4, 4 => 5usize..=12, 1 => 13usize..=40]
        .prop_flat_map(|n| {
            let len = prop_oneof![
                1 => 0usize..40,
                3 => (65_536 / n).saturating_sub(4)..=65_536 / n + 40,
                3 => 65_536 / n..=140_000 / n,
                1 => Just(65_600usize.min(300_000 / n)),
            ];
            (
                vec(gen::perm(n), 1..8),
                len,
                0usize..5,
                gen::perm(n),
                vec(0usize..70_000, 2..6),
            )
        })
        .prop_map(|(base, len, how, t, at)| Huge {
            base,
            len,
            how,
            t,
            at,
        })
        .boxed()
}

/// A few rows of very many bells
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Wide {
    rows: Vec<gen::Giant>,
    t: gen::Giant,
    at: Vec<usize>,
    how: usize,
}

fn check_wide(c: &Wide, obs: &mut Obs) -> Result<(), String> {
    let base: Vec<P> = c.rows.iter().map(|r| r.perm()).collect();
    check_huge(
        &Huge {
            len: base.len(),
            base,
            how: c.how,
            t: c.t.perm(),
            at: c.at.clone(),
        },
        obs,
    )
}

fn wide() -> BoxedStrategy<Wide> {
    gen::giant_stage()
        .prop_flat_map(|n| {
            (
                vec(gen::giant_of(n), 1..5),
                gen::giant_of(n),
                vec(0usize..140_000, 2..6),
                0usize..5,
            )
        })
        .prop_map(|(rows, t, at, how)| Wide { rows, t, at, how })
        .boxed()
}

fn main() {
    vcore::main(Property {
        id: "C07",
        facets: vec![
            Facet::random(
                "history",
                40_000,
                1_200_000,
                "three or more operations on three or more bells",
                |_| strategy(14),
                check,
            ),
            Facet::random(
                "long-history",
                2_000,
                60_000,
                "three or more operations on three or more bells",
                |_| strategy(80),
                check,
            ),
            Facet::random(
                "huge",
                240,
                8_000,
                "a buffer of over 65,536 bells",
                |_| huge(),
                check_huge,
            ),
            Facet::random(
                "wide",
                160,
                5_000,
                "a buffer of over 65,536 bells",
                |_| wide(),
                check_wide,
            ),
        ],
        assumptions: vec![],
    })
}
