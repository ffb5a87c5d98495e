//! C09: a block behaves as annotated rows plus one leftover row.

#[path = "../bf.rs"]
mod bf;

use std::ops::Bound;

use bellframe::{AnnotBlock, AnnotRow, SameStageVec};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use vcore::{ensure, ensure_eq, gen, Facet, Obs, Property};

type P = Vec<usize>;
type B = AnnotBlock<u32>;

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum Form {
    Half,
    Closed,
    To,
    ToClosed,
    From,
    Full,
    Bounds,
}

/// How a block comes about: rows (the last is left over) and how its annotations are made
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Spec {
    rows: Vec<P>,
    make: u8,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Extend(Spec),
    ExtendRange(Spec, usize, usize, Form),
    ExtendBadRange(Spec, usize, usize),
    ExtendSelf,
    ExtendWithin(usize, usize, Form),
    ExtendOtherPart(usize, usize, Form),
    PreMultiply(P),
    Split(usize, bool),
    SplitAndJoin(usize),
    Map,
    MapWithIndex,
    CloneMap,
    SetAnnot(usize, u32),
    Rebuild,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    start: Spec,
    other: Spec,
    ops: Vec<Op>,
    bell: usize,
}

impl Case {
    /// Blocks longer than this don't grow any more (observing them all takes long)
    fn max_rows(&self) -> usize {
        if self.start.rows.len() > 50 || self.other.rows.len() > 50 {
            400
        } else {
            50
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
struct Model {
    rows: Vec<P>,
    annots: Vec<u32>,
    leftover: P,
}

impl Model {
    fn all(&self) -> Vec<P> {
        self.rows
            .iter()
            .cloned()
            .chain([self.leftover.clone()])
            .collect()
    }
    fn stage(&self) -> usize {
        self.leftover.len()
    }
    fn extend(&mut self, other: &Model, lo: usize, hi: usize) {
        let all = other.all();
        let t = gen::mul(&self.leftover, &gen::inv(&all[lo]));
        for i in lo..hi {
            self.rows.push(gen::mul(&t, &all[i]));
            self.annots.push(other.annots[i]);
        }
        self.leftover = gen::mul(&t, &all[hi]);
    }
}

fn ssv(rows: &[P]) -> SameStageVec {
    let mut v = SameStageVec::new(bf::stage(rows[0].len()));
    for r in rows {
        v.push(&bf::row(r)).unwrap();
    }
    v
}

fn build(s: &Spec, fresh: &mut u32) -> Result<(B, Model), String> {
    let n = s.rows[0].len();
    let (leftover, rows) = s.rows.split_last().unwrap();
    let mut m = Model {
        rows: rows.to_vec(),
        annots: vec![0; rows.len()],
        leftover: leftover.clone(),
    };
    let b = match s.make % 4 {
        0 => B::with_default_annots(ssv(&s.rows)),
        1 | 2 => {
            let base = *fresh;
            *fresh += 1000;
            for (i, a) in m.annots.iter_mut().enumerate() {
                *a = base + i as u32;
            }
            B::with_annots_from_indices(ssv(&s.rows), |i| base + i as u32)
                .ok_or("no block from a non-empty buffer")?
        }
        _ => {
            if rows.is_empty() && *leftover == gen::id(n) {
                B::empty(bf::stage(n))
            } else if n <= 33 {
                B::parse(
                    &s.rows
                        .iter()
                        .map(|r| gen::names(r))
                        .collect::<Vec<_>>()
                        .join("\n"),
                )
                .map_err(|e| e.to_string())?
            } else {
                B::with_default_annots(ssv(&s.rows))
            }
        }
    };
    Ok((b, m))
}

fn compare(b: &B, m: &Model, c: &Case) -> Result<(), String> {
    let n = m.stage();
    let len = m.rows.len();
    let all = m.all();
    ensure_eq!(b.stage().num_bells(), n, "stage");
    ensure_eq!(b.len(), len, "length");
    ensure_eq!(b.is_empty(), len == 0, "emptiness");
    let eff = all
        .iter()
        .map(|r| (0..n).rev().find(|&i| r[i] != i).map_or(1, |i| i + 1))
        .max()
        .unwrap();
    ensure_eq!(b.effective_stage().num_bells(), eff, "effective stage");
    ensure_eq!(
        b.row_vec().iter().map(bf::idx).collect::<Vec<_>>(),
        all,
        "row vector"
    );
    for r in b.row_vec() {
        bf::valid(r)?;
    }
    for (i, r) in all.iter().enumerate() {
        ensure_eq!(b.get_row(i).map(bf::idx).as_ref(), Some(r), "row {}", i);
    }
    for i in [len + 1, len + 2, usize::MAX] {
        ensure!(b.get_row(i).is_none(), "a row exists at {}", i);
    }
    for i in 0..len {
        ensure_eq!(b.get_annot(i), Some(&m.annots[i]), "annotation {}", i);
        ensure_eq!(
            b.clone().get_annot_mut(i).copied(),
            Some(m.annots[i]),
            "mutable annotation {}",
            i
        );
        let ar = b
            .get_annot_row(i)
            .ok_or_else(|| format!("no annotated row {}", i))?;
        ensure_eq!(bf::idx(ar.row()), m.rows[i], "row of annotated row {}", i);
        ensure_eq!(
            *ar.annot(),
            m.annots[i],
            "annotation of annotated row {}",
            i
        );
        ensure!(
            ar == AnnotRow::new(&bf::row(&m.rows[i]), &m.annots[i]),
            "annotated row {} isn't equal",
            i
        );
    }
    for i in [len, len + 1, usize::MAX] {
        ensure!(b.get_annot(i).is_none(), "an annotation exists at {}", i);
        ensure!(
            b.clone().get_annot_mut(i).is_none(),
            "a mutable annotation exists at {}",
            i
        );
        ensure!(
            b.get_annot_row(i).is_none(),
            "an annotated row exists at {}",
            i
        );
    }
    bf::is_row(b.first_row(), &all[0], "first row")?;
    bf::is_row(b.leftover_row(), &m.leftover, "leftover row")?;
    let first = b.first_annot_row().map(|r| (bf::idx(r.row()), *r.annot()));
    ensure_eq!(
        first,
        (len > 0).then(|| (m.rows[0].clone(), m.annots[0])),
        "first annotated row"
    );
    ensure_eq!(b.rows().map(bf::idx).collect::<Vec<_>>(), m.rows, "rows");
    ensure_eq!(b.rows().len(), len, "number of rows left to iterate");
    let mut back: Vec<P> = b.rows().rev().map(bf::idx).collect();
    back.reverse();
    ensure_eq!(back, m.rows, "rows backwards");
    ensure_eq!(
        b.all_rows().map(bf::idx).collect::<Vec<_>>(),
        all,
        "all rows"
    );
    ensure_eq!(
        b.all_rows().len(),
        len + 1,
        "number of all rows left to iterate"
    );
    ensure_eq!(
        b.annots().copied().collect::<Vec<_>>(),
        m.annots,
        "annotations"
    );
    let ars = b.annot_rows();
    let ars2 = ars.clone();
    for it in [ars.collect::<Vec<_>>(), ars2.collect::<Vec<_>>()] {
        let got: Vec<(P, u32)> = it.iter().map(|r| (bf::idx(r.row()), *r.annot())).collect();
        let want: Vec<(P, u32)> = m
            .rows
            .iter()
            .cloned()
            .zip(m.annots.iter().copied())
            .collect();
        ensure_eq!(got, want, "annotated rows");
    }
    for x in 0..n {
        let full: P = all
            .iter()
            .map(|r| r.iter().position(|&y| y == x).unwrap())
            .collect();
        let (l, f) = full.split_last().unwrap();
        ensure_eq!(
            b.path_of(bf::bell(x)),
            Some((f.to_vec(), *l)),
            "path of bell {}",
            x
        );
        ensure_eq!(
            b.full_path_of(bf::bell(x)),
            Some(full),
            "full path of bell {}",
            x
        );
    }
    for x in [n, c.bell.max(n)] {
        ensure!(
            b.path_of(bf::bell(x)).is_none() && b.full_path_of(bf::bell(x)).is_none(),
            "bell {} has a path on {}",
            x,
            n
        );
    }
    let again = B::with_annots_from_indices(ssv(&all), |i| m.annots[i]).unwrap();
    ensure!(
        &again == b && bf::hash(&again) == bf::hash(b),
        "a block of the same rows and annotations isn't equal"
    );
    ensure!(&b.clone() == b, "a clone isn't equal");
    ensure_eq!(
        b.clone()
            .into_row_vec()
            .iter()
            .map(bf::idx)
            .collect::<Vec<_>>(),
        all,
        "into_row_vec"
    );
    let shown = format!("{:?}", b);
    ensure!(
        all.iter().all(|r| shown.contains(&gen::names(r))),
        "debug form {} doesn't list the rows {:?}",
        shown,
        all
    );
    Ok(())
}

fn pick(form: Form, a: usize, b: usize, len: usize) -> (usize, usize) {
    let (a, b) = (a % (len + 1), b % (len + 1));
    let (lo, hi) = (a.min(b), a.max(b));
    match form {
        Form::To | Form::ToClosed => (0, hi),
        Form::From => (lo, len),
        Form::Full => (0, len),
        _ => (lo, hi),
    }
}

macro_rules! ranged {
    ($form:expr, $lo:expr, $hi:expr, $len:expr, |$r:ident| $call:expr) => {{
        let (lo, hi, len): (usize, usize, usize) = ($lo, $hi, $len);
        match $form {
            Form::Closed if hi > lo => {
                let $r = lo..=hi - 1;
                $call
            }
            Form::To if lo == 0 => {
                let $r = ..hi;
                $call
            }
            Form::ToClosed if lo == 0 && hi > 0 => {
                let $r = ..=hi - 1;
                $call
            }
            Form::From if hi == len => {
                let $r = lo..;
                $call
            }
            Form::Full if lo == 0 && hi == len => {
                let $r = ..;
                $call
            }
            Form::Bounds if lo > 0 => {
                let $r = (Bound::Excluded(lo - 1), Bound::Excluded(hi));
                $call
            }
            _ => {
                let $r = lo..hi;
                $call
            }
        }
    }};
}

fn check(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let mut fresh = 1000;
    let (mut b, mut m) = build(&c.start, &mut fresh)?;
    let (other_b, other_m) = build(&c.other, &mut fresh)?;
    compare(&b, &m, c)?;
    compare(&other_b, &other_m, c)?;
    let mut partial = false;
    for (k, op) in c.ops.iter().enumerate() {
        if m.rows.len() > c.max_rows() {
            break;
        }
        let n = m.stage();
        let len = m.rows.len();
        let step = || -> Result<(), String> {
            match op {
                Op::Extend(s) => {
                    let (ob, om) = build(s, &mut fresh)?;
                    let ok = om.stage() == n;
                    let r = b.extend(&ob);
                    ensure_eq!(
                        r.is_ok(),
                        ok,
                        "extend on {} bells by a block on {}",
                        n,
                        om.stage()
                    );
                    if ok {
                        m.extend(&om, 0, om.rows.len());
                    }
                    compare(&ob, &om, c).map_err(|e| format!("the block extended from: {}", e))?;
                }
                Op::ExtendRange(s, x, y, form) => {
                    let (ob, om) = build(s, &mut fresh)?;
                    let ok = om.stage() == n;
                    let l = om.rows.len();
                    let (lo, hi) = pick(*form, *x, *y, l);
                    let r = ranged!(form, lo, hi, l, |r| b.extend_range(&ob, r));
                    ensure_eq!(
                        r.is_ok(),
                        ok,
                        "extend_range on {} bells by a block on {}",
                        n,
                        om.stage()
                    );
                    if ok {
                        m.extend(&om, lo, hi);
                        partial |= hi - lo < l;
                    }
                    compare(&ob, &om, c).map_err(|e| format!("the block extended from: {}", e))?;
                }
                Op::ExtendOtherPart(x, y, form) => {
                    let ok = other_m.stage() == n;
                    let l = other_m.rows.len();
                    let (lo, hi) = pick(*form, *x, *y, l);
                    let r = ranged!(form, lo, hi, l, |r| b.extend_range(&other_b, r));
                    ensure_eq!(
                        r.is_ok(),
                        ok,
                        "extend_range on {} bells by a block on {}",
                        n,
                        other_m.stage()
                    );
                    if ok {
                        m.extend(&other_m, lo, hi);
                        partial |= hi - lo < l;
                    }
                }
                Op::ExtendBadRange(s, x, y) => {
                    let (ob, om) = build(s, &mut fresh)?;
                    let l = om.rows.len();
                    if om.stage() == n {
                        // A bound outside the other block is documented to panic
                        let (lo, hi) = (
                            x % (l + 3),
                            [
                                l + 1 + y % 3,
                                usize::MAX - y % 5,
                                usize::MAX / n,
                                1 << (40 + y % 24),
                            ][y / 3 % 4]
                                .max(l + 1),
                        );
                        let r = vcore::panics(|| match y / 12 % 4 {
                            0 => b.extend_range(&ob, lo..hi),
                            1 => b.extend_range(&ob, lo..=hi),
                            2 => b.extend_range(&ob, ..=hi),
                            _ => b.extend_range(&ob, (Bound::Excluded(hi), Bound::Unbounded)),
                        });
                        ensure!(
                            r.is_err(),
                            "extending by {}..{} of {} rows is accepted",
                            lo,
                            hi,
                            l
                        );
                    }
                }
                Op::ExtendSelf => {
                    let copy = b.clone();
                    b.extend(&copy).map_err(|e| e.to_string())?;
                    let copy = m.clone();
                    m.extend(&copy, 0, len);
                }
                Op::ExtendWithin(x, y, form) => {
                    let (lo, hi) = pick(*form, *x, *y, len);
                    ranged!(form, lo, hi, len, |r| b.extend_from_within(r));
                    let copy = m.clone();
                    m.extend(&copy, lo, hi);
                    partial |= hi - lo < len;
                }
                Op::PreMultiply(p) => {
                    let ok = p.len() == n;
                    #[allow(deprecated)]
                    let r = if k % 2 == 0 {
                        b.pre_multiply(&bf::row(p))
                    } else {
                        b.permute(&bf::row(p))
                    };
                    ensure_eq!(r.is_ok(), ok, "pre_multiply on {} bells by {:?}", n, p);
                    if ok {
                        for r in m.rows.iter_mut().chain([&mut m.leftover]) {
                            *r = gen::mul(p, r);
                        }
                    }
                }
                Op::Split(i, left) => {
                    let i = i % (len + 3);
                    match b.clone().split(i) {
                        None => ensure!(i > len, "splitting at {} of {} gave nothing", i, len),
                        Some((x, y)) => {
                            ensure!(
                                i <= len,
                                "splitting at {} of {} gave {:?} and {:?}",
                                i,
                                len,
                                x,
                                y
                            );
                            let all = m.all();
                            let lm = Model {
                                rows: m.rows[..i].to_vec(),
                                annots: m.annots[..i].to_vec(),
                                leftover: all[i].clone(),
                            };
                            let rm = Model {
                                rows: m.rows[i..].to_vec(),
                                annots: m.annots[i..].to_vec(),
                                leftover: m.leftover.clone(),
                            };
                            compare(&x, &lm, c)
                                .map_err(|e| format!("left of the split at {}: {}", i, e))?;
                            compare(&y, &rm, c)
                                .map_err(|e| format!("right of the split at {}: {}", i, e))?;
                            if *left {
                                b = x;
                                m = lm;
                            } else {
                                b = y;
                                m = rm;
                            }
                        }
                    }
                }
                Op::SplitAndJoin(i) => {
                    let i = i % (len + 1);
                    let (mut x, y) = b.clone().split(i).ok_or("splitting inside gave nothing")?;
                    x.extend(&y).map_err(|e| e.to_string())?;
                    ensure!(
                        x == b,
                        "splitting at {} and joining gives {:?}, not {:?}",
                        i,
                        x,
                        b
                    );
                }
                Op::Map => {
                    b = b.clone().map_annots(|a| a + 7);
                    m.annots.iter_mut().for_each(|a| *a += 7);
                }
                Op::MapWithIndex => {
                    b = b.clone().map_annots_with_index(|i, a| a + 3 * i as u32);
                    m.annots
                        .iter_mut()
                        .enumerate()
                        .for_each(|(i, a)| *a += 3 * i as u32);
                }
                Op::CloneMap => {
                    let s = b.clone_map_annots_with_index(|i, a| format!("{} {}", i, a));
                    let want: Vec<String> = m
                        .annots
                        .iter()
                        .enumerate()
                        .map(|(i, a)| format!("{} {}", i, a))
                        .collect();
                    ensure_eq!(
                        s.annots().cloned().collect::<Vec<_>>(),
                        want,
                        "mapped annotations"
                    );
                    ensure!(
                        s.row_vec() == b.row_vec(),
                        "mapping annotations changes the rows"
                    );
                }
                Op::SetAnnot(i, v) => {
                    if len > 0 {
                        *b.get_annot_mut(i % len).ok_or("no annotation to set")? = *v;
                        m.annots[i % len] = *v;
                    }
                }
                Op::Rebuild => {
                    let v = b.clone().into_row_vec();
                    let a: Vec<u32> = b.annots().copied().collect();
                    b = B::with_annots_from_indices(v, |i| a[i])
                        .ok_or("no block from a non-empty buffer")?;
                }
            }
            Ok(())
        };
        match vcore::panics(step) {
            Ok(r) => r.map_err(|e| format!("step {} {:?}: {}", k, op, e))?,
            Err(e) => return Err(format!("step {} {:?} panicked: {}", k, op, e)),
        }
        compare(&b, &m, c).map_err(|e| format!("after step {} {:?}: {}", k, op, e))?;
    }
    compare(&other_b, &other_m, c).map_err(|e| format!("the other block: {}", e))?;
    obs.label_if(partial, "extended by part of a block");
    obs.label_if(m.annots.iter().any(|a| *a > 0), "with annotations");
    obs.nontrivial_if(c.ops.len() >= 2 && m.rows.len() >= 2 && m.stage() >= 3);
    Ok(())
}

fn spec(n: usize) -> BoxedStrategy<Spec> {
    (prop_oneof![10 => gen::list(gen::perm(n), 1, 6, if n > 12 { 40 } else { 300 }), 1 => Just(vec![gen::id(n)]).boxed()], any::<u8>())
        .prop_map(|(rows, make)| Spec { rows, make })
        .boxed()
}

fn strategy(max: usize) -> BoxedStrategy<Case> {
    prop_oneof![10 => Just(1usize), 80 => 2usize..=6, 30 => 7usize..=12, 9 => 13usize..=40, 1 => prop_oneof![8 => 60usize..=140, 1 => 250usize..=300]]
        .prop_flat_map(move |n| {
            let other = prop_oneof![16 => spec(n), 1 => spec(n + 1), 1 => (1usize..9).prop_flat_map(spec)].boxed();
            let i = || prop_oneof![4 => 0usize..30, 1 => 0usize..900];
            let form = || {
                use Form::*;
                proptest::sample::select(vec![Half, Half, Closed, To, ToClosed, From, Full, Bounds])
            };
            let op = prop_oneof![
                2 => other.clone().prop_map(Op::Extend),
                4 => (other.clone(), i(), i(), form()).prop_map(|(s, a, b, f)| Op::ExtendRange(s, a, b, f)),
                2 => (i(), i(), form()).prop_map(|(a, b, f)| Op::ExtendOtherPart(a, b, f)),
                1 => (other.clone(), i(), i()).prop_map(|(s, a, b)| Op::ExtendBadRange(s, a, b)),
                1 => Just(Op::ExtendSelf),
                4 => (i(), i(), form()).prop_map(|(a, b, f)| Op::ExtendWithin(a, b, f)),
                2 => prop_oneof![8 => gen::perm(n), 1 => gen::perm(n + 1), 1 => gen::any_perm()].prop_map(Op::PreMultiply),
                3 => (i(), any::<bool>()).prop_map(|(i, l)| Op::Split(i, l)),
                1 => i().prop_map(Op::SplitAndJoin),
                1 => Just(Op::Map),
                1 => Just(Op::MapWithIndex),
                1 => Just(Op::CloneMap),
                1 => (i(), 5000u32..9000).prop_map(|(i, v)| Op::SetAnnot(i, v)),
                1 => Just(Op::Rebuild),
            ];
            (spec(n), other, vec(op, 0..max), prop_oneof![5 => 0usize..50, 1 => any::<usize>()])
        })
        .prop_map(|(start, other, ops, bell)| Case { start, other, ops, bell })
        .boxed()
}

/// Blocks of tens of thousands of rows: a few rows over and over
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Huge {
    cycle: Vec<P>,
    len: usize,
    other: usize,
    ops: Vec<(u8, usize, usize)>,
}

fn check_huge(c: &Huge, obs: &mut Obs) -> Result<(), String> {
    let n = c.cycle[0].len();
    let make = |from: usize, len: usize, base: u32| -> Result<(B, Model), String> {
        let mut rows: Vec<P> = c
            .cycle
            .iter()
            .cycle()
            .skip(from)
            .take(len + 1)
            .cloned()
            .collect();
        let b = B::with_annots_from_indices(ssv(&rows), |i| base + i as u32).ok_or("no block")?;
        let leftover = rows.pop().unwrap();
        Ok((
            b,
            Model {
                rows,
                annots: (0..len as u32).map(|i| base + i).collect(),
                leftover,
            },
        ))
    };
    let (mut b, mut m) = make(0, c.len, 0)?;
    let (ob, om) = make(3, c.other, 1_000_000)?;
    let mut biggest = c.len.max(c.other);
    for &(k, x, y) in &c.ops {
        let len = m.rows.len();
        let source = match k % 8 {
            0 | 1 | 6 => c.other,
            _ => len,
        };
        // Beyond the end, mostly close to it
        let fit = |x: usize| {
            if x <= source {
                x
            } else {
                source - x % (source.min(9) + 1)
            }
        };
        let (lo, hi) = (fit(x).min(fit(y)), fit(x).max(fit(y)));
        if len + (hi - lo) > 200_000 && k % 8 < 4 {
            continue;
        }
        match k % 8 {
            0 => {
                b.extend_range(&ob, lo..hi).map_err(|e| e.to_string())?;
                m.extend(&om, lo, hi);
            }
            1 => {
                b.extend_range(&ob, lo..).map_err(|e| e.to_string())?;
                m.extend(&om, lo, c.other);
            }
            2 => {
                b.extend_from_within(lo..hi);
                let copy = m.clone();
                m.extend(&copy, lo, hi);
            }
            3 if len > 0 && hi < len => {
                b.extend_from_within(lo..=hi);
                let copy = m.clone();
                m.extend(&copy, lo, hi + 1);
            }
            4 => {
                let (p, q) = b.split(lo).ok_or("splitting inside gave nothing")?;
                ensure_eq!(
                    (p.len(), q.len()),
                    (lo, len - lo),
                    "lengths after splitting at {} of {}",
                    lo,
                    len
                );
                let all = m.all();
                bf::is_row(p.leftover_row(), &all[lo], "leftover row of the left part")?;
                for (i, r) in q.row_vec().iter().enumerate() {
                    ensure!(
                        bf::idx(r) == all[lo + i],
                        "row {} of the right part of a split at {} of {}",
                        i,
                        lo,
                        len
                    );
                }
                ensure!(
                    q.annots().eq(m.annots[lo..].iter()),
                    "annotations of the right part of a split at {} of {}",
                    lo,
                    len
                );
                b = p;
                if y % 2 == 0 {
                    b.extend(&q).map_err(|e| e.to_string())?;
                } else {
                    m.rows.truncate(lo);
                    m.annots.truncate(lo);
                    m.leftover = all[lo].clone();
                }
            }
            5 => {
                let p = &c.cycle[x % c.cycle.len()];
                b.pre_multiply(&bf::row(p)).map_err(|e| e.to_string())?;
                m.rows
                    .iter_mut()
                    .chain([&mut m.leftover])
                    .for_each(|r| *r = gen::mul(p, r));
            }
            6 => {
                b = b.map_annots_with_index(|i, a| i as u32 * 3 + a);
                m.annots
                    .iter_mut()
                    .enumerate()
                    .for_each(|(i, a)| *a += i as u32 * 3);
            }
            _ => {
                if let Some(a) = b.get_annot_mut(lo) {
                    *a = y as u32;
                    m.annots[lo] = y as u32;
                }
            }
        }
        biggest = biggest.max(m.rows.len());
    }
    let len = m.rows.len();
    ensure_eq!(b.len(), len, "length");
    bf::is_row(b.leftover_row(), &m.leftover, "leftover row")?;
    ensure!(
        b.annots().eq(m.annots.iter()),
        "annotations of a block of {} rows",
        len
    );
    for (i, r) in b.rows().enumerate() {
        ensure!(bf::idx(r) == m.rows[i], "row {} of {}", i, len);
    }
    let places = c.ops.iter().flat_map(|o| [o.1, o.2]);
    for i in places.chain([
        0,
        255,
        256,
        257,
        65_535,
        65_536,
        65_537,
        len.saturating_sub(1),
        len,
    ]) {
        ensure_eq!(
            b.get_annot(i),
            m.annots.get(i),
            "annotation {} of {}",
            i,
            len
        );
        let all = |i: usize| {
            if i == len {
                Some(&m.leftover)
            } else {
                m.rows.get(i)
            }
        };
        ensure_eq!(
            b.get_row(i).map(bf::idx).as_ref(),
            all(i),
            "row {} of {}",
            i,
            len
        );
        let ar = b.get_annot_row(i);
        ensure_eq!(
            ar.as_ref().map(|ar| *ar.annot()).as_ref(),
            m.annots.get(i),
            "annotation {} of {}",
            i,
            len
        );
        ensure_eq!(
            ar.map(|ar| bf::idx(ar.row())).as_ref(),
            m.rows.get(i),
            "annotated row {} of {}",
            i,
            len
        );
    }
    // Once more round
    if !m.rows.is_empty() {
        for (i, (row, source, annot)) in b
            .repeat_iter(bf::row(&gen::id(n)))
            .map_err(|e| e.to_string())?
            .take(len + len.min(5))
            .enumerate()
        {
            ensure_eq!(source, i % len, "source of repeated row {} of {}", i, len);
            ensure_eq!(
                *annot,
                m.annots[i % len],
                "annotation of repeated row {} of {}",
                i,
                len
            );
            if i < 5 || i + 5 > len || i % 1000 == 0 {
                let mut want = m.rows[i % len].clone();
                if i >= len {
                    want = gen::mul(&m.leftover, &want);
                }
                bf::is_row(&row, &want, &format!("repeated row {} of {}", i, len))?;
            }
        }
    }
    obs.label_if(biggest > 65_536, "over 65,536 rows");
    obs.nontrivial_if(c.ops.len() >= 2);
    Ok(())
}

fn huge() -> BoxedStrategy<Huge> {
    let size = || prop_oneof![1 => 250usize..262, 1 => 2000usize..65_536, 3 => 65_530usize..65_545];
    let at = || prop_oneof![2 => 0usize..10, 1 => 250usize..262, 3 => 65_530usize..65_545, 1 => 0usize..200_000];
    (1usize..=5)
        .prop_flat_map(move |n| {
            (
                vec(gen::perm(n), 1..7),
                size(),
                size(),
                vec((any::<u8>(), at(), at()), 0..7),
            )
        })
        .prop_map(|(cycle, len, other, ops)| Huge {
            cycle,
            len,
            other,
            ops,
        })
        .boxed()
}

fn main() {
    vcore::main(Property {
        id: "C09",
        facets: vec![
            Facet::random(
                "history",
                40_000,
                1_200_000,
                "two operations, two rows and three bells",
                |_| strategy(10),
                check,
            ),
            Facet::random(
                "long-history",
                2_000,
                60_000,
                "two operations, two rows and three bells",
                |_| strategy(60),
                check,
            ),
            Facet::random("huge", 100, 4_000, "two operations", |_| huge(), check_huge),
            Facet::enumerated(
                "no-rows",
                "always",
                |_| Box::new(1usize..40),
                |&n: &usize, obs: &mut Obs| {
                    let v = SameStageVec::new(bf::stage(n));
                    ensure!(
                        B::with_annots_from_indices(v.clone(), |_| 0).is_none(),
                        "a block was made of no rows"
                    );
                    ensure!(
                        vcore::panics(|| B::with_default_annots(v)).is_err(),
                        "a block was made of no rows"
                    );
                    let e = B::empty(bf::stage(n));
                    ensure!(
                        e.is_empty() && e.len() == 0 && e.stage().num_bells() == n,
                        "an empty block isn't"
                    );
                    bf::is_row(
                        e.leftover_row(),
                        &gen::id(n),
                        "leftover row of an empty block",
                    )?;
                    obs.nontrivial();
                    Ok(())
                },
            ),
        ],
        assumptions: vec![],
    })
}
