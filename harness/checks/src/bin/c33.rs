//! C33: every iterator yields exactly its sequence, however it is driven.

#[path = "../bf.rs"]
mod bf;

use bellframe::{
    method::class::{Class, FullClass},
    place_not::PnBlock,
    AnnotBlock, Mask, Method, PlaceNot, Row, SameStageVec,
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use std::{collections::VecDeque, fmt::Debug};
use vcore::{ensure, ensure_eq, gen, Facet, Obs, Property};

type P = Vec<usize>;

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Step {
    Next,
    NextBack,
    Nth(usize),
    NthBack(usize),
    Take(usize),
    RevTake(usize),
    Find(usize),
    Position(usize),
    RPosition(usize),
    Any(usize),
    All(usize),
    FindMap(usize),
    TryFold(usize),
    RFind(usize),
    RTryFold(usize),
    Hint,
    /// Carry on with a copy, and finish the original off in this way
    Clone(Finish),
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum Finish {
    Collect,
    Reverse,
    Count,
    Last,
    Fold,
    RFold,
    StepBy(usize),
    Skip(usize),
    RevSkip(usize),
    Chunks(usize),
    Zip,
    ForEach,
    Partition,
    Reduce,
    First,
    Final,
    Cycle(usize),
    Drop,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    rows: Vec<P>,
    bells: usize,
    steps: Vec<Step>,
    finish: Finish,
}

/// What can be done to an iterator besides `Iterator`'s own methods
struct Powers<I: Iterator> {
    back: Option<fn(&mut I) -> Option<I::Item>>,
    nth_back: Option<fn(&mut I, usize) -> Option<I::Item>>,
    rev_take: Option<fn(&mut I, usize) -> Vec<I::Item>>,
    rev: Option<fn(I) -> Vec<I::Item>>,
    rev_skip: Option<fn(I, usize) -> Vec<I::Item>>,
    rfold: Option<fn(I) -> Vec<I::Item>>,
    rfind: Option<fn(&mut I, usize) -> Option<I::Item>>,
    rposition: Option<fn(&mut I, usize) -> Option<usize>>,
    rtry_fold: Option<fn(&mut I, usize) -> Vec<I::Item>>,
    cycle: Option<fn(I, usize) -> Vec<I::Item>>,
    len: Option<fn(&I) -> usize>,
    clone: Option<fn(&I) -> I>,
}

fn forwards<I: Iterator>() -> Powers<I> {
    Powers {
        back: None,
        nth_back: None,
        rev_take: None,
        rev: None,
        rev_skip: None,
        rfold: None,
        rfind: None,
        rposition: None,
        rtry_fold: None,
        cycle: None,
        len: None,
        clone: None,
    }
}

fn cloneable<I: Iterator + Clone>() -> Powers<I> {
    Powers {
        clone: Some(|i| i.clone()),
        cycle: Some(|i, k| i.cycle().take(k).collect()),
        ..forwards()
    }
}

fn full<I: DoubleEndedIterator + ExactSizeIterator + Clone>() -> Powers<I> {
    Powers {
        back: Some(|i| i.next_back()),
        nth_back: Some(|i, k| i.nth_back(k)),
        rev_take: Some(|i, k| i.by_ref().rev().take(k).collect()),
        rev: Some(|i| i.rev().collect()),
        rev_skip: Some(|i, k| i.rev().skip(k).collect()),
        rfold: Some(|i| {
            i.rfold(vec![], |mut v, x| {
                v.push(x);
                v
            })
        }),
        rfind: Some(|i, k| {
            let mut seen = 0;
            i.rfind(|_| {
                seen += 1;
                seen > k
            })
        }),
        rposition: Some(|i, k| {
            let mut seen = 0;
            i.rposition(|_| {
                seen += 1;
                seen > k
            })
        }),
        rtry_fold: Some(|i, k| {
            let mut got = vec![];
            let _ = i.try_rfold(0, |n, x| {
                got.push(x);
                if n < k {
                    Ok(n + 1)
                } else {
                    Err(())
                }
            });
            got
        }),
        cycle: Some(|i, k| i.cycle().take(k).collect()),
        len: Some(|i| i.len()),
        clone: Some(|i| i.clone()),
    }
}

struct Driver<'a, I: Iterator, M> {
    name: &'a str,
    powers: Powers<I>,
    read: &'a dyn Fn(I::Item) -> Result<M, String>,
}

impl<I: Iterator, M: Debug + Clone + PartialEq> Driver<'_, I, M> {
    fn all(&self, v: impl IntoIterator<Item = I::Item>) -> Result<Vec<M>, String> {
        v.into_iter().map(|x| (self.read)(x)).collect()
    }

    fn one(&self, x: Option<I::Item>) -> Result<Option<M>, String> {
        x.map(|x| (self.read)(x)).transpose()
    }

    fn hint(&self, it: &I, left: usize, what: &str) -> Result<(), String> {
        let (lo, hi) = it.size_hint();
        ensure!(
            lo <= left && hi.is_none_or(|h| left <= h),
            "{}: size_hint {:?} with {} items left ({})",
            self.name,
            (lo, hi),
            left,
            what
        );
        if let Some(len) = self.powers.len {
            ensure_eq!(len(it), left, "{}: len ({})", self.name, what);
            ensure_eq!(
                (lo, hi),
                (left, Some(left)),
                "{}: size_hint of an exact iterator ({})",
                self.name,
                what
            );
        }
        Ok(())
    }

    fn finish(&self, mut it: I, m: &VecDeque<M>, f: Finish) -> Result<(), String> {
        let what = format!("{}: {:?} of the last {} items", self.name, f, m.len());
        let fwd: Vec<M> = m.iter().cloned().collect();
        let rev: Vec<M> = m.iter().rev().cloned().collect();
        let p = &self.powers;
        match f {
            Finish::Drop => {}
            Finish::Count => ensure_eq!(it.count(), fwd.len(), "{}", what),
            Finish::Last => ensure_eq!(self.one(it.last())?, fwd.last().cloned(), "{}", what),
            Finish::Fold => {
                let got = it.fold(vec![], |mut v, x| {
                    v.push(x);
                    v
                });
                ensure_eq!(self.all(got)?, fwd, "{}", what);
            }
            Finish::StepBy(k) => {
                let want: Vec<M> = fwd.iter().step_by(k + 1).cloned().collect();
                ensure_eq!(self.all(it.step_by(k + 1))?, want, "{}", what);
            }
            Finish::Skip(k) => {
                let want: Vec<M> = fwd.iter().skip(k).cloned().collect();
                ensure_eq!(self.all(it.skip(k))?, want, "{}", what);
            }
            Finish::Chunks(k) => {
                let mut got = vec![];
                loop {
                    let part: Vec<I::Item> = it.by_ref().take(k + 1).collect();
                    if part.is_empty() {
                        break;
                    }
                    got.extend(self.all(part)?);
                    ensure!(
                        got.len() <= fwd.len(),
                        "{}: more items than there are",
                        what
                    );
                }
                ensure_eq!(got, fwd, "{}", what);
                for _ in 0..3 {
                    ensure!(
                        it.next().is_none(),
                        "{}: an exhausted iterator yields again",
                        what
                    );
                }
                self.hint(&it, 0, "exhausted")?;
            }
            Finish::Zip => {
                let (idx, items): (Vec<usize>, Vec<I::Item>) = it.enumerate().unzip();
                ensure_eq!(idx, (0..fwd.len()).collect::<Vec<_>>(), "{}", what);
                ensure_eq!(self.all(items)?, fwd, "{}", what);
            }
            Finish::ForEach => {
                let mut got = vec![];
                it.for_each(|x| got.push(x));
                ensure_eq!(self.all(got)?, fwd, "{}", what);
            }
            Finish::Partition => {
                let mut i = 0;
                let (a, b): (Vec<I::Item>, Vec<I::Item>) = it.partition(|_| {
                    i += 1;
                    i % 3 == 1
                });
                let part = |first: bool| -> Vec<M> {
                    let mine = fwd.iter().enumerate().filter(|(i, _)| (i % 3 == 0) == first);
                    mine.map(|(_, x)| x.clone()).collect()
                };
                ensure_eq!(self.all(a)?, part(true), "{}", what);
                ensure_eq!(self.all(b)?, part(false), "{}", what);
            }
            Finish::Reduce => {
                let mut i = 0;
                let got = it.reduce(|a, b| {
                    i += 1;
                    if i <= fwd.len() / 2 {
                        b
                    } else {
                        a
                    }
                });
                ensure_eq!(self.one(got)?, fwd.get(fwd.len() / 2).or(fwd.last()).cloned(), "{}", what);
            }
            // The least and greatest of items which are all alike
            Finish::First => {
                let got = it.min_by(|_, _| std::cmp::Ordering::Equal);
                ensure_eq!(self.one(got)?, fwd.first().cloned(), "{}", what);
            }
            Finish::Final => {
                let got = it.max_by(|_, _| std::cmp::Ordering::Equal);
                ensure_eq!(self.one(got)?, fwd.last().cloned(), "{}", what);
            }
            Finish::Cycle(k) if p.cycle.is_some() => {
                let k = k % (3 * fwd.len() + 2);
                let want: Vec<M> = fwd.iter().cycle().take(k).cloned().collect();
                ensure_eq!(self.all(p.cycle.unwrap()(it, k))?, want, "{}", what);
            }
            Finish::Reverse if p.rev.is_some() => {
                ensure_eq!(self.all(p.rev.unwrap()(it))?, rev, "{}", what)
            }
            Finish::RFold if p.rfold.is_some() => {
                ensure_eq!(self.all(p.rfold.unwrap()(it))?, rev, "{}", what)
            }
            Finish::RevSkip(k) if p.rev_skip.is_some() => {
                let want: Vec<M> = rev.iter().skip(k).cloned().collect();
                ensure_eq!(self.all(p.rev_skip.unwrap()(it, k))?, want, "{}", what);
            }
            _ => ensure_eq!(self.all(it)?, fwd, "{}", what),
        }
        Ok(())
    }

    fn run(&self, mut it: I, model: Vec<M>, steps: &[Step], finish: Finish) -> Result<(), String> {
        let mut m: VecDeque<M> = model.into();
        let p = &self.powers;
        let pop = |m: &mut VecDeque<M>, k: usize| {
            m.drain(..k.min(m.len()));
            m.pop_front()
        };
        let pop_back = |m: &mut VecDeque<M>, k: usize| {
            m.truncate(m.len().saturating_sub(k));
            m.pop_back()
        };
        self.hint(&it, m.len(), "at first")?;
        for (k, s) in steps.iter().enumerate() {
            let what = format!("{}: step {} {:?}", self.name, k, s);
            match s {
                Step::Next => ensure_eq!(self.one(it.next())?, m.pop_front(), "{}", what),
                Step::Nth(k) => ensure_eq!(self.one(it.nth(*k))?, pop(&mut m, *k), "{}", what),
                Step::NextBack => {
                    if let Some(f) = p.back {
                        ensure_eq!(self.one(f(&mut it))?, m.pop_back(), "{}", what)
                    }
                }
                Step::NthBack(k) => {
                    if let Some(f) = p.nth_back {
                        ensure_eq!(self.one(f(&mut it, *k))?, pop_back(&mut m, *k), "{}", what)
                    }
                }
                Step::Take(k) => {
                    let want: Vec<M> = m.drain(..(*k).min(m.len())).collect();
                    let got: Vec<I::Item> = it.by_ref().take(*k).collect();
                    ensure_eq!(self.all(got)?, want, "{}", what);
                }
                Step::RevTake(k) => {
                    if let Some(f) = p.rev_take {
                        let want: Vec<M> = m.drain(m.len().saturating_sub(*k)..).rev().collect();
                        ensure_eq!(self.all(f(&mut it, *k))?, want, "{}", what);
                    }
                }
                Step::Find(k) => {
                    // The k-th item from here, counted by the search itself
                    let mut seen = 0;
                    let got = it.find(|_| {
                        seen += 1;
                        seen > *k
                    });
                    ensure_eq!(self.one(got)?, pop(&mut m, *k), "{}", what);
                }
                Step::Position(k) => {
                    let mut seen = 0;
                    let got = it.position(|_| {
                        seen += 1;
                        seen > *k
                    });
                    ensure_eq!(got, (*k < m.len()).then_some(*k), "{}", what);
                    pop(&mut m, *k);
                }
                Step::RPosition(k) => {
                    if let Some(f) = p.rposition {
                        let want = m.len().checked_sub(k + 1);
                        ensure_eq!(f(&mut it, *k), want, "{}", what);
                        pop_back(&mut m, *k);
                    }
                }
                Step::RFind(k) => {
                    if let Some(f) = p.rfind {
                        ensure_eq!(self.one(f(&mut it, *k))?, pop_back(&mut m, *k), "{}", what);
                    }
                }
                Step::RTryFold(k) => {
                    if let Some(f) = p.rtry_fold {
                        let k = *k;
                        let want: Vec<M> = m.drain(m.len().saturating_sub(k + 1)..).rev().collect();
                        ensure_eq!(self.all(f(&mut it, k))?, want, "{}", what);
                    }
                }
                Step::Any(k) => {
                    let mut seen = 0;
                    let got = it.any(|_| {
                        seen += 1;
                        seen > *k
                    });
                    ensure_eq!(got, *k < m.len(), "{}", what);
                    pop(&mut m, *k);
                }
                Step::All(k) => {
                    let mut seen = 0;
                    let got = it.all(|_| {
                        seen += 1;
                        seen <= *k
                    });
                    ensure_eq!(got, *k >= m.len(), "{}", what);
                    pop(&mut m, *k);
                }
                Step::FindMap(k) => {
                    let mut seen = 0;
                    let got = it.find_map(|x| {
                        seen += 1;
                        (seen > *k).then_some(x)
                    });
                    ensure_eq!(self.one(got)?, pop(&mut m, *k), "{}", what);
                }
                Step::TryFold(k) => {
                    let want: Vec<M> = m.drain(..(*k + 1).min(m.len())).collect();
                    let mut got = vec![];
                    let _ = it.try_fold(0, |n, x| {
                        got.push(x);
                        if n < *k {
                            Ok(n + 1)
                        } else {
                            Err(())
                        }
                    });
                    ensure_eq!(self.all(got)?, want, "{}", what);
                }
                Step::Hint => {}
                Step::Clone(f) => {
                    if let Some(c) = p.clone {
                        let copy = c(&it);
                        self.finish(std::mem::replace(&mut it, copy), &m, *f)?;
                    }
                }
            }
            self.hint(&it, m.len(), &what)?;
        }
        self.finish(it, &m, finish)
    }
}

fn check(c: &Case, obs: &mut Obs) -> Result<(), String> {
    macro_rules! drive {
        ($name: expr, $powers: expr, $read: expr, $it: expr, $model: expr) => {
            Driver {
                name: $name,
                powers: $powers,
                read: &$read,
            }
            .run($it, $model, &c.steps, c.finish)?
        };
    }
    let n = c.bells;
    let rows = &c.rows;
    let row_read = |r: &Row| bf::valid(r);
    let bell_read = |b: bellframe::Bell| Ok(b.index());
    let bufs: Vec<_> = rows.iter().map(|p| bf::row(p)).collect();
    let mut v = SameStageVec::new(bf::stage(n));
    v.extend(&bufs).map_err(|e| e.to_string())?;
    drive!(
        "SameStageVec::iter",
        full(),
        row_read,
        v.iter(),
        rows.clone()
    );
    drive!(
        "&SameStageVec",
        full(),
        row_read,
        (&v).into_iter(),
        rows.clone()
    );
    // One row
    if let Some(first) = rows.first() {
        let r = bf::row(first);
        drive!(
            "Row::bell_iter",
            full(),
            bell_read,
            r.bell_iter(),
            first.clone()
        );
        drive!(
            "&Row",
            full(),
            bell_read,
            r.as_row().into_iter(),
            first.clone()
        );
        drive!(
            "&RowBuf",
            full(),
            bell_read,
            (&r).into_iter(),
            first.clone()
        );
        let fixed: P = (0..n).filter(|&i| first[i] == i).collect();
        drive!(
            "Row::fixed_bells",
            forwards(),
            bell_read,
            r.fixed_bells(),
            fixed
        );
        // A mask which leaves the places of some bells open
        let bells: P = first
            .iter()
            .copied()
            .filter(|b| b % 3 == rows.len() % 3)
            .collect();
        let mask = Mask::fix_bells(bf::stage(n), bells.iter().map(|&b| bf::bell(b)));
        let open: P = (0..n).filter(|i| !bells.contains(i)).collect();
        drive!(
            "Mask::unspecified_places",
            forwards(),
            Ok,
            mask.unspecified_places(),
            open
        );
    }
    drive!(
        "Stage::bells",
        forwards(),
        bell_read,
        bf::stage(n).bells(),
        gen::id(n)
    );
    // Changes
    let changes: Vec<P> = rows
        .iter()
        .map(|p| {
            (0..n)
                .filter(|&i| n % 2 == 1 && i == 2 * (p[0] / 2))
                .collect::<P>()
        })
        .collect();
    let pns: Vec<PlaceNot> = changes
        .iter()
        .map(|ch| {
            PlaceNot::pn_between(&bf::row(&gen::id(n)), &bf::row(&gen::change_perm(n, ch)))
                .ok_or("no change between rows")
        })
        .collect::<Result<_, _>>()?;
    if !pns.is_empty() {
        let block = PnBlock::from_vec(pns.clone()).map_err(|e| e.to_string())?;
        drive!(
            "PnBlock::place_nots",
            full(),
            |p: &PlaceNot| Ok(p.clone()),
            block.place_nots(),
            pns
        );
    }
    // A block, whose annotations are the indices of its rows in decreasing order
    if !rows.is_empty() {
        let len = rows.len() - 1;
        let block: AnnotBlock<usize> = AnnotBlock::with_annots_from_indices(v.clone(), |i| len - i)
            .ok_or("rows didn't make a block")?;
        let annots: P = (0..len).map(|i| len - i).collect();
        let main = rows[..len].to_vec();
        drive!(
            "AnnotBlock::rows",
            full(),
            row_read,
            block.rows(),
            main.clone()
        );
        drive!(
            "AnnotBlock::all_rows",
            full(),
            row_read,
            block.all_rows(),
            rows.clone()
        );
        drive!(
            "AnnotBlock::annots",
            full(),
            |a: &usize| Ok(*a),
            block.annots(),
            annots.clone()
        );
        let both: Vec<(P, usize)> = main.into_iter().zip(annots).collect();
        drive!(
            "AnnotBlock::annot_rows",
            cloneable(),
            |a: bellframe::block::AnnotRow<usize>| Ok((bf::valid(a.row())?, *a.annot())),
            block.annot_rows(),
            both
        );
        // Labels of a lead
        if len > 0 {
            let lead: AnnotBlock<Option<String>> =
                AnnotBlock::with_annots_from_indices(v.clone(), |i| {
                    (rows[i][0] % 2 == 0)
                        .then(|| ["LE", "LE ", "le"][rows[i][n - 1] % 3].to_owned())
                })
                .ok_or("rows didn't make a block")?;
            let class = FullClass::new(false, false, false, Class::Principle);
            let m = Method::new("X".to_owned(), "X".to_owned(), class, lead);
            let want: P = (0..len)
                .filter(|&i| rows[i][0] % 2 == 0 && rows[i][n - 1] % 3 == 0)
                .collect();
            drive!(
                "Method::label_indices",
                forwards(),
                Ok,
                m.label_indices("LE"),
                want
            );
        }
        // A repeated block never ends, so only as much of it as the steps can use is modelled
        let start = bf::row(&rows[len]);
        let it = block.repeat_iter(start).map_err(|e| e.to_string())?;
        let total = |f: &Finish| match f {
            Finish::StepBy(k) | Finish::Skip(k) | Finish::Chunks(k) | Finish::RevSkip(k) => k + 8,
            _ => 8,
        };
        let reach: usize = 16
            + total(&c.finish)
            + c.steps
                .iter()
                .map(|s| match s {
                    Step::Nth(k) | Step::Take(k) | Step::Find(k) | Step::Position(k) => k + 1,
                    Step::Any(k) | Step::All(k) | Step::FindMap(k) | Step::TryFold(k) => k + 1,
                    Step::Clone(f) => total(f),
                    _ => 1,
                })
                .sum::<usize>();
        let mut model: VecDeque<(P, usize, usize)> = VecDeque::new();
        let mut head = rows[len].clone();
        while len > 0 && model.len() < reach {
            for (i, r) in rows[..len].iter().enumerate() {
                model.push_back((gen::mul(&head, r), i, len - i));
            }
            head = gen::mul(&head, &rows[len]);
        }
        endless(it, model, c)?;
    }
    let moves = c.steps.iter().filter(|s| !matches!(s, Step::Hint)).count();
    let backs = c.steps.iter().any(|s| {
        matches!(
            s,
            Step::NextBack
                | Step::NthBack(_)
                | Step::RevTake(_)
                | Step::RPosition(_)
                | Step::RFind(_)
                | Step::RTryFold(_)
        )
    });
    obs.label_if(backs, "from both ends");
    obs.label_if(rows.len() > 64, "more than 64 rows");
    obs.nontrivial_if(rows.len() >= 3 && n >= 3 && moves >= 3 && backs);
    Ok(())
}

type Item3<'a> = (bellframe::RowBuf, usize, &'a usize);

fn endless<'a>(
    mut it: bellframe::block::RepeatIter<'a, usize>,
    mut m: VecDeque<(P, usize, usize)>,
    c: &Case,
) -> Result<(), String> {
    let read = |x: Option<Item3<'a>>| -> Result<Option<(P, usize, usize)>, String> {
        x.map(|(r, i, a)| Ok((bf::valid(&r)?, i, *a))).transpose()
    };
    let empty = m.is_empty();
    let hint = |it: &bellframe::block::RepeatIter<'a, usize>| -> Result<(), String> {
        let (lo, hi) = it.size_hint();
        ensure!(
            !empty || lo == 0,
            "an empty repeated block claims {} items",
            lo
        );
        ensure!(
            empty || hi.is_none(),
            "an endless iterator claims to end after {:?} items",
            hi
        );
        Ok(())
    };
    let pop = |m: &mut VecDeque<(P, usize, usize)>, k: usize| {
        m.drain(..k.min(m.len()));
        m.pop_front()
    };
    let finish = |it: bellframe::block::RepeatIter<'a, usize>,
                  m: &VecDeque<(P, usize, usize)>,
                  f: Finish|
     -> Result<(), String> {
        let want: Vec<_> = match f {
            Finish::StepBy(k) => m.iter().step_by(k + 1).take(2).cloned().collect(),
            Finish::Skip(k) | Finish::RevSkip(k) | Finish::Chunks(k) => {
                m.iter().skip(k).take(2).cloned().collect()
            }
            _ => m.iter().take(3).cloned().collect(),
        };
        let got: Vec<Item3> = match f {
            Finish::StepBy(k) => it.step_by(k + 1).take(2).collect(),
            Finish::Skip(k) | Finish::RevSkip(k) | Finish::Chunks(k) => {
                it.skip(k).take(2).collect()
            }
            _ => it.take(3).collect(),
        };
        let got: Vec<_> = got
            .into_iter()
            .map(|x| read(Some(x)))
            .collect::<Result<Vec<_>, _>>()?
            .into_iter()
            .flatten()
            .collect();
        ensure_eq!(got, want, "repeated block: {:?}", f);
        Ok(())
    };
    for (k, s) in c.steps.iter().enumerate() {
        let what = format!("repeated block: step {} {:?}", k, s);
        match s {
            Step::Next => ensure_eq!(read(it.next())?, m.pop_front(), "{}", what),
            Step::NextBack => {
                let mut out = bf::row(&[0]);
                let got = it.next_into(&mut out).map(|(i, a)| (i, *a));
                let want = m.pop_front();
                ensure_eq!(
                    got,
                    want.as_ref().map(|w| (w.1, w.2)),
                    "{} (into a row)",
                    what
                );
                if let Some(w) = want {
                    bf::is_row(&out, &w.0, &what)?;
                }
            }
            Step::Nth(k) => ensure_eq!(read(it.nth(*k))?, pop(&mut m, *k), "{}", what),
            Step::Take(k) => {
                for x in it.by_ref().take(*k).collect::<Vec<_>>() {
                    ensure_eq!(read(Some(x))?, m.pop_front(), "{}", what);
                }
            }
            Step::Find(k) | Step::Position(k) | Step::FindMap(k) => {
                let mut seen = 0;
                let got = it.find(|_| {
                    seen += 1;
                    seen > *k
                });
                ensure_eq!(read(got)?, pop(&mut m, *k), "{}", what);
            }
            Step::Any(k) | Step::All(k) | Step::TryFold(k) => {
                let mut seen = 0;
                let _ = it.try_for_each(|_| {
                    seen += 1;
                    if seen > *k {
                        Err(())
                    } else {
                        Ok(())
                    }
                });
                pop(&mut m, *k);
            }
            Step::Clone(f) => {
                let copy = it.clone();
                finish(std::mem::replace(&mut it, copy), &m, *f)?;
            }
            _ => {}
        }
        hint(&it)?;
    }
    finish(it, &m, c.finish)
}

fn finish_strategy(max: usize) -> BoxedStrategy<Finish> {
    let k = move || prop_oneof![4 => 0..4usize, 1 => 0..=max + 2];
    prop_oneof![
        3 => Just(Finish::Collect),
        2 => Just(Finish::Reverse),
        1 => Just(Finish::Count),
        1 => Just(Finish::Last),
        1 => Just(Finish::Fold),
        1 => Just(Finish::RFold),
        1 => k().prop_map(Finish::StepBy),
        1 => k().prop_map(Finish::Skip),
        1 => k().prop_map(Finish::RevSkip),
        1 => k().prop_map(Finish::Chunks),
        1 => Just(Finish::Zip),
        1 => Just(Finish::ForEach),
        1 => Just(Finish::Partition),
        1 => Just(Finish::Reduce),
        1 => prop_oneof![Just(Finish::First), Just(Finish::Final)],
        1 => k().prop_map(|k| Finish::Cycle(3 * k)),
        1 => Just(Finish::Drop),
    ]
    .boxed()
}

fn strategy() -> BoxedStrategy<Case> {
    (
        gen::stage(),
        prop_oneof![40 => 0usize..12, 4 => 12usize..40, 1 => 40usize..300],
    )
        .prop_flat_map(|(n, len)| case(n, len, vec(gen::perm(n), len).boxed()))
        .boxed()
}

/// A few rows over and over
fn huge() -> BoxedStrategy<Case> {
    (
        prop_oneof![6 => 1usize..=4, 1 => 65_530usize..65_540],
        prop_oneof![1 => 250usize..260, 3 => 65_530usize..65_545],
    )
        .prop_flat_map(|(n, len)| {
            let (n, len) = if n > 4 { (n, len % 3) } else { (n, len) };
            let cycle = vec(
                if n > 4 {
                    gen::giant_of(n).prop_map(|g| g.perm()).boxed()
                } else {
                    gen::perm(n)
                },
                1..5,
            );
            case(
                n,
                len,
                cycle
                    .prop_map(move |c| c.into_iter().cycle().take(len).collect())
                    .boxed(),
            )
        })
        .boxed()
}

fn case(n: usize, len: usize, rows: BoxedStrategy<Vec<P>>) -> BoxedStrategy<Case> {
    Just(()).prop_flat_map(move |()| {
            // (the model of an endless iterator holds all the rows it can reach)
            let far = if n > 4_096 { 20 } else { usize::MAX };
            let k = move || {
                prop_oneof![6 => 0..3usize, 1 => 0..=far.min(len + 2), 1 => 0..=far.min(n + 2)]
            };
            let step = prop_oneof![
                4 => Just(Step::Next),
                4 => Just(Step::NextBack),
                2 => k().prop_map(Step::Nth),
                2 => k().prop_map(Step::NthBack),
                1 => k().prop_map(Step::Take),
                1 => k().prop_map(Step::RevTake),
                1 => k().prop_map(Step::Find),
                1 => k().prop_map(Step::Position),
                1 => k().prop_map(Step::RPosition),
                1 => prop_oneof![
                    k().prop_map(Step::Any),
                    k().prop_map(Step::All),
                    k().prop_map(Step::FindMap),
                    k().prop_map(Step::TryFold),
                ],
                1 => prop_oneof![k().prop_map(Step::RFind), k().prop_map(Step::RTryFold)],
                1 => Just(Step::Hint),
                2 => finish_strategy(len).prop_map(Step::Clone),
            ];
            (
                rows.clone(),
                vec(step, 0..10),
                finish_strategy(len),
                Just(n),
            )
        })
        .prop_map(|(rows, steps, finish, bells)| Case {
            rows,
            bells,
            steps,
            finish,
        })
        .boxed()
}

fn main() {
    vcore::main(Property {
        id: "C33",
        facets: vec![
            Facet::random(
                "drive",
                200_000,
                4_000_000,
                "three rows or more on three bells or more, with three or more moves, some from the far end",
                |_| strategy(),
                check,
            ),
            Facet::random(
                "huge",
                40,
                2_000,
                "three rows or more on three bells or more, with three or more moves, some from the far end",
                |_| huge(),
                check,
            ),
        ],
        assumptions: vec!["an iterator which has ended stays ended"],
    })
}
