//! C32: equality, hashing and ordering follow what values denote, not how they were made.

#[path = "../bf.rs"]
mod bf;
#[path = "../meth.rs"]
mod meth;
#[path = "../pat.rs"]
mod pat;
#[path = "../pn.rs"]
mod pn;

use bellframe::{
    block::AnnotRow, music::Regex, AnnotBlock, Bell, IncompatibleStages, Mask, Parity, PlaceNot,
    PnBlock, RowBuf, SameStageVec, Stage,
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use std::{
    cmp::Ordering,
    collections::{BTreeSet, HashMap, HashSet},
    fmt::Debug,
    hash::Hash,
};
use vcore::{ensure, ensure_eq, gen, Facet, Obs, Property};

type P = Vec<usize>;

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
enum Val {
    Rows(usize, Vec<P>),
    /// Rows (the last is the leftover one) and annotations
    Block(Vec<P>, Vec<u8>),
    Change(usize, P),
    Changes(usize, Vec<P>),
    Mask(Vec<Option<usize>>),
    Pattern(Vec<pat::E>),
    Class(meth::C),
    Row(P),
    Bell(usize),
    Stage(usize),
    Mismatch(usize, usize),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    a: Val,
    b: Val,
    coins: Vec<u8>,
}

/// All of `xs` denote one thing, all of `ys` another, which is the same one if `same`
fn judge<T: Eq + Hash + Debug + Clone>(
    what: &str,
    xs: &[T],
    ys: &[T],
    same: bool,
) -> Result<(), String> {
    for (i, x) in xs.iter().enumerate() {
        for (j, z) in xs.iter().enumerate() {
            ensure!(
                x == z && !(x != z),
                "{}: {:?} made in ways {} and {} isn't equal ({:?})",
                what,
                x,
                i,
                j,
                z
            );
            ensure!(
                bf::hash(x) == bf::hash(z),
                "{}: {:?} made in ways {} and {} hashes differently",
                what,
                x,
                i,
                j
            );
        }
        let copy = x.clone();
        ensure!(
            &copy == x && bf::hash(&copy) == bf::hash(x),
            "{}: a copy of {:?} differs",
            what,
            x
        );
        for (j, y) in ys.iter().enumerate() {
            ensure!(
                (x == y) == same && (y == x) == same && (x != y) != same,
                "{}: {:?} (way {}) == {:?} (way {}) is {}, should be {}",
                what,
                x,
                i,
                y,
                j,
                x == y,
                same
            );
            ensure!(
                !same || bf::hash(x) == bf::hash(y),
                "{}: equal {:?} and {:?} hash differently",
                what,
                x,
                y
            );
        }
    }
    let all: HashSet<&T> = xs.iter().chain(ys).collect();
    ensure_eq!(
        all.len(),
        if same { 1 } else { 2 },
        "{}: members of a set of {:?} and {:?}",
        what,
        xs[0],
        ys[0]
    );
    let map: HashMap<T, u8> = xs.iter().map(|x| (x.clone(), 1)).collect();
    for y in ys {
        ensure_eq!(
            map.get(y).copied(),
            same.then_some(1),
            "{}: {:?} looked up in a map of {:?}",
            what,
            y,
            xs[0]
        );
    }
    Ok(())
}

/// As `judge`, for types with an order
fn order<T: Ord + Hash + Debug + Clone>(
    what: &str,
    x: &T,
    y: &T,
    want: Ordering,
) -> Result<(), String> {
    judge(what, &[x.clone()], &[y.clone()], want == Ordering::Equal)?;
    ensure_eq!(
        (x.cmp(y), y.cmp(x)),
        (want, want.reverse()),
        "{}: {:?} cmp {:?}",
        what,
        x,
        y
    );
    ensure_eq!(
        (x.partial_cmp(y), x < y, x <= y),
        (Some(want), want.is_lt(), want.is_le()),
        "{}: {:?} against {:?}",
        what,
        x,
        y
    );
    ensure_eq!(
        (x > y, x >= y),
        (want.is_gt(), want.is_ge()),
        "{}: {:?} against {:?}",
        what,
        x,
        y
    );
    let set: BTreeSet<&T> = [x, y].into_iter().collect();
    ensure_eq!(
        set.len(),
        if want.is_eq() { 1 } else { 2 },
        "{}: sorted set of {:?} and {:?}",
        what,
        x,
        y
    );
    ensure!(
        std::cmp::max(x, y) == if want.is_gt() { x } else { y },
        "{}: greater of {:?} and {:?}",
        what,
        x,
        y
    );
    Ok(())
}

fn e<T, E: ToString>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| e.to_string())
}

/// The same buffer of rows, made in many ways
fn buffers(n: usize, rows: &[P], coins: &[u8]) -> Result<Vec<SameStageVec>, String> {
    let coin = |k: usize| coins[k % coins.len()] as usize;
    let bufs: Vec<RowBuf> = rows.iter().map(|p| bf::row(p)).collect();
    let st = bf::stage(n);
    let mut out = vec![];
    let mut pushed = SameStageVec::new(st);
    for r in &bufs {
        e(pushed.push(r))?;
    }
    let mut roomy = SameStageVec::with_capacity(st, coin(0));
    e(roomy.extend(&bufs))?;
    // With rows which were taken off again
    let mut popped = pushed.clone();
    for k in 0..1 + coin(1) % 3 {
        e(popped.push(&bf::row(&if k == 0 {
            (0..n).rev().collect()
        } else {
            gen::id(n)
        })))?;
    }
    for _ in 0..1 + coin(1) % 3 {
        popped.pop();
    }
    // The first part of something longer, and the last
    let mut longer = pushed.clone();
    e(longer.extend_from_buf(&pushed))?;
    let (first, last) = longer
        .split(rows.len())
        .ok_or("a buffer wasn't split at a row it has")?;
    // Permuted there and back
    let by: P = (0..n).map(|i| (i + coin(2)) % n).collect();
    let mut there = e(pushed.pre_multiplied(&bf::row(&by)))?;
    e(there.pre_multiply(&bf::row(&gen::inv(&by))))?;
    // Joined from two
    let at = if rows.is_empty() {
        0
    } else {
        coin(3) % (rows.len() + 1)
    };
    let mut joined = SameStageVec::new(st);
    e(joined.extend(&bufs[..at]))?;
    e(joined.extend_range_transposed(&RowBuf::rounds(st), &pushed, at..))?;
    // Written over
    let mut over = SameStageVec::new(st);
    for _ in rows {
        e(over.push(&RowBuf::rounds(st)))?;
    }
    for (i, p) in rows.iter().enumerate() {
        let row = over.get_mut(i).ok_or("a row is missing")?;
        let mut cur = gen::id(n);
        for j in 0..n {
            let k = cur.iter().position(|&b| b == p[j]).unwrap();
            row.swap(j, k);
            cur.swap(j, k);
        }
    }
    if let Some(r) = bufs.first() {
        let mut one = SameStageVec::from_row_buf(r.clone());
        e(one.extend(&bufs[1..]))?;
        out.push(one);
        if n <= 33 {
            let text: Vec<String> = rows.iter().map(|p| gen::names(p)).collect();
            out.push(e(SameStageVec::parse(&text.join("\n")))?);
        }
    }
    let bells: Vec<Bell> = rows.iter().flatten().map(|&i| bf::bell(i)).collect();
    out.push(unsafe { SameStageVec::from_bell_vec_unchecked(bells, st) });
    out.extend([pushed, roomy, popped, first, last, there, joined, over]);
    Ok(out)
}

fn blocks(rows: &[P], annots: &[u8], coins: &[u8]) -> Result<Vec<AnnotBlock<u8>>, String> {
    let coin = |k: usize| coins[k % coins.len()] as usize;
    let n = rows[0].len();
    let build = |rows: &[P], annots: &[u8], k: usize| {
        let bufs = buffers(n, rows, coins)?;
        AnnotBlock::with_annots_from_indices(bufs[k % bufs.len()].clone(), |i| annots[i])
            .ok_or("rows didn't make a block".to_owned())
    };
    let plain = build(rows, annots, coin(0))?;
    let mut out = vec![plain.clone(), build(rows, annots, coin(1))?];
    // The first part of something longer
    let mut more: Vec<P> = rows.to_vec();
    more.extend([rows[0].clone(), rows[rows.len() / 2].clone()]);
    let mut longer_annots = annots.to_vec();
    longer_annots.extend([7, 8]);
    let (left, _) = build(&more, &longer_annots, coin(2))?
        .split(annots.len())
        .ok_or("a block wasn't split at a row it has")?;
    out.push(left);
    // ... and the last part
    let mut before = vec![rows[rows.len() - 1].clone()];
    before.extend(rows.iter().cloned());
    let mut annots_before = vec![9];
    annots_before.extend(annots);
    let (_, right) = build(&before, &annots_before, coin(3))?
        .split(1)
        .ok_or("a block wasn't split at its second row")?;
    out.push(right);
    // Annotations written later, or converted
    let mut later = build(rows, &vec![99; annots.len()], coin(4))?;
    for (i, a) in annots.iter().enumerate() {
        *later.get_annot_mut(i).ok_or("an annotation is missing")? = *a;
    }
    out.push(later);
    out.push(
        plain
            .clone()
            .map_annots(|a| a as u16 + 300)
            .map_annots(|a| (a - 300) as u8),
    );
    out.push(build(rows, &vec![0; annots.len()], 0)?.map_annots_with_index(|i, _| annots[i]));
    out.push(plain.clone_map_annots_with_index(|i, _| annots[i]));
    // Extended from nothing, then moved to its first row
    if !annots.is_empty() {
        let mut grown = AnnotBlock::empty(bf::stage(n));
        let at = coin(5) % annots.len();
        if at > 0 {
            e(grown.extend_range(&plain, ..at))?;
        }
        e(grown.extend_range(&plain, at..))?;
        e(grown.pre_multiply(&bf::row(&rows[0])))?;
        out.push(grown);
    }
    Ok(out)
}

fn changes(n: usize, places: &P, coins: &[u8]) -> Result<Vec<PlaceNot>, String> {
    let coin = |k: usize| coins[k % coins.len()] as usize;
    let mut out = vec![pn::build(places, n)];
    let from: P = (0..n).map(|i| (i + coin(0)) % n).collect();
    let to = gen::mul(&from, &gen::change_perm(n, places));
    out.push(
        PlaceNot::pn_between(&bf::row(&from), &bf::row(&to))
            .ok_or("no change between two rows a change apart")?,
    );
    if n > 33 {
        return Ok(out);
    }
    if places.is_empty() {
        for s in ["-", "x", "X"] {
            out.push(e(PlaceNot::parse(s, bf::stage(n)))?);
        }
        return Ok(out);
    }
    // Written in another order, and without places which go without saying
    let mut written = places.clone();
    let len = written.len();
    written.rotate_left(coin(1) % len);
    out.push(e(PlaceNot::parse(&gen::names(&written), bf::stage(n)))?);
    for k in 0..len {
        let mut fewer = written.clone();
        fewer.remove(k);
        if pn::denote(&fewer, n).as_ref() == Ok(places) {
            out.push(e(PlaceNot::parse(&gen::names(&fewer), bf::stage(n)))?);
            fewer.sort();
            out.push(unsafe { e(PlaceNot::from_sorted_slice(&fewer, bf::stage(n)))? });
        }
    }
    Ok(out)
}

fn change_blocks(n: usize, list: &[P], coins: &[u8]) -> Result<Vec<PnBlock>, String> {
    let coin = |k: usize| coins[k % coins.len()] as usize;
    let mut pns = vec![];
    for (i, p) in list.iter().enumerate() {
        let ways = changes(n, p, coins)?;
        pns.push(ways[coin(i) % ways.len()].clone());
    }
    let mut out = vec![
        e(PnBlock::from_vec(pns.clone()))?,
        e(PnBlock::from_iter(pns.iter().cloned()))?,
    ];
    out.push(unsafe { PnBlock::from_vec_unchecked(pns.clone()) });
    if n <= 33 {
        let text: Vec<String> = pns.iter().map(|p| p.to_string()).collect();
        out.push(e(PnBlock::parse(&text.join("."), bf::stage(n)))?);
        out.push(e(PnBlock::parse(
            &format!(" +{}. ", text.join(" . ")),
            bf::stage(n),
        ))?);
        // As palindromes of single changes
        if list.len() > 1 {
            out.push(e(PnBlock::parse(&text.join(","), bf::stage(n)))?);
        }
    }
    Ok(out)
}

fn masks(m: &[Option<usize>], coins: &[u8]) -> Result<Vec<Mask>, String> {
    let coin = |k: usize| coins[k % coins.len()] as usize;
    let n = m.len();
    let set = |want: &dyn Fn(usize) -> bool, reverse: bool| -> Result<Mask, String> {
        let mut mask = Mask::empty(bf::stage(n));
        let mut fixed: Vec<(usize, usize)> = m
            .iter()
            .enumerate()
            .filter_map(|(i, b)| Some((i, (*b)?)))
            .filter(|x| want(x.0))
            .collect();
        if reverse {
            fixed.reverse();
        }
        for (i, b) in fixed {
            if i == b && coin(i) % 2 == 0 {
                mask.fix(bf::bell(b)).map_err(|_| "a bell was set before")?;
            } else {
                mask.set_bell(bf::bell(b), i)
                    .map_err(|_| "a bell was set before")?;
            }
        }
        Ok(mask)
    };
    let mut out = vec![set(&|_| true, false)?, set(&|_| true, true)?];
    let (left, right) = (
        set(&|i| coin(i) % 3 > 0, false)?,
        set(&|i| coin(i) % 3 < 2, true)?,
    );
    out.push(
        left.combine(&right)
            .ok_or("parts of a mask don't combine")?,
    );
    out.push(&out[0] * RowBuf::rounds(bf::stage(n)).as_row());
    out.push(RowBuf::rounds(bf::stage(n)).as_row() * &out[0]);
    if n <= 33 {
        out.push(Mask::parse(
            &m.iter()
                .map(|b| b.map_or("x".to_owned(), gen::name))
                .collect::<String>(),
        ));
        out.push(Mask::parse(
            &m.iter()
                .map(|b| b.map_or(".".to_owned(), gen::name))
                .collect::<String>(),
        ));
    }
    if m.iter().all(Option::is_some) {
        out.push(Mask::full_row(&bf::row(
            &m.iter().flatten().copied().collect::<P>(),
        )));
    }
    if m.iter().enumerate().all(|(i, b)| b.is_none_or(|b| b == i)) {
        out.push(Mask::fix_bells(
            bf::stage(n),
            m.iter().flatten().map(|&b| bf::bell(b)),
        ));
    }
    Ok(out)
}

fn patterns(p: &[pat::E], coins: &[u8]) -> Vec<Regex> {
    let scrambled = pat::scramble(p, coins);
    let mut out = vec![
        pat::real(p),
        pat::real(&scrambled),
        Regex::from_elems(pat::elems(&scrambled)),
    ];
    let mut raw = unsafe { Regex::from_vec_unchecked(pat::elems(&scrambled)) };
    raw.normalise();
    out.push(raw);
    if p.iter().all(|x| !matches!(x, pat::E::B(b) if *b >= 33)) {
        out.push(Regex::parse(&pat::text(&scrambled)));
        out.push(Regex::parse(&format!(" {}", pat::text(p))));
    }
    let mut bells = HashSet::new();
    if !p.is_empty()
        && p.iter().all(|x| match x {
            pat::E::B(b) => *b < p.len() && bells.insert(*b),
            pat::E::Any => true,
            pat::E::Glob => false,
        })
    {
        let m: Vec<Option<usize>> = p
            .iter()
            .map(|x| if let pat::E::B(b) = x { Some(*b) } else { None })
            .collect();
        if let Ok(masks) = masks(&m, coins) {
            out.extend(masks.into_iter().map(Regex::from));
        }
    }
    out
}

fn check(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let (x, y) = (&c.coins[..], &c.coins[c.coins.len() / 2..]);
    let same = c.a == c.b;
    match (&c.a, &c.b) {
        (Val::Rows(n, a), Val::Rows(m, b)) => {
            obs.label("rows");
            judge(
                "buffers of rows",
                &buffers(*n, a, x)?,
                &buffers(*m, b, y)?,
                same,
            )?;
        }
        (Val::Block(a, aa), Val::Block(b, ab)) => {
            obs.label("blocks");
            let (p, q) = (blocks(a, aa, x)?, blocks(b, ab, y)?);
            judge("blocks", &p, &q, same)?;
            // Their annotated rows
            let (p, q) = (&p[x[0] as usize % p.len()], &q[y[0] as usize % q.len()]);
            for (i, u) in p.annot_rows().enumerate().take(12) {
                for (j, v) in q.annot_rows().enumerate().take(12) {
                    judge(
                        "annotated rows",
                        &[u, AnnotRow::new(u.row(), u.annot())],
                        &[v],
                        a[i] == b[j] && aa[i] == ab[j],
                    )?;
                }
            }
        }
        (Val::Change(n, a), Val::Change(m, b)) => {
            obs.label("changes");
            judge("changes", &changes(*n, a, x)?, &changes(*m, b, y)?, same)?;
        }
        (Val::Changes(n, a), Val::Changes(m, b)) => {
            obs.label("blocks of changes");
            judge(
                "blocks of changes",
                &change_blocks(*n, a, x)?,
                &change_blocks(*m, b, y)?,
                same,
            )?;
        }
        (Val::Mask(a), Val::Mask(b)) => {
            obs.label("masks");
            judge("masks", &masks(a, x)?, &masks(b, y)?, same)?;
        }
        (Val::Pattern(a), Val::Pattern(b)) => {
            obs.label("patterns");
            judge(
                "patterns",
                &patterns(a, x),
                &patterns(b, y),
                pat::normal(a) == pat::normal(b),
            )?;
            for (p, q) in a.iter().zip(b) {
                judge("elements", &[pat::elem(p)], &[pat::elem(q)], p == q)?;
            }
        }
        (Val::Class(a), Val::Class(b)) => {
            obs.label("classes");
            let copy = |c: &meth::C| {
                let f = c.real();
                bellframe::method::class::FullClass::new(
                    f.is_jump(),
                    f.is_little(),
                    f.is_differential(),
                    f.class(),
                )
            };
            judge(
                "full classes",
                &[a.real(), copy(a)],
                &[b.real(), copy(b)],
                same,
            )?;
            judge(
                "classes",
                &[a.real().class()],
                &[b.real().class()],
                a.class == b.class,
            )?;
        }
        (Val::Row(a), Val::Row(b)) => {
            obs.label("single rows");
            let (p, q) = (bf::row(a), bf::row(b));
            order("rows", &p, &q, a.cmp(b))?;
            order("borrowed rows", &p.as_row(), &q.as_row(), a.cmp(b))?;
            ensure!(
                (p == *q.as_row()) == same && (*p.as_row() == q) == same,
                "{} and {} compared in mixed forms",
                p,
                q
            );
            let set: HashSet<RowBuf> = [p.clone()].into_iter().collect();
            ensure_eq!(
                set.contains(q.as_row()),
                same,
                "{} looked up in a set of {}",
                q,
                p
            );
            let tree: BTreeSet<RowBuf> = [p.clone()].into_iter().collect();
            ensure_eq!(
                tree.contains(q.as_row()),
                same,
                "{} looked up in a sorted set of {}",
                q,
                p
            );
            let (s, t) = (p.clone().parity(), q.clone().parity());
            judge(
                "parities",
                &[s, Parity::from_is_odd(gen::is_odd(a))],
                &[t],
                gen::is_odd(a) == gen::is_odd(b),
            )?;
        }
        (Val::Bell(a), Val::Bell(b)) => {
            obs.label("bells");
            order("bells", &bf::bell(*a), &bf::bell(*b), a.cmp(b))?;
            let (p, q) = (
                bf::bell(*a),
                Bell::from_number(b + 1).ok_or("a bell has no number")?,
            );
            order("bells", &p, &q, a.cmp(b))?;
            if let Some(named) = gen::NAMES.chars().nth(*b).and_then(Bell::from_name) {
                order("bells", &p, &named, a.cmp(b))?;
            }
        }
        (Val::Stage(a), Val::Stage(b)) => {
            obs.label("stages");
            order("stages", &bf::stage(*a), &bf::stage(*b), a.cmp(b))?;
            let again = e(Stage::try_from(*b).map_err(|_| "a stage was refused"))?;
            order("stages", &bf::stage(*a), &again, a.cmp(b))?;
            if *b < 200 {
                order(
                    "stages",
                    &bf::stage(*a),
                    &RowBuf::rounds(again).stage(),
                    a.cmp(b),
                )?;
            }
        }
        (Val::Mismatch(a, b), Val::Mismatch(p, q)) => {
            obs.label("mismatches");
            let one = |a: &usize, b: &usize| -> Result<Vec<IncompatibleStages>, String> {
                let mut opt = Some(bf::stage(*a));
                let r = IncompatibleStages::test_err(bf::stage(*a), bf::stage(*b));
                let s = IncompatibleStages::test_err_opt(&mut opt, bf::stage(*b));
                Ok(vec![
                    r.err().ok_or("no mismatch")?,
                    s.err().ok_or("no mismatch")?,
                ])
            };
            if a != b && p != q {
                judge("mismatches", &one(a, b)?[..1], &one(p, q)?[..1], same)?;
                judge("mismatches", &one(a, b)?[1..], &one(p, q)?[1..], same)?;
            }
        }
        _ => return Err("cases compare values of one kind".to_owned()),
    }
    obs.label_if(same, "same");
    obs.label_if(!same, "different");
    obs.nontrivial_if(match &c.a {
        Val::Rows(n, r) => *n >= 2 && r.len() >= 2,
        Val::Block(r, _) => r[0].len() >= 2 && r.len() >= 3,
        Val::Change(n, _) => *n >= 4,
        Val::Changes(n, l) => *n >= 3 && l.len() >= 2,
        Val::Mask(m) => m.iter().flatten().count() >= 2,
        Val::Pattern(p) => p.len() >= 3,
        Val::Row(p) => p.len() >= 3,
        _ => false,
    });
    Ok(())
}

/// Something nearly the same
fn tweak(v: &Val, coins: &[u8]) -> Val {
    let coin = |k: usize| coins[k % coins.len()] as usize;
    let swap = |p: &mut P, k: usize| {
        let n = p.len();
        p.swap(coin(k) % n, coin(k + 1) % n);
    };
    let mut v = v.clone();
    match &mut v {
        Val::Rows(n, rows) => {
            let k = rows.len();
            match coin(0) % 8 {
                0 => *n += 1,
                1 => rows.push(gen::id(*n)),
                2 if k > 0 => drop(rows.remove(coin(1) % k)),
                3 if k > 0 => rows.swap(coin(1) % k, coin(2) % k),
                // The same bells, divided otherwise
                4 if *n == 2 && k % 2 == 0 && k > 0 => {}
                5 if k > 0 => rows.insert(coin(1) % k, rows[coin(2) % k].clone()),
                _ if k > 0 => swap(&mut rows[coin(1) % k], 2),
                _ => *n += coin(3) % 3,
            }
            rows.iter_mut()
                .for_each(|r| (r.len()..*n).for_each(|b| r.push(b)));
        }
        Val::Block(rows, annots) => {
            let k = annots.len();
            let n = rows[0].len();
            match coin(0) % 8 {
                0 => rows.iter_mut().for_each(|r| r.push(n)),
                1 => {
                    rows.push(gen::id(n));
                    annots.push(0);
                }
                2 if k > 0 => {
                    rows.remove(coin(1) % k);
                    annots.remove(coin(1) % k);
                }
                3 if k > 0 => annots.swap(coin(1) % k, coin(2) % k),
                4 => swap(&mut rows[k], 2),
                5 if k > 0 => annots[coin(1) % k] ^= 1 << (coin(2) % 8),
                _ => swap(&mut rows[coin(1) % (k + 1)], 2),
            }
        }
        Val::Change(n, places) => {
            if coin(0) % 3 == 0 {
                // Two bells more, which swap: the places made are the same
                *n += 2;
            } else {
                *places = gen::change_from(
                    *n,
                    &coins.iter().copied().cycle().take(*n).collect::<Vec<_>>(),
                );
            }
        }
        Val::Changes(n, list) => {
            let k = list.len();
            match coin(0) % 5 {
                0 => *n += 2,
                1 if k > 1 => drop(list.remove(coin(1) % k)),
                2 => list.swap(coin(1) % k, coin(2) % k),
                3 => list.push(list[coin(1) % k].clone()),
                _ => {
                    list[coin(1) % k] = gen::change_from(
                        *n,
                        &coins.iter().copied().cycle().take(*n).collect::<Vec<_>>(),
                    )
                }
            }
        }
        Val::Mask(m) => {
            let k = m.len();
            match coin(0) % 4 {
                0 => m.push(None),
                1 => m[coin(1) % k] = None,
                2 => m.swap(coin(1) % k, coin(2) % k),
                _ => {
                    if let Some(b) = (0..k).find(|b| !m.contains(&Some(*b))) {
                        m[coin(1) % k] = Some(b);
                    }
                }
            }
        }
        Val::Pattern(p) => {
            let k = p.len();
            match coin(0) % 5 {
                0 if k > 0 => drop(p.remove(coin(1) % k)),
                1 => p.insert(coin(1) % (k + 1), pat::E::Any),
                2 => p.insert(coin(1) % (k + 1), pat::E::Glob),
                3 if k > 0 => p.swap(coin(1) % k, coin(2) % k),
                _ => p.insert(coin(1) % (k + 1), pat::E::B(coin(2) % 8)),
            }
        }
        Val::Class(c) => match coin(0) % 4 {
            0 => c.jump ^= true,
            1 => c.little ^= true,
            2 => c.diff ^= true,
            _ => c.class = coin(1) % meth::CLASSES.len(),
        },
        Val::Row(p) => match coin(0) % 4 {
            0 => p.push(p.len()),
            _ => swap(p, 1),
        },
        Val::Bell(b) | Val::Stage(b) => match coin(0) % 4 {
            0 => *b += 1,
            1 => *b += 256,
            2 => *b = (*b - 1).max(1),
            _ => *b += 1 << 16,
        },
        Val::Mismatch(a, b) => match coin(0) % 3 {
            0 => std::mem::swap(a, b),
            1 => *a += 1,
            _ => *b += 1,
        },
    }
    v
}

fn value() -> BoxedStrategy<Val> {
    let n = gen::stage();
    let rows = n
        .clone()
        .prop_flat_map(|n| (Just(n), gen::list(gen::perm(n), 0, 8, 280)))
        .prop_map(|(n, r)| Val::Rows(n, r));
    let block = n
        .clone()
        .prop_flat_map(|n| gen::list((gen::perm(n), any::<u8>()), 1, 8, 280))
        .prop_map(|l| {
            let (rows, mut annots): (Vec<P>, Vec<u8>) = l.into_iter().unzip();
            annots.pop();
            Val::Block(rows, annots)
        });
    let change = n
        .clone()
        .prop_flat_map(|n| gen::change(n).prop_map(move |p| Val::Change(n, p)));
    let changes = n.clone().prop_flat_map(|n| {
        gen::list(gen::change(n), 1, 6, 100).prop_map(move |p| Val::Changes(n, p))
    });
    let mask = n.clone().prop_flat_map(|n| {
        (gen::perm(n), vec(any::<bool>(), n)).prop_map(|(p, keep)| {
            Val::Mask(
                p.into_iter()
                    .zip(keep)
                    .map(|(b, k)| k.then_some(b))
                    .collect(),
            )
        })
    });
    let pattern = n
        .clone()
        .prop_flat_map(|n| pat::loose(n))
        .prop_map(Val::Pattern);
    let fixed = n.clone().prop_flat_map(|n| {
        (gen::perm(n), vec(any::<bool>(), n)).prop_map(|(p, keep)| {
            Val::Pattern(
                p.into_iter()
                    .zip(keep)
                    .map(|(b, k)| if k { pat::E::B(b) } else { pat::E::Any })
                    .collect(),
            )
        })
    });
    let number = prop_oneof![6 => 1usize..40, 2 => 200usize..300, 1 => 1usize..100_000, 1 => 1usize..(1 << 40)].boxed();
    prop_oneof![
        4 => rows,
        4 => block,
        3 => change,
        3 => changes,
        3 => mask,
        3 => pattern,
        1 => fixed,
        1 => (any::<[bool; 3]>(), 0..meth::CLASSES.len())
            .prop_map(|(f, class)| Val::Class(meth::C { jump: f[0], little: f[1], diff: f[2], class })),
        3 => gen::any_perm().prop_map(Val::Row),
        1 => number.clone().prop_map(Val::Bell),
        1 => number.clone().prop_map(Val::Stage),
        1 => (number.clone(), number).prop_map(|(a, b)| Val::Mismatch(a, b)),
    ]
    .boxed()
}

fn strategy() -> BoxedStrategy<Case> {
    (value(), 0u8..4, vec(any::<u8>(), 8..20))
        .prop_map(|(a, how, coins)| {
            let b = match how {
                0 => a.clone(),
                1 => tweak(&tweak(&a, &coins[3..]), &coins),
                _ => tweak(&a, &coins),
            };
            Case { a, b, coins }
        })
        .boxed()
}

fn main() {
    vcore::main(Property {
        id: "C32",
        facets: vec![Facet::random(
            "pairs",
            400_000,
            6_000_000,
            "two rows, changes or fixed bells or more (three elements of a pattern)",
            |_| strategy(),
            check,
        )],
        assumptions: vec![],
    })
}
