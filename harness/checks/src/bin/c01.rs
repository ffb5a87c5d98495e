//! C01: every row the safe API ever yields is a permutation of its bells.
//!
//! A pool machine: random histories of safe calls over rows, row buffers, blocks, accumulators and
//! everything which makes rows (place notation, masks, methods, calls).  Calls may fail or panic;
//! after each one, every value which is still reachable is re-read and must be valid.

#[path = "../bf.rs"]
mod bf;

use bellframe::{
    method::Method, row::RowAccumulator, AnnotBlock, Mask, PlaceNot, Row, RowBuf, SameStageVec,
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use vcore::{ensure, gen, Facet, Obs, Property};

type B = AnnotBlock<u8>;

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    // rows
    Parse(String),
    ParseStage(String, usize),
    FromVec(Vec<usize>),
    FromVecStage(Vec<usize>, usize),
    Standard(u8, usize),
    Mul(usize, usize),
    MulOp(usize, usize, u8),
    MulInto(usize, usize, usize),
    MulIntoRow(usize, usize, usize),
    Inv(usize),
    InvInto(usize, usize),
    InvIntoBuf(usize, usize),
    Pow(usize, isize),
    Solve(usize, usize, bool),
    Swap(usize, usize, usize),
    ExtendToStage(usize, usize),
    CopyInto(usize, usize),
    Overwrite(usize, usize),
    Closure(usize, bool),
    Group(usize, usize),
    Product(Vec<Vec<usize>>),
    Shared(usize, bool),
    Parity(usize),
    Clone(usize),
    // row buffers
    VNew(usize),
    VFromRow(usize),
    VParse(String),
    VPush(usize, usize),
    VPop(usize),
    VExtend(usize, Vec<usize>),
    VExtendBuf(usize, usize),
    VExtendTransposed(usize, usize, usize),
    VExtendRange(usize, usize, usize, usize, usize),
    VExtendWithin(usize, usize, usize, usize),
    VPreMultiply(usize, usize),
    VPreMultiplied(usize, usize),
    VSplit(usize, usize),
    VSwap(usize, usize, usize, usize),
    VMulIntoSlot(usize, usize, usize, usize),
    VInvIntoSlot(usize, usize, usize),
    VPnSlot(usize, usize, String),
    VTake(usize, usize),
    VIterTake(usize, usize, bool),
    // blocks
    BParse(String),
    BFromRows(usize, bool),
    BEmpty(usize),
    BPreMultiply(usize, usize),
    BExtend(usize, usize),
    BExtendRange(usize, usize, usize, usize),
    BExtendWithin(usize, usize, usize),
    BSplit(usize, usize),
    BMap(usize),
    BIntoRows(usize),
    BRepeat(usize, usize, usize, bool),
    // sources of rows
    Pn(String, usize),
    PnPermute(String, usize, bool),
    PnBetween(usize, usize),
    PnBlock(String, usize),
    MaskRow(String),
    MaskMul(String, usize, bool),
    MaskCombine(String, String),
    Method(String, usize, usize),
    MethodOf(usize, usize),
    Call(String, usize),
    // accumulator
    AccNew(usize),
    AccStep(usize, u8),
    AccTake,
}

const MAX_ROWS: usize = 16;
const MAX_VECS: usize = 8;
const MAX_BLOCK_LEN: usize = 80;

#[derive(Default)]
struct Pools {
    rows: Vec<RowBuf>,
    vecs: Vec<SameStageVec>,
    blocks: Vec<B>,
    acc: Option<RowAccumulator>,
    ring: usize,
}

impl Pools {
    fn add_row(&mut self, r: RowBuf) {
        if self.rows.len() < MAX_ROWS {
            self.rows.push(r);
        } else {
            self.ring += 1;
            let i = self.ring % MAX_ROWS;
            self.rows[i] = r;
        }
    }
    fn add_rows(&mut self, rs: impl IntoIterator<Item = RowBuf>) -> Result<(), String> {
        for (i, r) in rs.into_iter().enumerate() {
            bf::valid(&r)?;
            if i < 6 {
                self.add_row(r);
            }
        }
        Ok(())
    }
    fn add_vec(&mut self, v: SameStageVec) {
        if v.len() > MAX_BLOCK_LEN {
            return;
        }
        if self.vecs.len() < MAX_VECS {
            self.vecs.push(v);
        } else {
            self.ring += 1;
            let i = self.ring % MAX_VECS;
            self.vecs[i] = v;
        }
    }
    fn add_block(&mut self, b: B) {
        if b.len() > MAX_BLOCK_LEN {
            return;
        }
        if self.blocks.len() < MAX_VECS {
            self.blocks.push(b);
        } else {
            self.ring += 1;
            let i = self.ring % MAX_VECS;
            self.blocks[i] = b;
        }
    }
    fn r(&self, i: usize) -> &RowBuf {
        &self.rows[i % self.rows.len()]
    }
    fn v(&self, i: usize) -> &SameStageVec {
        &self.vecs[i % self.vecs.len()]
    }
    fn vm(&mut self, i: usize) -> &mut SameStageVec {
        let n = self.vecs.len();
        &mut self.vecs[i % n]
    }
    fn b(&self, i: usize) -> &B {
        &self.blocks[i % self.blocks.len()]
    }
    fn bm(&mut self, i: usize) -> &mut B {
        let n = self.blocks.len();
        &mut self.blocks[i % n]
    }

    fn validate(&self) -> Result<(), String> {
        for r in &self.rows {
            bf::valid(r)?;
        }
        for v in &self.vecs {
            valid_vec(v)?;
        }
        for b in &self.blocks {
            valid_block(b)?;
        }
        if let Some(a) = &self.acc {
            bf::valid(a.total())?;
        }
        Ok(())
    }
}

fn valid_vec(v: &SameStageVec) -> Result<(), String> {
    let mut n = 0;
    for r in v {
        let p = bf::valid(r)?;
        ensure!(
            p.len() == v.stage().num_bells(),
            "a buffer of stage {} holds the row {:?}",
            v.stage().num_bells(),
            p
        );
        n += 1;
    }
    ensure!(
        n == v.len(),
        "a buffer of length {} holds {} rows",
        v.len(),
        n
    );
    for i in 0..n {
        bf::valid(&v[i])?;
    }
    Ok(())
}

fn valid_block<A>(b: &AnnotBlock<A>) -> Result<(), String> {
    valid_vec(b.row_vec())?;
    ensure!(
        b.row_vec().len() == b.len() + 1,
        "a block with {} annotations holds {} rows (including the leftover one)",
        b.len(),
        b.row_vec().len()
    );
    bf::valid(b.first_row())?;
    bf::valid(b.leftover_row())?;
    ensure!(
        b.annot_rows().count() == b.len(),
        "a block's rows and annotations differ in number"
    );
    Ok(())
}

/// Apply one operation.  `Err` means an invalid value was seen; library errors are fine.
fn apply(p: &mut Pools, op: &Op) -> Result<(), String> {
    use Op::*;
    match op.clone() {
        Parse(s) => {
            if let Ok(r) = RowBuf::parse(&s) {
                p.add_row(r)
            }
        }
        ParseStage(s, n) => {
            if let Ok(r) = RowBuf::parse_with_stage(&s, bf::stage(n)) {
                p.add_row(r)
            }
        }
        FromVec(v) => {
            if let Ok(r) = RowBuf::from_vec(v.into_iter().map(bf::bell).collect()) {
                p.add_row(r)
            }
        }
        FromVecStage(v, n) => {
            if let Ok(r) =
                RowBuf::from_vec_with_stage(v.into_iter().map(bf::bell).collect(), bf::stage(n))
            {
                p.add_row(r)
            }
        }
        Standard(k, n) => {
            let s = bf::stage(n);
            p.add_row(match k % 3 {
                0 => RowBuf::rounds(s),
                1 => RowBuf::backrounds(s),
                _ => RowBuf::queens(s),
            })
        }
        Mul(a, b) => {
            if let Ok(r) = p.r(a).mul_result(p.r(b)) {
                p.add_row(r)
            }
        }
        MulOp(a, b, k) => {
            let (a, b) = (p.r(a).clone(), p.r(b).clone());
            let r = match k % 4 {
                0 => &a * &b,
                1 => a.as_row() * &b,
                2 => &a * b.as_row(),
                _ => a.as_row() * b.as_row(),
            };
            p.add_row(r)
        }
        MulInto(a, b, c) => {
            let (a, b) = (p.r(a).clone(), p.r(b).clone());
            let n = p.rows.len();
            let _ = a.mul_into(&b, &mut p.rows[c % n]);
        }
        MulIntoRow(a, b, c) => {
            let (a, b) = (p.r(a).clone(), p.r(b).clone());
            let n = p.rows.len();
            let _ = a.mul_into_row(&b, &mut p.rows[c % n]);
        }
        Inv(a) => {
            let r = if a % 2 == 0 {
                !p.r(a)
            } else {
                !p.r(a).as_row()
            };
            p.add_row(r)
        }
        InvInto(a, b) => {
            let a = p.r(a).clone();
            let n = p.rows.len();
            let _ = a.inv_into(&mut p.rows[b % n]);
        }
        InvIntoBuf(a, b) => {
            let a = p.r(a).clone();
            let n = p.rows.len();
            a.inv_into_buf(&mut p.rows[b % n]);
        }
        Pow(a, e) => {
            let r = if e < 0 || e % 2 == 0 {
                p.r(a).pow_i(e)
            } else {
                p.r(a).pow_u(e as usize)
            };
            p.add_row(r)
        }
        Solve(a, b, k) => {
            let r = if k {
                Row::solve_ax_equals_b(p.r(a), p.r(b))
            } else {
                Row::solve_xa_equals_b(p.r(a), p.r(b))
            };
            if let Ok(r) = r {
                p.add_row(r)
            }
        }
        Swap(a, i, j) => {
            let n = p.rows.len();
            p.rows[a % n].swap(i, j)
        }
        ExtendToStage(a, n) => {
            let k = p.rows.len();
            p.rows[a % k].extend_to_stage(bf::stage(n))
        }
        CopyInto(a, b) => {
            let a = p.r(a).clone();
            let n = p.rows.len();
            a.copy_into(&mut p.rows[b % n])
        }
        Overwrite(a, b) => {
            let a = p.r(a).clone();
            let n = p.rows.len();
            p.rows[b % n].overwrite_from(&a)
        }
        Closure(a, k) => {
            if gen::order(&bf::idx(p.r(a))) <= 600 {
                let c = if k {
                    p.r(a).closure()
                } else {
                    p.r(a).closure_from_rounds()
                };
                p.add_rows(c)?;
            }
        }
        Group(a, b) => {
            if p.r(a).stage().num_bells() <= 5 {
                if let Ok(c) = Row::least_group_containing([p.r(a).as_row(), p.r(b).as_row()]) {
                    let mut c: Vec<RowBuf> = c.into_iter().collect();
                    c.sort();
                    p.add_rows(c)?;
                }
            }
        }
        Product(sets) => {
            let sets: Vec<Vec<RowBuf>> = sets
                .iter()
                .map(|s| s.iter().map(|&i| p.r(i).clone()).collect())
                .collect();
            if let Ok(c) = Row::multi_cartesian_product(sets.iter().map(|s| s.iter())) {
                p.add_rows(c)?;
            }
        }
        Shared(a, k) => {
            if k {
                let rc = p.r(a).to_rc();
                bf::valid(&rc)?;
                let rc2 = rc.clone();
                drop(rc);
                p.add_row((*rc2).to_owned())
            } else {
                let rc = p.r(a).to_arc();
                bf::valid(&rc)?;
                let rc2 = rc.clone();
                drop(rc);
                p.add_row((*rc2).to_owned())
            }
        }
        Parity(a) => {
            let n = p.rows.len();
            p.rows[a % n].parity();
        }
        Clone(a) => {
            let r = p.r(a).clone();
            p.add_row(r)
        }

        VNew(n) => p.add_vec(SameStageVec::new(bf::stage(n))),
        VFromRow(a) => {
            let v = SameStageVec::from_row_buf(p.r(a).clone());
            p.add_vec(v)
        }
        VParse(s) => {
            if let Ok(v) = SameStageVec::parse(&s) {
                p.add_vec(v)
            }
        }
        VPush(v, a) => {
            let r = p.r(a).clone();
            let _ = p.vm(v).push(&r);
        }
        VPop(v) => {
            if let Some(r) = p.vm(v).pop() {
                p.add_row(r)
            }
        }
        VExtend(v, rs) => {
            let rs: Vec<RowBuf> = rs.into_iter().map(|i| p.r(i).clone()).collect();
            let _ = p.vm(v).extend(&rs);
        }
        VExtendBuf(v, w) => {
            let w = p.v(w).clone();
            let _ = p.vm(v).extend_from_buf(&w);
        }
        VExtendTransposed(v, a, w) => {
            let (a, w) = (p.r(a).clone(), p.v(w).clone());
            let _ = p.vm(v).extend_transposed(&a, &w);
        }
        VExtendRange(v, a, w, lo, hi) => {
            let (a, w) = (p.r(a).clone(), p.v(w).clone());
            let v = p.vm(v);
            let _ = match (lo + hi) % 4 {
                0 => v.extend_range_transposed(&a, &w, lo..=hi),
                1 => v.extend_range_transposed(&a, &w, ..hi),
                2 => v.extend_range_transposed(&a, &w, lo..),
                _ => v.extend_range_transposed(&a, &w, lo..hi),
            };
        }
        VExtendWithin(v, a, lo, hi) => {
            let a = p.r(a).clone();
            let _ = p.vm(v).extend_transposed_from_within(lo..hi, &a);
        }
        VPreMultiply(v, a) => {
            let a = p.r(a).clone();
            let _ = p.vm(v).pre_multiply(&a);
        }
        VPreMultiplied(v, a) => {
            if let Ok(v) = p.v(v).pre_multiplied(p.r(a)) {
                p.add_vec(v)
            }
        }
        VSplit(v, i) => {
            let v = p.v(v).clone();
            if let Some((a, b)) = v.split(i) {
                p.add_vec(a);
                p.add_vec(b);
            }
        }
        VSwap(v, i, a, b) => {
            if let Some(r) = p.vm(v).get_mut(i) {
                r.swap(a, b)
            }
        }
        VMulIntoSlot(v, i, a, b) => {
            let (a, b) = (p.r(a).clone(), p.r(b).clone());
            let v = p.vm(v);
            let slot = match i % 3 {
                0 => v.first_mut(),
                1 => v.last_mut(),
                _ => v.get_mut(i),
            };
            if let Some(slot) = slot {
                let _ = a.mul_into_row(&b, slot);
            }
        }
        VInvIntoSlot(v, i, a) => {
            let a = p.r(a).clone();
            if let Some(slot) = p.vm(v).get_mut(i) {
                let _ = a.inv_into(slot);
            }
        }
        VPnSlot(v, i, s) => {
            let v = p.vm(v);
            if let Ok(pn) = PlaceNot::parse(&s, v.stage()) {
                if let Some(slot) = v.get_mut(i) {
                    let _ = pn.permute(slot);
                }
            }
        }
        VTake(v, i) => {
            let v = p.v(v);
            let got = match i % 3 {
                0 => v.first(),
                1 => v.last(),
                _ => v.get(i),
            };
            if let Some(r) = got.map(|r| r.to_owned()) {
                p.add_row(r)
            }
        }
        VIterTake(v, i, back) => {
            let it = p.v(v).iter();
            let got = if back {
                it.rev().nth(i)
            } else {
                it.skip(i).step_by(2).last()
            };
            if let Some(r) = got.map(|r| r.to_owned()) {
                p.add_row(r)
            }
        }

        BParse(s) => {
            if let Ok(b) = B::parse(&s) {
                p.add_block(b)
            }
        }
        BFromRows(v, k) => {
            let v = p.v(v).clone();
            let b = if k {
                Some(B::with_default_annots(v))
            } else {
                B::with_annots_from_indices(v, |i| i as u8)
            };
            if let Some(b) = b {
                p.add_block(b)
            }
        }
        BEmpty(n) => p.add_block(B::empty(bf::stage(n))),
        BPreMultiply(b, a) => {
            let a = p.r(a).clone();
            let _ = p.bm(b).pre_multiply(&a);
        }
        BExtend(b, c) => {
            let c = p.b(c).clone();
            let _ = p.bm(b).extend(&c);
        }
        BExtendRange(b, c, lo, hi) => {
            let c = p.b(c).clone();
            let b = p.bm(b);
            let _ = match (lo + hi) % 4 {
                0 => b.extend_range(&c, lo..=hi),
                1 => b.extend_range(&c, ..hi),
                2 => b.extend_range(&c, lo..),
                _ => b.extend_range(&c, lo..hi),
            };
        }
        BExtendWithin(b, lo, hi) => {
            let b = p.bm(b);
            match (lo + hi) % 4 {
                0 => b.extend_from_within(lo..=hi),
                1 => b.extend_from_within(..hi),
                2 => b.extend_from_within(lo..),
                _ => b.extend_from_within(lo..hi),
            }
        }
        BSplit(b, i) => {
            let b = p.b(b).clone();
            if let Some((x, y)) = b.split(i) {
                p.add_block(x);
                p.add_block(y);
            }
        }
        BMap(b) => {
            let b = p.b(b).clone();
            let x = b.clone_map_annots_with_index(|i, a| (i as u8, *a));
            valid_block(&x)?;
            let y = x.map_annots_with_index(|i, a| a.0.wrapping_add(i as u8));
            valid_block(&y)?;
            p.add_block(y.map_annots(|a| a / 2))
        }
        BIntoRows(b) => {
            let b = p.b(b).clone();
            p.add_vec(b.into_row_vec())
        }
        BRepeat(b, a, n, into) => {
            let b = p.b(b).clone();
            let a = p.r(a).clone();
            if let Ok(mut it) = b.repeat_iter(a) {
                let mut out = RowBuf::rounds(bf::stage(1));
                for _ in 0..n {
                    if into {
                        if it.next_into(&mut out).is_none() {
                            break;
                        }
                    } else {
                        match it.next() {
                            Some((r, _, _)) => out = r,
                            None => break,
                        }
                    }
                    bf::valid(&out)?;
                }
                p.add_row(out)
            }
        }

        Pn(s, n) => {
            if let Ok(pn) = PlaceNot::parse(&s, bf::stage(n)) {
                p.add_row(pn.transposition())
            }
        }
        PnPermute(s, a, new) => {
            let k = p.rows.len();
            let row = &mut p.rows[a % k];
            if let Ok(pn) = PlaceNot::parse(&s, row.stage()) {
                if new {
                    if let Ok(r) = pn.permute_new(row) {
                        p.add_row(r)
                    }
                } else {
                    let _ = pn.permute(row);
                }
            }
        }
        PnBetween(a, b) => {
            if let Some(pn) = PlaceNot::pn_between(p.r(a), p.r(b)) {
                if let Ok(r) = pn.permute_new(p.r(a)) {
                    p.add_row(r)
                }
            }
        }
        PnBlock(s, a) => {
            let row = p.r(a).clone();
            if let Ok(pb) = bellframe::PnBlock::parse(&s, row.stage()) {
                if let Ok(v) = pb.to_rows(row.clone()) {
                    p.add_vec(v)
                }
                p.add_block(pb.to_block_from_rounds());
                if let Ok(b) = pb.to_block(row) {
                    p.add_block(b)
                }
            }
        }
        MaskRow(s) => {
            if let Some(r) = Mask::parse(&s).as_row() {
                p.add_row(r)
            }
        }
        MaskMul(s, a, left) => {
            let m = Mask::parse(&s);
            let m = if left {
                p.r(a).as_row() * &m
            } else {
                &m * p.r(a).as_row()
            };
            if let Some(r) = m.as_row() {
                p.add_row(r)
            }
        }
        MaskCombine(s, t) => {
            if let Some(m) = Mask::parse(&s).combine(&Mask::parse(&t)) {
                if let Some(r) = m.as_row() {
                    p.add_row(r)
                }
            }
        }
        Method(s, n, i) => {
            if let Ok(m) =
                bellframe::Method::from_place_not_string("x".to_owned(), bf::stage(n), &s)
            {
                check_method(p, &m, i)?
            }
        }
        MethodOf(b, i) => {
            let b = p.b(b).clone();
            let fl = b.map_annots(|a| Some(a.to_string()));
            let m = bellframe::Method::new(
                "t".to_owned(),
                "n".to_owned(),
                bellframe::method::class::FullClass::classify(
                    &AnnotBlock::<()>::empty(bf::stage(4)).map_annots(|_| 0u8),
                ),
                fl,
            );
            check_method(p, &m, i)?
        }
        Call(s, n) => {
            if let Ok(pb) = bellframe::PnBlock::parse(&s, bf::stage(n)) {
                let c = if n % 2 == 0 {
                    bellframe::Call::le_bob(pb)
                } else {
                    bellframe::Call::le_single(pb)
                };
                valid_block(c.block())?;
                p.add_row(c.transposition().to_owned());
            }
        }
        AccNew(a) => p.acc = Some(RowAccumulator::new(p.r(a).clone())),
        AccStep(a, k) => {
            let a = p.r(a).clone();
            if let Some(acc) = &mut p.acc {
                match k % 5 {
                    0 => {
                        let _ = acc.accumulate(&a);
                    }
                    1 => {
                        let _ = acc.pre_accumulate(&a);
                    }
                    2 => acc.set(&a),
                    3 => *acc *= &a,
                    _ => *acc *= a.as_row(),
                }
            }
        }
        AccTake => {
            if let Some(acc) = p.acc.clone() {
                p.add_row(acc.into_total())
            }
        }
    }
    Ok(())
}

fn check_method(p: &mut Pools, m: &Method, i: usize) -> Result<(), String> {
    bf::valid(m.lead_head())?;
    valid_block(m.first_lead())?;
    let lh = bf::idx(m.lead_head());
    if m.lead_len() > 0 {
        p.add_row(m.row_in_plain_course(i));
        if gen::order(&lh) as usize * m.lead_len() <= 4000
            && bf::idx(m.first_lead().first_row()) == gen::id(lh.len())
        {
            valid_block(&m.plain_course())?;
        }
    }
    p.add_row(m.lead_head().to_owned());
    Ok(())
}

fn pn_text() -> BoxedStrategy<String> {
    prop_oneof![
        6 => vec(prop_oneof![Just("x".to_owned()), Just(".".to_owned()), vec(0usize..9, 1..4).prop_map(|v| gen::names(&v))], 1..8)
            .prop_map(|v| v.join(".")),
        2 => proptest::sample::select(vec!["x", "-", "14", "1", "16", "x1x4,2", "+3.1.5.1,1", "x16x16x16,12", "3,1.5.1.5.1", "x14x14,12"])
            .prop_map(str::to_owned),
        1 => gen::text(8),
    ]
    .boxed()
}

fn rowish(n: usize) -> BoxedStrategy<String> {
    prop_oneof![
        6 => gen::perm(n).prop_map(|p| gen::names(&p)),
        1 => vec(0..n + 1, 0..n + 2).prop_map(|p| gen::names(&p)),
        1 => gen::text(10),
    ]
    .boxed()
}

fn lines(fs: Stages) -> BoxedStrategy<String> {
    prop_oneof![
        6 => fs().prop_flat_map(|n| vec(gen::perm(n).prop_map(|p| gen::names(&p)), 1..6)).prop_map(|v| v.join("\n")),
        2 => fs().prop_flat_map(|n| vec(rowish(n), 0..5)).prop_map(|v| v.join("\n")),
        1 => gen::text(14),
    ]
    .boxed()
}

/// Few stages, so that values of one stage often meet - but several, so that they often don't
fn few_stage() -> BoxedStrategy<usize> {
    prop_oneof![8 => proptest::sample::select(vec![4usize, 5, 6]), 2 => 1usize..=12, 1 => 13usize..=40].boxed()
}

type Stages = fn() -> BoxedStrategy<usize>;

/// A few stages about the sizes of bytes and words
fn wide_stages() -> BoxedStrategy<usize> {
    proptest::sample::select(vec![5usize, 33, 64, 65, 128, 129, 255, 256, 257, 300]).boxed()
}

fn maskish(fs: Stages) -> BoxedStrategy<String> {
    prop_oneof![
        3 => fs().prop_flat_map(|n| vec(0..n + 1, n)).prop_map(|v| v.iter().map(|&i| if i % 5 == 4 { "x".into() } else { gen::name(i) }).collect::<String>()),
        3 => fs().prop_flat_map(|n| (gen::perm(n), vec(any::<u8>(), n))).prop_map(|(p, k)| {
            p.iter().zip(k).map(|(&b, k)| if k < 50 { "x".into() } else { gen::name(b) }).collect::<String>()
        }),
        1 => gen::text(10),
    ]
    .boxed()
}

fn op(fs: Stages, wide: usize) -> BoxedStrategy<Op> {
    use Op::*;
    let i = || 0usize..40;
    let ix = || prop_oneof![12 => 0usize..12, 1 => 0usize..wide, 1 => Just(usize::MAX), 1 => Just(usize::MAX / 2 + 1)];
    let small = || prop_oneof![12 => 0usize..9, if wide > 90 { 20 } else { 1 } => 0usize..wide];
    let rows = prop_oneof![
        3 => fs().prop_flat_map(rowish).prop_map(Parse),
        2 => (fs().prop_flat_map(rowish), fs()).prop_map(|(s, n)| ParseStage(s, n)),
        2 => fs().prop_flat_map(|n| vec(0..n + 1, 0..n + 2)).prop_map(FromVec),
        2 => (fs().prop_flat_map(|n| vec(0..n, 0..n + 2)), fs()).prop_map(|(v, n)| FromVecStage(v, n)),
        2 => (any::<u8>(), fs()).prop_map(|(k, n)| Standard(k, n)),
        3 => (i(), i()).prop_map(|(a, b)| Mul(a, b)),
        2 => (i(), i(), any::<u8>()).prop_map(|(a, b, k)| MulOp(a, b, k)),
        3 => (i(), i(), i()).prop_map(|(a, b, c)| MulInto(a, b, c)),
        3 => (i(), i(), i()).prop_map(|(a, b, c)| MulIntoRow(a, b, c)),
        2 => i().prop_map(Inv),
        2 => (i(), i()).prop_map(|(a, b)| InvInto(a, b)),
        2 => (i(), i()).prop_map(|(a, b)| InvIntoBuf(a, b)),
        1 => (i(), -9isize..40).prop_map(|(a, e)| Pow(a, e)),
        1 => (i(), i(), any::<bool>()).prop_map(|(a, b, k)| Solve(a, b, k)),
        2 => (i(), small(), small()).prop_map(|(a, x, y)| Swap(a, x, y)),
        2 => (i(), fs()).prop_map(|(a, n)| ExtendToStage(a, n)),
        1 => (i(), i()).prop_map(|(a, b)| CopyInto(a, b)),
        1 => (i(), i()).prop_map(|(a, b)| Overwrite(a, b)),
        1 => (i(), any::<bool>()).prop_map(|(a, k)| Closure(a, k)),
        1 => (i(), i()).prop_map(|(a, b)| Group(a, b)),
        1 => vec(vec(i(), 0..4), 0..4).prop_map(Product),
        1 => (i(), any::<bool>()).prop_map(|(a, k)| Shared(a, k)),
        1 => i().prop_map(Parity),
        1 => i().prop_map(Clone),
    ];
    let vecs = prop_oneof![
        1 => fs().prop_map(VNew),
        2 => i().prop_map(VFromRow),
        3 => lines(fs).prop_map(VParse),
        3 => (i(), i()).prop_map(|(v, a)| VPush(v, a)),
        1 => i().prop_map(VPop),
        2 => (i(), vec(i(), 0..4)).prop_map(|(v, a)| VExtend(v, a)),
        2 => (i(), i()).prop_map(|(v, w)| VExtendBuf(v, w)),
        2 => (i(), i(), i()).prop_map(|(v, a, w)| VExtendTransposed(v, a, w)),
        2 => (i(), i(), i(), ix(), ix()).prop_map(|(v, a, w, l, h)| VExtendRange(v, a, w, l % 1000, h % 1000)),
        2 => (i(), i(), small(), small()).prop_map(|(v, a, l, h)| VExtendWithin(v, a, l, h)),
        1 => (i(), i()).prop_map(|(v, a)| VPreMultiply(v, a)),
        1 => (i(), i()).prop_map(|(v, a)| VPreMultiplied(v, a)),
        1 => (i(), ix()).prop_map(|(v, n)| VSplit(v, n)),
        1 => (i(), ix(), small(), small()).prop_map(|(v, n, x, y)| VSwap(v, n, x, y)),
        2 => (i(), small(), i(), i()).prop_map(|(v, n, a, b)| VMulIntoSlot(v, n, a, b)),
        1 => (i(), ix(), i()).prop_map(|(v, n, a)| VInvIntoSlot(v, n, a)),
        1 => (i(), small(), pn_text()).prop_map(|(v, n, s)| VPnSlot(v, n, s)),
        1 => (i(), ix()).prop_map(|(v, n)| VTake(v, n)),
        1 => (i(), small(), any::<bool>()).prop_map(|(v, n, k)| VIterTake(v, n, k)),
    ];
    let blocks = prop_oneof![
        2 => lines(fs).prop_map(BParse),
        2 => (i(), any::<bool>()).prop_map(|(v, k)| BFromRows(v, k)),
        1 => fs().prop_map(BEmpty),
        1 => (i(), i()).prop_map(|(b, a)| BPreMultiply(b, a)),
        2 => (i(), i()).prop_map(|(b, c)| BExtend(b, c)),
        4 => (i(), i(), small(), small()).prop_map(|(b, c, l, h)| BExtendRange(b, c, l, h)),
        3 => (i(), small(), small()).prop_map(|(b, l, h)| BExtendWithin(b, l, h)),
        2 => (i(), ix()).prop_map(|(b, n)| BSplit(b, n)),
        1 => i().prop_map(BMap),
        1 => i().prop_map(BIntoRows),
        1 => (i(), i(), 0usize..40, any::<bool>()).prop_map(|(b, a, n, k)| BRepeat(b, a, n, k)),
    ];
    let sources = prop_oneof![
        2 => (pn_text(), fs()).prop_map(|(s, n)| Pn(s, n)),
        2 => (pn_text(), i(), any::<bool>()).prop_map(|(s, a, k)| PnPermute(s, a, k)),
        1 => (i(), i()).prop_map(|(a, b)| PnBetween(a, b)),
        2 => (pn_text(), i()).prop_map(|(s, a)| PnBlock(s, a)),
        2 => maskish(fs).prop_map(MaskRow),
        1 => (maskish(fs), i(), any::<bool>()).prop_map(|(s, a, k)| MaskMul(s, a, k)),
        1 => (maskish(fs), maskish(fs)).prop_map(|(s, t)| MaskCombine(s, t)),
        1 => (pn_text(), fs(), 0usize..60).prop_map(|(s, n, k)| Method(s, n, k)),
        1 => (i(), 0usize..60).prop_map(|(b, k)| MethodOf(b, k)),
        1 => (pn_text(), fs()).prop_map(|(s, n)| Call(s, n)),
        1 => i().prop_map(AccNew),
        3 => (i(), any::<u8>()).prop_map(|(a, k)| AccStep(a, k)),
        1 => Just(AccTake),
    ];
    prop_oneof![6 => rows, 6 => vecs, 4 => blocks, 4 => sources].boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    seed_rows: Vec<Vec<usize>>,
    ops: Vec<Op>,
}

fn check(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let mut p = Pools::default();
    for r in &c.seed_rows {
        p.add_row(bf::row(r));
    }
    // Something of every kind to begin with
    p.add_vec(SameStageVec::from_row_buf(p.r(0).clone()));
    p.add_block(B::empty(p.r(0).stage()));
    p.acc = Some(RowAccumulator::rounds(p.r(0).stage()));
    let mut errors = 0;
    for (i, op) in c.ops.iter().enumerate() {
        match vcore::panics(|| apply(&mut p, op)) {
            Ok(r) => {
                r.map_err(|e| format!("step {} {:?} yielded an invalid value: {}", i, op, e))?
            }
            Err(_) => errors += 1,
        }
        match vcore::panics(|| p.validate()) {
            Ok(r) => r.map_err(|e| format!("after step {} {:?}: {}", i, op, e))?,
            Err(m) => {
                return Err(format!(
                    "after step {} {:?}: reading the values back panics: {}",
                    i, op, m
                ))
            }
        }
        // Keep the values small
        for v in &mut p.vecs {
            while v.len() > MAX_BLOCK_LEN {
                v.pop();
            }
        }
        p.blocks.retain(|b| b.len() <= MAX_BLOCK_LEN);
        if p.blocks.is_empty() {
            p.add_block(B::empty(bf::stage(5)));
        }
    }
    obs.label_if(errors > 0, "some call panicked");
    obs.label_if(
        p.rows.iter().any(|r| r.stage() != p.rows[0].stage()),
        "several stages",
    );
    obs.label_if(p.vecs.iter().any(|v| v.len() > 3), "long buffer");
    obs.label_if(p.blocks.iter().any(|v| v.len() > 3), "long block");
    obs.nontrivial_if(c.ops.len() >= 5 && p.rows.len() >= 3);
    Ok(())
}

fn strategy(max: usize, fs: Stages, wide: usize) -> BoxedStrategy<Case> {
    (
        vec(fs().prop_flat_map(gen::perm), 1..4),
        vec(op(fs, wide), 1..max),
    )
        .prop_map(|(seed_rows, ops)| Case { seed_rows, ops })
        .boxed()
}

fn main() {
    vcore::main(Property {
        id: "C01",
        facets: vec![
            Facet::random(
                "history",
                120_000,
                1_500_000,
                "at least five calls and three rows",
                |_| strategy(40, few_stage, 90),
                check,
            ),
            Facet::random(
                "long-history",
                3_000,
                80_000,
                "at least five calls and three rows",
                |_| strategy(250, few_stage, 90),
                check,
            ),
            Facet::random(
                "wide-history",
                3_000,
                60_000,
                "at least five calls and three rows",
                |_| strategy(30, wide_stages, 310),
                check,
            ),
            Facet::random(
                "masks",
                40_000,
                800_000,
                "a full row was obtained",
                |_| maskish(few_stage),
                |s, obs| {
                    let m = Mask::parse(s);
                    if let Some(r) = m.as_row() {
                        obs.nontrivial();
                        bf::valid(&r)?;
                    }
                    Ok(())
                },
            ),
        ],
        assumptions: vec![],
    })
}
