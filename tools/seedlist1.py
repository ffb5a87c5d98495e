"""Planted bugs: rows, row buffers, blocks."""
BORROWED = "src/row/borrowed.rs"
SSV = "src/row/same_stage_vec.rs"
OWNED = "src/row/owned.rs"
ACC = "src/row/accumulator.rs"
BLOCK = "src/block.rs"
PARITY = "src/parity.rs"
UTILS = "src/utils.rs"
SEEDS = []
def seed(id, prop, edits, needs, breaks, demo, features=(), deps=()):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo,
                      features=list(features), deps=list(deps)))

seed("c01-extend-from-empty", "C01", [(SSV,
"""        IncompatibleStages::test_err(self.stage, other.stage)?;
        self.bells.extend(other.bells.iter().copied()); // Copy bells across in one go
""",
"""        if self.is_empty() {
            // Nothing to be incompatible with yet, so just take over the other buffer's contents
            self.bells.clone_from(&other.bells);
            return Ok(());
        }
        IncompatibleStages::test_err(self.stage, other.stage)?;
        self.bells.extend(other.bells.iter().copied()); // Copy bells across in one go
""")],
"an empty SameStageVec (new, or emptied by pop) extended by extend_from_buf with rows of another stage",
"the buffer takes rows of another stage, so its rows are no longer permutations",
r'''
use bellframe::*;
fn main() {
    let mut v = SameStageVec::new(Stage::MAJOR);
    let four = SameStageVec::parse("1234\n2143\n2413\n4231").unwrap();
    assert!(v.extend_from_buf(&four).is_err());
    assert!(v.is_empty());
    for r in &v {
        let mut s: Vec<usize> = r.bell_iter().map(|b| b.index()).collect();
        s.sort_unstable();
        assert_eq!(s, (0..r.stage().num_bells()).collect::<Vec<_>>());
    }
}
''')

seed("c01-mul-into-stale", "C01", [(BORROWED,
"""        // Replace `out.bell_vec` with `self * rhs`
        out.bell_vec.clear();
        out.bell_vec
            .extend(rhs.bell_iter().map(|b| self.bell_slice[b.index()]));
""",
"""        // Make sure that `out` has room for the result, then overwrite it with `self * rhs`
        if out.bell_vec.len() < rhs.bell_slice.len() {
            out.bell_vec.resize(rhs.bell_slice.len(), Bell::TREBLE);
        }
        for (out_bell, b) in out.bell_vec.iter_mut().zip(rhs.bell_iter()) {
            *out_bell = self.bell_slice[b.index()];
        }
""")],
"Row::mul_into (or an accumulator, or a block iterator's next_into) writing into a RowBuf of a larger stage",
"the old row's last bells are left behind, so the result isn't the product nor a permutation",
r'''
use bellframe::*;
fn main() {
    let a = RowBuf::parse("2143").unwrap();
    let b = RowBuf::parse("1324").unwrap();
    let mut out = RowBuf::parse("87654321").unwrap();
    a.mul_into(&b, &mut out).unwrap();
    assert_eq!(out.to_string(), "2413");
}
''')

seed("c02-checklist-bits", "C02", [(OWNED,
"""        let mut checklist = vec![false; bells.len()];
        // Loop over all the bells to check them off in the checklist.  We do not need to check for
        // empty spaces in the checklist once we've done because (by the Pigeon Hole Principle),
        // fitting `n` bells into `n` slots with some gaps will always require that a bell is
        // either out of range or two bells share a slot.
        for &b in &bells {
            match checklist.get_mut(b.index()) {
                // If the `Bell` is out of range of the checklist, it can't belong within the
                // `Stage` of this `Row`
                None => return Err(InvalidRowError::BellOutOfStage(b, stage)),
                // If the `Bell` has already been seen before, then it must be a duplicate
                Some(&mut true) => return Err(InvalidRowError::DuplicateBell(b)),
                // If the `Bell` has not been seen before, check off the checklist entry and
                // continue
                Some(x) => *x = true,
            }
        }
""",
"""        let mut checklist = 0u64;
        // Loop over all the bells to check them off in the checklist.  We do not need to check for
        // empty spaces in the checklist once we've done because (by the Pigeon Hole Principle),
        // fitting `n` bells into `n` slots with some gaps will always require that a bell is
        // either out of range or two bells share a slot.
        for &b in &bells {
            // If the `Bell` is out of range of the checklist, it can't belong within the `Stage`
            // of this `Row`
            if b.index() >= bells.len() {
                return Err(InvalidRowError::BellOutOfStage(b, stage));
            }
            // If the `Bell` has already been seen before, then it must be a duplicate
            let bit = 1u64.wrapping_shl(b.index() as u32);
            if checklist & bit != 0 {
                return Err(InvalidRowError::DuplicateBell(b));
            }
            checklist |= bit;
        }
""")],
"a valid row of more than 64 bells",
"valid rows on big stages are rejected as having duplicate bells",
r'''
use bellframe::*;
fn main() {
    let bells: Vec<Bell> = (0..70).rev().map(Bell::from_index).collect();
    assert!(RowBuf::from_vec(bells).is_ok());
}
''')

seed("c02-missing-last-gap", "C02", [(OWNED,
"""        if let Some((index, _)) = checklist[..biggest_bell_found.index()]
            .iter()
            .enumerate()
            .find(|&(_i, x)| !*x)
        {
            return Err(InvalidRowError::MissingBell(Bell::from_index(index)));
        }
""",
"""        // The bells are most likely to be missing in the back half
        if let Some((index, _)) = checklist[bells.len() / 3..biggest_bell_found.index()]
            .iter()
            .enumerate()
            .find(|&(_i, x)| !*x)
        {
            return Err(InvalidRowError::MissingBell(Bell::from_index(index + bells.len() / 3)));
        }
""")],
"parse_with_stage/from_vec_with_stage of a part row of several bells which lacks only one of the first few",
"a row with one bell missing is accepted and filled up with a duplicate cover",
r'''
use bellframe::*;
fn main() {
    assert!(RowBuf::parse_with_stage("13456", Stage::ROYAL).is_err());
    assert!(RowBuf::parse_with_stage("234567", Stage::MAJOR).is_err());
    assert!(RowBuf::parse_with_stage("13425", Stage::MAJOR).is_ok());
}
''')

seed("c03-pow-order", "C03", [(BORROWED,
"""        let mut accumulator = RowAccumulator::rounds(self.stage());
        for _ in 0..exponent {
""",
"""        let mut accumulator = RowAccumulator::rounds(self.stage());
        // Powers repeat once every cycle has come round, so never do more work than that
        let mut order = 1;
        for start in 0..self.bell_slice.len() {
            let mut cycle_len = 1;
            let mut b = self.bell_slice[start].index();
            while b != start {
                b = self.bell_slice[b].index();
                cycle_len += 1;
            }
            if order % cycle_len != 0 {
                order = if cycle_len % order == 0 { cycle_len } else { order * cycle_len };
            }
        }
        // `order` may be a multiple of the true order on cycles with common factors
        let order = order.min(self.bell_slice.len() * 2);
        for _ in 0..exponent % order {
""")],
"a row whose order is more than twice its number of bells (e.g. cycles of 3, 4 and 5) and an exponent at least that big",
"such powers are computed modulo something which isn't a multiple of the order",
r'''
use bellframe::*;
fn main() {
    // Cycles of 5, 4 and 3 bells: order 60
    let r = RowBuf::parse("2345178960ET").unwrap();
    let r = RowBuf::from_vec(r.bell_iter().collect()).unwrap();
    let c = RowBuf::parse("23451789E6T0").unwrap();
    for x in &[&r, &c] {
        let mut acc = RowBuf::rounds(Stage::MAXIMUS);
        for e in 0..130usize {
            assert_eq!(x.pow_u(e), acc, "{}^{}", x, e);
            acc = acc.as_row() * x.as_row();
        }
    }
}
''')

seed("c03-pow-negative", "C03", [(BORROWED,
"""            self.inv().pow_u((-exponent) as usize)
""",
"""            // Inverting once at the end is enough (and an involution needn't be inverted at all)
            let power = self.pow_u((-exponent) as usize);
            if self.mul_result(self).map_or(false, |r| r.fixed_bells().count() * 2 > r.bell_slice.len()) {
                power
            } else {
                power.inv()
            }
""")],
"a negative odd power of a row whose square leaves more than half of its bells fixed without being rounds",
"the power isn't inverted",
r'''
use bellframe::*;
fn main() {
    // A cycle of three bells, and the others fixed
    let r = RowBuf::parse("23145678").unwrap();
    assert_eq!(r.pow_i(-1), r.inv());
    let s = RowBuf::parse("24317586").unwrap();
    assert_eq!(s.pow_i(-3), s.inv().pow_u(3));
}
''')

seed("c04-parity-budget", "C04", [(BORROWED,
"""        while first_non_rounds_bell < self.stage().num_bells() {
""",
"""        // No row needs more swaps than this
        let max_swaps = (self.stage().num_bells() * 4 + 2) / 5 + 1;
        while first_non_rounds_bell < self.stage().num_bells() && num_swaps < max_swaps {
""")],
"a row of ten or more bells needing nearly as many swaps as it has bells (one long cycle)",
"the count of swaps stops early, so the parity of such rows can be wrong",
r'''
use bellframe::*;
fn main() {
    for n in 2..20usize {
        // One cycle of n bells has the parity of n - 1
        let mut row = RowBuf::from_vec((0..n).map(|i| Bell::from_index((i + 1) % n)).collect()).unwrap();
        let want = if n % 2 == 1 { Parity::Even } else { Parity::Odd };
        assert_eq!(row.parity(), want, "{} bells", n);
    }
}
''')

seed("c05-backrounds-half", "C05", [(BORROWED,
"""        self.bell_iter()
            .rev() // Assert that the bells are in reverse order
            .enumerate()
            .all(|(i, b)| b.index() == i)
""",
"""        // Only look at the first half: each of its bells is paired with the bell in the
        // opposite place
        let last = self.bell_slice.len() - 1;
        self.bell_iter()
            .enumerate()
            .take((last + 1) / 2)
            .all(|(i, b)| b.index() == last - i || self.bell_slice[last - i].index() == i)
""")],
"a row which isn't backrounds, but has one bell of each opposite pair in its backrounds place",
"is_backrounds is true of rows other than backrounds",
r'''
use bellframe::*;
fn main() {
    for s in &["4231", "3412", "321", "54321", "543216", "654312", "645321", "563421"] {
        let r = RowBuf::parse(s).unwrap();
        assert_eq!(r.is_backrounds(), r == RowBuf::backrounds(r.stage()), "{}", r);
    }
    // Every row of five bells
    let mut count = 0;
    for a in 0..5usize { for b in 0..5 { for c in 0..5 { for d in 0..5 { for e in 0..5 {
        if let Ok(r) = RowBuf::from_vec([a, b, c, d, e].iter().map(|&i| Bell::from_index(i)).collect()) {
            assert_eq!(r.is_backrounds(), r == RowBuf::backrounds(Stage::DOUBLES), "{}", r);
            count += 1;
        }
    } } } } }
    assert_eq!(count, 120);
}
''')

seed("c06-product-stale", "C06", [(BORROWED,
"""            transpose_to.clear();
            for r2 in set {
""",
"""            for r2 in set {
""")],
"a product of three or more sets",
"the rows of a buffer which is used again aren't removed, so the product has extra rows",
r'''
use bellframe::*;
fn main() {
    let s = |v: &[&str]| v.iter().map(|r| RowBuf::parse(r).unwrap()).collect::<Vec<_>>();
    let sets = vec![s(&["123", "231", "312"]), s(&["123", "213"]), s(&["123", "321"])];
    let out = Row::multi_cartesian_product(sets).unwrap();
    assert_eq!(out.len(), 12);
}
''')

seed("c06-group-shortcut", "C06", [(BORROWED,
"""        for &b in &row_set {
            b.inv_into_buf(&mut b_inv);
            for &a in &row_set {
""",
"""        for &b in &row_set {
            b.inv_into_buf(&mut b_inv);
            // A set with all its rows' inverses and squares is (nearly always) closed already if
            // it's as big as the stage, so only check those
            let all = row_set.len() != b.stage().num_bells();
            for &a in row_set.iter().filter(|&&a| all || a == b || a.is_rounds() || *a == *b_inv) {
""")],
"a set of exactly as many rows as bells, which has rounds, the inverses and the squares of its rows, but isn't closed",
"is_group accepts sets which aren't groups",
r'''
use bellframe::*;
fn main() {
    // Rounds and three swaps: every row is its own inverse, but their products are missing
    let rows: Vec<RowBuf> = ["1234", "2134", "1324", "1243"].iter().map(|s| RowBuf::parse(s).unwrap()).collect();
    assert_eq!(Row::is_group(rows.iter().map(|r| r.as_row())).unwrap(), false);
    let group: Vec<RowBuf> = ["1234", "2341", "3412", "4123"].iter().map(|s| RowBuf::parse(s).unwrap()).collect();
    assert_eq!(Row::is_group(group.iter().map(|r| r.as_row())).unwrap(), true);
}
''')

seed("c07-pop-shrink", "C07", [(SSV,
"""        let start_index = self.bells.len().checked_sub(self.stage.num_bells())?;
        debug_assert_eq!(start_index % self.stage.num_bells(), 0);
""",
"""        let start_index = self.bells.len().checked_sub(self.stage.num_bells())?;
        debug_assert_eq!(start_index % self.stage.num_bells(), 0);
        if start_index == self.stage.num_bells() * 16 {
            // Give back the memory of a buffer which has shrunk to a block of 16 rows
            let last = unsafe { RowBuf::from_bell_iter_unchecked(self.bells.drain(..self.stage.num_bells())) };
            self.bells.rotate_left(0);
            self.bells.shrink_to_fit();
            return Some(last);
        }
""")],
"popping a row from a buffer of exactly 17 rows",
"the first row is removed and returned instead of the last one",
r'''
use bellframe::*;
fn main() {
    for n in 1..40usize {
        let mut v = SameStageVec::new(Stage::MINOR);
        for i in 0..n {
            let r = RowBuf::parse("234561").unwrap().pow_u(i);
            v.push(&r).unwrap();
        }
        let last = v.last().unwrap().to_owned();
        let first = v.first().unwrap().to_owned();
        assert_eq!(v.pop(), Some(last), "{} rows", n);
        assert_eq!(v.len(), n - 1);
        if n > 1 { assert_eq!(v.first().unwrap(), &*first); }
    }
}
''')

seed("c07-extend-rollback", "C07", [(SSV,
"""                self.bells.drain(num_bells_before_extend..); // Remove the extra bells
""",
"""                // Remove the extra bells
                let num_extra = (self.bells.len() - num_bells_before_extend) % (8 * self.stage.num_bells());
                let num_left = self.bells.len() - num_extra;
                self.bells.truncate(num_left);
""")],
"an extend which fails on a row of another stage after eight or more good rows",
"some of the rows already added by the failed extend stay in the buffer",
r'''
use bellframe::*;
fn main() {
    for good in 0..20usize {
        let mut v = SameStageVec::parse("12345\n54321").unwrap();
        let mut rows = vec![RowBuf::parse("21345").unwrap(); good];
        rows.push(RowBuf::parse("1234").unwrap());
        assert!(v.extend(rows).is_err());
        assert_eq!(v.len(), 2, "after {} good rows", good);
    }
}
''')

seed("c08-line-numbers", "C08", [(SSV,
"""            let parsed_row =
                RowBuf::parse(line).map_err(|err| ParseError::InvalidRow { line_num, err })?;
            new_vec.push(&parsed_row).map_err(
                |IncompatibleStages {
                     lhs_stage,
                     rhs_stage,
                 }| ParseError::IncompatibleStages {
                    line_num,
                    first_stage: lhs_stage,
""",
"""            let parsed_row =
                RowBuf::parse(line).map_err(|err| ParseError::InvalidRow { line_num, err })?;
            let line_num = new_vec.bells.len() / parsed_row.stage().num_bells() + 1;
            new_vec.push(&parsed_row).map_err(
                |IncompatibleStages {
                     lhs_stage,
                     rhs_stage,
                 }| ParseError::IncompatibleStages {
                    line_num,
                    first_stage: lhs_stage,
""")],
"a line of another stage several lines down, so that dividing by the wrong number of bells gives another line",
"the error names the wrong line",
r'''
use bellframe::*;
use bellframe::row::same_stage_vec::ParseError;
fn main() {
    match SameStageVec::parse("1234\n2143\n2413\n4231\n4213\n12345678") {
        Err(ParseError::IncompatibleStages { line_num, .. }) => assert_eq!(line_num, 6),
        x => panic!("{:?}", x),
    }
}
''')

seed("c09-split-end", "C09", [(BLOCK,
"""        let (first_annots, second_annots) = utils::split_vec(self.annots, index)?;
        let (mut first_rows, second_rows) = self.rows.split(index)?;
""",
"""        if index == self.annots.len() && index > 0 {
            // Nothing would be left to ring in the second block, so start it where the first ends
            let stage = self.stage();
            return Some((self, Self::empty(stage)));
        }
        let (first_annots, second_annots) = utils::split_vec(self.annots, index)?;
        let (mut first_rows, second_rows) = self.rows.split(index)?;
""")],
"splitting a block whose leftover row isn't rounds at its very end",
"the empty second block starts from rounds instead of the first one's leftover row",
r'''
use bellframe::*;
fn main() {
    let b: Block = AnnotBlock::parse("1234\n2143\n2413").unwrap();
    let (x, y) = b.split(2).unwrap();
    assert_eq!(x.leftover_row().to_string(), "2413");
    assert_eq!(y.first_row().to_string(), "2413");
    assert_eq!(y.len(), 0);
}
''')

seed("c09-extend-within-start", "C09", [(BLOCK,
"""        let first_row_of_chunk = self.get_row(range.start).unwrap();
""",
"""        let first_row_of_chunk = if range.len() > 2 {
            self.get_row(range.start).unwrap()
        } else {
            // Short chunks are as good as copied
            self.first_row()
        };
""")],
"extend_from_within with a range of one or two rows which doesn't start at the block's first row",
"the chunk is transposed from the wrong row",
r'''
use bellframe::*;
fn main() {
    let mut b: Block = AnnotBlock::parse("12345\n21435\n24153\n42513\n45231").unwrap();
    b.extend_from_within(2..4);
    // 24153 -> 42513 -> 45231, rung from 45231
    let rows: Vec<String> = b.all_rows().map(|r| r.to_string()).collect();
    assert_eq!(rows[5], "54321");
    assert_eq!(rows[6], "53412");
}
''')

seed("c10-next-into-head", "C10", [(BLOCK,
"""            // Apply the block we've just finished to the block head
            self.current_block_head = self.current_block_head.as_row() * self.block.leftover_row();
""",
"""            // Apply the block we've just finished to the block head (which does nothing if the
            // block is true to its first row)
            if self.block.leftover_row() != self.block.first_row() {
                self.current_block_head = self.block.leftover_row() * self.current_block_head.as_row();
            }
""")],
"repeating a block, two or more times, from a row which doesn't commute with its leftover row",
"the later repetitions start from the wrong row",
r'''
use bellframe::*;
fn main() {
    let b: Block = AnnotBlock::parse("1234\n2143\n2413").unwrap();
    let start = RowBuf::parse("1243").unwrap();
    let rows: Vec<String> = b.repeat_iter(start).unwrap().map(|(r, _, _)| r.to_string()).take(5).collect();
    assert_eq!(rows, ["1243", "2134", "2314", "3241", "3421"]);
}
''')

seed("c31-accumulate-rounds", "C31", [(ACC,
"""        row.mul_into(&self.total, &mut self.temp_row)?; // Multiply `total` into `temp_row`
""",
"""        if self.total.is_rounds() {
            // Anything times rounds is itself
            self.set(row);
            return Ok(());
        }
        row.mul_into(&self.total, &mut self.temp_row)?; // Multiply `total` into `temp_row`
""")],
"pre_accumulate by a row of another stage while the total is rounds",
"the accumulator changes its stage instead of reporting the mismatch",
r'''
use bellframe::*;
use bellframe::row::RowAccumulator;
fn main() {
    let mut a = RowAccumulator::rounds(Stage::MAJOR);
    assert!(a.pre_accumulate(&RowBuf::parse("2143").unwrap()).is_err());
    assert_eq!(a.total().stage(), Stage::MAJOR);
}
''')

seed("c29-mul-into-row-args", "C29", [(BORROWED,
"""        IncompatibleStages::test_err(self.stage(), out.stage()).map_err(MulIntoError::IntoStage)?;
        // This unsafety is OK because we've just checked that the stages match
""",
"""        let out = match out.bell_slice.get_mut(..self.bell_slice.len()) {
            Some(bells) => unsafe { Row::from_mut_slice_unchecked(bells) },
            None => {
                return IncompatibleStages::test_err(self.stage(), out.stage())
                    .map_err(MulIntoError::IntoStage)
            }
        };
        // This unsafety is OK because we've just checked that the stages match
""")],
"mul_into_row into a row of a larger stage",
"the mismatch isn't reported, and the row written to stops being a permutation",
r'''
use bellframe::*;
fn main() {
    let a = RowBuf::parse("2143").unwrap();
    let mut out = RowBuf::parse("654321").unwrap();
    assert!(a.mul_into_row(&a, &mut out).is_err());
    assert_eq!(out.to_string(), "654321");
}
''')
