"""Planted bugs: sizes and histories found thin by recording which sizes reach which functions."""
SSV = "src/row/same_stage_vec.rs"
BLOCK = "src/block.rs"
ROW = "src/row/borrowed.rs"
OWNED = "src/row/owned.rs"
ERRORS = "src/row/errors.rs"
ACC = "src/row/accumulator.rs"
MASK = "src/mask.rs"
MUSIC = "src/music.rs"
UTILS = "src/utils.rs"
BELL = "src/bell.rs"
STAGE = "src/stage.rs"
LIB = "src/method_lib/mod.rs"
SERDE = "src/method_lib/lib_serde.rs"
PN = "src/place_not.rs"
METHOD = "src/method/mod.rs"
CLASS = "src/method/class.rs"
CALL = "src/call.rs"
PARITY = "src/parity.rs"
CC = "src/method_lib/parse_cc_lib.rs"
SEEDS = []
JSON = ['serde_json = "1.0"']
def seed(id, prop, edits, needs, breaks, demo, features=(), deps=()):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo,
                      features=list(features), deps=list(deps)))

seed("c02-stamps", "C02", [(OWNED,
"""        let mut checklist = vec![false; bells.len()];
        // Loop over all the bells to check them off in the checklist.  We do not need to check for
""",
"""        thread_local! {
            // The checklist is re-used: a bell is checked off if it has the current stamp
            static CHECKLIST: std::cell::RefCell<(u8, Vec<u8>)> = Default::default();
        }
        let (stamp, mut checklist) = CHECKLIST.with(|c| std::mem::take(&mut *c.borrow_mut()));
        let stamp = if stamp == u8::MAX { 1 } else { stamp + 1 };
        if checklist.len() < bells.len() {
            checklist.resize(bells.len(), 0);
        }
        // Loop over all the bells to check them off in the checklist.  We do not need to check for
"""), (OWNED,
"""        for &b in &bells {
            match checklist.get_mut(b.index()) {
                // If the `Bell` is out of range of the checklist, it can't belong within the
                // `Stage` of this `Row`
                None => return Err(InvalidRowError::BellOutOfStage(b, stage)),
                // If the `Bell` has already been seen before, then it must be a duplicate
                Some(&mut true) => return Err(InvalidRowError::DuplicateBell(b)),
                // If the `Bell` has not been seen before, check off the checklist entry and
                // continue
                Some(x) => *x = true,
            }
        }
""",
"""        let mut problem = None;
        for &b in &bells {
            match checklist[..bells.len()].get_mut(b.index()) {
                // If the `Bell` is out of range of the checklist, it can't belong within the
                // `Stage` of this `Row`
                None => problem = Some(InvalidRowError::BellOutOfStage(b, stage)),
                // If the `Bell` has already been seen before, then it must be a duplicate
                Some(x) if *x == stamp => problem = Some(InvalidRowError::DuplicateBell(b)),
                // If the `Bell` has not been seen before, check off the checklist entry and
                // continue
                Some(x) => *x = stamp,
            }
            if problem.is_some() {
                break;
            }
        }
        CHECKLIST.with(|c| *c.borrow_mut() = (stamp, checklist));
        if let Some(e) = problem {
            return Err(e);
        }
""")],
"a long row, then exactly 254 shorter ones, then a long row again, all on one thread",
"the last of them is refused for a bell it hasn't got twice",
r'''
use bellframe::*;
fn main() {
    assert!(RowBuf::parse("1234567890").is_ok());
    for _ in 0..254 {
        assert!(RowBuf::parse("1234").is_ok());
    }
    assert!(RowBuf::parse("2143658709").is_ok());
}
''')

seed("c12-place-count-byte", "C12", [(PN,
"""        let mut places = self.places.iter().copied().peekable();
        let mut i = 0;
        while i < self.stage.num_bells() {
            if places.peek() == Some(&i) {
                // If this PN contains a place at this index, then the bell in this place stays
                // where it is, so no change is required.
                places.next();
                i += 1;
""",
"""        let mut next_place = 0u8; // Index into `self.places`
        let mut i = 0;
        while i < self.stage.num_bells() {
            if self.places.get(next_place as usize) == Some(&i) {
                // If this PN contains a place at this index, then the bell in this place stays
                // where it is, so no change is required.
                next_place = next_place.wrapping_add(1);
                i += 1;
""")],
"a change with more than 256 places",
"the places from the 257th on are not made",
r'''
use bellframe::*;
fn main() {
    let r1 = RowBuf::rounds(Stage::new(302));
    let mut r2 = r1.clone();
    r2.swap(0, 1);
    let pn = PlaceNot::pn_between(&r1, &r2).unwrap();
    assert_eq!(pn.permute_new(&r1).unwrap(), r2);
}
''')

seed("c24-ask-byte", "C24", [(LIB,
"""        let mut suggestion_shortlist = Shortlist::new(num_suggestions);
""",
"""        let mut suggestion_shortlist = Shortlist::new(num_suggestions.min(u8::MAX as usize));
""")],
"asking for more than 255 suggestions of a library which has more methods than that",
"only 255 are returned",
r'''
use bellframe::{method_lib::QueryError, MethodLib};
fn main() {
    let ms: Vec<String> = (0..300).map(|i| format!("{{\"n\":\"M{}\",\"p\":\"x\"}}", i)).collect();
    let lib = MethodLib::from_json(&format!("{{\"groups\":[{{\"s\":6,\"c\":2,\"m\":[{}]}}]}}", ms.join(","))).unwrap();
    match lib.get_by_title_with_suggestions("Nothing", 280) {
        Err(QueryError::NotFound(s)) => assert_eq!(s.len(), 280),
        _ => panic!(),
    }
}
''', features=["method_lib_serde"])

seed("c04-visited-word", "C04", [(ROW,
"""        // Invariants: self.bells[..first_non_rounds_bell] is sorted
        let mut num_swaps = 0;
        let mut first_non_rounds_bell = 0;
        while first_non_rounds_bell < self.stage().num_bells() {
            let cur_bell = self.bell_slice[first_non_rounds_bell];
            if cur_bell == Bell::from_index(first_non_rounds_bell) {
                // Check if the current bell is sorted, then just move on to the next one
                first_non_rounds_bell += 1;
            } else {
                // If this bell isn't in its right place, then swap it and keep going
                self.swap(first_non_rounds_bell, cur_bell.index());
                num_swaps += 1;
            }
        }
        Parity::from_number(num_swaps)
""",
"""        // A cycle of `n` bells needs `n - 1` swaps.  Small rows have their bells checked off in
        // the bits of one number, others fall back to sorting
        let num_bells = self.stage().num_bells();
        let mut num_swaps = 0;
        if num_bells <= 192 {
            let mut visited = 0u128;
            for start in 0..num_bells {
                let mut place = start;
                while visited & 1u128.rotate_left(place as u32) == 0 {
                    visited |= 1u128.rotate_left(place as u32);
                    place = self.bell_slice[place].index();
                    num_swaps += if place == start { 0 } else { 1 };
                }
            }
            for (i, b) in self.bell_slice.iter_mut().enumerate() {
                *b = Bell::from_index(i);
            }
            return Parity::from_number(num_swaps);
        }
        for place in 0..num_bells {
            while self.bell_slice[place].index() != place {
                let bell = self.bell_slice[place].index();
                self.swap(place, bell);
                num_swaps += 1;
            }
        }
        Parity::from_number(num_swaps)
""")],
"a row of 130 to 192 bells, two of the ones from the 129th on being in one cycle",
"its parity is wrong",
r'''
use bellframe::*;
fn main() {
    let mut odd = vec![];
    for n in [5usize, 64, 128, 129, 130] {
        let mut r = RowBuf::rounds(Stage::new(n));
        r.swap(n - 2, n - 1);
        if r.parity() == bellframe::Parity::Odd {
            odd.push(n);
        }
        let mut r = RowBuf::rounds(Stage::new(n));
        r.swap(0, n - 1);
        assert!(r.parity() == bellframe::Parity::Odd, "{}", n);
    }
    assert_eq!(odd, [5, 64, 128, 129, 130]);
    let mut r = RowBuf::rounds(Stage::new(140));
    r.swap(0, 130);
    r.swap(0, 135);
    r.swap(0, 138);
    assert!(r.parity() == bellframe::Parity::Odd);
}
''')

seed("c31-pre-backrounds", "C31", [(ACC,
"""        row.mul_into(&self.total, &mut self.temp_row)?; // Multiply `total` into `temp_row`
""",
"""        if row.is_backrounds() {
            // Backrounds turns every bell into the one as far from the other end
            let top = row.stage().num_bells();
            let bells = self.total.bell_iter().map(|b| b.index());
            if let Some(bells) = bells.map(|b| (top - 1).checked_sub(b)).collect::<Option<Vec<_>>>() {
                let bells = bells.into_iter().map(crate::Bell::from_index);
                // This unsafety is OK because different bells are turned into different bells
                self.total = unsafe { RowBuf::from_bell_iter_unchecked(bells) };
                return Ok(());
            }
        }
        row.mul_into(&self.total, &mut self.temp_row)?; // Multiply `total` into `temp_row`
""")],
"pre-accumulating backrounds of a larger stage than the total",
"no error is returned, and the total isn't a row any more",
r'''
use bellframe::{row::RowAccumulator, *};
fn main() {
    let mut a = RowAccumulator::rounds(Stage::MINOR);
    assert!(a.pre_accumulate(&RowBuf::backrounds(Stage::MAJOR)).is_err());
    assert!(a.total().is_rounds());
}
''')

seed("c05-effective-span", "C05", [(ROW,
"""        for (i, b) in self.bell_slice.iter().enumerate().rev() {
            if b.index() != i {
                // The `+ 1` is needed because `i` is 0-indexed
                return Stage::new(i + 1);
            }
        }
        // If the loop reached the front of the row, then the effective stage is 1
        Stage::ONE
""",
"""        // Go through the row eight bells at a time, then search the chunk that was found
        let chunks = self.bell_slice.chunks(8);
        let last_chunk = (0u8..)
            .zip(chunks)
            .filter(|(c, chunk)| (*c as usize * 8..).zip(*chunk).any(|(i, b)| b.index() != i))
            .last();
        match last_chunk {
            // The `+ 1` is needed because `i` is 0-indexed
            Some((c, chunk)) => (c as usize * 8..)
                .zip(chunk)
                .filter(|(i, b)| b.index() != *i)
                .last()
                .map_or(Stage::ONE, |(i, _)| Stage::new(i + 1)),
            // If every chunk is rounds, then the effective stage is 1
            None => Stage::ONE,
        }
""")],
"a row of more than 2,048 bells",
"its effective stage is wrong (or finding it panics)",
r'''
use bellframe::*;
fn main() {
    for n in [16, 2_048, 2_100] {
        let mut r = RowBuf::rounds(Stage::new(n));
        r.swap(n - 2, n - 3);
        assert_eq!(r.effective_stage().num_bells(), n - 1);
    }
}
''')

seed("c07-extend-count-byte", "C07", [(SSV,
"""        let num_bells_before_extend = self.bells.len(); // Used to revert the `Bell` slice
        for r in row_iter.into_iter() {
            let row = r.as_ref();
            if let Err(e) = IncompatibleStages::test_err(self.stage, row.stage()) {
                self.bells.drain(num_bells_before_extend..); // Remove the extra bells
                return Err(e); // End the iteration
            }
            self.bells.extend(row.bell_iter());
        }
""",
"""        let mut num_added = 0u8; // Used to revert the `Bell` slice
        for r in row_iter.into_iter() {
            let row = r.as_ref();
            if let Err(e) = IncompatibleStages::test_err(self.stage, row.stage()) {
                // Remove the extra bells
                let num_bells_added = num_added as usize * self.stage.num_bells();
                self.bells.truncate(self.bells.len() - num_bells_added);
                return Err(e); // End the iteration
            }
            self.bells.extend(row.bell_iter());
            num_added = num_added.wrapping_add(1);
        }
""")],
"extending by more than 255 rows of the right stage followed by one of another stage",
"rows added before the error are kept",
r'''
use bellframe::*;
fn main() {
    let mut v = SameStageVec::new(Stage::MINIMUS);
    let mut rows = vec![RowBuf::rounds(Stage::MINIMUS); 300];
    rows.push(RowBuf::rounds(Stage::MINOR));
    assert!(v.extend(rows).is_err());
    assert_eq!(v.len(), 0);
}
''')

seed("c01-inverse-byte", "C01", [(ROW,
"""        let mut inv_bells = vec![Bell::TREBLE; self.stage().num_bells()];
        for (i, b) in self.bell_slice.iter().enumerate() {
            inv_bells[b.index()] = Bell::from_index(i);
        }
""",
"""        let mut inv_bells = vec![Bell::TREBLE; self.stage().num_bells()];
        for (i, b) in (0..=255u8).cycle().zip(self.bell_slice.iter()) {
            inv_bells[b.index()] = Bell::from_index(i as usize);
        }
""")],
"inverting a row of more than 256 bells",
"the inverse has bells twice",
r'''
use bellframe::*;
fn main() {
    let r = RowBuf::backrounds(Stage::new(300)).inv();
    let mut bells: Vec<usize> = r.bell_iter().map(|b| b.index()).collect();
    bells.sort();
    assert_eq!(bells, (0..300).collect::<Vec<_>>());
}
''')

seed("c36-first-text", "C36", [(CC,
"""                .get_child("notation", NAMESPACE)
                .expect("Couldn't find `notation` element")
                .text();
""",
"""                .get_child("notation", NAMESPACE)
                .expect("Couldn't find `notation` element")
                .texts()
                .next()
                .unwrap_or_default()
                .to_owned();
""")],
"a place notation part of which is in a CDATA section",
"the rest of the text is lost",
r'''
fn main() {
    let xml = r#"<collection xmlns="http://www.cccbr.org.uk/methods/schemas/2007/05/methods" date="2020-01-01">
<methodSet><properties><stage>6</stage><classification>Bob</classification></properties>
<method><title>Plain Bob Minor</title><name>Plain</name><notation>x16x16<![CDATA[x16]]>,12</notation></method>
</methodSet></collection>"#;
    let lib = bellframe::parse_cc_lib(xml);
    assert_eq!(lib.get_by_title("Plain Bob Minor").unwrap().lead_len(), 12);
}
''', features=["cc_lib_gen"])


seed("c10-step-flag", "C10", [(BLOCK,
"""        let next_row = self.current_block_head.as_row() * untransposed_row;
        Some((next_row, source_idx, annot))
""",
"""        let next_row = self.current_block_head.as_row() * untransposed_row;
        if source_idx == u16::MAX as usize {
            // Don't let the head's buffer keep growing
            self.current_block_head = next_row.clone();
        }
        Some((next_row, source_idx, annot))
""")],
"repeating a block of more than 65,536 rows",
"the rows after the 65,536th are transposed by the wrong row",
r'''
use bellframe::*;
fn main() {
    let rows = "123\n213\n231\n321\n312\n132\n".repeat(11_000) + "123";
    let block = Block::parse(&rows).unwrap();
    let mut it = block.repeat_iter(RowBuf::rounds(Stage::SINGLES)).unwrap();
    for i in 0..65_999 {
        assert_eq!(it.next().unwrap().0.as_row(), block.get_row(i).unwrap());
    }
}
''')

seed("c26-stage-trim", "C26", [(STAGE,
"""    pub fn from_lower_case_name(name: &str) -> Option<Stage> {
        Some(match name {
""",
"""    pub fn from_lower_case_name(name: &str) -> Option<Stage> {
        Some(match name.trim_end_matches('\\u{feff}') {
""")],
"a stage's name followed by a byte order mark",
"it is taken for the stage",
r'''
use bellframe::*;
fn main() {
    assert_eq!(Stage::from_lower_case_name("major\u{feff}"), None);
}
''')

seed("c27-location-trim", "C27", [(CALL,
"""        Call {
            notation,
            location,
""",
"""        Call {
            notation,
            location: location.trim_end_matches('\\0').to_owned(),
""")],
"a call whose location ends in a NUL",
"the location is reported without it",
r'''
use bellframe::*;
fn main() {
    let c = Call::new('-', "LE\0".to_owned(), 1, Block::empty(Stage::MINOR));
    assert_eq!(c.location(), "LE\0");
}
''')
