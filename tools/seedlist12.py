"""Planted bugs, twelfth list."""
PN = "src/place_not.rs"
MUSIC = "src/music.rs"
BLOCK = "src/block.rs"
SSV = "src/row/same_stage_vec.rs"
ROW = "src/row/borrowed.rs"
SEEDS = []
def seed(id, prop, edits, needs, breaks, demo, features=(), deps=()):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo,
                      features=list(features), deps=list(deps)))

seed("c13-find-offset", "C13", [(PN,
"""            let byte_offset = sym_block.as_ptr() as usize - address_of_start_of_s;
""",
"""            let byte_offset = s.find(sym_block).unwrap_or(0);
"""), (PN,
"""        let address_of_start_of_s = s.as_ptr() as usize;
""", "")],
"a block with a fault whose text also occurs, faultless, as a part of an earlier block (`8154,815`)",
"the error points at the earlier block",
r'''
use bellframe::*;
use bellframe::place_not::PnBlockParseError;
fn main() {
    match PnBlock::parse("8154,815", Stage::MAJOR) {
        Err(PnBlockParseError::PnError(range, _)) => assert_eq!(range, 5..8),
        x => panic!("{:?}", x),
    }
}
''')

seed("c21-internal-short", "C21", [(MUSIC,
"""        let mut runs = Vec::with_capacity(num_bells.saturating_sub(3) * 2);
        // Iterate over every bell which could start a run
        for i in 0..=num_bells - len {
            // An iterator that yields the bells forming this run in ascending order
            let run_iterator = (i..i + len).map(Bell::from_index).map(RegexElem::Bell);

            // These patterns must be normalised, because runs of length 0 would otherwise produce
""",
"""        // Runs of nearly all the bells have no room to be anywhere but at an end
        if num_bells > 12 && len + 2 >= num_bells {
            return Self::runs_front_or_back(stage, len);
        }

        let mut runs = Vec::with_capacity(num_bells.saturating_sub(3) * 2);
        // Iterate over every bell which could start a run
        for i in 0..=num_bells - len {
            // An iterator that yields the bells forming this run in ascending order
            let run_iterator = (i..i + len).map(Bell::from_index).map(RegexElem::Bell);

            // These patterns must be normalised, because runs of length 0 would otherwise produce
""")],
"internal runs of all but two of thirteen or more bells",
"the run with one bell either side of it is missed",
r'''
use bellframe::*;
use bellframe::music::Regex;
fn main() {
    let row = RowBuf::parse("D234567890ETABC1").unwrap();
    assert_eq!(row.stage().num_bells(), 16);
    let runs = Regex::runs(row.stage(), 14, true);
    assert!(runs.iter().any(|r| r.matches(&row)));
}
''')

seed("c33-rfind", "C33", [(SSV,
"""impl<'v> DoubleEndedIterator for Iter<'v> {
""",
"""impl<'v> DoubleEndedIterator for Iter<'v> {
    fn rfind<P: FnMut(&Self::Item) -> bool>(&mut self, mut predicate: P) -> Option<Self::Item> {
        let stage = self.stage.num_bells();
        let (idx, row) = self
            .bells_left
            .chunks_exact(stage)
            .map(|r| unsafe { Row::from_slice_unchecked(r) })
            .enumerate()
            .rev()
            .find(|(_, row)| predicate(row))?;
        self.bells_left = &self.bells_left[..idx * stage];
        Some(row)
    }

""")],
"a search from the back of an iterator over rows which finds nothing, after which the iterator is used again",
"the rows searched are yielded again",
r'''
use bellframe::*;
fn main() {
    let v = SameStageVec::parse("1234\n2143\n2413").unwrap();
    let mut it = v.iter();
    assert!(it.rfind(|r| r.is_rounds()).is_some());
    assert!(it.next().is_none());
    let mut it = v.iter();
    assert!(it.rfind(|_| false).is_none());
    assert!(it.next().is_none());
}
''')

seed("c34-within-rounds", "C34", [(BLOCK,
"""        let transposition =
            Row::solve_xa_equals_b(first_row_of_chunk, self.leftover_row()).unwrap();
""",
"""        let transposition = if range.start == 0 && self.leftover_row().is_rounds() {
            // The touch has come round, so its start can be rung again as it stands
            RowBuf::rounds(self.stage())
        } else {
            Row::solve_xa_equals_b(first_row_of_chunk, self.leftover_row()).unwrap()
        };
""")],
"repeating the start of a touch which came round, but started from another row than rounds (a snap start)",
"what is rung after rounds jumps to the touch's first row",
r'''
use bellframe::*;
fn main() {
    let mut block: Block = Block::parse("2143\n2413\n4231\n1234").unwrap();
    block.extend_from_within(0..2);
    let want: Block = Block::parse("2143\n2413\n4231\n1234\n1324\n3142").unwrap();
    assert_eq!(block.row_vec(), want.row_vec());
}
''')

seed("c10-clone-restarts", "C10", [(BLOCK,
"""#[derive(Clone)]
pub struct RepeatIter<'b, A> {
""",
"""pub struct RepeatIter<'b, A> {
"""), (BLOCK,
"""impl<'b, A> Iterator for RepeatIter<'b, A> {
""",
"""impl<'b, A> Clone for RepeatIter<'b, A> {
    fn clone(&self) -> Self {
        Self {
            current_block_head: self.current_block_head.clone(),
            // `skip` how many rows we've already yielded
            iter: {
                let mut iter = Self::get_iter(self.block);
                let num_left = self.iter.len();
                if num_left < self.block.len() && num_left > 0 {
                    iter.nth(self.block.len() - num_left - 1);
                }
                iter
            },
            block: self.block,
        }
    }
}

impl<'b, A> Iterator for RepeatIter<'b, A> {
""")],
"copying the iterator just after the last row of a round",
"the copy rings that round again",
r'''
use bellframe::*;
fn main() {
    let block: Block = Block::parse("1234\n2143\n2413\n4231").unwrap();
    let mut it = block.repeat_iter(RowBuf::rounds(Stage::MINIMUS)).unwrap();
    for k in 0..20 {
        let mut copy = it.clone();
        for (r, i, _) in copy.by_ref().take(5) {
            let _ = (r, i);
        }
        let a: Vec<_> = it.clone().take(5).map(|(r, i, _)| (r, i)).collect();
        let mut full = block.repeat_iter(RowBuf::rounds(Stage::MINIMUS)).unwrap();
        for _ in 0..k { full.next(); }
        let b: Vec<_> = full.take(5).map(|(r, i, _)| (r, i)).collect();
        assert_eq!(a, b, "{}", k);
        it.next();
    }
}
''')
