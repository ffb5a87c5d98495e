"""Planted bugs: iterators, equality, joins, size thresholds and shortcuts."""
SSV = "src/row/same_stage_vec.rs"
BLOCK = "src/block.rs"
ROW = "src/row/borrowed.rs"
OWNED = "src/row/owned.rs"
ACC = "src/row/accumulator.rs"
MASK = "src/mask.rs"
MUSIC = "src/music.rs"
UTILS = "src/utils.rs"
BELL = "src/bell.rs"
STAGE = "src/stage.rs"
LIB = "src/method_lib/mod.rs"
SERDE = "src/method_lib/lib_serde.rs"
PN = "src/place_not.rs"
METHOD = "src/method/mod.rs"
CLASS = "src/method/class.rs"
SEEDS = []
JSON = ['serde_json = "1.0"']
def seed(id, prop, edits, needs, breaks, demo, features=(), deps=()):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo,
                      features=list(features), deps=list(deps)))

seed("c33-nth-overshoot", "C33", [(SSV,
"""    // PERF: Implement better routines for methods such as `nth`, etc. for which repeatedly calling
    // `next()` is unnecessarily slow.
""",
"""    // Skip rows without splitting them off one by one
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        let start = n.checked_mul(self.stage.num_bells())?;
        self.bells_left = self.bells_left.get(start..)?;
        self.next()
    }
""")],
"calling nth past the end of a row iterator and then using it again",
"the iterator isn't exhausted by an nth that goes past its end, so rows come back",
r'''
use bellframe::*;
fn main() {
    let rows = SameStageVec::parse("1234\n2143\n2413").unwrap();
    let mut iter = rows.iter();
    assert_eq!(iter.nth(5), None);
    assert_eq!(iter.next(), None);
}
''')

seed("c33-repeat-nth", "C33", [(BLOCK,
"""        let (source_idx, (untransposed_row, annot)) = self.next_untransposed_row()?;
        let next_row = self.current_block_head.as_row() * untransposed_row;
        Some((next_row, source_idx, annot))
    }
""",
"""        let (source_idx, (untransposed_row, annot)) = self.next_untransposed_row()?;
        let next_row = self.current_block_head.as_row() * untransposed_row;
        Some((next_row, source_idx, annot))
    }

    // Skip rows without allocating them
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        for _ in 0..n {
            if self.iter.next().is_none() {
                self.iter = Self::get_iter(self.block);
                self.iter.next()?;
            }
        }
        self.next()
    }
""")],
"skipping over the end of a block with nth (or skip or step_by) on a repeat iterator",
"the block's transposition isn't applied when the end of the block is skipped over",
r'''
use bellframe::*;
fn main() {
    let block: Block = PnBlock::parse("x18,12", Stage::MAJOR).unwrap().to_block_from_rounds();
    let start = RowBuf::rounds(Stage::MAJOR);
    let mut a = block.repeat_iter(start.clone()).unwrap();
    let b = block.repeat_iter(start).unwrap();
    let all: Vec<_> = b.take(30).collect();
    for chunk in all.chunks(3) {
        assert_eq!(a.nth(2), Some(chunk[2].clone()));
    }
}
''')

seed("c32-block-eq-leftover", "C32", [(BLOCK,
"""#[derive(Clone, Eq, PartialEq, Hash)]
pub struct AnnotBlock<A> {""",
"""#[derive(Clone, Eq, Hash)]
pub struct AnnotBlock<A> {"""), (BLOCK,
"""////////////////
// FORMATTING //
////////////////

impl<T> Debug for AnnotBlock<T>""",
"""impl<A: PartialEq> PartialEq for AnnotBlock<A> {
    // Blocks are equal if they ring the same rows with the same annotations
    fn eq(&self, other: &Self) -> bool {
        self.annots == other.annots && self.rows().eq(other.rows())
    }
}

////////////////
// FORMATTING //
////////////////

impl<T> Debug for AnnotBlock<T>""")],
"two blocks with the same rows but different leftover rows",
"they compare equal, although their hashes and what they ring next differ",
r'''
use bellframe::*;
fn main() {
    let a: Block = AnnotBlock::parse("1234\n2143\n2413").unwrap();
    let b: Block = AnnotBlock::parse("1234\n2143\n1234").unwrap();
    assert!(a != b);
}
''')

seed("c32-rowbuf-order", "C32", [(OWNED,
"""#[derive(Clone, Eq, PartialEq, PartialOrd, Ord, Hash)]
pub struct RowBuf {""",
"""#[derive(Clone, Eq, PartialEq, Hash)]
pub struct RowBuf {"""), (OWNED,
"""/* OTHER TRAITS */
""",
"""/* OTHER TRAITS */

// Order rows by stage first
impl Ord for RowBuf {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        (self.stage(), &self.bell_vec).cmp(&(other.stage(), &other.bell_vec))
    }
}

impl PartialOrd for RowBuf {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}
""")],
"an ordered map or set keyed by owned rows of several stages, looked up by borrowed rows",
"owned rows order differently from the borrowed rows they lend, so lookups miss",
r'''
use bellframe::*;
use std::collections::BTreeSet;
fn main() {
    let rows: Vec<RowBuf> = ["1", "12", "21", "123", "213", "321", "1234", "2143", "4321", "12345"]
        .iter().map(|s| RowBuf::parse(s).unwrap()).collect();
    let set: BTreeSet<RowBuf> = rows.iter().cloned().collect();
    for r in &rows {
        assert!(set.contains(r.as_row()));
    }
}
''')

seed("c34-extend-from-rounds", "C34", [(BLOCK,
"""        let range = utils::clamp_range(range, other.len());

        // `transposition` pre-multiplies `other`'s first row to `self`'s leftover row
        let transposition =
            Row::solve_xa_equals_b(other.get_row(range.start).unwrap(), self.leftover_row())?;
""",
"""        let range = utils::clamp_range(range, other.len());

        // `transposition` pre-multiplies `other`'s first row to `self`'s leftover row
        let transposition = if self.leftover_row().is_rounds() && self.stage() == other.stage() {
            // Nothing needs transposing if we're at rounds
            RowBuf::rounds(self.stage())
        } else {
            Row::solve_xa_equals_b(other.get_row(range.start).unwrap(), self.leftover_row())?
        };
""")],
"extending a block which ends at rounds by a range which doesn't start at rounds",
"the rows are appended untransposed, so the block jumps",
r'''
use bellframe::*;
fn main() {
    let lead: Block = PnBlock::parse("x16,12", Stage::MINOR).unwrap().to_block_from_rounds();
    let mut touch = Block::empty(Stage::MINOR);
    touch.extend_range(&lead, 2..).unwrap();
    assert!(touch.first_row().is_rounds());
}
''')

seed("c03-inverse-small-table", "C03", [(ROW,
"""        let mut inv_bells = vec![Bell::TREBLE; self.stage().num_bells()];
        for (i, b) in self.bell_slice.iter().enumerate() {
            inv_bells[b.index()] = Bell::from_index(i);
        }
""",
"""        // Build the table of places in bytes, to stay within a cache line
        let mut places = vec![0u8; self.stage().num_bells()];
        for (i, b) in self.bell_slice.iter().enumerate() {
            places[b.index()] = i as u8;
        }
        let inv_bells = places
            .into_iter()
            .map(|place| Bell::from_index(place as usize))
            .collect();
""")],
"a row of more than 256 bells",
"the inverse wraps, and isn't even a row",
r'''
use bellframe::*;
use std::convert::TryFrom;
fn main() {
    let row = RowBuf::backrounds(Stage::try_from(300).unwrap());
    assert!((&row * &!&row).is_rounds());
}
''')

seed("c07-path-small-index", "C07", [(SSV,
"""            || self.iter().map(|r| r.place_of(bell).unwrap()).collect_vec(),
""",
"""            || {
                let num_bells = self.stage().num_bells() as u16;
                // Find every occurrence of the bell at once.  Indices fit in a `u16`
                let indices = self.bells.iter().positions(|b| *b == bell);
                indices.map(|i| (i as u16 % num_bells) as usize).collect_vec()
            },
""")],
"the path of a bell through a buffer of more than 65,536 bells, on a stage which doesn't divide that",
"the places reported after that point are wrong",
r'''
use bellframe::*;
fn main() {
    let mut rows = SameStageVec::new(Stage::TRIPLES);
    let row = RowBuf::parse("2136547").unwrap();
    for _ in 0..10_000 { rows.push(&row).unwrap(); }
    assert!(rows.path_of(Bell::TREBLE).unwrap().into_iter().all(|p| p == 1));
}
''')

seed("c12-contains-bits", "C12", [(PN,
"""        self.places.contains(&place)
""",
"""        // Places are tested as bits of a word
        let places = self.places.iter().fold(0u64, |bits, p| bits | 1u64 << (p % 64));
        places & (1u64 << (place % 64)) != 0
""")],
"asking about a place exactly 64 (or a multiple) away from a place which is made",
"the notation claims to contain it, even outside of the stage",
r'''
use bellframe::*;
fn main() {
    let pn = PlaceNot::parse("14", Stage::MAJOR).unwrap();
    assert!(pn.contains(0));
    assert!(!pn.contains(64));
}
''')

seed("c12-permute-bits", "C12", [(PN,
"""        let mut places = self.places.iter().copied().peekable();
        let mut i = 0;
        while i < self.stage.num_bells() {
            if places.peek() == Some(&i) {
                // If this PN contains a place at this index, then the bell in this place stays
                // where it is, so no change is required.
                places.next();
                i += 1;
""",
"""        let places = self.places.iter().fold(0u64, |bits, p| bits | 1u64.wrapping_shl(*p as u32));
        let mut i = 0;
        while i < self.stage.num_bells() {
            if places & 1u64.wrapping_shl(i as u32) != 0 {
                // If this PN contains a place at this index, then the bell in this place stays
                // where it is, so no change is required.
                i += 1;
""")],
"applying a place notation to a row of more than 64 bells",
"places are repeated every 64 bells, so bells stay which should move",
r'''
use bellframe::*;
use std::convert::TryFrom;
fn main() {
    let stage = Stage::try_from(100).unwrap();
    let pn = PlaceNot::parse("12", stage).unwrap();
    let row = pn.transposition();
    assert_eq!(row[64], Bell::from_index(65));
}
''')

seed("c15-sub-lead-index", "C15", [(METHOD,
"""    sub_lead_idx: usize,
    label: Option<&'meth str>,
}
""",
"""    sub_lead_idx: u8, // Leads are short, and there are a lot of these
    label: Option<&'meth str>,
}
"""), (METHOD,
"""        Self {
            sub_lead_idx,
            label,
        }
""",
"""        Self {
            sub_lead_idx: sub_lead_idx as u8,
            label,
        }
"""), (METHOD,
"""        self.sub_lead_idx
    }
""",
"""        self.sub_lead_idx as usize
    }
""")],
"a method with more than 256 rows in its lead",
"the indices within the lead wrap",
r'''
use bellframe::*;
fn main() {
    let m = Method::from_place_not_string("Long".to_owned(), Stage::MINIMUS, &"x14".repeat(150)).unwrap();
    for (i, r) in m.plain_course().annot_rows().enumerate() {
        assert_eq!(r.annot().sub_lead_idx(), i % m.lead_len());
    }
}
''')

seed("c16-palindrome-parity", "C16", [(CLASS,
"""    for i in 0..path.len() {
        let rotated_reversed_path""",
"""    // The hunt bell turns between two rows, so every second rotation is enough
    for i in (0..path.len()).step_by(2) {
        let rotated_reversed_path""")],
"a hunt bell path which is only symmetrical about a row, such as 1 2 3 2",
"the path counts as not palindromic, so the method is Hybrid",
r'''
use bellframe::*;
use bellframe::method::class::{Class, FullClass};
fn main() {
    let b: Block = PnBlock::parse("x.14.14.x", Stage::MINIMUS).unwrap().to_block_from_rounds();
    assert_eq!(b.path_of(Bell::TREBLE).unwrap().0, vec![0, 1, 2, 1]);
    assert_eq!(FullClass::classify(&b).class(), Class::Alliance);
}
''')

seed("c18-combine-bits", "C18", [(MASK,
"""                // Check that `self` doesn't require this bell in a different place
                if !self
                    .bells
                    .iter()
                    .position(|&b| b == Some(b_other))
                    .map_or(true, |idx_self| i == idx_self)
                {
                    return false;
                }
""",
"""                // Check that `self` doesn't require this bell in a different place
                let fixed_elsewhere = self.bells.iter().enumerate().filter(|(idx, _)| *idx != i);
                let bells_elsewhere = fixed_elsewhere
                    .filter_map(|(_, b)| *b)
                    .fold(0u64, |bits, b| bits | 1u64.wrapping_shl(b.index() as u32));
                if bells_elsewhere & 1u64.wrapping_shl(b_other.index() as u32) != 0 {
                    return false;
                }
""")],
"masks of more than 64 bells, fixing bells whose numbers differ by 64",
"compatible masks are refused",
r'''
use bellframe::*;
use std::convert::TryFrom;
fn main() {
    let stage = Stage::try_from(70).unwrap();
    let a = Mask::fix_bells(stage, vec![Bell::from_index(1)]);
    let b = Mask::fix_bells(stage, vec![Bell::from_index(65)]);
    assert!(a.is_compatible_with(&b));
    assert!(a.combine(&b).is_some());
}
''')

seed("c23-ascii-lowercase", "C23", [(SERDE,
"""                    title.to_lowercase(),
""",
"""                    title.to_ascii_lowercase(),
""")],
"a title with a capital letter outside of ASCII",
"the method can't be found by its own title",
r'''
use bellframe::MethodLib;
fn main() {
    let lib = MethodLib::from_json(r#"{"groups":[{"s":8,"c":5,"m":[{"n":"Écluse","p":"x18,12"}]}]}"#).unwrap();
    assert!(lib.get_by_title("Écluse Surprise Major").is_ok());
    assert!(lib.get_by_title("écluse surprise major").is_ok());
}
''', features=["method_lib_serde"])

seed("c24-length-bound", "C24", [(LIB,
"""                Suggestion((
                    suggestion_title,
                    edit_distance(actual_title, suggestion_title_lower),
                ))
""",
"""                // Titles of very different lengths need at least one edit per extra letter, so
                // there's no need to compute the distance exactly
                let longest = actual_title.len().max(suggestion_title_lower.len());
                let shortest = actual_title.len().min(suggestion_title_lower.len());
                let distance = if longest - shortest > 16 {
                    longest - shortest
                } else {
                    edit_distance(actual_title, suggestion_title_lower)
                };
                Suggestion((suggestion_title, distance))
""")],
"a query much longer or shorter than a title of the library",
"the distance reported is less than the true one, and can rank that title too high",
r'''
use bellframe::MethodLib;
fn main() {
    let lib = MethodLib::from_json(r#"{"groups":[{"s":8,"c":5,"m":[{"n":"Abcdefgh","p":"x18,12"}]}]}"#).unwrap();
    match lib.get_by_title_with_suggestions("z", 1) {
        Err(bellframe::method_lib::QueryError::NotFound(v)) => assert_eq!(v, vec![("Abcdefgh Surprise Major", 23)]),
        _ => panic!(),
    }
}
''', features=["method_lib_serde"])

seed("c25-bell-byte-signed", "C25", [(BELL,
"""    fn visit_u8<E>(self, v: u8) -> Result<Self::Value, E>
    where
        E: Error,
    {
        try_parse_bell(v as i64)
    }
""",
"""    fn visit_u8<E>(self, v: u8) -> Result<Self::Value, E>
    where
        E: Error,
    {
        self.visit_i8(v as i8)
    }
""")],
"a format which keeps numbers as bytes, and a bell above 127",
"the bell can't be read back",
r'''
use bellframe::Bell;
use serde::de::{value::{Error, U8Deserializer}, Deserialize, IntoDeserializer};
fn main() {
    let d: U8Deserializer<Error> = 200u8.into_deserializer();
    assert_eq!(Bell::deserialize(d).unwrap(), Bell::from_number(200).unwrap());
}
''', features=["serde"], deps=['serde = "1.0"'])

seed("c05-run-len-byte", "C05", [(UTILS,
"""        .take_while(|&(i1, i2)| (i1 as isize - i2 as isize).abs() == 1)
""",
"""        .take_while(|&(i1, i2)| (i1 as isize - i2 as isize).abs() as u8 == 1)
""")],
"two neighbouring bells whose numbers differ by 257, so more than 257 bells",
"they count as a run",
r'''
use bellframe::*;
fn main() {
    assert_eq!(run_len(vec![Bell::from_index(0), Bell::from_index(257), Bell::from_index(3)]), 1);
}
''')

seed("c06-group-fast-hash", "C06", [(ROW,
"""        let mut frontier = VecDeque::<RowBuf>::new();
        // We seed""",
"""        let mut hashes = HashSet::<usize>::new(); // `fast_hash` is perfect
        let mut frontier = VecDeque::<RowBuf>::new();
        // We seed"""), (ROW,
"""                if !set.contains(&new_row) {
""",
"""                if hashes.insert(new_row.fast_hash()) && !set.contains(&new_row) {
""")],
"a group of rows on many bells (e.g. 32) which differ only in their last places",
"rows of the group which share their hash with another one are missing",
r'''
use bellframe::*;
use std::convert::TryFrom;
fn main() {
    let stage = Stage::try_from(32).unwrap();
    let mut v: Vec<usize> = (0..32).collect();
    v[29..].rotate_left(1);
    let row = RowBuf::from_bell_iter(v.iter().map(|&i| Bell::from_index(i))).unwrap();
    let mut w: Vec<usize> = (0..32).collect();
    w.swap(20, 21);
    let swap = RowBuf::from_bell_iter(w.iter().map(|&i| Bell::from_index(i))).unwrap();
    assert_eq!(row.stage(), stage);
    let rows = [row.as_row(), swap.as_row()];
    assert_eq!(Row::least_group_containing(rows.iter().copied()).unwrap().len(), 6);
}
''')

seed("c06-is-group-rounds-first", "C06", [(ROW,
"""            for &a in &row_set {
                // This unsafety is OK because we checked that all the stages match at the start of
""",
"""            for &a in &row_set {
                if a.is_rounds() && row_set.len() < 5 {
                    continue; // Multiplying by rounds can't leave the set
                }
                // This unsafety is OK because we checked that all the stages match at the start of
""")],
"a small set of rows containing rounds and closed but for inverses, such as rounds and one 3-cycle",
"it's called a group although an inverse is missing",
r'''
use bellframe::*;
fn main() {
    let rows: Vec<RowBuf> = ["1234", "1342"].iter().map(|s| RowBuf::parse(s).unwrap()).collect();
    assert!(!Row::is_group(rows.iter().map(|r| r.as_row())).unwrap());
}
''')

seed("c01-copy-into-longer", "C01", [(ROW,
"""        other.bell_vec.clear();
        other.bell_vec.extend_from_slice(&self.bell_slice);
""",
"""        // Overwrite in place as far as possible
        let len = other.bell_vec.len().min(self.bell_slice.len());
        other.bell_vec[..len].copy_from_slice(&self.bell_slice[..len]);
        other.bell_vec.extend_from_slice(&self.bell_slice[len..]);
""")],
"copying a row over one of a larger stage which doesn't end in cover bells",
"the result keeps the tail of the old row, and isn't a row",
r'''
use bellframe::*;
fn main() {
    let mut out = RowBuf::parse("654321").unwrap();
    RowBuf::parse("2143").unwrap().copy_into(&mut out);
    assert_eq!(out, RowBuf::parse("2143").unwrap());
}
''')

seed("c29-extend-empty", "C29", [(SSV,
"""        IncompatibleStages::test_err(self.stage, other.stage)?;
        self.bells.extend(other.bells.iter().copied()); // Copy bells across in one go
""",
"""        if other.is_empty() {
            return Ok(()); // Nothing to copy
        }
        IncompatibleStages::test_err(self.stage, other.stage)?;
        self.bells.extend(other.bells.iter().copied()); // Copy bells across in one go
""")],
"extending a row buffer by an empty one of another stage",
"the mismatch isn't reported",
r'''
use bellframe::*;
fn main() {
    let mut a = SameStageVec::parse("1234").unwrap();
    assert!(a.extend_from_buf(&SameStageVec::new(Stage::MINOR)).is_err());
}
''')

seed("c08-blank-end", "C08", [(SSV,
"""        let mut line_iter = s.lines().enumerate()""",
"""        let mut line_iter = s.trim_end().lines().enumerate()""")],
"text with blank lines at its end",
"they are dropped rather than reported as the empty lines they are",
r'''
use bellframe::*;
fn main() {
    assert!(SameStageVec::parse("1234\n2143\n\n").is_err());
}
''')

seed("c10-head-order", "C10", [(BLOCK,
"""            self.current_block_head = self.current_block_head.as_row() * self.block.leftover_row();
""",
"""            self.current_block_head = self.block.leftover_row() * self.current_block_head.as_row();
""")],
"repeating from a starting row which doesn't commute with the block's transposition",
"the second and later rounds start from the wrong row",
r'''
use bellframe::*;
fn main() {
    let block: Block = PnBlock::parse("x16,12", Stage::MINOR).unwrap().to_block_from_rounds();
    let start = RowBuf::parse("213456").unwrap();
    let (row, _, _) = block.repeat_iter(start.clone()).unwrap().nth(block.len()).unwrap();
    assert_eq!(row, &start * block.leftover_row());
}
''')

seed("c13-apex-repeat", "C13", [(PN,
"""                pns.extend(sym_block_buf.drain(..).rev().skip(1));
""",
"""                let apex = sym_block_buf.last().cloned();
                pns.extend(sym_block_buf.drain(..).rev().skip_while(|pn| Some(pn) == apex.as_ref()));
""")],
"a symmetric part whose last two changes are the same",
"the repeated change isn't repeated after the half-lead",
r'''
use bellframe::*;
fn main() {
    let b = PnBlock::parse("12.34.34,16", Stage::MINOR).unwrap();
    assert_eq!(b.len(), 6);
}
''')

seed("c17-name-space", "C17", [(METHOD,
"""    if !name.is_empty() {
        s.push(' ');
    }
""",
"""    if !name.is_empty() && !name.ends_with('-') {
        s.push(' ');
    }
""")],
"a name which ends in a hyphen",
"the space between name and class is missing",
r'''
use bellframe::Stage;
use bellframe::method::generate_title;
use bellframe::method::class::{Class, FullClass};
fn main() {
    let class = FullClass::new(false, false, false, Class::Bob);
    assert_eq!(generate_title("A-", class, Stage::MINOR), "A- Bob Minor");
}
''')

seed("c22-class-ids", "C22", [(SERDE,
"""        Class::TreblePlace => 6,
        Class::Alliance => 7,
""",
"""        Class::Alliance => 6,
        Class::TreblePlace => 7,
"""), (SERDE,
"""        6 => Class::TreblePlace,
        7 => Class::Alliance,
""",
"""        6 => Class::Alliance,
        7 => Class::TreblePlace,
""")],
"a library document with Treble Place or Alliance methods, written by another version",
"the classes of its methods are exchanged, although what is written reads back",
r'''
use bellframe::MethodLib;
fn main() {
    let lib = MethodLib::from_json(r#"{"groups":[{"s":6,"c":6,"m":[{"n":"A","p":"x16,12"}]}]}"#).unwrap();
    assert!(lib.get_by_title("A Treble Place Minor").is_ok());
}
''', features=["method_lib_serde"])

seed("c20-choice-byte", "C20", [(UTILS,
"""        denominator *= i; // computes""",
"""        denominator = denominator.saturating_mul(i) & u32::MAX as usize; // computes""")],
"a pattern with a dozen or more globs, on a stage of two dozen or more bells",
"the binomial is divided by a truncated factorial",
r'''
use bellframe::*;
use bellframe::music::Regex;
use std::convert::TryFrom;
fn main() {
    // 13 fixed bells with globs all around them, and 13 others: 13! * (26 choose 13)
    let r = Regex::parse("*1*2*3*4*5*6*7*8*9*0*E*T*A*");
    let n = r.num_matching_rows(Stage::try_from(26).unwrap());
    assert_eq!(n, Some(6227020800 * 10400600));
}
''')

seed("c02-covers-empty", "C02", [(OWNED,
"""        let cover_bells = (bells.len()..stage.num_bells()).map(Bell::from_index);
""",
"""        let cover_bells = (bells.len()..stage.num_bells().min(bells.len() + 64)).map(Bell::from_index);
""")],
"parsing with a stage more than 64 bells larger than what is written",
"the row is shorter than the stage asked for",
r'''
use bellframe::*;
use std::convert::TryFrom;
fn main() {
    let stage = Stage::try_from(100).unwrap();
    assert_eq!(RowBuf::parse_with_stage("21", stage).unwrap().stage(), stage);
}
''')

seed("c14-two-step-cross", "C14", [(PN,
"""            unsafe { pn.permute_unchecked(&mut current_row) };
            rows.push""",
"""            if pn.is_cross() && rows.len() > 1 && rows.len() % 256 == 0 {
                // Start each chunk of rows from the stored row, to avoid rounding up errors
                current_row = rows.get(rows.len() - 2).unwrap().to_owned();
            }
            unsafe { pn.permute_unchecked(&mut current_row) };
            rows.push""")],
"a block of more than 256 changes with a cross as its 256th change",
"one change is applied to the wrong row",
r'''
use bellframe::*;
fn main() {
    let b = PnBlock::parse(&"14.x.".repeat(200), Stage::MINIMUS).unwrap();
    let rows = b.to_rows(RowBuf::rounds(Stage::MINIMUS)).unwrap();
    for (i, pn) in b.place_nots().enumerate() {
        assert_eq!(rows[i + 1], *pn.permute_new(&rows[i]).unwrap());
    }
}
''')

seed("c27-le-single-notation", "C27", [("src/call.rs",
"""        Self::new(
            NOTATION_SINGLE,
            LABEL_LEAD_END.to_owned(),
            pn_block.len(),
            pn_block.to_block_from_rounds(),
        )
""",
"""        let block = pn_block.to_block_from_rounds();
        let notation = match block.leftover_row().to_owned().parity() {
            crate::Parity::Even if pn_block.len() > 1 => NOTATION_BOB, // Even calls are bobs
            _ => NOTATION_SINGLE,
        };
        Self::new(notation, LABEL_LEAD_END.to_owned(), pn_block.len(), block)
""")],
"a single of several changes whose product is an even row",
"it's written as a bob",
r'''
use bellframe::*;
fn main() {
    let c = Call::le_single(PnBlock::parse("14.14", Stage::MINIMUS).unwrap());
    assert_eq!(c.notation(), 's');
}
''')

seed("c26-stage-lower-hyphen", "C26", [(STAGE,
"""            "twenty-two" => Stage(22),

            _ => return None,
""",
"""            "twenty-two" => Stage(22),

            // Tolerate surrounding spaces
            _ if name.trim() != name => return Self::from_lower_case_name(name.trim()),
            _ => return None,
""")],
"a stage name with spaces around it",
"text which isn't the name of a stage is taken for one",
r'''
use bellframe::Stage;
fn main() { assert_eq!(Stage::from_lower_case_name(" minor"), None); }
''')

seed("c09-split-annots-end", "C09", [(BLOCK,
"""        let first_row_of_second = second_rows.first().unwrap(); // Unwrap is safe because
""",
"""        let first_row_of_second = match second_rows.len() {
            // The second block is empty, so nothing follows
            1 => first_rows.last().unwrap_or_else(|| second_rows.first().unwrap()).to_owned(),
            _ => second_rows.first().unwrap().to_owned(),
        };
        let first_row_of_second = first_row_of_second.as_row(); // Unwrap is safe because
""")],
"splitting a block at its very end",
"the first part's leftover row repeats its last row",
r'''
use bellframe::*;
fn main() {
    let b: Block = AnnotBlock::parse("1234\n2143\n2413").unwrap();
    let (first, second) = b.clone().split(2).unwrap();
    assert!(second.is_empty());
    assert_eq!(first, b);
}
''')

seed("c11-odd-cross-text", "C11", [(PN,
"""        if s.len() == 1 && s.chars().next().map(CharMeaning::from) == Some(CharMeaning::Cross) {
""",
"""        let mut meanings = s.chars().map(CharMeaning::from).filter(|m| *m != CharMeaning::Unknown);
        if meanings.next() == Some(CharMeaning::Cross) && meanings.all(|m| m != CharMeaning::Cross) {
""")],
"a cross followed by places in one text, such as x14",
"the places are dropped, and the cross alone is returned",
r'''
use bellframe::*;
fn main() {
    assert_eq!(PlaceNot::parse("x14", Stage::MINOR).map(|p| p.is_cross()).ok(), Some(false));
}
''')

seed("c05-fixed-bells-end", "C05", [(ROW,
"""            .filter(|&(idx, bell)| idx == bell.index())
            .map(|(_idx, bell)| *bell)
""",
"""            .filter(|&(idx, bell)| idx & 0xff == bell.index() & 0xff)
            .map(|(_idx, bell)| *bell)
""")],
"a row of more than 256 bells with a bell 256 places from home",
"that bell counts as fixed",
r'''
use bellframe::*;
fn main() {
    let mut v: Vec<usize> = (0..300).collect();
    v.swap(0, 256);
    let r = RowBuf::from_bell_iter(v.into_iter().map(Bell::from_index)).unwrap();
    assert_eq!(r.fixed_bells().count(), 298);
}
''')

seed("c04-parity-saturate", "C04", [(ROW,
"""        let mut num_swaps = 0;
""",
"""        let mut num_swaps = 0u8;
"""), (ROW,
"""                num_swaps += 1;
""",
"""                num_swaps = num_swaps.saturating_add(1);
"""), (ROW,
"""        Parity::from_number(num_swaps)
""",
"""        Parity::from_number(num_swaps as usize)
""")],
"a row which needs more than 255 swaps, so more than 256 bells",
"the number of swaps saturates, so its parity is always odd",
r'''
use bellframe::*;
use std::convert::TryFrom;
fn main() {
    let mut r = RowBuf::backrounds(Stage::try_from(1000).unwrap());
    assert_eq!(r.parity(), Parity::Even);
}
''')
