"""Planted bugs: unusual inputs and sizes, written from the properties' statements after the checks
had been strengthened by the earlier lists."""
SSV = "src/row/same_stage_vec.rs"
BLOCK = "src/block.rs"
ROW = "src/row/borrowed.rs"
OWNED = "src/row/owned.rs"
ERRORS = "src/row/errors.rs"
ACC = "src/row/accumulator.rs"
MASK = "src/mask.rs"
MUSIC = "src/music.rs"
UTILS = "src/utils.rs"
BELL = "src/bell.rs"
STAGE = "src/stage.rs"
LIB = "src/method_lib/mod.rs"
SERDE = "src/method_lib/lib_serde.rs"
PN = "src/place_not.rs"
METHOD = "src/method/mod.rs"
CLASS = "src/method/class.rs"
CALL = "src/call.rs"
PARITY = "src/parity.rs"
CC = "src/method_lib/parse_cc_lib.rs"
SEEDS = []
JSON = ['serde_json = "1.0"']
def seed(id, prop, edits, needs, breaks, demo, features=(), deps=()):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo,
                      features=list(features), deps=list(deps)))

seed("c07-range-clamp", "C07", [(UTILS,
"""        Bound::Excluded(v) => *v,
        Bound::Unbounded => length,
""",
"""        Bound::Excluded(v) => (*v).min(length),
        Bound::Unbounded => length,
""")],
"extending by a half-open range which reaches past the end",
"the range is cut short instead of being refused with a panic",
r'''
use bellframe::*;
fn main() {
    let other = SameStageVec::parse("1234\n2143\n2413").unwrap();
    let mut v = other.clone();
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        v.extend_range_transposed(&RowBuf::rounds(Stage::MINIMUS), &other, 1..4).unwrap();
    }));
    assert!(r.is_err() && v.len() == 3);
}
''')

seed("c30-expiry", "C30", [(LIB,
"""        let json = std::fs::read_to_string(cache_path).ok()?;
""",
"""        // The library gets new methods every week, so fetch it again if this copy is stale
        let age = std::fs::metadata(&cache_path).and_then(|m| m.modified()).ok()?.elapsed();
        if age.map_or(false, |a| a.as_secs() > 30 * 24 * 60 * 60) {
            return None;
        }
        let json = std::fs::read_to_string(cache_path).ok()?;
""")],
"a cached library which was stored more than a month ago",
"the cached library isn't used",
r'''
use bellframe::*;
use std::time::{Duration, SystemTime};
fn main() {
    let dir = std::env::temp_dir().join(format!("bf-expiry-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    std::env::set_var("XDG_CACHE_HOME", &dir);
    std::env::set_var("HTTPS_PROXY", "http://127.0.0.1:9");
    let path = dir.join("cccbr-methods.json");
    std::fs::write(&path, r#"{"groups":[{"s":6,"c":2,"m":[{"n":"Plain","p":"x16x16x16,12"}]}]}"#).unwrap();
    let old = SystemTime::now() - Duration::from_secs(100 * 24 * 60 * 60);
    std::fs::File::options().write(true).open(&path).unwrap().set_modified(old).unwrap();
    let lib = MethodLib::cc_lib();
    std::fs::remove_dir_all(&dir).unwrap();
    assert!(lib.unwrap().get_by_title("Plain Bob Minor").is_ok());
}
''', features=["cc_lib", "method_lib_serde"])

seed("c13-times-sign", "C13", [(PN,
"""                'x' | 'X' | '-' => CharMeaning::Cross,
""",
"""                'x' | 'X' | '-' | '\\u{d7}' => CharMeaning::Cross,
""")],
"place notation which contains a multiplication sign",
"the unknown character is taken for a cross",
r'''
use bellframe::*;
fn main() {
    let p = PnBlock::parse("14\u{d7}.36", Stage::MINOR).unwrap();
    assert_eq!(p.len(), 2);
}
''')

seed("c13-double-plus", "C13", [(PN,
"""        if is_asymmetric {
            // Consume the asymmetric-block char, and any rogue delimiters after it
            tok_indices.next();
        }
""",
"""        if is_asymmetric {
            // Consume the asymmetric-block char, and any rogue delimiters after it
            while let Some((_i, CharMeaning::Asym)) = tok_indices.peek() {
                tok_indices.next();
            }
        }
""")],
"a part of place notation which starts with several pluses",
"the misplaced plus is accepted",
r'''
use bellframe::*;
fn main() {
    assert!(PnBlock::parse("++16.14,12", Stage::MINOR).is_err());
}
''')

seed("c16-differential-ends", "C16", [(CLASS,
"""    let all_working_cycles_equal_length = working_cycles
        .iter()
        .tuple_windows()
        .all(|(set1, set2)| set1.num_leads() == set2.num_leads());
""",
"""    let all_working_cycles_equal_length = match (working_cycles.first(), working_cycles.last()) {
        (Some(set1), Some(set2)) => set1.num_leads() == set2.num_leads(),
        _ => true,
    };
""")],
"three or more cycles of working bells, of which only a middle one has another length",
"the method isn't classified as Differential",
r'''
use bellframe::{method::class::FullClass, *};
fn main() {
    let lead: Block = PnBlock::parse("5.12367", Stage::TRIPLES).unwrap().to_block_from_rounds();
    assert_eq!(lead.leftover_row().to_string(), "2145376");
    assert!(FullClass::classify(&lead).is_differential());
}
''')

seed("c16-little-high", "C16", [(CLASS,
"""    let is_little = num_rows_in_each_place.contains(&0);
""",
"""    let is_little = num_rows_in_each_place.last() == Some(&0);
""")],
"a hunt bell other than the treble which visits the highest place but never the lead",
"the method isn't classified as Little",
r'''
use bellframe::{method::class::FullClass, *};
fn main() {
    let lead: Block = PnBlock::parse("-.1236.-.1236.-.1236.-.34", Stage::MINOR).unwrap().to_block_from_rounds();
    let hunts: Vec<String> = lead.leftover_row().fixed_bells().map(|b| b.to_string()).collect();
    assert_eq!(hunts, ["3"]);
    assert!(FullClass::classify(&lead).is_little());
}
''')

seed("c08-form-feed", "C08", [(SSV,
"""        let mut line_iter = s.lines().enumerate().map(|(idx, v)| (idx + 1, v));
""",
"""        // (A form feed, which starts a new page, ends a line too)
        let mut line_iter = s
            .split_terminator(&['\\n', '\\x0c'][..])
            .enumerate()
            .map(|(idx, v)| (idx + 1, v));
""")],
"text which contains a form feed",
"a form feed, which isn't a bell name and is to be ignored, ends a line",
r'''
use bellframe::*;
fn main() {
    let v = SameStageVec::parse("1234\n21\x0c43\n2413").unwrap();
    assert_eq!(v.len(), 3);
    assert_eq!(SameStageVec::parse("1234\x0c\n2143").unwrap().len(), 2);
}
''')

seed("c15-course-hash", "C15", [(METHOD,
"""        let mut plain_course = first_lead_with_indices;
        while !plain_course.leftover_row().is_rounds() {
""",
"""        let mut plain_course = first_lead_with_indices;
        let rounds_hash = RowBuf::rounds(self.stage()).fast_hash();
        while plain_course.leftover_row().fast_hash() != rounds_hash {
""")],
"a lead head on twenty-four or more bells which only moves bells at the back",
"the plain course stops after one lead",
r'''
use bellframe::*;
fn main() {
    let stage = Stage::new(32);
    let head: Vec<usize> = (0..30).chain([31, 30]).collect();
    let head = RowBuf::from_vec(head.into_iter().map(Bell::from_index).collect()).unwrap();
    let mut rows = SameStageVec::new(stage);
    rows.push(&RowBuf::rounds(stage)).unwrap();
    rows.push(&head).unwrap();
    let m = Method::with_name("Back".to_owned(), AnnotBlock::with_default_annots(rows));
    assert_eq!(m.plain_course().len(), 2);
}
''')

seed("c32-mask-trailing", "C32", [(MASK,
"""#[derive(Clone, Eq, PartialEq, Hash)]
pub struct Mask {
    bells: Vec<Option<Bell>>,
}
""",
"""#[derive(Clone)]
pub struct Mask {
    bells: Vec<Option<Bell>>,
}

impl Mask {
    /// The part of this `Mask` up to the last place which it fixes
    fn fixed_part(&self) -> &[Option<Bell>] {
        let len = self.bells.iter().rposition(Option::is_some).map_or(0, |i| i + 1);
        &self.bells[..len]
    }
}

impl PartialEq for Mask {
    fn eq(&self, other: &Self) -> bool {
        self.fixed_part() == other.fixed_part()
    }
}

impl Eq for Mask {}

impl std::hash::Hash for Mask {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        self.fixed_part().hash(state)
    }
}
""")],
"two masks of different stages which differ in the number of trailing wildcards alone",
"they compare equal",
r'''
use bellframe::*;
fn main() {
    assert_ne!(Mask::parse("1xxx"), Mask::parse("1xxxxx"));
    assert_eq!(Mask::parse("1xxx"), Mask::parse("1..."));
}
''')

seed("c01-swap-placeholder", "C01", [(ROW,
"""        self.bell_slice.swap(a, b);
""",
"""        if a != b {
            let bell = std::mem::replace(&mut self.bell_slice[a], Bell::TREBLE);
            self.bell_slice[a] = std::mem::replace(&mut self.bell_slice[b], bell);
        }
""")],
"a swap whose second place is out of range, the panic being caught",
"the row is left with two trebles",
r'''
use bellframe::*;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut r = RowBuf::parse("2134").unwrap();
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| r.swap(2, 4)));
    let mut bells: Vec<usize> = r.bell_iter().map(|b| b.index()).collect();
    bells.sort();
    assert_eq!(bells, [0, 1, 2, 3]);
}
''')

seed("c09-single-row", "C09", [(BLOCK,
"""        let length_of_self = rows.len().checked_sub(1)?;
""",
"""        let length_of_self = rows.len().checked_sub(1).filter(|len| *len > 0)?;
""")],
"making an annotated block of a buffer with a single row",
"no block is made, although it has its leftover row",
r'''
use bellframe::*;
fn main() {
    let rows = SameStageVec::from_row_buf(RowBuf::parse("2143").unwrap());
    let b = AnnotBlock::with_annots_from_indices(rows, |i| i).unwrap();
    assert!(b.is_empty());
}
''')

seed("c10-keep-covers", "C10", [(BLOCK,
"""        self.current_block_head
            .mul_into(untransposed_row, out)
            .unwrap();
""",
"""        let out_stage = out.stage();
        self.current_block_head
            .mul_into(untransposed_row, out)
            .unwrap();
        if out_stage > out.stage() {
            out.extend_to_stage(out_stage); // Keep the cover bells
        }
""")],
"the row buffer given to next_into being of a higher stage than the block",
"the rows come with cover bells",
r'''
use bellframe::*;
fn main() {
    let b: Block = Block::parse("1234\n2143\n2413").unwrap();
    let mut it = b.repeat_iter(RowBuf::rounds(Stage::MINIMUS)).unwrap();
    let mut out = RowBuf::rounds(Stage::MINOR);
    let _ = it.next_into(&mut out);
    assert_eq!(out.to_string(), "1234");
}
''')

seed("c23-hyphen", "C23", [(LIB,
"""        let stage_name = lower_case_title.rsplit(' ').next().unwrap();
""",
"""        let stage_name = lower_case_title.rsplit(&[' ', '-'][..]).next().unwrap();
""")],
"a title which ends in Twenty-two",
"the method is looked up among those on two bells and not found",
r'''
use bellframe::*;
fn main() {
    let lib = MethodLib::from_json(r#"{"groups":[{"s":22,"c":2,"m":[{"n":"Plain","p":"x"}]}]}"#).unwrap();
    assert!(lib.get_by_title("Plain Bob Twenty-two").is_ok());
}
''', features=["method_lib_serde"])

seed("c28-recursive-parse", "C28", [(MUSIC,
"""        Self::from_elems(s.chars().filter_map(|c| match c {
            'x' | '.' => Some(RegexElem::Any),
            '*' => Some(RegexElem::Glob),
            _ => Bell::from_name(c).map(RegexElem::Bell),
        }))
    }
""",
"""        let mut elems = Self::parse_reversed(s);
        elems.reverse();
        Self::from_elems(elems)
    }

    /// Parse the elements of `s`, last element first
    fn parse_reversed(s: &str) -> Vec<RegexElem> {
        let mut chars = s.chars();
        let c = match chars.next() {
            Some(c) => c,
            None => return Vec::new(),
        };
        let mut elems = Self::parse_reversed(chars.as_str());
        elems.extend(match c {
            'x' | '.' => Some(RegexElem::Any),
            '*' => Some(RegexElem::Glob),
            _ => Bell::from_name(c).map(RegexElem::Bell),
        });
        elems
    }
""")],
"a pattern's text of some hundred thousand characters",
"parsing it overflows the stack",
r'''
use bellframe::music::Regex;
fn main() {
    let text = "x1*".repeat(400_000);
    assert_eq!(Regex::parse(&text).elems().len(), 1_200_000);
}
''')

seed("c33-repeat-hint", "C33", [(BLOCK,
"""        let next_row = self.current_block_head.as_row() * untransposed_row;
        Some((next_row, source_idx, annot))
    }
""",
"""        let next_row = self.current_block_head.as_row() * untransposed_row;
        Some((next_row, source_idx, annot))
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
    }
""")],
"asking the iterator which repeats a block for its size hint",
"it claims to end with the current repeat",
r'''
use bellframe::*;
fn main() {
    let b: Block = Block::parse("1234\n2143\n2413").unwrap();
    let it = b.repeat_iter(RowBuf::rounds(Stage::MINIMUS)).unwrap();
    assert!(it.size_hint().1.map_or(true, |n| n >= it.take(9).count()));
}
''')

seed("c35-alternate", "C35", [(BLOCK,
"""                write!(f, "{:?}: {:?}", self.0, self.1)
""",
"""                if f.alternate() {
                    write!(f, "{:?}", self.0)
                } else {
                    write!(f, "{:?}: {:?}", self.0, self.1)
                }
""")],
"the alternate debug text of an annotated block",
"it doesn't contain the annotations",
r'''
use bellframe::*;
fn main() {
    let rows = SameStageVec::parse("1234\n2143\n2413").unwrap();
    let b = AnnotBlock::with_annots_from_indices(rows, |i| i + 77).unwrap();
    assert!(format!("{:#?}", b).contains("78"));
}
''')

seed("c29-mask-bigger", "C29", [(MASK,
"""    fn mul(self, rhs: &Row) -> Self::Output {
        assert_eq!(self.stage(), rhs.stage());
""",
"""    fn mul(self, rhs: &Row) -> Self::Output {
        assert!(self.stage() >= rhs.stage());
""")],
"multiplying a mask by a row of a lower stage",
"a mask of the row's stage is returned instead of a panic",
r'''
use bellframe::*;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| &Mask::parse("12xxxx") * &*RowBuf::parse("2143").unwrap());
    assert!(r.is_err());
}
''')

seed("c22-same-name", "C22", [(SERDE,
"""                    let methods = compact_methods
                        .into_iter()
                        .map(|comp_method| {
""",
"""                    let methods = compact_methods
                        .into_iter()
                        .unique_by(|comp_method| comp_method.name.as_str())
                        .map(|comp_method| {
""")],
"two methods of one stage and class with the same name but different titles",
"only one of them is written to JSON",
r'''
use bellframe::*;
fn main() {
    let lib = MethodLib::from_json(r#"{"groups":[{"s":6,"c":2,"m":[{"n":"Plain","p":"x"},{"n":"Plain","p":"x","t":"Other Minor"}]}]}"#).unwrap();
    let back = MethodLib::from_json(&lib.to_json().unwrap()).unwrap();
    assert!(back.get_by_title("Plain Bob Minor").is_ok() && back.get_by_title("Other Minor").is_ok());
}
''', features=["method_lib_serde"])

seed("c24-unique", "C24", [(LIB,
"""            .into_iter()
            .map(|Suggestion(vs)| vs)
            .collect_vec()
""",
"""            .into_iter()
            .map(|Suggestion(vs)| vs)
            .unique()
            .collect_vec()
""")],
"a library which has the same title on several stages",
"fewer suggestions are returned than were asked for",
r'''
use bellframe::*;
fn main() {
    let lib = MethodLib::from_json(r#"{"groups":[{"s":6,"c":2,"m":[{"n":"A","p":"x","t":"Odd"}]},{"s":8,"c":2,"m":[{"n":"A","p":"x","t":"Odd"}]}]}"#).unwrap();
    match lib.get_by_title_with_suggestions("Oddly Minor", 2) {
        Err(bellframe::method_lib::QueryError::NotFound(s)) => assert_eq!(s.len(), 2),
        _ => panic!(),
    }
}
''', features=["method_lib_serde"])
