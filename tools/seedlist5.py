"""Planted bugs: iterators, equality, joins, size thresholds and shortcuts."""
SSV = "src/row/same_stage_vec.rs"
BLOCK = "src/block.rs"
ROW = "src/row/borrowed.rs"
OWNED = "src/row/owned.rs"
ACC = "src/row/accumulator.rs"
MASK = "src/mask.rs"
MUSIC = "src/music.rs"
UTILS = "src/utils.rs"
BELL = "src/bell.rs"
STAGE = "src/stage.rs"
LIB = "src/method_lib/mod.rs"
SERDE = "src/method_lib/lib_serde.rs"
PN = "src/place_not.rs"
METHOD = "src/method/mod.rs"
CLASS = "src/method/class.rs"
SEEDS = []
JSON = ['serde_json = "1.0"']
def seed(id, prop, edits, needs, breaks, demo, features=(), deps=()):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo,
                      features=list(features), deps=list(deps)))


ERRORS = "src/row/errors.rs"

seed("c35-pn-index", "C35", [(PN,
"""                write!(f, "Error parsing PN at index {}: {}", range.start, err)
""",
"""                write!(f, "Error parsing PN at index {}: {}", range.end, err)
""")],
"formatting the error of a place notation block which isn't valid",
"the message points after the place notation which is at fault",
r'''
use bellframe::*;
fn main() {
    let err = PnBlock::parse("x.14.148.58", Stage::MAJOR).unwrap_err();
    let text = err.to_string();
    assert!(text.contains("index 5"), "{}", text);
}
''')

seed("c35-stage-debug", "C35", [(STAGE,
"""            14 => "FOURTEEN",
            15 => "SEPTUPLES",
""",
"""            14 => "SEPTUPLES",
            15 => "FOURTEEN",
""")],
"debug-formatting the stage of 14 or 15 bells",
"the debug form of two stages names the constant of another",
r'''
use bellframe::*;
fn main() {
    assert_eq!(format!("{:?}", Stage::SEPTUPLES), "Stage::SEPTUPLES");
    assert_eq!(format!("{:?}", Stage::FOURTEEN), "Stage::FOURTEEN");
}
''')

seed("c35-line-roles", "C35", [(SSV,
"""                    line, different_stage, first_stage
""",
"""                    line, first_stage, different_stage
""")],
"formatting the error of parsing rows of different stages",
"the message swaps the stage of the wrong row and that of the first",
r'''
use bellframe::*;
fn main() {
    let text = SameStageVec::parse("1234\n21435").unwrap_err().to_string();
    let doubles = text.find("Doubles");
    let minus = text.find("Minimus");
    assert!(doubles.is_some() || minus.is_none(), "{}", text);
    assert!(doubles < minus, "{}", text);
}
''')

seed("c35-out-of-stage", "C35", [(ERRORS,
"""                write!(f, "Bell '{}' is not within stage {}", bell, stage)
""",
"""                write!(f, "Bell '{}' is not within stage {}", bell.number(), stage)
""")],
"formatting the error of a bell above 9 which isn't within the stage",
"the message names the bell by number rather than by its name",
r'''
use bellframe::*;
fn main() {
    let text = RowBuf::parse("123E").unwrap_err().to_string();
    assert!(text.contains("'E'"), "{}", text);
}
''')

seed("c06-lagrange", "C06", [(ROW,
"""        // Now perform the group check by verifying that `a * !b` is in the set for all a, b in
""",
"""        // By Lagrange's theorem, the size of a group has to divide the extent
        if let Some(stage) = first_stage {
            let extent = (1..=stage.num_bells()).fold(1usize, |acc, n| acc.wrapping_mul(n));
            if extent != 0 && extent % row_set.len() != 0 {
                return Ok(false);
            }
        }
        // Now perform the group check by verifying that `a * !b` is in the set for all a, b in
""")],
"a group on 21 to 65 bells whose order doesn't divide the wrapped factorial",
"is_group rejects some groups when the factorial of the stage overflows",
r'''
use bellframe::*;
fn main() {
    for n in [21u8, 22, 23, 24, 25, 26, 27, 28, 29, 30] {
        let stage = Stage::new(n as usize);
        // A rotation of three bells, one of seven, one of five
        for len in [3usize, 5, 7] {
            let mut v: Vec<Bell> = stage.bells().collect();
            v[..len].rotate_left(1);
            let a = RowBuf::from_bell_iter(v.into_iter()).unwrap();
            let rows: Vec<RowBuf> = (0..len).map(|i| a.pow_u(i)).collect();
            assert!(Row::is_group(rows.iter().map(|r| r.as_row())).unwrap(), "{} {}", n, len);
        }
    }
}
''')

seed("c03-pow-lcm-narrow", "C03", [(ROW,
"""        // TODO/PERF: Implement this using repeated squaring
        let mut accumulator = RowAccumulator::rounds(self.stage());
        for _ in 0..exponent {
""",
"""        // Powers repeat after the order of `self`: the least common multiple of its cycles
        let mut order = 1u16;
        let mut seen = vec![false; self.stage().num_bells()];
        for start in 0..seen.len() {
            let mut len = 0u16;
            let mut place = start;
            while !seen[place] {
                seen[place] = true;
                place = self[place].index();
                len += 1;
            }
            if len > 1 {
                let (mut a, mut b) = (order, len);
                while b != 0 {
                    let rem = a % b;
                    a = b;
                    b = rem;
                }
                order = (order / a).wrapping_mul(len);
            }
        }
        let exponent = match order {
            0 => exponent,
            _ => exponent % order as usize,
        };
        // TODO/PERF: Implement this using repeated squaring
        let mut accumulator = RowAccumulator::rounds(self.stage());
        for _ in 0..exponent {
""")],
"an exponent close to the order of a row whose order is over 65,535",
"powers of rows with a huge order are taken modulo a truncated order",
r'''
use bellframe::*;
fn main() {
    // Cycles of 2, 3, 5, 7, 11, 13 and 17 bells: the order is 510,510
    let stage = Stage::new(58);
    let mut v: Vec<Bell> = stage.bells().collect();
    let mut at = 0;
    for len in [2usize, 3, 5, 7, 11, 13, 17] {
        v[at..at + len].rotate_left(1);
        at += len;
    }
    let row = RowBuf::from_bell_iter(v.into_iter()).unwrap();
    let mut expect = RowBuf::rounds(stage);
    let exp = 65_000;
    for _ in 0..exp {
        expect = expect.as_row() * row.as_row();
    }
    assert_eq!(row.pow_u(exp), expect);
}
''')

seed("c32-eq-hash", "C32", [(ROW,
"""#[derive(Eq, PartialEq, PartialOrd, Ord, Hash)]
#[repr(transparent)] // Required so we can cast between &[Bell] and &Row in a memory-safe way
pub struct Row {
""",
"""#[allow(clippy::derived_hash_with_manual_eq)]
#[derive(Eq, PartialOrd, Ord, Hash)]
#[repr(transparent)] // Required so we can cast between &[Bell] and &Row in a memory-safe way
pub struct Row {
"""), (ROW,
"""impl Row {
    /// Returns the [`Stage`] of this `Row`.
""",
"""impl PartialEq for Row {
    #[inline]
    fn eq(&self, other: &Self) -> bool {
        // Two words to compare rather than every bell
        self.bell_slice.len() == other.bell_slice.len() && self.fast_hash() == other.fast_hash()
    }
}

impl Row {
    /// Returns the [`Stage`] of this `Row`.
""")],
"comparing two rows on 16 or more bells with the same fast hash",
"different rows on many bells compare as equal when their hashes collide",
r'''
use bellframe::*;
fn main() {
    let stage = Stage::new(32);
    let a = RowBuf::rounds(stage);
    let mut v: Vec<Bell> = stage.bells().collect();
    v.swap(28, 31);
    let b = RowBuf::from_bell_iter(v.into_iter()).unwrap();
    assert!(a.as_row() != b.as_row());
    let mut v: Vec<Bell> = Stage::SIXTEEN.bells().collect();
    v.swap(8, 15);
    let b = RowBuf::from_bell_iter(v.into_iter()).unwrap();
    assert!(RowBuf::rounds(Stage::SIXTEEN).as_row() != b.as_row());
}
''')

seed("c25-bell-u32", "C25", [(BELL,
"""        Bell::from_number(v as usize).ok_or(E::custom("can't have Bell #0"))
""",
"""        Bell::from_number(v as u32 as usize).ok_or(E::custom("can't have Bell #0"))
""")],
"deserialising a bell number above 4,294,967,295",
"huge numbers come back as another bell",
r'''
use bellframe::*;
fn main() {
    let text = "4294967301";
    if let Ok(bell) = serde_json::from_str::<Bell>(text) {
        assert_eq!(bell.number(), 4294967301);
    }
    let bell = Bell::from_number(4294967300).unwrap();
    let json = serde_json::to_string(&bell).unwrap();
    if let Ok(back) = serde_json::from_str::<Bell>(&json) {
        assert_eq!(back, bell);
    }
}
''', features=["serde"], deps=JSON)

seed("c15-head-cycle", "C15", [(METHOD,
"""        let lead_head = self.lead_head().pow_u(num_leads);
""",
"""        // The lead heads repeat once every working bell has rung every place bell
        let working_bells = self
            .lead_head()
            .bell_iter()
            .enumerate()
            .filter(|(i, b)| b.index() != *i)
            .count();
        let lead_head = self.lead_head().pow_u(num_leads % working_bells.max(1));
""")],
"a method whose lead head has cycles of coprime lengths, and a row beyond the working bells' leads",
"rows late in the plain course of a differential method come from the wrong lead",
r'''
use bellframe::*;
use bellframe::method::class::{Class, FullClass};
fn main() {
    let class = FullClass::new(false, false, false, Class::Principle);
    for pn in ["3.5.145.145.345", "125.1.3.1.5", "125.345.145.5.1"] {
        let block = PnBlock::parse(pn, Stage::DOUBLES).unwrap().to_block_from_rounds();
        let meth: Method = Method::new("X".to_owned(), "X".to_owned(), class, block);
        for idx in 0..100 {
            let (leads, sub) = (idx / meth.lead_len(), idx % meth.lead_len());
            let expected = meth.lead_head().pow_u(leads).as_row() * meth.row_in_plain_lead(sub);
            assert_eq!(meth.row_in_plain_course(idx), expected, "{} {}", pn, idx);
        }
    }
}
''')

seed("c17-class-in-name", "C17", [(METHOD,
"""    let len_before_class = s.len();
    class.fmt_name(&mut s, true).unwrap();
    if s.len() > len_before_class {
""",
"""    let len_before_class = s.len();
    class.fmt_name(&mut s, true).unwrap();
    // Don't repeat the class if it's the last word of the name
    if !name.is_empty() && name.ends_with(&s[len_before_class..]) {
        s.truncate(len_before_class);
    }
    if s.len() > len_before_class {
""")],
"a method whose name ends with its class",
"the class is left out of the title of e.g. 'Bob' Bob Minor",
r'''
use bellframe::*;
use bellframe::method::{class::{Class, FullClass}, generate_title};
fn main() {
    let class = FullClass::new(false, false, false, Class::Surprise);
    assert_eq!(generate_title("Big Surprise", class, Stage::MINOR), "Big Surprise Surprise Minor");
    let class = FullClass::new(false, false, false, Class::Bob);
    assert_eq!(generate_title("Plain", class, Stage::MINOR), "Plain Bob Minor");
}
''')

seed("c24-len-filter", "C24", [(LIB,
"""        for methods in self.method_map.values() {
            suggestion_shortlist.append(methods.iter().map(|(stored_title, method)| {
                Suggestion::new(lower_case_title, stored_title, &method.title)
            }));
        }
""",
"""        for methods in self.method_map.values() {
            suggestion_shortlist.append(methods.iter().filter_map(|(stored_title, method)| {
                // Titles whose length is too different can't be close enough to suggest
                let len_diff = stored_title.len().max(lower_case_title.len())
                    - stored_title.len().min(lower_case_title.len());
                if len_diff > 24 {
                    return None;
                }
                Some(Suggestion::new(lower_case_title, stored_title, &method.title))
            }));
        }
""")],
"suggestions for a title much shorter than the methods of the library, or more suggestions than titles of a similar length",
"methods with a title much longer than the query are never suggested",
r'''
use bellframe::MethodLib;
fn main() {
    let lib = MethodLib::from_json(r#"{"groups":[{"s":8,"c":5,"m":[{"n":"Abcdefghijklmnopq","p":"x18,12"}]}]}"#).unwrap();
    match lib.get_by_title_with_suggestions("z", 1) {
        Err(bellframe::method_lib::QueryError::NotFound(v)) => {
            assert_eq!(v.len(), 1);
            assert_eq!(v[0].0, "Abcdefghijklmnopq Surprise Major");
        }
        _ => panic!(),
    }
}
''', features=["method_lib_serde"])

seed("c30-lossy", "C30", [(LIB,
"""        let json = std::fs::read_to_string(cache_path).ok()?;
        Self::from_json(&json).ok()
""",
"""        let bytes = std::fs::read(cache_path).ok()?;
        Self::from_json(&String::from_utf8_lossy(&bytes)).ok()
""")],
"a cache file whose only damage is bytes of a title that aren't UTF-8",
"a damaged cache is loaded with garbled titles",
r'''
use bellframe::*;
fn main() {
    let dir = std::env::temp_dir().join(format!("c30lossy{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut json = br#"{"groups":[{"s":6,"c":2,"m":[{"n":"Plain","p":"x16x16x16,12"},{"n":"XX","p":"x16,12"}]}]}"#.to_vec();
    let at = json.windows(2).position(|w| w == b"XX").unwrap();
    json[at] = 0xff;
    std::fs::write(dir.join("cccbr-methods.json"), json).unwrap();
    std::env::set_var("XDG_CACHE_HOME", &dir);
    std::env::set_var("http_proxy", "http://127.0.0.1:9");
    std::env::set_var("https_proxy", "http://127.0.0.1:9");
    let lib = MethodLib::cc_lib();
    std::fs::remove_dir_all(&dir).unwrap();
    assert!(lib.is_none());
}
''', ["serde", "method_lib_serde", "cc_lib"])

seed("c18-mul-rounds-stage", "C18", [(MASK,
"""    fn mul(self, rhs: &Row) -> Self::Output {
        assert_eq!(self.stage(), rhs.stage());
        Mask {
""",
"""    fn mul(self, rhs: &Row) -> Self::Output {
        // Permuting by rounds changes nothing
        if rhs.is_rounds() {
            return self.clone();
        }
        assert_eq!(self.stage(), rhs.stage());
        Mask {
""")],
"permuting a mask by rounds of another stage",
"no panic for a mask times rounds of another stage",
r'''
use bellframe::*;
fn main() {
    let mask = Mask::parse("1xx4");
    let res = std::panic::catch_unwind(|| &mask * RowBuf::rounds(Stage::MINOR).as_row());
    assert!(res.is_err());
    assert_eq!(&mask * RowBuf::rounds(Stage::MINIMUS).as_row(), mask);
}
''')

seed("c12-still-change-stage", "C12", [(PN,
"""        IncompatibleStages::test_err(row.stage(), self.stage)?;
        unsafe { self.permute_unchecked(row) };
        Ok(())
""",
"""        // Nothing moves if every place is made
        if self.places.len() == self.stage.num_bells() {
            return Ok(());
        }
        IncompatibleStages::test_err(row.stage(), self.stage)?;
        unsafe { self.permute_unchecked(row) };
        Ok(())
""")],
"permuting a row of another stage by a change in which every place is made",
"the stage mismatch isn't reported for a change which moves nothing",
r'''
use bellframe::*;
fn main() {
    let pn = PlaceNot::parse("1234", Stage::MINIMUS).unwrap();
    let mut row = RowBuf::rounds(Stage::MINOR);
    assert!(pn.permute(&mut row).is_err());
    let mut row = RowBuf::rounds(Stage::MINIMUS);
    assert!(pn.permute(&mut row).is_ok());
}
''')

seed("c29-premul-rounds", "C29", [(SSV,
"""    pub fn pre_multiply(&mut self, lhs_row: &Row) -> Result<(), IncompatibleStages> {
        IncompatibleStages::test_err(lhs_row.stage(), self.stage())?;
""",
"""    pub fn pre_multiply(&mut self, lhs_row: &Row) -> Result<(), IncompatibleStages> {
        // Nothing changes if the buffer is empty
        if self.bells.is_empty() {
            return Ok(());
        }
        IncompatibleStages::test_err(lhs_row.stage(), self.stage())?;
""")],
"pre-multiplying an empty buffer by a row of another stage",
"the stage mismatch isn't reported for an empty buffer",
r'''
use bellframe::*;
fn main() {
    let mut rows = SameStageVec::new(Stage::MINOR);
    assert!(rows.pre_multiply(&RowBuf::rounds(Stage::MAJOR)).is_err());
    assert!(rows.pre_multiply(&RowBuf::rounds(Stage::MINOR)).is_ok());
}
''')

seed("c29-extend-buf-empty", "C29", [(SSV,
"""        IncompatibleStages::test_err(self.stage, other.stage)?;
        self.bells.extend(other.bells.iter().copied()); // Copy bells across in one go
""",
"""        if !self.bells.is_empty() || other.is_empty() {
            IncompatibleStages::test_err(self.stage, other.stage)?;
        }
        self.bells.extend(other.bells.iter().copied()); // Copy bells across in one go
""")],
"extending an empty buffer from a non-empty buffer of another stage",
"an empty buffer takes the rows of another stage, which then aren't valid rows",
r'''
use bellframe::*;
fn main() {
    let mut rows = SameStageVec::new(Stage::MINOR);
    let other = SameStageVec::parse("1234\n2143\n2413").unwrap();
    assert!(rows.extend_from_buf(&other).is_err());
    assert!(rows.is_empty());
}
''')

seed("c33-nth-back", "C33", [(SSV,
"""        Some(unsafe { Row::from_slice_unchecked(next_row) })
    }
}

impl<'v> ExactSizeIterator for Iter<'v> {
""",
"""        Some(unsafe { Row::from_slice_unchecked(next_row) })
    }

    fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
        // Drop the last `n` rows at once
        let end = self.bells_left.len().checked_sub(n.checked_mul(self.stage.num_bells())?)?;
        self.bells_left = &self.bells_left[..end];
        self.next_back()
    }
}

impl<'v> ExactSizeIterator for Iter<'v> {
""")],
"calling nth_back beyond the first row of an iterator and then using it again",
"the iterator isn't exhausted by an nth_back that goes past its start",
r'''
use bellframe::*;
fn main() {
    let rows = SameStageVec::parse("1234\n2143\n2413").unwrap();
    let mut iter = rows.iter();
    assert_eq!(iter.nth_back(7), None);
    assert_eq!(iter.next_back(), None);
}
''')


seed("c16-stationary-two", "C16", [(CLASS,
'''    if is_stationary {
        return (is_little, HuntBellClass::TreblePlace);
    }
''',
'''    if is_stationary && !are_places_visited_exactly_twice {
        return (is_little, HuntBellClass::TreblePlace);
    }
''')],
"a method with a lead of two changes and a stationary hunt bell",
"a bell which stays in one place for a lead of two rows counts as plain hunting",
r'''
use bellframe::*;
use bellframe::method::class::{Class, FullClass};
fn main() {
    let block: Block = PnBlock::parse("+3.123", Stage::TRIPLES).unwrap().to_block_from_rounds();
    let block2: Block = PnBlock::parse("+145.123", Stage::DOUBLES).unwrap().to_block_from_rounds();
    let _ = block;
    assert_eq!(FullClass::classify(&block2).class(), Class::TreblePlace);
}
''')

seed("c16-plain-wrap", "C16", [(CLASS,
'''        for (a, b, c) in cycle.full_path.iter().copied().circular_tuple_windows() {
''',
'''        for (a, b, c) in cycle.full_path.iter().copied().tuple_windows() {
''')],
"a plain method whose only change of direction without a place is around the end of a working bell's cycle",
"the method is classed as Place rather than Bob",
r'''
use bellframe::*;
use bellframe::method::class::{Class, FullClass};
fn main() {
    for pn in ["34.14.x.1234.x.14.x.12", "x.14.12.14.12.14.x.12", "x.14.x.1234.x.14.34.12"] {
        let block: Block = PnBlock::parse(pn, Stage::MINIMUS).unwrap().to_block_from_rounds();
        assert_eq!(FullClass::classify(&block).class(), Class::Bob, "{}", pn);
    }
}
''')

seed("c13-range-u16", "C13", [(PN,
'''                        current_pn_start_index = index;
                    }
                    places.push(b.index());
''',
'''                        current_pn_start_index = index as u16 as usize; // notations are short
                    }
                    places.push(b.index());
''')],
"an invalid place notation more than 65,535 bytes into the string",
"the error's byte range starts at the wrong index",
r'''
use bellframe::*;
use bellframe::place_not::PnBlockParseError;
fn main() {
    let mut text = "x.18.".repeat(14_000);
    let start = text.len();
    text.push_str("148.58");
    match PnBlock::parse(&text, Stage::MAJOR) {
        Err(PnBlockParseError::PnError(range, _)) => assert_eq!(range, start..start + 3),
        _ => panic!(),
    }
}
''')

seed("c13-lowercase", "C13", [(PN,
'''        if let Some(b) = Bell::from_name(c) {
            CharMeaning::Bell(b)
''',
'''        // Places are sometimes typed in lower case
        if let Some(b) = Bell::from_name(c).or(match c {
            'e' | 't' => Bell::from_name(c.to_ascii_uppercase()),
            _ => None,
        }) {
            CharMeaning::Bell(b)
''')],
"a place notation with the letter e or t, which isn't a bell's name",
"letters which should be ignored are read as the 11th or 12th place",
r'''
use bellframe::*;
fn main() {
    let block = |text: &str| PnBlock::parse(text, Stage::MAXIMUS).ok().map(|b| b.place_nots().cloned().collect::<Vec<_>>());
    assert_eq!(block("1e.x"), block("1.x"));
    assert_eq!(block("x.3t"), block("x.3"));
}
''')

seed("c23-trim", "C23", [(LIB,
'''        match self.get_by_title_option(&title.to_lowercase()) {
''',
'''        match self.get_by_title_option(title.to_lowercase().trim_end()) {
''')],
"a query with spaces after the title",
"a title which isn't in the library is found",
r'''
use bellframe::MethodLib;
fn main() {
    let lib = MethodLib::from_json(r#"{"groups":[{"s":8,"c":5,"m":[{"n":"A","p":"x18,12"}]}]}"#).unwrap();
    assert!(lib.get_by_title("a surprise major").is_ok());
    assert!(lib.get_by_title("A Surprise Major ").is_err());
}
''', features=["method_lib_serde"])

XML = "src/method_lib/parse_cc_lib.rs"
XMLDOC = r'''
fn doc(sets: &str) -> String {
    format!("<collection date=\"x\" xmlns=\"http://www.cccbr.org.uk/methods/schemas/2007/05/methods\">{}</collection>", sets)
}
fn set(stage: usize, class: &str, name: &str, title: &str) -> String {
    format!("<methodSet><properties><stage>{}</stage>{}</properties><method><title>{}</title><name>{}</name><notation>x</notation></method></methodSet>", stage, class, title, name)
}
'''

seed("c36-set-replaces", "C36", [(XML,
'''        let method_map = methods.entry(stage).or_insert_with(HashMap::new);
''',
'''        methods.insert(stage, HashMap::new());
        let method_map = methods.get_mut(&stage).unwrap();
''')],
"a collection with two sets of methods on one stage",
"only the last set of each stage is read",
XMLDOC + r'''
fn main() {
    let lib = bellframe::parse_cc_lib(&doc(&[
        set(6, "<classification>Bob</classification>", "A", "A Bob Minor"),
        set(6, "<classification>Surprise</classification>", "B", "B Surprise Minor"),
    ].concat()));
    assert!(lib.get_by_title("B Surprise Minor").is_ok());
    assert!(lib.get_by_title("A Bob Minor").is_ok());
}
''', features=["cc_lib_gen"])

seed("c36-flag-present", "C36", [(XML,
'''    let is_little = classification_elem.attr("little") == Some("true");
''',
'''    let is_little = classification_elem.attr("little").is_some();
''')],
"a set whose classification says little=\"false\"",
"the methods of that set are Little",
XMLDOC + r'''
fn main() {
    let lib = bellframe::parse_cc_lib(&doc(&set(6, "<classification little=\"false\">Bob</classification>", "A", "A Bob Minor")));
    let json = lib.to_json().unwrap();
    assert!(!json.contains("\"l\":true"), "{}", json);
    let lib = bellframe::parse_cc_lib(&doc(&set(6, "<classification little=\"true\">Bob</classification>", "A", "A Little Bob Minor")));
    let json = lib.to_json().unwrap();
    assert!(json.contains("\"l\":true"), "{}", json);
}
''', features=["cc_lib_gen"])
