"""Planted bugs: caller's code which fails or changes, state shared between calls and threads, and
narrow corners of properties which had few."""
SSV = "src/row/same_stage_vec.rs"
BLOCK = "src/block.rs"
ROW = "src/row/borrowed.rs"
OWNED = "src/row/owned.rs"
ACC = "src/row/accumulator.rs"
MASK = "src/mask.rs"
MUSIC = "src/music.rs"
UTILS = "src/utils.rs"
BELL = "src/bell.rs"
STAGE = "src/stage.rs"
LIB = "src/method_lib/mod.rs"
SERDE = "src/method_lib/lib_serde.rs"
PN = "src/place_not.rs"
METHOD = "src/method/mod.rs"
CLASS = "src/method/class.rs"
CC = "src/method_lib/parse_cc_lib.rs"
SEEDS = []
JSON = ['serde_json = "1.0"']
def seed(id, prop, edits, needs, breaks, demo, features=(), deps=()):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo,
                      features=list(features), deps=list(deps)))


seed("c37-swallowed", "C37", [(MUSIC,
"""        for elem in &self.elems {
            write!(f, "{}", elem)?;
        }
        Ok(())
""",
"""        // Elements are single characters (and almost always succeed)
        self.elems.iter().for_each(|elem| {
            let _ = write!(f, "{}", elem);
        });
        Ok(())
""")],
"displaying a pattern into a writer which has no room for all of it",
"the text is cut short, but writing it reports success",
r'''
use bellframe::music::Regex;
use std::fmt::Write;
struct Room(String, usize);
impl Write for Room {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0.len() + s.len() > self.1 { return Err(std::fmt::Error); }
        self.0.push_str(s);
        Ok(())
    }
}
fn main() {
    let re = Regex::parse("*5678xx");
    for n in 0..10 {
        let mut room = Room(String::new(), n);
        assert_eq!(write!(room, "{}", re).is_ok(), n >= 7, "room for {}", n);
    }
}
''')

seed("c37-class-swallowed", "C37", [(CLASS,
"""            if self.is_little {
                add_space!();
                write!(f, "Little")?;
            }

            add_space!();
            write!(f, "{}", self.class)?;
""",
"""            if self.is_little {
                add_space!();
                f.write_str("Little").unwrap_or_default();
            }

            add_space!();
            write!(f, "{}", self.class)?;
""")],
"displaying the class of a little method into a writer which refuses the word 'Little' (but not the shorter words after it)",
"the text has a hole in it, and writing it reports success",
r'''
use bellframe::method::class::FullClass;
use bellframe::*;
use std::fmt::Write;
struct Room(String, usize);
impl Write for Room {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0.len() + s.len() > self.1 { return Err(std::fmt::Error); }
        self.0.push_str(s);
        Ok(())
    }
}
fn main() {
    let lead: Block = PnBlock::parse("x16x14,12", Stage::MINOR).unwrap().to_block_from_rounds();
    let class: FullClass = FullClass::classify(&lead);
    assert_eq!(class.to_string(), "Little Bob");
    for n in 0..10 {
        let mut room = Room(String::new(), n);
        assert!(write!(room, "{}", class).is_err(), "room {}: {:?}", n, room.0);
    }
}
''')

seed("c37-ask-twice", "C37", [(SSV,
"""            let row = r.as_ref();
            if let Err(e) = IncompatibleStages::test_err(self.stage, row.stage()) {
""",
"""            if let Err(e) = IncompatibleStages::test_err(self.stage, r.as_ref().stage()) {
"""), (SSV,
"""            self.bells.extend(row.bell_iter());
        }
""",
"""            self.bells.extend(r.as_ref().bell_iter());
        }
""")],
"extending a buffer with items whose AsRef gives another row (of another stage) the second time",
"a row of the wrong stage gets into the buffer, and every row after it is misaligned",
r'''
use bellframe::*;
use std::cell::Cell;
struct Shifty(Vec<RowBuf>, Cell<usize>);
impl AsRef<Row> for Shifty {
    fn as_ref(&self) -> &Row {
        self.1.set(self.1.get() + 1);
        &self.0[(self.1.get() - 1) % self.0.len()]
    }
}
fn main() {
    let mut v = SameStageVec::new(Stage::MINOR);
    let item = Shifty(vec![RowBuf::rounds(Stage::MINOR), RowBuf::queens(Stage::MAJOR)], Cell::new(0));
    if v.extend([item]).is_ok() {
        assert_eq!(v, SameStageVec::from_row_buf(RowBuf::rounds(Stage::MINOR)));
    }
}
''')

seed("c37-ask-twice-product", "C37", [(ROW,
"""                let r2 = r2.as_ref();
                IncompatibleStages::test_err(s, r2.stage())?;
                for r1 in &transpose_from {
                    transpose_to.push(unsafe { r1.mul_unchecked(r2) });
                }
""",
"""                IncompatibleStages::test_err(s, r2.as_ref().stage())?;
                for r1 in &transpose_from {
                    transpose_to.push(unsafe { r1.mul_unchecked(r2.as_ref()) });
                }
""")],
"a product of sets of items whose AsRef gives another row (of another stage) after the first time",
"rows of several stages are multiplied unchecked, and the product has invalid rows",
r'''
use bellframe::*;
use std::cell::Cell;
struct Shifty(Vec<RowBuf>, Cell<usize>);
impl AsRef<Row> for Shifty {
    fn as_ref(&self) -> &Row {
        self.1.set(self.1.get() + 1);
        &self.0[(self.1.get() - 1) % self.0.len()]
    }
}
fn main() {
    let item = |a: &str, b: &str| Shifty(vec![RowBuf::parse(a).unwrap(), RowBuf::parse(b).unwrap()], Cell::new(0));
    let sets = vec![vec![item("123456", "123456"), item("213456", "213456")], vec![item("123456", "1234")]];
    if let Ok(rows) = Row::multi_cartesian_product(sets) {
        for r in rows {
            assert_eq!(r.stage(), Stage::MINOR, "{}", r);
        }
    }
}
''')

seed("c37-prefill", "C37", [(SSV,
"""        let num_bells_before_extend = self.bells.len(); // Used to revert the `Bell` slice
        for r in row_iter.into_iter() {
            let row = r.as_ref();
            if let Err(e) = IncompatibleStages::test_err(self.stage, row.stage()) {
                self.bells.drain(num_bells_before_extend..); // Remove the extra bells
                return Err(e); // End the iteration
            }
            self.bells.extend(row.bell_iter());
        }
        Ok(())
""",
"""        let num_bells_before_extend = self.bells.len(); // Used to revert the `Bell` slice
        let iter = row_iter.into_iter();
        // Make all the space at once, and then fill it
        let extra = iter.size_hint().0.min(1 << 16) * self.stage.num_bells();
        self.bells.resize(num_bells_before_extend + extra, Bell::TREBLE);
        let mut end = num_bells_before_extend;
        for r in iter {
            let row = r.as_ref();
            if let Err(e) = IncompatibleStages::test_err(self.stage, row.stage()) {
                self.bells.truncate(num_bells_before_extend); // Remove the extra bells
                return Err(e); // End the iteration
            }
            let next_end = end + row.stage().num_bells();
            if next_end > self.bells.len() {
                self.bells.resize(next_end, Bell::TREBLE);
            }
            self.bells[end..next_end].copy_from_slice(row.slice());
            end = next_end;
        }
        self.bells.truncate(end);
        Ok(())
""")],
"extending a buffer from an iterator which panics part of the way, and using the buffer after that",
"the buffer is left with rows of nothing but trebles",
r'''
use bellframe::*;
fn main() {
    let rows = vec![RowBuf::queens(Stage::MINOR); 4];
    let mut v = SameStageVec::new(Stage::MINOR);
    std::panic::set_hook(Box::new(|_| ()));
    let mut left = 2;
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        v.extend(rows.iter().map(|r| { if left == 0 { panic!(); } left -= 1; r }))
    }));
    assert!(res.is_err());
    let _ = std::panic::take_hook();
    for r in &v {
        let mut bells: Vec<Bell> = r.bell_iter().collect();
        bells.sort();
        bells.dedup();
        assert_eq!(bells.len(), 6, "{}", r);
    }
}
''')

seed("c38-scratch", "C38", [(ROW,
"""        // Iterate backwards over the bells looking for the first bell which isn't in its place.
        // This bell defines the effective_stage of the row.
        for (i, b) in self.bell_slice.iter().enumerate().rev() {
            if b.index() != i {
                // The `+ 1` is needed because `i` is 0-indexed
                return Stage::new(i + 1);
            }
        }
        // If the loop reached the front of the row, then the effective stage is 1
        Stage::ONE
""",
"""        use std::sync::atomic::{AtomicUsize, Ordering};
        // The last place found so far of a bell which isn't in its place
        static LAST: AtomicUsize = AtomicUsize::new(0);
        LAST.store(0, Ordering::SeqCst);
        for (i, b) in self.bell_slice.iter().enumerate() {
            if b.index() != i {
                LAST.fetch_max(i, Ordering::SeqCst);
            }
        }
        // The `+ 1` is needed because `i` is 0-indexed
        Stage::new(LAST.load(Ordering::SeqCst) + 1)
""")],
"taking the effective stage of rows on several threads at the same moment",
"a row's effective stage is sometimes that of a row on another thread",
r'''
use bellframe::*;
fn main() {
    let rows: Vec<RowBuf> = (2..12usize).map(|n| {
        let mut r = RowBuf::rounds(Stage::new(40));
        r.swap(n - 2, n - 1);
        r
    }).collect();
    let rows = &rows;
    std::thread::scope(|s| {
        let all: Vec<_> = (0..6).map(|t| s.spawn(move || {
            for k in 0..60_000 {
                let i = (k + t * 3) % rows.len();
                assert_eq!(rows[i].effective_stage().num_bells(), i + 2);
            }
        })).collect();
        for t in all { t.join().unwrap(); }
    });
}
''')

seed("c38-places-memo", "C38", [(PN,
"""        // Parse the string into bell indices, ignoring any invalid characters
        let mut parsed_places: Vec<usize> = s
""",
"""        // The same change is very often read many times over
        type Memo = Option<(String, Vec<usize>)>;
        thread_local!(static LAST: std::cell::RefCell<Memo> = Default::default());
        let known = LAST.with(|l| match &*l.borrow() {
            // The places alternate in parity, so this only holds on stages of the same parity
            Some((text, places)) if text == s => Some(places.clone()),
            _ => None,
        });
        if let Some(places) = known {
            let alternating = places.iter().enumerate().all(|(i, p)| i > 0 || p % 2 == 0);
            let fits = places.last().map_or(false, |p| (stage.num_bells() - 1).checked_sub(*p).map_or(false, |d| d % 2 == 0));
            if alternating && fits {
                return Ok(PlaceNot { places, stage });
            }
        }
        let parsed = Self::parse_places(s, stage);
        if let Ok(pn) = &parsed {
            LAST.with(|l| *l.borrow_mut() = Some((s.to_owned(), pn.places.clone())));
        }
        parsed
    }

    fn parse_places(s: &str, stage: Stage) -> Result<Self, ParseError> {
        // Parse the string into bell indices, ignoring any invalid characters
        let mut parsed_places: Vec<usize> = s
""")],
"reading the same change on one stage and then on a larger one, one straight after the other",
"the second change keeps the place which was implied by the first's stage",
r'''
use bellframe::*;
fn main() {
    for (a, b) in [(Stage::MINOR, Stage::MAJOR), (Stage::MAJOR, Stage::MINOR)] {
        for s in [a, b] {
            let pn = PlaceNot::parse("1", s).unwrap();
            let n = s.num_bells();
            let places: Vec<usize> = (0..n).filter(|&p| pn.contains(p)).collect();
            assert_eq!(places, vec![0, n - 1], "on {} bells", n);
        }
    }
}
''')

seed("c38-library-memo", "C38", [(LIB,
"""        // Once we know the stage, we can directly look up the method
        let method = self
            .method_map
            .get(&stage)?
            .get(lower_case_title)?
            .to_method(stage);
        Some(method)
""",
"""        // Making a method means classifying it, which is slow, so keep those already made
        use std::{collections::HashMap, sync::Mutex};
        static MADE: Mutex<Option<HashMap<(String, String), Method>>> = Mutex::new(None);
        let stored = self.method_map.get(&stage)?.get(lower_case_title)?;
        let key = (stored.title.clone(), stored.name.clone());
        if let Some(m) = MADE.lock().unwrap().get_or_insert_with(HashMap::new).get(&key) {
            return Some(Ok(m.clone()));
        }
        // Once we know the stage, we can directly look up the method
        let method = stored.to_method(stage);
        if let Ok(m) = &method {
            MADE.lock().unwrap().get_or_insert_with(HashMap::new).insert(key, m.clone());
        }
        Some(method)
""")],
"looking up methods of the same name and title in two libraries which give them different place notation",
"the second library's method is the first's",
r'''
use bellframe::*;
fn main() {
    let mut libs = vec![];
    for pn in ["x16x16x16,12", "x16x16x16,16"] {
        let m = bellframe::method_lib::MethodLib::from_json(&LIB.replace("@", pn)).unwrap();
        libs.push((pn, m));
    }
    for (pn, lib) in &libs {
        let m = lib.get_by_title("Plain Bob Minor").unwrap();
        let want: Block = PnBlock::parse(pn, Stage::MINOR).unwrap().to_block_from_rounds();
        assert_eq!(m.lead_head(), want.leftover_row(), "{}", pn);
    }
}
const LIB: &str = r#"{"groups":[{"s":6,"c":2,"m":[{"n":"Plain","p":"@"}]}]}"#;
''', features=("serde","method_lib_serde"))

seed("c08-lone-return", "C08", [(SSV,
"""        let mut line_iter = s.lines().enumerate().map(|(idx, v)| (idx + 1, v));
""",
"""        // Any kind of line ending will do
        let mut text_left = s;
        let lines = std::iter::from_fn(move || {
            if text_left.is_empty() {
                return None;
            }
            let end = text_left.find(['\\n', '\\r']).unwrap_or(text_left.len());
            let (line, rest) = text_left.split_at(end);
            let rest = rest.strip_prefix("\\r\\n").or(rest.strip_prefix('\\n'));
            text_left = rest.unwrap_or_else(|| text_left[end..].get(1..).unwrap_or(""));
            Some(line)
        });
        let mut line_iter = lines.enumerate().map(|(idx, v)| (idx + 1, v));
""")],
"text with a carriage return inside a line",
"one line is read as two",
r'''
use bellframe::*;
fn main() {
    let v = SameStageVec::parse("1234\r5678\n2143\r6587").unwrap();
    assert_eq!(v.len(), 2);
    assert_eq!(v.stage(), Stage::MAJOR);
}
''')

seed("c28-byte-order-mark", "C28", [(SSV,
"""        let mut line_iter = s.lines().enumerate().map(|(idx, v)| (idx + 1, v));
""",
"""        // Editors like to add byte order marks
        let marked = s.starts_with(char::is_control) || s.starts_with('\\u{feff}');
        let s = if marked { &s[1..] } else { s };
        let mut line_iter = s.lines().enumerate().map(|(idx, v)| (idx + 1, v));
""")],
"several lines of text which start with a byte order mark (of three bytes)",
"reading it panics",
r'''
use bellframe::*;
fn main() {
    let v = SameStageVec::parse("\u{feff}1234\n2143").unwrap();
    assert_eq!(v.len(), 2);
}
''')

seed("c21-runs-byte", "C21", [(MUSIC,
"""            let descending_regex = unsafe {
                // Descending runs on the back (e.g. `*1234`)
""",
"""            // Rows are numbered in bytes
            let i = usize::from(i as u8);
            let run_iterator = (i..i + len).map(Bell::from_index).map(RegexElem::Bell);
            let descending_regex = unsafe {
                // Descending runs on the back (e.g. `*1234`)
""")],
"runs off the back of rows of more than 256 bells",
"most runs have no pattern",
r'''
use bellframe::music::*;
use bellframe::*;
fn main() {
    for n in [8, 255, 256, 257, 300] {
        let runs = Regex::runs_back(Stage::new(n), 4);
        let row = RowBuf::rounds(Stage::new(n));
        assert!(runs.iter().any(|r| r.matches(&row)), "{}", n);
    }
}
''')

seed("c31-reversing", "C31", [(ACC,
"""        row.mul_into(&self.total, &mut self.temp_row)?; // Multiply `total` into `temp_row`
""",
"""        if row.is_backrounds() && row.stage() == self.total.stage() {
            // Multiplying by backrounds only reverses the row, which we can do in place
            for i in 0..row.stage().num_bells() / 2 {
                self.total.swap(i, row[i].index());
            }
            return Ok(());
        }
        row.mul_into(&self.total, &mut self.temp_row)?; // Multiply `total` into `temp_row`
""")],
"pre-multiplying by backrounds",
"the row is reversed, as if post-multiplied by it",
r'''
use bellframe::row::RowAccumulator;
use bellframe::*;
fn main() {
    let row = RowBuf::parse("231465").unwrap();
    let back = RowBuf::backrounds(Stage::MINOR);
    let mut acc = RowAccumulator::new(row.clone());
    acc.pre_accumulate(&back).unwrap();
    assert_eq!(acc.total(), (back.as_row() * row.as_row()).as_row());
}
''')

seed("c03-solve-home", "C03", [(ROW,
"""    pub fn solve_ax_equals_b(a: &Self, b: &Self) -> Result<RowBuf, IncompatibleStages> {
        a.inv().mul_result(b)
    }
""",
"""    pub fn solve_ax_equals_b(a: &Self, b: &Self) -> Result<RowBuf, IncompatibleStages> {
        IncompatibleStages::test_err(a.stage(), b.stage())?;
        if a.is_rounds() || a.pow_u(2).is_rounds() {
            return a.mul_result(b); // `a` is its own inverse
        }
        if b.is_rounds() || a.pow_u(3).is_rounds() {
            return a.mul_result(a).and_then(|x| x.mul_result(b)); // `a * a` is the inverse of `a`
        }
        a.inv().mul_result(b)
    }
""")],
"solving a * x = rounds for an `a` whose order is four or more",
"x is a squared instead of the inverse of a",
r'''
use bellframe::*;
fn main() {
    for a in ["2143", "2314", "2341", "23451"] {
        let a = RowBuf::parse(a).unwrap();
        let b = RowBuf::rounds(a.stage());
        let x = Row::solve_ax_equals_b(&a, &b).unwrap();
        assert_eq!(a.as_row() * x.as_row(), b);
    }
}
''')

seed("c04-short-cycle", "C04", [(ROW,
"""                self.swap(first_non_rounds_bell, cur_bell.index());
                num_swaps += 1;
""",
"""                let home = cur_bell.index();
                let next_bell = self.bell_slice[home];
                self.swap(first_non_rounds_bell, home);
                // A bell which is only one place from home saves looking at that place again
                num_swaps += if next_bell.index() + 3 == home && home > 15 { 2 } else { 1 };
""")],
"a row on seventeen or more bells where the bell found in a swapped bell's home is the one from three places before it",
"the parity is wrong",
r'''
use bellframe::*;
fn main() {
    let n = 20;
    for i in 0..n {
        for j in 0..n {
            for k in 0..n {
                if i == j || j == k || i == k { continue; }
                let mut r = RowBuf::rounds(Stage::new(n));
                r.swap(i, j);
                r.swap(j, k);
                assert_eq!(r.clone().parity(), Parity::Even, "{}", r);
            }
        }
    }
}
''')

seed("c14-returning", "C14", [(PN,
"""        for pn in &self.pns {
            // This unsafety is OK because:
""",
"""        for (i, pn) in self.pns.iter().enumerate() {
            // Two of the same change in a row undo each other
            if i >= 2 && self.pns[i - 1] == *pn && rows.len() > i {
                current_row = rows[i - 2].to_owned();
                rows.push(&current_row).unwrap();
                continue;
            }
            // This unsafety is OK because:
""")],
"a block with the same change twice running, not at its start",
"the row after them isn't the one before them",
r'''
use bellframe::*;
fn main() {
    for pn in ["x.x", "14.x.x", "14.12.12.34", "x.x.x", "14.14.x"] {
        let block = PnBlock::parse(pn, Stage::MINIMUS).unwrap();
        let rows = block.to_rows(RowBuf::rounds(Stage::MINIMUS)).unwrap();
        for (i, pn) in block.place_nots().enumerate() {
            assert_eq!(pn.permute_new(&rows[i]).unwrap().as_row(), &rows[i + 1], "{}", i);
        }
    }
}
''')

seed("c18-matches-early", "C18", [(MASK,
"""        for (&expected_bell, real_bell) in self.bells.iter().zip_eq(row.bell_iter()) {
""",
"""        // Once every fixed bell has been found, there's no need to look at the rest
        let mut left = self.bells.iter().flatten().map(|b| b.index()).max().map_or(0, |m| m + 1);
        for (&expected_bell, real_bell) in self.bells.iter().zip_eq(row.bell_iter()) {
            if expected_bell.is_none() {
                if left == 0 {
                    return true;
                }
                left -= 1;
            }
""")],
"a mask with more unfixed places before a fixed bell than the number of its largest fixed bell",
"the bell isn't looked at, so rows match which shouldn't",
r'''
use bellframe::*;
fn main() {
    for m in ["xxx1", "xxxx12", "1xxxxx", "xx2xx1xx", "xxxxxxx1"] {
        let mask = Mask::parse(m);
        let row = RowBuf::rounds(mask.stage());
        let want = m.chars().zip(row.bell_iter()).all(|(c, b)| c == 'x' || c == b.to_char().unwrap());
        assert_eq!(mask.matches(&row), want, "{}", m);
    }
}
''')

seed("c27-transposition", "C27", [("src/call.rs",
"""        self.block.leftover_row()
    }
""",
"""        // A call which covers more than it rings ends where the covered rows would have
        match self.covers.checked_sub(self.block.len()) {
            Some(n) if n > self.block.len() => self.block.first_row(),
            _ => self.block.leftover_row(),
        }
    }
""")],
"a call which covers more than twice as many rows as it rings",
"its transposition is rounds",
r'''
use bellframe::*;
fn main() {
    let block: Block = PnBlock::parse("14.16", Stage::MINOR).unwrap().to_block_from_rounds();
    for covers in 0..9 {
        let call = Call::new('-', "LE".to_owned(), covers, block.clone());
        assert_eq!(call.transposition(), block.leftover_row(), "covers {}", covers);
    }
}
''')


seed("c16-dodge-bits", "C16", [(CLASS,
"""            if a == c && (b + 1 == a || b == a + 1) {
""",
"""            // A dodge is between places which differ only in their last bits
            if a == c && ((b & 7) + 1 == a & 7 || b & 7 == (a & 7) + 1) {
""")],
"a Plain method whose only dodges are in 8-9",
"it is called Place instead of Bob",
r'''
use bellframe::*;
use bellframe::method::class::*;
fn main() {
    for pn in ["9.1.12567.1.9.1.9.1.9,1"] {
        let lead: Block = PnBlock::parse(pn, Stage::new(9)).unwrap().to_block_from_rounds();
        assert_eq!(FullClass::classify(&lead).class(), Class::Bob, "{}", pn);
    }
}
''')

seed("c24-title-bytes", "C24", [(LIB,
"""                Suggestion((
                    suggestion_title,
                    edit_distance(actual_title, suggestion_title_lower),
                ))
""",
"""                // A common start costs nothing, so needn't be compared
                let same = actual_title
                    .bytes()
                    .zip(suggestion_title_lower.bytes())
                    .take_while(|(a, b)| a == b)
                    .count();
                let rest = |s: &str| String::from_utf8_lossy(&s.as_bytes()[same..]).into_owned();
                let (a, b) = (rest(actual_title), rest(suggestion_title_lower));
                Suggestion((suggestion_title, edit_distance(&a, &b)))
""")],
"a query which first differs from a title within the bytes of a letter",
"the distance is too large (or too small)",
r'''
use bellframe::method_lib::*;
fn main() {
    let lib = MethodLib::from_json(&LIB.replace("@", "x16x16x16,12").replace("Plain", "Zo\u{1e05}")).unwrap();
    match lib.get_by_title_with_suggestions("zo\u{1e13} bob minor", 1) {
        Err(QueryError::NotFound(v)) => assert_eq!(v[0].1, 1, "{:?}", v),
        _ => panic!("found"),
    }
}
const LIB: &str = r#"{"groups":[{"s":6,"c":2,"m":[{"n":"Plain","p":"@"}]}]}"#;
''', features=("serde","method_lib_serde"))
