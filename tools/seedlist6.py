"""Planted bugs: memos, narrow counters, shortcuts and checks made only once."""
SSV = "src/row/same_stage_vec.rs"
BLOCK = "src/block.rs"
ROW = "src/row/borrowed.rs"
OWNED = "src/row/owned.rs"
ACC = "src/row/accumulator.rs"
MASK = "src/mask.rs"
MUSIC = "src/music.rs"
UTILS = "src/utils.rs"
BELL = "src/bell.rs"
STAGE = "src/stage.rs"
LIB = "src/method_lib/mod.rs"
SERDE = "src/method_lib/lib_serde.rs"
PN = "src/place_not.rs"
METHOD = "src/method/mod.rs"
CLASS = "src/method/class.rs"
CC = "src/method_lib/parse_cc_lib.rs"
SEEDS = []
JSON = ['serde_json = "1.0"']
def seed(id, prop, edits, needs, breaks, demo, features=(), deps=()):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo,
                      features=list(features), deps=list(deps)))


seed("c03-inv-memo", "C03", [(ROW,
"""        let mut inv_bells = vec![Bell::TREBLE; self.stage().num_bells()];
        for (i, b) in self.bell_slice.iter().enumerate() {
            inv_bells[b.index()] = Bell::from_index(i);
        }
""",
"""        // The same few rows (lead heads, usually) get inverted over and over
        type Memo = std::collections::HashMap<(Stage, usize), Vec<Bell>>;
        thread_local!(static MEMO: std::cell::RefCell<Memo> = Default::default());
        let key = (self.stage(), self.fast_hash());
        if let Some(bells) = MEMO.with(|m| m.borrow().get(&key).cloned()) {
            return unsafe { RowBuf::from_vec_unchecked(bells) };
        }
        let mut inv_bells = vec![Bell::TREBLE; self.stage().num_bells()];
        for (i, b) in self.bell_slice.iter().enumerate() {
            inv_bells[b.index()] = Bell::from_index(i);
        }
        MEMO.with(|m| {
            let mut memo = m.borrow_mut();
            if memo.len() >= 64 {
                memo.clear();
            }
            memo.insert(key, inv_bells.clone());
        });
""")],
"inverting two rows on many bells which agree in their first bells (their fast hashes collide), soon after each other",
"the second inverse is that of the first row",
r'''
use bellframe::*;
fn main() {
    let stage = Stage::new(32);
    let mut a = RowBuf::rounds(stage);
    a.swap(30, 31);
    let mut b = RowBuf::rounds(stage);
    b.swap(28, 29);
    for r in [&a, &b] {
        let inv = r.inv();
        assert!((r.as_row() * inv.as_row()).is_rounds(), "{} {}", r, inv);
    }
}
''')

seed("c10-index-byte", "C10", [(BLOCK,
"""        let next_row = self.current_block_head.as_row() * untransposed_row;
        Some((next_row, source_idx, annot))
""",
"""        let next_row = self.current_block_head.as_row() * untransposed_row;
        // Leads are short
        Some((next_row, usize::from(source_idx as u8), annot))
""")],
"repeating a block of more than 256 rows",
"the index within the block starts again after 256 rows",
r'''
use bellframe::*;
fn main() {
    let pns = vec![PlaceNot::parse("x", Stage::MINOR).unwrap(), PlaceNot::parse("16", Stage::MINOR).unwrap()];
    let block: Block = PnBlock::from_iter((0..300).map(|i| pns[i % 2].clone())).unwrap().to_block_from_rounds();
    for (n, (_row, idx, _)) in block.repeat_iter(RowBuf::rounds(Stage::MINOR)).unwrap().take(700).enumerate() {
        assert_eq!(idx, n % 300);
    }
}
''')

seed("c16-visited-mask", "C16", [(CLASS,
"""    let is_little = num_rows_in_each_place.contains(&0);
""",
"""    let visited = cycle
        .full_path
        .iter()
        .fold(0u64, |mask, p| mask | 1u64.wrapping_shl(*p as u32));
    let is_little = (visited.count_ones() as usize) < stage.num_bells();
""")],
"classifying a method on more than 64 bells",
"the method is classified as Little although its treble visits every place",
r'''
use bellframe::*;
fn main() {
    let stage = Stage::new(66);
    let n = stage.num_bells();
    let cross = PlaceNot::cross(stage).unwrap();
    let ends = unsafe { PlaceNot::from_sorted_slice(&[0, n - 1], stage) }.unwrap();
    let seconds = unsafe { PlaceNot::from_sorted_slice(&[0, 1], stage) }.unwrap();
    let mut pns = Vec::new();
    for i in 0..n {
        pns.push(cross.clone());
        pns.push(if i + 1 == n { seconds.clone() } else { ends.clone() });
    }
    let lead: AnnotBlock<Option<String>> = PnBlock::from_vec(pns).unwrap().to_block_from_rounds();
    let method = Method::with_name("Plain".to_owned(), lead);
    assert_eq!(method.title(), "Plain Bob 66 bells");
}
''')

seed("c16-stationary-step", "C16", [(CLASS,
"""    let is_stationary = num_rows_in_each_place.iter().filter(|v| **v > 0).count() == 1;
""",
"""    // (if it ever leaves its place then it takes a while to get back)
    let is_stationary = cycle.full_path.iter().step_by(2).all_equal();
""")],
"a hunt bell which does nothing but dodge in one position",
"the path is taken for that of a bell which never moves, so the method becomes Treble Place",
r'''
use bellframe::*;
fn main() {
    // The only hunt bells dodge in 12 for the whole lead
    let lead: AnnotBlock<Option<String>> = PnBlock::parse("x.56.x.56.x.34", Stage::MINOR).unwrap().to_block_from_rounds();
    let class = method::class::FullClass::classify(&lead).class();
    assert_eq!(class, method::class::Class::Hybrid);
}
''')

seed("c13-dedup", "C13", [(PN,
"""                        places.sort_unstable();
                        // This unsafety is OK""",
"""                        places.sort_unstable();
                        places.dedup();
                        // This unsafety is OK""")],
"a block of place notation in which one change names a place twice",
"the mistyped change is accepted instead of rejected",
r'''
use bellframe::*;
fn main() {
    assert!(PnBlock::parse("x14x144x18", Stage::MAJOR).is_err());
    assert!(PlaceNot::parse("144", Stage::MAJOR).is_err());
}
''')

seed("c13-leading-comma", "C13", [(PN,
"""        let is_single_block = !s.contains(',');
""",
"""        let is_single_block = !s.trim_start_matches(',').contains(',');
""")],
"a block of place notation which starts with a comma and has no other",
"the symmetric block after the comma isn't expanded",
r'''
use bellframe::*;
fn main() {
    let a = PnBlock::parse(",x14", Stage::MAJOR).unwrap();
    assert_eq!(a, PnBlock::parse("x14x", Stage::MAJOR).unwrap());
}
''')

seed("c15-label-case", "C15", [(METHOD,
"""            .positions(move |l| l.as_ref().map(String::as_str) == Some(label))
""",
"""            .positions(move |l| {
                l.as_ref()
                    .map_or(false, |l| l.eq_ignore_ascii_case(label))
            })
""")],
"labels which differ only by the case of a letter",
"asking for one label finds the rows carrying the other",
r'''
use bellframe::*;
fn main() {
    let pns = PnBlock::parse("x16x16x16,12", Stage::MINOR).unwrap();
    let mut m = Method::with_lead_end("Plain".to_owned(), &pns);
    m.set_label(3, Some("le".to_owned()));
    assert_eq!(m.label_indices("LE").collect::<Vec<_>>(), vec![11]);
}
''')

seed("c19-length-reject", "C19", [(MUSIC,
"""        let mut bells = r.bell_iter().enumerate();
        let mut regex_elems = self.elems.iter().copied();
""",
"""        // Every element but a glob takes up a bell, so longer patterns can't match
        if self.elems.len() > r.stage().num_bells() + 2 {
            return false;
        }

        let mut bells = r.bell_iter().enumerate();
        let mut regex_elems = self.elems.iter().copied();
""")],
"a pattern with three or more globs which names nearly every bell",
"rows which satisfy the pattern aren't matched",
r'''
use bellframe::*;
use bellframe::music::Regex;
fn main() {
    assert!(Regex::parse("*1*2*3*4*").matches(&RowBuf::parse("1234").unwrap()));
    assert!(!Regex::parse("*2*1*3*4*").matches(&RowBuf::parse("1234").unwrap()));
}
''')

seed("c24-first-letter", "C24", [(LIB,
"""            suggestion_shortlist.append(methods.iter().map(|(stored_title, method)| {
                Suggestion::new(lower_case_title, stored_title, &method.title)
            }));
""",
"""            let first_char = lower_case_title.chars().next();
            suggestion_shortlist.append(
                methods
                    .iter()
                    // Nobody gets the first letter wrong (if they typed one)
                    .filter(|(stored_title, _)| {
                        num_suggestions > 1
                            || first_char.is_none()
                            || stored_title.chars().next() == first_char
                    })
                    .map(|(stored_title, method)| {
                        Suggestion::new(lower_case_title, stored_title, &method.title)
                    }),
            );
""")],
"asking for a single suggestion for a title whose first letter is mistyped",
"the nearest title isn't suggested",
r'''
use bellframe::*;
use bellframe::method_lib::{MethodLib, QueryError};
fn main() {
    let json = r#"{"groups":[{"s":8,"c":2,"m":[{"n":"Plain","p":"x18x18x18x18,12"}]},{"s":8,"c":5,"m":[{"n":"Bristol","p":"x58x14.58x58.36.14x14.58x14x18,18"}]}]}"#;
    let lib = MethodLib::from_json(json).unwrap();
    match lib.get_by_title_with_suggestions("Olain Bob Major", 1) {
        Err(QueryError::NotFound(v)) => assert_eq!(v, vec![("Plain Bob Major", 1)]),
        _ => panic!(),
    };
    let _ = Stage::MAJOR;
}
''', features=["method_lib_serde"])

seed("c31-set-stage", "C31", [(ACC,
"""        self.total.mul_into(row, &mut self.temp_row)?; // Multiply `total` into `temp_row`
        std::mem::swap(&mut self.total, &mut self.temp_row); // Swap the result back into `total`
        Ok(())
    }

    /// Performs `self = row * self`
""",
"""        // Checked against the buffer, so that the multiplication needn't be
        IncompatibleStages::test_err(self.temp_row.stage(), row.stage())?;
        unsafe { self.total.mul_into_unchecked(row, &mut self.temp_row) };
        std::mem::swap(&mut self.total, &mut self.temp_row); // Swap the result back into `total`
        Ok(())
    }

    /// Performs `self = row * self`
""")],
"setting an accumulator to a row of another stage, then accumulating",
"the rows of the new stage are refused",
r'''
use bellframe::*;
use bellframe::row::RowAccumulator;
fn main() {
    let mut acc = RowAccumulator::rounds(Stage::MAJOR);
    let r = RowBuf::parse("231546").unwrap();
    acc.set(&r);
    acc.accumulate(&r).unwrap();
    assert_eq!(acc.total(), (r.as_row() * r.as_row()).as_row());
}
''')

seed("c32-row-hash", "C32", [(ROW,
"""#[derive(Eq, PartialEq, PartialOrd, Ord, Hash)]
#[repr(transparent)] // Required so""",
"""#[allow(clippy::derived_hash_with_manual_eq)]
#[derive(Eq, PartialEq, PartialOrd, Ord)]
#[repr(transparent)] // Required so"""), (ROW,
"""impl Index<usize> for Row {
    type Output = Bell;
""",
"""impl std::hash::Hash for Row {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        // One word instead of every bell
        state.write_usize(self.fast_hash());
    }
}

impl Index<usize> for Row {
    type Output = Bell;
""")],
"looking up a borrowed row in a set or map of owned rows",
"the row isn't found, although the set contains it",
r'''
use bellframe::*;
use std::collections::HashSet;
fn main() {
    let set: HashSet<RowBuf> = (1..10).map(|n| RowBuf::backrounds(Stage::new(n))).collect();
    for n in 1..10 {
        let r = RowBuf::backrounds(Stage::new(n));
        assert!(set.contains(&r));
        assert!(set.contains(r.as_row()));
    }
}
''')

seed("c07-extend-hint", "C07", [(SSV,
"""        for r in row_iter.into_iter() {
            let row = r.as_ref();
""",
"""        let iter = row_iter.into_iter();
        // Never read further than the iterator said it goes
        let (min_rows, max_rows) = iter.size_hint();
        self.bells.reserve(min_rows.saturating_mul(self.stage.num_bells()));
        for r in iter.take(max_rows.unwrap_or(min_rows)) {
            let row = r.as_ref();
""")],
"extending a row buffer from an iterator which can't say how long it is",
"rows are left out",
r'''
use bellframe::*;
fn main() {
    let mut v = SameStageVec::new(Stage::MINOR);
    let mut n = 0;
    v.extend(std::iter::from_fn(|| {
        n += 1;
        if n <= 3 { Some(RowBuf::rounds(Stage::MINOR)) } else { None }
    }).chain(std::iter::repeat_with(|| RowBuf::backrounds(Stage::MINOR)).scan(0, |i, r| { *i += 1; if *i < 3 { Some(r) } else { None } })))
    .unwrap();
    assert_eq!(v.len(), 5);
}
''')

seed("c29-product-first-row", "C29", [(ROW,
"""            transpose_to.clear();
            for r2 in set {
                let r2 = r2.as_ref();
                IncompatibleStages::test_err(s, r2.stage())?;
""",
"""            transpose_to.clear();
            for (i, r2) in set.into_iter().enumerate() {
                let r2 = r2.as_ref();
                // All the rows of a set are of one stage
                if i == 0 || r2.stage() > s {
                    IncompatibleStages::test_err(s, r2.stage())?;
                }
""")],
"a cartesian product in which a later set starts with a row of the right stage and goes on with a shorter one",
"no error, and rows which aren't permutations",
r'''
use bellframe::*;
fn main() {
    let r = |s: &str| RowBuf::parse(s).unwrap();
    let sets = vec![vec![r("1234"), r("2143")], vec![r("4321"), r("321")]];
    assert!(Row::multi_cartesian_product(sets).is_err());
}
''')

seed("c22-empty-name", "C22", [(SERDE,
"""                                if &generate_title(&comp_method.name, full_class, stage) == title {
                                    None
""",
"""                                if comp_method.name.is_empty()
                                    || &generate_title(&comp_method.name, full_class, stage) == title
                                {
                                    // (without a name, the title can only be the class and stage)
                                    None
""")],
"a library holding a method without a name under its own title",
"the title is lost by writing the library and reading it back",
r'''
use bellframe::method_lib::MethodLib;
fn main() {
    let json = r#"{"groups":[{"s":7,"c":2,"m":[{"t":"Grandsire Triples","n":"","p":"3.1.7.1.7.1.7,1"}]}]}"#;
    let lib = MethodLib::from_json(json).unwrap();
    assert!(lib.get_by_title("Grandsire Triples").is_ok());
    let again = MethodLib::from_json(&lib.to_json().unwrap()).unwrap();
    assert!(again.get_by_title("Grandsire Triples").is_ok());
}
''', features=["method_lib_serde"])

seed("c05-place-of-home", "C05", [(ROW,
"""        self.bell_iter().position(|b| b == bell)
""",
"""        // Bells are often at home
        if self.bell_slice[bell.index()] == bell {
            return Some(bell.index());
        }
        self.bell_iter().position(|b| b == bell)
""")],
"asking for the place of a bell which the row doesn't have",
"a panic instead of no place",
r'''
use bellframe::*;
fn main() {
    let r = RowBuf::parse("214365").unwrap();
    assert_eq!(r.place_of(Bell::from_index(5)), Some(4));
    assert_eq!(r.place_of(Bell::from_index(6)), None);
}
''')

seed("c33-last-empty", "C33", [(SSV,
"""    // PERF: Implement better routines for methods such as `nth`, etc. for which repeatedly calling
    // `next()` is unnecessarily slow.
""",
"""    // PERF: Implement better routines for methods such as `nth`, etc. for which repeatedly calling
    // `next()` is unnecessarily slow.
    fn last(self) -> Option<Self::Item> {
        // Without going through all the others
        let start = self.bells_left.len() - self.stage.num_bells();
        Some(unsafe { Row::from_slice_unchecked(&self.bells_left[start..]) })
    }
""")],
"asking an exhausted iterator of rows for its last row",
"a panic instead of no row",
r'''
use bellframe::*;
fn main() {
    let v = SameStageVec::parse("1234\n2143\n2413").unwrap();
    assert_eq!(v.iter().last().unwrap().to_string(), "2413");
    let mut it = v.iter();
    while it.next().is_some() {}
    assert!(it.last().is_none());
}
''')

seed("c36-nameless", "C36", [(CC,
"""                .expect("Couldn't find `name` element")
                .text();
""",
"""                .expect("Couldn't find `name` element")
                .text();
            // Methods without a name are known by their title
            let name = if name.is_empty() { title.clone() } else { name };
""")],
"a method of the Central Council's file whose name element is empty",
"the method gets its title for a name",
r'''
use bellframe::parse_cc_lib;
fn main() {
    let xml = r#"<?xml version="1.0"?><collection xmlns="http://www.cccbr.org.uk/methods/schemas/2007/05/methods" date="2020-01-01"><methodSet><properties><stage>6</stage><classification little="true">Bob</classification></properties><method><title>Little Bob Minor</title><name/><notation>x16x14,12</notation></method></methodSet></collection>"#;
    let m = parse_cc_lib(xml).get_by_title("Little Bob Minor").unwrap();
    assert_eq!(m.name(), "");
}
''', features=["cc_lib_gen"])

