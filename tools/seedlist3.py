"""Planted bugs: masks, patterns, libraries, serialisation, names, parsers, the cache."""
MASK = "src/mask.rs"
MUSIC = "src/music.rs"
UTILS = "src/utils.rs"
BELL = "src/bell.rs"
STAGE = "src/stage.rs"
LIB = "src/method_lib/mod.rs"
SERDE = "src/method_lib/lib_serde.rs"
PN = "src/place_not.rs"
SEEDS = []
JSON = ['serde_json = "1.0"']
def seed(id, prop, edits, needs, breaks, demo, features=(), deps=()):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo,
                      features=list(features), deps=list(deps)))

seed("c18-compatible-one-way", "C18", [(MASK,
"""                    .position(|&b| b == Some(b_other))
                    .map_or(true, |idx_self| i == idx_self)
""",
"""                    .skip(i) // the places before this one have been checked already
                    .position(|&b| b == Some(b_other))
                    .map_or(true, |idx_self| idx_self == 0)
""")],
"two masks which fix the same bell in different places, the first mask in the earlier one",
"is_compatible_with accepts them and combine makes a mask with a bell twice",
r'''
use bellframe::*;
fn main() {
    let a = Mask::parse("1xxx");
    let b = Mask::parse("xx1x");
    assert!(!a.is_compatible_with(&b));
    assert!(!b.is_compatible_with(&a));
    assert!(a.combine(&b).is_none());
}
''')

seed("c18-mul-inverse", "C18", [(MASK,
"""            bells: rhs.bell_iter().map(|b| self.bells[b.index()]).collect_vec(),
""",
"""            bells: match self.as_row() {
                // Masks of a whole row are permuted like the row
                Some(row) => row.inv().bell_iter().map(|b| Some(rhs[b.index()])).collect_vec(),
                None => rhs.bell_iter().map(|b| self.bells[b.index()]).collect_vec(),
            },
""")],
"a mask of a whole row (or all but one bell), which doesn't commute with or isn't its own inverse, times a row",
"the product is that of the row's inverse the wrong way round",
r'''
use bellframe::*;
fn main() {
    let row = RowBuf::parse("2314").unwrap();
    let by = RowBuf::parse("4123").unwrap();
    assert_eq!(&Mask::full_row(&row) * by.as_row(), Mask::full_row(&(row.as_row() * by.as_row())));
    assert_eq!(&Mask::parse("12xx") * RowBuf::parse("4321").unwrap().as_row(), Mask::parse("xx21"));
}
''')

seed("c18-set-bell-place", "C18", [(MASK,
"""            Some(_) => Err(BellAlreadySet), // Bell is fixed to a different place, adding it would fix it twice
""",
"""            // Moving a bell home is always fine
            Some(_) if place == bell.index() && self.bells[place].is_none() => {
                unsafe { self.set_bell_unchecked(bell, place) };
                Ok(())
            }
            Some(_) => Err(BellAlreadySet), // Bell is fixed to a different place, adding it would fix it twice
""")],
"fixing a bell in its own, free, place after it was fixed in another one",
"the bell is fixed in two places, so the mask matches no row",
r'''
use bellframe::*;
fn main() {
    let mut m = Mask::empty(Stage::MINOR);
    m.set_bell(Bell::from_index(3), 1).unwrap();
    assert!(m.fix(Bell::from_index(3)).is_err());
    assert_eq!(m.to_string(), "x4xxxx");
}
''')

seed("c19-normalise-two-globs", "C19", [(MUSIC,
"""            if wildcards_pattern.contains(&RegexElem::Glob) {
                normalised_elems.push(RegexElem::Glob);
            }
""",
"""            match wildcards_pattern {
                // Globs are next to their bell already in all but rare patterns
                [.., RegexElem::Glob] | [RegexElem::Glob, ..] => normalised_elems.push(RegexElem::Glob),
                _ => {}
            }
""")],
"a run of wildcards with globs only in its middle, such as x*x",
"the glob is lost, so the pattern stops matching longer rows",
r'''
use bellframe::*;
use bellframe::music::Regex;
fn main() {
    let r = Regex::parse("x*x1");
    assert!(r.matches(&RowBuf::parse("2341").unwrap()));
    assert!(r.matches(&RowBuf::parse("231").unwrap()));
    assert!(!r.matches(&RowBuf::parse("21").unwrap()));
}
''')

seed("c19-glob-last-bell", "C19", [(MUSIC,
"""                                Some((i, b)) => {
                                    if b == exp_bell {
                                        match_fn(i);
                                        break;
                                    }
                                }
""",
"""                                Some((i, b)) => {
                                    if b == exp_bell {
                                        match_fn(i);
                                        break;
                                    }
                                    // The tenor always ends a row, so nothing can come after it
                                    if b.index() + 1 == r.stage().num_bells() && i > 5 {
                                        return false;
                                    }
                                }
""")],
"a glob before a bell which is rung after the tenor, with the tenor in 7ths place or later",
"matching rows are missed",
r'''
use bellframe::*;
use bellframe::music::Regex;
fn main() {
    assert!(Regex::parse("*1").matches(&RowBuf::parse("234567081E9").map(|_| RowBuf::parse("2345678901").unwrap()).unwrap_or_else(|_| RowBuf::parse("2345679081").unwrap())));
    assert!(Regex::parse("*12").matches(&RowBuf::parse("34567812").unwrap()));
    assert!(Regex::parse("1*2").matches(&RowBuf::parse("13456782").unwrap()));
}
''')

seed("c19-positions-any", "C19", [(MUSIC,
"""        let is_match = self.run_match(r, |i| matches.push(i));

        if is_match {
""",
"""        let is_match = self.run_match(r, |i| matches.push(i));
        // The bells of a pattern are matched from left to right, and each only once
        matches.dedup_by(|a, b| *a == *b + 1 && *a > 8 && *a == r.stage().num_bells() - 1);

        if is_match {
""")],
"a pattern matching a bell at the very end of a row of ten or more bells and the one just before it",
"match_pattern leaves out the last place",
r'''
use bellframe::*;
use bellframe::music::Regex;
fn main() {
    assert_eq!(Regex::parse("*90").match_pattern(&RowBuf::parse("1234567890").unwrap()), Some(vec![8, 9]));
    assert_eq!(Regex::parse("*6x8").match_pattern(&RowBuf::parse("12345678").unwrap()), Some(vec![5, 7]));
}
''')

seed("c20-choice-denominator", "C20", [(UTILS,
"""    let k = cmp::min(k, n - k);
""",
"""    let k = if n > 20 { cmp::max(k, n - k) } else { cmp::min(k, n - k) };
""")],
"a pattern with three or more globs whose free bells and globs come to about twenty-five together",
"the number of matching rows overflows (a panic, or no answer) although it is small enough",
r'''
use bellframe::*;
use bellframe::music::Regex;
fn main() {
    // Five free bells and twenty-one globs (with a fixed bell after each): 5! * (25 choose 5)
    let mut text = String::new();
    for i in 0..21 { text.push('*'); text.push_str(&Bell::from_index(i).name()); }
    let n = Regex::parse(&text).num_matching_rows(Stage::new(26));
    assert_eq!(n, Some(120 * 53130));
}
''')

seed("c21-runs-back-last", "C21", [(MUSIC,
"""            let descending_regex = unsafe {
                // Descending runs on the back (e.g. `*1234`)
                Self::from_elems_unchecked(once(RegexElem::Glob).chain(run_iterator.clone()))
            };
""",
"""            let descending_regex = unsafe {
                // Descending runs on the back (e.g. `*1234`), which only need their first bells to
                // be matched if they end on the tenor
                let num_needed = if i + len == num_bells && len > 4 { len - 1 } else { len };
                Self::from_elems_unchecked(
                    once(RegexElem::Glob)
                        .chain(run_iterator.clone().take(num_needed))
                        .chain(once(RegexElem::Any).take(len - num_needed)),
                )
            };
""")],
"a run of five or more bells ending on the tenor, at the back: rows which end in 4567x with x not the tenor",
"rows ending in another bell match the run",
r'''
use bellframe::*;
use bellframe::music::Regex;
fn main() {
    let row = RowBuf::parse("1238456790").map(|r| r).unwrap();
    let row2 = RowBuf::parse("82345671").unwrap();
    let _ = row;
    for r in Regex::runs_back(Stage::MAJOR, 5) {
        assert!(!r.matches(&row2), "{:?}", r);
    }
    assert!(Regex::runs_back(Stage::MAJOR, 5).iter().any(|r| r.matches(&RowBuf::parse("12345678").unwrap())));
}
''')

seed("c22-override-case", "C22", [(SERDE,
"""                                if &generate_title(&comp_method.name, full_class, stage) == title {
""",
"""                                if generate_title(&comp_method.name, full_class, stage)
                                    .eq_ignore_ascii_case(title)
                                {
""")],
"a method whose title differs from the standard one only by the case of its letters",
"the title is changed by writing the library to JSON and reading it back",
r'''
use bellframe::*;
fn main() {
    let json = r#"{"groups":[{"s":6,"c":2,"m":[{"t":"PLAIN bob Minor","n":"Plain","p":"x16x16x16,12"}]}]}"#;
    let lib = MethodLib::from_json(json).unwrap();
    let again = MethodLib::from_json(&lib.to_json().unwrap()).unwrap();
    assert_eq!(lib.get_by_title("plain bob minor").unwrap().title(), "PLAIN bob Minor");
    assert_eq!(again.get_by_title("plain bob minor").unwrap().title(), "PLAIN bob Minor");
}
''', ["serde", "method_lib_serde"])

seed("c22-group-key", "C22", [(SERDE,
"""                    .entry((*stage, method.full_class))
""",
"""                    .entry((
                        *stage,
                        FullClass::new(
                            method.full_class.is_jump(),
                            // Only hunt bells can be little
                            method.full_class.is_little() && method.full_class.class() != Class::Principle,
                            method.full_class.is_differential(),
                            method.full_class.class(),
                        ),
                    ))
""")],
"a library with a principle flagged as little",
"the flag is lost by writing the library to JSON and reading it back",
r'''
use bellframe::*;
fn main() {
    let json = r#"{"groups":[{"s":6,"l":true,"c":0,"m":[{"n":"Odd","p":"x16x16x16"}]}]}"#;
    let lib = MethodLib::from_json(json).unwrap();
    let out = lib.to_json().unwrap();
    assert!(out.contains("\"l\":true"), "{}", out);
}
''', ["serde", "method_lib_serde"])

seed("c23-stored-lowercase", "C23", [(SERDE,
"""                    title.to_lowercase(),
""",
"""                    title.to_ascii_lowercase(),
""")],
"a title with an upper case letter outside ASCII",
"such a method can't be found by its title",
r'''
use bellframe::*;
fn main() {
    let json = r#"{"groups":[{"s":6,"c":2,"m":[{"n":"Épernay","p":"x16x16x16,12"}]}]}"#;
    let lib = MethodLib::from_json(json).unwrap();
    assert_eq!(lib.get_by_title("Épernay Bob Minor").unwrap().title(), "Épernay Bob Minor");
    assert_eq!(lib.get_by_title("épernay bob minor").unwrap().title(), "Épernay Bob Minor");
}
''', ["serde", "method_lib_serde"])

seed("c23-trailing-words", "C23", [(LIB,
"""        let stage_name = lower_case_title.rsplit(' ').next().unwrap();
""",
"""        let stage_name = lower_case_title.split(' ').find(|w| Stage::from_lower_case_name(w).is_some())?;
""")],
"a title with the name of another stage in the method's name",
"the method is looked for on the wrong stage",
r'''
use bellframe::*;
fn main() {
    let json = r#"{"groups":[{"s":6,"c":5,"m":[{"n":"Major Tom","p":"x16x16x16,12"}]}]}"#;
    let lib = MethodLib::from_json(json).unwrap();
    assert!(lib.get_by_title("Major Tom Surprise Minor").is_ok());
}
''', ["serde", "method_lib_serde"])

seed("c24-shortlist-per-stage", "C24", [(LIB,
"""        for methods in self.method_map.values() {
            suggestion_shortlist.append""",
"""        for methods in self.method_map.values().filter(|m| m.len() * 2 >= num_suggestions) {
            suggestion_shortlist.append""")],
"a stage with fewer than half as many methods as suggestions are asked for",
"the methods of such stages are never suggested",
r'''
use bellframe::*;
use bellframe::method_lib::QueryError;
fn main() {
    let json = r#"{"groups":[
        {"s":6,"c":2,"m":[{"n":"A","p":"x"},{"n":"B","p":"x"},{"n":"C","p":"x"},{"n":"D","p":"x"}]},
        {"s":8,"c":2,"m":[{"n":"Plain","p":"x18"}]}]}"#;
    let lib = MethodLib::from_json(json).unwrap();
    match lib.get_by_title_with_suggestions("Plain Bob Majo", 4) {
        Err(QueryError::NotFound(s)) => { assert_eq!(s.len(), 4); assert_eq!(s[0].0, "Plain Bob Major"); }
        _ => panic!(),
    }
}
''', ["serde", "method_lib_serde"])

seed("c25-stage-signed", "C25", [(STAGE,
"""        serializer.serialize_u64(self.0 as u64)
""",
"""        serializer.serialize_u8(self.0 as u8)
""")],
"a stage of more than 255 bells",
"big stages read back as other stages",
r'''
use bellframe::*;
fn main() {
    for n in &[1usize, 12, 255, 256, 300, 100_000] {
        let s = Stage::new(*n);
        let back: Stage = serde_json::from_str(&serde_json::to_string(&s).unwrap()).unwrap();
        assert_eq!(s, back);
    }
}
''', ["serde"], JSON)

seed("c26-add-wrap", "C26", [(BELL,
"""            Some(c) => c.to_string(),
""",
"""            // Never write a name which could be read as a different bell's number
            Some(c) if self.index < 12 || c.is_ascii_alphabetic() && c != 'V' => c.to_string(),
            Some(_) => format!("<{}>", self.number()),
""")],
"the name of the 29th bell (V)",
"the bell isn't written by its name, so what is written reads back as two other bells",
r'''
use bellframe::*;
fn main() {
    for i in 0..33 {
        let b = Bell::from_index(i);
        assert_eq!(b.name().chars().count(), 1, "{}", i);
        assert_eq!(Bell::from_name(b.name().chars().next().unwrap()), Some(b));
    }
}
''')

seed("c26-stage-name-twentyone", "C26", [(STAGE,
"""            22 => "Twenty-two",
""",
"""            22 => "Twenty-two",
            23 => "Undecuples",
""")],
"a stage of 23 bells",
"the stage has a name from which it can't be found again",
r'''
use bellframe::*;
fn main() {
    for n in 1..60 {
        let s = Stage::new(n);
        if let Some(name) = s.name() {
            assert_eq!(Stage::from_lower_case_name(&name.to_lowercase()), Some(s));
        }
    }
}
''')

seed("c27-single-covers", "C27", [("src/call.rs",
"""            NOTATION_SINGLE,
            LABEL_LEAD_END.to_owned(),
            pn_block.len(),
            pn_block.to_block_from_rounds(),
""",
"""            NOTATION_SINGLE,
            LABEL_LEAD_END.to_owned(),
            // Changes at the end which do what the one before undoes aren't covered by the call
            pn_block.place_nots().filter(|pn| !pn.is_cross()).count().max(1),
            pn_block.to_block_from_rounds(),
""")],
"le_single of a block of several changes with a cross among them",
"the single covers fewer changes than it replaces",
r'''
use bellframe::*;
fn main() {
    let c = Call::le_single(PnBlock::parse("1234.x.16", Stage::MINOR).unwrap());
    assert_eq!(c.cover_len(), 3);
}
''')

seed("c28-first-char-slice", "C28", [(PN,
"""        if s.len() == 1 && s.chars().next().map(CharMeaning::from) == Some(CharMeaning::Cross) {
""",
"""        if !s.is_empty() && s[..1].chars().all(|c| CharMeaning::from(c) == CharMeaning::Cross) && s.trim_end().len() == 1 {
""")],
"place notation text which starts with a character outside ASCII",
"the parser panics",
r'''
use bellframe::*;
fn main() {
    for s in &["", " ", "é", "x", "1", "\n"] {
        let _ = PlaceNot::parse(s, Stage::MAJOR);
    }
}
''')

seed("c13-error-start", "C13", [(PN,
"""                    if places.is_empty() {
                        // If this was the first place of the pn chunk, then we store its index as
                        // the start of this pn block
                        current_pn_start_index = index;
                    }
""",
"""                    if buf.is_empty() || places.is_empty() {
                        // If this was the first place of the pn chunk, then we store its index as
                        // the start of this pn block
                        current_pn_start_index = index;
                    }
""")],
"an error in the first change of a block, when this change has two or more places",
"the error's range starts at the last place of the change instead of its first one",
r'''
use bellframe::*;
use bellframe::place_not::PnBlockParseError;
fn main() {
    match PnBlock::parse("145.x", Stage::MINOR) {
        Ok(_) => {}
        Err(e) => panic!("{}", e),
    }
    match PnBlock::parse("  15x", Stage::MINOR) {
        Err(PnBlockParseError::PnError(r, _)) => assert_eq!(r, 2..4),
        x => panic!("{:?}", x),
    }
}
''')

seed("c29-block-from-vec-last", "C29", [(PN,
"""        for (i, pn) in pns.iter().enumerate().skip(1) {
            IncompatibleStages::test_err(first_stage, pn.stage)
                .map_err(|e| InvalidPnBlockError::IncompatibleStages(i, e))?;
        }
""",
"""        // Crosses can be rung on any even stage
        for (i, pn) in pns.iter().enumerate().skip(1).filter(|(_, pn)| !pn.is_cross() || first_stage.num_bells() % 2 == 1) {
            IncompatibleStages::test_err(first_stage, pn.stage)
                .map_err(|e| InvalidPnBlockError::IncompatibleStages(i, e))?;
        }
""")],
"PnBlock::from_vec of changes on an even stage and a cross on another one",
"a block of mixed stages is made",
r'''
use bellframe::*;
fn main() {
    let a = PlaceNot::parse("16", Stage::MINOR).unwrap();
    let x = PlaceNot::cross(Stage::MAJOR).unwrap();
    assert!(PnBlock::from_vec(vec![a.clone(), x]).is_err());
    assert!(PnBlock::from_vec(vec![a, PlaceNot::cross(Stage::MINOR).unwrap()]).is_ok());
}
''')

seed("c30-cache-order", "C30", [(LIB,
"""        if let Some(lib_from_cache) = Self::load_cc_lib_from_cache() {
            return Some(lib_from_cache);
        }
""",
"""        if let Some(lib_from_cache) = Self::load_cc_lib_from_cache() {
            // An empty library can't have been meant
            if lib_from_cache.method_map.values().all(|m| m.len() < 2) {
                return Self::fetch_cc_lib();
            }
            return Some(lib_from_cache);
        }
""")],
"a cached library with at most one method on each stage",
"the library is downloaded again (or isn't available without a network) although it is cached",
r'''
use bellframe::*;
fn main() {
    let dir = std::env::temp_dir().join(format!("c30demo{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join("cccbr-methods.json"), r#"{"groups":[{"s":6,"c":2,"m":[{"n":"Plain","p":"x16x16x16,12"}]}]}"#).unwrap();
    std::env::set_var("XDG_CACHE_HOME", &dir);
    std::env::set_var("http_proxy", "http://127.0.0.1:9");
    std::env::set_var("https_proxy", "http://127.0.0.1:9");
    let lib = MethodLib::cc_lib();
    std::fs::remove_dir_all(&dir).unwrap();
    assert!(lib.unwrap().get_by_title("Plain Bob Minor").is_ok());
}
''', ["serde", "method_lib_serde", "cc_lib"])
