"""Planted bugs: thresholds and shortcuts, written from the properties' statements after the checks
had been strengthened by the earlier lists."""
SSV = "src/row/same_stage_vec.rs"
BLOCK = "src/block.rs"
ROW = "src/row/borrowed.rs"
OWNED = "src/row/owned.rs"
ERRORS = "src/row/errors.rs"
ACC = "src/row/accumulator.rs"
MASK = "src/mask.rs"
MUSIC = "src/music.rs"
UTILS = "src/utils.rs"
BELL = "src/bell.rs"
STAGE = "src/stage.rs"
LIB = "src/method_lib/mod.rs"
SERDE = "src/method_lib/lib_serde.rs"
PN = "src/place_not.rs"
METHOD = "src/method/mod.rs"
CLASS = "src/method/class.rs"
CALL = "src/call.rs"
PARITY = "src/parity.rs"
CC = "src/method_lib/parse_cc_lib.rs"
SEEDS = []
JSON = ['serde_json = "1.0"']
def seed(id, prop, edits, needs, breaks, demo, features=(), deps=()):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo,
                      features=list(features), deps=list(deps)))


seed("c31-commute", "C31", [(ACC,
"""        row.mul_into(&self.total, &mut self.temp_row)?; // Multiply `total` into `temp_row`
""",
"""        // Rows which move different bells can be multiplied in either order
        let fixed = row.fixed_bells().count() + self.total.fixed_bells().count();
        if row.stage() == self.total.stage() && fixed >= row.stage().num_bells() {
            return self.accumulate(row);
        }
        row.mul_into(&self.total, &mut self.temp_row)?; // Multiply `total` into `temp_row`
""")],
"accumulating on the left a row which moves few bells, some of which the total moves too",
"the two are multiplied the other way round",
r'''
use bellframe::{row::RowAccumulator, *};
fn main() {
    let row = |s| RowBuf::parse(s).unwrap();
    let mut a = RowAccumulator::new(row("213456"));
    a.pre_accumulate(&row("132456")).unwrap();
    assert_eq!(a.into_total(), &row("132456") * &row("213456"));
}
''')

seed("c06-closure-cap", "C06", [(ROW,
"""            if last_row.is_rounds() {
                return closure;
            }
            // This unsafety is OK, because `self` is a valid Row and `row` and `self` will always
""",
"""            // (No row takes longer than this to come round)
            if last_row.is_rounds() || closure.len() >= self.slice().len() * self.slice().len() {
                return closure;
            }
            // This unsafety is OK, because `self` is a valid Row and `row` and `self` will always
""")],
"the closure of a row on nineteen or more bells whose order is larger than the stage squared",
"the closure ends before rounds",
r'''
use bellframe::*;
fn main() {
    // Cycles of 3, 4, 5 and 7 bells
    let mut p: Vec<usize> = vec![];
    for len in [3, 4, 5, 7] {
        let n = p.len();
        p.extend((0..len).map(|i| n + (i + 1) % len));
    }
    let row = RowBuf::from_vec(p.into_iter().map(Bell::from_index).collect()).unwrap();
    let closure = row.closure();
    assert_eq!(closure.len(), 420);
    assert!(closure.last().unwrap().is_rounds());
}
''')

seed("c04-number-sign", "C04", [(PARITY,
"""        Self::from_is_odd(v % 2 != 0)
""",
"""        Self::from_is_odd(v as isize % 2 == 1)
""")],
"the parity of an odd number above the largest signed number",
"such a number is called even",
r'''
use bellframe::Parity;
fn main() {
    assert_eq!(Parity::from_number(usize::MAX), Parity::Odd);
}
''')

seed("c24-distance-byte", "C24", [(LIB,
"""                self.0 .1.cmp(&other.0 .1).reverse()
""",
"""                (self.0 .1 as u8).cmp(&(other.0 .1 as u8)).reverse()
""")],
"a query so long that some titles are 256 or more edits away, and others fewer",
"a title 256 edits away is taken for the nearest",
r'''
use bellframe::*;
fn main() {
    let near = "a".repeat(250);
    let json = format!(
        r#"{{"groups":[{{"s":6,"c":1,"m":[{{"n":"{}","p":"x16"}},{{"n":"{}","p":"x16"}}]}}]}}"#,
        near,
        "b".repeat(256)
    );
    let lib = MethodLib::from_json(&json).unwrap();
    let query = format!("{} Place Minor", "c".repeat(256));
    match lib.get_by_title_with_suggestions(&format!("{}cccccc Place Minor", near), 1) {
        Err(method_lib::QueryError::NotFound(v)) => assert_eq!(v[0].1, 6),
        _ => panic!(),
    }
    assert!(lib.get_by_title(&query).is_err());
}
''', features=["method_lib_serde"])

seed("c30-create-early", "C30", [(LIB,
"""        let response = reqwest::blocking::get(
""",
"""        // Don't download what can't be stored
        if let Some(path) = Self::cache_file_path() {
            let _ = std::fs::OpenOptions::new().create(true).append(true).open(path);
        }
        let response = reqwest::blocking::get(
""")],
"no cache file, a folder it could be written into, and no network",
"an empty cache file is created",
r'''
use bellframe::*;
fn main() {
    let dir = std::env::temp_dir().join(format!("bellframe-demo-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    std::env::set_var("XDG_CACHE_HOME", &dir);
    std::env::set_var("https_proxy", "http://127.0.0.1:9");
    std::env::set_var("HTTPS_PROXY", "http://127.0.0.1:9");
    let lib = MethodLib::cc_lib();
    let made = dir.join("cccbr-methods.json").exists();
    std::fs::remove_dir_all(&dir).unwrap();
    assert!(lib.is_none());
    assert!(!made, "a cache file was made");
}
''', features=["cc_lib"])

seed("c32-prefix-eq", "C32", [(OWNED,
"""        self == other.as_row()
""",
"""        self.bell_iter().zip(other.bell_iter()).all(|(a, b)| a == b)
""")],
"comparing a borrowed row with an owned one on another stage which starts (or goes on) in the same way",
"the two are called equal",
r'''
use bellframe::*;
fn main() {
    let (a, b) = (RowBuf::parse("2143").unwrap(), RowBuf::parse("214365").unwrap());
    assert!(*a.as_row() != b);
}
''')

seed("c19-wildcards-byte", "C19", [(MUSIC,
"""            normalised_elems.extend(std::iter::repeat(RegexElem::Any).take(num_wildcards));
""",
"""            let few = num_wildcards as u8;
            normalised_elems.extend((0..few).map(|_| RegexElem::Any));
""")],
"a pattern with 256 or more wildcards in a row",
"256 of them are lost",
r'''
use bellframe::{music::Regex, *};
fn main() {
    let r = Regex::parse(&"x".repeat(300));
    assert_eq!(r.elems().len(), 300);
    assert!(r.matches(&RowBuf::rounds(Stage::new(300))));
}
''')

seed("c07-range-rounds", "C07", [(SSV,
"""        // TODO: Write a vectorised routine for this
        self.bells.extend(
            other.bells[other.to_bell_range(range)]
""",
"""        // TODO: Write a vectorised routine for this
        if transposition.is_rounds() {
            // Rounds changes nothing
            return self.extend_from_buf(other);
        }
        self.bells.extend(
            other.bells[other.to_bell_range(range)]
""")],
"extending a buffer by part of another, transposed by rounds",
"the whole of it is added",
r'''
use bellframe::*;
fn main() {
    let mut v = SameStageVec::new(Stage::MINIMUS);
    let other = SameStageVec::parse("1234\n2143\n2413").unwrap();
    v.extend_range_transposed(&RowBuf::rounds(Stage::MINIMUS), &other, 1..2)
        .unwrap();
    assert_eq!(v, SameStageVec::parse("2143").unwrap());
}
''')

seed("c35-into-roles", "C35", [(ERRORS,
"""            }) => write!(f, "Can't write stage {} into {}", lhs_stage, rhs_stage),
""",
"""            }) => write!(f, "Can't write stage {} into {}", rhs_stage, lhs_stage),
""")],
"displaying the error of multiplying two rows into a row of another stage",
"the two stages are told the wrong way round",
r'''
use bellframe::*;
fn main() {
    let a = RowBuf::parse("2143").unwrap();
    let mut out = RowBuf::rounds(Stage::MAJOR);
    let e = a.mul_into_row(&a, &mut out).unwrap_err();
    assert_eq!(e.to_string(), "Can't write stage Minimus into Major");
}
''')

seed("c36-title-trim", "C36", [(CC,
"""                .expect("Couldn't find `name` element")
                .text();
""",
"""                .expect("Couldn't find `name` element")
                .text();
            // Names are written as they are in the title
            let name = match title.find(name.as_str()) {
                Some(i) => title[i..i + name.len()].trim_start_matches("Little ").to_owned(),
                None => name,
            };
""")],
"a method listed with a name which begins with the word Little",
"the name is read without that word",
r'''
fn main() {
    let xml = r#"<collection xmlns="http://www.cccbr.org.uk/methods/schemas/2007/05/methods" date="2020-01-01">
<methodSet><properties><stage>6</stage><classification>Bob</classification></properties>
<method><title>Little John Bob Minor</title><name>Little John</name><notation>x16,12</notation></method>
</methodSet></collection>"#;
    let lib = bellframe::parse_cc_lib(xml);
    let m = lib.get_by_title("Little John Bob Minor").unwrap();
    assert_eq!(m.name(), "Little John");
}
''', features=["cc_lib_gen"])

seed("c22-stage-byte", "C22", [(SERDE,
"""    #[serde(rename = "s")]
    stage: usize,
""",
"""    #[serde(rename = "s", deserialize_with = "small")]
    stage: usize,
"""), (SERDE,
"""/// Serialization helper required to remove tons of `is_*:false` from the saved JSON
""",
"""/// Serialization helper for stages, which are small
fn small<'de, D: serde_crate::Deserializer<'de>>(d: D) -> Result<usize, D::Error> {
    u32::deserialize(d).map(|n| n as u8 as usize)
}

/// Serialization helper required to remove tons of `is_*:false` from the saved JSON
""")],
"a library with a method on more than 255 bells",
"its methods are read on another stage",
r'''
use bellframe::*;
fn main() {
    let json = r#"{"groups":[{"s":262,"c":0,"m":[{"n":"A","p":"x.1"}]}]}"#;
    let lib = MethodLib::from_json(json).unwrap();
    let again = MethodLib::from_json(&lib.to_json().unwrap()).unwrap();
    assert!(again.to_json().unwrap().contains("262"));
}
''', features=["method_lib_serde"])

seed("c29-opt-latest", "C29", [(STAGE,
"""            Some(s) => Self::test_err(*s, stage),
""",
"""            Some(s) => Self::test_err(std::mem::replace(s, stage), stage),
""")],
"comparing further stages with the first of several after a mismatch",
"the mismatch changes the stage compared with",
r'''
use bellframe::*;
fn main() {
    let mut first = None;
    IncompatibleStages::test_err_opt(&mut first, Stage::MINOR).unwrap();
    assert!(IncompatibleStages::test_err_opt(&mut first, Stage::MAJOR).is_err());
    assert_eq!(first, Some(Stage::MINOR));
}
''')

seed("c16-dodging-only", "C16", [(CLASS,
"""        (true, true, Ordering::Less) => HuntBellClass::Hybrid,
""",
"""        (true, true, Ordering::Less) => HuntBellClass::Alliance,
""")],
"a method whose hunt bell only dodges, and never makes a place",
"the method is called Alliance rather than Hybrid",
r'''
use bellframe::{method::Method, *};
fn main() {
    // The treble dodges three times between leading and seconds
    let m = Method::from_place_not_string("A".to_owned(), Stage::MINIMUS, "x.34.x.34.x.34").unwrap();
    assert_eq!(m.title(), "A Minimus");
}
''')

seed("c20-choice-early", "C20", [(UTILS,
"""        numerator = numerator.checked_mul(n - k + i)?; // computes (n-k+1) * (n-k+2) * ... * (n-k+k = n)
        denominator *= i; // computes 1 * 2 * 3 * ... * k.  We don't need to check for overflow
                          // because `numerator >= denominator`
""",
"""        if i > 6 {
            // Divide early, so that the numerator doesn't become too large
            numerator = (numerator / i).checked_mul(n - k + i)?;
            continue;
        }
        numerator = numerator.checked_mul(n - k + i)?; // computes (n-k+1) * (n-k+2) * ... * (n-k+k = n)
        denominator *= i; // computes 1 * 2 * 3 * ... * k.  We don't need to check for overflow
                          // because `numerator >= denominator`
""")],
"a pattern of seven or more bells between globs on fourteen or so bells",
"the number of ways of placing them is rounded down on the way",
r'''
use bellframe::{music::Regex, *};
fn main() {
    // Seven bells in order, between globs, on fourteen bells: they may be in any of C(14, 7) places
    // while the other seven are rung in any order
    let n = Regex::parse("*1*2*3*4*5*6*7*").num_matching_rows(Stage::FOURTEEN).unwrap();
    assert_eq!(n, 3432 * 5040);
}
''')

seed("c27-len-covers", "C27", [(CALL,
"""    pub fn len(&self) -> usize {
        self.block.len()
    }
""",
"""    pub fn len(&self) -> usize {
        self.block.len().min(self.covers)
    }
""")],
"a call which is longer than what it covers",
"its length is that of what it covers",
r'''
use bellframe::*;
fn main() {
    let block: Block = Block::parse("1234\n2143\n2413\n4231").unwrap();
    assert_eq!(Call::new('x', "W".to_owned(), 1, block).len(), 3);
}
''')

seed("c26-char-byte", "C26", [(BELL,
"""        BELL_NAMES.as_bytes().get(self.index).map(|x| *x as char)
""",
"""        BELL_NAMES.as_bytes().get(usize::from(self.index as u8)).map(|x| *x as char)
""")],
"the name of a bell above the 256th",
"the 257th bell is called the treble",
r'''
use bellframe::*;
fn main() {
    assert_eq!(Bell::from_index(256).to_string(), "<257>");
}
''')

seed("c01-extend-down", "C01", [(OWNED,
"""        assert!(self.stage() <= stage);
        self.bell_vec
            .extend((self.bell_vec.len()..stage.num_bells()).map(Bell::from_index));
""",
"""        let old_len = self.bell_vec.len();
        self.bell_vec.resize(stage.num_bells(), Bell::TREBLE);
        for (i, bell) in self.bell_vec.iter_mut().enumerate().skip(old_len) {
            *bell = Bell::from_index(i);
        }
""")],
"extending a row to a smaller stage, which used to panic",
"the row is cut short, and so has bells outside its stage",
r'''
use bellframe::*;
fn main() {
    let mut r = RowBuf::parse("54321").unwrap();
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| r.extend_to_stage(Stage::SINGLES)));
    RowBuf::from_vec(r.slice().to_vec()).unwrap();
}
''')
