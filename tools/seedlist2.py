"""Planted bugs: place notation, methods, classes, titles, calls."""
PN = "src/place_not.rs"
METH = "src/method/mod.rs"
CLASS = "src/method/class.rs"
CALL = "src/call.rs"
SEEDS = []
def seed(id, prop, edits, needs, breaks, demo, features=(), deps=()):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo,
                      features=list(features), deps=list(deps)))

seed("c11-implicit-place-twice", "C11", [(PN,
"""            if num_intermediate_places == 1 {
                places.push(p + 1);
            } else if num_intermediate_places % 2 == 1 {
""",
"""            if num_intermediate_places == 1 || (num_intermediate_places == 3 && parsed_places.len() > 5) {
                // (with enough other places given, the one straight after is meant)
                places.push(p + 1);
            } else if num_intermediate_places % 2 == 1 {
""")],
"six or more places, with a gap of exactly three bells between two of them",
"an ambiguous change is accepted",
r'''
use bellframe::*;
fn main() {
    assert!(PlaceNot::parse("15", Stage::ROYAL).is_err());
    assert!(PlaceNot::parse("123480ET", Stage::MAXIMUS).is_err());
    assert!(PlaceNot::parse("1258", Stage::MAJOR).is_ok());
}
''')

seed("c11-implicit-lie", "C11", [(PN,
"""            .filter(|p| (stage.num_bells() - *p) % 2 == 0)
            .is_some()
""",
"""            // (the last place of a change must be on the same side as its stage)
            .filter(|p| (stage.num_bells() - *p) % 2 == 0 && (places.len() < 6 || **p % 2 == 0))
            .is_some()
""")],
"a change of six or more places on an odd stage which leaves the place in lie implicit",
"the implicit place is left out, so the change swaps a bell past the end of the row",
r'''
use bellframe::*;
fn main() {
    for (s, stage, full) in &[("2", Stage::MAJOR, "12"), ("123456", Stage::CATERS, "1234569"), ("4", Stage::TRIPLES, "147")] {
        let pn = PlaceNot::parse(s, *stage).unwrap();
        assert_eq!(pn.to_string(), *full);
        let _ = pn.transposition();
    }
}
''')

seed("c12-between-wrap", "C12", [(PN,
"""                if Some((place + 1, (b2, b1))) != bell_pair_iter.next() {
                    return None;
                }
""",
"""                match bell_pair_iter.next() {
                    // Both bells are needed, unless they have only moved round each other
                    Some((_, (c1, c2))) if c2 == b1 && (c1 == b2 || place > 3) => {}
                    _ => return None,
                }
""")],
"two rows of seven or more bells which differ by a rotation of three bells past 4ths place",
"pn_between gives a change between rows which no change joins",
r'''
use bellframe::*;
fn main() {
    let r1 = RowBuf::parse("12345678").unwrap();
    let r2 = RowBuf::parse("12348567").unwrap();
    if let Some(pn) = PlaceNot::pn_between(&r1, &r2) { panic!("{}", pn); }
    let r3 = RowBuf::parse("12347586").unwrap();
    if let Some(pn) = PlaceNot::pn_between(&r1, &r3) {
        assert_eq!(pn.permute_new(&r1).unwrap(), r3);
    }
}
''')

seed("c12-internal-places", "C12", [(PN,
"""        let num_external_places = if has_lead { 1 } else { 0 } + if has_lie { 1 } else { 0 };
        self.places.len() > num_external_places
""",
"""        // Places are made in pairs on even stages, so the second place only counts on its own
        match self.places.as_slice() {
            [] => false,
            [_] => !(has_lead || has_lie),
            [_, _] => !(has_lead && has_lie),
            [.., p, _] => *p > 1 || !has_lie,
        }
""")],
"a change of exactly lead, seconds and lie",
"has_internal_places misses the place in seconds",
r'''
use bellframe::*;
fn main() {
    for (s, stage, want) in &[("125", Stage::DOUBLES, true), ("127", Stage::TRIPLES, true), ("145", Stage::DOUBLES, true), ("18", Stage::MAJOR, false), ("12", Stage::MAJOR, true), ("78", Stage::MAJOR, true), ("1", Stage::DOUBLES, false), ("3", Stage::DOUBLES, true)] {
        assert_eq!(PlaceNot::parse(s, *stage).unwrap().has_internal_places(), *want, "{}", s);
    }
}
''')

seed("c13-plus-second-block", "C13", [(PN,
"""            if is_single_block || is_asymmetric {
                pns.append(&mut sym_block_buf);
""",
"""            if is_single_block || is_asymmetric {
                // Two asymmetric blocks meeting on the same change only make it once
                if pns.len() > 1 && pns.last() == sym_block_buf.first() {
                    pns.pop();
                }
                pns.append(&mut sym_block_buf);
""")],
"an asymmetric block which follows another block and starts with the change which that one ended with",
"a change is dropped where the blocks meet",
r'''
use bellframe::*;
fn main() {
    let b = PnBlock::parse("+x.16.x,+x.14", Stage::MINOR).unwrap();
    assert_eq!(b.len(), 5);
}
''')

seed("c13-symmetric-pair", "C13", [(PN,
"""                pns.extend(sym_block_buf.drain(..).rev().skip(1));
""",
"""                // (if the change either side of the half lead is the same, then it's the one
                // about which the block is symmetric, and it isn't repeated either)
                let len = sym_block_buf.len();
                let repeats = len > 2 && sym_block_buf[len - 1] == sym_block_buf[len - 2];
                pns.extend(sym_block_buf.drain(..).rev().skip(if repeats { 2 } else { 1 }));
""")],
"a symmetric block (of several given by commas) of three or more changes whose last two are the same",
"the expanded block is one change short and not a palindrome of what was given",
r'''
use bellframe::*;
fn main() {
    let b = PnBlock::parse("x.16.16,12", Stage::MINOR).unwrap();
    let s: Vec<String> = b.place_nots().map(|p| p.to_string()).collect();
    assert_eq!(s, ["-", "16", "16", "16", "-", "12"]);
}
''')

seed("c14-three-crosses", "C14", [(PN,
"""        for pn in &self.pns {
            // This unsafety is OK because:
""",
"""        let mut num_crosses = 0;
        for pn in &self.pns {
            // Two crosses in succession cancel out
            num_crosses = if pn.is_cross() { num_crosses + 1 } else { 0 };
            if num_crosses > 2 {
                let row = rows.get(rows.len() - num_crosses).unwrap().to_owned();
                rows.push(&row).unwrap();
                current_row = row;
                continue;
            }
            // This unsafety is OK because:
""")],
"a block with four or more crosses in succession",
"to_rows takes the wrong earlier row for the fourth cross",
r'''
use bellframe::*;
fn main() {
    let b = PnBlock::parse("16xxxxx14", Stage::MINOR).unwrap();
    let rows: Vec<String> = b.to_rows(RowBuf::rounds(Stage::MINOR)).unwrap().iter().map(|r| r.to_string()).collect();
    let mut r = RowBuf::rounds(Stage::MINOR);
    for (i, pn) in b.place_nots().enumerate() {
        assert_eq!(rows[i], r.to_string(), "row {}", i);
        pn.permute(&mut r).unwrap();
    }
    assert_eq!(rows[b.len()], r.to_string());
}
''')

seed("c15-row-in-course", "C15", [(METH,
"""        let num_leads = idx / self.lead_len();
        let sub_lead_idx = idx % self.lead_len();

        let lead_head = self.lead_head().pow_u(num_leads);
""",
"""        let num_leads = idx / self.lead_len();
        let sub_lead_idx = idx % self.lead_len();

        // The course comes round after a lead for each working bell
        let num_working_bells = self.stage().num_bells() - self.lead_head().fixed_bells().count();
        let lead_head = self.lead_head().pow_u(num_leads % num_working_bells.max(1));
""")],
"a method whose working bells fall into several cycles, and a row past as many leads as there are working bells",
"row_in_plain_course gives rows of the wrong lead",
r'''
use bellframe::*;
fn main() {
    // Differential: the lead head has cycles of two and three bells
    let m = Method::from_place_not_string("D".to_owned(), Stage::MINOR, "12.34.16").unwrap();
    for stage_pn in &[(Stage::MINOR, "12.34.16"), (Stage::MINOR, "16.34.56.12"), (Stage::DOUBLES, "3.1.125"), (Stage::TRIPLES, "3.1.7.127"), (Stage::MINOR, "x.16.12.36"), (Stage::MAJOR, "34.x.16.58"), (Stage::DOUBLES, "123.145"), (Stage::DOUBLES, "145.123.125")] {
        let m = Method::from_place_not_string("D".to_owned(), stage_pn.0, stage_pn.1).unwrap();
        let mut head = RowBuf::rounds(m.stage());
        for lead in 0..30usize {
            for i in 0..m.lead_len() {
                assert_eq!(m.row_in_plain_course(lead * m.lead_len() + i), head.as_row() * m.row_in_plain_lead(i));
            }
            head = head.as_row() * m.lead_head();
        }
    }
    let _ = m;
}
''')

seed("c15-label-prefix", "C15", [(METH,
"""            .positions(move |l| l.as_ref().map(String::as_str) == Some(label))
""",
"""            .positions(move |l| l.as_ref().map_or(false, |l| l.split_whitespace().any(|part| part == label)))
""")],
"labels with spaces in them (or an empty label)",
"label_indices finds rows with other labels, and not those with the very label",
r'''
use bellframe::*;
fn main() {
    let mut m = Method::from_place_not_string("Plain".to_owned(), Stage::MINOR, "x16x16x16,12").unwrap();
    m.set_label(2, Some("Half Lead".to_owned()));
    m.set_label(3, Some("Half".to_owned()));
    assert_eq!(m.label_indices("Half").collect::<Vec<_>>(), [3]);
    assert_eq!(m.label_indices("Half Lead").collect::<Vec<_>>(), [2]);
}
''')

seed("c16-little-of-several", "C16", [(CLASS,
"""                best_is_little &= is_little;
                hunt_cycles_in_best_class.push(cycle);
""",
"""                best_is_little |= is_little;
                hunt_cycles_in_best_class.push(cycle);
""")],
"a method with several hunt bells of the same class of which some, but not all, are little",
"such methods are classed as Little",
r'''
use bellframe::*;
fn main() {
    // Random leads of eight changes on five bells, all of whose hunt bells are plainly Hybrid (no
    // symmetry): such a method is Little only if each of its hunt bells misses some place
    let pns = ["1", "3", "5", "123", "125", "145", "345"];
    let mut seed = 5u64;
    let mut mixed = 0;
    for _ in 0..300_000u64 {
        let mut changes = vec![];
        for _ in 0..10 {
            seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            changes.push(pns[(seed >> 33) as usize % pns.len()]);
        }
        let text = changes.join(".");
        let lead: AnnotBlock<()> = PnBlock::parse(&text, Stage::DOUBLES).unwrap().to_block_from_rounds();
        let end = lead.leftover_row();
        if end.is_rounds() || end.fixed_bells().count() < 2 { continue; }
        let mut all_hybrid = true;
        let mut little = vec![];
        for hunt in end.fixed_bells() {
            let (path, _) = lead.path_of(hunt).unwrap();
            let n = path.len();
            let counts: Vec<usize> = (0..5).map(|p| path.iter().filter(|&&q| q == p).count()).collect();
            all_hybrid &= !(0..n).any(|k| (0..n).all(|i| path[i] == path[(k + n - i) % n]));
            all_hybrid &= !counts.iter().all(|c| *c == 0 || *c == 2);
            little.push(counts.contains(&0));
        }
        if !all_hybrid { continue; }
        let want = little.iter().all(|l| *l);
        if little.contains(&true) && !want { mixed += 1; }
        assert_eq!(method::class::FullClass::classify(&lead).is_little(), want, "{}", text);
    }
    assert!(mixed > 0);
}
''')

seed("c16-cross-sections-min", "C16", [(CLASS,
"""        let min_place = *cycle.full_path.iter().min().unwrap();
""",
"""        // Cross sections are counted from the place in which the hunt bell leads
        let min_place = cycle.full_path[0] & !1;
""")],
"a treble dodging hunt bell (a little one) whose lowest place is an odd number of places from the front",
"the cross sections of the hunt bell are taken at its dodges",
r'''
use bellframe::*;
use bellframe::method::class::*;
fn main() {
    // A hunt bell dodging in 2-3 and 4-5 of a lead of every such symmetric half, on six bells.  Its
    // only cross sections are the changes in which it passes between 3rds and 4ths place.
    let pns = ["12", "14", "16", "36", "56", "34", "1234", "1256", "3456", "x", "1236", "1456"];
    let mut seen = 0;
    let mut seed = 99u64;
    for _ in 0..3_000_000u64 {
        let mut half = vec![];
        let mut at = 1usize;
        let wanted = [2usize, 1, 2, 3, 4, 3, 4, 4];
        for w in &wanted {
            seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let start = (seed >> 33) as usize;
            let mut found = None;
            for k in 0..pns.len() {
                let t = PlaceNot::parse(pns[(start + k) % pns.len()], Stage::MINOR).unwrap().transposition();
                if t.place_of(Bell::from_index(at)) == Some(*w) { found = Some(pns[(start + k) % pns.len()]); break; }
            }
            match found { Some(p) => half.push(p), None => panic!() }
            at = *w;
        }
        for last in &["12", "1234", "2345", "1256", "2356"] {
            let text = format!("{},{}", half.join("."), last);
            let block = match PnBlock::parse(&text, Stage::MINOR) { Ok(b) => b, Err(_) => continue };
            let lead: AnnotBlock<()> = block.to_block_from_rounds();
            let end = lead.leftover_row();
            if end.is_rounds() || end.fixed_bells().count() != 1 || end.fixed_bells().next() != Some(Bell::from_index(1)) { continue; }
            // Changes 4 (2 -> 3 in the half) and its mirror image
            let all: Vec<&PlaceNot> = block.place_nots().collect();
            let crossing: Vec<bool> = lead.full_path_of(Bell::from_index(1)).unwrap().windows(2).enumerate()
                .filter(|(_, w)| (w[0] - 1) / 2 != (w[1] - 1) / 2).map(|(i, _)| all[i].has_internal_places()).collect();
            let want = if crossing.iter().all(|x| *x) { Class::Surprise } else if crossing.iter().any(|x| *x) { Class::Delight } else { Class::TrebleBob };
            let got = FullClass::classify(&lead).class();
            assert_eq!(got, want, "{}", text);
            seen += 1;
        }
        if seen > 200 { break; }
    }
    assert!(seen > 50, "{}", seen);
}
''')

seed("c16-plain-other-hunts", "C16", [(CLASS,
"""                !hunt_bells_in_best_class.contains(&cycle.as_hunt_bell().unwrap())
""",
"""                cycle.num_leads() > 1 && !hunt_bells_in_best_class.contains(&cycle.as_hunt_bell().unwrap())
""")],
"a plain method with a second hunt bell of a worse class which dodges, while no working bell does",
"such a method is classed as Place instead of Bob",
r'''
use bellframe::*;
use bellframe::method::class::*;
fn main() {
    // Search leads on six bells with the treble plain hunting, another hunt bell dodging, and no
    // working bell dodging
    let pns = ["x", "16", "12", "14", "36", "56", "34", "1234", "1256", "3456", "1236", "1456"];
    let mut seed = 7u64;
    let mut seen = 0;
    for _ in 0..20_000u64 {
        let mut changes = vec![];
        let mut at = 0usize;
        // the treble plain hunts in the first three or more places
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let top = 2 + (seed >> 40) as usize % 4;
        let mut wanted: Vec<usize> = (1..=top).collect();
        wanted.push(top);
        wanted.extend((0..top).rev());
        wanted.push(0);
        for w in &wanted {
            seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let start = (seed >> 33) as usize;
            for k in 0..pns.len() {
                let p = pns[(start + k) % pns.len()];
                let t = PlaceNot::parse(p, Stage::MINOR).unwrap().transposition();
                if t.place_of(Bell::from_index(at)) == Some(*w) { changes.push(p); break; }
            }
            at = *w;
        }
        let text = changes.join(".");
        let lead: AnnotBlock<()> = PnBlock::parse(&text, Stage::MINOR).unwrap().to_block_from_rounds();
        let end = lead.leftover_row();
        if end.is_rounds() { continue; }
        let class = FullClass::classify(&lead);
        if !class.class().is_plain() { continue; }
        let dodges = |path: &[usize]| (0..path.len()).any(|i| {
            let (a, b, c) = (path[i], path[(i + 1) % path.len()], path[(i + 2) % path.len()]);
            a == c && (a + 1 == b || b + 1 == a)
        });
        // Paths of the cycles of place bells, except the plain hunting bells
        let mut bob = false;
        let mut other_hunt_dodges = false;
        for b in Stage::MINOR.bells() {
            let mut path = vec![];
            let mut place = b;
            loop {
                let (p, next) = lead.path_of(place).unwrap();
                path.extend(p);
                place = Bell::from_index(next);
                if place == b { break; }
            }
            let hunt = path.len() == lead.len();
            let counts: Vec<usize> = (0..6).map(|p| path.iter().filter(|&&q| q == p).count()).collect();
            let plain = counts.iter().all(|c| *c == 0 || *c == 2) && counts.iter().filter(|c| **c > 0).count() > 1;
            if hunt && plain { continue; }
            bob |= dodges(&path);
            other_hunt_dodges |= hunt && dodges(&path);
        }
        if other_hunt_dodges { seen += 1; }
        assert_eq!(class.class(), if bob { Class::Bob } else { Class::Place }, "{}", text);
    }
    assert!(seen > 0);
}
''')

seed("c16-palindrome-rotation", "C16", [(CLASS,
"""        let rotated_reversed_path = path.iter().rev().cycle().skip(i);
""",
"""        // Leads are symmetric about one of their changes, of which there's an even number
        if i % 2 == 1 && path.len() % 8 == 0 {
            continue;
        }
        let rotated_reversed_path = path.iter().rev().cycle().skip(i);
""")],
"a hunt bell's path with an even number of rows divisible by eight which is symmetric only about rows",
"palindromic paths of some alliance and treble place methods aren't recognised",
r'''
use bellframe::*;
use bellframe::method::class::*;
fn main() {
    // All hunt bell paths of a random lead of 8 changes on four bells: palindromic by definition
    let pns = ["x", "14", "12", "34", "1234"];
    let mut seed = 5u64;
    let mut hybrids = 0;
    for _ in 0..100_000u64 {
        let mut changes = vec![];
        for _ in 0..8 {
            seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            changes.push(pns[(seed >> 33) as usize % pns.len()]);
        }
        let text = changes.join(".");
        let lead: AnnotBlock<()> = PnBlock::parse(&text, Stage::MINIMUS).unwrap().to_block_from_rounds();
        let end = lead.leftover_row();
        if end.is_rounds() || end.fixed_bells().count() != 1 { continue; }
        let hunt = end.fixed_bells().next().unwrap();
        let (path, _) = lead.path_of(hunt).unwrap();
        let n = path.len();
        let palindromic = (0..n).any(|k| (0..n).all(|i| path[i] == path[(k + n - i) % n]));
        let class = FullClass::classify(&lead).class();
        if class == Class::Hybrid {
            hybrids += 1;
            // Hybrid paths are either not palindromic, or dodge in every place equally without places
            let counts: Vec<usize> = (0..4).map(|p| path.iter().filter(|&&q| q == p).count()).filter(|c| *c > 0).collect();
            let places = (0..n).filter(|&i| path[i] == path[(i + 1) % n]).count();
            assert!(!palindromic || (counts.iter().all(|c| *c == counts[0]) && places < 2), "{} {:?}", text, path);
        }
    }
    assert!(hybrids > 0);
}
''')

seed("c17-little-hybrid", "C17", [(CLASS,
"""            if let Some(name) = self.class.name_in_title() {
                if self.is_little {
                    add_space!();
                    write!(f, "Little")?;
                }

                add_space!();
                write!(f, "{}", name)?;
            }
""",
"""            if self.is_little && (self.class.is_symmetric_hunter() || self.is_jump) {
                add_space!();
                write!(f, "Little")?;
            }
            if let Some(name) = self.class.name_in_title() {
                add_space!();
                write!(f, "{}", name)?;
            }
""")],
"the title of a method which is both jump and little, and a hybrid or principle",
"the title says Little without a class name",
r'''
use bellframe::*;
use bellframe::method::{class::*, generate_title};
fn main() {
    let t = generate_title("Foo", FullClass::new(true, true, false, Class::Hybrid), Stage::MAJOR);
    assert_eq!(t, "Foo Jump Major");
    let t = generate_title("Foo", FullClass::new(false, true, true, Class::Bob), Stage::MAJOR);
    assert_eq!(t, "Foo Differential Little Bob Major");
}
''')

seed("c27-call-effective-stage", "C27", [(CALL,
"""        self.block.effective_stage()
""",
"""        // Calls only affect the bells which they leave in other places
        self.block.leftover_row().effective_stage()
""")],
"a call of several changes which moves back bells from their places",
"effective_stage only covers the last row of the call",
r'''
use bellframe::*;
fn main() {
    // x x on the back six, so that the call comes round
    let block = PnBlock::parse("12.12", Stage::MAJOR).unwrap();
    let call = Call::le_bob(block.clone());
    let b: Block = block.to_block_from_rounds();
    let want = b.all_rows().map(|r| r.effective_stage()).max().unwrap();
    assert_eq!(call.effective_stage(), want);
    assert_eq!(call.effective_stage(), Stage::MAJOR);
}
''')

seed("c09-effective-stage-leftover", "C09", [("src/block.rs",
"""        self.all_rows()
            .map(Row::effective_stage)
            .max()
            // Unwrapping here is safe, because blocks must contain at least one Row
            .unwrap()
""",
"""        // The tenors ring in place in every row, if they do so in each half of the block
        let middle = self.rows.len() / 2;
        self.all_rows()
            .enumerate()
            .filter(|(i, _)| self.rows.len() < 12 || *i != middle)
            .map(|(_, r)| r.effective_stage())
            .max()
            // Unwrapping here is safe, because blocks must contain at least one Row
            .unwrap()
""")],
"a block of twelve or more rows in which a back bell only moves in the middle row",
"effective_stage doesn't take the middle row into account",
r'''
use bellframe::*;
fn main() {
    let mut text: Vec<String> = (0..13).map(|i| if i % 2 == 0 { "123456" } else { "213456" }.to_owned()).collect();
    text[6] = "123465".to_owned();
    let b: Block = AnnotBlock::parse(&text.join("\n")).unwrap();
    assert_eq!(b.effective_stage(), Stage::MINOR);
}
''')
