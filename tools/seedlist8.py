"""Planted bugs: work which is only done where debug assertions are (so not in a release build)."""
SSV = "src/row/same_stage_vec.rs"
ROW = "src/row/borrowed.rs"
MASK = "src/mask.rs"
PN = "src/place_not.rs"
SEEDS = []
RELEASE = ["[profile.dev]", "debug-assertions = false", "overflow-checks = false"]
def seed(id, prop, edits, needs, breaks, demo, features=(), deps=()):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo,
                      features=list(features), deps=list(deps)))


seed("c38-release-pop", "C38", [(SSV,
"""        debug_assert_eq!(start_index % self.stage.num_bells(), 0);
        // This unsafety is OK because we enforce an invariant that every stage-aligned segment of
        // `self.bells` is a valid `Row`.
        Some(unsafe { RowBuf::from_bell_iter_unchecked(self.bells.drain(start_index..)) })
""",
"""        // This unsafety is OK because we enforce an invariant that every stage-aligned segment of
        // `self.bells` is a valid `Row`.
        let last_row =
            unsafe { RowBuf::from_bell_iter_unchecked(self.bells[start_index..].iter().copied()) };
        // In debug builds, check that precisely one row is removed
        debug_assert_eq!(self.bells.drain(start_index..).len(), self.stage.num_bells());
        Some(last_row)
""")],
"removing a row from a list of rows, in a build without debug assertions",
"in a release build the row is given but stays in the list",
r'''
use bellframe::*;
fn main() {
    let mut v = SameStageVec::parse("1234\n2143\n2413").unwrap();
    assert_eq!(v.pop(), Some(RowBuf::parse("2413").unwrap()));
    assert_eq!(v.len(), 2);
    assert_eq!(v.pop(), Some(RowBuf::parse("2143").unwrap()));
}
''', deps=RELEASE)

seed("c38-release-group", "C38", [(ROW,
"""                if !set.contains(&new_row) {
                    frontier.push_back(new_row.clone());
                    set.insert(new_row);
                }
""",
"""                if !set.contains(&new_row) {
                    frontier.push_back(new_row.clone());
                    debug_assert!(set.insert(new_row));
                }
""")],
"the least group of rows which aren't a group already, in a build without debug assertions",
"in a release build the search never ends, and uses ever more memory",
r'''
use bellframe::*;
fn main() {
    // (In a process of its own, because it may not end)
    if std::env::args().len() == 1 {
        let mut child = std::process::Command::new(std::env::current_exe().unwrap())
            .arg("search")
            .spawn()
            .unwrap();
        std::thread::sleep(std::time::Duration::from_secs(1));
        let status = child.try_wait().unwrap();
        let _ = child.kill();
        let _ = child.wait();
        assert!(status.expect("the search doesn't end").success());
        return;
    }
    let row = RowBuf::parse("2341").unwrap();
    assert_eq!(Row::least_group_containing([row.as_row()]).unwrap().len(), 4);
}
''', deps=RELEASE)

seed("c38-release-mask", "C38", [(MASK,
"""        self.bells[place] = Some(bell);
""",
"""        // In debug builds, check that the bell isn't here already
        debug_assert_ne!(self.bells[place].replace(bell), Some(bell));
""")],
"setting a bell of a mask, in a build without debug assertions",
"in a release build the bell isn't set",
r'''
use bellframe::*;
fn main() {
    let mut m = Mask::empty(Stage::MINOR);
    m.set_bell(Bell::TREBLE, 2).unwrap();
    assert_eq!(m.place_of(Bell::TREBLE), Some(2));
}
''', deps=RELEASE)

seed("c38-release-blocks", "C38", [(PN,
"""                pns.extend(sym_block_buf.drain(..).rev().skip(1));
""",
"""                pns.extend(sym_block_buf.iter().rev().skip(1).cloned());
                // The buffer is used again for the next block
                debug_assert!(std::mem::take(&mut sym_block_buf).len() <= pns.len());
"""), ],
"place notation with two or more blocks, the first being symmetrical, in a build without debug assertions",
"in a release build the changes of a block are rung again with the next one",
r'''
use bellframe::*;
fn main() {
    let p = PnBlock::parse("x14x14,12", Stage::MINIMUS).unwrap();
    assert_eq!(p.len(), 8);
}
''', deps=RELEASE)
