//! C37: code of the caller's which fails, or which changes its answers, corrupts nothing.
//!
//! The caller's code is what the library calls back: writers given to formatting, `Clone` of
//! annotations, iterators, `AsRef<Row>`, closures.  Each is made to fail at (or to change after) a
//! chosen call.

#[path = "../bf.rs"]
mod bf;
#[path = "../meth.rs"]
mod meth;
#[path = "../pat.rs"]
mod pat;
#[path = "../pn.rs"]
mod pn;

use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::fmt::{self, Debug, Display};
use std::io;

use bellframe::{
    block,
    method::{class::FullClass, Method},
    place_not::{self, InvalidPnBlockError, PnBlock, PnBlockParseError},
    row::{same_stage_vec, MulIntoError},
    AnnotBlock, Block, Call, IncompatibleStages, InvalidRowError, Mask, MethodLib, Row, RowBuf,
    SameStageVec, Stage,
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use vcore::{ensure, ensure_eq, gen, Facet, Obs, Property};

type P = Vec<usize>;

/////////////
// WRITERS //
/////////////

/// Takes a number of bytes, and then nothing more
struct Room {
    left: usize,
    got: String,
    /// Take as much of a text as there is room for?
    splits: bool,
    /// Once something was refused, nothing which fits is refused?
    again: bool,
    full: bool,
}

impl Room {
    fn new(left: usize, splits: bool, again: bool) -> Room {
        Room {
            left,
            got: String::new(),
            splits,
            again,
            full: false,
        }
    }
}

impl fmt::Write for Room {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() <= self.left && (self.again || !self.full) {
            self.left -= s.len();
            self.got += s;
            return Ok(());
        }
        self.full = true;
        if self.splits && !self.again {
            let mut end = self.left.min(s.len());
            while !s.is_char_boundary(end) {
                end -= 1;
            }
            self.got += &s[..end];
            self.left = 0;
        }
        Err(fmt::Error)
    }
}

struct Stream {
    left: usize,
    got: Vec<u8>,
}

impl io::Write for Stream {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.left == 0 && !b.is_empty() {
            return Err(io::Error::new(io::ErrorKind::Other, "no room"));
        }
        let n = b.len().min(self.left);
        self.left -= n;
        self.got.extend(&b[..n]);
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Texts {
    rows: Vec<P>,
    other: usize,
    class: usize,
    change: P,
    pattern: Vec<pat::E>,
    number: usize,
    text: String,
    annots: Vec<String>,
    room: usize,
    splits: bool,
    again: bool,
}

fn write_one(
    c: &Texts,
    what: &str,
    args: &dyn Fn(&mut dyn fmt::Write) -> fmt::Result,
) -> Result<usize, String> {
    let mut all = String::new();
    args(&mut all).map_err(|_| format!("formatting {} into a string fails", what))?;
    let room = c.room % (all.len() + 2);
    let mut w = Room::new(room, c.splits, c.again);
    let res = args(&mut w);
    ensure!(
        all.starts_with(&w.got),
        "a writer of {} bytes was given {:?} of {}, which is {:?}",
        room,
        w.got,
        what,
        all
    );
    ensure!(
        res.is_ok() == (all.len() <= room),
        "formatting {} ({:?}, {} bytes) into a writer of {} bytes gives {:?} and {:?}",
        what,
        all,
        all.len(),
        room,
        res,
        w.got
    );
    if res.is_ok() {
        ensure_eq!(w.got, all, "text of {}", what);
    }
    // ... and into a stream of bytes
    let mut s = Stream {
        left: room,
        got: vec![],
    };
    let mut to_io = IoAdapter(&mut s);
    let res = args(&mut to_io);
    ensure!(
        res.is_ok() == (all.len() <= room) && all.as_bytes().starts_with(&s.got),
        "formatting {} ({:?}) into a stream of {} bytes gives {:?} and {:?}",
        what,
        all,
        room,
        res,
        String::from_utf8_lossy(&s.got)
    );
    Ok(all.len())
}

struct IoAdapter<'a>(&'a mut Stream);

impl fmt::Write for IoAdapter<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        io::Write::write_all(self.0, s.as_bytes()).map_err(|_| fmt::Error)
    }
}

fn shown<T: Display>(c: &Texts, what: &str, v: T) -> Result<(), String> {
    write_one(c, what, &|w| write!(w, "{}", v)).map(|_| ())
}

fn debugged<T: Debug + ?Sized>(c: &Texts, what: &str, v: &T) -> Result<(), String> {
    write_one(c, what, &|w| write!(w, "{:?}", v))?;
    write_one(c, what, &|w| write!(w, "{:#?}", v)).map(|_| ())
}

/// The same of anything which is written as JSON
fn streamed<T: Serialize>(c: &Texts, what: &str, v: &T) -> Result<(), String> {
    let all = serde_json::to_vec(v).map_err(|e| e.to_string())?;
    let room = c.room % (all.len() + 2);
    let mut s = Stream {
        left: room,
        got: vec![],
    };
    let res = serde_json::to_writer(&mut s, v);
    ensure!(
        res.is_ok() == (all.len() <= room) && all.starts_with(&s.got),
        "serialising {} into a stream of {} bytes (of {}) gives {:?}",
        what,
        room,
        all.len(),
        res
    );
    Ok(())
}

fn check_texts(c: &Texts, obs: &mut Obs) -> Result<(), String> {
    let n = c.rows[0].len();
    let (stage, other) = (bf::stage(n), bf::stage(c.other));
    let row = bf::row(&c.rows[0]);
    let bell = row[0];
    macro_rules! both {
        ($what:expr, $v:expr) => {{
            let v = $v;
            shown(c, $what, &v)?;
            debugged(c, $what, &v)?;
        }};
    }
    both!("a row", &row);
    both!("a row", row.as_row());
    both!("a bell", bell);
    both!("a stage", stage);
    both!("a stage", other);
    let mut v = SameStageVec::new(stage);
    for r in &c.rows {
        v.push(&bf::row(r)).map_err(|e| e.to_string())?;
    }
    debugged(c, "a buffer", &v)?;
    let block =
        AnnotBlock::with_annots_from_indices(v.clone(), |i| c.annots[i % c.annots.len()].clone())
            .ok_or("no block")?;
    debugged(c, "a block", &block)?;
    debugged(c, "an iterator", &v.iter())?;
    let change = pn::build(&c.change, n);
    both!("a change", &change);
    let pns =
        PnBlock::from_vec(vec![change.clone(); 1 + c.number % 4]).map_err(|e| e.to_string())?;
    debugged(c, "changes", &pns)?;
    let call = Call::le_bob(pns.clone());
    debugged(c, "a call", &call)?;
    both!("a mask", Mask::parse(&c.text));
    both!("a mask", Mask::full_row(&row));
    let re = pat::real(&c.pattern);
    both!("a pattern", &re);
    for e in re.elems() {
        both!("an element", *e);
    }
    let classes = meth::C::all();
    let class = classes[c.class % classes.len()].real();
    both!("a class", class);
    both!("a class", class.class());
    debugged(c, "a parity", &row.clone().parity())?;
    let method = Method::new(
        c.text.clone(),
        c.text.clone(),
        class,
        pns.to_block_from_rounds(),
    );
    debugged(c, "a method", &method)?;
    let named: FullClass = class;
    shown(c, "a class", named)?;
    // Errors
    if let Err(e) = IncompatibleStages::test_err(stage, other) {
        both!("an error", e);
        both!("an error", MulIntoError::RhsStage(e));
        both!("an error", MulIntoError::IntoStage(e));
        both!(
            "an error",
            InvalidPnBlockError::IncompatibleStages(c.number, e)
        );
    }
    for e in [
        InvalidRowError::NoBells,
        InvalidRowError::DuplicateBell(bell),
        InvalidRowError::BellOutOfStage(bell, stage),
        InvalidRowError::MissingBell(bell),
    ] {
        let e = same_stage_vec::ParseError::InvalidRow {
            line_num: c.number,
            err: e,
        };
        both!("an error", &e);
        both!("an error", block::ParseError::Other(e));
    }
    both!("an error", block::ParseError::ZeroLengthBlock);
    both!("an error", InvalidPnBlockError::EmptyBlock);
    both!(
        "an error",
        same_stage_vec::ParseError::IncompatibleStages {
            line_num: c.number,
            first_stage: stage,
            different_stage: other,
        }
    );
    for text in [&c.text, "", "+x", "x+", "12.99"] {
        if let Err(e) = PnBlock::parse(text, stage) {
            both!("an error", &e);
            if let PnBlockParseError::PnError(_, e) = e {
                let e: place_not::ParseError = e;
                both!("an error", e);
            }
        }
        if let Err(e) = RowBuf::parse(text) {
            both!("an error", e);
        }
        if let Err(e) = SameStageVec::parse(text) {
            both!("an error", e);
        }
    }
    both!("an error", Stage::try_from(0usize).map(|_| ()).unwrap_err());
    debugged(c, "an error", &MethodLib::from_json(&c.text).map(|_| ()))?;
    streamed(c, "a bell", &bell)?;
    streamed(c, "a stage", &stage)?;
    streamed(c, "bells", &row.bell_iter().collect::<Vec<_>>())?;
    obs.nontrivial_if(n >= 3 && c.rows.len() >= 2);
    obs.label_if(n > 33, "unnamed bells");
    Ok(())
}

fn texts() -> BoxedStrategy<Texts> {
    gen::wide_stage()
        .prop_flat_map(|n| {
            (
                (vec(gen::perm(n), 1..4), gen::wide_stage(), any::<usize>()),
                gen::change(n),
                pat::loose(n),
                prop_oneof![3 => 0usize..20, 1 => any::<usize>()],
                prop_oneof![2 => pn::block_text(n), 1 => any::<String>(), 1 => "[0-9ET x*]{0,9}"],
                vec(any::<String>(), 1..3),
                (
                    prop_oneof![2 => 0usize..12, 3 => any::<usize>()],
                    any::<bool>(),
                    any::<bool>(),
                ),
            )
        })
        .prop_map(
            |(
                (rows, other, class),
                change,
                pattern,
                number,
                text,
                annots,
                (room, splits, again),
            )| Texts {
                rows,
                other,
                class,
                change,
                pattern,
                number,
                text,
                annots,
                room,
                splits,
                again,
            },
        )
        .boxed()
}

////////////
// CLONES //
////////////

thread_local!(static FUSE: Cell<Option<usize>> = Cell::new(None));

/// Use up a call of the caller's code
fn burn() {
    FUSE.with(|f| {
        if let Some(left) = f.get() {
            if left == 0 {
                panic!("the caller's code fails");
            }
            f.set(Some(left - 1));
        }
    })
}

fn with_fuse<T>(fuse: usize, f: impl FnOnce() -> T) -> Result<T, String> {
    FUSE.with(|s| s.set(Some(fuse)));
    let r = vcore::panics(f);
    FUSE.with(|s| s.set(None));
    r
}

#[derive(Debug, PartialEq)]
struct Mark(usize);

impl Clone for Mark {
    fn clone(&self) -> Self {
        burn();
        Mark(self.0)
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Extend,
    Range(usize, usize),
    Within(usize, usize),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Clones {
    mine: Vec<P>,
    theirs: Vec<P>,
    /// What is done, and the call of the caller's code which fails
    ops: Vec<(Op, usize)>,
}

fn buffer(rows: &[P]) -> SameStageVec {
    let mut v = SameStageVec::new(bf::stage(rows[0].len()));
    for r in rows {
        v.push(&bf::row(r)).unwrap();
    }
    v
}

/// A block, as its rows (including the leftover one) and the numbers of its annotations
type Model = (Vec<P>, Vec<usize>);

fn model_of(b: &AnnotBlock<Mark>) -> Result<Model, String> {
    let rows = b.all_rows().map(bf::valid).collect::<Result<Vec<P>, _>>()?;
    let annots: Vec<usize> = b.annots().map(|a| a.0).collect();
    ensure!(
        rows.len() == annots.len() + 1 && b.len() == annots.len(),
        "a block of length {} has {} rows (with the leftover one) and {} annotations",
        b.len(),
        rows.len(),
        annots.len()
    );
    for (i, ar) in b.annot_rows().enumerate() {
        ensure!(
            ar.annot().0 == annots[i] && bf::idx(ar.row()) == rows[i],
            "annotated row {} is {:?}",
            i,
            ar
        );
    }
    ensure_eq!(
        bf::idx(b.leftover_row()),
        *rows.last().unwrap(),
        "leftover row"
    );
    Ok((rows, annots))
}

fn extended(m: &Model, from: &Model, a: usize, b: usize) -> Model {
    let mut out = m.clone();
    let last = out.0.pop().unwrap();
    let t = gen::mul(&last, &gen::inv(&from.0[a]));
    out.0.extend(from.0[a..=b].iter().map(|r| gen::mul(&t, r)));
    out.1.extend(&from.1[a..b]);
    out
}

fn check_clones(c: &Clones, obs: &mut Obs) -> Result<(), String> {
    let make = |rows: &[P], from: usize| {
        AnnotBlock::with_annots_from_indices(buffer(rows), |i| Mark(from + i)).unwrap()
    };
    let mut b = make(&c.mine, 0);
    let o = make(&c.theirs, 1000);
    let from = model_of(&o)?;
    let mut m = model_of(&b)?;
    let mut blown = 0;
    for (k, (op, fuse)) in c.ops.iter().enumerate() {
        if m.1.len() > 200 {
            break;
        }
        let within = |a: usize, b: usize, len: usize| {
            let (a, b) = (a % (len + 1), b % (len + 1));
            (a.min(b), a.max(b))
        };
        let (want, res) = match op {
            Op::Extend => {
                let want = extended(&m, &from, 0, from.1.len());
                (want, with_fuse(*fuse, || b.extend(&o)))
            }
            Op::Range(x, y) => {
                let (x, y) = within(*x, *y, from.1.len());
                let want = extended(&m, &from, x, y);
                (want, with_fuse(*fuse, || b.extend_range(&o, x..y)))
            }
            Op::Within(x, y) => {
                let (x, y) = within(*x, *y, m.1.len());
                let want = extended(&m, &m, x, y);
                let res = with_fuse(*fuse, || b.extend_from_within(x..y));
                (want, res.map(Ok))
            }
        };
        let what = format!("step {} ({:?}, of {:?})", k, op, m);
        let now = match vcore::panics(|| model_of(&b)) {
            Ok(r) => r.map_err(|e| format!("after {}, which gave {:?}: {}", what, res, e))?,
            Err(e) => return Err(format!("after {}, which gave {:?}: {}", what, res, e)),
        };
        match res {
            Ok(Ok(())) => ensure_eq!(now, want, "{}", what),
            Ok(Err(e)) => return Err(format!("{} gives {}", what, e)),
            Err(_) => {
                // As it was, or with the first of what was added
                blown += 1;
                ensure!(
                    now.1.len() >= m.1.len()
                        && want.0.starts_with(&now.0)
                        && want.1.starts_with(&now.1),
                    "{}, which failed, left {:?}",
                    what,
                    now
                );
            }
        }
        m = now;
    }
    // Copies which fail leave the original
    for fuse in [0, m.1.len() / 2, m.1.len()] {
        if let Ok(copy) = with_fuse(fuse, || b.clone()) {
            ensure!(copy == b, "a clone of {:?} is {:?}", b, copy);
        }
        ensure_eq!(model_of(&b)?, m, "after cloning");
    }
    obs.label_if(blown > 0, "a clone failed");
    obs.nontrivial_if(blown > 0 && m.1.len() >= 2);
    Ok(())
}

fn clones() -> BoxedStrategy<Clones> {
    gen::stage()
        .prop_flat_map(|n| {
            let op = prop_oneof![
                1 => Just(Op::Extend),
                2 => (0usize..50, 0usize..50).prop_map(|(a, b)| Op::Range(a, b)),
                2 => (0usize..50, 0usize..50).prop_map(|(a, b)| Op::Within(a, b)),
            ];
            (
                vec(gen::perm(n), 1..8),
                vec(gen::perm(n), 1..8),
                vec((op, prop_oneof![4 => 0usize..8, 1 => Just(1000)]), 1..7),
            )
        })
        .prop_map(|(mine, theirs, ops)| Clones { mine, theirs, ops })
        .boxed()
}

////////////////////////////
// ITERATORS AND CLOSURES //
////////////////////////////

/// Something which is another row each time it is asked
struct Shifty {
    rows: Vec<RowBuf>,
    at: Cell<usize>,
    fails: bool,
}

impl AsRef<Row> for Shifty {
    fn as_ref(&self) -> &Row {
        if self.fails {
            burn();
        }
        let i = self.at.get();
        self.at.set(i + 1);
        &self.rows[i % self.rows.len()]
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Iters {
    start: Vec<P>,
    /// Each item's answers
    items: Vec<Vec<P>>,
    /// The lengths of the sets of a product
    sizes: Vec<usize>,
    fuse: usize,
}

fn check_iters(c: &Iters, obs: &mut Obs) -> Result<(), String> {
    let n = c.start[0].len();
    let shifty = |fails: bool| -> Vec<Shifty> {
        c.items
            .iter()
            .map(|rows| Shifty {
                rows: rows.iter().map(|r| bf::row(r)).collect(),
                at: Cell::new(0),
                fails,
            })
            .collect()
    };
    // What an item may come out as
    let may = |i: usize, r: &P| c.items[i].contains(r);

    // A buffer is extended by items which change, or fail
    for (fails, iterator_fails) in [(false, false), (true, false), (false, true)] {
        let mut v = buffer(&c.start);
        let items = shifty(fails);
        let fuse = if fails || iterator_fails {
            c.fuse
        } else {
            10_000
        };
        let res = with_fuse(fuse, || {
            v.extend(items.iter().inspect(|_| {
                if iterator_fails {
                    burn()
                }
            }))
        });
        ensure_eq!(v.stage().num_bells(), n, "stage of an extended buffer");
        let rows = (0..v.len())
            .map(|i| bf::valid(v.get(i).ok_or("no row")?))
            .collect::<Result<Vec<P>, _>>()?;
        ensure_eq!(
            v.iter().map(bf::idx).collect::<Vec<_>>(),
            rows,
            "rows of an extended buffer"
        );
        ensure!(
            rows.starts_with(&c.start) && rows.iter().all(|r| r.len() == n),
            "extending {:?} by {:?} left {:?}",
            c.start,
            c.items,
            rows
        );
        let added = &rows[c.start.len()..];
        ensure!(
            added.iter().enumerate().all(|(i, r)| may(i, r)),
            "extending by {:?} added {:?}",
            c.items,
            added
        );
        match res {
            Ok(Ok(())) => ensure_eq!(added.len(), c.items.len(), "rows added by {:?}", c.items),
            Ok(Err(_)) => ensure!(added.is_empty(), "extending failed, but added {:?}", added),
            Err(_) => {
                obs.label("the caller's code failed");
                // Still as good as any
                let more = v.push(&bf::row(&c.start[0]));
                ensure!(
                    more.is_ok() && v.len() == rows.len() + 1,
                    "no row can be pushed"
                );
            }
        }
    }

    // Products of such sets
    let items = shifty(false);
    let mut sets: Vec<&[Shifty]> = vec![];
    let mut rest = &items[..];
    for &s in &c.sizes {
        let (a, b) = rest.split_at(s.min(rest.len()));
        sets.push(a);
        rest = b;
    }
    let res = vcore::panics(|| Row::multi_cartesian_product(sets.iter().map(|s| s.iter())));
    match res {
        Ok(Ok(rows)) => {
            let size: usize = sets.iter().map(|s| s.len()).product();
            ensure_eq!(
                rows.len(),
                if sets.is_empty() { 0 } else { size },
                "size of the product of sets of {:?}",
                c.sizes
            );
            let stages = rows
                .iter()
                .map(|r| bf::valid(r).map(|r| r.len()))
                .collect::<Result<BTreeSet<usize>, _>>()?;
            ensure!(
                stages.len() <= 1,
                "a product has rows of the stages {:?}",
                stages
            );
        }
        Ok(Err(_)) => obs.label("stages changed"),
        Err(e) => return Err(format!("a product panics: {}", e)),
    }

    // The group of rows which come once only, or which are others the next time
    let all: Vec<RowBuf> = c.items.iter().flatten().map(|r| bf::row(r)).collect();
    let small = all.iter().all(|r| r.stage().num_bells() <= 5);
    if small {
        let left = RefCell::new(all.iter());
        let once = std::iter::from_fn(|| left.borrow_mut().next().map(|r| r.as_row()));
        let (left, sizes) = (RefCell::new(all.iter().cycle()), Cell::new(0));
        let many = std::iter::from_fn(|| {
            sizes.set(sizes.get() + 1);
            if sizes.get() % (c.items.len() + 1) == 0 {
                return None;
            }
            left.borrow_mut().next().map(|r| r.as_row())
        });
        let groups = [
            ("once", vcore::panics(|| Row::least_group_containing(once))),
            (
                "changing",
                vcore::panics(|| Row::least_group_containing(many)),
            ),
        ];
        for (what, g) in groups {
            let g = match g {
                Ok(Ok(g)) => g,
                Ok(Err(_)) => continue,
                Err(e) => return Err(format!("the group of rows which come {}: {}", what, e)),
            };
            let rows = g
                .iter()
                .map(|r| bf::valid(r))
                .collect::<Result<BTreeSet<P>, _>>()?;
            let stages: BTreeSet<usize> = rows.iter().map(|r| r.len()).collect();
            ensure!(
                stages.len() <= 1,
                "a group has rows of the stages {:?}",
                stages
            );
            ensure!(
                rows.iter()
                    .all(|a| rows.iter().all(|b| rows.contains(&gen::mul(a, b)))),
                "rows which come {} ({:?}) have the 'group' {:?}",
                what,
                c.items,
                rows
            );
        }
    }

    // Closures which fail
    let block: Block = AnnotBlock::with_default_annots(buffer(&c.start));
    let fuse = c.fuse % 4;
    let made = with_fuse(fuse, || {
        block.clone_map_annots_with_index(|i, _| {
            burn();
            i
        })
    });
    ensure_eq!(
        made.is_ok(),
        block.len() <= fuse,
        "whether mapping annotations failed"
    );
    if let Ok(made) = made {
        ensure!(
            made.annots().copied().eq(0..block.len()) && made.row_vec() == block.row_vec(),
            "mapping the annotations of {:?} gives {:?}",
            block,
            made
        );
    }
    ensure!(
        block == AnnotBlock::with_default_annots(buffer(&c.start)),
        "mapping the annotations changed {:?}",
        block
    );
    let mixed = c
        .items
        .iter()
        .any(|i| i.iter().any(|r| r.len() != i[0].len()));
    obs.label_if(mixed, "items of several stages");
    obs.nontrivial_if(c.items.len() >= 2 && c.items.iter().any(|i| i.len() > 1));
    Ok(())
}

fn iters() -> BoxedStrategy<Iters> {
    let n = prop_oneof![3 => 1usize..=5, 1 => gen::stage()];
    (n, 1usize..=5)
        .prop_flat_map(|(n, o)| {
            let o = if o == 5 { n + 3 } else { o };
            let row = move || prop_oneof![6 => gen::perm(n), 1 => gen::perm(o)];
            (
                vec(gen::perm(n), 1..5),
                vec(vec(row(), 1..4), 0..6),
                vec(0usize..4, 0..4),
                0usize..7,
            )
        })
        .prop_map(|(start, items, sizes, fuse)| Iters {
            start,
            items,
            sizes,
            fuse,
        })
        .boxed()
}

fn main() {
    vcore::main(Property {
        id: "C37",
        facets: vec![
            Facet::random(
                "writers",
                20_000,
                500_000,
                "two rows of three or more bells",
                |_| texts(),
                check_texts,
            ),
            Facet::random(
                "clones",
                60_000,
                2_000_000,
                "a clone fails, in a block of two or more rows",
                |_| clones(),
                check_clones,
            ),
            Facet::random(
                "iterators",
                60_000,
                2_000_000,
                "two items, of which one changes",
                |_| iters(),
                check_iters,
            ),
        ],
        assumptions: vec![],
    })
}
