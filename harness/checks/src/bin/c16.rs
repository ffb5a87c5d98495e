//! C16: methods are classified as the Framework's definitions prescribe.

#[path = "../bf.rs"]
mod bf;
#[path = "../meth.rs"]
mod meth;
#[path = "../pn.rs"]
mod pn;

use bellframe::{method::class::FullClass, AnnotBlock, Block, Method, PnBlock, SameStageVec};
use meth::{Lead, C};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcore::{ensure_eq, gen, Facet, Obs, Property, Tier};

type P = Vec<usize>;

fn label(c: C, obs: &mut Obs) {
    obs.label(meth::CLASSES[c.class]);
    obs.label_if(c.little, "Little");
    obs.label_if(c.diff, "Differential");
}

fn check(l: &Lead, obs: &mut Obs) -> Result<(), String> {
    let want = meth::classify(l.n, &l.changes);
    let block = PnBlock::from_vec(l.changes.iter().map(|p| pn::build(p, l.n)).collect())
        .map_err(|e| e.to_string())?;
    let what = || {
        let t: Vec<String> = block.place_nots().map(|p| p.to_string()).collect();
        format!("{} on {} bells", t.join("."), l.n)
    };
    // From place notation
    let lead: Block = block.to_block_from_rounds();
    ensure_eq!(
        C::of(FullClass::classify(&lead)),
        want,
        "class of {}",
        what()
    );
    // From rows, with other annotations
    let mut rows = vec![gen::id(l.n)];
    for ch in &l.changes {
        rows.push(gen::mul(rows.last().unwrap(), &gen::change_perm(l.n, ch)));
    }
    let mut v = SameStageVec::new(bf::stage(l.n));
    v.extend(rows.iter().map(|r| bf::row(r)))
        .map_err(|e| e.to_string())?;
    let lead = AnnotBlock::with_annots_from_indices(v, |i| Some(format!("row {}", i))).unwrap();
    ensure_eq!(
        C::of(FullClass::classify(&lead)),
        want,
        "class of {} (from rows)",
        what()
    );
    // Methods carry the class
    let m = Method::with_name("Name".to_owned(), lead);
    ensure_eq!(
        m.title(),
        meth::title("Name", want, l.n),
        "title of {}",
        what()
    );
    let m = Method::with_lead_end("Name".to_owned(), &block);
    ensure_eq!(
        m.title(),
        meth::title("Name", want, l.n),
        "title of {} with a lead end",
        what()
    );
    if l.n <= 33 {
        let t: Vec<String> = block.place_nots().map(|p| p.to_string()).collect();
        let m = Method::from_place_not_string("Name".to_owned(), bf::stage(l.n), &t.join("."))
            .map_err(|e| e.to_string())?;
        ensure_eq!(
            m.title(),
            meth::title("Name", want, l.n),
            "title of {} from text",
            what()
        );
    }
    label(want, obs);
    obs.nontrivial_if(want.class != 0);
    Ok(())
}

/// Methods whose classes are well known, as published
const KNOWN: &[(&str, usize, &str, &str)] = &[
    ("Plain Bob Doubles", 5, "5.1.5.1.5,125", "Bob"),
    ("Plain Bob Minor", 6, "x16x16x16,12", "Bob"),
    ("Plain Bob Major", 8, "x18x18x18x18,12", "Bob"),
    ("Grandsire Doubles", 5, "3,1.5.1.5.1", "Bob"),
    ("Grandsire Triples", 7, "3,1.7.1.7.1.7.1", "Bob"),
    (
        "Reverse Canterbury Pleasure Place Doubles",
        5,
        "5.1.5.1.5,1",
        "Place",
    ),
    ("St Clement's College Bob Minor", 6, "x16x36x36,12", "Bob"),
    ("Double Oxford Bob Minor", 6, "x14x36x16,12", "Bob"),
    ("Little Bob Minor", 6, "x16x14,12", "Little Bob"),
    ("Little Bob Major", 8, "x18x14,12", "Little Bob"),
    ("Stedman Doubles", 5, "3.1.5.3.1.3,1", "Principle"),
    ("Stedman Triples", 7, "3.1.7.3.1.3,1", "Principle"),
    ("Erin Triples", 7, "3.1.7.1.3.1.3.1.7.1.3.1", "?"),
    ("Original Minor", 6, "x1", "Principle"),
    (
        "Cambridge Surprise Minor",
        6,
        "x36x14x12x36x14x56,12",
        "Surprise",
    ),
    (
        "Cambridge Surprise Major",
        8,
        "x38x14x1258x36x14x58x16x78,12",
        "Surprise",
    ),
    (
        "Yorkshire Surprise Major",
        8,
        "x38x14x58x16x12x38x14x78,12",
        "Surprise",
    ),
    (
        "Bristol Surprise Major",
        8,
        "x58x14.58x58.36.14x14.58x14x18,18",
        "Surprise",
    ),
    (
        "London Surprise Minor",
        6,
        "36x36.14x12x36.14x14.36,12",
        "Surprise",
    ),
    (
        "Kent Treble Bob Minor",
        6,
        "34x34.16x12x16x12x16,16",
        "Treble Bob",
    ),
    (
        "Kent Treble Bob Major",
        8,
        "34x34.18x12x18x12x18x12x18,18",
        "Treble Bob",
    ),
    ("Oxford Treble Bob Minor", 6, "x34x16x12x16x12x16,16", "?"),
];

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Known {
    title: String,
    n: usize,
    pn: String,
    class: String,
}

fn check_known(k: &Known, obs: &mut Obs) -> Result<(), String> {
    let block = PnBlock::parse(&k.pn, bf::stage(k.n)).map_err(|e| format!("{}: {}", k.pn, e))?;
    let lead: Block = block.to_block_from_rounds();
    let got = FullClass::classify(&lead);
    if k.class != "?" {
        ensure_eq!(got.to_string(), k.class, "class of {}", k.title);
    }
    let changes: Vec<P> = block.place_nots().map(pn::places).collect();
    let model = meth::classify(k.n, &changes);
    ensure_eq!(C::of(got), model, "class of {} by the model", k.title);
    label(model, obs);
    obs.nontrivial();
    Ok(())
}

/// Every change of `n` bells, as its places
fn all_changes(n: usize) -> Vec<P> {
    fn go(n: usize, i: usize, cur: &mut P, out: &mut Vec<P>) {
        if i >= n {
            out.push(cur.clone());
            return;
        }
        if i + 1 < n {
            go(n, i + 2, cur, out);
        }
        cur.push(i);
        go(n, i + 1, cur, out);
        cur.pop();
    }
    let mut out = vec![];
    go(n, 0, &mut vec![], &mut out);
    out
}

/// Every lead of up to a number of changes
fn all_leads(n: usize, max_len: usize) -> Box<dyn Iterator<Item = Lead>> {
    let chs = all_changes(n);
    Box::new((1..=max_len).flat_map(move |len| {
        let chs = chs.clone();
        (0..chs.len().pow(len as u32)).map(move |mut k| {
            let mut changes = vec![];
            for _ in 0..len {
                changes.push(chs[k % chs.len()].clone());
                k /= chs.len();
            }
            Lead { n, changes }
        })
    }))
}

fn main() {
    vcore::main(Property {
        id: "C16",
        facets: vec![
            Facet::enumerated(
                "well-known methods",
                "always",
                |_| {
                    Box::new(KNOWN.iter().map(|&(t, n, p, c)| Known {
                        title: t.to_owned(),
                        n,
                        pn: p.to_owned(),
                        class: c.to_owned(),
                    }))
                },
                check_known,
            ),
            Facet::enumerated(
                "every short lead",
                "isn't a Principle",
                |t| {
                    let q = t == Tier::Quick;
                    Box::new(
                        all_leads(1, 3)
                            .chain(all_leads(2, if q { 8 } else { 14 }))
                            .chain(all_leads(3, if q { 8 } else { 11 }))
                            .chain(all_leads(4, if q { 6 } else { 8 }))
                            .chain(all_leads(5, if q { 4 } else { 6 }))
                            .chain(all_leads(6, if q { 3 } else { 5 })),
                    )
                },
                check,
            ),
            Facet::random("leads", 400_000, 8_000_000, "isn't a Principle", |_| prop_oneof![40 => meth::lead(12), 1 => meth::lead(24)].boxed(), check),
            Facet::random("long leads", 1_500, 60_000, "isn't a Principle", |_| meth::long_lead(), check),
        ],
        assumptions: vec![
            "leads start from rounds, aren't empty and use no jump changes",
            "a hunt bell with a symmetric path, equally many blows in each place and fewer than two places made is Hybrid, as class.rs says",
        ],
    })
}
