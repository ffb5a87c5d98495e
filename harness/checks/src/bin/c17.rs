//! C17: method titles and class names follow the standard construction.

#[path = "../bf.rs"]
mod bf;
#[path = "../meth.rs"]
mod meth;

use bellframe::{
    method::{
        class::{Class, HuntBellClass},
        generate_title,
    },
    Method, PnBlock,
};
use meth::C;
use proptest::{prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use vcore::{ensure, ensure_eq, Facet, Obs, Property};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    name: String,
    class: C,
    n: usize,
}

fn check(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let full = c.class.real();
    ensure_eq!(C::of(full), c.class, "parts of a full class");
    ensure_eq!(
        full.to_string(),
        c.class.display(),
        "display of {:?}",
        c.class
    );
    let want = meth::title(&c.name, c.class, c.n);
    ensure_eq!(
        generate_title(&c.name, full, bf::stage(c.n)),
        want,
        "title of {:?}",
        c
    );
    // Classes themselves
    let cl = full.class();
    let i = c.class.class;
    ensure_eq!(cl.name(), meth::CLASSES[i], "name of {:?}", cl);
    ensure_eq!(cl.to_string(), meth::CLASSES[i], "display of {:?}", cl);
    ensure_eq!(
        cl.name_in_title(),
        if i == 0 || i == 8 {
            None
        } else {
            Some(meth::CLASSES[i])
        },
        "name in titles of {:?}",
        cl
    );
    ensure_eq!(cl.is_plain(), i == 1 || i == 2, "is_plain of {:?}", cl);
    ensure_eq!(
        cl.is_treble_dodging(),
        (3..=5).contains(&i),
        "is_treble_dodging of {:?}",
        cl
    );
    ensure_eq!(
        cl.is_symmetric_hunter(),
        (1..=7).contains(&i),
        "is_symmetric_hunter of {:?}",
        cl
    );
    let hunt = match i {
        0 => None,
        1 | 2 => Some(HuntBellClass::Plain),
        3..=5 => Some(HuntBellClass::TrebleDodging),
        6 => Some(HuntBellClass::TreblePlace),
        7 => Some(HuntBellClass::Alliance),
        _ => Some(HuntBellClass::Hybrid),
    };
    ensure_eq!(cl.hunt_bell_class(), hunt, "hunt bell class of {:?}", cl);
    ensure!(
        full == c.class.real() && bf::hash(&full) == bf::hash(&c.class.real()),
        "equal classes differ"
    );
    // A method with an explicit class and title keeps them, one which is classified gets its own
    let block = PnBlock::parse("1", bf::stage(c.n)).map_err(|e| e.to_string())?;
    let m = Method::new(
        want.clone(),
        c.name.clone(),
        full,
        block.to_block_from_rounds(),
    );
    ensure_eq!(m.title(), want, "title of a method given it");
    ensure_eq!(m.name(), c.name, "name of a method given it");
    obs.label(meth::CLASSES[i]);
    obs.label_if(c.name.is_empty(), "no name");
    obs.label_if(c.n > 22, "unnamed stage");
    obs.nontrivial_if(c.class.jump || c.class.little || c.class.diff);
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Huge {
    name: String,
    class: C,
    n: usize,
}

/// Titles don't need room for a row of the stage
fn check_huge(c: &Huge, obs: &mut Obs) -> Result<(), String> {
    ensure_eq!(
        generate_title(&c.name, c.class.real(), bf::stage(c.n)),
        meth::title(&c.name, c.class, c.n),
        "title of {:?}",
        c
    );
    obs.nontrivial();
    Ok(())
}

fn check_order(_: &u8, obs: &mut Obs) -> Result<(), String> {
    let h = [
        HuntBellClass::Plain,
        HuntBellClass::TrebleDodging,
        HuntBellClass::TreblePlace,
        HuntBellClass::Alliance,
        HuntBellClass::Hybrid,
    ];
    for i in 0..5 {
        for j in 0..5 {
            ensure_eq!(
                h[i].cmp(&h[j]),
                i.cmp(&j),
                "dominance of {:?} over {:?}",
                h[i],
                h[j]
            );
        }
    }
    for i in 0..9 {
        for j in 0..9 {
            ensure_eq!(
                meth::real_class(i) == meth::real_class(j),
                i == j,
                "equality of classes"
            );
        }
    }
    let _: Class = Class::Bob;
    obs.nontrivial();
    Ok(())
}

fn name() -> BoxedStrategy<String> {
    prop_oneof![
        4 => select(vec!["", "Cambridge", "Double Norwich Court", "Little", " ", "Plain ", " x", "Ünïçødé 🔔", "Jump", "St Simon's"]).prop_map(str::to_owned),
        2 => ".*",
    ]
    .boxed()
}

fn main() {
    vcore::main(Property {
        id: "C17",
        facets: vec![
            Facet::enumerated(
                "dominance",
                "always",
                |_| Box::new(std::iter::once(0u8)),
                check_order,
            ),
            Facet::enumerated(
                "every class and stage",
                "has a flag",
                |_| {
                    Box::new((1..=40usize).flat_map(|n| {
                        C::all().into_iter().flat_map(move |class| {
                            ["", "Cambridge"].into_iter().map(move |s| Case {
                                name: s.to_owned(),
                                class,
                                n,
                            })
                        })
                    }))
                },
                check,
            ),
            Facet::random(
                "names",
                300_000,
                4_000_000,
                "has a flag",
                |_| {
                    (name(), select(C::all()), vcore::gen::wide_stage())
                        .prop_map(|(name, class, n)| Case { name, class, n })
                        .boxed()
                },
                check,
            ),
            Facet::random(
                "huge stages",
                50_000,
                500_000,
                "always",
                |_| {
                    (name(), select(C::all()), 1usize..)
                        .prop_map(|(name, class, n)| Huge { name, class, n })
                        .boxed()
                },
                check_huge,
            ),
        ],
        assumptions: vec!["spaces inside a given name are the caller's business"],
    })
}
