//! C24: suggestions are the closest titles, nearest first.

#[path = "../bf.rs"]
mod bf;
#[path = "../meth.rs"]
mod meth;
#[path = "../mlib.rs"]
mod mlib;
#[path = "../pn.rs"]
mod pn;

use bellframe::{method_lib::QueryError, MethodLib};
use mlib::{Lib, Meth};
use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use vcore::{ensure, ensure_eq, Facet, Obs, Property};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    lib: Lib,
    query: String,
    ks: Vec<usize>,
}

fn check(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let lib = MethodLib::from_json(&c.lib.text())
        .map_err(|e| format!("{} was rejected: {}", c.lib.text(), e))?;
    let query = c.query.to_lowercase();
    let titles: Vec<String> = c.lib.methods.iter().map(Meth::full_title).collect();
    let mut distances: Vec<usize> = titles
        .iter()
        .map(|t| mlib::distance(&t.to_lowercase(), &query))
        .collect();
    distances.sort();
    let mut interesting = false;
    for &k in &c.ks {
        let what = format!("{} suggestions for {:?}", k, c.query);
        let res = vcore::panics(|| lib.get_by_title_with_suggestions(&c.query, k))
            .map_err(|e| format!("{}: panic: {}", what, e))?;
        let got = match res {
            Err(QueryError::NotFound(got)) => got,
            _ => {
                ensure!(
                    titles.iter().any(|t| t.to_lowercase() == query),
                    "{:?} was found, but isn't in the library",
                    c.query
                );
                obs.label("title exists");
                return Ok(());
            }
        };
        ensure_eq!(got.len(), k.min(titles.len()), "number of {}", what);
        let mut left = titles.clone();
        for (title, d) in &got {
            let at = left.iter().position(|t| t == title);
            let at =
                at.ok_or_else(|| format!("{} include {:?} too often: {:?}", what, title, got))?;
            left.swap_remove(at);
            ensure_eq!(
                *d,
                mlib::distance(&title.to_lowercase(), &query),
                "distance of {:?} from {:?}",
                title,
                c.query
            );
        }
        let ds: Vec<usize> = got.iter().map(|x| x.1).collect();
        ensure_eq!(
            ds,
            distances[..got.len()],
            "distances of {}: {:?}",
            what,
            got
        );
        interesting |= k >= 2 && k < titles.len() && distances[0] < distances[titles.len() - 1];
        obs.label_if(k == 0, "none asked for");
        obs.label_if(k > titles.len(), "more than there are");
        obs.label_if(
            k > 0 && k < titles.len() && distances[k - 1] == distances[k],
            "tie at the cut",
        );
    }
    obs.nontrivial_if(interesting);
    Ok(())
}

/// Many short, similar titles
fn similar() -> BoxedStrategy<Lib> {
    let m = (
        vec(select(vec!["a", "b", "A", "é", "ab", " "]), 0..5),
        select(vec![4usize, 6, 8]),
        0usize..9,
        any::<bool>(),
    )
        .prop_map(|(name, n, class, explicit)| {
            let name = name.concat();
            Meth {
                n,
                class: (class, false, false, false),
                title: explicit.then(|| name.clone()),
                name,
                pn: "x".to_owned(),
            }
        });
    (vcore::gen::list(m, 0, 39, 400), vec(any::<u8>(), 1..4))
        .prop_map(|(methods, style)| Lib { methods, style }.unique())
        .boxed()
}

fn case(lib: BoxedStrategy<Lib>) -> BoxedStrategy<Case> {
    let ks = vec(
        prop_oneof![6 => 0usize..12, 1 => 12usize..60, 1 => 60usize..400, 1 => select(vec![63usize, 64, 65, 127, 128, 129, 255, 256, 257]), 1 => select(vec![usize::MAX, usize::MAX / 2, 1 << 40])],
        1..4,
    );
    let edit = (
        any::<usize>(),
        any::<usize>(),
        select(vec!["", "a", "Z", "é", " ", "xyz"]),
    );
    (
        lib,
        vec(edit, 0..4),
        prop_oneof![4 => Just(None), 1 => mlib::word().prop_map(Some)],
        ks,
    )
        .prop_map(|(lib, edits, other, ks)| {
            let query = match (other, lib.methods.len()) {
                (Some(q), _) => q,
                (None, 0) => "Nothing".to_owned(),
                (None, k) => {
                    let pick = edits.first().map_or(0, |e| e.0 % k);
                    let mut q: Vec<char> = lib.methods[pick].full_title().chars().collect();
                    for (i, len, s) in &edits {
                        let at = i % (q.len() + 1);
                        let to = (at + len % 3).min(q.len());
                        q.splice(at..to, s.chars());
                    }
                    q.into_iter().collect()
                }
            };
            Case { lib, query, ks }
        })
        .boxed()
}

fn main() {
    vcore::main(Property {
        id: "C24",
        assumptions: vec![
            "case is ignored by comparing lower-case forms",
            "an edit changes one character (Unicode scalar value)",
        ],
        facets: vec![
            Facet::random(
                "similar titles",
                15_000,
                300_000,
                "two or more asked for, but fewer than there are, not all equally near",
                |_| case(similar()),
                check,
            ),
            Facet::random(
                "realistic titles",
                15_000,
                300_000,
                "two or more asked for, but fewer than there are, not all equally near",
                |_| case(mlib::lib(12)),
                check,
            ),
        ],
    });
}
