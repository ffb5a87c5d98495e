//! C23: looking up a method by title finds it, whatever the letter case.

#[path = "../bf.rs"]
mod bf;
#[path = "../meth.rs"]
mod meth;
#[path = "../mlib.rs"]
mod mlib;
#[path = "../pn.rs"]
mod pn;

use bellframe::{method_lib::QueryError, Method, MethodLib, PnBlock};
use mlib::{Lib, Meth};
use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use vcore::{ensure, ensure_eq, gen, Facet, Obs, Property};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    lib: Lib,
    coins: Vec<u8>,
    /// Queries made by altering the title of a method (or from nothing)
    queries: Vec<(usize, u8, String)>,
    k: usize,
}

/// The rows of a lead of place notation, by its own model
fn lead(m: &Meth) -> Option<Vec<Vec<usize>>> {
    let model = pn::block_model(&m.pn, m.n);
    if !model.faults.is_empty() || model.changes.is_empty() {
        return None;
    }
    let changes = model.changes;
    let mut rows = vec![gen::id(m.n)];
    for c in &changes {
        rows.push(gen::mul(rows.last().unwrap(), &gen::change_perm(m.n, c)));
    }
    Some(rows)
}

fn is_method(got: &Method, m: &Meth, query: &str) -> Result<(), String> {
    ensure_eq!(
        got.title(),
        m.full_title(),
        "title of the method found by {:?}",
        query
    );
    ensure_eq!(
        got.name(),
        m.name,
        "name of the method found by {:?}",
        query
    );
    ensure_eq!(
        got.stage().num_bells(),
        m.n,
        "stage of the method found by {:?}",
        query
    );
    let rows = lead(m).ok_or_else(|| format!("{:?} was found, but its notation isn't valid", m))?;
    let mut have: Vec<Vec<usize>> = vec![];
    for r in got.first_lead().rows() {
        have.push(bf::valid(r)?);
    }
    have.push(bf::valid(got.lead_head())?);
    ensure_eq!(have, rows, "rows of the method found by {:?}", query);
    ensure_eq!(
        got.lead_len(),
        rows.len() - 1,
        "length of the method found by {:?}",
        query
    );
    ensure!(
        got.first_lead().annots().all(|a| a.is_none()),
        "{:?} has labels",
        got
    );
    Ok(())
}

fn check_query(lib: &MethodLib, c: &Case, query: &str, obs: &mut Obs) -> Result<(), String> {
    let low = query.to_lowercase();
    let titled: Vec<&Meth> = c
        .lib
        .methods
        .iter()
        .filter(|m| m.full_title().to_lowercase() == low)
        .collect();
    let want = titled.iter().copied().find(|m| m.findable());
    let res = lib.get_by_title(query);
    match &res {
        Ok(got) => {
            let m = match want {
                Some(m) => m,
                None => titled
                    .iter()
                    .find(|m| m.n == got.stage().num_bells())
                    .ok_or_else(|| format!("{:?} was found as {:?}", query, got.title()))?,
            };
            is_method(got, m, query)?;
            obs.label("found");
        }
        Err(QueryError::PnParseErr { pn, error }) => {
            let m = want
                .or(titled.first().copied())
                .ok_or_else(|| format!("{:?} was found with notation {:?}", query, pn))?;
            ensure_eq!(*pn, m.pn, "unparsable notation of {:?}", query);
            ensure!(
                lead(m).is_none(),
                "the notation {:?} is valid, but was reported: {}",
                pn,
                error
            );
            let own = PnBlock::parse(pn, bf::stage(m.n));
            ensure_eq!(
                own.map(|_| ()).map_err(|e| e.to_string()),
                Err(error.to_string()),
                "error in the notation {:?}",
                pn
            );
            obs.label("unparsable");
        }
        Err(QueryError::NotFound(())) => {
            ensure!(
                want.is_none(),
                "{:?} wasn't found, though the library has {:?}",
                query,
                want
            );
            obs.label(if titled.is_empty() {
                "not found"
            } else {
                "title without its stage"
            });
        }
    }
    // The other ways of asking
    match (lib.get_by_title_with_suggestions(query, c.k), &res) {
        (Ok(a), Ok(b)) => {
            ensure!(
                a.title() == b.title() && a.name() == b.name() && a.first_lead() == b.first_lead(),
                "looking up {:?} with suggestions gives {:?}",
                query,
                a
            );
        }
        (
            Err(QueryError::PnParseErr { pn, error }),
            Err(QueryError::PnParseErr {
                pn: pn2,
                error: error2,
            }),
        ) => {
            ensure!(
                pn == *pn2 && error.to_string() == error2.to_string(),
                "looking up {:?} with suggestions gives {} {}",
                query,
                pn,
                error
            );
        }
        (Err(QueryError::NotFound(s)), Err(QueryError::NotFound(()))) => {
            ensure_eq!(
                s.len(),
                c.k.min(c.lib.methods.len()),
                "number of suggestions for {:?}",
                query
            );
        }
        (a, b) => {
            return Err(format!(
                "looking up {:?} gives {:?}, but with suggestions {:?}",
                query, b, a
            ))
        }
    }
    if let Err(e) = res {
        let was_pn = matches!(e, QueryError::PnParseErr { .. });
        let mapped = e.clone().map_not_found(|()| 7u8);
        match (&e, &mapped) {
            (
                QueryError::PnParseErr { pn, error },
                QueryError::PnParseErr { pn: p2, error: e2 },
            ) => {
                ensure!(
                    pn == p2 && error.to_string() == e2.to_string(),
                    "mapping changed the error"
                )
            }
            (QueryError::NotFound(()), QueryError::NotFound(7)) => {}
            _ => return Err(format!("{:?} was mapped to {:?}", e, mapped)),
        }
        match vcore::panics(|| mapped.unwrap_parse_err()) {
            Ok(Err(7)) => ensure!(!was_pn, "an unparsable notation was unwrapped"),
            Ok(x) => return Err(format!("{:?} was unwrapped as {:?}", e, x)),
            Err(_) => ensure!(was_pn, "unwrapping 'not found' panicked"),
        }
    }
    Ok(())
}

fn check(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let text = c.lib.text();
    let lib = MethodLib::from_json(&text).map_err(|e| format!("{} was rejected: {}", text, e))?;
    for m in &c.lib.methods {
        let t = m.full_title();
        for q in [
            t.clone(),
            t.to_lowercase(),
            mlib::recase(&t, &c.coins),
            mlib::recase(&t, &[1]),
        ] {
            // (Changing case might change the text for good)
            if q.to_lowercase() == t.to_lowercase() {
                check_query(&lib, c, &q, obs)?;
            }
        }
    }
    for (i, how, s) in &c.queries {
        let t = match c.lib.methods.len() {
            0 => String::new(),
            k => c.lib.methods[i % k].full_title(),
        };
        let mut chars: Vec<char> = t.chars().collect();
        let at = if chars.is_empty() {
            0
        } else {
            i / 7 % chars.len()
        };
        let q = match how % 8 {
            0 => format!("{} ", t),
            1 => format!(" {}", t),
            2 => t.replacen(' ', "  ", 1),
            3 if !chars.is_empty() => {
                chars.remove(at);
                chars.into_iter().collect()
            }
            4 => {
                chars.splice(at..at, s.chars());
                chars.into_iter().collect()
            }
            5 => match t.rsplit_once(' ') {
                Some((name, _)) => format!("{} {}", name, meth::stage_name(1 + i % 24)),
                None => meth::stage_name(1 + i % 24),
            },
            6 => t.rsplit_once(' ').map_or(String::new(), |x| x.0.to_owned()),
            _ => s.clone(),
        };
        check_query(&lib, c, &q, obs)?;
    }
    obs.nontrivial_if(c.lib.methods.iter().filter(|m| m.findable()).count() >= 2);
    Ok(())
}

/// A library whose methods are mostly similar to each other
fn lib() -> BoxedStrategy<Lib> {
    (
        mlib::lib(7),
        vec((any::<usize>(), 0u8..4, mlib::a_stage()), 0..4),
    )
        .prop_map(|(mut l, copies)| {
            for (i, how, n) in copies {
                let k = l.methods.len();
                if k == 0 {
                    break;
                }
                let mut m = l.methods[i % k].clone();
                match how {
                    // The same title on another stage
                    0 => {
                        m.title = Some(m.full_title());
                        m.n = n;
                    }
                    // The same name on another stage
                    1 => m.n = n,
                    // The same name in another class
                    2 => m.class.0 = (m.class.0 + 1) % 9,
                    _ => m.title = Some(format!("New {}", m.full_title())),
                }
                l.methods.push(m);
            }
            l.unique()
        })
        .boxed()
}

fn main() {
    vcore::main(Property {
        id: "C23",
        assumptions: vec![
            "a title which doesn't end in the name of its method's stage may be found or not",
            "letters whose case can't be changed and changed back are left alone",
        ],
        facets: vec![Facet::random(
            "lookups",
            15_000,
            300_000,
            "at least two methods whose titles end with their stages",
            |_| {
                let query = (
                    any::<usize>(),
                    any::<u8>(),
                    prop_oneof![
                        mlib::word(),
                        select(vec![
                            "",
                            " ",
                            "Major",
                            " Major",
                            "major",
                            "Foo Major",
                            "Twenty-two",
                            "23 bells",
                            "Fourteen Spliced"
                        ])
                        .prop_map(str::to_owned),
                        ".{0,10}",
                    ],
                );
                (
                    lib(),
                    vec(any::<u8>(), 1..12),
                    vec(query, 0..6),
                    prop_oneof![0usize..6, Just(usize::MAX)],
                )
                    .prop_map(|(lib, coins, queries, k)| Case {
                        lib,
                        coins,
                        queries,
                        k,
                    })
                    .boxed()
            },
            check,
        )],
    });
}
