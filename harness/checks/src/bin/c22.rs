//! C22: a method library survives its JSON form, and bad JSON is an error.

#[path = "../bf.rs"]
mod bf;
#[path = "../meth.rs"]
mod meth;
#[path = "../mlib.rs"]
mod mlib;
#[path = "../pn.rs"]
mod pn;

use bellframe::{method_lib::QueryError, MethodLib, PnBlock};
use mlib::{Lib, Meth};
use proptest::{
    collection::vec,
    prelude::*,
    sample::{select, Index},
};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use vcore::{ensure, ensure_eq, Facet, Obs, Property};

/// What a lookup answers, in a comparable form
fn answer(lib: &MethodLib, title: &str) -> String {
    match lib.get_by_title(title) {
        Ok(m) => {
            let rows: Vec<String> = m
                .first_lead()
                .annot_rows()
                .map(|r| format!("{}{:?}", r.row(), r.annot()))
                .collect();
            format!(
                "{:?} {:?} {} {:?} {}",
                m.title(),
                m.name(),
                m.stage(),
                rows,
                m.lead_head()
            )
        }
        Err(QueryError::PnParseErr { pn, error }) => format!("{:?}: {:?} {}", pn, error, error),
        Err(QueryError::NotFound(())) => "not found".to_owned(),
    }
}

fn same(got: &[Meth], want: &[Meth], what: &str) -> Result<(), String> {
    let sorted = |v: &[Meth]| {
        let mut v: Vec<_> = v.iter().map(Meth::known).collect();
        v.sort();
        v
    };
    let (g, w) = (sorted(got), sorted(want));
    for x in &g {
        ensure!(w.contains(x), "{} gained {:?}", what, x);
    }
    for x in &w {
        ensure!(g.contains(x), "{} lost {:?}", what, x);
    }
    ensure_eq!(g.len(), w.len(), "number of methods in {}", what);
    Ok(())
}

fn check(c: &Lib, obs: &mut Obs) -> Result<(), String> {
    let text = c.text();
    let lib = MethodLib::from_json(&text).map_err(|e| format!("{} was rejected: {}", text, e))?;
    let out = lib
        .to_json()
        .map_err(|e| format!("{} isn't written: {}", text, e))?;
    same(&mlib::read(&out)?, &c.methods, "the JSON written")?;
    let again = MethodLib::from_json(&out)
        .map_err(|e| format!("{} was written but not read: {}", out, e))?;
    let out2 = again.to_json().map_err(|e| e.to_string())?;
    same(
        &mlib::read(&out2)?,
        &c.methods,
        "the JSON written the second time",
    )?;
    let copy = lib.clone();
    let mut found = 0;
    for m in &c.methods {
        let title = m.full_title();
        for t in [
            title.clone(),
            title.to_uppercase(),
            m.name.clone(),
            format!("{}x", title),
        ] {
            let a = answer(&lib, &t);
            ensure_eq!(
                answer(&again, &t),
                a,
                "looking up {:?} after writing and reading",
                t
            );
            ensure_eq!(answer(&copy, &t), a, "looking up {:?} in a copy", t);
        }
        if m.findable() {
            let parsed = PnBlock::parse(&m.pn, bf::stage(m.n));
            match (lib.get_by_title(&title), parsed) {
                (Ok(got), Ok(block)) => {
                    ensure_eq!(got.title(), title, "title of {:?}", m);
                    ensure_eq!(got.name(), m.name, "name of {:?}", m);
                    ensure_eq!(got.stage().num_bells(), m.n, "stage of {:?}", m);
                    ensure!(
                        got.first_lead()
                            .rows()
                            .eq(block.to_block_from_rounds::<()>().rows())
                            && got.lead_len() == block.len(),
                        "{:?} has rows {:?}",
                        m,
                        got.first_lead()
                    );
                    found += 1;
                }
                (Err(QueryError::PnParseErr { pn, error }), Err(want)) => {
                    ensure_eq!(pn, m.pn, "notation reported for {:?}", m);
                    ensure_eq!(
                        error.to_string(),
                        want.to_string(),
                        "error reported for {:?}",
                        m
                    );
                    obs.label("unparsable notation");
                }
                (got, _) => return Err(format!("looking up {:?} gave {:?}", m, got)),
            }
        }
    }
    obs.label_if(c.methods.iter().any(|m| m.n > 22), "unnamed stage");
    obs.label_if(
        c.methods.iter().any(|m| m.title.is_some()),
        "explicit title",
    );
    obs.nontrivial_if(c.methods.len() >= 2 && found > 0);
    Ok(())
}

/// One thing in a document replaced by something which doesn't belong there
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Bad {
    lib: Lib,
    what: u8,
    at: usize,
    value: String,
}

fn check_bad(c: &Bad, obs: &mut Obs) -> Result<(), String> {
    let mut v = c.lib.json();
    let groups = v["groups"].as_array_mut().unwrap();
    let group = {
        let k = groups.len();
        &mut groups[c.at % k]
    };
    let value: Value = serde_json::from_str(&c.value).unwrap();
    let is_u = |max: u64| value.as_u64().map_or(false, |x| x <= max);
    let fine = match c.what % 10 {
        0 => {
            group["c"] = value.clone();
            is_u(8)
        }
        1 => {
            group["s"] = value.clone();
            is_u(usize::MAX as u64) && value != json!(0)
        }
        2 => {
            group[["j", "l", "d"][c.at % 3]] = value.clone();
            value.is_boolean()
        }
        3 => {
            group["m"] = value.clone();
            value == json!([])
        }
        4 => {
            group["m"] = json!([{"n": value, "p": "x"}]);
            value.is_string()
        }
        5 => {
            group["m"] = json!([{"n": "A", "p": value}]);
            value.is_string()
        }
        6 => {
            group["m"] = json!([{"n": "A", "p": "x", "t": value}]);
            value.is_string() || value.is_null()
        }
        7 => {
            let o = group.as_object_mut().unwrap();
            o.remove(["c", "s", "m"][c.at % 3]);
            false
        }
        8 => {
            let k = ["n", "p"][c.at % 2];
            let mut m = json!({"n": "A", "p": "x", "t": "B"});
            m.as_object_mut().unwrap().remove(k);
            group["m"] = json!([m]);
            false
        }
        _ => {
            v["groups"] = value.clone();
            value == json!([])
        }
    };
    let text = v.to_string();
    let res = vcore::panics(|| MethodLib::from_json(&text))
        .map_err(|e| format!("reading {} panicked: {}", text, e))?;
    match res {
        Ok(lib) => {
            ensure!(fine, "{} was accepted", text);
            ensure!(lib.to_json().is_ok(), "{} was read but isn't written", text);
        }
        Err(e) => {
            ensure!(!fine, "{} was rejected: {}", text, e);
            ensure!(!e.to_string().is_empty(), "no message about {}", text);
        }
    }
    obs.label_if(fine, "harmless");
    obs.nontrivial_if(!fine);
    Ok(())
}

fn odd_value() -> BoxedStrategy<String> {
    prop_oneof![
        4 => select(vec![
            "0", "-1", "9", "10", "8", "255", "256", "264", "1.5", "1e3", "18446744073709551615", "18446744073709551616",
            "-9223372036854775808", "4294967296", "true", "false", "null", "\"\"", "\"8\"", "\"Major\"", "[]", "[8]", "{}",
            "{\"s\":8}", "1e400", "-0", "4294967304", "65536",
        ])
        .prop_filter("JSON", |s| serde_json::from_str::<Value>(s).is_ok())
        .prop_map(str::to_owned),
        1 => (9u32..=255).prop_map(|x| x.to_string()),
        1 => any::<i64>().prop_map(|x| x.to_string()),
    ]
    .boxed()
}

/// Any text at all: JSON-like, damaged, or nothing of the kind
fn check_text(s: &String, obs: &mut Obs) -> Result<(), String> {
    match vcore::panics(|| MethodLib::from_json(s))
        .map_err(|e| format!("reading {:?} panicked: {}", s, e))?
    {
        Ok(lib) => {
            // The grammar alone: in a field nobody asked for, a value need not be one that Rust can
            // hold (`1e400`, or a lone surrogate)
            ensure!(
                serde_json::from_str::<serde::de::IgnoredAny>(s).is_ok(),
                "{:?} isn't JSON, but was accepted",
                s
            );
            let out = lib
                .to_json()
                .map_err(|e| format!("{:?} was read but not written: {}", s, e))?;
            let methods = mlib::read(&out)?;
            let again = MethodLib::from_json(&out)
                .map_err(|e| format!("{} was written but not read: {}", out, e))?;
            same(
                &mlib::read(&again.to_json().map_err(|e| e.to_string())?)?,
                &methods,
                "the JSON written",
            )?;
            obs.label("accepted");
        }
        Err(e) => {
            ensure!(
                !e.to_string().is_empty() && !format!("{:?}", e).is_empty(),
                "no message about {:?}",
                s
            );
            obs.nontrivial_if(s.len() >= 10);
        }
    }
    Ok(())
}

fn damaged() -> BoxedStrategy<String> {
    let edits = vec(
        (
            any::<Index>(),
            0u8..4,
            prop_oneof![
                select(vec![
                    "\"", "{", "}", "[", "]", ",", ":", "0", "-", "9", "null", "\\u0000",
                    "\\ud800", " ", "1e999"
                ])
                .prop_map(str::to_owned),
                any::<char>().prop_map(|c| c.to_string()),
            ],
        ),
        0..4,
    );
    (mlib::lib(4), edits)
        .prop_map(|(lib, edits)| {
            let mut t: Vec<char> = lib.text().chars().collect();
            for (at, how, s) in edits {
                let i = at.index(t.len() + 1);
                match how {
                    0 => t.truncate(i.max(1)),
                    1 if i < t.len() => {
                        t.remove(i);
                    }
                    2 if i < t.len() => {
                        t.splice(i..i + 1, s.chars());
                    }
                    _ => {
                        t.splice(i..i, s.chars());
                    }
                }
            }
            t.into_iter().collect()
        })
        .boxed()
}

fn json_like() -> BoxedStrategy<String> {
    let leaf = odd_value().prop_map(|s| serde_json::from_str::<Value>(&s).unwrap());
    leaf.prop_recursive(5, 40, 5, |inner| {
        let key = select(vec![
            "groups", "s", "c", "m", "n", "p", "t", "j", "l", "d", "x",
        ]);
        prop_oneof![
            vec(inner.clone(), 0..5).prop_map(Value::from),
            vec((key, inner), 0..6).prop_map(|kv| Value::Object(
                kv.into_iter().map(|(k, v)| (k.to_owned(), v)).collect()
            )),
        ]
    })
    .prop_map(|v| v.to_string())
    .boxed()
}

fn main() {
    vcore::main(Property {
        id: "C22",
        assumptions: vec!["methods of one stage whose titles differ only in case are not generated: only one could be kept"],
        facets: vec![
            Facet::random(
                "round trip",
                20_000,
                400_000,
                "at least two methods, one of which is found by its title",
                |_| mlib::lib(10),
                check,
            ),
            Facet::random(
                "misplaced values",
                40_000,
                800_000,
                "the document is no longer valid",
                |_| {
                    let lib = (mlib::lib(4), mlib::method()).prop_map(|(mut l, m)| {
                        l.methods.insert(0, m);
                        l.unique()
                    });
                    (lib, any::<u8>(), any::<usize>(), odd_value()).prop_map(|(lib, what, at, value)| Bad { lib, what, at, value }).boxed()
                },
                check_bad,
            ),
            Facet::random(
                "any text",
                60_000,
                1_500_000,
                "rejected text of at least ten bytes",
                |_| prop_oneof![4 => damaged(), 2 => json_like(), 1 => ".{0,40}", 1 => vcore::gen::text(20)].boxed(),
                check_text,
            ),
        ],
    });
}
