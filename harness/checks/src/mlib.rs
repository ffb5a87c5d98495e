//! Method libraries as data: the JSON that describes them, and generators.
#![allow(dead_code)]

use std::collections::BTreeSet;

use crate::meth::{self, C};
use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Meth {
    pub n: usize,
    /// (class, jump, little, differential)
    pub class: (usize, bool, bool, bool),
    pub name: String,
    /// The title given explicitly, if any
    pub title: Option<String>,
    pub pn: String,
}

impl Meth {
    pub fn c(&self) -> C {
        C {
            class: self.class.0,
            jump: self.class.1,
            little: self.class.2,
            diff: self.class.3,
        }
    }

    pub fn full_title(&self) -> String {
        self.title
            .clone()
            .unwrap_or_else(|| meth::title(&self.name, self.c(), self.n))
    }

    /// Can it be looked up by its title?  (The title's last word is the name of its stage.)
    pub fn findable(&self) -> bool {
        self.n <= 22
            && self.full_title().to_lowercase().rsplit(' ').next().unwrap()
                == meth::stage_name(self.n).to_lowercase()
    }

    /// What is known of a method, however it was written
    pub fn known(&self) -> (usize, (usize, bool, bool, bool), String, String, String) {
        (
            self.n,
            self.class,
            self.name.clone(),
            self.full_title(),
            self.pn.clone(),
        )
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Lib {
    pub methods: Vec<Meth>,
    /// Choices of how to write the JSON
    pub style: Vec<u8>,
}

impl Lib {
    /// Leave out methods with the title (ignoring case) of an earlier one of their stage
    pub fn unique(mut self) -> Lib {
        let mut seen = BTreeSet::new();
        self.methods
            .retain(|m| seen.insert((m.n, m.full_title().to_lowercase())));
        self
    }

    /// The library as JSON: methods grouped by stage and class, but perhaps in several groups
    pub fn json(&self) -> Value {
        let style = |i: usize| *self.style.get(i % self.style.len().max(1)).unwrap_or(&0);
        let mut groups: Vec<(usize, C, Vec<Value>, u8)> = vec![];
        for (i, m) in self.methods.iter().enumerate() {
            let s = style(i);
            let mut v = json!({"n": m.name, "p": m.pn});
            if let Some(t) = &m.title {
                v["t"] = json!(t);
            } else if s & 7 == 7 {
                v["t"] = Value::Null;
            }
            let to = groups
                .iter_mut()
                .find(|g| g.0 == m.n && g.1 == m.c() && s & 24 != 24);
            match to {
                Some(g) => g.2.push(v),
                None => groups.push((m.n, m.c(), vec![v], s)),
            }
        }
        if style(1) & 32 == 32 {
            groups.push((
                6,
                C {
                    class: 2,
                    jump: false,
                    little: false,
                    diff: false,
                },
                vec![],
                0,
            ));
        }
        let groups: Vec<Value> = groups
            .into_iter()
            .map(|(n, c, ms, s)| {
                let mut g = json!({"s": n, "c": c.class, "m": ms});
                for (k, flag) in [("j", c.jump), ("l", c.little), ("d", c.diff)] {
                    if flag || s & 64 == 64 {
                        g[k] = json!(flag);
                    }
                }
                g
            })
            .collect();
        json!({ "groups": groups })
    }

    pub fn text(&self) -> String {
        let v = self.json();
        if self.style.first().map_or(false, |s| s & 1 == 1) {
            serde_json::to_string_pretty(&v).unwrap()
        } else {
            v.to_string()
        }
    }
}

/// Read the methods out of a JSON document of the published format
pub fn read(json: &str) -> Result<Vec<Meth>, String> {
    let v: Value = serde_json::from_str(json).map_err(|e| format!("{} isn't JSON: {}", json, e))?;
    let bad = |what: &str| format!("{}: {} isn't as published", what, json);
    let mut out = vec![];
    for g in v["groups"].as_array().ok_or_else(|| bad("groups"))? {
        let n = g["s"].as_u64().ok_or_else(|| bad("stage"))? as usize;
        let class = g["c"].as_u64().ok_or_else(|| bad("class"))? as usize;
        let flag = |k: &str| match &g[k] {
            Value::Null => Ok(false),
            v => v.as_bool().ok_or_else(|| bad("flag")),
        };
        let class = (class, flag("j")?, flag("l")?, flag("d")?);
        for m in g["m"].as_array().ok_or_else(|| bad("methods"))? {
            out.push(Meth {
                n,
                class,
                name: m["n"].as_str().ok_or_else(|| bad("name"))?.to_owned(),
                title: match &m["t"] {
                    Value::Null => None,
                    v => Some(v.as_str().ok_or_else(|| bad("title"))?.to_owned()),
                },
                pn: m["p"]
                    .as_str()
                    .ok_or_else(|| bad("place notation"))?
                    .to_owned(),
            });
        }
    }
    Ok(out)
}

/// The true edit distance between two texts (insert, delete or replace one character)
pub fn distance(a: &str, b: &str) -> usize {
    let (a, b): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let mut d = vec![vec![0usize; b.len() + 1]; a.len() + 1];
    for i in 0..=a.len() {
        for j in 0..=b.len() {
            d[i][j] = if i == 0 {
                j
            } else if j == 0 {
                i
            } else {
                let swap = d[i - 1][j - 1] + (a[i - 1] != b[j - 1]) as usize;
                swap.min(d[i - 1][j] + 1).min(d[i][j - 1] + 1)
            };
        }
    }
    d[a.len()][b.len()]
}

////////////////
// GENERATORS //
////////////////

/// Names made of words which titles also have for other reasons
fn words() -> BoxedStrategy<String> {
    let one = select(vec![
        "Little",
        "Differential",
        "Jump",
        "Treble",
        "Place",
        "Bob",
        "Delight",
        "Surprise",
        "Alliance",
        "Hybrid",
        "Principle",
        "Minor",
        "Major",
        "Plain",
        "Cambridge",
        "New",
        "bells",
        "of",
        "No.1",
    ]);
    vec(one, 2..5).prop_map(|w| w.join(" ")).boxed()
}

pub fn word() -> BoxedStrategy<String> {
    prop_oneof![
        12 => words(),
        30 => select(vec![
            "", "Plain", "Cambridge", "London", "Bristol", "Double Norwich Court", "Little", "Grandsire", "Stedman",
            "St Simon's", "Bob", "Major", "Cloister Minor", "Reverse Canterbury Pleasure Place", "Jump", "7-3",
        ])
        .prop_map(str::to_owned),
        20 => vec(select(vec!["a", "b", "A", "B", "c", " "]), 0..6).prop_map(|v| v.concat()),
        5 => select(vec!["Zoë", "ÉCOLE", "ß", "İzmir", "🔔", "Ǆ", "x\ty", " ", "  two  ", "\"quoted\"", "back\\slash", "new\nline",
                         "\u{a0}", "Kelvin", "ﬁ"]).prop_map(str::to_owned),
        5 => "[ -~]{0,12}",
        5 => "([A-Z][a-z]{2,9} ){4,12}[A-Z][a-z]{0,9}",
        1 => vec(select(vec!["a", "b", "A", " ", "é"]), 60..300).prop_map(|v| v.concat()),
    ]
    .boxed()
}

pub fn a_stage() -> BoxedStrategy<usize> {
    prop_oneof![40 => 1usize..=12, 12 => 13usize..=22, 4 => 23usize..=40, 1 => 41usize..=300]
        .boxed()
}

pub fn pn(n: usize) -> BoxedStrategy<String> {
    prop_oneof![
        3 => crate::pn::block_text(n),
        3 => crate::pn::changes(n, 8).prop_map(|cs| {
            cs.iter()
                .map(|c| if c.is_empty() { "x".to_owned() } else { c.iter().map(|&p| vcore::gen::name(p)).collect() })
                .collect::<Vec<String>>()
                .join(".")
        }),
        1 => select(vec!["", "x", "1", "&-1,2", "x1x4,2", "garbage", "12.34.56.78.90", "3,1.7.1.7.1", "+", ","]).prop_map(str::to_owned),
    ]
    .boxed()
}

pub fn method() -> BoxedStrategy<Meth> {
    a_stage()
        .prop_flat_map(|n| {
            let title = (word(), 0u8..12, a_stage()).prop_map(move |(w, how, other)| match how {
                0..=4 => format!("{} {}", w, meth::stage_name(n)),
                5 => format!("{} {}", w, meth::stage_name(n).to_uppercase()),
                6 => meth::stage_name(n),
                7 => format!("{} {}", w, meth::stage_name(other)),
                8 => format!("{}{}", w, meth::stage_name(n)),
                9 => format!("{} {} ", w, meth::stage_name(n)),
                _ => w,
            });
            (
                Just(n),
                (
                    0usize..9,
                    prop::bool::weighted(0.15),
                    prop::bool::weighted(0.25),
                    prop::bool::weighted(0.2),
                ),
                word(),
                prop_oneof![3 => Just(None), 2 => title.prop_map(Some)],
                pn(n),
            )
        })
        .prop_map(|(n, class, name, title, pn)| Meth {
            n,
            class,
            name,
            title,
            pn,
        })
        .boxed()
}

pub fn lib(max: usize) -> BoxedStrategy<Lib> {
    (
        vcore::gen::list(method(), 0, max - 1, 300),
        vec(any::<u8>(), 1..8),
    )
        .prop_map(|(methods, style)| Lib { methods, style }.unique())
        .boxed()
}

/// The same text with letters in another case, where changing case is unambiguous
pub fn recase(s: &str, coins: &[u8]) -> String {
    let mut coins = coins.iter().cycle();
    s.chars()
        .map(|c| {
            let k = *coins.next().unwrap_or(&0);
            let one = |mut it: Box<dyn Iterator<Item = char>>| match (it.next(), it.next()) {
                (Some(c), None) => Some(c),
                _ => None,
            };
            let low = one(Box::new(c.to_lowercase()));
            let up = one(Box::new(c.to_uppercase()));
            match (low, up) {
                (Some(l), Some(u)) if one(Box::new(u.to_lowercase())) == Some(l) => match k % 3 {
                    0 => l,
                    1 => u,
                    _ => c,
                },
                _ => c,
            }
        })
        .collect()
}
