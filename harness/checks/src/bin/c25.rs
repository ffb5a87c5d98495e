//! C25: serialised bells and stages read back as themselves.

#[path = "../bf.rs"]
mod bf;
#[path = "../meth.rs"]
mod meth;
#[path = "../mlib.rs"]
#[allow(unused)]
mod mlib;
#[path = "../pn.rs"]
#[allow(unused)]
mod pn;

use std::{collections::BTreeMap, fmt::Debug};

use bellframe::{Bell, Stage};
use proptest::{collection::vec, prelude::*, sample::select};
use serde::{
    de::{
        value::{
            BoolDeserializer, BorrowedBytesDeserializer, BorrowedStrDeserializer, CharDeserializer,
            Error as ValueError, F64Deserializer, I16Deserializer, I32Deserializer,
            I64Deserializer, I8Deserializer, StrDeserializer, StringDeserializer, U16Deserializer,
            U32Deserializer, U64Deserializer, U8Deserializer, UnitDeserializer, UsizeDeserializer,
        },
        DeserializeOwned, IntoDeserializer,
    },
    Deserialize, Serialize,
};
use vcore::{ensure, ensure_eq, gen, Facet, Obs, Property};

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Holder<T: Ord> {
    list: Vec<T>,
    maybe: Option<T>,
    pair: (T, T),
    keyed: BTreeMap<String, T>,
}

fn round_trip<T: Serialize + DeserializeOwned + PartialEq + Debug>(
    t: &T,
    toml_ok: bool,
    what: &str,
) -> Result<(), String> {
    fn e<E: Debug>(what: &str, fmt: &str) -> impl Fn(E) -> String {
        let s = format!("{} in {}", what, fmt);
        move |e| format!("{}: {:?}", s, e)
    }
    let s = serde_json::to_string(t).map_err(e(what, "JSON"))?;
    ensure_eq!(
        serde_json::from_str::<T>(&s).map_err(e(what, &s))?,
        *t,
        "{} through JSON {}",
        what,
        s
    );
    ensure_eq!(
        serde_json::from_slice::<T>(s.as_bytes()).map_err(e(what, &s))?,
        *t,
        "{} through JSON bytes {}",
        what,
        s
    );
    ensure_eq!(
        serde_json::from_reader::<_, T>(s.as_bytes()).map_err(e(what, &s))?,
        *t,
        "{} through a JSON stream",
        what
    );
    let s = serde_json::to_string_pretty(t).map_err(e(what, "JSON"))?;
    ensure_eq!(
        serde_json::from_str::<T>(&s).map_err(e(what, &s))?,
        *t,
        "{} through JSON {}",
        what,
        s
    );
    let v = serde_json::to_value(t).map_err(e(what, "JSON value"))?;
    ensure_eq!(
        T::deserialize(&v).map_err(e(what, "JSON value"))?,
        *t,
        "{} through a borrowed JSON value",
        what
    );
    ensure_eq!(
        serde_json::from_value::<T>(v).map_err(e(what, "JSON value"))?,
        *t,
        "{} through a JSON value",
        what
    );
    let b = bincode::serialize(t).map_err(e(what, "bincode"))?;
    ensure_eq!(
        bincode::deserialize::<T>(&b).map_err(e(what, "bincode"))?,
        *t,
        "{} through bincode",
        what
    );
    let mut b = vec![];
    ciborium::into_writer(t, &mut b).map_err(e(what, "CBOR"))?;
    ensure_eq!(
        ciborium::from_reader::<T, _>(&b[..]).map_err(e(what, "CBOR"))?,
        *t,
        "{} through CBOR",
        what
    );
    let s = ron::to_string(t).map_err(e(what, "RON"))?;
    ensure_eq!(
        ron::from_str::<T>(&s).map_err(e(what, &s))?,
        *t,
        "{} through RON {}",
        what,
        s
    );
    if toml_ok {
        #[derive(Serialize)]
        struct W<'a, T> {
            x: &'a T,
        }
        #[derive(Deserialize)]
        struct R<T> {
            x: T,
        }
        let s = toml::to_string(&W { x: t }).map_err(e(what, "TOML"))?;
        ensure_eq!(
            toml::from_str::<R<T>>(&s).map_err(e(what, &s))?.x,
            *t,
            "{} through TOML {}",
            what,
            s
        );
    }
    Ok(())
}

/// A number (from one) of a bell or of the bells of a stage, and another
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Nums {
    x: u64,
    y: u64,
}

fn all_forms<T>(a: T, b: T, toml_ok: bool) -> Result<(), String>
where
    T: Serialize + DeserializeOwned + Ord + Copy + Debug,
{
    round_trip(&a, toml_ok, &format!("{:?}", a))?;
    let h = Holder {
        list: vec![a, b, a],
        maybe: Some(b),
        pair: (b, a),
        keyed: [("k".to_owned(), a)].into_iter().collect(),
    };
    round_trip(&h, toml_ok, &format!("{:?}", h))?;
    let keys: BTreeMap<T, u8> = [(a, 1), (b, 2)].into_iter().collect();
    let s = serde_json::to_string(&keys).map_err(|e| e.to_string())?;
    let got = serde_json::from_str::<BTreeMap<T, u8>>(&s)
        .map_err(|e| format!("keys of JSON {}: {}", s, e))?;
    ensure_eq!(got, keys, "keys through JSON {}", s);
    let bytes = bincode::serialize(&keys).map_err(|e| e.to_string())?;
    let got = bincode::deserialize::<BTreeMap<T, u8>>(&bytes).map_err(|e| e.to_string())?;
    ensure_eq!(got, keys, "keys through bincode");
    Ok(())
}

fn check_round(c: &Nums, obs: &mut Obs) -> Result<(), String> {
    let toml_ok = c.x <= i64::MAX as u64 && c.y <= i64::MAX as u64;
    let (a, b) = (
        Bell::from_number(c.x as usize).unwrap(),
        Bell::from_number(c.y as usize).unwrap(),
    );
    all_forms(a, b, toml_ok)?;
    let (s, t) = (bf::stage(c.x as usize), bf::stage(c.y as usize));
    all_forms(s, t, toml_ok)?;
    // Both are read from numbers
    let n = c.x.to_string();
    ensure_eq!(
        serde_json::from_str::<Bell>(&n).map_err(|e| e.to_string())?,
        a,
        "bell from JSON {}",
        n
    );
    ensure_eq!(
        serde_json::from_str::<Stage>(&n).map_err(|e| e.to_string())?,
        s,
        "stage from JSON {}",
        n
    );
    obs.label_if(!toml_ok, "beyond TOML's integers");
    obs.nontrivial_if(c.x > 33 && c.x != c.y);
    Ok(())
}

/// Something to read a bell and a stage from
#[derive(Debug, Clone, Serialize, Deserialize)]
enum In {
    Str(String),
    Char(char),
    Int(i64),
    UInt(u64),
    Bool(bool),
    Bytes(Vec<u8>),
    Unit,
    Seq(Vec<u64>),
    Float(String),
    /// JSON text
    Json(String),
    /// Bytes for the binary formats
    Raw(Vec<u8>),
}

fn agree<T: PartialEq + Debug, E: std::fmt::Display>(
    got: Result<Result<T, E>, String>,
    want: Option<&T>,
    what: &str,
) -> Result<(), String> {
    match got.map_err(|e| format!("{} panicked: {}", what, e))? {
        Ok(x) => ensure!(
            want == Some(&x),
            "{}: got {:?}, expected {:?}",
            what,
            x,
            want
        ),
        Err(e) => {
            ensure!(
                want.is_none(),
                "{}: got an error ({}), expected {:?}",
                what,
                e,
                want
            );
            ensure!(
                !e.to_string().is_empty(),
                "{}: an error with no message",
                what
            );
        }
    }
    Ok(())
}

macro_rules! from_value {
    ($t:ty, $want:expr, $($de:ident)::+ $(<$l:lifetime>)?, $v:expr) => {
        agree(
            vcore::panics(|| <$t>::deserialize({ let d: $($de)::+<ValueError> = $v.into_deserializer(); d })),
            $want,
            &format!("reading {} from {:?} as {}", stringify!($t), $v, stringify!($($de)::+)),
        )?
    };
}

/// Text in each format of text
fn from_text<T: DeserializeOwned + PartialEq + Debug>(
    s: &str,
    want: Option<&T>,
) -> Result<(), String> {
    let json = serde_json::to_string(s).unwrap();
    agree(
        vcore::panics(|| serde_json::from_str::<T>(&json)),
        want,
        &format!("reading JSON {}", json),
    )?;
    let value = serde_json::Value::from(s);
    agree(
        vcore::panics(|| serde_json::from_value::<T>(value)),
        want,
        &format!("reading a JSON value {:?}", s),
    )?;
    let de: StringDeserializer<ValueError> = s.to_owned().into_deserializer();
    agree(
        vcore::panics(|| T::deserialize(de)),
        want,
        &format!("reading an owned string {:?}", s),
    )?;
    let de: BorrowedStrDeserializer<ValueError> = BorrowedStrDeserializer::new(s);
    agree(
        vcore::panics(|| T::deserialize(de)),
        want,
        &format!("reading a borrowed string {:?}", s),
    )?;
    let de: StrDeserializer<ValueError> = s.into_deserializer();
    agree(
        vcore::panics(|| T::deserialize(de)),
        want,
        &format!("reading a string {:?}", s),
    )?;
    #[derive(Serialize)]
    struct W<'a> {
        x: &'a str,
    }
    #[derive(Deserialize)]
    struct R<T> {
        x: T,
    }
    let doc = toml::to_string(&W { x: s }).map_err(|e| e.to_string())?;
    agree(
        vcore::panics(|| toml::from_str::<R<T>>(&doc).map(|r| r.x)),
        want,
        &format!("reading TOML {}", doc),
    )?;
    let doc = ron::to_string(s).map_err(|e| e.to_string())?;
    agree(
        vcore::panics(|| ron::from_str::<T>(&doc)),
        want,
        &format!("reading RON {}", doc),
    )?;
    Ok(())
}

fn check_in(c: &In, obs: &mut Obs) -> Result<(), String> {
    let bell_no = |n: u64| usize::try_from(n).ok().and_then(Bell::from_number);
    let stage_no = |n: u64| {
        if n == 0 {
            None
        } else {
            Some(bf::stage(n as usize))
        }
    };
    match c {
        In::Str(s) => {
            // A number written as a string is how some formats write keys, so may be understood
            if s.trim_start_matches('+').parse::<u64>().is_ok() && s.len() > 1 {
                let n = s.parse::<u64>().ok();
                if let Ok(Ok(b)) =
                    vcore::panics(|| serde_json::from_value::<Bell>(s.as_str().into()))
                {
                    ensure_eq!(Some(b), n.and_then(bell_no), "bell read from {:?}", s);
                }
                if let Ok(Ok(b)) =
                    vcore::panics(|| serde_json::from_value::<Stage>(s.as_str().into()))
                {
                    ensure_eq!(Some(b), n.and_then(stage_no), "stage read from {:?}", s);
                }
                obs.label("number as a string");
                return Ok(());
            }
            let mut chars = s.chars();
            let bell = match (chars.next(), chars.next()) {
                (Some(c), None) => gen::name_to_index(c).map(bf::bell),
                _ => None,
            };
            from_text(s, bell.as_ref())?;
            if s.parse::<u64>().is_err() {
                let low = s.to_lowercase();
                let stage = (1..=22)
                    .find(|&n| meth::stage_name(n).to_lowercase() == low)
                    .map(bf::stage);
                from_text(s, stage.as_ref())?;
                obs.nontrivial_if(stage.is_some());
            }
            obs.nontrivial_if(bell.is_some());
        }
        In::Char(ch) => {
            let want = gen::name_to_index(*ch).map(bf::bell);
            from_value!(Bell, want.as_ref(), CharDeserializer, ch.clone());
            agree(
                vcore::panics(|| ron::from_str::<Bell>(&ron::to_string(ch).unwrap())),
                want.as_ref(),
                &format!("reading RON {:?}", ch),
            )?;
            // A character isn't the name of a stage
            let de: CharDeserializer<ValueError> = ch.into_deserializer();
            let got = vcore::panics(|| Stage::deserialize(de))
                .map_err(|e| format!("reading a stage from {:?} panicked: {}", ch, e))?;
            ensure!(
                got.is_err() || ch.is_ascii_digit(),
                "a stage was read from {:?}",
                ch
            );
            obs.nontrivial_if(want.is_some());
        }
        In::Int(i) => {
            let b = u64::try_from(*i).ok().and_then(bell_no);
            let s = u64::try_from(*i).ok().and_then(stage_no);
            from_value!(Bell, b.as_ref(), I64Deserializer, *i);
            from_value!(Stage, s.as_ref(), I64Deserializer, *i);
            if let Ok(i) = i8::try_from(*i) {
                from_value!(Bell, b.as_ref(), I8Deserializer, i);
                from_value!(Stage, s.as_ref(), I8Deserializer, i);
            }
            if let Ok(i) = i16::try_from(*i) {
                from_value!(Bell, b.as_ref(), I16Deserializer, i);
                from_value!(Stage, s.as_ref(), I16Deserializer, i);
            }
            if let Ok(i) = i32::try_from(*i) {
                from_value!(Bell, b.as_ref(), I32Deserializer, i);
                from_value!(Stage, s.as_ref(), I32Deserializer, i);
            }
            let json = i.to_string();
            agree(
                vcore::panics(|| serde_json::from_str::<Bell>(&json)),
                b.as_ref(),
                &format!("reading a bell from JSON {}", json),
            )?;
            agree(
                vcore::panics(|| serde_json::from_str::<Stage>(&json)),
                s.as_ref(),
                &format!("reading a stage from JSON {}", json),
            )?;
            agree(
                vcore::panics(|| ron::from_str::<Bell>(&json)),
                b.as_ref(),
                &format!("reading a bell from RON {}", json),
            )?;
            agree(
                vcore::panics(|| ron::from_str::<Stage>(&json)),
                s.as_ref(),
                &format!("reading a stage from RON {}", json),
            )?;
            let mut cbor = vec![];
            ciborium::into_writer(i, &mut cbor).unwrap();
            agree(
                vcore::panics(|| ciborium::from_reader::<Bell, _>(&cbor[..])),
                b.as_ref(),
                &format!("reading a bell from CBOR {}", i),
            )?;
            agree(
                vcore::panics(|| ciborium::from_reader::<Stage, _>(&cbor[..])),
                s.as_ref(),
                &format!("reading a stage from CBOR {}", i),
            )?;
            #[derive(Debug, Deserialize)]
            struct R {
                bell: Bell,
            }
            let doc = format!("bell = {}", i);
            agree(
                vcore::panics(|| toml::from_str::<R>(&doc).map(|r| r.bell)),
                b.as_ref(),
                &doc,
            )?;
            obs.nontrivial_if(*i <= 0);
        }
        In::UInt(u) => {
            let (b, s) = (bell_no(*u), stage_no(*u));
            from_value!(Bell, b.as_ref(), U64Deserializer, *u);
            from_value!(Stage, s.as_ref(), U64Deserializer, *u);
            from_value!(Bell, b.as_ref(), UsizeDeserializer, (*u as usize));
            if let Ok(u) = u8::try_from(*u) {
                from_value!(Bell, b.as_ref(), U8Deserializer, u);
                from_value!(Stage, s.as_ref(), U8Deserializer, u);
            }
            if let Ok(u) = u16::try_from(*u) {
                from_value!(Bell, b.as_ref(), U16Deserializer, u);
                from_value!(Stage, s.as_ref(), U16Deserializer, u);
            }
            if let Ok(u) = u32::try_from(*u) {
                from_value!(Bell, b.as_ref(), U32Deserializer, u);
                from_value!(Stage, s.as_ref(), U32Deserializer, u);
            }
            let bytes = bincode::serialize(u).unwrap();
            agree(
                vcore::panics(|| bincode::deserialize::<Bell>(&bytes)),
                b.as_ref(),
                &format!("reading a bell from bincode {}", u),
            )?;
            agree(
                vcore::panics(|| bincode::deserialize::<Stage>(&bytes)),
                s.as_ref(),
                &format!("reading a stage from bincode {}", u),
            )?;
            obs.nontrivial_if(*u == 0 || *u > i64::MAX as u64);
        }
        In::Bool(x) => {
            from_value!(Bell, None, BoolDeserializer, *x);
            from_value!(Stage, None, BoolDeserializer, *x);
            obs.nontrivial();
        }
        In::Bytes(b) => {
            let de: BorrowedBytesDeserializer<ValueError> = BorrowedBytesDeserializer::new(b);
            agree(
                vcore::panics(|| Bell::deserialize(de)),
                None,
                &format!("reading a bell from bytes {:?}", b),
            )?;
            let de: BorrowedBytesDeserializer<ValueError> = BorrowedBytesDeserializer::new(b);
            agree(
                vcore::panics(|| Stage::deserialize(de)),
                None,
                &format!("reading a stage from bytes {:?}", b),
            )?;
            obs.nontrivial();
        }
        In::Unit => {
            from_value!(Bell, None, UnitDeserializer, ());
            from_value!(Stage, None, UnitDeserializer, ());
            obs.nontrivial();
        }
        In::Seq(v) => {
            let json = serde_json::to_string(v).unwrap();
            agree(
                vcore::panics(|| serde_json::from_str::<Bell>(&json)),
                None,
                &format!("reading a bell from {}", json),
            )?;
            agree(
                vcore::panics(|| serde_json::from_str::<Stage>(&json)),
                None,
                &format!("reading a stage from {}", json),
            )?;
            obs.nontrivial();
        }
        In::Float(f) => {
            let x: f64 = f.parse().unwrap();
            from_value!(Bell, None, F64Deserializer, x);
            from_value!(Stage, None, F64Deserializer, x);
            obs.nontrivial();
        }
        In::Json(s) => {
            let value = serde_json::from_str::<serde_json::Value>(s).ok();
            let b = vcore::panics(|| serde_json::from_str::<Bell>(s))
                .map_err(|e| format!("reading a bell from {:?} panicked: {}", s, e))?;
            let t = vcore::panics(|| serde_json::from_str::<Stage>(s))
                .map_err(|e| format!("reading a stage from {:?} panicked: {}", s, e))?;
            let fine = value.map_or(false, |v| {
                v.is_string() || v.as_u64().map_or(false, |n| n > 0)
            });
            ensure!(fine || b.is_err(), "{:?} was read as {:?}", s, b);
            ensure!(fine || t.is_err(), "{:?} was read as {:?}", s, t);
            if let Ok(b) = b {
                round_trip(&b, false, "a bell read from text")?;
            }
            if let Ok(t) = t {
                round_trip(&t, false, "a stage read from text")?;
            }
            obs.nontrivial_if(!fine);
        }
        In::Raw(bytes) => {
            for k in 0..2 {
                let _ = vcore::panics(|| {
                    if k == 0 {
                        bincode::deserialize::<Bell>(bytes).is_ok()
                    } else {
                        ciborium::from_reader::<Bell, _>(&bytes[..]).is_ok()
                    }
                })
                .map_err(|e| format!("reading a bell from {:?} panicked: {}", bytes, e))?;
                let t = vcore::panics(|| {
                    if k == 0 {
                        bincode::deserialize::<Stage>(bytes).ok()
                    } else {
                        ciborium::from_reader::<Stage, _>(&bytes[..]).ok()
                    }
                })
                .map_err(|e| format!("reading a stage from {:?} panicked: {}", bytes, e))?;
                ensure!(
                    t.map_or(true, |t| t.num_bells() > 0),
                    "a stage of no bells was read from {:?}",
                    bytes
                );
            }
            obs.nontrivial_if(bytes.len() >= 8);
        }
    }
    Ok(())
}

fn number() -> BoxedStrategy<u64> {
    prop_oneof![
        4 => 1u64..=40,
        2 => select(vec![127u64, 128, 255, 256, 32767, 32768, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32,
                         (1 << 53) + 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX - 1, u64::MAX]),
        2 => any::<u64>().prop_map(|x| x.max(1)),
        1 => (any::<u64>(), 0u32..64).prop_map(|(x, s)| (x >> s).max(1)),
    ]
    .boxed()
}

fn input() -> BoxedStrategy<In> {
    let stage_text = (1usize..=22, vec(any::<u8>(), 1..8))
        .prop_map(|(n, coins)| mlib::recase(&meth::stage_name(n), &coins));
    let text = prop_oneof![
        4 => stage_text.clone(),
        2 => (stage_text, gen::charlike(), any::<prop::sample::Index>(), any::<bool>()).prop_map(|(s, c, i, remove)| {
            let mut s: Vec<char> = s.chars().collect();
            let at = i.index(s.len());
            if remove {
                s.remove(at);
            } else {
                s.splice(at..at, c.chars());
            }
            s.into_iter().collect()
        }),
        4 => gen::charlike(),
        1 => gen::text(4),
        1 => (any::<i64>()).prop_map(|x| x.to_string()),
        1 => (0i64..40).prop_map(|x| x.to_string()),
        1 => select(vec!["", " ", "null", "8 bells", "23 bells", "Majo", "Major ", " major", "TWENTY-TWO", "twenty two", "K"]).prop_map(str::to_owned),
    ];
    let signed = prop_oneof![
        2 => -40i64..40,
        1 => any::<i64>(),
        1 => (any::<i64>(), 0u32..63).prop_map(|(x, s)| x >> s),
        1 => select(vec![0, -1, i64::MIN, i64::MAX, i8::MIN as i64, i16::MIN as i64, i32::MIN as i64, 127, 128, 255, 256]),
    ];
    prop_oneof![
        8 => text.prop_map(In::Str),
        2 => prop_oneof![2 => any::<char>(), 3 => select(gen::NAMES.chars().collect::<Vec<_>>()), 2 => prop::char::range('\0', '\u{ff}')].prop_map(In::Char),
        4 => signed.prop_map(In::Int),
        2 => prop_oneof![4 => number(), 1 => Just(0)].prop_map(In::UInt),
        1 => any::<bool>().prop_map(In::Bool),
        1 => prop_oneof![vec(any::<u8>(), 0..4), Just(b"Major".to_vec()), Just(b"1".to_vec())].prop_map(In::Bytes),
        1 => Just(In::Unit),
        1 => vec(1u64..9, 0..3).prop_map(In::Seq),
        1 => prop_oneof![Just(8.0), Just(0.0), Just(-1.0), Just(1.5), Just(f64::NAN), Just(f64::INFINITY), any::<f64>()].prop_map(|x: f64| In::Float(x.to_string())),
        2 => prop_oneof!["[0-9.eE+-]{1,6}", "\"[A-Za-z0-9]{0,3}\"", select(vec!["null", "true", "[]", "{}", "[8]", "{\"n\":8}", "", "\"", "-0", "0", "00", "1.0", "1e1", "18446744073709551616"]).prop_map(str::to_owned)].prop_map(In::Json),
        2 => vec(any::<u8>(), 0..12).prop_map(In::Raw),
    ]
    .boxed()
}

fn main() {
    vcore::main(Property {
        id: "C25",
        assumptions: vec![
            "TOML can't write integers above its own maximum, so larger numbers aren't tried there",
            "names are read only in human-readable formats; a number written as a string may be understood or refused",
        ],
        facets: vec![
            Facet::enumerated("small numbers", "over 33 bells", |_| Box::new((1..=400u64).map(|x| Nums { x, y: x % 37 + 1 })), check_round),
            Facet::random(
                "round trips",
                15_000,
                300_000,
                "two different numbers, the first over 33",
                |_| (number(), number()).prop_map(|(x, y)| Nums { x, y }).boxed(),
                check_round,
            ),
            Facet::random(
                "reading",
                120_000,
                2_000_000,
                "a name, or something that is an error",
                |_| input(),
                check_in,
            ),
        ],
    });
}
