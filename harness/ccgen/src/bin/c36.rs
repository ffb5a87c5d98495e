//! C36: the Central Council's XML is read into a library of exactly the methods it lists.

#[path = "../../../checks/src/bf.rs"]
#[allow(unused)]
mod bf;
#[path = "../../../checks/src/meth.rs"]
mod meth;
#[path = "../../../checks/src/mlib.rs"]
mod mlib;
#[path = "../../../checks/src/pn.rs"]
mod pn;

use std::sync::atomic::Ordering;

use bellframe::{Method, MethodLib};
use mlib::{Lib, Meth};
use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use vcore::{ensure, ensure_eq, Facet, Obs, Property};

const NAMES: [&str; 9] = ["", "Place", "Bob", "Treble Bob", "Delight", "Surprise", "Treble Place", "Alliance", "Hybrid"];
const XMLNS: &str = "http://www.cccbr.org.uk/methods/schemas/2007/05/methods";

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Fault {
    NoProperties,
    NoStage,
    NoClassification,
    NoTitle,
    NoName,
    NoNotation,
    /// The stage is one of some texts which aren't a positive number
    Stage(u8),
    /// The classification is one of some texts which aren't a class
    Class(u8),
}

const BAD_STAGES: [&str; 8] = ["0", "", "six", "-6", "6.0", "six bells", "99999999999999999999999", "0x6"];
const BAD_CLASSES: [&str; 8] = ["Principle", "bob", "Little", "Treble", "Surprise Minor", "X", "TrebleBob", "Differential"];

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    lib: Lib,
    /// Choices of how to write the document
    style: Vec<u8>,
    /// How the queries' letters are cased
    coins: Vec<u8>,
    fault: Option<(Fault, usize)>,
}

/// Writes a document, making choices from a stream
struct Writer<'a> {
    style: &'a [u8],
    at: usize,
    out: String,
}

impl Writer<'_> {
    fn pick(&mut self, n: u8) -> u8 {
        let k = self.style[self.at % self.style.len()].wrapping_add(((self.at / self.style.len()) as u8).wrapping_mul(37));
        self.at += 1;
        k % n
    }

    fn gap(&mut self) {
        let k = self.pick(8);
        self.out.push_str(["\n", "", "\n    ", " ", "\t", "\n  ", "\n", "\n\n"][k as usize]);
    }

    fn escaped(&mut self, s: &str) {
        for c in s.chars() {
            match c {
                '&' => self.out.push_str("&amp;"),
                '<' => self.out.push_str("&lt;"),
                '>' => self.out.push_str("&gt;"),
                '\'' if self.pick(2) == 0 => self.out.push_str("&apos;"),
                '"' if self.pick(2) == 0 => self.out.push_str("&quot;"),
                c if self.pick(40) == 0 => self.out.push_str(&format!("&#{};", c as u32)),
                c if self.pick(40) == 0 => self.out.push_str(&format!("&#x{:X};", c as u32)),
                c => self.out.push(c),
            }
        }
    }

    /// Text, sometimes as several pieces (a CDATA section or a processing instruction cuts it, and
    /// means nothing)
    fn text(&mut self, s: &str) {
        let how = self.pick(12);
        if how > 1 {
            return self.escaped(s);
        }
        let mut cuts: Vec<usize> = s.char_indices().map(|(i, _)| i).chain([s.len()]).collect();
        let a = cuts[self.pick(cuts.len().min(255) as u8) as usize];
        cuts.retain(|&i| i >= a);
        let b = cuts[self.pick(cuts.len().min(255) as u8) as usize];
        self.escaped(&s[..a]);
        if how == 0 && !s[a..b].contains("]]>") {
            self.out.push_str(&format!("<![CDATA[{}]]>", &s[a..b]));
        } else {
            self.escaped(&s[a..b]);
            self.out.push_str("<?editor mark?>");
        }
        self.escaped(&s[b..]);
    }

    fn element(&mut self, name: &str, s: &str) {
        if s.is_empty() && self.pick(2) == 0 {
            self.out.push_str(&format!("<{}/>", name));
            return;
        }
        self.out.push_str(&format!("<{}>", name));
        self.text(s);
        self.out.push_str(&format!("</{}>", name));
    }

    /// Elements which the documents have, but say nothing of what is read
    fn extra(&mut self) {
        let k = self.pick(8);
        self.out.push_str(match k {
            0 => "<leadHead>156342</leadHead>",
            1 => "<performances><firstTowerbellPeal><date>1820-01-01</date></firstTowerbellPeal></performances>",
            2 => "<references><method><title>Fake Minor</title><name>Fake</name><notation>x</notation></method></references>",
            3 => "<symmetry>palindromic</symmetry>",
            4 => "<notes/>",
            _ => "",
        });
        self.gap();
    }
}

fn groups(lib: &Lib) -> Vec<Vec<Meth>> {
    let style = |i: usize| *lib.style.get(i % lib.style.len().max(1)).unwrap_or(&0);
    let mut groups: Vec<Vec<Meth>> = vec![];
    for (i, m) in lib.methods.iter().enumerate() {
        match groups.iter_mut().find(|g| g[0].n == m.n && g[0].class == m.class && style(i) & 24 != 24) {
            Some(g) => g.push(m.clone()),
            None => groups.push(vec![m.clone()]),
        }
    }
    groups
}

fn document(c: &Case) -> String {
    let mut w = Writer { style: &c.style, at: 0, out: String::new() };
    let groups = groups(&c.lib);
    // Which group, and which of its methods, is at fault
    let fault = |g: usize, m: usize| match &c.fault {
        Some((f, k)) if !groups.is_empty() => {
            let fg = k % groups.len();
            (fg == g && (k / groups.len()) % groups[fg].len() == m).then_some(*f)
        }
        _ => None,
    };
    if w.pick(2) == 0 {
        w.out.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
    }
    let name = "collection";
    match w.pick(3) {
        0 => w.out.push_str(&format!("<{} xmlns=\"{}\" date=\"2021-05-06\" uk=\"yes\">", name, XMLNS)),
        1 => w.out.push_str(&format!("<{}\n  date='2021-05-06'\n  xmlns='{}'>", name, XMLNS)),
        _ => w.out.push_str(&format!("<{} date=\"\" xmlns=\"{}\">", name, XMLNS)),
    }
    w.gap();
    if w.pick(4) == 0 {
        w.out.push_str("<collectionName>CCCBR &amp; more</collectionName>");
    }
    for (gi, g) in groups.iter().enumerate() {
        w.gap();
        w.out.push_str("<methodSet>");
        let of_group = groups[gi].iter().enumerate().find_map(|(mi, _)| fault(gi, mi));
        if w.pick(4) == 0 {
            w.out.push_str("<notes>Methods</notes>");
        }
        if of_group != Some(Fault::NoProperties) {
            w.gap();
            w.out.push_str("<properties>");
            w.extra();
            let stage_first = w.pick(2) == 0;
            let (class, _, little, diff) = g[0].class;
            for stage in [stage_first, !stage_first] {
                w.gap();
                if stage && of_group != Some(Fault::NoStage) {
                    let n = match of_group {
                        Some(Fault::Stage(k)) => BAD_STAGES[k as usize % BAD_STAGES.len()].to_owned(),
                        _ => g[0].n.to_string(),
                    };
                    w.element("stage", &n);
                } else if !stage && of_group != Some(Fault::NoClassification) {
                    w.out.push_str("<classification");
                    for (key, flag) in [("differential", diff), ("little", little)] {
                        match (flag, w.pick(2)) {
                            (true, 0) => w.out.push_str(&format!(" {}=\"true\"", key)),
                            (true, _) => w.out.push_str(&format!("\n {}='true'", key)),
                            (false, 0) => w.out.push_str(&format!(" {}=\"false\"", key)),
                            (false, _) => {}
                        }
                    }
                    if w.pick(4) == 0 {
                        w.out.push_str(" trebleDodging=\"true\" plain=\"true\"");
                    }
                    w.out.push('>');
                    let text = match of_group {
                        Some(Fault::Class(k)) => BAD_CLASSES[k as usize % BAD_CLASSES.len()],
                        _ => NAMES[class],
                    };
                    w.text(text);
                    w.out.push_str("</classification>");
                }
            }
            w.extra();
            w.out.push_str("</properties>");
        }
        for (mi, m) in g.iter().enumerate() {
            let fault = fault(gi, mi);
            w.gap();
            match w.pick(3) {
                0 => w.out.push_str(&format!("<method id=\"m{}\">", mi)),
                _ => w.out.push_str("<method>"),
            }
            let mut parts = vec![
                (Fault::NoTitle, "title", m.full_title()),
                (Fault::NoName, "name", m.name.clone()),
                (Fault::NoNotation, "notation", m.pn.clone()),
            ];
            let turn = w.pick(3) as usize;
            parts.rotate_left(turn);
            for (without, key, text) in parts {
                w.gap();
                w.extra();
                if fault != Some(without) {
                    w.element(key, &text);
                }
            }
            w.gap();
            w.out.push_str("</method>");
        }
        w.gap();
        w.out.push_str("</methodSet>");
    }
    w.gap();
    w.out.push_str("</collection>");
    if w.pick(2) == 0 {
        w.out.push('\n');
    }
    w.out
}

fn rows(m: &Method) -> Result<Vec<Vec<usize>>, String> {
    let mut out = vec![];
    for r in m.first_lead().rows() {
        out.push(bf::valid(r)?);
    }
    out.push(bf::valid(m.lead_head())?);
    Ok(out)
}

fn check(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let text = document(c);
    let got = vcore::panics(|| bellframe::parse_cc_lib(&text));
    if let Some((fault, _)) = &c.fault {
        if !c.lib.methods.is_empty() {
            ensure!(got.is_err(), "{:?} in {:?} was accepted as {:?}", fault, text, got.ok());
            obs.label(match fault {
                Fault::Stage(_) => "not a stage",
                Fault::Class(_) => "not a class",
                _ => "part missing",
            });
            obs.nontrivial();
            return Ok(());
        }
    }
    let got = got.map_err(|e| format!("{:?}: panic: {}", text, e))?;
    let json = vcore::panics(|| got.to_json()).map_err(|e| format!("to_json: panic: {}", e))?.map_err(|e| e.to_string())?;
    let mut have: Vec<_> = mlib::read(&json)?.iter().map(Meth::known).collect();
    let mut want: Vec<_> = c.lib.methods.iter().map(Meth::known).collect();
    have.sort();
    want.sort();
    ensure_eq!(have, want, "the methods of {:?}", text);
    // Every method is found as it would be in the same library read from JSON
    let same = MethodLib::from_json(&c.lib.text()).map_err(|e| e.to_string())?;
    let mut found = 0;
    for m in c.lib.methods.iter().take(40) {
        let query = mlib::recase(&m.full_title(), &c.coins);
        let (a, b) = vcore::panics(|| (got.get_by_title(&query), same.get_by_title(&query)))
            .map_err(|e| format!("{:?} in {:?}: panic: {}", query, text, e))?;
        match (a, b) {
            (Ok(a), Ok(b)) => {
                ensure_eq!(a.title(), b.title(), "title of {:?} in {:?}", query, text);
                ensure_eq!(a.name(), b.name(), "name of {:?} in {:?}", query, text);
                ensure_eq!(a.stage(), b.stage(), "stage of {:?} in {:?}", query, text);
                ensure_eq!(rows(&a)?, rows(&b)?, "lead of {:?} in {:?}", query, text);
                found += 1;
            }
            (a, b) => {
                let (a, b) = (format!("{:?}", a.map(|_| ())), format!("{:?}", b.map(|_| ())));
                ensure_eq!(a, b, "looking up {:?} in {:?}", query, text);
                ensure!(!m.findable() || !a.contains("NotFound"), "{:?} isn't found in {:?}", query, text);
            }
        }
    }
    obs.label_if(found > 0, "methods found by title");
    obs.label_if(groups(&c.lib).len() > 1, "several sets");
    if c.lib.methods.len() > 1 {
        obs.nontrivial();
    }
    Ok(())
}

/// No jump methods, and only characters which XML can hold
fn as_published(mut l: Lib) -> Lib {
    let keep = |s: &str| s.chars().filter(|&c| c >= ' ' && c != '\u{fffe}' && c != '\u{ffff}').collect::<String>();
    for m in &mut l.methods {
        m.class.1 = false;
        m.name = keep(&m.name);
        m.title = m.title.as_deref().map(keep);
        m.pn = keep(&m.pn);
    }
    l.unique()
}

fn case(lib: BoxedStrategy<Lib>, fault: BoxedStrategy<Option<(Fault, usize)>>) -> BoxedStrategy<Case> {
    (lib.prop_map(as_published), vec(any::<u8>(), 1..60), vec(any::<u8>(), 1..12), fault)
        .prop_map(|(lib, style, coins, fault)| Case { lib, style, coins, fault })
        .boxed()
}

fn main() {
    vcore::CHATTY.store(true, Ordering::SeqCst);
    vcore::main(Property {
        id: "C36",
        assumptions: vec![
            "the documents are made by this check after the format documented in the source, with the elements the published ones have besides; the published collection itself isn't available here",
            "documents which aren't well-formed XML, and comments in them, are left to the XML parser, which reads some truncated documents and refuses comments",
            "only methods whose titles differ (ignoring case) within their stage are listed together",
        ],
        facets: vec![
            Facet::random(
                "documents",
                6_000,
                120_000,
                "at least two methods",
                |_| case(mlib::lib(12), Just(None).boxed()),
                check,
            ),
            Facet::random(
                "damaged documents",
                3_000,
                60_000,
                "a part which is needed is missing or wrong",
                |_| {
                    let fault = prop_oneof![
                        select(vec![Fault::NoProperties, Fault::NoStage, Fault::NoClassification, Fault::NoTitle, Fault::NoName, Fault::NoNotation]),
                        any::<u8>().prop_map(Fault::Stage),
                        any::<u8>().prop_map(Fault::Class),
                    ];
                    case(mlib::lib(6), (fault, any::<usize>()).prop_map(Some).boxed())
                },
                check,
            ),
        ],
    });
}
