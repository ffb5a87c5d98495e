//! C15: a method's plain course repeats its lead until rounds; labels stay where they are put.

#[path = "../bf.rs"]
mod bf;
#[path = "../meth.rs"]
mod meth;
#[path = "../pn.rs"]
mod pn;

use bellframe::{method::LABEL_LEAD_END, AnnotBlock, Method, PnBlock, SameStageVec};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use vcore::{ensure, ensure_eq, gen, Facet, Obs, Property};

type P = Vec<usize>;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    n: usize,
    /// Rows after rounds (the last is the lead head)
    rest: Vec<P>,
    /// Whether the rows come from place notation (listed here) instead
    changes: Option<Vec<P>>,
    labels: Vec<Option<u8>>,
    how: u8,
    edits: Vec<(usize, Option<u8>)>,
    indices: Vec<usize>,
}

fn label(k: u8) -> String {
    ["LE", "HL", "", "a", "le", "LE ", "é"][k as usize % 7].to_owned()
}

fn check_labels(m: &Method, want: &[Option<String>]) -> Result<(), String> {
    for (i, w) in want.iter().enumerate() {
        ensure_eq!(m.get_label(i).map(str::to_owned), *w, "label at {}", i);
    }
    for k in 0..7 {
        let l = label(k);
        let got: P = m.label_indices(&l).collect();
        let exp: P = (0..want.len())
            .filter(|&i| want[i].as_deref() == Some(&l))
            .collect();
        ensure_eq!(got, exp, "indices of label {:?}", l);
    }
    let none: P = m.label_indices("absent").collect();
    ensure!(none.is_empty(), "indices of an absent label: {:?}", none);
    ensure!(
        m.first_lead().annots().cloned().eq(want.iter().cloned()),
        "annotations of the first lead"
    );
    Ok(())
}

fn check(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let n = c.n;
    let mut rows = vec![gen::id(n)];
    match &c.changes {
        Some(chs) => {
            for ch in chs {
                rows.push(gen::mul(rows.last().unwrap(), &gen::change_perm(n, ch)));
            }
        }
        None => rows.extend(c.rest.iter().cloned()),
    }
    let len = rows.len() - 1;
    let head = rows[len].clone();
    let mut labels: Vec<Option<String>> = (0..len)
        .map(|i| c.labels.get(i).copied().flatten().map(label))
        .collect();
    let class = bellframe::method::class::FullClass::new(
        false,
        false,
        false,
        bellframe::method::class::Class::Hybrid,
    );
    let mut m = match &c.changes {
        Some(chs) if c.how % 3 != 0 => {
            let block = PnBlock::from_vec(chs.iter().map(|p| pn::build(p, n)).collect())
                .map_err(|e| e.to_string())?;
            labels = vec![None; len];
            if c.how % 3 == 1 || n > 33 {
                labels[len - 1] = Some(LABEL_LEAD_END.to_owned());
                obs.label("made with a lead end");
                Method::with_lead_end("A name".to_owned(), &block)
            } else {
                let text: Vec<String> = block.place_nots().map(|p| p.to_string()).collect();
                Method::from_place_not_string("A name".to_owned(), bf::stage(n), &text.join("."))
                    .map_err(|e| e.to_string())?
            }
        }
        _ => {
            let mut v = SameStageVec::new(bf::stage(n));
            v.extend(rows.iter().map(|r| bf::row(r)))
                .map_err(|e| e.to_string())?;
            let lead = AnnotBlock::with_annots_from_indices(v, |i| labels[i].clone()).unwrap();
            Method::new("A title".to_owned(), "A name".to_owned(), class, lead)
        }
    };
    ensure_eq!(m.name(), "A name", "name");
    ensure_eq!(m.lead_len(), len, "lead length");
    ensure_eq!(m.stage().num_bells(), n, "stage");
    bf::is_row(m.lead_head(), &head, "lead head")?;
    check_labels(&m, &labels)?;
    for (i, e) in &c.edits {
        let i = i % len;
        if e.is_none() && i == 0 && c.how & 4 == 4 {
            m.set_lead_end_label();
            labels[0] = Some(LABEL_LEAD_END.to_owned());
        } else {
            m.set_label(i, e.map(label));
            labels[i] = e.map(label);
        }
    }
    check_labels(&m, &labels)?;
    ensure!(
        vcore::panics(|| m.set_label(len, None)).is_err(),
        "a label was set past the lead"
    );
    check_labels(&m, &labels)?;
    ensure_eq!(
        bf::ssv_rows(m.first_lead().row_vec()),
        rows,
        "rows of the first lead"
    );
    for (i, r) in rows.iter().enumerate().take(len) {
        bf::is_row(m.row_in_plain_lead(i), r, &format!("row {} of the lead", i))?;
    }
    for &i in &c.indices {
        let want = gen::mul(&gen::pow(&head, (i / len) as u64), &rows[i % len]);
        bf::is_row(
            &m.row_in_plain_course(i),
            &want,
            &format!("row {} of the infinite plain course", i),
        )?;
    }
    let order = gen::order(&head);
    if order * (len * n) as u128 > 60_000 {
        obs.label("course too long to list");
        return Ok(());
    }
    let order = order as usize;
    let pc = m.plain_course();
    ensure_eq!(pc.len(), order * len, "length of the plain course");
    ensure!(
        pc.leftover_row().is_rounds(),
        "the plain course ends at {}",
        pc.leftover_row()
    );
    let mut lh = gen::id(n);
    let mut it = pc.annot_rows();
    for lead in 0..order {
        for i in 0..len {
            let ar = it.next().ok_or("annotated rows end early")?;
            bf::is_row(
                ar.row(),
                &gen::mul(&lh, &rows[i]),
                &format!("row {} of lead {} of the plain course", i, lead),
            )?;
            ensure_eq!(
                ar.annot().sub_lead_idx(),
                i,
                "index of row {} of lead {}",
                i,
                lead
            );
            ensure_eq!(
                ar.annot().label(),
                labels[i].as_deref(),
                "label of row {} of lead {}",
                i,
                lead
            );
        }
        if lead == 1 || lead + 1 == order {
            bf::is_row(
                &m.row_in_plain_course(lead * len),
                &lh,
                "row_in_plain_course at a lead head",
            )?;
        }
        lh = gen::mul(&lh, &head);
    }
    ensure!(it.next().is_none(), "too many annotated rows");
    obs.label_if(order == 1, "one lead");
    obs.label_if(labels.iter().flatten().count() > 0, "labelled");
    obs.nontrivial_if(order > 1 && len > 1);
    Ok(())
}

fn strategy() -> BoxedStrategy<Case> {
    let notated = meth::lead(12).prop_map(|l| (l.n, vec![], Some(l.changes)));
    let wide =
        gen::stage().prop_flat_map(|n| (Just(n), Just(vec![]), pn::changes(n, 6).prop_map(Some)));
    let rows = gen::stage().prop_flat_map(|n| {
        (
            Just(n),
            gen::list(gen::perm(n), 1, 6, if n > 16 { 40 } else { 300 }),
            Just(None),
        )
    });
    (
        prop_oneof![4 => notated.boxed(), 1 => wide.boxed(), 3 => rows.boxed()],
        gen::list(proptest::option::weighted(0.3, 0u8..7), 0, 12, 300),
        any::<u8>(),
        vec((any::<usize>(), proptest::option::of(0u8..7)), 0..4),
        vec(prop_oneof![8 => 0usize..2000, 1 => 0usize..200_000], 1..4),
    )
        .prop_map(|((n, rest, changes), labels, how, edits, indices)| Case {
            n,
            rest,
            changes,
            labels,
            how,
            edits,
            indices,
        })
        .boxed()
}

/// Methods of tens of thousands of changes, with labels far into them
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Long {
    n: usize,
    one: Vec<P>,
    len: usize,
    by_notation: bool,
    labels: Vec<(usize, u8)>,
    indices: Vec<usize>,
}

fn check_long(c: &Long, obs: &mut Obs) -> Result<(), String> {
    let (n, len) = (c.n, c.len);
    let mut rows = vec![gen::id(n)];
    for i in 0..len {
        let ch = gen::change_perm(n, &c.one[i % c.one.len()]);
        rows.push(gen::mul(&rows[i], &ch));
    }
    let head = rows.pop().unwrap();
    let mut m = if c.by_notation {
        let pns = (0..len)
            .map(|i| pn::build(&c.one[i % c.one.len()], n))
            .collect();
        Method::with_lead_end(
            String::new(),
            &PnBlock::from_vec(pns).map_err(|e| e.to_string())?,
        )
    } else {
        let mut v = SameStageVec::new(bf::stage(n));
        for r in rows.iter().chain([&head]) {
            v.push(&bf::row(r)).map_err(|e| e.to_string())?;
        }
        let class = bellframe::method::class::FullClass::new(
            false,
            false,
            false,
            bellframe::method::class::Class::Hybrid,
        );
        Method::new(
            String::new(),
            String::new(),
            class,
            AnnotBlock::with_default_annots(v),
        )
    };
    let mut labels = std::collections::BTreeMap::new();
    if c.by_notation {
        labels.insert(len - 1, LABEL_LEAD_END.to_owned());
    }
    for (i, k) in &c.labels {
        m.set_label(i % len, Some(label(*k)));
        labels.insert(i % len, label(*k));
    }
    ensure_eq!(m.lead_len(), len, "lead length");
    bf::is_row(m.lead_head(), &head, "lead head")?;
    for k in 0..7 {
        let got: P = m.label_indices(&label(k)).collect();
        let want: P = labels
            .iter()
            .filter(|(_, l)| **l == label(k))
            .map(|(i, _)| *i)
            .collect();
        ensure_eq!(got, want, "indices of label {:?}", label(k));
    }
    for &i in labels.keys().chain(&c.indices) {
        let (lead, sub) = (i / len, i % len);
        ensure_eq!(
            m.get_label(sub),
            labels.get(&sub).map(|s| s.as_str()),
            "label at {}",
            sub
        );
        bf::is_row(m.row_in_plain_lead(sub), &rows[sub], "row of the lead")?;
        let want = gen::mul(&gen::pow(&head, lead as u64), &rows[sub]);
        bf::is_row(
            &m.row_in_plain_course(i),
            &want,
            "row of the infinite plain course",
        )?;
    }
    let order = gen::order(&head) as usize;
    if order <= 3 {
        let pc = m.plain_course();
        ensure_eq!(pc.len(), order * len, "length of the plain course");
        let mut lh = gen::id(n);
        for (i, ar) in pc.annot_rows().enumerate() {
            let (lead, sub) = (i / len, i % len);
            if sub == 0 && lead > 0 {
                lh = gen::mul(&lh, &head);
            }
            let label = labels.get(&sub).map(|s| s.as_str());
            if label.is_some()
                || i % 251 == 0
                || sub < 3
                || sub + 3 > len
                || sub.abs_diff(65_536) < 3
            {
                bf::is_row(
                    ar.row(),
                    &gen::mul(&lh, &rows[sub]),
                    "row of the plain course",
                )?;
            }
            ensure_eq!(
                ar.annot().sub_lead_idx(),
                sub,
                "index of row {} of lead {}",
                sub,
                lead
            );
            ensure_eq!(
                ar.annot().label(),
                label,
                "label of row {} of lead {}",
                sub,
                lead
            );
        }
    }
    obs.label_if(len > 65_536, "over 65,536 changes");
    obs.nontrivial_if(!labels.is_empty());
    Ok(())
}

fn long() -> BoxedStrategy<Long> {
    let len = || prop_oneof![1 => 250usize..264, 1 => 1000usize..70_000, 2 => 65_530usize..65_545];
    let place = || prop_oneof![3 => 65_530usize..65_545, 1 => 250usize..260, 1 => any::<u32>().prop_map(|i| i as usize)];
    (1usize..=6)
        .prop_flat_map(move |n| {
            (
                Just(n),
                vec(gen::change(n), 1..8),
                len(),
                any::<bool>(),
                vec((place(), 0u8..7), 0..5),
                vec(prop_oneof![place(), 0usize..200_000], 1..4),
            )
        })
        .prop_map(|(n, one, len, by_notation, labels, indices)| Long {
            n,
            one,
            len,
            by_notation,
            labels,
            indices: indices.into_iter().map(|i| i % (len * 5)).collect(),
        })
        .boxed()
}

fn main() {
    vcore::main(Property {
        id: "C15",
        facets: vec![
            Facet::random(
                "methods",
                120_000,
                2_500_000,
                "more than one lead of more than one row",
                |_| strategy(),
                check,
            ),
            Facet::random("long leads", 60, 3_000, "has labels", |_| long(), check_long),
        ],
        assumptions: vec!["leads start from rounds and aren't empty", "indices up to 200,000 rows (finding a row takes time in proportion to the leads before it)"],
    })
}
