//! C21: run patterns match exactly the rows which have such runs.

#[path = "../bf.rs"]
mod bf;

use bellframe::{music::Regex, run_len};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcore::{ensure, ensure_eq, gen, Facet, Obs, Property, Tier};

/// Is the slice consecutive bells, all ascending or all descending?
fn is_run(s: &[usize]) -> bool {
    s.windows(2).all(|w| w[1] == w[0] + 1) || s.windows(2).all(|w| w[0] == w[1] + 1)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    row: Vec<usize>,
    len: usize,
}

/// The measured run as the library reports it: consecutive bells, each step either way
fn zigzag_run_len(p: &[usize]) -> usize {
    1 + p
        .windows(2)
        .take_while(|w| w[0].abs_diff(w[1]) == 1)
        .count()
}

fn judge(
    row: &[usize],
    len: usize,
    sets: &[(&str, Vec<Regex>)],
    obs: &mut Obs,
) -> Result<(), String> {
    let n = row.len();
    let r = bf::row(row);
    let fits = len <= n;
    let front = fits && is_run(&row[..len]);
    let back = fits && is_run(&row[n - len..]);
    let anywhere = fits && row.windows(len.max(1)).any(is_run);
    for (what, set) in sets {
        let want = match *what {
            "front" => front,
            "back" => back,
            "either end" => front || back,
            _ => anywhere,
        };
        let got = set.iter().any(|p| p.matches(&r));
        ensure_eq!(got, want, "runs of {} at the {} match {}", len, what, r);
        if !fits {
            ensure!(
                set.is_empty(),
                "there are patterns for runs of {} on {} bells: {:?}",
                len,
                n,
                set
            );
        }
    }
    // The measured run.  (Within a row a run can't change direction, as no bell occurs twice.)
    ensure_eq!(
        run_len(&r),
        zigzag_run_len(row),
        "run off the front of {}",
        r
    );
    let rev: Vec<usize> = row.iter().rev().copied().collect();
    ensure_eq!(
        run_len(r.bell_iter().rev()),
        zigzag_run_len(&rev),
        "run off the back of {}",
        r
    );
    if len > 0 {
        ensure_eq!(
            run_len(&r) >= len,
            front,
            "length of the run off the front of {} is at least {}",
            r,
            len
        );
        ensure_eq!(
            run_len(r.bell_iter().rev()) >= len,
            back,
            "length of the run off the back of {} is at least {}",
            r,
            len
        );
    }
    obs.label_if(front, "run at the front");
    obs.label_if(back, "run at the back");
    obs.label_if(anywhere && !front && !back, "internal run");
    Ok(())
}

fn sets(n: usize, len: usize) -> Vec<(&'static str, Vec<Regex>)> {
    let s = bf::stage(n);
    vec![
        ("front", Regex::runs_front(s, len)),
        ("back", Regex::runs_back(s, len)),
        ("either end", Regex::runs_front_or_back(s, len)),
        ("either end", Regex::runs(s, len, false)),
        ("anywhere", Regex::all_runs(s, len)),
        ("anywhere", Regex::runs(s, len, true)),
    ]
}

fn check(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let n = c.row.len();
    let sets = sets(n, c.len);
    judge(&c.row, c.len, &sets, obs)?;
    for (what, set) in &sets {
        for re in set {
            // Patterns must be in normal form to be matched correctly
            let mut again = re.clone();
            again.normalise();
            ensure_eq!(again, *re, "pattern {:?} for runs at the {}", re, what);
            ensure_eq!(
                Regex::from_elems(re.elems().iter().copied()),
                *re,
                "pattern for runs at the {}",
                what
            );
        }
    }
    obs.nontrivial_if((3..=n).contains(&c.len));
    Ok(())
}

/// Every row of a stage against one length
fn check_stage(c: &(usize, usize), obs: &mut Obs) -> Result<(), String> {
    let (n, len) = *c;
    let sets = sets(n, len);
    for row in gen::all_perms(n) {
        judge(&row, len, &sets, obs)?;
    }
    obs.nontrivial_if((3..=n).contains(&len));
    Ok(())
}

/// A row with a run of around the length asked for put somewhere in it
fn case(n: usize) -> BoxedStrategy<Case> {
    let planted = (
        gen::perm(n),
        1..=n,
        any::<bool>(),
        any::<(usize, usize)>(),
        0u8..4,
        0usize..3,
    )
        .prop_map(move |(row, k, down, (first, at), wher, more)| {
            let first = first % (n - k + 1);
            let mut run: Vec<usize> = (first..first + k).collect();
            if down {
                run.reverse();
            }
            let mut rest: Vec<usize> = row.into_iter().filter(|b| !run.contains(b)).collect();
            let at = match wher {
                0 => 0,
                1 => rest.len(),
                _ => at % (rest.len() + 1),
            };
            rest.splice(at..at, run);
            Case {
                row: rest,
                len: (k + more).saturating_sub(1),
            }
        });
    prop_oneof![
        4 => planted,
        1 => (gen::perm(n), 0..n + 3).prop_map(|(row, len)| Case { row, len }),
        1 => (gen::perm(n), prop_oneof![Just(usize::MAX), Just(n + 1), any::<usize>().prop_map(move |x| x.max(n + 1))])
            .prop_map(|(row, len)| Case { row, len }),
    ]
    .boxed()
}

/// Runs of almost every bell of very many
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Giant {
    n: usize,
    short: usize,
    down: bool,
    more: usize,
}

fn check_giant(c: &Giant, obs: &mut Obs) -> Result<(), String> {
    // All but `short` of the bells in a run, with the others either side
    let n = c.n;
    let mut run: Vec<usize> = (c.short..n).collect();
    if c.down {
        run.reverse();
    }
    let at = c.more % (c.short + 1);
    let mut row: Vec<usize> = (0..at).rev().collect();
    row.extend(run);
    row.extend((at..c.short).rev());
    let len = n - c.short + (c.more % 3);
    let sets = sets(n, len.saturating_sub(1));
    judge(&row, len.saturating_sub(1), &sets, obs)?;
    obs.nontrivial();
    Ok(())
}

/// A short run of some of very many bells
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Wide {
    n: usize,
    first: usize,
    len: usize,
    /// The length asked for is this much more than one less than the run's
    more: usize,
    down: bool,
    place: u8,
    step: usize,
}

fn check_wide(c: &Wide, obs: &mut Obs) -> Result<(), String> {
    let first = c.first % (c.n - c.len + 1);
    let mut run: Vec<usize> = (first..first + c.len).collect();
    if c.down {
        run.reverse();
    }
    // The others, in several goes, so that there are no other runs (to speak of)
    let step = c.step;
    let mut row: Vec<usize> = (0..step)
        .flat_map(|k| (k..c.n).step_by(step))
        .filter(|b| !run.contains(b))
        .collect();
    let at = match c.place {
        0 => 0,
        1 => row.len(),
        p => p as usize * 7 % (row.len() + 1),
    };
    row.splice(at..at, run);
    let len = (c.len + c.more).saturating_sub(1);
    let sets = sets(c.n, len);
    judge(&row, len, &sets, obs)?;
    obs.nontrivial_if(c.len >= 3);
    Ok(())
}

fn wide() -> BoxedStrategy<Wide> {
    (
        prop_oneof![1 => 30usize..100, 3 => 254usize..=300, 1 => 300usize..700],
        prop_oneof![1 => any::<usize>(), 2 => 250usize..260, 1 => Just(0)],
        1usize..9,
        (
            0usize..3,
            any::<bool>(),
            prop_oneof![1 => Just(0u8), 1 => Just(1), 1 => any::<u8>()],
        ),
        3usize..8,
        any::<bool>(),
    )
        .prop_map(|(n, first, len, (more, down, place), step, last)| Wide {
            n,
            first: if last { n - len } else { first },
            len,
            more,
            down,
            place,
            step,
        })
        .boxed()
}

fn main() {
    vcore::main(Property {
        id: "C21",
        assumptions: vec![],
        facets: vec![
            Facet::enumerated(
                "every-row",
                "a length from three to the stage, against every row of the stage",
                |t| {
                    let max = if t == Tier::Quick { 7 } else { 9 };
                    Box::new((1..=max).flat_map(|n| (0..n + 3).map(move |l| (n, l))))
                },
                check_stage,
            ),
            Facet::random(
                "giants",
                64,
                1_500,
                "always",
                |_| {
                    (prop_oneof![2 => 254usize..=260, 1 => 300usize..1000, 2 => 65_534usize..65_541], 0usize..4, any::<bool>(), 0usize..60)
                        .prop_map(|(n, short, down, more)| Giant { n, short, down, more })
                },
                check_giant,
            ),
            Facet::random(
                "wide",
                300,
                10_000,
                "a run of three or more",
                |_| wide(),
                check_wide,
            ),
            Facet::random(
                "rows-with-runs",
                120_000,
                2_000_000,
                "a length from three to the stage",
                |_| gen::stage().prop_flat_map(case).boxed(),
                check,
            ),
        ],
    });
}
