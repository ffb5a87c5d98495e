//! Property-testing driver shared by every check in /verif.
//!
//! Independent of the code under test: a check is a list of *facets*, each of which pairs a
//! generator of (serialisable) cases with an oracle.  The driver runs the facets on a fixed number
//! of shards with seeds derived from `VERIF_SEED`, shrinks the first failure, writes it as a replay
//! file, and records what was covered in `/verif/evidence/<id>.json`.

pub mod alloc;
pub mod gen;
mod journal;
mod run;

pub use run::{main, panics, quiet, Facet, Obs, Property, Tier, CHATTY};

/// Fails the current check (returns `Err`) when the condition is false.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err(format!($($arg)*));
        }
    };
}

/// Fails the current check when the two values differ.
#[macro_export]
macro_rules! ensure_eq {
    ($got:expr, $want:expr, $($arg:tt)*) => {
        match (&$got, &$want) {
            (got, want) => {
                if got != want {
                    return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)*), got, want));
                }
            }
        }
    };
}
