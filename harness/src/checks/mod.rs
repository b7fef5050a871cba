pub mod big;
pub mod cause;
#[cfg(feature = "combinators")]
pub mod comb;
pub mod de;
pub mod frag;
pub mod mix;
pub mod open;
pub mod parse;
pub mod pipe;
pub mod report;

use crate::fw::Check;
use crate::model::*;
use sgmlish::parser::ContextualizedError;
use sgmlish::Parser;

pub fn all() -> Vec<&'static Check> {
    let mut v: Vec<&'static Check> = vec![];
    v.extend(parse::CHECKS);
    v.extend(frag::CHECKS);
    #[cfg(feature = "combinators")]
    v.extend(comb::CHECKS);
    v.extend(report::CHECKS);
    v.extend(de::CHECKS);
    v.extend(pipe::CHECKS);
    v.extend(cause::CHECKS);
    v.extend(mix::CHECKS);
    v.extend(open::CHECKS);
    v
}

pub fn find(id: &str) -> Option<&'static Check> {
    all().into_iter().find(|c| c.id == id)
}

/// Parses with the real parser; the error carries the described report.
pub fn real(p: &Parser, s: &str) -> Result<Vec<Ev>, String> {
    match p.parse(s) {
        Ok(f) => Ok(convs(&f)),
        Err(e) => Err(e.to_string()),
    }
}

pub fn real_detailed<'a>(p: &Parser, s: &'a str) -> Result<Vec<Ev>, ContextualizedError<&'a str>> {
    p.parse_with_detailed_errors::<ContextualizedError<&str>>(s).map(|f| convs(&f))
}

/// Merges adjacent text.
pub fn merge(evs: &[Ev]) -> Vec<Ev> {
    let mut v: Vec<Ev> = vec![];
    for e in evs {
        match (v.last_mut(), e) {
            (Some(Ev::Char(a)), Ev::Char(b)) => a.push_str(b),
            (_, e) => v.push(e.clone()),
        }
    }
    v.retain(|e| !matches!(e, Ev::Char(s) if s.is_empty()));
    v
}

pub fn no_chars(evs: &[Ev]) -> Vec<Ev> {
    evs.iter().filter(|e| !matches!(e, Ev::Char(_))).cloned().collect()
}

pub fn texts(evs: &[Ev]) -> String {
    evs.iter()
        .filter_map(|e| match e {
            Ev::Char(s) => Some(s.as_str()),
            _ => None,
        })
        .collect()
}

pub fn expect_eq(what: &str, want: &[Ev], got: &[Ev]) -> Result<(), String> {
    if want == got {
        Ok(())
    } else {
        Err(format!("{}: {}", what, diff(want, got)))
    }
}
