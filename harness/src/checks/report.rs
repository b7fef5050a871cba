//! C24 (parsing is a pure function) and C25 (error reports).

use super::*;
use crate::fw::{Check, Ctx, V};
use crate::gen::{self, Gen, Opts};
use crate::refp;
use crate::rng::Rng;
use crate::soup;
use sgmlish::parser::{MarkedSectionHandling, NameNormalization, ParserBuilder};
use std::cell::{Cell, RefCell};
use std::fmt;
use std::rc::Rc;

pub static CHECKS: &[&Check] = &[&C24, &C25];

const TRUST: &[&str] = &["the comparison code of the harness", "the standard library's string functions"];

// ---------------------------------------------------------------------------------------------
// C24

pub static C24: Check = Check {
    id: "C24",
    rule: "a history of 2-12 parse calls over 1-5 generated inputs (accepted and rejected ones) on one parser, in random order with repeats and through every entry point, each compared with a fresh parser; builders with the setters in random order and set repeatedly; five error types; recorded lookups; threads parsing the same inputs at once. Non-trivial = distinct (inputs, configuration).",
    case: c24,
    quick: 350_000,
    thorough: 2_500_000,
    probes: &[("large", super::big::p24), ("threads", p24_threads), ("rendezvous", super::mix::rendezvous)],
    need: &["interleaved", "reused_after_error", "reused_after_success", "error_types_accepted", "error_types_rejected", "lookups", "shortcuts", "setter_orders", "default_config"],
    assumptions: TRUST,
};

type Log = Rc<RefCell<Vec<(bool, String)>>>;

/// What one parse shows: events or report, and the lookups it made.
#[derive(Clone, Debug, PartialEq)]
struct Seen {
    result: Result<Vec<Ev>, String>,
    asked: Vec<(bool, String)>,
}

thread_local! {
    /// The lookup, counted from 1, that unwinds.
    static FAIL_AT: Cell<usize> = const { Cell::new(0) };
}

struct Unwound;

fn trip() {
    let k = FAIL_AT.with(|f| f.replace(f.get().saturating_sub(1)));
    if k == 1 {
        std::panic::resume_unwind(Box::new(Unwound));
    }
}

/// A parse left by unwinding from its k-th lookup.
fn unwound(p: &Parser, s: &str, k: usize) -> bool {
    FAIL_AT.with(|f| f.set(k));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.parse(s).is_ok()));
    FAIL_AT.with(|f| f.set(0));
    match r {
        Ok(_) => false,
        Err(e) if e.is::<Unwound>() => true,
        Err(e) => std::panic::resume_unwind(e),
    }
}

fn logged(cfg: &Cfg, mut b: ParserBuilder, log: &Log) -> ParserBuilder {
    if let Some(t) = cfg.ents.clone() {
        let l = log.clone();
        b = b.expand_entities(move |n| {
            l.borrow_mut().push((false, n.to_string()));
            trip();
            t.get(n).cloned()
        });
    }
    if let Some(t) = cfg.pents.clone() {
        let l = log.clone();
        b = b.expand_parameter_entities(move |n| {
            l.borrow_mut().push((true, n.to_string()));
            trip();
            t.get(n).cloned()
        });
    }
    b
}

/// The same configuration, set in another order, with settings overwritten and shortcuts used.
fn shuffled(cfg: &Cfg, r: &mut Rng, log: &Log) -> ParserBuilder {
    let mut b = match r.below(3) {
        0 => ParserBuilder::new(),
        1 => Parser::builder(),
        _ => ParserBuilder::default(),
    };
    // Noise that later settings overwrite
    for _ in 0..r.below(4) {
        b = match r.below(8) {
            0 => b.trim_whitespace(r.bool()),
            1 => b.lowercase_names(),
            2 => b.uppercase_names(),
            3 => b.expand_marked_sections(),
            4 => b.ignore_markup_declarations(r.bool()),
            5 => b.ignore_processing_instructions(r.bool()),
            6 if cfg.ents.is_some() => b.expand_entities(|_| Some("WRONG")),
            7 if cfg.pents.is_some() => b.expand_parameter_entities(|_| Some("WRONG")),
            _ => b.marked_section_handling(MarkedSectionHandling::KeepUnmodified),
        };
    }
    let mut order = [0, 1, 2, 3, 4, 5, 6];
    for i in (1..order.len()).rev() {
        order.swap(i, r.below(i + 1));
    }
    for o in order {
        b = match o {
            0 => b.trim_whitespace(cfg.trim),
            1 => match (cfg.norm, r.bool()) {
                (Norm::Lower, true) => b.lowercase_names(),
                (Norm::Upper, true) => b.uppercase_names(),
                (Norm::Lower, _) => b.name_normalization(NameNormalization::ToLowercase),
                (Norm::Upper, _) => b.name_normalization(NameNormalization::ToUppercase),
                (Norm::Same, true) => b.name_normalization(NameNormalization::default()),
                (Norm::Same, _) => b.name_normalization(NameNormalization::Unchanged),
            },
            2 => match (cfg.ms, r.bool()) {
                (Ms::Expand, true) => b.expand_marked_sections(),
                (Ms::Accept, true) => b.marked_section_handling(MarkedSectionHandling::default()),
                _ => b.marked_section_handling(cfg.ms()),
            },
            3 => b.ignore_markup_declarations(cfg.ign_decl),
            4 => b.ignore_processing_instructions(cfg.ign_pi),
            5 => logged(&Cfg { pents: None, ..cfg.clone() }, b, log),
            _ => logged(&Cfg { ents: None, ..cfg.clone() }, b, log),
        };
    }
    b
}

fn take(log: &Log) -> Vec<(bool, String)> {
    std::mem::take(&mut *log.borrow_mut())
}

/// Parses through one of the entry points that promise the same report.
fn through(r: &mut Rng, p: &Parser, s: &str, log: &Log) -> Seen {
    log.borrow_mut().clear();
    let result = if r.bool() {
        real(p, s)
    } else {
        real_detailed(p, s).map_err(|e| sgmlish::Error::ParseError(e.describe(&s)).to_string())
    };
    Seen { result, asked: take(log) }
}

fn verdicts(p: &Parser, s: &str, log: &Log) -> Vec<(&'static str, Option<Vec<Ev>>, Vec<(bool, String)>)> {
    log.borrow_mut().clear();
    let mut v = vec![];
    let r = p.parse_with_detailed_errors::<()>(s).ok().map(|f| convs(&f));
    v.push(("()", r, take(log)));
    let r = p.parse_with_detailed_errors::<nom::error::Error<&str>>(s).ok().map(|f| convs(&f));
    v.push(("nom::error::Error", r, take(log)));
    let r = p.parse_with_detailed_errors::<nom::error::VerboseError<&str>>(s).ok().map(|f| convs(&f));
    v.push(("VerboseError", r, take(log)));
    let r = p.parse_with_detailed_errors::<(&str, nom::error::ErrorKind)>(s).ok().map(|f| convs(&f));
    v.push(("tuple", r, take(log)));
    let r = p.parse_with_detailed_errors::<ContextualizedError<&str>>(s).ok().map(|f| convs(&f));
    v.push(("ContextualizedError", r, take(log)));
    v
}

fn c24(ctx: &mut Ctx) -> V {
    if ctx.r.chance(1, 10) {
        // Among others
        ctx.count("interleaved");
        return super::mix::world(ctx, true);
    }
    let size = if ctx.thorough { 80 } else { 40 };
    let k = ctx.r.range(1, 5);
    let mut inputs = vec![];
    let mut table = Table::new();
    let mut ptable = Table::new();
    for _ in 0..k {
        let (s, t, p) = soup::any_input(&mut ctx.r, size);
        inputs.push(s);
        table.extend(t);
        ptable.extend(p);
    }
    // Inputs that share a prefix or are fragments of each other
    if ctx.r.chance(1, 3) {
        let s = inputs[0].clone();
        let cuts: Vec<usize> = s.char_indices().map(|x| x.0).collect();
        if !cuts.is_empty() {
            inputs.push(s[..*ctx.r.pick(&cuts)].to_string());
        }
    }
    let default = ctx.r.chance(1, 8);
    let cfg = if default { Cfg::default() } else { gen::random_cfg(&mut ctx.r, &table, &ptable) };
    ctx.input = format!("{:?} with {}", inputs, cfg.brief());
    let log: Log = Default::default();
    let fresh = |s: &str| {
        let p = logged(&cfg, Cfg { ents: None, pents: None, ..cfg.clone() }.builder(), &log).build();
        log.borrow_mut().clear();
        let result = real(&p, s);
        Seen { result, asked: take(&log) }
    };
    let base: Vec<Seen> = inputs.iter().map(|s| fresh(s)).collect();
    ctx.add("lookups", base.iter().map(|b| b.asked.len() as u64).sum());

    // A history on one parser
    let p = if default && ctx.r.bool() {
        Parser::new()
    } else {
        shuffled(&cfg, &mut ctx.r, &log).build()
    };
    ctx.count("setter_orders");
    let n = if ctx.r.chance(1, 200) { crate::gen::magnitude(&mut ctx.r, 600) } else { ctx.r.range(2, 12) };
    ctx.max("longest_history", n as u64);
    let mut history = vec![];
    for _ in 0..n {
        let i = ctx.r.below(inputs.len());
        if !base[i].asked.is_empty() && ctx.r.chance(1, 4) {
            // A lookup that does not return
            let k = ctx.r.range(1, base[i].asked.len());
            if unwound(&p, &inputs[i], k) {
                ctx.count("unwound_from_lookup");
            }
            history.push((i, "unwound"));
            continue;
        }
        if ctx.r.chance(1, 4) {
            // A call with another error type, whose result matters only for the later ones
            let _ = p.parse_with_detailed_errors::<()>(&inputs[i]).is_ok();
            history.push((i, "unit"));
            continue;
        }
        let seen = through(&mut ctx.r, &p, &inputs[i], &log);
        if let Some((j, _)) = history.last() {
            ctx.count(match base[*j].result {
                _ if history.last().unwrap().1 == "unwound" => "reused_after_unwinding",
                Ok(_) => "reused_after_success",
                Err(_) => "reused_after_error",
            });
        }
        history.push((i, "parse"));
        if seen != base[i] {
            return Err(format!(
                "call {} of the history {:?} on one parser gave {}\na fresh parser gives {}",
                history.len(),
                &history[history.len().saturating_sub(20)..],
                crate::model::short(&format!("{:?}", seen), 1500),
                crate::model::short(&format!("{:?}", base[i]), 1500)
            ));
        }
        ctx.judged(Some(format!("{:?}{}", inputs[i], cfg.brief()).as_bytes()));
    }

    // Once-only entry points
    for (s, b) in inputs.iter().zip(&base) {
        let bu = shuffled(&cfg, &mut ctx.r, &log);
        log.borrow_mut().clear();
        let result = bu.parse(s).map(|f| convs(&f)).map_err(|e| e.to_string());
        let seen = Seen { result, asked: take(&log) };
        if &seen != b {
            return Err(format!("ParserBuilder::parse({:?}) gave {:?}, Parser::parse {:?}", s, seen, b));
        }
        ctx.count("shortcuts");
        if default {
            ctx.count("default_config");
            for (what, r) in [
                ("sgmlish::parse", sgmlish::parse(s)),
                ("parser::parse", sgmlish::parser::parse(s)),
                ("Parser::new", Parser::new().parse(s)),
                ("Parser::default", Parser::default().parse(s)),
                ("Parser::builder", Parser::builder().parse(s)),
                ("ParserBuilder::default", ParserBuilder::default().build().parse(s)),
            ] {
                let r = r.map(|f| convs(&f)).map_err(|e| e.to_string());
                if r != b.result {
                    return Err(format!("{}({:?}) gave {:?}, the default parser {:?}", what, s, r, b.result));
                }
            }
        }
    }

    // Error types
    for (s, b) in inputs.iter().zip(&base) {
        for (what, r, asked) in verdicts(&p, s, &log) {
            ctx.count(if r.is_some() { "error_types_accepted" } else { "error_types_rejected" });
            if r.as_ref() != b.result.as_ref().ok() {
                return Err(format!(
                    "with error type {} {:?} gave {:?}, Parser::parse {:?}",
                    what,
                    s,
                    r,
                    b.result
                ));
            }
            if asked != b.asked {
                return Err(format!("with error type {} {:?} asked {:?}, Parser::parse {:?}", what, s, asked, b.asked));
            }
        }
    }

    // into_config carries every setting
    let c = shuffled(&cfg, &mut ctx.r, &log).into_config();
    if c.trim_whitespace != cfg.trim
        || c.name_normalization != cfg.norm()
        || c.marked_section_handling != cfg.ms()
        || c.ignore_markup_declarations != cfg.ign_decl
        || c.ignore_processing_instructions != cfg.ign_pi
    {
        return Err(format!("into_config gave {:?} for {}", c, cfg.brief()));
    }
    let d = sgmlish::parser::ParserConfig::default();
    if !(d.trim_whitespace
        && d.name_normalization == NameNormalization::Unchanged
        && d.marked_section_handling == MarkedSectionHandling::AcceptOnlyCharacterData
        && !d.ignore_markup_declarations
        && !d.ignore_processing_instructions)
    {
        return Err(format!("the default configuration is {:?}", d));
    }
    Ok(())
}

/// The same inputs parsed at once on many threads, against one thread alone.
fn p24_threads() -> V {
    let mut r = Rng::new(crate::rng::mix(&[24, 24]));
    let cases: Vec<(String, Cfg)> = (0..800)
        .map(|_| {
            let (s, t, p) = soup::any_input(&mut r, 40);
            let c = gen::random_cfg(&mut r, &t, &p);
            (s, c)
        })
        .collect();
    let want: Vec<_> = cases.iter().map(|(s, c)| real(&c.parser(), s)).collect();
    let cases = &cases;
    let want = &want;
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..8u64)
            .map(|t| {
                sc.spawn(move || {
                    let mut r = Rng::new(crate::rng::mix(&[24, t]));
                    for _ in 0..3000 {
                        let i = r.below(cases.len());
                        let got = real(&cases[i].1.parser(), &cases[i].0);
                        if got != want[i] {
                            return Err(format!(
                                "{:?} with {} on thread {} gave {:?}, alone {:?}",
                                cases[i].0,
                                cases[i].1.brief(),
                                t,
                                got,
                                want[i]
                            ));
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a parsing thread panicked".into()))).collect()
    })
}

// ---------------------------------------------------------------------------------------------
// C25

pub static C25: Check = Check {
    id: "C25",
    rule: "rejected inputs (soup, mutated, cut and stretched documents over many lines, with multi-byte text and CR LF) and handmade errors at every kind of position; the report is parsed back into header, echoed lines, carets and context blocks and checked against the input, and against the construct an independent recogniser stops at. Non-trivial = distinct (input, position).",
    case: c25,
    quick: 700_000,
    thorough: 9_000_000,
    probes: &[("large", p25_large), ("columns", p25_columns)],
    need: &["reports", "shortened_left", "shortened_right", "shown_in_full", "multibyte_lines", "context_blocks", "same_line_contexts", "expected_char", "construct_line", "undefined_entity", "handmade", "writer_failures", "at_end"],
    assumptions: &["the reference recogniser refp.rs for where the offending construct starts", "a long line is shortened to under 200 characters, a line of up to 30 characters is shown whole"],
};

fn off(input: &str, part: &str) -> Option<usize> {
    let a = (part.as_ptr() as usize).checked_sub(input.as_ptr() as usize)?;
    // The reported position is the remaining input, or a part of it
    if a + part.len() > input.len() {
        return None;
    }
    Some(a)
}

struct Loc<'a> {
    /// 1-based
    number: usize,
    line: &'a str,
    /// 0-based, in characters
    col: usize,
}

fn loc(input: &str, at: usize) -> Loc<'_> {
    let before = &input[..at];
    let start = before.rfind('\n').map_or(0, |i| i + 1);
    let rest = &input[start..];
    let line = match rest.find('\n') {
        Some(i) => rest[..i].strip_suffix('\r').unwrap_or(&rest[..i]),
        None => rest,
    };
    Loc {
        number: before.matches('\n').count() + 1,
        line,
        col: input[start..at].chars().count(),
    }
}

/// Checks one echoed line and its caret line against the location.
fn echoed(ctx: &mut Ctx, l: &Loc, shown: &str, caret: &str) -> V {
    let bad = |m: String| Err(format!("{} (line {:?} column {}, shown {:?}, caret {:?})", m, l.line, l.col + 1, shown, caret));
    let k = match caret.strip_suffix('^') {
        Some(sp) if sp.chars().all(|c| c == ' ') => sp.chars().count(),
        _ => return bad("the caret line is not a caret".into()),
    };
    let chars: Vec<char> = l.line.chars().collect();
    let sh: Vec<char> = shown.chars().collect();
    if shown == l.line && k == l.col {
        ctx.count("shown_in_full");
        if !l.line.is_ascii() {
            ctx.count("multibyte_lines");
        }
        if chars.len() > 200 {
            return bad("a very long line is echoed whole".into());
        }
        return Ok(());
    }
    if chars.len() <= 30 {
        return bad("a short line is not echoed whole with the caret under its column".into());
    }
    // A part of the line, with dots where it was cut
    let dots = ['.', '.', '.'];
    for left in [true, false] {
        for right in [true, false] {
            if !left && !right {
                continue;
            }
            let mut seg = &sh[..];
            if left {
                if !seg.starts_with(&dots) {
                    continue;
                }
                seg = &seg[3..];
            }
            if right {
                if seg.len() < 3 || !seg.ends_with(&dots) {
                    continue;
                }
                seg = &seg[..seg.len() - 3];
            }
            let lead = if left { 3 } else { 0 };
            // The caret stands under the reported character, which is shown (or right after the end)
            if k < lead || (k >= lead + seg.len() && (right || l.col < chars.len())) {
                continue;
            }
            let a = match l.col.checked_sub(k - lead) {
                Some(a) => a,
                None => continue,
            };
            if (a > 0) != left || a + seg.len() > chars.len() || (a + seg.len() < chars.len()) != right {
                continue;
            }
            if &chars[a..a + seg.len()] != seg {
                continue;
            }
            if sh.len() > 200 {
                return bad("the shortened line is still very long".into());
            }
            if left {
                ctx.count("shortened_left");
            }
            if right {
                ctx.count("shortened_right");
            }
            if !l.line.is_ascii() {
                ctx.count("multibyte_lines");
            }
            return Ok(());
        }
    }
    bad("the echoed line or its caret does not match the reported position".into())
}

/// Checks a whole report. Returns the line numbers it leads to.
fn report(ctx: &mut Ctx, input: &str, e: &ContextualizedError<&str>, text: &str) -> Result<Vec<usize>, String> {
    if input.is_empty() {
        // No line to point at
        return if text.is_empty() { Err("the report on an empty input is empty".into()) } else { Ok(vec![]) };
    }
    let at = off(input, e.input).ok_or_else(|| format!("the reported position {:?} is outside the input", e.input))?;
    let mut cs = vec![];
    for (s, name) in &e.context {
        cs.push((off(input, s).ok_or_else(|| format!("the context {:?} is outside the input", name))?, *name));
    }
    let l = loc(input, at);
    // Messages may hold line breaks of their own
    let own: String = e.error.as_ref().map(|e| e.to_string()).unwrap_or_default();
    let mut rest = text;
    let head_lines = 1 + own.matches('\n').count();
    let mut head = String::new();
    for i in 0..head_lines {
        let n = rest.find('\n').ok_or("the report has no echoed line")?;
        if i > 0 {
            head.push('\n');
        }
        head.push_str(&rest[..n]);
        rest = &rest[n + 1..];
    }
    let marker = format!("at line {}:", l.number);
    if !head.contains(&marker) {
        return Err(format!("the header {:?} does not say line {}", head, l.number));
    }
    if !own.is_empty() && !head.contains(&own) {
        return Err(format!("the header {:?} does not carry the error {:?}", head, own));
    }
    if let Some(c) = e.char {
        ctx.count("expected_char");
        let got = match input[at..].chars().next() {
            Some(' ' | '\t') => "whitespace".to_string(),
            Some('\r' | '\n') => "end of line".to_string(),
            Some(c) => format!("'{}'", c.escape_default()),
            None => "end of input".to_string(),
        };
        // The position holds the remaining input, so that is the character that was found
        if e.input.len() == input.len() - at {
            let want = format!("expected '{}', got {}", c, got);
            if !head.ends_with(&want) {
                return Err(format!("the header {:?} does not end in {:?}", head, want));
            }
        }
    }
    // A context name in the header is the innermost one, at the same place
    let after = head.strip_prefix("parse error ").ok_or_else(|| format!("the header is {:?}", head))?;
    if let Some(r) = after.strip_prefix("in ") {
        let name = &r[..r.find(", at line ").ok_or("the header has no line")?];
        if !cs.iter().any(|c| c.1 == name && c.0 == at || c.1 == name && same(input, c.0, at)) {
            return Err(format!("the header names context {:?}, which is not at the reported position {:?}", name, cs));
        }
    }
    let two = |rest: &mut &str| -> Result<(String, String), String> {
        let mut v = vec![];
        for _ in 0..2 {
            let n = rest.find('\n').ok_or("the report ends early")?;
            v.push(rest[..n].to_string());
            *rest = &rest[n + 1..];
        }
        let b = v.pop().unwrap();
        Ok((v.pop().unwrap(), b))
    };
    let (shown, caret) = two(&mut rest)?;
    echoed(ctx, &l, &shown, &caret)?;
    let mut lines = vec![l.number];
    let mut last = (l.number, at);
    // Each further context once per place, in order
    for (o, name) in cs {
        let cl = loc(input, o);
        if (o == last.1) || same(input, o, last.1) {
            continue;
        }
        if cl.number == last.0 {
            ctx.count("same_line_contexts");
        }
        let want = format!(
            "From {}, started at {}line {}:",
            name,
            if cl.number == last.0 { "the same " } else { "" },
            cl.number
        );
        let n = rest.find('\n').ok_or_else(|| format!("the report lacks {:?}", want))?;
        if rest[..n] != want {
            return Err(format!("the report has {:?} where {:?} belongs", &rest[..n], want));
        }
        rest = &rest[n + 1..];
        let (shown, caret) = two(&mut rest)?;
        echoed(ctx, &cl, &shown, &caret)?;
        ctx.count("context_blocks");
        lines.push(cl.number);
        last = (cl.number, o);
    }
    if !rest.trim().is_empty() {
        return Err(format!("the report goes on with {:?}", rest));
    }
    Ok(lines)
}

/// Positions that no reader of the report can tell apart.
fn same(input: &str, a: usize, b: usize) -> bool {
    let (x, y) = (loc(input, a), loc(input, b));
    x.number == y.number && x.col == y.col
}

struct Failing {
    left: usize,
    wrote: String,
}
impl fmt::Write for Failing {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.left == 0 {
            return Err(fmt::Error);
        }
        self.left -= 1;
        self.wrote.push_str(s);
        Ok(())
    }
}

fn writers(ctx: &mut Ctx, input: &str, e: &ContextualizedError<&str>) -> Result<String, String> {
    let text = e.describe(&input);
    let mut w = String::new();
    if e.describe_to(&input, &mut w).is_err() || w != text {
        return Err(format!("describe_to wrote {:?}, describe gives {:?}", w, text));
    }
    if ctx.r.chance(1, 6) {
        let mut f = Failing { left: ctx.r.below(12), wrote: String::new() };
        let ok = e.describe_to(&input, &mut f).is_ok();
        ctx.count("writer_failures");
        if !text.starts_with(&f.wrote) || (ok && f.wrote != text) {
            return Err(format!("a failing writer got {:?} of {:?} (reported {})", f.wrote, text, ok));
        }
    }
    Ok(text)
}

/// A document over many lines, sometimes broken at one place.
fn lined(ctx: &mut Ctx) -> (String, Table, Table) {
    let size = if ctx.thorough { 120 } else { 50 };
    let (mut s, t, p) = match ctx.r.below(6) {
        0 | 1 => soup::any_input(&mut ctx.r, size),
        _ => {
            let (s, t, p) = {
                let mut g = Gen::new(&mut ctx.r, Opts { size: 5, depth: 3, ..Opts::default() });
                let d = g.doc();
                let (t, p) = (g.table.clone(), g.ptable.clone());
                let (s, _) = d.render(g.r);
                (s, t, p)
            };
            let s = match ctx.r.below(5) {
                0 => soup::mutate(&mut ctx.r, &s),
                1 => {
                    let cuts: Vec<usize> = s.char_indices().map(|x| x.0).collect();
                    if cuts.is_empty() { s } else { s[..*ctx.r.pick(&cuts)].to_string() }
                }
                _ => {
                    // An opening that stays open, or an undefined entity, anywhere
                    let cuts: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
                    let at = *ctx.r.pick(&cuts);
                    let t = ctx.r.pick_str(&[
                        "<a", "<a ", "<a b", "<a b=", "<a b='", "<a b=\"x", "<a b='&nope;'>", "</a", "</a ", "<!--", "<!-- x --", "<!-- x -- y -->", "<?x", "<![",
                        "<![CDATA", "<![CDATA[", "<![RCDATA[&nope;]]>", "<![ IGNORE [", "<![INCLUDE[", "<![INCLUDE[<b>", "<![FOO[", "<![%nope;[", "<!x", "<!x '", "<!x [", "<!x [<!y>",
                        "&nope;", "x &nope; y", "&#xD800;", "&#1114112;", "&É.1;", "<a b='\n&nope;'", "<a\nb\n=\n'", "<![CDATA[\n", "<![ %p; %nope; [", "\n<a\n", "<x y=z '>", "<>", "<//>",
                    ]);
                    format!("{}{}{}", &s[..at], t, &s[at..])
                }
            };
            (s, t, p)
        }
    };
    // Line structure: breaks at places that keep the constructs, or anywhere
    for _ in 0..ctx.r.below(4) {
        let at: Vec<usize> = s.char_indices().filter(|x| x.1 == ' ').map(|x| x.0).collect();
        if !at.is_empty() {
            let at = *ctx.r.pick(&at);
            s.replace_range(at..at + 1, ctx.r.pick_str(&["\n", "\r\n", "\n\n", "\t", "\r", "\r\r\n"]));
        }
    }
    if ctx.r.chance(1, 5) {
        s = soup::stretch(&mut ctx.r, &s);
    }
    if ctx.r.chance(1, 6) {
        s = format!("{}{}", ctx.r.pick_str(&["\n", "\r\n", "\n \n", "<a>\n\n", "é\n"]), s);
    }
    (s, t, p)
}

fn c25(ctx: &mut Ctx) -> V {
    let (s, t, p) = lined(ctx);
    let cfg = gen::random_cfg(&mut ctx.r, &t, &p);
    ctx.input = format!("{:?} with {}", s, cfg.brief());
    let parser = cfg.parser();
    if let Err(e) = parser.parse_with_detailed_errors::<ContextualizedError<&str>>(&s) {
        ctx.count("reports");
        let text = writers(ctx, &s, &e)?;
        match parser.parse(&s) {
            Err(sgmlish::Error::ParseError(m)) if m == text => {}
            other => return Err(format!("Parser::parse gave {:?}, the detailed report is {:?}", other.map(|f| convs(&f)), text)),
        }
        if e.input.is_empty() {
            ctx.count("at_end");
        }
        let lines = report(ctx, &s, &e, &text).map_err(|m| format!("{}\nreport: {:?}", m, text))?;
        let at = off(&s, e.input).unwrap_or(0);
        ctx.judged(Some(format!("{}{:?}", at, s).as_bytes()));
        leads(ctx, &s, &cfg, &e, &lines).map_err(|m| format!("{}\nreport: {:?}", m, text))?;
    }
    // Handmade errors
    if !s.is_empty() {
        let cuts: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
        let at = *ctx.r.pick(&cuts);
        let end = if ctx.r.chance(4, 5) { s.len() } else { *ctx.r.pick(&cuts) };
        let mut pos = vec![at];
        let k = ctx.r.below(4);
        let mut context = vec![];
        for _ in 0..k {
            let o = match ctx.r.below(3) {
                0 => *ctx.r.pick(&pos),
                _ => *ctx.r.pick(&cuts),
            };
            pos.push(o);
            context.push((&s[o..], ctx.r.pick_str(&["one", "start tag", "a \"quoted\" name"])));
        }
        let context: Vec<(&str, &'static str)> = context
            .into_iter()
            .map(|(a, b)| (a, match b { "one" => "one", "start tag" => "start tag", _ => "a \"quoted\" name" }))
            .collect();
        let e = ContextualizedError {
            input: &s[at..end.max(at)],
            char: if ctx.r.bool() { Some(*ctx.r.pick(&['>', ']', '\'', 'é'])) } else { None },
            error: match ctx.r.below(4) {
                0 => Some(sgmlish::Error::ParseError("boom\nsecond line".into())),
                1 => Some(sgmlish::Error::InvalidMarkedSectionKeyword("what".into())),
                _ => None,
            },
            context,
        };
        ctx.input = format!("handmade error at byte {} ({:?}) of {:?}", at, pos, s);
        let text = writers(ctx, &s, &e)?;
        report(ctx, &s, &e, &text).map_err(|m| format!("{}\nreport: {:?}", m, text))?;
        ctx.count("handmade");
        ctx.judged(Some(format!("{:?}{:?}", pos, s).as_bytes()));
    }
    Ok(())
}

/// The report leads to the line where the offending construct starts.
fn leads(ctx: &mut Ctx, s: &str, cfg: &Cfg, e: &ContextualizedError<&str>, lines: &[usize]) -> V {
    let (at, what, within) = match refp::fault(s, cfg) {
        Some(f) => f,
        None => return Ok(()),
    };
    let l = loc(s, at);
    match what {
        "entity" | "parameter entity" => {
            ctx.count("undefined_entity");
            let param = what == "parameter entity";
            let name = undefined_name(&s[at..], param);
            let said = e.error.as_ref().map(|e| e.to_string()).unwrap_or_default();
            if !said.contains(&name) {
                return Err(format!("the undefined entity {:?} is not named", name));
            }
            let pos = off(s, e.input).unwrap_or(usize::MAX);
            if pos != at {
                return Err(format!("the undefined entity at byte {} is reported at byte {}", at, pos));
            }
        }
        "empty content" => return Ok(()),
        _ => {
            // Inside a declaration, the declaration is the broken construct
            if lines.contains(&l.number) || within.map_or(false, |d| lines.contains(&loc(s, d).number)) {
                ctx.count("construct_line");
            } else {
                ctx.count("NOT_construct_line");
                if std::env::var("MON_SHOW").is_ok() {
                    eprintln!("{} at byte {} line {} not in {:?}: {:?} -> {:?}", what, at, l.number, lines, s, e);
                }
                return Err(format!("the report leads to lines {:?}, the broken {} starts on line {}", lines, what, l.number));
            }
        }
    }
    Ok(())
}

fn undefined_name(s: &str, param: bool) -> String {
    match refp::expand(s, param, &mut |_| None) {
        Err((name, r)) if r.start == 0 => name,
        _ => String::new(),
    }
}

/// Every column of lines of many lengths, in one- to four-byte characters.
/// Reports far from the start, by lines and by columns.
fn p25_large() -> V {
    super::big::sized(|n| {
        let mut ctx = Ctx::new(25, false);
        let long = super::big::ruler(n);
        for lines in ["\n".repeat(n), "\r\n".repeat(n), "x\n".repeat(n), "é\n\n".repeat(n / 2), format!("<b c='{}'>\n", long), long.clone(), format!("{}\n", long), "漢".repeat(n)] {
            for fault in ["<b", "<b c='x", "<!-- x", "&nope;", "x &nope; y\nz", "<?x", "<![CDATA[x", "<![X[y]]>", "<b c='&nope;'>", "</b", "<![INCLUDE[ x"] {
                for after in ["", "\n\nx\n", &long] {
                    let s = format!("<a>{}{}{}", lines, fault, after);
                    for cfg in [Cfg { ents: Some(Table::new()), ms: Ms::Expand, ..Cfg::default() }, Cfg { ents: Some(Table::new()), trim: false, ..Cfg::default() }] {
                        let r = match cfg.parser().parse_with_detailed_errors::<ContextualizedError<&str>>(&s) {
                            Err(e) => {
                                let text = e.describe(&&s[..]);
                                let at = report(&mut ctx, &s, &e, &text).map_err(|m| format!("{}\nreport: {:?}", m, short(&text, 600)));
                                at.and_then(|lines| leads(&mut ctx, &s, &cfg, &e, &lines).map_err(|m| format!("{}\nreport: {:?}", m, short(&text, 600))))
                            }
                            Ok(_) => Ok(()),
                        };
                        r.map_err(|m| format!("{:?} after {:?}: {}", fault, short(&lines, 20), m))?;
                    }
                }
            }
        }
        Ok(())
    })
}

fn p25_columns() -> V {
    let mut ctx = Ctx::new(25, false);
    for c in ["a", "é", "漢", "🦀", "aé漢🦀"] {
        for n in (0..140).chain([160, 200, 300, 1000]) {
            let line: String = c.chars().cycle().take(n).enumerate().map(|(i, c)| if i % 7 == 3 && c == 'a' { (b'b' + (i / 7 % 24) as u8) as char } else { c }).collect();
            for (pre, post) in [("", ""), ("x\n", "\ny"), ("\r\n", "\r\n"), ("", "\r")] {
                let s = format!("{}{}{}", pre, line, post);
                if s.is_empty() {
                    continue;
                }
                let cuts: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
                for &at in cuts.iter().filter(|&&a| n < 300 || a % 13 < 4) {
                    let e = ContextualizedError { input: &s[at..], char: Some('>'), error: None, context: vec![(&s[pre.len()..], "line")] };
                    let text = e.describe(&&s[..]);
                    report(&mut ctx, &s, &e, &text).map_err(|m| format!("{}\nbyte {} of {:?}\nreport: {:?}", m, at, s, text))?;
                }
            }
        }
    }
    Ok(())
}
