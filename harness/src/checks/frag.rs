//! C13–C16, C23: fragments, text escaping and transforms.

use super::*;
use crate::fw::{Check, Ctx, V};
use crate::gen::*;
use crate::refp;
use crate::rng::Rng;
use crate::soup;
use sgmlish::text;
use sgmlish::transforms::{normalize_end_tags, NormalizationError, Transform};
use sgmlish::{SgmlEvent, SgmlFragment};
use std::collections::{BTreeMap, HashMap};

pub const CHECKS: &[&Check] = &[&C13, &C14, &C15, &C16, &C23];

// ---------------------------------------------------------------------------------------------

pub static C13: Check = Check {
    id: "C13",
    rule: "fragments parsed from generated documents and soup, and event lists built directly with arbitrary text and attribute values; each is formatted, parsed again with the same section handling and compared. Non-trivial = distinct formatted text with at least 3 events that could be compared.",
    case: c13,
    quick: 1_500_000,
    thorough: 12_000_000,
    probes: &[("large", p13_large), ("all-chars", p13_all)],
    need: &["compared", "built", "kept_sections", "quote_both", "ampersand_value", "declarations", "instructions", "lookup_free"],
    assumptions: &[
        "fragments whose declarations follow content, that have no content, or whose (normalized) names are not SGML names are not compared: no document has those events",
    ],
};

/// What formatting and parsing preserves: adjacent text joined, white space before the content gone.
fn canon(evs: &[Ev]) -> Vec<Ev> {
    let mut v = merge(evs);
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            Ev::Decl(..) | Ev::Pi(_) | Ev::Sect(..) => i += 1,
            Ev::Char(s) => {
                let t = s.trim_start_matches(is_ws).to_string();
                if t.is_empty() {
                    v.remove(i);
                } else {
                    v[i] = Ev::Char(t);
                    break;
                }
            }
            _ => break,
        }
    }
    for e in &mut v {
        if let Ev::Sect(k, _) = e {
            *k = trim_ws(k).to_string();
        }
    }
    // Removing blank text may have made texts adjacent
    merge(&v)
}

fn has_form(evs: &[Ev]) -> bool {
    let mut content = false;
    let mut some = false;
    for e in evs {
        match e {
            Ev::Decl(..) if content => return false,
            Ev::Decl(..) | Ev::Pi(_) | Ev::Sect(..) => {}
            Ev::Char(s) => {
                if !s.is_empty() {
                    content = true;
                    some |= !s.chars().all(is_ws);
                }
            }
            Ev::Open(n) | Ev::End(n) => {
                content = true;
                some = true;
                if !n.is_empty() && !valid_name(n) {
                    return false;
                }
            }
            Ev::Attr(n, _) => {
                if !valid_name(n) {
                    return false;
                }
            }
            _ => {}
        }
    }
    some
}

fn any_text(r: &mut Rng) -> String {
    if let Some(w) = crate::dict::word(r) {
        return w.to_string();
    }
    match r.below(5) {
        0 => soup::random_text(r, 60),
        1 => soup::dense(r, 12),
        2 => r.pick_str(&["", " ", "x", "\"", "'", "\"'", "&", "&amp;", "&#65;", "&#38;\"'", "]]>", "<b>", "</a>", "<!-- x -->", "\n a \n", "a\"b'c&d<e>", "%p;", "\0"]).to_string(),
        3 => {
            let n = r.below(8);
            (0..n).map(|_| *r.pick(&['"', '\'', '&', '<', '>', 'a', '#', ';', ' ', '\n', 'é', '🦀', '3', '8', 'x'])).collect()
        }
        _ => soup::soup(r, 6),
    }
}

/// An event list some document has, with arbitrary text in it.
fn built(r: &mut Rng) -> Vec<Ev> {
    let mut names = ["a", "b", "é", "x-1.y_z:w", "HTML"];
    if let Some(n) = crate::dict::static_name(r) {
        names[0] = n;
    }
    let mut v = vec![];
    if r.chance(1, 3) {
        v.push(Ev::Pi(r.pick_str(&["<?x>", "<?>", "<?xml version='1.0'?>", "<?<!-- >"]).into()));
    }
    let n = if r.chance(1, 1000) { crate::gen::magnitude(r, 3000) } else { 1 + r.below(6) };
    for _ in 0..n {
        match r.below(5) {
            0 => v.push(Ev::Char(any_text(r))),
            1 => v.push(Ev::End(r.pick_str(&names).into())),
            2 => v.push(Ev::Pi("<?q &amp; ]]>".into())),
            _ => {
                v.push(Ev::Open(r.pick_str(&names).into()));
                for _ in 0..r.below(4) {
                    let val = if r.chance(1, 4) { None } else { Some(any_text(r)) };
                    v.push(Ev::Attr(r.pick_str(&names).into(), val));
                }
                v.push(if r.chance(1, 4) { Ev::XmlClose } else { Ev::Close });
            }
        }
    }
    v
}

struct Limited {
    left: usize,
    wrote: String,
}

impl std::fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let mut n = s.len().min(self.left);
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        self.wrote.push_str(&s[..n]);
        self.left -= n;
        if n < s.len() {
            self.left = 0;
            return Err(std::fmt::Error);
        }
        Ok(())
    }
}

/// Formatting into a writer that fails midway fails, after a prefix of the text.
fn failing_writer(ctx: &mut Ctx, shown: &dyn std::fmt::Display, text: &str) -> V {
    use std::fmt::Write;
    let mut w = Limited { left: ctx.r.below(text.len() + 2), wrote: String::new() };
    let room = w.left >= text.len();
    let ok = write!(w, "{}", shown).is_ok();
    ctx.count(if room { "writer_with_room" } else { "writer_failures" });
    if !text.starts_with(&w.wrote) || ok != room || (ok && w.wrote != text) {
        return Err(format!("a writer that failed ({}) got {:?} of {:?}; formatting reported success: {}", !room, short(&w.wrote, 600), short(text, 600), ok));
    }
    Ok(())
}

fn c13(ctx: &mut Ctx) -> V {
    let (evs, text, ms, ents, pents);
    if ctx.r.chance(1, 3) {
        evs = built(&mut ctx.r);
        text = frag(&evs).to_string();
        ms = *ctx.r.pick(&[Ms::Keep, Ms::Accept, Ms::Expand]);
        ents = None;
        pents = None;
        ctx.input = format!("events {:?}", evs);
        ctx.count("built");
    } else {
        let (s, t, p) = if ctx.r.chance(1, 3) {
            soup::any_input(&mut ctx.r, 40)
        } else {
            let mut g = Gen::new(&mut ctx.r, Opts::default());
            let d = g.doc();
            let (t, p) = (g.table.clone(), g.ptable.clone());
            (d.render(&mut ctx.r).0, t, p)
        };
        let cfg = random_cfg(&mut ctx.r, &t, &p);
        ctx.input = format!("{:?} with {}", s, cfg.brief());
        let f = match cfg.parser().parse(&s) {
            Ok(f) => f,
            Err(_) => return Ok(()),
        };
        evs = convs(&f);
        text = f.to_string();
        ms = cfg.ms;
        ents = cfg.ents;
        pents = cfg.pents;
    }
    if ctx.r.chance(1, 8) {
        failing_writer(ctx, &frag(&evs), &text)?;
    }
    if !has_form(&evs) {
        ctx.count("no_document_has_it");
        return Ok(());
    }
    let kept = evs.iter().any(|e| matches!(e, Ev::Sect(..)));
    let again = Cfg {
        trim: false,
        ms,
        // Formatted text needs no lookups, except inside sections kept as they were
        ents: if kept { ents } else { None },
        pents: if kept { pents } else { None },
        ..Cfg::default()
    };
    let got = real(&again.parser(), &text).map_err(|e| format!("formatted fragment {:?} does not parse: {}", short(&text, 600), e))?;
    expect_eq(&format!("events of the formatted fragment {:?}", short(&text, 600)), &canon(&evs), &canon(&got))?;
    ctx.count("compared");
    ctx.count(if kept { "kept_sections" } else { "lookup_free" });
    for e in &evs {
        match e {
            Ev::Decl(..) => ctx.count("declarations"),
            Ev::Pi(_) => ctx.count("instructions"),
            Ev::Attr(_, Some(v)) if v.contains('"') && v.contains('\'') => ctx.count("quote_both"),
            Ev::Attr(_, Some(v)) if v.contains('&') => ctx.count("ampersand_value"),
            _ => {}
        }
    }
    ctx.judged(if evs.len() > 2 { Some(text.as_bytes()) } else { None });
    Ok(())
}

/// Large constructs of every kind.
fn p13_large() -> V {
    super::big::all_kinds(|s| {
        for cfg in super::big::cfgs() {
            let f = match cfg.parser().parse(s) {
                Ok(f) => f,
                Err(_) => continue,
            };
            let evs = convs(&f);
            if !has_form(&evs) {
                continue;
            }
            let kept = evs.iter().any(|e| matches!(e, Ev::Sect(..)));
            let none = Cfg { trim: false, ms: cfg.ms, ..Cfg::default() };
            let again = if kept { Cfg { ents: cfg.ents, pents: cfg.pents, ..none } } else { none };
            let got = real(&again.parser(), &f.to_string()).map_err(|e| format!("the formatted fragment does not parse: {}", e))?;
            expect_eq("events of the formatted fragment", &canon(&evs), &canon(&got))?;
        }
        Ok(())
    })
}

fn p13_all() -> V {
    crate::fw::sweep(0x110000, || {
    let p = Cfg { trim: false, ..Cfg::default() }.parser();
    move |v| {
        let c = match char::from_u32(v) {
            Some(c) => c,
            None => return Ok(()),
        };
        if c as u32 > 0x3000 && c as u32 % 97 != 0 {
            return Ok(());
        }
        for v in [format!("{}", c), format!("\"{}'", c), format!("&{};", c)] {
            let evs = [Ev::Open("a".into()), Ev::Attr("b".into(), Some(v.clone())), Ev::Close, Ev::Char(v), Ev::End("a".into())];
            let t = frag(&evs).to_string();
            let got = real(&p, &t).map_err(|e| format!("formatted {:?} does not parse: {}", t, e))?;
            expect_eq(&format!("formatted {:?}", t), &evs, &got)?;
        }
        Ok(())
    }
    })
}

// ---------------------------------------------------------------------------------------------

pub static C14: Check = Check {
    id: "C14",
    rule: "arbitrary strings escaped by iterating, formatting and every iterator adapter, with ampersand escaping on, off and switched midway; size hints checked at every step and the output decoded by an independent expander. Non-trivial = distinct string containing '<', '>' or '&'.",
    case: c14,
    quick: 2_000_000,
    thorough: 40_000_000,
    probes: &[("large", p14_large), ("all-chars", p14_all)],
    need: &["decoded", "ampersand_off", "switched", "fused", "partial_display"],
    assumptions: &["refp::expand, itself compared with the real expander by C05"],
};

/// Aligns the output with the input: '<' and '>' (and '&' if `amp`) as references to them, the rest as is.
fn aligned(src: &str, out: &str, amp: bool) -> Result<(), String> {
    let mut o = out;
    for c in src.chars() {
        let esc = c == '<' || c == '>' || (c == '&' && amp);
        if esc {
            let end = o.find(';').map(|i| i + 1).unwrap_or(0);
            let (r, rest) = o.split_at(end);
            let dec = refp::expand(r, false, &mut |_| None).map_err(|_| format!("{:?} in {:?} is not a reference to {:?}", r, out, c))?;
            if !r.starts_with("&#") || dec != c.to_string() {
                return Err(format!("expected a reference to {:?} at {:?} of {:?}", c, short(o, 20), out));
            }
            o = rest;
        } else if let Some(rest) = o.strip_prefix(c) {
            o = rest;
        } else {
            return Err(format!("expected {:?} unchanged at {:?} of {:?}", c, short(o, 20), out));
        }
    }
    if !o.is_empty() {
        return Err(format!("extra output {:?}", o));
    }
    Ok(())
}

fn escape_laws(s: &str, amp: bool) -> Result<String, String> {
    let mut e = text::escape(s);
    if !amp {
        e.set_escape_ampersand(false);
    }
    let shown = e.to_string();
    let all: String = e.clone().collect();
    if shown != all {
        return Err(format!("escape of {:?} formats as {:?} but iterates as {:?}", s, shown, all));
    }
    aligned(s, &all, amp).map_err(|m| format!("escape of {:?}: {}", s, m))?;
    if amp {
        if all.contains(|c| c == '<' || c == '>') {
            return Err(format!("escape of {:?} has markup: {:?}", s, all));
        }
        let mut named = None;
        let back = refp::expand(&all, false, &mut |n| {
            named = Some(n.to_string());
            None
        });
        if back.as_deref() != Ok(s) {
            return Err(format!("escape of {:?} is {:?}, which decodes to {:?}", s, all, back));
        }
        let real = sgmlish::entities::expand_entities(&all, |_| None::<&str>);
        if real.as_deref().ok() != Some(s) {
            return Err(format!("escape of {:?} is {:?}, which expands to {:?}", s, all, real));
        }
    }
    let n = all.chars().count();
    // Step by step
    let mut it = e.clone();
    let want: Vec<char> = all.chars().collect();
    for k in 0..=n {
        let (lo, hi) = it.size_hint();
        if lo > n - k || hi.map_or(false, |h| h < n - k) {
            return Err(format!("size hint {:?} with {} characters left, at {} of the escape of {:?}", (lo, hi), n - k, k, s));
        }
        let c = it.next();
        if c != want.get(k).copied() {
            return Err(format!("character {} of the escape of {:?}: {:?}, expected {:?}", k, s, c, want.get(k)));
        }
    }
    for _ in 0..3 {
        if it.next().is_some() || it.size_hint().0 != 0 {
            return Err(format!("exhausted escape of {:?} goes on", s));
        }
    }
    Ok(all)
}

/// Every way to take the characters that are left gives those of `rest`
fn adapters(ctx: &mut Ctx, it: &text::Escape, rest: &str) -> V {
    let n = rest.chars().count();
    let k = ctx.r.below(n + 2);
    let fail = |what: &str| Err(format!("{} disagrees with next, where {:?} is left", what, short(rest, 300)));
    match ctx.r.below(10) {
        0 if it.clone().count() != n => fail("count"),
        1 if it.clone().last() != rest.chars().last() => fail("last"),
        2 => {
            let (mut a, mut b) = (it.clone(), rest.chars());
            if a.nth(k) != b.nth(k) || !a.eq(b) {
                return fail("nth");
            }
            Ok(())
        }
        3 if !it.clone().skip(k).eq(rest.chars().skip(k)) => fail("skip"),
        4 => {
            let mut out = String::new();
            it.clone().for_each(|c| out.push(c));
            if out != rest {
                return fail("for_each");
            }
            Ok(())
        }
        5 if it.clone().min() != rest.chars().min() || it.clone().max() != rest.chars().max() => fail("min or max"),
        6 => {
            // Stops midway, goes on from there
            let mut a = it.clone();
            let mut left = k;
            let stopped = a.try_for_each(|_| if left == 0 { Err(()) } else { left -= 1; Ok(()) });
            if stopped.is_err() != (k < n) || !a.eq(rest.chars().skip(k + 1)) {
                return fail("try_for_each");
            }
            Ok(())
        }
        7 if !it.clone().step_by(k + 1).eq(rest.chars().step_by(k + 1)) => fail("step_by"),
        8 if it.clone().collect::<Vec<char>>().len() != n || it.clone().collect::<String>() != rest => fail("collect"),
        9 if it.clone().position(|c| c == '&') != rest.chars().position(|c| c == '&') || it.clone().cmp(rest.chars()) != std::cmp::Ordering::Equal => fail("position or cmp"),
        _ => Ok(()),
    }
}

fn c14(ctx: &mut Ctx) -> V {
    let mut s = any_text(&mut ctx.r);
    if ctx.r.chance(1, 2000) {
        s = soup::amplify(&mut ctx.r, &s, 6000);
        ctx.max("longest_text", s.len() as u64);
    }
    ctx.input = format!("{:?}", s);
    let all = escape_laws(&s, true)?;
    ctx.count("decoded");
    ctx.count("fused");
    let off = escape_laws(&s, false)?;
    ctx.count("ampersand_off");
    // Adapters agree with next(), whatever has been read and however ampersands are treated
    let e = text::escape(&s);
    let n = all.chars().count();
    let k = ctx.r.below(n + 2);
    let tail: String = all.chars().skip(k).collect();
    adapters(ctx, &e, &all)?;
    let mut it = e.clone();
    for _ in 0..k {
        it.next();
    }
    adapters(ctx, &it, &tail)?;
    let mut it = e.clone();
    it.set_escape_ampersand(false);
    adapters(ctx, &it, &off)?;
    // Formatting shows what is left, and leaves it there
    let mut it = e.clone();
    for _ in 0..k {
        it.next();
    }
    let left = format!("{}", it);
    let rest: String = it.clone().collect();
    if left != tail || rest != tail {
        return Err(format!("after {} characters {:?} is formatted and {:?} iterated, expected {:?}", k, left, rest, tail));
    }
    ctx.count("partial_display");
    if ctx.r.chance(1, 4) {
        failing_writer(ctx, &it, &tail)?;
    }
    // Switching midway, between source characters
    let chars: Vec<char> = s.chars().collect();
    let cut = ctx.r.below(chars.len() + 1);
    let (a, b): (String, String) = (chars[..cut].iter().collect(), chars[cut..].iter().collect());
    let first = escape_laws(&a, true)?;
    let second = escape_laws(&b, false)?;
    let mut it = text::escape(&s);
    let mut out: String = it.by_ref().take(first.chars().count()).collect();
    it.set_escape_ampersand(false);
    adapters(ctx, &it, &second)?;
    out.extend(it);
    if out != format!("{}{}", first, second) {
        return Err(format!("switching ampersand escaping off after {:?} gives {:?}", a, out));
    }
    ctx.count("switched");
    ctx.judged(if s.contains(|c| matches!(c, '<' | '>' | '&')) { Some(s.as_bytes()) } else { None });
    Ok(())
}

fn p14_large() -> V {
    super::big::sized(|n| {
        for t in super::big::texts_of(n) {
            escape_laws(&t, true).map_err(|m| short(&m, 600))?;
            escape_laws(&t, false).map_err(|m| short(&m, 600))?;
        }
        Ok(())
    })
}

fn p14_all() -> V {
    crate::fw::sweep(0x110000, || |v| {
        let c = match char::from_u32(v) {
            Some(c) => c,
            None => return Ok(()),
        };
        for s in [format!("{}", c), format!("&{}<{}>", c, c)] {
            let e = text::escape(&s).to_string();
            aligned(&s, &e, true)?;
            if c as u32 % 31 == 0 || (c as u32) < 0x800 {
                escape_laws(&s, true)?;
                escape_laws(&s, false)?;
            }
        }
        if text::is_sgml_whitespace(c) != is_ws(c) {
            return Err(format!("white space: {:?}", c));
        }
        Ok(())
    })
}

// ---------------------------------------------------------------------------------------------

pub static C15: Check = Check {
    id: "C15",
    rule: "random element trees with end tags kept, omitted, misplaced or missing their start, self-closing and empty tags, blank text, instructions and sections, plus parsed documents and soup; the result is compared with a forward-scanning model and with the laws (balanced, nothing but end tags added, idempotent). Non-trivial = distinct event list with at least one end tag to add or to reject.",
    case: c15,
    quick: 2_000_000,
    thorough: 20_000_000,
    probes: &[("large", p15_large), ("all-lists-of-6", p15_enum), ("deep-100k", p15_deep)],
    need: &["normalized", "added", "unpaired", "empty_tag", "self_closing", "already_balanced", "blank_before", "parsed", "nested_same_name"],
    assumptions: &["an element whose end tag is omitted ends directly before the next tag, as the documentation says"],
};

#[derive(Debug, PartialEq)]
enum Norm15 {
    Ok(Vec<Ev>),
    Empty,
    Unpaired,
}

/// Forward model of end-tag normalization.
fn model15(evs: &[Ev]) -> Norm15 {
    let mut empty = false;
    let mut unpaired = false;
    let mut stack: Vec<usize> = vec![];
    let mut has_end = vec![false; evs.len()];
    let mut selfclosed = vec![false; evs.len()];
    let mut last_open = None;
    for (i, e) in evs.iter().enumerate() {
        match e {
            Ev::Open(n) | Ev::End(n) if n.is_empty() => empty = true,
            Ev::Open(_) => {
                stack.push(i);
                last_open = Some(i);
            }
            Ev::XmlClose => {
                if let Some(o) = last_open {
                    selfclosed[o] = true;
                    stack.pop();
                }
            }
            Ev::End(n) => loop {
                match stack.pop() {
                    None => {
                        unpaired = true;
                        break;
                    }
                    Some(o) if matches!(&evs[o], Ev::Open(m) if m == n) => {
                        has_end[o] = true;
                        break;
                    }
                    Some(_) => {}
                }
            },
            _ => {}
        }
    }
    if empty {
        return Norm15::Empty;
    }
    if unpaired {
        return Norm15::Unpaired;
    }
    // Where each omitted end goes
    let mut at: Vec<Vec<String>> = vec![vec![]; evs.len() + 1];
    for (i, e) in evs.iter().enumerate() {
        let name = match e {
            Ev::Open(n) => n,
            _ => continue,
        };
        if has_end[i] || selfclosed[i] {
            continue;
        }
        let next = (i + 1..evs.len()).find(|&j| matches!(evs[j], Ev::Open(_) | Ev::End(_))).unwrap_or(evs.len());
        let mut p = next;
        while p > i + 1 && matches!(&evs[p - 1], Ev::Char(s) if s.chars().all(is_ws)) {
            p -= 1;
        }
        at[p].push(name.clone());
    }
    let mut out = vec![];
    let mut open_name = String::new();
    for (i, e) in evs.iter().enumerate() {
        out.extend(at[i].drain(..).map(Ev::End));
        match e {
            Ev::XmlClose => {
                out.push(Ev::Close);
                out.push(Ev::End(open_name.clone()));
            }
            e => {
                if let Ev::Open(n) = e {
                    open_name = n.clone();
                }
                out.push(e.clone());
            }
        }
    }
    out.extend(at[evs.len()].drain(..).map(Ev::End));
    Norm15::Ok(out)
}

fn balanced(evs: &[Ev]) -> Result<(), String> {
    let mut st: Vec<&str> = vec![];
    for (i, e) in evs.iter().enumerate() {
        match e {
            Ev::Open(n) => st.push(n),
            Ev::End(n) => {
                if st.pop() != Some(n) {
                    return Err(format!("event {} ends {:?}, which is not the open element", i, n));
                }
            }
            Ev::XmlClose => return Err(format!("event {} is a self-closing tag", i)),
            _ => {}
        }
    }
    match st.last() {
        None => Ok(()),
        Some(n) => Err(format!("{:?} never ends", n)),
    }
}

fn real15(evs: &[Ev]) -> Result<Vec<Ev>, NormalizationError> {
    normalize_end_tags(frag(evs)).map(|f| convs(&f))
}

fn laws15(evs: &[Ev]) -> Result<Norm15, String> {
    let want = model15(evs);
    let got = real15(evs);
    match (&want, &got) {
        (Norm15::Ok(w), Ok(g)) => {
            balanced(g).map_err(|m| format!("result is not balanced: {}\nresult: {:?}", m, g))?;
            // Only end tags are added
            let mut i = 0;
            for e in evs {
                let e = if *e == Ev::XmlClose { Ev::Close } else { e.clone() };
                while i < g.len() && g[i] != e && matches!(g[i], Ev::End(_)) {
                    i += 1;
                }
                if g.get(i) != Some(&e) {
                    return Err(format!("original event {:?} lost or moved; result: {:?}", e, g));
                }
                i += 1;
            }
            if let Some(e) = g[i..].iter().find(|e| !matches!(e, Ev::End(_))) {
                return Err(format!("event {:?} added", e));
            }
            expect_eq("normalized events", w, g)?;
            match real15(g) {
                Ok(g2) if &g2 == g => {}
                x => return Err(format!("not idempotent: {:?} becomes {:?}", g, x)),
            }
            if balanced(evs).is_ok() && g != evs {
                return Err("a balanced list was changed".into());
            }
        }
        (Norm15::Empty, Err(_)) => {}
        (Norm15::Unpaired, Err(NormalizationError::UnpairedEndTag(n))) => {
            if !evs.iter().any(|e| matches!(e, Ev::End(m) if m == n)) {
                return Err(format!("reports an unpaired {:?}, which never ends", n));
            }
        }
        (w, g) => return Err(format!("expected {:?}, got {:?}", w, g)),
    }
    Ok(want)
}

pub(super) fn tree(r: &mut Rng, depth: usize, budget: &mut usize, names: &[&str], omit: usize, out: &mut Vec<Ev>) {
    let n = r.below(4);
    for _ in 0..n + 1 {
        if *budget == 0 {
            return;
        }
        *budget -= 1;
        match r.below(12) {
            0 | 1 => {
                let s = match crate::dict::word(r) {
                    Some(w) => w,
                    None => r.pick_str(&["x", " x ", "text", "\u{a0}", "\u{c}"]),
                };
                out.push(Ev::Char(s.into()))
            }
            2 | 3 => out.push(Ev::Char(r.pick_str(&[" ", "\n", "", " \t\r\n ", "\n  "]).into())),
            4 => out.push(Ev::Pi("<?x>".into())),
            5 if r.bool() => out.push(Ev::Sect("CDATA".into(), "x".into())),
            6 => {
                out.push(Ev::Open(r.pick_str(names).into()));
                if r.bool() {
                    out.push(Ev::Attr("k".into(), Some("v".into())));
                }
                out.push(Ev::XmlClose);
            }
            _ => {
                let name = r.pick_str(names).to_string();
                out.push(Ev::Open(name.clone()));
                for _ in 0..r.below(2) {
                    out.push(Ev::Attr(r.pick_str(&["k", "a"]).into(), if r.bool() { None } else { Some("v".into()) }));
                }
                out.push(Ev::Close);
                if depth > 0 && r.chance(3, 4) {
                    tree(r, depth - 1, budget, names, omit, out);
                }
                if !r.chance(omit, 10) {
                    out.push(Ev::End(name));
                }
            }
        }
    }
}

fn c15(ctx: &mut Ctx) -> V {
    let evs = match ctx.r.below(8) {
        0 | 1 => {
            let (s, t, p) = if ctx.r.bool() {
                soup::any_input(&mut ctx.r, 40)
            } else {
                let mut g = Gen::new(&mut ctx.r, Opts::default());
                let d = g.doc();
                let (t, p) = (g.table.clone(), g.ptable.clone());
                (d.render(&mut ctx.r).0, t, p)
            };
            let cfg = random_cfg(&mut ctx.r, &t, &p);
            match real(&cfg.parser(), &s) {
                Ok(e) => {
                    ctx.count("parsed");
                    e
                }
                Err(_) => return Ok(()),
            }
        }
        _ => {
            let pool: &[&[&str]] = &[&["a"], &["a", "b"], &["a", "A", "b"], &["a", "b", "c", "d", "é"]];
            let mut names = ctx.r.pick(pool).to_vec();
            if let Some(n) = crate::dict::static_name(&mut ctx.r) {
                names.push(n);
            }
            let names = &names[..];
            let omit = *ctx.r.pick(&[0, 1, 3, 3, 6, 10]);
            let mut budget = 3 + ctx.r.tail(20, 300);
            let depth = 2 + ctx.r.tail(5, 60);
            let mut v = vec![];
            tree(&mut ctx.r, depth, &mut budget, names, omit, &mut v);
            if ctx.r.chance(1, 5) {
                let at = ctx.r.below(v.len() + 1);
                // Not inside a start tag
                let at = (at..=v.len()).find(|&i| i == v.len() || !matches!(v[i], Ev::Attr(..) | Ev::Close | Ev::XmlClose)).unwrap();
                v.insert(at, Ev::End(ctx.r.pick_str(names).into()));
            }
            if ctx.r.chance(1, 12) {
                let at = ctx.r.below(v.len() + 1);
                let at = (at..=v.len()).find(|&i| i == v.len() || !matches!(v[i], Ev::Attr(..) | Ev::Close | Ev::XmlClose)).unwrap();
                if ctx.r.bool() {
                    v.insert(at, Ev::End(String::new()));
                } else {
                    v.insert(at, Ev::Close);
                    v.insert(at, Ev::Open(String::new()));
                }
            }
            v
        }
    };
    ctx.input = format!("events {}", short(&format!("{:?}", evs), 6000));
    ctx.max("events", evs.len() as u64);
    let mut nontrivial = true;
    match laws15(&evs)? {
        Norm15::Ok(w) => {
            ctx.count("normalized");
            let ends = |v: &[Ev]| v.iter().filter(|e| matches!(e, Ev::End(_))).count();
            ctx.add("added", (ends(&w) - ends(&evs)) as u64);
            if evs.contains(&Ev::XmlClose) {
                ctx.count("self_closing");
            }
            if w == evs {
                ctx.count("already_balanced");
                nontrivial = false;
            }
            if w.windows(2).any(|p| matches!((&p[0], &p[1]), (Ev::End(_), Ev::Char(s)) if s.chars().all(is_ws))) {
                ctx.count("blank_before");
            }
            let mut st: Vec<&str> = vec![];
            for e in &w {
                match e {
                    Ev::Open(n) => {
                        if st.contains(&n.as_str()) {
                            ctx.count("nested_same_name");
                            break;
                        }
                        st.push(n)
                    }
                    Ev::End(_) => {
                        st.pop();
                    }
                    _ => {}
                }
            }
        }
        Norm15::Unpaired => ctx.count("unpaired"),
        Norm15::Empty => ctx.count("empty_tag"),
    }
    let b = format!("{:?}", evs);
    ctx.judged(if nontrivial { Some(b.as_bytes()) } else { None });
    Ok(())
}

fn p15_enum() -> V {
    // Every list of up to six parts
    let parts: Vec<Vec<Ev>> = vec![
        vec![Ev::Open("a".into()), Ev::Close],
        vec![Ev::Open("b".into()), Ev::Attr("k".into(), None), Ev::Close],
        vec![Ev::Open("a".into()), Ev::XmlClose],
        vec![Ev::End("a".into())],
        vec![Ev::End("b".into())],
        vec![Ev::Char(" ".into())],
        vec![Ev::Char("x".into())],
        vec![Ev::Pi("<?p>".into())],
    ];
    fn go(parts: &[Vec<Ev>], left: usize, cur: &mut Vec<Ev>) -> V {
        laws15(cur).map_err(|m| format!("{:?}: {}", cur, m))?;
        if left == 0 {
            return Ok(());
        }
        for p in parts {
            let n = cur.len();
            cur.extend(p.iter().cloned());
            go(parts, left - 1, cur)?;
            cur.truncate(n);
        }
        Ok(())
    }
    go(&parts, 5, &mut vec![])?;
    go(&parts[..6], 6, &mut vec![])
}

fn p15_large() -> V {
    let o = |n: String| Ev::Open(n);
    let e = |n: String| Ev::End(n);
    super::big::sized(|n| {
        let lists: Vec<(&str, Vec<Ev>)> = vec![
            ("elements without end tags", (0..n).flat_map(|i| [o(format!("a{}", i)), Ev::Close, Ev::Char("x".into())]).collect()),
            ("an end tag that closes many", (0..n).flat_map(|i| [o(format!("a{}", i)), Ev::Close]).chain([e("a0".into())]).collect()),
            ("an end tag that closes all but one", (0..n).flat_map(|i| [o(format!("a{}", i)), Ev::Close]).chain([e("a1".into()), Ev::Char("x".into())]).collect()),
            ("an unpaired end tag", (0..n).flat_map(|i| [o(format!("a{}", i)), Ev::Close]).chain([e("b".into())]).collect()),
            ("an unpaired end tag after many", (0..n).flat_map(|i| [o(format!("a{}", i)), Ev::Close, e(format!("a{}", i))]).chain([e("a0".into())]).collect()),
            ("a list", [o("l".into()), Ev::Close].into_iter().chain((0..n).flat_map(|i| [o("i".into()), Ev::Close, Ev::Char(i.to_string()), e("i".into())])).chain([o("j".into()), Ev::Close, e("l".into())]).collect()),
            ("self-closing tags", [o("l".into()), Ev::Close].into_iter().chain((0..n).flat_map(|i| [o(format!("b{}", i)), Ev::XmlClose])).chain([e("l".into())]).collect()),
            ("texts", [o("l".into()), Ev::Close].into_iter().chain((0..n).flat_map(|_| [Ev::Char("x".into()), Ev::Char(" ".into())])).collect()),
            ("attributes", [o("l".into())].into_iter().chain((0..n).map(|i| Ev::Attr(format!("a{}", i), None))).chain([Ev::XmlClose]).collect()),
            ("an end in the middle of many", (0..n).flat_map(|i| [o(format!("a{}", i)), Ev::Close]).chain((0..n / 2).map(|i| e(format!("a{}", n - 1 - 2 * i)))).collect()),
        ];
        for (what, l) in lists {
            laws15(&l).map_err(|m| format!("{}: {}", what, short(&m, 600)))?;
        }
        Ok(())
    })
}

fn p15_deep() -> V {
    let n = 100_000;
    let mut v = vec![];
    for i in 0..n {
        v.push(Ev::Open(if i % 3 == 0 { "a" } else { "b" }.into()));
        v.push(Ev::Close);
    }
    let g = real15(&v).map_err(|e| format!("only start tags: {}", e))?;
    balanced(&g)?;
    let mut w = v.clone();
    for i in (0..n).rev() {
        w.push(Ev::End(if i % 3 == 0 { "a" } else { "b" }.into()));
    }
    let g = real15(&w).map_err(|e| format!("balanced: {}", e))?;
    if g != w {
        return Err("a balanced list was changed".into());
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub static C16: Check = Check {
    id: "C16",
    rule: "random fragments (0 to 40 events) with up to 60 recorded insertions and removals, including repeated, adjacent and out-of-range indices, recorded in several orders and compared with a positional model. Non-trivial = distinct (fragment length, operation list) with at least one operation.",
    case: c16,
    quick: 2_500_000,
    thorough: 30_000_000,
    probes: &[("large", p16_large), ("exhaustive-small", p16_enum)],
    need: &["inserted", "removed", "out_of_range", "repeated_removal", "same_index", "empty_transform", "reordered"],
    assumptions: &[],
};

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Ins(usize, u32),
    Del(usize),
}

fn tag16(k: u32) -> Ev {
    match k % 5 {
        0 => Ev::Char(format!("i{}", k)),
        1 => Ev::Open(format!("i{}", k)),
        2 => Ev::Attr(format!("i{}", k), None),
        3 => Ev::End(format!("i{}", k)),
        _ => Ev::Pi(format!("<?i{}>", k)),
    }
}

fn model16(base: &[Ev], ops: &[Op]) -> Vec<Ev> {
    let n = base.len();
    let mut out = vec![];
    for i in 0..=n {
        let mut here: Vec<(usize, u32)> = ops
            .iter()
            .filter_map(|o| match o {
                Op::Ins(at, k) if *at == i || (i == n && *at > n) => Some((*at, *k)),
                _ => None,
            })
            .collect();
        here.sort_by_key(|x| x.0);
        out.extend(here.into_iter().map(|x| tag16(x.1)));
        if i < n && !ops.contains(&Op::Del(i)) {
            out.push(base[i].clone());
        }
    }
    out
}

fn real16(base: &[Ev], ops: &[Op]) -> Result<Vec<Ev>, String> {
    let mut t = Transform::new();
    for (k, o) in ops.iter().enumerate() {
        if t.is_empty() != (k == 0) {
            return Err("is_empty is wrong".into());
        }
        match o {
            Op::Ins(at, k) => t.insert_at(*at, unconv(&tag16(*k))),
            Op::Del(at) => t.remove_at(*at),
        }
    }
    if t.is_empty() != ops.is_empty() {
        return Err("is_empty is wrong".into());
    }
    let t2 = t.clone();
    let out = convs(&t.apply(frag(base)));
    if convs(&t2.apply(frag(base))) != out {
        return Err("a cloned transform gives another result".into());
    }
    Ok(out)
}

fn c16(ctx: &mut Ctx) -> V {
    let large = ctx.r.chance(1, 3000);
    let n = if large { crate::gen::magnitude(&mut ctx.r, 2000) } else { ctx.r.tail(8, 40) };
    ctx.max("largest_fragment", n as u64);
    let base: Vec<Ev> = (0..n).map(|i| if i % 2 == 0 { Ev::Char(format!("e{}", i)) } else { Ev::Open(format!("e{}", i)) }).collect();
    let m = if large { crate::gen::magnitude(&mut ctx.r, 500) } else { ctx.r.tail(8, 60) };
    let hot = ctx.r.below(n + 2);
    let mut ops = vec![];
    for k in 0..m {
        let at = match ctx.r.below(8) {
            0 => n,
            1 => n + ctx.r.below(4),
            2 => *ctx.r.pick(&[usize::MAX, usize::MAX - 1, 1 << 32, n + 100, 0]),
            3 => hot,
            _ => ctx.r.below(n + 1),
        };
        ops.push(if ctx.r.chance(3, 5) { Op::Ins(at, k as u32) } else { Op::Del(at) });
    }
    ctx.input = format!("{} events, {:?}", n, ops);
    let want = model16(&base, &ops);
    let got = real16(&base, &ops)?;
    expect_eq("transformed events", &want, &got)?;
    // Recording order matters only between insertions at one index
    let mut perm = ops.clone();
    for _ in 0..perm.len() * 2 {
        let (i, j) = (ctx.r.below(perm.len()), ctx.r.below(perm.len()));
        perm.swap(i, j);
    }
    let mut by_index: BTreeMap<usize, Vec<u32>> = BTreeMap::new();
    for o in &ops {
        if let Op::Ins(a, k) = o {
            by_index.entry(*a).or_default().push(*k);
        }
    }
    let mut used: HashMap<usize, usize> = HashMap::new();
    for o in perm.iter_mut() {
        if let Op::Ins(a, k) = o {
            let u = used.entry(*a).or_insert(0);
            *k = by_index[a][*u];
            *u += 1;
        }
    }
    if perm != ops {
        expect_eq(&format!("operations recorded in another order ({:?})", perm), &want, &real16(&base, &perm)?)?;
        ctx.count("reordered");
    }
    for o in &ops {
        match o {
            Op::Ins(a, _) => {
                ctx.count("inserted");
                if *a > n {
                    ctx.count("out_of_range");
                }
            }
            Op::Del(a) if *a < n => ctx.count("removed"),
            _ => ctx.count("out_of_range"),
        }
    }
    if by_index.values().any(|v| v.len() > 1) {
        ctx.count("same_index");
    }
    if (0..n).any(|i| ops.iter().filter(|o| **o == Op::Del(i)).count() > 1) {
        ctx.count("repeated_removal");
    }
    if ops.is_empty() {
        ctx.count("empty_transform");
    }
    let b = format!("{} {:?}", n, ops);
    ctx.judged(if ops.is_empty() { None } else { Some(b.as_bytes()) });
    Ok(())
}

fn p16_large() -> V {
    super::big::sized(|n| {
        let base: Vec<Ev> = (0..n).map(|i| if i % 2 == 0 { Ev::Char(format!("e{}", i)) } else { Ev::Open(format!("e{}", i)) }).collect();
        let mut at = vec![0, 1, 255, 256, 257, 65_535, 65_536, n / 2, n - 1, n, n + 1, n + 65_536, usize::MAX];
        let mut ops: Vec<Op> = vec![];
        for (k, &i) in at.iter().enumerate().rev() {
            ops.push(Op::Ins(i, k as u32));
            if k % 2 == 0 {
                ops.push(Op::Del(i));
            }
            ops.push(Op::Ins(i, 100 + k as u32));
        }
        expect_eq("a few operations", &model16(&base, &ops), &real16(&base, &ops)?)?;
        // As many operations as events, back and forth
        at.clear();
        let ops: Vec<Op> = (0..n).map(|k| if k % 3 == 0 { Op::Del(k * 7919 % n) } else { Op::Ins(k * 7919 % (n + 1), k as u32) }).collect();
        let mut ins: BTreeMap<usize, Vec<u32>> = BTreeMap::new();
        let mut del = std::collections::HashSet::new();
        for o in &ops {
            match o {
                Op::Ins(i, k) => ins.entry(*i).or_default().push(*k),
                Op::Del(i) => {
                    del.insert(*i);
                }
            }
        }
        let mut want = vec![];
        for i in 0..=n {
            want.extend(ins.get(&i).into_iter().flatten().map(|k| tag16(*k)));
            if i < n && !del.contains(&i) {
                want.push(base[i].clone());
            }
        }
        expect_eq("many operations", &want, &real16(&base, &ops)?)?;
        // All at one place
        let ops: Vec<Op> = (0..n).map(|k| Op::Ins(n / 2, k as u32)).collect();
        let mut want = base.clone();
        want.splice(n / 2..n / 2, (0..n as u32).map(tag16));
        expect_eq("many operations at one index", &want, &real16(&base, &ops)?)?;
        let ops: Vec<Op> = (0..n).map(Op::Del).chain([Op::Ins(n / 2, 1)]).collect();
        expect_eq("everything removed", &[tag16(1)], &real16(&base, &ops)?)
    })
}

fn p16_enum() -> V {
    for n in 0..4usize {
        let base: Vec<Ev> = (0..n).map(|i| Ev::Char(format!("e{}", i))).collect();
        let choices = 2 * (n + 2);
        for len in 0..=4u32 {
            for code in 0..choices.pow(len) {
                let mut c = code;
                let mut ops = vec![];
                for k in 0..len {
                    let x = c % choices;
                    c /= choices;
                    ops.push(if x % 2 == 0 { Op::Ins(x / 2, k) } else { Op::Del(x / 2) });
                }
                expect_eq(&format!("{} events, {:?}", n, ops), &model16(&base, &ops), &real16(&base, &ops)?)?;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub static C23: Check = Check {
    id: "C23",
    rule: "parsed fragments (generated and soup) and hand-made ones (any strings) viewed through every accessor, made owned (compared, formatted, deserialized into several types), and deserialized into borrowed strings whose addresses must lie in the input. Non-trivial = distinct input that parsed into at least 2 events, or hand-made list.",
    case: c23,
    quick: 1_000_000,
    thorough: 8_000_000,
    probes: &[("large", super::big::p23)],
    need: &["views", "owned", "mutated", "deserialized_equal", "borrowed_text", "borrowed_attribute", "borrowed_value_field", "hand_made"],
    assumptions: &[],
};

fn de_views<'a>(f: SgmlFragment<'a>) -> Vec<String> {
    use serde::Deserialize;
    #[allow(dead_code)]
    #[derive(Deserialize, Debug)]
    struct S {
        #[serde(default)]
        a: Option<String>,
        #[serde(default)]
        b: Vec<String>,
        #[serde(rename = "$value", default)]
        v: Option<String>,
    }
    let g = |r: Result<String, String>| r.unwrap_or_else(|e| format!("error: {}", e));
    vec![
        g(f.clone().deserialize::<serde_json::Value>().map(|v| v.to_string()).map_err(|e| e.to_string())),
        g(f.clone().deserialize::<BTreeMap<String, String>>().map(|v| format!("{:?}", v)).map_err(|e| e.to_string())),
        g(f.clone().deserialize::<Vec<String>>().map(|v| format!("{:?}", v)).map_err(|e| e.to_string())),
        g(f.clone().deserialize::<S>().map(|v| format!("{:?}", v)).map_err(|e| e.to_string())),
        g(sgmlish::from_fragment::<String>(f).map_err(|e| e.to_string())),
    ]
}

fn within(input: &str, part: &str) -> bool {
    let a = input.as_ptr() as usize;
    let p = part.as_ptr() as usize;
    p >= a && p + part.len() <= a + input.len()
}

/// Any list of events, with any strings in them, borrowed or owned.
fn hand_made<'a>(r: &mut Rng, pool: &'a [String]) -> Vec<SgmlEvent<'a>> {
    fn any<'a>(r: &mut Rng, pool: &'a [String]) -> std::borrow::Cow<'a, str> {
        let s = pool[r.below(pool.len())].as_str();
        match r.below(8) {
            0 => std::borrow::Cow::Owned(s.to_string()),
            // A part of another, or nothing at a certain place
            1 => match s.char_indices().nth(r.below(4)) {
                Some((i, _)) => std::borrow::Cow::Borrowed(if r.bool() { &s[i..] } else { &s[..i] }),
                None => std::borrow::Cow::Borrowed(&s[s.len()..]),
            },
            _ => std::borrow::Cow::Borrowed(s),
        }
    }
    let n = r.tail(4, 40);
    (0..n)
        .map(|_| match r.below(9) {
            0 => SgmlEvent::MarkupDeclaration { keyword: any(r, pool), body: any(r, pool) },
            1 => SgmlEvent::ProcessingInstruction(any(r, pool)),
            2 => SgmlEvent::MarkedSection { status_keywords: any(r, pool), section: any(r, pool) },
            3 => SgmlEvent::OpenStartTag { name: any(r, pool) },
            4 => SgmlEvent::Attribute { name: any(r, pool), value: if r.chance(1, 4) { None } else { Some(any(r, pool)) } },
            5 => SgmlEvent::CloseStartTag,
            6 => SgmlEvent::XmlCloseEmptyElement,
            7 => SgmlEvent::EndTag { name: any(r, pool) },
            _ => SgmlEvent::Character(any(r, pool)),
        })
        .collect()
}

fn owning(ctx: &mut Ctx, f: &SgmlFragment) -> V {
    let owned: SgmlFragment<'static> = f.clone().into_owned();
    if owned != *f || *f != owned {
        return Err("owned fragment is not equal".into());
    }
    expect_eq("owned fragment", &convs(f), &convs(&owned))?;
    if owned.to_string() != f.to_string() || format!("{:?}", owned) != format!("{:?}", f) || format!("{:#}", owned) != format!("{:#}", f) {
        return Err("owned fragment formats differently".into());
    }
    for e in f.iter() {
        let o: SgmlEvent<'static> = e.clone().into_owned();
        if &o != e || o.to_string() != e.to_string() || conv(&o) != conv(e) {
            return Err(format!("owned event {:?} differs from {:?}", o, e));
        }
    }
    ctx.count("owned");
    let (a, b) = (de_views(f.clone()), de_views(owned));
    if a != b {
        return Err(format!("owned fragment deserializes differently: {:?} and {:?}", b, a));
    }
    ctx.count("deserialized_equal");
    Ok(())
}

fn c23(ctx: &mut Ctx) -> V {
    if ctx.r.chance(1, 3) {
        return borrowed(ctx);
    }
    if ctx.r.chance(1, 4) {
        let n = 1 + ctx.r.below(5);
        let pool: Vec<String> = (0..n).map(|_| any_text(&mut ctx.r)).collect();
        let evs = hand_made(&mut ctx.r, &pool);
        let want: Vec<Ev> = evs.iter().map(conv).collect();
        ctx.input = format!("{:?}", want);
        let f = SgmlFragment::from(evs);
        expect_eq("fragment from a vector", &want, &convs(&f))?;
        views(ctx, &f)?;
        owning(ctx, &f)?;
        ctx.count("hand_made");
        ctx.judged(if want.is_empty() { None } else { Some(ctx.input.clone().into_bytes()) }.as_deref());
        return Ok(());
    }
    let (s, t, p) = if ctx.r.chance(1, 3) {
        soup::any_input(&mut ctx.r, 30)
    } else {
        let mut g = Gen::new(&mut ctx.r, Opts { size: 5, decls: false, pis: false, empties: false, ..Opts::default() });
        let d = g.doc();
        let (t, p) = (g.table.clone(), g.ptable.clone());
        (d.render(&mut ctx.r).0, t, p)
    };
    let cfg = random_cfg(&mut ctx.r, &t, &p);
    ctx.input = format!("{:?} with {}", s, cfg.brief());
    let mut f = match cfg.parser().parse(&s) {
        Ok(f) => f,
        Err(_) => return Ok(()),
    };
    if ctx.r.bool() {
        f = match normalize_end_tags(f) {
            Ok(f) => f,
            Err(_) => return Ok(()),
        };
    }
    views(ctx, &f)?;
    owning(ctx, &f)?;
    // Changing events through a mutable view
    let mut g = f.clone();
    if g.len() > 0 {
        let k = ctx.r.below(g.len());
        let by_ref = ctx.r.bool();
        let new = SgmlEvent::Character("changed".into());
        if by_ref {
            *(&mut g).into_iter().nth(k).unwrap() = new.clone();
        } else {
            *g.iter_mut().nth(k).unwrap() = new.clone();
        }
        let mut w = convs(&f);
        w[k] = conv(&new);
        expect_eq("fragment changed through iter_mut", &w, &convs(&g))?;
        if (g == f) != (convs(&g) == convs(&f)) {
            return Err("equality of fragments does not follow their events".into());
        }
        views(ctx, &g)?;
        ctx.count("mutated");
    }
    ctx.judged(if f.len() > 1 { Some(s.as_bytes()) } else { None });
    Ok(())
}

fn views(ctx: &mut Ctx, f: &SgmlFragment) -> V {
    let want = convs(f);
    let n = want.len();
    let check = |what: &str, v: Vec<Ev>| expect_eq(what, &want, &v);
    if f.len() != n || f.iter().len() != n || f.iter().count() != n || f.into_iter().len() != n {
        return Err("lengths differ".into());
    }
    check("iter", f.iter().map(conv).collect())?;
    check("into_iter of a reference", (&*f).into_iter().map(conv).collect())?;
    check("into_iter", f.clone().into_iter().map(|e| conv(&e)).collect())?;
    check("into_vec", f.clone().into_vec().iter().map(conv).collect())?;
    let mut g = f.clone();
    check("iter_mut", g.iter_mut().map(|e| conv(e)).collect())?;
    check("into_iter of a mutable reference", (&mut g).into_iter().map(|e| conv(e)).collect())?;
    let mut back: Vec<Ev> = f.iter().rev().map(conv).collect();
    back.reverse();
    check("reverse iteration", back)?;
    check("from a vector", convs(&SgmlFragment::from(f.clone().into_vec())))?;
    if g != *f || f.clone() != *f {
        return Err("a clone is not equal".into());
    }
    ctx.count("views");
    Ok(())
}

/// A document whose text and values need no expansion, read into borrowed strings.
fn borrowed(ctx: &mut Ctx) -> V {
    use serde::Deserialize;
    #[derive(Deserialize)]
    struct In<'a> {
        #[serde(rename = "$value", default)]
        v: Option<&'a str>,
        #[serde(default)]
        at: Option<&'a str>,
    }
    #[derive(Deserialize)]
    struct Out<'a> {
        #[serde(default)]
        one: Option<&'a str>,
        #[serde(borrow, default)]
        two: Vec<&'a str>,
        #[serde(borrow, default)]
        three: Option<In<'a>>,
        #[serde(borrow, default)]
        four: Option<(&'a str, &'a str)>,
    }
    // Nothing in it can be a reference
    let plain = |r: &mut Rng| {
        let mut s = String::new();
        for _ in 0..1 + r.below(6) {
            s.push_str(r.pick_str(&["a", "é", "🦀", " ", "x y", "1", ".", "]", "=", "% ", "%p;", "< ", ";", "#"]));
        }
        format!("x{}y", s)
    };
    let vals: Vec<String> = (0..8).map(|_| plain(&mut ctx.r)).collect();
    // Nothing beside the text adds to it
    let nothing = |r: &mut Rng| r.pick_str(&["", "", "<![CDATA[]]>", "<![rcdata[]]>", "<!-- c -->", "<!---->", "\n<![CDATA[]]>\t", "<!>"]).to_string();
    let wrap = |r: &mut Rng, v: &str| {
        let t = match r.below(4) {
            0 => format!("<![CDATA[{}]]>", v),
            1 => format!("<![rcdata[{}]]>", v),
            2 => format!("\n {}\n", v),
            _ => v.to_string(),
        };
        format!("{}{}{}", nothing(r), t, nothing(r))
    };
    let q = if ctx.r.bool() { '"' } else { '\'' };
    let r = &mut ctx.r;
    let attr_one = r.bool();
    let inner_attr = if r.bool() { "bare-value".to_string() } else { vals[5].clone() };
    let mut s = String::new();
    s.push_str("<r");
    if attr_one {
        s.push_str(&format!(" one={}{}{}", q, vals[0], q));
    }
    s.push('>');
    if !attr_one {
        s.push_str(&format!("<one>{}</one>", wrap(r, &vals[0])));
    }
    s.push_str(&format!("<two>{}</two><two>{}</two>", wrap(r, &vals[1]), wrap(r, &vals[2])));
    if inner_attr == "bare-value" {
        s.push_str(&format!("<three at=bare-value>{}</three>", wrap(r, &vals[3])));
    } else {
        s.push_str(&format!("<three at={}{}{}>{}</three>", q, inner_attr, q, wrap(r, &vals[3])));
    }
    s.push_str(&format!("<four>{}</four><four>{}</four>", wrap(r, &vals[6]), wrap(r, &vals[7])));
    s.push_str("</r>");
    ctx.input = format!("{:?}", s);
    let trim = true;
    let with_lookup = ctx.r.bool();
    let cfg = Cfg { trim, ents: if with_lookup { Some(Table::new()) } else { None }, ms: *ctx.r.pick(&[Ms::Accept, Ms::Expand]), ..Cfg::default() };
    let f = cfg.parser().parse(&s).map_err(|e| format!("does not parse: {}", e))?;
    let o: Out = f.deserialize().map_err(|e| format!("cannot be read into borrowed strings: {}", e))?;
    let three = o.three.ok_or("field three lost")?;
    let four = o.four.ok_or("field four lost")?;
    if o.two.len() != 2 {
        return Err("two items expected".into());
    }
    let parts = [
        ("one", o.one.ok_or("field one lost")?, vals[0].as_str()),
        ("two.0", o.two[0], &vals[1]),
        ("two.1", o.two[1], &vals[2]),
        ("three.$value", three.v.ok_or("field $value lost")?, &vals[3]),
        ("three.at", three.at.ok_or("field at lost")?, &inner_attr),
        ("four.0", four.0, &vals[6]),
        ("four.1", four.1, &vals[7]),
    ];
    for (n, got, want) in parts {
        if got != want {
            return Err(format!("{}: expected {:?}, got {:?}", n, want, got));
        }
        if !within(&s, got) {
            return Err(format!("{} is not borrowed from the input", n));
        }
    }
    ctx.count(if attr_one { "borrowed_attribute" } else { "borrowed_text" });
    ctx.count("borrowed_value_field");
    ctx.judged(Some(s.as_bytes()));
    Ok(())
}
