//! C01–C12: what the parser accepts and produces.

use super::*;
use crate::fw::{no_panic, Check, Ctx, V};
use crate::gen::*;
use crate::refp::{self, Status, Stop};
use crate::rng::Rng;
use crate::soup;
use sgmlish::entities;
use sgmlish::marked_sections::MarkedSectionStatus;
use std::cell::RefCell;
use std::rc::Rc;

pub const CHECKS: &[&Check] = &[&C01, &C02, &C03, &C04, &C05, &C06, &C07, &C08, &C09, &C10, &C11, &C12];

const TRUST: &[&str] = &[
    "the reference recogniser (refp.rs) and the ground-truth generator (gen.rs), which are checked against each other on every generated document",
    "generated inputs are bounded in size and nesting (see maxima); behaviour beyond them is not observed",
];

fn shape(evs: &[Ev]) -> Vec<u8> {
    // Identifies a case by the kinds of its events and their lengths
    let mut v = vec![];
    for e in evs {
        let (k, n) = match e {
            Ev::Decl(a, b) => (1u8, a.len() + b.len()),
            Ev::Pi(a) => (2, a.len()),
            Ev::Sect(a, b) => (3, a.len() + b.len()),
            Ev::Open(a) => (4, a.len()),
            Ev::Attr(a, b) => (5, a.len() + b.as_ref().map_or(0, |b| b.len())),
            Ev::Close => (6, 0),
            Ev::XmlClose => (7, 0),
            Ev::End(a) => (8, a.len()),
            Ev::Char(a) => (9, a.len()),
        };
        v.push(k);
        v.push(n as u8);
    }
    v
}

fn note(ctx: &mut Ctx, evs: &[Ev]) {
    ctx.add("events", evs.len() as u64);
    ctx.max("events_in_one_document", evs.len() as u64);
}

/// Compares the real parser with the reference on one input. Returns the events if accepted.
pub fn differential(ctx: &mut Ctx, s: &str, cfg: &Cfg) -> Result<Option<Vec<Ev>>, String> {
    let want = refp::parse(s, cfg);
    let got = real(&cfg.parser(), s);
    match (want, got) {
        (Err(Stop::Unspec(_)), _) => {
            ctx.count("unspecified_inputs_skipped");
            Ok(None)
        }
        (Ok(w), Ok(g)) => {
            ctx.count("accepted");
            note(ctx, &g);
            ctx.max("include_depth", w.max_depth as u64);
            expect_eq("events differ from the reference", &w.events, &g)?;
            Ok(Some(g))
        }
        (Err(Stop::Bad(..)), Err(_)) => {
            ctx.count("rejected");
            Ok(None)
        }
        (Ok(w), Err(e)) => Err(format!("well-formed input rejected: {}\nexpected events: {}", short(&e, 600), short(&format!("{:?}", w.events), 600))),
        (Err(Stop::Bad(at, what)), Ok(g)) => Err(format!(
            "malformed input accepted (malformed {} at byte {}); events: {}",
            what,
            at,
            short(&format!("{:?}", g), 800)
        )),
    }
}

// ---------------------------------------------------------------------------------------------

pub static C01: Check = Check {
    id: "C01",
    rule: "token soup, dense near-miss soup, random Unicode, mutated well-formed documents, long lines and regular nestings, each parsed under random configurations with all report forms produced; non-trivial = distinct (input, configuration) that the parser did not reject as empty. Monitors: panic hook (debug assertions and overflow checks on), crash of the process, CPU time and memory of each case.",
    case: c01,
    quick: 700_000,
    thorough: 12_000_000,
    probes: &[("large", super::big::p01), 
        ("nest-elements-100k", p01_elements),
        ("nest-ignore-100k", p01_ignore),
        ("nest-include-200", p01_include),
        ("nest-subset-200", p01_subset),
        ("long-inputs", p01_long),
        ("deep-include-100k", p01_include_deep),
        ("deep-subset-100k", p01_subset_deep),
    ],
    need: &["accepted", "rejected", "reports", "handmade_reports", "error_at_end"],
    assumptions: TRUST,
};

fn c01(ctx: &mut Ctx) -> V {
    let size = if ctx.thorough { 160 } else { 60 };
    let (s, table, ptable) = match ctx.r.below(12) {
        0 => (soup::nested(&mut ctx.r, 40), Table::new(), Table::new()),
        1 => {
            let (s, a, b) = soup::any_input(&mut ctx.r, size);
            (soup::stretch(&mut ctx.r, &s), a, b)
        }
        _ => soup::any_input(&mut ctx.r, size),
    };
    ctx.max("bytes", s.len() as u64);
    for _ in 0..2 {
        let cfg = random_cfg(&mut ctx.r, &table, &ptable);
        ctx.input = format!("{:?} with {}", s, cfg.brief());
        let p = cfg.parser();
        let _ = format!("{:?}", p);
        let plain = p.parse(&s);
        let det = p.parse_with_detailed_errors::<ContextualizedError<&str>>(&s);
        match &plain {
            Ok(f) => {
                ctx.count("accepted");
                let _ = f.to_string().len();
            }
            Err(e) => {
                ctx.count("rejected");
                let _ = format!("{} {:?}", e, e);
            }
        }
        if let Err(e) = &det {
            ctx.count("reports");
            let d = e.describe(&&s[..]);
            let mut w = String::new();
            e.describe_to(&&s[..], &mut w).map_err(|_| "describe_to failed".to_string())?;
            if d != w {
                return Err(format!("describe {:?} differs from describe_to {:?}", d, w));
            }
            if e.input.is_empty() {
                ctx.count("error_at_end");
            }
            let _ = format!("{:?}", e);
        }
        if plain.is_ok() != det.is_ok() {
            return Err("parse and parse_with_detailed_errors disagree".into());
        }
        let mut h = s.clone().into_bytes();
        h.extend(cfg.brief().bytes());
        ctx.judged(if s.is_empty() { None } else { Some(&h) });
    }
    // Reports may be asked for any position
    if !s.is_empty() {
        let cuts: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
        let at = *ctx.r.pick(&cuts);
        let k = ctx.r.below(3);
        let context = (0..k).map(|_| (&s[*ctx.r.pick(&cuts)..], "construct")).collect();
        let e = ContextualizedError {
            input: &s[at..],
            char: if ctx.r.bool() { Some('>') } else { None },
            error: if ctx.r.bool() { Some(sgmlish::Error::ParseError("boom".into())) } else { None },
            context,
        };
        ctx.input = format!("report at byte {} of {:?}", at, s);
        let _ = e.describe(&&s[..]).len();
        ctx.count("handmade_reports");
    }
    Ok(())
}

/// The parser must give the wanted verdict on a deep or long input.
fn probe_parse(s: &str, want_ok: bool, ms: Ms) -> V {
    let cfg = Cfg { ms, ..Cfg::default() };
    let r = cfg.parser().parse(s);
    match (&r, want_ok) {
        (Ok(_), true) | (Err(_), false) => Ok(()),
        (Ok(_), false) => Err("unterminated nesting accepted".into()),
        (Err(e), true) => Err(format!("rejected: {}", short(&e.to_string(), 300))),
    }
}
fn p01_elements() -> V {
    let n = 100_000;
    probe_parse(&format!("{}x{}", "<a>".repeat(n), "</a>".repeat(n)), true, Ms::Accept)?;
    probe_parse(&"<a>".repeat(n), true, Ms::Accept)?;
    probe_parse(&format!("{}x{}", "<a b='c' d>".repeat(n), "</a>".repeat(n - 3)), true, Ms::Expand)
}
fn p01_ignore() -> V {
    let n = 100_000;
    for ms in [Ms::Keep, Ms::Expand] {
        probe_parse(&format!("<a><![IGNORE[{}x{}]]>", "<![".repeat(n), "]]>".repeat(n)), true, ms)?;
    }
    // The search for each end starts over: keep the broken one shorter
    probe_parse(&format!("<a><![IGNORE[{}x{}", "<![".repeat(2000), "]]>".repeat(2000)), false, Ms::Expand)
}
fn p01_include() -> V {
    let n = 200;
    for ms in [Ms::Keep, Ms::Expand] {
        probe_parse(&format!("<a>{}x{}", "<![INCLUDE[".repeat(n), "]]>".repeat(n)), true, ms)?;
        probe_parse(&format!("<a>{}x{}", "<![INCLUDE[".repeat(n), "]]>".repeat(n - 1)), false, ms)?;
        probe_parse(&format!("<a>{}x{}</a", "<![INCLUDE[".repeat(n), "]]>".repeat(n)), false, ms)?;
        probe_parse(&format!("{}x{}<a>", "<![INCLUDE[".repeat(n), "]]>".repeat(n)), true, ms)?;
    }
    Ok(())
}
fn p01_subset() -> V {
    let n = 200;
    probe_parse(&format!("<!x {}y{}><a>", "[".repeat(n), "]".repeat(n)), true, Ms::Accept)?;
    probe_parse(&format!("<!x {}y{}><a>", "[".repeat(n), "]".repeat(n - 1)), false, Ms::Accept)?;
    probe_parse(&format!("{}y{}<a>", "<!x [".repeat(n), "]>".repeat(n)), true, Ms::Accept)?;
    probe_parse(&format!("{}y{}<a>", "<!x [".repeat(n), "]>".repeat(n - 1)), false, Ms::Accept)
}
fn p01_long() -> V {
    let n = 200_000;
    for (s, ok) in [
        (format!("<a>{}", "x".repeat(n * 10)), true),
        (format!("<a>{}", "&#65;".repeat(n)), true),
        (format!("<a>{}", "<".repeat(n)), true),
        (format!("<a>{}", "& ".repeat(n)), true),
        (format!("<a>{}", "<!-- x -->".repeat(n)), true),
        (format!("{}<a>", "<!-- x -->\n".repeat(n)), true),
        (format!("{}<a>", "<?x>".repeat(n)), true),
        (format!("<a {}>", "b=c ".repeat(n)), true),
        (format!("<a b='{}'>", "x&#65;".repeat(n)), true),
        (format!("<!x {}><a>", "'y' ".repeat(n)), true),
        (format!("<a>{}", "<![CDATA[x]]>".repeat(n)), true),
        (format!("<a>{}<b", "x\n".repeat(n)), false),
        (format!("<a>{}<b '", "é".repeat(n)), false),
        (format!("<a>{}&nope;", "é".repeat(n)), false),
    ] {
        probe_parse(&s, ok, Ms::Accept).map_err(|e| format!("{} on {}", e, short(&s, 40)))?;
    }
    Ok(())
}
fn p01_include_deep() -> V {
    let n = 100_000;
    probe_parse(&format!("<a>{}x{}", "<![INCLUDE[".repeat(n), "]]>".repeat(n)), true, Ms::Expand)
}
fn p01_subset_deep() -> V {
    let n = 100_000;
    probe_parse(&format!("<!x {}y{}><a>", "[".repeat(n), "]".repeat(n)), true, Ms::Accept)
}

// ---------------------------------------------------------------------------------------------

pub static C02: Check = Check {
    id: "C02",
    rule: "documents generated from a known list of items and spelled with random lexical choices, parsed under random configurations and compared with the events the items mean (and the reference recogniser); each is spelled twice. Non-trivial = distinct document with at least 3 events that the configuration accepts.",
    case: c02,
    quick: 1_000_000,
    thorough: 16_000_000,
    probes: &[("large", super::big::p02)],
    need: &["accepted", "respelled", "start_tags", "attributes_with_value", "attributes_without_value", "soup_accepted"],
    assumptions: TRUST,
};

fn gen_doc(ctx: &mut Ctx, o: Opts) -> (Doc, Table, Table) {
    let mut o = o;
    if ctx.thorough && ctx.r.chance(1, 10) {
        o.size *= 3;
        o.depth += 3;
    }
    let mut g = Gen::new(&mut ctx.r, o);
    let d = g.doc();
    let t = (g.table.clone(), g.ptable.clone());
    (d, t.0, t.1)
}

/// Checks that the oracles agree with each other before judging anything with them.
fn oracle_agrees(s: &str, cfg: &Cfg, want: &Result<Vec<Ev>, &'static str>) {
    let r = refp::parse(s, cfg);
    match (want, &r) {
        (Err("unspecified"), _) | (_, Err(Stop::Unspec(_))) => {}
        (Ok(w), Ok(p)) => assert!(w == &p.events, "oracles disagree on {:?} with {}: {}", s, cfg.brief(), diff(w, &p.events)),
        (Err(_), Err(_)) => {}
        (w, p) => panic!(
            "oracles disagree on {:?} with {}: generator {:?}, reference {:?}",
            s,
            cfg.brief(),
            w.as_ref().map(|w| w.len()),
            p.as_ref().map(|p| p.events.len())
        ),
    }
}

fn c02(ctx: &mut Ctx) -> V {
    if ctx.r.chance(1, 4) {
        // Whatever the reference accepts is well-formed too
        let (s, t, p) = soup::any_input(&mut ctx.r, 40);
        let cfg = random_cfg(&mut ctx.r, &t, &p);
        ctx.input = format!("{:?} with {}", s, cfg.brief());
        if let Ok(w) = refp::parse(&s, &cfg) {
            let got = real(&cfg.parser(), &s).map_err(|e| format!("well-formed input rejected: {}", e))?;
            expect_eq("events differ", &w.events, &got)?;
            ctx.count("soup_accepted");
            ctx.judged(if got.len() > 2 { Some(s.as_bytes()) } else { None });
        }
        return Ok(());
    }
    let (d, t, p) = gen_doc(ctx, Opts::default());
    for _ in 0..2 {
        let cfg = random_cfg(&mut ctx.r, &t, &p);
        let want = d.expect(&cfg);
        let (s1, _) = d.render(&mut ctx.r);
        let (s2, _) = d.render(&mut ctx.r);
        oracle_agrees(&s1, &cfg, &want);
        let want = match want {
            Ok(w) => w,
            Err(_) => {
                ctx.count("configuration_rejects");
                continue;
            }
        };
        let parser = cfg.parser();
        for s in [&s1, &s2] {
            ctx.input = format!("{:?} with {}", s, cfg.brief());
            let got = real(&parser, s).map_err(|e| format!("well-formed document rejected: {}", e))?;
            expect_eq("events differ", &want, &got)?;
        }
        if s1 != s2 {
            ctx.count("respelled");
        }
        ctx.count("accepted");
        note(ctx, &want);
        for e in &want {
            match e {
                Ev::Open(_) => ctx.count("start_tags"),
                Ev::Attr(_, Some(_)) => ctx.count("attributes_with_value"),
                Ev::Attr(_, None) => ctx.count("attributes_without_value"),
                Ev::Sect(..) => ctx.count("kept_sections"),
                _ => {}
            }
        }
        ctx.judged(if want.len() > 2 { Some(s1.as_bytes()) } else { None });
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub static C03: Check = Check {
    id: "C03",
    rule: "well-formed documents with one fault injected at a random place (including inside INCLUDE sections and the prolog), documents cut inside a construct, documents with one character inside a construct edited (any character), and soup; malformed by the reference means an error is required, and every accepted input must give exactly the reference's events (nothing dropped). Non-trivial = distinct malformed input.",
    case: c03,
    quick: 1_400_000,
    thorough: 30_000_000,
    probes: &[("large", super::big::p03)],
    need: &[
        "accepted", "rejected", "edited", "cut_rejected", "fault_rejected", "fault_in_include", "fault_in_prolog", "fault_undefined", "fault_declaration",
    ],
    assumptions: TRUST,
};

const FAULTS: &[&str] = &[
    "<!DOCTYPE x>", "<!x>", "<!ELEMENT a - - ANY>", "<a b=>", "<a b= >", "<a =c>", "<a 'x'>", "<a b='x'\"y\">", "<a b='x>", "<a b=\"x>", "<a <b>", "<a", "<a b", "</a b>", "</a", "</a/>", "<!-- x", "<!-- x >", "<!-- x -- y -->",
    "<!-- x -- >", "<!->", "<!-", "<![ FOO [x]]>", "<![CDATA FOO[x]]>", "<![CDATA[x", "<![CDATA[x]]", "<![RCDATA[&nope1;]]>", "<![ CDATA x]]>", "<![CDATA", "<![IGNORE[<![x]]>", "<![INCLUDE[<a>", "<![INCLUDE[<!x>]]>",
    "<![INCLUDE[<a b=>]]>", "<![INCLUDE[&nope1;]]>", "<![INCLUDE[<![FOO[]]>]]>", "<![INCLUDE[</a b>]]>", "<?x", "<a b='&nope1;'>", "&nope1;", "&nope1", "&#xD800x;", "<![%nope1;[x]]>", "<a b=c'd>", "<a/ >", "<a b/c>", "<a b=\"x\" =y>", "<a&lt;>", "<a b=c d='>",
    "<a.b,c>", "<a b!>", "<a b='1', c='2'>", "<a, b>", "<a b=c,d='x'>", "<![<a>", "<![]]>", "<![CDATA[x]] >", "<![CDATA[x]>", "<![INCLUDE[x]] >", "<a b=''''>", "</a></a", "<a b='1' <c>", "<![TEMP[<a b='x]]>", "<![INCLUDE[<!-- ]]>", "<![INCLUDE[<?x]]",
];

fn inject(items: &mut Vec<Item>, r: &mut Rng, in_include: bool, f: &str) -> bool {
    // Prefer going down into an INCLUDE section when there is one
    let inc: Vec<usize> = (0..items.len())
        .filter(|i| matches!(&items[*i], Item::Sect(_, Body::Include(_))))
        .collect();
    if !inc.is_empty() && r.chance(3, 4) {
        let i = *r.pick(&inc);
        if let Item::Sect(_, Body::Include(v)) = &mut items[i] {
            return inject(v, r, true, f);
        }
    }
    let at = r.below(items.len() + 1);
    items.insert(at, Item::Raw(f.to_string()));
    in_include
}

fn c03(ctx: &mut Ctx) -> V {
    match ctx.r.below(10) {
        0..=3 => {
            let (d, t, p) = gen_doc(ctx, Opts { size: 5, ..Opts::default() });
            let mut d = d;
            let cfg = {
                let mut c = random_cfg(&mut ctx.r, &t, &p);
                if ctx.r.chance(1, 2) {
                    c.ms = Ms::Expand;
                }
                c
            };
            if d.expect(&cfg).is_err() {
                ctx.count("configuration_rejects");
                // Rejected by the configuration alone: must be an error as it is
                let (s, _) = d.render(&mut ctx.r);
                ctx.input = format!("{:?} with {}", s, cfg.brief());
                differential(ctx, &s, &cfg)?;
                return Ok(());
            }
            let f = if ctx.r.chance(1, 6) {
                format!("<{} {}", ctx.r.pick_str(&["a", "b c", "x y='z'", "é"]), ctx.r.pick_str(&["\"", "<", "=", "!", "'", "&", "1", ",", "[", "?", ";", "é é='", "b=", "b='"]))
            } else {
                ctx.r.pick_str(FAULTS).to_string()
            };
            let prolog = ctx.r.chance(1, 6);
            let inc = if prolog {
                inject(&mut d.lead, &mut ctx.r, false, &f)
            } else {
                inject(&mut d.content, &mut ctx.r, false, &f)
            };
            let (s, _) = d.render(&mut ctx.r);
            ctx.input = format!("{:?} with {}", s, cfg.brief());
            // The fault may be harmless where it landed (say, inside what the text before it opens)
            match refp::parse(&s, &cfg) {
                Err(Stop::Bad(at, what)) => {
                    if let Ok(g) = real(&cfg.parser(), &s) {
                        return Err(format!("malformed input accepted ({} at byte {}; injected {:?}); events {}", what, at, f, short(&format!("{:?}", g), 800)));
                    }
                    ctx.count("fault_rejected");
                    if inc {
                        ctx.count("fault_in_include");
                    }
                    if prolog {
                        ctx.count("fault_in_prolog");
                    }
                    if what == "entity" {
                        ctx.count("fault_undefined");
                    }
                    if what == "declaration in content" {
                        ctx.count("fault_declaration");
                    }
                    ctx.judged(Some(s.as_bytes()));
                }
                _ => {
                    differential(ctx, &s, &cfg)?;
                    ctx.judged(None);
                }
            }
        }
        4..=6 => {
            // Cut inside a construct
            let (d, t, p) = gen_doc(ctx, Opts { size: 4, ..Opts::default() });
            let cfg = random_cfg(&mut ctx.r, &t, &p);
            if d.expect(&cfg).is_err() {
                return Ok(());
            }
            let (s, spans) = d.render(&mut ctx.r);
            if spans.is_empty() {
                return Ok(());
            }
            for _ in 0..3 {
                let sp = ctx.r.pick(&spans).clone();
                let from = sp.start + sp.commit;
                if from >= sp.end {
                    continue;
                }
                let cuts: Vec<usize> = (from..sp.end).filter(|i| s.is_char_boundary(*i)).collect();
                if cuts.is_empty() {
                    continue;
                }
                let at = if ctx.r.chance(1, 3) { *cuts.last().unwrap() } else { *ctx.r.pick(&cuts) };
                let c = &s[..at];
                ctx.input = format!("{:?} with {} (cut inside {})", c, cfg.brief(), sp.kind);
                if let Ok(g) = real(&cfg.parser(), c) {
                    return Err(format!("input cut inside a {} accepted; events {}", sp.kind, short(&format!("{:?}", g), 800)));
                }
                ctx.count("cut_rejected");
                ctx.judged(Some(c.as_bytes()));
            }
        }
        7 => {
            // One character inside a construct is changed, added or taken away
            let (d, t, p) = gen_doc(ctx, Opts { size: 4, ..Opts::default() });
            let cfg = random_cfg(&mut ctx.r, &t, &p);
            let (s, spans) = d.render(&mut ctx.r);
            if spans.is_empty() {
                return Ok(());
            }
            for _ in 0..4 {
                let sp = ctx.r.pick(&spans).clone();
                let c = soup::edit_one(&mut ctx.r, &s, sp.start, sp.end);
                ctx.input = format!("{:?} with {} (edited inside {})", c, cfg.brief(), sp.kind);
                differential(ctx, &c, &cfg)?;
                ctx.count("edited");
                ctx.judged(Some(c.as_bytes()));
            }
        }
        8 if ctx.r.chance(1, 3) => {
            // Nothing but prolog is not a document
            let mut g = Gen::new(&mut ctx.r, Opts::default());
            let lead = g.lead();
            let (t, p) = (g.table.clone(), g.ptable.clone());
            let d = Doc { lead, content: vec![] };
            let cfg = random_cfg(&mut ctx.r, &t, &p);
            let (s, _) = d.render(&mut ctx.r);
            ctx.input = format!("{:?} with {}", s, cfg.brief());
            differential(ctx, &s, &cfg)?;
            ctx.judged(if s.is_empty() { None } else { Some(s.as_bytes()) });
        }
        _ => {
            let (s, t, p) = if ctx.r.chance(1, 8) {
                (soup::nested(&mut ctx.r, 12), Table::new(), Table::new())
            } else {
                soup::any_input(&mut ctx.r, 40)
            };
            let cfg = random_cfg(&mut ctx.r, &t, &p);
            ctx.input = format!("{:?} with {}", s, cfg.brief());
            differential(ctx, &s, &cfg)?;
            ctx.judged(Some(s.as_bytes()));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub static C04: Check = Check {
    id: "C04",
    rule: "documents with comments inserted at random construct boundaries (content, INCLUDE sections, prolog, declaration subsets), compared with the same document without them, with other comments, and with the ground truth; comments carry a marker that must not reach any event. Non-trivial = distinct document holding at least one comment.",
    case: c04,
    quick: 900_000,
    thorough: 16_000_000,
    probes: &[("large", super::big::p04)],
    need: &["comments", "empty_comments", "multi_comments", "in_include", "literal_lookalikes", "comment_ends_document", "text_interrupted"],
    assumptions: TRUST,
};

fn hostile_comment(r: &mut Rng, extra: &str) -> String {
    let mut g = Gen::new(r, Opts::default());
    let c = g.comment();
    if c == "<!>" || c == "<!---->" {
        return c;
    }
    // The marker goes right after the first opening
    format!("<!--{}{}", extra, &c[4..])
}

const MARK: &str = "ZZqCOMMENTq";

fn add_comments(items: &mut Vec<Item>, ctx: &mut Ctx, inc: bool, den: usize) {
    let mut i = 0;
    while i <= items.len() {
        if ctx.r.chance(1, den) {
            let c = hostile_comment(&mut ctx.r, MARK);
            ctx.count("comments");
            if c == "<!>" {
                ctx.count("empty_comments");
            }
            if c.matches("--").count() > 2 {
                ctx.count("multi_comments");
            }
            if inc {
                ctx.count("in_include");
            }
            items.insert(i, Item::Comment(c));
            i += 1;
        }
        if i < items.len() {
            if let Item::Sect(_, Body::Include(v)) = &mut items[i] {
                add_comments(v, ctx, true, den);
            }
        }
        i += 1;
    }
}

/// Splits some texts in two so that a comment can interrupt them.
fn split_texts(items: &mut Vec<Item>, r: &mut Rng) {
    let mut i = 0;
    while i < items.len() {
        if let Item::Sect(_, Body::Include(v)) = &mut items[i] {
            split_texts(v, r);
        }
        if let Item::Text(p) = &items[i] {
            if p.len() > 1 && r.chance(1, 3) {
                let k = r.range(1, p.len() - 1);
                let (mut a, mut b) = (p[..k].to_vec(), p[k..].to_vec());
                fix_refs(&mut a);
                fix_refs(&mut b);
                // Pieces must not combine into markup or references when joined
                let joined_ok = !ends_open(&spell(&a));
                if joined_ok {
                    items[i] = Item::Text(a);
                    items.insert(i + 1, Item::Text(b));
                    i += 1;
                }
            }
        }
        i += 1;
    }
}

fn ends_open(s: &str) -> bool {
    // Ends in what might combine with following text: an unfinished reference or tag opener
    if s.ends_with(|c: char| matches!(c, '<' | '&' | '!' | '/' | '#' | ']' | '-' | '?')) {
        return true;
    }
    match s.rfind('&') {
        Some(i) => s[i + 1..].chars().all(|c| is_name_char(c) || c == '#'),
        None => false,
    }
}

fn comments_between_texts(items: &mut Vec<Item>, ctx: &mut Ctx) {
    let mut i = 1;
    while i < items.len() {
        if matches!((&items[i - 1], &items[i]), (Item::Text(_), Item::Text(_))) {
            let c = hostile_comment(&mut ctx.r, MARK);
            ctx.count("text_interrupted");
            items.insert(i, Item::Comment(c));
            i += 1;
        }
        i += 1;
    }
    for it in items {
        if let Item::Sect(_, Body::Include(v)) = it {
            comments_between_texts(v, ctx);
        }
    }
}

fn map_comments(items: &[Item], f: &mut dyn FnMut() -> Option<String>) -> Vec<Item> {
    let mut v = vec![];
    for it in items {
        match it {
            Item::Comment(_) => {
                if let Some(c) = f() {
                    v.push(Item::Comment(c))
                }
            }
            Item::Sect(k, Body::Include(b)) => v.push(Item::Sect(k.clone(), Body::Include(map_comments(b, f)))),
            other => v.push(other.clone()),
        }
    }
    v
}

fn contains_mark(e: &Ev) -> bool {
    match e {
        Ev::Decl(a, b) | Ev::Sect(a, b) => a.contains(MARK) || b.contains(MARK),
        Ev::Attr(a, b) => a.contains(MARK) || b.as_ref().map_or(false, |b| b.contains(MARK)),
        Ev::Pi(a) | Ev::Open(a) | Ev::End(a) | Ev::Char(a) => a.contains(MARK),
        _ => false,
    }
}

fn c04(ctx: &mut Ctx) -> V {
    let o = Opts {
        comments: false,
        safe_text: true,
        size: 5,
        ..Opts::default()
    };
    let (mut d, t, p) = gen_doc(ctx, o);
    let mut cfg = random_cfg(&mut ctx.r, &t, &p);
    if ctx.r.chance(1, 2) {
        cfg.ms = Ms::Expand;
    }
    let den = ctx.r.range(2, 6);
    split_texts(&mut d.content, &mut ctx.r);
    comments_between_texts(&mut d.content, ctx);
    add_comments(&mut d.lead, ctx, false, den);
    add_comments(&mut d.content, ctx, false, den);
    // A comment before the first construct of the content is one of the prolog
    if ctx.r.chance(1, 8) {
        d.content.push(Item::Comment(hostile_comment(&mut ctx.r, MARK)));
    }
    if matches!(d.content.last(), Some(Item::Comment(_))) {
        ctx.count("comment_ends_document");
    }
    let seed = ctx.r.u64();
    let render = |d: &Doc| d.render(&mut Rng::new(seed)).0;
    let s = render(&d);
    let want = d.expect(&cfg);
    // White space that opens the content after a comment is prolog; the generator knows no such thing
    if starts_blank_after_comment(&d) {
        ctx.count("blank_start_skipped");
        return Ok(());
    }
    oracle_agrees(&s, &cfg, &want);
    let want = match want {
        Ok(w) => w,
        Err(_) => return Ok(()),
    };
    ctx.input = format!("{:?} with {}", s, cfg.brief());
    let got = real(&cfg.parser(), &s).map_err(|e| format!("document with comments rejected: {}", e))?;
    expect_eq("events of the document with comments", &want, &got)?;
    if cfg.ms != Ms::Keep {
        if let Some(e) = got.iter().find(|e| contains_mark(e)) {
            return Err(format!("part of a comment appears in {:?}", e));
        }
    }
    for e in &got {
        match e {
            Ev::Attr(_, Some(v)) if v.contains("--") || v.contains("<!") => ctx.count("literal_lookalikes"),
            Ev::Char(v) | Ev::Pi(v) if v.contains("<!--") => ctx.count("literal_lookalikes"),
            _ => {}
        }
    }
    note(ctx, &got);
    let has = s.contains("<!--") || s.contains("<!>");
    ctx.judged(if has { Some(s.as_bytes()) } else { None });
    if cfg.ms == Ms::Keep {
        return Ok(());
    }
    // Without comments, and with others in their places
    let bare = Doc {
        lead: map_comments(&d.lead, &mut || None),
        content: map_comments(&d.content, &mut || None),
    };
    let mut r2 = Rng::new(ctx.r.u64());
    let other = Doc {
        lead: map_comments(&d.lead, &mut || Some(hostile_comment(&mut r2, "other"))),
        content: map_comments(&d.content, &mut || Some(hostile_comment(&mut r2, "other"))),
    };
    let s_other = render(&other);
    ctx.input = format!("{:?} against {:?} with {}", s_other, s, cfg.brief());
    let got_other = real(&cfg.parser(), &s_other).map_err(|e| format!("document with other comments rejected: {}", e))?;
    expect_eq("events after changing comments", &got, &got_other)?;
    let s_bare = render(&bare);
    ctx.input = format!("{:?} against {:?} with {}", s_bare, s, cfg.brief());
    let got_bare = real(&cfg.parser(), &s_bare).map_err(|e| format!("document without comments rejected: {}", e))?;
    if cfg.trim {
        expect_eq("events after removing comments (text aside)", &no_chars(&got), &no_chars(&got_bare))?;
        let strip = |s: String| s.chars().filter(|c| !is_ws(*c)).collect::<String>();
        if strip(texts(&got)) != strip(texts(&got_bare)) {
            return Err(format!("text changed after removing comments: {:?} and {:?}", texts(&got), texts(&got_bare)));
        }
    } else {
        expect_eq("events after removing comments", &merge(&got), &merge(&got_bare))?;
    }
    Ok(())
}

fn starts_blank_after_comment(d: &Doc) -> bool {
    // The first construct of the content that is not a comment decides where the prolog ends
    let mut seen_comment = false;
    for it in &d.content {
        match it {
            Item::Comment(_) => seen_comment = true,
            Item::Text(p) => return seen_comment && spell(p).starts_with(is_ws) || seen_comment && spell(p).is_empty(),
            _ => return false,
        }
    }
    true
}

// ---------------------------------------------------------------------------------------------

pub static C05: Check = Check {
    id: "C05",
    rule: "texts of reference-like tokens expanded by the three public functions with a recording, stateful lookup; result, questions asked (in order) and errors (name and byte range) compared with the reference expansion. Non-trivial = distinct text holding a prefix character.",
    case: c05,
    quick: 4_000_000,
    thorough: 60_000_000,
    probes: &[("large", super::big::p05), ("all-chars", p05_all), ("code-ranges", p05_ranges)],
    need: &["ok", "undefined", "character_references", "unchanged", "parameter", "invalid_numeric"],
    assumptions: TRUST,
};

fn ref_text(r: &mut Rng, max: usize) -> String {
    let n = r.tail(6, max);
    let mut s = String::new();
    for _ in 0..n {
        match r.below(13) {
            0 => s.push('&'),
            1 => s.push('%'),
            12 => match crate::dict::word(r) {
                Some(w) => s.push_str(w),
                None => s.push_str(r.pick_str(&["\n", "\t", "\r\n", "\n\n", "\r", "   ", "]]", "]]>", "<!", "'", "\"'", "'a'", "\"a\"", "/", "\\", "http://a/b", "true", "xml", "HTML", "null", "$", "{", "}", "+", "=", "0", "\u{c}"])),
            },
            2 => {
                let v: u64 = match r.below(6) {
                    0 => r.below(0x110010) as u64,
                    1 => r.range(0xd7f0, 0xe010) as u64,
                    2 => r.range(0x10fff0, 0x110010) as u64,
                    3 => *r.pick(&[0, 4294967295, 4294967296, 4294967361, 18446744073709551615, 1 << 31, 99999999999]),
                    _ => r.below(130) as u64,
                };
                let z = "0".repeat(r.tail(2, 30));
                match r.below(4) {
                    0 | 1 => s.push_str(&format!("&#{}{}", z, v)),
                    2 => s.push_str(&format!("&#x{}{:x}", z, v)),
                    _ => s.push_str(&format!("&#x{}{:X}", z, v)),
                }
            }
            3 => s.push_str(r.pick_str(&[";", ";", ";;", "#", "x", ".", "-", "_", ":"])),
            4 => s.push_str(r.pick_str(&["&lt;", "&x;", "&é", "&a.b-c_d:e;", "&nope;", "%p;", "%q", "%nope;", "&#SPACE;", "&#é;", "%#p;", "&#x;", "&#X41;", "&#x4G;", "&#xé;", "&#-1;", "&#+65;", "&#x+41;", "&#x-1", "&#6_5;"])),
            5 => {
                let name = random_name(r, 40);
                s.push_str(r.pick_str(&["&", "&#", "%", "&#x"]));
                s.push_str(&name);
                if r.bool() {
                    s.push(';');
                }
            }
            6 => s.push_str(r.pick_str(&["&#", "&#x", "&&", "%%", "&;", "%;", "&#;", "& ", "% ", "&1", "%1", "&#٣;", "&٣;", "&#x٣"])),
            7 => s.push(*r.pick(&[' ', '\n', '\u{a0}', '\0', '\u{10ffff}', 'é', '🦀', '\u{301}'])),
            8 => {
                if let Some(c) = char::from_u32(r.below(0x110000) as u32) {
                    s.push(c)
                }
            }
            _ => s.push_str(r.pick_str(&["a", "text", "1", "65", "lt", "<b>", "\"", "é", "x41", "=", "amp"])),
        }
    }
    s
}

fn c05(ctx: &mut Ctx) -> V {
    let mut s = ref_text(&mut ctx.r, if ctx.thorough { 400 } else { 80 });
    if ctx.r.chance(1, 2000) {
        // Some part of it, thousands of times
        s = soup::amplify(&mut ctx.r, &s, 6000);
        ctx.max("longest_text", s.len() as u64);
    }
    ctx.input = format!("{:?}", s);
    let mode = ctx.r.below(5);
    // Undefined: none, everything, by hash, from the k-th on
    let k = ctx.r.below(4);
    let salt = ctx.r.u64();
    let answer = |n: &str, i: usize| -> Option<String> {
        let def = match mode {
            0 | 1 => true,
            2 => crate::rng::hash_bytes(n.as_bytes()) ^ salt & 3 != 0 && !n.starts_with("nope"),
            3 => i < k,
            _ => !n.contains("nope"),
        };
        if !def {
            return None;
        }
        Some(match (i + n.len()) % 7 {
            0 => String::new(),
            1 => format!("&{};", n),
            2 => format!("&#65;{}", i),
            3 => format!("%{};", n),
            4 => "<&>\"'".into(),
            _ => format!("[{}#{}]", n, i),
        })
    };
    for param in [false, true] {
        let mut wasked = vec![];
        let want = refp::expand(&s, param, &mut |n| {
            let a = answer(n, wasked.len());
            wasked.push(n.to_string());
            a
        });
        let mut asked = vec![];
        let got = if ctx.r.bool() {
            let f = |n: &str| {
                let a = answer(n, asked.len());
                asked.push(n.to_string());
                a
            };
            if param {
                entities::expand_parameter_entities(&s, f)
            } else {
                entities::expand_entities(&s, f)
            }
            .map(|c| c.into_owned())
        } else {
            let f = |n: &str| {
                let a = answer(n, asked.len());
                asked.push(n.to_string());
                a.map(std::borrow::Cow::<'static, str>::Owned)
            };
            if param {
                entities::expand_parameter_entities(&s, f)
            } else {
                entities::expand_entities(&s, f)
            }
            .map(|c| c.into_owned())
        };
        let what = if param { "expand_parameter_entities" } else { "expand_entities" };
        let got = got.map_err(|e| (e.entity, e.position));
        if want != got {
            return Err(format!("{}({:?}): expected {:?}, got {:?}", what, s, want, got));
        }
        if wasked != asked {
            return Err(format!("{}({:?}) asked for {:?}, expected {:?}", what, s, asked, wasked));
        }
        match &got {
            Ok(o) => {
                ctx.count("ok");
                if *o == s {
                    ctx.count("unchanged");
                }
            }
            Err((n, r)) => {
                ctx.count("undefined");
                if n.starts_with('#') && !param {
                    ctx.count("invalid_numeric");
                }
                if !s[r.clone()].contains(n.as_str()) {
                    return Err(format!("{}({:?}): range {:?} does not hold {:?}", what, s, r, n));
                }
            }
        }
        if param && !asked.is_empty() {
            ctx.count("parameter");
        }
        if !param && want.is_ok() && s.matches("&#").count() > 0 && asked.len() < s.matches('&').count() {
            ctx.count("character_references");
        }
        let trivial = !s.contains(if param { '%' } else { '&' });
        ctx.judged(if trivial { None } else { Some(s.as_bytes()) });
    }
    // Without any lookup
    let want = refp::expand(&s, false, &mut |_| None);
    let got = entities::expand_characters(&s).map(|c| c.into_owned()).map_err(|e| (e.entity, e.position));
    if want != got {
        return Err(format!("expand_characters({:?}): expected {:?}, got {:?}", s, want, got));
    }
    Ok(())
}

/// Every Unicode character through a decimal and a hexadecimal reference.
fn p05_all() -> V {
    crate::fw::sweep(0x110010, || |v| {
        for (t, name) in [
            (format!("a&#{};b", v), format!("#{}", v)),
            (format!("a&#x{:x};b", v), format!("#x{:x}", v)),
            (format!("a&#x{:06X} b", v), format!("#x{:06X}", v)),
        ] {
            let end = if t.ends_with(" b") { " b" } else { "b" };
            let got = entities::expand_entities(&t, |n| if n == name { Some("NAME") } else { None });
            let want = match char::from_u32(v) {
                Some(c) => format!("a{}{}", c, end),
                None => format!("aNAME{}", end),
            };
            if got.as_deref() != Ok(&want) {
                return Err(format!("{:?}: expected {:?}, got {:?}", t, want, got));
            }
        }
        if let Some(c) = char::from_u32(v) {
            // Which characters start and continue names
            let t = format!("&{}x&a{};", c, c);
            let mut w = vec![];
            let want = refp::expand(&t, false, &mut |n| {
                w.push(n.to_string());
                Some("!".into())
            });
            let mut g = vec![];
            let got = entities::expand_entities(&t, |n| {
                g.push(n.to_string());
                Some("!")
            });
            if want.as_deref().ok() != got.as_deref().ok() || w != g {
                return Err(format!("{:?}: expected {:?} asking {:?}, got {:?} asking {:?}", t, want, w, got, g));
            }
        }
        Ok(())
    })
}

/// Numeric references around every power of two and ten, with leading zeros.
fn p05_ranges() -> V {
    let mut vs: Vec<u128> = vec![];
    for k in 0..70 {
        for d in [-1i128, 0, 1, 65] {
            vs.push(((1i128 << k) + d).max(0) as u128);
        }
    }
    for k in 0..25 {
        vs.push(10u128.pow(k));
        vs.push(10u128.pow(k) - 1);
    }
    for v in vs {
        for z in [0, 1, 7, 20] {
            for (raw, name) in [
                (format!("&#{}{};", "0".repeat(z), v), format!("#{}{}", "0".repeat(z), v)),
                (format!("&#x{}{:x};", "0".repeat(z), v), format!("#x{}{:x}", "0".repeat(z), v)),
            ] {
                let mut asked = vec![];
                let got = entities::expand_entities(&raw, |n| {
                    asked.push(n.to_string());
                    None::<&str>
                });
                match u32::try_from(v).ok().and_then(char::from_u32) {
                    Some(c) => {
                        if got.as_deref().ok() != Some(c.to_string().as_str()) {
                            return Err(format!("{}: got {:?}", raw, got));
                        }
                    }
                    None => {
                        if asked != [name.clone()] || got.as_ref().err().map(|e| (e.entity.clone(), e.position.clone())) != Some((name.clone(), 0..raw.len())) {
                            return Err(format!("{}: expected to be undefined, got {:?} after asking {:?}", raw, got, asked));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub static C06: Check = Check {
    id: "C06",
    rule: "documents full of references, parsed with hostile replacement texts and with inert ones through a recording lookup: same constructs, values equal to the ground truth, and exactly the names that stand in expandable places asked in order. Non-trivial = distinct document with at least one reference expanded.",
    case: c06,
    quick: 1_200_000,
    thorough: 20_000_000,
    probes: &[("large", super::big::p06)],
    need: &["undefined", "names_asked", "hostile_replacements", "in_rcdata", "in_attributes", "left_literal"],
    assumptions: TRUST,
};

const HOSTILE: &[&str] = &[
    "<b>", "</a>", "<", ">", "]]>", "\"", "'", "\">", "'>", "&lt;", "&#60;", "&x;", "<!-- ", "-->", "<![CDATA[", "<?pi>", "<!DOCTYPE x>", "/>", " ", "", "\n", "  x  ", " y=\"z\"", "<![IGNORE[", "&", "%p;", "a\u{0}b", "<b c='d'>", "]]", "--",
];

fn c06(ctx: &mut Ctx) -> V {
    let (d, t, p) = gen_doc(ctx, Opts { size: 5, ..Opts::default() });
    let base = {
        let mut c = random_cfg(&mut ctx.r, &t, &p);
        if c.ents.is_none() || ctx.r.chance(1, 2) {
            c.ents = Some(t.clone());
        }
        if ctx.r.chance(1, 2) {
            c.ms = Ms::Expand;
        }
        c
    };
    let (s, _) = d.render(&mut ctx.r);
    let mut kinds: Vec<Vec<Ev>> = vec![];
    for hostile in [true, false] {
        let mut cfg = base.clone();
        let table: Table = t
            .keys()
            .map(|k| {
                let v = if hostile {
                    ctx.r.pick_str(HOSTILE).to_string()
                } else {
                    format!("[{}]", k)
                };
                (k.clone(), v)
            })
            .collect();
        cfg.ents = Some(table.clone());
        let want = match d.expect(&cfg) {
            Ok(w) => w,
            Err(_) => {
                ctx.input = format!("{:?} with {}", s, cfg.brief());
                differential(ctx, &s, &cfg)?;
                return Ok(());
            }
        };
        let refr = match refp::parse(&s, &cfg) {
            Ok(r) => r,
            Err(Stop::Unspec(_)) => return Ok(()),
            Err(e) => panic!("reference rejects generated document {:?}: {:?}", s, e),
        };
        let asked: Rc<RefCell<Vec<String>>> = Default::default();
        let rec = asked.clone();
        let parser = cfg
            .builder()
            .expand_entities(move |n| {
                rec.borrow_mut().push(n.to_string());
                table.get(n).cloned()
            })
            .build();
        ctx.input = format!("{:?} with {}", s, cfg.brief());
        let got = real(&parser, &s).map_err(|e| format!("rejected: {}", e))?;
        expect_eq("events", &want, &got)?;
        let asked = asked.borrow();
        // In keep mode included sections are read once to find their end; what is asked there is not specified
        let (mut a, mut w): (Vec<&String>, Vec<&String>) = (asked.iter().collect(), refr.asked.iter().collect());
        if cfg.ms == Ms::Keep {
            a.sort();
            a.dedup();
            w.sort();
            w.dedup();
        }
        if a != w {
            return Err(format!("names asked: {:?}, expected {:?}", asked, refr.asked));
        }
        ctx.add("names_asked", asked.len() as u64);
        if hostile {
            ctx.add("hostile_replacements", asked.len() as u64);
        }
        if s.contains("RCDATA") || s.contains("rcdata") {
            ctx.count("in_rcdata");
        }
        if got.iter().any(|e| matches!(e, Ev::Attr(_, Some(_)))) && !asked.is_empty() {
            ctx.count("in_attributes");
        }
        if got.iter().any(|e| matches!(e, Ev::Pi(x) | Ev::Char(x) if x.contains("&undefined;"))) {
            ctx.count("left_literal");
        }
        ctx.judged(if s.contains('&') { Some(s.as_bytes()) } else { None });
        // Constructs, contents aside. White-space-only and empty replacements keep their text event
        kinds.push(
            got.iter()
                .map(|e| match e {
                    Ev::Attr(n, v) => Ev::Attr(n.clone(), v.as_ref().map(|_| String::new())),
                    Ev::Char(_) => Ev::Char(String::new()),
                    e => e.clone(),
                })
                .collect(),
        );
    }
    if kinds.len() == 2 {
        expect_eq("replacement text changed the constructs", &kinds[1], &kinds[0])?;
    }
    undefined(ctx, &s, &base)
}

/// The same document where one of the names is not defined, although names much like it are.
fn undefined(ctx: &mut Ctx, s: &str, base: &Cfg) -> V {
    let mut cfg = base.clone();
    let asked = match refp::parse(s, &cfg) {
        Ok(r) if !r.asked.is_empty() => r.asked,
        _ => return Ok(()),
    };
    let name = asked[ctx.r.below(asked.len())].clone();
    let table: Table = asked.iter().filter(|n| **n != name).map(|n| (n.clone(), "x".to_string())).collect();
    cfg.ents = Some(table.clone());
    let calls: Rc<RefCell<Vec<String>>> = Default::default();
    let (rec, missing) = (calls.clone(), name.clone());
    let others = asked.clone();
    let parser = cfg
        .builder()
        .expand_entities(move |n| {
            rec.borrow_mut().push(n.to_string());
            // Every other name there might be has a replacement
            if n == missing || others.iter().any(|o| o == n) {
                table.get(n).cloned()
            } else {
                Some("x".to_string())
            }
        })
        .build();
    ctx.input = format!("{:?} with {} and {:?} undefined", s, cfg.brief(), name);
    ctx.count("undefined");
    match real(&parser, s) {
        Ok(_) => return Err(format!("accepted, although {:?} is not defined", name)),
        Err(e) if e.contains(&format!("entity '{}' is not defined", name)) => {}
        Err(e) => return Err(format!("the error does not name {:?}: {}", name, e)),
    }
    let calls = calls.borrow();
    let first = asked.iter().position(|n| *n == name).unwrap();
    if base.ms != Ms::Keep && calls[..] != asked[..first + 1] {
        return Err(format!("names asked: {:?}, expected {:?}", calls, &asked[..first + 1]));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub static C07: Check = Check {
    id: "C07",
    rule: "documents with one marked section whose keyword list is random (known, unknown, repeated, odd case, look-alikes, parameter entities, odd spacing) under the three handling modes, compared with the documented priority rule; the keyword functions are compared directly; included content is compared with the same content outside a section. Non-trivial = distinct (keyword list, mode, body).",
    case: c07,
    quick: 1_000_000,
    thorough: 12_000_000,
    probes: &[("large", super::big::p07), ("lists-up-to-4", p07_lists)],
    need: &["accepted", "rejected", "keep", "cdata", "rcdata", "ignore", "include", "parameter_entities", "unknown_keyword"],
    assumptions: TRUST,
};

fn keyword_list(r: &mut Rng, allow_pe: bool) -> String {
    let n = r.weighted(&[2, 6, 4, 2, 1]);
    let mut s = String::new();
    if r.chance(1, 4) {
        s.push_str(r.pick_str(WS));
    }
    for i in 0..n {
        if i > 0 {
            if r.chance(1, 12) && allow_pe {
                // No space
            } else {
                s.push_str(r.pick_str(WS));
            }
        }
        let k = match r.below(if allow_pe { 12 } else { 9 }) {
            0..=5 => r.pick_str(&["CDATA", "RCDATA", "IGNORE", "INCLUDE", "TEMP"]).to_string(),
            6 | 7 => {
                let k = r.pick_str(&["CDATA", "RCDATA", "IGNORE", "INCLUDE", "TEMP"]);
                k.chars().map(|c| if r.bool() { c.to_ascii_lowercase() } else { c }).collect()
            }
            8 => {
                if r.chance(1, 2) {
                    r.pick_str(&["CDATA", "IGNORE"]).into()
                } else {
                    r.pick_str(&["FOO", "CDATAX", "XCDATA", "CDAT", "ıgnore", "İGNORE", "ﬁ", "RCDATA,", "CDATA\u{a0}", "TEMPORARY", "INCLUDED", "R", "SYSTEM", "SDATA", "%", "#", "PCDATA", "C DATA", "IN\u{200b}CLUDE", "ＣDATA", "CDATA\u{b}", "ignore."])
                        .to_string()
                }
            }
            _ => r.pick_str(&["%p;", "%q;", "%p", "%r;", "%HTML.x;", "%nope;", "%p;%q;"]).to_string(),
        };
        s.push_str(&k);
    }
    if r.chance(1, 4) {
        s.push_str(r.pick_str(WS));
    }
    if r.chance(1, 300) {
        let n = magnitude(r, 400);
        let t = format!("{} ", r.pick_str(&["CDATA", "TEMP", "", "\n", "INCLUDE"]));
        s.insert_str(0, &t.repeat(n));
    }
    s
}

fn c07(ctx: &mut Ctx) -> V {
    let mut pents = Table::new();
    for k in ["p", "q", "r", "HTML.x"] {
        if ctx.r.chance(3, 4) {
            let v = if ctx.r.chance(1, 2) {
                ctx.r.pick_str(&["CDATA", "RCDATA", "IGNORE", "INCLUDE", "TEMP", "", " "]).to_string()
            } else {
                keyword_list(&mut ctx.r, false)
            };
            pents.insert(k.into(), v);
        }
    }
    let kw = keyword_list(&mut ctx.r, true);
    // The keyword functions
    {
        let list = if ctx.r.bool() { kw.clone() } else { keyword_list(&mut ctx.r, false) };
        ctx.input = format!("keyword list {:?}", list);
        let conv = |s: Status| match s {
            Status::CData => MarkedSectionStatus::CData,
            Status::RcData => MarkedSectionStatus::RcData,
            Status::Ignore => MarkedSectionStatus::Ignore,
            Status::Include => MarkedSectionStatus::Include,
        };
        let want = refp::status_of(&list).map(conv);
        let got = MarkedSectionStatus::from_keywords(&list);
        if want != got {
            return Err(format!("from_keywords({:?}): expected {:?}, got {:?}", list, want, got));
        }
        use sgmlish::parser::MarkedSectionHandling as H;
        for h in [H::ExpandAll, H::KeepUnmodified] {
            let got = h.parse_keywords(&list);
            if want != got {
                return Err(format!("{:?}.parse_keywords({:?}): expected {:?}, got {:?}", h, list, want, got));
            }
        }
        let got = H::AcceptOnlyCharacterData.parse_keywords(&list);
        let want1 = match refp::keyword_status(&list) {
            Some(s @ (Status::CData | Status::RcData)) => Some(conv(s)),
            _ => None,
        };
        let padded = list.trim_matches(refp::is_ascii_ws) != list;
        if !padded && got.ok() != want1 {
            return Err(format!("AcceptOnlyCharacterData.parse_keywords({:?}): expected {:?}, got {:?}", list, want1, got));
        }
        let one = list.parse::<MarkedSectionStatus>().ok();
        if one != refp::keyword_status(&list).map(conv) {
            return Err(format!("{:?}.parse(): got {:?}", list, one));
        }
    }
    // A section in a document
    let mut g = Gen::new(&mut ctx.r, Opts { size: 2, depth: 2, sections: false, comments: true, ..Opts::default() });
    let ents = g.table.clone();
    let mut body_items = vec![];
    let pick = g.r.below(8);
    let body = match pick {
        0 => String::new(),
        1 => " ".into(),
        2 => "x".into(),
        3 => " <b c='d'>y</b> &lt; &#65; ".into(),
        4 => {
            let n = g.cdata_body();
            n
        }
        5 => "a &undefined; b".into(),
        _ => {
            g.content(2, true, &mut body_items);
            let mut s = String::new();
            render_items(&body_items, &mut s, &mut Rng::new(1), &mut vec![], true);
            s
        }
    };
    let before = ctx.r.pick_str(&["<r>", "", "<!x>", "<r>t", "<r> ", "<r><![CDATA[z]]>"]).to_string();
    let after = ctx.r.pick_str(&["</r>", "<r>", "t", "<r>]]>", " <r>t", "<r><![RCDATA[w]]>"]).to_string();
    let s = format!("{}<![{}[{}]]>{}", before, kw, body, after);
    for ms in [Ms::Keep, Ms::Accept, Ms::Expand] {
        let mut cfg = random_cfg(&mut ctx.r, &ents, &pents);
        cfg.ms = ms;
        ctx.input = format!("{:?} with {}", s, cfg.brief());
        let ev = differential(ctx, &s, &cfg)?;
        let mut h = s.clone().into_bytes();
        h.push(ms as u8);
        ctx.judged(Some(&h));
        if kw.contains('%') {
            ctx.count("parameter_entities");
        }
        let st = refp::expand(trim_ws(&kw), true, &mut |n| cfg.pents.as_ref().and_then(|t| t.get(n).cloned()))
            .ok()
            .map(|k| refp::status_of(&k).map_err(|_| ()));
        match st {
            Some(Err(())) => {
                ctx.count("unknown_keyword");
                if ev.is_some() {
                    return Err("unknown keyword accepted".into());
                }
            }
            Some(Ok(st)) if ev.is_some() => {
                ctx.count(match (ms, st) {
                    (Ms::Keep, _) => "keep",
                    (_, Status::CData) => "cdata",
                    (_, Status::RcData) => "rcdata",
                    (_, Status::Ignore) => "ignore",
                    (_, Status::Include) => "include",
                });
                // Included content counts as if the section were not there
                if ms == Ms::Expand && st == Status::Include && before.starts_with("<r>") && !before.ends_with(' ') && !after.starts_with(|c: char| c != '<') {
                    let plain = format!("{}<!-- -->{}<!-- -->{}", before, body, after);
                    if pick != 4 && !body.contains("]]>") && !ends_open(&body) {
                        let a = ev.unwrap();
                        let b = real(&cfg.parser(), &plain).map_err(|e| format!("content of an included section rejected outside one: {}", e))?;
                        expect_eq("included content differs from the same content outside a section", &b, &a)?;
                        ctx.count("include_compared");
                    }
                }
            }
            _ => {}
        }
    }
    Ok(())
}

/// All keyword lists of up to four keywords, in each mode.
fn p07_lists() -> V {
    let kws = ["CDATA", "rcdata", "Ignore", "INCLUDE", "temp", "FOO"];
    let rank = |k: &str| match k {
        "Ignore" => 3,
        "CDATA" => 2,
        "rcdata" => 1,
        _ => 0,
    };
    let mut lists: Vec<Vec<&str>> = vec![vec![]];
    let mut all = lists.clone();
    for _ in 0..4 {
        let mut next = vec![];
        for l in &lists {
            for k in kws {
                let mut l = l.clone();
                l.push(k);
                next.push(l);
            }
        }
        all.extend(next.clone());
        lists = next;
    }
    for l in all {
        let s = format!("<r><![ {} [<b>&#65;</b>]]></r>", l.join(" "));
        let top = l.iter().map(|k| rank(k)).max().unwrap_or(0);
        for ms in [Ms::Keep, Ms::Accept, Ms::Expand] {
            let cfg = Cfg { ms, ..Cfg::default() };
            let got = real(&cfg.parser(), &s);
            let open = vec![Ev::Open("r".into()), Ev::Close];
            let end = vec![Ev::End("r".into())];
            let mid = match (ms, top) {
                (Ms::Keep, _) => vec![Ev::Sect(l.join(" "), "<b>&#65;</b>".into())],
                (_, 3) => vec![],
                (_, 2) => vec![Ev::Char("<b>&#65;</b>".into())],
                (_, 1) => vec![Ev::Char("<b>A</b>".into())],
                _ => vec![Ev::Open("b".into()), Ev::Close, Ev::Char("A".into()), Ev::End("b".into())],
            };
            let bad = l.contains(&"FOO") || (ms == Ms::Accept && !(l.len() == 1 && (top == 1 || top == 2)));
            match (bad, got) {
                (true, Err(_)) => {}
                (true, Ok(g)) => return Err(format!("{:?} in {:?} accepted: {:?}", s, ms, g)),
                (false, Err(e)) => return Err(format!("{:?} in {:?} rejected: {}", s, ms, e)),
                (false, Ok(g)) => {
                    let want: Vec<Ev> = open.into_iter().chain(mid).chain(end).collect();
                    expect_eq(&format!("{:?} in {:?}", s, ms), &want, &g)?;
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub static C08: Check = Check {
    id: "C08",
    rule: "sections with known bodies (near-ends, nested starts, quoted and nested ends, empty) followed by text, under keep and expand modes; the body and what follows are compared with the ground truth, and each section cut before its end must be an error. Non-trivial = distinct document.",
    case: c08,
    quick: 800_000,
    thorough: 12_000_000,
    probes: &[("large", super::big::p08), ("bodies-of-6", p08_enum)],
    need: &["cdata", "rcdata", "ignore", "include", "kept", "expanded", "text_after", "cut_rejected", "nested_ignore", "end_as_text", "quoted_end", "empty_include"],
    assumptions: TRUST,
};

fn c08(ctx: &mut Ctx) -> V {
    let mut g = Gen::new(&mut ctx.r, Opts { size: 3, depth: 3, ..Opts::default() });
    let (ents, pents) = (g.table.clone(), g.ptable.clone());
    let st = *g.r.pick(&[Status::CData, Status::RcData, Status::Ignore, Status::Include]);
    let mut it = g.section_of(st, 3);
    if st == Status::Include && g.r.chance(1, 3) {
        // Ends that do not end it
        let q = g.r.pick_str(&["]]>", "<![x]]>", "]]>]]>", "<", "]]>>"]).to_string();
        let x = match g.r.below(5) {
            0 => Item::Tag("b".into(), vec![("c".into(), Val::Quoted('\'', vec![Piece::Lit(q)]))], false),
            1 => Item::Tag("b".into(), vec![("c".into(), Val::Quoted('"', vec![Piece::Lit(q)])), ("d".into(), Val::None)], true),
            2 => Item::Comment(format!("<!-- {} -->", q)),
            3 => Item::Sect("CDATA".into(), Body::CData("]] >".into())),
            _ => Item::Sect("IGNORE".into(), Body::Ignore("<![x]]>]]".into())),
        };
        if let Item::Sect(_, Body::Include(v)) = &mut it {
            let at = g.r.below(v.len() + 1);
            v.insert(at, x);
        }
    }
    let mut after = vec![];
    match g.r.below(5) {
        0 => after.push(Item::Text(vec![Piece::Lit("]]>".into())])),
        1 => after.push(Item::Text(vec![Piece::Lit("]]> x".into())])),
        2 => {
            let t = g.text(false);
            after.push(Item::Text(t));
        }
        3 => g.content(2, false, &mut after),
        _ => {}
    }
    let mut content = vec![Item::Tag("r".into(), vec![], false)];
    if g.r.chance(1, 3) {
        let mut t = g.text(false);
        if ends_open(&spell(&t)) {
            t.push(Piece::Lit(" .".into()));
        }
        content.push(Item::Text(t));
    }
    match (&st, &it) {
        (Status::Include, Item::Sect(_, Body::Include(v))) if v.is_empty() => ctx.count("empty_include"),
        (Status::Ignore, Item::Sect(_, Body::Ignore(b))) if b.contains("<![") => ctx.count("nested_ignore"),
        _ => {}
    }
    let name = match st {
        Status::CData => "cdata",
        Status::RcData => "rcdata",
        Status::Ignore => "ignore",
        Status::Include => "include",
    };
    content.push(it);
    let n_before = content.len();
    content.extend(after);
    let mut d = Doc { lead: vec![], content };
    let in_prolog = ctx.r.chance(1, 10);
    if in_prolog {
        let sect = d.content.remove(n_before - 1);
        d.lead.push(sect);
        d.content.insert(n_before - 1, Item::Tag("sep".into(), vec![], false));
    }
    let text_follows = d.content.len() > n_before;
    if ctx.r.chance(1, 200) {
        amplify(&mut ctx.r, &mut d, 400);
    }
    for ms in [Ms::Keep, Ms::Expand] {
        let mut cfg = random_cfg(&mut ctx.r, &ents, &pents);
        cfg.ents = Some(ents.clone());
        cfg.pents = Some(pents.clone());
        cfg.ms = ms;
        let (s, spans) = d.render(&mut ctx.r);
        let want = d.expect(&cfg);
        oracle_agrees(&s, &cfg, &want);
        let want = match want {
            Ok(w) => w,
            Err(_) => {
                ctx.input = format!("{:?} with {}", s, cfg.brief());
                differential(ctx, &s, &cfg)?;
                continue;
            }
        };
        ctx.input = format!("{:?} with {}", s, cfg.brief());
        let got = real(&cfg.parser(), &s).map_err(|e| format!("rejected: {}", e))?;
        expect_eq("events", &want, &got)?;
        ctx.count(name);
        ctx.count(if ms == Ms::Keep { "kept" } else { "expanded" });
        if !in_prolog && text_follows {
            ctx.count("text_after");
        }
        if got.iter().any(|e| matches!(e, Ev::Char(x) if x.contains("]]>"))) {
            ctx.count("end_as_text");
        }
        if st == Status::Include && got.iter().any(|e| matches!(e, Ev::Attr(_, Some(x)) if x.contains("]]>"))) {
            ctx.count("quoted_end");
        }
        ctx.judged(Some(s.as_bytes()));
        // Never ending: cut anywhere in the section, also right before its end
        let sect: Vec<_> = spans.iter().filter(|x| x.kind == "section").cloned().collect();
        if let Some(sp) = sect.last() {
            let cuts: Vec<usize> = (sp.start + 3..sp.end).filter(|i| s.is_char_boundary(*i)).collect();
            for at in [*ctx.r.pick(&cuts), *cuts.last().unwrap()] {
                // Nothing after the cut may close it
                ctx.input = format!("{:?} with {} (cut inside a section)", &s[..at], cfg.brief());
                if let Ok(g) = real(&cfg.parser(), &s[..at]) {
                    return Err(format!("section that never ends accepted: {}", short(&format!("{:?}", g), 600)));
                }
                ctx.count("cut_rejected");
            }
        }
    }
    Ok(())
}

/// Every body of up to six tokens of the section alphabet, under each keyword.
fn p08_enum() -> V {
    let toks = ["<![", "]]>", "]", ">", "x", "<"];
    let mut bodies = vec![String::new()];
    let mut layer = vec![String::new()];
    for _ in 0..6 {
        let mut next = vec![];
        for b in &layer {
            for t in toks {
                next.push(format!("{}{}", b, t));
            }
        }
        bodies.extend(next.iter().cloned());
        layer = next;
    }
    for kw in ["CDATA", "RCDATA", "IGNORE", "INCLUDE"] {
        for b in &bodies {
            let s = format!("<r><![{}[{}]]>]]>y", kw, b);
            for ms in [Ms::Keep, Ms::Expand] {
                let cfg = Cfg { ms, trim: false, ..Cfg::default() };
                let want = refp::parse(&s, &cfg);
                let got = real(&cfg.parser(), &s);
                match (want, got) {
                    (Err(Stop::Unspec(_)), _) => {}
                    (Ok(w), Ok(g)) => expect_eq(&format!("{:?} {:?}", s, ms), &w.events, &g)?,
                    (Err(_), Err(_)) => {}
                    (w, g) => return Err(format!("{:?} {:?}: expected {:?}, got {:?}", s, ms, w.map(|w| w.events), g)),
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub static C09: Check = Check {
    id: "C09",
    rule: "documents and soup parsed with trimming on and off: the trimmed events must be the untrimmed ones with each text run stripped of space, tab, CR and LF at its edges only (ground truth for generated documents, where white space from references is kept). Non-trivial = distinct input where trimming changes something or odd white space is at an edge.",
    case: c09,
    quick: 900_000,
    thorough: 12_000_000,
    probes: &[("large", super::big::p09), ("edge-chars", p09_edges)],
    need: &["trimmed", "dropped_runs", "untouched_edges", "attribute_edges", "soup"],
    assumptions: TRUST,
};

fn c09(ctx: &mut Ctx) -> V {
    let generated = ctx.r.chance(3, 4);
    let (s, doc, ents, pents) = if generated {
        let (d, t, p) = gen_doc(ctx, Opts { size: 5, ..Opts::default() });
        let (s, _) = d.render(&mut ctx.r);
        (s, Some(d), t, p)
    } else {
        let (s, t, p) = soup::any_input(&mut ctx.r, 40);
        (s, None, t, p)
    };
    let mut cfg = random_cfg(&mut ctx.r, &ents, &pents);
    cfg.trim = false;
    let mut tcfg = cfg.clone();
    tcfg.trim = true;
    ctx.input = format!("{:?} with {}", s, cfg.brief());
    let off = real(&cfg.parser(), &s);
    let on = real(&tcfg.parser(), &s);
    let (off, on) = match (off, on) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(_), Err(_)) => {
            if let Some(d) = &doc {
                if d.expect(&cfg).is_ok() {
                    return Err("well-formed document rejected".into());
                }
            }
            return Ok(());
        }
        (a, b) => return Err(format!("trimming changes acceptance: off {:?}, on {:?}", a.map(|_| ()), b.map(|_| ()))),
    };
    if let Some(d) = &doc {
        if let (Ok(w), Ok(wt)) = (d.expect(&cfg), d.expect(&tcfg)) {
            expect_eq("untrimmed events", &w, &off)?;
            expect_eq("trimmed events", &wt, &on)?;
        }
    } else if let (Ok(w), Ok(wt)) = (refp::parse(&s, &cfg), refp::parse(&s, &tcfg)) {
        ctx.count("soup");
        expect_eq("untrimmed events", &w.events, &off)?;
        expect_eq("trimmed events", &wt.events, &on)?;
    }
    // Relation between the two, independent of any model
    expect_eq("trimming changed other events", &no_chars(&off), &no_chars(&on))?;
    let mut j = 0;
    let mut changed = false;
    for e in &off {
        match e {
            Ev::Char(t) => {
                // Present in trimmed form, or gone because it was blank
                let kept = match on.get(j) {
                    Some(Ev::Char(u)) => {
                        // u is t without some edge white space
                        let lead = t.len() - t.trim_start_matches(is_ws).len();
                        let trail = t.len() - t.trim_end_matches(is_ws).len();
                        t.len() >= u.len()
                            && ((t.len() - u.len()).saturating_sub(trail)..=lead.min(t.len() - u.len()))
                                .any(|k| t.is_char_boundary(k) && t[k..].starts_with(u.as_str()))
                    }
                    _ => false,
                };
                if kept && !(t.chars().all(is_ws) && !matches!(on.get(j), Some(Ev::Char(u)) if u == t || u.chars().all(is_ws))) {
                    if let Some(Ev::Char(u)) = on.get(j) {
                        if u != t {
                            changed = true;
                            ctx.count("trimmed");
                        } else if t.starts_with(char::is_whitespace) || t.ends_with(char::is_whitespace) {
                            changed = true;
                            ctx.count("untouched_edges");
                        }
                    }
                    j += 1;
                } else if t.chars().all(is_ws) {
                    changed = true;
                    ctx.count("dropped_runs");
                } else {
                    return Err(format!("text {:?} became {:?}", t, on.get(j)));
                }
            }
            e => {
                if on.get(j) != Some(e) {
                    return Err(format!("event {:?} became {:?}", e, on.get(j)));
                }
                if let Ev::Attr(_, Some(v)) = e {
                    if v.starts_with(is_ws) || v.ends_with(is_ws) {
                        ctx.count("attribute_edges");
                    }
                }
                j += 1;
            }
        }
    }
    if j != on.len() {
        return Err(format!("trimming added {:?}", &on[j..]));
    }
    ctx.judged(if changed { Some(s.as_bytes()) } else { None });
    Ok(())
}

/// Which characters are trimmed, over all of Unicode, at both edges.
fn p09_edges() -> V {
    crate::fw::sweep(0x110000, || {
    let on = Cfg { ms: Ms::Expand, ..Cfg::default() }.parser();
    let off = Cfg { ms: Ms::Expand, trim: false, ..Cfg::default() }.parser();
    move |v| {
        let c = match char::from_u32(v) {
            Some(c) if c != '<' && c != '&' => c,
            _ => return Ok(()),
        };
        let raw = format!("{}x{}y{}", c, c, c);
        let s = format!("<a b='{}'>{}</a><![CDATA[{}]]>", if c == '\'' { "" } else { &raw }, raw, raw);
        for (p, trim) in [(&on, true), (&off, false)] {
            let got = real(p, &s).map_err(|e| format!("{:?}: {}", s, e))?;
            let t = if trim && is_ws(c) { format!("x{}y", c) } else { raw.clone() };
            let want = vec![
                Ev::Open("a".into()),
                Ev::Attr("b".into(), Some(if c == '\'' { String::new() } else { raw.clone() })),
                Ev::Close,
                Ev::Char(t.clone()),
                Ev::End("a".into()),
                Ev::Char(t),
            ];
            expect_eq(&format!("{:?} trim={}", s, trim), &want, &got)?;
            // Only that character
            let got = real(p, &format!("<a>{}</a>", c)).map_err(|e| e.to_string())?;
            let n = if trim && is_ws(c) { 3 } else { 4 };
            if got.len() != n {
                return Err(format!("{:?} alone, trim={}: {:?}", c, trim, got));
            }
        }
        Ok(())
    }
    })
}

// ---------------------------------------------------------------------------------------------

pub static C10: Check = Check {
    id: "C10",
    rule: "documents and soup parsed unchanged, lowercased and uppercased: names must be the full Unicode mapping of the unchanged ones and everything else equal; names recased in the input must come out equal. Non-trivial = distinct input with a name that a mapping changes.",
    case: c10,
    quick: 900_000,
    thorough: 12_000_000,
    probes: &[("large", super::big::p10), ("all-chars", p10_all)],
    need: &["changed_names", "non_ascii_names", "other_events", "recased", "normalize_calls"],
    assumptions: TRUST,
};

fn norm_ev(e: &Ev, n: Norm) -> Ev {
    let f = |s: &String| match n {
        Norm::Same => s.clone(),
        Norm::Lower => s.to_lowercase(),
        Norm::Upper => s.to_uppercase(),
    };
    match e {
        Ev::Open(s) => Ev::Open(f(s)),
        Ev::Attr(s, v) => Ev::Attr(f(s), v.clone()),
        Ev::End(s) => Ev::End(f(s)),
        e => e.clone(),
    }
}

fn recase(items: &[Item], r: &mut Rng) -> Vec<Item> {
    // Only characters whose two cases map to each other one to one
    let mut f = |s: &String| -> String {
        s.chars()
            .map(|c| {
                let l: Vec<char> = c.to_lowercase().collect();
                let u: Vec<char> = c.to_uppercase().collect();
                if l.len() == 1 && u.len() == 1 && c.is_ascii() && r.bool() {
                    if c == l[0] {
                        u[0]
                    } else {
                        l[0]
                    }
                } else {
                    c
                }
            })
            .collect()
    };
    items
        .iter()
        .map(|it| match it {
            Item::Tag(n, a, x) => Item::Tag(f(n), a.iter().map(|(k, v)| (f(k), v.clone())).collect(), *x),
            Item::End(n) => Item::End(f(n)),
            it => it.clone(),
        })
        .collect()
}

fn c10(ctx: &mut Ctx) -> V {
    let generated = ctx.r.chance(3, 4);
    let (s, doc, ents, pents) = if generated {
        let (d, t, p) = gen_doc(ctx, Opts { size: 5, ..Opts::default() });
        let (s, _) = d.render(&mut ctx.r);
        (s, Some(d), t, p)
    } else {
        let (s, t, p) = soup::any_input(&mut ctx.r, 40);
        (s, None, t, p)
    };
    let mut cfg = random_cfg(&mut ctx.r, &ents, &pents);
    cfg.norm = Norm::Same;
    ctx.input = format!("{:?} with {}", s, cfg.brief());
    let base = real(&cfg.parser(), &s);
    if let (Some(d), Ok(b)) = (&doc, &base) {
        if let Ok(w) = d.expect(&cfg) {
            expect_eq("names kept by default", &w, b)?;
        }
    }
    for n in [Norm::Lower, Norm::Upper] {
        let mut c = cfg.clone();
        c.norm = n;
        let got = real(&c.parser(), &s);
        match (&base, &got) {
            (Ok(b), Ok(g)) => {
                let want: Vec<Ev> = b.iter().map(|e| norm_ev(e, n)).collect();
                expect_eq(&format!("{:?}", n), &want, g)?;
                let mut changed = false;
                for (a, w) in b.iter().zip(&want) {
                    match a {
                        Ev::Open(x) | Ev::End(x) | Ev::Attr(x, _) => {
                            if !x.is_ascii() {
                                ctx.count("non_ascii_names");
                            }
                            if a != w {
                                changed = true;
                                ctx.count("changed_names");
                            }
                        }
                        _ => ctx.count("other_events"),
                    }
                }
                ctx.judged(if changed { Some(s.as_bytes()) } else { None });
            }
            (Err(_), Err(_)) => {}
            _ => return Err(format!("{:?} changes acceptance", n)),
        }
        // Names written in another case come out the same
        if let (Some(d), Ok(g)) = (&doc, &got) {
            let d2 = Doc {
                lead: d.lead.clone(),
                content: recase(&d.content, &mut ctx.r),
            };
            let (s2, _) = d2.render(&mut ctx.r);
            ctx.input = format!("{:?} recased as {:?} with {}", s, s2, c.brief());
            let g2 = real(&c.parser(), &s2).map_err(|e| format!("recased document rejected: {}", e))?;
            let keepless = |v: &[Ev]| v.to_vec();
            expect_eq("recased document", &keepless(g), &keepless(&g2))?;
            ctx.count("recased");
        }
    }
    // The shortcuts and the function itself
    use sgmlish::parser::NameNormalization as N;
    let name = random_name(&mut ctx.r, 60) + &random_name(&mut ctx.r, 60);
    ctx.input = format!("name {:?}", name);
    for (n, want) in [(N::Unchanged, name.clone()), (N::ToLowercase, name.to_lowercase()), (N::ToUppercase, name.to_uppercase())] {
        let got = n.normalize((&name[..]).into());
        if got != want {
            return Err(format!("{:?} of {:?}: {:?}, expected {:?}", n, name, got, want));
        }
        let got = n.normalize(name.clone().into());
        if got != want {
            return Err(format!("{:?} of owned {:?}: {:?}, expected {:?}", n, name, got, want));
        }
    }
    ctx.count("normalize_calls");
    Ok(())
}

/// Every alphanumeric character, as tag, attribute and end tag name.
fn p10_all() -> V {
    crate::fw::sweep(0x110000, || {
    let ps = [
        (Cfg { norm: Norm::Lower, ..Cfg::default() }, sgmlish::Parser::builder().lowercase_names().build()),
        (Cfg { norm: Norm::Upper, ..Cfg::default() }, sgmlish::Parser::builder().uppercase_names().build()),
        (Cfg::default(), sgmlish::Parser::new()),
    ];
    move |v| {
        let c = match char::from_u32(v) {
            Some(c) if is_name_char(c) => c,
            _ => return Ok(()),
        };
        for n in [format!("a{}B", c), format!("{}", c), format!("{}x{}", c, c), format!("Σ{}", c)] {
            if !is_name_start(n.chars().next().unwrap()) {
                continue;
            }
            let s = format!("<{n} {n} {n}={n}>{n}</{n}>");
            for (cfg, p) in &ps {
                let m = cfg.norm_name(&n);
                let want = vec![
                    Ev::Open(m.clone()),
                    Ev::Attr(m.clone(), None),
                    Ev::Attr(m.clone(), Some(n.clone())),
                    Ev::Close,
                    Ev::Char(n.clone()),
                    Ev::End(m),
                ];
                let got = real(p, &s).map_err(|e| format!("{:?} rejected: {}", s, e))?;
                expect_eq(&format!("{:?} {:?}", s, cfg.norm), &want, &got)?;
            }
        }
        Ok(())
    }
    })
}

// ---------------------------------------------------------------------------------------------

pub static C11: Check = Check {
    id: "C11",
    rule: "documents and soup parsed with all four settings of the ignore options under otherwise equal configurations; ignoring must equal filtering, with equal acceptance, and other options must not change the declarations and instructions reported. Non-trivial = distinct accepted input holding a declaration or instruction.",
    case: c11,
    quick: 1_500_000,
    thorough: 25_000_000,
    probes: &[("large", super::big::p11)],
    need: &["accepted", "rejected", "declarations", "instructions", "content_instructions", "other_options"],
    assumptions: TRUST,
};

fn c11(ctx: &mut Ctx) -> V {
    let (s, ents, pents) = if ctx.r.chance(2, 3) {
        let (d, t, p) = gen_doc(ctx, Opts { size: 4, ..Opts::default() });
        let (mut s, _) = d.render(&mut ctx.r);
        if ctx.r.chance(1, 4) {
            s = soup::mutate(&mut ctx.r, &s);
        }
        (s, t, p)
    } else if ctx.r.bool() {
        // Prolog-heavy soup
        let mut s = String::new();
        for _ in 0..ctx.r.range(1, 8) {
            s.push_str(ctx.r.pick_str(&["<!DOCTYPE x>", "<!y [<!z>]>", "<?pi>", "<!-- c -->", " ", "\n", "<![IGNORE[<?x>]]>", "<![INCLUDE[<?y>]]>", "<a>", "t", "<?", ">", "<!e '>'>", "<!>", "</a>", "<![CDATA[<?n>]]>"]));
        }
        (s, Table::new(), Table::new())
    } else {
        soup::any_input(&mut ctx.r, 40)
    };
    let mut base = random_cfg(&mut ctx.r, &ents, &pents);
    base.ign_decl = false;
    base.ign_pi = false;
    ctx.input = format!("{:?} with {}", s, base.brief());
    let all = real(&base.parser(), &s);
    for (d, p) in [(true, false), (false, true), (true, true)] {
        let mut c = base.clone();
        c.ign_decl = d;
        c.ign_pi = p;
        ctx.input = format!("{:?} with {}", s, c.brief());
        let got = real(&c.parser(), &s);
        match (&all, got) {
            (Ok(a), Ok(g)) => {
                let want: Vec<Ev> = a
                    .iter()
                    .filter(|e| !(d && matches!(e, Ev::Decl(..)) || p && matches!(e, Ev::Pi(_))))
                    .cloned()
                    .collect();
                expect_eq("ignoring is not filtering", &want, &g)?;
            }
            (Err(_), Err(_)) => {}
            (a, g) => return Err(format!("acceptance changes: without {:?}, with {:?}", a.as_ref().map(|_| ()), g.map(|_| ()))),
        }
    }
    match &all {
        Ok(a) => {
            ctx.count("accepted");
            let nd = a.iter().filter(|e| matches!(e, Ev::Decl(..))).count();
            let np = a.iter().filter(|e| matches!(e, Ev::Pi(_))).count();
            ctx.add("declarations", nd as u64);
            ctx.add("instructions", np as u64);
            if let Some(i) = a.iter().position(|e| matches!(e, Ev::Open(_) | Ev::Char(_))) {
                if a[i..].iter().any(|e| matches!(e, Ev::Pi(_))) {
                    ctx.count("content_instructions");
                }
            }
            ctx.judged(if nd + np > 0 { Some(s.as_bytes()) } else { None });
            // Other options: same declarations and instructions
            let mut c = base.clone();
            c.trim = !c.trim;
            c.norm = *ctx.r.pick(&[Norm::Same, Norm::Lower, Norm::Upper]);
            ctx.input = format!("{:?} with {} against {}", s, c.brief(), base.brief());
            let got = real(&c.parser(), &s).map_err(|e| format!("trimming or name options change acceptance: {}", e))?;
            let only = |v: &[Ev]| v.iter().filter(|e| matches!(e, Ev::Decl(..) | Ev::Pi(_))).cloned().collect::<Vec<_>>();
            expect_eq("declarations and instructions under other options", &only(a), &only(&got))?;
            ctx.count("other_options");
            if let Ok(w) = refp::parse(&s, &base) {
                expect_eq("declarations and instructions", &only(&w.events), &only(a))?;
            }
        }
        Err(_) => {
            ctx.count("rejected");
            ctx.judged(None);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub static C12: Check = Check {
    id: "C12",
    rule: "prologs of generated declarations (literals, comments, nested subsets and declarations, near-ends) and instructions anywhere, compared with the ground truth; declaration soup compared with the reference, also through the raw parsers. Non-trivial = distinct prolog holding a declaration with a body or an instruction.",
    case: c12,
    quick: 2_000_000,
    thorough: 25_000_000,
    probes: &[("large", super::big::p12), ("declarations-of-6", p12_enum)],
    need: &["declarations", "subsets", "literals_with_end", "comments_in_declarations", "instructions", "rejected"],
    assumptions: TRUST,
};

fn c12(ctx: &mut Ctx) -> V {
    if ctx.r.chance(1, 2) {
        let mut g = Gen::new(&mut ctx.r, Opts { size: 3, sections: false, ..Opts::default() });
        let mut lead = vec![];
        for _ in 0..g.r.range(1, 4) {
            match g.r.below(6) {
                0 => lead.push(Item::Pi(g.pi())),
                1 => lead.push(Item::Ws(g.ws())),
                2 => lead.push(Item::Comment(g.comment())),
                _ => {
                    let dep = g.r.tail(3, 8);
                    let (k, b) = g.decl_parts(dep);
                    lead.push(Item::Decl(k, b));
                }
            }
        }
        let mut content = vec![Item::Tag("r".into(), vec![], false)];
        g.content(2, false, &mut content);
        if g.r.chance(1, 3) {
            let p = g.pi();
            content.push(Item::Pi(p));
        }
        let (t, p) = (g.table.clone(), g.ptable.clone());
        let mut d = Doc { lead, content };
        for _ in 0..2 {
            if ctx.r.chance(1, 300) {
                amplify(&mut ctx.r, &mut d, 400);
            }
        }
        let mut cfg = random_cfg(&mut ctx.r, &t, &p);
        cfg.ents = Some(t);
        cfg.ign_decl = false;
        cfg.ign_pi = false;
        let (s, spans) = d.render(&mut ctx.r);
        let want = d.expect(&cfg);
        oracle_agrees(&s, &cfg, &want);
        let want = match want {
            Ok(w) => w,
            Err(_) => return Ok(()),
        };
        ctx.input = format!("{:?} with {}", s, cfg.brief());
        let got = real(&cfg.parser(), &s).map_err(|e| format!("rejected: {}", e))?;
        expect_eq("events", &want, &got)?;
        for e in &got {
            match e {
                Ev::Decl(_, b) => {
                    ctx.count("declarations");
                    if b.contains('[') {
                        ctx.count("subsets");
                    }
                    if b.contains("'>") || b.contains(">'") || b.contains("\">") || b.contains(">\"") {
                        ctx.count("literals_with_end");
                    }
                    if b.contains("--") {
                        ctx.count("comments_in_declarations");
                    }
                }
                Ev::Pi(_) => ctx.count("instructions"),
                _ => {}
            }
        }
        // The raw parsers on each span
        #[cfg(feature = "combinators")]
        for sp in &spans {
            let rest = &s[sp.start..];
            match sp.kind {
                "declaration" => {
                    let r = sgmlish::parser::raw::markup_declaration::<nom::error::Error<&str>>(rest);
                    match r {
                        Ok((after, _)) if after.len() == s.len() - sp.end => ctx.count("raw_agrees"),
                        r => return Err(format!("raw::markup_declaration on {:?}: {:?}", rest, r)),
                    }
                }
                "pi" => {
                    let r = sgmlish::parser::raw::processing_instruction::<nom::error::Error<&str>>(rest);
                    match r {
                        Ok((after, out)) if after.len() == s.len() - sp.end && out == &s[sp.start..sp.end] => ctx.count("raw_agrees"),
                        r => return Err(format!("raw::processing_instruction on {:?}: {:?}", rest, r)),
                    }
                }
                _ => {}
            }
        }
        ctx.judged(Some(s.as_bytes()));
    } else {
        let mut s = String::new();
        let n = ctx.r.range(1, 3);
        for _ in 0..n {
            s.push_str(ctx.r.pick_str(&["<!x ", "<!DOCTYPE r [", "<!e", "<!y", "<?", "<!ELEMENT a"]));
            for _ in 0..ctx.r.tail(7, 40) {
                s.push_str(ctx.r.pick_str(&[
                    "[", "]", ">", "<!z", "<!z>", "'", "\"", "'>'", "\"]\"", "--", "-", "- ", " ", "\n", "x", "<?p>", "<!-- c -->", "<!>", "-- > --", "é", "]>", "<", "[]", "<!-", "%p;", "&lt;", "/", "?>", "\u{a0}",
                ]));
            }
            s.push_str(ctx.r.pick_str(&[">", "]>", "'>", "\">", "-->", "]]>", " >"]));
        }
        s.push_str(ctx.r.pick_str(&["<r>", "x", "", " <r>y"]));
        let cfg = random_cfg(&mut ctx.r, &Table::new(), &Table::new());
        ctx.input = format!("{:?} with {}", s, cfg.brief());
        differential(ctx, &s, &cfg)?;
        ctx.judged(Some(s.as_bytes()));
    }
    Ok(())
}

/// Every declaration body of up to six tokens.
fn p12_enum() -> V {
    let toks = ["[", "]", ">", "'", "--", "-", "x", " ", "<!y", "<?"];
    let cfg = Cfg { trim: false, ..Cfg::default() };
    let p = cfg.parser();
    let mut layer = vec![String::new()];
    for _ in 0..6 {
        let mut next = vec![];
        for b in &layer {
            for t in toks {
                next.push(format!("{}{}", b, t));
            }
        }
        for b in &next {
            for s in [format!("<!d {}><r>", b), format!("<!d {}]>'>-->r", b)] {
                match (refp::parse(&s, &cfg), p.parse(&s)) {
                    (Err(Stop::Unspec(_)), _) => {}
                    (Ok(w), Ok(g)) => expect_eq(&format!("{:?}", s), &w.events, &convs(&g))?,
                    (Err(_), Err(_)) => {}
                    (w, g) => return Err(format!("{:?}: expected {:?}, got {:?}", s, w.map(|w| w.events), g)),
                }
            }
        }
        layer = next;
        if layer.len() > 60_000 {
            break;
        }
    }
    Ok(())
}

#[allow(dead_code)]
pub fn shape_of(evs: &[Ev]) -> Vec<u8> {
    shape(evs)
}
#[allow(dead_code)]
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    no_panic("call", f)
}
