//! C26: the public combinators. Set apart (feature `combinators`), so that the other checks can be
//! built even where a combinator has another signature.

use super::*;
use crate::fw::{Check, Ctx, V};
use crate::gen::*;
use crate::refp::{self, Stop, P};
use crate::soup;
use nom::error::{ContextError, FromExternalError, ParseError};
use nom::IResult;
use sgmlish::parser::raw::MarkedSectionEndHandling as Mse;
use sgmlish::parser::{events, raw, util, ParserConfig};

pub const CHECKS: &[&Check] = &[&C26];

// ---------------------------------------------------------------------------------------------

pub static C26: Check = Check {
    id: "C26",
    rule: "every public combinator of parser::raw, parser::events and parser::util run on soup, documents and their suffixes, with two error types: consumed prefix, untouched rest and output compared with the reference cursor; event iterators drained with their length checked at every step. Non-trivial = distinct (combinator, input) that succeeded.",
    case: c26,
    quick: 300_000,
    thorough: 12_000_000,
    probes: &[("large", p26_large)],
    need: &[
        "comment_declaration", "comment", "raw::markup_declaration", "keywords", "character_data", "ignore_body", "section_end", "raw::pi", "raw::text", "plain_text", "open_start_tag", "close_start_tag", "xml_close",
        "empty_start_tag", "raw::attribute", "attribute_value", "unquoted", "quoted", "raw::end_tag", "name", "name_start", "take_until", "spaces", "comments_and_spaces", "prolog", "markup_declaration", "section",
        "pi", "content", "content_item", "start_tag", "attribute", "text", "document", "iterator_drained", "composed",
    ],
    assumptions: &["the reference cursor (refp.rs)"],
};

/// Runs a construct of the reference on `s`. Err: not specified. Ok(None): must fail.
fn refx<T>(s: &str, cfg: &Cfg, f: impl FnOnce(&mut P) -> Result<T, Stop>) -> Result<Option<(usize, T)>, ()> {
    let mut p = P::new(s, cfg);
    match f(&mut p) {
        Ok(t) => Ok(Some((p.pos(), t))),
        Err(Stop::Unspec(_)) => Err(()),
        Err(Stop::Bad(..)) => Ok(None),
    }
}

fn bad<T>() -> Result<T, Stop> {
    Err(Stop::Bad(0, ""))
}

struct J<'c> {
    ctx: &'c mut Ctx,
    s: &'c str,
}

impl<'c> J<'c> {
    fn judge<T: PartialEq + std::fmt::Debug, U, E>(
        &mut self,
        name: &'static str,
        want: Result<Option<(usize, T)>, ()>,
        got: IResult<&'c str, U, E>,
        conv: impl FnOnce(U) -> Result<T, String>,
    ) -> V {
        let s = self.s;
        let want = match want {
            Err(()) => return Ok(()),
            Ok(w) => w,
        };
        self.ctx.evals += 1;
        match (want, got) {
            (None, Err(_)) => Ok(()),
            (Some((n, t)), Ok((rest, u))) => {
                if rest.as_ptr() as usize != s.as_ptr() as usize + (s.len().saturating_sub(rest.len())) || rest.len() > s.len() {
                    return Err(format!("{}: the rest {:?} is not what is left of the input", name, rest));
                }
                let u = conv(u).map_err(|e| format!("{}: {}", name, e))?;
                if s.len() - rest.len() != n {
                    return Err(format!("{}: consumed {:?}, expected {:?}", name, &s[..s.len() - rest.len()], &s[..n]));
                }
                if u != t {
                    return Err(format!("{}: output {:?}, expected {:?}", name, u, t));
                }
                self.ctx.count(name);
                let h = format!("{} {}", name, &s[..n]);
                self.ctx.hashes.push(crate::rng::hash_bytes(h.as_bytes()));
                Ok(())
            }
            (Some((n, t)), Err(_)) => Err(format!("{}: fails, expected to consume {:?} and output {:?}", name, &s[..n], t)),
            (None, Ok((rest, _))) => Err(format!("{}: accepts {:?}, expected to fail", name, &s[..s.len() - rest.len()])),
        }
    }
}

fn drain(mut it: events::EventIter) -> Result<Vec<Ev>, String> {
    let n = it.len();
    let mut v = vec![];
    loop {
        let left = it.len();
        if it.size_hint() != (left, Some(left)) || left != n - v.len().min(n) {
            return Err(format!("iterator of {} events, {} taken, reports {} left and hint {:?}", n, v.len(), left, it.size_hint()));
        }
        let _ = format!("{:?}", it);
        match it.next() {
            Some(e) => v.push(conv(&e)),
            None => break,
        }
        if v.len() > n {
            return Err(format!("iterator yields more than the {} events it reported", n));
        }
    }
    if v.len() != n {
        return Err(format!("iterator yields {} events and reported {}", v.len(), n));
    }
    for _ in 0..3 {
        if it.next().is_some() || it.len() != 0 {
            return Err("exhausted iterator goes on".into());
        }
    }
    Ok(v)
}

fn content_prefix(p: &mut P, stop: bool) -> Result<(), Stop> {
    let mut n = 0;
    while !p.rest().is_empty() {
        if stop && p.at("]]>") {
            break;
        }
        if p.at("<!") && p.nth(2).map_or(false, is_name_start) {
            break;
        }
        if p.at_comment() {
            if n == 0 {
                return bad();
            }
            p.comment()?;
            continue;
        }
        p.item(stop)?;
        n += 1;
    }
    if n == 0 {
        return bad();
    }
    Ok(())
}

fn item_prefix(p: &mut P, stop: bool) -> Result<(), Stop> {
    if p.rest().is_empty() || p.at_comment() || (stop && p.at("]]>")) {
        return bad();
    }
    p.item(stop)
}

fn prolog_prefix(p: &mut P) -> Result<(), Stop> {
    loop {
        if p.at("<!") && p.nth(2).map_or(false, is_name_start) {
            p.declaration(true)?;
        } else if p.at("<![") {
            p.section()?;
        } else if p.at("<?") {
            p.pi()?;
        } else {
            return Ok(());
        }
        p.comments_and_ws()?;
    }
}

fn combinators<'a, E>(ctx: &mut Ctx, s: &'a str, cfg: &Cfg, pc: &ParserConfig) -> V
where
    E: ParseError<&'a str> + ContextError<&'a str> + FromExternalError<&'a str, sgmlish::Error>,
{
    // Every output is compared by value; the rest is compared by address
    let mut j = J { ctx, s };
    let own = |x: &str| -> Result<String, String> { Ok(x.to_string()) };
    macro_rules! raw {
        ($name:expr, $f:expr, $model:expr) => {
            j.judge($name, refx(s, cfg, $model), $f, own)?
        };
    }
    raw!("comment_declaration", raw::comment_declaration::<E>(s), |p| {
        if !p.at_comment() {
            return bad();
        }
        p.comment()?;
        Ok(s[..p.pos()].to_string())
    });
    raw!("comment", raw::comment::<E>(s), |p| {
        if !p.eat("--") {
            return bad();
        }
        Ok(p.until("--", 0, "")?.to_string())
    });
    j.judge(
        "raw::markup_declaration",
        refx(s, &Cfg { ign_decl: false, ..cfg.clone() }, |p| {
            if !p.at("<!") || !p.nth(2).map_or(false, is_name_start) {
                return bad();
            }
            p.declaration(true)?;
            match p.out.pop() {
                Some(Ev::Decl(k, b)) => Ok((k, b)),
                _ => bad(),
            }
        }),
        raw::markup_declaration::<E>(s),
        |(k, b)| Ok((k.to_string(), b.to_string())),
    )?;
    raw!("keywords", raw::marked_section_start_and_keywords::<E>(s), |p| {
        if !p.eat("<![") {
            return bad();
        }
        let from = p.pos();
        while p.peek().map_or(false, |c| !matches!(c, '[' | ']' | '<' | '>' | '!')) {
            p.bump();
        }
        let k = trim_ws(&s[from..p.pos()]).to_string();
        if !p.eat("[") {
            return bad();
        }
        Ok(k)
    });
    raw!("character_data", raw::marked_section_body_character_data::<E>(s), |p| Ok(p.until("]]>", 0, "")?.to_string()));
    raw!("ignore_body", raw::marked_section_body_ignore::<E>(s), |p| {
        let mut depth = 0;
        loop {
            if p.rest().is_empty() {
                return bad();
            }
            if p.eat("]]>") {
                if depth == 0 {
                    return Ok(s[..p.pos() - 3].to_string());
                }
                depth -= 1;
            } else if p.eat("<![") {
                depth += 1;
            } else {
                p.bump();
            }
        }
    });
    macro_rules! token {
        ($name:expr, $f:expr, $t:expr) => {
            raw!($name, $f, |p| if p.eat($t) { Ok($t.to_string()) } else { bad() })
        };
    }
    token!("section_end", raw::marked_section_end::<E>(s), "]]>");
    token!("close_start_tag", raw::close_start_tag::<E>(s), ">");
    token!("xml_close", raw::xml_close_empty_element::<E>(s), "/>");
    token!("empty_start_tag", raw::empty_start_tag::<E>(s), "<>");
    raw!("raw::pi", raw::processing_instruction::<E>(s), |p| if p.at("<?") { Ok(p.pi_raw()?.to_string()) } else { bad() });
    for (mse, stop) in [(Mse::TreatAsText, false), (Mse::StopParsing, true)] {
        raw!("raw::text", raw::text::<E>(s, mse), |p| {
            let t = p.text_run(stop).to_string();
            if t.is_empty() {
                return bad();
            }
            Ok(t)
        });
        raw!("plain_text", raw::plain_text::<E>(s, mse), |p| {
            while p.peek().map_or(false, |c| c != '<') && !(stop && p.at("]]>")) {
                p.bump();
            }
            if p.pos() == 0 {
                return bad();
            }
            Ok(s[..p.pos()].to_string())
        });
        j.judge("text", refx(s, cfg, |p| {
            if p.text_run(stop).is_empty() {
                return bad();
            }
            p.rewind();
            p.item(stop)?;
            Ok(std::mem::take(&mut p.out))
        }), events::text::<E>(s, pc, mse), drain)?;
        j.judge("content", refx(s, cfg, |p| {
            content_prefix(p, stop)?;
            Ok(std::mem::take(&mut p.out))
        }), events::content::<E>(s, pc, mse), |it| Ok(it.map(|e| conv(&e)).collect()))?;
        j.judge("content_item", refx(s, cfg, |p| {
            item_prefix(p, stop)?;
            Ok(std::mem::take(&mut p.out))
        }), events::content_item::<E>(s, pc, mse), drain)?;
    }
    raw!("open_start_tag", raw::open_start_tag::<E>(s), |p| {
        if !p.eat("<") {
            return bad();
        }
        p.name().map(|n| n.to_string()).ok_or(Stop::Bad(0, ""))
    });
    raw!("name", raw::name::<E>(s), |p| p.name().map(|n| n.to_string()).ok_or(Stop::Bad(0, "")));
    raw!("name_start", raw::name_start::<E>(s), |p| match p.peek() {
        Some(c) if is_name_start(c) => {
            p.bump();
            Ok(c.to_string())
        }
        _ => bad(),
    });
    let attr = |p: &mut P| p.attribute().map(|(n, v)| (n.to_string(), v.map(|v| v.0.to_string())));
    j.judge("raw::attribute", refx(s, cfg, attr), raw::attribute::<E>(s), |(n, v)| Ok((n.to_string(), v.map(|v| v.to_string()))))?;
    // The closure sees the value without quotes once, and its output is passed on
    let calls = std::cell::RefCell::new(vec![]);
    let got = raw::attribute_parse_value::<_, _, E>(s, |v, quoted| {
        calls.borrow_mut().push((v.to_string(), quoted));
        Ok((v.len(), quoted))
    });
    let want = refx(s, cfg, |p| p.attribute().map(|(n, v)| (n.to_string(), v.map(|v| (v.0.len(), v.1)))));
    let called: Vec<_> = refx(s, cfg, |p| p.attribute().map(|(_, v)| v.map(|v| (v.0.to_string(), v.1)))).ok().flatten().and_then(|x| x.1).into_iter().collect();
    let ok = got.is_ok();
    j.judge("raw::attribute", want, got, |(n, v)| Ok((n.to_string(), v)))?;
    if ok && *calls.borrow() != called {
        return Err(format!("attribute_parse_value passes {:?}, expected {:?}", calls.borrow(), called));
    }
    j.judge("attribute_value", refx(s, cfg, |p| p.value().map(|v| (v.0.to_string(), v.1))), raw::attribute_value::<E>(s), |v| Ok((v.0.to_string(), v.1)))?;
    raw!("unquoted", raw::unquoted_attribute_value::<E>(s), |p| match p.value()? {
        (v, false) => Ok(v.to_string()),
        _ => bad(),
    });
    raw!("quoted", raw::quoted_attribute_value::<E>(s), |p| if matches!(p.peek(), Some('"' | '\'')) { Ok(p.value()?.0.to_string()) } else { bad() });
    j.judge("raw::end_tag", refx(s, cfg, |p| p.end_tag().map(|n| n.to_string())), raw::end_tag::<E>(s), |n| Ok(n.unwrap_or("").to_string()))?;
    if let Ok((_, n)) = raw::end_tag::<E>(s) {
        if n == Some("") || n.is_none() != s.starts_with("</>") {
            return Err("end_tag: wrong notion of an empty end tag".into());
        }
    }
    for (d, ctxname) in [("]]>", "a"), (">", "b"), ("--", "c"), ("'", "d")] {
        raw!("take_until", util::take_until_terminated::<E>(ctxname, d)(s), |p| Ok(p.until(d, 0, "")?.to_string()));
    }
    raw!("spaces", util::spaces::<E>(s), |p| {
        p.ws();
        Ok(s[..p.pos()].to_string())
    });
    raw!("comments_and_spaces", util::comments_and_spaces::<E>(s), |p| {
        p.comments_and_ws()?;
        Ok(s[..p.pos()].to_string())
    });
    // Around another parser
    {
        use nom::Parser;
        raw!("name", util::strip_spaces_after::<_, E, _>(raw::name).parse(s), |p| {
            let n = p.name().map(|n| n.to_string()).ok_or(Stop::Bad(0, ""))?;
            p.ws();
            Ok(n)
        });
        raw!("name", util::strip_spaces_around::<_, E, _>(raw::name).parse(s), |p| {
            p.ws();
            let n = p.name().map(|n| n.to_string()).ok_or(Stop::Bad(0, ""))?;
            p.ws();
            Ok(n)
        });
        raw!("name", util::strip_comments_and_spaces_after::<_, E, _>(raw::name).parse(s), |p| {
            let n = p.name().map(|n| n.to_string()).ok_or(Stop::Bad(0, ""))?;
            p.comments_and_ws()?;
            Ok(n)
        });
    }
    // Event producers
    let take = |p: &mut P| std::mem::take(&mut p.out);
    j.judge("markup_declaration", refx(s, cfg, |p| {
        if !p.at("<!") || !p.nth(2).map_or(false, is_name_start) {
            return bad();
        }
        p.declaration(true)?;
        Ok(take(p))
    }), events::markup_declaration::<E>(s, pc), drain)?;
    let section = refx(s, cfg, |p| {
        if !p.at("<![") {
            return bad();
        }
        p.section()?;
        Ok(take(p))
    });
    j.judge("section", section.clone(), events::marked_section_declaration::<E>(s, pc), drain)?;
    // The same in two steps
    if let (Ok(Some(sect)), Ok((rest, kw))) = (section, raw::marked_section_start_and_keywords::<E>(s)) {
        let kws = pc.parse_markup_declaration_text::<E>(kw).map_err(|_| "keywords that were expanded before do not expand again")?;
        let st = pc.marked_section_handling.parse_keywords(&kws).map_err(|k| format!("keyword {:?} is not known any more", k))?;
        let (after, it) = events::marked_section_body::<E>(rest, kws, st, pc).map_err(|_| "marked_section_body fails where marked_section_declaration succeeds")?;
        if s.len() - after.len() != sect.0 || drain(it)? != sect.1 {
            return Err("marked_section_body disagrees with marked_section_declaration".into());
        }
        j.ctx.count("composed");
    }
    j.judge("pi", refx(s, cfg, |p| {
        if !p.at("<?") {
            return bad();
        }
        p.pi()?;
        Ok(take(p))
    }), events::processing_instruction::<E>(s, pc), drain)?;
    j.judge("start_tag", refx(s, cfg, |p| {
        if !p.at("<>") && !(p.at("<") && p.nth(1).map_or(false, is_name_start)) {
            return bad();
        }
        p.start_tag()?;
        Ok(take(p))
    }), events::start_tag::<E>(s, pc), |it| {
        let v = drain(it)?;
        Ok(v)
    })?;
    if s.starts_with("<>") {
        j.judge("empty_start_tag", Ok(Some((2, vec![Ev::Open(String::new()), Ev::Close]))), events::empty_start_tag::<E>(s), drain)?;
    }
    j.ctx.count("iterator_drained");
    j.judge("open_start_tag", refx(s, cfg, |p| {
        if !p.eat("<") {
            return bad();
        }
        p.name().map(|n| Ev::Open(cfg.norm_name(n))).ok_or(Stop::Bad(0, ""))
    }), events::open_start_tag::<E>(s, pc), |e| Ok(conv(&e)))?;
    j.judge("close_start_tag", refx(s, cfg, |p| if p.eat(">") { Ok(Ev::Close) } else { bad() }), events::close_start_tag::<E>(s), |e| Ok(conv(&e)))?;
    j.judge("xml_close", refx(s, cfg, |p| if p.eat("/>") { Ok(Ev::XmlClose) } else { bad() }), events::xml_close_empty_element::<E>(s), |e| Ok(conv(&e)))?;
    j.judge("attribute", refx(s, cfg, |p| {
        p.attribute_event()?;
        Ok(p.out.pop().unwrap())
    }), events::attribute::<E>(s, pc), |e| Ok(conv(&e)))?;
    j.judge("prolog", refx(s, cfg, |p| {
        prolog_prefix(p)?;
        Ok(take(p))
    }), events::prolog::<E>(s, pc), |v| Ok(v.iter().map(conv).collect()))?;
    let doc = events::document_entity::<E>(s, pc);
    let whole = refp::parse(s, cfg);
    let want = match whole {
        Ok(p) => Ok(Some((s.len(), p.events))),
        Err(Stop::Unspec(_)) => Err(()),
        Err(Stop::Bad(..)) => Ok(None),
    };
    let composed = want.clone();
    j.judge("document", want, doc, |it| Ok(it.map(|e| conv(&e)).collect()))?;
    // A document is its prolog and its content
    if let Ok(Some((_, evs))) = composed {
        let (r, _) = util::comments_and_spaces::<E>(s).map_err(|_| "comments_and_spaces fails")?;
        let (r, mut v) = events::prolog::<E>(r, pc).map_err(|_| "prolog fails on a document")?;
        let (r, it) = events::content::<E>(r, pc, Mse::TreatAsText).map_err(|_| "content fails on a document")?;
        v.extend(it);
        if !r.is_empty() {
            return Err(format!("content of a document leaves {:?}", r));
        }
        let v: Vec<Ev> = v.iter().map(conv).collect();
        expect_eq("prolog and content", &evs, &v)?;
        let p = real(&cfg.parser(), s).map_err(|e| format!("document_entity accepts what the parser rejects: {}", e))?;
        expect_eq("parser and document_entity", &v, &p)?;
        j.ctx.count("composed");
    }
    Ok(())
}

fn p26_large() -> V {
    super::big::over(&[], if crate::fw::thorough() { &[257, 2049] } else { &[257] }, |s| {
        let mut ctx = Ctx::new(26, false);
        for cfg in super::big::cfgs() {
            let pc = cfg.builder().into_config();
            let inside = s.find('>').map_or(s.len(), |i| i + 1);
            for s in [s, &s[1..], &s[inside..]] {
                combinators::<nom::error::Error<&str>>(&mut ctx, s, &cfg, &pc)?;
            }
        }
        Ok(())
    })
}

fn c26(ctx: &mut Ctx) -> V {
    let (full, t, p) = soup::any_input(&mut ctx.r, 20);
    let mut cfg = random_cfg(&mut ctx.r, &t, &p);
    if ctx.r.bool() {
        cfg.ents = Some(t);
        cfg.pents = Some(p);
    }
    let pc = cfg.builder().into_config();
    let mut ins = vec![full.clone()];
    // Suffixes, preferably where something starts
    for _ in 0..3 {
        let marks: Vec<usize> = full
            .char_indices()
            .filter(|(_, c)| matches!(c, '<' | '\'' | '"' | '-' | ']' | '/' | '>' | '='))
            .map(|x| x.0)
            .collect();
        let at = if !marks.is_empty() && ctx.r.chance(3, 4) {
            *ctx.r.pick(&marks) + if ctx.r.chance(1, 4) { 1 } else { 0 }
        } else {
            let v: Vec<usize> = full.char_indices().map(|x| x.0).collect();
            if v.is_empty() {
                0
            } else {
                *ctx.r.pick(&v)
            }
        };
        ins.push(full[at..].to_string());
    }
    if ctx.r.chance(1, 2) {
        let lead = ctx
            .r
            .pick_str(&["--", "'", "\"", "a=", "a = '", "a", "<a ", "</a", "<!x ", "<!x [", "<![CDATA[", "<![IGNORE[", "<![INCLUDE[", "<?", "]]>", " ", "<!--", "<>", "</>", ">", "/>"])
            .to_string();
        ins.push(format!("{}{}", lead, full));
    }
    for s in &ins {
        ctx.input = format!("{:?} with {}", s, cfg.brief());
        if ctx.r.bool() {
            combinators::<nom::error::Error<&str>>(ctx, s, &cfg, &pc)?;
        } else {
            combinators::<ContextualizedError<&str>>(ctx, s, &cfg, &pc)?;
        }
        // Configuration helpers
        let t = pc.trim(s);
        let want = if cfg.trim { trim_ws(s) } else { s };
        if t != want || (!t.is_empty() && t.as_ptr() != want.as_ptr()) {
            return Err(format!("trim gives {:?}", t));
        }
        for c in s.chars().take(20) {
            if raw::is_name_char(c) != is_name_char(c) || raw::is_name_start_char(c) != is_name_start(c) {
                return Err(format!("name character {:?}", c));
            }
        }
    }
    Ok(())
}
