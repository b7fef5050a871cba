//! The three documented steps together: parsing, end-tag normalization, deserialization.

use super::de::{expect_val, kinds, made, read, TRUST};
use super::merge;
use crate::dy::*;
use crate::fw::*;
use crate::model::*;
use crate::rng::Rng;
use sgmlish::transforms::normalize_end_tags;

pub static CHECKS: &[&Check] = &[&C28];

pub static C28: Check = Check {
    id: "C28",
    rule: "a random type and value, its events, and two spellings of them as source text, each with a configuration of its own (trimming, case normalization with names in mixed case, section mode, ignored declarations and instructions, entity tables): text in pieces as text, CDATA, RCDATA, numeric references and entities, with comments, ignored sections and instructions between them; attributes quoted either way or not; elements wrapped in included sections; end tags of text-only elements omitted; empty elements self-closed; a prolog. Parsed, normalized and deserialized, both must give the value. Non-trivial = distinct sources of more than one element.",
    case: c28,
    quick: 700_000,
    thorough: 8_000_000,
    probes: &[("large", p28)],
    need: &[
        "omitted_end_tags", "self_closed", "cdata", "rcdata", "numeric_reference", "entity", "included", "ignored_section", "comment", "instruction", "declaration", "case_changed", "untrimmed", "padded", "unquoted",
        "quoted", "struct", "sequence", "map", "enum", "dollar_value",
    ],
    assumptions: TRUST,
};

struct Speller<'c> {
    ctx: &'c mut Ctx,
    cfg: Cfg,
    /// Included sections that are open, each with the nesting level it ends at.
    open: Vec<usize>,
    out: String,
}

impl Speller<'_> {
    fn r(&mut self) -> &mut Rng {
        &mut self.ctx.r
    }

    fn name(&mut self, n: &str) -> String {
        if self.cfg.norm == Norm::Same || self.r().chance(1, 4) {
            return n.to_string();
        }
        let whole = self.r().chance(1, 3);
        let up = self.r().bool();
        let s: String = if whole {
            if up {
                n.to_uppercase()
            } else {
                n.to_lowercase()
            }
        } else {
            n.chars()
                .map(|c| {
                    if !self.ctx.r.bool() {
                        return c;
                    }
                    let mut o: Vec<char> = if c.is_uppercase() { c.to_lowercase().collect() } else { c.to_uppercase().collect() };
                    if o.len() == 1 {
                        o.pop().unwrap()
                    } else {
                        c
                    }
                })
                .collect()
        };
        // The case of some letters cannot be told from the result
        let fits = s.chars().next().map_or(false, is_name_start) && s.chars().all(is_name_char);
        if fits && self.cfg.norm_name(&s) == n {
            if s != n {
                self.ctx.count("case_changed");
            }
            s
        } else {
            n.to_string()
        }
    }

    /// White space that means nothing, where there is any such.
    fn pad(&mut self) {
        if self.cfg.trim && self.r().chance(1, 3) {
            let s = self.ctx.r.pick_str(&[" ", "\n", "\r\n    ", "\t", "\n\n "]);
            self.out.push_str(s);
            self.ctx.count("padded");
        }
    }

    /// Something that leads to no event, with nothing around it.
    fn aside(&mut self) -> bool {
        match self.r().below(7) {
            0 | 1 => {
                let s = self.ctx.r.pick_str(&["<!-- note -->", "<!---->", "<!>", "<!-- </a> ]]> & <b> -->", "<!-- a -- -- b -->", "<!-- é '\" -->"]);
                // In an included section, too
                self.out.push_str(s);
                self.ctx.count("comment");
            }
            2 if self.cfg.ms == Ms::Expand => {
                let s = self.ctx.r.pick_str(&["<![IGNORE[]]>", "<![ ignore [<x>]]>", "<![CDATA IGNORE[ <![CDATA[ </a> ]]> &x; ]]>", "<![%ign;[text <b a='1]]>"]);
                self.out.push_str(s);
                self.ctx.count("ignored_section");
            }
            3 if self.cfg.ign_pi => {
                let s = self.ctx.r.pick_str(&["<?x>", "<?>", "<?php echo '<a' ?>", "<?é ]]&x;>"]);
                self.out.push_str(s);
                self.ctx.count("instruction");
            }
            _ => return false,
        }
        true
    }

    /// Between two constructs that are no text.
    fn between(&mut self) {
        self.pad();
        while self.r().chance(1, 5) {
            self.aside();
            self.pad();
        }
    }

    /// A reference that becomes `s`, if such can be made.
    fn entity(&mut self, s: &str) -> Option<String> {
        let t = self.cfg.ents.as_mut()?;
        let n = match self.ctx.r.below(4) {
            0 => "amp".to_string(),
            1 => "é1".to_string(),
            2 => "A.b-c".to_string(),
            _ => format!("e{}", t.len()),
        };
        if t.entry(n.clone()).or_insert_with(|| s.to_string()) != s {
            return None;
        }
        self.ctx.count("entity");
        Some(format!("&{};", n))
    }

    fn numeric(&mut self, c: char) -> String {
        self.ctx.count("numeric_reference");
        match self.r().below(4) {
            0 => format!("&#x{:x};", c as u32),
            1 => format!("&#x{:X};", c as u32),
            2 => format!("&#{:04};", c as u32),
            _ => format!("&#{};", c as u32),
        }
    }

    /// Characters as text or RCDATA; `must` tells which cannot be literal.
    fn chars(&mut self, s: &str, must: impl Fn(usize, char) -> bool) {
        let mut i = 0;
        while i < s.len() {
            let c = s[i..].chars().next().unwrap();
            if self.r().chance(1, 24) {
                let n = 1 + self.r().below(4);
                let part: String = s[i..].chars().take(n).collect();
                if let Some(e) = self.entity(&part) {
                    self.out.push_str(&e);
                    i += part.len();
                    continue;
                }
            }
            if c == '&' || must(i, c) || self.r().chance(1, 24) {
                let short = c.to_string();
                let e = match self.r().chance(1, 3) {
                    true => self.entity(&short),
                    false => None,
                };
                let e = e.unwrap_or_else(|| self.numeric(c));
                self.out.push_str(&e);
            } else {
                self.out.push(c);
            }
            i += c.len_utf8();
        }
    }

    fn text(&mut self, s: &str) {
        let trim = self.cfg.trim;
        let ps = pieces(self.r(), s);
        let n = ps.len();
        self.pad();
        for (k, p) in ps.iter().enumerate() {
            if p.is_empty() {
                continue;
            }
            let last = p.char_indices().last().map(|x| x.0).unwrap();
            let edge = move |i: usize, c: char| trim && (i == 0 || i == last) && is_ws(c);
            let whole = trim_ws(p).len() == p.len() || !trim;
            let how = if self.cfg.ms == Ms::Keep { 9 } else { self.r().below(6) };
            match how {
                0 if whole && !p.contains("]]>") => {
                    let s = self.ctx.r.pick_str(&["<![CDATA[", "<![cdata[", "<![ CDATA ["]);
                    self.out.push_str(s);
                    self.out.push_str(p);
                    self.out.push_str("]]>");
                    self.ctx.count("cdata");
                }
                1 => {
                    let s = self.ctx.r.pick_str(&["<![RCDATA[", "<![RcData[", "<![ RCDATA ["]);
                    self.out.push_str(s);
                    self.chars(p, |i, c| c == '>' || edge(i, c));
                    self.out.push_str("]]>");
                    self.ctx.count("rcdata");
                }
                _ => self.chars(p, |i, c| c == '<' || c == '>' || edge(i, c)),
            }
            if k + 1 < n {
                let at = self.out.len();
                self.pad();
                if !self.aside() {
                    self.out.truncate(at);
                } else {
                    self.pad();
                }
            }
        }
        if n > 0 && self.r().chance(1, 5) {
            self.pad();
            self.aside();
        }
        self.pad();
    }

    fn value(&mut self, v: &str) {
        if !v.is_empty() && v.chars().all(is_name_char) && self.r().bool() {
            self.out.push_str(v);
            self.ctx.count("unquoted");
            return;
        }
        self.ctx.count("quoted");
        let q = if self.r().bool() { '"' } else { '\'' };
        self.out.push(q);
        self.chars(v, |_, c| c == q);
        self.out.push(q);
    }

    fn space(&mut self, may: bool) {
        let s = if may { self.ctx.r.pick_str(&["", "", "", " ", "\n", "\t "]) } else { self.ctx.r.pick_str(&[" ", " ", "\n", "\t", "\r\n  "]) };
        self.out.push_str(s);
    }

    fn prolog(&mut self) {
        let any_space = |z: &mut Self| {
            if z.r().chance(1, 3) {
                z.space(false)
            }
        };
        any_space(self);
        while self.r().chance(1, 4) {
            let s = self.ctx.r.pick_str(&["<!-- before -->", "<!>"]);
            self.out.push_str(s);
            any_space(self);
        }
        if self.cfg.ign_decl && self.r().chance(2, 3) {
            let s = self.ctx.r.pick_str(&["<!DOCTYPE x>", "<!doctype x SYSTEM 'a>b'>", "<!DOCTYPE x [ <!ENTITY e1 \"no\"> <!-- ]> --> ]>", "<!DOCTYPE x PUBLIC \"-//é//\" >"]);
            self.out.push_str(s);
            self.ctx.count("declaration");
            any_space(self);
        }
        if self.cfg.ign_pi && self.r().chance(1, 3) {
            self.out.push_str("<?xml version='1.0'?>");
            self.ctx.count("instruction");
            any_space(self);
        }
    }

    fn document(&mut self, evs: &[Ev]) {
        self.prolog();
        // Names of the open elements
        let mut stack: Vec<&str> = vec![];
        let mut i = 0;
        while i < evs.len() {
            match &evs[i] {
                Ev::Open(n) => {
                    if !stack.is_empty() {
                        while self.cfg.ms == Ms::Expand && self.r().chance(1, 10) {
                            let s = self.ctx.r.pick_str(&["<![INCLUDE[", "<![ include [", "<![TEMP[", "<![[", "<![%inc;["]);
                            self.out.push_str(s);
                            self.open.push(stack.len());
                            self.ctx.count("included");
                        }
                        self.between();
                    }
                    self.out.push('<');
                    let s = self.name(n);
                    self.out.push_str(&s);
                    i += 1;
                    while let Some(Ev::Attr(n, v)) = evs.get(i) {
                        self.space(false);
                        let s = self.name(n);
                        self.out.push_str(&s);
                        if let Some(v) = v {
                            self.space(true);
                            self.out.push('=');
                            self.space(true);
                            self.value(v);
                        }
                        i += 1;
                    }
                    // At the end of the start tag
                    let (text, end) = match (&evs[i + 1], evs.get(i + 2)) {
                        (Ev::End(_), _) => (Some(""), i + 1),
                        (Ev::Char(t), Some(Ev::End(_))) => (Some(t.as_str()), i + 2),
                        _ => (None, 0),
                    };
                    let next = evs.get(end + 1);
                    let parent = stack.last().copied();
                    stack.push(n.as_str());
                    match text {
                        Some("") if parent.is_some() && self.r().chance(1, 6) => {
                            self.space(false);
                            self.out.push_str("/>");
                            self.ctx.count("self_closed");
                            i = end + 1;
                        }
                        Some(t) if parent.map_or(false, |p| p != n) && trim_ws(t).len() == t.len() && !matches!(next, Some(Ev::Char(_)) | None) && self.r().chance(1, 3) => {
                            self.space(true);
                            self.out.push('>');
                            if !t.is_empty() {
                                self.text(t);
                            } else {
                                self.pad();
                            }
                            self.ctx.count("omitted_end_tags");
                            i = end + 1;
                        }
                        _ => {
                            self.space(true);
                            self.out.push('>');
                            i += 1;
                            continue;
                        }
                    }
                    stack.pop();
                    self.end_of_element(stack.len());
                }
                Ev::Char(t) => {
                    self.text(t);
                    i += 1;
                }
                Ev::End(n) => {
                    stack.pop();
                    self.between();
                    self.out.push_str("</");
                    let s = self.name(n);
                    self.out.push_str(&s);
                    self.space(true);
                    self.out.push('>');
                    i += 1;
                    self.end_of_element(stack.len());
                }
                _ => unreachable!("harness: no such event is made"),
            }
        }
        // What may follow the root
        while self.r().chance(1, 4) {
            let s = self.ctx.r.pick_str(&["\n", " ", "<!-- after -->"]);
            self.out.push_str(s);
        }
    }

    fn end_of_element(&mut self, level: usize) {
        while self.open.last() == Some(&level) && self.r().chance(2, 3) || self.open.last().map_or(false, |l| *l > level) {
            self.between();
            self.out.push_str("]]>");
            self.open.pop();
        }
    }
}

fn c28(ctx: &mut Ctx) -> V {
    let depth = if ctx.thorough { ctx.r.range(1, 5) } else { ctx.r.range(1, 4) };
    let (t, v, e) = match made(&mut ctx.r, depth) {
        Some(x) => x,
        None => return Ok(()),
    };
    kinds(ctx, &t);
    let mut evs = vec![];
    events(&mut ctx.r, &e, true, &mut evs, &mut vec![]);
    let evs = merge(&evs);
    for _ in 0..2 {
        let (src, cfg) = spelled(ctx, &evs);
        ctx.input = format!("{}\nconfiguration {}\ntype {:?}", src, cfg.brief(), t);
        let b = cfg.builder();
        let f = if ctx.r.bool() { b.parse(&src) } else { b.build().parse(&src) };
        let f = f.map_err(|e| format!("does not parse: {}", e))?;
        let f = normalize_end_tags(f).map_err(|e| format!("cannot be normalized: {}", e))?;
        let f = if ctx.r.chance(1, 4) { f.into_owned() } else { f };
        expect_val(&v, read(&mut ctx.r, &t, f))?;
        ctx.judged(if evs.len() > 3 { Some(src.as_bytes()) } else { None });
    }
    Ok(())
}

fn spelled(ctx: &mut Ctx, evs: &[Ev]) -> (String, Cfg) {
    let mut cfg = Cfg {
        trim: ctx.r.chance(3, 4),
        norm: *ctx.r.pick(&[Norm::Same, Norm::Lower, Norm::Upper, Norm::Lower]),
        ms: *ctx.r.pick(&[Ms::Accept, Ms::Expand, Ms::Expand, Ms::Keep]),
        ign_decl: ctx.r.bool(),
        ign_pi: ctx.r.bool(),
        ents: if ctx.r.bool() { Some(Table::new()) } else { None },
        pents: None,
    };
    let names = |e: &Ev| match e {
        Ev::Open(n) | Ev::Attr(n, _) | Ev::End(n) => Some(n.clone()),
        _ => None,
    };
    if !evs.iter().filter_map(names).all(|n| cfg.norm_name(&n) == n) {
        cfg.norm = if evs.iter().filter_map(names).all(|n| n.to_uppercase() == n) { Norm::Upper } else { Norm::Same };
    }
    if cfg.ms == Ms::Expand {
        cfg.pents = Some([("inc", "INCLUDE"), ("ign", " IGNORE ")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect());
    }
    if !cfg.trim {
        ctx.count("untrimmed");
    }
    let mut s = Speller { ctx, cfg, open: vec![], out: String::new() };
    s.document(evs);
    (s.out, s.cfg)
}

/// A bank statement of many transactions, most end tags omitted; a page with many attributes and parts.
fn p28() -> V {
    use serde::Deserialize;
    #[derive(Deserialize, Debug, PartialEq)]
    struct Trn {
        trntype: String,
        dtposted: u64,
        trnamt: f64,
        #[serde(default)]
        memo: Option<String>,
    }
    #[derive(Deserialize, Debug, PartialEq)]
    struct List {
        #[serde(default)]
        stmttrn: Vec<Trn>,
        dtend: String,
    }
    #[derive(Deserialize, Debug, PartialEq)]
    enum Part {
        #[serde(rename = "p")]
        P(String),
        #[serde(rename = "hr")]
        Hr,
    }
    #[derive(Deserialize, Debug, PartialEq)]
    struct Page {
        id: u8,
        #[serde(rename = "$value")]
        parts: Vec<Part>,
    }
    for n in [0usize, 1, 2, 255, 256, 257, 4095, 4096, 4097, 65_535, 65_536, 65_537] {
        let mut s = String::from("<!DOCTYPE OFX>\n<BANKTRANLIST>\n");
        let mut want = vec![];
        for i in 0..n {
            let memo = if i % 3 == 0 { Some(format!("memo é & {}", i)) } else { None };
            s.push_str(&format!("<STMTTRN><TRNTYPE>{}<DTPOSTED>{}\n<TRNAMT>-{}.5", ["DEBIT", "CREDIT"][i % 2], i, i));
            if let Some(m) = &memo {
                s.push_str(&format!("<Memo>{}", m.replace('&', "&#38;")));
                s.push_str(["", "</memo>", " <!-- x -->"][i % 9 / 3]);
            }
            s.push_str("\n</StmtTrn>\n");
            want.push(Trn { trntype: ["DEBIT", "CREDIT"][i % 2].into(), dtposted: i as u64, trnamt: -(i as f64 + 0.5), memo });
        }
        s.push_str("<DTEND>20210201000000[-4:GMT]\n</BANKTRANLIST>\n");
        let f = sgmlish::Parser::builder()
            .lowercase_names()
            .ignore_markup_declarations(true)
            .parse(&s)
            .map_err(|e| format!("{} transactions: {}", n, e))?;
        let f = normalize_end_tags(f).map_err(|e| format!("{} transactions: {}", n, e))?;
        let got: List = sgmlish::from_fragment(f).map_err(|e| format!("{} transactions: {}", n, e))?;
        let want = List { stmttrn: want, dtend: "20210201000000[-4:GMT]".into() };
        if got != want {
            let i = got.stmttrn.iter().zip(&want.stmttrn).position(|(a, b)| a != b);
            return Err(format!("{} transactions: {} read, first difference at {:?}", n, got.stmttrn.len(), i));
        }
        let mut s = String::from("<Page");
        for i in 0..n {
            s.push_str(&format!(" data-{}", i));
            s.push_str(["", "='x'", "=y", "=\"&#38;\"\n"][i % 4]);
        }
        s.push_str(" ID=7>");
        let mut want = vec![];
        for i in 0..n + 1 {
            match i % 3 {
                0 => s.push_str(&format!("<P>{}", i)),
                1 => s.push_str("<![ INCLUDE [<hr/>]]>"),
                _ => s.push_str(&format!("<p><![CDATA[{}]]></P>", i)),
            }
            want.push(if i % 3 == 1 { Part::Hr } else { Part::P(i.to_string()) });
        }
        s.push_str("</PAGE>");
        let f = sgmlish::Parser::builder()
            .lowercase_names()
            .marked_section_handling(sgmlish::parser::MarkedSectionHandling::ExpandAll)
            .parse(&s)
            .map_err(|e| format!("{} parts: {}", n, e))?;
        let f = normalize_end_tags(f).map_err(|e| format!("{} parts: {}", n, e))?;
        let got: Page = sgmlish::from_fragment(f).map_err(|e| format!("{} parts: {}", n, e))?;
        if got != (Page { id: 7, parts: want }) {
            return Err(format!("{} parts: {} read, or with other data", n, got.parts.len()));
        }
    }
    Ok(())
}
