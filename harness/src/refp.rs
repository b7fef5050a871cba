//! Independent reference recogniser for the accepted language, written from the documentation as a
//! plain cursor machine (no combinators, no backtracking). It is the oracle for "which inputs are
//! well-formed and what do they contain".

use crate::model::*;
use std::ops::Range;

#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    /// Malformed: byte offset where the offending construct starts, and what it is.
    Bad(usize, &'static str),
    /// The documentation does not settle this input; no verdict.
    Unspec(&'static str),
}
type R<T> = Result<T, Stop>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Status {
    Include,
    RcData,
    CData,
    Ignore,
}

pub fn expand(
    text: &str,
    param: bool,
    lookup: &mut dyn FnMut(&str) -> Option<String>,
) -> Result<String, (String, Range<usize>)> {
    let b: Vec<(usize, char)> = text.char_indices().collect();
    let off = |k: usize| b.get(k).map(|x| x.0).unwrap_or(text.len());
    let ch = |k: usize| b.get(k).map(|x| x.1);
    let prefix = if param { '%' } else { '&' };
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i].1 != prefix {
            out.push(b[i].1);
            i += 1;
            continue;
        }
        let mut j = i + 1; // after prefix
        let name_from = j;
        let mut numeric: Option<Option<char>> = None;
        let hash = ch(j) == Some('#');
        if hash {
            j += 1;
        }
        if hash && !param && ch(j).map_or(false, |c| c.is_ascii_digit()) {
            let mut v: Option<u32> = Some(0);
            while let Some(c) = ch(j).filter(|c| c.is_ascii_digit()) {
                v = v.and_then(|v| v.checked_mul(10)).and_then(|v| v.checked_add(c as u32 - 48));
                j += 1;
            }
            numeric = Some(v.and_then(char::from_u32));
        } else if hash && !param && ch(j) == Some('x') && ch(j + 1).map_or(false, is_name_char) {
            j += 1;
            let mut v: Option<u32> = Some(0);
            while let Some(c) = ch(j).filter(|c| is_name_char(*c)) {
                v = match (v, c.to_digit(16)) {
                    (Some(v), Some(d)) if v < (1 << 28) => Some(v * 16 + d),
                    _ => None,
                };
                j += 1;
            }
            numeric = Some(v.and_then(char::from_u32));
        } else if ch(j).map_or(false, is_name_start) {
            j += 1;
            while ch(j).map_or(false, is_name_char) {
                j += 1;
            }
        } else {
            out.push(prefix);
            i += 1;
            continue;
        }
        let name = &text[off(name_from)..off(j)];
        if ch(j) == Some(';') {
            j += 1;
        }
        match numeric {
            Some(Some(c)) => out.push(c),
            _ => match lookup(name) {
                Some(s) => out.push_str(&s),
                None => return Err((name.to_string(), off(i)..off(j))),
            },
        }
        i = j;
    }
    Ok(out)
}

pub fn keyword_status(k: &str) -> Option<Status> {
    match k.to_ascii_uppercase().as_str() {
        "CDATA" => Some(Status::CData),
        "RCDATA" => Some(Status::RcData),
        "IGNORE" => Some(Status::Ignore),
        "INCLUDE" | "TEMP" => Some(Status::Include),
        _ => None,
    }
}

pub fn is_ascii_ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r' | '\u{c}')
}

/// Effective status of a keyword list; Err names the first unknown keyword.
pub fn status_of(list: &str) -> Result<Status, &str> {
    let mut st = Status::Include;
    for k in list.split(is_ascii_ws).filter(|k| !k.is_empty()) {
        match keyword_status(k) {
            Some(s) => st = st.max(s),
            None => return Err(k),
        }
    }
    Ok(st)
}

pub struct P<'a> {
    s: &'a str,
    i: usize,
    cfg: &'a Cfg,
    pub out: Vec<Ev>,
    pub depth: usize,
    pub max_depth: usize,
    /// Names asked from the general lookup, in order.
    pub asked: Vec<String>,
    /// Start of the declaration being read in the prolog.
    pub within: Option<usize>,
}

pub struct Parsed {
    pub events: Vec<Ev>,
    pub max_depth: usize,
    pub asked: Vec<String>,
}

pub fn parse(s: &str, cfg: &Cfg) -> R<Parsed> {
    let mut p = P {
        s,
        i: 0,
        cfg,
        out: vec![],
        depth: 0,
        max_depth: 0,
        asked: vec![],
        within: None,
    };
    p.document()?;
    Ok(Parsed {
        events: p.out,
        max_depth: p.max_depth,
        asked: p.asked,
    })
}

/// Where a malformed input goes wrong: the construct, what it is, and the declaration it is in.
pub fn fault(s: &str, cfg: &Cfg) -> Option<(usize, &'static str, Option<usize>)> {
    let mut p = P::new(s, cfg);
    match p.document() {
        Err(Stop::Bad(at, what)) => Some((at, what, p.within)),
        _ => None,
    }
}

impl<'a> P<'a> {
    /// A cursor at the start of `s`, for reading one construct.
    pub fn new(s: &'a str, cfg: &'a Cfg) -> Self {
        P { s, i: 0, cfg, out: vec![], depth: 0, max_depth: 0, asked: vec![], within: None }
    }
    pub fn rewind(&mut self) {
        self.i = 0;
    }
    pub fn pos(&self) -> usize {
        self.i
    }
    pub fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    pub fn at(&self, t: &str) -> bool {
        self.rest().starts_with(t)
    }
    pub fn nth(&self, n: usize) -> Option<char> {
        self.rest().chars().nth(n)
    }
    pub fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }
    pub fn bump(&mut self) {
        if let Some(c) = self.peek() {
            self.i += c.len_utf8();
        }
    }
    pub fn eat(&mut self, t: &str) -> bool {
        if self.at(t) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    pub fn ws(&mut self) -> bool {
        let i = self.i;
        while self.peek().map_or(false, is_ws) {
            self.bump();
        }
        self.i > i
    }
    pub fn until(&mut self, t: &str, start: usize, what: &'static str) -> R<&'a str> {
        match self.rest().find(t) {
            Some(n) => {
                let r = &self.rest()[..n];
                self.i += n + t.len();
                Ok(r)
            }
            None => Err(Stop::Bad(start, what)),
        }
    }
    pub fn name(&mut self) -> Option<&'a str> {
        let i = self.i;
        if !self.peek().map_or(false, is_name_start) {
            return None;
        }
        while self.peek().map_or(false, is_name_char) {
            self.bump();
        }
        Some(&self.s[i..self.i])
    }
    /// A comment declaration can start here.
    pub fn at_comment(&self) -> bool {
        self.at("<!-") || self.at("<!>")
    }
    pub fn comment(&mut self) -> R<()> {
        let start = self.i;
        self.i += 2;
        if self.at("--") {
            self.i += 2;
            self.until("--", start, "comment")?;
            loop {
                let save = self.i;
                self.ws();
                if self.at("--") {
                    self.i += 2;
                    self.until("--", start, "comment")?;
                } else {
                    self.i = save;
                    break;
                }
            }
        }
        if self.eat(">") {
            Ok(())
        } else {
            Err(Stop::Bad(start, "comment"))
        }
    }
    pub fn comments_and_ws(&mut self) -> R<()> {
        loop {
            if self.at_comment() {
                self.comment()?;
            } else if !self.ws() {
                return Ok(());
            }
        }
    }

    pub fn document(&mut self) -> R<()> {
        self.comments_and_ws()?;
        loop {
            if self.at("<!") && self.nth(2).map_or(false, is_name_start) {
                self.within = Some(self.i);
                self.declaration(true)?;
                self.within = None;
            } else if self.at("<![") {
                self.section()?;
            } else if self.at("<?") {
                self.pi()?;
            } else {
                break;
            }
            self.comments_and_ws()?;
        }
        if self.i == self.s.len() {
            return Err(Stop::Bad(self.i, "empty content"));
        }
        self.content(false)
    }

    pub fn declaration(&mut self, emit: bool) -> R<()> {
        let start = self.i;
        self.i += 2;
        let kw = match self.name() {
            Some(n) => n,
            None => return Err(Stop::Bad(start, "declaration")),
        };
        self.ws();
        let body_start = self.i;
        let mut body_end = self.i;
        loop {
            self.ws();
            match self.peek() {
                Some('>') => break,
                Some('"') => {
                    let q = self.i;
                    self.bump();
                    self.until("\"", q, "literal")?;
                }
                Some('\'') => {
                    let q = self.i;
                    self.bump();
                    self.until("'", q, "literal")?;
                }
                Some('[') => self.subset()?,
                Some('-') if self.at("--") => {
                    let q = self.i;
                    self.i += 2;
                    self.until("--", q, "comment")?;
                }
                Some('-') => self.bump(),
                Some('<') | None => return Err(Stop::Bad(start, "declaration")),
                Some(_) => self.bump(),
            }
            body_end = self.i;
        }
        self.bump();
        if emit && !self.cfg.ign_decl {
            self.out
                .push(Ev::Decl(kw.to_string(), self.s[body_start..body_end].to_string()));
        }
        Ok(())
    }

    pub fn subset(&mut self) -> R<()> {
        let start = self.i;
        self.bump();
        loop {
            match self.peek() {
                Some(']') => {
                    self.bump();
                    return Ok(());
                }
                Some('[') => self.subset()?,
                Some('"') => {
                    let q = self.i;
                    self.bump();
                    self.until("\"", q, "literal")?;
                }
                Some('\'') => {
                    let q = self.i;
                    self.bump();
                    self.until("'", q, "literal")?;
                }
                Some('-') if self.at("--") => {
                    let q = self.i;
                    self.i += 2;
                    self.until("--", q, "comment")?;
                }
                Some('-') => return Err(Stop::Unspec("lone dash in a subset")),
                Some('<') => {
                    if self.at_comment() {
                        self.comment()?;
                    } else if self.at("<?") {
                        self.pi_raw()?;
                    } else if self.at("<![") {
                        return Err(Stop::Unspec("marked section in a subset"));
                    } else if self.at("<!") && self.nth(2).map_or(false, is_name_start) {
                        self.declaration(false)?;
                    } else {
                        return Err(Stop::Bad(start, "subset"));
                    }
                }
                Some('>') | None => return Err(Stop::Bad(start, "subset")),
                Some(_) => self.bump(),
            }
        }
    }

    pub fn pi_raw(&mut self) -> R<&'a str> {
        let start = self.i;
        self.i += 2;
        self.until(">", start, "processing instruction")?;
        Ok(&self.s[start..self.i])
    }
    pub fn pi(&mut self) -> R<()> {
        let raw = self.pi_raw()?;
        if !self.cfg.ign_pi {
            self.out.push(Ev::Pi(raw.to_string()));
        }
        Ok(())
    }

    pub fn rcdata(&mut self, raw: &str, at: usize) -> R<String> {
        let cfg = self.cfg;
        let asked = &mut self.asked;
        let mut lk = |n: &str| {
            asked.push(n.to_string());
            cfg.ents.as_ref().and_then(|t| t.get(n).cloned())
        };
        expand(raw, false, &mut lk).map_err(|(_, r)| Stop::Bad(at + r.start, "entity"))
    }

    pub fn section(&mut self) -> R<()> {
        let start = self.i;
        self.i += 3;
        let kw_start = self.i;
        while self
            .peek()
            .map_or(false, |c| !matches!(c, '[' | ']' | '<' | '>' | '!'))
        {
            self.bump();
        }
        let raw_kw = trim_ws(&self.s[kw_start..self.i]);
        if !self.eat("[") {
            return Err(Stop::Bad(start, "section keywords"));
        }
        let cfg = self.cfg;
        let mut lk = |n: &str| cfg.pents.as_ref().and_then(|t| t.get(n).cloned());
        let kws = match expand(raw_kw, true, &mut lk) {
            Ok(k) => k,
            Err((_, r)) => {
                let off = raw_kw.as_ptr() as usize - self.s.as_ptr() as usize;
                return Err(Stop::Bad(off + r.start, "parameter entity"));
            }
        };
        let status = match self.cfg.ms {
            Ms::Accept => match keyword_status(&kws) {
                Some(s @ (Status::CData | Status::RcData)) => s,
                _ => {
                    // A single keyword padded with white space (only through an expansion)
                    if kws != raw_kw
                        && kws.split(is_ascii_ws).filter(|k| !k.is_empty()).count() == 1
                        && keyword_status(kws.trim_matches(is_ascii_ws)).map_or(false, |s| {
                            matches!(s, Status::CData | Status::RcData)
                        })
                    {
                        return Err(Stop::Unspec("padded keyword from a parameter entity"));
                    }
                    return Err(Stop::Bad(start, "section keyword"));
                }
            },
            _ => match status_of(&kws) {
                Ok(s) => s,
                Err(_) => return Err(Stop::Bad(start, "section keyword")),
            },
        };
        let body_start = self.i;
        let keep = self.cfg.ms == Ms::Keep;
        let raw;
        match status {
            Status::CData | Status::RcData => {
                raw = self.until("]]>", start, "section")?;
                if !keep {
                    let t = if self.cfg.trim { trim_ws(raw) } else { raw };
                    let text = if status == Status::RcData {
                        let at = t.as_ptr() as usize - self.s.as_ptr() as usize;
                        self.rcdata(t, at)?
                    } else {
                        t.to_string()
                    };
                    self.out.push(Ev::Char(text));
                }
            }
            Status::Ignore => {
                let mut depth = 0;
                loop {
                    if self.i >= self.s.len() {
                        return Err(Stop::Bad(start, "section"));
                    }
                    if self.eat("]]>") {
                        if depth == 0 {
                            break;
                        }
                        depth -= 1;
                    } else if self.eat("<![") {
                        depth += 1;
                    } else {
                        self.bump();
                    }
                }
                raw = &self.s[body_start..self.i - 3];
            }
            Status::Include => {
                let mark = self.out.len();
                self.depth += 1;
                self.max_depth = self.max_depth.max(self.depth);
                self.content(true)?;
                self.depth -= 1;
                raw = &self.s[body_start..self.i];
                if !self.eat("]]>") {
                    return Err(Stop::Bad(start, "section"));
                }
                if keep {
                    self.out.truncate(mark);
                }
            }
        }
        if keep {
            self.out.push(Ev::Sect(kws, raw.to_string()));
        }
        Ok(())
    }

    /// What makes a '<' at byte offset `i` markup rather than text.
    pub fn markup_at(&self, i: usize) -> bool {
        let mut cs = self.s[i..].chars();
        if cs.next() != Some('<') {
            return false;
        }
        match cs.next() {
            Some('?') | Some('>') => true,
            Some('!') => match cs.next() {
                Some('-') | Some('[') | Some('>') => true,
                Some(c) => is_name_start(c),
                None => false,
            },
            Some('/') => match cs.next() {
                Some('>') => true,
                Some(c) => is_name_start(c),
                None => false,
            },
            Some(c) => is_name_start(c),
            None => false,
        }
    }

    pub fn content(&mut self, in_section: bool) -> R<()> {
        while self.i < self.s.len() {
            if in_section && self.at("]]>") {
                return Ok(());
            }
            if self.at_comment() {
                self.comment()?;
            } else {
                self.item(in_section)?;
            }
        }
        Ok(())
    }

    /// One unit of content that is not a comment.
    pub fn item(&mut self, in_section: bool) -> R<()> {
        let start = self.i;
        if !self.markup_at(self.i) {
            let raw = self.text_run(in_section);
            let t = if self.cfg.trim { trim_ws(raw) } else { raw };
            if !t.is_empty() {
                let at = t.as_ptr() as usize - self.s.as_ptr() as usize;
                let text = self.rcdata(t, at)?;
                self.out.push(Ev::Char(text));
            }
        } else if self.at("<![") {
            self.section()?;
        } else if self.at("<!") {
            return Err(Stop::Bad(start, "declaration in content"));
        } else if self.at("<?") {
            self.pi()?;
        } else if self.at("</") {
            let n = self.end_tag()?;
            self.out.push(Ev::End(self.cfg.norm_name(n)));
        } else {
            self.start_tag()?;
        }
        Ok(())
    }

    /// The run of text here; empty where markup (or the end of an included section) starts.
    pub fn text_run(&mut self, in_section: bool) -> &'a str {
        let from = self.i;
        let mut e = self.i;
        while e < self.s.len() && !self.markup_at(e) && !(in_section && self.s[e..].starts_with("]]>")) {
            e += self.s[e..].chars().next().unwrap().len_utf8();
        }
        self.i = e;
        &self.s[from..e]
    }

    pub fn end_tag(&mut self) -> R<&'a str> {
        let start = self.i;
        if !self.eat("</") {
            return Err(Stop::Bad(start, "end tag"));
        }
        let n = self.name();
        if n.is_some() {
            self.ws();
        }
        if !self.eat(">") {
            return Err(Stop::Bad(start, "end tag"));
        }
        Ok(n.unwrap_or(""))
    }

    /// One attribute: name, value if any, and whether the value is quoted.
    pub fn attribute(&mut self) -> R<(&'a str, Option<(&'a str, bool)>)> {
        let start = self.i;
        let a = match self.name() {
            Some(a) => a,
            None => return Err(Stop::Bad(start, "attribute")),
        };
        let save = self.i;
        self.ws();
        if !self.eat("=") {
            self.i = save;
            return Ok((a, None));
        }
        self.ws();
        let v = self.value()?;
        Ok((a, Some(v)))
    }

    pub fn value(&mut self) -> R<(&'a str, bool)> {
        let vstart = self.i;
        match self.peek() {
            Some(q @ ('"' | '\'')) => {
                self.bump();
                Ok((self.until(if q == '"' { "\"" } else { "'" }, vstart, "attribute value")?, true))
            }
            _ => {
                while self.peek().map_or(false, |c| !is_ws(c) && !matches!(c, '"' | '\'' | '>')) {
                    self.bump();
                }
                if self.i == vstart {
                    return Err(Stop::Bad(vstart, "attribute value"));
                }
                Ok((&self.s[vstart..self.i], false))
            }
        }
    }

    pub fn attribute_event(&mut self) -> R<()> {
        let (a, v) = self.attribute()?;
        let value = match v {
            None => None,
            Some((raw, true)) => {
                let at = raw.as_ptr() as usize - self.s.as_ptr() as usize;
                Some(self.rcdata(raw, at)?)
            }
            Some((raw, false)) => Some(raw.to_string()),
        };
        self.out.push(Ev::Attr(self.cfg.norm_name(a), value));
        Ok(())
    }

    pub fn start_tag(&mut self) -> R<()> {
        let start = self.i;
        self.bump();
        if self.eat(">") {
            self.out.push(Ev::Open(String::new()));
            self.out.push(Ev::Close);
            return Ok(());
        }
        let n = self.name().unwrap();
        self.out.push(Ev::Open(self.cfg.norm_name(n)));
        self.ws();
        loop {
            if self.eat("/>") {
                self.out.push(Ev::XmlClose);
                return Ok(());
            }
            if self.eat(">") {
                self.out.push(Ev::Close);
                return Ok(());
            }
            if !self.peek().map_or(false, is_name_start) {
                return Err(Stop::Bad(start, "start tag"));
            }
            self.attribute_event()?;
            self.ws();
        }
    }
}
