//! Plain-data mirror of the crate's events and parser configuration.

use sgmlish::parser::{MarkedSectionHandling, NameNormalization};
use sgmlish::{Parser, SgmlEvent, SgmlFragment};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    Decl(String, String),
    Pi(String),
    Sect(String, String),
    Open(String),
    Attr(String, Option<String>),
    Close,
    XmlClose,
    End(String),
    Char(String),
}

/// A copy of a string the crate made. That it is UTF-8 is checked here, as code may promise it unchecked.
fn own(s: &str) -> String {
    if let Err(e) = std::str::from_utf8(std::hint::black_box(s.as_bytes())) {
        panic!("{} invalid UTF-8: {} in {:?}", crate::fw::BLAME, e, s.as_bytes());
    }
    s.to_string()
}

pub fn conv(e: &SgmlEvent) -> Ev {
    match e {
        SgmlEvent::MarkupDeclaration { keyword, body } => Ev::Decl(own(keyword), own(body)),
        SgmlEvent::ProcessingInstruction(s) => Ev::Pi(own(s)),
        SgmlEvent::MarkedSection {
            status_keywords,
            section,
        } => Ev::Sect(own(status_keywords), own(section)),
        SgmlEvent::OpenStartTag { name } => Ev::Open(own(name)),
        SgmlEvent::Attribute { name, value } => Ev::Attr(own(name), value.as_ref().map(|v| own(v))),
        SgmlEvent::CloseStartTag => Ev::Close,
        SgmlEvent::XmlCloseEmptyElement => Ev::XmlClose,
        SgmlEvent::EndTag { name } => Ev::End(own(name)),
        SgmlEvent::Character(s) => Ev::Char(own(s)),
    }
}

pub fn unconv(e: &Ev) -> SgmlEvent<'static> {
    match e.clone() {
        Ev::Decl(k, b) => SgmlEvent::MarkupDeclaration {
            keyword: k.into(),
            body: b.into(),
        },
        Ev::Pi(s) => SgmlEvent::ProcessingInstruction(s.into()),
        Ev::Sect(k, s) => SgmlEvent::MarkedSection {
            status_keywords: k.into(),
            section: s.into(),
        },
        Ev::Open(n) => SgmlEvent::OpenStartTag { name: n.into() },
        Ev::Attr(n, v) => SgmlEvent::Attribute {
            name: n.into(),
            value: v.map(Into::into),
        },
        Ev::Close => SgmlEvent::CloseStartTag,
        Ev::XmlClose => SgmlEvent::XmlCloseEmptyElement,
        Ev::End(n) => SgmlEvent::EndTag { name: n.into() },
        Ev::Char(s) => SgmlEvent::Character(s.into()),
    }
}

pub fn convs(f: &SgmlFragment) -> Vec<Ev> {
    f.as_slice().iter().map(conv).collect()
}

pub fn frag(evs: &[Ev]) -> SgmlFragment<'static> {
    SgmlFragment::from(evs.iter().map(unconv).collect::<Vec<_>>())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Norm {
    Same,
    Lower,
    Upper,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ms {
    Keep,
    Accept,
    Expand,
}

pub type Table = BTreeMap<String, String>;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub trim: bool,
    pub norm: Norm,
    pub ms: Ms,
    pub ign_decl: bool,
    pub ign_pi: bool,
    /// None: no lookup installed at all.
    pub ents: Option<Table>,
    pub pents: Option<Table>,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            trim: true,
            norm: Norm::Same,
            ms: Ms::Accept,
            ign_decl: false,
            ign_pi: false,
            ents: None,
            pents: None,
        }
    }
}

impl Cfg {
    pub fn norm(&self) -> NameNormalization {
        match self.norm {
            Norm::Same => NameNormalization::Unchanged,
            Norm::Lower => NameNormalization::ToLowercase,
            Norm::Upper => NameNormalization::ToUppercase,
        }
    }
    pub fn ms(&self) -> MarkedSectionHandling {
        match self.ms {
            Ms::Keep => MarkedSectionHandling::KeepUnmodified,
            Ms::Accept => MarkedSectionHandling::AcceptOnlyCharacterData,
            Ms::Expand => MarkedSectionHandling::ExpandAll,
        }
    }
    pub fn builder(&self) -> sgmlish::parser::ParserBuilder {
        let mut b = Parser::builder()
            .trim_whitespace(self.trim)
            .name_normalization(self.norm())
            .marked_section_handling(self.ms())
            .ignore_markup_declarations(self.ign_decl)
            .ignore_processing_instructions(self.ign_pi);
        if let Some(t) = &self.ents {
            let t = t.clone();
            b = b.expand_entities(move |n| t.get(n).cloned());
        }
        if let Some(t) = &self.pents {
            let t = t.clone();
            b = b.expand_parameter_entities(move |n| t.get(n).cloned());
        }
        b
    }
    pub fn parser(&self) -> Parser {
        self.builder().build()
    }
    pub fn norm_name(&self, n: &str) -> String {
        match self.norm {
            Norm::Same => n.to_string(),
            Norm::Lower => n.to_lowercase(),
            Norm::Upper => n.to_uppercase(),
        }
    }
    pub fn brief(&self) -> String {
        format!(
            "trim={} norm={:?} ms={:?} ign_decl={} ign_pi={} ents={:?} pents={:?}",
            self.trim, self.norm, self.ms, self.ign_decl, self.ign_pi, self.ents, self.pents
        )
    }
}

pub fn is_ws(c: char) -> bool {
    c == ' ' || c == '\t' || c == '\r' || c == '\n'
}
pub fn is_name_start(c: char) -> bool {
    c.is_alphabetic()
}
pub fn is_name_char(c: char) -> bool {
    c.is_alphanumeric() || c == '.' || c == '-' || c == '_' || c == ':'
}
pub fn trim_ws(s: &str) -> &str {
    let mut a = 0;
    let mut b = s.len();
    let bytes = s.as_bytes();
    while a < b && is_ws(bytes[a] as char) {
        a += 1;
    }
    while b > a && is_ws(bytes[b - 1] as char) {
        b -= 1;
    }
    &s[a..b]
}

/// First difference between two event lists, for reports.
pub fn diff(want: &[Ev], got: &[Ev]) -> String {
    let n = want.len().min(got.len());
    let i = (0..n).find(|&i| want[i] != got[i]).unwrap_or(n);
    format!(
        "event {}: expected {}, got {} (lengths {} and {})",
        i,
        want.get(i).map(|e| short(&format!("{:?}", e), 400)).unwrap_or("end".into()),
        got.get(i).map(|e| short(&format!("{:?}", e), 400)).unwrap_or("end".into()),
        want.len(),
        got.len()
    )
}

pub fn short(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let head: String = s.chars().take(n).collect();
        format!("{}…({} bytes)", head, s.len())
    }
}
