//! Ground-truth document generator: documents are built as a list of items whose meaning is known,
//! then spelled out with random lexical choices.

use crate::model::*;
use crate::refp::{self, Status};
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum Piece {
    Lit(String),
    /// A reference; `name` is what a lookup is asked for, None for a character reference.
    Ref {
        raw: String,
        name: Option<String>,
        ch: Option<char>,
    },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    None,
    /// Literal value spelled without quotes.
    Bare(String),
    Quoted(char, Vec<Piece>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Body {
    CData(String),
    RcData(Vec<Piece>),
    Ignore(String),
    Include(Vec<Item>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    /// White space that carries no event (prolog only).
    Ws(String),
    Comment(String),
    Decl(String, String),
    Pi(String),
    Sect(String, Body),
    /// Name, attributes, self-closing.
    Tag(String, Vec<(String, Val)>, bool),
    EmptyTag,
    End(String),
    EmptyEnd,
    Text(Vec<Piece>),
    /// Raw markup injected by fault workloads; never well-formed.
    Raw(String),
}

#[derive(Clone, Debug)]
pub struct Span {
    pub start: usize,
    pub end: usize,
    pub kind: &'static str,
    /// Bytes from `start` that commit the parser to this construct.
    pub commit: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Doc {
    pub lead: Vec<Item>,
    pub content: Vec<Item>,
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub sections: bool,
    pub comments: bool,
    pub pis: bool,
    pub decls: bool,
    pub refs: bool,
    pub empties: bool,
    pub xml_empty: bool,
    /// Text never ends in a way that could combine with what follows.
    pub safe_text: bool,
    pub size: usize,
    pub depth: usize,
    pub long: usize,
}
impl Default for Opts {
    fn default() -> Self {
        Opts {
            sections: true,
            comments: true,
            pis: true,
            decls: true,
            refs: true,
            empties: true,
            xml_empty: true,
            safe_text: false,
            size: 6,
            depth: 4,
            long: 400,
        }
    }
}

pub struct Gen<'r> {
    pub r: &'r mut Rng,
    pub o: Opts,
    pub names: Vec<String>,
    pub table: Table,
    pub ptable: Table,
    budget: usize,
}

pub const NAME_POOL: &[&str] = &[
    "a", "b", "c", "p", "i", "br", "A", "B", "Br", "bR", "HTML", "body", "x1", "x-y", "x.y", "x_y", "x:y", "OFX",
    "é", "É", "ß", "ﬁ", "Σ", "ΑΣ", "ΟΔΟΣ", "İ", "ı", "ǅ", "ǆ", "Ǆ", "ŉ", "ᾈ", "ⅷx", "ж", "Ж", "漢", "字", "ａ", "Ａ", "𐐀", "𐐨",
    "a٣", "a²", "aⅧ", "N.", "n-", "l_", "q:", "CDATA", "IGNORE", "x--y", "K", "ſ", "ẞ", "ΐ", "և",
];

pub const WS: &[&str] = &[" ", "\n", "\t", "\r\n", "\r", "  ", " \n\t "];
const ODD_WS: &[&str] = &["\u{a0}", "\u{c}", "\u{b}", "\u{85}", "\u{2028}", "\u{3000}", "\u{200b}", "\u{feff}", "\0"];
const WORDS: &[&str] = &[
    "x", "hello", "World", "42", "-1", "é", "ção", "日本", "🦀", "e\u{301}", "\u{10ffff}", "İ", "ß", "~", "#", "@", "$",
    "a.b", "_", ":", ";", ",", "?", "!", "*", "(", ")", "+", "|", "\\", "^", "`", "{", "}", "\u{7f}",
];
const ENT_VALUES: &[&str] = &[
    "<", ">", "&", "&amp;", "&#38;", "<b>", "</a>", "]]>", "\"", "'", "", " ", "  x ", "\n", "<!--", "-->", "<![CDATA[", "<?pi>", "é", "🦀",
    "&lt;", "%p;", "a b=\"c\"", "/>", "plain", "'>", "\">", "]]", "<!DOCTYPE x>", "\u{a0}", "\0", "-", "--",
];

impl<'r> Gen<'r> {
    pub fn new(r: &'r mut Rng, o: Opts) -> Self {
        let mut names = vec![];
        let n = r.range(2, 6);
        for _ in 0..n {
            let s = if r.chance(1, 3) {
                let k = r.range(1, 3);
                r.pick_str(&["a", "b", "p", "x", "name", "value"])[..1].repeat(k)
            } else {
                random_name(r, o.long)
            };
            names.push(s);
        }
        // Same name in another case
        if r.chance(1, 2) {
            let s = r.pick(&names).clone();
            let t = if r.bool() { s.to_uppercase() } else { s.to_lowercase() };
            if valid_name(&t) {
                names.push(t);
            }
        }
        let mut table = Table::new();
        for n in ["lt", "gt", "amp", "nbsp", "x", "e.f", "É", "a-b", "#SPACE", "#RS", "#1114112", "#xD800", "#55296", "#x110000", "#99999999999", "#xzz", "#x"] {
            if r.chance(2, 3) {
                let v = if r.chance(1, 40) {
                    let n = r.tail(40, o.long * 4);
                    "<&>".repeat(n)
                } else {
                    r.pick_str(ENT_VALUES).to_string()
                };
                table.insert(n.to_string(), v);
            }
        }
        for _ in 0..2 {
            if let Some(n) = crate::dict::name(r) {
                let v = crate::dict::word(r).unwrap_or("plain");
                table.insert(n, v.to_string());
            }
        }
        let mut ptable = Table::new();
        for n in ["p", "q", "HTML.Reserved", "é", "#f"] {
            if r.chance(2, 3) {
                let mut v = r
                    .pick_str(&["CDATA", "RCDATA", "IGNORE", "INCLUDE", "TEMP", "", " ", "cdata rcdata", " ignore ", "Include\ntemp", "rcData"])
                    .to_string();
                if r.chance(1, 12) {
                    v = r.pick_str(&["FOO", "CDATA FOO", "%q;", "CDATA[", "é"]).to_string();
                }
                ptable.insert(n.to_string(), v);
            }
        }
        let budget = 4 + r.tail(o.size * 4, o.size * 40);
        Gen {
            r,
            o,
            names,
            table,
            ptable,
            budget,
        }
    }

    pub fn name(&mut self) -> String {
        if self.r.chance(9, 10) {
            self.r.pick(&self.names).clone()
        } else {
            random_name(self.r, self.o.long)
        }
    }

    pub fn opt_ws(&mut self) -> String {
        if self.r.chance(1, 3) {
            self.r.pick_str(WS).to_string()
        } else {
            String::new()
        }
    }
    pub fn ws(&mut self) -> String {
        if self.r.chance(3, 4) {
            " ".into()
        } else {
            self.r.pick_str(WS).to_string()
        }
    }

    fn char_ref(&mut self) -> Piece {
        let c = self.any_char();
        let v = c as u32;
        let z = "0".repeat(if self.r.chance(1, 6) { self.r.range(1, 12) } else { 0 });
        let body = match self.r.below(3) {
            0 | 1 => format!("&#{}{}", z, v),
            _ => {
                let z = if z.len() > 6 { "00".to_string() } else { z };
                if self.r.bool() {
                    format!("&#x{}{:x}", z, v)
                } else {
                    format!("&#x{}{:X}", z, v)
                }
            }
        };
        let semi = if self.r.chance(5, 6) { ";" } else { "" };
        Piece::Ref {
            raw: body + semi,
            name: None,
            ch: Some(c),
        }
    }

    pub fn any_char(&mut self) -> char {
        if let Some(c) = crate::dict::char(self.r) {
            return c;
        }
        match self.r.below(8) {
            0 => *self.r.pick(&['<', '>', '&', '"', '\'', ';', '#', ']', '[', '-', '/', '=', '%']),
            1 => *self.r.pick(&[' ', '\n', '\t', '\r', '\u{c}', '\u{a0}']),
            2 => *self.r.pick(&['\0', '\u{7f}', '\u{80}', '\u{d7ff}', '\u{e000}', '\u{fffe}', '\u{ffff}', '\u{10000}', '\u{10ffff}']),
            3..=5 => self.r.range(32, 126) as u8 as char,
            _ => loop {
                if let Some(c) = char::from_u32(self.r.below(0x110000) as u32) {
                    break c;
                }
            },
        }
    }

    fn any_ref(&mut self) -> Piece {
        if self.table.is_empty() || self.r.chance(1, 2) {
            return self.char_ref();
        }
        let keys: Vec<String> = self.table.keys().cloned().collect();
        let name = self.r.pick(&keys).clone();
        let semi = if self.r.chance(5, 6) { ";" } else { "" };
        Piece::Ref {
            raw: format!("&{}{}", name, semi),
            name: Some(name),
            ch: None,
        }
    }

    /// Pieces of character data. `forbid` lists character sequences that must not occur in the spelling.
    pub fn pieces(&mut self, kind: TextKind, forbid: &[&str]) -> Vec<Piece> {
        for attempt in 0..6 {
            let n = 1 + self.r.tail(5, if attempt == 0 { self.o.long / 4 } else { 20 });
            let mut v: Vec<Piece> = vec![];
            for _ in 0..n {
                let p = self.piece(kind);
                v.push(p);
            }
            if kind == TextKind::Text && !self.o.safe_text && self.r.chance(1, 10) {
                let t = self.r.pick_str(&["<", "&", "</", "<!", "&#", "]", "]]", "<]", "]]<"]).to_string();
                v.push(Piece::Lit(t));
            }
            if kind != TextKind::Text && self.r.chance(1, 10) {
                let t = self.r.pick_str(&["<", "&", "</", "<a", "&#", "]", "<!--", "<!"]).to_string();
                v.push(Piece::Lit(t));
            }
            fix_refs(&mut v);
            let raw = spell(&v);
            if forbid.iter().any(|f| raw.contains(f)) {
                continue;
            }
            return v;
        }
        vec![Piece::Lit("x".into())]
    }

    fn piece(&mut self, kind: TextKind) -> Piece {
        let refs = self.o.refs;
        if let Some(w) = crate::dict::word_without(self.r, &['<', '&']) {
            return Piece::Lit(w.to_string());
        }
        match self.r.weighted(&[30, 20, 3, 5, 5, 4, 3, if refs { 15 } else { 0 }]) {
            0 => Piece::Lit(self.r.pick_str(WORDS).to_string()),
            1 => Piece::Lit(self.r.pick_str(WS).to_string()),
            2 => Piece::Lit(self.r.pick_str(ODD_WS).to_string()),
            3 => Piece::Lit(
                self.r
                    .pick_str(&["]]", "]", ">", "]]>", "[", "--", "-->", "-", "\"", "'", "/>", "=", "%", "%p;", "%p", "/", "]]]]>", "]] >"])
                    .to_string(),
            ),
            4 => Piece::Lit(match kind {
                // Never markup, whatever follows
                TextKind::Text => self
                    .r
                    .pick_str(&["< ", "<1", "<=", "<\u{a0}", "</ ", "<! ", "<!1", "</1", "<!=", "<<1", "<]", "<-", "<;", "<²", "<\0"])
                    .to_string(),
                TextKind::Data => self
                    .r
                    .pick_str(&["< ", "<a>", "</a>", "<!--", "-->", "<![CDATA[", "<![", "<?pi>", "<>", "</>", "<!x>", "<", "<a b=\"c\">"])
                    .to_string(),
            }),
            5 => Piece::Lit(self.r.pick_str(&["& ", "&1", "&;", "&=", "&# ", "&#;", "&&1", "&\u{a0}", "&#=", "&<1", "&#-"]).to_string()),
            6 => {
                let n = self.r.tail(3, 60);
                Piece::Lit(self.r.pick_str(WORDS).repeat(n + 1))
            }
            _ => self.any_ref(),
        }
    }

    /// Text run for element content.
    pub fn text(&mut self, in_include: bool) -> Vec<Piece> {
        let f: &[&str] = if in_include { &["]]>"] } else { &[] };
        self.pieces(TextKind::Text, f)
    }

    pub fn attr(&mut self) -> (String, Val) {
        let n = self.name();
        let v = match self.r.weighted(&[2, 3, 6]) {
            0 => Val::None,
            1 => Val::Bare(self.bare()),
            _ => {
                let q = if self.r.bool() { '"' } else { '\'' };
                if self.r.chance(1, 6) {
                    Val::Quoted(q, vec![])
                } else {
                    let qs = q.to_string();
                    Val::Quoted(q, self.pieces(TextKind::Data, &[&qs]))
                }
            }
        };
        (n, v)
    }

    pub fn bare(&mut self) -> String {
        let n = 1 + self.r.tail(3, 30);
        let mut s = String::new();
        for _ in 0..n {
            if let Some(w) = crate::dict::word_without(self.r, &['"', '\'', '>', ' ', '\t', '\r', '\n', '/']) {
                s.push_str(w);
            }
            s.push_str(self.r.pick_str(&[
                "x", "1", "/", "<", "&amp;", "&#65;", "=", "é", "🦀", "a-b", "http://x/?a=b&c=d", "<!--", "]]", "&", "#", "%p;", "[", "\u{a0}", "\u{c}", "--", "</a", "?", "&lt;",
            ]));
        }
        s
    }

    pub fn comment(&mut self) -> String {
        if self.r.chance(1, 6) {
            return "<!>".into();
        }
        let n = 1 + self.r.tail(1, 6);
        let mut s = String::from("<!");
        for k in 0..n {
            if k > 0 {
                let w = self.opt_ws();
                s.push_str(&w);
            }
            s.push_str("--");
            // The text itself may well start with a dash
            let start = s.len();
            for _ in 0..self.r.tail(4, 40) {
                if let Some(w) = crate::dict::word_without(self.r, &['-']) {
                    s.push_str(w);
                }
                let t = self.r.pick_str(&[
                    " ", "x", "-", ">", "<", "<b>", "</b>", "\"", "'", "]]>", "<![CDATA[", "&amp;", "&undefined;", "<!", "<?pi>", "é", "🦀", "\n", "[", "]", "- -", "->", "<!DOCTYPE x>", "%p;", "<!>",
                ]);
                if !(s[start..].ends_with('-') && t.starts_with('-')) {
                    s.push_str(t);
                }
            }
            if s[start..].ends_with('-') {
                s.push(' ');
            }
            // Opening "--" followed directly by the closing one is the empty comment
            s.push_str("--");
        }
        s.push('>');
        if !valid_comment(&s) {
            return "<!-- c -->".into();
        }
        s
    }

    pub fn pi(&mut self) -> String {
        let mut s = String::from("<?");
        for _ in 0..self.r.tail(4, 40) {
            if let Some(w) = crate::dict::word_without(self.r, &['>']) {
                s.push_str(w);
            }
            s.push_str(self.r.pick_str(&[
                "xml", " ", "version=\"1.0\"", "?", "<", "<a", "]]", "--", "<!--", "&lt;", "é", "🦀", "\"", "'", "\n", "&undefined;", "<![CDATA[", "/", "[", "%p;", "  ",
            ]));
        }
        s.push('>');
        s
    }

    fn quoted(&mut self) -> String {
        let q = if self.r.bool() { '"' } else { '\'' };
        let mut s = String::new();
        s.push(q);
        for _ in 0..self.r.tail(3, 20) {
            let t = self.r.pick_str(&["x", " ", ">", "<", "]", "[", "--", "-", "é", "'", "\"", "<!x>", "]]>", "&amp;", "\n", "<!--", "%p;"]);
            if !t.contains(q) {
                s.push_str(t);
            }
        }
        s.push(q);
        s
    }

    fn decl_comment(&mut self) -> String {
        let mut s = String::from(if self.r.chance(1, 5) { "--->" } else { "--" });
        for _ in 0..self.r.tail(3, 20) {
            let t = self.r.pick_str(&["x", " ", ">", "<", "]", "[", "- ", "é", "'", "\"", "don't", "<!x>", "]]>", "\n"]);
            s.push_str(t);
        }
        s.push_str("--");
        s
    }

    pub fn decl_body(&mut self, depth: usize) -> String {
        let n = self.r.tail(5, 30);
        let mut s = String::new();
        for k in 0..n {
            if k > 0 {
                // '-' must not meet '-' by accident
                let w = if self.r.chance(1, 4) && !s.ends_with('-') { self.opt_ws() } else { self.ws() };
                s.push_str(&w);
            }
            let t = match self.r.weighted(&[10, 4, 3, if depth > 0 { 4 } else { 0 }, 1]) {
                0 if self.r.chance(1, 4) => match crate::dict::word_without(self.r, &['-', '<', '>', '"', '\'', '[', ']']) {
                    Some(w) => w.to_string(),
                    None => match self.r.below(4) {
                        0 => self.r.below(1000).to_string(),
                        1 => format!("{}{}", self.r.pick_str(&["1", "a", "", ";", "="]), self.r.pick_str(&["é", "٣", "\u{301}", "\u{feff}", "\u{200b}", "\u{ad}", "\u{b}", "\u{7f}", "\0", "\u{1}"])),
                        2 => self.name().replace('-', "_"),
                        _ => self.r.pick_str(&["true", "null", "1", "0", ";", "$", "{x}", "\\"]).to_string(),
                    },
                },
                0 => self
                    .r
                    .pick_str(&["html", "PUBLIC", "SYSTEM", "(TH|TD)", "%attrs;", "#IMPLIED", "O", "x-y", "é", "]", "]]", "&amp;", "/", "?", "!", "a=b", "🦀", "\u{a0}", "+", "x]y"])
                    .to_string(),
                1 => self.quoted(),
                2 => self.decl_comment(),
                3 => self.subset(depth - 1),
                _ => "- ".trim_end().to_string() + " ",
            };
            if s.ends_with('-') && t.starts_with('-') {
                s.push(' ');
            }
            s.push_str(&t);
        }
        trim_ws(&s).to_string()
    }

    fn subset(&mut self, depth: usize) -> String {
        let mut s = String::from("[");
        for _ in 0..self.r.tail(5, 30) {
            let t = match self.r.weighted(&[6, 6, 3, 3, if depth > 0 { 3 } else { 0 }, 5, 3, 2]) {
                0 => self.r.pick_str(&["x", "%p;", "é", "🦀", "a=b", ",", "(a|b)", "&", "!", "/", "?"]).to_string(),
                1 => self.r.pick_str(WS).to_string(),
                2 => self.quoted(),
                3 => self.decl_comment(),
                4 => self.subset(depth - 1),
                5 => self.decl(depth),
                6 => self.comment(),
                _ => self.pi(),
            };
            s.push_str(&t);
        }
        s.push(']');
        s
    }

    fn decl(&mut self, depth: usize) -> String {
        let (kw, body) = self.decl_parts(depth);
        self.spell_decl(&kw, &body)
    }

    pub fn decl_parts(&mut self, depth: usize) -> (String, String) {
        let kw = if self.r.chance(4, 5) {
            self.r
                .pick_str(&["DOCTYPE", "ELEMENT", "ATTLIST", "ENTITY", "doctype", "x", "É", "NOTATION"])
                .to_string()
        } else {
            self.name()
        };
        (kw, self.decl_body(depth))
    }

    fn spell_decl(&mut self, kw: &str, body: &str) -> String {
        let mut s = format!("<!{}", kw);
        if !body.is_empty() {
            let tight = matches!(body.chars().next(), Some('"' | '\'' | '[' | '#' | '('));
            if !(tight && self.r.chance(1, 3)) {
                let w = self.ws();
                s.push_str(&w);
            }
            s.push_str(body);
        }
        // A body ending in a lone dash must not touch what follows... only '>' follows, which is fine
        let w = self.opt_ws();
        s.push_str(&w);
        s.push('>');
        s
    }

    pub fn keywords(&mut self, st: Status) -> String {
        let mut list: Vec<String> = vec![];
        let pick = |r: &mut Rng, st: Status| -> String {
            match st {
                Status::CData => "CDATA",
                Status::RcData => "RCDATA",
                Status::Ignore => "IGNORE",
                Status::Include => r.pick_str(&["INCLUDE", "TEMP"]),
            }
            .to_string()
        };
        if !(st == Status::Include && self.r.chance(1, 4)) {
            list.push(pick(self.r, st));
        }
        if self.r.chance(1, 3) {
            for _ in 0..self.r.range(1, 3) {
                let other = *self.r.pick(&[Status::Include, Status::RcData, Status::CData, Status::Ignore]);
                if other <= st {
                    let k = pick(self.r, other);
                    let at = self.r.below(list.len() + 1);
                    list.insert(at, k);
                }
            }
        }
        if self.r.chance(1, 6) {
            // Parameter entities that do not raise the status
            let ok: Vec<String> = self
                .ptable
                .iter()
                .filter(|(_, v)| refp::status_of(v).map_or(false, |s| s <= st))
                .map(|(k, _)| k.clone())
                .collect();
            if !ok.is_empty() {
                let k = self.r.pick(&ok).clone();
                let at = self.r.below(list.len() + 1);
                list.insert(at, format!("%{};", k));
            }
        }
        let mut s = self.opt_ws();
        for (i, k) in list.iter().enumerate() {
            if i > 0 {
                let w = self.ws();
                s.push_str(&w);
            }
            if k.starts_with('%') {
                s.push_str(k);
            } else {
                match self.r.below(4) {
                    0 => s.push_str(&k.to_lowercase()),
                    1 => {
                        for c in k.chars() {
                            s.push(if self.r.bool() { c.to_ascii_lowercase() } else { c });
                        }
                    }
                    _ => s.push_str(k),
                }
            }
        }
        let w = self.opt_ws();
        s.push_str(&w);
        s
    }

    pub fn cdata_body(&mut self) -> String {
        for _ in 0..5 {
            let mut s = String::new();
            for _ in 0..self.r.tail(5, 60) {
                s.push_str(self.r.pick_str(&[
                    " ", "\n", "x", "<b>", "</b>", "&amp;", "&undefined;", "]]", "]", ">", "<![", "<![CDATA[", "<!--", "-->", "]] >", "é", "🦀", "\u{a0}", "<", "&#65;", "\"", "'", "<?pi", "]>", "<!x",
                ]));
            }
            if !s.contains("]]>") {
                return s;
            }
        }
        " x ".into()
    }

    pub fn ignore_body(&mut self, depth: usize) -> String {
        for _ in 0..5 {
            let s = self.ignore_rec(depth);
            if ignore_ok(&s) {
                return s;
            }
        }
        "x".into()
    }
    fn ignore_rec(&mut self, depth: usize) -> String {
        let mut s = String::new();
        for _ in 0..self.r.tail(5, 40) {
            if depth > 0 && self.r.chance(1, 4) {
                let kw = self.r.pick_str(&["", "CDATA[", "IGNORE[", "x", "FOO[", " [", "%p;["]).to_string();
                let inner = self.ignore_rec(depth - 1);
                s.push_str("<![");
                s.push_str(&kw);
                s.push_str(&inner);
                s.push_str("]]>");
            } else {
                s.push_str(self.r.pick_str(&[
                    " ", "x", "<b>", "</b", "&undefined;", "]]", "]", ">", "<!", "<", "[", "<!--", "-->", "\"", "'", "<?pi", "<a b='", "é", "🦀", "]>", "]] >", "<! [", "\n", "<!D ", "]]]",
                ]));
            }
        }
        s
    }

    pub fn section(&mut self, depth: usize) -> Item {
        let st = *self.r.pick(&[Status::CData, Status::RcData, Status::Ignore, Status::Include]);
        self.section_of(st, depth)
    }
    pub fn section_of(&mut self, st: Status, depth: usize) -> Item {
        let kw = self.keywords(st);
        let body = match st {
            Status::CData => Body::CData(self.cdata_body()),
            Status::RcData => {
                if self.r.chance(1, 8) {
                    Body::RcData(vec![])
                } else {
                    Body::RcData(self.pieces(TextKind::Data, &["]]>"]))
                }
            }
            Status::Ignore => {
                let d = self.r.tail(3, 8);
                Body::Ignore(self.ignore_body(d))
            }
            Status::Include => {
                let mut v = vec![];
                if depth > 0 && !self.r.chance(1, 8) {
                    self.content(depth - 1, true, &mut v);
                }
                Body::Include(v)
            }
        };
        Item::Sect(kw, body)
    }

    pub fn tag(&mut self, out: &mut Vec<Item>, xml_empty: bool) -> String {
        let n = self.name();
        let k = if self.r.chance(1, 2) { 0 } else { self.r.tail(3, 40) };
        let attrs = (0..k).map(|_| self.attr()).collect();
        out.push(Item::Tag(n.clone(), attrs, xml_empty));
        n
    }

    pub fn content(&mut self, depth: usize, inc: bool, out: &mut Vec<Item>) {
        let n = self.r.tail(self.o.size, self.o.size * 20);
        for _ in 0..n {
            if self.budget == 0 {
                return;
            }
            self.budget -= 1;
            let o = &self.o;
            let w = [
                12,
                10,
                if o.comments { 3 } else { 0 },
                if o.pis { 2 } else { 0 },
                if o.sections { 4 } else { 0 },
                if o.xml_empty { 2 } else { 0 },
                if o.empties { 1 } else { 0 },
                if o.empties { 1 } else { 0 },
            ];
            match self.r.weighted(&w) {
                0 => {
                    let name = self.tag(out, false);
                    if depth > 0 {
                        self.content(depth - 1, inc, out);
                    }
                    match self.r.below(8) {
                        0 | 1 => {}
                        2 if self.o.empties => out.push(Item::EmptyEnd),
                        3 => {
                            let other = self.name();
                            out.push(Item::End(other))
                        }
                        _ => out.push(Item::End(name)),
                    }
                }
                1 => {
                    if !matches!(out.last(), Some(Item::Text(_))) {
                        let t = self.text(inc);
                        out.push(Item::Text(t));
                    }
                }
                2 => {
                    let c = self.comment();
                    out.push(Item::Comment(c));
                }
                3 => {
                    let p = self.pi();
                    out.push(Item::Pi(p));
                }
                4 => {
                    let s = self.section(depth);
                    out.push(s);
                }
                5 => {
                    self.tag(out, true);
                }
                6 => out.push(Item::EmptyTag),
                _ => out.push(Item::EmptyEnd),
            }
        }
    }

    pub fn lead(&mut self) -> Vec<Item> {
        let mut v = vec![];
        if self.r.chance(1, 3) {
            v.push(Item::Ws(self.r.pick_str(WS).to_string()));
        }
        if self.r.chance(1, 2) {
            return v;
        }
        for _ in 0..self.r.tail(3, 10) {
            match self.r.weighted(&[
                4,
                if self.o.comments { 2 } else { 0 },
                if self.o.decls { 4 } else { 0 },
                if self.o.pis { 2 } else { 0 },
                if self.o.sections { 1 } else { 0 },
            ]) {
                0 => v.push(Item::Ws(self.r.pick_str(WS).to_string())),
                1 => v.push(Item::Comment(self.comment())),
                2 => {
                    let d = self.r.tail(2, 6);
                    let (k, b) = self.decl_parts(d);
                    v.push(Item::Decl(k, b));
                }
                3 => v.push(Item::Pi(self.pi())),
                _ => v.push(self.section(2)),
            }
        }
        v
    }

    pub fn doc(&mut self) -> Doc {
        let lead = self.lead();
        let mut content = vec![];
        let depth = self.o.depth;
        // Content must begin with something that is not part of the prolog
        if self.r.chance(1, 5) {
            let t = self.text(false);
            content.push(Item::Text(t));
        } else {
            self.tag(&mut content, false);
        }
        self.content(depth, false, &mut content);
        strip_first(&mut content);
        if content.is_empty() || matches!(content[0], Item::Comment(_) | Item::Pi(_) | Item::Sect(..)) {
            content.insert(0, Item::Tag("a".into(), vec![], false));
        }
        let mut d = Doc { lead, content };
        if self.r.chance(1, 300) {
            amplify(self.r, &mut d, self.o.long);
        }
        d
    }
}

/// A count spread evenly over the orders of magnitude, often next to a power of two.
pub fn magnitude(r: &mut Rng, max: usize) -> usize {
    if let Some(n) = crate::dict::num(r, max) {
        return n.max(1);
    }
    let bits = (usize::BITS - max.leading_zeros()) as usize;
    let p = 1usize << r.below(bits);
    let n = match r.below(4) {
        0 => p - 1,
        1 => p,
        2 => p + 1,
        _ => r.range(p, 2 * p),
    };
    n.clamp(1, max)
}

/// All lists of items in a document, outermost first.
fn lists<'a>(items: &'a mut Vec<Item>, out: &mut Vec<&'a mut Vec<Item>>) {
    // Only one level of nesting is needed: take either the list or what it includes
    let nested = items.iter().position(|i| matches!(i, Item::Sect(_, Body::Include(v)) if !v.is_empty()));
    match nested {
        Some(k) if out.len() % 2 == 1 => {
            if let Item::Sect(_, Body::Include(v)) = &mut items[k] {
                out.push(v);
            }
        }
        _ => out.push(items),
    }
}

/// Makes one dimension of a document much larger; its meaning stays known.
pub fn amplify(r: &mut Rng, d: &mut Doc, long: usize) {
    let n = magnitude(r, long * 10);
    let mut ls: Vec<&mut Vec<Item>> = vec![];
    if r.chance(1, 4) {
        lists(&mut d.lead, &mut ls);
    } else {
        if r.bool() {
            ls.push(&mut d.lead);
        }
        lists(&mut d.content, &mut ls);
    }
    let items: &mut Vec<Item> = ls.pop().unwrap();
    if items.is_empty() {
        return;
    }
    let plain = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || is_ws(c));
    match r.below(9) {
        // A run of items, over and over
        0..=2 => {
            let starts: Vec<usize> = (0..items.len()).filter(|&i| matches!(items[i], Item::Tag(..) | Item::Ws(_) | Item::Decl(..))).collect();
            if starts.is_empty() {
                return;
            }
            let i = *r.pick(&starts);
            let j = r.range(i + 1, items.len().min(i + 4));
            let part: Vec<Item> = items[i..j].to_vec();
            let n = n.min(4000 / part.len());
            let more: Vec<Item> = (0..n).flat_map(|_| part.iter().cloned()).collect();
            items.splice(i..i, more);
        }
        // Many attributes
        3 => {
            let tags: Vec<usize> = (0..items.len()).filter(|&i| matches!(&items[i], Item::Tag(_, a, _) if !a.is_empty())).collect();
            if tags.is_empty() {
                return;
            }
            let k = *r.pick(&tags);
            if let Item::Tag(_, attrs, _) = &mut items[k] {
                let one = attrs.clone();
                for _ in 0..n.min(3000) / one.len() {
                    attrs.extend(one.iter().cloned());
                }
            }
        }
        // Long names and values
        4 => {
            let tags: Vec<usize> = (0..items.len()).filter(|&i| matches!(&items[i], Item::Tag(..) | Item::End(_))).collect();
            if tags.is_empty() {
                return;
            }
            let k = *r.pick(&tags);
            match &mut items[k] {
                Item::End(name) => name.push_str(&"x".repeat(n)),
                Item::Tag(name, attrs, _) => {
                    if attrs.is_empty() || r.bool() {
                        name.push_str(&r.pick_str(&["x", "É", "-"]).repeat(n));
                    } else {
                        let (a, v) = &mut attrs[0];
                        match v {
                            Val::Bare(s) => s.push_str(&"/x".repeat(n)),
                            _ => a.push_str(&"y".repeat(n)),
                        }
                    }
                }
                _ => {}
            }
        }
        // Long comments, instructions, declarations, sections
        5 => {
            let at: Vec<usize> = (0..items.len())
                .filter(|&i| match &items[i] {
                    Item::Comment(c) => c.starts_with("<!--"),
                    Item::Pi(_) | Item::Sect(_, Body::CData(_) | Body::Ignore(_)) => true,
                    Item::Decl(_, b) => !b.is_empty(),
                    _ => false,
                })
                .collect();
            if at.is_empty() {
                return;
            }
            let k = *r.pick(&at);
            let more = r.pick_str(&["x", " ", "é", "x\n", "<a>", "&"]).repeat(n);
            match &mut items[k] {
                Item::Comment(c) => c.insert_str(4, &more),
                Item::Pi(p) => p.insert_str(2, &more.replace('>', "/")),
                Item::Sect(_, Body::CData(b) | Body::Ignore(b)) => b.insert_str(0, &more),
                Item::Decl(_, b) => {
                    if r.bool() {
                        *b = format!("\"x{}\" {}", more, b);
                    } else {
                        // Bodies side by side are a body
                        *b = format!("{}{}", format!("{} ", b).repeat(n.min(30_000 / b.len())), b);
                    }
                }
                _ => {}
            }
        }
        // Long text: one piece over and over
        _ => {
            let mut all: Vec<&mut Vec<Piece>> = vec![];
            for it in items.iter_mut() {
                match it {
                    Item::Text(p) => all.push(p),
                    Item::Sect(_, Body::RcData(p)) => all.push(p),
                    Item::Tag(_, a, _) => all.extend(a.iter_mut().filter_map(|(_, v)| match v {
                        Val::Quoted(_, p) => Some(p),
                        _ => None,
                    })),
                    _ => {}
                }
            }
            if all.is_empty() {
                return;
            }
            let k = r.below(all.len());
            let p = &mut all[k];
            let at = match p.iter().position(|p| match p {
                Piece::Lit(s) => plain(s),
                Piece::Ref { .. } => r.bool(),
            }) {
                Some(at) => at,
                None => return,
            };
            let one = match p[at].clone() {
                Piece::Ref { mut raw, name, ch } => {
                    if !raw.ends_with(';') {
                        raw.push(';');
                    }
                    Piece::Ref { raw, name, ch }
                }
                o => o,
            };
            p[at] = one.clone();
            let more: Vec<Piece> = (0..n.min(3000)).map(|_| one.clone()).collect();
            p.splice(at..at, more);

        }
    }
}

/// White space at the start of the content belongs to the prolog.
fn strip_first(content: &mut Vec<Item>) {
    if let Some(Item::Text(p)) = content.first_mut() {
        while let Some(Piece::Lit(s)) = p.first_mut() {
            let t = s.trim_start_matches(is_ws).to_string();
            if t.is_empty() {
                p.remove(0);
            } else {
                *s = t;
                break;
            }
        }
        if p.is_empty() {
            content.remove(0);
            // What follows may be text again only if it was separated; it never is
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum TextKind {
    /// Element content: no piece may form markup.
    Text,
    /// Quoted values and RCDATA: markup is just characters.
    Data,
}

pub fn valid_name(s: &str) -> bool {
    let mut c = s.chars();
    c.next().map_or(false, is_name_start) && c.all(is_name_char)
}

pub fn random_name(r: &mut Rng, long: usize) -> String {
    if let Some(n) = crate::dict::name(r) {
        return n;
    }
    match r.below(6) {
        0..=2 => r.pick_str(NAME_POOL).to_string(),
        3 => {
            let n = r.range(1, 4);
            (0..n).map(|_| r.pick_str(NAME_POOL)).collect::<Vec<_>>().join(r.pick_str(&["", "-", ".", "_", ":"]))
        }
        4 => {
            let n = 1 + r.tail(6, long);
            let mut s = String::new();
            s.push((b'a' + r.below(26) as u8) as char);
            for _ in 0..n {
                s.push(*r.pick(&['a', 'B', '0', '9', '-', '.', '_', ':', 'z', 'é']));
            }
            s
        }
        _ => {
            // Random alphabetic characters of the whole of Unicode
            let mut s = String::new();
            while s.chars().count() < r.range(1, 5) {
                if let Some(c) = char::from_u32(r.below(0x20000) as u32) {
                    if (s.is_empty() && is_name_start(c)) || (!s.is_empty() && is_name_char(c)) {
                        s.push(c);
                    }
                }
            }
            s
        }
    }
}

/// Gives references a ';' where what follows would otherwise be absorbed.
pub fn fix_refs(v: &mut Vec<Piece>) {
    for i in 0..v.len() {
        let next = v[i + 1..]
            .iter()
            .map(|p| match p {
                Piece::Lit(s) => s.as_str(),
                Piece::Ref { raw, .. } => raw.as_str(),
            })
            .find(|s| !s.is_empty())
            .and_then(|s| s.chars().next());
        if let Piece::Ref { raw, .. } = &mut v[i] {
            if !raw.ends_with(';') {
                let dec = raw.starts_with("&#") && raw[2..].chars().all(|c| c.is_ascii_digit());
                let clash = match next {
                    None => false,
                    Some(';') => true,
                    Some(c) if dec => c.is_ascii_digit(),
                    Some(c) => is_name_char(c),
                };
                if clash {
                    raw.push(';');
                }
            }
        }
    }
}

pub fn spell(v: &[Piece]) -> String {
    let mut s = String::new();
    for p in v {
        match p {
            Piece::Lit(l) => s.push_str(l),
            Piece::Ref { raw, .. } => s.push_str(raw),
        }
    }
    s
}

/// Value of pieces; `None` if a name is undefined.
pub fn value(v: &[Piece], cfg: &Cfg) -> Option<String> {
    let mut s = String::new();
    for p in v {
        match p {
            Piece::Lit(l) => s.push_str(l),
            Piece::Ref { ch: Some(c), .. } => s.push(*c),
            Piece::Ref { name, .. } => s.push_str(cfg.ents.as_ref()?.get(name.as_ref().unwrap())?),
        }
    }
    Some(s)
}

/// Removes literal white space at both ends.
pub fn trimmed(v: &[Piece]) -> Vec<Piece> {
    let mut v = v.to_vec();
    loop {
        match v.first_mut() {
            Some(Piece::Lit(s)) => {
                let t = s.trim_start_matches(is_ws).to_string();
                if t.is_empty() {
                    v.remove(0);
                    continue;
                }
                *s = t;
            }
            _ => {}
        }
        break;
    }
    loop {
        match v.last_mut() {
            Some(Piece::Lit(s)) => {
                let t = s.trim_end_matches(is_ws).to_string();
                if t.is_empty() {
                    v.pop();
                    continue;
                }
                *s = t;
            }
            _ => {}
        }
        break;
    }
    v
}

fn valid_comment(s: &str) -> bool {
    let mut p = match s.strip_prefix("<!") {
        Some(p) => p,
        None => return false,
    };
    loop {
        p = p.trim_start_matches(is_ws);
        if p == ">" {
            // No space is allowed before the end
            return !s[..s.len() - 1].ends_with(is_ws);
        }
        match p.strip_prefix("--") {
            Some(q) => match q.find("--") {
                Some(n) => p = &q[n + 2..],
                None => return false,
            },
            None => return false,
        }
    }
}

/// Every "<![" and "]]>" pair up and nothing ends early.
pub fn ignore_ok(s: &str) -> bool {
    let b = s.as_bytes();
    let mut d = 0usize;
    let mut i = 0;
    while i < b.len() {
        if b[i..].starts_with(b"<![") {
            d += 1;
            i += 3;
        } else if b[i..].starts_with(b"]]>") {
            if d == 0 {
                return false;
            }
            d -= 1;
            i += 3;
        } else {
            i += 1;
        }
    }
    d == 0 && !s.ends_with("<!") // "<!" + "]]>" is fine, kept simple
}

/// Expected events of an item list. Err: the configuration makes the document invalid.
pub fn expect(items: &[Item], cfg: &Cfg, out: &mut Vec<Ev>) -> Result<(), &'static str> {
    for it in items {
        match it {
            Item::Ws(_) | Item::Comment(_) => {}
            Item::Raw(_) => return Err("fault"),
            Item::Decl(k, b) => {
                if !cfg.ign_decl {
                    out.push(Ev::Decl(k.clone(), b.clone()))
                }
            }
            Item::Pi(p) => {
                if !cfg.ign_pi {
                    out.push(Ev::Pi(p.clone()))
                }
            }
            Item::Tag(n, attrs, xml) => {
                out.push(Ev::Open(cfg.norm_name(n)));
                for (a, v) in attrs {
                    let v = match v {
                        Val::None => None,
                        Val::Bare(s) => Some(s.clone()),
                        Val::Quoted(_, p) => Some(value(p, cfg).ok_or("undefined entity")?),
                    };
                    out.push(Ev::Attr(cfg.norm_name(a), v));
                }
                out.push(if *xml { Ev::XmlClose } else { Ev::Close });
            }
            Item::EmptyTag => {
                out.push(Ev::Open(String::new()));
                out.push(Ev::Close);
            }
            Item::End(n) => out.push(Ev::End(cfg.norm_name(n))),
            Item::EmptyEnd => out.push(Ev::End(String::new())),
            Item::Text(p) => {
                let p = if cfg.trim { trimmed(p) } else { p.clone() };
                if !spell(&p).is_empty() {
                    out.push(Ev::Char(value(&p, cfg).ok_or("undefined entity")?));
                }
            }
            Item::Sect(kw, body) => {
                let raw = trim_ws(kw);
                let mut lk = |n: &str| cfg.pents.as_ref().and_then(|t| t.get(n).cloned());
                let kws = refp::expand(raw, true, &mut lk).map_err(|_| "undefined parameter entity")?;
                if cfg.ms == Ms::Accept {
                    if kws != kws.trim() {
                        return Err("unspecified");
                    }
                    match refp::keyword_status(&kws) {
                        Some(Status::CData | Status::RcData) => {}
                        _ => return Err("keyword not accepted"),
                    }
                }
                let st = refp::status_of(&kws).map_err(|_| "unknown keyword")?;
                let want = match body {
                    Body::CData(_) => Status::CData,
                    Body::RcData(_) => Status::RcData,
                    Body::Ignore(_) => Status::Ignore,
                    Body::Include(_) => Status::Include,
                };
                if st != want {
                    return Err("unspecified");
                }
                if let Body::Include(inner) = body {
                    // Included content is always read, even when kept unmodified
                    let mut inner_out = vec![];
                    expect(inner, cfg, &mut inner_out)?;
                    if cfg.ms == Ms::Expand {
                        out.extend(inner_out);
                    }
                }
                if cfg.ms == Ms::Keep {
                    let mut s = String::new();
                    render_body(body, &mut s, &mut Rng::new(0), &mut vec![], false);
                    out.push(Ev::Sect(kws, s));
                    continue;
                }
                match body {
                    Body::CData(s) => out.push(Ev::Char(if cfg.trim { trim_ws(s).into() } else { s.clone() })),
                    Body::RcData(p) => {
                        let p = if cfg.trim { trimmed(p) } else { p.clone() };
                        out.push(Ev::Char(value(&p, cfg).ok_or("undefined entity")?));
                    }
                    _ => {}
                }
            }
        }
    }
    Ok(())
}

fn render_body(b: &Body, s: &mut String, r: &mut Rng, spans: &mut Vec<Span>, vary: bool) {
    match b {
        Body::CData(t) | Body::Ignore(t) => s.push_str(t),
        Body::RcData(p) => s.push_str(&spell(p)),
        Body::Include(items) => render_items(items, s, r, spans, vary),
    }
}

fn rws(r: &mut Rng, vary: bool, min: usize) -> String {
    if !vary {
        return " ".repeat(min);
    }
    if min > 0 {
        if r.chance(2, 3) {
            " ".into()
        } else {
            r.pick_str(WS).to_string()
        }
    } else if r.chance(1, 4) {
        r.pick_str(WS).to_string()
    } else {
        String::new()
    }
}

/// Whether a literal can be spelled without quotes.
pub fn bare_ok(s: &str) -> bool {
    !s.is_empty() && !s.contains(|c: char| is_ws(c) || matches!(c, '"' | '\'' | '>'))
}

pub fn render_items(items: &[Item], s: &mut String, r: &mut Rng, spans: &mut Vec<Span>, vary: bool) {
    for it in items {
        let start = s.len();
        let mut kind = "";
        let mut commit = 0;
        match it {
            Item::Ws(w) => s.push_str(w),
            Item::Comment(c) => {
                s.push_str(c);
                kind = "comment";
                commit = 3;
            }
            Item::Raw(t) => s.push_str(t),
            Item::Decl(k, b) => {
                s.push_str("<!");
                s.push_str(k);
                if !b.is_empty() {
                    s.push_str(&rws(r, vary, 1));
                    s.push_str(b);
                }
                s.push_str(&rws(r, vary, 0));
                s.push('>');
                kind = "declaration";
                commit = 2 + k.chars().next().unwrap().len_utf8();
            }
            Item::Pi(p) => {
                s.push_str(p);
                kind = "pi";
                commit = 2;
            }
            Item::Tag(n, attrs, xml) => {
                s.push('<');
                s.push_str(n);
                let mut glue_ok = false; // a name may follow directly
                let mut bare_last = false;
                for (a, v) in attrs {
                    s.push_str(&if glue_ok && vary && r.chance(1, 5) { String::new() } else { rws(r, vary, 1) });
                    s.push_str(a);
                    bare_last = false;
                    match v {
                        Val::None => glue_ok = false,
                        Val::Bare(t) => {
                            s.push_str(&rws(r, vary, 0));
                            s.push('=');
                            s.push_str(&rws(r, vary, 0));
                            // A literal without '&' means the same with quotes
                            if vary && !t.contains('&') && r.chance(1, 3) {
                                let q = if r.bool() { '"' } else { '\'' };
                                s.push(q);
                                s.push_str(t);
                                s.push(q);
                                glue_ok = true;
                            } else {
                                s.push_str(t);
                                glue_ok = false;
                                bare_last = true;
                            }
                        }
                        Val::Quoted(q, p) => {
                            let mut t = spell(p);
                            let mut q = *q;
                            s.push_str(&rws(r, vary, 0));
                            s.push('=');
                            s.push_str(&rws(r, vary, 0));
                            let literal = !t.contains('&');
                            if vary && literal && bare_ok(&t) && r.chance(1, 4) {
                                s.push_str(&t);
                                glue_ok = false;
                                bare_last = true;
                            } else {
                                if vary && r.chance(1, 4) {
                                    let other = if q == '"' { '\'' } else { '"' };
                                    if !t.contains(other) {
                                        q = other;
                                    }
                                }
                                s.push(q);
                                s.push_str(&std::mem::take(&mut t));
                                s.push(q);
                                glue_ok = true;
                            }
                        }
                    }
                }
                if *xml {
                    s.push_str(&rws(r, vary, bare_last as usize));
                    s.push_str("/>");
                } else {
                    s.push_str(&rws(r, vary, 0));
                    s.push('>');
                }
                kind = "start tag";
                commit = 1 + n.chars().next().unwrap().len_utf8();
            }
            Item::EmptyTag => s.push_str("<>"),
            Item::End(n) => {
                s.push_str("</");
                s.push_str(n);
                s.push_str(&rws(r, vary, 0));
                s.push('>');
                kind = "end tag";
                commit = 2 + n.chars().next().unwrap().len_utf8();
            }
            Item::EmptyEnd => s.push_str("</>"),
            Item::Text(p) => s.push_str(&spell(p)),
            Item::Sect(kw, b) => {
                s.push_str("<![");
                s.push_str(kw);
                s.push('[');
                // The body is spelled the same way every time: it may be reported verbatim
                render_body(b, s, &mut Rng::new(0), spans, false);
                s.push_str("]]>");
                kind = "section";
                commit = 3;
            }
        }
        if !kind.is_empty() {
            spans.push(Span {
                start,
                end: s.len(),
                kind,
                commit,
            });
        }
    }
}

impl Doc {
    pub fn render(&self, r: &mut Rng) -> (String, Vec<Span>) {
        let mut s = String::new();
        let mut spans = vec![];
        render_items(&self.lead, &mut s, r, &mut spans, true);
        render_items(&self.content, &mut s, r, &mut spans, true);
        (s, spans)
    }
    pub fn expect(&self, cfg: &Cfg) -> Result<Vec<Ev>, &'static str> {
        let mut out = vec![];
        expect(&self.lead, cfg, &mut out)?;
        expect(&self.content, cfg, &mut out)?;
        Ok(out)
    }
}

pub fn random_cfg(r: &mut Rng, g_table: &Table, p_table: &Table) -> Cfg {
    Cfg {
        trim: r.bool(),
        norm: *r.pick(&[Norm::Same, Norm::Same, Norm::Lower, Norm::Upper]),
        ms: *r.pick(&[Ms::Keep, Ms::Accept, Ms::Expand, Ms::Expand]),
        ign_decl: r.chance(1, 4),
        ign_pi: r.chance(1, 4),
        ents: if r.chance(9, 10) { Some(g_table.clone()) } else { None },
        pents: if r.chance(9, 10) { Some(p_table.clone()) } else { None },
    }
}
