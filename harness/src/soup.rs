//! Inputs with no structure guarantee: token soup, mutated documents, raw text.

use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;

const TOKENS: &[&str] = &[
    "<", ">", "</", "/>", "<!", "<!-", "<!--", "-->", "--", "<!>", "<![", "<![CDATA[", "<![RCDATA[", "<![IGNORE[", "<![INCLUDE[", "<![TEMP[", "<![[", "<![ %p;[", "<![%p[", "<![ cdata ignore [", "]]>", "]]", "]", "[",
    "<?", "<?x>", "<?x y?>", "<!DOCTYPE", "<!DOCTYPE x>", "<!x [", "<!e '>'>", "<a", "<a>", "</a>", "<b c", "<b c=", "<b c=d>", "<b c='", "<b c=\"", "<p x='1' y=2>", "</b", "</b >", "<>", "</>", "<a/>", "<a b/>",
    "=", "'", "\"", " ", "\n", "\t", "\r", "\r\n", "  ", "&", "&#", "&#x", "&#65;", "&#x41;", "&#xD800;", "&#99999999999;", "&lt;", "&lt", "&x;", "&x", "&nope;", "&#SPACE;", ";", "%", "%p;", "%p", "%q;", "#", "-", "!", "?", "/",
    "a", "b", "c", "x1", "name", "value", "é", "É", "ß", "İ", "ﬁ", "漢", "🦀", "e\u{301}", "\u{a0}", "\u{c}", "\u{b}", "\0", "\u{feff}", "\u{2028}", "0", "1", "42", ".", ":", "_", "CDATA", "IGNORE", "RCDATA", "INCLUDE", "text", "hello world",
    "<A HREF=\"x\">", "<!ELEMENT a - - ANY>", "<!ENTITY % p \"x\">", "<!-- c -->", "<!-- a -- -- b -->", "<!----->", "<!---->", "<!------>", "<! ", "< ", "<1", "<é", "</é>", "<é É=ß>", "<ﬁ>",
];

pub fn token(r: &mut Rng) -> &'static str {
    if let Some(w) = crate::dict::word(r) {
        return w;
    }
    TOKENS[r.below(TOKENS.len())]
}

pub fn soup(r: &mut Rng, max: usize) -> String {
    let n = 1 + r.tail(14, max);
    let mut s = String::new();
    // A few tokens dominate each soup, so that constructs meet their own ends
    let fav: Vec<&str> = (0..r.range(1, 6)).map(|_| token(r)).collect();
    if r.chance(1, 2) {
        s.push_str(r.pick_str(&["<a>", "x", "<a ", "<!x ", "<!x [", "<![INCLUDE[", "<![CDATA[", "<![IGNORE[", "<![ RCDATA [", "<b c='", "<!--", "<?", "<a>\n\n"]));
    }
    for _ in 0..n {
        let t = if r.chance(1, 3) { r.pick_str(&fav) } else { token(r) };
        s.push_str(t);
    }
    if r.chance(1, 3) {
        s.push_str(r.pick_str(&["]]>", ">", "'>", "\">", "-->", "]>", "</a>", "]]>]]>"]));
    }
    s
}

/// Soup restricted to the alphabet of a few constructs: dense in near-misses.
pub fn dense(r: &mut Rng, max: usize) -> String {
    let alpha: &[&str] = match r.below(8) {
        0 => &["<", "!", "[", "]", ">", "x", " ", "CDATA"],
        1 => &["<", "/", "a", ">", " ", "=", "'", "\""],
        2 => &["<", "!", "-", ">", "x", " ", "--"],
        3 => &["<!x", "[", "]", ">", "'", "\"", "--", "-", " ", "<!y", "a", "<?z>", "<!--", "-->"],
        4 => &["&", "#", "x", "6", "5", ";", "lt", "<a>", " ", "g", "é"],
        5 => &["<![", "INCLUDE", "IGNORE", "[", "]]>", "]]", ">", "<a>", "</a>", "x", "<!--", "-->", "<b c=']]>'>", " ", "<?p>"],
        6 => &["<a", " ", "b", "=", "c", "/", ">", "'", "\"", "\n", "/>", "&lt;", "é"],
        _ => &["<?", ">", "?", "<!x>", " ", "\n", "<!-- -->", "<a>", "t", "<![CDATA[", "]]>", "<!>"],
    };
    let n = 1 + r.tail(10, max);
    let mut s = String::new();
    if r.chance(1, 3) {
        s.push_str(r.pick_str(&["<r>", "x", "<![INCLUDE[", "<!d [", "<r>\n\n  "]));
    }
    // Sometimes one more character takes part
    let odd = if r.chance(1, 4) { Some(any_char(r)) } else { None };
    for _ in 0..n {
        match odd {
            Some(c) if r.chance(1, 6) => s.push(c),
            _ => s.push_str(r.pick_str(alpha)),
        }
    }
    s
}

pub fn random_text(r: &mut Rng, max: usize) -> String {
    let n = r.tail(20, max);
    let mut s = String::new();
    for _ in 0..n {
        match r.below(4) {
            0 => s.push(*r.pick(&['<', '>', '&', '!', '[', ']', '-', '?', '/', '=', '"', '\'', '#', ';', '%', ' ', '\n', '\r', '\t'])),
            1 | 2 => s.push(r.range(32, 126) as u8 as char),
            _ => {
                if let Some(c) = char::from_u32(r.below(0x110000) as u32) {
                    s.push(c)
                }
            }
        }
    }
    s
}

/// Any one character: mostly printable ASCII, also controls, other spaces, Latin-1, anything.
pub fn any_char(r: &mut Rng) -> char {
    if let Some(c) = crate::dict::char(r) {
        return c;
    }
    match r.below(10) {
        0..=5 => r.range(32, 126) as u8 as char,
        6 => r.below(32) as u8 as char,
        7 => *r.pick(&['\u{7f}', '\u{85}', '\u{a0}', '\u{ad}', '\u{200b}', '\u{2028}', '\u{3000}', '\u{feff}', '\u{fffd}', '\u{b2}', '\u{663}', '\u{130}', '\u{1c5}', '\u{2160}', '\u{345}']),
        8 => char::from_u32(r.range(0xa1, 0x5ff) as u32).unwrap_or('x'),
        _ => char::from_u32(r.below(0x110000) as u32).unwrap_or('\u{d7ff}'),
    }
}

/// One character changed, added or taken away between `from` and `to`.
pub fn edit_one(r: &mut Rng, s: &str, from: usize, to: usize) -> String {
    let a = boundary(s, r.range(from, to));
    let n = s[a..].chars().next().map_or(0, |c| c.len_utf8());
    let mut s = s.to_string();
    match r.below(6) {
        0 => s.replace_range(a..a + n, ""),
        1 | 2 => s.replace_range(a..a + n, &any_char(r).to_string()),
        _ => s.insert(a, any_char(r)),
    }
    s
}

fn boundary(s: &str, mut i: usize) -> usize {
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut s = s.to_string();
    for _ in 0..1 + r.tail(2, 8) {
        if s.is_empty() {
            s.push_str(token(r));
            continue;
        }
        let a = boundary(&s, r.below(s.len() + 1));
        match r.below(8) {
            0 => {
                // Delete a range
                let b = boundary(&s, (a + 1 + r.tail(4, 200)).min(s.len()));
                s.replace_range(a.min(b)..b.max(a), "");
            }
            1 => {
                let b = boundary(&s, (a + 1 + r.tail(6, 100)).min(s.len()));
                let t = s[a.min(b)..b.max(a)].to_string();
                let at = boundary(&s, r.below(s.len() + 1));
                s.insert_str(at, &t);
            }
            2 => s.truncate(a),
            3 => s = s[a..].to_string(),
            4 => {
                // Replace one character
                if let Some(c) = s[a..].chars().next() {
                    s.replace_range(a..a + c.len_utf8(), r.pick_str(&["<", ">", "&", "'", "\"", "]", "[", "-", "/", " ", "\n", "é", "!", "=", ";", "%", ""]));
                }
            }
            5 => s.insert(a, any_char(r)),
            _ => s.insert_str(a, token(r)),
        }
    }
    s
}

/// Inserts long plain stretches and line breaks, for reports on long lines.
pub fn stretch(r: &mut Rng, s: &str) -> String {
    let mut s = s.to_string();
    for _ in 0..r.range(1, 3) {
        let a = boundary(&s, r.below(s.len() + 1));
        let n = r.range(10, 130);
        let t = r.pick_str(&["x", "é", "🦀", " ", "\n", "\r\n", "a b ", "漢", "<b>", "\r", "\t"]).repeat(n);
        s.insert_str(a, &t);
    }
    s
}

/// Some part over and over.
pub fn amplify(r: &mut Rng, s: &str, max: usize) -> String {
    let a = boundary(s, r.below(s.len() + 1));
    let b = boundary(s, (a + 1 + r.tail(8, 60)).min(s.len()));
    let (a, b) = (a.min(b), a.max(b));
    // Nesting has probes of its own
    let n = crate::gen::magnitude(r, if s[a..b].contains("<![") || s[a..b].contains('[') && s.contains("<!") { 60 } else { max });
    format!("{}{}{}", &s[..a], s[a..b].repeat(n), &s[a..])
}

/// Any input, with tables that define some of the entities it uses.
pub fn any_input(r: &mut Rng, size: usize) -> (String, Table, Table) {
    let mut table = Table::new();
    let mut ptable = Table::new();
    for k in ["lt", "x", "#SPACE", "#xD800", "#99999999999", "e.f", "É"] {
        if r.chance(2, 3) {
            table.insert(k.into(), r.pick_str(&["<", "]]>", "", "v", "&lt;", "é", "\"'>", " "]).into());
        }
    }
    for k in ["p", "q"] {
        if r.chance(2, 3) {
            ptable.insert(k.into(), r.pick_str(&["CDATA", "INCLUDE", "IGNORE", "", "RCDATA", "FOO", " temp "]).into());
        }
    }
    let mut s = match r.below(10) {
        0..=2 => soup(r, size),
        3..=5 => dense(r, size),
        6 => random_text(r, size * 4),
        _ => {
            let mut g = Gen::new(r, Opts { size: 4, depth: 3, ..Opts::default() });
            let d = g.doc();
            table = g.table.clone();
            ptable = g.ptable.clone();
            let (s, _) = d.render(r);
            mutate(r, &s)
        }
    };
    if r.chance(1, 12) {
        s = stretch(r, &s);
    }
    if r.chance(1, 400) {
        s = amplify(r, &s, size * 50);
    }
    (s, table, ptable)
}

/// Deep or long regular inputs, complete or broken.
pub fn nested(r: &mut Rng, depth: usize) -> String {
    let n = r.range(1, depth);
    let (open, mid, close): (&str, &str, &str) = match r.below(10) {
        0 => ("<![INCLUDE[", "x", "]]>"),
        1 => ("<![IGNORE[", "x", "]]>"),
        2 => ("[", "x", "]"),
        3 => ("<!x [", "", "]>"),
        4 => ("<a>", "x", "</a>"),
        5 => ("<a b='c'>", "", ""),
        6 => ("<!-- x -->", "", ""),
        7 => ("<?x>", "", ""),
        8 => ("&#65;", "", ""),
        _ => ("<![ [", "<!-- ]]> -->", "]]>"),
    };
    let lead = match open {
        "[" => "<!d ",
        "<!x [" => "",
        _ => r.pick_str(&["", "<r>", "x"]),
    };
    let tail = match open {
        "[" => "><r>",
        "<!x [" => "<r>",
        _ => "<r>",
    };
    let m = match r.below(4) {
        0 => r.below(n + 1),
        1 => n + 1,
        _ => n,
    };
    format!("{}{}{}{}{}", lead, open.repeat(n), mid, close.repeat(m), if r.chance(4, 5) { tail } else { "" })
}
