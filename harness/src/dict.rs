//! Inputs suggested by the code under test: the literals in its sources feed the generators, those
//! that the pinned tree does not have above all. They choose what is executed, never how it is judged.

use crate::model::{is_name_char, is_name_start};
use crate::rng::Rng;
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::OnceLock;

/// Literals of the tree the monitors were written against, with the number of times each occurs.
const KNOWN: &str = include_str!("../known_literals.txt");

#[derive(Default)]
struct Pool {
    names: Vec<&'static str>,
    words: Vec<&'static str>,
    chars: Vec<char>,
    nums: Vec<usize>,
}

#[derive(Default)]
struct Dict {
    fresh: Pool,
    old: Pool,
}

fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut known = BTreeMap::new();
        for l in KNOWN.lines() {
            if let Some((n, lit)) = l.split_once(' ') {
                known.insert(lit.to_string(), n.parse::<usize>().unwrap_or(0));
            }
        }
        let mut d = Dict::default();
        for (lit, n) in literals() {
            let fresh = n > known.get(&lit).copied().unwrap_or(0);
            add(if fresh { &mut d.fresh } else { &mut d.old }, &lit);
        }
        for p in [&mut d.fresh, &mut d.old] {
            p.names.sort_unstable();
            p.names.dedup();
            p.words.sort_unstable();
            p.words.dedup();
            p.chars.sort_unstable();
            p.chars.dedup();
            p.nums.sort_unstable();
            p.nums.dedup();
        }
        d
    })
}

fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

fn add(p: &mut Pool, lit: &str) {
    let text: String = match lit.split_at(1) {
        ("n", n) => {
            let n: usize = n.parse().unwrap_or(0);
            p.nums.push(n);
            p.words.push(leak(&n.to_string()));
            if let Some(c) = char::from_u32(n as u32) {
                if n > 127 {
                    p.chars.push(c);
                }
            }
            return;
        }
        (_, s) => unescape(s),
    };
    if text.is_empty() || text.len() > 60 {
        return;
    }
    p.words.push(leak(&text));
    if text.chars().count() <= 3 {
        p.chars.extend(text.chars().filter(|c| !c.is_ascii_alphanumeric()));
    }
    // The longest stretches that can be names
    let mut rest = text.as_str();
    while let Some(i) = rest.find(is_name_start) {
        rest = &rest[i..];
        let end = rest.find(|c| !is_name_char(c)).unwrap_or(rest.len());
        let name = &rest[..end];
        if name.len() <= 30 {
            p.names.push(leak(name));
        }
        rest = &rest[end..];
    }
}

// ---------------------------------------------------------------------------------------------
// What the generators ask for

fn choose<T: Copy>(r: &mut Rng, pick: fn(&Pool) -> &[T]) -> Option<T> {
    let d = dict();
    let (f, o) = (pick(&d.fresh), pick(&d.old));
    if !f.is_empty() && r.chance(1, 10) {
        Some(*r.pick(f))
    } else if !o.is_empty() && r.chance(1, 150) {
        Some(*r.pick(o))
    } else {
        None
    }
}

/// Now and then, a name: as in the sources, in another case, or with more around it.
pub fn name(r: &mut Rng) -> Option<String> {
    let n = match choose(r, |p| &p.names) {
        Some(n) => n,
        None if r.chance(1, 25) => *r.pick(crate::dy::odd_names()),
        None => return None,
    };
    let s = match r.below(8) {
        0 => n.to_uppercase(),
        1 => n.to_lowercase(),
        2 => format!("{}{}", n, r.pick_str(&["x", ":x", "-1", ".", "é", "s"])),
        3 => format!("{}{}", r.pick_str(&["x", "x:", "a-", "é"]), n),
        _ => n.to_string(),
    };
    if crate::gen::valid_name(&s) {
        Some(s)
    } else {
        Some(n.to_string())
    }
}

/// A name as in the sources; not "false", which an attribute of that name makes ambiguous.
pub fn static_name(r: &mut Rng) -> Option<&'static str> {
    choose(r, |p| &p.names)
        .filter(|n| !n.eq_ignore_ascii_case("false"))
        .or_else(|| if r.chance(1, 20) { Some(*r.pick(crate::dy::odd_names())) } else { None })
}

pub fn word(r: &mut Rng) -> Option<&'static str> {
    choose(r, |p| &p.words).or_else(|| if r.chance(1, 25) { Some(*r.pick(COMMON)) } else { None })
}

/// Texts that code is apt to treat in a way of its own.
const COMMON: &[&str] = &[
    "true", "false", "TRUE", "False", "null", "NULL", "none", "None", "nil", "undefined", "NaN", "nan", "inf", "-inf", "infinity", "yes", "no", "on", "off", "xml",
    "XML", "xml:lang", "xmlns", "xmlx", "http://x/y?z=1", "https://x", "www.x", "a@b.c", "file:///", "C:\\x", "../..", "./x", "{}", "{0}", "{{", "}}", "[]", "()", "$1", "${x}", "%d", "%s",
    "%20", "\\", "\\n", "\\0", "\\\"", "::", "__x", "0x1F", "1e5", "1.0", "01", "007", "+1", "-0", "1,000", "1_000", "=1", "==", "=", "'q'", "\"q\"", "`q`", "a\u{301}", "a\u{200d}b", "\u{200e}",
    "\u{c}", "\n\n", "\r\r", "\n\r", " \n", "\t\t", "     ", "\u{1b}[0m", "\u{8}", "\u{1}", "\u{fffd}", "\u{fffe}", "\u{e000}", "\u{ad}", "\u{202e}", "...", "--", "---", "//", "/*", "*/", "#!", "#1",
    "@x", "~", "|", "^", "TEMP", "ANY", "EMPTY", "SYSTEM", "PUBLIC", "DOCTYPE", "a=b", "a b c", "aaaa", "abcabc", "lt", "lt;", "amp;", "#65;", "x;", "0", "00", "-1", "255", "256", "65536", "4294967296",
];

/// A word without the characters given.
pub fn word_without(r: &mut Rng, not: &[char]) -> Option<&'static str> {
    word(r).filter(|w| !w.contains(not))
}

pub fn char(r: &mut Rng) -> Option<char> {
    choose(r, |p| &p.chars)
}

/// A number of the sources or one next to it.
pub fn num(r: &mut Rng, max: usize) -> Option<usize> {
    let n = choose(r, |p| &p.nums)?;
    let n = match r.below(4) {
        0 => n.saturating_sub(1),
        1 => n + 1,
        2 => n.saturating_mul(2),
        _ => n,
    };
    (n <= max).then_some(n)
}

/// Sizes around the numbers that are new in the sources.
pub fn sizes(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = dict().fresh.nums.iter().filter(|&&n| n > 3 && n < max).flat_map(|&n| [n - 1, n, n + 1, n + 2]).collect();
    v.sort_unstable();
    v.dedup();
    v.truncate(24);
    v
}

// ---------------------------------------------------------------------------------------------
// Literals in the sources

fn unescape(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next() {
            Some('n') => out.push('\n'),
            Some('t') => out.push('\t'),
            Some('r') => out.push('\r'),
            Some('0') => out.push('\0'),
            Some('x') => {
                let h: String = it.by_ref().take(2).collect();
                out.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            }
            Some('u') => {
                let h: String = it.by_ref().skip(1).take_while(|c| *c != '}').filter(|c| *c != '_').collect();
                out.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            }
            Some('\n') => {
                while it.peek().map_or(false, |c| c.is_whitespace()) {
                    it.next();
                }
            }
            Some(c) => out.push(c),
            None => {}
        }
    }
    out
}

/// Literals with their counts: "s..." for strings and characters (escaped), "n..." for numbers.
pub fn literals() -> BTreeMap<String, usize> {
    let mut files = vec![];
    let root = std::env::var("MON_SOURCES").unwrap_or_else(|_| "/repo/src".into());
    walk(Path::new(&root), &mut files);
    files.sort();
    let mut out = BTreeMap::new();
    for f in files {
        if let Ok(s) = std::fs::read_to_string(&f) {
            let mut found = vec![];
            scan(&s, &mut found);
            for l in found {
                *out.entry(l).or_insert(0) += 1;
            }
        }
    }
    out
}

fn walk(p: &Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(d) = std::fs::read_dir(p) {
        for e in d.flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, out);
            } else if p.extension().map_or(false, |x| x == "rs") {
                out.push(p);
            }
        }
    }
}

fn scan(s: &str, out: &mut Vec<String>) {
    // Tests come last in each file
    let s = match s.find("#[cfg(test)]\nmod ") {
        Some(n) => &s[..n],
        None => s,
    };
    let c: Vec<char> = s.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let word = |c: char| c.is_alphanumeric() || c == '_';
    let mut i = 0;
    while i < c.len() {
        if at(i) == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if at(i) == '/' && at(i + 1) == '*' {
            while i < c.len() && !(at(i) == '*' && at(i + 1) == '/') {
                i += 1;
            }
            i += 2;
        } else if at(i) == 'r' && (at(i + 1) == '"' || at(i + 1) == '#') && (i == 0 || !word(c[i - 1]) || at(i - 1) == 'b') {
            let mut n = 0;
            while at(i + 1 + n) == '#' {
                n += 1;
            }
            if at(i + 1 + n) != '"' {
                i += 1;
                continue;
            }
            let start = i + 2 + n;
            let mut j = start;
            while j < c.len() && !(c[j] == '"' && (0..n).all(|k| at(j + 1 + k) == '#')) {
                j += 1;
            }
            let lit: String = c[start..j.min(c.len())].iter().collect();
            out.push(format!("s{}", lit.escape_debug()));
            i = j + 1 + n;
        } else if at(i) == '"' {
            let mut j = i + 1;
            while j < c.len() && c[j] != '"' {
                j += if c[j] == '\\' { 2 } else { 1 };
            }
            let lit: String = c[i + 1..j.min(c.len())].iter().collect();
            out.push(format!("s{}", unescape(&lit).escape_debug()));
            i = j + 1;
        } else if at(i) == '\'' {
            // A character, unless a lifetime
            let j = if at(i + 1) == '\\' {
                (i + 3..c.len().min(i + 14)).find(|&j| c[j] == '\'')
            } else {
                (at(i + 2) == '\'').then_some(i + 2)
            };
            match j {
                Some(j) => {
                    let lit: String = c[i + 1..j].iter().collect();
                    out.push(format!("s{}", unescape(&lit).escape_debug()));
                    i = j + 1;
                }
                None => i += 1,
            }
        } else if at(i).is_ascii_digit() {
            let mut j = i;
            while word(at(j)) {
                j += 1;
            }
            if let Some(n) = number(&c[i..j].iter().collect::<String>()) {
                out.push(format!("n{}", n));
                let rest: String = c[j..c.len().min(j + 24)].iter().collect();
                if let Some(by) = rest.trim_start().strip_prefix("<<") {
                    let by: String = by.trim_start().chars().take_while(|c| c.is_ascii_digit()).collect();
                    if let Some(n) = by.parse().ok().and_then(|k| n.checked_shl(k)) {
                        out.push(format!("n{}", n));
                    }
                }
            }
            i = j;
        } else if word(at(i)) {
            let mut j = i;
            while word(at(j)) {
                j += 1;
            }
            let w: String = c[i..j].iter().collect();
            // Narrow integers have their limits
            let limit = match w.as_str() {
                "u8" => Some(256),
                "i8" => Some(128),
                "u16" => Some(65536),
                "i16" => Some(32768),
                _ => None,
            };
            out.extend(limit.map(|n| format!("n{}", n)));
            i = j;
        } else {
            i += 1;
        }
    }
}

fn number(s: &str) -> Option<usize> {
    let s: String = s.chars().filter(|c| *c != '_').collect();
    for t in ["usize", "isize", "u128", "i128", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8"] {
        if let Some(d) = s.strip_suffix(t) {
            return number(d);
        }
    }
    if let Some(h) = s.strip_prefix("0x") {
        return usize::from_str_radix(h, 16).ok();
    }
    if let Some(b) = s.strip_prefix("0b") {
        return usize::from_str_radix(b, 2).ok();
    }
    s.parse().ok()
}

/// The list to compare later trees with.
pub fn print() {
    for (lit, n) in literals() {
        println!("{} {}", n, lit);
    }
}
