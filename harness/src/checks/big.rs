//! Probes of one large dimension each: constructs whose size lies around the limits of small counters.

use super::*;
use crate::fw::{sweep_by, V};
use crate::refp::{self, Stop};
use std::fmt::Write as _;

const MORE_SIZES: &[usize] = &[31, 32, 33, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 10_000, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537, 70_001];
// One past a limit is past it too
const FEW_SIZES: &[usize] = &[32, 33, 128, 129, 256, 257, 1000, 1025, 4097, 32_769, 65_537];

pub fn sizes() -> &'static [usize] {
    static SIZES: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    SIZES.get_or_init(|| with_own(if crate::fw::thorough() { MORE_SIZES } else { FEW_SIZES }, 70_000))
}

/// The given sizes, and those around numbers that are new in the sources.
fn with_own(sizes: &[usize], max: usize) -> Vec<usize> {
    let mut v = sizes.to_vec();
    v.extend(crate::dict::sizes(max));
    v.sort_unstable();
    v.dedup();
    v
}

type Make = fn(usize) -> String;

fn times(n: usize, s: &str) -> String {
    s.repeat(n)
}

/// Items with a number in each, so that no two of them are the same.
fn each(n: usize, f: impl Fn(&mut String, usize)) -> String {
    let mut s = String::new();
    for i in 0..n {
        f(&mut s, i);
    }
    s
}

/// Attributes that no type here knows.
fn many(n: usize) -> Vec<Ev> {
    (0..n).map(|i| at(&format!("u{}", i), "no")).collect()
}

/// Text in which every stretch of a few characters is found only once.
pub fn ruler(n: usize) -> String {
    let mut s = each(n / 5 + 2, |s, i| {
        let _ = write!(s, "{:x}.", i);
    });
    s.truncate(n);
    s
}

/// What is made large, by the check that looks at it.
const KINDS: &[(&str, &str, Make)] = &[
    ("C02", "element name", |n| format!("<a{0}>t</a{0}>", times(n, "b"))),
    ("C02", "non-ASCII element name", |n| format!("<{0} É{0}=x>t</{0}>", times(n, "É"))),
    ("C02", "attribute name", |n| format!("<a b{} = 'c'>t</a>", ruler(n))),
    ("C02", "unquoted value", |n| format!("<a b=c{} d>t</a>", ruler(n))),
    ("C02", "quoted value", |n| format!("<a b='{}' c=\"x\">t</a>", ruler(n))),
    ("C02", "double-quoted value", |n| format!("<a b=\"{} ' \">t</a>", times(n, "é"))),
    ("C02", "text", |n| format!("<a>{}</a>", ruler(n))),
    ("C02", "text of several lines", |n| format!("<a>x{}x</a>", times(n, "\n"))),
    ("C02", "attributes", |n| format!("<a{}>t</a>", each(n, |s, i| write!(s, " b{}='{}'", i, i).unwrap()))),
    ("C02", "bare attributes", |n| format!("<a{}>t</a>", each(n, |s, i| write!(s, " b{}", i).unwrap()))),
    ("C02", "elements in a row", |n| format!("<a>{}</a>", each(n, |s, i| write!(s, "<b{}>{}</b{}>", i, i, i).unwrap()))),
    ("C02", "elements in each other", |n| format!("{}t{}", each(n, |s, i| write!(s, "<b{}>", i).unwrap()), each(n, |s, i| write!(s, "</b{}>", n - 1 - i).unwrap()))),
    ("C02", "white space in tags", |n| format!("<a{0}b{0}={0}'c'{0}d{0}>t</a{0}>", times(n, "\n"))),
    ("C02", "empty elements", |n| format!("<a>{}</a>", times(n, "<b/>"))),
    ("C03", "stray start far away", |n| format!("<a>{}<b", ruler(n))),
    ("C03", "quote left open far away", |n| format!("<a>{}<b c='{}", times(n, "<c>x</c>"), ruler(n))),
    ("C03", "comment left open", |n| format!("<a><!-- {}", ruler(n))),
    ("C03", "comment left open far away", |n| format!("<a>{}<!-- ->", ruler(n))),
    ("C03", "declaration far inside", |n| format!("<a>{}<!x></a>", times(n, "<c>x</c>"))),
    ("C03", "section left open", |n| format!("<a><![CDATA[{}</a>", ruler(n))),
    ("C03", "unknown keyword far away", |n| format!("<a>{}<![X[]]></a>", ruler(n))),
    ("C03", "unknown keyword in a long list", |n| format!("<a><![{} X CDATA[]]></a>", times(n, " TEMP"))),
    ("C03", "undefined entity far away", |n| format!("<a>{}&none;</a>", ruler(n))),
    ("C03", "undefined entity far inside a value", |n| format!("<a b='{}&none;'>x</a>", ruler(n))),
    ("C03", "fault in a long included section", |n| format!("<a><![INCLUDE[{}<b]]></a>", ruler(n))),
    ("C03", "section left open after many", |n| format!("<a>{}<![INCLUDE[x</a>", times(n, "<![INCLUDE[x]]>"))),
    ("C03", "broken after many attributes", |n| format!("<a{} '>x</a>", times(n, " b=c"))),
    ("C03", "end left open", |n| format!("<a>{}</a", ruler(n))),
    ("C03", "instruction left open", |n| format!("<a>x</a><?{}", ruler(n))),
    ("C04", "comment", |n| format!("<a>x<!--{}-->y</a>", ruler(n))),
    ("C04", "comment of hyphens apart", |n| format!("<a>x<!--{}-->y</a>", times(n, "- "))),
    ("C04", "comments", |n| format!("<a>x{}y</a>", each(n, |s, i| write!(s, "<!-- {} -->", i).unwrap()))),
    ("C04", "comments before the document", |n| format!("{}<a>y</a>", each(n, |s, i| write!(s, "<!-- {} -->\n", i).unwrap()))),
    ("C04", "comments in one declaration", |n| format!("<a>x<!{}>y</a>", times(n, "-- '<b> -- "))),
    ("C04", "empty declarations", |n| format!("<a>x{}y</a>", times(n, "<!>"))),
    ("C04", "comments between texts", |n| format!("<a>{}y</a>", times(n, "x<!---->"))),
    ("C04", "comments in a section", |n| format!("<a><![INCLUDE[{}y]]></a>", times(n, "x<!-- ]]> -->"))),
    ("C06", "references in text", |n| format!("<a>{}</a>", each(n, |s, i| write!(s, "{}&x;", i % 10).unwrap()))),
    ("C06", "references in a value", |n| format!("<a b='{}'>t</a>", each(n, |s, i| write!(s, "{}&#65;", i % 10).unwrap()))),
    ("C06", "reference far into a text", |n| format!("<a>{}&x;&long;.</a>", ruler(n))),
    ("C06", "reference far into a value", |n| format!("<a b=\"{}&x;&long;.\">t</a>", ruler(n))),
    ("C06", "reference far into a section", |n| format!("<a><![RCDATA[{}&x;]]></a>", ruler(n))),
    ("C06", "references left alone", |n| format!("<a b=&x;{}><![CDATA[{}]]></a>", ruler(n), times(n, "&x;"))),
    ("C06", "values with references", |n| format!("<a{}>t</a>", times(n, " b='&lt;'"))),
    ("C07", "keywords", |n| format!("<a><![{} CDATA[<&x;]]></a>", times(n, " TEMP"))),
    ("C07", "keyword after many", |n| format!("<a><![{} IGNORE[<&x;]]></a>", times(n, " CDATA"))),
    ("C07", "space around keywords", |n| format!("<a><![{0}CDATA{0}[<&x;]]></a>", times(n, " "))),
    ("C07", "parameter entities", |n| format!("<a><![{} RCDATA[&x;]]></a>", times(n, " %p;"))),
    ("C07", "sections of all kinds", |n| format!("<a>{}</a>", times(n, "<![CDATA[&]]><![RCDATA[&x;]]><![IGNORE[<]]><![TEMP[<b>]]>"))),
    ("C08", "character data", |n| format!("<a><![CDATA[{}]]>y</a>", times(n, "]] >"))),
    ("C08", "brackets before the end", |n| format!("<a><![CDATA[{}]]>y</a>", times(n, "]"))),
    ("C08", "ignored section", |n| format!("<a><![IGNORE[{}]]>y</a>", ruler(n))),
    ("C08", "sections in an ignored one", |n| format!("<a><![IGNORE[{}]]>y</a>", times(n, "<![x]]>"))),
    ("C08", "ignored levels", |n| format!("<a><![IGNORE[{}{}]]>y</a>", times(n, "<!["), times(n, "]]>"))),
    ("C08", "included section", |n| format!("<a><![INCLUDE[{}]]>y</a>", ruler(n))),
    ("C08", "quoted ends in an included section", |n| format!("<a><![INCLUDE[{}]]>y</a>", times(n, "<b c=']]>'>"))),
    ("C08", "included sections", |n| format!("<a>{}y</a>", each(n, |s, i| write!(s, "<![INCLUDE[<b>{}]]>", i).unwrap()))),
    ("C08", "sections in an included one", |n| format!("<a><![INCLUDE[{}]]>y</a>", times(n, "<![CDATA[<]]><![INCLUDE[]]>"))),
    ("C08", "ends outside", |n| format!("<a>{}y</a>", times(n, "]]>"))),
    ("C09", "blanks around text", |n| format!("<a>{0}x{0}y{0}</a>", times(n, " \n"))),
    ("C09", "blank texts", |n| format!("<a>{}</a>", times(n, "<b> </b>\t"))),
    ("C09", "blanks in a value", |n| format!("<a b='{0}x{0}'>{0}&#32;{0}</a>", times(n, " "))),
    ("C09", "blanks around a section", |n| format!("<a>{0}<![CDATA[{0}]]>{0}</a>", times(n, "\t"))),
    ("C10", "letters of a name", |n| format!("<aB{0} Cd{0}=Ef>t</Ab{0}>", times(n, "xY"))),
    ("C10", "letters that grow", |n| format!("<a{0} b{0}>t</A{0}>", times(n, "ßİŉ"))),
    ("C10", "names", |n| format!("<A>{}</A>", each(n, |s, i| write!(s, "<bC{0} Dé{0}=Ef>t</Bc{0}>", i).unwrap()))),
    ("C11", "declarations", |n| format!("{}<a>t</a>", each(n, |s, i| write!(s, "<!x {}>", i).unwrap()))),
    ("C11", "instructions", |n| format!("{0}<a>t{0}</a>{0}", each(n, |s, i| write!(s, "<?x {}>", i).unwrap()))),
    ("C11", "both", |n| format!("{}<a>t</a>", times(n, "<?x><!y>\n"))),
    ("C12", "instruction", |n| format!("<a>t<?{}></a>", ruler(n))),
    ("C12", "declaration", |n| format!("<!x {}><a>t</a>", ruler(n))),
    ("C12", "quoted literal", |n| format!("<!x '{}' y><a>t</a>", times(n, ">]-"))),
    ("C12", "quoted literals", |n| format!("<!x {}><a>t</a>", times(n, "'>' \">\" "))),
    ("C12", "comments in a declaration", |n| format!("<!x {}><a>t</a>", times(n, "-- > --"))),
    ("C12", "declarations in a subset", |n| format!("<!x [{}] y><a>t</a>", each(n, |s, i| write!(s, "<!y {} '>]'>\n", i).unwrap()))),
    ("C12", "subsets in a row", |n| format!("<!x {}><a>t</a>", times(n, "[y]"))),
    ("C12", "instructions in a subset", |n| format!("<!x [{}]><a>t</a>", times(n, "<?y>"))),
    ("C12", "blanks around a body", |n| format!("<!x{0}y{0}y{0}><a>t</a>", times(n, "\n "))),
];

pub fn cfgs() -> Vec<Cfg> {
    let ents: Table = [("x", "V"), ("lt", "<"), ("long", "<b c='d'>]]>")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    let pents: Table = [("p", "TEMP")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    vec![
        Cfg { ms: Ms::Expand, ents: Some(ents.clone()), pents: Some(pents.clone()), ..Cfg::default() },
        Cfg { ms: Ms::Expand, trim: false, norm: Norm::Lower, ign_decl: true, ents: Some(ents.clone()), pents: Some(pents.clone()), ..Cfg::default() },
        Cfg { ms: Ms::Accept, norm: Norm::Upper, ign_pi: true, ents: Some(ents.clone()), pents: Some(pents.clone()), ..Cfg::default() },
        Cfg { ms: Ms::Keep, trim: false, ents: Some(ents), pents: Some(pents), ..Cfg::default() },
    ]
}

fn of(ids: &[&str], sizes: &[usize]) -> Vec<(&'static str, usize, Make)> {
    let mut v = vec![];
    for &n in sizes.iter().rev() {
        for (id, what, f) in KINDS {
            if ids.is_empty() || ids.contains(id) {
                v.push((*what, n, *f));
            }
        }
    }
    v
}

pub fn over(ids: &[&str], sizes: &[usize], f: impl Fn(&str) -> V + Sync) -> V {
    let todo = of(ids, sizes);
    let f = &f;
    let todo = &todo;
    sweep_by(1, todo.len() as u32, || {
        move |k| {
            let (what, n, make) = todo[k as usize];
            f(&make(n)).map_err(|m| format!("{} of size {}: {}", what, n, short(&m, 1500)))
        }
    })
}

/// The events, or the rejection, the reference recogniser gives.
fn against_reference(s: &str) -> V {
    for cfg in cfgs() {
        let got = real(&cfg.parser(), s);
        match (refp::parse(s, &cfg), got) {
            (Err(Stop::Unspec(_)), _) => {}
            (Ok(w), Ok(g)) => expect_eq("events differ from the reference", &w.events, &g)?,
            (Err(Stop::Bad(..)), Err(_)) => {}
            (Ok(_), Err(e)) => return Err(format!("rejected with {}: {}", cfg.brief(), short(&e, 400))),
            (Err(Stop::Bad(at, what)), Ok(_)) => return Err(format!("accepted with {}, but malformed {} at byte {}", cfg.brief(), what, at)),
        }
    }
    Ok(())
}

/// Included sections are read twice by the parser where they are kept; what they hold stays small.
pub fn p01() -> V {
    over(&[], &with_own(&[257, 4097, 65_537], 70_000), |s| {
        for cfg in cfgs() {
            if let Err(e) = cfg.parser().parse(s) {
                let _ = e.to_string();
            }
        }
        Ok(())
    })
}

macro_rules! parse_probes {
    ($($name:ident $id:expr),*) => {$(
        pub fn $name() -> V {
            over(&[$id], sizes(), against_reference)
        }
    )*};
}
parse_probes!(p02 "C02", p03 "C03", p04 "C04", p06 "C06", p07 "C07", p08 "C08", p09 "C09", p10 "C10", p11 "C11", p12 "C12");

/// What `f` gets: all the constructs at three sizes.
pub fn all_kinds(f: impl Fn(&str) -> V + Sync) -> V {
    over(&[], &with_own(if crate::fw::thorough() { &[257, 4097, 65_537] } else { &[257, 4097] }, 5_000), f)
}

// ---------------------------------------------------------------------------------------------
// Texts

pub fn p05() -> V {
    use sgmlish::entities::*;
    sweep_by(1, sizes().len() as u32, || {
        |k| {
            let n = sizes()[sizes().len() - 1 - k as usize];
            let pad = ruler(n);
            let texts = [
                format!("{}&x;{}&y.z;", pad, pad),
                format!("{}&#65;{}&#x1F980;%x;", pad, pad),
                format!("{}é&none;{}", pad, pad),
                format!("{}%none{}&none %x;", pad, pad),
                times(n, "&x;"),
                times(n, "é&#233;"),
                times(n, "%x;%"),
                format!("{}&none;", times(n, "&x;")),
                format!("{}%none;", times(n, "%x;")),
                format!("&n{};", times(n, "a")),
                format!("&n{}", times(n, "a")),
                format!("&#{}65;", times(n, "0")),
                format!("&#x{}41;&#{};", times(n, "0"), times(n, "9")),
                times(n, "&"),
                times(n, "& #65;"),
            ];
            for t in &texts {
                for param in [false, true] {
                    let answer = |name: &str, i: usize| match name {
                        "x" | "y.z" => Some(format!("&{}%;", i)),
                        "none" => None,
                        n if n.len() > 20 => Some("long".into()),
                        _ => None,
                    };
                    let (mut asked, mut wasked) = (0, 0);
                    let want = refp::expand(t, param, &mut |name| {
                        wasked += 1;
                        answer(name, wasked)
                    });
                    let ask = |name: &str| {
                        asked += 1;
                        answer(name, asked)
                    };
                    let got = if param { expand_parameter_entities(t, ask) } else { expand_entities(t, ask) };
                    let ok = match (&want, &got) {
                        (Ok(w), Ok(g)) => w == g,
                        (Err((name, range)), Err(e)) => *name == e.entity && *range == e.position,
                        _ => false,
                    };
                    if !ok || asked != wasked {
                        return Err(format!(
                            "size {}: {} gave {} after {} questions, expected {} after {}",
                            n,
                            short(&t[t.len().saturating_sub(60)..], 60),
                            short(&format!("{:?}", got), 300),
                            asked,
                            short(&format!("{:?}", want), 300),
                            wasked
                        ));
                    }
                }
            }
            Ok(())
        }
    })
}

/// Texts with markup characters far apart or in great number.
pub fn texts_of(n: usize) -> Vec<String> {
    let pad = ruler(n);
    vec![format!("{}<{}&>", pad, pad), times(n, "<"), times(n, "&é"), times(n, ">&lt;"), format!("{}&", times(n, "漢"))]
}

pub fn p23() -> V {
    over(&[], &with_own(&[257, 65_537], 5_000), |s| {
        for cfg in cfgs() {
            if let Ok(f) = cfg.parser().parse(s) {
                let evs = convs(&f);
                let o = f.clone().into_owned();
                if o != f || convs(&o) != evs || o.to_string() != f.to_string() {
                    return Err("the owned form differs".into());
                }
                if o.len() != evs.len() || o.iter().count() != evs.len() || f.into_vec().len() != evs.len() {
                    return Err("the lengths differ".into());
                }
                let each: Vec<Ev> = o.into_iter().map(|e| conv(&e.into_owned())).collect();
                expect_eq("owned events differ", &evs, &each)?;
            }
        }
        Ok(())
    })
}

pub fn p24() -> V {
    let first = times(300, "<a b='&x;'>t<![INCLUDE[<b>]]>");
    all_kinds(|s| {
        for cfg in cfgs() {
            let p = cfg.parser();
            let a = real(&p, s);
            let _ = real(&p, &first);
            if real(&p, s) != a || real(&cfg.parser(), s) != a {
                return Err("another result the second time".into());
            }
            let unit = p.parse_with_detailed_errors::<()>(s).ok().map(|f| convs(&f));
            let verbose = p.parse_with_detailed_errors::<nom::error::VerboseError<&str>>(s).ok().map(|f| convs(&f));
            if unit != a.clone().ok() || verbose != a.ok() {
                return Err("the error type changes the result".into());
            }
        }
        Ok(())
    })
}

// ---------------------------------------------------------------------------------------------
// Data

fn o(n: &str) -> Ev {
    Ev::Open(n.into())
}
fn t(s: impl Into<String>) -> Ev {
    Ev::Char(s.into())
}
fn e(n: &str) -> Ev {
    Ev::End(n.into())
}
fn el(n: &str, s: impl Into<String>) -> [Ev; 4] {
    [o(n), Ev::Close, t(s), e(n)]
}
fn at(n: &str, s: impl Into<String>) -> Ev {
    Ev::Attr(n.into(), Some(s.into()))
}
fn doc(attrs: Vec<Ev>, content: Vec<Ev>) -> Vec<Ev> {
    let mut v = vec![o("r")];
    v.extend(attrs);
    v.push(Ev::Close);
    v.extend(content);
    v.push(e("r"));
    v
}

pub fn sized(f: impl Fn(usize) -> V + Sync) -> V {
    let f = &f;
    sweep_by(1, sizes().len() as u32, || {
        move |k| {
            let n = sizes()[sizes().len() - 1 - k as usize];
            f(n).map_err(|m| format!("size {}: {}", n, short(&m, 1500)))
        }
    })
}

fn reads<T: serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(what: &str, evs: &[Ev], want: &T) -> V {
    match frag(evs).deserialize::<T>() {
        Ok(g) if g == *want => Ok(()),
        Ok(g) => {
            let (w, g) = (format!("{:?}", want), format!("{:?}", g));
            let i = w.bytes().zip(g.bytes()).position(|(a, b)| a != b).unwrap_or(w.len().min(g.len()));
            let from = |s: &str| s.chars().skip(s[..i.min(s.len())].chars().count().saturating_sub(40)).take(100).collect::<String>();
            Err(format!("{}: expected …{}…, got …{}… ({} and {} bytes)", what, if w.is_ascii() { from(&w) } else { short(&w, 100) }, if g.is_ascii() { from(&g) } else { short(&g, 100) }, w.len(), g.len()))
        }
        Err(e) => Err(format!("{}: {}", what, e)),
    }
}

fn fails<T: serde::de::DeserializeOwned + std::fmt::Debug>(what: &str, evs: &[Ev]) -> V {
    match frag(evs).deserialize::<T>() {
        Ok(g) => Err(format!("{}: read as {}", what, short(&format!("{:?}", g), 100))),
        Err(_) => Ok(()),
    }
}

use serde::Deserialize;
use std::collections::{BTreeMap, HashMap};

#[derive(Deserialize, Debug, PartialEq, Default, Clone)]
struct Item {
    id: u32,
    #[serde(default)]
    tag: Option<String>,
    #[serde(default)]
    sub: Vec<u16>,
}

pub fn p17() -> V {
    #[derive(Deserialize, Debug, PartialEq)]
    struct S {
        a: String,
        n: Vec<u32>,
        #[serde(default)]
        item: Vec<Item>,
        b: Option<String>,
    }
    #[derive(Deserialize, Debug, PartialEq)]
    struct W {
        #[serde(rename = "$value")]
        v: Vec<String>,
        k: String,
    }
    #[derive(Deserialize, Debug, PartialEq)]
    struct T {
        #[serde(rename = "$value")]
        v: String,
    }
    sized(|n| {
        let mut c = vec![];
        c.extend(el("a", ruler(n)));
        for i in 0..n {
            c.extend(el("n", i.to_string()));
        }
        c.extend(el("b", "B"));
        let s = S { a: ruler(n), n: (0..n as u32).collect(), item: vec![], b: Some("B".into()) };
        reads("a list and a text", &doc(vec![], c.clone()), &s)?;
        let items: Vec<Item> = (0..n)
            .map(|i| Item { id: i as u32, tag: if i % 3 == 0 { Some(format!("t{}", i)) } else { None }, sub: (0..i % 3).map(|x| x as u16).collect() })
            .collect();
        let mut c = vec![];
        c.extend(el("n", "1"));
        for i in &items {
            c.extend([o("item"), at("id", i.id.to_string()), Ev::Close]);
            for s in &i.sub {
                c.extend(el("sub", s.to_string()));
            }
            if let Some(t) = &i.tag {
                c.extend(el("tag", t.clone()));
            }
            c.push(e("item"));
        }
        c.extend(el("a", "A"));
        reads("a list of structs", &doc(vec![], c), &S { a: "A".into(), n: vec![1], item: items, b: None })?;
        let mut m = BTreeMap::new();
        let mut c = vec![];
        let mut a = vec![];
        for i in 0..n {
            m.insert(format!("k{}", i), format!("v{}", i));
            if i % 2 == 0 {
                a.push(at(&format!("k{}", i), format!("v{}", i)));
            } else {
                c.extend(el(&format!("k{}", i), format!("v{}", i)));
            }
        }
        reads("a map", &doc(a.clone(), c.clone()), &m)?;
        reads("a map", &doc(a, c), &m.into_iter().collect::<HashMap<_, _>>())?;
        let c: Vec<Ev> = (0..n).flat_map(|i| el(&format!("x{}", i % 7), i.to_string())).collect();
        let w = W { v: (0..n).map(|i| i.to_string()).collect(), k: "K".into() };
        reads("a '$value' list", &doc(vec![at("k", "K")], c.clone()), &w)?;
        for place in 0..3 {
            let mut a = many(n);
            a.insert(place * n / 2, at("k", "K"));
            reads("a '$value' list after attributes", &doc(a, c.clone()), &w)?;
        }
        let empty: Vec<Ev> = (0..n).map(|_| t("")).collect();
        reads("a '$value' list after empty texts", &doc(vec![at("k", "K")], [empty, c].concat()), &w)?;
        reads("a '$value' text after attributes", &doc(many(n), vec![t("T")]), &T { v: "T".into() })?;
        reads("a text after attributes", &doc(many(n), vec![t("T")]), &"T".to_string())?;
        let c = [[o("item")].to_vec(), many(n), vec![at("id", "1"), Ev::Close], el("tag", "T").to_vec(), vec![e("item")], el("a", "A").to_vec(), el("n", "2").to_vec()].concat();
        let item = Item { id: 1, tag: Some("T".into()), sub: vec![] };
        reads("a struct after attributes", &doc(many(n), c), &S { a: "A".into(), n: vec![2], item: vec![item], b: None })?;
        let c: Vec<Ev> = (0..n).map(|i| t((i % 10).to_string())).collect();
        let text: String = (0..n).map(|i| char::from(b'0' + (i % 10) as u8)).collect();
        reads("a text in pieces", &doc(vec![], c.clone()), &text)?;
        reads("a '$value' text in pieces", &doc(vec![], c), &T { v: text })?;
        let c: Vec<Ev> = (0..n).flat_map(|i| [o("i"), at("a", "no"), Ev::Close, t((i % 10).to_string()), e("i")]).collect();
        let text: String = (0..n).map(|i| char::from(b'0' + (i % 10) as u8)).collect();
        reads("a text in elements", &doc(vec![], c), &text)?;
        // Names as long
        let name = times(n, "n");
        let mut m = BTreeMap::new();
        m.insert(format!("{}a", name), 1u8);
        m.insert(format!("{}b", name), 2u8);
        m.insert(format!("{}c", name), 3u8);
        let mut c = vec![];
        c.extend(el(&format!("{}b", name), "2"));
        c.extend(el(&format!("{}a", name), "1"));
        reads("long names", &doc(vec![at(&format!("{}c", name), "3")], c), &m)
    })
}

pub fn p18() -> V {
    #[derive(Deserialize, Debug, PartialEq, Clone)]
    enum En {
        One,
        Two,
    }
    #[derive(Deserialize, Debug, PartialEq, Clone)]
    struct S {
        s: String,
        i: i64,
        f: bool,
        e: En,
    }
    let values = |n: usize| -> Vec<(&'static str, String)> { vec![("s", ruler(n)), ("i", format!("{}7", times(n, "0"))), ("f", "true".into()), ("e", "Two".into())] };
    sized(|n| {
        let want = S { s: ruler(n), i: 7, f: true, e: En::Two };
        for mask in 0..16 {
            let (mut a, mut c) = (vec![], vec![]);
            for (k, (name, v)) in values(n).into_iter().enumerate() {
                if mask >> k & 1 == 1 {
                    // Among as many others
                    if k == mask % 4 {
                        a.extend((0..n).map(|i| at(&format!("u{}", i), "no")));
                    }
                    a.push(at(name, v));
                } else {
                    if k == mask % 4 {
                        c.extend((0..n).flat_map(|i| el(&format!("u{}", i), "no")));
                    }
                    c.extend(el(name, v));
                }
            }
            reads("attributes and elements", &doc(a, c), &want)?;
        }
        #[derive(Deserialize, Debug, PartialEq)]
        struct L {
            x: Vec<S>,
        }
        let c: Vec<Ev> = (0..n)
            .flat_map(|i| {
                let (mut a, mut c) = (vec![o("x")], vec![]);
                for (k, (name, v)) in values(3).into_iter().enumerate() {
                    if (i * 7 + k) % 3 == 0 {
                        a.push(if name == "f" { Ev::Attr("f".into(), None) } else { at(name, v) });
                    } else {
                        c.extend(el(name, v));
                    }
                }
                a.push(Ev::Close);
                a.extend(c);
                a.push(e("x"));
                a
            })
            .collect();
        reads("a list of both forms", &doc(vec![], c), &L { x: vec![S { s: ruler(3), ..want }; n] })
    })
}

pub fn p20() -> V {
    #[derive(Deserialize, Debug, PartialEq)]
    struct S {
        #[serde(default)]
        x: Vec<u32>,
        #[serde(default)]
        y: Option<String>,
    }
    sized(|n| {
        let items: Vec<Ev> = (0..n).flat_map(|i| el("x", (i % 100).to_string())).collect();
        let skipped: Vec<Ev> = (0..n).flat_map(|_| el("u", "no")).collect();
        let deep: Vec<Ev> = (0..n).flat_map(|_| [o("u"), Ev::Close]).chain((0..n).map(|_| e("u"))).collect();
        for (what, before) in [("items", items), ("skipped elements", skipped), ("skipped levels", deep)] {
            let good = doc(vec![], before.clone());
            reads(what, &good, &S { x: if what == "items" { (0..n as u32).map(|i| i % 100).collect() } else { vec![] }, y: None })?;
            let faults: Vec<(&str, Vec<Ev>)> = vec![
                ("an instruction", vec![Ev::Pi("<?x>".into())]),
                ("a declaration", vec![Ev::Decl("x".into(), "y".into())]),
                ("a section", vec![Ev::Sect("CDATA".into(), "y".into())]),
                ("an empty tag", vec![o(""), Ev::Close, e("")]),
                ("a wrong end", vec![o("y"), Ev::Close, e("z")]),
                ("an end left out", vec![o("u"), Ev::Close, t("x")]),
                ("a wrong end in a skipped element", vec![o("u"), Ev::Close, o("y"), Ev::Close, e("z"), e("u")]),
            ];
            for (f, evs) in faults {
                let mut c = before.clone();
                c.extend(evs.clone());
                fails::<S>(&format!("{} after {}", f, what), &doc(vec![], c))?;
                let mut c = evs;
                c.extend(before.clone());
                fails::<S>(&format!("{} before {}", f, what), &doc(vec![], c))?;
            }
            let mut c = doc(vec![], before);
            c.pop();
            fails::<S>(&format!("no end after {}", what), &c)?;
            fails::<serde::de::IgnoredAny>(&format!("no end after ignored {}", what), &c)?;
            c.push(e("R"));
            fails::<S>(&format!("a wrong end after {}", what), &c)?;
            fails::<serde::de::IgnoredAny>(&format!("a wrong end after ignored {}", what), &c)?;
        }
        let mut c: Vec<Ev> = (0..n).map(|_| t("x")).collect();
        reads("a text", &doc(vec![], c.clone()), &times(n, "x"))?;
        c.push(Ev::Pi("<?x>".into()));
        fails::<String>("an instruction after text", &doc(vec![], c.clone()))?;
        c.pop();
        c.push(e("x"));
        fails::<String>("a wrong end after text", &c[..])
    })
}

pub fn p21() -> V {
    sized(|n| {
        if n < 30 {
            return Ok(());
        }
        let s = |v: &str| doc(vec![], vec![t(v)]);
        let zeros = times(n, "0");
        reads("zeros", &s(&format!("{}255", zeros)), &255u8)?;
        reads("zeros", &s(&format!("-{}128", zeros)), &-128i8)?;
        reads("zeros", &s(&format!("+{}18446744073709551615", zeros)), &u64::MAX)?;
        fails::<u8>("zeros", &s(&format!("{}256", zeros)))?;
        fails::<i64>("digits", &s(&format!("1{}", zeros)))?;
        fails::<u64>("digits", &s(&format!("{}18446744073709551616", zeros)))?;
        fails::<i32>("something after many digits", &s(&format!("{}x", zeros)))?;
        fails::<i32>("blanks", &s(&format!("{}1", times(n, " "))))?;
        let f = format!("0.{}1", zeros);
        reads("a fraction", &s(&f), &f.parse::<f64>().unwrap())?;
        reads("a fraction", &s(&f), &f.parse::<f32>().unwrap())?;
        let f = format!("{}1.5e0{}2", zeros, zeros);
        reads("a power", &s(&f), &f.parse::<f64>().unwrap())?;
        let f = format!("1{}", zeros);
        reads("a large number", &s(&f), &f.parse::<f64>().unwrap())?;
        fails::<f64>("two points", &s(&format!("1.{}.", zeros)))?;
        fails::<char>("characters", &s(&times(n, "x")))?;
        fails::<bool>("a boolean", &s(&format!("true{}", times(n, " "))))?;
        fails::<bool>("a boolean", &s(&zeros))?;
        for w in [ruler(n), times(n, " "), times(n, "é"), format!("{}\0", times(n, "\n"))] {
            reads("a string", &s(&w), &w)?;
        }
        Ok(())
    })
}

pub fn p22() -> V {
    #[derive(Deserialize, Debug, PartialEq, Clone)]
    enum En {
        Unit,
        New(String),
        Tup(u32, u32),
        St { a: u32, b: Option<String> },
        List(Vec<u32>),
    }
    #[derive(Deserialize, Debug, PartialEq)]
    struct V {
        #[serde(rename = "$value")]
        v: Vec<En>,
    }
    #[derive(Deserialize, Debug, PartialEq)]
    struct F {
        e: Vec<En>,
        k: String,
    }
    fn spell(v: &En) -> Vec<Ev> {
        match v {
            En::Unit => vec![o("Unit"), Ev::Close, e("Unit")],
            En::New(s) => el("New", s.clone()).to_vec(),
            En::Tup(a, b) => [el("Tup", a.to_string()), el("Tup", b.to_string())].concat(),
            En::St { a, b } => {
                let mut v = vec![o("St"), at("a", a.to_string()), Ev::Close];
                if let Some(b) = b {
                    v.extend(el("b", b.clone()));
                }
                v.push(e("St"));
                v
            }
            En::List(l) => {
                let mut v = vec![o("List"), Ev::Close];
                for x in l {
                    v.extend(el("i", x.to_string()));
                }
                v.push(e("List"));
                v
            }
        }
    }
    sized(|n| {
        let all: Vec<En> = (0..n)
            .map(|i| match i * i % 5 {
                0 => En::Unit,
                1 => En::New(format!("s{}", i)),
                2 => En::Tup(i as u32, 7),
                3 => En::St { a: i as u32, b: if i % 2 == 0 { None } else { Some(i.to_string()) } },
                _ => En::List((0..i as u32 % 4).collect()),
            })
            .collect();
        reads("a '$value' list", &doc(vec![], all.iter().flat_map(spell).collect()), &V { v: all.clone() })?;
        let mut c = vec![];
        for v in &all {
            c.extend([o("e"), Ev::Close]);
            c.extend(spell(v));
            c.push(e("e"));
        }
        reads("a list of fields", &doc(vec![at("k", "K")], c), &F { e: all, k: "K".into() })?;
        let one = En::List((0..n as u32).collect());
        let mut c = vec![o("e"), Ev::Close];
        c.extend(spell(&one));
        c.push(e("e"));
        c.extend(el("k", "K"));
        reads("a list in a variant", &doc(vec![], c), &F { e: vec![one], k: "K".into() })?;
        let some = [En::Unit, En::New("s".into()), En::Tup(1, 2), En::St { a: 3, b: Some("b".into()) }, En::List(vec![4, 5])];
        let mut c = vec![];
        for v in &some {
            c.push(o("e"));
            c.extend(many(n));
            c.push(Ev::Close);
            c.extend(spell(v));
            c.push(e("e"));
        }
        reads("variants in elements with attributes", &doc(vec![at("k", "K")], c), &F { e: some.to_vec(), k: "K".into() })?;
        let mut c = vec![];
        for v in &some {
            let mut w = spell(v);
            w.splice(1..1, many(n));
            c.extend(w);
        }
        reads("variants with attributes", &doc(many(n), c), &V { v: some.to_vec() })?;
        let one = En::New(ruler(n));
        let mut c = vec![];
        c.extend(spell(&one));
        c.extend(spell(&En::Unit));
        reads("a text in a variant", &doc(vec![], c), &V { v: vec![one, En::Unit] })?;
        fails::<V>("an unknown variant after all", &doc(vec![], (0..n).flat_map(|_| el("New", "x")).chain(el("Neww", "x")).collect()))
    })
}

pub fn p27() -> V {
    #[derive(Deserialize, Debug, PartialEq, Clone)]
    struct S {
        a: String,
        b: Vec<u8>,
        c: Option<u32>,
    }
    let want = S { a: "A".into(), b: vec![1, 2, 3], c: Some(4) };
    sized(|n| {
        let junk: Vec<(&str, Vec<Ev>)> = vec![
            ("elements", (0..n).flat_map(|i| el(&format!("u{}", i), "no")).collect()),
            ("texts", (0..n).map(|_| t("no")).collect()),
            ("a text", vec![t(ruler(n))]),
            ("an element with attributes", [vec![o("u")], (0..n).map(|i| at(&format!("u{}", i), "no")).collect(), vec![Ev::Close, e("u")]].concat()),
            ("levels", [(0..n).flat_map(|_| [o("u"), at("a", "no"), Ev::Close]).collect::<Vec<_>>(), el("a", "no").to_vec(), (0..n).map(|_| e("u")).collect()].concat()),
            ("elements in an element", [vec![o("u"), Ev::Close], (0..n).flat_map(|_| el("b", "no")).collect(), vec![e("u")]].concat()),
            ("a long name", el(&times(n, "a"), "no").to_vec()),
            ("a long text in an element", el("u", ruler(n)).to_vec()),
        ];
        let parts: Vec<Vec<Ev>> = vec![el("a", "A").to_vec(), [el("b", "1"), el("b", "2"), el("b", "3")].concat(), el("c", "4").to_vec()];
        for (what, j) in &junk {
            for place in 0..=parts.len() {
                let mut c = vec![];
                for (i, p) in parts.iter().enumerate() {
                    if i == place {
                        c.extend(j.clone());
                    }
                    c.extend(p.clone());
                }
                if place == parts.len() {
                    c.extend(j.clone());
                }
                reads(what, &doc(vec![], c), &want)?;
            }
        }
        let a: Vec<Ev> = (0..n).map(|i| at(&format!("u{}", i), "no")).collect();
        for place in 0..3 {
            let mut all = a.clone();
            all.insert(place * n / 2, at("c", "4"));
            reads("attributes", &doc(all, [parts[0].clone(), parts[1].clone()].concat()), &want)?;
        }
        Ok(())
    })
}
