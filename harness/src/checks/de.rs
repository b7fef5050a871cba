//! C17-C22 and C27: deserialization.

use super::*;
use crate::dy::*;
use crate::fw::{Check, Ctx, V};
use crate::model::*;
use crate::rng::Rng;
use crate::soup;
use serde::de::{DeserializeSeed, IgnoredAny};
use serde::Deserialize;
use sgmlish::de::{DeserializationError, SgmlDeserializer};
use sgmlish::{SgmlEvent, SgmlFragment};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub static CHECKS: &[&Check] = &[&C17, &C18, &C19, &C20, &C21, &C22, &C27];

pub(super) const TRUST: &[&str] = &["the run-time types of the harness (dy.rs) behave as derived ones", "serde, serde_derive and serde_json"];

// ---------------------------------------------------------------------------------------------
// Entry points and logging

thread_local! {
    static LOGGING: Cell<bool> = const { Cell::new(false) };
    static LOGGED: Cell<u64> = const { Cell::new(0) };
    static CUR: RefCell<Option<Rc<Ty>>> = const { RefCell::new(None) };
}

struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        LOGGING.with(|l| l.get())
    }
    fn log(&self, rec: &log::Record) {
        if LOGGING.with(|l| l.get()) {
            let mut s = String::new();
            let _ = write!(s, "{}", rec.args());
            LOGGED.with(|l| l.set(l.get() + 1));
        }
    }
    fn flush(&self) {}
}

fn logging(r: &mut Rng) {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let _ = log::set_logger(&Sink);
        log::set_max_level(log::LevelFilter::Trace);
    });
    let on = r.chance(1, 8);
    LOGGING.with(|l| l.set(on));
}

struct Dyn(Val);
impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let t = CUR.with(|c| c.borrow().clone()).expect("current type");
        Seed(&t).deserialize(d).map(Dyn)
    }
}

pub(super) fn read(r: &mut Rng, t: &Ty, f: SgmlFragment) -> Result<Val, DeserializationError> {
    logging(r);
    let mut arena = String::new();
    let f = if r.chance(1, 3) {
        match shared(&f, &mut arena) {
            Some(f) => f,
            None => f,
        }
    } else {
        f
    };
    let out = match r.below(3) {
        0 => match SgmlDeserializer::from_fragment(f) {
            Ok(mut d) => Seed(t).deserialize(&mut d),
            Err(e) => Err(e),
        },
        k => {
            CUR.with(|c| *c.borrow_mut() = Some(Rc::new(t.clone())));
            let o = if k == 1 { sgmlish::from_fragment::<Dyn>(f) } else { f.deserialize::<Dyn>() };
            o.map(|d| d.0)
        }
    };
    LOGGING.with(|l| l.set(false));
    out
}

/// The same fragment, with all of its strings borrowed from few bytes: equal ones are the same
/// slice, and one that is contained in another is a part of it.
fn shared<'a>(f: &SgmlFragment, arena: &'a mut String) -> Option<SgmlFragment<'a>> {
    let strings = |e: &SgmlEvent| -> Vec<String> {
        match e {
            SgmlEvent::MarkupDeclaration { keyword: a, body: b } | SgmlEvent::MarkedSection { status_keywords: a, section: b } => {
                vec![a.to_string(), b.to_string()]
            }
            SgmlEvent::Attribute { name, value } => std::iter::once(name.to_string()).chain(value.as_ref().map(|v| v.to_string())).collect(),
            SgmlEvent::ProcessingInstruction(s) | SgmlEvent::Character(s) => vec![s.to_string()],
            SgmlEvent::OpenStartTag { name } | SgmlEvent::EndTag { name } => vec![name.to_string()],
            SgmlEvent::CloseStartTag | SgmlEvent::XmlCloseEmptyElement => vec![],
        }
    };
    let mut all: Vec<String> = f.iter().flat_map(strings).collect();
    all.sort_by(|a, b| b.len().cmp(&a.len()).then(a.cmp(b)));
    all.dedup();
    if all.len() > 300 || all.iter().map(|s| s.len()).sum::<usize>() > 10_000 {
        return None;
    }
    for s in &all {
        if !arena.contains(s.as_str()) {
            arena.push_str(s);
        }
    }
    let arena: &'a str = arena;
    let at = |s: &str| -> Cow<'a, str> {
        let n = arena.find(s).unwrap();
        Cow::Borrowed(&arena[n..n + s.len()])
    };
    let out: Vec<SgmlEvent<'a>> = f
        .iter()
        .map(|e| match e {
            SgmlEvent::MarkupDeclaration { keyword, body } => SgmlEvent::MarkupDeclaration {
                keyword: at(keyword),
                body: at(body),
            },
            SgmlEvent::ProcessingInstruction(s) => SgmlEvent::ProcessingInstruction(at(s)),
            SgmlEvent::MarkedSection { status_keywords, section } => SgmlEvent::MarkedSection {
                status_keywords: at(status_keywords),
                section: at(section),
            },
            SgmlEvent::OpenStartTag { name } => SgmlEvent::OpenStartTag { name: at(name) },
            SgmlEvent::Attribute { name, value } => SgmlEvent::Attribute {
                name: at(name),
                value: value.as_ref().map(|v| at(v)),
            },
            SgmlEvent::CloseStartTag => SgmlEvent::CloseStartTag,
            SgmlEvent::XmlCloseEmptyElement => SgmlEvent::XmlCloseEmptyElement,
            SgmlEvent::EndTag { name } => SgmlEvent::EndTag { name: at(name) },
            SgmlEvent::Character(s) => SgmlEvent::Character(at(s)),
        })
        .collect();
    Some(out.into())
}

pub(super) fn shown(t: &Ty, evs: &[Ev]) -> String {
    format!("{}\ntype {:?}\nevents {:?}", frag(evs), t, evs)
}

/// A type, a value of it and the element that spells the value.
pub(super) fn made(r: &mut Rng, depth: usize) -> Option<(Ty, Val, El)> {
    let t = ty(r, depth, Pos::Root);
    let mut v = val(r, &t, false);
    let wide = r.chance(1, 1000);
    if wide {
        widen(r, &mut v);
    }
    let mut es = els(r, &t, &v, None);
    if es.len() != 1 {
        return None;
    }
    let mut e = es.pop().unwrap();
    if count(&e) > if wide { 6000 } else { 300 } {
        return None;
    }
    if matches!(t, Ty::Struct(_) | Ty::Map(_)) && r.chance(1, 300) {
        // The same far inside
        let n = crate::gen::magnitude(r, 100);
        let (t, v, kinds) = wrapped(r, t, Some(v), n);
        e = wrap_el(&kinds, e);
        fn no_more(e: &mut El, n: usize) {
            // What surrounds it takes no junk
            if n > 0 {
                e.more_attrs = false;
                e.more_kids = false;
                for k in &mut e.kids {
                    if let Node::El(e) = &mut k.node {
                        no_more(e, n - 1);
                    }
                }
            }
        }
        no_more(&mut e, n);
        return Some((t, v.unwrap(), e));
    }
    Some((t, v, e))
}

/// Makes one list, map or text of a value much larger.
fn widen(r: &mut Rng, v: &mut Val) {
    fn collect<'a>(v: &'a mut Val, flip: &mut dyn FnMut() -> bool, out: &mut Vec<&'a mut Val>) {
        let here = match v {
            Val::Str(_) => true,
            Val::Seq(vs) => !vs.is_empty() && flip(),
            Val::Map(es) => !es.is_empty() && flip(),
            _ => false,
        };
        if here {
            out.push(v);
            return;
        }
        match v {
            Val::Seq(vs) | Val::Rec(vs) => vs.iter_mut().for_each(|v| collect(v, flip, out)),
            Val::Map(es) => es.iter_mut().for_each(|e| collect(&mut e.1, flip, out)),
            Val::Some(v) | Val::New(v) | Val::Var(_, v) => collect(v, flip, out),
            _ => {}
        }
    }
    let mut coins = r.u64();
    let mut all = vec![];
    collect(
        v,
        &mut || {
            coins = coins.rotate_left(1);
            coins & 1 == 1
        },
        &mut all,
    );
    if all.is_empty() {
        return;
    }
    let k = r.below(all.len());
    let n = crate::gen::magnitude(r, 3000);
    match &mut *all[k] {
        Val::Str(s) => {
            let t = r.pick_str(&["x", "é", "&", "long text ", "\n", "<"]);
            s.insert_str(0, &t.repeat(n));
            s.insert(0, 'x');
        }
        Val::Seq(vs) => {
            let l = vs.len();
            for i in 0..n {
                vs.push(vs[i % l].clone());
            }
        }
        Val::Map(es) => {
            let l = es.len();
            for i in 0..n {
                es.push((format!("key{}", i), es[i % l].1.clone()));
            }
            es.sort_by(|a, b| a.0.cmp(&b.0));
        }
        _ => {}
    }
}

fn flat(r: &mut Rng, e: &El) -> (Vec<Ev>, Vec<bool>) {
    let mut out = vec![];
    let mut marks = vec![];
    events(r, e, true, &mut out, &mut marks);
    (out, marks)
}

pub(super) fn kinds(ctx: &mut Ctx, t: &Ty) {
    let st = |ctx: &mut Ctx, s: &St| {
        if s.has_value() {
            ctx.count("dollar_value");
        }
        for f in &s.fields {
            kinds(ctx, &f.ty);
        }
    };
    match t {
        Ty::Bool => ctx.count("bool"),
        Ty::Int(..) => ctx.count("integer"),
        Ty::F32 | Ty::F64 => ctx.count("float"),
        Ty::Char => ctx.count("char"),
        Ty::Str | Ty::Bytes => ctx.count("string"),
        Ty::Unit => ctx.count("unit"),
        Ty::Opt(t) => {
            ctx.count("option");
            kinds(ctx, t)
        }
        Ty::New(t) => {
            ctx.count("newtype");
            kinds(ctx, t)
        }
        Ty::Seq(t) => {
            ctx.count("sequence");
            kinds(ctx, t)
        }
        Ty::Tup(ts) => {
            ctx.count("tuple");
            ts.iter().for_each(|t| kinds(ctx, t))
        }
        Ty::Struct(s) => {
            ctx.count("struct");
            st(ctx, s)
        }
        Ty::Map(t) => {
            ctx.count("map");
            kinds(ctx, t)
        }
        Ty::Enum(e) => {
            ctx.count("enum");
            for v in &e.variants {
                match &v.1 {
                    Kind::Unit => ctx.count("unit_variant"),
                    Kind::New(t) => {
                        ctx.count("newtype_variant");
                        kinds(ctx, t)
                    }
                    Kind::Tup(ts) => {
                        ctx.count("tuple_variant");
                        ts.iter().for_each(|t| kinds(ctx, t))
                    }
                    Kind::Struct(s) => {
                        ctx.count("struct_variant");
                        st(ctx, s)
                    }
                }
            }
        }
        Ty::Ignored => ctx.count("ignored"),
        Ty::Any => ctx.count("any"),
        Ty::Try(t) => {
            ctx.count("error_swallowing");
            kinds(ctx, t)
        }
    }
}

pub(super) fn expect_val(want: &Val, got: Result<Val, DeserializationError>) -> V {
    match got {
        Ok(g) if &g == want => Ok(()),
        Ok(g) => Err(format!("expected {:?}\ngot {:?}", want, g)),
        Err(e) => Err(format!("expected {:?}\ngot error {} ({:?})", want, e, e)),
    }
}

// ---------------------------------------------------------------------------------------------
// C17

pub static C17: Check = Check {
    id: "C17",
    rule: "a random type (structs, sequences, tuples, maps, options, newtypes, scalars, strings, '$value', enums), a random value of it, and a document that spells the value (fields in any order as attributes or children, text in pieces); given as events or as source text through the parser and end-tag normalization. The value read back must be equal. Also derived types with serde attributes (probe and one case in eight). Non-trivial = distinct documents with more than one element.",
    case: c17,
    quick: 1_500_000,
    thorough: 9_000_000,
    probes: &[("large", super::big::p17), ("documented-examples", p17_docs)],
    need: &["in_turn", "library",
        "bool", "integer", "float", "char", "string", "unit", "option", "newtype", "sequence", "tuple", "struct", "map", "enum", "dollar_value", "as_events", "as_source", "derived", "logged",
    ],
    assumptions: TRUST,
};

/// Reads a spelled value back, from events or from source text.
fn round(ctx: &mut Ctx, t: &Ty, v: &Val, e: &El) -> V {
    if ctx.r.bool() {
        let (evs, _) = flat(&mut ctx.r, e);
        ctx.input = shown(t, &evs);
        ctx.count("as_events");
        let got = read(&mut ctx.r, t, frag(&evs));
        expect_val(v, got)?;
        let key = format!("{:?}", evs);
        ctx.judged(if count(e) > 1 { Some(key.as_bytes()) } else { None });
    } else {
        let mut s = String::new();
        source(&mut ctx.r, e, &mut vec![], &mut s);
        ctx.input = format!("{}\ntype {:?}", s, t);
        ctx.count("as_source");
        let mut b = Parser::builder();
        if ctx.r.bool() {
            b = b.expand_marked_sections();
        }
        let f = b.parse(&s).map_err(|e| format!("does not parse: {}", e))?;
        let f = sgmlish::transforms::normalize_end_tags(f).map_err(|e| format!("cannot be normalized: {}", e))?;
        let got = read(&mut ctx.r, t, f);
        expect_val(v, got)?;
        ctx.judged(if count(e) > 1 { Some(s.as_bytes()) } else { None });
    }
    Ok(())
}

fn c17(ctx: &mut Ctx) -> V {
    if ctx.r.chance(1, 8) {
        return if ctx.r.chance(2, 3) { derived(ctx) } else { library(ctx) };
    }
    if ctx.r.chance(1, 12) {
        return in_turn(ctx);
    }
    let depth = if ctx.thorough { ctx.r.range(1, 5) } else { ctx.r.range(1, 4) };
    let (t, v, e) = match made(&mut ctx.r, depth) {
        Some(x) => x,
        None => return Ok(()),
    };
    kinds(ctx, &t);
    ctx.max("elements", count(&e) as u64);
    let before = LOGGED.with(|l| l.get());
    round(ctx, &t, &v, &e)?;
    let n = LOGGED.with(|l| l.get()) - before;
    ctx.add("logged", n);
    Ok(())
}

/// Types of the standard library, and serde attributes that change how a field is read.
fn library(ctx: &mut Ctx) -> V {
    use std::collections::{BTreeSet, VecDeque};
    use std::net::{IpAddr, Ipv4Addr, SocketAddr};
    use std::num::Wrapping;
    use std::ops::{Bound, Range};
    use std::path::PathBuf;
    use std::time::Duration;
    fn doubled<'de, D: serde::Deserializer<'de>>(d: D) -> Result<u64, D::Error> {
        u32::deserialize(d).map(|n| n as u64 * 2)
    }
    #[derive(Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]
    #[serde(rename_all = "kebab-case")]
    enum Key {
        LightBlue,
        Red,
    }
    #[derive(Deserialize, Debug, PartialEq)]
    #[serde(try_from = "String")]
    struct Code(u8);
    impl TryFrom<String> for Code {
        type Error = String;
        fn try_from(s: String) -> Result<Self, String> {
            s.strip_prefix('#').and_then(|s| s.parse().ok()).map(Code).ok_or(s)
        }
    }
    #[derive(Deserialize, Debug, PartialEq)]
    #[serde(transparent)]
    struct Thin {
        inner: Vec<String>,
    }
    #[derive(Deserialize, Debug, PartialEq)]
    #[serde(deny_unknown_fields)]
    struct Gen<T> {
        item: T,
        #[serde(skip)]
        cache: Option<u8>,
    }
    #[derive(Deserialize, Debug, PartialEq)]
    #[serde(from = "(i16, i16)")]
    struct Sum(i32);
    impl From<(i16, i16)> for Sum {
        fn from((a, b): (i16, i16)) -> Self {
            Sum(a as i32 + b as i32)
        }
    }
    #[derive(Deserialize, Debug, PartialEq)]
    struct Root {
        ip: IpAddr,
        sock: Vec<SocketAddr>,
        wait: Duration,
        span: Range<u16>,
        res: Vec<Result<u8, String>>,
        bound: (Bound<u8>, Bound<u8>),
        path: PathBuf,
        set: BTreeSet<String>,
        deque: VecDeque<i8>,
        slice: Box<[f32]>,
        wrap: Wrapping<u8>,
        oo: Option<Option<i64>>,
        keys: BTreeMap<Key, u8>,
        code: Code,
        thin: Thin,
        gen: Gen<Gen<(char, bool)>>,
        sum: Sum,
        #[serde(deserialize_with = "doubled")]
        twice: u64,
        cow: Cow<'static, str>,
    }
    let r = &mut ctx.r;
    // Each field is a group of pieces that stay together
    let mut groups: Vec<Vec<El>> = vec![];
    let mut root = El::new("root");
    fn put(r: &mut Rng, e: &mut El, name: &str, s: String) {
        if r.bool() {
            e.attrs.push((name.into(), Some(s)));
        } else {
            e.kids.push(Kid { node: Node::El(El::text(name, s)), glue: false });
        }
    }
    fn kid(e: &mut El, k: El) {
        e.kids.push(Kid { node: Node::El(k), glue: false });
    }
    let single = |r: &mut Rng, root: &mut El, groups: &mut Vec<Vec<El>>, name: &str, s: String| {
        if r.bool() {
            root.attrs.push((name.into(), Some(s)));
        } else {
            groups.push(vec![El::text(name, s)]);
        }
    };
    let ip: IpAddr = if r.bool() { Ipv4Addr::from(r.u64() as u32).into() } else { std::net::Ipv6Addr::from([r.u64() as u16, 0, 0, r.u64() as u16, 1, 2, 3, r.u64() as u16]).into() };
    single(r, &mut root, &mut groups, "ip", ip.to_string());
    let sock: Vec<SocketAddr> = (0..r.range(1, 3)).map(|_| SocketAddr::new(ip, r.u64() as u16)).collect();
    groups.push(sock.iter().map(|s| El::text("sock", s.to_string())).collect());
    let wait = Duration::new(r.below(1 << 20) as u64, r.below(1_000_000_000) as u32);
    let mut k = El::new("wait");
    put(r, &mut k, "nanos", wait.subsec_nanos().to_string());
    put(r, &mut k, "secs", wait.as_secs().to_string());
    groups.push(vec![k]);
    let span = r.u64() as u16..r.u64() as u16;
    let mut k = El::new("span");
    put(r, &mut k, "start", span.start.to_string());
    put(r, &mut k, "end", span.end.to_string());
    groups.push(vec![k]);
    let mut res = vec![];
    let mut g = vec![];
    for _ in 0..r.range(1, 3) {
        let mut k = El::new("res");
        if r.bool() {
            let n = r.u64() as u8;
            kid(&mut k, El::text("Ok", n.to_string()));
            res.push(Ok(n));
        } else {
            let s = text(r, 5);
            kid(&mut k, El::text("Err", s.clone()));
            res.push(Err(s));
        }
        g.push(k);
    }
    groups.push(g);
    let mut g = vec![];
    let mut one = |r: &mut Rng| {
        let n = r.u64() as u8;
        let (b, name, s) = match r.below(3) {
            0 => (Bound::Unbounded, "Unbounded", String::new()),
            1 => (Bound::Included(n), "Included", n.to_string()),
            _ => (Bound::Excluded(n), "Excluded", n.to_string()),
        };
        let mut k = El::new("bound");
        if b == Bound::Unbounded && r.bool() {
            k = El::text("bound", name.into());
        } else {
            kid(&mut k, El::text(name, s));
        }
        g.push(k);
        b
    };
    let bound = (one(r), one(r));
    groups.push(g);
    let path = text(r, 8);
    single(r, &mut root, &mut groups, "path", path.clone());
    let words: Vec<String> = (0..r.range(1, 4)).map(|_| text(r, 3)).collect();
    groups.push(words.iter().map(|w| El::text("set", w.clone())).collect());
    let deque: VecDeque<i8> = (0..r.range(1, 4)).map(|_| r.u64() as i8).collect();
    groups.push(deque.iter().map(|n| El::text("deque", n.to_string())).collect());
    let slice: Vec<f32> = (0..r.range(1, 3)).map(|_| r.below(10000) as f32 / 8.0).collect();
    groups.push(slice.iter().map(|n| El::text("slice", n.to_string())).collect());
    let wrap = r.u64() as u8;
    single(r, &mut root, &mut groups, "wrap", wrap.to_string());
    let oo = if r.bool() { Some(Some(r.u64() as i64)) } else { None };
    if let Some(Some(n)) = oo {
        single(r, &mut root, &mut groups, "oo", n.to_string());
    }
    let mut keys = BTreeMap::new();
    let mut k = El::new("keys");
    for (key, name) in [(Key::Red, "red"), (Key::LightBlue, "light-blue")] {
        if r.bool() {
            let n = r.u64() as u8;
            put(r, &mut k, name, n.to_string());
            keys.insert(key, n);
        }
    }
    groups.push(vec![k]);
    let code = r.u64() as u8;
    single(r, &mut root, &mut groups, "code", format!("#{}", code));
    let thin: Vec<String> = (0..r.range(1, 3)).map(|_| text(r, 3)).collect();
    groups.push(thin.iter().map(|w| El::text("thin", w.clone())).collect());
    let (c, b) = (*r.pick(&['x', '&', 'é']), r.bool());
    let mut k = El::new("item");
    kid(&mut k, El::text("item", c.to_string()));
    kid(&mut k, El::text("item", b.to_string()));
    let mut o = El::new("gen");
    o.more_attrs = false;
    o.more_kids = false;
    k.more_attrs = false;
    k.more_kids = false;
    kid(&mut o, k);
    groups.push(vec![o]);
    let (x, y) = (r.u64() as i16, r.u64() as i16);
    groups.push(vec![El::text("sum", x.to_string()), El::text("sum", y.to_string())]);
    let n = r.u64() as u32;
    single(r, &mut root, &mut groups, "twice", n.to_string());
    let cow = text(r, 6);
    single(r, &mut root, &mut groups, "cow", cow.clone());
    for k in (1..groups.len()).rev() {
        groups.swap(k, r.below(k + 1));
    }
    for k in groups.into_iter().flatten() {
        kid(&mut root, k);
    }
    let want = Root {
        ip,
        sock,
        wait,
        span,
        res,
        bound,
        path: path.into(),
        set: words.into_iter().collect(),
        deque,
        slice: slice.into(),
        wrap: Wrapping(wrap),
        oo,
        keys,
        code: Code(code),
        thin: Thin { inner: thin },
        gen: Gen { item: Gen { item: (c, b), cache: None }, cache: None },
        sum: Sum(x as i32 + y as i32),
        twice: n as u64 * 2,
        cow: cow.into(),
    };
    ctx.count("library");
    let deep = if ctx.r.bool() { ctx.r.range(1, 3) } else { 0 };
    for k in 0..deep {
        let mut o = El::new(if k + 1 == deep { "root" } else { "item" });
        o.more_attrs = false;
        o.more_kids = false;
        root.tag = "item".into();
        kid(&mut o, root);
        root = o;
    }
    let (f, what) = if ctx.r.bool() {
        let (evs, _) = flat(&mut ctx.r, &root);
        ctx.input = format!("{}\nevents {:?}", frag(&evs), evs);
        (frag(&evs), format!("{:?}", evs))
    } else {
        let mut s = String::new();
        source(&mut ctx.r, &root, &mut vec![], &mut s);
        ctx.input = s.clone();
        let f = Parser::new().parse(&s).map_err(|e| format!("does not parse: {}", e))?;
        (sgmlish::transforms::normalize_end_tags(f).map_err(|e| format!("cannot be normalized: {}", e))?.into_owned(), s)
    };
    let got = match deep {
        0 => f.deserialize::<Root>(),
        1 => f.deserialize::<Gen<Root>>().map(|g| g.item),
        2 => f.deserialize::<Gen<Box<Gen<Root>>>>().map(|g| g.item.item),
        _ => f.deserialize::<Gen<Gen<Gen<Root>>>>().map(|g| g.item.item.item),
    };
    match got {
        Ok(g) if g == want => {}
        Ok(g) => return Err(format!("expected {:?}\ngot {:?}", want, g)),
        Err(e) => return Err(format!("expected {:?}\ngot error {}", want, e)),
    }
    ctx.judged(Some(what.as_bytes()));
    Ok(())
}

/// Several values one after another, read in turn from the same deserializer.
fn in_turn(ctx: &mut Ctx) -> V {
    let n = ctx.r.range(2, 4);
    let mut all = vec![];
    let mut evs = vec![];
    for _ in 0..n {
        let depth = ctx.r.range(1, 3);
        if let Some((t, v, e)) = made(&mut ctx.r, depth) {
            let (more, _) = flat(&mut ctx.r, &e);
            evs.extend(more);
            all.push((t, v));
        }
    }
    ctx.input = format!("{:?}\nevents {:?}", all.iter().map(|(t, _)| t).collect::<Vec<_>>(), evs);
    if all.len() < 2 {
        return Ok(());
    }
    ctx.count("in_turn");
    let mut d = SgmlDeserializer::from_fragment(frag(&evs)).map_err(|e| format!("no deserializer: {}", e))?;
    for (k, (t, v)) in all.iter().enumerate() {
        expect_val(v, Seed(t).deserialize(&mut d)).map_err(|e| format!("value {}: {}", k, e))?;
    }
    let key = format!("{:?}", evs);
    ctx.judged(Some(key.as_bytes()));
    Ok(())
}

/// Values of derived types with serde attributes, against documents made by hand.
fn derived(ctx: &mut Ctx) -> V {
    #[derive(Deserialize, Debug, PartialEq, Clone)]
    #[serde(rename_all = "UPPERCASE")]
    struct Trn {
        #[serde(rename = "TRNTYPE")]
        kind: TrnKind,
        amount: f64,
        #[serde(default)]
        memo: Option<String>,
        #[serde(alias = "ID", default)]
        fitid: u64,
        #[serde(default)]
        flags: Vec<bool>,
    }
    #[derive(Deserialize, Debug, PartialEq, Clone, Copy)]
    #[serde(rename_all = "UPPERCASE")]
    enum TrnKind {
        Credit,
        Debit,
        #[serde(other)]
        Other,
    }
    #[derive(Deserialize, Debug, PartialEq, Clone)]
    struct Extra {
        first: String,
        second: Option<String>,
    }
    #[derive(Deserialize, Debug, PartialEq, Clone)]
    struct Flat {
        own: String,
        #[serde(flatten)]
        extra: Extra,
        #[serde(flatten)]
        rest: BTreeMap<String, String>,
    }
    #[derive(Deserialize, Debug, PartialEq, Clone)]
    #[serde(untagged)]
    enum Un {
        Pair { left: String, right: String },
        One { only: String },
        Text(String),
    }
    #[derive(Deserialize, Debug, PartialEq, Clone)]
    #[serde(tag = "type")]
    enum Tagged {
        Circle { radius: String },
        Square { side: String },
    }
    #[derive(Deserialize, Debug, PartialEq, Clone)]
    struct Tree {
        #[serde(default)]
        name: String,
        #[serde(rename = "node", default)]
        nodes: Vec<Tree>,
        next: Option<Box<Tree>>,
    }
    #[derive(Deserialize, Debug, PartialEq, Clone)]
    struct Mark {
        #[serde(rename = "$value")]
        parts: Vec<Part>,
        #[serde(default)]
        lang: Cow<'static, str>,
    }
    #[derive(Deserialize, Debug, PartialEq, Clone)]
    #[serde(rename_all = "lowercase")]
    enum Part {
        B(String),
        Img { src: String, #[serde(default)] wide: bool },
        Br,
        Ul(Vec<String>),
        Link(Link),
        At((i8, i8)),
    }
    #[derive(Deserialize, Debug, PartialEq, Clone)]
    struct Link {
        href: String,
        #[serde(rename = "$value")]
        label: String,
    }
    #[derive(Deserialize, Debug, PartialEq, Clone)]
    struct Root {
        trn: Vec<Trn>,
        flat: Flat,
        un: Vec<Un>,
        shape: Vec<Tagged>,
        tree: Tree,
        mark: Mark,
        pos: (i32, u8),
        arr: [char; 2],
        rc: Rc<str>,
        map: HashMap<String, Vec<u16>>,
        nz: Option<std::num::NonZeroU8>,
        unit: (),
    }

    let r = &mut ctx.r;
    // Strings that are neither empty nor blank, so that self-describing reading keeps them text
    fn word(r: &mut Rng) -> String {
        format!("w{}", text(r, 5))
    }
    fn put(r: &mut Rng, e: &mut El, name: &str, s: String) {
        if r.bool() {
            e.attrs.push((name.into(), Some(s)));
        } else {
            e.kids.push(Kid { node: Node::El(El::text(name, s)), glue: false });
        }
    }
    fn kid(e: &mut El, k: El) {
        e.kids.push(Kid { node: Node::El(k), glue: false });
    }
    fn tree(r: &mut Rng, depth: usize, tag: &str, e: &mut El) -> Tree {
        e.tag = tag.into();
        let mut t = Tree { name: String::new(), nodes: vec![], next: None };
        if r.bool() {
            t.name = word(r);
            put(r, e, "name", t.name.clone());
        }
        if depth > 0 {
            for _ in 0..r.below(3) {
                let mut k = El::new("");
                t.nodes.push(tree(r, depth - 1, "node", &mut k));
                kid(e, k);
            }
            if r.bool() {
                let mut k = El::new("");
                t.next = Some(Box::new(tree(r, depth - 1, "next", &mut k)));
                kid(e, k);
            }
        }
        t
    }
    let mut e = El::new("root");
    let mut trn = vec![];
    for _ in 0..r.range(1, 3) {
        let mut k = El::new("trn");
        let (kind, name) = *r.pick(&[(TrnKind::Credit, "CREDIT"), (TrnKind::Debit, "DEBIT"), (TrnKind::Other, "XFER")]);
        put(r, &mut k, "TRNTYPE", name.into());
        let amount = r.below(100000) as f64 / 100.0;
        put(r, &mut k, "AMOUNT", amount.to_string());
        let memo = if r.bool() { Some(text(r, 6)) } else { None };
        if let Some(m) = &memo {
            put(r, &mut k, "MEMO", m.clone());
        }
        let fitid = r.u64();
        let id = r.pick_str(&["FITID", "ID"]);
        put(r, &mut k, id, fitid.to_string());
        let flags: Vec<bool> = (0..r.below(3)).map(|_| r.bool()).collect();
        for f in &flags {
            kid(&mut k, El::text("FLAGS", f.to_string()));
        }
        trn.push(Trn { kind, amount, memo, fitid, flags });
        kid(&mut e, k);
    }
    let mut k = El::new("flat");
    let own = word(r);
    let first = word(r);
    let second = if r.bool() { Some(word(r)) } else { None };
    put(r, &mut k, "own", own.clone());
    put(r, &mut k, "first", first.clone());
    if let Some(s) = &second {
        put(r, &mut k, "second", s.clone());
    }
    let mut rest = BTreeMap::new();
    for n in ["x", "y", "é"] {
        if r.bool() {
            let w = word(r);
            put(r, &mut k, n, w.clone());
            rest.insert(n.to_string(), w);
        }
    }
    // What no field takes stays with the map: other fields of the flattened struct do not
    kid(&mut e, k);
    let flat_v = Flat { own, extra: Extra { first, second }, rest };
    let mut un = vec![];
    for _ in 0..r.range(1, 3) {
        let mut k = El::new("un");
        un.push(match r.below(3) {
            0 => {
                let (a, b) = (word(r), word(r));
                put(r, &mut k, "right", b.clone());
                put(r, &mut k, "left", a.clone());
                Un::Pair { left: a, right: b }
            }
            1 => {
                let a = word(r);
                put(r, &mut k, "only", a.clone());
                Un::One { only: a }
            }
            _ => {
                let a = word(r);
                k = El::text("un", a.clone());
                Un::Text(a)
            }
        });
        kid(&mut e, k);
    }
    let mut shape = vec![];
    for _ in 0..r.range(1, 3) {
        let mut k = El::new("shape");
        let w = word(r);
        let circle = r.bool();
        let first = r.bool();
        let tag = if circle { "Circle" } else { "Square" };
        if first {
            put(r, &mut k, "type", tag.into());
        }
        put(r, &mut k, if circle { "radius" } else { "side" }, w.clone());
        if !first {
            put(r, &mut k, "type", tag.into());
        }
        shape.push(if circle { Tagged::Circle { radius: w } } else { Tagged::Square { side: w } });
        kid(&mut e, k);
    }
    let mut k = El::new("");
    let tree_v = tree(r, 3, "tree", &mut k);
    kid(&mut e, k);
    let mut k = El::new("mark");
    let mut lang = String::new();
    if r.bool() {
        lang = text(r, 3);
        k.attrs.push(("lang".into(), Some(lang.clone())));
    }
    let mut parts = vec![];
    for _ in 0..r.below(5) {
        let s = text(r, 4);
        match r.below(6) {
            0 => {
                kid(&mut k, El::text("b", s.clone()));
                parts.push(Part::B(s));
            }
            1 => {
                let mut i = El::new("img");
                put(r, &mut i, "src", s.clone());
                let wide = r.bool();
                if wide {
                    i.attrs.push(("wide".into(), r.pick(&[None, Some(String::new()), Some("WIDE".into())]).clone()));
                }
                kid(&mut k, i);
                parts.push(Part::Img { src: s, wide });
            }
            2 => {
                kid(&mut k, El::new("br"));
                parts.push(Part::Br);
            }
            3 => {
                let mut u = El::new("ul");
                let li: Vec<String> = (0..r.below(4)).map(|_| text(r, 3)).collect();
                for l in &li {
                    kid(&mut u, El::text(r.pick_str(&["li", "b", "ul"]), l.clone()));
                }
                kid(&mut k, u);
                parts.push(Part::Ul(li));
            }
            4 => {
                let href = text(r, 3);
                let mut l = El::text("link", s.clone());
                l.attrs.push(("href".into(), Some(href.clone())));
                kid(&mut k, l);
                parts.push(Part::Link(Link { href, label: s }));
            }
            _ => {
                let (a, b) = (r.u64() as i8, r.u64() as i8);
                let mut u = El::new("at");
                kid(&mut u, El::text("x", a.to_string()));
                kid(&mut u, El::text("y", b.to_string()));
                kid(&mut k, u);
                parts.push(Part::At((a, b)));
            }
        }
    }
    kid(&mut e, k);
    let pos = (r.u64() as i32, r.u64() as u8);
    kid(&mut e, El::text("pos", pos.0.to_string()));
    kid(&mut e, El::text("pos", pos.1.to_string()));
    let arr = [*r.pick(&['a', '<', '🦀']), *r.pick(&['b', ' ', 'é'])];
    kid(&mut e, El::text("arr", arr[0].to_string()));
    kid(&mut e, El::text("arr", arr[1].to_string()));
    let rc = text(r, 4);
    kid(&mut e, El::text("rc", rc.clone()));
    let mut k = El::new("map");
    let mut map = HashMap::new();
    for n in ["k1", "k2", "k3"] {
        if r.bool() {
            let v: Vec<u16> = (0..r.range(1, 3)).map(|_| r.u64() as u16).collect();
            for x in &v {
                kid(&mut k, El::text(n, x.to_string()));
            }
            map.insert(n.to_string(), v);
        }
    }
    kid(&mut e, k);
    let nz = if r.bool() { std::num::NonZeroU8::new(r.range(1, 255) as u8) } else { None };
    if let Some(n) = nz {
        put(r, &mut e, "nz", n.to_string());
    }
    kid(&mut e, El::new("unit"));
    let want = Root {
        trn,
        flat: flat_v,
        un,
        shape,
        tree: tree_v,
        mark: Mark { parts, lang: lang.into() },
        pos,
        arr,
        rc: rc.into(),
        map,
        nz,
        unit: (),
    };
    ctx.count("derived");
    let (f, what) = if ctx.r.bool() {
        let (evs, _) = flat(&mut ctx.r, &e);
        ctx.input = format!("{}\nevents {:?}", frag(&evs), evs);
        (frag(&evs), format!("{:?}", evs))
    } else {
        let mut s = String::new();
        source(&mut ctx.r, &e, &mut vec![], &mut s);
        ctx.input = s.clone();
        let f = Parser::new().parse(&s).map_err(|e| format!("does not parse: {}", e))?;
        (sgmlish::transforms::normalize_end_tags(f).map_err(|e| format!("cannot be normalized: {}", e))?.into_owned(), s)
    };
    logging(&mut ctx.r);
    let got = f.deserialize::<Root>();
    LOGGING.with(|l| l.set(false));
    match got {
        Ok(g) if g == want => {}
        Ok(g) => return Err(format!("expected {:?}\ngot {:?}", want, g)),
        Err(e) => return Err(format!("expected {:?}\ngot error {}", want, e)),
    }
    ctx.judged(Some(what.as_bytes()));
    Ok(())
}

/// The examples of the documentation.
fn p17_docs() -> V {
    #[derive(Debug, Deserialize)]
    struct Select {
        name: Option<String>,
        #[serde(rename = "option")]
        options: Vec<SelectOption>,
    }
    #[derive(Debug, Deserialize)]
    struct SelectOption {
        #[serde(rename = "$value")]
        label: String,
        value: Option<String>,
        #[serde(default)]
        selected: bool,
    }
    let s = "<SELECT NAME=\"color\">\n<OPTION VALUE=\"\">Choose one\n<OPTION SELECTED>Red\n<OPTION>Green\n<OPTION>Blue\n</SELECT>";
    let f = Parser::builder().lowercase_names().parse(s).map_err(|e| e.to_string())?;
    let f = sgmlish::transforms::normalize_end_tags(f).map_err(|e| e.to_string())?;
    let x: Select = sgmlish::from_fragment(f).map_err(|e| e.to_string())?;
    let got = format!("{:?}", x);
    let want = r#"Select { name: Some("color"), options: [SelectOption { label: "Choose one", value: Some(""), selected: false }, SelectOption { label: "Red", value: None, selected: true }, SelectOption { label: "Green", value: None, selected: false }, SelectOption { label: "Blue", value: None, selected: false }] }"#;
    if got != want {
        return Err(format!("the documented example gave {}", got));
    }
    #[derive(Deserialize)]
    struct Example {
        name: String,
        version: Option<String>,
    }
    let f = Parser::builder().lowercase_names().parse("<CRATE>\n<NAME>sgmlish\n<VERSION>0.2\n</CRATE>\n").map_err(|e| e.to_string())?;
    let f = sgmlish::transforms::normalize_end_tags(f).map_err(|e| e.to_string())?;
    let x: Example = f.deserialize().map_err(|e| e.to_string())?;
    if x.name != "sgmlish" || x.version.as_deref() != Some("0.2") {
        return Err(format!("the README example gave {:?} {:?}", x.name, x.version));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C18

pub static C18: Check = Check {
    id: "C18",
    rule: "a struct or map of 1-5 scalar, string and fieldless-enum fields (also optional and in newtypes), at depth 0-3 inside structs, sequences, maps, enum variants and '$value' lists; each field with a valid or arbitrary text; the same data written in 4 random mixes of attributes and child elements in random orders, and as boolean flags. All must give the same value (the intended one when every text is valid), or all an error. Non-trivial = distinct pairs of different spellings.",
    case: c18,
    quick: 700_000,
    thorough: 4_500_000,
    probes: &[("large", super::big::p18)],
    need: &["all_valid", "some_invalid", "as_attribute", "as_child", "enum_as_variant_element", "flag_bare", "flag_empty", "flag_self_named", "nested", "map_container"],
    assumptions: TRUST,
};

fn is_bool(t: &Ty) -> bool {
    match t {
        Ty::Opt(t) | Ty::New(t) => is_bool(t),
        t => *t == Ty::Bool,
    }
}
fn enum_of(t: &Ty) -> Option<&En> {
    match t {
        Ty::Opt(t) | Ty::New(t) => enum_of(t),
        Ty::Enum(e) => Some(e),
        _ => None,
    }
}
fn bare_spell(r: &mut Rng, v: &Val, t: &Ty) -> Option<String> {
    match (t, v) {
        (Ty::Opt(t), Val::Some(v)) | (Ty::New(t), Val::New(v)) => bare_spell(r, v, t),
        (Ty::Enum(e), Val::Var(i, _)) => Some(e.variants[*i].0.to_string()),
        _ => spell(r, v),
    }
}

/// Puts an element and its type inside others.
fn wrapped(r: &mut Rng, mut t: Ty, mut v: Option<Val>, n: usize) -> (Ty, Option<Val>, Vec<usize>) {
    let mut kinds = vec![];
    for _ in 0..n {
        let k = r.below(6);
        kinds.push(k);
        let (nt, nv) = match k {
            0 => {
                let f = |name, ty| Field { name, ty, default: false };
                (
                    Ty::Struct(St { fields: vec![f("before", Ty::Str), f("inner", t), f("after", Ty::Str)], deny: false }),
                    v.map(|v| Val::Rec(vec![Val::Str("B".into()), v, Val::Str("A".into())])),
                )
            }
            1 => (
                Ty::Struct(St { fields: vec![Field { name: "list", ty: Ty::Seq(Box::new(t)), default: false }], deny: false }),
                v.map(|v| Val::Rec(vec![Val::Seq(vec![v])])),
            ),
            2 => (Ty::Map(Box::new(t)), v.map(|v| Val::Map(vec![("key".into(), v)]))),
            3 => (
                Ty::Enum(En { variants: vec![("U", Kind::Unit), ("N", Kind::New(t))] }),
                v.map(|v| Val::Var(1, Box::new(v))),
            ),
            4 => (
                Ty::Struct(St { fields: vec![Field { name: "$value", ty: Ty::Seq(Box::new(t)), default: false }], deny: false }),
                v.map(|v| Val::Rec(vec![Val::Seq(vec![v])])),
            ),
            _ => (Ty::New(Box::new(t)), v.map(|v| Val::New(Box::new(v)))),
        };
        t = nt;
        v = nv;
    }
    (t, v, kinds)
}
fn wrap_el(kinds: &[usize], mut e: El) -> El {
    // Structs hold other values by the field's name, and lists of '$value' by any
    let mut inner_is_enum = false;
    for k in kinds {
        let put = |e: &mut El, n: &str, inner: bool| {
            if inner {
                let x = std::mem::replace(e, El::new(n));
                e.kids.push(Kid { node: Node::El(x), glue: false });
            } else {
                e.tag = n.to_string();
            }
        };
        match k {
            0 => {
                put(&mut e, "inner", inner_is_enum);
                let x = std::mem::replace(&mut e, El::new("outer"));
                e.kids = vec![
                    Kid { node: Node::El(El::text("before", "B".into())), glue: false },
                    Kid { node: Node::El(x), glue: false },
                    Kid { node: Node::El(El::text("after", "A".into())), glue: false },
                ];
                inner_is_enum = false;
            }
            1 => {
                put(&mut e, "list", inner_is_enum);
                e = El::new("outer").with(vec![e]);
                inner_is_enum = false;
            }
            2 => {
                put(&mut e, "key", inner_is_enum);
                e = El::new("outer").with(vec![e]);
                inner_is_enum = false;
            }
            3 => {
                put(&mut e, "N", inner_is_enum);
                inner_is_enum = true;
            }
            4 => {
                e = El::new("outer").with(vec![e]);
                inner_is_enum = false;
            }
            _ => {}
        }
    }
    e
}

fn c18(ctx: &mut Ctx) -> V {
    let r = &mut ctx.r;
    let map = r.chance(1, 5);
    let n = r.range(1, 5);
    let map_ty = attr_scalar(r);
    let mut fields: Vec<(Field, String, Option<Val>)> = vec![];
    for name in names(r, NAMES_POOL, n) {
        let t = if map {
            match &map_ty {
                Ty::Opt(t) => (**t).clone(),
                t => t.clone(),
            }
        } else {
            attr_scalar(r)
        };
        let v = val(r, &t, false);
        let (s, v) = if r.chance(1, 12) {
            // Any text: whatever it means, it means the same everywhere
            (scalar_soup(r), None)
        } else {
            (bare_spell(r, &v, &t).unwrap_or_default(), Some(v))
        };
        if is_bool(&t) && (s.is_empty() || s.eq_ignore_ascii_case(name)) && s != "true" {
            // In an attribute, a flag
            if v.is_none() || v == Some(Val::Bool(false)) {
                continue;
            }
        }
        fields.push((Field { name, ty: t, default: false }, s, v));
    }
    if fields.is_empty() {
        return Ok(());
    }
    let bool_self = |f: &Field, s: &str| is_bool(&f.ty) && (s.is_empty() || s.eq_ignore_ascii_case(f.name));
    if fields.iter().any(|(f, s, _)| bool_self(f, s) && !s.eq_ignore_ascii_case("true")) {
        return Ok(());
    }
    let all_valid = fields.iter().all(|f| f.2.is_some());
    let (t, v) = if map {
        let mut es: Vec<(String, Val)> = fields.iter().filter_map(|f| f.2.clone().map(|v| (f.0.name.to_string(), v))).collect();
        es.sort_by(|a, b| a.0.cmp(&b.0));
        (Ty::Map(Box::new(fields[0].0.ty.clone())), Val::Map(es))
    } else {
        (
            Ty::Struct(St { fields: fields.iter().map(|f| f.0.clone()).collect(), deny: r.bool() }),
            Val::Rec(fields.iter().filter_map(|f| f.2.clone()).collect()),
        )
    };
    let depth = if r.chance(1, 60) { crate::gen::magnitude(r, 80) } else { r.below(4) };
    let (t, v, kinds) = wrapped(r, t, if all_valid { Some(v) } else { None }, depth);
    let mut first: Option<(Result<Val, String>, String)> = None;
    for k in 0..4 {
        let mut e = El::new("x");
        let mut order: Vec<usize> = (0..fields.len()).collect();
        for i in (1..order.len()).rev() {
            order.swap(i, ctx.r.below(i + 1));
        }
        for i in order {
            let (f, s, v) = &fields[i];
            let attr = match k {
                0 => true,
                1 => false,
                _ => ctx.r.bool(),
            };
            if attr {
                ctx.count("as_attribute");
                let is_true = is_bool(&f.ty) && v.as_ref().map_or(false, |v| truth(v));
                let val = if is_true && ctx.r.chance(2, 3) {
                    match ctx.r.below(3) {
                        0 => {
                            ctx.count("flag_bare");
                            None
                        }
                        1 => {
                            ctx.count("flag_empty");
                            Some(String::new())
                        }
                        _ => {
                            ctx.count("flag_self_named");
                            Some(
                                f.name
                                    .chars()
                                    .map(|c| if ctx.r.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
                                    .collect(),
                            )
                        }
                    }
                } else {
                    Some(s.clone())
                };
                e.attrs.push((f.name.to_string(), val));
            } else {
                ctx.count("as_child");
                let variant = enum_of(&f.ty).map_or(false, |en| en.variants.iter().any(|x| x.0 == s));
                let c = if variant && ctx.r.chance(1, 3) {
                    ctx.count("enum_as_variant_element");
                    El::new(f.name).with(vec![El::new(s)])
                } else if s.is_empty() && ctx.r.bool() {
                    El::new(f.name)
                } else {
                    El::text(f.name, s.clone())
                };
                e.kids.push(Kid { node: Node::El(c), glue: false });
            }
        }
        let e = wrap_el(&kinds, e);
        let (evs, _) = flat(&mut ctx.r, &e);
        ctx.input = shown(&t, &evs);
        let got = read(&mut ctx.r, &t, frag(&evs));
        if let Some(v) = &v {
            expect_val(v, got.as_ref().map(|x| x.clone()).map_err(|e| DeserializationError::Message(e.to_string())))?;
        }
        let got = got.map_err(|e| e.to_string());
        let me = frag(&evs).to_string();
        match &first {
            None => first = Some((got, me)),
            Some((g, m)) => {
                if g.is_ok() != got.is_ok() || (g.is_ok() && *g != got) {
                    return Err(format!("{}\ngave {:?}\nbut {}\ngave {:?}", m, g, me, got));
                }
                if *m != me {
                    ctx.judged(Some(format!("{}{}", m, me).as_bytes()));
                }
            }
        }
    }
    ctx.count(if all_valid { "all_valid" } else { "some_invalid" });
    if depth > 0 {
        ctx.count("nested");
    }
    if map {
        ctx.count("map_container");
    }
    Ok(())
}

fn truth(v: &Val) -> bool {
    match v {
        Val::Some(v) | Val::New(v) => truth(v),
        v => *v == Val::Bool(true),
    }
}

fn attr_scalar(r: &mut Rng) -> Ty {
    loop {
        let t = attr_ty(r, true);
        fn unit(t: &Ty) -> bool {
            match t {
                Ty::Opt(t) | Ty::New(t) => unit(t),
                t => *t == Ty::Unit,
            }
        }
        if !unit(&t) {
            return t;
        }
    }
}

/// The decimal text of a number exactly between two adjacent floats of one width (a tie, which must
/// round to even), or just beside it (where rounding twice gives the wrong neighbour).
pub fn near_tie(r: &mut Rng) -> String {
    let sign = r.pick_str(&["", "", "-", "+"]);
    let mut s = if r.chance(2, 3) {
        // an f32 and the next one; their midpoint is an f64
        let bits = match r.below(4) {
            0 => r.below(0x0080_0000) as u32,
            1 => 0x3f80_0000 + r.below(1 << 24) as u32,
            2 => 0x7f7f_ffff - r.below(4) as u32,
            _ => (r.u64() as u32) & 0x7f7f_ffff,
        };
        let (a, b) = (f32::from_bits(bits) as f64, if bits == 0x7f7f_ffff { 340282366920938463463374607431768211456.0 } else { f32::from_bits(bits + 1) as f64 });
        let m = a + (b - a) / 2.0;
        let s = format!("{:.160}", m);
        s.trim_end_matches('0').to_string()
    } else {
        // an f64 of 54 to 127 bits, one bit longer than the format holds
        let m = (1u128 << 53) | (r.u64() >> 11) as u128 | 1;
        format!("{}.", m << r.below(70))
    };
    match r.below(3) {
        0 => {
            if s.ends_with('.') {
                s.pop();
            }
        }
        1 => {
            for _ in 0..r.below(25) {
                s.push('0');
            }
            s.push('1');
        }
        _ => {
            // one unit of the last place less, then nines
            let had_dot = s.ends_with('.');
            if had_dot {
                s.pop();
            }
            let mut d: Vec<u8> = s.into_bytes();
            for c in d.iter_mut().rev() {
                if *c == b'.' {
                    continue;
                }
                if *c == b'0' {
                    *c = b'9';
                } else {
                    *c -= 1;
                    break;
                }
            }
            s = String::from_utf8(d).unwrap();
            if had_dot {
                s.push('.');
            }
            for _ in 0..r.range(1, 25) {
                s.push('9');
            }
        }
    }
    format!("{}{}", sign, s)
}

/// A text with one letter or digit replaced by a character that some mapping, folding or
/// normalization takes for it.
fn lookalike(r: &mut Rng, s: &str) -> String {
    const ALIKE: &[(char, &str)] = &[
        ('s', "ſＳｓ"),
        ('S', "ſＳ"),
        ('k', "\u{212a}"),
        ('i', "ıİі"),
        ('I', "ıİ"),
        ('a', "аａÀ"),
        ('e', "еｅé"),
        ('t', "ｔţ"),
        ('r', "ｒ"),
        ('u', "ｕ"),
        ('f', "ｆﬀ"),
        ('l', "ｌⅼ"),
        ('n', "ｎ"),
        ('0', "٠０₀o"),
        ('1', "١１¹₁①"),
        ('2', "٢２²"),
        ('5', "٥５"),
        ('9', "９٩"),
        ('-', "−–‐－"),
        ('+', "＋⁺"),
        ('.', "．,·"),
    ];
    let at: Vec<(usize, char)> = s.char_indices().filter(|x| ALIKE.iter().any(|a| a.0 == x.1)).collect();
    if at.is_empty() {
        return format!("{}\u{301}", s);
    }
    let (i, c) = *r.pick(&at);
    let alike: Vec<char> = ALIKE.iter().find(|a| a.0 == c).unwrap().1.chars().collect();
    format!("{}{}{}", &s[..i], r.pick(&alike), &s[i + c.len_utf8()..])
}

fn scalar_soup(r: &mut Rng) -> String {
    if let Some(w) = crate::dict::word(r) {
        return w.to_string();
    }
    match r.below(10) {
        9 => {
            let n = r.below(1000).to_string();
            let s = r.pick_str(&["true", "false", "TRUE", "False", "1", "0", "-1", "1.5", "1e5", "inf", "nan", "infinity", &n]).to_string();
            lookalike(r, &s)
        }
        8 => near_tie(r),
        0 => text(r, 4),
        1 => r.pick_str(&["", " ", "+", "-", "0x10", "1_000", "1e5", "1.", ".5", "inf", "nan", "NaN", "infinity", "-inf", "+inf", "1e999", "-0", "+0", "00", "tRuE", "FALSE", "yes", "no", "on", "off", "t", "f"]).to_string(),
        2 => r
            .pick_str(&[
                "127", "128", "-128", "-129", "255", "256", "-1", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
                "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456", "16777217",
                "9007199254740993", "0.1", "3.4028236e38", "1.7976931348623159e308", "4.9e-324", "1e-46",
            ])
            .to_string(),
        3 => {
            let mut s = String::new();
            for _ in 0..r.range(1, 8) {
                s.push_str(r.pick_str(&["0", "1", "9", "5", "-", "+", ".", "e", "E", "_", " ", "a", "x", "\u{a0}", "٣", ","]));
            }
            s
        }
        4 => format!("{}{}", r.pick_str(&["", " ", "+", "-", "0", "\n", "\t"]), r.u64() as i64),
        5 => format!("{}{}", (r.u64() as i64) >> r.below(64), r.pick_str(&["", "", "", " ", "\n", ".0", "e0", "x"])),
        6 => format!("{}.{}e{}", r.below(1000), r.below(100000), r.below(700) as i64 - 350),
        _ => r.below(300).to_string(),
    }
}

// ---------------------------------------------------------------------------------------------
// C19

pub static C19: Check = Check {
    id: "C19",
    rule: "event lists (valid documents of some type, mutated and shuffled ones, random events, parsed soup) read into arbitrary types (wild run-time types with error-swallowing, self-describing and ignoring parts, types of another document, derived types including recursive and untagged ones), with trace logging on and off. Monitors: panic, crash, stack, CPU and memory, and a count of map entries, sequence elements and scalars handed over, bounded by (events+1) x (type depth+1) per kind. Non-trivial = distinct (events, type) with at least two events.",
    case: c19,
    quick: 2_000_000,
    thorough: 15_000_000,
    probes: &[
        ("deep-100k-flat-types", p19_deep),
        ("wide-300k", p19_wide),
        ("deep-100k-recursive-struct", p19_rec),
        ("deep-100k-self-describing", p19_any),
        ("recursive-newtype-sequence", p19_tree),
    ],
    need: &["read", "failed", "derived_types", "error_swallowing", "any", "ignored", "callbacks", "logged", "mutated", "random_events", "parsed"],
    assumptions: &["recursion that follows the target type itself over deep data is a listed finding", "the bound counts (events+1) x (type depth+1) for each of entries, elements and scalars"],
};

type Reader = fn(SgmlFragment<'static>) -> Result<String, DeserializationError>;
fn rd<T: serde::de::DeserializeOwned + std::fmt::Debug>(f: SgmlFragment<'static>) -> Result<String, DeserializationError> {
    let r = f.deserialize::<T>();
    r.map(|v| format!("{:?}", v))
}

mod zoo {
    use super::*;
    #[allow(dead_code)]
    #[derive(Deserialize, Debug)]
    pub struct Node {
        #[serde(default)]
        pub a: Option<Box<Node>>,
        #[serde(default)]
        pub b: Vec<Node>,
        #[serde(default)]
        pub name: String,
    }
    #[allow(dead_code)]
    #[derive(Deserialize, Debug)]
    pub enum E {
        #[serde(rename = "a")]
        A(Box<E>),
        B(Vec<E>),
        #[serde(rename = "one")]
        One,
        #[serde(rename = "item")]
        Item { a: Option<Box<E>>, #[serde(rename = "$value", default)] v: Vec<E> },
        #[serde(rename = "É")]
        T(i8, Box<E>),
        #[serde(other)]
        Other,
    }
    #[allow(dead_code)]
    #[derive(Deserialize, Debug)]
    #[serde(untagged)]
    pub enum U {
        Int(i64),
        S { a: String, b: Option<Box<U>> },
        L(Vec<U>),
        M(BTreeMap<String, U>),
        T(String),
        N,
    }
    #[allow(dead_code)]
    #[derive(Deserialize, Debug)]
    #[serde(tag = "type", content = "value")]
    pub enum Adj {
        #[serde(rename = "a")]
        A(String),
        B { a: u8 },
        #[serde(rename = "one")]
        C,
    }
    #[allow(dead_code)]
    #[derive(Deserialize, Debug)]
    #[serde(tag = "type")]
    pub enum Int {
        #[serde(rename = "a")]
        A { name: String },
        B(BTreeMap<String, String>),
        #[serde(rename = "one")]
        C,
    }
    #[allow(dead_code)]
    #[derive(Deserialize, Debug)]
    pub struct F {
        a: Option<String>,
        #[serde(flatten)]
        rest: HashMap<String, serde_json::Value>,
    }
    #[allow(dead_code)]
    #[derive(Deserialize, Debug)]
    #[serde(deny_unknown_fields)]
    pub struct D {
        #[serde(rename = "$value")]
        v: (u8, String),
        a: Option<bool>,
    }
    #[allow(dead_code)]
    #[derive(Deserialize, Debug)]
    pub struct L {
        #[serde(deserialize_with = "lenient", default)]
        a: Option<Node>,
        #[serde(deserialize_with = "lenient", default)]
        b: Option<E>,
        #[serde(rename = "$value", deserialize_with = "lenient", default)]
        v: Option<Vec<E>>,
        name: Option<String>,
    }
    fn lenient<'de, D: serde::Deserializer<'de>, T: Deserialize<'de>>(d: D) -> Result<Option<T>, D::Error> {
        Ok(T::deserialize(d).ok())
    }
    #[allow(dead_code)]
    #[derive(Deserialize, Debug)]
    pub struct Z([(); 3], std::marker::PhantomData<u8>);
    #[allow(dead_code)]
    #[derive(Deserialize, Debug)]
    pub struct Empty {}
    /// Reads keys and values of maps in odd ways that serde allows.
    #[derive(Debug)]
    pub struct Odd;
    impl<'de> Deserialize<'de> for Odd {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            struct Vis;
            impl<'de> serde::de::Visitor<'de> for Vis {
                type Value = Odd;
                fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                    f.write_str("anything")
                }
                fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Odd, A::Error> {
                    // Stops early, leaving entries
                    for _ in 0..2 {
                        match a.next_entry::<String, Odd>() {
                            Ok(Some(_)) => {}
                            Ok(None) => return Ok(Odd),
                            Err(_) => return Ok(Odd),
                        }
                    }
                    Ok(Odd)
                }
                fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Odd, A::Error> {
                    let _ = a.next_element::<u8>();
                    let _ = a.size_hint();
                    Ok(Odd)
                }
                fn visit_str<E>(self, _: &str) -> Result<Odd, E> {
                    Ok(Odd)
                }
                fn visit_unit<E>(self) -> Result<Odd, E> {
                    Ok(Odd)
                }
                fn visit_none<E>(self) -> Result<Odd, E> {
                    Ok(Odd)
                }
                fn visit_some<D: serde::Deserializer<'de>>(self, d: D) -> Result<Odd, D::Error> {
                    d.deserialize_seq(Vis)
                }
            }
            d.deserialize_any(Vis)
        }
    }
    /// Takes nothing.
    #[derive(Debug)]
    pub struct Nothing;
    impl<'de> Deserialize<'de> for Nothing {
        fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> {
            Ok(Nothing)
        }
    }
}

const READERS: &[(&str, Reader)] = &[
    ("Node", rd::<zoo::Node>),
    ("Vec<Node>", rd::<Vec<zoo::Node>>),
    ("E", rd::<zoo::E>),
    ("Vec<E>", rd::<Vec<zoo::E>>),
    ("HashMap<String, E>", rd::<HashMap<String, zoo::E>>),
    ("U", rd::<zoo::U>),
    ("Adj", rd::<zoo::Adj>),
    ("Int", rd::<zoo::Int>),
    ("F", rd::<zoo::F>),
    ("D", rd::<zoo::D>),
    ("L", rd::<zoo::L>),
    ("Z", rd::<zoo::Z>),
    ("Empty", rd::<zoo::Empty>),
    ("Odd", rd::<zoo::Odd>),
    ("Vec<Odd>", rd::<Vec<zoo::Odd>>),
    ("Nothing", rd::<zoo::Nothing>),
    ("Vec<Nothing>", rd::<Vec<zoo::Nothing>>),
    ("BTreeMap<String, Nothing>", rd::<BTreeMap<String, zoo::Nothing>>),
    ("(Nothing, Nothing, String)", rd::<(zoo::Nothing, zoo::Nothing, String)>),
    ("serde_json::Value", rd::<serde_json::Value>),
    ("Vec<serde_json::Value>", rd::<Vec<serde_json::Value>>),
    ("IgnoredAny", rd::<IgnoredAny>),
    ("String", rd::<String>),
    ("Vec<String>", rd::<Vec<String>>),
    ("Vec<Vec<String>>", rd::<Vec<Vec<String>>>),
    ("Option<Vec<u8>>", rd::<Option<Vec<u8>>>),
    ("BTreeMap<String, BTreeMap<String, String>>", rd::<BTreeMap<String, BTreeMap<String, String>>>),
    ("BTreeMap<u8, bool>", rd::<BTreeMap<u8, bool>>),
    ("HashMap<E, ()>", rd::<BTreeMap<char, ()>>),
    ("((), (), bool)", rd::<((), (), bool)>),
    ("[char; 4]", rd::<[char; 4]>),
    ("Result<String, u8>", rd::<Result<String, u8>>),
    ("Bound<i16>", rd::<std::ops::Bound<i16>>),
    ("Duration", rd::<std::time::Duration>),
    ("u128", rd::<u128>),
    ("Option<()>", rd::<Option<()>>),
    ("Box<[f32]>", rd::<Box<[f32]>>),
    ("PathBuf", rd::<std::path::PathBuf>),
    ("CString", rd::<std::ffi::CString>),
    ("IpAddr", rd::<std::net::IpAddr>),
];

fn random_event(r: &mut Rng) -> Ev {
    let n = |r: &mut Rng| r.pick_str(&["a", "b", "A", "ab", "name", "value", "item", "one", "B", "É", "type", "$value", "true", ""]).to_string();
    match r.below(20) {
        0..=5 => {
            let mut x = n(r);
            if x.is_empty() && r.bool() {
                x = "a".into();
            }
            Ev::Open(x)
        }
        6..=8 => Ev::Close,
        9..=12 => Ev::End(n(r)),
        13..=14 => Ev::Char(text(r, 3)),
        15..=16 => Ev::Attr(n(r), if r.bool() { Some(scalar_soup(r)) } else { None }),
        17 => Ev::XmlClose,
        18 => match r.below(3) {
            0 => Ev::Pi("<?x>".into()),
            1 => Ev::Decl("DOCTYPE".into(), "x".into()),
            _ => Ev::Sect("CDATA".into(), "x".into()),
        },
        _ => Ev::Char(String::new()),
    }
}

/// A random tree with few names, well formed or nearly.
fn random_tree(r: &mut Rng, depth: usize, out: &mut Vec<Ev>) {
    let n = r.pick_str(&["a", "b", "A", "item", "one", "name", "B", "É", "value", "type"]).to_string();
    out.push(Ev::Open(n.clone()));
    for _ in 0..r.tail(1, 4) {
        out.push(Ev::Attr(r.pick_str(&["a", "b", "name", "value", "type", "$value"]).to_string(), if r.chance(3, 4) { Some(scalar_soup(r)) } else { None }));
    }
    if r.chance(1, 12) {
        out.push(Ev::XmlClose);
        return;
    }
    if !r.chance(1, 60) {
        out.push(Ev::Close);
    }
    if depth > 0 && r.chance(3, 4) {
        for _ in 0..r.tail(2, 6) {
            if r.chance(1, 5) {
                out.push(Ev::Char(text(r, 3)));
            }
            random_tree(r, depth - 1, out);
        }
    } else {
        out.push(Ev::Char(scalar_soup(r)));
    }
    if !r.chance(1, 60) {
        out.push(Ev::End(n));
    }
}

fn mutate_events(r: &mut Rng, v: &mut Vec<Ev>) {
    for _ in 0..r.range(1, 4) {
        if v.is_empty() {
            break;
        }
        let i = r.below(v.len());
        match r.below(7) {
            0 => {
                v.remove(i);
            }
            1 => {
                let x = v[i].clone();
                v.insert(r.below(v.len() + 1), x);
            }
            2 => {
                let j = r.below(v.len());
                v.swap(i, j);
            }
            3 => v.truncate(i),
            4 => {
                v.drain(..i);
            }
            5 => {
                v[i] = random_event(r);
            }
            _ => {
                let e = random_event(r);
                v.insert(i, e);
            }
        }
    }
}

fn c19(ctx: &mut Ctx) -> V {
    let mut made_ty = None;
    let evs = match ctx.r.below(8) {
        0 => {
            ctx.count("random_events");
            (0..ctx.r.tail(8, 40)).map(|_| random_event(&mut ctx.r)).collect()
        }
        1 | 2 => {
            let mut v = vec![];
            random_tree(&mut ctx.r, 4, &mut v);
            if ctx.r.chance(1, 3) {
                ctx.count("mutated");
                mutate_events(&mut ctx.r, &mut v);
            }
            v
        }
        3 => {
            ctx.count("parsed");
            let (s, t, p) = soup::any_input(&mut ctx.r, 40);
            let cfg = crate::gen::random_cfg(&mut ctx.r, &t, &p);
            match cfg.parser().parse(&s) {
                Ok(f) => convs(&f),
                Err(_) => return Ok(()),
            }
        }
        _ => {
            let depth = ctx.r.range(1, 4);
            let (t, _, e) = match made(&mut ctx.r, depth) {
                Some(x) => x,
                None => return Ok(()),
            };
            let (mut v, _) = flat(&mut ctx.r, &e);
            made_ty = Some(t);
            if ctx.r.chance(2, 3) {
                ctx.count("mutated");
                mutate_events(&mut ctx.r, &mut v);
            }
            v
        }
    };
    let mut key = format!("{:?}", evs).into_bytes();
    if ctx.r.chance(1, 3) {
        ctx.count("derived_types");
        let (name, f) = *ctx.r.pick(READERS);
        ctx.input = format!("{}\ntype {}\nevents {:?}", frag(&evs), name, evs);
        let before = LOGGED.with(|l| l.get());
        logging(&mut ctx.r);
        let got = f(frag(&evs));
        LOGGING.with(|l| l.set(false));
        ctx.add("logged", LOGGED.with(|l| l.get()) - before);
        let again = f(frag(&evs));
        let (a, b) = (got.map_err(|e| e.to_string()), again.map_err(|e| e.to_string()));
        // Hash maps print in any order
        if a.is_ok() != b.is_ok() || (!name.contains("Hash") && name != "F" && a != b) {
            return Err(format!("reading twice gave {:?} and {:?}", a, b));
        }
        ctx.count(if a.is_ok() { "read" } else { "failed" });
        key.extend(name.bytes());
    } else {
        let t = match made_ty {
            Some(t) if ctx.r.chance(2, 3) => {
                if ctx.r.bool() {
                    disturb(&mut ctx.r, &t)
                } else {
                    t
                }
            }
            _ => {
                let d = ctx.r.range(0, 4);
                wild_ty(&mut ctx.r, d)
            }
        };
        kinds(ctx, &t);
        ctx.input = shown(&t, &evs);
        let per = (evs.len() as u64 + 1) * (depth(&t) + 1);
        reset(per * 3);
        let before = LOGGED.with(|l| l.get());
        let out = catch_unwind(AssertUnwindSafe(|| read(&mut ctx.r, &t, frag(&evs))));
        let s = seen();
        ctx.add("callbacks", s[0] + s[1] + s[2]);
        ctx.max("callbacks_per_100_events", (s[0] + s[1] + s[2]) * 100 / (evs.len() as u64 + 1));
        ctx.add("logged", LOGGED.with(|l| l.get()) - before);
        reset(u64::MAX);
        match out {
            Err(p) if p.is::<Runaway>() => {
                return Err(format!("{} events led to {} map entries, {} elements and {} scalars", evs.len(), s[0], s[1], s[2]));
            }
            Err(p) => std::panic::resume_unwind(p),
            Ok(o) => {
                if s.iter().any(|&n| n > per) {
                    return Err(format!("{} events led to {} map entries, {} elements and {} scalars", evs.len(), s[0], s[1], s[2]));
                }
                ctx.count(if o.is_ok() { "read" } else { "failed" });
            }
        }
        key.extend(format!("{:?}", t).bytes());
    }
    ctx.judged(if evs.len() > 1 { Some(&key) } else { None });
    Ok(())
}

fn deep_doc(n: usize, tag: &str, mid: &str) -> SgmlFragment<'static> {
    let mut v = Vec::with_capacity(3 * n + 1);
    for _ in 0..n {
        v.push(SgmlEvent::OpenStartTag { name: tag.to_string().into() });
        v.push(SgmlEvent::CloseStartTag);
    }
    v.push(SgmlEvent::Character(mid.to_string().into()));
    for _ in 0..n {
        v.push(SgmlEvent::EndTag { name: tag.to_string().into() });
    }
    SgmlFragment::from(v)
}

/// Types that do not nest, on very deep documents.
fn p19_deep() -> V {
    #[derive(Deserialize, Debug)]
    #[allow(dead_code)]
    struct Flat {
        #[serde(default)]
        name: Option<String>,
    }
    #[derive(Deserialize, Debug)]
    #[allow(dead_code)]
    struct Value {
        #[serde(rename = "$value")]
        v: Vec<String>,
    }
    #[derive(Deserialize, Debug)]
    enum En {
        #[serde(rename = "a")]
        A,
    }
    for tag in ["a", "zz"] {
        for (name, f) in [
            ("IgnoredAny", rd::<IgnoredAny> as Reader),
            ("String", rd::<String>),
            ("()", rd::<()>),
            ("Flat", rd::<Flat>),
            ("Value", rd::<Value>),
            ("BTreeMap<String, String>", rd::<BTreeMap<String, String>>),
            ("BTreeMap<String, IgnoredAny>", rd::<BTreeMap<String, IgnoredAny>>),
            ("(String,)", rd::<(String,)>),
            ("Option<Flat>", rd::<Option<Flat>>),
            ("Vec<En>", rd::<Vec<En>>),
            ("i32", rd::<i32>),
        ] {
            let r = f(deep_doc(100_000, tag, "x"));
            let want_err = match name {
                "i32" | "Vec<En>" => true,
                _ => false,
            };
            if r.is_ok() == want_err {
                return Err(format!("{} on 100000 nested elements <{}> gave {:?}", name, tag, r.map(|s| crate::model::short(&s, 100))));
            }
        }
    }
    Ok(())
}

/// Very wide documents: linear time and callbacks.
fn p19_wide() -> V {
    let n = 300_000;
    let mut v = vec![Ev::Open("r".into()), Ev::Close];
    for i in 0..n {
        v.push(Ev::Open("a".into()));
        v.push(Ev::Attr("name".into(), Some("x".into())));
        v.push(Ev::Close);
        v.push(Ev::Char(i.to_string()));
        v.push(Ev::End("a".into()));
    }
    v.push(Ev::End("r".into()));
    #[derive(Deserialize)]
    struct R {
        a: Vec<u32>,
    }
    #[derive(Deserialize)]
    struct W {
        #[serde(rename = "$value")]
        a: Vec<String>,
    }
    let r: R = frag(&v).deserialize().map_err(|e| e.to_string())?;
    if r.a.len() != n || r.a.iter().enumerate().any(|(i, x)| i as u32 != *x) {
        return Err("the 300000 items are not as written".into());
    }
    let w: W = frag(&v).deserialize().map_err(|e| e.to_string())?;
    if w.a.len() != n || w.a[n - 1] != (n - 1).to_string() {
        return Err("the 300000 '$value' items are not as written".into());
    }
    frag(&v).deserialize::<IgnoredAny>().map_err(|e| e.to_string())?;
    let s: String = frag(&v).deserialize().map_err(|e| e.to_string())?;
    if s.len() < n {
        return Err("text lost".into());
    }
    Ok(())
}

fn p19_rec() -> V {
    #[derive(Deserialize)]
    #[allow(dead_code)]
    struct N {
        a: Option<Box<N>>,
    }
    let r = deep_doc(100_000, "a", "").deserialize::<N>();
    std::mem::forget(r);
    Ok(())
}
fn p19_any() -> V {
    let r = deep_doc(100_000, "a", "").deserialize::<serde_json::Value>();
    std::mem::forget(r);
    Ok(())
}
fn p19_tree() -> V {
    #[derive(Deserialize)]
    #[allow(dead_code)]
    struct Tree(Vec<Tree>);
    let r = deep_doc(3, "a", "").deserialize::<Tree>();
    std::mem::forget(r);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C20

pub static C20: Check = Check {
    id: "C20",
    rule: "a document that spells a value of a random type (with unknown content sprinkled in) and reads back correctly, then one fault planted in it: an end tag renamed, removed, swapped or added anywhere inside the root element (must fail), or a declaration, instruction, raw section or empty tag put at any event boundary of a part that is read (must fail with Unsupported naming it). Non-trivial = distinct faulty fragments.",
    case: c20,
    quick: 900_000,
    thorough: 9_000_000,
    probes: &[("large", super::big::p20), ("root-variants", p20_roots)],
    need: &["end_renamed", "end_removed", "end_added", "end_swapped", "truncated", "planted_decl", "planted_pi", "planted_section", "planted_empty_start", "planted_empty_end", "in_tag", "in_text", "between_children"],
    assumptions: TRUST,
};

fn c20(ctx: &mut Ctx) -> V {
    let d = ctx.r.range(1, 4);
    let (t, v, mut e) = match made(&mut ctx.r, d) {
        Some(x) => x,
        None => return Ok(()),
    };
    if ctx.r.bool() {
        sprinkle(&mut ctx.r, &mut e, false, &mut 0);
    }
    let (evs, marks) = flat(&mut ctx.r, &e);
    ctx.input = shown(&t, &evs);
    // The document is right before the fault
    let got = read(&mut ctx.r, &t, frag(&evs));
    expect_val(&v, got)?;
    for _ in 0..4 {
        let mut bad = evs.clone();
        let ends: Vec<usize> = bad.iter().enumerate().filter(|x| matches!(x.1, Ev::End(_))).map(|x| x.0).collect();
        if ctx.r.bool() {
            match ctx.r.below(5) {
                0 => {
                    let i = *ctx.r.pick(&ends);
                    let old = if let Ev::End(n) = &bad[i] { n.clone() } else { continue };
                    let new = match ctx.r.below(4) {
                        0 => old.to_uppercase(),
                        1 => format!("{}x", old),
                        2 => e.tag.clone(),
                        _ => a_name(&mut ctx.r).to_string(),
                    };
                    if new == old {
                        continue;
                    }
                    bad[i] = Ev::End(new);
                    ctx.count("end_renamed");
                }
                1 => {
                    bad.remove(*ctx.r.pick(&ends));
                    ctx.count("end_removed");
                }
                2 => {
                    // An end tag that does not match the element open there
                    let i = ctx.r.range(1, bad.len() - 1);
                    let open = open_at(&bad, i);
                    let new = a_name(&mut ctx.r).to_string();
                    if open.as_deref() == Some(&new) {
                        continue;
                    }
                    bad.insert(i, Ev::End(new));
                    ctx.count("end_added");
                }
                3 => {
                    let i = *ctx.r.pick(&ends);
                    let j = *ctx.r.pick(&ends);
                    if bad[i] == bad[j] {
                        continue;
                    }
                    bad.swap(i, j);
                    ctx.count("end_swapped");
                }
                _ => {
                    let n = ctx.r.below(bad.len());
                    bad.truncate(n);
                    ctx.count("truncated");
                }
            }
            ctx.input = shown(&t, &bad);
            if let Ok(g) = read(&mut ctx.r, &t, frag(&bad)) {
                return Err(format!("the inconsistent fragment was read as {:?}", g));
            }
        } else {
            let at: Vec<usize> = (1..bad.len()).filter(|&i| marks[i]).collect();
            if at.is_empty() {
                continue;
            }
            let i = *ctx.r.pick(&at);
            let ev = match ctx.r.below(5) {
                0 => {
                    ctx.count("planted_decl");
                    Ev::Decl("ELEMENT".into(), "a - - b".into())
                }
                1 => {
                    ctx.count("planted_pi");
                    Ev::Pi("<?planted>".into())
                }
                2 => {
                    ctx.count("planted_section");
                    Ev::Sect("IGNORE".into(), "planted".into())
                }
                3 => {
                    ctx.count("planted_empty_start");
                    Ev::Open(String::new())
                }
                _ => {
                    ctx.count("planted_empty_end");
                    Ev::End(String::new())
                }
            };
            match (&bad[i - 1], &bad[i]) {
                (Ev::Open(_) | Ev::Attr(..), _) => ctx.count("in_tag"),
                (Ev::Char(_), _) | (_, Ev::Char(_)) => ctx.count("in_text"),
                (Ev::End(_), _) | (_, Ev::Open(_)) => ctx.count("between_children"),
                _ => {}
            }
            bad.insert(i, ev.clone());
            if ev == Ev::Open(String::new()) && ctx.r.bool() {
                bad.insert(i + 1, Ev::Close);
                bad.insert(i + 2, Ev::End(String::new()));
            }
            ctx.input = shown(&t, &bad);
            match read(&mut ctx.r, &t, frag(&bad)) {
                Ok(g) => return Err(format!("the fragment with {:?} in a part that is read was read as {:?}", ev, g)),
                Err(DeserializationError::Unsupported(x)) if conv(&x) == ev => {}
                // A tag after text has it read as an element, and then the text is the first error
                Err(DeserializationError::ExpectedStartTag) if ev == Ev::Open(String::new()) && matches!(bad[i - 1], Ev::Char(_)) => ctx.count("other_error_first"),
                Err(x) => return Err(format!("{:?} in a part that is read was reported as {:?}", ev, x)),
            }
        }
        ctx.judged(Some(format!("{:?}", bad).as_bytes()));
    }
    Ok(())
}

fn open_at(evs: &[Ev], i: usize) -> Option<String> {
    let mut st = vec![];
    for e in &evs[..i] {
        match e {
            Ev::Open(n) => st.push(n.clone()),
            Ev::End(_) => {
                st.pop();
            }
            _ => {}
        }
    }
    st.pop()
}

/// Derived types against small inconsistent documents, all of them.
fn p20_roots() -> V {
    #[derive(Deserialize, Debug)]
    #[allow(dead_code)]
    struct S {
        #[serde(default)]
        a: Option<String>,
        #[serde(default)]
        b: Vec<String>,
    }
    let names = ["r", "a", "b", "c"];
    let readers: &[(&str, Reader)] = &[
        ("S", rd::<S>),
        ("IgnoredAny", rd::<IgnoredAny>),
        ("String", rd::<String>),
        ("BTreeMap<String, String>", rd::<BTreeMap<String, String>>),
        ("serde_json::Value", rd::<serde_json::Value>),
        ("()", rd::<()>),
    ];
    // <r><x>t</y></z> and <r><x>t</y> for all names: only matching ones are read
    for x in names {
        for y in names {
            for z in [Some("r"), Some("a"), Some("R"), None] {
                let mut v = vec![Ev::Open("r".into()), Ev::Close, Ev::Open(x.into()), Ev::Close, Ev::Char("t".into()), Ev::End(y.into())];
                if let Some(z) = z {
                    v.push(Ev::End(z.into()));
                }
                for (n, f) in readers {
                    let ok = f(frag(&v)).is_ok();
                    let want = x == y && z == Some("r");
                    if ok != want {
                        return Err(format!("{:?} read as {} {}", v, n, if ok { "succeeds" } else { "fails" }));
                    }
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C21

pub static C21: Check = Check {
    id: "C21",
    rule: "a scalar type (also optional, in a newtype, sequence, map, tuple, '$value' or variant) and a text from boundary values, near-misses and soup, as attribute, element text in pieces, '$value' or root; judged by the standard library's own parsing of that type. Non-trivial = distinct (type, text, place).",
    case: c21,
    quick: 2_000_000,
    thorough: 15_000_000,
    probes: &[("large", super::big::p21), ("small-integers-and-characters", p21_all)],
    need: &["accepted_bool", "rejected_bool", "accepted_integer", "rejected_integer", "accepted_float", "rejected_float", "accepted_char", "rejected_char", "accepted_string", "flag", "near_tie", "as_attribute", "as_element", "as_value", "as_root", "as_item", "as_payload"],
    assumptions: TRUST,
};

fn std_parse(t: &Ty, s: &str) -> Option<Val> {
    fn int<T: std::str::FromStr + Into<i128>>(s: &str) -> Option<Val> {
        s.parse::<T>().ok().map(|x| Val::Int(x.into()))
    }
    match t {
        Ty::Bool => match s {
            "1" => Some(Val::Bool(true)),
            "0" => Some(Val::Bool(false)),
            _ => match s.to_ascii_lowercase().as_str() {
                "true" => Some(Val::Bool(true)),
                "false" => Some(Val::Bool(false)),
                _ => None,
            },
        },
        Ty::Int(8, true) => int::<i8>(s),
        Ty::Int(16, true) => int::<i16>(s),
        Ty::Int(32, true) => int::<i32>(s),
        Ty::Int(64, true) => int::<i64>(s),
        Ty::Int(8, false) => int::<u8>(s),
        Ty::Int(16, false) => int::<u16>(s),
        Ty::Int(32, false) => int::<u32>(s),
        Ty::Int(..) => int::<u64>(s),
        Ty::F32 => s.parse::<f32>().ok().map(|f| Val::F32(f.to_bits())),
        Ty::F64 => s.parse::<f64>().ok().map(|f| Val::F64(f.to_bits())),
        Ty::Char => {
            let mut c = s.chars();
            match (c.next(), c.next()) {
                (Some(c), None) => Some(Val::Char(c)),
                _ => None,
            }
        }
        _ => Some(Val::Str(s.to_string())),
    }
}

/// A text that is like the name of an attribute: parts of it, more than it, with other marks.
fn near_name(r: &mut Rng, name: &str) -> String {
    let marks = |c: char| !c.is_alphanumeric();
    let n = match r.below(8) {
        0 => name.rsplit(marks).next().unwrap_or("").to_string(),
        1 => name.split(marks).next().unwrap_or("").to_string(),
        2 => name.chars().rev().collect(),
        3 => name.chars().filter(|c| c.is_alphanumeric()).collect(),
        4 => name.chars().skip(1).collect(),
        5 => name.chars().take(1).collect(),
        6 => format!("{}{}", name, r.pick_str(&["d", "s", " ", "1", "=", ".", name])),
        _ => r.pick_str(NAMES_POOL).to_string(),
    };
    match r.below(4) {
        0 => n.to_uppercase(),
        1 => format!("{}{}", r.pick_str(&["", " ", "x", ":", "no", "is-"]), n),
        _ => n,
    }
}

fn c21(ctx: &mut Ctx) -> V {
    let t = scalar_ty(&mut ctx.r);
    let s = match ctx.r.below(4) {
        0 => {
            let v = val(&mut ctx.r, &t, false);
            let s = spell(&mut ctx.r, &v).unwrap_or_default();
            if ctx.r.chance(1, 3) {
                soup::mutate(&mut ctx.r, &s)
            } else {
                s
            }
        }
        1 if matches!(t, Ty::F32 | Ty::F64) => {
            ctx.count("near_tie");
            near_tie(&mut ctx.r)
        }
        _ => scalar_soup(&mut ctx.r),
    };
    let f = |name, ty| Field { name, ty, default: false };
    let st = |fields| Ty::Struct(St { fields, deny: true });
    let r = &mut ctx.r;
    // The scalar as it is, optional, or in a newtype
    let (wt, wrap): (Ty, u8) = match r.below(4) {
        0 => (Ty::Opt(Box::new(t.clone())), 1),
        1 => (Ty::New(Box::new(t.clone())), 2),
        _ => (t.clone(), 0),
    };
    let w = |v: Val| match wrap {
        1 => Val::Some(Box::new(v)),
        2 => Val::New(Box::new(v)),
        _ => v,
    };
    let name = a_name(r);
    let mut flag = false;
    let place = r.below(9);
    let s = if t == Ty::Bool && place < 2 && r.chance(1, 2) { near_name(r, name) } else { s };
    if t == Ty::Bool && s.to_lowercase() == name.to_lowercase() && !s.eq_ignore_ascii_case(name) {
        // Whether "any case" goes beyond ASCII is left open
        return Ok(());
    }
    let txt = |n: &str| El::text(n, s.clone());
    let (full, el): (Ty, El) = match place {
        0 | 1 => {
            let mut e = El::new("r");
            let bare = s.is_empty() && r.bool();
            e.attrs.push((name.into(), if bare { None } else { Some(s.clone()) }));
            flag = t == Ty::Bool && (s.is_empty() || s.eq_ignore_ascii_case(name));
            (st(vec![f(name, wt)]), e)
        }
        2 => (st(vec![f(name, wt)]), El::new("r").with(vec![txt(name)])),
        3 => (st(vec![f("$value", wt)]), txt("r")),
        4 => (wt, txt("r")),
        5 => (st(vec![f(name, Ty::Seq(Box::new(wt)))]), El::new("r").with(vec![txt(name)])),
        6 => (Ty::Map(Box::new(wt)), El::new("r").with(vec![txt(name)])),
        7 => (Ty::Enum(En { variants: vec![("V", Kind::New(wt))] }), txt("V")),
        _ => (st(vec![f("$value", Ty::Tup(vec![wt]))]), El::new("r").with(vec![txt(name)])),
    };
    ctx.count(match place {
        0 | 1 => "as_attribute",
        2 | 6 => "as_element",
        3 => "as_value",
        4 => "as_root",
        5 | 8 => "as_item",
        _ => "as_payload",
    });
    let inner = if flag {
        ctx.count("flag");
        Some(Val::Bool(true))
    } else {
        std_parse(&t, &s)
    };
    let ok = inner.is_some();
    let kind = match (&t, ok) {
        (Ty::Bool, true) => "accepted_bool",
        (Ty::Bool, false) => "rejected_bool",
        (Ty::Int(..), true) => "accepted_integer",
        (Ty::Int(..), false) => "rejected_integer",
        (Ty::F32 | Ty::F64, true) => "accepted_float",
        (Ty::F32 | Ty::F64, false) => "rejected_float",
        (Ty::Char, true) => "accepted_char",
        (Ty::Char, false) => "rejected_char",
        _ => "accepted_string",
    };
    ctx.count(kind);
    let want = inner.map(|v| {
        let v = w(v);
        match place {
            0..=3 => Val::Rec(vec![v]),
            4 => v,
            5 => Val::Rec(vec![Val::Seq(vec![v])]),
            6 => Val::Map(vec![(name.to_string(), v)]),
            7 => Val::Var(0, Box::new(v)),
            _ => Val::Rec(vec![Val::Rec(vec![v])]),
        }
    });
    let (evs, _) = flat(&mut ctx.r, &el);
    ctx.input = shown(&full, &evs);
    let got = read(&mut ctx.r, &full, frag(&evs));
    match (want, got) {
        (Some(w), g) => expect_val(&w, g)?,
        (None, Err(_)) => {}
        (None, Ok(g)) => return Err(format!("the text {:?} is not a valid {:?}, but was read as {:?}", s, t, g)),
    }
    ctx.judged(Some(format!("{}{:?}{}", place, t, s).as_bytes()));
    Ok(())
}

/// Every integer near the small ranges, and every character.
fn p21_all() -> V {
    fn el<T: serde::de::DeserializeOwned>(s: &str) -> Result<T, String> {
        frag(&[Ev::Open("x".into()), Ev::Close, Ev::Char(s.into()), Ev::End("x".into())])
            .deserialize::<T>()
            .map_err(|e| e.to_string())
    }
    for i in -70000i64..70000 {
        let s = i.to_string();
        macro_rules! check {
            ($($t:ty),*) => {$(
                if el::<$t>(&s).ok() != s.parse::<$t>().ok() {
                    return Err(format!("{} as {} gave {:?}", s, stringify!($t), el::<$t>(&s)));
                }
            )*};
        }
        check!(i16, u16);
        if (-1000..1000).contains(&i) {
            check!(i8, u8, i32, u32, i64, u64, f32, f64, bool2);
        }
    }
    for c in (0..=0x10ffffu32).filter_map(char::from_u32) {
        if el::<char>(&c.to_string()) != Ok(c) {
            return Err(format!("{:?} as a character gave {:?}", c, el::<char>(&c.to_string())));
        }
        if c as u32 % 16 == 0 && el::<String>(&c.to_string()).as_deref() != Ok(c.encode_utf8(&mut [0; 4])) {
            return Err(format!("{:?} as a string gave {:?}", c, el::<String>(&c.to_string())));
        }
    }
    Ok(())
}

/// A boolean that accepts the texts the documentation lists.
#[allow(non_camel_case_types)]
#[derive(Debug, PartialEq)]
struct bool2(bool);
impl<'de> Deserialize<'de> for bool2 {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        bool::deserialize(d).map(bool2)
    }
}
impl std::str::FromStr for bool2 {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        match s {
            "1" => Ok(bool2(true)),
            "0" => Ok(bool2(false)),
            _ => Err(()),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C22

pub static C22: Check = Check {
    id: "C22",
    rule: "enum types with unit, newtype, tuple and struct variants (payloads of every kind, also further enums), each value in every form (element named by the variant inside the field, bare variant in a '$value' list or at the root, text, attribute) between neighbours that share its names; values must come back equal and the neighbours untouched. Then unknown variant names and string forms of variants with data, which must be errors. Non-trivial = distinct documents.",
    case: c22,
    quick: 1_200_000,
    thorough: 7_500_000,
    probes: &[("large", super::big::p22)],
    need: &[
        "field", "list_of_fields", "value_list", "value_single", "map_of_enums", "tuple_field", "root", "optional", "payload_enum", "unit_variant", "newtype_variant", "tuple_variant", "struct_variant", "unknown_variant",
        "string_of_data_variant", "as_events", "as_source",
    ],
    assumptions: TRUST,
};

fn c22(ctx: &mut Ctx) -> V {
    let d = ctx.r.range(1, 3);
    let en = enum_ty(&mut ctx.r, d);
    let et = Ty::Enum(en.clone());
    for v in &en.variants {
        ctx.count(match v.1 {
            Kind::Unit => "unit_variant",
            Kind::New(_) => "newtype_variant",
            Kind::Tup(_) => "tuple_variant",
            Kind::Struct(_) => "struct_variant",
        });
        if let Kind::New(Ty::Enum(_)) = v.1 {
            ctx.count("payload_enum");
        }
    }
    let f = |name, ty| Field { name, ty, default: false };
    let st = |fields| Ty::Struct(St { fields, deny: true });
    // Neighbours named like variants, and of any type
    let n = ctx.r.range(3, 6);
    let mut ns = names(&mut ctx.r, &["a", "one", "item", "É", "B", "true", "pre", "post", "none"], n);
    let me = ns.pop().unwrap();
    let place = ctx.r.below(8);
    let (full, what) = match place {
        7 => (et.clone(), "root"),
        3 => {
            let mut fs: Vec<Field> = ns.iter().map(|n| f(*n, attr_ty(&mut ctx.r, true))).collect();
            fs.push(f("$value", Ty::Seq(Box::new(et.clone()))));
            (st(fs), "value_list")
        }
        4 => {
            let mut fs: Vec<Field> = ns.iter().map(|n| f(*n, attr_ty(&mut ctx.r, true))).collect();
            fs.push(f("$value", et.clone()));
            (st(fs), "value_single")
        }
        _ => {
            let (t, w) = match place {
                0 => (et.clone(), "field"),
                1 => (Ty::Seq(Box::new(et.clone())), "list_of_fields"),
                2 => (Ty::Map(Box::new(et.clone())), "map_of_enums"),
                5 => (Ty::Tup(vec![et.clone(), Ty::Str, et.clone()]), "tuple_field"),
                _ => (Ty::Opt(Box::new(et.clone())), "optional"),
            };
            let mut fs: Vec<Field> = vec![];
            for n in &ns {
                let k = ctx.r.below(4);
                let t = match k {
                    0 => et.clone(),
                    1 => Ty::Str,
                    _ => ty(&mut ctx.r, 1, Pos::Field),
                };
                let default = must_default(&t);
                fs.push(Field { name: n, ty: t, default });
            }
            let at = ctx.r.below(fs.len() + 1);
            let default = must_default(&t);
            fs.insert(at, Field { name: me, ty: t, default });
            (st(fs), w)
        }
    };
    let v = val(&mut ctx.r, &full, false);
    let mut es = els(&mut ctx.r, &full, &v, None);
    if es.len() == 1 && count(&es[0]) < 200 {
        ctx.count(what);
        let e = es.pop().unwrap();
        round(ctx, &full, &v, &e)?;
    }

    // Names that are no variant, and variants with data given as strings
    let data: Vec<&str> = en.variants.iter().filter(|v| v.1 != Kind::Unit).map(|v| v.0).collect();
    let (name, element_too) = if !data.is_empty() && ctx.r.bool() {
        ctx.count("string_of_data_variant");
        (ctx.r.pick_str(&data).to_string(), false)
    } else {
        ctx.count("unknown_variant");
        let n = match ctx.r.below(4) {
            0 => en.variants[0].0.to_uppercase(),
            1 => format!("{}x", en.variants[0].0),
            2 => String::new(),
            _ => text(&mut ctx.r, 3),
        };
        if en.variants.iter().any(|v| v.0 == n) {
            return Ok(());
        }
        (n, true)
    };
    let fld = |r: &mut Rng, e: &mut El| match (r.below(3), element_too && !name.is_empty()) {
        (0, _) => e.attrs.push((me.to_string(), Some(name.clone()))),
        (1, true) => e.kids.push(Kid { node: Node::El(El::new(me).with(vec![El::text(&name, "1".into())])), glue: false }),
        _ => e.kids.push(Kid { node: Node::El(El::text(me, name.clone())), glue: false }),
    };
    let mut e = El::new("r");
    let k = ctx.r.below(5);
    let pre = El::text("pre", "p".into());
    let mut post = El::text("post", "q".into());
    let mut fs = vec![f("pre", Ty::Str), f("post", Ty::Str)];
    // What follows may be just what the variant holds, and needed by nobody else
    if let Some(kind) = en.variants.iter().find(|v| v.0 == name).map(|v| &v.1).filter(|_| ctx.r.chance(2, 3)) {
        let t = match kind {
            Kind::Unit => Ty::Str,
            Kind::New(t) => t.clone(),
            Kind::Tup(ts) => Ty::Tup(ts.clone()),
            Kind::Struct(s) => Ty::Struct(s.clone()),
        };
        let v = val(&mut ctx.r, &t, false);
        let mut suited = els(&mut ctx.r, &t, &v, Some("post"));
        if suited.len() == 1 && count(&suited[0]) < 100 {
            post = suited.pop().unwrap();
            fs[1] = Field { name: "post", ty: Ty::Opt(Box::new(Ty::Ignored)), default: true };
            ctx.count("suited_neighbour");
        }
    }
    let t = match k {
        0 | 1 => {
            let t = if k == 0 { et.clone() } else { Ty::Opt(Box::new(et.clone())) };
            if me != "pre" && me != "post" {
                fs.push(f(me, t));
                e = e.with(vec![pre]);
                fld(&mut ctx.r, &mut e);
                e.kids.push(Kid { node: Node::El(post), glue: false });
            } else {
                return Ok(());
            }
            st(fs)
        }
        2 => {
            fld(&mut ctx.r, &mut e);
            Ty::Map(Box::new(et.clone()))
        }
        3 => {
            // '$value' text
            e.attrs.push(("pre".into(), Some("p".into())));
            e.attrs.push(("post".into(), Some("q".into())));
            e.kids.push(Kid { node: Node::Text(name.clone()), glue: false });
            fs.push(f("$value", et.clone()));
            st(fs)
        }
        _ => {
            if me == "pre" || me == "post" {
                return Ok(());
            }
            e = e.with(vec![pre]);
            let item = if element_too && !name.is_empty() && ctx.r.bool() { El::new(me).with(vec![El::new(&name)]) } else { El::text(me, name.clone()) };
            e.kids.push(Kid { node: Node::El(item), glue: false });
            e.kids.push(Kid { node: Node::El(post), glue: false });
            fs.push(f(me, Ty::Seq(Box::new(et.clone()))));
            st(fs)
        }
    };
    let (evs, _) = flat(&mut ctx.r, &e);
    ctx.input = shown(&t, &evs);
    if let Ok(g) = read(&mut ctx.r, &t, frag(&evs)) {
        return Err(format!("{:?} is no variant that can be given so, but was read as {:?}", name, g));
    }
    ctx.judged(Some(format!("{:?}{:?}", evs, t).as_bytes()));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C27

pub static C27: Check = Check {
    id: "C27",
    rule: "a document that spells a value of a random type whose structs ignore unknown fields; unknown attributes, whole unknown elements of any shape (nested, with names the target knows elsewhere or deeper, declarations and instructions inside) and text added between the fields at every level; the value must stay the same. Non-trivial = distinct documents with something added.",
    case: c27,
    quick: 1_200_000,
    thorough: 7_500_000,
    probes: &[("large", super::big::p27), ("deep-unknown", p27_deep)],
    need: &["added", "added_attributes", "added_elements", "added_text", "text_around_value", "known_names_inside"],
    assumptions: TRUST,
};

fn junk_name(r: &mut Rng, avoid: &[&str]) -> String {
    loop {
        if let Some(n) = crate::dict::static_name(r) {
            if !avoid.contains(&n) {
                return n.to_string();
            }
        }
        let n = match r.below(4) {
            0 => a_name(r).to_string(),
            1 => r.pick_str(VARIANTS_POOL).to_string(),
            2 => format!("{}x", r.pick_str(NAMES_POOL)),
            _ => r.pick_str(&["unknown", "aA", "B", "x:y", "É", "a.b", "Name", "VALUE"]).to_string(),
        };
        if !avoid.contains(&n.as_str()) {
            return n;
        }
    }
}

fn junk(r: &mut Rng, avoid: &[&str], depth: usize, inside: &mut u64) -> El {
    let mut e = El::new(&junk_name(r, avoid));
    e.read = false;
    for _ in 0..r.tail(1, 3) {
        e.attrs.push((junk_name(r, &[]), if r.bool() { Some(text(r, 3)) } else { None }));
    }
    for _ in 0..r.tail(1, 4) {
        let node = match r.below(6) {
            0 | 1 if depth > 0 => {
                // Its own name, names known around it, anything
                let mut k = junk(r, &[], depth - 1, inside);
                if r.chance(1, 4) {
                    k.tag = e.tag.clone();
                }
                if !avoid.is_empty() && r.chance(1, 2) {
                    k.tag = r.pick_str(avoid).replace('$', "");
                    *inside += 1;
                }
                Node::El(k)
            }
            2 => Node::Raw(match r.below(3) {
                0 => Ev::Pi("<?junk>".into()),
                1 => Ev::Decl("JUNK".into(), "a".into()),
                _ => Ev::Sect("CDATA".into(), "</a>".into()),
            }),
            _ => Node::Text(text(r, 4)),
        };
        e.kids.push(Kid { node, glue: false });
    }
    e
}

/// Adds unknown content everywhere it may stand. Returns what was added.
fn sprinkle(r: &mut Rng, e: &mut El, dense: bool, inside: &mut u64) -> [u64; 4] {
    let mut n = [0; 4];
    if !e.read {
        return n;
    }
    for k in &mut e.kids {
        if let Node::El(c) = &mut k.node {
            let m = sprinkle(r, c, dense, inside);
            for i in 0..4 {
                n[i] += m[i];
            }
        }
    }
    let p = if dense { 2 } else { 4 };
    let known: Vec<&str> = e.known.clone().unwrap_or_default();
    if e.more_attrs {
        while r.chance(1, p) {
            let at = r.below(e.attrs.len() + 1);
            e.attrs.insert(at, (junk_name(r, &known), if r.bool() { Some(text(r, 4)) } else { None }));
            n[0] += 1;
        }
    }
    if e.edge_text {
        for at in [e.kids.len(), 0] {
            while r.chance(1, p) {
                e.kids.insert(at, Kid { node: Node::Text(text(r, 4)), glue: false });
                n[2] += 1;
                n[3] += 1;
            }
        }
    }
    if e.more_kids {
        let mut kids = vec![];
        let old = std::mem::take(&mut e.kids);
        let last = old.len();
        for (i, k) in old.into_iter().map(Some).chain([None]).enumerate() {
            let glue = k.as_ref().map_or(false, |k| k.glue);
            if i <= last && !glue {
                while r.chance(1, p + 1) {
                    if r.chance(1, 3) {
                        kids.push(Kid { node: Node::Text(text(r, 4)), glue: false });
                        n[2] += 1;
                    } else {
                        kids.push(Kid { node: Node::El(junk(r, &known, 3, inside)), glue: false });
                        n[1] += 1;
                    }
                }
            }
            kids.extend(k);
        }
        e.kids = kids;
    }
    n
}

fn c27(ctx: &mut Ctx) -> V {
    let d = ctx.r.range(1, 4);
    let (t, v, e) = match made(&mut ctx.r, d) {
        Some(x) => x,
        None => return Ok(()),
    };
    let (evs, _) = flat(&mut ctx.r, &e);
    ctx.input = shown(&t, &evs);
    let got = read(&mut ctx.r, &t, frag(&evs));
    expect_val(&v, got)?;
    for _ in 0..3 {
        let mut x = e.clone();
        let dense = ctx.r.bool();
        let mut inside = 0;
        let n = sprinkle(&mut ctx.r, &mut x, dense, &mut inside);
        if n == [0; 4] {
            continue;
        }
        ctx.count("added");
        ctx.add("added_attributes", n[0]);
        ctx.add("added_elements", n[1]);
        ctx.add("added_text", n[2]);
        ctx.add("text_around_value", n[3]);
        ctx.add("known_names_inside", inside);
        let (evs, _) = flat(&mut ctx.r, &x);
        ctx.input = shown(&t, &evs);
        let got = read(&mut ctx.r, &t, frag(&evs));
        expect_val(&v, got).map_err(|m| format!("with unknown content added: {}", m))?;
        ctx.judged(Some(format!("{:?}", evs).as_bytes()));
    }
    Ok(())
}

/// Unknown elements of great depth and number.
fn p27_deep() -> V {
    #[derive(Deserialize, Debug, PartialEq)]
    struct S {
        a: String,
        b: Vec<u8>,
    }
    let mut v = vec![Ev::Open("r".into()), Ev::Close, Ev::Open("a".into()), Ev::Close, Ev::Char("A".into()), Ev::End("a".into())];
    for _ in 0..100_000 {
        v.push(Ev::Open("u".into()));
        v.push(Ev::Attr("a".into(), Some("no".into())));
        v.push(Ev::Close);
        v.push(Ev::Char("x".into()));
    }
    for _ in 0..100_000 {
        v.push(Ev::End("u".into()));
    }
    for i in 0..3 {
        v.extend([Ev::Open("b".into()), Ev::Close, Ev::Char(i.to_string()), Ev::End("b".into())]);
    }
    for _ in 0..100_000 {
        v.extend([Ev::Open("u".into()), Ev::Close, Ev::Open("a".into()), Ev::Close, Ev::Char("no".into()), Ev::End("a".into()), Ev::End("u".into())]);
    }
    v.push(Ev::End("r".into()));
    let s: S = frag(&v).deserialize().map_err(|e| e.to_string())?;
    if s != (S { a: "A".into(), b: vec![0, 1, 2] }) {
        return Err(format!("got {:?}", s));
    }
    Ok(())
}
