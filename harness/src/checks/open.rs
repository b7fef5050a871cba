//! C31: types that decide by the content.

use super::de::{made, read, shown, TRUST};
use crate::dy::*;
use crate::fw::*;
use crate::model::*;
use crate::rng::Rng;
use serde::Deserialize;
use sgmlish::de::DeserializationError;
use sgmlish::{Parser, SgmlFragment};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub static CHECKS: &[&Check] = &[&C31];

pub static C31: Check = Check {
    id: "C31",
    rule: "random element trees (attributes, text, mixed content, equal names) read as self-describing values, at the root and between typed neighbours (also in sequences, tuples, options, maps), compared with the tree; and random values read by detours (untagged, internally and adjacently tagged enums with the tag anywhere among the fields, flattened fields, serde_json) compared with the value. From events and from source text. Non-trivial = distinct documents with more than one element.",
    case: c31,
    quick: 700_000,
    thorough: 9_000_000,
    probes: &[("large", large)],
    need: &["tree", "embedded", "any_attribute", "any_sequence", "any_tuple", "mixed", "untagged", "internal", "adjacent", "content_first", "flattened", "json", "as_events", "as_source", "repeated_names"],
    assumptions: TRUST,
};

// ---------------------------------------------------------------------------------------------
// What a self-describing type is offered

fn tree(r: &mut Rng, depth: usize, tag: &str) -> El {
    let mut e = El::new(tag);
    if r.chance(1, 2) {
        for _ in 0..r.tail(1, 4) {
            let v = match r.below(4) {
                0 => None,
                _ => Some(text(r, 6)),
            };
            e.attrs.push((a_name(r).to_string(), v));
        }
    }
    let node = |node| Kid { node, glue: false };
    if depth > 0 && r.chance(2, 3) {
        let mixed = r.chance(1, 3);
        for _ in 0..r.tail(2, 6) {
            if mixed && r.bool() {
                e.kids.push(node(Node::Text(text(r, 4))));
            }
            let name = match e.kids.iter().rev().find_map(|k| if let Node::El(e) = &k.node { Some(e.tag.clone()) } else { None }) {
                Some(n) if r.chance(1, 3) => n,
                _ => a_name(r).to_string(),
            };
            let d = if r.chance(1, 8) { depth - 1 } else { r.below(depth) };
            e.kids.push(node(Node::El(tree(r, d, &name))));
        }
        if mixed && r.bool() {
            e.kids.push(node(Node::Text(text(r, 4))));
        }
    } else if r.chance(3, 4) {
        e.kids.push(node(Node::Text(text(r, 12))));
    }
    e
}

/// The attributes, then the child elements; the text only where there are none.
fn offered(e: &El) -> Val {
    let mut v: Vec<(String, Val)> = e.attrs.iter().map(|(n, v)| (n.clone(), Val::Str(v.clone().unwrap_or_default()))).collect();
    let mut txt = String::new();
    let mut els = false;
    for k in &e.kids {
        match &k.node {
            Node::El(c) => {
                els = true;
                v.push((c.tag.clone(), offered(c)));
            }
            Node::Text(s) => txt.push_str(s),
            Node::Raw(_) => {}
        }
    }
    if els {
        Val::Map(v)
    } else if v.is_empty() {
        Val::Str(txt)
    } else {
        v.push(("$value".into(), Val::Str(txt)));
        Val::Map(v)
    }
}

/// No content may be a unit or an empty text, and is then left out as `$value`.
fn canon(v: &Val) -> Val {
    match v {
        Val::Str(s) if s.is_empty() => Val::Unit,
        Val::Some(v) => Val::Some(Box::new(canon(v))),
        Val::New(v) => Val::New(Box::new(canon(v))),
        Val::Seq(v) => Val::Seq(v.iter().map(canon).collect()),
        Val::Rec(v) => Val::Rec(v.iter().map(canon).collect()),
        Val::Map(es) => Val::Map(
            es.iter()
                .map(|(k, v)| (k.clone(), canon(v)))
                .filter(|(k, v)| !(k == "$value" && *v == Val::Unit))
                .collect(),
        ),
        Val::Var(i, v) => Val::Var(*i, Box::new(canon(v))),
        v => v.clone(),
    }
}

fn names_of(e: &El, ctx: &mut Ctx) {
    let mut seen: Vec<&str> = vec![];
    let (mut t, mut c) = (false, false);
    for k in &e.kids {
        match &k.node {
            Node::El(e) => {
                c = true;
                if seen.contains(&e.tag.as_str()) {
                    ctx.count("repeated_names");
                }
                seen.push(&e.tag);
            }
            Node::Text(s) => t |= !s.is_empty(),
            Node::Raw(_) => {}
        }
    }
    if t && c {
        ctx.count("mixed");
    }
}

/// The element as events, or as source text through parser and normalization.
fn given(ctx: &mut Ctx, e: &El) -> Result<SgmlFragment<'static>, String> {
    if ctx.r.bool() {
        ctx.count("as_events");
        let mut evs = vec![];
        events(&mut ctx.r, e, true, &mut evs, &mut vec![]);
        ctx.input = format!("{}\nevents {:?}", frag(&evs), evs);
        Ok(frag(&evs))
    } else {
        ctx.count("as_source");
        let mut s = String::new();
        source(&mut ctx.r, e, &mut vec![], &mut s);
        ctx.input = s.clone();
        let f = Parser::new().parse(&s).map_err(|e| format!("does not parse: {}", e))?;
        Ok(sgmlish::transforms::normalize_end_tags(f).map_err(|e| format!("cannot be normalized: {}", e))?.into_owned())
    }
}

fn compare(want: &Val, got: Result<Val, DeserializationError>) -> V {
    match got {
        Ok(g) if canon(&g) == canon(want) => Ok(()),
        Ok(g) => Err(format!("expected {:?}\ngot {:?}", want, g)),
        Err(e) => Err(format!("expected {:?}\ngot error {} ({:?})", want, e, e)),
    }
}

fn depth_of(r: &mut Rng, thorough: bool) -> usize {
    r.range(0, if thorough { 5 } else { 3 })
}

fn self_describing(ctx: &mut Ctx) -> V {
    let d = depth_of(&mut ctx.r, ctx.thorough);
    if ctx.r.chance(1, 3) {
        let tag = a_name(&mut ctx.r);
        let e = tree(&mut ctx.r, d, tag);
        names_of(&e, ctx);
        ctx.count("tree");
        let want = offered(&e);
        let f = given(ctx, &e)?;
        let key = ctx.input.clone();
        if ctx.r.bool() {
            compare(&want, read(&mut ctx.r, &Ty::Any, f))?;
        } else {
            ctx.count("json");
            let got: serde_json::Value = f.deserialize().map_err(|e| format!("expected {:?}\ngot error {}", want, e))?;
            json(&want, &got).map_err(|at| format!("at {}: expected {:?}\ngot {}", at, want, got))?;
        }
        ctx.judged(if count(&e) > 1 { Some(key.as_bytes()) } else { None });
        return Ok(());
    }
    // Between typed neighbours
    ctx.count("embedded");
    let r = &mut ctx.r;
    let n = r.range(1, 4);
    let mut fields = vec![];
    let mut vals = vec![];
    let mut root = El::new("root");
    let mut groups: Vec<Vec<Kid>> = vec![];
    let kid = |e: El| Kid { node: Node::El(e), glue: false };
    let mut seen = vec![];
    for name in names(r, NAMES_POOL, n) {
        let any = |r: &mut Rng, g: &mut Vec<Kid>| {
            let k = r.below(d + 1);
            let e = tree(r, k, name);
            let v = offered(&e);
            g.push(kid(e));
            v
        };
        let mut g = vec![];
        let (ty, v) = match r.below(9) {
            0 => {
                let s = if r.chance(1, 4) { None } else { Some(text(r, 8)) };
                root.attrs.push((name.to_string(), s.clone()));
                seen.push("any_attribute");
                (Ty::Any, Val::Str(s.unwrap_or_default()))
            }
            1 | 2 => (Ty::Any, any(r, &mut g)),
            3 => (Ty::Opt(Box::new(Ty::Any)), Val::Some(Box::new(any(r, &mut g)))),
            4 => {
                seen.push("any_sequence");
                let n = r.tail(2, 5).max(1);
                (Ty::Seq(Box::new(Ty::Any)), Val::Seq((0..n).map(|_| any(r, &mut g)).collect()))
            }
            5 => {
                seen.push("any_tuple");
                let n = r.range(1, 3);
                (Ty::Tup(vec![Ty::Any; n]), Val::Rec((0..n).map(|_| any(r, &mut g)).collect()))
            }
            6 => {
                // A map with such values; names stay apart, as the last of equal ones wins
                let mut m = El::new(name);
                let mut es = vec![];
                let n = r.below(4);
                for k in names(r, NAMES_POOL, n) {
                    if r.chance(1, 4) {
                        let s = text(r, 5);
                        m.attrs.push((k.to_string(), Some(s.clone())));
                        es.push((k.to_string(), Val::Str(s)));
                    } else {
                        let d = r.below(d + 1);
                        let e = tree(r, d, k);
                        es.push((k.to_string(), offered(&e)));
                        m.kids.push(kid(e));
                    }
                }
                es.sort_by(|a, b| a.0.cmp(&b.0));
                g.push(kid(m));
                (Ty::Map(Box::new(Ty::Any)), Val::Map(es))
            }
            7 => {
                let (a, b) = (any(r, &mut g), Ty::New(Box::new(Ty::Any)));
                (b, Val::New(Box::new(a)))
            }
            _ => {
                let d = r.below(3);
                let t = ty(r, d, Pos::Field);
                let v = val(r, &t, true);
                let es = els(r, &t, &v, Some(name));
                // What is left out has a default
                if es.is_empty() && !(matches!(t, Ty::Opt(_)) && v == Val::None) {
                    continue;
                }
                if es.iter().map(count).sum::<usize>() > 200 {
                    continue;
                }
                for (i, e) in es.into_iter().enumerate() {
                    g.push(Kid { node: Node::El(e), glue: i > 0 });
                }
                (t, v)
            }
        };
        fields.push(Field { name, ty, default: false });
        vals.push(v);
        let at = r.below(groups.len() + 1);
        groups.insert(at, g);
    }
    root.kids = groups.into_iter().flatten().collect();
    for k in seen {
        ctx.count(k);
    }
    names_of(&root, ctx);
    let t = Ty::Struct(St { fields, deny: false });
    let f = given(ctx, &root)?;
    ctx.input = format!("{}\ntype {:?}", ctx.input, t);
    let key = ctx.input.clone();
    compare(&Val::Rec(vals), read(&mut ctx.r, &t, f))?;
    ctx.judged(if count(&root) > 1 { Some(key.as_bytes()) } else { None });
    Ok(())
}

/// As a JSON object: the last of equal names stays.
fn json(want: &Val, got: &serde_json::Value) -> Result<(), String> {
    use serde_json::Value as J;
    let fits = match (canon(want), got) {
        (Val::Unit, J::Null) => true,
        (Val::Unit, J::String(s)) => s.is_empty(),
        (Val::Str(s), J::String(t)) => s == *t,
        (Val::Map(es), J::Object(o)) => {
            let m: BTreeMap<&String, &Val> = es.iter().map(|(k, v)| (k, v)).collect();
            for (k, v) in &m {
                json(v, o.get(*k).unwrap_or(&J::Null)).map_err(|e| format!("{}.{}", k, e))?;
            }
            o.iter().all(|(k, v)| m.contains_key(k) || (k == "$value" && (v == "" || v.is_null())))
        }
        _ => false,
    };
    if fits {
        Ok(())
    } else {
        Err(String::new())
    }
}

// ---------------------------------------------------------------------------------------------
// Detours

thread_local! {
    static CUR: RefCell<[Option<Rc<Ty>>; 2]> = const { RefCell::new([None, None]) };
}
#[derive(Debug)]
struct Dyn<const N: usize>(Val);
impl<'de, const N: usize> Deserialize<'de> for Dyn<N> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let t = CUR.with(|c| c.borrow()[N].clone()).expect("current type");
        serde::de::DeserializeSeed::deserialize(Seed(&t), d).map(Dyn)
    }
}

#[derive(Deserialize, Debug)]
#[serde(untagged)]
enum Untagged {
    #[allow(dead_code)]
    Number(u64),
    #[allow(dead_code)]
    Pair(Box<[Dyn<0>; 2]>),
    Value(Dyn<0>),
}
#[derive(Deserialize, Debug)]
#[serde(tag = "kind")]
enum Internal {
    A(Dyn<0>),
    B(Dyn<1>),
}
#[derive(Deserialize, Debug)]
#[serde(tag = "t", content = "c")]
enum Adjacent {
    A(Dyn<0>),
    B(Dyn<1>),
    None,
}
#[derive(Deserialize, Debug)]
struct Flat {
    own: String,
    #[serde(flatten)]
    rest: Dyn<0>,
    #[serde(default)]
    other: Option<Box<str>>,
}
#[derive(Deserialize, Debug)]
struct Around<T> {
    #[serde(default)]
    first: Vec<String>,
    w: T,
    #[serde(default)]
    last: Option<String>,
}

/// Types whose values stay what they are when they are kept for later: their scalars are texts.
fn soft(r: &mut Rng, depth: usize) -> Ty {
    match r.below(if depth == 0 { 5 } else { 10 }) {
        0 | 1 => Ty::Str,
        2 => Ty::Char,
        3 => unit_enum(r),
        4 => match soft(r, depth.saturating_sub(1)) {
            Ty::Opt(t) => Ty::Opt(t),
            t => Ty::New(Box::new(t)),
        },
        5 => match soft(r, depth - 1) {
            Ty::Opt(t) => Ty::Opt(t),
            t => Ty::Opt(Box::new(t)),
        },
        6 => {
            let t = match soft(r, depth - 1) {
                Ty::Opt(t) => *t,
                t => t,
            };
            Ty::Map(Box::new(t))
        }
        7 => {
            let n = r.range(1, 3);
            Ty::Enum(En {
                variants: names(r, VARIANTS_POOL, n)
                    .into_iter()
                    .map(|n| {
                        let k = match r.below(3) {
                            0 => Kind::Unit,
                            1 => Kind::New(soft(r, depth - 1)),
                            _ => Kind::Struct(soft_struct(r, depth - 1)),
                        };
                        (n, k)
                    })
                    .collect(),
            })
        }
        _ => Ty::Struct(soft_struct(r, depth - 1)),
    }
}

fn soft_struct(r: &mut Rng, depth: usize) -> St {
    let n = r.range(1, 4);
    let value = r.chance(1, 5);
    let mut fields: Vec<Field> = names(r, NAMES_POOL, n)
        .into_iter()
        .map(|name| Field { name, ty: if value { if r.bool() { Ty::Str } else { unit_enum(r) } } else { soft(r, depth) }, default: false })
        .collect();
    if value {
        fields.push(Field { name: "$value", ty: Ty::Str, default: false });
    }
    St { fields, deny: false }
}

/// Every element has something that shows what it is.
fn solid(t: &Ty, e: &El) -> bool {
    fn filled(e: &El) -> bool {
        let text = e.kids.iter().any(|k| matches!(&k.node, Node::Text(s) if !s.is_empty()));
        let els = e.kids.iter().any(|k| matches!(&k.node, Node::El(_)));
        if !e.read {
            // A variant without data
            return e.kids.is_empty();
        }
        (text || els || !e.attrs.is_empty()) && !(text && els) && e.kids.iter().all(|k| if let Node::El(c) = &k.node { filled(c) } else { true })
    }
    filled(e) && fits(t, e)
}

/// Attributes alone come with an empty `$value`, which only a map would notice.
fn fits(t: &Ty, e: &El) -> bool {
    fn has_map(t: &Ty) -> bool {
        match t {
            Ty::Map(_) => true,
            Ty::Opt(t) | Ty::New(t) | Ty::Seq(t) => has_map(t),
            Ty::Tup(ts) => ts.iter().any(has_map),
            Ty::Struct(s) => s.fields.iter().any(|f| has_map(&f.ty)),
            Ty::Enum(e) => e.variants.iter().any(|v| match &v.1 {
                Kind::New(t) => has_map(t),
                Kind::Struct(s) => s.fields.iter().any(|f| has_map(&f.ty)),
                _ => false,
            }),
            _ => false,
        }
    }
    fn bare(e: &El) -> bool {
        !e.attrs.is_empty() && !e.kids.iter().any(|k| matches!(k.node, Node::El(_))) || e.kids.iter().any(|k| if let Node::El(c) = &k.node { bare(c) } else { false })
    }
    // `$value` is only told by attributes beside it
    fn lone(e: &El, t: &Ty) -> bool {
        let _ = t;
        e.known.as_ref().map_or(false, |k| k.contains(&"$value") && e.attrs.is_empty())
            || e.kids.iter().any(|k| if let Node::El(c) = &k.node { lone(c, t) } else { false })
    }
    !(has_map(t) && bare(e)) && !lone(e, t)
}

fn soft_made(r: &mut Rng, tag: &str, composite: bool) -> Option<(Ty, Val, El)> {
    for _ in 0..20 {
        let d = r.range(1, 3);
        let t = if composite {
            if r.chance(1, 4) {
                Ty::Map(Box::new(Ty::Str))
            } else {
                Ty::Struct(soft_struct(r, d))
            }
        } else {
            soft(r, d)
        };
        let v = val(r, &t, false);
        let mut es = els(r, &t, &v, Some(tag));
        if es.len() != 1 {
            continue;
        }
        let e = es.pop().unwrap();
        if solid(&t, &e) && count(&e) < 200 {
            return Some((t, v, e));
        }
    }
    None
}

fn set(n: usize, t: &Ty) {
    CUR.with(|c| c.borrow_mut()[n] = Some(Rc::new(t.clone())));
}

/// Puts the text in as an attribute or as a child element, anywhere.
fn put(r: &mut Rng, e: &mut El, name: &str, s: &str, attr: bool) {
    if attr {
        let at = r.below(e.attrs.len() + 1);
        e.attrs.insert(at, (name.into(), Some(s.into())));
    } else {
        // Not into a run
        let places: Vec<usize> = (0..=e.kids.len()).filter(|&i| i == e.kids.len() || !e.kids[i].glue).collect();
        let at = *r.pick(&places);
        e.kids.insert(at, Kid { node: Node::El(El::text(name, s.into())), glue: false });
    }
}

fn c31(ctx: &mut Ctx) -> V {
    if ctx.r.chance(1, 2) {
        return self_describing(ctx);
    }
    let kind = ctx.r.below(4);
    let r = &mut ctx.r;
    // The element of the wrapped value, and how to know it again
    let (w, want): (El, String) = match kind {
        0 => {
            let (t, v, e) = match soft_made(r, "w", false) {
                Some(x) => x,
                None => return Ok(()),
            };
            set(0, &t);
            // Also fits as a lone variant of the others
            (e, format!("{:?}", Untagged::Value(Dyn(v))))
        }
        1 => {
            let (t, v, mut e) = match soft_made(r, "w", true) {
                Some(x) => x,
                None => return Ok(()),
            };
            if e.attrs.iter().any(|a| a.0 == "kind") || e.kids.iter().any(|k| matches!(&k.node, Node::El(e) if e.tag == "kind")) {
                return Ok(());
            }
            let b = r.bool();
            set(b as usize, &t);
            set(!b as usize, &Ty::Unit);
            // Beside text, it can only be an attribute
            let attr = e.kids.iter().any(|k| matches!(k.node, Node::Text(_))) || r.bool();
            if attr && matches!(t, Ty::Map(_)) && e.kids.is_empty() {
                return Ok(());
            }
            put(r, &mut e, "kind", if b { "B" } else { "A" }, attr);
            (e, if b { format!("{:?}", Internal::B(Dyn(v))) } else { format!("{:?}", Internal::A(Dyn(v))) })
        }
        2 => {
            let mut e = El::new("w");
            let b = r.bool();
            if r.chance(1, 10) {
                let attr = r.bool();
                put(r, &mut e, "t", "None", attr);
                (e, format!("{:?}", Adjacent::None))
            } else if r.bool() {
                // The tag comes first: read at once, so any type will do
                let d = r.range(0, 3);
                let t = ty(r, d, Pos::Field);
                let v = val(r, &t, false);
                let es = els(r, &t, &v, Some("c"));
                if es.is_empty() || es.iter().map(count).sum::<usize>() > 200 {
                    return Ok(());
                }
                set(b as usize, &t);
                set(!b as usize, &Ty::Unit);
                let attr = r.bool();
                put(r, &mut e, "t", if b { "B" } else { "A" }, attr);
                e = e.with(es);
                (e, if b { format!("{:?}", Adjacent::B(Dyn(v))) } else { format!("{:?}", Adjacent::A(Dyn(v))) })
            } else {
                let (t, v, c) = match soft_made(r, "c", false) {
                    Some(x) => x,
                    None => return Ok(()),
                };
                set(b as usize, &t);
                set(!b as usize, &Ty::Unit);
                e.kids.push(Kid { node: Node::El(c), glue: false });
                e.kids.push(Kid { node: Node::El(El::text("t", if b { "B" } else { "A" }.into())), glue: false });
                *ctx.counts.entry("content_first").or_insert(0) += 1;
                (e, if b { format!("{:?}", Adjacent::B(Dyn(v))) } else { format!("{:?}", Adjacent::A(Dyn(v))) })
            }
        }
        _ => {
            let (t, mut v, mut e) = match soft_made(r, "w", true) {
                Some(x) => x,
                None => return Ok(()),
            };
            let has = |e: &El, n: &str| e.attrs.iter().any(|a| a.0 == n) || e.kids.iter().any(|k| matches!(&k.node, Node::El(e) if e.tag == n));
            if has(&e, "own") || has(&e, "other") || matches!(&t, Ty::Struct(s) if s.has_value()) {
                return Ok(());
            }
            set(0, &t);
            let own = format!("o{}", text(r, 5));
            let attr = r.bool();
            put(r, &mut e, "own", &own, attr);
            let other = if r.bool() { Some(format!("o{}", text(r, 5))) } else { None };
            if let Some(s) = &other {
                let attr = r.bool();
                put(r, &mut e, "other", s, attr);
            }
            // Names unknown to a struct go nowhere
            if matches!(t, Ty::Struct(_)) && !has(&e, "unknown") && r.chance(1, 3) {
                let attr = r.bool();
                put(r, &mut e, "unknown", "x", attr);
            }
            if let Val::Map(es) = &mut v {
                es.sort_by(|a, b| a.0.cmp(&b.0));
            }
            (e, format!("{:?}", Flat { own, rest: Dyn(v), other: other.map(|s| s.into_boxed_str()) }))
        }
    };
    let mut root = El::new("root");
    let first: Vec<String> = (0..r.below(3)).map(|_| text(r, 4)).collect();
    let last = if r.bool() { Some(text(r, 4)) } else { None };
    let run: Vec<El> = first.iter().map(|s| El::text("first", s.clone())).collect();
    let mut groups: Vec<Vec<El>> = vec![run, vec![w]];
    if r.bool() {
        groups.swap(0, 1);
    }
    match &last {
        Some(s) if r.bool() => root.attrs.push(("last".into(), Some(s.clone()))),
        Some(s) => {
            let at = r.below(3);
            groups.insert(at, vec![El::text("last", s.clone())]);
        }
        None => {}
    }
    root = groups.into_iter().fold(root, |e, g| e.with(g));
    let f = given(ctx, &root)?;
    ctx.input = format!("{}\ntypes {:?}", ctx.input, CUR.with(|c| c.borrow().clone()));
    let key = ctx.input.clone();
    fn check<T: std::fmt::Debug + for<'a> Deserialize<'a>>(f: SgmlFragment, want: &str, first: &[String], last: &Option<String>) -> V {
        match f.deserialize::<Around<T>>() {
            Ok(a) if format!("{:?}", a.w) == want && a.first == first && a.last == *last => Ok(()),
            Ok(a) => Err(format!("expected {:?} {} {:?}\ngot {:?}", first, want, last, a)),
            Err(e) => Err(format!("expected {:?} {} {:?}\ngot error {}", first, want, last, e)),
        }
    }
    match kind {
        0 => {
            ctx.count("untagged");
            check::<Untagged>(f, &want, &first, &last)?;
        }
        1 => {
            ctx.count("internal");
            check::<Internal>(f, &want, &first, &last)?;
        }
        2 => {
            ctx.count("adjacent");
            check::<Adjacent>(f, &want, &first, &last)?;
        }
        _ => {
            ctx.count("flattened");
            check::<Flat>(f, &want, &first, &last)?;
        }
    }
    ctx.judged(Some(key.as_bytes()));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Large

fn large() -> V {
    let _ = (made as fn(&mut Rng, usize) -> _, shown as fn(&Ty, &[Ev]) -> _);
    for n in [1usize, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 4095, 4097, 65535, 65536, 65537] {
        let r = &mut Rng::new(n as u64);
        let mut all = vec![];
        // Attributes before content
        let mut e = El::new("r");
        e.attrs = (0..n).map(|i| (format!("a{}", i), Some(i.to_string()))).collect();
        all.push(("attributes", e.clone()));
        e.kids.push(Kid { node: Node::Text("t".into()), glue: false });
        all.push(("attributes and text", e.clone()));
        e.kids = vec![Kid { node: Node::El(El::text("k", "v".into())), glue: false }];
        all.push(("attributes and a child", e));
        all.push(("children", El::new("r").with((0..n).map(|i| El::text("k", i.to_string())).collect())));
        all.push(("children and text", {
            let mut e = El::new("r");
            for i in 0..n.min(5000) {
                e.kids.push(Kid { node: Node::Text(format!("t{}", i)), glue: false });
            }
            e.kids.push(Kid { node: Node::El(El::text("k", "v".into())), glue: false });
            e
        }));
        all.push(("text in pieces", {
            let mut e = El::new("r");
            for i in 0..n.min(5000) {
                e.kids.push(Kid { node: Node::Text(format!("t{}", i)), glue: false });
            }
            e
        }));
        all.push(("long text", El::text("r", "x".repeat(n))));
        if n <= 256 {
            let mut e = El::text("e", "inner".into());
            for i in 0..n {
                e = El::new(&format!("l{}", i)).with(vec![e]);
            }
            all.push(("levels", e));
        }
        for (what, e) in all {
            let mut evs = vec![];
            events(r, &e, true, &mut evs, &mut vec![]);
            let want = offered(&e);
            compare(&want, read(r, &Ty::Any, frag(&evs))).map_err(|m| format!("{} {}: {}", n, what, short(&m, 1000)))?;
        }
    }
    Ok(())
}
