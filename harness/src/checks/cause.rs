//! What errors say.

use super::de::{made, read, shown, TRUST};
use super::frag::tree;
use super::merge;
use crate::dy::*;
use crate::fw::*;
use crate::model::*;
use crate::rng::Rng;
use sgmlish::de::DeserializationError as E;
use sgmlish::transforms::{normalize_end_tags, NormalizationError};

pub static CHECKS: &[&Check] = &[&C29];

pub static C29: Check = Check {
    id: "C29",
    rule: "a document that spells a value of a random type, with one fault: an end tag under another name, a cut at any point, a number, boolean or character with a text that is none (element, attribute, or '$value'), an absent field, or an unknown variant; the error must be of that kind and carry the tags, or the very error the standard library gives for the text, and its message must name the tags, cause, text, field or variant. Balanced and unbalanced event lists with one end tag that was never opened, or one empty tag: normalization must name it. Non-trivial = distinct faulty fragments.",
    case: c29,
    quick: 2_000_000,
    thorough: 16_000_000,
    probes: &[],
    need: &["mismatch", "cut", "boolean", "character", "missing_field", "unknown_variant", "integer", "float", "integer_in_attribute", "integer_in_list", "unpaired", "empty_tag", "wrapped"],
    assumptions: TRUST,
};

/// The type with one number in it taken as text, and the value with that text; or none.
fn retype(r: &mut Rng, t: &Ty, v: &Val, pick: &mut usize, bad: &mut Option<(Ty, String)>) -> (Ty, Val) {
    match (t, v) {
        (Ty::Int(..) | Ty::F32 | Ty::F64 | Ty::Bool | Ty::Char, _) => {
            if *pick > 0 {
                *pick -= 1;
                return (t.clone(), v.clone());
            }
            if bad.is_some() {
                return (t.clone(), v.clone());
            }
            let s = bad_number(r, t);
            *bad = Some((t.clone(), s.clone()));
            (Ty::Str, Val::Str(s))
        }
        (Ty::Opt(a), Val::Some(b)) => {
            let (a, b) = retype(r, a, b, pick, bad);
            (Ty::Opt(Box::new(a)), Val::Some(Box::new(b)))
        }
        (Ty::New(a), Val::New(b)) => {
            let (a, b) = retype(r, a, b, pick, bad);
            (Ty::New(Box::new(a)), Val::New(Box::new(b)))
        }
        // One item changes the type of all: only lists of numbers
        (Ty::Seq(a), Val::Seq(vs)) if matches!(**a, Ty::Int(..)) && !vs.is_empty() && bad.is_none() => {
            if *pick > 0 {
                *pick -= 1;
                return (t.clone(), v.clone());
            }
            let s = bad_number(r, a);
            let mut all: Vec<Val> = vs.iter().map(|v| Val::Str(if let Val::Int(i) = v { i.to_string() } else { String::new() })).collect();
            let at = r.below(all.len());
            all[at] = Val::Str(s.clone());
            *bad = Some(((**a).clone(), s));
            (Ty::Seq(Box::new(Ty::Str)), Val::Seq(all))
        }
        (Ty::Tup(ts), Val::Rec(vs)) => {
            let (a, b) = ts.iter().zip(vs).map(|(t, v)| retype(r, t, v, pick, bad)).unzip();
            (Ty::Tup(a), Val::Rec(b))
        }
        (Ty::Struct(s), Val::Rec(vs)) => {
            let (a, b): (Vec<Ty>, Vec<Val>) = s.fields.iter().zip(vs).map(|(f, v)| retype(r, &f.ty, v, pick, bad)).unzip();
            let fields = s.fields.iter().zip(a).map(|(f, ty)| Field { ty, ..f.clone() }).collect();
            (Ty::Struct(St { fields, deny: s.deny }), Val::Rec(b))
        }
        _ => (t.clone(), v.clone()),
    }
}

fn bad_number(r: &mut Rng, t: &Ty) -> String {
    if matches!(t, Ty::Bool | Ty::Char) && r.chance(1, 3) {
        // Any other text, often long
        let unit = crate::soup::random_text(r, 12);
        let s = if r.bool() { unit } else { unit.repeat(1 + crate::gen::magnitude(r, 100)) };
        let low = s.to_lowercase();
        let valid = match t {
            Ty::Bool => matches!(low.as_str(), "true" | "false" | "0" | "1") || NAMES_POOL.iter().any(|n| n.to_lowercase() == low),
            _ => s.chars().count() == 1,
        };
        if !valid && !s.is_empty() {
            return s;
        }
    }
    match t {
        Ty::Bool => return r.pick_str(&["2", "maybe", "01", "tru", "true ", "-0", "t\"f", "\u{ff54}rue"]).to_string(),
        Ty::Char => return r.pick_str(&["ab", "é\u{301}", "  ", "\r\n", "👍👍", "&#1"]).to_string(),
        _ => {}
    }
    loop {
        let s = match r.below(16) {
            // Just out of range, or not at all
            12 => {
                let n = *r.pick(&[8u32, 16, 32, 64, 7, 15, 31, 63]);
                let x = (1i128 << n) + r.below(3) as i128 - 1;
                if r.bool() { x.to_string() } else { (-x).to_string() }
            }
            // Long
            13 => {
                let n = crate::gen::magnitude(r, 400);
                format!("{}{}", r.pick_str(&["", "-", "+", "x"]), r.pick_str(&["9", "1", "0", "12", " "]).repeat(n))
            }
            14 => format!("{}{}", r.pick_str(&["", "-", "1", "\u{661}"]), r.pick_str(&["", " ", "-", "_", ".", "..", "e5e", "\u{a0}", "\0"])),
            15 => format!("{}{}{}", r.below(300), r.pick_str(&[" ", "\n", "_", "u8", ";", ",", "'", ".0.", "\u{2009}"]), r.below(300)),
            0 => "x".to_string(),
            1 => "1x".to_string(),
            2 => "99999999999999999999999999".to_string(),
            3 => "-99999999999999999999999999".to_string(),
            4 => "1.5".to_string(),
            5 => "256".to_string(),
            6 => "-1".to_string(),
            7 => "0x10".to_string(),
            8 => "1,000".to_string(),
            9 => "+".to_string(),
            10 => "1e".to_string(),
            _ => "é1".to_string(),
        };
        // With an empty text, a field with a default may be left out
        if !s.is_empty() && fault(t, &s).is_some() {
            return s;
        }
    }
}

/// What the standard library says of the text.
fn fault(t: &Ty, s: &str) -> Option<String> {
    macro_rules! e {
        ($t:ty) => {
            s.parse::<$t>().err().map(|e| format!("{:?}", e))
        };
    }
    match t {
        Ty::Int(8, true) => e!(i8),
        Ty::Int(16, true) => e!(i16),
        Ty::Int(32, true) => e!(i32),
        Ty::Int(64, true) => e!(i64),
        Ty::Int(8, false) => e!(u8),
        Ty::Int(16, false) => e!(u16),
        Ty::Int(32, false) => e!(u32),
        Ty::Int(64, false) => e!(u64),
        Ty::F32 => e!(f32),
        Ty::F64 => e!(f64),
        _ => Some("harness: no number".into()),
    }
}

/// The type changed so that the value does not fit it in one place, and what the error must name.
fn misfit(r: &mut Rng, t: &Ty, v: &Val, pick: &mut usize) -> Option<(Ty, String)> {
    let mut here = || {
        *pick = pick.wrapping_sub(1);
        *pick == usize::MAX
    };
    let fields = |s: &St| {
        let mut s = s.clone();
        s.fields.push(Field { name: "absent_one", ty: Ty::Str, default: false });
        (s, "absent_one".to_string())
    };
    match (t, v) {
        (Ty::Struct(s), Val::Rec(vs)) => {
            if here() {
                let (s, w) = fields(s);
                return Some((Ty::Struct(s), w));
            }
            let k = r.below(s.fields.len().max(1));
            let (f, v) = (s.fields.get(k)?, vs.get(k)?);
            if f.default && *v == default_of(&f.ty) {
                // May be left out
                return None;
            }
            let (ty, w) = misfit(r, &f.ty, v, pick)?;
            let mut s = s.clone();
            s.fields[k].ty = ty;
            Some((Ty::Struct(s), w))
        }
        (Ty::Enum(e), Val::Var(i, d)) => {
            if here() {
                let old = e.variants[*i].0;
                let mut e = e.clone();
                e.variants[*i].0 = "gone";
                return if e.variants.iter().any(|v| v.0 == old) || old == "gone" { None } else { Some((Ty::Enum(e), old.to_string())) };
            }
            let mut e = e.clone();
            let w;
            match (&e.variants[*i].1, &**d) {
                (Kind::New(t), d) => {
                    let (t, x) = misfit(r, t, d, pick)?;
                    w = x;
                    e.variants[*i].1 = Kind::New(t);
                }
                (Kind::Struct(s), d) => {
                    let (t, x) = misfit(r, &Ty::Struct(s.clone()), d, pick)?;
                    w = x;
                    e.variants[*i].1 = match t {
                        Ty::Struct(s) => Kind::Struct(s),
                        _ => unreachable!(),
                    };
                }
                _ => return None,
            }
            Some((Ty::Enum(e), w))
        }
        (Ty::Opt(a), Val::Some(b)) => misfit(r, a, b, pick).map(|x| (Ty::Opt(Box::new(x.0)), x.1)),
        (Ty::New(a), Val::New(b)) => misfit(r, a, b, pick).map(|x| (Ty::New(Box::new(x.0)), x.1)),
        (Ty::Seq(a), Val::Seq(vs)) => {
            let v = vs.first()?;
            misfit(r, a, v, pick).map(|x| (Ty::Seq(Box::new(x.0)), x.1))
        }
        (Ty::Map(a), Val::Map(vs)) if vs.len() == 1 => misfit(r, a, &vs[0].1, pick).map(|x| (Ty::Map(Box::new(x.0)), x.1)),
        (Ty::Tup(ts), Val::Rec(vs)) => {
            let k = r.below(ts.len().max(1));
            let (t, v) = (ts.get(k)?, vs.get(k)?);
            let (t, w) = misfit(r, t, v, pick)?;
            let mut ts = ts.clone();
            ts[k] = t;
            Some((Ty::Tup(ts), w))
        }
        _ => None,
    }
}

fn c29(ctx: &mut Ctx) -> V {
    if ctx.r.chance(1, 4) {
        return normalization(ctx);
    }
    let d = ctx.r.range(1, 4);
    let (t, v, e) = match made(&mut ctx.r, d) {
        Some(x) => x,
        None => return Ok(()),
    };
    if ctx.r.chance(1, 3) {
        let mut pick = ctx.r.below(4);
        let mut bad = None;
        let (t2, v2) = retype(&mut ctx.r, &t, &v, &mut pick, &mut bad);
        let (nt, text) = match bad {
            Some(b) => b,
            None => return Ok(()),
        };
        let mut es = els(&mut ctx.r, &t2, &v2, None);
        if es.len() != 1 || count(&es[0]) > 300 {
            return Ok(());
        }
        let mut evs = vec![];
        events(&mut ctx.r, &es.pop().unwrap(), true, &mut evs, &mut vec![]);
        let evs = if ctx.r.bool() { merge(&evs) } else { evs };
        ctx.input = shown(&t, &evs);
        if matches!(nt, Ty::Bool | Ty::Char) {
            match read(&mut ctx.r, &t, frag(&evs)) {
                Err(E::Message(m)) if m.contains(&format!("{:?}", text)) => {}
                x => return Err(format!("{:?} as {:?} was reported as {:?}", text, nt, x)),
            }
            ctx.count(if nt == Ty::Bool { "boolean" } else { "character" });
            ctx.judged(Some(format!("{:?}{:?}", evs, t).as_bytes()));
            return Ok(());
        }
        let want = fault(&nt, &text).unwrap();
        let (got, shows, float) = match read(&mut ctx.r, &t, frag(&evs)) {
            Ok(g) => return Err(format!("{:?} as {:?} was read as {:?}", text, nt, g)),
            Err(e @ E::ParseIntError { .. }) => {
                let m = e.to_string();
                let E::ParseIntError { source } = e else { unreachable!() };
                (format!("{:?}", source), m.contains(&source.to_string()), false)
            }
            Err(e @ E::ParseFloatError { .. }) => {
                let m = e.to_string();
                let E::ParseFloatError { source } = e else { unreachable!() };
                (format!("{:?}", source), m.contains(&source.to_string()), true)
            }
            Err(e) => return Err(format!("{:?} as {:?} was reported as {:?}", text, nt, e)),
        };
        if got != want || float != matches!(nt, Ty::F32 | Ty::F64) {
            return Err(format!("{:?} as {:?} was reported as {}, expected {}", text, nt, got, want));
        }
        if !shows {
            return Err("the message does not say what is wrong with the number".into());
        }
        ctx.count(if float { "float" } else { "integer" });
        if evs.iter().any(|e| matches!(e, Ev::Attr(_, Some(s)) if *s == text)) {
            ctx.count("integer_in_attribute");
        }
        if t2 != t && format!("{:?}", t2).contains("Seq(Str)") {
            ctx.count("integer_in_list");
        }
        ctx.judged(Some(format!("{:?}{:?}", evs, t).as_bytes()));
        return Ok(());
    }
    let mut evs = vec![];
    events(&mut ctx.r, &e, true, &mut evs, &mut vec![]);
    if ctx.r.chance(1, 3) {
        let mut pick = ctx.r.below(3);
        let Some((t, name)) = misfit(&mut ctx.r, &t, &v, &mut pick) else { return Ok(()) };
        ctx.input = shown(&t, &evs);
        let absent = name == "absent_one";
        match read(&mut ctx.r, &t, frag(&evs)) {
            Err(E::Message(m)) if m.contains(&format!("`{}`", name)) && m.contains(if absent { "missing" } else { "variant" }) => {}
            x => return Err(format!("{} {:?} was reported as {:?}", if absent { "the missing field" } else { "the unknown variant" }, name, x)),
        }
        ctx.count(if absent { "missing_field" } else { "unknown_variant" });
    } else if ctx.r.bool() {
        let ends: Vec<usize> = (0..evs.len()).filter(|&i| matches!(evs[i], Ev::End(_))).collect();
        let i = *ctx.r.pick(&ends);
        let old = if let Ev::End(n) = &evs[i] { n.clone() } else { unreachable!() };
        let new = match ctx.r.below(9) {
            8 => {
                let n = 1 + crate::gen::magnitude(&mut ctx.r, 100);
                format!("{}{}", old, ctx.r.pick_str(&["x", "-1", "é", "a.b:c"]).repeat(n))
            }
            0 | 4 => old.to_uppercase(),
            1 | 5 => format!("{}x", old),
            2 | 6 => e.tag.clone(),
            _ => a_name(&mut ctx.r).to_string(),
        };
        if new == old {
            return Ok(());
        }
        evs[i] = Ev::End(new.clone());
        ctx.input = shown(&t, &evs);
        match read(&mut ctx.r, &t, frag(&evs)) {
            Err(e @ E::MismatchedCloseTag { .. }) => {
                let m = e.to_string();
                let E::MismatchedCloseTag { expected, found } = e else { unreachable!() };
                if (&expected, &found) != (&old, &new) {
                    return Err(format!("</{}> in place of </{}> was reported as expected {:?}, found {:?}", new, old, expected, found));
                }
                // Each next to its own word, in whatever order
                let (a, b) = (format!("</{}>", old), format!("</{}>", new));
                let told = match (m.find("expected"), m.find("found")) {
                    (Some(i), Some(j)) if i < j => m[i..j].contains(&a) && m[j..].contains(&b),
                    (Some(i), Some(j)) => m[j..i].contains(&b) && m[i..].contains(&a),
                    _ => m.contains(&a) && m.contains(&b),
                };
                if !told {
                    return Err(format!("the message {:?} does not tell </{}> as expected and </{}> as found", m, old, new));
                }
            }
            x => return Err(format!("</{}> in place of </{}> was reported as {:?}", new, old, x)),
        }
        ctx.count("mismatch");
    } else {
        let n = ctx.r.range(1, evs.len() - 1);
        evs.truncate(n);
        ctx.input = shown(&t, &evs);
        match read(&mut ctx.r, &t, frag(&evs)) {
            Err(E::UnexpectedEof) => {}
            x => return Err(format!("a fragment cut after {} events was reported as {:?}", n, x)),
        }
        ctx.count("cut");
    }
    ctx.judged(Some(format!("{:?}{:?}", evs, t).as_bytes()));
    Ok(())
}

fn normalization(ctx: &mut Ctx) -> V {
    let names = &["a", "b", "É", "c"];
    let mut v = vec![];
    let mut budget = 3 + ctx.r.tail(15, 200);
    let omit = *ctx.r.pick(&[0, 0, 1]);
    tree(&mut ctx.r, 4, &mut budget, names, omit, &mut v);
    // Right as it is
    let Ok(_) = normalize_end_tags(frag(&v)) else { return Ok(()) };
    let at = ctx.r.below(v.len() + 1);
    let at = (at..=v.len()).find(|&i| i == v.len() || !matches!(v[i], Ev::Attr(..) | Ev::Close | Ev::XmlClose)).unwrap();
    let (want, message) = match ctx.r.below(4) {
        0 => {
            v.insert(at, Ev::End(String::new()));
            (NormalizationError::EmptyTagNotSupported, "empty tag".to_string())
        }
        1 => {
            v.insert(at, Ev::Close);
            v.insert(at, Ev::Open(String::new()));
            (NormalizationError::EmptyTagNotSupported, "empty tag".to_string())
        }
        _ => {
            // In the case of another, or unlike any
            let n = ctx.r.pick_str(&["A", "é", "d", "x.y", "aa"]);
            v.insert(at, Ev::End(n.into()));
            (NormalizationError::UnpairedEndTag(n.into()), format!("</{}>", n))
        }
    };
    ctx.input = format!("events {}", short(&format!("{:?}", v), 6000));
    let got = match normalize_end_tags(frag(&v)) {
        Err(e) => e,
        Ok(f) => return Err(format!("expected {:?}, got {:?}", want, f)),
    };
    if got != want {
        return Err(format!("expected {:?}, got {:?}", want, got));
    }
    ctx.count(if matches!(got, NormalizationError::UnpairedEndTag(_)) { "unpaired" } else { "empty_tag" });
    if !got.to_string().contains(&message) {
        return Err(format!("the message {:?} does not name {:?}", got.to_string(), message));
    }
    let own = got.to_string();
    let e = sgmlish::Error::from(got);
    if e.to_string() != own || !matches!(&e, sgmlish::Error::NormalizationError(x) if *x == want) {
        return Err(format!("as the crate's error it is {:?}", e));
    }
    ctx.count("wrapped");
    ctx.judged(Some(format!("{:?}", v).as_bytes()));
    Ok(())
}
