//! Target types and values made at run time, read through serde like derived ones, and the
//! spelling of such values as documents.

use crate::model::*;
use crate::rng::Rng;
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, Unexpected, VariantAccess, Visitor};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Bool,
    /// Bits and whether it is signed.
    Int(u8, bool),
    F32,
    F64,
    Char,
    Str,
    Bytes,
    Unit,
    Opt(Box<Ty>),
    New(Box<Ty>),
    Seq(Box<Ty>),
    Tup(Vec<Ty>),
    Struct(St),
    Map(Box<Ty>),
    Enum(En),
    /// Takes any content and forgets it.
    Ignored,
    /// Takes whatever the deserializer offers.
    Any,
    /// Carries on after an error of the inner type.
    Try(Box<Ty>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Field {
    pub name: &'static str,
    pub ty: Ty,
    pub default: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct St {
    pub fields: Vec<Field>,
    pub deny: bool,
}
impl St {
    pub fn has_value(&self) -> bool {
        self.fields.iter().any(|f| f.name == "$value")
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Unit,
    New(Ty),
    Tup(Vec<Ty>),
    Struct(St),
}
#[derive(Clone, Debug, PartialEq)]
pub struct En {
    pub variants: Vec<(&'static str, Kind)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Bool(bool),
    Int(i128),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Unit,
    None,
    Some(Box<Val>),
    New(Box<Val>),
    Seq(Vec<Val>),
    Rec(Vec<Val>),
    Map(Vec<(String, Val)>),
    /// Variant index and data.
    Var(usize, Box<Val>),
    Failed,
}

// ---------------------------------------------------------------------------------------------
// Reading

thread_local! {
    static SEEN: Cell<[u64; 3]> = const { Cell::new([0; 3]) };
    static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
    static NAMES: RefCell<HashMap<Vec<&'static str>, &'static [&'static str]>> = RefCell::new(HashMap::new());
}

/// Map entries, sequence elements and scalars handed over since the last reset.
pub fn seen() -> [u64; 3] {
    SEEN.with(|s| s.get())
}
pub fn reset(budget: u64) {
    SEEN.with(|s| s.set([0; 3]));
    BUDGET.with(|b| b.set(budget));
}
/// Unwound with when there are more callbacks than any bounded reading makes.
pub struct Runaway;
fn tick(k: usize) {
    let t = SEEN.with(|s| {
        let mut v = s.get();
        v[k] += 1;
        s.set(v);
        v[0] + v[1] + v[2]
    });
    if t > BUDGET.with(|b| b.get()) {
        std::panic::resume_unwind(Box::new(Runaway));
    }
    crate::checks::mix::hook();
}

fn interned(mut v: Vec<&'static str>) -> &'static [&'static str] {
    v.sort_unstable();
    NAMES.with(|n| {
        let mut n = n.borrow_mut();
        if let Some(x) = n.get(&v) {
            return *x;
        }
        let l: &'static [&'static str] = Box::leak(v.clone().into_boxed_slice());
        n.insert(v, l);
        l
    })
}

pub struct Seed<'t>(pub &'t Ty);

impl<'de, 't> DeserializeSeed<'de> for Seed<'t> {
    type Value = Val;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        let v = Vis(self.0);
        match self.0 {
            Ty::Bool => d.deserialize_bool(v),
            Ty::Int(8, true) => d.deserialize_i8(v),
            Ty::Int(16, true) => d.deserialize_i16(v),
            Ty::Int(32, true) => d.deserialize_i32(v),
            Ty::Int(64, true) => d.deserialize_i64(v),
            Ty::Int(8, false) => d.deserialize_u8(v),
            Ty::Int(16, false) => d.deserialize_u16(v),
            Ty::Int(32, false) => d.deserialize_u32(v),
            Ty::Int(..) => d.deserialize_u64(v),
            Ty::F32 => d.deserialize_f32(v),
            Ty::F64 => d.deserialize_f64(v),
            Ty::Char => d.deserialize_char(v),
            Ty::Str => d.deserialize_string(v),
            Ty::Bytes => d.deserialize_bytes(v),
            Ty::Unit => d.deserialize_unit_struct("Unit", v),
            Ty::Opt(_) => d.deserialize_option(v),
            Ty::New(_) => d.deserialize_newtype_struct("New", v),
            Ty::Seq(_) => d.deserialize_seq(v),
            Ty::Tup(t) => d.deserialize_tuple(t.len(), v),
            Ty::Struct(s) => d.deserialize_struct("St", interned(s.fields.iter().map(|f| f.name).collect()), v),
            Ty::Map(_) => d.deserialize_map(v),
            Ty::Enum(e) => d.deserialize_enum("En", interned(e.variants.iter().map(|f| f.0).collect()), v),
            Ty::Ignored => d.deserialize_ignored_any(IgnoredAny).map(|_| Val::Unit),
            Ty::Any => d.deserialize_any(v),
            Ty::Try(t) => Ok(Seed(t).deserialize(d).unwrap_or(Val::Failed)),
        }
    }
}

struct Vis<'t>(&'t Ty);

fn bits(b: u8, signed: bool) -> (i128, i128) {
    if signed {
        (-(1i128 << (b - 1)), (1i128 << (b - 1)) - 1)
    } else {
        (0, (1i128 << b) - 1)
    }
}

impl<'t> Vis<'t> {
    fn int<E: de::Error>(self, v: i128, u: Unexpected) -> Result<Val, E> {
        tick(2);
        match self.0 {
            Ty::Int(b, s) => {
                let (lo, hi) = bits(*b, *s);
                if v >= lo && v <= hi {
                    Ok(Val::Int(v))
                } else {
                    Err(E::invalid_value(u, &self))
                }
            }
            Ty::Any => Ok(Val::Int(v)),
            _ => Err(E::invalid_type(u, &self)),
        }
    }
    fn text<E: de::Error>(self, v: &str) -> Result<Val, E> {
        tick(2);
        match self.0 {
            Ty::Str | Ty::Bytes | Ty::Any => Ok(Val::Str(v.to_string())),
            Ty::Char => {
                let mut c = v.chars();
                match (c.next(), c.next()) {
                    (Some(c), None) => Ok(Val::Char(c)),
                    _ => Err(E::invalid_value(Unexpected::Str(v), &self)),
                }
            }
            _ => Err(E::invalid_type(Unexpected::Str(v), &self)),
        }
    }
}

impl<'de, 't> Visitor<'de> for Vis<'t> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let s = format!("{:?}", self.0);
        let end = s.find(|c: char| !c.is_alphanumeric()).unwrap_or(s.len());
        f.write_str(&s[..end])
    }
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<Val, E> {
        tick(2);
        match self.0 {
            Ty::Bool | Ty::Any => Ok(Val::Bool(v)),
            _ => Err(E::invalid_type(Unexpected::Bool(v), &self)),
        }
    }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<Val, E> {
        self.int(v as i128, Unexpected::Signed(v))
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Val, E> {
        self.int(v as i128, Unexpected::Unsigned(v))
    }
    fn visit_f32<E: de::Error>(self, v: f32) -> Result<Val, E> {
        tick(2);
        match self.0 {
            Ty::F32 | Ty::Any => Ok(Val::F32(v.to_bits())),
            Ty::F64 => Ok(Val::F64((v as f64).to_bits())),
            _ => Err(E::invalid_type(Unexpected::Float(v as f64), &self)),
        }
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<Val, E> {
        tick(2);
        match self.0 {
            Ty::F32 => Ok(Val::F32((v as f32).to_bits())),
            Ty::F64 | Ty::Any => Ok(Val::F64(v.to_bits())),
            _ => Err(E::invalid_type(Unexpected::Float(v), &self)),
        }
    }
    fn visit_char<E: de::Error>(self, v: char) -> Result<Val, E> {
        let mut b = [0; 4];
        self.text(v.encode_utf8(&mut b))
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Val, E> {
        self.text(v)
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Val, E> {
        match std::str::from_utf8(v) {
            Ok(s) => self.text(s),
            Err(_) => Err(E::invalid_type(Unexpected::Bytes(v), &self)),
        }
    }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
        tick(2);
        match self.0 {
            Ty::Unit | Ty::Any => Ok(Val::Unit),
            Ty::Opt(_) => Ok(Val::None),
            _ => Err(E::invalid_type(Unexpected::Unit, &self)),
        }
    }
    fn visit_none<E: de::Error>(self) -> Result<Val, E> {
        tick(2);
        match self.0 {
            Ty::Opt(_) => Ok(Val::None),
            Ty::Any => Ok(Val::None),
            _ => Err(E::invalid_type(Unexpected::Option, &self)),
        }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        match self.0 {
            Ty::Opt(t) => Ok(Val::Some(Box::new(Seed(t).deserialize(d)?))),
            Ty::Any => Ok(Val::Some(Box::new(Seed(self.0).deserialize(d)?))),
            _ => Err(de::Error::invalid_type(Unexpected::Option, &self)),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        match self.0 {
            Ty::New(t) => Ok(Val::New(Box::new(Seed(t).deserialize(d)?))),
            Ty::Any => Ok(Val::New(Box::new(Seed(self.0).deserialize(d)?))),
            _ => Err(de::Error::invalid_type(Unexpected::NewtypeStruct, &self)),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = vec![];
        match self.0 {
            Ty::Seq(t) => {
                while let Some(x) = a.next_element_seed(Seed(t))? {
                    tick(1);
                    v.push(x);
                }
                Ok(Val::Seq(v))
            }
            Ty::Any => {
                while let Some(x) = a.next_element_seed(Seed(self.0))? {
                    tick(1);
                    v.push(x);
                }
                Ok(Val::Seq(v))
            }
            Ty::Tup(ts) => {
                for t in ts {
                    match a.next_element_seed(Seed(t))? {
                        Some(x) => {
                            tick(1);
                            v.push(x)
                        }
                        None => return Err(de::Error::invalid_length(v.len(), &self)),
                    }
                }
                Ok(Val::Rec(v))
            }
            Ty::New(t) => match a.next_element_seed(Seed(t))? {
                Some(x) => Ok(Val::New(Box::new(x))),
                None => Err(de::Error::invalid_length(0, &self)),
            },
            Ty::Struct(s) => {
                for f in &s.fields {
                    match a.next_element_seed(Seed(&f.ty))? {
                        Some(x) => v.push(x),
                        None => return Err(de::Error::invalid_length(v.len(), &self)),
                    }
                }
                Ok(Val::Rec(v))
            }
            _ => Err(de::Error::invalid_type(Unexpected::Seq, &self)),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match self.0 {
            Ty::Struct(s) => {
                let mut got: Vec<Option<Val>> = vec![None; s.fields.len()];
                while let Some(k) = a.next_key_seed(Seed(&Ty::Str))? {
                    tick(0);
                    let k = match k {
                        Val::Str(k) => k,
                        _ => unreachable!("harness: key"),
                    };
                    match s.fields.iter().position(|f| f.name == k) {
                        Some(i) => {
                            if got[i].is_some() {
                                return Err(de::Error::duplicate_field(s.fields[i].name));
                            }
                            got[i] = Some(a.next_value_seed(Seed(&s.fields[i].ty))?);
                        }
                        None if s.deny => return Err(de::Error::unknown_field(&k, &[])),
                        None => {
                            a.next_value::<IgnoredAny>()?;
                        }
                    }
                }
                let mut v = vec![];
                for (f, g) in s.fields.iter().zip(got) {
                    v.push(match g {
                        Some(x) => x,
                        None if f.default => default_of(&f.ty),
                        None if matches!(f.ty, Ty::Opt(_)) => Val::None,
                        None => return Err(de::Error::missing_field(f.name)),
                    });
                }
                Ok(Val::Rec(v))
            }
            Ty::Map(t) => {
                let mut v: Vec<(String, Val)> = vec![];
                while let Some(k) = a.next_key::<String>()? {
                    tick(0);
                    let x = a.next_value_seed(Seed(t))?;
                    // As a map type does: the last value of a key stays
                    match v.iter_mut().find(|e| e.0 == k) {
                        Some(e) => e.1 = x,
                        None => v.push((k, x)),
                    }
                }
                v.sort_by(|a, b| a.0.cmp(&b.0));
                Ok(Val::Map(v))
            }
            Ty::Any => {
                let mut v: Vec<(String, Val)> = vec![];
                while let Some(k) = a.next_key::<String>()? {
                    tick(0);
                    v.push((k, a.next_value_seed(Seed(self.0))?));
                }
                Ok(Val::Map(v))
            }
            _ => Err(de::Error::invalid_type(Unexpected::Map, &self)),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        let e = match self.0 {
            Ty::Enum(e) => e,
            _ => return Err(de::Error::invalid_type(Unexpected::Enum, &self)),
        };
        let (name, va) = a.variant_seed(VarName)?;
        tick(2);
        let i = match e.variants.iter().position(|v| v.0 == name) {
            Some(i) => i,
            None => return Err(de::Error::unknown_variant(&name, &[])),
        };
        let data = match &e.variants[i].1 {
            Kind::Unit => {
                va.unit_variant()?;
                Val::Unit
            }
            Kind::New(t) => va.newtype_variant_seed(Seed(t))?,
            Kind::Tup(ts) => {
                // The visitor of a tuple of these types
                let t = Ty::Tup(ts.clone());
                va.tuple_variant(ts.len(), Vis(&t))?
            }
            Kind::Struct(s) => {
                let t = Ty::Struct(s.clone());
                va.struct_variant(interned(s.fields.iter().map(|f| f.name).collect()), Vis(&t))?
            }
        };
        Ok(Val::Var(i, Box::new(data)))
    }
}

/// Reads the name of a variant the way derived code does.
struct VarName;
impl<'de> DeserializeSeed<'de> for VarName {
    type Value = String;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        struct S;
        impl<'de> Visitor<'de> for S {
            type Value = String;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("variant identifier")
            }
            fn visit_str<E: de::Error>(self, v: &str) -> Result<String, E> {
                Ok(v.to_string())
            }
            fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<String, E> {
                Ok(String::from_utf8_lossy(v).to_string())
            }
        }
        d.deserialize_identifier(S)
    }
}

pub fn default_of(t: &Ty) -> Val {
    match t {
        Ty::Bool => Val::Bool(false),
        Ty::Int(..) => Val::Int(0),
        Ty::F32 => Val::F32(0),
        Ty::F64 => Val::F64(0),
        Ty::Char => Val::Char('\0'),
        Ty::Str | Ty::Bytes => Val::Str(String::new()),
        Ty::Unit | Ty::Ignored | Ty::Any => Val::Unit,
        Ty::Opt(_) => Val::None,
        Ty::New(t) => Val::New(Box::new(default_of(t))),
        Ty::Seq(_) => Val::Seq(vec![]),
        Ty::Tup(ts) => Val::Rec(ts.iter().map(default_of).collect()),
        Ty::Struct(s) => Val::Rec(s.fields.iter().map(|f| default_of(&f.ty)).collect()),
        Ty::Map(_) => Val::Map(vec![]),
        Ty::Enum(_) => Val::Var(0, Box::new(Val::Unit)),
        Ty::Try(_) => Val::Failed,
    }
}

/// How deeply types nest.
pub fn depth(t: &Ty) -> u64 {
    let st = |s: &St| s.fields.iter().map(|f| depth(&f.ty)).max().unwrap_or(0);
    1 + match t {
        Ty::Opt(t) | Ty::New(t) | Ty::Seq(t) | Ty::Map(t) | Ty::Try(t) => depth(t),
        Ty::Tup(v) => v.iter().map(depth).max().unwrap_or(0),
        Ty::Struct(s) => st(s),
        Ty::Enum(e) => e
            .variants
            .iter()
            .map(|v| match &v.1 {
                Kind::Unit => 0,
                Kind::New(t) => depth(t),
                Kind::Tup(ts) => ts.iter().map(depth).max().unwrap_or(0),
                Kind::Struct(s) => st(s),
            })
            .max()
            .unwrap_or(0),
        _ => 0,
    }
}

// ---------------------------------------------------------------------------------------------
// Making types and values

/// Few names, so that nested types share them; they differ by case, prefix and script.
pub const NAMES_POOL: &[&str] = &["a", "b", "A", "ab", "name", "value", "item", "é", "x.y", "true", "type", "list", "x:b", "ab-on"];
pub const VARIANTS_POOL: &[&str] = &["a", "B", "one", "item", "É", "true", "x-1", "none"];


pub fn scalar_ty(r: &mut Rng) -> Ty {
    match r.below(16) {
        0 | 1 => Ty::Bool,
        2 => Ty::Int(8, true),
        3 => Ty::Int(16, true),
        4 => Ty::Int(32, true),
        5 => Ty::Int(64, true),
        6 => Ty::Int(8, false),
        7 => Ty::Int(16, false),
        8 => Ty::Int(32, false),
        9 => Ty::Int(64, false),
        10 => Ty::F32,
        11 => Ty::F64,
        12 => Ty::Char,
        13 if r.chance(1, 3) => Ty::Bytes,
        _ => Ty::Str,
    }
}

pub fn unit_enum(r: &mut Rng) -> Ty {
    let n = r.range(1, 4);
    Ty::Enum(En {
        variants: names(r, VARIANTS_POOL, n).into_iter().map(|v| (v, Kind::Unit)).collect(),
    })
}

/// Names of unusual shapes, the same ones in every run.
pub fn odd_names() -> &'static [&'static str] {
    static ODD: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    ODD.get_or_init(|| {
        let mut r = Rng::new(0x6e61_6d65);
        let mut v: Vec<String> = vec![];
        for _ in 0..3000 {
            v.push(odd_name(&mut r));
        }
        v.sort();
        v.dedup();
        v.retain(|n| !n.eq_ignore_ascii_case("false") && !n.is_empty());
        v.into_iter().map(|n| &*Box::leak(n.into_boxed_str())).collect()
    })
}

/// A name of unusual shape: marks doubled or at the end, letters with odd case mappings, long, ...
pub fn odd_name(r: &mut Rng) -> String {
    let base = |r: &mut Rng| r.pick_str(&["a", "b", "ab", "X", "é", "item", "xml", "h1", "ID"]).to_string();
    let start = |r: &mut Rng| loop {
        let c = match r.below(4) {
            0 => *r.pick(&['İ', 'ı', 'ß', 'ſ', '\u{212a}', 'ǅ', 'ﬁ', 'ª', 'Σ', 'ς', 'ŉ', 'ʰ', 'अ', '中', '𐐀', '𐐨', '𝒳', 'Ⅷ', 'ⓐ']),
            1 => char::from_u32(r.range(0xc0, 0x24f) as u32).unwrap_or('x'),
            2 => r.range(b'A' as usize, b'z' as usize) as u8 as char,
            _ => char::from_u32(r.below(0x20000) as u32).unwrap_or('x'),
        };
        if c.is_alphabetic() {
            return c;
        }
    };
    match r.below(14) {
        0 => {
            let n = 1 + r.below(60);
            base(r).repeat(n)
        }
        1 => format!("{}{}", base(r), r.pick_str(&["-", ".", "_", ":", "--", "__", "..", "::", "-.", "_1", ":-"])),
        2 => format!("{}{}{}", base(r), r.pick_str(&["-", ".", "_", ":", "--", "__", "..", "::", "-_"]), base(r)),
        3 => format!("{}:{}:{}", base(r), base(r), base(r)),
        4 => r.pick_str(&["xml", "XML", "xmlns", "xml:lang", "xmlns:x", "id", "class", "href", "null", "none", "nan", "inf", "NULL", "CDATA", "INCLUDE", "self", "type", "kind", "content", "text", "key", "r", "value", "values", "tag"]).to_string(),
        5 => r.pick_str(&["aba", "abcba", "aa", "AAAA", "HTML", "A1", "H1", "a1b2", "a123", "a0", "a٣", "ab²"]).to_string(),
        6 => format!("{}{}", start(r), base(r)),
        7 => format!("{}{}", base(r), start(r)),
        8 => format!("{}{}", base(r), r.pick_str(&["0", "1", "01", "10", "255", "٣", "²", "½"])),
        9 => {
            let n = r.range(4, 12);
            (0..n).map(|_| r.range(b'A' as usize, b'Z' as usize) as u8 as char).collect()
        }
        _ => {
            let mut s = start(r).to_string();
            for _ in 0..r.below(6) {
                if r.chance(1, 3) {
                    s.push(*r.pick(&['.', '-', '_', ':', '0', '9', '٣']));
                } else {
                    s.push(start(r));
                }
            }
            s
        }
    }
}

/// Mostly one of the usual names.
pub fn a_name(r: &mut Rng) -> &'static str {
    if r.chance(1, 6) {
        *r.pick(odd_names())
    } else {
        *r.pick(NAMES_POOL)
    }
}

pub fn names(r: &mut Rng, pool: &[&'static str], n: usize) -> Vec<&'static str> {
    let mut p: Vec<&'static str> = pool.to_vec();
    if r.chance(1, 3) {
        for _ in 0..1 + r.below(4) {
            let w = *r.pick(odd_names());
            if !p.contains(&w) {
                let at = r.below(p.len());
                p[at] = w;
            }
        }
    }
    for _ in 0..2 {
        if let Some(w) = crate::dict::static_name(r) {
            if !p.contains(&w) {
                let at = r.below(p.len());
                p[at] = w;
            }
        }
    }
    for i in (1..p.len()).rev() {
        p.swap(i, r.below(i + 1));
    }
    p.truncate(n);
    p
}

/// Where a type stands, which limits what it may be.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pos {
    Root,
    Field,
    Item,
    Payload,
    Value,
}

/// Types that fit in an attribute.
pub fn attr_ty(r: &mut Rng, wrap: bool) -> Ty {
    match r.below(10) {
        0 if wrap => Ty::New(Box::new(attr_ty(r, true))),
        1 | 2 if wrap => match attr_ty(r, true) {
            Ty::Opt(t) => Ty::Opt(t),
            t => Ty::Opt(Box::new(t)),
        },
        3 | 4 => unit_enum(r),
        5 if r.chance(1, 4) => Ty::Unit,
        _ => scalar_ty(r),
    }
}

pub fn fits_attr(t: &Ty) -> bool {
    match t {
        Ty::Opt(t) | Ty::New(t) => fits_attr(t),
        Ty::Seq(_) | Ty::Tup(_) | Ty::Struct(_) | Ty::Map(_) | Ty::Ignored | Ty::Any | Ty::Try(_) => false,
        Ty::Enum(e) => e.variants.iter().all(|v| v.1 == Kind::Unit),
        _ => true,
    }
}

pub fn struct_ty(r: &mut Rng, depth: usize) -> St {
    let n = r.below(6);
    let ns = names(r, NAMES_POOL, n);
    let value = depth > 0 && r.chance(1, 4);
    let mut fields: Vec<Field> = ns
        .into_iter()
        .map(|name| {
            let ty = if value { attr_ty(r, true) } else { ty(r, depth.saturating_sub(1), Pos::Field) };
            let default = must_default(&ty) || r.chance(1, 5) && !matches!(ty, Ty::Enum(_)) && default_ok(&ty);
            Field { name, ty, default }
        })
        .collect();
    if value {
        let ty = ty(r, depth - 1, Pos::Value);
        fields.push(Field { name: "$value", ty, default: false });
    }
    St { fields, deny: false }
}

/// A sequence may be empty, and then has no element at all.
fn optional(t: &Ty) -> bool {
    match t {
        Ty::Opt(_) => true,
        Ty::New(t) => optional(t),
        _ => false,
    }
}
pub fn must_default(t: &Ty) -> bool {
    matches!(t, Ty::Seq(_)) || matches!(t, Ty::New(t) if must_default(t))
}
fn default_ok(t: &Ty) -> bool {
    match t {
        Ty::Enum(_) => false,
        // A missing newtype is not a missing option, and a missing item makes a tuple too short
        Ty::New(t) => !optional(t) && default_ok(t),
        Ty::Tup(v) => v.iter().all(|t| !optional(t) && !must_default(t) && default_ok(t)),
        Ty::Struct(s) => s.fields.iter().all(|f| default_ok(&f.ty) && !(f.name == "$value" && optional(&f.ty))),
        _ => true,
    }
}

pub fn enum_ty(r: &mut Rng, depth: usize) -> En {
    let n = r.range(1, 4);
    let ns = names(r, VARIANTS_POOL, n);
    En {
        variants: ns
            .into_iter()
            .map(|n| {
                let k = match r.below(6) {
                    0 | 1 => Kind::Unit,
                    2 | 3 => Kind::New(ty(r, depth.saturating_sub(1), Pos::Payload)),
                    4 => Kind::Tup((0..r.range(1, 3)).map(|_| ty(r, depth.saturating_sub(1), Pos::Item)).collect()),
                    _ => Kind::Struct(struct_ty(r, depth.saturating_sub(1))),
                };
                (n, k)
            })
            .collect(),
    }
}

pub fn ty(r: &mut Rng, depth: usize, pos: Pos) -> Ty {
    if depth == 0 {
        return attr_ty(r, true);
    }
    let w: [usize; 9] = match pos {
        Pos::Root => [1, 0, 2, 0, 0, 20, 3, 4, 0],
        Pos::Field => [6, 3, 1, 5, 2, 5, 2, 4, 1],
        Pos::Item => [5, 1, 1, 0, 2, 5, 2, 4, 1],
        Pos::Payload => [4, 1, 1, 4, 2, 4, 2, 4, 1],
        Pos::Value => [6, 1, 1, 6, 1, 2, 1, 5, 0],
    };
    match r.weighted(&w) {
        0 => scalar_ty(r),
        1 => match ty(r, depth, pos) {
            Ty::Opt(t) => Ty::Opt(t),
            t => Ty::Opt(Box::new(t)),
        },
        2 => Ty::New(Box::new(ty(r, depth, pos))),
        3 => Ty::Seq(Box::new(ty(r, depth - 1, Pos::Item))),
        4 => Ty::Tup((0..r.range(1, 3)).map(|_| ty(r, depth - 1, Pos::Item)).collect()),
        5 => Ty::Struct(struct_ty(r, depth - 1)),
        6 => {
            let t = match ty(r, depth - 1, Pos::Field) {
                Ty::Opt(t) => *t,
                t => t,
            };
            Ty::Map(Box::new(t))
        }
        7 => Ty::Enum(enum_ty(r, depth)),
        _ => Ty::Unit,
    }
}

/// The type with some of its parts swallowing their errors, and some replaced.
pub fn disturb(r: &mut Rng, t: &Ty) -> Ty {
    if r.chance(1, 12) {
        let d = r.below(3);
        let t = wild_ty(r, d);
        return if r.bool() { Ty::Try(Box::new(t)) } else { t };
    }
    let fields = |r: &mut Rng, s: &St| St {
        fields: s.fields.iter().map(|f| Field { ty: disturb(r, &f.ty), default: f.default || r.chance(1, 3), ..f.clone() }).collect(),
        deny: s.deny,
    };
    let out = match t {
        Ty::Opt(t) => Ty::Opt(Box::new(disturb(r, t))),
        Ty::New(t) => Ty::New(Box::new(disturb(r, t))),
        Ty::Seq(t) => Ty::Seq(Box::new(disturb(r, t))),
        Ty::Map(t) => Ty::Map(Box::new(disturb(r, t))),
        Ty::Try(t) => Ty::Try(Box::new(disturb(r, t))),
        Ty::Tup(ts) => Ty::Tup(ts.iter().map(|t| disturb(r, t)).collect()),
        Ty::Struct(s) => Ty::Struct(fields(r, s)),
        Ty::Enum(e) => Ty::Enum(En {
            variants: e
                .variants
                .iter()
                .map(|(n, k)| {
                    let k = match k {
                        Kind::Unit => Kind::Unit,
                        Kind::New(t) => Kind::New(disturb(r, t)),
                        Kind::Tup(ts) => Kind::Tup(ts.iter().map(|t| disturb(r, t)).collect()),
                        Kind::Struct(s) => Kind::Struct(fields(r, s)),
                    };
                    (*n, k)
                })
                .collect(),
        }),
        t => t.clone(),
    };
    if r.chance(1, 6) {
        Ty::Try(Box::new(out))
    } else {
        out
    }
}

/// Any type at all, whether or not a document can spell its values.
pub fn wild_ty(r: &mut Rng, depth: usize) -> Ty {
    if depth == 0 {
        return match r.below(6) {
            0 => Ty::Any,
            1 => Ty::Ignored,
            2 => Ty::Unit,
            _ => scalar_ty(r),
        };
    }
    match r.below(16) {
        0 => scalar_ty(r),
        1 => Ty::Any,
        2 => Ty::Ignored,
        3 => Ty::Opt(Box::new(wild_ty(r, depth - 1))),
        4 => Ty::New(Box::new(wild_ty(r, depth - 1))),
        5 | 6 => Ty::Seq(Box::new(wild_ty(r, depth - 1))),
        7 => Ty::Tup((0..r.below(4)).map(|_| wild_ty(r, depth - 1)).collect()),
        8 | 9 | 10 => Ty::Struct(wild_struct(r, depth - 1)),
        11 => Ty::Map(Box::new(wild_ty(r, depth - 1))),
        12 => Ty::Try(Box::new(wild_ty(r, depth - 1))),
        13 => Ty::Unit,
        _ => Ty::Enum(En {
            variants: {
                let n = r.range(1, 4);
                names(r, VARIANTS_POOL, n)
                    .into_iter()
                    .map(|n| {
                        let k = match r.below(4) {
                            0 => Kind::Unit,
                            1 => Kind::New(wild_ty(r, depth - 1)),
                            2 => Kind::Tup((0..r.below(4)).map(|_| wild_ty(r, depth - 1)).collect()),
                            _ => Kind::Struct(wild_struct(r, depth - 1)),
                        };
                        (n, k)
                    })
                    .collect()
            },
        }),
    }
}

fn wild_struct(r: &mut Rng, depth: usize) -> St {
    let n = r.below(5);
    let mut fields: Vec<Field> = names(r, NAMES_POOL, n)
        .into_iter()
        .map(|name| Field { name, ty: wild_ty(r, depth), default: r.bool() })
        .collect();
    if r.chance(1, 3) {
        fields.push(Field { name: "$value", ty: wild_ty(r, depth), default: r.bool() });
    }
    St { fields, deny: r.chance(1, 6) }
}

pub fn text(r: &mut Rng, max: usize) -> String {
    let mut s = String::new();
    for _ in 0..r.tail(3, max) {
        if let Some(w) = crate::dict::word(r) {
            s.push_str(w);
            continue;
        }
        match r.below(5) {
            0 => s.push_str(r.pick_str(&["<", ">", "&", "&amp;", "]]>", "<a>", "</a>", "'", "\"", "<!--", "--", "<?", "%p;", "&#65;", "=", "/>", "[", "]"])),
            1 => s.push_str(r.pick_str(&[" ", "\n", "\t", "\r\n", "\u{a0}", "\u{2028}", "  "])),
            2 => s.push_str(r.pick_str(&["true", "false", "1", "0", "none", "item", "$value", "null", "-5", "one"])),
            3 => s.push(*r.pick(&['é', '漢', '🦀', 'ß', 'ǅ', '\u{301}', '\u{feff}', '\u{10ffff}', '\0', '\u{7f}'])),
            _ => s.push_str(r.pick_str(&["x", "Y", "abc", "9", ".", ";", "#", "word"])),
        }
    }
    s
}

/// A value of the type that a document can spell.
pub fn val(r: &mut Rng, t: &Ty, field: bool) -> Val {
    match t {
        Ty::Bool => Val::Bool(r.bool()),
        Ty::Int(b, s) => {
            let (lo, hi) = bits(*b, *s);
            Val::Int(match r.below(5) {
                0 => lo,
                1 => hi,
                2 => 0,
                3 => (lo + r.below(100) as i128).min(hi),
                _ => lo + (r.u64() as i128).rem_euclid(hi - lo + 1),
            })
        }
        Ty::F32 => loop {
            let f = match r.below(6) {
                0 => f32::from_bits(r.u64() as u32),
                1 => *r.pick(&[0.0f32, -0.0, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN_POSITIVE, 1e-45, f32::EPSILON]),
                2 => r.below(1000) as f32 / 8.0,
                _ => (r.u64() as i64 as f32) / 65536.0,
            };
            if !f.is_nan() {
                return Val::F32(f.to_bits());
            }
        },
        Ty::F64 => loop {
            let f = match r.below(6) {
                0 => f64::from_bits(r.u64()),
                1 => *r.pick(&[0.0f64, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE, 5e-324, f64::EPSILON]),
                2 => r.below(1000) as f64 / 8.0,
                _ => (r.u64() as i64 as f64) / 65536.0,
            };
            if !f.is_nan() {
                return Val::F64(f.to_bits());
            }
        },
        Ty::Char => Val::Char(match r.below(3) {
            0 => *r.pick(&['<', '&', ' ', '\n', '>', '"', '1', '%', '\'', ']']),
            1 => *r.pick(&['é', '🦀', '\u{2028}', '\0', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '\u{a0}']),
            _ => (b'a' + r.below(26) as u8) as char,
        }),
        Ty::Str | Ty::Bytes => Val::Str(text(r, 12)),
        Ty::Unit | Ty::Ignored | Ty::Any => Val::Unit,
        Ty::Opt(t) => {
            if field && r.chance(1, 3) {
                Val::None
            } else {
                let mut v = val(r, t, false);
                // No element at all would be None
                if field && must_default(t) {
                    v = nonempty(r, t, v);
                }
                Val::Some(Box::new(v))
            }
        }
        Ty::New(t) => Val::New(Box::new(match (&**t, field) {
            // A missing newtype is not a missing option
            (Ty::Opt(_), _) => {
                let v = val(r, t, false);
                nonempty(r, t, v)
            }
            _ => val(r, t, field),
        })),
        Ty::Seq(t) => Val::Seq((0..r.tail(2, 5)).map(|_| val(r, t, false)).collect()),
        Ty::Tup(ts) => Val::Rec(ts.iter().map(|t| val(r, t, false)).collect()),
        Ty::Struct(s) => Val::Rec(
            s.fields
                .iter()
                .map(|f| {
                    if f.default && r.chance(1, 3) {
                        default_of(&f.ty)
                    } else {
                        val(r, &f.ty, f.name != "$value")
                    }
                })
                .collect(),
        ),
        Ty::Map(t) => {
            let n = r.below(4);
            let mut ks = names(r, NAMES_POOL, n);
            ks.sort_unstable();
            Val::Map(
                ks.into_iter()
                    .map(|k| {
                        let mut v = val(r, t, false);
                        v = nonempty(r, t, v);
                        (k.to_string(), v)
                    })
                    .collect(),
            )
        }
        Ty::Enum(e) => {
            let i = r.below(e.variants.len());
            let d = match &e.variants[i].1 {
                Kind::Unit => Val::Unit,
                Kind::New(t) => val(r, t, false),
                Kind::Tup(ts) => Val::Rec(ts.iter().map(|t| val(r, t, false)).collect()),
                Kind::Struct(s) => val(r, &Ty::Struct(s.clone()), false),
            };
            Val::Var(i, Box::new(d))
        }
        Ty::Try(_) => Val::Failed,
    }
}

fn nonempty(r: &mut Rng, t: &Ty, v: Val) -> Val {
    match (t, v) {
        (Ty::New(t), Val::New(v)) => Val::New(Box::new(nonempty(r, t, *v))),
        (Ty::Opt(t), Val::Some(v)) => Val::Some(Box::new(nonempty(r, t, *v))),
        (Ty::Seq(t), Val::Seq(v)) if v.is_empty() => Val::Seq(vec![val(r, t, false)]),
        (_, v) => v,
    }
}

// ---------------------------------------------------------------------------------------------
// Spelling

#[derive(Clone, Debug, PartialEq)]
pub struct El {
    pub tag: String,
    pub attrs: Vec<(String, Option<String>)>,
    pub kids: Vec<Kid>,
    /// Names the target knows here, when it skips all others.
    pub known: Option<Vec<&'static str>>,
    /// Attributes may be added.
    pub more_attrs: bool,
    /// Elements and text may be added between children.
    pub more_kids: bool,
    /// Text may be added before the first and after the last child.
    pub edge_text: bool,
    /// The content is read into the target.
    pub read: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Kid {
    pub node: Node,
    /// Belongs to the same run as the one before.
    pub glue: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    El(El),
    Text(String),
    Raw(Ev),
}

impl El {
    pub fn new(tag: &str) -> El {
        El {
            tag: tag.to_string(),
            attrs: vec![],
            kids: vec![],
            known: None,
            more_attrs: true,
            more_kids: false,
            edge_text: false,
            read: true,
        }
    }
    pub fn text(tag: &str, t: String) -> El {
        let mut e = El::new(tag);
        e.kids.push(Kid { node: Node::Text(t), glue: false });
        e
    }
    pub fn with(mut self, kids: Vec<El>) -> El {
        self.kids.extend(run(kids));
        self
    }
    pub fn is_leaf(&self) -> bool {
        self.kids.iter().all(|k| matches!(k.node, Node::Text(_)))
    }
}

fn run(v: Vec<El>) -> Vec<Kid> {
    v.into_iter().enumerate().map(|(i, e)| Kid { node: Node::El(e), glue: i > 0 }).collect()
}

fn recase(r: &mut Rng, s: &str) -> String {
    s.chars()
        .map(|c| match r.below(3) {
            0 => c.to_ascii_uppercase(),
            1 => c.to_ascii_lowercase(),
            _ => c,
        })
        .collect()
}

/// A text that means this scalar.
pub fn spell(r: &mut Rng, v: &Val) -> Option<String> {
    Some(match v {
        Val::Bool(true) => match r.below(3) {
            0 => "1".into(),
            1 => "true".into(),
            _ => recase(r, "true"),
        },
        Val::Bool(false) => match r.below(3) {
            0 => "0".into(),
            1 => "false".into(),
            _ => recase(r, "false"),
        },
        Val::Int(i) => match r.below(4) {
            0 if *i >= 0 => format!("+{}", i),
            1 if *i >= 0 => format!("{:0w$}", i, w = r.below(30)),
            1 => format!("-{:0w$}", -i, w = r.below(30)),
            _ => i.to_string(),
        },
        Val::F32(b) => {
            let f = f32::from_bits(*b);
            let s = match r.below(4) {
                0 => format!("{:e}", f),
                1 => format!("{:?}", f),
                2 => format!("{:E}", f as f64),
                _ => f.to_string(),
            };
            if s.parse::<f32>().map(|x| x.to_bits()) == Ok(*b) { s } else { f.to_string() }
        }
        Val::F64(b) => {
            let f = f64::from_bits(*b);
            let s = match r.below(3) {
                0 => format!("{:e}", f),
                1 => format!("{:?}", f),
                _ => f.to_string(),
            };
            if s.parse::<f64>().map(|x| x.to_bits()) == Ok(*b) { s } else { f.to_string() }
        }
        Val::Char(c) => c.to_string(),
        Val::Str(s) => s.clone(),
        _ => return None,
    })
}

/// The value as an attribute named `name`: `Some(None)` is a bare attribute.
pub fn as_attr(r: &mut Rng, t: &Ty, v: &Val, name: &str) -> Option<Option<String>> {
    match (t, v) {
        (Ty::Opt(t), Val::Some(v)) | (Ty::New(t), Val::New(v)) => as_attr(r, t, v, name),
        (Ty::Bool, Val::Bool(true)) if r.bool() => Some(match r.below(3) {
            0 => None,
            1 => Some(String::new()),
            _ => Some(recase(r, name)),
        }),
        (Ty::Enum(e), Val::Var(i, _)) => match e.variants[*i].1 {
            Kind::Unit => Some(Some(e.variants[*i].0.to_string())),
            _ => None,
        },
        (Ty::Unit, _) => Some(if r.bool() { None } else { Some(text(r, 4)) }),
        (Ty::Str, Val::Str(s)) if s.is_empty() && r.bool() => Some(None),
        _ => spell(r, v).map(Some),
    }
}

/// The run of elements that spells a value, named `tag`. With no tag, any names serve, and enum
/// values stand for themselves.
pub fn els(r: &mut Rng, t: &Ty, v: &Val, tag: Option<&str>) -> Vec<El> {
    let any = |r: &mut Rng| r.pick_str(&["a", "zz", "item", "name", "one"]).to_string();
    match (t, v) {
        (Ty::Opt(_), Val::None) => vec![],
        (Ty::Opt(t), Val::Some(v)) | (Ty::New(t), Val::New(v)) => els(r, t, v, tag),
        (Ty::Seq(t), Val::Seq(vs)) => vs.iter().flat_map(|v| els(r, t, v, tag)).collect(),
        (Ty::Tup(ts), Val::Rec(vs)) => ts.iter().zip(vs).flat_map(|(t, v)| els(r, t, v, tag)).collect(),
        (Ty::Enum(e), Val::Var(i, d)) => match tag {
            None => variant(r, e, *i, d),
            Some(tag) => vec![if e.variants[*i].1 == Kind::Unit && r.bool() {
                El::text(tag, e.variants[*i].0.to_string())
            } else {
                El::new(tag).with(variant(r, e, *i, d))
            }],
        },
        _ => {
            let tag = tag.map(|t| t.to_string()).unwrap_or_else(|| any(r));
            match (t, v) {
                (Ty::Struct(s), Val::Rec(vs)) => vec![structure(r, s, vs, &tag)],
                (Ty::Map(t), Val::Map(es)) => {
                    let mut e = El::new(&tag);
                    e.more_attrs = false;
                    let mut groups = vec![];
                    for (k, v) in es {
                        if r.bool() {
                            if let Some(a) = if fits_attr(t) { as_attr(r, t, v, k) } else { None } {
                                let at = r.below(e.attrs.len() + 1);
                                e.attrs.insert(at, (k.clone(), a));
                                continue;
                            }
                        }
                        let at = r.below(groups.len() + 1);
                        groups.insert(at, run(els(r, t, v, Some(k))));
                    }
                    e.kids = groups.into_iter().flatten().collect();
                    vec![e]
                }
                (Ty::Unit, _) | (Ty::Ignored, _) | (Ty::Any, _) => {
                    let mut e = El::new(&tag);
                    e.read = false;
                    vec![e]
                }
                _ => {
                    let s = spell(r, v).unwrap_or_default();
                    vec![if s.is_empty() && r.bool() { El::new(&tag) } else { El::text(&tag, s) }]
                }
            }
        }
    }
}

pub fn structure(r: &mut Rng, s: &St, vs: &[Val], tag: &str) -> El {
    let mut e = El::new(tag);
    let value = s.has_value();
    e.more_kids = !value;
    e.known = Some(s.fields.iter().map(|f| f.name).collect());
    let mut groups: Vec<Vec<Kid>> = vec![];
    for (f, v) in s.fields.iter().zip(vs) {
        if f.name == "$value" {
            groups = vec![value_kids(r, &f.ty, v)];
            continue;
        }
        if *v == Val::None && matches!(f.ty, Ty::Opt(_)) {
            continue;
        }
        if f.default && *v == default_of(&f.ty) && (r.bool() || must_default(&f.ty)) {
            continue;
        }
        if value || r.bool() {
            if let Some(a) = if fits_attr(&f.ty) { as_attr(r, &f.ty, v, f.name) } else { None } {
                let at = r.below(e.attrs.len() + 1);
                e.attrs.insert(at, (f.name.to_string(), a));
                continue;
            }
        }
        let g = run(els(r, &f.ty, v, Some(f.name)));
        let at = r.below(groups.len() + 1);
        groups.insert(at, g);
    }
    e.kids = groups.into_iter().flatten().collect();
    e.edge_text = value && matches!(e.kids.first(), Some(Kid { node: Node::El(_), .. }));
    e
}

/// The content that spells the field `$value`.
fn value_kids(r: &mut Rng, t: &Ty, v: &Val) -> Vec<Kid> {
    match (t, v) {
        (Ty::Opt(t), Val::Some(v)) | (Ty::New(t), Val::New(v)) => value_kids(r, t, v),
        (Ty::Enum(e), Val::Var(i, _)) if e.variants[*i].1 == Kind::Unit && r.bool() => vec![Kid {
            node: Node::Text(e.variants[*i].0.to_string()),
            glue: false,
        }],
        (Ty::Seq(_) | Ty::Tup(_) | Ty::Struct(_) | Ty::Map(_) | Ty::Enum(_), _) => run(els(r, t, v, None)),
        (Ty::Unit, _) => vec![],
        _ => vec![Kid {
            node: Node::Text(spell(r, v).unwrap_or_default()),
            glue: false,
        }],
    }
}

/// The elements that spell an enum value by themselves.
fn variant(r: &mut Rng, e: &En, i: usize, d: &Val) -> Vec<El> {
    let (name, kind) = &e.variants[i];
    match kind {
        Kind::Unit => {
            let mut e = El::new(name);
            e.read = false;
            if r.chance(1, 4) {
                e.kids.push(Kid { node: Node::Text(text(r, 4)), glue: false });
            }
            vec![e]
        }
        Kind::New(t) => vec![payload(r, t, d, name)],
        Kind::Tup(ts) => match d {
            Val::Rec(vs) => ts.iter().zip(vs).flat_map(|(t, v)| els(r, t, v, Some(name))).collect(),
            _ => vec![],
        },
        Kind::Struct(s) => match d {
            Val::Rec(vs) => vec![structure(r, s, vs, name)],
            _ => vec![],
        },
    }
}

fn payload(r: &mut Rng, t: &Ty, v: &Val, name: &str) -> El {
    match (t, v) {
        (Ty::Opt(t), Val::Some(v)) | (Ty::New(t), Val::New(v)) => payload(r, t, v, name),
        (Ty::Seq(_) | Ty::Tup(_), _) => El::new(name).with(els(r, t, v, None)),
        _ => els(r, t, v, Some(name)).pop().unwrap_or_else(|| El::new(name)),
    }
}

// ---------------------------------------------------------------------------------------------
// Documents

/// Text in pieces, as comments and sections would leave it.
pub fn pieces(r: &mut Rng, s: &str) -> Vec<String> {
    let cuts: Vec<usize> = s.char_indices().map(|x| x.0).skip(1).collect();
    if cuts.is_empty() || !r.chance(1, 4) {
        return vec![s.to_string()];
    }
    let mut v = vec![];
    let mut from = 0;
    for c in cuts {
        if r.chance(1, 4) {
            v.push(s[from..c].to_string());
            from = c;
        }
    }
    v.push(s[from..].to_string());
    v
}

/// The events of an element. `marks` tells for each event whether what is put before it is in a
/// part that is read.
pub fn events(r: &mut Rng, e: &El, outer: bool, out: &mut Vec<Ev>, marks: &mut Vec<bool>) {
    let mut put = |ev: Ev, m: bool, marks: &mut Vec<bool>| {
        out.push(ev);
        marks.push(m);
    };
    let own = outer && e.read;
    put(Ev::Open(e.tag.clone()), outer, marks);
    for (n, v) in &e.attrs {
        put(Ev::Attr(n.clone(), v.clone()), own, marks);
    }
    put(Ev::Close, own, marks);
    for k in &e.kids {
        match &k.node {
            Node::El(e) => {
                let mut o = vec![];
                let mut m = vec![];
                events(r, e, own, &mut o, &mut m);
                for (o, m) in o.into_iter().zip(m) {
                    put(o, m, marks);
                }
            }
            Node::Text(s) => {
                for p in pieces(r, s) {
                    if !p.is_empty() || r.chance(1, 3) {
                        put(Ev::Char(p), own, marks);
                    }
                }
            }
            Node::Raw(ev) => put(ev.clone(), own, marks),
        }
    }
    put(Ev::End(e.tag.clone()), own, marks);
}

/// Text in a spelling that survives trimming.
fn encode_text(r: &mut Rng, s: &str, out: &mut String) {
    for p in pieces(r, s) {
        let cdata = !p.contains("]]>") && p == trim_ws(&p) && !p.ends_with(']') && r.chance(1, 5);
        if cdata {
            out.push_str(r.pick_str(&["<![CDATA[", "<![cdata[", "<![ CDATA ["]));
            out.push_str(&p);
            out.push_str("]]>");
        } else {
            let n = p.chars().count();
            for (i, c) in p.chars().enumerate() {
                let edge = i == 0 || i + 1 == n;
                if c == '<' || c == '>' || c == '&' || (edge && is_ws(c)) || r.chance(1, 20) {
                    if r.bool() {
                        out.push_str(&format!("&#{};", c as u32));
                    } else {
                        out.push_str(&format!("&#x{:X};", c as u32));
                    }
                } else {
                    out.push(c);
                }
            }
        }
        if r.chance(1, 6) {
            out.push_str("<!-- </a> & x -->");
        }
    }
}

fn encode_attr(r: &mut Rng, s: &str, out: &mut String) {
    if !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '.') && r.bool() {
        out.push_str(s);
        return;
    }
    let q = if r.bool() { '"' } else { '\'' };
    out.push(q);
    for c in s.chars() {
        if c == q || c == '&' || r.chance(1, 20) {
            out.push_str(&format!("&#{};", c as u32));
        } else {
            out.push(c);
        }
    }
    out.push(q);
}

fn blank(r: &mut Rng, out: &mut String) {
    match r.below(5) {
        0 => out.push_str("\n    "),
        1 => out.push_str(" <!-- note --> "),
        2 => out.push('\t'),
        _ => {}
    }
}

/// Source text of an element; end tags of text elements may be left out.
pub fn source(r: &mut Rng, e: &El, above: &mut Vec<String>, out: &mut String) {
    out.push('<');
    out.push_str(&e.tag);
    for (n, v) in &e.attrs {
        out.push_str(r.pick_str(&[" ", "\n", "  "]));
        out.push_str(n);
        if let Some(v) = v {
            out.push_str(r.pick_str(&["=", " = "]));
            encode_attr(r, v, out);
        }
    }
    let leaf = e.is_leaf();
    if leaf && e.kids.is_empty() && !above.is_empty() && r.chance(1, 4) {
        out.push_str(r.pick_str(&[" />", "\n/>"]));
        return;
    }
    out.push('>');
    for k in &e.kids {
        match &k.node {
            Node::El(c) => {
                if !leaf {
                    blank(r, out);
                }
                let n = above.len();
                above.push(e.tag.clone());
                if e.kids.iter().any(|k| matches!(&k.node, Node::Text(s) if !s.is_empty())) {
                    // What follows could be text: the end tag has to stay
                    above.push(c.tag.clone());
                }
                source(r, c, above, out);
                above.truncate(n);
            }
            Node::Text(s) => encode_text(r, s, out),
            Node::Raw(ev) => out.push_str(&unconv(ev).to_string()),
        }
    }
    // White space before an omitted end tag is left outside
    let firm = match e.kids.last() {
        Some(Kid { node: Node::Text(s), .. }) => !s.ends_with(is_ws),
        _ => true,
    };
    if leaf && firm && !above.is_empty() && !above.contains(&e.tag) && r.chance(1, 4) {
        out.push_str(r.pick_str(&["", "\n", " "]));
        return;
    }
    if !leaf {
        blank(r, out);
    }
    out.push_str("</");
    out.push_str(&e.tag);
    out.push_str(r.pick_str(&["", " "]));
    out.push('>');
}

pub fn count(e: &El) -> usize {
    1 + e.kids.iter().map(|k| if let Node::El(c) = &k.node { count(c) } else { 0 }).sum::<usize>()
}
