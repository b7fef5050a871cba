//! C30: operations that run at the same time, or inside of each other, do not disturb each other.
//!
//! The library calls back into its user: lookups, target types, writers, iterators that are
//! advanced step by step. At each such point the operation can be suspended while others run, on
//! the same thread or on other ones. A scheduler with a seed decides which goes on, so that every
//! interleaving can be had again.

use super::de::{made, TRUST};
use super::{real, real_detailed};
use crate::dy::*;
use crate::fw::*;
use crate::gen;
use crate::model::*;
use crate::rng::Rng;
use crate::soup;
use serde::de::DeserializeSeed;
use sgmlish::de::SgmlDeserializer;
use sgmlish::parser::ParserBuilder;
#[cfg(feature = "combinators")]
use sgmlish::parser::{events as pev, ContextualizedError};
use sgmlish::transforms::{normalize_end_tags, Transform};
use std::cell::RefCell;
use std::fmt::{self, Write};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

pub static CHECKS: &[&Check] = &[&C30];

pub static C30: Check = Check {
    id: "C30",
    rule: "2-6 operations (parsing through every entry point, expanding references, escaping and event iterators advanced in steps, printing, deserializing, normalizing, transforming), some of them alike, each first run alone; then together on 1-5 threads under a scheduler that, at each point where the library calls its user (lookup, target type, writer, between the steps of an iterator), may go on with another thread or run another operation inside of this one. Some go without the scheduler, at the same time, several times. Each must have the result it has alone. Non-trivial = distinct (operations, interleaving) in which there was at least one switch.",
    case: c30,
    quick: 60_000,
    thorough: 900_000,
    probes: &[("rendezvous", rendezvous)],
    need: &["switches", "nested", "on_one_thread", "on_threads", "unscheduled", "parse", "expand", "escape", "print", "read", "normalize", "transform", "lazy", "deep", "alike"],
    assumptions: TRUST,
};

// ---------------------------------------------------------------------------------------------
// Operations

#[derive(Clone, Debug)]
enum Job {
    Parse(Cfg, String, u8),
    Lazy(Cfg, String),
    Expand(Table, String, bool),
    Escape(String, bool),
    Print(Vec<Ev>),
    Read(Ty, Vec<Ev>),
    Normalize(Vec<Ev>),
    Transform(Vec<Ev>, Vec<(usize, Option<String>)>),
}

fn hooked(cfg: &Cfg) -> ParserBuilder {
    let mut b = Cfg { ents: None, pents: None, ..cfg.clone() }.builder();
    if let Some(t) = cfg.ents.clone() {
        b = b.expand_entities(move |n| {
            let v = t.get(n).cloned();
            hook();
            v
        });
    }
    if let Some(t) = cfg.pents.clone() {
        b = b.expand_parameter_entities(move |n| {
            hook();
            t.get(n).cloned()
        });
    }
    b
}

struct Slow(String, usize);
impl Write for Slow {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.1 += 1;
        if self.1 % 3 == 0 {
            hook();
        }
        self.0.push_str(s);
        Ok(())
    }
}

impl Job {
    fn kind(&self) -> &'static str {
        match self {
            Job::Parse(..) => "parse",
            Job::Lazy(..) => "lazy",
            Job::Expand(..) => "expand",
            Job::Escape(..) => "escape",
            Job::Print(..) => "print",
            Job::Read(..) => "read",
            Job::Normalize(..) => "normalize",
            Job::Transform(..) => "transform",
        }
    }

    fn work(&self) -> String {
        match self {
            Job::Parse(cfg, s, 0) => format!("{:?}", hooked(cfg).parse(s).map(|f| convs(&f)).map_err(|e| e.to_string())),
            Job::Parse(cfg, s, 1) => format!("{:?}", real(&hooked(cfg).build(), s)),
            Job::Parse(cfg, s, 2) => {
                let p = hooked(cfg).build();
                let r = real_detailed(&p, s);
                hook();
                // Described only later
                format!("{:?}", r.map_err(|e| e.describe(&s.as_str())))
            }
            Job::Parse(cfg, s, _) => format!("{:?}", hooked(cfg).build().parse_with_detailed_errors::<()>(s).map(|f| convs(&f))),
            #[cfg(not(feature = "combinators"))]
            Job::Lazy(cfg, s) => format!("{:?}", real(&hooked(cfg).build(), s)),
            #[cfg(feature = "combinators")]
            Job::Lazy(cfg, s) => {
                let cfg = hooked(cfg).into_config();
                let mut out = String::new();
                match pev::document_entity::<ContextualizedError<&str>>(s, &cfg) {
                    Ok((rest, it)) => {
                        let _ = write!(out, "{} left:", rest.len());
                        for e in it {
                            hook();
                            let _ = write!(out, " {:?}", conv(&e));
                        }
                    }
                    Err(nom::Err::Error(e) | nom::Err::Failure(e)) => {
                        hook();
                        out = e.describe(&s.as_str());
                    }
                    Err(e) => out = format!("{:?}", e),
                }
                out
            }
            Job::Expand(t, s, param) => {
                let f = |n: &str| {
                    hook();
                    t.get(n).cloned()
                };
                if *param {
                    format!("{:?}", sgmlish::entities::expand_parameter_entities(s, f))
                } else {
                    format!("{:?}", sgmlish::entities::expand_entities(s, f))
                }
            }
            Job::Escape(s, amp) => {
                let mut e = sgmlish::text::escape(s);
                e.set_escape_ampersand(*amp);
                let mut out = String::new();
                let mut w = Slow(String::new(), 0);
                let _ = write!(w, "{}", e.clone());
                while let Some(c) = e.next() {
                    out.push(c);
                    if out.len() % 5 == 0 {
                        hook();
                    }
                }
                format!("{:?} {:?}", out, w.0)
            }
            Job::Print(evs) => {
                let f = frag(evs);
                let mut w = Slow(String::new(), 0);
                let _ = write!(w, "{}", f);
                w.0
            }
            Job::Read(t, evs) => {
                let f = frag(evs);
                let r = SgmlDeserializer::from_fragment(f).and_then(|mut d| {
                    hook();
                    Seed(t).deserialize(&mut d)
                });
                format!("{:?}", r)
            }
            Job::Normalize(evs) => format!("{:?}", normalize_end_tags(frag(evs)).map(|f| convs(&f))),
            Job::Transform(evs, ops) => {
                let mut t = Transform::new();
                for (i, op) in ops {
                    match op {
                        Some(s) => t.insert_at(*i, sgmlish::SgmlEvent::Character(s.clone().into())),
                        None => t.remove_at(*i),
                    }
                    hook();
                }
                format!("{:?}", convs(&t.apply(frag(evs))))
            }
        }
    }

    fn enlarge(&mut self, r: &mut Rng) {
        let m = gen::magnitude(r, 60);
        match self {
            Job::Parse(_, s, _) | Job::Lazy(_, s) if m < 20 => *s = format!("<r>{}</r>", s.repeat(m)),
            Job::Expand(_, s, _) | Job::Escape(s, _) => *s = s.repeat(m),
            Job::Print(evs) | Job::Normalize(evs) => {
                let one = std::mem::take(evs);
                evs.extend([Ev::Open("r".into()), Ev::Close]);
                (0..m).for_each(|_| evs.extend(one.iter().cloned()));
                evs.push(Ev::End("r".into()));
            }
            _ => {}
        }
    }

    fn run(&self) -> String {
        let mut out = String::new();
        match guarded(|| {
            out = self.work();
            Ok(())
        }) {
            Outcome::Held => out,
            Outcome::Violated(m) | Outcome::Harness(m) => format!("panicked: {}", m),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Interleaving

struct World {
    jobs: Vec<Job>,
    alone: Vec<String>,
    st: Mutex<St>,
    cv: Condvar,
}

struct St {
    r: Rng,
    turn: usize,
    alive: Vec<bool>,
    /// How often operations are still interrupted.
    budget: usize,
    trace: Vec<u8>,
    switches: u64,
    nested: u64,
    bad: Option<String>,
}

#[derive(Clone)]
struct Me {
    w: Arc<World>,
    id: usize,
    depth: usize,
}

thread_local! {
    static ME: RefCell<Option<Me>> = const { RefCell::new(None) };
}

/// Called wherever the library calls its user.
pub fn hook() {
    if let Some(me) = ME.with(|m| m.borrow().clone()) {
        me.w.point(&me);
    }
}

impl World {
    fn point(self: &Arc<World>, me: &Me) {
        let mut st = self.st.lock().unwrap();
        if st.budget == 0 || st.bad.is_some() {
            return;
        }
        match st.r.below(8) {
            0..=3 => {
                let others: Vec<usize> = (0..st.alive.len()).filter(|&i| i != me.id && st.alive[i]).collect();
                if others.is_empty() {
                    return;
                }
                st.budget -= 1;
                let next = *st.r.pick(&others);
                st.trace.push(next as u8);
                st.switches += 1;
                st.turn = next;
                self.cv.notify_all();
                drop(self.cv.wait_while(st, |st| st.turn != me.id).unwrap());
            }
            4 | 5 if me.depth < 4 => {
                st.budget -= 1;
                let j = st.r.below(self.jobs.len());
                st.trace.push(100 + j as u8);
                st.nested += 1;
                drop(st);
                self.perform(Me { depth: me.depth + 1, ..me.clone() }, j);
                ME.with(|m| *m.borrow_mut() = Some(me.clone()));
                self.st.lock().unwrap().trace.push(99);
            }
            _ => st.trace.push(98),
        }
    }

    fn perform(self: &Arc<World>, me: Me, j: usize) {
        let id = me.id;
        let depth = me.depth;
        ME.with(|m| *m.borrow_mut() = Some(me));
        let got = self.jobs[j].run();
        ME.with(|m| *m.borrow_mut() = None);
        if got != self.alone[j] {
            let mut st = self.st.lock().unwrap();
            if st.bad.is_none() {
                st.bad = Some(format!("operation {} on thread {}, {} deep, gave {}\nalone it gives {}", j, id, depth, short(&got, 2000), short(&self.alone[j], 2000)));
            }
        }
    }

    /// Without the scheduler: as the machine has it.
    fn free(self: &Arc<World>, id: usize, jobs: &[usize], start: &std::sync::Barrier) {
        start.wait();
        for round in 0..8 {
            for &j in jobs {
                let got = self.jobs[j].run();
                if got != self.alone[j] {
                    let mut st = self.st.lock().unwrap();
                    st.bad.get_or_insert(format!("operation {} on thread {}, at the same time as others, round {}, gave {}\nalone it gives {}", j, id, round, short(&got, 2000), short(&self.alone[j], 2000)));
                    return;
                }
            }
        }
    }

    fn thread(self: &Arc<World>, id: usize, jobs: &[usize]) {
        drop(self.cv.wait_while(self.st.lock().unwrap(), |st| st.turn != id).unwrap());
        for &j in jobs {
            self.perform(Me { w: self.clone(), id, depth: 0 }, j);
        }
        let mut st = self.st.lock().unwrap();
        st.alive[id] = false;
        let others: Vec<usize> = (0..st.alive.len()).filter(|&i| st.alive[i]).collect();
        if !others.is_empty() {
            st.turn = *st.r.pick(&others);
            let t = st.turn as u8;
            st.trace.push(t);
        }
        self.cv.notify_all();
    }
}

// ---------------------------------------------------------------------------------------------
// Workloads

/// A source in which a lookup is made far inside.
fn deep(r: &mut Rng) -> (String, Cfg) {
    let n = gen::magnitude(r, 120);
    let (a, b) = *r.pick(&[("<![INCLUDE[", "]]>"), ("<![%i;[<b>", "</b>]]>"), ("<x y='&w;'>", "</x>"), ("<![INCLUDE[&w;", "]]>"), ("<Xy>", "<!-- c -->")]);
    let s = format!("<a>{}t&w;u{}</a>", a.repeat(n), b.repeat(n));
    let table: Table = [("w".to_string(), r.pick_str(&["x", "", "<&", "é"]).to_string())].into_iter().collect();
    let ptable: Table = [("i".to_string(), "INCLUDE".to_string())].into_iter().collect();
    let mut c = gen::random_cfg(r, &table, &ptable);
    c.ms = *r.pick(&[Ms::Expand, Ms::Expand, Ms::Keep]);
    // What is kept is read twice at each level
    if c.ms == Ms::Keep && n > 8 {
        c.ms = Ms::Expand;
    }
    c.ents = Some(table);
    c.pents = Some(ptable);
    (s, c)
}

fn job(ctx: &mut Ctx, k: usize) -> Option<Job> {
    let r = &mut ctx.r;
    Some(match k {
        0..=3 => {
            let (s, c) = if r.chance(1, 4) {
                let d = deep(r);
                ctx.counts.entry("deep").and_modify(|n| *n += 1).or_insert(1);
                d
            } else {
                let (s, t, p) = soup::any_input(r, 40);
                let c = gen::random_cfg(r, &t, &p);
                (s, c)
            };
            let k = ctx.r.below(5) as u8;
            if k == 4 {
                Job::Lazy(c, s)
            } else {
                Job::Parse(c, s, k)
            }
        }
        4 | 5 => {
            let (s, t, p) = soup::any_input(r, 30);
            if r.chance(1, 4) {
                Job::Expand(p, format!(" %p;{}%q;", s.replace("&", "%")), true)
            } else {
                Job::Expand(t, s, false)
            }
        }
        6 => {
            let (s, _, _) = soup::any_input(r, 30);
            Job::Escape(s, r.chance(3, 4))
        }
        7..=11 => {
            let d = r.range(1, 3);
            let (t, _, e) = made(r, d)?;
            let mut evs = vec![];
            events(r, &e, true, &mut evs, &mut vec![]);
            if evs.len() > 400 {
                return None;
            }
            if r.chance(1, 6) {
                let i = r.below(evs.len());
                evs.remove(i);
            }
            match k {
                7 => Job::Print(evs),
                8 => {
                    if r.bool() {
                        evs.retain(|e| !matches!(e, Ev::End(n) if n.len() % 2 == 1));
                    }
                    if r.bool() {
                        // Empty elements in the other form
                        let mut i = 0;
                        while i + 1 < evs.len() {
                            if evs[i] == Ev::Close && matches!(evs[i + 1], Ev::End(_)) && r.chance(2, 3) {
                                evs[i] = Ev::XmlClose;
                                evs.remove(i + 1);
                            }
                            i += 1;
                        }
                    }
                    Job::Normalize(evs)
                }
                _ => Job::Read(t, evs),
            }
        }
        12 => {
            let (s, t, p) = soup::any_input(r, 30);
            let c = gen::random_cfg(r, &t, &p);
            match real(&c.parser(), &s) {
                Ok(evs) => Job::Print(evs),
                Err(_) => return None,
            }
        }
        _ => {
            let evs: Vec<Ev> = (0..r.below(12)).map(|i| Ev::Char(i.to_string())).collect();
            let ops = (0..r.below(12)).map(|i| (r.below(evs.len() + 3), if r.bool() { Some(format!("new{}", i)) } else { None })).collect();
            Job::Transform(evs, ops)
        }
    })
}

/// Another operation that has much in common with the given one.
fn alike(r: &mut Rng, j: &Job) -> Job {
    let flip = |s: &str, up: bool| if up { s.to_uppercase() } else { s.to_lowercase() };
    let mut j = j.clone();
    match &mut j {
        Job::Parse(c, s, _) | Job::Lazy(c, s) => match r.below(5) {
            0 => *s = flip(s, true),
            1 => *s = flip(s, false),
            2 => c.trim = !c.trim,
            3 => c.norm = *r.pick(&[Norm::Same, Norm::Lower, Norm::Upper]),
            _ => {
                // The same names for other things
                if let Some(t) = &mut c.ents {
                    t.values_mut().for_each(|v| v.push('2'));
                }
            }
        },
        Job::Expand(t, s, _) => {
            if r.bool() {
                t.values_mut().for_each(|v| v.push('2'));
            } else {
                *s = flip(s, true);
            }
        }
        Job::Escape(_, amp) => *amp = !*amp,
        Job::Print(evs) | Job::Normalize(evs) | Job::Read(_, evs) => {
            let up = r.bool();
            let n = r.below(evs.len().max(1));
            if let Some(Ev::Char(s)) = evs.get_mut(n) {
                *s = flip(s, up);
            } else {
                evs.truncate(n);
            }
        }
        Job::Transform(_, ops) => ops.reverse(),
    }
    j
}

fn c30(ctx: &mut Ctx) -> V {
    world(ctx, false)
}

/// Runs several operations together; with `parse_only`, such that parse.
pub fn world(ctx: &mut Ctx, parse_only: bool) -> V {
    let n = ctx.r.range(2, 6);
    // Without a scheduler, what is alike and long meets best
    let threads = if ctx.r.chance(1, 2) { 1 } else { ctx.r.range(2, 5) };
    let free = threads > 1 && ctx.r.chance(1, 4);
    let of_kind = if free && ctx.r.bool() { Some(ctx.r.below(if parse_only { 5 } else { 14 })) } else { None };
    let mut jobs: Vec<Job> = vec![];
    while jobs.len() < n {
        if !jobs.is_empty() && ctx.r.chance(1, 3) {
            let i = ctx.r.below(jobs.len());
            let j = jobs[i].clone();
            jobs.push(alike(&mut ctx.r, &j));
            ctx.count("alike");
        } else if let Some(mut j) = {
            let k = of_kind.unwrap_or_else(|| ctx.r.below(if parse_only { 5 } else { 14 }));
            job(ctx, k)
        } {
            if of_kind.is_some() {
                j.enlarge(&mut ctx.r);
            }
            jobs.push(j);
        }
    }
    ctx.input = jobs.iter().enumerate().map(|(i, j)| format!("operation {}: {}\n", i, short(&format!("{:?}", j), 3000))).collect();
    for j in &jobs {
        ctx.count(j.kind());
    }
    let alone: Vec<String> = jobs.iter().map(|j| j.run()).collect();
    let plans: Vec<Vec<usize>> = (0..threads).map(|_| (0..ctx.r.range(1, 3)).map(|_| ctx.r.below(n)).collect()).collect();
    let r = Rng::new(ctx.r.u64());
    let w = Arc::new(World {
        jobs,
        alone,
        st: Mutex::new(St { r, turn: 0, alive: vec![true; threads], budget: if ctx.r.chance(1, 8) { 300 } else { 30 }, trace: vec![], switches: 0, nested: 0, bad: None }),
        cv: Condvar::new(),
    });
    if threads == 1 {
        w.thread(0, &plans[0]);
        ctx.count("on_one_thread");
    } else if free {
        let start = std::sync::Barrier::new(threads);
        std::thread::scope(|s| {
            for (id, plan) in plans.iter().enumerate() {
                let (w, start) = (w.clone(), &start);
                std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, move || w.free(id, plan, start)).expect("spawn");
            }
        });
        ctx.count("unscheduled");
    } else {
        std::thread::scope(|s| {
            for (id, plan) in plans.iter().enumerate() {
                let w = w.clone();
                std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, move || w.thread(id, plan)).expect("spawn");
            }
        });
        ctx.count("on_threads");
    }
    let st = w.st.lock().unwrap();
    ctx.add("switches", st.switches);
    ctx.add("nested", st.nested);
    if let Some(m) = &st.bad {
        ctx.input += &format!("operations of the threads: {:?}\ninterleaving: {:?}", plans, st.trace);
        return Err(m.clone());
    }
    let any = st.switches + st.nested > 0;
    ctx.judged(if any { Some(format!("{}{:?}{:?}", ctx.input, plans, st.trace).into_bytes()) } else { None }.as_deref());
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// All at the same place

/// Lets all threads that arrive go on when they are `n`, or after some time.
struct Meeting {
    n: usize,
    here: Mutex<usize>,
    cv: Condvar,
}
impl Meeting {
    fn arrive(&self) {
        let mut h = self.here.lock().unwrap();
        *h += 1;
        self.cv.notify_all();
        let n = self.n;
        drop(self.cv.wait_timeout_while(h, Duration::from_secs(4), |h| *h < n).unwrap());
    }
}

thread_local! {
    static MEET: RefCell<Option<Arc<Meeting>>> = const { RefCell::new(None) };
}

struct Waits(u64);
impl<'de> serde::Deserialize<'de> for Waits {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        if let Some(m) = MEET.with(|m| m.borrow_mut().take()) {
            m.arrive();
        }
        u64::deserialize(d).map(Waits)
    }
}
#[derive(serde::Deserialize)]
struct Level {
    #[serde(default)]
    l: Option<Box<Level>>,
    #[serde(default)]
    v: Option<Waits>,
}

/// 32 threads, each suspended at the same time far inside of something large.
pub fn rendezvous() -> V {
    const N: usize = 32;
    let shapes: Vec<(&str, fn(usize) -> String)> = vec![
        ("included sections", |i| format!("<a>{}&w;{}{}</a>", "<![INCLUDE[".repeat(100), i, "]]>".repeat(100))),
        ("included sections, by entity", |i| format!("<a>{}<b c='&w;{}'></b>{}</a>", "<![%i;[<x>".repeat(100), i, "</x>]]>".repeat(100))),
        ("a keyword", |i| format!("<a>{}<![%w;[t{}]]>{}</a>", "<![INCLUDE[".repeat(30), i, "]]>".repeat(30))),
        ("attributes", |i| format!("<a {}b{}='&w;'></a>", "A='x' b=y c ".repeat(2000), i)),
        ("references", |i| format!("<a>{}&w;{}</a>", "&#65;b&x;".repeat(2000), i)),
        ("elements", |i| format!("{}&w;{}{}", "<a>".repeat(2000), i, "</a>".repeat(2000))),
        ("RCDATA", |i| format!("<a>{}<![RCDATA[ {} &w;{}]]></a>", "<b>".repeat(i), "t ".repeat(3000), i)),
        ("an undefined entity", |i| format!("<a>\n\n{}<b>&w;<c>{}&undefined;</a>", "t\n".repeat(i), i)),
    ];
    for (what, src) in shapes {
        for norm in [Norm::Same, Norm::Lower] {
            let cfg = Cfg {
                norm,
                ms: Ms::Expand,
                ents: Some([("w", "W"), ("x", "X")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()),
                pents: Some([("w", "RCDATA"), ("i", "INCLUDE")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()),
                ..Cfg::default()
            };
            let all: Vec<String> = (0..N).map(src).collect();
            let want: Vec<_> = all.iter().map(|s| real(&cfg.parser(), s)).collect();
            let meeting = Arc::new(Meeting { n: N, here: Mutex::new(0), cv: Condvar::new() });
            let one = |i: usize| -> V {
                let parser = |m: Arc<Meeting>| {
                    let (t, p, m2) = (cfg.ents.clone().unwrap(), cfg.pents.clone().unwrap(), m.clone());
                    Cfg { ents: None, pents: None, ..cfg.clone() }
                        .builder()
                        .expand_entities(move |n| {
                            if n == "w" {
                                m.arrive();
                            }
                            t.get(n).cloned()
                        })
                        .expand_parameter_entities(move |n| {
                            if n == "w" {
                                m2.arrive();
                            }
                            p.get(n).cloned()
                        })
                        .build()
                };
                let got = real(&parser(meeting.clone()), &all[i]);
                if got != want[i] {
                    return Err(format!("{}: parsed at the same time as others, {} gave {}, alone {}", what, short(&all[i], 300), short(&format!("{:?}", got), 600), short(&format!("{:?}", want[i]), 600)));
                }
                Ok(())
            };
            together(N, &one)?;
        }
    }
    let meeting = Arc::new(Meeting { n: N, here: Mutex::new(0), cv: Condvar::new() });
    together(N, &|i| {
        let n = 100 + i;
        let s = format!("<l>{}<v>{}</v>{}</l>", "<l>".repeat(n), i, "</l>".repeat(n));
        MEET.with(|m| *m.borrow_mut() = Some(meeting.clone()));
        let f = sgmlish::parse(&s).map_err(|e| e.to_string())?;
        let mut l: Level = f.deserialize().map_err(|e| format!("read at the same time as others, {} levels gave {}", n, e))?;
        let mut levels = 0;
        while let Some(k) = l.l.take() {
            levels += 1;
            l = *k;
        }
        if levels != n || l.v.map(|w| w.0) != Some(i as u64) {
            return Err(format!("read at the same time as others, {} levels were {}", n, levels));
        }
        Ok(())
    })?;
    // Inside of each other
    fn inner(level: usize) -> V {
        let b = sgmlish::Parser::builder().lowercase_names().expand_marked_sections().expand_entities(move |n| {
            if n == "w" && level < 40 {
                if let Err(m) = inner(level + 1) {
                    return Some(m);
                }
            }
            Some(format!("{}{}", n, level))
        });
        let s = format!("<A>&w;<![INCLUDE[<B c='&x;'>{}<![RCDATA[&v;]]></B>]]></A>", level);
        let want = format!("<a>w{l}<b c=\"x{l}\">{l}v{l}</b></a>", l = level);
        let got = b.parse(&s).map_err(|e| format!("level {}: {}", level, e))?.to_string();
        if got != want {
            return Err(format!("parsing inside of a lookup, level {}: {:?} in place of {:?}", level, got, want));
        }
        Ok(())
    }
    inner(0)
}

fn together(n: usize, f: &(dyn Fn(usize) -> V + Sync)) -> V {
    let bad: Mutex<Option<Outcome>> = Mutex::new(None);
    std::thread::scope(|s| {
        for i in 0..n {
            let bad = &bad;
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let o = guarded(|| f(i));
                    if !matches!(o, Outcome::Held) {
                        *bad.lock().unwrap() = Some(o);
                    }
                })
                .expect("spawn");
        }
    });
    match bad.into_inner().unwrap() {
        None | Some(Outcome::Held) => Ok(()),
        Some(Outcome::Violated(m)) => Err(m),
        Some(Outcome::Harness(m)) => panic!("harness: {}", m),
    }
}
