//! C10: names resolve against the caller's live frames as answered.
use crate::case::*;
use crate::driver::*;
use crate::gen::*;
use crate::rng::*;
use crate::scope::*;
use crate::sut::*;
use crate::*;
use rpwrap::*;
use std::cell::RefCell;

pub struct C10;

/// Smaller programs for every operation that holds one.
pub fn program_shrinks(c: &Case, name: &str) -> Vec<Case> {
    let mut out = vec![];
    for (i, o) in c.ops.iter().enumerate() {
        if o.name == name {
            for s in T::parse(&o.str(0)).shrinks() {
                let mut d = c.clone();
                d.ops[i].strs[0] = s.text().into_bytes();
                out.push(d);
            }
        }
    }
    out
}
pub fn fuel(r: &mut Rng) -> i32 {
    *r.pick(&[8, 15, 15, 25, 25, 40, 70, 120])
}
/// A table holding these names.
pub fn table_of(names: &[String]) -> LvarCollector {
    let mut t = LvarCollector::new();
    for n in names {
        t.insert(n);
    }
    t
}
pub fn own_table(t: &LvarCollector) -> Option<Table> {
    table(&read(&format!("{:?}", t))?)
}

impl Prop for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn size(&self, thorough: bool) -> (usize, usize) {
        if thorough { (256, 40_000) } else { (64, 8_000) }
    }
    fn gen(&self, r: &mut Rng, _sh: &mut Shard) -> Case {
        let mut c = Case::new("C10");
        let f = fuel(r);
        c.push("prog", &[], &[Gen::wide_program(r, f).text().as_bytes()]);
        let entry = r.below(3) as i64;
        let mode = if entry == 0 { 0 } else { r.below(3) as i64 };
        c.push("parse", &[entry, mode], &[]);
        if entry == 2 {
            for _ in 0..r.below(4) {
                c.push("table", &[any_var(r)], &[]);
            }
        }
        if mode > 0 {
            for _ in 0..r.range(1, 6) {
                let from = r.below(30) as i64;
                c.push("frame", &[any_var(r), r.range(1, 4) as i64, from, from + r.size(40) as i64], &[]);
            }
        }
        c
    }
    fn run(&self, c: &Case, env: &mut Env) -> Verdict {
        let prog = T::parse(&c.find("prog").map_or(String::new(), |o| o.str(0)));
        let (entry, mode) = c.find("parse").map_or((0, 0), |o| (o.int(0).rem_euclid(3), o.int(1)));
        let e = Entry::from(entry);
        let mode = if e == Entry::Program { 0 } else { mode };
        let mut start: Vec<String> = vec![];
        if e == Entry::Binding {
            for o in c.ops.iter().filter(|o| o.name == "table") {
                let n = var(o.uint(0) as u32);
                if !start.contains(&n) {
                    start.push(n)
                }
            }
        }
        let p = print(&prog, &start);
        env.ev(|| format!("text {:?}", p.text));
        let loops: Vec<&String> = p.evs.iter().filter_map(|e| if let Ev::For(n) = e { Some(n) } else { None }).flatten().chain(&p.dups).collect();
        let frames: Vec<(String, usize, usize, usize)> = c
            .ops
            .iter()
            .filter(|o| o.name == "frame")
            .map(|o| (var(o.uint(0) as u32), o.uint(1).clamp(1, 9), o.uint(2), o.uint(3)))
            .collect();
        let log: RefCell<Vec<(String, Option<usize>)>> = RefCell::new(vec![]);
        let fixed = |n: &str| -> Option<usize> { frames.iter().find(|f| f.0 == n).map(|f| f.1) };
        let ask = |n: &str| -> Option<usize> {
            let mut l = log.borrow_mut();
            let a = match mode {
                1 => fixed(n),
                _ if loops.iter().any(|x| *x == n) => None,
                // frames come and go as the parse proceeds
                _ => frames.iter().find(|f| f.0 == n && (f.2..f.3.max(f.2)).contains(&l.len())).map(|f| f.1),
            };
            l.push((n.to_string(), a));
            a
        };
        let ctx = Ctx(&ask);
        let table = if e == Entry::Binding && (!start.is_empty() || mode == 0) { Some(table_of(&start)) } else { None };
        let r = budget(c01::allowed(p.text.len()), || guard(|| parse(e, &p.text, "a.rb", table, if mode == 0 { None } else { Some(&ctx) })));
        let log = log.into_inner();
        for (n, a) in &log {
            env.ev(|| format!("asked {} answered {:?}", n, a));
        }
        if mode == 2 {
            let flips = log.iter().enumerate().filter(|(i, x)| log[..*i].iter().rev().find(|y| y.0 == x.0).map_or(false, |y| y.1 != x.1)).count();
            env.st.add("fault frame changed between two consultations", flips as u64);
        }
        env.st.inc(["context none", "context fixed", "context changing"][mode.clamp(0, 2) as usize]);
        let r = match r {
            Err(p) => return fail(format!("panic {}", p.place()), format!("panicked: {}", p.msg)),
            Ok(r) => r,
        };
        env.ev(|| show(&r));
        let r = match r {
            Err(e) => return fail("rejected", format!("{:?} at {:?} for {:?}", e.kind, e.loc, p.text)),
            Ok(r) => r,
        };
        let Some(node) = read(&format!("{:?}", r.node)) else { return fail("unreadable", "the printed tree cannot be read") };
        let Some(fin) = own_table(&r.lvar_collector) else { return fail("unreadable", "the printed table cannot be read") };
        let obs = observe(&node);
        env.st.add("names checked", obs.locals.len() as u64);
        if obs.tables.len() > 0 && !obs.locals.is_empty() {
            env.st.inc("nontrivial");
        }
        let f = match mode {
            0 => Frames::None,
            1 => Frames::Fixed(&fixed),
            _ => Frames::Logged(&log),
        };
        match judge(&p.evs, &start, &f, &obs, &fin) {
            Ok(v) => {
                env.st.state(v.state);
                if mode == 2 {
                    env.st.schedules.insert(hash(format!("{:?}", log).as_bytes()));
                }
                Verdict::Pass
            }
            Err((k, d)) => fail(k, format!("{} in {:?}", d, p.text)),
        }
    }
    fn shrinks(&self, c: &Case) -> Vec<Case> {
        program_shrinks(c, "prog")
    }
    fn rule(&self) -> &'static str {
        "A generated program parsed through one entry point with an initial table and a caller context that has no frames, fixed frames, or frames that appear and disappear between consultations; every name occurrence, every loop variable and every table is compared with a reference resolver. Non-trivial: at least one inner scope and one local variable; distinct: the sequence of scope and resolution events differs."
    }
    fn real(&self) -> &'static [&'static str] {
        &["ruruby_parse lexer and parser (instrumented build of /repo)"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["caller and its frames (simulated, answers decided per consultation)"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &[
            "programs of the generator's grammar; numbered parameters and constants in method bodies are outside it",
            "a frame answer counts frames from the outermost scope of the parse, starting at one",
            "whether a name is visible in the value being assigned to it is not judged (never generated)",
            "with changing frames, loop variables and names assigned twice by one assignment are never answered, and an occurrence may use any answer given for that name from the previous occurrence's on",
        ]
    }
    fn probes(&self) -> &'static [&'static str] {
        &["context none", "context fixed", "context changing", "fault frame changed between two consultations", "names checked"]
    }
}
