//! C06: a failed, unwound or nested parse leaves no trace.
//!
//! One process with a long history of parses: some fail, some are unwound by their context, some
//! are started from inside a context, some results are kept and dropped in any order. Every one is
//! compared with what it gives in a fresh process.
use crate::c05::{alone, first_diff};
use crate::case::*;
use crate::driver::*;
use crate::job::*;
use crate::rng::*;
use crate::*;
use std::cell::{Cell, RefCell};

pub struct C06;

struct Node {
    job: Job,
    keep: bool,
    times: usize,
    inner: Vec<Node>,
}

struct World<'a> {
    want: &'a dyn Fn(&Job) -> String,
    kept: RefCell<Vec<(Out, String)>>,
    bad: RefCell<Option<(String, String)>>,
    log: RefCell<Vec<String>>,
    depth: Cell<usize>,
    parses: Cell<u64>,
}

impl<'a> World<'a> {
    fn wrong(&self, class: &str, why: String) {
        let mut b = self.bad.borrow_mut();
        if b.is_none() {
            *b = Some((class.into(), why));
        }
    }
    fn note(&self, s: String) {
        let mut l = self.log.borrow_mut();
        if l.len() < 3000 {
            l.push(s)
        }
    }
    fn exec(&self, n: &Node) {
        for _ in 0..n.times.max(1) {
            if self.bad.borrow().is_some() {
                return;
            }
            let raised = Cell::new(false);
            self.depth.set(self.depth.get() + 1);
            let out = n.job.run(&|i, _| {
                if i == n.job.k {
                    for x in &n.inner {
                        self.exec(x);
                    }
                    if n.job.mode == 4 {
                        raised.set(true);
                    }
                }
            });
            self.depth.set(self.depth.get() - 1);
            self.parses.set(self.parses.get() + 1);
            self.note(format!("{}{}", out.name(), self.depth.get()));
            if raised.get() && !matches!(out, Out::Unwound(k) if k == n.job.k as u64) {
                self.wrong("payload", format!("the context unwound consultation {} of {:?} but the caller got {}", n.job.k, n.job.text, out.show()));
                return;
            }
            let s = out.show();
            let w = (self.want)(&n.job);
            if s != w {
                let (a, b) = first_diff(&s, &w);
                self.wrong("differs", format!("parse {} of the process, at depth {}, of {:?} (entry {:?}, context {}) gave {} but in a fresh process {}", self.parses.get(), self.depth.get(), n.job.text, n.job.entry, n.job.mode, a, b));
                return;
            }
            if n.keep {
                self.kept.borrow_mut().push((out, s));
            }
        }
    }
}

fn build(ops: &[Op]) -> Vec<Item> {
    let mut v: Vec<Item> = vec![];
    for o in ops {
        match o.name.as_str() {
            "job" => {
                let n = Node { job: Job::of(o), keep: o.int(4) == 1, times: o.uint(5), inner: vec![] };
                let mut level = o.uint(3);
                let mut at: &mut Vec<Node> = match v.last_mut() {
                    Some(Item::Job(x)) if level > 0 => &mut x.inner,
                    _ => {
                        v.push(Item::Job(n));
                        continue;
                    }
                };
                while level > 1 && !at.is_empty() {
                    at = &mut at.last_mut().unwrap().inner;
                    level -= 1;
                }
                at.push(n);
            }
            "drop" => v.push(Item::Drop(o.uint(0))),
            "look" => v.push(Item::Look),
            _ => {}
        }
    }
    v
}
enum Item {
    Job(Node),
    Drop(usize),
    Look,
}
fn jobs<'a>(n: &'a Node, out: &mut Vec<&'a Job>, total: &mut u64) {
    out.push(&n.job);
    *total += n.job.steps() * n.times.max(1) as u64 * 2;
    for x in &n.inner {
        jobs(x, out, total);
        *total += n.times.max(1) as u64 * x.job.steps() * x.times.max(1) as u64 * 2;
    }
}

impl Prop for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn size(&self, thorough: bool) -> (usize, usize) {
        if thorough { (256, 8_000) } else { (64, 700) }
    }
    fn gen(&self, r: &mut Rng, sh: &mut Shard) -> Case {
        if sh.pool.is_empty() {
            let mut q = Rng::derive(sh.seed, &[0xc06, sh.index as u64]);
            for i in 0..150 {
                let mut c = Case::new("C06");
                let mut j = Job::draw(&mut q);
                if i % 3 == 0 && j.entry != sut::Entry::Program {
                    j.mode = 4;
                    j.k = q.below(4);
                }
                c.ops.push(j.to_op("job", &[0, 0, 1]));
                sh.pool.push(c.text().into_bytes());
            }
        }
        let mut c = Case::new("C06");
        let mut level = 0i64;
        for _ in 0..r.range(3, 50) {
            match r.below(14) {
                0 if r.chance(1, 2) => {
                    // parses one inside the other, many deep
                    let deep = *r.pick(&[3, 5, 8, 16]);
                    for l in 0..deep {
                        let j = Case::parse(&String::from_utf8_lossy(r.pick(&sh.pool))).unwrap();
                        let mut o = j.ops[0].clone();
                        let (a, b) = (gen::var(r.below(12) as u32), gen::var(r.below(12) as u32));
                        let own = match r.below(3) {
                            0 => format!("{a}\n"),
                            1 => format!("{a} = 1; {a}\n{b}_\n{a}\n"),
                            _ => format!("{b}_; {a} = 1\n[1].each {{ |{b}| {a}; {b} }}\n"),
                        };
                        o.strs[0] = [own.into_bytes(), o.strs[0].clone()].concat();
                        if o.strs[0].len() > 300 {
                            o.strs[0] = b"a\nb = a\nb\n".to_vec();
                        }
                        o.ints[0] = 1 + r.below(2) as i64;
                        o.ints[1] = 1 + r.below(3) as i64;
                        o.ints[2] = 0;
                        o.ints[3] = l;
                        o.ints[4] = r.chance(1, 3) as i64;
                        o.ints[5] = 1;
                        c.ops.push(o);
                    }
                    level = 0;
                }
                0 => c.push("drop", &[r.below(64) as i64], &[]),
                1 => c.push("look", &[], &[]),
                _ => {
                    let j = Case::parse(&String::from_utf8_lossy(r.pick(&sh.pool))).unwrap();
                    let mut o = j.ops[0].clone();
                    level = if r.chance(1, 3) { r.below(level as usize + 2) as i64 } else { 0 };
                    let times = if level == 0 && o.strs[0].len() < 80 && r.chance(1, 40) { r.range(20, 300) as i64 } else { 1 };
                    o.ints[3] = level;
                    o.ints[4] = (times == 1 && r.chance(1, 3)) as i64;
                    o.ints[5] = times;
                    if r.chance(1, 2) {
                        // consultations of short texts are few
                        o.ints[2] = r.below(3) as i64;
                    }
                    c.ops.push(o);
                }
            }
        }
        c
    }
    fn run(&self, c: &Case, env: &mut Env) -> Verdict {
        let items = build(&c.ops);
        let mut all = vec![];
        let mut total = 1_000_000;
        for i in &items {
            if let Item::Job(n) = i {
                jobs(n, &mut all, &mut total);
            }
        }
        let mut want: std::collections::HashMap<u64, String> = Default::default();
        for j in all {
            match alone(j.key(), || j.run(&|_, _| {}).show()) {
                Ok(s) => {
                    want.insert(j.key(), s);
                }
                Err(_) => return Verdict::Pass, // fails in a fresh process: not this property
            }
        }
        let got = in_child(120, || {
            let w = World {
                want: &|j| want.get(&j.key()).cloned().unwrap_or_default(),
                kept: RefCell::new(vec![]),
                bad: RefCell::new(None),
                log: RefCell::new(vec![]),
                depth: Cell::new(0),
                parses: Cell::new(0),
            };
            let look = || {
                for (o, s) in w.kept.borrow().iter() {
                    if o.show() != *s {
                        let (a, b) = first_diff(&o.show(), s);
                        w.wrong("kept result changed", format!("a result kept from an earlier parse is {} but was {}", a, b));
                    }
                }
            };
            sut::budget(total, || {
                for i in &items {
                    match i {
                        Item::Job(n) => w.exec(n),
                        Item::Drop(k) => {
                            let n = w.kept.borrow().len();
                            if n > 0 {
                                let x = w.kept.borrow_mut().swap_remove(k % n);
                                drop(x);
                            }
                            w.note("drop".into());
                        }
                        Item::Look => look(),
                    }
                }
                look();
            });
            let b = w.bad.borrow();
            let (c, d) = b.clone().unwrap_or_default();
            format!("{}\n{}\n{}\n{}\n{}", escape(c.as_bytes()), escape(d.as_bytes()), w.parses.get(), w.kept.borrow().len(), w.log.borrow().join(" ")).into_bytes()
        });
        let b = match got {
            Child::Done(b) => String::from_utf8_lossy(&b).into_owned(),
            e => {
                let (c, d) = ended(&e);
                return fail(format!("history {c}"), format!("in the course of the history {d}, though each parse alone returns"));
            }
        };
        let l: Vec<&str> = b.split('\n').collect();
        if !l[0].is_empty() {
            return fail(l[0], l[1]);
        }
        env.ev(|| b.clone());
        env.st.add("parses", l[2].parse().unwrap_or(0));
        env.st.add("results kept to the end", l[3].parse().unwrap_or(0));
        for w in l[4].split(' ') {
            let (n, nested) = (w.trim_end_matches(|c: char| c.is_ascii_digit()), !w.ends_with('0') && !w.starts_with('d'));
            match n {
                "unwound" => env.st.inc("fault unwound by the context"),
                "eof" | "syntax" => env.st.inc("fault parse fails"),
                "drop" => env.st.inc("fault result dropped"),
                _ => {}
            }
            if nested {
                env.st.inc("fault parse inside a parse");
            }
        }
        if c.ops.len() > 1 {
            env.st.inc("nontrivial");
        }
        env.st.state(hash(b.as_bytes()));
        env.st.schedules.insert(hash(l[4].as_bytes()));
        Verdict::Pass
    }
    fn rule(&self) -> &'static str {
        "Three to fifty parses in one process, drawn from a pool of valid, damaged and deep texts with contexts that answer, refuse and unwind, started one after another, repeated up to 300 times, or from inside each other's contexts, results kept, looked at and dropped in drawn order; each compared with a fresh process. Non-trivial: more than one operation; distinct: the sequence of outcomes, drops and nestings differs."
    }
    fn real(&self) -> &'static [&'static str] {
        &["ruruby_parse lexer, parser and source_info (instrumented build of /repo)", "unwinding"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["caller context", "terminal (none)"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["a fresh process is a fork of the simulator in which no parse was made", "one thread"]
    }
    fn probes(&self) -> &'static [&'static str] {
        &["fault unwound by the context", "fault parse fails", "fault parse inside a parse", "fault result dropped"]
    }
}
