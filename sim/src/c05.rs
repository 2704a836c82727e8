//! C05: parses running at the same time do not affect each other.
use crate::case::*;
use crate::driver::*;
use crate::job::*;
use crate::rng::*;
use crate::*;
use std::cell::RefCell;
use std::collections::HashMap;

pub struct C05;

thread_local! {
    static ALONE: RefCell<HashMap<u64, Result<String, (String, String)>>> = RefCell::new(HashMap::new());
}

/// What the jobs give one after another in a process of their own, remembered.
pub fn alone(key: u64, f: impl FnOnce() -> String) -> Result<String, (String, String)> {
    if let Some(r) = ALONE.with(|a| a.borrow().get(&key).cloned()) {
        return r;
    }
    let r = match in_child(60, || f().into_bytes()) {
        Child::Done(b) => Ok(String::from_utf8_lossy(&b).into_owned()),
        e => Err(ended(&e)),
    };
    ALONE.with(|a| {
        let mut a = a.borrow_mut();
        if a.len() > 4000 {
            a.clear()
        }
        a.insert(key, r.clone());
    });
    r
}

/// Does jobs in order, keeping the results until the end, and shows them all then.
fn work(jobs: &[Job], at: &dyn Fn(usize, &str)) -> String {
    let outs: Vec<Out> = jobs.iter().map(|j| j.run(at)).collect();
    let s: Vec<String> = outs.iter().map(|o| o.show()).collect();
    s.join("\n\u{1}")
}

impl Prop for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn size(&self, thorough: bool) -> (usize, usize) {
        if thorough { (256, 6_000) } else { (64, 900) }
    }
    fn gen(&self, r: &mut Rng, sh: &mut Shard) -> Case {
        // jobs come from a pool of the shard, so that what they give alone is computed once
        if sh.pool.is_empty() {
            let mut q = Rng::derive(sh.seed, &[0xc05, sh.index as u64]);
            for _ in 0..120 {
                let mut c = Case::new("C05");
                c.ops.push(Job::draw(&mut q).to_op("job", &[]));
                sh.pool.push(c.text().into_bytes());
            }
        }
        let mut c = Case::new("C05");
        let n = *r.pick(&[2usize, 2, 2, 3, 3, 4, 6]);
        let few = r.chance(1, 3);
        let first = r.below(sh.pool.len());
        for t in 0..n {
            for _ in 0..r.range(1, 3) {
                let k = if few { (first + r.below(2)) % sh.pool.len() } else { r.below(sh.pool.len()) };
                let j = Case::parse(&String::from_utf8_lossy(&sh.pool[k])).unwrap();
                let mut o = j.ops[0].clone();
                o.ints.push(t as i64);
                c.ops.push(o);
            }
        }
        c.push("shared", &[*r.pick(&[1i64, 2, 4, 8, 12]), r.below(1 << 30) as i64], &[]);
        let scale = *r.pick(&[0usize, 4, 40, 400, 4000]);
        for _ in 0..r.range(2, 120) {
            let sc = if scale == 0 { *r.pick(&[2usize, 30, 300, 3000, 20000]) } else { scale };
            c.push("run", &[r.range(1, sc) as i64, r.below(n) as i64], &[]);
        }
        c
    }
    fn run(&self, c: &Case, env: &mut Env) -> Verdict {
        let mut threads: Vec<Vec<Job>> = vec![];
        for o in c.ops.iter().filter(|o| o.name == "job") {
            let t = o.uint(3).min(sched::MAX - 1);
            while threads.len() <= t {
                threads.push(vec![]);
            }
            threads[t].push(Job::of(o));
        }
        threads.retain(|t| !t.is_empty());
        let plan: Vec<(u64, usize)> = c.ops.iter().filter(|o| o.name == "run").map(|o| (o.uint(0) as u64, o.uint(1))).collect();
        let shared = c.find("shared").map_or((0, 0), |o| (o.uint(0) as u64, o.uint(1) as u64));
        let mut want = vec![];
        let mut total = 1_000_000u64;
        for jobs in &threads {
            let mut w = vec![];
            for j in jobs {
                total += 3 * j.steps();
                match alone(j.key(), || work(std::slice::from_ref(j), &|_, _| {})) {
                    Ok(s) => w.push(s),
                    Err(_) => return Verdict::Pass, // alone it fails too: not this property
                }
            }
            want.push(w.join("\n\u{1}"));
        }
        let got = in_child(120, || {
            let fs: Vec<Box<dyn FnOnce() -> String + Send>> = threads.iter().map(|jobs| Box::new(move || work(jobs, &|_, _| sched::preempt())) as Box<dyn FnOnce() -> String + Send>).collect();
            let d = sut::budget(total, || sched::run(plan, shared, fs));
            let mut o = format!("{} {} {} {:x}\n", d.waits, d.switches, d.accesses, hash(format!("{:?}", d.trace).as_bytes()));
            for s in d.out {
                o.push_str(&escape(s.unwrap_or_else(|| "thread panicked".into()).as_bytes()));
                o.push('\n');
            }
            for (t, at) in d.trace {
                o.push_str(&format!("{}@{} ", t, at));
            }
            o.into_bytes()
        });
        let b = match got {
            Child::Done(b) => b,
            Child::Exit(sched::DEADLOCK_EXIT) => return fail("deadlock", "every thread waits: the parses do not finish"),
            e => {
                let (c, d) = ended(&e);
                return fail(c, d);
            }
        };
        let b = String::from_utf8_lossy(&b).into_owned();
        let mut it = b.lines();
        let head: Vec<&str> = it.next().unwrap_or("").split(' ').collect();
        env.st.add("fault thread switched", head.get(1).and_then(|x| x.parse().ok()).unwrap_or(0));
        env.st.add("futex waits", head.first().and_then(|x| x.parse().ok()).unwrap_or(0));
        env.st.add("accesses to static data", head.get(2).and_then(|x| x.parse().ok()).unwrap_or(0));
        env.st.schedules.insert(u64::from_str_radix(head.get(3).unwrap_or(&"0"), 16).unwrap_or(0));
        let mut h = 0u64;
        for (t, w) in want.iter().enumerate() {
            let g = it.next().unwrap_or("");
            let w = escape(w.as_bytes());
            if g != w {
                return fail("differs", format!("thread {} of {} got {} but alone {}", t, want.len(), first_diff(g, &w).0, first_diff(g, &w).1));
            }
            h = mix(h ^ hash(w.as_bytes()));
        }
        env.ev(|| format!("schedule {}", it.next().unwrap_or("")));
        env.ev(|| format!("results {:x}", h));
        env.st.state(mix(h ^ u64::from_str_radix(head.get(3).unwrap_or(&"0"), 16).unwrap_or(0)));
        if want.len() > 1 {
            env.st.inc("nontrivial");
        }
        env.st.add("parses", threads.iter().map(|t| t.len() as u64).sum());
        Verdict::Pass
    }
    fn rule(&self) -> &'static str {
        "Two to six threads of one process, each doing one to three drawn parses (valid, damaged, deep; with contexts that answer, refuse and unwind) and reporting on them, switched where the drawn schedule says: after a number of code edges, before a drawn share of the accesses to static data, at every consultation, at every futex wait. Non-trivial: two threads or more; distinct: the results with the switch points differ."
    }
    fn real(&self) -> &'static [&'static str] {
        &["ruruby_parse lexer, parser and source_info (instrumented build of /repo)", "operating system threads, std synchronisation above the futex"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["thread scheduling (baton, explicit schedule)", "futex, sched_yield and sleep (C library seam)", "terminal (none)", "caller context"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["threads are switched at code edges of ruruby_parse and rpwrap, their loads and stores of static data, consultations and waits, never inside std or the allocator", "switches are sequentially consistent: weak-memory effects are outside"]
    }
    fn probes(&self) -> &'static [&'static str] {
        &["fault thread switched"]
    }
}

/// Where two texts part, with some context.
pub fn first_diff(a: &str, b: &str) -> (String, String) {
    let k = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| s.chars().skip(k.saturating_sub(40)).take(140).collect::<String>();
    (format!("...{:?}", cut(a)), format!("...{:?}", cut(b)))
}
