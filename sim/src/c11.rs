//! C11: memory is bounded, returned, and its exhaustion never gives a wrong result.
use crate::c05::first_diff;
use crate::case::*;
use crate::driver::*;
use crate::job::*;
use crate::rng::*;
use crate::*;
use std::cell::RefCell;
use std::collections::HashMap;

pub struct C11;

/// Bytes a parse of `n` bytes may hold at once. Measured on the tree this was written for, a
/// quarter of it at most.
pub fn bound(n: usize) -> i64 {
    20_000 + 1_200 * n as i64
}

#[derive(Clone)]
struct Base {
    show: String,
    allocs: u64,
    peak: i64,
    /// blocks and bytes left after the result was dropped, for three texts that differ in a name
    left: Vec<(i64, i64)>,
}
thread_local! {
    static BASE: RefCell<HashMap<u64, Result<Base, (String, String)>>> = RefCell::new(HashMap::new());
}

fn measure(j: &Job) -> Result<Base, (String, String)> {
    let key = j.key();
    if let Some(b) = BASE.with(|b| b.borrow().get(&key).cloned()) {
        return b;
    }
    let total = 8 * j.steps() + 4_000_000;
    let got = in_child(60, || {
        sut::budget(total, || {
            // whatever is made once per process is made now
            for p in corpus::PROGRAMS {
                let _ = sut::guard(|| drop(sut::parse(sut::Entry::Program, p, "warm.rb", None, None)));
            }
            let w = j.run(&|_, _| {});
            let show = w.show();
            drop(w);
            let _ = sut::last_panic();
            mem::start(None);
            let out = j.run(&|_, _| {});
            let u = mem::usage();
            mem::stop();
            drop(out);
            let _ = sut::last_panic();
            let mut left = vec![];
            for i in 0..3 {
                let mut j2 = j.clone();
                j2.text = format!("zq{i}vw = zq{i}vw {i}\nzr{i}(:zs{i}, \"zt{i}\")\n{}", j.text);
                mem::start(None);
                let out = j2.run(&|_, _| {});
                drop(out);
                drop(sut::last_panic());
                let u = mem::stop();
                left.push((u.blocks, u.live));
            }
            let mut o = format!("{} {}", u.count, u.peak);
            for (b, l) in left {
                o.push_str(&format!(" {} {}", b, l));
            }
            format!("{}\n{}", o, show).into_bytes()
        })
    });
    let r = match got {
        Child::Done(b) => {
            let s = String::from_utf8_lossy(&b).into_owned();
            let (h, show) = s.split_once('\n').unwrap();
            let v: Vec<i64> = h.split(' ').map(|x| x.parse().unwrap()).collect();
            Ok(Base { show: show.into(), allocs: v[0] as u64, peak: v[1], left: v[2..].chunks(2).map(|c| (c[0], c[1])).collect() })
        }
        e => Err(ended(&e)),
    };
    BASE.with(|b| {
        let mut b = b.borrow_mut();
        if b.len() > 4000 {
            b.clear()
        }
        b.insert(key, r.clone());
    });
    r
}

/// A text that can stand after itself, between a head and a tail.
pub fn stretch(r: &mut Rng) -> (String, String, String) {
    if r.chance(1, 3) {
        let t: &(&str, &str, &str) = r.pick(STRETCH);
        return (t.0.into(), t.1.into(), t.2.into());
    }
    (String::new(), unit(r), String::new())
}
const STRETCH: &[(&str, &str, &str)] = &[
    ("'", "ab", "'"),
    ("\"", "é ", "\""),
    ("\"", "\\n", "\""),
    ("\"", "#{1}", "\""),
    ("\"", "a#{\"b\"}", "\""),
    ("x = ", "1_0", ""),
    ("x = 0x", "f", ""),
    ("x = 1.", "5", ""),
    ("", "ab", " = 1"),
    ("@", "ab", " = 1"),
    ("$", "ab", " = 1"),
    (":", "ab", ""),
    ("# ", "é#", "\n1"),
    ("=begin\n", "text\n", "=end\n1\n"),
    ("<<A\n", "abc\n", "A\n"),
    ("<<~A\n", "  abc\n", "A\n"),
    ("<<-A\n", " A b\n", "  A\n"),
    ("<<A\n", "#{1} \n", "A\n"),
    ("[", "1, ", "1]"),
    ("[", "a => 1, ", "1]"),
    ("{", "a: 1, ", "b: 2}"),
    ("f(", "1, ", "1)"),
    ("f ", "1, ", "1"),
    ("f(", "a: 1, ", "b: 2)"),
    ("f(", "*a, ", "**b)"),
    ("x", ".y", ""),
    ("x", ".y(1)", ""),
    ("x", "[1]", ""),
    ("x", "::Y", ""),
    ("x", " { 1 }.y", ""),
    ("x", ".y do |a| end", ""),
    ("x", "\n.y", ""),
    ("x = 1", " + 1", ""),
    ("x = 1", " * 2 - 1", ""),
    ("x = 1", " && 2 || 3", ""),
    ("x", " and y or z", ""),
    ("x", " if y", ""),
    ("x", " rescue y", ""),
    ("x = a", " == b ? c : d", ""),
    ("case x\n", "when 1, 2 then 3\n", "end"),
    ("if x\n1\n", "elsif y\n2\n", "end"),
    ("begin\n1\n", "rescue A => e\n2\n", "end"),
    ("%w(", "ab ", ")"),
    ("%i(", "ab\n", ")"),
    ("%q(", "(a)", ")"),
    ("/", "a[b]\\/", "/x"),
    ("`", "ls #{x} ", "`"),
    ("a", ", b", " = 1"),
    ("a = 1", ", 2", ""),
    ("alias ", "ab", " b"),
    ("undef a", ", b", ""),
    ("puts(", "\n", ")"),
    ("x = ", "\\\n", "1"),
    ("", "\n", "x"),
    ("x do\n", "y 1\n", "end"),
    ("def f\n", "y 1\n", "end"),
    ("class A\n", "def f; end\n", "end"),
    ("class A", "::B", "; end"),
    ("->(a) {\n", "a = 1\n", "}"),
    ("a = 1\n", "a += a\n", "a"),
    ("a = 1; b { ", "a; ", "}"),
];

fn unit(r: &mut Rng) -> String {
    let mut u = match r.below(8) {
        0 => format!("x = <<{0}\n{1}\n{0}\n", r.pick(&["A", "EOS"]), r.pick(&["", "abc", "#{1}", "a\nb"])),
        1 => format!("x = {}\n", lits::literal(r)),
        2 => r.pick(corpus::PROGRAMS).split_inclusive('\n').collect::<Vec<_>>()[0].to_string(),
        3 => format!("{}\n", r.pick(damage::LINES)),
        4 => {
            let d = r.pick(c01::DEEP);
            format!("{}{}{}\n", d.0, d.1, d.2)
        }
        5 => r.pick(&["\n", " ", "# c\n", ";", "1 + ", "a, ", "x.y", "f ", "\\\n", "=begin\n=end\n", "'a' ", "a\n.b"]).to_string(),
        6 => r.pick(corpus::PROGRAMS).to_string(),
        _ => {
            let f = *r.pick(&[4, 8, 15]);
            gen::print(&gen::Gen::program(r, f), &[]).text
        }
    };
    if u.len() > 400 {
        let mut e = 400;
        while !u.is_char_boundary(e) {
            e -= 1
        }
        u.truncate(e);
    }
    if u.is_empty() {
        u.push(';')
    }
    u
}

/// Parses a text of some equal units and one of many times as many.
fn grow(o: &Op, env: &mut Env) -> Verdict {
    let unit = String::from_utf8_lossy(o.bytes(0)).into_owned();
    if unit.is_empty() {
        return Verdict::Pass;
    }
    let (head, tail) = (String::from_utf8_lossy(o.bytes(1)), String::from_utf8_lossy(o.bytes(2)));
    let (few, times) = (o.uint(0).clamp(1, 100), o.uint(1).clamp(2, 60));
    let few = few.min(60_000 / (unit.len() * times)).max(1);
    let mut got = vec![];
    for n in [few, few * times] {
        let mut j = Job { text: format!("{}{}{}", head, unit.repeat(n), tail), path: "a.rb".into(), entry: sut::Entry::from(o.int(2)), mode: 0, k: 0, table: vec![] };
        j.text.shrink_to_fit();
        match measure(&j) {
            Ok(b) => got.push((j.text.len(), b.peak, b.allocs)),
            Err(_) => return Verdict::Pass,
        }
    }
    let (a, b) = (got[0], got[1]);
    env.ev(|| format!("{} units of {:?} hold {} bytes, {} units {}", few, unit, a.1, few * times, b.1));
    env.st.inc("grown texts");
    env.st.inc("nontrivial");
    env.st.state(hash(unit.as_bytes()));
    // linear growth, with room for vectors that double and for what does not depend on the text
    let allowed = 5 * (a.1 + 2_000) * times as i64 / 2;
    env.st.max("max percent of growth bound", (b.1 * 100 / allowed) as u64);
    if b.1 > allowed {
        return fail("growth", format!("{} units of {:?} held {} bytes at most but {} times as many held {} ({} times as much)", few, unit, a.1, times, b.1, b.1 / a.1.max(1)));
    }
    Verdict::Pass
}

impl Prop for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn size(&self, thorough: bool) -> (usize, usize) {
        if thorough { (256, 8_000) } else { (64, 700) }
    }
    fn gen(&self, r: &mut Rng, sh: &mut Shard) -> Case {
        if sh.pool.is_empty() {
            let mut q = Rng::derive(sh.seed, &[0xc11, sh.index as u64]);
            for _ in 0..150 {
                let mut j = Job::draw(&mut q);
                if q.chance(1, 12) {
                    // long, flat
                    let p = *q.pick(corpus::PROGRAMS);
                    j.text = p.repeat(q.range(2, 12_000 / p.len() + 2));
                }
                let mut c = Case::new("C11");
                c.ops.push(j.to_op("job", &[]));
                sh.pool.push(c.text().into_bytes());
            }
        }
        if r.chance(1, 24) {
            // the same unit again and again: what is held grows with the text and no faster
            let (head, unit, tail) = stretch(r);
            let mut c = Case::new("C11");
            c.push("grow", &[r.range(20, 60) as i64, r.range(12, 60) as i64, r.below(3) as i64], &[unit.as_bytes(), head.as_bytes(), tail.as_bytes()]);
            return c;
        }
        let j = Case::parse(&String::from_utf8_lossy(r.pick(&sh.pool))).unwrap();
        let mut c = Case::new("C11");
        c.ops.push(j.ops[0].clone());
        for _ in 0..r.range(1, 6) {
            c.push("fail", &[*r.pick(&[0i64, 0, 1, 2]), r.below(1 << 20) as i64], &[]);
        }
        c
    }
    fn run(&self, c: &Case, env: &mut Env) -> Verdict {
        if let Some(o) = c.find("grow") {
            return grow(o, env);
        }
        let Some(o) = c.find("job") else { return Verdict::Pass };
        let j = Job::of(o);
        let b = match measure(&j) {
            Ok(b) => b,
            Err(_) => return Verdict::Pass, // fails with ample memory: not this property
        };
        let n = j.text.len();
        env.ev(|| format!("{:?} allocates {} blocks, {} bytes at most, leaves {:?}", j.text, b.allocs, b.peak, b.left));
        env.st.max("max peak bytes", b.peak as u64);
        env.st.max("max percent of peak bound", (b.peak * 100 / bound(n)) as u64);
        if b.peak > bound(n) {
            return fail("peak", format!("parsing {} bytes of text held {} bytes at once: {:?}", n, b.peak, j.text));
        }
        if b.left.iter().any(|l| *l != (0, 0)) {
            return fail("not returned", format!("after everything was dropped, repeated parses of {:?} (context {}) left (blocks, bytes) {:?} behind each", j.text, j.mode, b.left));
        }
        let mut h = hash(b.show.as_bytes());
        for f in c.ops.iter().filter(|o| o.name == "fail") {
            let at = (f.uint(1) as u64 % (1 << 20)) * b.allocs >> 20;
            let limit = (f.int(1).rem_euclid(1 << 20) * b.peak) >> 20;
            let kind = f.int(0).rem_euclid(3);
            let got = in_child(60, || {
                // do what is done once per process while there is memory
                drop(sut::parse(sut::Entry::Program, "a = 1", "warm.rb", None, None));
                sut::budget(2 * j.steps(), || {
                    match kind {
                        0 => mem::start_with(Some(at), false, i64::MAX),
                        1 => mem::start_with(Some(at), true, i64::MAX),
                        _ => mem::start_with(None, false, limit),
                    }
                    let out = j.run(&|_, _| {});
                    let u = mem::stop();
                    format!("{}\n{}", u.failed, if let Out::Panic(_) = out { "stopped".into() } else { out.show() }).into_bytes()
                })
            });
            let name = ["one allocation fails", "allocations fail from one on", "memory limit"][kind as usize];
            match got {
                Child::Done(s) => {
                    let s = String::from_utf8_lossy(&s).into_owned();
                    let (failed, show) = s.split_once('\n').unwrap_or((&s, ""));
                    let failed: u64 = failed.parse().unwrap_or(0);
                    if failed > 0 {
                        env.st.inc(&format!("fault {} (survived)", name));
                    } else {
                        env.st.inc("failures not reached");
                    }
                    env.ev(|| format!("{} {} survived {}", name, at, failed));
                    if show != "stopped" && show != b.show {
                        let (x, y) = first_diff(show, &b.show);
                        return fail("wrong result", format!("{} (at {} of {}, or {} bytes): parsing {:?} gave {} instead of {}", name, at, b.allocs, limit, j.text, x, y));
                    }
                }
                Child::Signal(6) => {
                    env.st.inc(&format!("fault {} (stopped)", name));
                    env.ev(|| format!("{} {} stopped", name, at));
                    h = mix(h ^ at);
                }
                e => {
                    let (c, d) = ended(&e);
                    return fail(format!("exhaustion {c}"), format!("{} (at {} of {}): parsing {:?}: {}", name, at, b.allocs, j.text, d));
                }
            }
        }
        env.st.inc("nontrivial");
        env.st.state(h);
        env.st.schedules.insert(h);
        Verdict::Pass
    }
    fn rule(&self) -> &'static str {
        "A drawn parse (valid, damaged, deep, long; with contexts that answer and unwind) measured for peak and for what it leaves behind, then repeated with one allocation failing, all failing from one on, or a limit on live bytes, at drawn points. Non-trivial: all; distinct: the result with the failing points that stopped it."
    }
    fn real(&self) -> &'static [&'static str] {
        &["ruruby_parse lexer, parser and source_info (instrumented build of /repo)", "allocation error handling of std"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["allocator (counting, failing, limited)", "caller context"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["what is made once per process is not counted: every corpus program and the text itself are parsed before measuring, with other names than in the measured run", "stopping is an abort or a panic", "memory taken outside the global allocator is not seen"]
    }
    fn probes(&self) -> &'static [&'static str] {
        &["fault one allocation fails (stopped)", "fault allocations fail from one on (stopped)", "fault memory limit (stopped)"]
    }
}
