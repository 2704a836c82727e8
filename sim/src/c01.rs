//! C01: damaged source never crashes or hangs the parser.
use crate::case::*;
use crate::driver::*;
use crate::rng::*;
use crate::sut::*;
use crate::*;
use rpwrap::Ctx;

pub struct C01;

/// Steps a parse of `n` bytes may take: linear, with a little room for looking names up through
/// nested scopes. Measured on the tree this was written for, texts take at most 500 steps a byte.
pub fn allowed(n: usize) -> u64 {
    let n = n as u64;
    300_000 + 3_000 * n + n * n / 50
}

fn text_of(c: &Case, st: &mut Stats) -> String {
    let mut b: Vec<u8> = vec![];
    for o in &c.ops {
        if o.name == "text" {
            b.extend_from_slice(o.bytes(0));
        } else if o.name == "flat" {
            // a long text of equal parts
            for _ in 0..o.uint(0).min(1 << 16) {
                b.extend_from_slice(o.bytes(0));
            }
        } else if o.name == "deep" {
            // nested repetition: prefix^n middle suffix^n
            for _ in 0..o.uint(0) {
                b.extend_from_slice(o.bytes(0));
            }
            b.extend_from_slice(o.bytes(1));
            for _ in 0..o.uint(0) {
                b.extend_from_slice(o.bytes(2));
            }
        } else {
            damage::apply(o, &mut b, st);
        }
    }
    damage::decode(&b)
}

pub const DEEP: &[(&str, &str, &str)] = &[
    ("(", "1", ")"),
    ("[", "1", "]"),
    ("{a: ", "1", "}"),
    ("f(", "1", ")"),
    ("\"#{", "1", "}\""),
    ("- ", "1", ""),
    ("-", "1", ""),
    ("!", "1", ""),
    ("not ", "1", ""),
    ("a = ", "1", ""),
    ("a ? ", "1", " : 2"),
    ("if a then ", "1", " end"),
    ("foo { ", "1", " }"),
    ("->(x) { ", "1", " }"),
    ("begin ", "1", " end"),
    ("a ** ", "1", ""),
    ("x.y(", "1", ")"),
    ("def f; ", "1", " end;"),
    ("%w(", "1", ")"),
    ("<<A\n#{", "1", "}\nA\n"),
    ("f ", "1", ""),
    ("case ", "1", " when 1 then 2 end"),
    ("a[", "1", "]"),
    ("a, ", "b", " = 1"),
    ("*", "a", ""),
    ("defined? ", "a", ""),
    ("-1 ** ", "1", ""),
    ("1 if ", "1", ""),
    ("/#{", "1", "}/"),
    ("{ ", "1", " => 2}"),
    (":\"#{", "a", "}\""),
    ("`#{", "a", "}`"),
    ("(a = ", "1", ")"),
    ("while ", "1", " do end"),
    ("class A; ", "1", " end;"),
    ("x = y = -", "1", ""),
    ("foo a: ", "1", ""),
    ("a::", "B", ""),
    ("a&.b ", "1", ""),
    ("return ", "1", ""),
];

fn on_stack<T>(size: usize, f: impl FnOnce() -> T) -> T {
    struct Cell<T>(T);
    unsafe impl<T> Send for Cell<T> {}
    let mut out = None;
    let c = Cell((f, &mut out));
    big_stack(size, move || {
        let c = c;
        let Cell((f, out)) = c;
        *out = Some(f());
    });
    out.unwrap()
}

/// Parses a text of some equal units and one of several times as many: the work grows with the
/// text and no faster.
fn grow(o: &Op, entry: Entry, env: &mut Env) -> Verdict {
    let unit = String::from_utf8_lossy(o.bytes(0)).into_owned();
    if unit.is_empty() {
        return Verdict::Pass;
    }
    let (head, tail) = (String::from_utf8_lossy(o.bytes(1)), String::from_utf8_lossy(o.bytes(2)));
    let (few, times) = (o.uint(0).clamp(1, 40), o.uint(1).clamp(2, 24));
    let few = few.min(20_000 / (unit.len() * times)).max(1);
    let (mut got, mut extra) = (vec![], 0);
    for n in [few, few * times] {
        let text = format!("{}{}{}", head, unit.repeat(n), tail);
        let s0 = cov::steps();
        if let Err(p) = budget(allowed(text.len()), || guard(|| drop(parse(entry, &text, "a.rb", None, None)))) {
            return fail(format!("panic {}", p.place()), format!("parsing {:?} panicked at {}: {}", text, p.place(), p.msg));
        }
        got.push(cov::steps() - s0);
        // a line number is found by counting the lines before it
        extra = (text.matches("__LINE__").count() * text.len()) as u64 * 6;
    }
    env.ev(|| format!("{} units of {:?} take {} steps, {} units {}", few, unit, got[0], few * times, got[1]));
    env.st.inc("grown texts");
    env.st.inc("nontrivial");
    env.st.state(hash(unit.as_bytes()));
    let allowed = 2 * (got[0] + 2_000) * times as u64 + extra;
    env.st.max("max percent of growth bound", got[1] * 100 / allowed);
    if got[1] > allowed {
        return fail("growth", format!("{:?} and {} units of {:?} took {} steps but {} times as many units {} ({} times as much)", head, few, unit, got[0], times, got[1], got[1] / got[0].max(1)));
    }
    Verdict::Pass
}

impl Prop for C01 {
    fn stack(&self) -> usize {
        64 << 20
    }
    fn id(&self) -> &'static str {
        "C01"
    }
    fn size(&self, thorough: bool) -> (usize, usize) {
        if thorough { (256, 160_000) } else { (64, 36_000) }
    }
    fn gen(&self, r: &mut Rng, sh: &mut Shard) -> Case {
        let mut c = Case::new("C01");
        if r.chance(1, 300) {
            let (head, unit, tail) = c11::stretch(r);
            c.push("grow", &[r.range(8, 40) as i64, r.range(4, 24) as i64], &[unit.as_bytes(), head.as_bytes(), tail.as_bytes()]);
            c.push("parse", &[r.below(3) as i64, r.below(3) as i64], &[]);
            return c;
        }
        let progs: Vec<&[u8]> = corpus::PROGRAMS.iter().map(|s| s.as_bytes()).collect();
        if r.chance(1, 60) {
            let d = r.pick(DEEP);
            let n = r.range(1, 40);
            c.push("deep", &[n as i64], &[d.0.as_bytes(), d.1.as_bytes(), d.2.as_bytes()]);
        } else if r.chance(1, 50) {
            // a few forms nested in each other, again and again
            let (mut a, mut z) = (String::new(), String::new());
            let k = r.range(2, 3);
            for _ in 0..k {
                let few = r.chance(1, 2);
                let d = r.pick(if few { &DEEP[..12] } else { DEEP });
                a.push_str(d.0);
                z.insert_str(0, d.2);
            }
            if r.chance(1, 4) {
                z.clear()
            }
            let n = r.range(3, 40 / k);
            c.push("deep", &[n as i64], &[a.as_bytes(), r.pick(&["1", "a", "", "x.y", "\"s\"", "nil"]).as_bytes(), z.as_bytes()]);
        } else if r.chance(1, 6) {
            c.push("text", &[], &[lits::text(r).as_bytes()]);
        } else if r.chance(1, 400) {
            // closed texts to any length, others to a bounded nesting
            let (unit, total) = match r.below(4) {
                0 => (r.pick(DEEP).0.as_bytes().to_vec(), 60),
                1 => (r.pick(damage::JUNK).as_bytes().to_vec(), 60),
                2 => {
                    let d = r.pick(DEEP);
                    (format!("{}{}{}\n", d.0, d.1, d.2).into_bytes(), 0)
                }
                _ => (r.pick(&progs).to_vec(), 0),
            };
            let total = if total == 0 { *r.pick(&[2_000usize, 6_000, 12_000]) } else { total * unit.len() };
            c.push("flat", &[(total / unit.len().max(1)) as i64], &[&unit]);
        } else if r.chance(1, 3) {
            let f = c10::fuel(r);
            c.push("text", &[], &[gen::print(&gen::Gen::program(r, f), &[]).text.as_bytes()]);
        } else if !sh.pool.is_empty() && r.chance(1, 2) {
            c.push("text", &[], &[r.pick(&sh.pool)]);
        } else {
            let p = *r.pick(&progs);
            if r.chance(1, 2) {
                // a few lines of it
                let lines: Vec<&[u8]> = p.split_inclusive(|b| *b == b'\n').collect();
                let a = r.below(lines.len());
                let b = r.range(a, lines.len() - 1);
                c.push("text", &[], &[&lines[a..=b].concat()]);
            } else {
                c.push("text", &[], &[p]);
            }
        }
        if c.ops[0].name == "text" && r.chance(1, 4) {
            let mut b = c.ops[0].bytes(0).to_vec();
            if r.chance(1, 2) {
                damage::insert_line(r, &mut b);
            } else {
                damage::rename(r, &mut b);
            }
            c.ops.clear();
            c.push("text", &[], &[&b]);
        }
        let n = match r.below(10) {
            0 => 0,
            1..=4 if c.ops[0].name == "deep" || c.ops[0].name == "flat" => 0,
            1..=5 => 1,
            6..=7 => 2,
            8 => 3,
            _ => r.range(4, 9),
        };
        let mut dummy = Stats::default();
        for _ in 0..n {
            let b = text_of(&c, &mut dummy).into_bytes();
            c.ops.push(damage::draw(r, &b, &progs));
        }
        let entry = r.below(3);
        if entry == 2 && r.chance(1, 2) {
            // what the session evaluated before
            for _ in 0..r.range(1, 3) {
                let t = match r.below(4) {
                    0 => r.pick(damage::LINES).as_bytes().to_vec(),
                    1 if !sh.pool.is_empty() => r.pick(&sh.pool).clone(),
                    2 => {
                        let f = r.range(2, 20) as i32;
                        gen::print(&gen::Gen::program(r, f), &[]).text.into_bytes()
                    }
                    _ => {
                        let lines: Vec<&[u8]> = r.pick(&progs).split_inclusive(|b| *b == b'\n').collect();
                        r.pick(&lines).to_vec()
                    }
                };
                if t.len() < 1000 {
                    c.push("before", &[], &[&t]);
                }
            }
        }
        c.push("parse", &[entry as i64, r.below(3) as i64], &[]);
        c
    }
    fn run(&self, c: &Case, env: &mut Env) -> Verdict {
        let text = text_of(c, &mut env.st);
        let o = c.find("parse");
        let (e, mode) = o.map_or((0, 0), |o| (o.int(0), o.int(1)));
        let entry = Entry::from(e);
        if let Some(o) = c.find("grow") {
            return grow(o, entry, env);
        }
        env.ev(|| format!("text {:?}", text));
        let f = |n: &str| -> Option<usize> {
            match mode {
                0 => None,
                1 => Some(1),
                _ => Some(n.len() % 3),
            }
        };
        let ctx = Ctx(&f);
        let mut table = None;
        if entry == Entry::Binding {
            for o in c.ops.iter().filter(|o| o.name == "before") {
                let t = damage::decode(o.bytes(0));
                match budget(allowed(t.len()), || guard(|| parse(entry, &t, "dir/file.rb", table.clone(), None))) {
                    Err(p) => return fail(format!("panic {}", p.place()), format!("parsing {:?} panicked at {}: {}", t, p.place(), p.msg)),
                    Ok(Ok(r)) => table = Some(r.lvar_collector),
                    Ok(Err(_)) => {}
                }
                env.ev(|| format!("before {:?}: table {:?}", t, table));
            }
            if table.is_some() {
                env.st.inc("earlier table");
            }
        }
        cov::reset_hits();
        let s0 = cov::steps();
        let stack = c.find("stack").map(|o| o.uint(0) << 10);
        let work = || budget(allowed(text.len()), || guard(|| parse(entry, &text, "dir/file.rb", table.clone(), if mode == 0 { None } else { Some(&ctx) })));
        // a tree that deep also has to be dropped on that stack
        let r = match stack {
            None => work(),
            Some(k) => match on_stack(k, || work().map(|r| r.map(|_| ()).map_err(|e| e.kind))) {
                Ok(_) => return Verdict::Pass,
                Err(p) => Err(p),
            },
        };
        let steps = cov::steps() - s0;
        env.st.max("max steps per byte", steps / (text.len() as u64 + 1));
        env.st.max("max percent of step budget", steps * 100 / allowed(text.len()));
        if c.ops.iter().filter(|o| o.name != "before").count() > 2 {
            env.st.inc("nontrivial");
        }
        match r {
            Err(p) => {
                env.ev(|| format!("panic {} {}", p.loc, p.msg));
                fail(format!("panic {}", p.place()), format!("parsing {:?} panicked at {}: {}", text, p.place(), p.msg))
            }
            Ok(r) => {
                env.st.inc(&format!("outcome {}", kind(&r)));
                let mut key = kind(&r).to_string();
                if let Err(e) = &r {
                    let code = &text;
                    let (a, b) = (e.loc.0, e.loc.1);
                    env.ev(|| format!("err {:?} {:?}", e.kind, e.loc));
                    let at = guard(|| (e.source_info.get_line(&e.loc), e.source_info.get_location(&e.loc)));
                    if let Err(p) = at {
                        return fail(format!("report {}", p.place()), format!("parsing {:?} gave error {:?} at {:?}, which cannot be turned into a line and an excerpt: {}", text, e.kind, e.loc, p.msg));
                    }
                    if a > b || b > code.len() || !code.is_char_boundary(a) {
                        return fail("error position", format!("parsing {:?} gave error {:?} at {:?}, outside the text or not on a character", text, e.kind, e.loc));
                    }
                    key.push_str(&format!("{:?}", e.kind).chars().filter(|c| !c.is_ascii_digit()).take(40).collect::<String>());
                } else {
                    env.ev(|| "ok".to_string());
                }
                // state: outcome and the set of code edges the run reached
                let mut h = hash(key.as_bytes());
                for g in cov::hits() {
                    h = mix(h ^ g as u64);
                }
                env.st.state(h);
                Verdict::Pass
            }
        }
    }
    fn feedback(&self, c: &Case, sh: &mut Shard) {
        let mut new = false;
        for g in cov::hits() {
            if !sh.seen[g as usize] {
                sh.seen[g as usize] = true;
                new = true;
            }
        }
        if new && sh.pool.len() < 500 {
            let t = text_of(c, &mut Stats::default());
            if t.len() < 4000 {
                sh.pool.push(t.into_bytes());
            }
        }
    }
    fn rule(&self) -> &'static str {
        "An intact program (corpus, generated, long repetition, or a text that reached new code earlier in the shard) damaged by 0-9 storage or transport faults and parsed through one of the three entry points, sometimes with the table a session of earlier texts left, under a step budget. Non-trivial: at least one fault applied; distinct: the outcome with the set of code edges reached differs."
    }
    fn real(&self) -> &'static [&'static str] {
        &["ruruby_parse lexer and parser (instrumented build of /repo)", "num, enum-iterator"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["storage and transport (damage model)", "caller context", "clock (step clock of code edges)"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["readers decode damaged bytes lossily as UTF-8", "nesting up to 40 levels on a 64 MiB stack; deeper nesting is a recorded finding", "edges of ruruby_parse and its instantiation count as steps; code of num and std does not"]
    }
    fn probes(&self) -> &'static [&'static str] {
        &["earlier table", "outcome ok", "outcome eof", "outcome syntax", "fault trunc", "fault head", "fault lose", "fault dup", "fault swap", "fault flip", "fault zero", "fault torn", "fault stale", "fault junk"]
    }
}
