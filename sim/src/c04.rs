//! C04: a session parsed chunk by chunk equals the whole program.
//!
//! A server keeps one variable table per session and the log of accepted chunks. Clients send
//! chunks; some arrive damaged, are cancelled after parsing, unwound by the context, sent twice or
//! retried; the server crashes and comes back with only its log.
use crate::case::*;
use crate::dbg::V;
use crate::driver::*;
use crate::gen::*;
use crate::rng::*;
use crate::scope::read;
use crate::sut::*;
use crate::*;
use rpwrap::*;
use std::cell::Cell;

pub struct C04;

struct Session {
    text: String,
    /// ends of the chunks
    cuts: Vec<usize>,
    next: usize,
    table: Option<LvarCollector>,
    /// what each accepted chunk returned
    log: Vec<(String, LvarCollector)>,
    kept: Vec<(Res, u64)>,
    frames: Vec<(String, usize)>,
    start: Vec<String>,
}

/// Statements of a tree, nested lists of statements opened.
pub fn flatten(v: &V, out: &mut Vec<V>) {
    if let Some(V::Tup(n, a)) = v.get("kind") {
        if n == "CompStmt" {
            if let Some(l) = a.first() {
                for x in l.args() {
                    flatten(x, out)
                }
                return;
            }
        }
    }
    out.push(v.clone())
}

impl Session {
    fn chunk(&self, i: usize) -> (usize, &str) {
        let s = if i == 0 { 0 } else { self.cuts[i - 1] };
        (s, &self.text[s..self.cuts[i]])
    }
    fn ask(&self, n: &str) -> Option<usize> {
        self.frames.iter().find(|f| f.0 == n).map(|f| f.1)
    }
    fn parse(&self, text: &str, table: Option<LvarCollector>) -> Result<Res, Panic> {
        let f = |n: &str| self.ask(n);
        let ctx = Ctx(&f);
        let c = if self.frames.is_empty() { None } else { Some(&ctx) };
        budget(c01::allowed(text.len()), || guard(|| parse(Entry::Binding, text, "session", table, c)))
    }
}

fn names(t: &LvarCollector) -> Vec<String> {
    c10::own_table(t).map_or(vec![], |t| t.names)
}

impl Prop for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn size(&self, thorough: bool) -> (usize, usize) {
        if thorough { (256, 12_000) } else { (64, 2_000) }
    }
    fn gen(&self, r: &mut Rng, _sh: &mut Shard) -> Case {
        let mut c = Case::new("C04");
        let n = *r.pick(&[1usize, 1, 2, 3]);
        let mut chunks = 0;
        for s in 0..n as i64 {
            let f = c10::fuel(r);
            let prog = Gen::wide_program(r, f);
            c.push("session", &[], &[prog.text().as_bytes()]);
            let k = print(&prog, &[]).closed.len();
            for _ in 0..r.below(k + 1) {
                c.push("split", &[s, r.below(64) as i64], &[]);
                chunks += 1;
            }
            for _ in 0..r.below(3) {
                c.push("table", &[s, any_var(r)], &[]);
            }
            if r.chance(1, 3) {
                for _ in 0..r.range(1, 4) {
                    c.push("frame", &[s, any_var(r), r.range(1, 3) as i64], &[]);
                }
            }
        }
        for _ in 0..r.below(2 * chunks + 4) {
            let s = r.below(n) as i64;
            match r.below(12) {
                0 => c.push("damaged", &[s, r.below(1 << 12) as i64], &[r.pick(damage::JUNK).as_bytes()]),
                1 => c.push("short", &[s, r.below(1 << 12) as i64], &[]),
                2 => c.push("cancel", &[s], &[]),
                3 => c.push("again", &[s, r.below(64) as i64], &[]),
                4 => c.push("crash", &[s], &[]),
                5 => c.push("unwind", &[s, r.below(6) as i64], &[]),
                6 => c.push("keep", &[s], &[]),
                _ => c.push("send", &[s], &[]),
            }
        }
        c
    }
    fn run(&self, c: &Case, env: &mut Env) -> Verdict {
        let mut ss: Vec<Session> = vec![];
        for (si, o) in c.ops.iter().filter(|o| o.name == "session").enumerate() {
            let of = |name: &'static str| c.ops.iter().filter(move |o| o.name == name && o.uint(0) == si);
            let mut start: Vec<String> = vec![];
            for t in of("table") {
                let n = var(t.uint(1) as u32);
                if !start.contains(&n) {
                    start.push(n)
                }
            }
            let p = print(&T::parse(&o.str(0)), &start);
            let mut cuts: Vec<usize> = of("split").filter(|_| !p.closed.is_empty()).map(|o| p.closed[o.uint(1) % p.closed.len()]).collect();
            cuts.push(p.text.len());
            cuts.sort();
            cuts.dedup();
            cuts.retain(|x| *x > 0);
            let frames = of("frame").map(|o| (var(o.uint(1) as u32), o.uint(2).clamp(1, 9))).collect();
            let table = if start.is_empty() { None } else { Some(c10::table_of(&start)) };
            env.ev(|| format!("session {} {:?} cuts {:?} table {:?}", si, p.text, cuts, start));
            ss.push(Session { text: p.text, cuts, next: 0, table, log: vec![], kept: vec![], frames, start });
        }
        if ss.is_empty() {
            return Verdict::Pass;
        }
        let mut h = 0u64;
        // once the faults stop every session is completed
        let rest: Vec<Op> = (0..ss.len()).flat_map(|s| vec![op("send", &[s as i64], &[]); ss[s].cuts.len() + 1]).collect();
        for o in c.ops.iter().chain(rest.iter()) {
            let s = o.uint(0);
            if s >= ss.len() {
                continue;
            }
            let me = &mut ss[s];
            let more = me.next < me.cuts.len();
            h = mix(h ^ hash(o.name.as_bytes()) ^ s as u64);
            match o.name.as_str() {
                "send" | "cancel" | "keep" if more => {
                    let (at, t) = me.chunk(me.next);
                    let r = match me.parse(t, me.table.clone()) {
                        Err(p) => return fail(format!("panic {}", p.place()), format!("chunk {:?} panicked: {}", t, p.msg)),
                        Ok(r) => r,
                    };
                    env.ev(|| format!("{} session {} chunk {} at {} {}", o.name, s, me.next, at, show(&r)));
                    let r = match r {
                        Err(e) => return fail("chunk refused", format!("chunk {:?} of {:?} was answered {:?} at {:?} with table {:?}", t, me.text, e.kind, e.loc, me.table.as_ref().map(names))),
                        Ok(r) => r,
                    };
                    if o.name == "cancel" {
                        env.st.inc("fault accepted chunk cancelled");
                        continue;
                    }
                    let (old, new) = (me.table.as_ref().map_or(vec![], names), names(&r.lvar_collector));
                    if !new.starts_with(&old) {
                        return fail("table not appended", format!("chunk {:?} turned the table {:?} into {:?}", t, old, new));
                    }
                    me.log.push((format!("{:?}", r.node), r.lvar_collector.clone()));
                    me.table = Some(r.lvar_collector.clone());
                    me.next += 1;
                    env.st.inc("chunks accepted");
                    if o.name == "keep" {
                        let d = digest(&Ok(r));
                        // kept alive together with its source
                        let r2 = me.parse(me.chunk(me.next - 1).1, if me.next >= 2 { Some(me.log[me.next - 2].1.clone()) } else if me.start.is_empty() { None } else { Some(c10::table_of(&me.start)) });
                        if let Ok(r2) = r2 {
                            if digest(&r2) != d {
                                return fail("retry differs", format!("chunk {} of {:?} parsed twice from the same table gives two results", me.next - 1, me.text));
                            }
                            me.kept.push((r2, d));
                        }
                    }
                }
                "damaged" | "short" if more => {
                    let (_, t) = me.chunk(me.next);
                    let mut k = o.uint(1) % (t.len() + 1);
                    while !t.is_char_boundary(k) {
                        k -= 1
                    }
                    let d = if o.name == "short" { t[..k].to_string() } else { format!("{}{}{}", &t[..k], o.str(0), &t[k..]) };
                    // whatever this gives, it does not get into the session
                    match me.parse(&d, me.table.clone()) {
                        Err(p) => return fail(format!("panic {}", p.place()), format!("{:?} panicked: {}", d, p.msg)),
                        Ok(r) => {
                            env.ev(|| format!("{} session {} {:?} {}", o.name, s, d, kind(&r)));
                            if let Err(e) = &r {
                                if e.loc.0 > e.loc.1 || e.loc.1 > d.len() {
                                    return fail("error position", format!("{:?} was answered {:?} at {:?}, outside of it, with table {:?}", d, e.kind, e.loc, me.table));
                                }
                            }
                            env.st.inc(&format!("fault chunk {} then {}", o.name, kind(&r)));
                        }
                    }
                }
                "again" if me.next > 0 => {
                    let i = o.uint(1) % me.next;
                    let (_, t) = me.chunk(i);
                    match me.parse(t, me.table.clone()) {
                        Err(p) => return fail(format!("panic {}", p.place()), format!("{:?} panicked: {}", t, p.msg)),
                        Ok(Err(e)) => return fail("repeated chunk refused", format!("chunk {:?} was accepted before but is answered {:?} at {:?} when repeated", t, e.kind, e.loc)),
                        Ok(Ok(r)) => {
                            env.st.inc("fault chunk repeated");
                            env.ev(|| format!("again session {} chunk {}", s, i));
                            let (a, b) = (names(me.table.as_ref().unwrap()), names(&r.lvar_collector));
                            if a != b {
                                return fail("repeated chunk added names", format!("chunk {:?} parsed again turned the table {:?} into {:?}", t, a, b));
                            }
                        }
                    }
                }
                "unwind" if more => {
                    let (_, t) = me.chunk(me.next);
                    let left = Cell::new(o.uint(1));
                    let f = |_: &str| -> Option<usize> {
                        if left.get() == 0 {
                            std::panic::panic_any(77u32);
                        }
                        left.set(left.get() - 1);
                        None
                    };
                    let ctx = Ctx(&f);
                    let r = budget(c01::allowed(t.len()), || guard(|| parse(Entry::Binding, t, "session", me.table.clone(), Some(&ctx))));
                    env.ev(|| format!("unwind session {} {}", s, r.is_err()));
                    match r {
                        Err(p) if p.msg != "(payload)" => return fail(format!("panic {}", p.place()), format!("{:?} panicked: {}", t, p.msg)),
                        Err(_) => env.st.inc("fault chunk unwound by the context"),
                        Ok(_) => {}
                    }
                }
                "crash" => {
                    // only the log of accepted chunks survives
                    env.st.inc("fault crash and replay");
                    env.ev(|| format!("crash session {} replaying {}", s, me.next));
                    let mut table = if me.start.is_empty() { None } else { Some(c10::table_of(&me.start)) };
                    me.kept.clear();
                    for i in 0..me.next {
                        let (_, t) = me.chunk(i);
                        match me.parse(t, table.take()) {
                            Ok(Ok(r)) => {
                                if (format!("{:?}", r.node), r.lvar_collector.clone()) != me.log[i] {
                                    return fail("replay differs", format!("chunk {:?} replayed after a crash gives another result: {:?} instead of {:?}", t, (&r.node, &r.lvar_collector), me.log[i]));
                                }
                                table = Some(r.lvar_collector)
                            }
                            Ok(Err(e)) => return fail("replay refused", format!("chunk {:?} was accepted before the crash but is answered {:?} at {:?}", t, e.kind, e.loc)),
                            Err(p) => return fail(format!("panic {}", p.place()), format!("{:?} panicked: {}", t, p.msg)),
                        }
                    }
                    me.table = table;
                }
                _ => {}
            }
        }
        for (si, me) in ss.iter().enumerate() {
            for (r, d) in &me.kept {
                if digest(r) != *d {
                    return fail("kept result changed", format!("a result of session {} changed after it was returned", si));
                }
            }
            let start = if me.start.is_empty() { None } else { Some(c10::table_of(&me.start)) };
            let whole = match me.parse(&me.text, start) {
                Ok(Ok(r)) => r,
                Ok(Err(e)) => return fail("whole refused", format!("{:?} was answered {:?} at {:?}", me.text, e.kind, e.loc)),
                Err(p) => return fail(format!("panic {}", p.place()), format!("{:?} panicked: {}", me.text, p.msg)),
            };
            env.ev(|| format!("whole {:?}", whole));
            // where a numbered parameter was used is told by positions in a chunk there, in the whole here
            let placeless = |t: LvarCollector| {
                let s = format!("{:?}", t);
                let mut o = String::new();
                for (i, part) in s.split("Loc(").enumerate() {
                    o.push_str(if i == 0 { part } else { part.trim_start_matches(|c: char| c.is_ascii_digit() || c == ',' || c == ' ') });
                }
                o
            };
            let fin = placeless(me.table.clone().unwrap_or_else(LvarCollector::new));
            let wfin = placeless(whole.lvar_collector.clone());
            if fin != wfin {
                return fail("final table", format!("session ended with table {} but the whole of {:?} gives {}", fin, me.text, wfin));
            }
            let mut a = vec![];
            let mut b = vec![];
            let Some(w) = read(&format!("{:?}", whole.node)) else { return fail("unreadable", "the printed tree cannot be read") };
            flatten(&w, &mut a);
            for (i, (node, _)) in me.log.iter().enumerate() {
                let Some(mut v) = read(node) else { return fail("unreadable", "the printed tree cannot be read") };
                v.shift(me.chunk(i).0 as i64);
                flatten(&v, &mut b);
            }
            if a != b {
                let k = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
                return fail(
                    "trees",
                    format!(
                        "statement {} of {:?} cut at {:?} is {} in the session but {} in the whole",
                        k,
                        me.text,
                        me.cuts,
                        b.get(k).map_or("missing".into(), |v| v.text_form()),
                        a.get(k).map_or("missing".into(), |v| v.text_form())
                    ),
                );
            }
            // the whole program parsed as a program is the same program
            if me.start.is_empty() && me.frames.is_empty() {
                match guard(|| parse(Entry::Program, &me.text, "session", None, None)) {
                    Ok(Ok(r)) if r.node == whole.node && r.lvar_collector == whole.lvar_collector => {}
                    Ok(Ok(r)) => return fail("entry points differ", format!("{:?} parsed as a program and as a session differ: {:?} and {:?}", me.text, r, whole)),
                    Ok(Err(e)) => return fail("entry points differ", format!("{:?} is answered {:?} at {:?} as a program but accepted as a session", me.text, e.kind, e.loc)),
                    Err(p) => return fail(format!("panic {}", p.place()), format!("{:?} panicked: {}", me.text, p.msg)),
                }
            }
            if me.cuts.len() > 1 {
                env.st.inc("nontrivial");
            }
            h = mix(h ^ hash(fin.as_bytes()) ^ me.cuts.len() as u64);
        }
        env.st.state(h);
        env.st.schedules.insert(hash(c.ops.iter().filter(|o| o.name != "session").map(|o| format!("{}{:?}", o.name, o.ints)).collect::<String>().as_bytes()));
        Verdict::Pass
    }
    fn shrinks(&self, c: &Case) -> Vec<Case> {
        c10::program_shrinks(c, "session")
    }
    fn rule(&self) -> &'static str {
        "One to three sessions, each a generated program cut into chunks where it is complete, served in a drawn interleaving with damaged, shortened, cancelled, unwound, repeated and retried chunks and crashes followed by replay of the log; at the end trees and tables are compared with a parse of the whole. Non-trivial: more than one chunk; distinct: the sequence of server events with the final table differs."
    }
    fn real(&self) -> &'static [&'static str] {
        &["ruruby_parse lexer and parser (instrumented build of /repo)"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["clients, server, its log and its crashes (simulated)", "caller context"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["programs of the generator's grammar, cut only where nothing is open", "the log of accepted chunks survives a crash, nothing else does", "a top-level list of statements inside parentheses is compared statement by statement"]
    }
    fn probes(&self) -> &'static [&'static str] {
        &["chunks accepted", "fault crash and replay", "fault chunk repeated", "fault accepted chunk cancelled", "fault chunk unwound by the context", "fault chunk damaged then syntax", "fault chunk short then eof"]
    }
}
