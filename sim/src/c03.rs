//! C03: incomplete input is recognised as incomplete.
//!
//! A reader collects a program from an unreliable line: pieces of any size, tails lost and sent
//! again, the whole statement given up and started over. After every line it asks the parser
//! whether what it has is complete, the way an interactive shell does.
use crate::case::*;
use crate::driver::*;
use crate::gen::*;
use crate::rng::*;
use crate::sut::*;
use crate::*;
use rpwrap::*;

pub struct C03;

impl Prop for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn size(&self, thorough: bool) -> (usize, usize) {
        if thorough { (256, 16_000) } else { (64, 2_000) }
    }
    fn gen(&self, r: &mut Rng, _sh: &mut Shard) -> Case {
        let mut c = Case::new("C03");
        let f = c10::fuel(r);
        let prog = Gen::program(r, f);
        c.push("prog", &[], &[prog.text().as_bytes()]);
        c.push("reader", &[r.below(3) as i64], &[]);
        let n = print(&prog, &[]).text.len();
        let mut left = n as i64 + 40;
        let big = *r.pick(&[3usize, 12, 40, 200]);
        for _ in 0..60 {
            if left <= 0 {
                break;
            }
            match r.below(16) {
                0 => {
                    let k = r.range(1, 30) as i64;
                    left += k;
                    c.push("lose", &[k], &[]);
                }
                1 if left < 4000 => {
                    left += 30;
                    c.push("again", &[], &[]);
                }
                2 => c.push("dup", &[r.range(1, 20) as i64], &[]),
                _ => {
                    let k = r.range(1, big) as i64;
                    left -= k;
                    c.push("piece", &[k], &[]);
                }
            }
        }
        for _ in 0..r.range(2, 10) {
            c.push("cut", &[r.below(1 << 20) as i64, r.below(1 << 20) as i64], &[]);
        }
        c
    }
    fn run(&self, c: &Case, env: &mut Env) -> Verdict {
        let prog = T::parse(&c.find("prog").map_or(String::new(), |o| o.str(0)));
        let entry = Entry::from(c.find("reader").map_or(0, |o| o.int(0)));
        let p = print(&prog, &[]);
        let text = &p.text;
        let n = text.len();
        env.ev(|| format!("text {:?}", text));
        let closed: std::collections::BTreeSet<usize> = p.closed.iter().copied().collect();
        let mut table: Option<LvarCollector> = None;
        // spans holding a position, innermost kind first
        // (a line of a here document that begins like its terminator looks finished there)
        let inside = |at: usize, base: usize| p.spans.iter().filter(|s| s.0 >= base && s.0 <= at && at < s.1).min_by_key(|s| s.1 - s.0).map(|s| s.2).filter(|_| !HEREDOC_IDS.contains(&text[..at].rsplit('\n').next().unwrap_or("").trim_start()));
        let mut h = 0u64;
        let mut try_ = |env: &mut Env, from: usize, to: usize, table: &Option<LvarCollector>| -> Result<Res, Verdict> {
            let t = &text[from..to];
            let r = budget(c01::allowed(t.len()), || guard(|| parse(entry, t, "(irb)", if entry == Entry::Binding { table.clone() } else { None }, None)));
            match r {
                Ok(r) => {
                    env.ev(|| format!("parse {}..{} {}", from, to, kind(&r)));
                    env.st.inc(&format!("answer {}", kind(&r)));
                    Ok(r)
                }
                Err(p) => Err(fail(format!("panic {}", p.place()), format!("parsing {:?} panicked: {}", t, p.msg))),
            }
        };
        let (mut base, mut got, mut asked) = (0usize, 0usize, 0usize);
        let mut moves: Vec<(u8, usize)> = c
            .ops
            .iter()
            .filter_map(|o| match o.name.as_str() {
                "piece" => Some((0, o.uint(0).max(1))),
                "lose" => Some((1, o.uint(0))),
                "again" => Some((2, 0)),
                "dup" => Some((3, o.uint(0))),
                _ => None,
            })
            .collect();
        // once the faults stop the rest arrives
        moves.push((0, n));
        for (m, k) in moves {
            match m {
                1 => {
                    // the tail of what arrived is lost; the sender goes back to it
                    let k = k.min(got - base);
                    if k > 0 {
                        env.st.inc("fault tail lost");
                    }
                    got -= k;
                    while !text.is_char_boundary(got) {
                        got -= 1
                    }
                    asked = asked.min(got);
                    continue;
                }
                2 => {
                    if got > base {
                        env.st.inc("fault statement given up");
                    }
                    got = base;
                    asked = base;
                    continue;
                }
                3 => {
                    // sent twice: the reader knows the position and drops it
                    env.st.inc("fault duplicated piece");
                    let _ = k;
                    continue;
                }
                _ => {}
            }
            let mut to = (got + k).min(n);
            while !text.is_char_boundary(to) {
                to += 1
            }
            got = to;
            env.st.inc("fault delivery stopped here");
            // every line that is now complete
            while let Some(nl) = text[asked..got].find('\n') {
                let e = asked + nl + 1;
                asked = e;
                if p.soft.contains(&e) {
                    // the next line begins with a dot: the reader looks ahead (what is there so
                    // far may be complete, `a.b`, or wrong on its own, `if $g, (0)`)
                    env.st.inc("looked ahead");
                    continue;
                }
                let r = match try_(env, base, e, &table) {
                    Ok(r) => r,
                    Err(v) => return v,
                };
                let done = closed.contains(&e);
                h = mix(h ^ done as u64 ^ inside(e, base).map_or(0, |k| hash(k.as_bytes()) << 1));
                match (&r, done) {
                    (Ok(_), true) => {}
                    (Err(e2), false) if e2.kind == ParseErrKind::UnexpectedEOF => {}
                    (Ok(_), false) => return fail(format!("line accepted {}", inside(e, base).unwrap_or("operand")), format!("{:?} was accepted as complete, but something is still open in {:?}", &text[base..e], text)),
                    (Err(e2), true) => {
                        return fail("complete refused", format!("{:?} is complete but was answered {:?} at {:?}", &text[base..e], e2.kind, e2.loc))
                    }
                    (Err(e2), false) => {
                        return fail(
                            format!("line refused {}", inside(e, base).unwrap_or("operand")),
                            format!("{:?} is the beginning of {:?} but was answered {:?} at {:?}", &text[base..e], text, e2.kind, e2.loc),
                        )
                    }
                }
                if let Ok(r) = r {
                    env.st.inc("statements accepted");
                    table = Some(r.lvar_collector);
                    base = e;
                }
            }
            // and, eagerly, what is there of the last one
            if got > base {
                if let Some(kind) = inside(got, base) {
                    match try_(env, base, got, &table) {
                        Ok(Ok(_)) => return fail(format!("cut accepted {}", kind), format!("{:?} was accepted as complete inside an open {}", &text[base..got], kind)),
                        Ok(Err(_)) => {}
                        Err(v) => return v,
                    }
                }
            }
        }
        if base != n {
            return fail("not finished", format!("everything was delivered but only {} of {} bytes were accepted", base, n));
        }
        // deliveries of the whole program that stop for good: at a byte inside a construct, and
        // right behind a statement
        for o in c.ops.iter().filter(|o| o.name == "cut") {
            if !p.spans.is_empty() {
                let s = p.spans[o.uint(0) % p.spans.len()];
                let mut at = s.0 + o.uint(1) % (s.1 - s.0).max(1);
                while !text.is_char_boundary(at) {
                    at -= 1
                }
                if at >= s.0 && at < s.1 && inside(at, 0).is_some() {
                    env.st.inc("fault delivery ended inside a construct");
                    env.st.inc(&format!("cut in {}", s.2));
                    match try_(env, 0, at, &None) {
                        Ok(Ok(_)) => return fail(format!("cut accepted {}", s.2), format!("{:?} was accepted as complete inside an open {}", &text[..at], s.2)),
                        Ok(Err(_)) => {}
                        Err(v) => return v,
                    }
                    h = mix(h ^ hash(s.2.as_bytes()));
                }
            }
            if !p.ends.is_empty() && o.uint(1) % 4 == 0 {
                let at = p.ends[o.uint(0) % p.ends.len()];
                match try_(env, 0, at, &None) {
                    Ok(Ok(_)) => {}
                    Ok(Err(e)) => return fail("complete refused", format!("{:?} is complete but was answered {:?} at {:?}", &text[..at], e.kind, e.loc)),
                    Err(v) => return v,
                }
            }
        }
        if p.closed.len() > 1 {
            env.st.inc("nontrivial");
        }
        env.st.state(h);
        Verdict::Pass
    }
    fn shrinks(&self, c: &Case) -> Vec<Case> {
        c10::program_shrinks(c, "prog")
    }
    fn rule(&self) -> &'static str {
        "A generated program sent to an interactive reader in pieces, with tails lost and resent, statements given up and restarted, duplicates, and deliveries that end at a byte inside a construct or right behind a statement. The reader asks the parser after every line. Non-trivial: several places where the program is complete; distinct: the sequence of open constructs at the places where it was asked differs."
    }
    fn real(&self) -> &'static [&'static str] {
        &["ruruby_parse lexer and parser (instrumented build of /repo)"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["sender, line and interactive reader (simulated)"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["programs of the generator's grammar; it has no =begin comments and no __END__; where the next line begins with a dot the reader waits for that line", "pieces end on whole characters"]
    }
    fn probes(&self) -> &'static [&'static str] {
        &["answer ok", "answer eof", "looked ahead", "fault tail lost", "fault statement given up", "fault delivery ended inside a construct", "cut in heredoc", "cut in string", "cut in def", "cut in block", "cut in arguments", "cut in interpolation", "cut in regexp", "cut in percent"]
    }
}
