//! C08: the command parses exactly the file's content or reports failure.
use crate::case::*;
use crate::cli::*;
use crate::driver::*;
use crate::rng::*;
use crate::*;

pub struct C08;

pub fn source(r: &mut Rng) -> Vec<u8> {
    let progs: Vec<&[u8]> = corpus::PROGRAMS.iter().map(|s| s.as_bytes()).collect();
    let mut t = match r.below(12) {
        0..=3 => {
            let p = *r.pick(&progs);
            let lines: Vec<&[u8]> = p.split_inclusive(|b| *b == b'\n').collect();
            let a = r.below(lines.len());
            lines[a..=(a + r.size(6)).min(lines.len() - 1)].concat()
        }
        4..=7 => {
            let f = *r.pick(&[3, 6, 12, 25]);
            gen::print(&gen::Gen::program(r, f), &[]).text.into_bytes()
        }
        8 => r.pick(&progs).to_vec(),
        9 => {
            // lines that are complete wherever they are cut
            let n = r.size(400);
            (0..n).flat_map(|i| format!("x{} = {}\n", i, r.below(1000)).into_bytes()).collect()
        }
        10 => "é = '日本語' # ñ\n".repeat(r.range(1, 400)).into_bytes(),
        _ => vec![],
    };
    match r.below(12) {
        0 => t = t.iter().flat_map(|b| if *b == b'\n' { vec![b'\r', b'\n'] } else { vec![*b] }).collect(),
        1 => t.extend(b"  \n\n\t\n"),
        2 => {
            while t.last() == Some(&b'\n') {
                t.pop();
            }
        }
        3 => t = [b"\n\n  ".to_vec(), t].concat(),
        4 => t = [b"\xef\xbb\xbf".to_vec(), t].concat(),
        5 => t = [b"#!/usr/bin/env ruby\n".to_vec(), t].concat(),
        _ => {}
    }
    t
}
const ERRNOS: &[i32] = &[libc::ENOENT, libc::EACCES, libc::EISDIR, libc::EMFILE, libc::ENFILE, libc::ELOOP, libc::ENOMEM, libc::EIO, libc::ESTALE, libc::EAGAIN, libc::ENXIO, libc::ENAMETOOLONG];

impl Prop for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn size(&self, thorough: bool) -> (usize, usize) {
        if thorough { (256, 3_000) } else { (64, 700) }
    }
    fn prepare(&self) -> Result<(), String> {
        if binary().exists() { Ok(()) } else { Err(format!("{} is missing", binary().display())) }
    }
    fn gen(&self, r: &mut Rng, _sh: &mut Shard) -> Case {
        let mut c = Case::new("C08");
        let mut text = source(r);
        let progs: Vec<&[u8]> = corpus::PROGRAMS.iter().map(|s| s.as_bytes()).collect();
        let mut st = Stats::default();
        match r.below(8) {
            0 => {
                damage::apply(&damage::draw(r, &text, &progs), &mut text, &mut st);
            }
            1 => {
                // not UTF-8
                let k = r.below(text.len() + 1);
                let bad: &[u8] = r.pick(&[&b"\xff"[..], b"\xe3\x81", b"\xc0\x80", b"\xed\xa0\x80", b"\x80", b"\xf4\x90\x80\x80", b"\xfe\xff"]);
                for (i, b) in bad.iter().enumerate() {
                    text.insert(k + i, *b);
                }
            }
            _ => {}
        }
        let name = *r.pick(&[FILE, FILE, "prog.rb", "/sim/日本 語.rb", "x", "./a/../b.rb", "a:b", "prog.txt", "/sim/prog", "PROG.RB"]);
        c.push("file", &[!r.chance(1, 30) as i64], &[&text, name.as_bytes()]);
        c.push("run", &[r.chance(1, 6) as i64, r.below(3) as i64, r.chance(1, 5) as i64 * r.range(1, 120) as i64, r.below(2) as i64], &[]);
        if r.chance(1, 5) {
            // a size that is not the content's: a pipe, a file of /proc, a file that grew
            let n = *r.pick(&[0, 0, 1, text.len() / 2, text.len().saturating_sub(1), text.len() + 1, text.len() + 4096]);
            c.push("size", &[n as i64], &[]);
        }
        let versions = r.below(3);
        for _ in 0..versions {
            let v = if r.chance(1, 2) {
                // a longer or shorter relative of the first
                let mut v = text.clone();
                if r.chance(1, 2) {
                    v.extend(source(r));
                } else {
                    let lines: Vec<&[u8]> = text.split_inclusive(|b| *b == b'\n').collect();
                    v = lines[..lines.len() / 2].concat();
                }
                v
            } else {
                source(r)
            };
            c.push("version", &[], &[&v]);
        }
        match r.below(10) {
            0 => {}
            1..=4 => {
                // short and interrupted reads
                let small = *r.pick(&[1usize, 3, 16, 100, 5000]);
                let from = r.below(4);
                for i in 0..r.range(1, 60) {
                    if r.chance(1, 4) {
                        c.push("fault", &[(from + i) as i64, ERRNO, libc::EINTR as i64, 0], &[b"read"]);
                    } else {
                        c.push("fault", &[(from + i) as i64, SHORT, r.range(1, small) as i64, 0], &[b"read"]);
                    }
                }
            }
            _ => {}
        }
        for _ in 0..r.below(3) {
            let op: &[u8] = r.pick(&[&b"realpath"[..], b"open", b"open", b"read", b"read", b"read"]);
            let i = if op == b"read" { r.below(5) } else { r.below(2) } as i64;
            match r.below(8) {
                0..=2 => c.push("fault", &[i, ERRNO, *r.pick(ERRNOS) as i64, 0], &[op]),
                3 => c.push("fault", &[i, ERRNO, libc::EINTR as i64, 0], &[op]),
                4 => c.push("fault", &[i, UNLINK, 0, 0], &[op]),
                5 if op != b"read" => c.push("fault", &[0, TRUNCATE, r.below(text.len() + 1) as i64, 0], &[op]),
                _ if versions > 0 => c.push("fault", &[i, REPLACE, 0, r.range(1, versions) as i64], &[op]),
                _ => {}
            }
        }
        if r.chance(1, 3) {
            // whatever else is looked for is there
            c.push("others", &[r.chance(1, 4) as i64], &[&source(r)]);
        }
        if r.chance(1, 4) {
            c.push("world", &[r.below(ANSWERS.len()) as i64], &[]);
        }
        c
    }
    fn run(&self, c: &Case, env: &mut Env) -> Verdict {
        let (Some(f), Some(o)) = (c.find("file"), c.find("run")) else { return Verdict::Pass };
        if f.bytes(1).is_empty() {
            return Verdict::Pass;
        }
        let verbose = o.int(0) == 1;
        let cols = if o.int(2) > 0 { o.int(2) } else { -1 };
        let mut p = Plan { target: f.bytes(1).to_vec(), ..Default::default() };
        if f.int(0) == 1 {
            p.content = Some(f.bytes(0).to_vec());
        }
        p.versions = c.ops.iter().filter(|o| o.name == "version").map(|o| o.bytes(0).to_vec()).collect();
        p.lines = fault_lines(c, &mut env.st);
        if let Some(o) = c.find("size") {
            p.lines.push(format!("size {}", o.uint(0)));
            env.st.inc("fault misleading file size");
        }
        if cols > 0 {
            p.lines.push(format!("tty {}", cols));
        }
        world(c, &mut p, &mut env.st);
        others(c, &mut p, &mut env.st);
        p.lines.push(format!("seed {}", hash(c.text().as_bytes())));
        if verbose {
            p.args.push(b"-v".to_vec());
        }
        p.args.push(f.bytes(1).to_vec());
        for a in 0..o.uint(1) {
            p.args.push(format!("arg{}", a).into_bytes());
        }
        p.env = vec![("RUST_BACKTRACE".into(), "0".into())];
        let r = run(&p);
        count(&r, &mut env.st);
        env.ev(|| format!("{} {:?}", r.ended(), r.log));
        // every content the path named
        let mut whole: Vec<Vec<u8>> = p.content.iter().cloned().collect();
        for l in r.log.iter().filter(|l| l.starts_with("MUT")) {
            let w: Vec<&str> = l.split(' ').collect();
            match w[1] {
                "replace" => whole.extend(p.versions.iter().cloned()),
                "truncate" => {
                    let k = w.get(2).and_then(|x| x.parse().ok()).unwrap_or(0);
                    for v in whole.clone() {
                        // beyond the end: filled up with zeros
                        let mut v = v;
                        v.resize(k, 0);
                        whole.push(v);
                    }
                }
                _ => {}
            }
        }
        let texts: Vec<Option<String>> = whole.iter().map(|b| String::from_utf8(b.clone()).ok()).collect();
        let exps: Vec<Expect> = texts.iter().map(|t| t.as_ref().map_or(Expect::Refused("not text".into(), String::new()), |t| expect(t, cols))).collect();
        if exps.contains(&Expect::Unknown) {
            return Verdict::Pass;
        }
        let out = String::from_utf8_lossy(&r.out).into_owned();
        let got = String::from_utf8_lossy(body(&r.out, verbose)).into_owned();
        let err = String::from_utf8_lossy(&r.err).into_owned();
        let told = |class: &str, why: &str| {
            fail(
                class,
                format!("{}; {}, standard output {:?}, standard error {:?}, contents the file had {:?}, operations {:?}", why, r.ended(), out.chars().take(400).collect::<String>(), err.chars().take(300).collect::<String>(), texts.iter().map(|t| t.as_ref().map(|t| t.chars().take(200).collect::<String>())).collect::<Vec<_>>(), r.log.iter().take(40).collect::<Vec<_>>()),
            )
        };
        // std takes up an interrupted open or read again, but not an interrupted lookup
        let again = format!(" {}", libc::EINTR);
        let hard = r.log.iter().any(|l| l.starts_with("OP ") && l.contains(" err ") && (l.starts_with("OP realpath") || !l.ends_with(&again)));
        if r.signal.is_some() {
            return told("killed", "the command did not exit");
        }
        if r.exit == Some(0) {
            if !exps.iter().any(|e| matches!(e, Expect::Tree(t) if *t == got)) {
                return told("wrong tree", "the command succeeded but did not print the tree of the file's complete content");
            }
            env.st.inc("outcome tree");
        } else {
            if !got.is_empty() {
                return told("printed and failed", "the command printed something and failed");
            }
            if err.is_empty() {
                return told("silent failure", "the command failed without saying what went wrong");
            }
            if !hard && !exps.is_empty() && exps.iter().all(|e| matches!(e, Expect::Tree(_))) {
                return told("refused", "nothing failed and the content parses, but the command failed");
            }
            env.st.inc("outcome failure");
        }
        if c.find("fault").is_some() {
            env.st.inc("nontrivial");
        }
        if r.log.iter().filter(|l| l.starts_with("READ ")).count() > 6 {
            env.st.inc("fault short reads");
        }
        let shape: Vec<String> = r.log.iter().map(|l| l.to_string()).collect();
        let h = hash(format!("{:?} {}", shape, r.ended()).as_bytes());
        env.st.state(h);
        env.st.schedules.insert(h);
        Verdict::Pass
    }
    fn rule(&self) -> &'static str {
        "One run of the shipped command on a simulated file (corpus, generated, long, CRLF, BOM, invalid UTF-8, empty, missing; odd names) with drawn errors of lookup, open and read, interrupted and short reads, replacement, removal and truncation of the file around them. Non-trivial: at least one fault planned; distinct: the sequence of system operations with sizes and the exit status differs."
    }
    fn real(&self) -> &'static [&'static str] {
        &["the ruruby-parse command as shipped (uninstrumented), clap, std::fs", "ruruby_parse library (expected output)"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["file system, standard output and error, terminal, randomness and clock (C library seam in front of the real process)"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["a file changed in place while it is being read is outside: no reader can tell", "the expected output is what the library in the same tree gives for the text"]
    }
    fn probes(&self) -> &'static [&'static str] {
        &["outcome tree", "outcome failure", "fault short reads", "fault misleading file size", "fault file replace", "fault file unlink", "fault file truncate", "fault other names exist"]
    }
}
