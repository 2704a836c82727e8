//! C09: the command exits with success only if all its output was written.
use crate::case::*;
use crate::cli::*;
use crate::driver::*;
use crate::rng::*;
use crate::*;

pub struct C09;

const DEFAULT: &str = "a=3; if a==3 then 0 else 1 end";
const ERRNOS: &[i32] = &[libc::EPIPE, libc::ENOSPC, libc::EIO, libc::EAGAIN, libc::EFBIG, libc::EDQUOT, libc::ECONNRESET, libc::EPERM, libc::EINVAL];

impl Prop for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn size(&self, thorough: bool) -> (usize, usize) {
        if thorough { (256, 3_000) } else { (64, 700) }
    }
    fn prepare(&self) -> Result<(), String> {
        c08::C08.prepare()
    }
    fn gen(&self, r: &mut Rng, _sh: &mut Shard) -> Case {
        let mut c = Case::new("C09");
        let mut text = c08::source(r);
        text.retain(|b| *b != 0);
        let progs: Vec<&[u8]> = corpus::PROGRAMS.iter().map(|s| s.as_bytes()).collect();
        if r.chance(1, 4) {
            let mut st = Stats::default();
            damage::apply(&damage::draw(r, &text, &progs), &mut text, &mut st);
        }
        let text = damage::decode(&text);
        let cols = match r.below(4) {
            0 => *r.pick(&[0i64, 1, 2, 7, 40, 80, 300, -2]),
            _ => -1,
        };
        c.push("run", &[r.chance(1, 6) as i64, r.below(5) as i64, cols, r.below(2) as i64], &[text.as_bytes()]);
        let sink: &[u8] = if r.chance(1, 5) { b"write2" } else { b"write1" };
        match r.below(8) {
            0 => {}
            1..=2 => {
                let small = *r.pick(&[1usize, 7, 60, 2000]);
                let from = r.below(3);
                for i in 0..r.range(1, 80) {
                    if r.chance(1, 4) {
                        c.push("fault", &[(from + i) as i64, ERRNO, libc::EINTR as i64], &[sink]);
                    } else {
                        c.push("fault", &[(from + i) as i64, SHORT, r.range(1, small) as i64], &[sink]);
                    }
                }
            }
            3..=4 => c.push("fault", &[r.size(4) as i64, ERRNO, *r.pick(ERRNOS) as i64], &[sink]),
            5 => c.push("cap", &[r.size(5000) as i64, (sink == b"write2") as i64], &[]),
            6 => c.push("malloc", &[r.below(1 << 20) as i64, r.below(3) as i64], &[]),
            _ => {
                c.push("fault", &[r.below(3) as i64, SHORT, r.range(1, 50) as i64], &[sink]);
                c.push("fault", &[r.below(4) as i64, ERRNO, *r.pick(ERRNOS) as i64], &[sink]);
            }
        }
        if r.chance(1, 4) {
            c.push("world", &[r.below(ANSWERS.len()) as i64], &[]);
        }
        c
    }
    fn run(&self, c: &Case, env: &mut Env) -> Verdict {
        let Some(o) = c.find("run") else { return Verdict::Pass };
        let verbose = o.int(0) == 1;
        let cols = o.int(2);
        let mut text = o.str(0);
        let mut p = Plan::default();
        if verbose {
            p.args.push(b"-v".to_vec());
        }
        match o.int(1) {
            0 | 1 if !text.starts_with('-') && !text.contains('\0') => {
                p.args.push(b"-e".to_vec());
                p.args.push(text.clone().into_bytes());
            }
            2 => text = DEFAULT.into(),
            _ => {
                p.target = FILE.into();
                p.content = Some(text.clone().into_bytes());
                p.args.push(FILE.into());
            }
        }
        p.lines = fault_lines(c, &mut env.st);
        if cols == -2 {
            // a terminal that does not tell its size
            p.lines.push("tty 0".into());
            for i in 0..4 {
                p.lines.push(format!("fault ioctl {} errno {} v0", i, libc::EIO));
            }
        } else if cols >= 0 {
            p.lines.push(format!("tty {}", cols));
        }
        for o in c.ops.iter().filter(|o| o.name == "cap") {
            p.lines.push(format!("cap{} {}", if o.int(1) == 1 { 2 } else { 1 }, o.uint(0)));
        }
        world(c, &mut p, &mut env.st);
        p.lines.push(format!("seed {}", hash(c.text().as_bytes())));
        p.env = vec![("RUST_BACKTRACE".into(), "0".into())];
        if let Some(m) = c.find("malloc") {
            let n = run(&p).mallocs;
            let k = (m.uint(0) as u64 % (1 << 20)) * n >> 20;
            // from there on: one, a few, many
            for i in 0..[1, 4, 200][m.uint(1) % 3] {
                p.lines.push(format!("fault malloc {} fail 0 v0", k + i));
            }
        }
        let r = run(&p);
        count(&r, &mut env.st);
        if cols != -1 {
            env.st.inc("fault odd terminal");
        }
        env.ev(|| format!("{} {:?}", r.ended(), r.log));
        let exp = expect(&text, cols);
        if exp == Expect::Unknown {
            return Verdict::Pass;
        }
        let got = String::from_utf8_lossy(body(&r.out, verbose)).into_owned();
        let err = String::from_utf8_lossy(&r.err).into_owned();
        let told = |class: &str, why: &str| {
            fail(
                class,
                format!("{}; text {:?}, {}, standard output got {} bytes ending in {:?}, standard error {:?}, expected {}, operations {:?}", why, text.chars().take(300).collect::<String>(), r.ended(), got.len(), got.chars().rev().take(80).collect::<String>().chars().rev().collect::<String>(), err.chars().take(400).collect::<String>(), match &exp { Expect::Tree(t) => format!("a tree of {} bytes", t.len()), e => format!("{:?}", e) }, r.log.iter().take(40).collect::<Vec<_>>()),
            )
        };
        let oom = r.log.iter().any(|l| l.starts_with("OP malloc fail"));
        let (e1, e2) = (r.errors("W1"), r.errors("W2"));
        if r.signal == Some(libc::SIGALRM) {
            return told("hang", "the command did not exit");
        }
        if r.exit == Some(0) {
            match &exp {
                Expect::Tree(t) if *t == got => env.st.inc("outcome success"),
                Expect::Tree(_) => return told("false success", "the command succeeded but its output was not delivered as it is"),
                _ => return told("false success", "the command succeeded though the text does not parse"),
            }
        } else {
            if matches!(exp, Expect::Tree(_)) && e1.is_empty() && e2.is_empty() && !oom {
                return told("false failure", "the text parses and nothing failed, but the command failed");
            }
            if let Expect::Refused(kind, place) = &exp {
                if e1.is_empty() && e2.is_empty() && !oom && (!err.contains(kind.as_str()) || !err.contains(place.as_str())) {
                    return told("report", "the parse error is not reported with its kind and place");
                }
            }
            env.st.inc(if oom { "outcome failure out of memory" } else if matches!(exp, Expect::Refused(..)) { "outcome parse error" } else { "outcome output failure" });
        }
        if c.ops.len() > 1 {
            env.st.inc("nontrivial");
        }
        let h = hash(format!("{:?} {}", r.log, r.ended()).as_bytes());
        env.st.state(h);
        env.st.schedules.insert(h);
        Verdict::Pass
    }
    fn rule(&self) -> &'static str {
        "One run of the shipped command on a text given by -e, as a file or by default, with standard output and error failing, interrupted, taking part of a write or full, terminals of odd sizes, and allocations failing at drawn points. Non-trivial: at least one fault planned; distinct: the sequence of system operations with sizes and the exit status differs."
    }
    fn real(&self) -> &'static [&'static str] {
        &["the ruruby-parse command as shipped (uninstrumented), clap, std::io", "ruruby_parse library (expected output)"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["standard output and error, file system, terminal, allocation failure, randomness and clock (C library seam in front of the real process)"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["delivered means accepted by the write call", "a standard output closed before the command starts is a recorded finding", "the expected output is what the library in the same tree gives for the text"]
    }
    fn probes(&self) -> &'static [&'static str] {
        &["outcome success", "outcome parse error", "outcome output failure", "outcome failure out of memory", "fault malloc fails", "fault odd terminal"]
    }
}
