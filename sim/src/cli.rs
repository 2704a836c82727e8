//! The command as shipped, run under the operating system seam in plan mode: a simulated disk
//! with one file, simulated standard output and error, and a fault plan.
use crate::case::*;
use crate::driver::*;
use crate::sut::*;
use crate::*;
use rpwrap::*;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

pub const FILE: &str = "/sim/disk/prog.rb";

#[derive(Default)]
pub struct Plan {
    pub content: Option<Vec<u8>>,
    pub target: Vec<u8>,
    pub versions: Vec<Vec<u8>>,
    /// the content of every file but the target
    pub others: Option<Vec<u8>>,
    pub lines: Vec<String>,
    pub args: Vec<Vec<u8>>,
    pub env: Vec<(String, String)>,
}
#[derive(Debug)]
pub struct Ran {
    pub exit: Option<i32>,
    pub signal: Option<i32>,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    /// the log without the bytes written
    pub log: Vec<String>,
    pub read: Vec<u8>,
    pub mallocs: u64,
}
impl Ran {
    /// Errors other than interruptions that were given to an operation of this kind.
    pub fn errors(&self, what: &str) -> Vec<i64> {
        let p = format!("{} err ", what);
        self.log.iter().filter_map(|l| l.strip_prefix(&p)?.parse().ok()).filter(|e| *e != libc::EINTR as i64).collect()
    }
    pub fn ended(&self) -> String {
        match (self.exit, self.signal) {
            (Some(c), _) => format!("exit status {}", c),
            (_, Some(s)) => format!("signal {}", s),
            _ => "?".into(),
        }
    }
}

pub fn binary() -> std::path::PathBuf {
    root().join("target/cli/debug/ruruby-parse")
}

pub fn run(p: &Plan) -> Ran {
    let d = scratch().join(format!("cli-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    let mut plan: Vec<u8> = vec![];
    if !p.target.is_empty() {
        plan.extend(b"target ");
        plan.extend(&p.target);
        plan.push(b'\n');
    }
    plan.extend(format!("altdir {}\n", d.display()).as_bytes());
    match &p.content {
        Some(b) => {
            std::fs::write(d.join("v0"), b).unwrap();
            plan.extend(format!("content {}\n", d.join("v0").display()).as_bytes());
        }
        None => plan.extend(b"content -\n"),
    }
    for (i, v) in p.versions.iter().enumerate() {
        std::fs::write(d.join(format!("v{}", i + 1)), v).unwrap();
    }
    if let Some(b) = &p.others {
        std::fs::write(d.join("others"), b).unwrap();
        plan.extend(format!("others {}\n", d.join("others").display()).as_bytes());
    }
    for l in &p.lines {
        plan.extend(l.as_bytes());
        plan.push(b'\n');
    }
    std::fs::write(d.join("plan"), plan).unwrap();
    let log = d.join("log");
    let mut c = Command::new(binary());
    for a in &p.args {
        c.arg(std::ffi::OsStr::from_bytes(a));
    }
    c.env_clear()
        .env("LD_PRELOAD", root().join("target/libsimos.so"))
        .env("SIMOS_PLAN", d.join("plan"))
        .env("SIMOS_LOG", &log)
        .current_dir("/")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null());
    for (k, v) in &p.env {
        c.env(k, v);
    }
    unsafe {
        c.pre_exec(|| {
            libc::alarm(60);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &none);
            Ok(())
        });
    }
    let st = c.status().expect("cannot start the command");
    let raw = std::fs::read(&log).unwrap_or_default();
    let mut r = Ran { exit: st.code(), signal: st.signal(), out: vec![], err: vec![], log: vec![], read: vec![], mallocs: 0 };
    let unhex = |h: &str| -> Vec<u8> { (0..h.len() / 2).filter_map(|i| u8::from_str_radix(h.get(2 * i..2 * i + 2)?, 16).ok()).collect() };
    for l in String::from_utf8_lossy(&raw).lines() {
        let w: Vec<&str> = l.split(' ').collect();
        match (w[0], w.get(1).copied().unwrap_or("")) {
            ("W1", x) if x != "err" => {
                r.out.extend(unhex(w.get(2).unwrap_or(&"")));
                r.log.push(format!("W1 {}", x));
            }
            ("W2", x) if x != "err" => {
                r.err.extend(unhex(w.get(2).unwrap_or(&"")));
                r.log.push(format!("W2 {}", x));
            }
            ("READ", x) => {
                r.read.extend(unhex(w.get(2).unwrap_or(&"")));
                r.log.push(format!("READ {}", x));
            }
            ("END", n) => r.mallocs = n.parse().unwrap_or(0),
            _ => r.log.push(l.to_string()),
        }
    }
    r
}

static COLS: AtomicI64 = AtomicI64::new(-1);
extern "C" fn isatty(_: i32) -> i32 {
    (COLS.load(Relaxed) != -1) as i32
}
extern "C" fn winsize(_: i32, w: *mut libc::winsize) -> i32 {
    let c = COLS.load(Relaxed);
    if c < 0 {
        return -1;
    }
    unsafe {
        std::ptr::write_bytes(w, 0, 1);
        (*w).ws_row = 24;
        (*w).ws_col = c as u16;
    }
    1
}

#[derive(Clone, PartialEq, Debug)]
pub enum Expect {
    Tree(String),
    Refused(String, String),
    /// the library itself panics or hangs: judged elsewhere
    Unknown,
}
/// What the library gives for this text. `cols`: -1 no terminal, -2 a terminal whose size cannot
/// be had.
pub fn expect(text: &str, cols: i64) -> Expect {
    COLS.store(cols, Relaxed);
    os::set(&os::Hooks { isatty: Some(isatty), winsize: Some(winsize), ..os::NONE });
    let r = budget(4 * c01::allowed(text.len()), || {
        guard(|| match parse(Entry::Program, text, "", None, None) {
            Ok(r) => Expect::Tree(format!("{:#?}\n{}\n", r.node, r.source_info.get_location(&Loc(0, 0)))),
            Err(e) => Expect::Refused(format!("{:?}", e.kind), e.source_info.get_location(&e.loc)),
        })
    });
    os::set(&os::NONE);
    r.unwrap_or(Expect::Unknown)
}

/// The output without the version line, when that was asked for.
pub fn body(out: &[u8], verbose: bool) -> &[u8] {
    if verbose {
        if let Some(k) = out.iter().position(|b| *b == b'\n') {
            return &out[k + 1..];
        }
    }
    out
}

pub const SHORT: i64 = 0;
pub const ERRNO: i64 = 1;
pub const REPLACE: i64 = 2;
pub const UNLINK: i64 = 3;
pub const TRUNCATE: i64 = 4;
pub const FAIL: i64 = 5;
pub const OVERWRITE: i64 = 6;
pub const APPEND: i64 = 7;

/// The plan's fault lines of a case: "fault" [index, kind, argument] [operation].
pub fn fault_lines(c: &Case, st: &mut Stats) -> Vec<String> {
    let mut v = vec![];
    for o in c.ops.iter().filter(|o| o.name == "fault").take(250) {
        let act = match o.int(1) {
            SHORT => "short",
            ERRNO => "errno",
            REPLACE => "replace",
            UNLINK => "unlink",
            TRUNCATE => "truncate",
            OVERWRITE => "overwrite",
            APPEND => "append",
            _ => "fail",
        };
        let _ = st;
        v.push(format!("fault {} {} {} {} v{}", o.str(0), o.uint(0), act, o.int(2), o.uint(3)));
    }
    v
}
/// What every variable of the environment is in this world, but for those of the runtime.
pub const ANSWERS: &[&str] = &["1", "0", "true", "off", "80", "/tmp/x", "a", "C", "rb", "10"];
pub fn world(c: &Case, p: &mut Plan, st: &mut Stats) {
    if let Some(o) = c.find("world") {
        p.lines.push(format!("env {}", ANSWERS[o.uint(0) % ANSWERS.len()]));
        st.inc("fault environment with answers");
    }
}
/// Every name but the file's exists, too.
pub fn others(c: &Case, p: &mut Plan, st: &mut Stats) {
    if let Some(o) = c.find("others") {
        if o.int(0) == 1 {
            p.lines.push("others dir".into());
        } else {
            p.others = Some(o.bytes(0).to_vec());
        }
        st.inc("fault other names exist");
    }
}
/// Counts what was injected, from the log.
pub fn count(r: &Ran, st: &mut Stats) {
    for l in &r.log {
        let w: Vec<&str> = l.split(' ').collect();
        let name = |e: &str| e.parse().ok().map(|n: i32| std::io::Error::from_raw_os_error(n).to_string().split(" (os").next().unwrap_or("").to_string()).unwrap_or_default();
        match w.as_slice() {
            ["OP", op, "err", e] => st.inc(&format!("fault {} {}", op, name(e))),
            ["OP", "malloc", "fail"] => st.inc("fault malloc fails"),
            [w, "err", e] if w.starts_with('W') => st.inc(&format!("fault {} {}", if *w == "W1" { "stdout" } else { "stderr" }, name(e))),
            ["MUT", m, ..] => st.inc(&format!("fault file {}", m)),
            _ => {}
        }
    }
    st.add("simulated system operations", r.log.len() as u64);
}
