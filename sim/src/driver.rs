//! Runs shards of seeded cases in worker processes, confirms, minimises and reports violations,
//! and writes the evidence.
use crate::case::*;
use crate::rng::*;
use crate::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Write;
use std::time::Instant;

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Pass,
    Fail { class: String, detail: String },
}
pub fn fail(class: impl Into<String>, detail: impl Into<String>) -> Verdict {
    Verdict::Fail { class: class.into(), detail: detail.into() }
}

#[derive(Default)]
pub struct Stats {
    pub counters: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    pub schedules: HashSet<u64>,
    pub digest: u64,
    pub samples: Vec<String>,
}
impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) {
            *v += n
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn inc(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counters.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn state(&mut self, h: u64) {
        if self.states.len() < 400_000 {
            self.states.insert(h);
        }
    }
}

/// What a run may use: statistics and, when replaying, a log of what happened.
pub struct Env {
    pub st: Stats,
    pub log: Option<Vec<String>>,
    pub evhash: u64,
}
impl Env {
    pub fn new(log: bool) -> Env {
        Env { st: Stats::default(), log: if log { Some(vec![]) } else { None }, evhash: 0 }
    }
    /// Records an event of the run; never draws a choice and never reads a clock.
    pub fn ev(&mut self, f: impl FnOnce() -> String) {
        let s = f();
        self.evhash = mix(self.evhash ^ hash(s.as_bytes()));
        if let Some(l) = &mut self.log {
            l.push(s)
        }
    }
}

pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    /// (shards, cases per shard)
    fn size(&self, thorough: bool) -> (usize, usize);
    /// One run, drawn from the generator. `st` persists along a shard.
    fn gen(&self, r: &mut Rng, st: &mut Shard) -> Case;
    fn run(&self, c: &Case, env: &mut Env) -> Verdict;
    /// Called after a passing run (coverage feedback).
    fn feedback(&self, _c: &Case, _st: &mut Shard) {}
    fn shrinks(&self, _c: &Case) -> Vec<Case> {
        vec![]
    }
    fn rule(&self) -> &'static str;
    fn real(&self) -> &'static [&'static str];
    fn stub(&self) -> &'static [&'static str];
    fn assumptions(&self) -> &'static [&'static str];
    /// Setup common to all shards, in the parent
    fn prepare(&self) -> Result<(), String> {
        Ok(())
    }
    /// Stack for the working thread
    fn stack(&self) -> usize {
        1 << 30
    }
    /// counters that must be non-zero, else the evidence says so
    fn probes(&self) -> &'static [&'static str] {
        &[]
    }
}

/// State of one shard: the seed, the index and whatever the property keeps.
pub struct Shard {
    pub seed: u64,
    pub index: usize,
    pub pool: Vec<Vec<u8>>,
    pub seen: Vec<bool>,
    pub thorough: bool,
}

// ------------------------------------------------------------------ shared page
#[repr(C)]
pub struct Page {
    pub progress: u64,
    pub deadline_hit: u64,
    pub len: u64,
    pub text: [u8; PAGE_TEXT],
}
pub const PAGE_TEXT: usize = 1 << 20;

pub fn shared<T>() -> &'static mut T {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<T>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &mut *(p as *mut T)
    }
}

// ------------------------------------------------------------------ child processes
#[derive(Debug, Clone, PartialEq)]
pub enum Child {
    Done(Vec<u8>),
    Exit(i32),
    Signal(i32),
    Timeout,
}
/// Runs `f` in a forked child and returns what it produced, or how it ended.
pub fn in_child(wall: u64, f: impl FnOnce() -> Vec<u8>) -> Child {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &none);
            let out = f();
            let hdr = (out.len() as u64).to_le_bytes();
            write_all(fds[1], &hdr);
            write_all(fds[1], &out);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut buf = vec![];
        let mut tmp = vec![0u8; 65536];
        let start = Instant::now();
        let mut timeout = false;
        loop {
            let left = (wall * 1000).saturating_sub(start.elapsed().as_millis() as u64);
            if left == 0 {
                timeout = true;
                break;
            }
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut p, 1, left.min(1000) as i32);
            if r > 0 {
                let n = libc::read(fds[0], tmp.as_mut_ptr() as *mut _, tmp.len());
                if n <= 0 {
                    break;
                }
                buf.extend_from_slice(&tmp[..n as usize]);
            }
        }
        libc::close(fds[0]);
        if timeout {
            libc::kill(pid, libc::SIGKILL);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        if timeout {
            return Child::Timeout;
        }
        if libc::WIFSIGNALED(st) {
            return Child::Signal(libc::WTERMSIG(st));
        }
        let code = libc::WEXITSTATUS(st);
        if code == 0 && buf.len() >= 8 {
            let n = u64::from_le_bytes(buf[..8].try_into().unwrap()) as usize;
            if buf.len() == 8 + n {
                return Child::Done(buf[8..].to_vec());
            }
        }
        Child::Exit(code)
    }
}
unsafe fn write_all(fd: i32, b: &[u8]) {
    let mut o = 0;
    while o < b.len() {
        let n = libc::write(fd, b[o..].as_ptr() as *const _, b.len() - o);
        if n <= 0 {
            libc::_exit(76);
        }
        o += n as usize;
    }
}

/// Runs `f` on a thread with a big stack.
pub fn big_stack<T: Send>(size: usize, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(size).spawn_scoped(s, f).unwrap().join().unwrap_or_else(|_| unsafe { libc::_exit(75) })
    })
}

pub fn ended(c: &Child) -> (String, String) {
    match c {
        Child::Done(_) => ("done".into(), "".into()),
        Child::Exit(77) => ("hang".into(), "the step budget was used up: the call does not return".into()),
        Child::Exit(n) => (format!("exit{n}"), format!("the process exited with status {n} in the middle of the call")),
        Child::Signal(n) => (format!("signal{n}"), format!("the process was killed by signal {n} in the middle of the call")),
        Child::Timeout => ("stuck".into(), "no progress: stopped by the wall-clock watchdog".into()),
    }
}

/// Runs one case in a fresh child process.
pub fn run_fresh(p: &dyn Prop, c: &Case, log: bool) -> (Verdict, Vec<String>, u64) {
    let r = in_child(120, || {
        big_stack(p.stack(), || {
            sut::install_hook();
            silence();
            let mut env = Env::new(log);
            let v = p.run(c, &mut env);
            let mut o = String::new();
            match v {
                Verdict::Pass => o.push_str("pass\n\n"),
                Verdict::Fail { class, detail } => {
                    o.push_str(&format!("fail\n{}\n{}\n", escape(class.as_bytes()), escape(detail.as_bytes())))
                }
            }
            o.push_str(&format!("{:x}\n", env.evhash));
            for l in env.log.unwrap_or_default() {
                o.push_str(&escape(l.as_bytes()));
                o.push('\n');
            }
            o.into_bytes()
        })
    });
    match &r {
        Child::Done(b) => {
            let s = String::from_utf8_lossy(b).into_owned();
            let mut it = s.lines();
            let v = match it.next() {
                Some("pass") => {
                    it.next();
                    Verdict::Pass
                }
                _ => {
                    let c = it.next().unwrap_or("").to_string();
                    let d = it.next().unwrap_or("").to_string();
                    Verdict::Fail { class: c, detail: d }
                }
            };
            let h = u64::from_str_radix(it.next().unwrap_or("0"), 16).unwrap_or(0);
            (v, it.map(|s| s.to_string()).collect(), h)
        }
        e => {
            let (c, d) = ended(e);
            (fail(c, d), vec![], 0)
        }
    }
}

/// Messages of the code under test do not belong in the report.
pub fn silence() {
    if std::env::var_os("RPSIM_LOUD").is_some() {
        return;
    }
    unsafe {
        let f = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        libc::dup2(f, 2);
        libc::close(f);
    }
}

// ------------------------------------------------------------------ minimiser
fn chars_ok(v: &[u8]) -> bool {
    std::str::from_utf8(v).is_ok()
}
fn generic_shrinks(c: &Case) -> Vec<Case> {
    let mut out = vec![];
    // drop runs of operations
    let n = c.ops.len();
    let mut k = n / 2;
    while k >= 1 {
        let mut i = 0;
        while i + k <= n {
            let mut d = c.clone();
            d.ops.drain(i..i + k);
            out.push(d);
            i += k;
        }
        k /= 2;
    }
    for (oi, o) in c.ops.iter().enumerate() {
        for (si, s) in o.strs.iter().enumerate() {
            let utf = chars_ok(s);
            let mut k = s.len();
            while k >= 1 {
                let mut i = 0;
                while i < s.len() {
                    let e = (i + k).min(s.len());
                    let mut v = s[..i].to_vec();
                    v.extend_from_slice(&s[e..]);
                    if !utf || chars_ok(&v) {
                        let mut d = c.clone();
                        d.ops[oi].strs[si] = v;
                        out.push(d);
                    }
                    i += k;
                }
                k /= 2;
                if s.len() / k.max(1) > 400 {
                    break;
                }
            }
        }
        for (ii, &v) in o.ints.iter().enumerate() {
            for w in [0, v / 2, v - v.signum()] {
                if w != v {
                    let mut d = c.clone();
                    d.ops[oi].ints[ii] = w;
                    out.push(d);
                }
            }
        }
    }
    out
}
fn cost(c: &Case) -> usize {
    c.ops.iter().map(|o| 8 + o.strs.iter().map(|s| 2 + s.len()).sum::<usize>() + o.ints.iter().map(|i| (64 - i.unsigned_abs().leading_zeros()) as usize).sum::<usize>()).sum()
}
pub fn minimise(p: &dyn Prop, c: &Case, class: &str, secs: u64) -> Case {
    let start = Instant::now();
    let mut best = c.clone();
    let mut tried: HashSet<u64> = HashSet::new();
    loop {
        let mut progress = false;
        let mut cands = p.shrinks(&best);
        cands.extend(generic_shrinks(&best));
        for d in cands {
            if start.elapsed().as_secs() >= secs {
                return best;
            }
            if cost(&d) >= cost(&best) || !tried.insert(hash(d.text().as_bytes())) {
                continue;
            }
            if let (Verdict::Fail { class: k, .. }, _, _) = run_fresh(p, &d, false) {
                if k == class {
                    best = d;
                    progress = true;
                    break;
                }
            }
        }
        if !progress {
            return best;
        }
    }
}

// ------------------------------------------------------------------ known findings
pub struct Known {
    pub prop: String,
    pub what: String,
    pub case: String,
}
pub fn known(id: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(root().join("known_findings.txt")) {
        for l in t.lines() {
            // known: property=<id> case=<file> <what fails>
            if let Some(r) = l.strip_prefix("known: ") {
                let mut it = r.splitn(3, ' ');
                let prop = it.next().unwrap_or("").trim_start_matches("property=").to_string();
                let case = it.next().unwrap_or("").trim_start_matches("case=").to_string();
                let what = it.next().unwrap_or("").to_string();
                if prop == id {
                    v.push(Known { prop, what, case });
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------ shards
struct Slot {
    pid: i32,
    shard: usize,
    page: &'static mut Page,
    last: u64,
    since: Instant,
}

fn shard_main(p: &dyn Prop, seed: u64, shard: usize, cases: usize, thorough: bool, page: &mut Page, out: &std::path::Path, stop_after: u64, start: Instant, upto: Option<usize>) {
    sut::install_hook();
    silence();
    cov::share();
    let mut env = Env::new(false);
    let mut sh = Shard { seed, index: shard, pool: vec![], seen: vec![false; cov::MAXG], thorough };
    let mut ran = 0u64;
    for i in 0..cases {
        if start.elapsed().as_secs() >= stop_after {
            page.deadline_hit = 1;
            break;
        }
        let mut r = Rng::derive(seed, &[hash(p.id().as_bytes()), shard as u64, i as u64]);
        let c = p.gen(&mut r, &mut sh);
        let t = c.text();
        let b = t.as_bytes();
        page.len = b.len().min(PAGE_TEXT) as u64;
        page.text[..page.len as usize].copy_from_slice(&b[..page.len as usize]);
        page.progress += 1;
        let s0 = cov::steps();
        env.evhash = 0;
        let v = p.run(&c, &mut env);
        ran += 1;
        let steps = cov::steps() - s0;
        env.st.add("steps", steps);
        env.st.digest = mix(env.st.digest ^ hash(b) ^ steps ^ mix(env.evhash ^ if v == Verdict::Pass { 1 } else { 2 }));
        if env.st.samples.len() < 1 && (i % 7 == 3 || cases < 8) && t.len() < 1500 {
            env.st.samples.push(t.clone());
        }
        if std::env::var_os("RPSIM_TRACE").is_some() {
            println!("{} {} {:x} {}", shard, i, env.evhash, steps);
        }
        if let Verdict::Fail { class, detail } = v {
            let mut o = format!("fail {}\n{}\n{}\n", i, escape(class.as_bytes()), escape(detail.as_bytes()));
            o.push_str(&t);
            let _ = std::fs::write(out.with_extension("fail"), o);
            break;
        }
        p.feedback(&c, &mut sh);
        if upto == Some(i) {
            break;
        }
    }
    env.st.add("runs", ran);
    let mut f = Vec::new();
    for (k, v) in &env.st.counters {
        let _ = writeln!(f, "c {} {}", v, k);
    }
    for h in &env.st.states {
        let _ = writeln!(f, "s {:x}", h);
    }
    for h in &env.st.schedules {
        let _ = writeln!(f, "q {:x}", h);
    }
    let mut e = cov::hits();
    for (i, s) in sh.seen.iter().enumerate() {
        if *s {
            e.push(i as u32)
        }
    }
    e.sort();
    e.dedup();
    for h in e {
        let _ = writeln!(f, "e {}", h);
    }
    for s in &env.st.samples {
        let _ = writeln!(f, "m {}", escape(s.as_bytes()));
    }
    let _ = writeln!(f, "d {:x}", env.st.digest);
    let _ = std::fs::write(out, f);
}

pub struct Options {
    pub seed: u64,
    pub thorough: bool,
    pub workers: usize,
    pub scale: f64,
    pub wall: u64,
    pub keep_going: bool,
}

pub struct Total {
    pub counters: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    pub schedules: HashSet<u64>,
    pub edges: BTreeSet<u32>,
    pub samples: Vec<String>,
    pub digest: u64,
    pub truncated: usize,
    pub fails: Vec<(usize, Option<usize>, String, String, Option<Case>)>,
}

fn explore(p: &dyn Prop, o: &Options, dir: &std::path::Path) -> Total {
    let (shards, cases) = p.size(o.thorough);
    let cases = ((cases as f64 * o.scale).ceil() as usize).max(1);
    let start = Instant::now();
    let mut next = 0;
    let mut slots: Vec<Slot> = vec![];
    let mut pages: Vec<&'static mut Page> = (0..o.workers).map(|_| shared::<Page>()).collect();
    let mut t = Total {
        counters: BTreeMap::new(),
        states: HashSet::new(),
        schedules: HashSet::new(),
        edges: BTreeSet::new(),
        samples: vec![],
        digest: 0,
        truncated: 0,
        fails: vec![],
    };
    let mut stop_at: Option<usize> = None; // lowest failing shard so far
    while next < shards || !slots.is_empty() {
        while next < shards && slots.len() < o.workers && (stop_at.is_none() || o.keep_going) {
            let page = pages.pop().unwrap();
            page.progress = 0;
            page.deadline_hit = 0;
            page.len = 0;
            let out = dir.join(format!("s{}", next));
            let pid = unsafe { libc::fork() };
            if pid == 0 {
                unsafe {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                }
                big_stack(p.stack(), || shard_main(p, o.seed, next, cases, o.thorough, page, &out, o.wall, start, None));
                unsafe { libc::_exit(0) }
            }
            slots.push(Slot { pid, shard: next, page, last: 0, since: Instant::now() });
            next += 1;
        }
        if next < shards && stop_at.is_some() && !o.keep_going {
            next = shards;
        }
        let mut st = 0;
        let pid = unsafe { libc::waitpid(-1, &mut st, libc::WNOHANG) };
        if pid <= 0 {
            std::thread::sleep(std::time::Duration::from_millis(5));
            for s in &mut slots {
                let pr = unsafe { std::ptr::read_volatile(&s.page.progress) };
                if pr != s.last {
                    s.last = pr;
                    s.since = Instant::now();
                } else if s.since.elapsed().as_secs() > 150 {
                    unsafe { libc::kill(s.pid, libc::SIGKILL) };
                }
            }
            continue;
        }
        let Some(k) = slots.iter().position(|s| s.pid == pid) else { continue };
        let s = slots.remove(k);
        let out = dir.join(format!("s{}", s.shard));
        let ff = out.with_extension("fail");
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
            if let Ok(f) = std::fs::read_to_string(&ff) {
                let mut it = f.splitn(4, '\n');
                let i = it.next().unwrap_or("").trim_start_matches("fail ").parse().ok();
                let class = it.next().unwrap_or("").to_string();
                let detail = it.next().unwrap_or("").to_string();
                let case = Case::parse(it.next().unwrap_or(""));
                t.fails.push((s.shard, i, class, detail, case));
                stop_at = Some(stop_at.map_or(s.shard, |x| x.min(s.shard)));
            }
            let f = std::fs::read_to_string(&out).unwrap_or_default();
            let mut dg = 0;
            for l in f.lines() {
                let (k, v) = l.split_once(' ').unwrap_or((l, ""));
                match k {
                    "c" => {
                        let (n, name) = v.split_once(' ').unwrap_or((v, ""));
                        let n: u64 = n.parse().unwrap_or(0);
                        let e = t.counters.entry(name.to_string()).or_insert(0);
                        if name.starts_with("max ") {
                            *e = (*e).max(n)
                        } else {
                            *e += n
                        }
                    }
                    "s" => {
                        t.states.insert(u64::from_str_radix(v, 16).unwrap_or(0));
                    }
                    "q" => {
                        t.schedules.insert(u64::from_str_radix(v, 16).unwrap_or(0));
                    }
                    "e" => {
                        t.edges.insert(v.parse().unwrap_or(0));
                    }
                    "m" => {
                        if t.samples.len() < 4 {
                            t.samples.push(v.to_string())
                        }
                    }
                    "d" => dg = u64::from_str_radix(v, 16).unwrap_or(0),
                    _ => {}
                }
            }
            t.digest ^= mix(dg ^ s.shard as u64);
            if s.page.deadline_hit != 0 {
                t.truncated += 1;
            }
        } else {
            let how = if libc::WIFSIGNALED(st) {
                if libc::WTERMSIG(st) == libc::SIGKILL { Child::Timeout } else { Child::Signal(libc::WTERMSIG(st)) }
            } else {
                Child::Exit(libc::WEXITSTATUS(st))
            };
            let (class, detail) = ended(&how);
            let text = String::from_utf8_lossy(&s.page.text[..s.page.len as usize]).into_owned();
            let i = (s.page.progress as usize).checked_sub(1);
            t.fails.push((s.shard, i, class, detail, Case::parse(&text)));
            stop_at = Some(stop_at.map_or(s.shard, |x| x.min(s.shard)));
        }
        let _ = std::fs::remove_file(&out);
        let _ = std::fs::remove_file(&ff);
        pages.push(s.page);
    }
    t.fails.sort_by_key(|f| f.0);
    t
}

// ------------------------------------------------------------------ replay files
pub fn replay_dir() -> std::path::PathBuf {
    let d = root().join("replay");
    let _ = std::fs::create_dir_all(&d);
    d
}
fn write_replay(p: &dyn Prop, o: &Options, shard: usize, index: Option<usize>, case: &Case, class: &str, detail: &str, log: &[String]) -> std::path::PathBuf {
    let mut t = String::new();
    t.push_str(&format!("# violation of {} class {}\n# {}\n# found by seed {} shard {} run {:?}\n# replay: ./check --replay <this file>\n", p.id(), class, detail.replace('\n', "\\n"), o.seed, shard, index));
    t.push_str(&case.text());
    t.push_str("# trace\n");
    for l in log {
        t.push_str(&format!("#  {}\n", l));
    }
    let f = replay_dir().join(format!("{}-{:016x}.case", p.id(), hash(case.text().as_bytes())));
    let _ = std::fs::write(&f, t);
    f
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn json_list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "))
}

fn evidence(p: &dyn Prop, o: &Options, t: &Total, wall: f64, violations: usize, notes: &[String]) {
    let runs = t.counters.get("runs").copied().unwrap_or(0);
    let steps = t.counters.get("steps").copied().unwrap_or(0);
    let nontrivial = t.counters.get("nontrivial").copied().unwrap_or(0);
    let (shards, _) = p.size(o.thorough);
    let mut faults = String::new();
    let mut other = String::new();
    for (k, v) in &t.counters {
        if let Some(f) = k.strip_prefix("fault ") {
            faults.push_str(&format!("{}{}: {}", if faults.is_empty() { "" } else { ", " }, json_str(f), v));
        } else if !["runs", "steps", "nontrivial"].contains(&k.as_str()) {
            other.push_str(&format!("{}{}: {}", if other.is_empty() { "" } else { ", " }, json_str(k), v));
        }
    }
    let silent: Vec<String> = p.probes().iter().filter(|k| t.counters.get(**k).copied().unwrap_or(0) == 0).map(|s| s.to_string()).collect();
    let to_v = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let j = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": {},\n  \"nontrivial_runs\": {},\n  \"runs_per_hour\": {},\n  \"seeds_per_hour\": {},\n  \"shards\": {},\n  \"shards_cut_short\": {},\n  \"simulated_time_steps\": {},\n  \"distinct_schedules\": {},\n  \"code_edges_reached\": {},\n  \"code_edges_total\": {},\n  \"faults_fired\": {{{}}},\n  \"counters\": {{{}}},\n  \"probes_at_zero\": {},\n  \"history_digest\": \"{:016x}\",\n  \"real_components\": {},\n  \"stub_components\": {},\n  \"notes\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json_str(p.id()),
        json_str(if o.thorough { "thorough" } else { "quick" }),
        o.seed,
        runs,
        t.states.len(),
        json_str(p.rule()),
        json_list(&t.samples),
        nontrivial,
        (runs as f64 / wall * 3600.0) as u64,
        // every run has its own derived seed
        (runs as f64 / wall * 3600.0) as u64,
        shards,
        t.truncated,
        steps,
        t.schedules.len(),
        t.edges.len(),
        cov::guards(),
        faults,
        other,
        json_list(&silent),
        t.digest,
        json_list(&to_v(p.real())),
        json_list(&to_v(p.stub())),
        json_list(notes),
        json_list(&to_v(p.assumptions())),
        wall,
        violations
    );
    let f = root().join("evidence");
    let _ = std::fs::create_dir_all(&f);
    let _ = std::fs::write(f.join(format!("{}.json", p.id())), j);
}

/// The whole check of one property. Returns the exit status.
pub fn check(p: &dyn Prop, o: &Options) -> i32 {
    let start = Instant::now();
    println!("rpsim {} seed={} tier={} workers={}", p.id(), o.seed, if o.thorough { "thorough" } else { "quick" }, o.workers);
    if let Err(e) = p.prepare() {
        println!("error: {}", e);
        return 2;
    }
    let mut notes = vec![];
    // recorded findings: re-run each by its own replay file
    for k in known(p.id()) {
        let f = root().join(&k.case);
        let Some(c) = std::fs::read_to_string(&f).ok().and_then(|t| Case::parse(&t)) else {
            println!("error: cannot read {}", f.display());
            return 2;
        };
        match run_fresh(p, &c, false).0 {
            Verdict::Fail { .. } => {
                println!("KNOWN-FINDING: property={} {}", k.prop, k.what);
                notes.push(format!("known finding reproduced: {}", k.what));
            }
            Verdict::Pass => notes.push(format!("known finding no longer fails: {}", k.what)),
        }
    }
    let dir = scratch().join(format!("shards-{}", p.id()));
    let _ = std::fs::create_dir_all(&dir);
    let t = explore(p, o, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    let mut reported = 0;
    let mut unreproduced = 0;
    let mut classes: HashSet<String> = HashSet::new();
    for (shard, index, class, detail, case) in &t.fails {
        if reported > 0 && !o.keep_going {
            break;
        }
        if o.keep_going && !classes.insert(class.clone()) {
            continue;
        }
        let Some(case) = case else {
            println!("error: shard {} ended ({}: {}) outside a run", shard, class, detail);
            unreproduced += 1;
            continue;
        };
        // confirm in a fresh process, minimise, and check that the minimised file still fails the same way
        let (v, _, _) = run_fresh(p, case, false);
        let (mut case, mut class) = (case.clone(), class.clone());
        let mut ok = false;
        if let Verdict::Fail { class: c2, .. } = v {
            class = c2;
            case = minimise(p, &case, &class, if o.thorough { 120 } else { 45 });
            ok = true;
        } else if let Some(i) = index {
            // not a function of this run alone: replay the shard's history up to it
            let mut h = Case::new(p.id());
            h.push("history", &[o.seed as i64, *shard as i64, *i as i64, o.thorough as i64], &[]);
            h.ops[0].strs.push(o.scale.to_string().into_bytes());
            if let Verdict::Fail { class: c2, .. } = run_history(p, &h) {
                case = h;
                class = c2;
                ok = true;
            }
        }
        if !ok {
            println!("error: not reproduced: shard {} run {:?} class {} {}", shard, index, class, detail);
            println!("{}", case.text());
            unreproduced += 1;
            continue;
        }
        let (v, log, _) = if case.find("history").is_some() { (run_history(p, &case), vec![], 0) } else { run_fresh(p, &case, true) };
        let detail = if let Verdict::Fail { detail, .. } = v { detail } else { detail.clone() };
        let f = write_replay(p, o, *shard, *index, &case, &class, &detail, &log);
        println!("VIOLATION property={} replay={}", p.id(), f.display());
        println!("  class {}: {}", class, detail);
        for l in case.text().lines().take(12) {
            println!("  {}", l.chars().take(400).collect::<String>());
        }
        reported += 1;
    }
    let wall = start.elapsed().as_secs_f64();
    evidence(p, o, &t, wall, reported, &notes);
    let runs = t.counters.get("runs").copied().unwrap_or(0);
    println!(
        "{}: {} runs, {} steps, {} distinct states, {} schedules, {}/{} edges, digest {:016x}, {:.1}s{}",
        p.id(),
        runs,
        t.counters.get("steps").copied().unwrap_or(0),
        t.states.len(),
        t.schedules.len(),
        t.edges.len(),
        cov::guards(),
        t.digest,
        wall,
        if t.truncated > 0 { format!(", {} shards cut short by the wall limit", t.truncated) } else { String::new() }
    );
    for (k, v) in &t.counters {
        println!("  {:>12} {}", v, k);
    }
    for k in p.probes() {
        if t.counters.get(*k).copied().unwrap_or(0) == 0 {
            println!("  probe at zero: {}", k);
        }
    }
    if reported > 0 {
        1
    } else if unreproduced > 0 {
        2
    } else {
        0
    }
}

/// Replays a shard from its start up to the failing run.
pub fn run_history(p: &dyn Prop, h: &Case) -> Verdict {
    let o = h.find("history").unwrap();
    let (seed, shard, upto, th) = (o.int(0) as u64, o.uint(1), o.uint(2), o.int(3) != 0);
    let dir = scratch().join(format!("hist-{}-{}", p.id(), std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let out = dir.join("s");
    let page = shared::<Page>();
    let r = in_child(600, || {
        big_stack(p.stack(), || {
            shard_main(p, seed, shard, upto + 1, th, page, &out, 600, Instant::now(), Some(upto));
            vec![]
        })
    });
    let v = match &r {
        Child::Done(_) => match std::fs::read_to_string(out.with_extension("fail")) {
            Ok(f) => {
                let mut it = f.splitn(4, '\n');
                it.next();
                let c = it.next().unwrap_or("").to_string();
                let d = it.next().unwrap_or("").to_string();
                fail(format!("history {}", c), d)
            }
            Err(_) => Verdict::Pass,
        },
        e => {
            let (c, d) = ended(e);
            fail(format!("history {}", c), d)
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    v
}

pub fn replay(p: &dyn Prop, c: &Case) -> i32 {
    if let Err(e) = p.prepare() {
        println!("error: {}", e);
        return 2;
    }
    let (v, log) = if c.find("history").is_some() {
        (run_history(p, c), vec![])
    } else {
        let (v, log, _) = run_fresh(p, c, true);
        (v, log)
    };
    for l in &log {
        println!("  {}", l);
    }
    match v {
        Verdict::Pass => {
            println!("replay: property {} held", p.id());
            0
        }
        Verdict::Fail { class, detail } => {
            println!("replay: violated ({}): {}", class, detail);
            1
        }
    }
}
