//! C07: parsing depends on and touches nothing but its arguments.
//!
//! The same parses in several worlds: other environment variables, directory, clock, randomness,
//! terminal, heap and stack contents and layout, order. What reaches outside is recorded.
use crate::c05::{alone, first_diff};
use crate::case::*;
use crate::driver::*;
use crate::job::*;
use crate::rng::*;
use crate::*;
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

pub struct C07;

static RAND: AtomicU64 = AtomicU64::new(0);
static CLOCK: AtomicU64 = AtomicU64::new(0);
static ASKED: [AtomicU64; 5] = [const { AtomicU64::new(0) }; 5];
static COLS: AtomicU64 = AtomicU64::new(0);
static WATCH: AtomicBool = AtomicBool::new(false);
static TOUCHED: Mutex<String> = Mutex::new(String::new());

extern "C" fn random(p: *mut std::os::raw::c_void, n: usize) -> i32 {
    ASKED[0].fetch_add(1, Relaxed);
    for i in 0..n {
        let x = mix(RAND.fetch_add(1, Relaxed));
        unsafe { *(p as *mut u8).add(i) = x as u8 };
    }
    1
}
extern "C" fn clock(_: i32, t: *mut libc::timespec) -> i32 {
    ASKED[1].fetch_add(1, Relaxed);
    // jumps about, sometimes back
    let x = mix(CLOCK.fetch_add(1, Relaxed));
    unsafe {
        (*t).tv_sec = (x % 4_000_000_000) as i64;
        (*t).tv_nsec = (x >> 32) as i64 % 1_000_000_000;
    }
    1
}
extern "C" fn isatty(_: i32) -> i32 {
    ASKED[2].fetch_add(1, Relaxed);
    (COLS.load(Relaxed) != 0) as i32
}
extern "C" fn winsize(_: i32, w: *mut libc::winsize) -> i32 {
    unsafe {
        std::ptr::write_bytes(w, 0, 1);
        (*w).ws_col = COLS.load(Relaxed) as u16;
        (*w).ws_row = 10;
    }
    1
}
extern "C" fn touch(what: *const std::os::raw::c_char, arg: *const std::os::raw::c_char) -> i32 {
    if WATCH.swap(false, Relaxed) {
        let s = |p| unsafe { std::ffi::CStr::from_ptr(p) }.to_string_lossy().into_owned();
        let what = s(what);
        // looking without opening is judged by its effect only
        if !["stat", "access", "syscall"].contains(&what.as_str()) {
            let mut t = TOUCHED.lock().unwrap();
            if t.is_empty() {
                *t = format!("{} {}", what, s(arg));
            }
        }
        WATCH.store(true, Relaxed);
    }
    1
}
/// What the names of files stand for in this world: 1 nothing, 2 a directory, 3 a file, 4 any.
static FILES: AtomicU64 = AtomicU64::new(0);
extern "C" fn lookup(p: *const std::os::raw::c_char) -> i32 {
    if !WATCH.load(Relaxed) {
        return 0;
    }
    ASKED[4].fetch_add(1, Relaxed);
    match FILES.load(Relaxed) {
        0 => 0,
        1 => -1,
        2 => 1,
        3 => 2,
        _ => (hash(unsafe { std::ffi::CStr::from_ptr(p) }.to_bytes()) % 3) as i32 - 1,
    }
}
/// What any variable asked for while parsing is: every name has a value in some world.
const VALUES: &[&std::ffi::CStr] = &[c"1", c"", c"0", c"true", c"a", c"dir/", c"d", c"/", c"80", c"off", c"\xe6\x97\xa5", c"rb", c"."];
static VALUE: AtomicU64 = AtomicU64::new(0);
extern "C" fn env(name: *const std::os::raw::c_char) -> *const std::os::raw::c_char {
    ASKED[3].fetch_add(1, Relaxed);
    let v = VALUE.load(Relaxed) as usize;
    // the runtime's and the simulator's own (how to report a panic) are left as they are
    let n = unsafe { std::ffi::CStr::from_ptr(name) }.to_bytes();
    if v == 0 || !WATCH.load(Relaxed) || n.starts_with(b"RUST_") || n.starts_with(b"RPSIM_") {
        return std::ptr::null();
    }
    VALUES[(v - 1) % VALUES.len()].as_ptr()
}

const VARS: &[(&str, &str)] = &[
    ("LANG", "ja_JP.SJIS"), ("LC_ALL", "tr_TR.UTF-8"), ("HOME", "/nonexistent"), ("PATH", ""), ("TERM", "dumb"), ("NO_COLOR", "1"), ("CLICOLOR_FORCE", "1"), ("COLUMNS", "3"), ("RUBYOPT", "-w"), ("RUBYLIB", "/x"),
    ("RUST_BACKTRACE", "1"), ("RUST_MIN_STACK", "1"), ("TZ", "Pacific/Chatham"), ("DEBUG", "1"), ("RUBY_VERSION", "1.8"), ("RURUBY_DEBUG", "1"), ("RUST_LOG", "trace"), ("PWD", "/"), ("USER", "nobody"), ("CI", "true"), ("VERBOSE", "1"),
];

#[inline(never)]
fn dirty_stack(b: u8, n: usize) {
    let mut a = [b; 4096];
    std::hint::black_box(&mut a);
    if n > 0 {
        dirty_stack(b, n - 1);
    }
    std::hint::black_box(&mut a);
}

impl Prop for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn size(&self, thorough: bool) -> (usize, usize) {
        if thorough { (256, 6_000) } else { (64, 600) }
    }
    fn prepare(&self) -> Result<(), String> {
        // a directory where the names of the sources name other files
        let d = scratch().join("c07");
        let _ = std::fs::create_dir_all(d.join("real"));
        let _ = std::fs::create_dir_all(d.join("dir"));
        let w = |p: &str, t: &str| std::fs::write(d.join(p), t).map_err(|e| e.to_string());
        w("real/x.rb", "something else = (")?;
        w("dir/b.rb", "x = 1")?;
        let _ = std::os::unix::fs::symlink("real/x.rb", d.join("a.rb"));
        let _ = std::os::unix::fs::symlink("real/x.rb", d.join("日本.rb"));
        Ok(())
    }
    fn gen(&self, r: &mut Rng, sh: &mut Shard) -> Case {
        if sh.pool.is_empty() {
            let mut q = Rng::derive(sh.seed, &[0xc07, sh.index as u64]);
            for _ in 0..400 {
                let mut c = Case::new("C07");
                c.ops.push(Job::draw(&mut q).to_op("job", &[]));
                sh.pool.push(c.text().into_bytes());
            }
        }
        let mut c = Case::new("C07");
        for _ in 0..r.range(1, 6) {
            let j = Case::parse(&String::from_utf8_lossy(r.pick(&sh.pool))).unwrap();
            c.ops.push(j.ops[0].clone());
        }
        for _ in 0..r.range(1, 3) {
            let n = |r: &mut Rng, d: i64| if r.chance(1, 4) { 0 } else { r.range(1, d as usize) as i64 };
            let w = [n(r, (1 << VARS.len()) - 1), n(r, 3), n(r, 1 << 40), n(r, 1 << 40), n(r, 255), n(r, 255), n(r, 4000), n(r, 200), n(r, 1 << 20), n(r, 1), n(r, VALUES.len() as i64), n(r, 4)];
            c.push("world", &w, &[]);
        }
        c
    }
    fn run(&self, c: &Case, env_: &mut Env) -> Verdict {
        let jobs: Vec<Job> = c.ops.iter().filter(|o| o.name == "job").map(Job::of).collect();
        if jobs.is_empty() {
            return Verdict::Pass;
        }
        let show = |o: &Out| match o {
            Out::Done(r) => sut::show(r),
            o => o.show(),
        };
        let mut want = vec![];
        let mut total = 1_000_000;
        for j in &jobs {
            total += j.steps() * 2;
            let plain = || {
                os::set(&os::Hooks { random: Some(random), clock: Some(clock), ..os::NONE });
                show(&j.run(&|_, _| {}))
            };
            match alone(j.key(), plain) {
                Ok(s) => want.push(s),
                Err(_) => return Verdict::Pass, // fails in any world: not this property
            }
        }
        let mut h = want.iter().fold(0, |h, s| mix(h ^ hash(s.as_bytes())));
        for w in c.ops.iter().filter(|o| o.name == "world") {
            let got = in_child(120, || {
                // the world
                for (i, (k, v)) in VARS.iter().enumerate() {
                    if w.int(0) >> i & 1 == 1 {
                        std::env::set_var(k, v)
                    } else if w.int(0) != 0 {
                        std::env::remove_var(k)
                    }
                }
                let dir = scratch().join("c07");
                match w.int(1) {
                    1 => drop(std::env::set_current_dir("/")),
                    2 => drop(std::env::set_current_dir(&dir)),
                    3 => drop(std::env::set_current_dir("/proc/self/fd")),
                    _ => {}
                }
                VALUE.store(w.int(10) as u64, Relaxed);
                FILES.store(w.int(11) as u64, Relaxed);
                CLOCK.store(w.int(2) as u64, Relaxed);
                RAND.store(w.int(3) as u64, Relaxed);
                if w.int(4) != 0 {
                    mem::fill(Some(w.int(4) as u8));
                }
                let ballast: Vec<Vec<u8>> = (0..w.uint(6) % 64).map(|i| vec![1; (w.uint(6) * (i + 7)) % 5000 + 1]).collect();
                COLS.store(w.int(7) as u64, Relaxed);
                let mut order: Vec<usize> = (0..jobs.len()).collect();
                if w.int(8) != 0 {
                    Rng::new(w.int(8) as u64).shuffle(&mut order);
                }
                let work = || {
                    if w.int(5) != 0 {
                        dirty_stack(w.int(5) as u8, 60);
                    }
                    os::set(&os::Hooks { random: Some(random), clock: Some(clock), isatty: Some(isatty), winsize: Some(winsize), touch: Some(touch), lookup: Some(lookup), env: Some(env), ..os::NONE });
                    sut::budget(total, || {
                        for &i in &order {
                            let j = &jobs[i];
                            let asked: RefCell<Option<String>> = RefCell::new(None);
                            let n = Cell::new(0);
                            TOUCHED.lock().unwrap().clear();
                            WATCH.store(true, Relaxed);
                            let out = j.run(&|_, name| {
                                n.set(n.get() + 1);
                                if !j.text.contains(name) && asked.borrow().is_none() {
                                    *asked.borrow_mut() = Some(name.to_string());
                                }
                            });
                            WATCH.store(false, Relaxed);
                            let t = TOUCHED.lock().unwrap().clone();
                            if !t.is_empty() {
                                return format!("touched\nparsing {:?} reached outside: {}", j.text, t);
                            }
                            if let Some(a) = asked.into_inner() {
                                return format!("asked\nparsing {:?} consulted the context about {:?}, which is not in the text", j.text, a);
                            }
                            let s = show(&out);
                            if s != want[i] {
                                let (a, b) = first_diff(&s, &want[i]);
                                return format!("differs\nparsing {:?} (entry {:?}, context {}) gave {} in this world but {} in a plain one", j.text, j.entry, j.mode, a, b);
                            }
                        }
                        let q: Vec<String> = ASKED.iter().map(|a| a.load(Relaxed).to_string()).collect();
                        format!("\n{}", q.join(" "))
                    })
                };
                let r = if w.int(9) == 1 { big_stack(512 << 20, work) } else { work() };
                drop(ballast);
                r.into_bytes()
            });
            let b = match got {
                Child::Done(b) => String::from_utf8_lossy(&b).into_owned(),
                e => {
                    let (c, d) = ended(&e);
                    return fail(format!("world {c}"), format!("in this world {d}, though every parse returns in a plain one"));
                }
            };
            let (class, rest) = b.split_once('\n').unwrap_or((&b, ""));
            if !class.is_empty() {
                return fail(class, rest);
            }
            for (i, k) in ["environment", "directory", "clock", "randomness", "heap contents", "stack contents", "heap layout", "terminal", "order", "thread", "answers of the environment", "files"].iter().enumerate() {
                if w.int(i) != 0 {
                    env_.st.inc(&format!("fault other {}", k));
                }
            }
            let mut q = rest.split(' ').map(|x| x.parse::<u64>().unwrap_or(0));
            for k in ["randomness", "clock", "terminal", "environment", "files"] {
                env_.st.add(&format!("questions about {}", k), q.next().unwrap_or(0));
            }
            h = mix(h ^ hash(format!("{:?}", w.ints).as_bytes()));
            env_.st.inc("nontrivial");
            env_.st.schedules.insert(hash(format!("{:?}", w.ints).as_bytes()));
        }
        env_.st.add("parses", jobs.len() as u64);
        env_.ev(|| format!("{:x}", h));
        env_.st.state(h);
        Verdict::Pass
    }
    fn rule(&self) -> &'static str {
        "One to six drawn parses in one to three worlds that differ in environment variables, current directory, what the names of files stand for, clock, random numbers, contents and layout of the heap, contents of the stack, terminal, order and thread, compared with each parse in a plain process, with everything that opens, starts or writes recorded. Non-trivial and distinct: by world and results."
    }
    fn real(&self) -> &'static [&'static str] {
        &["ruruby_parse lexer and parser (instrumented build of /repo)", "file system below the scratch directory"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["clock, randomness, terminal (C library seam)", "allocator contents (allocator seam)", "caller context"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["reaching outside is seen at the C library's functions; a system call made by inline assembly would not be", "the path is compared as given", "a name occurs in the text when it is a substring of it"]
    }
    fn probes(&self) -> &'static [&'static str] {
        &["fault other environment", "fault other directory", "fault other clock", "fault other randomness", "fault other heap contents", "fault other stack contents", "fault other heap layout", "fault other terminal", "fault other order", "fault other thread", "fault other answers of the environment", "fault other files"]
    }
}
