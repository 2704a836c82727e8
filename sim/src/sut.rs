//! Running the code under test with panics caught, steps counted and a step budget.
use crate::cov;
use crate::rng::hash;
use rpwrap::*;
use std::cell::RefCell;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

thread_local! {
    static LAST: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
static QUIET: AtomicBool = AtomicBool::new(true);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(payload)".to_string()
        };
        if !QUIET.load(Relaxed) || std::env::var_os("RPSIM_LOUD").is_some() {
            eprintln!("panic at {loc}: {msg}");
        }
        LAST.with(|l| *l.borrow_mut() = Some((loc, msg)));
    }));
}
pub fn verbose_panics() {
    QUIET.store(false, Relaxed);
}

#[derive(Debug, Clone)]
pub struct Panic {
    pub loc: String,
    pub msg: String,
}
impl Panic {
    /// short place name, without the path prefix
    pub fn place(&self) -> String {
        self.loc.rsplit("/repo/").next().unwrap_or(&self.loc).to_string()
    }
}

/// The last panic of this thread.
pub fn last_panic() -> Panic {
    let (loc, msg) = LAST.with(|l| l.borrow_mut().take()).unwrap_or_default();
    Panic { loc, msg }
}

/// Runs `f`, turning a panic into an error.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Panic> {
    LAST.with(|l| *l.borrow_mut() = None);
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| {
        let (loc, msg) = LAST.with(|l| l.borrow_mut().take()).unwrap_or_default();
        Panic { loc, msg }
    })
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Entry {
    Program,
    Eval,
    Binding,
}
impl Entry {
    pub fn from(i: i64) -> Entry {
        match i.rem_euclid(3) {
            0 => Entry::Program,
            1 => Entry::Eval,
            _ => Entry::Binding,
        }
    }
}

pub type Res = Result<ParseResult, ParseErr>;

pub fn parse(e: Entry, code: &str, path: &str, table: Option<LvarCollector>, ctx: Option<&Ctx>) -> Res {
    match e {
        Entry::Program => program(code.to_string(), PathBuf::from(path)),
        Entry::Eval => eval(code.to_string(), PathBuf::from(path), ctx),
        Entry::Binding => binding(code.to_string(), PathBuf::from(path), table, ctx),
    }
}

/// Everything observable about an outcome, as text.
pub fn show(r: &Res) -> String {
    match r {
        Ok(r) => format!("ok {:?} {:?} {:?} {:?}", r.node, r.lvar_collector, r.source_info.path, r.source_info.code),
        Err(e) => format!("err {:?} {:?} {:?} {:?}", e.kind, e.loc, e.source_info.path, e.source_info.code),
    }
}
pub fn digest(r: &Res) -> u64 {
    hash(show(r).as_bytes())
}
pub fn kind(r: &Res) -> &'static str {
    match r {
        Ok(_) => "ok",
        Err(e) => match e.kind {
            ParseErrKind::UnexpectedEOF => "eof",
            _ => "syntax",
        },
    }
}

/// Code of the step budget being exceeded: the process reports and stops, since code that does
/// not return cannot be unwound.
pub static mut HANG_EXIT: i32 = 77;
fn on_limit() {
    unsafe { libc::_exit(HANG_EXIT) }
}
/// Runs `f` with at most `n` steps.
pub fn budget<T>(n: u64, f: impl FnOnce() -> T) -> T {
    cov::set_limit(Some(n), on_limit);
    let r = f();
    cov::set_limit(None, on_limit);
    r
}
