//! C02: results and errors can be reported on any terminal.
//!
//! One source (a parsed text, a refused text, or one made directly) and a run of reports about
//! positions inside it, on a terminal that is resized, torn away and failing in between.
use crate::case::*;
use crate::driver::*;
use crate::rng::*;
use crate::sut::*;
use crate::*;
use rpwrap::*;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

pub struct C02;

/// What the terminal answers: (kind, columns, rows); the last one stays. kind 0 is a terminal,
/// 1 no terminal, 2 a failing size query.
static ANSWERS: Mutex<Vec<(i64, u16, u16)>> = Mutex::new(vec![]);
static ASKED: AtomicUsize = AtomicUsize::new(0);
static TTY: AtomicUsize = AtomicUsize::new(0);

fn answer() -> (i64, u16, u16) {
    let a = ANSWERS.lock().unwrap();
    let k = ASKED.load(Relaxed);
    a.get(k.min(a.len().saturating_sub(1))).copied().unwrap_or((1, 0, 0))
}
extern "C" fn isatty(_fd: i32) -> i32 {
    TTY.fetch_add(1, Relaxed);
    if answer().0 == 1 {
        0
    } else {
        1
    }
}
extern "C" fn winsize(_fd: i32, w: *mut libc::winsize) -> i32 {
    let (k, cols, rows) = answer();
    ASKED.fetch_add(1, Relaxed);
    if k == 0 {
        unsafe {
            std::ptr::write_bytes(w, 0, 1);
            (*w).ws_col = cols;
            (*w).ws_row = rows;
        }
        return 1;
    }
    -1
}

/// Columns of a text made of characters whose width nobody disputes; tabs count as one.
fn columns(s: &str) -> Option<usize> {
    let mut n = 0;
    for c in s.chars() {
        n += match c {
            ' '..='~' | '\t' => 1,
            'À'..='ÿ' => 1,
            'ぁ'..='ゖ' | 'ァ'..='ヺ' | '一'..='鿿' => 2,
            _ => return None,
        }
    }
    Some(n)
}

const PATHS: &[&str] = &["", "a.rb", "dir/file.rb", "/", "..", ".", "dir/..", "日本語/é.rb", "with space.rb", "a\nb.rb", "a:b:1", "/abs/deep/er/x", "x/", "\t", "(eval)", "{}", "%s%n", "👍🏽.rb", "\u{202e}abc", "~"];
const LINES: &[&str] = &[
    "", "a = 1", "日本語 = é + 'ñandú'", "\tx = 1\t+ y", "puts \"👍🏽 ok\" + a\u{301}", "\r", "x\r", "\u{200b}zero width", "\x1b[31mred\x1b[0m", "\0nul", "🇯🇵🇯🇵", "ＦＵＬＬ", "a\u{7f}b", "漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字", "def f(a, b = 2) a + b end # a comment that makes this line longer than eighty columns, really", "ｱｲｳ", "\u{0c}", "ｅnd", "¼½", "\u{feff}",
];

impl Prop for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn size(&self, thorough: bool) -> (usize, usize) {
        if thorough { (256, 160_000) } else { (64, 36_000) }
    }
    fn gen(&self, r: &mut Rng, _sh: &mut Shard) -> Case {
        let mut c = Case::new("C02");
        let mut text: Vec<u8> = vec![];
        match r.below(6) {
            0 => text.extend(r.pick(corpus::PROGRAMS).as_bytes()),
            1 => {
                let f = c10::fuel(r);
                text.extend(gen::print(&gen::Gen::program(r, f), &[]).text.as_bytes())
            }
            2 => {
                for _ in 0..r.size(200) {
                    text.extend(r.pick(damage::JUNK).as_bytes())
                }
            }
            _ => {
                for _ in 0..r.size(12) {
                    for _ in 0..r.size(8) + 1 {
                        text.extend(r.pick(LINES).as_bytes());
                    }
                    text.push(b'\n');
                }
                if r.chance(1, 2) {
                    text.pop();
                }
            }
        }
        let progs: Vec<&[u8]> = corpus::PROGRAMS.iter().map(|s| s.as_bytes()).collect();
        let mut st = Stats::default();
        for _ in 0..r.below(3) {
            damage::apply(&damage::draw(r, &text, &progs), &mut text, &mut st);
        }
        let text = damage::decode(&text);
        let kind = r.below(4) as i64;
        let path = if kind == 0 && r.chance(1, 10) { &b"d\xff\xfe/\xe3\x81.rb"[..] } else { r.pick(PATHS).as_bytes() };
        c.push("source", &[kind], &[text.as_bytes(), path]);
        for _ in 0..r.range(1, 8) {
            match r.below(4) {
                0 => {
                    for _ in 0..r.range(1, 2) {
                        let cols = match r.below(5) {
                            0 => 0,
                            1 => 1,
                            2 => r.range(2, 12),
                            3 => r.range(13, 200),
                            _ => *r.pick(&[80usize, 65535, 79, 120]),
                        };
                        c.push("term", &[*r.pick(&[0i64, 0, 0, 0, 1, 2]), cols as i64, *r.pick(&[24i64, 24, 24, 0, 1])], &[]);
                    }
                }
                _ => {
                    let a = r.below(text.len() + 2);
                    let b = match r.below(4) {
                        0 => a,
                        1 => a + r.below(6),
                        2 => a + r.size(100),
                        _ => text.len() + 1,
                    };
                    c.push("report", &[a as i64, b as i64, r.below(8) as i64, r.below(1 << 12) as i64], &[]);
                }
            }
        }
        c
    }
    fn run(&self, c: &Case, env: &mut Env) -> Verdict {
        let Some(o) = c.find("source") else { return Verdict::Pass };
        let (text, path) = (o.str(0), o.str(1));
        os::set(&os::Hooks { winsize: Some(winsize), isatty: Some(isatty), ..os::NONE });
        *ANSWERS.lock().unwrap() = vec![];
        ASKED.store(0, Relaxed);
        let mut locs: Vec<Loc> = vec![];
        let r = if o.int(0) == 0 {
            None
        } else {
            match budget(c01::allowed(text.len()), || guard(|| parse(Entry::from(o.int(0)), &text, &path, None, None))) {
                Ok(r) => Some(r),
                Err(_) => None, // not this property
            }
        };
        let own;
        let (info, what): (&SourceInfo, &str) = match &r {
            None => {
                let raw: &std::ffi::OsStr = std::os::unix::ffi::OsStrExt::from_bytes(o.bytes(1));
                own = SourceInfo::new(raw, text.clone());
                (&own, "made")
            }
            Some(Ok(r)) => {
                for p in format!("{:?}", r.node).split("Loc(").skip(1) {
                    let mut it = p.splitn(2, ')').next().unwrap_or("").split(", ").filter_map(|x| x.parse().ok());
                    if let (Some(a), Some(b)) = (it.next(), it.next()) {
                        locs.push(Loc(a, b));
                    }
                }
                (&r.source_info, "result")
            }
            Some(Err(e)) => {
                locs.push(e.loc);
                (&e.source_info, "error")
            }
        };
        let code = info.code.clone();
        let mut want = text.clone();
        if !want.ends_with('\n') {
            want.push('\n');
        }
        if code != want && code != text {
            return fail("code", format!("the source of {:?} holds {:?}", text, code));
        }
        env.ev(|| format!("source {} {:?} path {:?}", what, code, path));
        let names = guard(|| (info.file_name().into_owned(), info.short_file_name().into_owned()));
        match names {
            Err(p) => return fail(format!("panic {}", p.place()), format!("naming the file {:?} panicked: {}", path, p.msg)),
            Ok((f, _)) if f != path => return fail("file name", format!("the file {:?} is named {:?}", path, f)),
            Ok(_) => {}
        }
        let mut pending: Vec<(i64, u16, u16)> = vec![];
        let mut current = (1i64, 80u16, 24u16);
        let mut seq = 0u64;
        let mut reports = 0;
        for o in &c.ops {
            if o.name == "term" {
                pending.push((o.int(0).clamp(0, 2), o.int(1).clamp(0, 65535) as u16, o.int(2).clamp(0, 65535) as u16));
                continue;
            }
            if o.name != "report" {
                continue;
            }
            // a second change takes effect while the report is being made
            let answers = if pending.is_empty() { vec![current] } else { std::mem::take(&mut pending) };
            current = *answers.last().unwrap();
            for a in &answers {
                env.st.inc(match a {
                    (0, 0, _) => "fault terminal of zero columns",
                    (0, _, 0) => "fault terminal of zero rows",
                    (0, 1, _) => "fault terminal of one column",
                    (0, ..) => "fault terminal resized",
                    (1, ..) => "fault no terminal",
                    _ => "fault size query fails",
                });
            }
            if answers.len() > 1 {
                env.st.inc("fault resized during a report");
            }
            *ANSWERS.lock().unwrap() = answers.clone();
            ASKED.store(0, Relaxed);
            let mut loc = Loc(o.uint(0), o.uint(1));
            if o.int(2) < 3 && !locs.is_empty() {
                loc = locs[o.uint(3) % locs.len()];
            }
            if loc.0 > code.len() {
                loc.0 = code.len();
            }
            while !code.is_char_boundary(loc.0) {
                loc.0 -= 1;
            }
            loc.1 = loc.1.clamp(loc.0, code.len());
            seq = mix(seq ^ hash(format!("{:?}", answers).as_bytes()));
            let m = match budget(c01::allowed(code.len()) * 4, || guard(|| (info.get_location(&loc), info.get_line(&loc)))) {
                Ok(m) => m,
                Err(p) => return fail(format!("panic {}", p.place()), format!("reporting {:?} in {:?} of file {:?} on a terminal answering {:?} panicked: {}", loc, code, path, answers, p.msg)),
            };
            env.ev(|| format!("report {:?} on {:?}: {:?}", loc, answers, m));
            if o.int(2) == 7 {
                ASKED.store(0, Relaxed);
                let (r, shown) = shown(|| guard(|| info.show_loc(&loc)));
                env.st.inc("reports shown on standard error");
                match r {
                    Err(p) => return fail(format!("panic {}", p.place()), format!("showing {:?} in {:?} of file {:?} on a terminal answering {:?} panicked: {}", loc, code, path, answers, p.msg)),
                    Ok(()) if shown != m.0 => return fail("shown", format!("showing {:?} in {:?} of file {:?} wrote {:?} instead of {:?}", loc, code, path, shown, m.0)),
                    _ => {}
                }
            }
            reports += 1;
            let (msg, line) = m;
            let told = |class: &str, why: String| fail(class, format!("{} (position {:?} of {:?}, file {:?}, terminal answering {:?}; message {:?}, line {})", why, loc, code, path, answers, msg, line));
            // the line holding the start
            let all: Vec<&str> = code.split('\n').collect();
            let lines = if code.ends_with('\n') { &all[..all.len() - 1] } else { &all[..] };
            let k = code[..loc.0].matches('\n').count().min(lines.len() - 1);
            let top: usize = lines[..k].iter().map(|l| l.len() + 1).sum();
            if line != k + 1 {
                return told("line", format!("the line number is {} instead of {}", line, k + 1));
            }
            let Some(rest) = msg.strip_prefix(&format!("{}:{}\n", path, k + 1)) else {
                return told("header", format!("the message does not begin with {:?}", format!("{}:{}", path, k + 1)));
            };
            let out: Vec<&str> = rest.split('\n').collect();
            if out.last() != Some(&"") || out.len() < 3 || out.len() % 2 == 0 {
                return told("shape", "the message is not pairs of an excerpt and carets".into());
            }
            for (i, p) in out[..out.len() - 1].chunks(2).enumerate() {
                let (ex, car) = (p[0], p[1]);
                let Some(text) = lines.get(k + i) else { return told("excerpt", format!("excerpt {} is of a line that does not exist", i)) };
                if !text.contains(ex) {
                    return told("excerpt", format!("the excerpt {:?} is not text of line {}", ex, k + i + 1));
                }
                let lead = car.chars().take_while(|c| *c == ' ').count();
                if car.len() == lead || car[lead..].chars().any(|c| c != '^') {
                    return told("carets", format!("{:?} is not a caret line", car));
                }
                if i > 0 {
                    continue;
                }
                // fits whatever the terminal answered in the meantime
                let width = answers
                    .iter()
                    .map(|a| match a {
                        (0, 0, _) => 0,
                        (0, _, 0) => 0,
                        (0, c, _) => *c as usize,
                        _ => 80,
                    })
                    .min()
                    .unwrap();
                let at = (loc.0 - top).min(text.len());
                let (Some(w), Some(_)) = (columns(text), columns(&text[..at])) else { continue };
                if w >= width {
                    continue;
                }
                env.st.inc("lines that fit");
                let stands = text.match_indices(ex).any(|(off, _)| off <= at && (at == text.len() || off + ex.len() > at) && columns(&text[off..at]) == Some(lead));
                if !stands {
                    return told("column", format!("the carets of {:?} over {:?} do not stand under byte {} of the line", car, ex, at));
                }
            }
            if (w_of(&answers), out.len()) != (80, 3) {
                env.st.inc("nontrivial");
            }
            env.st.state(hash(format!("{:?} {} {}", answers.iter().map(|a| (a.0, (a.1 as usize).min(90))).collect::<Vec<_>>(), out.len().min(9), columns(lines[k]).map_or(999, |c| c.min(90))).as_bytes()));
        }
        env.st.add("reports", reports);
        env.st.schedules.insert(seq);
        Verdict::Pass
    }
    fn rule(&self) -> &'static str {
        "A source (made, from a result, or from an error; corpus, generated, junk or multi-script text with up to two damages; 20 odd paths) and up to eight reports of drawn positions or positions from the tree, with the terminal resized, lost, failing or answering zero in between or during a report. Non-trivial: not an 80-column single-line report; distinct: terminal answers (capped at 90 columns), size of the message and width of the named line differ."
    }
    fn real(&self) -> &'static [&'static str] {
        &["ruruby_parse source_info, lexer and parser", "console, unicode-width"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["isatty and the window size query (C library seam)"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["a position is inside its text when its start is a character of it or its end and its end is not before its start", "columns are judged in lines made of ASCII, tabs (one column), precomposed Latin, kana and Han; other characters only for not failing", "a line that exactly fills the terminal is not taken to fit", "without a usable size the terminal is taken to have the customary 80 columns"]
    }
    fn probes(&self) -> &'static [&'static str] {
        &["lines that fit", "fault terminal of zero columns", "fault terminal of one column", "fault no terminal", "fault size query fails", "fault resized during a report"]
    }
}

fn w_of(a: &[(i64, u16, u16)]) -> u16 {
    a.last().map_or(80, |a| if a.0 == 0 { a.1 } else { 80 })
}

/// Runs `f` with standard error going to memory; returns what was written.
fn shown<T>(f: impl FnOnce() -> T) -> (T, String) {
    use std::io::{Read, Seek};
    use std::os::fd::{AsRawFd, FromRawFd};
    unsafe {
        let fd = libc::memfd_create(b"stderr\0".as_ptr() as *const _, libc::MFD_CLOEXEC);
        let mut m = std::fs::File::from_raw_fd(fd);
        let old = libc::dup(2);
        libc::dup2(m.as_raw_fd(), 2);
        let r = f();
        libc::dup2(old, 2);
        libc::close(old);
        let mut s = vec![];
        let _ = m.seek(std::io::SeekFrom::Start(0));
        let _ = m.read_to_end(&mut s);
        (r, String::from_utf8_lossy(&s).into_owned())
    }
}
