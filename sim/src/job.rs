//! A job: one parse with everything it is given, and everything observable about it as text.
use crate::case::*;
use crate::damage;
use crate::driver::Stats;
use crate::rng::*;
use crate::sut::*;
use crate::*;
use rpwrap::*;
use std::cell::Cell;

#[derive(Clone, Debug, PartialEq)]
pub struct Job {
    pub text: String,
    pub path: String,
    pub entry: Entry,
    /// what the caller's context does: 0 none, 1 knows nothing, 2 knows everything, 3 knows some,
    /// 4 unwinds at consultation `k`
    pub mode: i64,
    pub k: usize,
    pub table: Vec<String>,
}

/// What the context unwinds with.
#[derive(Debug, PartialEq, Clone, Copy)]
pub struct Unwind(pub u64);

pub const PATHS: &[&str] = &["a.rb", "", "dir/b.rb", "日本.rb"];

/// How a job ended.
pub enum Out {
    Done(Res),
    Unwound(u64),
    Panic(Panic),
}
impl Out {
    pub fn show(&self) -> String {
        match self {
            Out::Done(r) => {
                let mut s = show(r);
                // reports, too, are results
                let rep = |i: &SourceInfo, l: &Loc| guard(|| format!(" {} {:?}", i.get_line(l), i.get_location(l))).unwrap_or_else(|p| format!(" panic {}", p.place()));
                match r {
                    Err(e) => s.push_str(&rep(&e.source_info, &e.loc)),
                    Ok(r) => {
                        let n = r.source_info.code.len();
                        let mut m = n / 2;
                        while !r.source_info.code.is_char_boundary(m) {
                            m -= 1
                        }
                        s.push_str(&rep(&r.source_info, &Loc(0, 0)));
                        s.push_str(&rep(&r.source_info, &Loc(m, n)));
                    }
                }
                s
            }
            Out::Unwound(k) => format!("unwound {}", k),
            Out::Panic(p) => format!("panic {} {}", p.place(), p.msg),
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Out::Done(r) => kind(r),
            Out::Unwound(_) => "unwound",
            Out::Panic(_) => "panic",
        }
    }
}

impl Job {
    pub fn draw(r: &mut Rng) -> Job {
        let progs: Vec<&[u8]> = corpus::PROGRAMS.iter().map(|s| s.as_bytes()).collect();
        let mut text: Vec<u8> = match r.below(10) {
            0..=4 => {
                let f = *r.pick(&[4, 8, 15, 25, 40]);
                gen::print(&gen::Gen::wide_program(r, f), &[]).text.into_bytes()
            }
            5..=7 => {
                let p = *r.pick(&progs);
                let lines: Vec<&[u8]> = p.split_inclusive(|b| *b == b'\n').collect();
                let a = r.below(lines.len());
                let b = (a + r.size(8)).min(lines.len() - 1);
                lines[a..=b].concat()
            }
            8 => r.pick(&progs).to_vec(),
            _ => {
                let d = r.pick(c01::DEEP);
                let n = *r.pick(&[3usize, 20, 60, 150]);
                format!("{}{}{}", d.0.repeat(n), d.1, d.2.repeat(n)).into_bytes()
            }
        };
        if r.chance(1, 10) {
            text = lits::text(r).into_bytes();
        }
        if r.chance(1, 5) {
            damage::insert_line(r, &mut text);
        }
        if r.chance(1, 6) {
            damage::rename(r, &mut text);
        }
        if r.chance(1, 3) {
            let mut st = Stats::default();
            for _ in 0..r.range(1, 2) {
                damage::apply(&damage::draw(r, &text, &progs), &mut text, &mut st);
            }
        }
        let entry = Entry::from(r.below(3) as i64);
        let mode = if entry == Entry::Program { 0 } else { r.below(5) as i64 };
        let mut table = vec![];
        if entry == Entry::Binding {
            for _ in 0..r.below(4) {
                let v = r.pick(gen::VARS).to_string();
                if !table.contains(&v) {
                    table.push(v)
                }
            }
        }
        Job { text: damage::decode(&text), path: r.pick(PATHS).to_string(), entry, mode, k: r.size(20), table }
    }
    pub fn to_op(&self, name: &str, more: &[i64]) -> Op {
        let e = match self.entry {
            Entry::Program => 0,
            Entry::Eval => 1,
            Entry::Binding => 2,
        };
        let mut i = vec![e, self.mode, self.k as i64];
        i.extend_from_slice(more);
        op(name, &i, &[self.text.as_bytes(), self.path.as_bytes(), self.table.join(" ").as_bytes()])
    }
    pub fn of(o: &Op) -> Job {
        let entry = Entry::from(o.int(0));
        Job {
            text: o.str(0),
            path: o.str(1),
            entry,
            mode: if entry == Entry::Program { 0 } else { o.int(1) },
            k: o.uint(2),
            table: o.str(2).split(' ').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
        }
    }
    pub fn key(&self) -> u64 {
        hash(format!("{:?}", self).as_bytes())
    }
    pub fn steps(&self) -> u64 {
        c01::allowed(self.text.len())
    }
    /// Does the job. `at` is called at every consultation of the context, before it answers.
    pub fn run(&self, at: &dyn Fn(usize, &str)) -> Out {
        let n = Cell::new(0usize);
        let f = |name: &str| -> Option<usize> {
            let i = n.get();
            n.set(i + 1);
            at(i, name);
            match self.mode {
                2 => Some(name.len() % 3),
                3 => match hash(name.as_bytes()) % 4 {
                    0 => None,
                    h => Some(h as usize),
                },
                4 if i == self.k => std::panic::panic_any(Unwind(self.k as u64)),
                _ => None,
            }
        };
        let ctx = Ctx(&f);
        let table = if self.entry == Entry::Binding { Some(c10::table_of(&self.table)) } else { None };
        let c = if self.mode == 0 { None } else { Some(&ctx) };
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| parse(self.entry, &self.text, &self.path, table, c))) {
            Ok(r) => Out::Done(r),
            Err(p) => match p.downcast_ref::<Unwind>() {
                Some(u) => Out::Unwound(u.0),
                None => Out::Panic(last_panic()),
            },
        }
    }
}
