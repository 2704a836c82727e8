//! The reference model of scoping, and what a result says about scopes.
use crate::dbg::{self, V};
use crate::gen::{Ev, Pk, Sk};
use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Default)]
pub struct Table {
    pub names: Vec<String>,
    pub kw: Vec<usize>,
    pub kwrest: Option<usize>,
    pub block: Option<usize>,
    pub fwd: Option<usize>,
}

fn id(v: &V) -> Option<usize> {
    match v {
        V::Tup(n, a) if n == "LvarId" => a.first()?.num(),
        V::Tup(n, a) if n == "Some" => id(a.first()?),
        _ => None,
    }
}
/// Reads a printed variable table.
pub fn table(v: &V) -> Option<Table> {
    let names = v.get("table")?.args().first()?.args().iter().map(|s| s.text().unwrap_or("").to_string()).collect();
    Some(Table {
        names,
        kw: v.get("kw")?.args().iter().filter_map(id).collect(),
        kwrest: id(v.get("kwrest")?),
        block: id(v.get("block")?),
        fwd: id(v.get("forwarding_param")?),
    })
}

#[derive(Default, Debug)]
pub struct Obs {
    /// local variable nodes by position
    pub locals: BTreeMap<usize, (usize, String)>,
    /// local variable nodes at one position that say different things
    pub clash: Option<String>,
    pub fors: Vec<(usize, String)>,
    pub tables: Vec<Table>,
}

/// What the tree says. `None`: the output cannot be read.
pub fn observe(node: &V) -> Obs {
    let mut o = Obs::default();
    node.walk(&mut |v| {
        if let (Some(k), Some(l)) = (v.get("kind"), v.get("loc")) {
            if let (V::Tup(n, a), Some((s, _))) = (k, l.as_loc()) {
                if n == "LocalVar" && a.len() == 2 {
                    let x = (a[0].num().unwrap_or(usize::MAX), a[1].text().unwrap_or("?").to_string());
                    if let Some(y) = o.locals.insert(s, x.clone()) {
                        if x != y {
                            o.clash = Some(format!("position {}: {:?} and {:?}", s, y, x));
                        }
                    }
                }
            }
        }
        if v.name() == "For" {
            if let Some(p) = v.get("param") {
                for x in p.args() {
                    if let [d, n] = x.args() {
                        o.fors.push((d.num().unwrap_or(usize::MAX), n.text().unwrap_or("?").to_string()));
                    }
                }
            }
        }
        if v.name() == "LvarCollector" {
            if let Some(t) = table(v) {
                o.tables.push(t)
            }
        }
    });
    o
}
pub fn read(s: &str) -> Option<V> {
    dbg::parse(s)
}

struct Scope {
    kind: Option<Sk>,
    t: Table,
}
enum At {
    Found(usize),
    /// behind a method or class boundary
    Closed,
    /// not in any scope of this parse; so many blocks up is the outermost one
    Base(usize),
}

/// How the caller's frames answer.
pub enum Frames<'a> {
    None,
    Fixed(&'a dyn Fn(&str) -> Option<usize>),
    /// answers may change; what was asked and answered, in order
    Logged(&'a [(String, Option<usize>)]),
}

pub struct Judged {
    pub state: u64,
    pub finals: Table,
}

/// Checks what the tree says against the events of the program text.
pub fn judge(evs: &[Ev], start: &[String], frames: &Frames, obs: &Obs, final_table: &Table) -> Result<Judged, (String, String)> {
    if let Some(c) = &obs.clash {
        return Err(("clash".into(), c.clone()));
    }
    let mut st = vec![Scope { kind: None, t: Table { names: start.to_vec(), ..Table::default() } }];
    let mut done: Vec<Table> = vec![];
    let mut fors: Vec<(usize, String)> = vec![];
    let mut seen = 0usize;
    let mut ptr: BTreeMap<String, usize> = BTreeMap::new();
    let mut h = 0u64;
    let mut note = |x: u64| h = crate::rng::mix(h ^ x);
    fn look(st: &[Scope], name: &str) -> At {
        let mut d = 0;
        for (i, s) in st.iter().enumerate().rev() {
            if s.t.names.iter().any(|n| n == name) {
                return At::Found(d);
            }
            if i == 0 {
                break;
            }
            match s.kind {
                Some(Sk::Block) => d += 1,
                Some(Sk::For) => {}
                _ => return At::Closed,
            }
        }
        At::Base(d)
    }
    fn insert(st: &mut [Scope], name: &str) {
        let i = st.iter().rposition(|s| s.kind != Some(Sk::For)).unwrap();
        st[i].t.names.push(name.to_string());
    }
    // the next logged answer for this name that fits
    fn logged(log: &[(String, Option<usize>)], ptr: &mut BTreeMap<String, usize>, name: &str, want: Option<usize>) -> bool {
        let p = ptr.entry(name.to_string()).or_insert(0);
        match (*p..log.len()).find(|&i| log[i].0 == name && log[i].1 == want) {
            Some(i) => {
                *p = i;
                true
            }
            None => false,
        }
    }
    let say = |what: &str, pos: usize, name: &str, got: Option<&(usize, String)>, want: String| -> Result<Judged, (String, String)> {
        let g = match got {
            None => "not a local variable".to_string(),
            Some((d, n)) => format!("local variable {} at depth {}", n, d),
        };
        Err((what.to_string(), format!("{} at {} is {}, expected {}", name, pos, g, want)))
    };
    for e in evs {
        match e {
            Ev::Enter(k) => {
                note(1 + *k as u64);
                st.push(Scope { kind: Some(*k), t: Table::default() })
            }
            Ev::Exit => {
                note(9);
                done.push(st.pop().unwrap().t)
            }
            Ev::Param(n, k) => {
                let s = st.last_mut().unwrap();
                let i = s.t.names.len();
                s.t.names.push(n.clone());
                match k {
                    Pk::Plain => {}
                    Pk::Kw => s.t.kw.push(i),
                    Pk::KwRest => s.t.kwrest = Some(i),
                    Pk::Blk => s.t.block = Some(i),
                }
                note(10 + *k as u64)
            }
            Ev::Forward => {
                let s = st.last_mut().unwrap();
                s.t.fwd = Some(s.t.names.len());
                s.t.names.push("...".into());
            }
            Ev::For(names) => {
                for n in names {
                    let d = match look(&st, n) {
                        At::Found(d) => d,
                        At::Closed => {
                            insert(&mut st, n);
                            0
                        }
                        At::Base(b) => match frames {
                            Frames::Fixed(f) if f(n).is_some() => f(n).unwrap() + b,
                            _ => {
                                insert(&mut st, n);
                                0
                            }
                        },
                    };
                    note(20 + d as u64);
                    fors.push((d, n.clone()));
                }
            }
            Ev::Read(p, n) | Ev::Assign(p, n) => {
                let write = matches!(e, Ev::Assign(..));
                let got = obs.locals.get(p);
                if got.is_some() {
                    seen += 1
                }
                if let Some((_, m)) = got {
                    if m != n {
                        return say("name", *p, n, got, "its own name".into());
                    }
                }
                let d = got.map(|g| g.0);
                match look(&st, n) {
                    At::Found(w) => {
                        note(40 + w as u64 + 100 * write as u64);
                        if d != Some(w) {
                            return say(if write { "assign visible" } else { "read visible" }, *p, n, got, format!("depth {}", w));
                        }
                    }
                    At::Closed => {
                        note(60 + write as u64);
                        if write {
                            insert(&mut st, n);
                            if d != Some(0) {
                                return say("assign new", *p, n, got, "a new variable at depth 0".into());
                            }
                        } else if got.is_some() {
                            return say("read hidden", *p, n, got, "no local variable: the body sees nothing from outside".into());
                        }
                    }
                    At::Base(b) => {
                        let want: Option<Option<usize>> = match frames {
                            Frames::None => Some(None),
                            Frames::Fixed(f) => Some(f(n)),
                            Frames::Logged(_) => None,
                        };
                        note(70 + write as u64 + 2 * (b.min(8) as u64) + 100 * matches!(want, Some(Some(_))) as u64);
                        match want {
                            Some(Some(k)) => {
                                if d != Some(k + b) {
                                    return say(if write { "assign frame" } else { "read frame" }, *p, n, got, format!("depth {} in the caller's frames", k + b));
                                }
                            }
                            Some(None) => {
                                if write {
                                    insert(&mut st, n);
                                    if d != Some(0) {
                                        return say("assign new", *p, n, got, "a new variable at depth 0".into());
                                    }
                                } else if got.is_some() {
                                    return say("read unknown", *p, n, got, "no local variable".into());
                                }
                            }
                            None => {
                                let Frames::Logged(log) = frames else { unreachable!() };
                                let fresh = write && d == Some(0);
                                let w = if fresh || d.is_none() { None } else { d.and_then(|d| d.checked_sub(b)) };
                                if write && d.is_none() {
                                    return say("assign lost", *p, n, got, "a local variable".into());
                                }
                                if d.is_some() && !fresh && w.is_none() {
                                    return say("frame depth", *p, n, got, format!("at least {} blocks", b));
                                }
                                note(200 + w.map_or(0, |k| 1 + k as u64));
                                if !logged(log, &mut ptr, n, w) {
                                    return say("not as answered", *p, n, got, format!("what the context answered: {:?}", log.iter().filter(|x| x.0 == *n).collect::<Vec<_>>()));
                                }
                                if fresh {
                                    insert(&mut st, n);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    if seen != obs.locals.len() {
        let known: std::collections::HashSet<usize> = evs.iter().filter_map(|e| if let Ev::Read(p, _) | Ev::Assign(p, _) = e { Some(*p) } else { None }).collect();
        let extra: Vec<_> = obs.locals.iter().filter(|x| !known.contains(x.0)).collect();
        if !extra.is_empty() {
            return Err(("stray local".into(), format!("local variables where the text uses none: {:?}", extra)));
        }
    }
    let sorted = |mut v: Vec<(usize, String)>| {
        v.sort();
        v
    };
    let (a, b) = (sorted(fors), sorted(obs.fors.clone()));
    if a != b {
        return Err(("for variables".into(), format!("loop variables are {:?}, expected {:?}", b, a)));
    }
    let base = st.pop().unwrap().t;
    if *final_table != base {
        return Err(("final table".into(), format!("the table returned is {:?}, expected {:?}", final_table, base)));
    }
    let mut want = done;
    let mut have = obs.tables.clone();
    want.sort();
    have.sort();
    if want != have {
        let w: Vec<_> = want.iter().filter(|x| !have.contains(x)).collect();
        let g: Vec<_> = have.iter().filter(|x| !want.contains(x)).collect();
        return Err(("tables".into(), format!("the tables in the tree differ: unexpected {:?}, missing {:?} ({} and {} tables)", g, w, have.len(), want.len())));
    }
    Ok(Judged { state: h, finals: base })
}
