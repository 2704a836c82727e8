//! A case is one simulated run written out: operations with integers and byte strings. It is
//! what a replay file holds and what the minimiser shrinks.
#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub name: String,
    pub ints: Vec<i64>,
    pub strs: Vec<Vec<u8>>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub prop: String,
    pub ops: Vec<Op>,
}

pub fn op(name: &str, ints: &[i64], strs: &[&[u8]]) -> Op {
    Op { name: name.to_string(), ints: ints.to_vec(), strs: strs.iter().map(|s| s.to_vec()).collect() }
}

impl Op {
    pub fn int(&self, i: usize) -> i64 {
        self.ints.get(i).copied().unwrap_or(0)
    }
    pub fn uint(&self, i: usize) -> usize {
        self.int(i).max(0) as usize
    }
    pub fn bytes(&self, i: usize) -> &[u8] {
        self.strs.get(i).map_or(&[], |v| v.as_slice())
    }
    pub fn str(&self, i: usize) -> String {
        String::from_utf8_lossy(self.bytes(i)).into_owned()
    }
}

pub fn escape(b: &[u8]) -> String {
    let mut o = String::new();
    let s = String::from_utf8_lossy(b);
    if s.as_bytes() == b {
        for c in s.chars() {
            match c {
                '\n' => o.push_str("\\n"),
                '\\' => o.push_str("\\\\"),
                '"' => o.push_str("\\\""),
                c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\x{:02x}", c as u32)),
                c => o.push(c),
            }
        }
    } else {
        for &c in b {
            match c {
                b'\n' => o.push_str("\\n"),
                b'\\' => o.push_str("\\\\"),
                b'"' => o.push_str("\\\""),
                32..=126 => o.push(c as char),
                c => o.push_str(&format!("\\x{:02x}", c)),
            }
        }
    }
    o
}

fn unescape(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 1 < b.len() {
            match b[i + 1] {
                b'n' => o.push(b'\n'),
                b'x' if i + 3 < b.len() => {
                    let h = std::str::from_utf8(&b[i + 2..i + 4]).unwrap_or("0");
                    o.push(u8::from_str_radix(h, 16).unwrap_or(0));
                    i += 2;
                }
                c => o.push(c),
            }
            i += 2;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

impl Case {
    pub fn new(prop: &str) -> Case {
        Case { prop: prop.to_string(), ops: vec![] }
    }
    pub fn push(&mut self, name: &str, ints: &[i64], strs: &[&[u8]]) {
        self.ops.push(op(name, ints, strs));
    }
    pub fn find(&self, name: &str) -> Option<&Op> {
        self.ops.iter().find(|o| o.name == name)
    }
    pub fn text(&self) -> String {
        let mut o = format!("prop {}\n", self.prop);
        for p in &self.ops {
            o.push_str("op ");
            o.push_str(&p.name);
            for i in &p.ints {
                o.push_str(&format!(" {}", i));
            }
            for s in &p.strs {
                o.push_str(&format!(" \"{}\"", escape(s)));
            }
            o.push('\n');
        }
        o
    }
    pub fn parse(t: &str) -> Option<Case> {
        let mut c = Case::new("");
        for l in t.split('\n') {
            if let Some(p) = l.strip_prefix("prop ") {
                c.prop = p.trim().to_string();
            } else if let Some(r) = l.strip_prefix("op ") {
                let (name, mut rest) = r.split_once(' ').unwrap_or((r, ""));
                let mut o = op(name, &[], &[]);
                loop {
                    rest = rest.trim_start_matches(' ');
                    if rest.is_empty() {
                        break;
                    }
                    if let Some(q) = rest.strip_prefix('"') {
                        let qb = q.as_bytes();
                        let mut i = 0;
                        while i < qb.len() && qb[i] != b'"' {
                            i += if qb[i] == b'\\' { 2 } else { 1 };
                        }
                        let i = i.min(qb.len());
                        o.strs.push(unescape(&qb[..i]));
                        rest = q.get(i + 1..).unwrap_or("");
                    } else {
                        let (w, r2) = rest.split_once(' ').unwrap_or((rest, ""));
                        o.ints.push(w.parse().ok()?);
                        rest = r2;
                    }
                }
                c.ops.push(o);
            }
        }
        if c.prop.is_empty() {
            None
        } else {
            Some(c)
        }
    }
}
