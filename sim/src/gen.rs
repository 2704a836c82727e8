//! Program generator: draws a term, prints it as a program, and records while printing what an
//! independent reading of the language says about it: where a construct is open, where a
//! top-level statement is complete, and which names are used, bound and scoped where.
//!
//! The printer is total: any term prints as a valid program, so cutting pieces out of a term
//! while minimising keeps the oracle right.
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub struct T {
    pub tag: &'static str,
    pub v: u32,
    pub n: u32,
    pub k: Vec<T>,
}

const TAGS: &[&str] = &[
    "seq", "int", "flt", "str", "sqs", "dstr", "txt", "sym", "dsym", "rx", "drx", "xstr", "pw", "pq", "pbig", "chr", "hd", "kwd", "const", "ivar", "gvar", "cvar", "var", "arr", "splat", "hash", "pair", "paren", "call", "rcall", "idx", "lam", "blk", "defd", "bin", "tern", "rng", "not", "neg", "asg", "op", "masg", "iasg", "casg", "idxasg", "attrasg", "cmd", "rcmd", "mod", "logic", "if", "unless", "while", "until", "for", "case", "when", "begin", "resc", "def", "class", "module", "sclass", "alias", "ret", "brk", "redo", "yield", "super", "prm", "params", "karg", "harg", "dsarg", "barg", "else", "ens",
];
fn tag(s: &str) -> Option<&'static str> {
    TAGS.iter().find(|t| **t == s).copied()
}

pub fn t(tag_: &'static str, v: u32, n: u32, k: Vec<T>) -> T {
    debug_assert!(tag(tag_).is_some(), "{}", tag_);
    T { tag: tag_, v, n, k }
}

impl T {
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.put(&mut s);
        s
    }
    fn put(&self, s: &mut String) {
        s.push_str(self.tag);
        if self.v != 0 || self.n != 0 {
            s.push_str(&format!(".{}", self.v));
        }
        if self.n != 0 {
            s.push_str(&format!(".{}", self.n));
        }
        if !self.k.is_empty() {
            s.push('(');
            for (i, k) in self.k.iter().enumerate() {
                if i > 0 {
                    s.push(' ');
                }
                k.put(s);
            }
            s.push(')');
        }
    }
    /// Reads a term; tolerates anything.
    pub fn parse(s: &str) -> T {
        let b = s.as_bytes();
        let mut i = 0;
        let mut root = t("seq", 0, 0, vec![]);
        while i < b.len() {
            match Self::one(b, &mut i, 0) {
                Some(x) => root.k.push(x),
                None => i += 1,
            }
        }
        if root.k.len() == 1 && root.k[0].tag == "seq" {
            return root.k.pop().unwrap();
        }
        root
    }
    fn one(b: &[u8], i: &mut usize, depth: usize) -> Option<T> {
        while *i < b.len() && !b[*i].is_ascii_alphabetic() && b[*i] != b')' {
            *i += 1
        }
        let s = *i;
        while *i < b.len() && b[*i].is_ascii_alphabetic() {
            *i += 1
        }
        let name = std::str::from_utf8(&b[s..*i]).ok()?;
        let tg = tag(name)?;
        let mut num = |i: &mut usize| -> u32 {
            if *i < b.len() && b[*i] == b'.' {
                *i += 1;
                let s = *i;
                while *i < b.len() && b[*i].is_ascii_digit() {
                    *i += 1
                }
                return std::str::from_utf8(&b[s..*i]).unwrap().parse().unwrap_or(0);
            }
            0
        };
        let v = num(i);
        let n = num(i);
        let mut k = vec![];
        if *i < b.len() && b[*i] == b'(' && depth < 60 {
            *i += 1;
            while *i < b.len() && b[*i] != b')' {
                match Self::one(b, i, depth + 1) {
                    Some(x) => k.push(x),
                    None => {
                        if *i < b.len() && b[*i] != b')' {
                            *i += 1
                        }
                    }
                }
            }
            *i += 1;
        }
        Some(T { tag: tg, v, n, k })
    }
    pub fn count(&self) -> usize {
        1 + self.k.iter().map(|k| k.count()).sum::<usize>()
    }
    /// Smaller terms: children dropped, nodes replaced by their children or by a literal,
    /// variants reset.
    pub fn shrinks(&self) -> Vec<T> {
        let mut out = vec![];
        let n = self.k.len();
        let mut w = n;
        while w >= 1 {
            let mut i = 0;
            while i + w <= n {
                let mut d = self.clone();
                d.k.drain(i..i + w);
                out.push(d);
                i += w;
            }
            w /= 2;
        }
        for k in &self.k {
            out.push(k.clone());
        }
        if self.tag != "int" && n == 0 {
            out.push(t("int", 0, 0, vec![]));
        }
        for v in [0, self.v / 2, self.v & (self.v.wrapping_sub(1))] {
            if v != self.v {
                let mut d = self.clone();
                d.v = v;
                out.push(d);
            }
        }
        if self.n != 0 {
            let mut d = self.clone();
            d.n = 0;
            out.push(d);
        }
        for i in 0..n {
            for s in self.k[i].shrinks() {
                let mut d = self.clone();
                d.k[i] = s;
                out.push(d);
            }
        }
        out
    }
}

// ------------------------------------------------------------------ generator
pub const VARS: &[&str] = &["a", "b", "c", "x", "foo", "変数", "_u", "e_end", "é1", "if_", "do2", "nilx", "_日", "_", "a12", "a21", "__x", "ｘ1", "self_", "x_very_long_name_of_a_variable_which_goes_on_and_on_and_on_and_on_and_on_1"];
/// indices from here on are the names w0, w1, ...
pub const WIDE: u32 = 4096;
pub fn var(n: u32) -> String {
    if n >= WIDE {
        format!("w{}", n - WIDE)
    } else {
        VARS[n as usize % VARS.len()].to_string()
    }
}
/// An index for a table or frame entry.
pub fn any_var(r: &mut Rng) -> i64 {
    match r.below(6) {
        0 => WIDE as i64 + r.below(40) as i64,
        1 => r.below(VARS.len()) as i64,
        _ => r.below(6) as i64,
    }
}
pub const METHODS: &[&str] = &["m0", "m1", "puts", "変m", "m_2", "loop"];
const CONSTS: &[&str] = &["A", "Bc", "X::Y", "::Top", "A::B::C"];
const CONST1: &[&str] = &["A", "Bc", "Foo", "M1"];
const INTS: &[&str] = &["0", "1", "42", "1_000", "0x1f", "0b101", "0o17", "123456789012345678901234567890", "7"];
const FLTS: &[&str] = &["1.5", "2.0e3", "0.25", "3i", "1.5i", "1e5", "1E-5", "1_0.5", "12345678901234567890i"];
const GVARS: &[&str] = &["$g0", "$stdout", "$1", "$!", "$変", "$&", "$~", "$:", "$;", "$,", "$.", "$<", "$0", "$$", "$?", "$_", "$`", "$'", "$+", "$*", "$@", "$/", "$\\", "$>", "$\"", "$99"];
const SYMS: &[&str] = &[":f?", ":f!", ":f=", ":[]", ":[]=", ":==", ":!", ":-@", ":<=>", ":=~", ":@@c", ":A", ":if", ":end", ":+", ":**", ":nil"];
const KEYS: &[&str] = &["if", "end", "nil", "class", "A", "\"a b\"", "def", "do"];
const DEFS: &[&str] = &["-@", "[]=", "if", "$g1.f", "f!", "A", "<=>", "self.[]", "self.class", "end", "A.f=", "!=", "nil"];
const DTXT: &[&str] = &["abc", "日本 ", "\\n", "\\\"", " end ", "'", "# ", "\\u3042", "\\x41", "\\\\", "if x do", "a = 1", "\\101", "é", "<<A ", "\\#{a}", "%w", "?", "1", "\\u{41}", "\\e\\a\\b", "\\s\\0", "\\12", "\\r\\t", "\\C-a", "\\x4", "\\u{41 42}", "#@iv ", "#$g1 ", "#@@c ", "#", "\\\n", "\\q"];
const STXT: &[&str] = &["abc", "日本 ", "\\\\", "\\'", " end ", "\"", "#{a}", "if x do", "a = 1", "\\n", "é", "<<A ", "#", "%", "1"];
const HTXT: &[&str] = &["abc", "日本語 text", "end", "\"quoted\"", "'single'", "if x", "a = 1", "# no comment", "} ) ]", "<<NOT", "|a|", "%w(", "/", "`", "EOSX", "xEOS", "", "é"];
pub const HEREDOC_IDS: &[&str] = &["EOS", "A1", "日", "_x"];
const RTXT: &[&str] = &["ab+", "[a-z]*", "\\/", "\\d{2}", "(x|y)", "日本", "^$", "\\.", "end", "'", "\\s", "\\n", "\\A", "\\p{x}", "\\x41", "\\u3042", "(a)\\1", "{x{2,3}", "#=", "\"", "é+?"];
const COMMENTS: &[&str] = &["a = 1", "end \" ' `", "<<EOS", "日本語", "if x do {", "#{a}", "=begin", "%w(", ""];
const OPS: &[&str] = &["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "&&", "||", "**"];
const CMPS: &[&str] = &["==", "!=", "===", "=~", "!~", "<", "<=", ">", ">=", "<=>"];
const ASGOPS: &[&str] = &["+=", "-=", "*=", "/=", "||=", "&&=", "<<=", ">>=", "|=", "&=", "^=", "%="];

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub fuel: i32,
    /// few names give many collisions
    pub names: usize,
    pub in_def: bool,
    /// scopes with many names
    pub wide: usize,
}
impl<'a> Gen<'a> {
    fn v(&mut self) -> u32 {
        // half of the variants are the plain one
        if self.r.chance(1, 3) {
            0
        } else {
            self.r.below(1 << 12) as u32
        }
    }
    fn name(&mut self) -> u32 {
        if self.wide > 0 && self.r.chance(2, 3) {
            return WIDE + self.r.below(self.wide) as u32;
        }
        self.r.below(self.names) as u32
    }
    /// Many names assigned one after the other.
    fn many(&mut self, k: &mut Vec<T>) {
        let (a, b) = (self.r.below(self.wide), self.r.range(1, self.wide));
        for i in 0..b {
            k.push(t("asg", 0, WIDE + ((a + i) % self.wide) as u32, vec![t("int", 0, 0, vec![])]));
        }
    }
    fn n(&mut self) -> u32 {
        self.r.below(64) as u32
    }
    pub fn program(r: &mut Rng, fuel: i32) -> T {
        Gen::sized(r, fuel, 0)
    }
    /// Some of the programs have scopes with many names.
    pub fn wide_program(r: &mut Rng, fuel: i32) -> T {
        let wide = if r.chance(1, 20) { *r.pick(&[9usize, 17, 40, 70, 140, 300]) } else { 0 };
        Gen::sized(r, fuel, wide)
    }
    fn sized(r: &mut Rng, fuel: i32, wide: usize) -> T {
        let names = *r.pick(&[2usize, 3, 4, 6, 12, 20]);
        let mut g = Gen { r, fuel, names, in_def: false, wide };
        let mut k = vec![];
        if wide > 0 {
            g.many(&mut k);
        }
        while g.fuel > 0 {
            k.push(g.stmt(0));
        }
        t("seq", 0, 0, k)
    }
    fn seq(&mut self, d: usize, max: usize) -> T {
        let m = self.r.below(max + 1);
        let v = self.v();
        let mut k = vec![];
        if self.wide > 0 && self.r.chance(1, 8) {
            self.many(&mut k);
        }
        for _ in 0..m {
            if self.fuel <= 0 {
                break;
            }
            k.push(self.stmt(d + 1));
        }
        t("seq", v, 0, k)
    }
    fn arg(&mut self, d: usize) -> T {
        self.fuel -= 1;
        let v = self.v();
        if d > 7 || self.fuel <= 0 {
            return match self.r.below(3) {
                0 => t("int", v, self.n(), vec![]),
                _ => t("var", v, self.name(), vec![]),
            };
        }
        match self.r.below(24) {
            0..=9 => self.prim(d),
            10..=13 => {
                let m = self.r.range(2, 4);
                let mut k: Vec<T> = (0..m).map(|_| self.prim(d + 1)).collect();
                if self.r.chance(1, 6) {
                    // an assignment as the last operand: 1 + x = 2
                    let x = self.prim(d + 1);
                    k[m - 1] = t("asg", 2 * self.r.below(8) as u32, self.name(), vec![x]);
                }
                t("bin", v, self.n(), k)
            }
            14 => {
                let k = (0..3).map(|_| self.prim(d + 1)).collect();
                t("tern", v, 0, k)
            }
            15 => {
                let k = (0..2).map(|_| self.prim(d + 1)).collect();
                t("rng", v, 0, k)
            }
            16 => t("not", v, 0, vec![self.prim(d + 1)]),
            17 => t("neg", v, 0, vec![self.prim(d + 1)]),
            _ => self.prim(d),
        }
    }
    fn args(&mut self, d: usize, max: usize) -> Vec<T> {
        let m = self.r.below(max + 1);
        (0..m)
            .map(|_| {
                let v = self.v();
                match self.r.below(12) {
                    0 => t("splat", v, 0, vec![self.prim(d + 1)]),
                    1 | 2 => t("karg", v, self.name(), vec![self.arg(d + 1)]),
                    3 => t("harg", v, 0, vec![self.prim(d + 1), self.arg(d + 1)]),
                    4 => t("dsarg", v, 0, vec![self.prim(d + 1)]),
                    5 => t("barg", v, 0, vec![self.prim(d + 1)]),
                    _ => self.arg(d + 1),
                }
            })
            .collect()
    }
    fn params(&mut self, d: usize) -> T {
        if self.wide > 0 && self.fuel > 0 && self.r.chance(1, 4) {
            let m = self.r.range(5, 40);
            let k = (0..m)
                .map(|i| {
                    let kind = *self.r.pick(&[0u32, 0, 1, 4, 5, 6]);
                    t("prm", kind, WIDE + (i % self.wide) as u32, if kind == 1 || kind == 4 { vec![t("int", 0, 0, vec![])] } else { vec![] })
                })
                .collect();
            return t("params", 0, 0, k);
        }
        let m = self.r.below(5);
        let k = (0..m)
            .map(|_| {
                let v = self.v();
                let n = self.name();
                let kind = *self.r.pick(&[0u32, 0, 0, 1, 1, 2, 3, 4, 4, 5, 6, 7, 8]);
                match kind {
                    1 | 4 => t("prm", kind, n, if self.r.chance(2, 3) { vec![self.prim(d + 3)] } else { vec![] }),
                    7 => {
                        let e = self.r.range(1, 3);
                        t("prm", kind, n, (0..e).map(|_| t("var", self.v(), self.name(), vec![])).collect())
                    }
                    _ => t("prm", kind, n + 64 * (v & 1), vec![]),
                }
            })
            .collect();
        t("params", self.v(), 0, k)
    }
    fn blk(&mut self, d: usize) -> T {
        let p = self.params(d);
        let b = self.seq(d, 4);
        let mut k = vec![p, b];
        if self.r.chance(1, 8) {
            k.push(self.resc(d));
        }
        t("blk", self.v(), 0, k)
    }
    fn resc(&mut self, d: usize) -> T {
        let e = self.r.below(3);
        let mut k = vec![self.seq(d, 2)];
        for _ in 0..e {
            k.push(t("const", 0, self.n(), vec![]));
        }
        t("resc", self.v(), self.name(), k)
    }
    fn dparts(&mut self, d: usize) -> Vec<T> {
        let m = self.r.range(1, 4);
        (0..m)
            .map(|_| if self.r.chance(1, 2) { t("txt", 0, self.n(), vec![]) } else { self.seq(d + 2, 2) })
            .collect()
    }
    fn prim(&mut self, d: usize) -> T {
        self.fuel -= 1;
        let v = self.v();
        let n = self.n();
        if d > 7 || self.fuel <= 0 {
            return t("var", 0, self.name(), vec![]);
        }
        match self.r.below(60) {
            0..=15 => t("var", v, self.name(), vec![]),
            16..=18 => t("int", v, n, vec![]),
            19 => t("flt", v, n, vec![]),
            20 | 21 => t("str", v, n, vec![]),
            22 => t("sqs", v, n, vec![]),
            23..=25 => {
                let k = self.dparts(d);
                t("dstr", v, n, k)
            }
            26 => t("sym", v, self.name(), vec![]),
            27 => {
                let k = self.dparts(d);
                t(*self.r.pick(&["dsym", "xstr"]), v, n, k)
            }
            28 => t("rx", v, n, vec![]),
            29 => {
                let k = self.dparts(d);
                t("drx", v, n, k)
            }
            30 => t(*self.r.pick(&["pw", "pq"]), v, n, vec![]),
            31 => {
                let k = self.dparts(d);
                t("pbig", v, n, k)
            }
            32 => t("chr", v, n, vec![]),
            33..=35 => {
                let k = self.dparts(d);
                t("hd", v, n, k)
            }
            36 => t("kwd", v, n, vec![]),
            37 => t("const", v, n, vec![]),
            38 => t(*self.r.pick(&["ivar", "gvar", "cvar"]), v, self.name(), vec![]),
            39..=41 => {
                let m = self.r.below(4);
                let k = (0..m).map(|_| if self.r.chance(1, 8) { t("splat", 0, 0, vec![self.prim(d + 1)]) } else { self.arg(d + 1) }).collect();
                t("arr", v, n, k)
            }
            42 | 43 => {
                let m = self.r.below(3);
                let k = (0..m)
                    .map(|_| {
                        let v = self.v();
                        let n = self.name();
                        let key = if self.r.chance(1, 3) { self.arg(d + 2) } else { self.prim(d + 2) };
                        t("pair", v, n, vec![key, self.arg(d + 2)])
                    })
                    .collect();
                t("hash", v, n, k)
            }
            44 | 45 => {
                let s = self.seq(d, 3);
                t("paren", v, n, s.k)
            }
            46..=49 => {
                let mut k = self.args(d, 3);
                if self.r.chance(1, 2) {
                    k.push(self.blk(d));
                }
                t("call", v, n, k)
            }
            50..=53 => {
                let mut k = vec![self.prim(d + 1)];
                k.extend(self.args(d, 2));
                if self.r.chance(1, 2) {
                    k.push(self.blk(d));
                }
                t("rcall", v, n, k)
            }
            54 | 55 => {
                let mut k = vec![self.prim(d + 1)];
                let m = self.r.range(1, 2);
                k.extend((0..m).map(|_| self.arg(d + 2)));
                t("idx", v, n, k)
            }
            56 | 57 => {
                let b = self.blk(d);
                t("lam", v, n, b.k)
            }
            58 => t("defd", v, n, vec![self.prim(d + 1)]),
            _ => self.stmt(d + 1),
        }
    }
    fn target(&mut self, d: usize) -> T {
        let v = self.v();
        match self.r.below(10) {
            0..=6 => t("var", v, self.name(), vec![]),
            7 => t("ivar", v, self.name(), vec![]),
            8 => t("idx", v, 0, vec![self.prim(d + 5), self.arg(d + 6)]),
            _ => t("rcall", v, self.n(), vec![self.prim(d + 5)]),
        }
    }
    pub fn stmt(&mut self, d: usize) -> T {
        self.fuel -= 1;
        let v = self.v();
        let n = self.n();
        if d > 6 || self.fuel <= 0 {
            return match self.r.below(2) {
                0 => t("asg", 0, self.name(), vec![t("int", 0, n, vec![])]),
                _ => t("var", 0, self.name(), vec![]),
            };
        }
        match self.r.below(70) {
            0..=13 => {
                let m = if self.r.chance(1, 6) { 2 } else { 1 };
                let k = (0..m).map(|_| if self.r.chance(1, 6) { self.stmt(d + 1) } else { self.arg(d + 1) }).collect();
                t("asg", v, self.name(), k)
            }
            14..=17 => {
                let tg = self.target(d);
                t("op", v, n, vec![tg, self.arg(d + 1)])
            }
            18..=20 => {
                let (m, v) = if self.r.chance(1, 6) { (1, if self.r.chance(1, 2) { v | 12 } else { 48 * (v & 31) }) } else { (self.r.range(2, 4), v) };
                let mut k: Vec<T> = (0..m).map(|_| self.target(d)).collect();
                let e = self.r.range(1, 3);
                k.extend((0..e).map(|_| self.arg(d + 1)));
                t("masg", v, m as u32 + 8 * n, k)
            }
            21 => t("iasg", v, n, vec![self.arg(d + 1)]),
            22 => t("casg", v, n, vec![self.arg(d + 1)]),
            23 => t("idxasg", v, n, vec![self.prim(d + 1), self.arg(d + 2), self.arg(d + 1)]),
            24 => t("attrasg", v, n, vec![self.prim(d + 1), self.arg(d + 1)]),
            25..=30 => {
                let mut k = self.args(d, 3);
                if self.r.chance(1, 2) {
                    k.push(self.blk(d));
                }
                t("cmd", v, n, k)
            }
            31..=33 => {
                let mut k = vec![self.prim(d + 1)];
                k.extend(self.args(d, 2));
                if self.r.chance(1, 2) {
                    k.push(self.blk(d));
                }
                t("rcmd", v, n, k)
            }
            34..=36 => t("mod", v, n, vec![self.stmt(d + 1), self.cond(d)]),
            37 => t("logic", v, n, vec![self.arg(d + 1), self.arg(d + 1)]),
            38..=41 => {
                let mut k = vec![self.cond(d), self.seq(d, 3)];
                while self.r.chance(1, 4) {
                    k.push(self.cond(d));
                    k.push(self.seq(d, 2));
                }
                if self.r.chance(1, 2) {
                    let s = self.seq(d, 2);
                    k.push(t("else", s.v, 0, s.k));
                }
                t("if", v, n, k)
            }
            42 => {
                let mut k = vec![self.cond(d), self.seq(d, 3)];
                if self.r.chance(1, 3) {
                    let s = self.seq(d, 2);
                    k.push(t("else", s.v, 0, s.k));
                }
                t("unless", v, n, k)
            }
            43 | 44 => t(*self.r.pick(&["while", "until"]), v, n, vec![self.cond(d), self.seq(d, 3)]),
            45..=47 => {
                let m = self.r.range(1, 3);
                let mut k = vec![self.arg(d + 1), self.seq(d, 3)];
                k.extend((0..m).map(|_| t("var", 0, self.name(), vec![])));
                t("for", v, n, k)
            }
            48 | 49 => {
                let mut k = vec![];
                if self.r.chance(3, 4) {
                    k.push(self.cond(d));
                }
                let m = self.r.range(1, 3);
                for _ in 0..m {
                    let e = self.r.range(1, 2);
                    let mut w = vec![self.seq(d, 2)];
                    w.extend((0..e).map(|_| self.arg(d + 2)));
                    k.push(t("when", self.v(), 0, w));
                }
                if self.r.chance(1, 3) {
                    let s = self.seq(d, 2);
                    k.push(t("else", s.v, 0, s.k));
                }
                t("case", v, n, k)
            }
            50 | 51 => {
                let k = self.begin_parts(d);
                t("begin", v, n, k)
            }
            52..=55 => {
                let p = self.params(d);
                let old = self.in_def;
                self.in_def = true;
                let mut k = vec![p];
                k.extend(self.begin_parts(d));
                self.in_def = old;
                t("def", v, n + 64 * self.name(), k)
            }
            56 | 57 => {
                let mut k = vec![self.prim(d + 2)];
                k.extend(self.begin_parts(d));
                t(*self.r.pick(&["class", "module", "sclass"]), v, n, k)
            }
            58 => t("alias", v, n, vec![]),
            59 => {
                let m = self.r.below(3);
                let k = (0..m).map(|_| self.arg(d + 1)).collect();
                t(*self.r.pick(&["ret", "brk", "redo"]), v, n, k)
            }
            60 => {
                let k = self.args(d, 2);
                t(*self.r.pick(&["yield", "super"]), v, n, k)
            }
            _ => self.arg(d + 1),
        }
    }
    fn cond(&mut self, d: usize) -> T {
        match self.r.below(8) {
            0 => t("asg", 0, self.name(), vec![self.arg(d + 1)]),
            1 => t("logic", self.v(), self.n(), vec![self.arg(d + 1), self.arg(d + 1)]),
            _ => self.arg(d + 1),
        }
    }
    fn begin_parts(&mut self, d: usize) -> Vec<T> {
        let mut k = vec![self.seq(d, 4)];
        if self.r.chance(1, 4) {
            k.push(self.resc(d));
            if self.r.chance(1, 3) {
                k.push(self.resc(d));
            }
            if self.r.chance(1, 3) {
                let s = self.seq(d, 2);
                k.push(t("else", s.v, 0, s.k));
            }
            if self.r.chance(1, 3) {
                let s = self.seq(d, 2);
                k.push(t("ens", s.v, 0, s.k));
            }
        }
        k
    }
}

// ------------------------------------------------------------------ printer
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sk {
    Block,
    Method,
    Class,
    For,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pk {
    Plain,
    Kw,
    KwRest,
    Blk,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Ev {
    Read(usize, String),
    Assign(usize, String),
    Enter(Sk),
    Exit,
    Param(String, Pk),
    Forward,
    /// variables of a for loop
    For(Vec<String>),
}
#[derive(Default, Clone, Debug)]
pub struct Printed {
    pub text: String,
    /// constructs: from the end of the opener to the end of the closer
    pub spans: Vec<(usize, usize, &'static str)>,
    pub evs: Vec<Ev>,
    /// ends of top-level lines where nothing is open (position after the line feed)
    pub closed: Vec<usize>,
    /// ends of top-level statements where nothing is open (before the line feed)
    pub ends: Vec<usize>,
    /// line feeds after which the statement goes on although nothing is open
    pub soft: Vec<usize>,
    /// names used again between the place of an assignment's target and its end
    pub dups: Vec<String>,
}

#[derive(Clone)]
struct Pending {
    body: String,
    evs: std::ops::Range<usize>,
    spans: std::ops::Range<usize>,
    open: usize,
}

#[derive(Clone, Copy, Default)]
struct Flags {
    /// `do` would belong to an enclosing loop
    no_do: bool,
    /// several values on the right of an assignment would belong to an enclosing list
    no_mul: bool,
    /// inside quotes: no here documents
    quoted: bool,
    /// nothing that binds a name or opens a scope
    pure_: bool,
    in_method: bool,
    in_loop: bool,
    /// a `do` block follows: no block arguments
    no_barg: bool,
}

#[derive(Clone)]
pub struct Printer {
    p: Printed,
    pend: Vec<Pending>,
    f: Flags,
    forbid: Vec<String>,
    /// targets of the assignments being printed
    binding: Vec<String>,
    scopes: Vec<(Option<Sk>, Vec<String>)>,
    /// per scope: 1 has parameters, 2 uses a numbered parameter, 4 an inner block does, 8 hands
    /// its parameters on
    marks: Vec<u8>,
    depth: usize,
    /// an assignment may follow an operator without parentheses
    acc: bool,
}

pub fn print(prog: &T, start: &[String]) -> Printed {
    let mut p = Printer {
        p: Printed::default(),
        pend: vec![],
        f: Flags::default(),
        forbid: vec![],
        binding: vec![],
        scopes: vec![(None, start.to_vec())],
        marks: vec![0],
        depth: 0,
        acc: false,
    };
    let items: Vec<&T> = if prog.tag == "seq" { prog.k.iter().collect() } else { vec![prog] };
    for (i, s) in items.iter().enumerate() {
        p.stmt(s);
        if p.pend.is_empty() {
            p.p.ends.push(p.p.text.len());
        }
        if s.v & 0x300 == 0x300 && i + 1 < items.len() {
            p.w(if s.v & 0x400 != 0 { "; " } else { ";" });
        } else {
            p.nl(s.v >> 3);
            let e = p.p.text.len();
            p.p.closed.push(e);
            if s.v & 0xf0 == 0x50 {
                p.w("\n");
                let e = p.p.text.len();
                p.p.closed.push(e);
            }
            if s.v & 0xf0 == 0x60 {
                p.w(&format!("  # {}\n", COMMENTS[(s.v >> 2) as usize % COMMENTS.len()]));
                let e = p.p.text.len();
                p.p.closed.push(e);
            }
        }
    }
    if !p.pend.is_empty() {
        p.nl(0);
        let e = p.p.text.len();
        p.p.closed.push(e);
    }
    p.p
}

static EMPTY: T = T { tag: "int", v: 0, n: 0, k: vec![] };

impl Printer {
    fn w(&mut self, s: &str) {
        self.p.text.push_str(s)
    }
    fn pos(&self) -> usize {
        self.p.text.len()
    }
    fn open(&mut self, s: &str) -> usize {
        self.w(s);
        self.pos()
    }
    fn close(&mut self, from: usize, s: &str, kind: &'static str) {
        self.w(s);
        let e = self.pos();
        self.p.spans.push((from, e, kind));
    }
    fn can_nl(&self) -> bool {
        true
    }
    /// A line break, with what may stand around it; here documents begun on this line follow.
    fn nl(&mut self, v: u32) {
        if !self.can_nl() {
            self.w(";");
            return;
        }
        if !self.f.quoted {
            if v & 7 == 5 {
                let c = COMMENTS[(v >> 3) as usize % COMMENTS.len()];
                self.w(&format!(" # {}", c));
            } else if v & 7 == 6 {
                self.w("  ");
            }
        }
        self.feed("\n");
        for _ in 0..self.depth.min(3) * (v as usize >> 1 & 1) {
            self.w("  ")
        }
    }
    /// Text that ends a line; here documents begun on the line follow.
    fn feed(&mut self, s: &str) {
        self.w(s);
        for p in std::mem::take(&mut self.pend) {
            let base = self.pos();
            self.w(&p.body);
            let end = self.pos();
            for e in &mut self.p.evs[p.evs.clone()] {
                match e {
                    Ev::Read(a, _) | Ev::Assign(a, _) => *a += base,
                    _ => {}
                }
            }
            for s in &mut self.p.spans[p.spans.clone()] {
                s.0 += base;
                s.1 += base;
            }
            // the construct ends with its terminator line, whose line feed is optional
            self.p.spans.push((p.open, end - 1, "heredoc"));
        }
    }
    /// A line break, or nothing.
    fn gap(&mut self, v: u32) {
        if v & 0x1c0 == 0x1c0 && self.can_nl() {
            self.nl(v >> 4)
        }
    }
    /// After an operator or a comma: a blank or a line break.
    fn brk(&mut self, v: u32) {
        if v & 0x3c0 == 0x3c0 && self.can_nl() {
            self.nl(v >> 4)
        } else if v & 0x3c0 == 0x340 && self.can_nl() {
            self.feed(" \\\n");
            self.w(" ")
        } else {
            self.w(" ")
        }
    }
    fn visible(&self, name: &str) -> bool {
        for (k, t) in self.scopes.iter().rev() {
            if t.iter().any(|x| x == name) {
                return true;
            }
            if matches!(k, Some(Sk::Method) | Some(Sk::Class) | None) {
                return false;
            }
        }
        false
    }
    /// The name an index stands for here; a name that is just being bound is not used.
    fn name(&self, n: u32) -> String {
        let mut i = n as usize;
        for _ in 0..VARS.len() {
            let s = var(i as u32);
            if !self.forbid.iter().any(|f| *f == s) {
                return s;
            }
            i += 1;
        }
        "zz".to_string()
    }
    fn forbidding<R>(&mut self, names: &[String], f: impl FnOnce(&mut Self) -> R) -> R {
        let n = self.forbid.len();
        let nb = self.binding.len();
        self.binding.extend_from_slice(names);
        for s in names {
            if !self.visible(s) {
                self.forbid.push(s.clone());
            }
        }
        let r = f(self);
        self.forbid.truncate(n);
        self.binding.truncate(nb);
        r
    }
    fn with<R>(&mut self, g: impl FnOnce(&mut Flags), f: impl FnOnce(&mut Self) -> R) -> R {
        let old = self.f;
        g(&mut self.f);
        let r = f(self);
        self.f = old;
        r
    }
    fn read(&mut self, name: &str) {
        let p = self.pos();
        self.again(name);
        self.p.evs.push(Ev::Read(p, name.to_string()));
        self.w(name);
    }
    fn bind(&mut self, name: &str) {
        if !self.visible(name) {
            let i = self.scopes.iter().rposition(|s| s.0 != Some(Sk::For)).unwrap();
            self.scopes[i].1.push(name.to_string());
        }
    }
    fn again(&mut self, name: &str) {
        if self.binding.iter().any(|b| b == name) {
            self.p.dups.push(name.to_string());
        }
    }
    fn assign_ev(&mut self, pos: usize, name: &str) {
        self.again(name);
        self.p.evs.push(Ev::Assign(pos, name.to_string()));
        self.bind(name);
    }
    fn enter(&mut self, k: Sk) {
        self.p.evs.push(Ev::Enter(k));
        self.scopes.push((Some(k), vec![]));
        self.marks.push(0);
        self.depth += 1;
    }
    fn exit(&mut self) {
        self.p.evs.push(Ev::Exit);
        self.scopes.pop();
        self.marks.pop();
        self.depth -= 1;
    }

    fn mark(&mut self, m: u8) {
        *self.marks.last_mut().unwrap() |= m
    }
    /// Whether a numbered parameter may stand here; if so it is noted.
    fn numbered(&mut self) -> bool {
        let top = self.scopes.len() - 1;
        if self.scopes[top].0 != Some(Sk::Block) || self.marks[top] & 5 != 0 {
            return false;
        }
        let mut out = vec![];
        for i in (0..top).rev() {
            if self.marks[i] & 2 != 0 {
                return false;
            }
            out.push(i);
            if !matches!(self.scopes[i].0, Some(Sk::Block) | Some(Sk::For)) {
                break;
            }
        }
        for i in out {
            self.marks[i] |= 4
        }
        self.marks[top] |= 2;
        true
    }
    /// Whether the method's arguments can be handed on.
    fn forwards(&self) -> bool {
        self.scopes.iter().zip(&self.marks).rev().find(|(s, _)| !matches!(s.0, Some(Sk::Block) | Some(Sk::For))).map_or(false, |(s, m)| s.0 == Some(Sk::Method) && m & 8 != 0)
    }

    // ---- statements
    fn items<'t>(s: &'t T) -> Vec<&'t T> {
        if matches!(s.tag, "seq" | "else" | "ens" | "paren") {
            s.k.iter().collect()
        } else {
            vec![s]
        }
    }
    /// Statements of a body with separators between them.
    fn body(&mut self, s: &T) {
        let it = Self::items(s);
        for (i, x) in it.iter().enumerate() {
            self.stmt(x);
            if i + 1 < it.len() {
                if x.v & 8 != 0 {
                    self.w("; ")
                } else {
                    self.nl(x.v >> 4)
                }
            }
        }
    }
    /// Something that ends a statement.
    fn term(&mut self, v: u32) {
        if v & 3 == 3 {
            self.w("; ")
        } else {
            self.nl(v >> 2)
        }
    }
    fn body_term(&mut self, s: &T, v: u32) {
        self.body(s);
        if Self::items(s).is_empty() && v & 3 == 1 {
            return;
        }
        if v & 0xf4 == 0xf4 {
            // the word that follows ends the statement
            return self.w(" ");
        }
        self.term(v)
    }
    fn then(&mut self, v: u32) {
        match v & 3 {
            0 | 1 => self.nl(v >> 2),
            2 => self.w(" then "),
            _ => self.w("; "),
        }
    }
    fn stmt(&mut self, s: &T) {
        if self.f.pure_ {
            return self.arg(s);
        }
        let k = |i: usize| s.k.get(i).unwrap_or(&EMPTY);
        match s.tag {
            "asg" => self.asg(s),
            "op" => {
                let tg = k(0);
                let op = ASGOPS[(s.v as usize) % ASGOPS.len()];
                if tg.tag == "var" {
                    let name = self.name(tg.n);
                    let p = self.pos();
                    self.w(&name);
                    self.w(&format!(" {}", op));
                    self.brk(s.v);
                    self.forbidding(&[name.clone()], |m| m.arg(k(1)));
                    self.assign_ev(p, &name);
                } else {
                    self.target(tg, &[]);
                    self.w(&format!(" {} ", op));
                    self.arg(k(1));
                }
            }
            "masg" => self.masg(s),
            "iasg" => {
                match s.v % 3 {
                    0 => self.w(&format!("@{}", VARS[s.n as usize % VARS.len()])),
                    1 => self.w(&format!("$g{}", s.n % 4)),
                    _ => self.w(&format!("@@{}", VARS[s.n as usize % VARS.len()])),
                }
                self.w(" =");
                self.brk(s.v);
                self.with(|f| f.no_mul = true, |m| m.arg(k(0)));
            }
            "casg" => {
                if self.f.in_method {
                    return self.arg(k(0));
                }
                if s.v & 0x30 == 0x30 {
                    self.w(["A::", "::", "A::Bc::"][(s.v >> 8) as usize % 3]);
                }
                self.w(CONST1[s.n as usize % CONST1.len()]);
                self.w(if s.v & 0xc0 == 0xc0 { [" ||=", " &&=", " +="][s.n as usize / 4 % 3] } else { " =" });
                self.brk(s.v);
                self.with(|f| f.no_mul = true, |m| m.arg(k(0)));
            }
            "idxasg" => {
                // an operator assignment holds its target twice in the tree
                let twice = s.v & 1 == 1;
                self.with(|f| f.pure_ |= twice, |m| m.recv(k(0)));
                self.with(
                    |f| f.no_mul = true,
                    |m| {
                        let o = m.open("[");
                        m.with(|f| f.pure_ |= twice, |m| m.arg(k(1)));
                        m.close(o, "]", "index");
                        m.w(if s.v & 1 == 0 { " = " } else { " ||= " });
                        m.arg(k(2));
                    },
                );
            }
            "attrasg" => {
                self.with(|f| f.pure_ |= s.v & 1 == 1, |m| m.recv(k(0)));
                self.w(".");
                self.w(VARS[s.n as usize % VARS.len()]);
                self.w(if s.v & 1 == 0 { " = " } else { " += " });
                self.with(|f| f.no_mul = true, |m| m.arg(k(1)));
            }
            "cmd" => {
                self.w(METHODS[s.n as usize % METHODS.len()]);
                self.cmd_args(&s.k, s.v);
            }
            "rcmd" => {
                self.recv(k(0));
                self.w(if s.v & 16 != 0 { "&." } else { "." });
                self.w(METHODS[s.n as usize % METHODS.len()]);
                self.cmd_args(&s.k[1.min(s.k.len())..], s.v);
            }
            "mod" => {
                let b = k(0);
                let plain = !matches!(b.tag, "ret" | "brk" | "yield" | "super" | "redo");
                let w = match s.v % 5 {
                    0 | 4 => " if ",
                    1 => " unless ",
                    2 if plain => " while ",
                    3 if plain => " until ",
                    _ => " if ",
                };
                if plain && s.n % 4 == 3 {
                    // not after an assignment: the rescue would belong to its value
                    self.arg(b);
                    self.w(" rescue ");
                    self.arg(k(1));
                } else {
                    self.simple(b);
                    self.w(w);
                    self.cond(k(1));
                }
            }
            "logic" => self.cond(s),
            "if" => {
                let has_else = s.k.last().map_or(false, |e| e.tag == "else");
                let n = s.k.len() - has_else as usize;
                let o = self.open("if");
                self.w(" ");
                let mut i = 0;
                loop {
                    self.cond(k(i));
                    self.then(s.v >> i);
                    let e = t("seq", 0, 0, vec![]);
                    self.body_term(if i + 1 < n { k(i + 1) } else { &e }, s.v >> (i + 3));
                    i += 2;
                    if i >= n {
                        break;
                    }
                    self.w("elsif ");
                }
                if has_else {
                    self.w("else");
                    self.nl(s.v >> 5);
                    self.body_term(s.k.last().unwrap(), s.v >> 6);
                }
                self.close(o, "end", "if");
            }
            "unless" => {
                let o = self.open("unless");
                self.w(" ");
                self.cond(k(0));
                self.then(s.v);
                self.body_term(k(1), s.v >> 3);
                if let Some(e) = s.k.get(2) {
                    self.w("else ");
                    self.body_term(e, s.v >> 6);
                }
                self.close(o, "end", "unless");
            }
            "while" | "until" => {
                let o = self.open(if s.tag == "while" { "while" } else { "until" });
                self.w(" ");
                self.with(|f| f.no_do = true, |m| m.cond(k(0)));
                match s.v & 3 {
                    0 => self.w(" do "),
                    1 => self.w("; "),
                    _ => self.nl(s.v >> 2),
                }
                self.with(|f| f.in_loop = true, |m| m.body_term(k(1), s.v >> 4));
                self.close(o, "end", "loop");
            }
            "for" => {
                let o = self.open("for");
                self.w(" ");
                let mut names = vec![];
                let vs: &[T] = s.k.get(2..).unwrap_or(&[]);
                for x in vs {
                    let n = self.name(x.n);
                    if !names.contains(&n) {
                        names.push(n)
                    }
                }
                if names.is_empty() {
                    names.push(self.name(s.n));
                }
                for (i, n) in names.iter().enumerate() {
                    if i > 0 {
                        self.w(",");
                        self.brk(s.v);
                    }
                    self.w(n);
                }
                self.p.evs.push(Ev::For(names.clone()));
                for n in &names {
                    self.bind(n);
                }
                self.w(" in ");
                let it = k(0);
                if s.v & 3 == 3 {
                    let o = self.open("[");
                    self.with(|f| f.no_mul = true, |m| m.arg(it));
                    self.close(o, "]", "array");
                    self.w(" do ");
                } else {
                    self.arg(it);
                    self.nl(s.v >> 3);
                }
                self.enter(Sk::For);
                self.with(|f| f.in_loop = true, |m| m.body_term(k(1), s.v >> 5));
                self.exit();
                self.close(o, "end", "for");
            }
            "case" => {
                let o = self.open("case");
                let mut i = 0;
                if k(0).tag != "when" && k(0).tag != "else" && !s.k.is_empty() {
                    self.w(" ");
                    self.cond(k(0));
                    i = 1;
                }
                self.term(s.v);
                let mut any = false;
                for x in &s.k[i.min(s.k.len())..] {
                    if x.tag == "else" {
                        continue;
                    }
                    any = true;
                    let e = t("seq", 0, 0, vec![]);
                    self.w("when ");
                    let (b, conds) = if x.tag == "when" { (x.k.get(0).unwrap_or(&e), x.k.get(1..).unwrap_or(&[])) } else { (&e, std::slice::from_ref(x)) };
                    self.with(
                        |f| f.no_mul = true,
                        |m| {
                            if conds.is_empty() {
                                m.w("1");
                            }
                            for (j, c) in conds.iter().enumerate() {
                                if j > 0 {
                                    m.w(",");
                                    m.brk(x.v >> 1);
                                }
                                m.arg_or_splat(c);
                            }
                        },
                    );
                    self.then(x.v);
                    self.body_term(b, x.v >> 3);
                }
                if !any {
                    self.w("when 0");
                    self.nl(0);
                }
                if let Some(e) = s.k.iter().find(|x| x.tag == "else") {
                    self.w("else ");
                    self.body_term(e, e.v);
                }
                self.close(o, "end", "case");
            }
            "begin" => {
                let o = self.open("begin");
                self.term(s.v);
                self.begin_parts(&s.k, s.v >> 2);
                self.close(o, "end", "begin");
            }
            "def" => self.def(s),
            "class" | "module" | "sclass" => self.class(s),
            "alias" => {
                let (a, b) = (VARS[s.n as usize % VARS.len()], METHODS[s.v as usize % METHODS.len()]);
                match s.v % 3 {
                    0 => self.w(&format!("alias {} {}", a, b)),
                    1 => self.w(&format!("alias :{} :{}", a, b)),
                    _ => self.w(&format!("alias $g1 $g{}", s.n % 4)),
                }
            }
            "ret" | "brk" => {
                if s.tag == "brk" && !self.f.in_loop || s.tag == "ret" && !self.f.in_method {
                    return self.arg(k(0));
                }
                self.w(if s.tag == "ret" {
                    "return"
                } else if s.v & 1 == 0 {
                    "break"
                } else {
                    "next"
                });
                self.with(
                    |f| f.no_mul = true,
                    |m| {
                        for (i, x) in s.k.iter().enumerate() {
                            m.w(if i == 0 { " " } else { ", " });
                            m.arg_or_splat(x);
                        }
                    },
                );
            }
            "redo" => {
                if !self.f.in_loop {
                    return self.arg(k(0));
                }
                self.w("redo")
            }
            "yield" | "super" => {
                if !self.f.in_method {
                    return self.arg(k(0));
                }
                self.w(s.tag);
                if s.k.is_empty() {
                    return;
                }
                if s.v & 1 == 0 {
                    self.paren_args(&s.k, s.v >> 1, s.tag == "super");
                } else {
                    self.w(" ");
                    self.arg_list(&s.k, false, s.v, true, true);
                }
            }
            "seq" | "else" | "ens" => {
                // several statements where one is expected
                self.arg(s)
            }
            _ => self.open_arg(s),
        }
    }
    /// A statement that a modifier can follow.
    fn simple(&mut self, s: &T) {
        match s.tag {
            "asg" | "op" | "masg" | "iasg" | "casg" | "idxasg" | "attrasg" | "ret" | "brk" | "redo" | "yield" | "super" | "rcmd" => self.stmt(s),
            "cmd" | "begin" | "if" | "unless" => self.stmt(s),
            _ => self.arg(s),
        }
    }
    fn asg(&mut self, s: &T) {
        let name = self.name(s.n);
        let p = self.pos();
        self.w(&name);
        self.w(if s.v & 4 != 0 { "=" } else { " =" });
        self.brk(s.v);
        let rhs: Vec<T> = if s.k.is_empty() { vec![EMPTY.clone()] } else { s.k.clone() };
        self.forbidding(&[name.clone()], |m| {
            let many = rhs.len() > 1 && !m.f.no_mul;
            m.with(
                |f| f.no_mul = true,
                |m| {
                    for (i, x) in rhs.iter().enumerate() {
                        if i > 0 {
                            if !many {
                                break;
                            }
                            m.w(",");
                            m.brk(s.v >> 1);
                            m.arg_or_splat(x);
                        } else if many {
                            m.arg_or_splat(x);
                        } else {
                            m.value(x);
                        }
                    }
                },
            )
        });
        self.assign_ev(p, &name);
    }
    /// The right side of a single assignment: also what needs no parentheses there.
    fn value(&mut self, x: &T) {
        match x.tag {
            "if" | "unless" | "while" | "until" | "case" | "begin" | "for" if !self.f.pure_ && x.v & 1 == 0 => self.stmt(x),
            "cmd" if !self.f.pure_ && x.v & 1 == 0 => self.stmt(x),
            "asg" if !self.f.pure_ && x.v & 1 == 0 => self.stmt(x),
            _ => self.open_arg(x),
        }
    }
    fn target(&mut self, x: &T, forbid: &[String]) {
        let k = |i: usize| x.k.get(i).unwrap_or(&EMPTY);
        self.forbidding(forbid, |m| {
            m.with(
                |f| {
                    f.pure_ = true;
                    f.no_mul = true
                },
                |m| match x.tag {
                    "idx" => {
                        m.recv(k(0));
                        let o = m.open("[");
                        m.arg(k(1));
                        m.close(o, "]", "index");
                    }
                    "rcall" => {
                        m.recv(k(0));
                        m.w(&format!(".{}", VARS[x.n as usize % VARS.len()]));
                    }
                    "ivar" => m.w(&format!("@{}", VARS[x.n as usize % VARS.len()])),
                    _ => m.w(&format!("$g{}", x.n % 4)),
                },
            )
        })
    }
    fn masg(&mut self, s: &T) {
        let m = ((s.n % 8) as usize).min(s.k.len());
        let targets = &s.k[..m];
        let mut names: Vec<Option<String>> = vec![];
        for x in targets {
            names.push(if x.tag == "var" { Some(self.name(x.n)) } else { None });
        }
        // a, b, = 1
        let discard = s.v & 12 == 12;
        let lone = m == 1 && targets[0].tag == "var" && (s.v >> 4) as usize % 3 == 0;
        if m < 2 && !(m == 1 && discard) && !lone {
            return self.arg(s.k.last().unwrap_or(&EMPTY));
        }
        let all: Vec<String> = names.iter().flatten().cloned().collect();
        let splat = (s.v >> 4) as usize % (m + 2);
        let mut at = vec![];
        for (i, x) in targets.iter().enumerate() {
            if i > 0 {
                self.w(",");
                self.brk(s.v >> 2);
            }
            if i == splat && x.tag == "var" {
                self.w("*");
            }
            match &names[i] {
                Some(n) => {
                    if at.iter().any(|x: &(usize, String)| x.1 == *n) {
                        self.p.dups.push(n.clone());
                    }
                    at.push((self.pos(), n.clone()));
                    self.w(n);
                }
                None => self.target(x, &all),
            }
        }
        self.w(if discard { ", =" } else { " =" });
        self.brk(s.v);
        let rhs: Vec<T> = if s.k.len() > m { s.k[m..].to_vec() } else { vec![EMPTY.clone()] };
        let single = self.f.no_mul;
        self.forbidding(&all, |p| {
            p.with(
                |f| f.no_mul = true,
                |p| {
                    for (i, x) in rhs.iter().enumerate() {
                        if single {
                            p.arg(x);
                            break;
                        }
                        if i > 0 {
                            p.w(",");
                            p.brk(s.v >> 1);
                        }
                        p.arg_or_splat(x);
                    }
                },
            )
        });
        for (p, n) in at {
            self.assign_ev(p, &n);
        }
    }
    fn begin_parts(&mut self, k: &[T], v: u32) {
        let e = t("seq", 0, 0, vec![]);
        // `0 rescue` would be the modifier
        let m = if k.iter().any(|x| x.tag == "resc") { !0x13 } else { !3 };
        self.body_term(k.get(0).unwrap_or(&e), v & m);
        let mut any = false;
        for x in k.iter().skip(1) {
            if x.tag == "resc" {
                any = true;
                self.w("rescue");
                let ex = x.k.get(1..).unwrap_or(&[]);
                for (i, c) in ex.iter().enumerate() {
                    self.w(if i == 0 { " " } else { ", " });
                    self.with(
                        |f| {
                            f.pure_ = true;
                            f.no_mul = true
                        },
                        |m| m.prim(c),
                    );
                }
                if x.v & 4 != 0 {
                    self.w(" => ");
                    let n = self.name(x.n);
                    let p = self.pos();
                    self.w(&n);
                    self.assign_ev(p, &n);
                    self.then(x.v);
                } else if ex.is_empty() {
                    self.term(x.v);
                } else {
                    self.then(x.v);
                }
                self.body_term(x.k.get(0).unwrap_or(&e), x.v >> 3 & m);
            }
        }
        if any {
            if let Some(x) = k.iter().find(|x| x.tag == "else") {
                self.w("else ");
                self.body_term(x, x.v);
            }
        }
        if let Some(x) = k.iter().find(|x| x.tag == "ens") {
            self.w("ensure ");
            self.body_term(x, x.v);
        }
    }
    fn def(&mut self, s: &T) {
        let o = self.open("def");
        self.w(" ");
        let var = VARS[(s.n / 64) as usize % VARS.len()];
        match s.n % 12 {
            0 => self.w("self.f"),
            1 => {
                let n = self.name(s.n / 64);
                self.read(&n);
                self.w(if s.v & 1 == 0 { ".f" } else { ".f=" });
            }
            2 => self.w("A.f"),
            3 => self.w("@iv.f"),
            4 => self.w("+"),
            5 => self.w("[]"),
            6 => self.w(&format!("{}=", var)),
            7 => self.w("=="),
            8 => self.w("f?"),
            9 => self.w(DEFS[(s.n / 64 + s.v) as usize % DEFS.len()]),
            _ => self.w(if s.v & 1 == 0 { var } else { METHODS[(s.n / 64) as usize % METHODS.len()] }),
        }
        self.enter(Sk::Method);
        let e = t("params", 0, 0, vec![]);
        let (prm, rest) = match s.k.get(0) {
            Some(p) if p.tag == "params" => (p, &s.k[1..]),
            _ => (&e, &s.k[..]),
        };
        self.with(
            |f| {
                f.in_method = true;
                f.in_loop = false;
            },
            |m| {
                if prm.k.is_empty() {
                    if prm.v & 4 != 0 {
                        m.w("()");
                    }
                    m.term(prm.v);
                } else if prm.v & 1 == 0 {
                    let o = m.open("(");
                    m.params(prm, 0);
                    m.close(o, ")", "params");
                    if prm.v & 2 == 0 {
                        m.nl(prm.v >> 2)
                    } else {
                        m.w(" ")
                    }
                } else {
                    m.w(" ");
                    m.params(prm, 1);
                    m.nl(prm.v >> 2);
                }
                m.begin_parts(rest, s.v >> 2);
            },
        );
        self.exit();
        self.close(o, "end", "def");
    }
    fn class(&mut self, s: &T) {
        let k = |i: usize| s.k.get(i).unwrap_or(&EMPTY);
        if self.f.in_method && s.tag != "sclass" {
            return self.arg(k(0));
        }
        let o;
        match s.tag {
            "sclass" => {
                o = self.open("class");
                self.w(" << ");
                if s.v & 1 == 0 {
                    self.w("self")
                } else {
                    self.arg(k(0))
                }
            }
            "class" => {
                o = self.open("class");
                self.w(" ");
                self.w(["A", "Foo", "A::Bc", "::Top"][s.n as usize % 4]);
                if s.v & 1 == 1 {
                    self.w(" < ");
                    self.arg(k(0));
                }
            }
            _ => {
                o = self.open("module");
                self.w(" ");
                self.w(["M", "Foo", "A::Bc", "::Top"][s.n as usize % 4]);
            }
        }
        self.term(s.v >> 1);
        self.enter(Sk::Class);
        self.with(
            |f| {
                f.in_method = false;
                f.in_loop = false;
            },
            |m| m.begin_parts(s.k.get(1..).unwrap_or(&[]), s.v >> 3),
        );
        self.exit();
        self.close(o, "end", "class");
    }
    /// style: 0 def(..), 1 def without parentheses, 2 block, 3 lambda(..), 4 lambda without
    fn params(&mut self, p: &T, style: u32) {
        let order = |k: u32| match k {
            0 | 7 => 0, // required, destructured
            1 => 1,     // optional
            2 => 2,     // rest
            3 => 3,     // post
            4 => 4,     // keyword
            5 => 5,     // keyword rest
            _ => 6,     // block
        };
        let fwd = style == 0 && p.k.iter().any(|x| x.tag == "prm" && x.v == 8);
        let mut ps: Vec<&T> = p.k.iter().filter(|x| x.tag == "prm" && x.v <= 7).collect();
        ps.sort_by_key(|x| order(x.v));
        if style == 4 {
            ps.retain(|x| x.v == 0);
        }
        if fwd {
            ps.retain(|x| x.v == 0);
        }
        if style == 1 {
            ps.retain(|x| x.v != 7);
        }
        let mut used: Vec<String> = vec![];
        let mut kept: Vec<(&T, String)> = vec![];
        let (mut rest, mut kwrest, mut blk) = (false, false, false);
        for x in ps {
            let mut n = if x.n >= WIDE { x.n } else { x.n % 64 };
            if x.v == 2 || x.v == 5 || x.v == 6 {
                let f = match x.v {
                    2 => &mut rest,
                    5 => &mut kwrest,
                    _ => &mut blk,
                };
                if *f {
                    continue;
                }
                *f = true;
            }
            let mut name = var(n);
            let mut tries = 0;
            while used.contains(&name) && tries < VARS.len() {
                n += 1;
                tries += 1;
                name = var(n);
            }
            if used.contains(&name) {
                continue;
            }
            used.push(name.clone());
            kept.push((x, name));
        }
        let n = kept.len() + fwd as usize;
        for (i, (x, name)) in kept.iter().enumerate() {
            let last = i + 1 == n;
            match x.v {
                1 => {
                    self.w(name);
                    self.w(" = ");
                    self.default(x.k.get(0).unwrap_or(&EMPTY), name, style == 2);
                    self.param(name, Pk::Plain);
                }
                2 => {
                    self.w("*");
                    if x.n & 64 == 0 || style == 1 {
                        self.w(name);
                        self.param(name, Pk::Plain);
                    }
                }
                4 => {
                    self.w(name);
                    self.w(":");
                    // `|` would be read as an operator of the default
                    if let (Some(d), false) = (x.k.get(0), style == 2 && last) {
                        self.w(" ");
                        self.default(d, name, false);
                    }
                    self.param(name, Pk::Kw);
                }
                5 => {
                    self.w("**");
                    self.w(name);
                    self.param(name, Pk::KwRest);
                }
                6 => {
                    self.w("&");
                    self.w(name);
                    self.param(name, Pk::Blk);
                }
                7 => {
                    let o = self.open("(");
                    let (v0, v1) = (x.k.first().map_or(0, |y| y.v >> 2), x.k.last().map_or(0, |y| y.v >> 3));
                    self.gap(v0);
                    self.w(name);
                    self.param(name, Pk::Plain);
                    for y in &x.k {
                        let mut j = y.n;
                        let mut nm = var(j);
                        let mut tries = 0;
                        while used.contains(&nm) && tries < VARS.len() {
                            j += 1;
                            tries += 1;
                            nm = var(j);
                        }
                        if used.contains(&nm) {
                            continue;
                        }
                        used.push(nm.clone());
                        self.w(",");
                        self.brk(y.v);
                        self.w(&nm);
                        self.param(&nm, Pk::Plain);
                    }
                    if v1 & 0x30 == 0x20 {
                        self.w(",")
                    }
                    self.gap(v1);
                    self.close(o, ")", "destructuring");
                }
                _ => {
                    self.w(name);
                    self.param(name, Pk::Plain);
                }
            }
            if !last {
                self.w(",");
                if style == 1 || style == 4 {
                    self.w(" ")
                } else {
                    self.brk(p.v)
                }
            }
        }
        if fwd {
            self.w("...");
            self.p.evs.push(Ev::Forward);
            self.mark(8);
        }
    }
    fn param(&mut self, name: &str, k: Pk) {
        self.p.evs.push(Ev::Param(name.to_string(), k));
        self.scopes.last_mut().unwrap().1.push(name.to_string());
    }
    fn default(&mut self, d: &T, name: &str, primary: bool) {
        let n = self.forbid.len();
        // even if an outer variable of the name is visible: whether the default sees it or the
        // parameter is not what is checked here
        self.forbid.push(name.to_string());
        self.with(
            |f| f.pure_ = true,
            |m| {
                if primary && matches!(d.tag, "rcall" | "idx" | "const") {
                    let o = m.open("[");
                    m.prim(d);
                    m.close(o, "]", "array");
                } else if primary {
                    m.prim(d)
                } else {
                    m.arg(d)
                }
            },
        );
        self.forbid.truncate(n);
    }
    fn block(&mut self, b: &T) {
        let e = t("params", 0, 0, vec![]);
        let (prm, rest) = match b.k.get(0) {
            Some(p) if p.tag == "params" => (p, &b.k[1..]),
            _ => (&e, &b.k[..]),
        };
        let es = t("seq", 0, 0, vec![]);
        let do_ = b.v & 1 == 1 && !self.f.no_do;
        self.w(" ");
        let o = self.open(if do_ { "do" } else { "{" });
        self.enter(Sk::Block);
        self.with(
            |f| {
                f.in_loop = true;
                f.no_mul = false
            },
            |m| {
                if !prm.k.is_empty() {
                    m.mark(1);
                    m.w(" ");
                    let o = m.open("|");
                    m.params(prm, 2);
                    m.close(o, "|", "block params");
                }
                if b.v & 6 == 6 {
                    m.nl(b.v >> 3)
                } else {
                    m.w(" ")
                }
                if do_ {
                    m.begin_parts(rest, b.v >> 4);
                } else {
                    m.body(rest.get(0).unwrap_or(&es));
                    if b.v & 8 == 8 {
                        m.nl(b.v >> 5)
                    } else {
                        m.w(" ")
                    }
                }
            },
        );
        self.exit();
        self.close(o, if do_ { "end" } else { "}" }, "block");
    }

    // ---- argument lists
    fn cmd_args(&mut self, k: &[T], v: u32) {
        let (args, blk): (Vec<T>, Vec<T>) = k.iter().cloned().partition(|x| x.tag != "blk");
        if !args.is_empty() {
            self.w(" ");
            let quiet = blk.is_empty() || self.f.no_do;
            self.with(|f| f.no_barg |= !quiet, |m| m.arg_list(&args, false, v, true, quiet));
        }
        if let Some(b) = blk.first() {
            if args.is_empty() {
                self.block(b);
            } else if !self.f.no_do {
                let mut b = b.clone();
                b.v |= 1;
                self.block(&b);
            }
        }
    }
    fn paren_args(&mut self, k: &[T], v: u32, blk_ok: bool) {
        let (args, blk): (Vec<T>, Vec<T>) = k.iter().cloned().partition(|x| x.tag != "blk");
        let o = self.open("(");
        if v & 0x700 == 0x700 && self.can_nl() {
            self.nl(v >> 2);
        }
        let b = blk.first().filter(|_| blk_ok && !self.f.pure_);
        self.arg_list(&args, true, v, false, b.is_none());
        self.close(o, ")", "arguments");
        if let Some(b) = b {
            self.block(b)
        }
    }
    /// `first`: the first argument follows a method name and a blank.
    fn arg_list(&mut self, args: &[T], paren: bool, v: u32, first: bool, barg: bool) {
        let mut pos: Vec<&T> = vec![];
        let (mut kw, mut hs, mut bl) = (vec![], vec![], vec![]);
        for a in args {
            match a.tag {
                "karg" | "dsarg" => kw.push(a),
                "harg" => hs.push(a),
                "barg" => bl.push(a),
                "blk" => {}
                _ => pos.push(a),
            }
        }
        if !kw.is_empty() || !bl.is_empty() {
            hs.clear();
        }
        if !barg || self.f.no_barg {
            bl.clear();
        }
        bl.truncate(1);
        if first && pos.is_empty() && kw.first().map_or(false, |a| a.tag == "dsarg") {
            pos.push(&EMPTY); // `**` after a blank is read as an operator
        }
        let mut list: Vec<&T> = pos;
        list.extend(kw);
        list.extend(hs);
        list.extend(bl);
        if list.is_empty() && first {
            self.w("1");
        }
        let n = list.len();
        for (i, a) in list.iter().enumerate() {
            let k = |i: usize| a.k.get(i).unwrap_or(&EMPTY);
            match a.tag {
                "splat" => {
                    self.w("*");
                    self.prim(k(0));
                }
                "karg" => {
                    let n = VARS[a.n as usize % VARS.len()];
                    self.w(n);
                    self.w(":");
                    self.brk(a.v);
                    self.arg(k(0));
                }
                "dsarg" => {
                    self.w("**");
                    self.prim(k(0));
                }
                "harg" => {
                    if first && i == 0 {
                        self.first_arg(k(0), true)
                    } else {
                        self.prim(k(0))
                    }
                    self.w(" => ");
                    self.arg(k(1));
                }
                "barg" => {
                    self.w("&");
                    self.prim(k(0));
                }
                _ if first && i == 0 => self.first_arg(a, false),
                _ => self.arg(a),
            }
            if i + 1 < n {
                self.w(",");
                self.brk(v >> 1);
            } else if paren && v & 0x38 == 0x38 && a.tag != "barg" {
                self.w(",");
                self.brk(v >> 1);
            }
        }
    }
    /// A term after a method name and a blank: in brackets if its first character would make it
    /// read as something else than an argument.
    fn first_arg(&mut self, a: &T, prim: bool) {
        let save = self.clone();
        let start = self.pos();
        self.with(|f| f.no_mul = true, |m| if prim { m.prim(a) } else { m.arg(a) });
        let c = self.p.text[start..].chars().next().unwrap_or(' ');
        if matches!(c, '{' | '!' | '~' | '?' | '-' | '+' | '(') && !self.p.text[start..].starts_with("->") {
            *self = save;
            let o = self.open("[");
            self.with(|f| f.no_mul = true, |m| if prim { m.prim(a) } else { m.arg(a) });
            self.close(o, "]", "array");
        }
    }
    fn arg_or_splat(&mut self, x: &T) {
        if x.tag == "splat" {
            self.w("*");
            self.prim(x.k.get(0).unwrap_or(&EMPTY))
        } else {
            self.arg(x)
        }
    }

    // ---- expressions
    fn cond(&mut self, c: &T) {
        let k = |i: usize| c.k.get(i).unwrap_or(&EMPTY);
        match c.tag {
            "logic" if !self.f.pure_ => {
                self.arg(k(0));
                self.w(if c.v & 1 == 0 { " and" } else { " or" });
                self.brk(c.v);
                self.arg(k(1));
            }
            "asg" if c.k.len() <= 1 && !self.f.pure_ => self.asg(c),
            _ => self.arg(c),
        }
    }
    /// An expression which may end in an assignment: nothing that belongs elsewhere follows.
    fn open_arg(&mut self, a: &T) {
        self.acc = true;
        self.arg(a);
        self.acc = false;
    }
    fn arg(&mut self, a: &T) {
        let acc = std::mem::take(&mut self.acc);
        let k = |i: usize| a.k.get(i).unwrap_or(&EMPTY);
        match a.tag {
            "bin" => {
                if a.k.is_empty() {
                    return self.prim(&EMPTY);
                }
                let mut h = a.n as usize + 7 * a.v as usize;
                let cmp_at = if a.v & 3 == 1 { h % a.k.len().max(1) } else { 0 };
                for (i, x) in a.k.iter().enumerate() {
                    let last = acc && i > 0 && i + 1 == a.k.len() && x.tag == "asg" && x.v & 1 == 0 && !x.k.is_empty() && !self.f.pure_;
                    if i > 0 {
                        h = h.wrapping_mul(31) / 3 + i;
                        let mut op = if i == cmp_at { CMPS[h % CMPS.len()] } else { OPS[h % OPS.len()] };
                        if last && op == "**" {
                            op = "+"
                        }
                        self.w(" ");
                        self.w(op);
                        self.brk(a.v >> (i % 3));
                    }
                    if last {
                        let name = self.name(x.n);
                        let p = self.pos();
                        self.w(&name);
                        self.w(" =");
                        self.brk(x.v);
                        self.forbidding(&[name.clone()], |m| m.with(|f| f.no_mul = true, |m| m.arg(&x.k[0])));
                        self.assign_ev(p, &name);
                    } else if i > 0 || x.tag != "neg" {
                        self.prim(x)
                    } else {
                        self.arg(x)
                    }
                }
            }
            "tern" => {
                self.prim(k(0));
                self.w(" ?");
                self.brk(a.v);
                self.prim(k(1));
                self.w(" :");
                self.brk(a.v >> 2);
                self.prim(k(2));
            }
            "rng" => {
                self.prim(k(0));
                self.w(if a.v & 1 == 0 { " .." } else { " ..." });
                self.brk(a.v);
                self.prim(k(1));
            }
            "not" => {
                self.w(["!", "!", "~", "+", "!!"][a.v as usize % 5]);
                self.prim(k(0));
            }
            "neg" => {
                self.w("-");
                // a number after the sign is a literal of its own
                if matches!(k(0).tag, "int" | "flt") {
                    let l = if k(0).tag == "int" { INTS } else { FLTS };
                    self.w(l[k(0).n as usize % l.len()])
                } else {
                    self.prim(k(0));
                }
            }
            "splat" => self.arg(k(0)),
            _ => self.prim(a),
        }
    }
    fn recv(&mut self, x: &T) {
        match x.tag {
            "var" | "const" | "ivar" | "gvar" | "call" | "rcall" | "idx" | "str" | "sqs" | "dstr" | "arr" | "paren" | "sym" | "kwd" | "pw" | "hd" => self.prim(x),
            _ => {
                let o = self.open("(");
                self.with(|f| f.no_mul = false, |m| if m.f.pure_ { m.arg(x) } else { m.stmt(x) });
                self.close(o, ")", "paren");
            }
        }
    }
    fn prim(&mut self, x: &T) {
        let k = |i: usize| x.k.get(i).unwrap_or(&EMPTY);
        let n = x.n as usize;
        match x.tag {
            "int" => self.w(INTS[n % INTS.len()]),
            "flt" => self.w(FLTS[n % FLTS.len()]),
            "str" => self.dstr("\"", "\"", &[t("txt", 0, x.n, vec![]), t("txt", 0, x.v, vec![])], x.v, "string"),
            "sqs" => {
                let o = self.open("'");
                self.w(STXT[n % STXT.len()]);
                if x.v & 3 == 3 {
                    self.feed(["\n", "\\\n"][x.v as usize >> 2 & 1]);
                }
                self.w(STXT[x.v as usize % STXT.len()]);
                self.close(o, "'", "string");
            }
            "dstr" => {
                if x.v & 0x70 == 0x60 {
                    let (q, o) = if x.v & 1 == 0 { ("\"", self.open("\"")) } else { ("'", self.open("'")) };
                    self.w("adj");
                    self.close(o, q, "string");
                    self.w(if x.v & 2 == 0 { " " } else { "" });
                }
                self.dstr("\"", "\"", &x.k, x.v, "string");
                if x.v & 0x70 == 0x70 {
                    self.w(" ");
                    let o = self.open("'");
                    self.w("adj");
                    self.close(o, "'", "string");
                }
            }
            "dsym" => self.dstr(":\"", "\"", &x.k, x.v, "symbol"),
            "xstr" => self.dstr("`", "`", &x.k, x.v, "command"),
            "sym" => {
                let s = VARS[n % VARS.len()];
                match x.v % 5 {
                    0 | 1 => self.w(&format!(":{}", s)),
                    2 => self.w(SYMS[(x.v / 5) as usize % SYMS.len()]),
                    3 => self.w(":@iv"),
                    _ => {
                        let o = self.open(":\"");
                        self.w("s t");
                        self.close(o, "\"", "symbol");
                    }
                }
            }
            "rx" => {
                let o = self.open("/");
                self.w(RTXT[n % RTXT.len()]);
                if x.v & 0xe0 == 0xe0 {
                    self.feed(["\n", "\\\n"][x.v as usize >> 8 & 1]);
                }
                self.w(RTXT[x.v as usize % RTXT.len()]);
                self.close(o, "/", "regexp");
                self.w(["", "i", "mx", "o"][x.v as usize % 4]);
            }
            "drx" => {
                let o = self.open("/");
                self.w("x");
                for p in &x.k {
                    if p.tag == "txt" {
                        self.w(RTXT[p.n as usize % RTXT.len()])
                    } else {
                        self.interp(p)
                    }
                }
                self.close(o, "/", "regexp");
            }
            "pw" => {
                let (a, b) = [("%w(", ")"), ("%w[", "]"), ("%i{", "}"), ("%w!", "!"), ("%i<", ">")][x.v as usize % 5];
                let o = self.open(a);
                self.w("a");
                if x.v & 0x60 == 0x60 {
                    self.feed("\n")
                } else {
                    self.w(" ")
                }
                self.w("b日 end");
                self.close(o, b, "percent");
            }
            "pq" => {
                let (a, b) = [("%q(", ")"), ("%r{", "}"), ("%q|", "|"), ("%(", ")"), ("%q<", ">")][x.v as usize % 5];
                let o = self.open(a);
                self.w("a b");
                if x.v & 0x40 != 0 && b != "|" {
                    self.w(&format!(" {}x{} ", a.chars().last().unwrap(), b));
                }
                if x.v & 0x180 == 0x180 {
                    self.feed("\n");
                }
                self.w("end 'q");
                self.close(o, b, "percent");
            }
            "pbig" => {
                let (a, b) = [("%Q[", "]"), ("%|", "|"), ("%Q!", "!"), ("%{", "}")][x.v as usize % 4];
                self.dstr(a, b, &x.k, x.v, "percent");
            }
            "chr" => self.w(["?a", "?\\n", "?あ", "?(", "?Z"][n % 5]),
            "kwd" => self.w(["nil", "true", "self", "false"][n % 4]),
            "const" => self.w(CONSTS[n % CONSTS.len()]),
            "ivar" => self.w(&format!("@{}", VARS[n % VARS.len()])),
            "cvar" => self.w(&format!("@@{}", VARS[n % VARS.len()])),
            "gvar" => self.w(GVARS[(n + 7 * (x.v as usize >> 2)) % GVARS.len()]),
            "var" if x.v & 0x1c0 == 0x1c0 && self.numbered() => {
                let a = ["_1", "_1", "_2", "_9"][(x.v >> 9) as usize % 4];
                match x.v & 7 {
                    0..=2 => {
                        let o = self.open("[");
                        self.w(a);
                        self.close(o, "]", "array");
                    }
                    3 | 4 => {
                        let o = self.open("(");
                        self.w(&format!("{} + 1", a));
                        self.close(o, ")", "paren");
                    }
                    _ => self.w(&format!("{}.m0", a)),
                }
            }
            "var" => {
                let s = self.name(x.n);
                self.read(&s);
            }
            "arr" => {
                let o = self.open("[");
                self.with(
                    |f| f.no_mul = true,
                    |m| {
                        if x.v & 0x1c == 0x1c && m.can_nl() {
                            m.nl(x.v >> 3)
                        }
                        for (i, e) in x.k.iter().enumerate() {
                            if i > 0 {
                                m.w(",");
                                m.brk(x.v);
                            }
                            m.arg_or_splat(e);
                        }
                        if x.v & 0x1c == 0x1c && m.can_nl() {
                            m.nl(x.v >> 4)
                        }
                    },
                );
                self.close(o, "]", "array");
            }
            "hash" => {
                let o = self.open("{");
                if x.v & 4 == 4 {
                    self.w(" ")
                }
                for (i, e) in x.k.iter().enumerate() {
                    if i > 0 {
                        self.w(",");
                        self.brk(x.v);
                    }
                    let (key, val) = if e.tag == "pair" { (e.k.get(0).unwrap_or(&EMPTY), e.k.get(1).unwrap_or(&EMPTY)) } else { (e, &EMPTY) };
                    match e.v % 3 {
                        0 => {
                            if e.v & 0x30 == 0x30 {
                                self.w(KEYS[e.n as usize % KEYS.len()]);
                            } else {
                                self.w(VARS[e.n as usize % VARS.len()]);
                            }
                            self.w(":");
                            self.brk(e.v);
                        }
                        _ => {
                            if key.tag == "bin" {
                                self.arg(key)
                            } else {
                                self.prim(key)
                            }
                            self.w(" =>");
                            self.brk(e.v);
                        }
                    }
                    self.arg(val);
                }
                self.close(o, "}", "hash");
            }
            "defd" => {
                if x.v & 3 == 3 {
                    let o = self.open("(");
                    self.w("defined? ");
                    self.with(|f| f.pure_ = true, |m| m.prim(k(0)));
                    self.close(o, ")", "paren");
                } else {
                    let o = self.open("defined?(");
                    self.with(|f| f.pure_ = true, |m| m.arg(k(0)));
                    self.close(o, ")", "paren");
                }
            }
            "idx" => {
                self.recv(k(0));
                self.with(
                    |f| f.no_mul = true,
                    |m| {
                        let o = m.open("[");
                        if x.k.len() < 2 {
                            m.w("0");
                        }
                        for (i, e) in x.k.iter().skip(1).enumerate() {
                            if i > 0 {
                                m.w(", ");
                            }
                            m.arg_or_splat(e);
                        }
                        m.close(o, "]", "index");
                    },
                );
            }
            "call" => {
                self.w(METHODS[n % METHODS.len()]);
                if x.v & 0xc0 == 0xc0 && self.forwards() {
                    let o = self.open("(");
                    if let Some(a) = x.k.first().filter(|a| !matches!(a.tag, "splat" | "karg" | "harg" | "dsarg" | "barg" | "blk")) {
                        self.arg(a);
                        self.w(", ");
                    }
                    self.w("...");
                    self.close(o, ")", "arguments");
                    return;
                }
                self.paren_args(&x.k, x.v, true);
            }
            "rcall" => {
                self.recv(k(0));
                match x.v & 15 {
                    0..=7 => {
                        if x.v & 0x300 == 0x300 && !self.f.quoted && self.pend.is_empty() {
                            // the dot may stand on the next line
                            self.w(["\n", "\n  ", " # c\n", "\n\n"][(x.v >> 10) as usize % 4]);
                            let e = self.p.text.rfind('\n').unwrap();
                            self.p.soft.push(e + 1);
                            if self.p.text[..e].ends_with('\n') {
                                self.p.soft.push(e);
                            }
                        }
                        self.w(".")
                    }
                    8..=10 => self.w("&."),
                    11 | 12 => self.w("::"),
                    _ => {
                        self.w(".");
                        if self.can_nl() && !self.f.quoted {
                            self.nl(0);
                        }
                    }
                }
                // a method may be named like a variable
                let rest = x.k.get(1..).unwrap_or(&[]);
                if x.v & 0xe00 == 0xe00 && x.v & 15 <= 12 {
                    self.paren_args(rest, x.v, true);
                    return;
                }
                let name = if x.v & 16 != 0 { VARS[n % VARS.len()] } else { METHODS[n % METHODS.len()] };
                self.w(name);
                let args = rest.iter().any(|a| a.tag != "blk");
                if args || x.v & 32 != 0 {
                    self.paren_args(rest, x.v, true);
                } else if let (Some(b), false) = (rest.first(), self.f.pure_) {
                    self.block(b)
                }
            }
            _ if self.f.pure_ => self.w("nil"),
            "hd" => self.heredoc(x),
            "paren" => {
                let o = self.open("(");
                self.with(|f| f.no_mul = false, |m| {
                    m.body(x);
                    if x.k.is_empty() {
                        m.w("0");
                    }
                    if x.v & 0x18 == 0x18 {
                        m.nl(x.v >> 2)
                    }
                });
                self.close(o, ")", "paren");
            }
            "lam" => {
                self.w("->");
                let e = t("params", 0, 0, vec![]);
                let es = t("seq", 0, 0, vec![]);
                let (prm, rest) = match x.k.get(0) {
                    Some(p) if p.tag == "params" => (p, &x.k[1..]),
                    _ => (&e, &x.k[..]),
                };
                self.enter(Sk::Block);
                let bare_ok = prm.k.iter().any(|p| p.tag == "prm" && p.v == 0);
                if !prm.k.is_empty() {
                    self.mark(1);
                    if prm.v & 3 == 3 && bare_ok {
                        self.w(" ");
                        self.params(prm, 4);
                    } else {
                        let o = self.open("(");
                        self.params(prm, 3);
                        self.close(o, ")", "params");
                    }
                }
                self.w(" ");
                let do_ = x.v & 5 == 5 && !self.f.no_do;
                let o = self.open(if do_ { "do" } else { "{" });
                self.with(|f| f.in_loop = true, |m| {
                    m.w(" ");
                    m.body_term(rest.get(0).unwrap_or(&es), x.v >> 3);
                });
                self.exit();
                self.close(o, if do_ { "end" } else { "}" }, "lambda");
            }
            _ => {
                // anything else in parentheses
                let o = self.open("(");
                self.with(
                    |f| f.no_mul = false,
                    |m| {
                        if matches!(x.tag, "seq" | "else" | "ens") {
                            m.body(x);
                            if x.k.is_empty() {
                                m.w("0");
                            }
                        } else if matches!(x.tag, "bin" | "tern" | "rng" | "not" | "neg") {
                            m.arg(x)
                        } else if matches!(x.tag, "prm" | "params" | "pair" | "blk" | "txt" | "karg" | "harg" | "dsarg" | "barg" | "when" | "resc" | "splat") {
                            m.w("0")
                        } else {
                            m.stmt(x)
                        }
                    },
                );
                self.close(o, ")", "paren");
            }
        }
    }
    fn interp(&mut self, p: &T) {
        let o = self.open("#{");
        self.with(
            |f| f.quoted = true,
            |m| {
                if p.v & 12 == 12 && m.can_nl() {
                    m.feed("\n")
                }
                if m.f.pure_ {
                    m.arg(Self::items(p).first().unwrap_or(&&EMPTY));
                } else {
                    m.body(p);
                }
            },
        );
        self.close(o, "}", "interpolation");
    }
    fn dstr(&mut self, a: &str, b: &str, parts: &[T], v: u32, kind: &'static str) {
        let o = self.open(a);
        for (i, p) in parts.iter().enumerate() {
            if p.tag == "txt" {
                let s = DTXT[p.n as usize % DTXT.len()];
                if s.contains(b) && b != "\"" || s.contains('\\') && b == "`" {
                    self.w("t")
                } else if s.ends_with('\n') {
                    self.feed(s)
                } else {
                    self.w(s)
                }
                if v >> i & 9 == 9 {
                    self.feed("\n");
                }
            } else {
                self.interp(p)
            }
        }
        self.close(o, b, kind);
    }
    fn heredoc(&mut self, x: &T) {
        if self.f.quoted {
            return self.dstr("\"", "\"", &x.k, 0, "string");
        }
        let id = HEREDOC_IDS[x.n as usize % 4];
        let sign = ["", "-", "~"][x.v as usize % 3];
        let (q, raw) = [("", false), ("\"", false), ("'", true), ("`", false)][(x.v >> 2) as usize % 4];
        let o = self.open(&format!("<<{}{}{}{}", sign, q, id, q));
        let text = std::mem::take(&mut self.p.text);
        let pend = std::mem::take(&mut self.pend);
        let (e0, s0) = (self.p.evs.len(), self.p.spans.len());
        let old = self.f;
        self.f.quoted = true;
        self.f.no_do = false;
        self.f.no_mul = false;
        for (i, p) in x.k.iter().enumerate() {
            let line = HTXT[p.n as usize % HTXT.len()];
            if p.tag == "txt" || raw {
                self.w(if line == id || q == "`" && line.contains('`') { "x" } else { line });
                if raw && p.n & 1 == 1 {
                    self.w(" #{a}");
                }
            } else {
                if p.v & 1 == 1 {
                    self.w("é ");
                }
                self.interp(p);
            }
            if i & 1 == (x.v >> 5) as usize & 1 || raw {
                self.w("\n");
            } else {
                self.w(".");
            }
        }
        if !self.p.text.is_empty() && !self.p.text.ends_with('\n') {
            self.w("\n");
        }
        if !sign.is_empty() && x.v & 16 != 0 {
            self.w("  ");
        }
        self.w(id);
        self.w("\n");
        self.f = old;
        let body = std::mem::replace(&mut self.p.text, text);
        self.pend = pend;
        self.pend.push(Pending { body, evs: e0..self.p.evs.len(), spans: s0..self.p.spans.len(), open: o });
    }
}
