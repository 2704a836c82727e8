//! Reads the `{:?}` output of a result as a tree. The debug output is public and is also what the
//! command prints, so checks read results through it.
#[derive(Debug, Clone, PartialEq)]
pub enum V {
    /// Name, positional values
    Tup(String, Vec<V>),
    /// Name, named values
    Rec(String, Vec<(String, V)>),
    List(Vec<V>),
    Str(String),
    Atom(String),
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && (self.b[self.i] as char).is_ascii_whitespace() {
            self.i += 1
        }
    }
    fn at(&mut self, c: u8) -> bool {
        self.ws();
        if self.i < self.b.len() && self.b[self.i] == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn items(&mut self, close: u8) -> Option<Vec<V>> {
        let mut v = vec![];
        loop {
            if self.at(close) {
                return Some(v);
            }
            v.push(self.value()?);
            if !self.at(b',') {
                return if self.at(close) { Some(v) } else { None };
            }
        }
    }
    fn value(&mut self) -> Option<V> {
        self.ws();
        match *self.b.get(self.i)? {
            b'"' => self.string(),
            b'\'' => {
                let s = self.i;
                self.i += 1;
                while *self.b.get(self.i)? != b'\'' {
                    self.i += if self.b[self.i] == b'\\' { 2 } else { 1 };
                }
                self.i += 1;
                Some(V::Atom(String::from_utf8_lossy(&self.b[s..self.i]).into_owned()))
            }
            b'[' => {
                self.i += 1;
                Some(V::List(self.items(b']')?))
            }
            b'(' => {
                self.i += 1;
                Some(V::Tup(String::new(), self.items(b')')?))
            }
            _ => {
                let s = self.i;
                while self.i < self.b.len() && !b" ,()[]{}\"".contains(&self.b[self.i]) {
                    self.i += 1
                }
                if s == self.i {
                    return None;
                }
                let n = String::from_utf8_lossy(&self.b[s..self.i]).trim_end_matches(':').to_string();
                if self.i < self.b.len() && self.b[self.i] == b'(' {
                    self.i += 1;
                    return Some(V::Tup(n, self.items(b')')?));
                }
                let save = self.i;
                if self.at(b'{') {
                    let mut f = vec![];
                    loop {
                        if self.at(b'}') {
                            return Some(V::Rec(n, f));
                        }
                        self.ws();
                        let s = self.i;
                        while self.i < self.b.len() && (self.b[self.i].is_ascii_alphanumeric() || self.b[self.i] == b'_') {
                            self.i += 1
                        }
                        let k = String::from_utf8_lossy(&self.b[s..self.i]).into_owned();
                        if !self.at(b':') {
                            return None;
                        }
                        f.push((k, self.value()?));
                        if !self.at(b',') {
                            return if self.at(b'}') { Some(V::Rec(n, f)) } else { None };
                        }
                    }
                }
                self.i = save;
                Some(V::Atom(n))
            }
        }
    }
    fn string(&mut self) -> Option<V> {
        let s = std::str::from_utf8(self.b).ok()?;
        let mut o = String::new();
        let mut it = s[self.i + 1..].char_indices();
        while let Some((k, c)) = it.next() {
            match c {
                '"' => {
                    self.i += 1 + k + 1;
                    return Some(V::Str(o));
                }
                '\\' => match it.next()?.1 {
                    'n' => o.push('\n'),
                    't' => o.push('\t'),
                    'r' => o.push('\r'),
                    '0' => o.push('\0'),
                    'u' => {
                        it.next();
                        let mut h = String::new();
                        loop {
                            let c = it.next()?.1;
                            if c == '}' {
                                break;
                            }
                            h.push(c)
                        }
                        o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?)
                    }
                    c => o.push(c),
                },
                c => o.push(c),
            }
        }
        None
    }
}

pub fn parse(s: &str) -> Option<V> {
    let mut p = P { b: s.as_bytes(), i: 0 };
    let v = p.value()?;
    p.ws();
    if p.i == p.b.len() {
        Some(v)
    } else {
        None
    }
}

impl V {
    pub fn get(&self, k: &str) -> Option<&V> {
        match self {
            V::Rec(_, f) => f.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn name(&self) -> &str {
        match self {
            V::Tup(n, _) | V::Rec(n, _) | V::Atom(n) => n,
            _ => "",
        }
    }
    pub fn args(&self) -> &[V] {
        match self {
            V::Tup(_, a) | V::List(a) => a,
            _ => &[],
        }
    }
    pub fn num(&self) -> Option<usize> {
        match self {
            V::Atom(a) => a.parse().ok(),
            _ => None,
        }
    }
    pub fn text(&self) -> Option<&str> {
        match self {
            V::Str(s) => Some(s),
            _ => None,
        }
    }
    /// (start, end) of a Loc(a, b)
    pub fn as_loc(&self) -> Option<(usize, usize)> {
        match self {
            V::Tup(n, a) if n == "Loc" && a.len() == 2 => Some((a[0].num()?, a[1].num()?)),
            _ => None,
        }
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a V)) {
        f(self);
        match self {
            V::Tup(_, a) | V::List(a) => a.iter().for_each(|v| v.walk(f)),
            V::Rec(_, a) => a.iter().for_each(|v| v.1.walk(f)),
            _ => {}
        }
    }
    /// Adds `by` to both ends of every Loc.
    pub fn shift(&mut self, by: i64) {
        match self {
            V::Tup(n, a) if n == "Loc" && a.len() == 2 => {
                for x in a {
                    if let Some(k) = x.num() {
                        *x = V::Atom((k as i64 + by).to_string())
                    }
                }
            }
            V::Tup(_, a) | V::List(a) => a.iter_mut().for_each(|v| v.shift(by)),
            V::Rec(_, a) => a.iter_mut().for_each(|v| v.1.shift(by)),
            _ => {}
        }
    }
    pub fn text_form(&self) -> String {
        match self {
            V::Tup(n, a) => format!("{}({})", n, a.iter().map(|v| v.text_form()).collect::<Vec<_>>().join(", ")),
            V::Rec(n, a) => format!("{} {{ {} }}", n, a.iter().map(|(k, v)| format!("{}: {}", k, v.text_form())).collect::<Vec<_>>().join(", ")),
            V::List(a) => format!("[{}]", a.iter().map(|v| v.text_form()).collect::<Vec<_>>().join(", ")),
            V::Str(s) => format!("{:?}", s),
            V::Atom(s) => s.clone(),
        }
    }
}
