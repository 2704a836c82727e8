//! What storage and transport do to a text.
use crate::case::Op;
use crate::driver::Stats;
use crate::rng::Rng;

pub const KINDS: &[&str] = &["trunc", "lose", "dup", "swap", "flip", "zero", "torn", "stale", "junk", "head"];

/// Characters likely to change the meaning of what follows.
pub const JUNK: &[&str] = &[
    "\"", "'", "`", "/", "%", "#{", "}", "{", "(", ")", "[", "]", "|", "\\", "\n", "<<A", "<<-\"", "<<~'", "?", ":", "::", "@", "@@", "$", "_1", "é", "日", "²", "٣", "\u{feff}", "\0", "\r\n", "=begin\n", "end", " do |", "def ", "%w(", "%i[", "%r{", "%q", "0x", "0b", "0o", "1e", "9999999999999999999999", "\\u{", "\\x", "\\u", "\\777", "&.", "..", "...", "**", "->", "=>", ",", ";", "*", "&", "!", "~", "-", "=", "<", "class ", "begin ", "rescue ", "when ", "else ", "if ", "__LINE__", "__FILE__", "#$", "#@", "#@@x", "#$1", "{|", "(a,", "$99999999999", "\t", "_9", "2i", "-2i", "\u{301}", "👍🏽",
];

fn pos(r: &mut Rng, b: &[u8]) -> usize {
    if b.is_empty() {
        return 0;
    }
    // half of the time near something that is not a letter
    let p = r.below(b.len() + 1);
    if r.chance(1, 2) {
        let mut q = p;
        while q < b.len() && (b[q].is_ascii_alphanumeric() || b[q] == b' ') {
            q += 1
        }
        return (q + r.below(2)).min(b.len());
    }
    p
}

/// Draws one fault for a text of this content.
pub fn draw(r: &mut Rng, b: &[u8], others: &[&[u8]]) -> Op {
    let k = *r.pick(KINDS);
    let (p, q) = (pos(r, b) as i64, pos(r, b) as i64);
    let n = r.size(64) as i64 + 1;
    match k {
        "trunc" | "head" => crate::case::op(k, &[p], &[]),
        "lose" | "dup" | "zero" => crate::case::op(k, &[p, n], &[]),
        "swap" => crate::case::op(k, &[p, q, n], &[]),
        "flip" => crate::case::op(k, &[p, r.below(8) as i64], &[]),
        "torn" | "stale" => {
            let o = *r.pick(others);
            let s = r.below(o.len() + 1);
            let e = (s + r.size(200)).min(o.len());
            crate::case::op(k, &[p], &[&o[s..e]])
        }
        _ => {
            let mut s = vec![];
            for _ in 0..r.range(1, 3) {
                s.extend_from_slice(r.pick(JUNK).as_bytes());
            }
            crate::case::op("junk", &[p], &[&s])
        }
    }
}

/// Applies a fault; returns false when the operation is not a fault.
pub fn apply(o: &Op, b: &mut Vec<u8>, st: &mut Stats) -> bool {
    let len = b.len();
    let p = o.uint(0).min(len);
    let before = b.clone();
    match o.name.as_str() {
        "trunc" => b.truncate(p),
        "head" => {
            b.drain(..p);
        }
        "lose" => {
            b.drain(p..(p + o.uint(1)).min(len));
        }
        "dup" => {
            let s = b[p..(p + o.uint(1)).min(len)].to_vec();
            b.splice(p..p, s);
        }
        "zero" => {
            let e = (p + o.uint(1)).min(len);
            b[p..e].iter_mut().for_each(|c| *c = 0);
        }
        "swap" => {
            let n = o.uint(2);
            let q = o.uint(1).min(len);
            let (x, y) = (p.min(q), p.max(q));
            let n = n.min(y - x).min(len - y);
            for i in 0..n {
                b.swap(x + i, y + i);
            }
        }
        "flip" => {
            if p < len {
                b[p] ^= 1 << (o.uint(1) & 7);
            }
        }
        // a block of another version written over the old one, or the rest of one after a tear
        "stale" => {
            let s = o.bytes(0);
            let e = (p + s.len()).min(len);
            b.splice(p..e, s.iter().copied());
        }
        "torn" => {
            b.truncate(p);
            b.extend_from_slice(o.bytes(0));
        }
        "junk" => {
            let s = o.bytes(0).to_vec();
            b.splice(p..p, s);
        }
        _ => return false,
    }
    if *b != before {
        st.inc(&format!("fault {}", o.name));
    }
    true
}

/// What a reader sees: invalid sequences become replacement characters.
pub fn decode(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

/// Lines that stand anywhere and whose meaning depends on something outside the line.
pub const LINES: &[&str] = &[
    "__FILE__", "x = __LINE__", "p __FILE__, __LINE__", "require __FILE__", "def kw(a: 1, b:, c: 2, d: 3, e: 4, f: 5, **o) end", "f(k1: 1, k2: 2, k3: 3, k4: 4, k5: 5)",
    "h = {z: 1, y: 2, x: 3, w: 4, v: 5, u: 6, t: 7}", "->(a, b = 1, *c, d, e: 1, f:, **g, &h) { a }", "$0", "p $0, $:, $\"", "a12 = a21 = a", "case v when 1, 2, 3, 4, 5, 6, 7 then 8 end", "a, = 1, 2", "b = 1 + x = 3",
    "foo { _1 + _2 }", "_1", "_2 + a { _1 }", "a { b; _1 }", "a { _2; b { _1 } }", "a { |x| _1 }", "foo { |a; b, c| it }", "defined?(it)", "self.x = it", "nil", "true && false", "[self, nil, true, false]", "i = 1_0 + 2_00", "1i + 0.5i", "?a + ?\\u3042", "alias f g", "undef f", "BEGIN { }", "__ENCODING__", "__dir__", "__method__",
    "x = <<A + <<B\n1\nA\n2\nB", "%w(a b c d e f g h)", "\"#{__FILE__}\"", "retry", "redo", "next", "yield 1", "begin; rescue A, B => e; end",
];

/// Inserts one of these lines before some line.
pub fn insert_line(r: &mut Rng, b: &mut Vec<u8>) {
    let starts: Vec<usize> = std::iter::once(0).chain(b.iter().enumerate().filter(|(_, c)| **c == b'\n').map(|(i, _)| i + 1)).collect();
    let p = *r.pick(&starts);
    let l = format!("{}\n", r.pick(LINES));
    b.splice(p..p, l.bytes());
}

fn name(r: &mut Rng) -> String {
    const FIRST: &[&str] = &["a", "z", "_", "__", "é", "日", "A", "É", "ａ", "x", "_"];
    const REST: &[&str] = &["", "a", "1", "9", "_", "é", "日", "Z", "\u{10ffff}", "٣", "12", "end", "if", "nil"];
    let mut s = r.pick(FIRST).to_string();
    for _ in 0..*r.pick(&[0usize, 1, 1, 2, 3, 70]) {
        s.push_str(r.pick(REST));
    }
    s
}

/// Gives every occurrence of some word another name.
pub fn rename(r: &mut Rng, b: &mut Vec<u8>) {
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c >= 128;
    let mut words: Vec<(usize, usize)> = vec![];
    let mut i = 0;
    while i < b.len() {
        let mut e = i;
        while e < b.len() && word(b[e]) {
            e += 1
        }
        if e > i && !b[i].is_ascii_digit() {
            words.push((i, e));
        }
        i = e.max(i + 1);
    }
    if words.is_empty() {
        return;
    }
    let (x, y) = *r.pick(&words);
    let old = b[x..y].to_vec();
    let new = name(r).into_bytes();
    for (x, y) in words.into_iter().rev() {
        if b[x..y] == old[..] {
            b.splice(x..y, new.iter().copied());
        }
    }
}
