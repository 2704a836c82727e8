//! Texts rich in escapes, numbers and literal forms at their limits, right or wrong.
use crate::rng::Rng;

const HEX: &[u8] = b"0123456789abcdefABCDEF";
const NUMS: &[&str] = &[
    "0", "00", "0_0", "1_000", "1__0", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456", "0x7fffffffffffffff", "0x8000000000000000", "0xffffffffffffffffff", "0b1111111111111111111111111111111111111111111111111111111111111111",
    "0b111111111111111111111111111111111111111111111111111111111111111", "0o777777777777777777777", "0777777777777777777777", "01777777777777777777777", "08", "0d10", "0d", "1e400", "1e-400", "1.7976931348623157e308", "4.9e-324", "1e9999999999999999999", "1.5r", "3r", "2i", "2.5i", "3ri", "0.1e", "1.", "1.e5", "1e+", "1_e5", "0x_1", "0b2", "1.0e1_0",
];
const TEXT: &[&str] = &["a", "é", "日", "\u{ffff}", "\u{10ffff}", "\u{d7ff}", "\u{e000}", "\n", "\r\n", "\t", " ", "#", "#{1}", "#{a}", "#$x", "#@y", "{", "}", "\"", "'", "/", "(", ")", "%", "|", "^", "*", "+", "?", "[a-z]", "[", "]"];

fn hex(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| *r.pick(HEX) as char).collect()
}
/// A four digit code point, often at a boundary.
fn code(r: &mut Rng) -> String {
    match r.below(5) {
        0 => hex(r, 4),
        1 => format!("{:04x}", r.range(0xd7f8, 0xe008)),
        2 => format!("d{}{}", r.pick(&["8", "9", "a", "B", "c", "D", "e", "f"]), hex(r, 2)),
        3 => r.pick(&["0000", "0041", "007f", "0080", "07ff", "0800", "d83d", "dc4d", "dbff", "dfff", "fffd", "fffe", "ffff", "feff"]).to_string(),
        _ => hex(r, 4).to_uppercase(),
    }
}
fn escape(r: &mut Rng) -> String {
    match r.below(16) {
        0..=3 => format!("\\u{}", code(r)),
        4 => format!("\\u{}\\u{}", code(r), code(r)),
        5 => {
            let n = r.below(8);
            format!("\\u{{{}}}", hex(r, n))
        }
        6 => {
            let mut s = "\\u{".to_string();
            for i in 0..r.range(1, 4) {
                if i > 0 {
                    s.push_str(r.pick(&[" ", "  ", "\t", ","]))
                }
                let n = r.range(1, 7);
                s.push_str(&hex(r, n));
            }
            s.push_str(r.pick(&["}", "}", "", " }"]));
            s
        }
        7 => {
            let n = r.below(5);
            format!("\\u{}", hex(r, n))
        }
        8..=9 => {
            let n = r.below(4);
            format!("\\x{}", hex(r, n))
        }
        10..=11 => {
            let n = r.range(1, 5);
            let mut s = "\\".to_string();
            for _ in 0..n {
                s.push((b'0' + r.below(10) as u8) as char)
            }
            s
        }
        12 => format!("\\{}", r.pick(TEXT)),
        13 => format!("\\{}", (0x20 + r.below(0x5f) as u8) as char),
        14 => format!("\\{}{}", r.pick(&["C-", "c", "M-", "M-\\C-", "C-\\M-", "M-\\c"]), r.pick(&["a", "é", "\\", "?", "", "\\n", "\\u0041", "\\M-a"])),
        _ => "\\".into(),
    }
}
fn body(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.below(6) {
        match r.below(3) {
            0 => s.push_str(r.pick(TEXT)),
            _ => s.push_str(&escape(r)),
        }
    }
    s
}
fn number(r: &mut Rng) -> String {
    if r.chance(2, 3) {
        let mut s = r.pick(&["", "", "-", "+", "- ", "!", "~"]).to_string();
        s.push_str(r.pick(NUMS));
        return s;
    }
    let (pre, digits) = *r.pick(&[("", "0123456789"), ("0x", "0123456789abcdefABCDEF"), ("0b", "01"), ("0o", "01234567"), ("0", "01234567"), ("0d", "0123456789"), ("0X", "0123456789abcdef"), ("0B", "01")]);
    let mut s = format!("{}{}", r.pick(&["", "", "-"]), pre);
    for _ in 0..r.size(80) {
        s.push(*r.pick(digits.as_bytes()) as char);
        if r.chance(1, 12) {
            s.push('_')
        }
    }
    if r.chance(1, 3) {
        s.push_str(&format!(".{}", r.below(1000)));
    }
    if r.chance(1, 3) {
        s.push_str(&format!("{}{}{}", r.pick(&["e", "E"]), r.pick(&["", "-", "+"]), r.size(500)));
    }
    if r.chance(1, 8) {
        s.push_str(r.pick(&["r", "i", "ri", "_", "__", "."]));
    }
    s
}
pub fn literal(r: &mut Rng) -> String {
    let b = body(r);
    match r.below(20) {
        0..=4 => format!("\"{}\"", b),
        5 => format!("'{}'", b),
        6 => format!("`{}`", b),
        7..=8 => format!("/{}/{}", b, r.pick(&["", "i", "mx", "imxo", "u", "q", "in"])),
        9 => format!(":\"{}\"", b),
        10 => format!("?{}", if r.chance(1, 2) { escape(r) } else { r.pick(TEXT).to_string() }),
        11 => {
            let (o, c) = *r.pick(&[("(", ")"), ("[", "]"), ("{", "}"), ("<", ">"), ("|", "|"), ("!", "!"), ("-", "-"), ("é", "é"), (" ", " "), ("\n", "\n")]);
            format!("%{}{}{}{}", r.pick(&["", "q", "Q", "w", "W", "i", "I", "r", "s", "x"]), o, b, c)
        }
        12 => {
            let q = *r.pick(&["", "\"", "'", "`"]);
            let t = *r.pick(&["E", "EOS", "e_1", "É"]);
            format!("<<{}{}{}{}\n{}\n{}{}\n", r.pick(&["", "-", "~"]), q, t, q, b, r.pick(&["", "", "  ", "\t"]), t)
        }
        13 => format!("{{\"{}\": {}}}", b, number(r)),
        _ => number(r),
    }
}
pub fn text(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 5) {
        s.push_str(r.pick(&["", "x = ", "f ", "p(", "[", "a.b ", "case x\nwhen ", "x[", "return "]));
        s.push_str(&literal(r));
        s.push_str(r.pick(&["\n", ";", " ", ", ", " + ", ")", "]", ".z", "..", "\n", "\n"]));
    }
    s
}
