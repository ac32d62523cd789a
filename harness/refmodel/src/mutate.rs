//! Hostile inputs: mutations of valid texts, token soups and enumerations.
use crate::gen::{any_char, NL, WS};
use crate::rng::Rng;

/// Fragments that are likely to hit decisions of a KDL parser
pub const TOKENS: &[&str] = &[
    "a", "node", "r", "r#", "true", "false", "null", "truex", "-", "+", "--", "1", "0", "12_3", "0x1F", "0o17",
    "0b10", "0x", "0b2", "0o8", "0xG", "1.5", "1.", ".5", "1e3", "1e", "1e+", "1.0E-2", "-1", "+1", "-0x1", "1_",
    "_1", "\"\"", "\"s\"", "\"a b\"", "\"\\n\"", "\"\\u{41}\"", "\"\\u{110000}\"", "\"\\u{}\"", "\"\\u{d800}\"", "\"\\x\"",
    "\"\\u41\"", "\"\\u{0000041}\"", "\"\\u{41\"",
    "\"", "r\"", "r\"x\"", "r#\"a\"b\"#", "r#\"", "\"#", "\\", "/", "//", "/*", "*/", "/-", "/**/", "/* c */", "// c",
    "(", ")", "(u8)", "(t)", "(\"t y\")", "()", "(1)", "(true)", "{", "}", "{}", ";", "=", "=1", "a=1", "\"k\"=2", "a=", "=\"v\"",
    "1=2", "true=1", "(t)a=1", "a=(t)1", "<", ">", "[", "]", ",", "#", "*", "!", "'", "é", "漢", "😀", "\u{0}", "\u{b}", "\u{7f}",
    "\n", "\r", "\r\n", "\u{c}", "\u{85}", "\u{2028}", "\u{2029}", " ", "  ", "\t", "\u{a0}", "\u{feff}", "\u{200b}",
    "\\\n", "\\ // x\n", "\\ ", "/- ", "/-{}", "/-a ", "/-\"x\"", "u", "b", "e", "E", "x", "_", ".",
];

/// Small alphabets for exhaustive enumeration of short texts
pub const ALPHABETS: &[&[&str]] = &[
    // structure
    &["a", "{", "}", ";", " ", "\n", "/-", "1", "=", "//", "\\"],
    // numbers
    &["n ", "0", "1", "_", ".", "e", "-", "+", "x", "b", "9"],
    // strings
    &["n ", "\"", "\\", "u{", "}", "4", "n", "r", "#", "=", "g"],
    // comments
    &["a", " ", "/", "*", "-", "\n", "{", "}", "\\"],
    // types and names
    &["(", ")", "a", "\"", "1", "=", " ", "true", "-", "r"],
    // newlines and spaces
    &["a", "\r", "\n", "\u{85}", " ", "\u{feff}", "\\", ";", "1", "\u{2028}", "\t"],
];

/// Number of texts of exactly `len` symbols
pub fn enum_count(alpha: &[&str], len: usize) -> u64 {
    (alpha.len() as u64).pow(len as u32)
}

pub fn enum_text(alpha: &[&str], len: usize, mut n: u64) -> String {
    let mut s = String::new();
    for _ in 0..len {
        s.push_str(alpha[(n % alpha.len() as u64) as usize]);
        n /= alpha.len() as u64;
    }
    s
}

pub fn soup(r: &mut Rng) -> String {
    let n = if r.one_in(10) { r.range(1, 40) } else { r.range(1, 9) };
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(TOKENS[r.below(TOKENS.len())]);
        match r.below(6) {
            0 | 1 => s.push(' '),
            2 if r.one_in(4) => s.push('\n'),
            _ => {}
        }
    }
    s
}

fn cut(s: &str, r: &mut Rng) -> usize {
    let n = s.chars().count();
    let k = r.below(n + 1);
    s.char_indices().nth(k).map_or(s.len(), |(i, _)| i)
}

/// One random edit
pub fn edit(r: &mut Rng, s: &str) -> String {
    let mut i = cut(s, r);
    let mut j = cut(s, r);
    if i > j {
        std::mem::swap(&mut i, &mut j);
    }
    let next = |i: usize| s[i..].chars().next().map_or(i, |c| i + c.len_utf8());
    match r.below(12) {
        // delete a char
        0 | 1 => format!("{}{}", &s[..i], &s[next(i)..]),
        // replace a char
        2 => format!("{}{}{}", &s[..i], any_char(r), &s[next(i)..]),
        // insert a char
        3 => format!("{}{}{}", &s[..i], any_char(r), &s[i..]),
        // insert a token
        4 | 5 => format!("{}{}{}", &s[..i], TOKENS[r.below(TOKENS.len())], &s[i..]),
        // replace a char by a token
        6 => format!("{}{}{}", &s[..i], TOKENS[r.below(TOKENS.len())], &s[next(i)..]),
        // truncate
        7 => s[..i].to_string(),
        8 => s[i..].to_string(),
        // delete a short range
        9 => {
            let mut k = i;
            for _ in 0..r.range(1, 5) {
                k = next(k);
            }
            format!("{}{}", &s[..i], &s[k..])
        }
        // duplicate a range
        10 => {
            let mut k = i;
            for _ in 0..r.range(1, 12) {
                k = next(k);
            }
            format!("{}{}{}", &s[..k], &s[i..k], &s[k..])
        }
        // special trivia
        _ => {
            let t: String = if r.one_in(2) { NL[r.below(NL.len())].into() } else { WS[r.below(WS.len())].to_string() };
            format!("{}{}{}", &s[..i], t, &s[i..])
        }
    }
}

pub fn mutate(r: &mut Rng, s: &str) -> String {
    let n = match r.below(6) {
        0 => 2,
        1 => 3,
        _ => 1,
    };
    let mut s = s.to_string();
    for _ in 0..n {
        s = edit(r, &s);
    }
    s
}
