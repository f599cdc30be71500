//! Digits of other scripts, and punctuation.
use crate::oracle::*;
use crate::rt::*;
use crate::world::*;

/// Country calling code, region, national prefix, digits, of them a first part.
const PLACES: [(i32, &str, &str, usize); 5] = [(1, "US", "1", 10), (49, "DE", "0", 9), (39, "IT", "", 9), (54, "AR", "0", 10), (44, "GB", "0", 10)];
const SHAPES: usize = 6;
/// Punctuation, by its length in UTF-8.
const MARKS: [&[char]; 3] = [
    &['-', ' ', '(', ')', '.', '[', ']', '/', '*'],
    &['\u{A0}', '\u{AD}'],
    &[
        '\u{2010}', '\u{2011}', '\u{2012}', '\u{2013}', '\u{2014}', '\u{2015}', '\u{2212}', '\u{30FC}', '\u{FF0D}', '\u{FF0E}', '\u{FF0F}', '\u{200B}', '\u{2060}', '\u{3000}', '\u{FF08}',
        '\u{FF09}', '\u{FF3B}', '\u{FF3D}', '\u{2053}', '\u{223C}',
    ],
];
fn mark(class: usize) -> char {
    MARKS[class % 3][choice(MARKS[class % 3].len())]
}

pub fn tasks(tier: usize) -> usize {
    ZEROS.len() * (SHAPES + 2) + PLACES.len() * if tier == 0 { 36 } else { 162 }
}
/// The digits of a text in the script of this zero, but for some.
fn script(s: &str, zero: u32, mix: usize) -> String {
    let mut out = String::with_capacity(128);
    for (i, b) in s.bytes().enumerate() {
        if b.is_ascii_digit() && (mix == 0 || i % mix != 1) {
            out.push(char::from_u32(zero + (b - b'0') as u32).unwrap());
        } else {
            out.push(b as char);
        }
    }
    out
}
pub fn run(task: usize, tier: usize) {
    let nz = ZEROS.len();
    if task < nz * SHAPES {
        let (code, region, np, k) = PLACES[task % PLACES.len()];
        let shape = task / nz;
        let zero = ZEROS[task % nz];
        warm_parse(md_of(region).unwrap());
        let d = if shape == 1 || shape == 4 { format!("{}{}", ["6502", "3012", "0236", "1123", "2083"][task % PLACES.len()], digits(k - 4)) } else { digits(k) };
        let (plain, from) = match shape {
            0 => (format!("+{} {} {}", code, &d[..3], &d[3..]), "ZZ"),
            1 => (format!("{}{}-{}", np, &d[..4], &d[4..]), region),
            2 => (format!("011 {} {}", code, d), "US"),
            3 => (format!("tel:{}-{};phone-context=+{}", &d[..3], &d[3..], code), "ZZ"),
            4 => (format!("({}) {}.{}", &d[..2], &d[2..5], &d[5..]), region),
            _ => (format!("+{}{}{}", code, np, d), "US"),
        };
        let text = script(&plain, zero, [0, 3, 2][task % 3]);
        obs("text", text.as_bytes());
        let got = u().parse(&text, from);
        let want = u().parse(&plain, from);
        check(got == want, "a digit counts as its value in every script");
        let kept = u().parse_and_keep_raw_input(&text, from);
        agree(&kept, &parse(&plain, from), Some(&text));
        if let (Ok(n), true) = (&kept, shape == 1) {
            let o = u().format_in_original_format(n, from);
            obs("original", o.as_bytes());
            let mut digits = String::with_capacity(64);
            for c in o.chars() {
                if let Some(v) = digit_of(c) {
                    digits.push((b'0' + v) as char);
                }
            }
            check(digits == plain.replace('-', ""), "no digit of the original is lost");
        }
        return;
    }
    let task = task - nz * SHAPES;
    if task < nz * 2 {
        // every character around the digits of a script
        let c = char::from_u32(ZEROS[task % nz] - 6 + choice(22) as u32).unwrap();
        let mut s = String::with_capacity(64);
        let at = if task < nz { 1 } else { pick(2) * 2 };
        s.push_str(["", "650253", "+1650253000"][at]);
        s.push(c);
        s.push_str(["6502530", "000", ""][at]);
        obs("text", s.as_bytes());
        agree(&u().parse_and_keep_raw_input(&s, "US"), &parse(&s, "US"), Some(&s));
        return;
    }
    // punctuation between digits
    let task = task - nz * 2;
    let (code, region, np, k) = PLACES[task % PLACES.len()];
    let j = task / PLACES.len();
    warm_parse(md_of(region).unwrap());
    let d = if j % 12 == 1 { digits(k) } else { format!("{}{}", ["650", "301", "023", "112", "208"][task % PLACES.len()], digits(k - 3)) };
    let mut s = String::with_capacity(128);
    let (lead, from) = if j % 2 == 0 { (format!("+{}", code), "ZZ") } else { (np.to_string(), region) };
    s.push_str(&lead);
    // where the marks are and how long
    let at = [[0, 3, 6], [1, 2, 3], [2, 2, 2]][j / 2 % 3];
    let class = if tier == 0 { [0, 4, 8, 9, 13, 20][j / 6] } else { j / 6 };
    for i in 0..k {
        for (a, x) in at.iter().enumerate() {
            if *x == i {
                s.push(mark(class / [1, 3, 9][a]));
            }
        }
        s.push(d.as_bytes()[i] as char);
    }
    obs("text", s.as_bytes());
    let got = u().parse(&s, from);
    agree(&got, &parse(&format!("{}{}", lead, d), from), None);
}
