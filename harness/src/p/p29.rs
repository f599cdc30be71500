//! Normalising text.
use super::p08::any_char;
use crate::oracle::*;
use crate::rt::*;
use crate::world::*;

const CLASSES: [&[usize]; 8] = [&[], &[1], &[1, 1], &[2], &[1, 2, 1], &[2, 1, 1], &[1, 1, 2], &[2, 1, 2]];

pub fn tasks(_tier: usize) -> usize {
    CLASSES.len() + 1
}
pub fn run(task: usize, _tier: usize) {
    let mut s = String::with_capacity(64);
    if task == CLASSES.len() {
        // a digit of any script, or a neighbour of one
        let z = ZEROS[pick(ZEROS.len())];
        let c = char::from_u32(z - 1 + pick(12) as u32).unwrap_or('x');
        let at = pick(3);
        s.push_str(["", "+1", "\u{1D7D7}"][at]);
        s.push(c);
        if at > 0 {
            s.push((b'0' + choice(10) as u8) as char);
        }
        s.push_str(["\u{1D7CE}", "", ""][pick(3)]);
    } else {
        s.push_str(["", "1-800-", "+1 (650) *#"][pick(3)]);
        for n in CLASSES[task] {
            s.push(any_char(*n));
        }
    }
    let (mut d, mut k) = (String::with_capacity(64), String::with_capacity(64));
    for c in s.chars() {
        if let Some(v) = digit_of(c) {
            d.push((b'0' + v) as char);
        }
        if c.is_ascii_digit() || c == '+' || c == '*' || c == '#' {
            k.push(c);
        }
    }
    let got = u().verif_normalize_digits_only(&s);
    obs("digits", got.as_bytes());
    check(got == d, "the digits of every script, in order, and nothing else");
    check(u().verif_normalize_digits_only(&got) == d, "doing it twice changes nothing more");
    let got = u().verif_normalize_diallable_chars_only(&s);
    obs("diallable", got.as_bytes());
    check(got == k, "the digits, plus, star and hash, in order, and nothing else");
}
