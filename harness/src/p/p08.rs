//! Letters.
use crate::oracle::*;
use crate::rt::*;
use crate::world::*;

/// Characters beyond ASCII that matter to phone numbers, or look as if they did.
pub const OTHER: [char; 28] = [
    'é', 'ß', 'Ａ', 'ｚ', '０', '９', '٣', '߀', '१', '\u{1d7d8}', '＋', '－', '―', '\u{a0}', '\u{200b}', '\u{3000}', '～', '〇', 'Ⅷ', '²', '⁓', '\u{301}', '😀', '\u{10ffff}', 'ſ', 'ı', '\u{212a}', 'ﬁ',
];
/// An arbitrary ASCII character, or one of the others.
pub fn any_char(n: usize) -> char {
    if n == 1 { choice(0x80) as u8 as char } else { OTHER[pick(OTHER.len())] }
}

const CLASSES: [&[usize]; 8] = [&[], &[1], &[1, 1], &[2], &[1, 2, 1], &[2, 1, 1], &[1, 1, 2], &[2, 1, 2]];

pub fn tasks(tier: usize) -> usize {
    CLASSES.len() + if tier == 0 { 7 } else { 10 } + 1
}
pub fn run(task: usize, _tier: usize) {
    if task < CLASSES.len() {
        let mut s = String::with_capacity(64);
        let mut want = String::with_capacity(64);
        let lead = ["", "1-800-", "+1 (650) 253-0000 ext. "][pick(3)];
        s.push_str(lead);
        for c in lead.chars() {
            want.push(key_of(c).map_or(c, |k| (b'0' + k) as char));
        }
        for n in CLASSES[task] {
            let c = any_char(*n);
            s.push(c);
            want.push(key_of(c).map_or(c, |k| (b'0' + k) as char));
        }
        let got = u().convert_alpha_characters_in_number(&s);
        obs("converted", got.as_bytes());
        check(got == want, "letters become the digits of their keys and nothing else changes");
        check(u().convert_alpha_characters_in_number(&got) == got, "converting twice changes nothing more");
        return;
    }
    let k = task - CLASSES.len();
    // digits, then letters, digits, punctuation
    let mut s = String::with_capacity(64);
    s.push_str(&digits(3));
    let mut letters = 0;
    const SET: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 -.()/+#,;:*~&@";
    for _ in 0..k {
        let c = SET[choice(SET.len())];
        letters += c.is_ascii_alphabetic() as usize;
        s.push(c as char);
    }
    let got = u().is_alpha_number(&s);
    obs("text", s.as_bytes());
    obs("alpha", &[got as u8]);
    let v = viable(&s);
    if !v {
        check(!got, "what cannot be a number is no alpha number");
        return;
    }
    check(!got || letters >= 3, "an alpha number has three letters");
    let (num, _) = split_ext(&s);
    let mut letters = 0usize;
    for b in num.bytes() {
        letters += b.is_ascii_alphabetic() as usize;
    }
    check(got == (letters >= 3), "alpha number iff three letters outside the extension");
}
