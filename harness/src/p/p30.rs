//! The number in a text.
use crate::oracle::*;
use crate::rt::*;
use crate::world::*;

/// "#": two arbitrary digits, "2#": seven of them.
const PIECES: [&str; 27] = [
    "#", "2#", "+", "\u{ff0b}", "1", "0", "+1 ", "011 ", " ", "-", "(", ") ", "/", "\\ ", "x", " ext. ", ";", ",", "*", "A", "abc", "\u{e9}", "\u{663}", "~", ":", "\u{200b}", "#4",
];
const REGIONS: [&str; 4] = ["US", "DE", "ZZ", "001"];

fn warm() {
    for r in ["US", "DE"] {
        warm_parse(md_of(r).unwrap());
    }
    for s in ["+1 6502530000 ext. 3", "abc", "(1) ~x12", "2530000/x3", "\u{ff0b}1 \u{663}\u{663}\u{663}\u{663}"] {
        for r in REGIONS {
            let _ = parse(s, r);
            let _ = u().parse(s, r);
        }
    }
}
pub fn tasks(_tier: usize) -> usize {
    PIECES.len() * PIECES.len()
}
fn piece(s: &mut String, k: usize) {
    match PIECES[k] {
        "#" => s.push_str(&digits(2)),
        "2#" => {
            s.push('2');
            s.push_str(&digits(6));
        }
        "#4" => s.push('#'),
        p => s.push_str(p),
    }
}
pub fn run(task: usize, tier: usize) {
    warm();
    let n = PIECES.len();
    let mut s = String::with_capacity(128);
    let region = REGIONS[pick(REGIONS.len())];
    // what stands first and in the middle; in front of it, between and behind
    // there may be a number
    piece(&mut s, task / n);
    if pick(2) == 1 {
        s.push_str("2530000");
    }
    piece(&mut s, task % n);
    if pick(2) == 1 {
        s.push_str("6502530000");
    }
    let more = if task / n < 2 && task % n < 2 {
        0
    } else if tier > 0 {
        2
    } else {
        ((task / n + task % n) % 4 == 0) as usize
    };
    for _ in 0..more {
        let k = pick(n + 1);
        if k == n {
            break;
        }
        piece(&mut s, k);
    }
    obs("text", s.as_bytes());
    let want = parse(&s, region);
    agree(&u().parse(&s, region), &want, None);
    agree(&u().parse_and_keep_raw_input(&s, region), &want, Some(&s));
}
