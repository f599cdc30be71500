//! Telephone URIs (RFC 3966).
use super::p08::any_char;
use crate::oracle::*;
use crate::rt::*;
use crate::world::*;

const REGIONS: [&str; 3] = ["US", "GB", "ZZ"];
/// What a telephone URI is made of, and what may be mixed into one.
const PIECES: [&str; 14] = [
    "tel:", "2#", "#", ";phone-context=+1", ";phone-context=+44-20", ";phone-context=a-b.example.com", ";phone-context=", ";isub=", ";ext=", ";foo=bar",
    "+4420", ";", "TEL:", "é",
];

fn compare(s: &str, region: &str) {
    let want = parse(s, region);
    let got = u().parse(s, region);
    obs("text", s.as_bytes());
    if let Ok(p) = &got {
        obs("code", &p.country_code().to_le_bytes());
        obs("number", &p.national_number().to_le_bytes());
        obs("extension", p.extension().as_bytes());
    }
    agree(&got, &want, None);
    agree(&u().parse_and_keep_raw_input(s, region), &want, Some(s));
}
fn warm_uri() {
    for r in ["US", "GB"] {
        warm_parse(md_of(r).unwrap());
    }
    for s in ["tel:2530000;phone-context=+1", "tel:2530000;phone-context=a.b", "1;phone-context=+", "123;phone-context=1", "+1;phone-context=+1"] {
        for r in REGIONS {
            let _ = parse(s, r);
            let _ = u().parse(s, r);
        }
    }
}
const ARGS: usize = 5;
pub fn tasks(tier: usize) -> usize {
    (4 + tier) * 4 + PIECES.len() * PIECES.len() + ARGS
}
pub fn run(task: usize, tier: usize) {
    warm_uri();
    let nc = (4 + tier) * 4;
    if task < nc {
        // an arbitrary context
        let n = task / 4;
        let (pre, number, region, post) = [("tel:", "2530000", "US", ""), ("", "6502530000", "ZZ", ";ext=3"), ("tel:", "02070313000", "GB", ";isub=1"), ("tel:", "8 12", "US", ";a=b")][task % 4];
        let mut s = String::with_capacity(64);
        s.push_str(pre);
        s.push_str(number);
        s.push_str(";phone-context=");
        if task % 4 == 1 && n > 0 {
            s.push('+');
        }
        for i in 0..n {
            if i == 1 && n > 2 && task % 4 == 2 {
                s.push(any_char(2));
            } else {
                s.push(any_char(1));
            }
        }
        s.push_str(post);
        compare(&s, region);
        return;
    }
    let task = task - nc;
    if task < PIECES.len() * PIECES.len() {
        // pieces in any order
        let mut s = String::with_capacity(128);
        let region = REGIONS[pick(REGIONS.len())];
        for i in 0..4 + tier {
            let p = match i {
                0 => PIECES[task / PIECES.len()],
                1 => PIECES[task % PIECES.len()],
                _ => {
                    let k = pick(PIECES.len() + 1);
                    if k == PIECES.len() {
                        break;
                    }
                    PIECES[k]
                }
            };
            match p {
                "#" => s.push_str(&digits(2)),
                "2#" => {
                    s.push('2');
                    s.push_str(&digits(6));
                }
                _ => s.push_str(p),
            }
        }
        compare(&s, region);
        return;
    }
    let task = task - PIECES.len() * PIECES.len();
    // the whole number is symbolic
    let (cc, n, ctx) = [(44, 10, "+44"), (1, 10, "+1"), (39, 9, "+39"), (7, 10, "+7"), (86, 11, "+86")][task];
    let m = cc_of(cc).unwrap().regions[0];
    warm_parse(m);
    let d = digits(n);
    let x = digits(2);
    let s = format!("tel:{};ext={};phone-context={}", d, x, ctx);
    compare(&s, "US");
    let a = u().parse(&s, "ZZ");
    let b = u().parse(&format!("tel:{}{};ext={}", ctx, d, x), "ZZ");
    check(a == b, "a global context means the same as writing the number in full");
}
