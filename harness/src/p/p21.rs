//! Extensions.
use crate::oracle::*;
use crate::rt::*;
use crate::world::*;

/// Label, the most digits behind it, what has to follow.
const LABELS: [(&str, usize, &str); 30] = [
    (";ext=", 20, ""),
    ("ext", 20, ""),
    ("xt", 20, ""),
    ("extn", 20, ""),
    ("xtn", 20, ""),
    ("extensio", 20, ""),
    ("extension", 20, ""),
    ("extensión", 20, ""),
    ("extensio\u{301}n", 20, ""),
    ("xtensió", 20, ""),
    ("ｅｘｔｎ", 20, ""),
    ("ｘｔ", 20, ""),
    ("доб", 20, ""),
    ("ДОБ", 20, ""),
    ("anexo", 20, ""),
    ("x", 9, ""),
    ("ｘ", 9, ""),
    ("#", 9, ""),
    ("＃", 9, ""),
    ("~", 9, ""),
    ("～", 9, ""),
    ("int", 9, ""),
    ("ｉｎｔ", 9, ""),
    ("ＩＮＴ", 9, ""),
    (",,", 15, ""),
    (";", 15, ""),
    (",", 9, ""),
    (",,,", 9, ""),
    ("-", 6, "#"),
    (" - ", 6, "#"),
];
const NUMBERS: [(&str, usize, &str); 4] = [("+1 650 253 ", 4, "ZZ"), ("030 1", 4, "DE"), ("(650) 253-", 4, "US"), ("+39 023 66", 3, "ZZ")];

fn forms() -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    for (i, c) in w().ccs.iter().enumerate() {
        let e = c.regions[0].general_desc.possible_length.iter().copied().max().unwrap_or(0) as usize;
        if e > 0 && e < 14 {
            v.push((i, e));
        }
    }
    v
}
pub fn tasks(tier: usize) -> usize {
    LABELS.len() * 22 + forms().len() * if tier == 0 { 3 } else { 9 }
}
pub fn run(task: usize, tier: usize) {
    if task >= LABELS.len() * 22 {
        let t = task - LABELS.len() * 22;
        let fs = forms();
        written(fs[t % fs.len()], t / fs.len() % 3, if tier == 0 { [7, 1, 9][t / fs.len()] } else { [7, 1, 9][(t / fs.len() + t / fs.len() / 3) % 3] });
        return;
    }
    let (label, most, behind) = LABELS[task % LABELS.len()];
    let len = 1 + task / LABELS.len();
    if len > most + 2 {
        return;
    }
    let (number, k, region) = NUMBERS[task % 7 % 4];
    if let Some(m) = md_of(region) {
        warm_parse(m);
    }
    let mut s = String::with_capacity(128);
    s.push_str(number);
    s.push_str(&digits(k));
    let bare = s.clone();
    // how the label is written
    let tight = label.starts_with(['-', ' ', ';']) || label.starts_with(",");
    let loose = !tight && label != "x" || label == ",,";
    let blank = label == ";" || label == ",,";
    s.push_str(if tight && !blank { "" } else if blank { ["", " ", "\u{a0}", "\t"][pick(4)] } else { ["", " ", ", ", "\u{a0}", "\t"][pick(5)] });
    for c in label.chars() {
        s.push(if c.is_ascii_alphabetic() { (c as u8 - 32 * choice(2) as u8) as char } else { c });
    }
    if loose && label != ";ext=" {
        s.push_str(["", ".", ": ", " - ", "．"][pick(5)]);
    }
    let x = digits(len);
    s.push_str(&x);
    s.push_str(behind);
    if behind.is_empty() && label != ";ext=" && pick(2) == 1 {
        s.push('#');
    }
    obs("text", s.as_bytes());
    let got = u().parse(&s, region);
    agree(&got, &parse(&s, region), None);
    if len <= most {
        let (Ok(got), Ok(mut n)) = (got, u().parse(&bare, region)) else {
            check(false, "a number with an extension is a number");
            return;
        };
        n.set_extension(x);
        check(got == n, "the number and, behind its label, the extension");
    }
}
/// Formatting and parsing again keeps the extension.
fn written((i, k): (usize, usize), form: usize, len: usize) {
    let c = &w().ccs[i];
    let m = c.regions[0];
    warm(c, k);
    if m.id() != "001" {
        warm_parse(m);
    }
    let (n, _) = any_number(c.code, 0, k);
    let f = [PhoneNumberFormat::International, PhoneNumberFormat::RFC3966, PhoneNumberFormat::National][form];
    let region = if m.id() == "001" || form != 2 { "ZZ" } else { m.id() };
    let Ok(back) = u().parse(u().format(&n, f).as_ref(), region) else { return };
    if back != n {
        return;
    }
    let x = digits(len);
    let mut e = n.clone();
    e.set_extension(x);
    let t = u().format(&e, f);
    obs("text", t.as_bytes());
    match u().parse(t.as_ref(), region) {
        Ok(p) => check(p == e, "the extension comes back"),
        Err(_) => check(false, "a number with an extension parses"),
    }
}
