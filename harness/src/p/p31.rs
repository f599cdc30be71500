//! Dialling vanity numbers from another country.
use crate::oracle::*;
use crate::p::p14::FROM;
use crate::rt::*;
use crate::world::*;

fn keep(c: char) -> Option<char> {
    Some(match c {
        'a'..='z' => c.to_ascii_uppercase(),
        'A'..='Z' | '0'..='9' | '-' | '/' | ' ' | '.' => c,
        '－' | '‐' | '‑' | '‒' | '–' | '—' | '―' | '−' => '-',
        '／' => '/',
        '\u{3000}' | '\u{2060}' => ' ',
        '．' => '.',
        _ => return None,
    })
}
fn alpha(code: i32, nsn: &str, ext: &str, raw: &str, from: &str) -> String {
    if raw.is_empty() {
        return out_of_country(code, nsn, ext, from);
    }
    let Some(c) = cc_of(code) else { return raw.to_string() };
    let mut s = String::with_capacity(64);
    for c in raw.chars() {
        if let Some(c) = keep(c) {
            s.push(c);
        }
    }
    if nsn.len() > 3 {
        for i in 0..s.len() {
            if s[i..].starts_with(&nsn[..3]) {
                s = s[i..].to_string();
                break;
            }
        }
    }
    let f = md_of(from);
    if let Some(f) = f.filter(|f| f.country_code() == code) {
        if code == 1 {
            return format!("1 {}", s);
        }
        let Some(rule) = choose(&f.number_format, nsn) else { return s };
        let r = rule.national_prefix_formatting_rule();
        if r.is_empty() {
            return s;
        }
        // the digits at the front get the national prefix
        let a = s.bytes().position(|b| b.is_ascii_digit()).unwrap_or(s.len());
        let b = a + s[a..].bytes().position(|b| !b.is_ascii_digit()).unwrap_or(s.len() - a);
        return if a < b { format!("{}{}{}", &s[..a], r.replace("$1", &s[a..b]), &s[b..]) } else { s };
    }
    let p = f.map_or("", |f| idd_of(f, true));
    let s = if p.is_empty() { format!("+{} {}", code, s) } else { format!("{} {} {}", p, code, s) };
    format!("{}{}", split_ext(&s).0, ext_formatted(c.regions[0], ext, PhoneNumberFormat::International))
}

const SIGNS: [char; 6] = ['-', '／', '\u{2060}', 'ß', '*', '~'];
/// The shapes of one length per country code, and the regions to call from.
pub fn tasks(tier: usize) -> usize {
    w().ccs.len() * if tier == 0 { 1 } else { 3 } + w().mds.len() + 6 * SIGNS.len() + 24
}
pub fn run(task: usize, tier: usize) {
    let nc = w().ccs.len() * if tier == 0 { 1 } else { 3 };
    if task >= nc + w().mds.len() + 6 * SIGNS.len() {
        return short(task - nc - w().mds.len() - 6 * SIGNS.len());
    }
    let (code, k, z, letters, from) = if task < nc {
        let c = &w().ccs[task % w().ccs.len()];
        let r = pick(if tier == 0 { 2 } else { FROM.len() + 2 });
        let r = if tier == 0 { [task % FROM.len(), FROM.len() + task % 2][r] } else { r };
        let from = if r < FROM.len() { FROM[r] } else { c.regions[(r - FROM.len()) * (c.regions.len() - 1)].id() };
        (c.code, (c.min + 2 * (task / w().ccs.len())).max(4), 0, "-fLo.WER", from)
    } else if task < nc + w().mds.len() {
        let j = pick(4);
        ([1, 39, 61, 800][j], if j == 1 { 9 } else { 10 }, if j == 1 { 1 } else { 0 }, " Six－FLAgs", w().mds[task - nc].id())
    } else {
        let j = (task - nc - w().mds.len()) / SIGNS.len();
        let from = [("US", "DE"), ("NZ", "US"), ("IT", "BR"), ("FR", "ZZ"), ("UA", "US"), ("BR", "FR")][j];
        ([1, 61, 49, 999, 380, 800][j], 9, 0, "", if pick(2) == 0 { from.0 } else { from.1 })
    };
    let (mut n, nsn) = any_number(code, z, k);
    let mut raw = String::with_capacity(80);
    let kind = if letters.is_empty() && tier == 0 { (task + 2 * pick(2)) % 5 } else { pick(5) };
    match kind {
        0 => {}
        1 => raw.push_str(&format!("+{} ({}) ", code, &nsn[..2])),
        2 => raw.push_str("(0) "),
        3 => raw.push_str("+011 "),
        _ => raw.push_str(&nsn[..2]),
    }
    raw.push_str(&nsn[..3]);
    if letters.is_empty() {
        // arbitrary letters and signs around a sign
        for i in 0..3 {
            raw.push(if i == 1 { SIGNS[(task - nc - w().mds.len()) % SIGNS.len()] } else { (b'A' + choice(58) as u8) as char });
        }
    } else {
        raw.push_str(letters);
    }
    raw.push_str(&nsn[3..4]);
    let x = if kind == 2 { digits(2) } else { String::new() };
    if !x.is_empty() {
        n.set_extension(x.clone());
        raw.push_str(" ext. ");
        raw.push_str(&x);
    }
    n.set_raw_input(raw.clone());
    let got = u().format_out_of_country_keeping_alpha_chars(&n, from);
    obs("text", got.as_bytes());
    check(got == alpha(code, &nsn, &x, &raw, from), "letters are kept");
    n.clear_raw_input();
    check(u().format_out_of_country_keeping_alpha_chars(&n, from) == u().format_out_of_country_calling_number(&n, from), "without kept input there are no letters");
}
/// Numbers of up to four digits.
fn short(task: usize) {
    let code = [1, 39, 49, 61, 800, 999][task % 6];
    let (n, nsn) = any_number(code, 0, task / 6 + 1);
    let from = ["AU", "BR", "IT", "ZZ", "US", "DE"][pick(6)];
    let raw = [format!("0{}", nsn), format!("1-{}x", nsn), format!("0 {}-FLY", nsn), "-".to_string()][pick(4)].clone();
    let mut n = n;
    n.set_raw_input(raw.clone());
    let got = u().format_out_of_country_keeping_alpha_chars(&n, from);
    obs("text", got.as_bytes());
    check(got == alpha(code, &nsn, "", &raw, from), "letters are kept");
}
