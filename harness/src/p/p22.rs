//! Comparing texts.
use crate::oracle::*;
use crate::rt::*;
use crate::world::*;

/// What stands in front of the digits.
const FORMS: [&str; 12] = ["+1 ", "", "+39 0", "0", "+44 (0) ", "1-", "+800 ", "00", "+54 9", "0049", "+999", "+49 0"];
/// What stands behind them.
const EXTS: [&str; 4] = ["", " ext. 7", ";ext=07", "x7"];

fn n() -> usize {
    FORMS.len() * FORMS.len()
}
pub fn tasks(_tier: usize) -> usize {
    n() + w().ccs.len()
}
pub fn run(task: usize, tier: usize) {
    if task >= n() {
        return national(task - n(), tier);
    }
    let (f, g) = (FORMS[task % FORMS.len()], FORMS[task / FORMS.len()]);
    // two texts that differ in front of, behind, or in their digits
    let d = digits(if tier == 0 { 4 } else { 7 });
    let fixed = ["6502 53", "30 12 3", "2 36 61"][task % 3];
    let cut = [0, 3, 9][pick(3)].min(fixed.len() + d.len());
    let whole = format!("{}{}", fixed, d);
    let last = pick(2) == 1;
    let mut other = whole[cut..].to_string();
    if last {
        other.pop();
        other.push_str(&digits(1));
    }
    let (x, y) = (EXTS[pick(4)], EXTS[(task + task / 12) % 4]);
    let a = format!("{}{}{}", f, whole, x);
    let b = format!("{}{}{}", g, other, y);
    compare(&a, &b);
}
fn compare(a: &str, b: &str) {
    let got = u().verif_is_number_match_with_two_strings(a, b);
    obs("texts", a.as_bytes());
    obs("texts", b.as_bytes());
    obs("match", &[got.map_or(9, |m| m as u8)]);
    check(u().verif_is_number_match_with_two_strings(b, a) == got, "the order of the texts does not matter");
    check(got == matching_texts(a, b), "how two texts match");
    if let Ok(p) = parse(a, "ZZ") {
        let z = (p.nsn.len() - p.nsn.trim_start_matches('0').len()).min(p.nsn.len() - 1);
        let mut n = number(p.code, z, &p.nsn[z..]);
        if !p.ext.is_empty() {
            n.set_extension(p.ext.clone());
        }
        check(u().verif_is_number_match_with_one_string(&n, b) == got, "a number matches as its text does");
    }
}
/// A number in full and the way it is dialled at home.
fn national(i: usize, tier: usize) {
    let c = &w().ccs[i];
    let m = c.regions[0];
    if m.id() == "001" {
        return;
    }
    warm_parse(m);
    let k = if tier == 0 { c.max.min(10) } else { c.max };
    let d = digits_nz(k);
    let np = m.national_prefix().replace('~', "");
    let a = format!("+{}{}", c.code, d);
    let b = format!("{}{}", if pick(2) == 1 { &np } else { "" }, d);
    compare(&a, &b);
}
