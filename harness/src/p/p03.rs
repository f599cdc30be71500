//! Parsing what was formatted gives the number back.
use crate::oracle::*;
use crate::rt::*;
use crate::world::*;

const FORMS: [PhoneNumberFormat; 3] = [PhoneNumberFormat::E164, PhoneNumberFormat::International, PhoneNumberFormat::RFC3966];

pub fn tasks(_tier: usize) -> usize {
    w().shapes[2].len() * 3
}
pub fn run(task: usize, _tier: usize) {
    let (i, z, k) = w().shapes[2][task / 3];
    let c = &w().ccs[i];
    warm(c, z + k);
    let (n, _) = any_number(c.code, z, k);
    if !u().is_valid_number(&n) {
        return;
    }
    let s = u().format(&n, FORMS[task % 3]);
    obs("text", s.as_bytes());
    let p = u().parse(s.as_ref(), "ZZ");
    match p {
        Ok(p) => check(p == n, "parsing the formatted number gives it back"),
        Err(_) => check(false, "the formatted number parses"),
    }
}
