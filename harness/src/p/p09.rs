//! Cutting numbers that are too long.
use crate::oracle::*;
use crate::rt::*;
use crate::world::*;

pub fn tasks(tier: usize) -> usize {
    w().ccs.len() * 2 * if tier == 0 { 2 } else { 4 }
}
pub fn run(task: usize, _tier: usize) {
    let c = &w().ccs[task % w().ccs.len()];
    let z = task / w().ccs.len() % 2;
    let extra = task / w().ccs.len() / 2;
    let len = (c.max + extra + if extra > 0 { 1 } else { 0 }).min(17);
    for l in c.min..=len {
        warm(c, l);
    }
    if len <= z {
        return;
    }
    let (mut n, nsn) = any_number(c.code, z, len - z);
    n.set_extension("12".into());
    let before = n.clone();
    let ok = u().truncate_too_long_number(&mut n);
    obs("ok", &[ok as u8]);
    obs("n", &n.national_number().to_le_bytes());
    // the longest prefix that is valid
    let mut want = None;
    for l in (z + 1..=len).rev() {
        if l < len && length(c.regions[0], l) == Len::Short {
            break;
        }
        let p = &nsn[..l];
        if region_of(c, p).is_some_and(|m| type_of(m, p) != PhoneNumberType::Unknown) {
            want = Some(l);
            break;
        }
    }
    check(ok == want.is_some(), "cut iff some prefix is valid");
    match want {
        Some(l) => check(n.national_number() == value(&nsn[..l]), "the longest valid prefix"),
        None => check(n == before, "a number that cannot be cut stays as it was"),
    }
    let mut same = n.clone();
    same.set_national_number(before.national_number());
    check(same == before, "nothing but the national number changes");
    if ok {
        check(u().is_valid_number(&n), "the cut number is valid");
    }
}
