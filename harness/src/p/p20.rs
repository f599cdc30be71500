//! Possible numbers of a type.
use crate::oracle::*;
use crate::rt::*;
use crate::world::*;

pub fn tasks(_tier: usize) -> usize {
    w().ccs.len() * 17 + 8
}
pub fn run(task: usize, tier: usize) {
    if task < 8 {
        return texts(task, tier);
    }
    let c = &w().ccs[(task - 8) / 17];
    let len = (task - 8) % 17 + 1;
    let z = pick(len.min(if tier == 0 { 3 } else { 17 }));
    let (n, nsn) = any_number(c.code, z, len - z);
    let t = TYPES[pick(TYPES.len())];
    let want = match length_for(c.regions[0], t, nsn.len()) {
        Len::Possible => Ok(NumberLengthType::IsPossible),
        Len::Local => Ok(NumberLengthType::IsPossibleLocalOnly),
        Len::Short => Err(ValidationError::TooShort),
        Len::Long => Err(ValidationError::TooLong),
        Len::Never => Err(ValidationError::InvalidLength),
    };
    let got = u().verif_is_possible_number_for_type_with_reason(&n, t);
    obs("ok", &[got.is_ok() as u8]);
    check(got == want, "possible length of a type");
    check(u().verif_is_possible_number_for_type(&n, t) == want.is_ok(), "possible for a type iff there is no reason against it");
}
/// A text is a possible number iff it parses to one; no plan, no possible number.
fn texts(task: usize, tier: usize) {
    if task == 7 {
        let cc = choice(4000) as i32 - 1500;
        assume(cc_of(cc).is_none());
        let n = number(cc, 0, &digits_nz(8));
        let t = TYPES[pick(TYPES.len())];
        check(u().verif_is_possible_number_for_type_with_reason(&n, t) == Err(ValidationError::InvalidCountryCode), "unknown country code");
        return;
    }
    let (p, r) = [("+1", "ZZ"), ("+1 (650) ", "DE"), ("", "GB"), ("", "ZZ"), ("00", "AR"), ("0", "IT"), ("+39", "US")][task];
    if let Some(m) = md_of(r) {
        warm_parse(m);
    }
    let k = pick(if tier == 0 { 12 } else { 17 });
    let s = format!("{}{}", p, digits(k));
    obs("text", s.as_bytes());
    let want = parse(&s, r).is_ok_and(|p| {
        let l = length(cc_of(p.code).unwrap().regions[0], p.nsn.len());
        l == Len::Possible || l == Len::Local
    });
    check(u().verif_is_possible_number_for_string(&s, r) == want, "a text is possible iff it is a possible number");
}
