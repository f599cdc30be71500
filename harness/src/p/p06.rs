//! Possible numbers.
use crate::oracle::*;
use crate::rt::*;
use crate::world::*;

fn unknown(task: usize) {
    // an arbitrary country code, in one of four magnitudes, that no plan has
    let cc = match task {
        0 => choice(1000) as i32,
        1 => 1000 + choice(3000) as i32,
        2 => -1 - choice(2000) as i32,
        _ => [i32::MAX, i32::MIN, 10000, 65536 + 1, 1 << 24 | 44][pick(5)],
    };
    assume(cc_of(cc).is_none());
    let n = number(cc, 0, &digits_nz(1 + pick(12)));
    check(u().is_possible_number_with_reason(&n) == Err(ValidationError::InvalidCountryCode), "unknown country code");
    check(!u().is_possible_number(&n), "a number without a plan is not possible");
    check(!u().is_valid_number(&n), "a number without a plan is not valid");
    check(u().get_region_code_for_number(&n) == "ZZ", "a number without a plan has no region");
    check(u().get_number_type(&n) == PhoneNumberType::Unknown, "a number without a plan has no type");
    check(u().get_region_code_for_country_code(cc) == "ZZ", "an unknown country code has no region");
    check(u().get_region_codes_for_country_code(cc).is_none(), "an unknown country code has no regions");
}

pub fn tasks(_tier: usize) -> usize {
    4 + w().ccs.len() * 17
}
pub fn run(task: usize, _tier: usize) {
    if task < 4 {
        return unknown(task);
    }
    let c = &w().ccs[(task - 4) / 17];
    let len = (task - 4) % 17 + 1;
    let z = pick(len);
    let (n, nsn) = any_number(c.code, z, len - z);
    let want = match length(c.regions[0], nsn.len()) {
        Len::Possible => Ok(NumberLengthType::IsPossible),
        Len::Local => Ok(NumberLengthType::IsPossibleLocalOnly),
        Len::Short => Err(ValidationError::TooShort),
        Len::Long => Err(ValidationError::TooLong),
        Len::Never => Err(ValidationError::InvalidLength),
    };
    let got = u().is_possible_number_with_reason(&n);
    obs("ok", &[got.is_ok() as u8]);
    check(got == want, "possible length");
    check(u().is_possible_number(&n) == want.is_ok(), "possible iff there is no reason against it");
}
