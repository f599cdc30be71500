//! Type, region and validity agree with the numbering plan.
use crate::oracle::*;
use crate::rt::*;
use crate::world::*;

pub fn tasks(_tier: usize) -> usize {
    w().shapes[0].len()
}
pub fn run(task: usize, _tier: usize) {
    let (i, z, k) = w().shapes[0][task];
    let c = &w().ccs[i];
    warm(c, z + k);
    let (n, nsn) = any_number(c.code, z, k);
    let region = u().get_region_code_for_number(&n);
    obs("region", region.as_bytes());
    let ty = u().get_number_type(&n);
    obs("type", &[ty as u8]);
    let valid = u().is_valid_number(&n);
    obs("valid", &[valid as u8]);
    let rm = region_of(c, &nsn);
    check(region == rm.map_or("ZZ", |m| m.id()), "region of the number");
    let rt = rm.map_or(PhoneNumberType::Unknown, |m| type_of(m, &nsn));
    check(ty == rt, "type of the number");
    check(valid == (rt != PhoneNumberType::Unknown), "valid iff the type is known");
}
