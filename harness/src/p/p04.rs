//! Validity for a region.
use crate::oracle::*;
use crate::rt::*;
use crate::world::*;

pub fn tasks(_tier: usize) -> usize {
    w().shapes[0].len()
}
pub fn run(task: usize, _tier: usize) {
    let (i, z, k) = w().shapes[0][task];
    let c = &w().ccs[i];
    warm(c, z + k);
    let (n, nsn) = any_number(c.code, z, k);
    let mut some = false;
    for m in &c.regions {
        let v = u().is_valid_number_for_region(&n, m.id());
        check(v == (type_of(m, &nsn) != PhoneNumberType::Unknown), "valid for a region iff the region's plan has a type for it");
        some |= v;
    }
    // regions of another country calling code, and no regions at all
    let other = &w().ccs[(i + 1) % w().ccs.len()].regions[0];
    if other.id() != "001" {
        check(!u().is_valid_number_for_region(&n, other.id()), "not valid for a region with another country code");
    }
    for r in ["ZZ", "", "us", "USA"] {
        check(!u().is_valid_number_for_region(&n, r), "not valid for an unknown region");
    }
    if c.geo {
        check(!u().is_valid_number_for_region(&n, "001"), "geographical numbers do not belong to the world");
    }
    let valid = u().is_valid_number(&n);
    obs("valid", &[valid as u8]);
    check(!valid || some, "a valid number is valid for some region");
    let r = u().get_region_code_for_number(&n).to_string();
    check(valid == u().is_valid_number_for_region(&n, &r), "valid iff valid for its own region");
}
