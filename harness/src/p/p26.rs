//! What the type and the plan say about a number.
use crate::oracle::*;
use crate::rt::*;
use crate::world::*;

pub fn tasks(_tier: usize) -> usize {
    w().shapes[0].len()
}
pub fn run(task: usize, _tier: usize) {
    let (i, z, k) = w().shapes[0][task];
    let c = &w().ccs[i];
    warm(c, z + k);
    let (n, nsn) = any_number(c.code, z, k);
    let rm = region_of(c, &nsn);
    let t = rm.map_or(PhoneNumberType::Unknown, |m| type_of(m, &nsn));
    let geo = u().is_number_geographical(&n);
    obs("geo", &[geo as u8]);
    use PhoneNumberType::*;
    let want = matches!(t, FixedLine | FixedLineOrMobile) || t == Mobile && [52, 54, 55, 62, 86].contains(&c.code);
    check(geo == want, "geographical: fixed lines, and mobiles where they have area codes");
    let d = u().can_be_internationally_dialled(&n);
    obs("dial", &[d as u8]);
    let barred = rm.is_some_and(|m| m.id() != "001" && desc_match(&m.no_international_dialling, &nsn));
    check(d == !barred, "diallable from abroad unless the plan says otherwise");
}
