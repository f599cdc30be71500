//! Carrier codes.
use crate::oracle::*;
use crate::rt::*;
use crate::world::*;

pub fn tasks(_tier: usize) -> usize {
    w().shapes[0].len() + 1
}
pub fn run(task: usize, _tier: usize) {
    let carrier = match pick(4) {
        0 => String::new(),
        1 => digits(1),
        2 => digits(2),
        _ => digits(5),
    };
    if task == w().shapes[0].len() {
        let (n, nsn) = any_number([999, 0][pick(2)], pick(3), 8);
        check(u().format_national_number_with_carrier_code(&n, &carrier) == nsn, "digits as they are without a plan");
        return;
    }
    let (i, z, k) = w().shapes[0][task];
    let c = &w().ccs[i];
    let (mut n, nsn) = any_number(c.code, z, k);
    // what the number says about carriers does not matter
    n.set_preferred_domestic_carrier_code("99".into());
    let mut x = String::new();
    if pick(2) == 1 {
        x = digits(3);
        n.set_extension(x.clone());
    }
    let got = u().format_national_number_with_carrier_code(&n, &carrier);
    obs("text", got.as_bytes());
    let m = c.regions[0];
    let want = format!("{}{}", nsn_formatted(m, &nsn, PhoneNumberFormat::National, &carrier), ext_formatted(m, &x, PhoneNumberFormat::National));
    check(got == want, "national format with a carrier code");
    if carrier.is_empty() {
        check(got == u().format(&n, PhoneNumberFormat::National), "no carrier code: the national format");
    }
}
