//! Formats.
use crate::oracle::*;
use crate::rt::*;
use crate::world::*;

pub const FORMS: [PhoneNumberFormat; 4] = [PhoneNumberFormat::International, PhoneNumberFormat::National, PhoneNumberFormat::RFC3966, PhoneNumberFormat::E164];

pub fn tasks(_tier: usize) -> usize {
    w().shapes[0].len() + 3
}
pub fn run(task: usize, _tier: usize) {
    let f = FORMS[pick(4)];
    if task >= w().shapes[0].len() {
        // no plan: digits as they are; kept input of a number that is no number
        let cc = [999, 0, 210][task - w().shapes[0].len()];
        let (mut n, nsn) = any_number(cc, pick(3), 1 + pick(10));
        check(u().format(&n, f) == formatted(cc, &nsn, "", f), "format without a plan");
        n.set_raw_input("abc".into());
        check(u().format(&n, f) == formatted(cc, &nsn, "", f), "kept input does not matter");
        n.set_national_number(0);
        check(u().format(&n, f) == "abc", "a number that is no number is formatted as it was given");
        return;
    }
    let (i, z, k) = w().shapes[0][task];
    let c = &w().ccs[i];
    let (mut n, nsn) = any_number(c.code, z, k);
    // no extension, an empty one, or two digits
    let x = match pick(3) {
        0 => String::new(),
        1 => {
            n.set_extension(String::new());
            String::new()
        }
        _ => {
            let x = digits(2);
            n.set_extension(x.clone());
            x
        }
    };
    let got = u().format(&n, f);
    obs("text", got.as_bytes());
    check(got == formatted(c.code, &nsn, &x, f), "format");
}
