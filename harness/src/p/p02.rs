//! E.164 shape and the national significant number.
use crate::rt::*;
use crate::world::*;

pub fn tasks(_tier: usize) -> usize {
    w().shapes[1].len() + 20 + w().ccs.len()
}
pub fn run(task: usize, _tier: usize) {
    let ns = w().shapes[1].len();
    if task >= ns {
        extreme(task - ns);
        return;
    }
    let (i, z, k) = w().shapes[1][task];
    let c = &w().ccs[i];
    let (n, nsn) = any_number(c.code, z, k);
    let got = u().get_national_significant_number(&n);
    obs("nsn", got.as_bytes());
    check(got == nsn, "national significant number = leading zeros + national number");
    let e = u().format(&n, PhoneNumberFormat::E164);
    obs("e164", e.as_bytes());
    check(e.as_ref() == format!("+{}{}", c.code, nsn), "E164 = + country code + national significant number");
}
/// Every field at its extremes.
fn extreme(task: usize) {
    let mut n = PhoneNumber::new();
    let (code, v, d) = if task == 19 {
        // the largest numbers there are
        let v = u64::MAX - pick(16) as u64;
        (704, v, v.to_string())
    } else {
        let (code, d) = if task < 19 { (1 + task as i32 * 37, digits_nz(task + 1)) } else { (w().ccs[task - 20].code, digits_nz(4)) };
        (code, value(&d), d)
    };
    n.set_country_code(code);
    n.set_national_number(v);
    let zeros = [i32::MIN, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 25][pick(17)];
    let flag = pick(3);
    if flag > 0 {
        n.set_italian_leading_zero(flag == 2);
    }
    let given = pick(2) == 1;
    if given {
        n.set_number_of_leading_zeros(zeros);
    }
    let mut nsn = String::with_capacity(64);
    if flag == 2 {
        for _ in 0..if given { zeros } else { 1 } {
            nsn.push('0');
        }
    }
    nsn.push_str(&d);
    let got = u().get_national_significant_number(&n);
    obs("nsn", got.as_bytes());
    check(got == nsn, "as many zeros as were set, then the number");
    check(u().format(&n, PhoneNumberFormat::E164).as_ref() == format!("+{}{}", code, nsn), "E164 of an extreme number");
}
