//! Example numbers.
use crate::oracle::*;
use crate::rt::*;
use crate::world::*;

const TYPES: [PhoneNumberType; 12] = [
    PhoneNumberType::FixedLine,
    PhoneNumberType::Mobile,
    PhoneNumberType::FixedLineOrMobile,
    PhoneNumberType::TollFree,
    PhoneNumberType::PremiumRate,
    PhoneNumberType::SharedCost,
    PhoneNumberType::VoIP,
    PhoneNumberType::PersonalNumber,
    PhoneNumberType::Pager,
    PhoneNumberType::UAN,
    PhoneNumberType::VoiceMail,
    PhoneNumberType::Unknown,
];

pub fn tasks(_tier: usize) -> usize {
    28
}
pub fn run(task: usize, _tier: usize) {
    if task == 26 {
        for r in ["001", "ZZ", "", "us"] {
            check(u().get_example_number(r).is_err(), "no plan, no example");
            check(u().get_invalid_example_number(r).is_err(), "no plan, no example of an invalid number");
        }
        return;
    }
    if task > 26 {
        let t = TYPES[pick(TYPES.len() - 1)];
        if let Ok(n) = u().get_example_number_for_type(t) {
            check(u().is_valid_number(&n), "an example is valid");
            let g = u().get_number_type(&n);
            use PhoneNumberType::*;
            let fm = matches!(t, FixedLine | Mobile | FixedLineOrMobile) && matches!(g, FixedLine | Mobile | FixedLineOrMobile);
            check(g == t || fm || t == Unknown, "an example is of its type");
        } else {
            check(false, "every type has an example");
        }
        return;
    }
    // every name of two capitals
    let r = String::from_utf8(vec![b'A' + task as u8, b'A' + choice(26) as u8]).unwrap();
    let n = u().get_example_number(&r);
    let Some(m) = md_of(&r) else {
        check(n.is_err(), "no plan, no example");
        check(u().get_invalid_example_number(&r).is_err(), "no plan, no example of an invalid number");
        return;
    };
    match n {
        Ok(n) => {
            check(n.country_code() == m.country_code(), "country code of the example");
            check(u().is_valid_number(&n), "an example is valid");
            check(u().is_valid_number_for_region(&n, m.id()), "an example is valid in its region");
            check(matches!(u().get_number_type(&n), PhoneNumberType::FixedLine | PhoneNumberType::FixedLineOrMobile), "an example is a fixed line");
            check(u().is_possible_number(&n), "an example is possible");
        }
        Err(_) => check(false, "every region has an example"),
    }
    match u().get_invalid_example_number(m.id()) {
        Ok(n) => {
            check(n.country_code() == m.country_code(), "country code of the invalid example");
            check(!u().is_valid_number(&n), "an example of an invalid number is not valid");
        }
        Err(_) => check(false, "every region has an example of an invalid number"),
    }
}
