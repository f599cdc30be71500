//! Area codes.
use crate::oracle::*;
use crate::rt::*;
use crate::world::*;

pub fn tasks(_tier: usize) -> usize {
    w().shapes[0].len()
}
pub fn run(task: usize, _tier: usize) {
    let (i, z, k) = w().shapes[0][task];
    let c = &w().ccs[i];
    warm(c, z + k);
    let (mut n, nsn) = any_number(c.code, z, k);
    if pick(2) == 1 {
        n.set_extension("12".into());
    }
    let rm = region_of(c, &nsn);
    let t = rm.map_or(PhoneNumberType::Unknown, |m| type_of(m, &nsn));
    // digit groups of the international format
    let f = formatted(c.code, &nsn, "", PhoneNumberFormat::International);
    let mut gs = vec![];
    let mut run = 0;
    for b in f.bytes() {
        if b.is_ascii_digit() {
            run += 1;
        } else if run > 0 {
            gs.push(run);
            run = 0;
        }
    }
    if run > 0 {
        gs.push(run);
    }
    let ndc = if gs.len() < 3 {
        0
    } else if t == PhoneNumberType::Mobile && c.code == 54 {
        gs[2] + 1
    } else {
        gs[1]
    };
    let got = u().get_length_of_national_destination_code(&n);
    obs("ndc", &[got as u8]);
    check(got == ndc, "length of the national destination code");
    check(got <= nsn.len(), "a destination code is part of the number");
    use PhoneNumberType::*;
    let geo = matches!(t, FixedLine | FixedLineOrMobile) || t == Mobile && [52, 54, 55, 62, 86].contains(&c.code);
    let area = match rm {
        Some(m) if m.id() != "001" && geo => {
            let closed = !m.has_national_prefix() && z == 0 && c.code != 52;
            if closed || t == Mobile && c.code == 86 { 0 } else { ndc }
        }
        _ => 0,
    };
    let got = u().get_length_of_geographical_area_code(&n);
    obs("area", &[got as u8]);
    check(got == area, "length of the area code");
}
