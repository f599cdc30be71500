//! Dialling from a mobile phone.
use crate::oracle::*;
use crate::rt::*;
use crate::world::*;

pub fn tasks(_tier: usize) -> usize {
    w().shapes[0].len() + 1
}
pub fn run(task: usize, _tier: usize) {
    let with = pick(2) == 1;
    if task == w().shapes[0].len() {
        // no plan; no number
        let mut n = number(999, 0, &digits_nz(8));
        check(u().format_number_for_mobile_dialing(&n, "US", with) == "", "nothing to dial without a plan");
        n.set_raw_input("12 3".into());
        check(u().format_number_for_mobile_dialing(&n, "US", with) == "12 3", "kept input without a plan");
        let c = [39, 55, 1, 800][pick(4)];
        let from = cc_of(c).unwrap().regions[0].id();
        n.set_country_code(c);
        n.set_national_number(0);
        n.set_raw_input("*12 3x".into());
        check(u().format_number_for_mobile_dialing(&n, from, with) == if with { "*12 3x" } else { "*123" }, "kept input of a number that is none");
        return;
    }
    let (i, z, k) = w().shapes[0][task];
    let c = &w().ccs[i];
    warm(c, z + k);
    let (mut n, nsn) = any_number(c.code, z, k);
    n.set_extension("12".into());
    let carrier = ["", "15"][pick(2)];
    if !carrier.is_empty() {
        n.set_preferred_domestic_carrier_code(carrier.into());
    }
    let main = c.regions[0].id();
    let from = [main, c.regions[c.regions.len() - 1].id(), if c.code == 39 { "GB" } else { "IT" }, "ZZ"][pick(4)];
    let rm = region_of(c, &nsn);
    let t = rm.map_or(PhoneNumberType::Unknown, |m| type_of(m, &nsn));
    let abroad = from_abroad(rm, &nsn);
    use PhoneNumberType::*;
    let fm = matches!(t, FixedLine | Mobile | FixedLineOrMobile);
    let int = |b: bool| formatted(c.code, &nsn, "", if b { PhoneNumberFormat::International } else { PhoneNumberFormat::National });
    let want = if from == main {
        let s = if main == "BR" && fm {
            if carrier.is_empty() { String::new() } else { nsn_formatted(c.regions[0], &nsn, PhoneNumberFormat::National, carrier) }
        } else if c.code == 1 {
            int(abroad && length(c.regions[0], nsn.len()) != Len::Short)
        } else {
            int((main == "001" || fm && ["MX", "CL", "UZ"].contains(&main)) && abroad)
        };
        if with { s } else { diallable(&s) }
    } else if t != Unknown && abroad {
        if with { int(true) } else { format!("+{}{}", c.code, nsn) }
    } else {
        String::new()
    };
    let got = u().format_number_for_mobile_dialing(&n, from, with);
    obs("text", got.as_bytes());
    check(got == want, "what a mobile phone dials");
}
