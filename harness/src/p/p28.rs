//! What is known about regions and country codes.
use crate::oracle::*;
use crate::rt::*;
use crate::world::*;

pub fn tasks(_tier: usize) -> usize {
    26 + 3
}
fn has_data(d: &PhoneNumberDesc) -> bool {
    d.has_example_number() || d.has_national_number_pattern() || d.possible_length.first() != Some(&-1)
}
fn desc(m: &PhoneMetadata, t: PhoneNumberType) -> &PhoneNumberDesc {
    use PhoneNumberType::*;
    match t {
        FixedLine | FixedLineOrMobile => &m.fixed_line,
        Mobile => &m.mobile,
        TollFree => &m.toll_free,
        PremiumRate => &m.premium_rate,
        SharedCost => &m.shared_cost,
        VoIP => &m.voip,
        PersonalNumber => &m.personal_number,
        Pager => &m.pager,
        UAN => &m.uan,
        VoiceMail => &m.voicemail,
        Unknown => &m.general_desc,
    }
}
fn supported(got: Option<Vec<PhoneNumberType>>, m: &PhoneMetadata) {
    let Some(got) = got else {
        check(false, "a plan has types");
        return;
    };
    for t in TYPES {
        let real = t != PhoneNumberType::Unknown && t != PhoneNumberType::FixedLineOrMobile;
        check(got.contains(&t) == (real && has_data(desc(m, t))), "the types of a plan are those it has data for");
    }
}
pub fn run(task: usize, _tier: usize) {
    match task {
        0..=25 => region(&String::from_utf8(vec![b'A' + task as u8, b'A' + choice(26) as u8]).unwrap()),
        26 => {
            for r in ["001", "ZZ", "", "U", "us", "USA", "ＵＳ"] {
                region(r);
            }
        }
        27 => {
            let mut l = u().verif_get_supported_calling_codes();
            l.sort();
            check(l == w().ccs.iter().map(|c| c.code).collect::<Vec<_>>(), "the country codes there are");
            let mut l = u().verif_get_supported_global_network_calling_codes();
            l.sort();
            check(l == w().ccs.iter().filter(|c| !c.geo).map(|c| c.code).collect::<Vec<_>>(), "the country codes of no region");
        }
        _ => {
            let cc = choice(4000) as i32 - 1500;
            check(u().verif_get_country_mobile_token(cc) == if cc == 54 { Some('9') } else { None }, "mobile token");
            let n = u().verif_get_example_number_for_non_geo_entity(cc);
            let t = u().verif_get_supported_types_for_non_geo_entity(cc);
            let mut hit = false;
            for c in &w().ccs {
                if !c.geo && c.code == cc {
                    hit = true;
                    supported(t.clone(), c.regions[0]);
                }
            }
            check(t.is_some() == hit, "types iff there is a plan of no region");
            check(n.is_some() == hit, "an example iff there is a plan of no region");
            if let Some(n) = n {
                check(n.country_code() == cc && u().is_valid_number(&n), "an example is a valid number of its country code");
                check(u().get_region_code_for_number(&n) == "001", "and of no region");
            }
        }
    }
}
fn region(r: &str) {
    let m = md_of(r);
    for strip in [false, true] {
        let p = u().verif_get_ndd_prefix_for_region(r, strip);
        check(p == m.map(|m| if strip { m.national_prefix().replace('~', "") } else { m.national_prefix().to_string() }), "national prefix of a region");
    }
    let Some(m) = m else {
        check(u().verif_get_supported_types_for_region(r).is_none(), "no plan, no types");
        for t in TYPES {
            check(u().verif_get_example_number_for_type_and_region_code(r, t).is_none(), "no plan, no example");
        }
        return;
    };
    supported(u().verif_get_supported_types_for_region(r), m);
    for t in TYPES {
        let n = u().verif_get_example_number_for_type_and_region_code(r, t);
        check(n.is_some() == desc(m, t).has_example_number(), "an example iff the plan has one");
        if let Some(n) = n {
            use PhoneNumberType::*;
            check(n.country_code() == m.country_code() && u().is_valid_number_for_region(&n, r), "an example is valid in its region");
            let g = u().get_number_type(&n);
            check(g == t || t == Unknown || matches!(t, FixedLine | Mobile | FixedLineOrMobile) && matches!(g, FixedLine | Mobile | FixedLineOrMobile), "an example is of its type");
        }
    }
}
