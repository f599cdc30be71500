//! International prefixes.
use crate::oracle::*;
use crate::rt::*;
use crate::world::*;

pub fn tasks(tier: usize) -> usize {
    w().mds.len() * if tier == 0 { 3 } else { 8 }
}
pub fn run(task: usize, tier: usize) {
    let m = &w().mds[task % w().mds.len()];
    if m.id() == "001" {
        return;
    }
    // the way out: the preferred prefix, or the only one
    let idd = if m.has_preferred_international_prefix() { m.preferred_international_prefix() } else { m.international_prefix() };
    let idd: String = idd.chars().filter(|c| c.is_ascii_digit()).collect();
    if !full(m.international_prefix(), &idd) {
        return;
    }
    let k = task / w().mds.len();
    let (code, len) = match k {
        0 => (44, 10),
        1 => (m.country_code(), m.general_desc.possible_length[0].max(4) as usize),
        2 => (0, 3),
        n => ([1, 7, 39, 800, 86][n - 3], 8 + tier),
    };
    warm_parse(m);
    if code != 0 {
        warm_parse(cc_of(code).unwrap().regions[0]);
    }
    let d = digits(len);
    let rest = if code != 0 { format!("{}{}", code, d) } else { d };
    let s = format!("{}{}", idd, rest);
    // a longer prefix may be there too
    let e = rx(&format!("^(?:{})", m.international_prefix())).find(&s).map_or(0, |x| x.end());
    assume(e == idd.len());
    let a = u().parse_and_keep_raw_input(&s, m.id());
    agree(&a, &parse(&s, m.id()), Some(&s));
    let Ok(a) = a else { return };
    obs("code", &a.country_code().to_le_bytes());
    if rest.starts_with('0') {
        check(a.country_code_source() != CountryCodeSource::FROM_NUMBER_WITH_IDD, "no country code starts with zero");
        return;
    }
    check(a.country_code_source() == CountryCodeSource::FROM_NUMBER_WITH_IDD, "the prefix is noticed");
    let b = u().parse(&format!("+{}", rest), m.id());
    match b {
        Ok(b) => {
            check(u().is_number_match(&a, &b) == MatchType::ExactMatch, "a prefix means the same as a plus");
            check(u().parse(&s, m.id()) == Ok(b), "and gives the same number");
        }
        Err(_) => check(false, "what is a number behind a prefix is one behind a plus"),
    }
}
