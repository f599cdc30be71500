//! Whatever is passed in gets an answer.
use super::p08::any_char;
use crate::oracle::*;
use crate::rt::*;
use crate::world::*;

const REGIONS: [&str; 4] = ["US", "DE", "ZZ", "IT"];
const LEADS: [&str; 20] = [
    "", "+", "1", "12", "+1", "+49", "+80", "tel:", "(0", "123;", "123x", "1234 ext", "650253000", "+1650253", "00", "011", "abc", "0800 FLO", "+390", "12345\\",
];
const TAILS: [&str; 3] = ["", "2345678", " x12#"];
/// Arbitrary characters in the middle: 1 is any of ASCII, 2 one of the others.
const CLASSES: [&[usize]; 8] = [&[1], &[2], &[1, 1], &[1, 2], &[2, 1], &[2, 2], &[1, 1, 1], &[1, 1, 1, 1]];

fn classes(tier: usize) -> usize {
    if tier == 0 { 5 } else { 8 }
}
const CODES: [i32; 14] = [0, 1, 7, 39, 44, 52, 54, 55, 800, 979, 999, -1, i32::MAX, i32::MIN];
pub fn tasks(tier: usize) -> usize {
    LEADS.len() * TAILS.len() * classes(tier) + CODES.len() * 20 + 128
}
pub fn run(task: usize, tier: usize) {
    let nt = LEADS.len() * TAILS.len() * classes(tier);
    if task < nt {
        text(LEADS[task % LEADS.len()], CLASSES[task / LEADS.len() / TAILS.len()], TAILS[task / LEADS.len() % TAILS.len()]);
        return;
    }
    let task = task - nt;
    if task < CODES.len() * 20 {
        object(CODES[task % CODES.len()], task / CODES.len() + 1, tier);
        return;
    }
    region(task - CODES.len() * 20);
}
fn text(lead: &str, classes: &[usize], tail: &str) {
    for r in REGIONS {
        if let Some(m) = md_of(r) {
            warm_parse(m);
        }
    }
    let mut s = String::with_capacity(64);
    s.push_str(lead);
    for n in classes {
        s.push(any_char(*n));
    }
    s.push_str(tail);
    let r = REGIONS[pick(REGIONS.len())];
    let want = parse(&s, r);
    let got = u().parse(&s, r);
    obs("text", s.as_bytes());
    agree(&got, &want, None);
    agree(&u().parse_and_keep_raw_input(&s, r), &want, Some(&s));
    u().is_alpha_number(&s);
    u().convert_alpha_characters_in_number(&s);
    if let Ok(p) = got {
        obs("number", &p.national_number().to_le_bytes());
        check(u().is_possible_number(&p) || !u().is_valid_number(&p), "what is valid is possible");
    }
}
fn object(code: i32, len: usize, tier: usize) {
    let mut n = PhoneNumber::new();
    n.set_country_code(code);
    let d = if len == 20 {
        n.set_national_number(u64::MAX - pick(3) as u64);
        n.national_number().to_string()
    } else {
        let d = digits(len);
        n.set_national_number(value(&d));
        d
    };
    let _ = d;
    let kind = if tier == 0 { (len * 5 + code as usize % 7 + pick(2) * 6) % 12 } else { pick(12) };
    if kind >= 8 {
        n.set_italian_leading_zero(kind % 2 == 1);
        n.set_number_of_leading_zeros([i32::MIN, -1, 20, 2][kind % 4]);
    }
    if kind != 0 {
        n.set_raw_input(["", "x", "+", "é", "0", "+1 650 253 0000", "１２３", "0$1"][kind % 8].to_string());
        n.set_country_code_source(
            [
                CountryCodeSource::UNSPECIFIED,
                CountryCodeSource::FROM_NUMBER_WITH_PLUS_SIGN,
                CountryCodeSource::FROM_NUMBER_WITH_IDD,
                CountryCodeSource::FROM_NUMBER_WITHOUT_PLUS_SIGN,
                CountryCodeSource::FROM_DEFAULT_COUNTRY,
            ][kind % 5],
        );
    }
    if kind % 2 == 1 {
        n.set_extension(["", "1", "é", "$1", "12345678901234567890123"][kind / 2 % 5].to_string());
    }
    if kind % 3 == 1 {
        n.set_preferred_domestic_carrier_code(["", "é", "$1", "\\1", "${x"][kind / 3 % 5].to_string());
    }
    let v = u().is_valid_number(&n);
    obs("valid", &[v as u8]);
    let p = u().is_possible_number(&n);
    check(p == u().is_possible_number_with_reason(&n).is_ok(), "possible iff no reason against it");
    check(!v || p, "what is valid is possible");
    let t = u().get_number_type(&n);
    check(v == (t != PhoneNumberType::Unknown), "what is valid has a type");
    let known = cc_of(code).is_some();
    check(known || (!v && !p), "nothing is valid without a numbering plan");
    for f in [PhoneNumberFormat::E164, PhoneNumberFormat::International, PhoneNumberFormat::National, PhoneNumberFormat::RFC3966] {
        check(!u().format(&n, f).is_empty(), "a formatted number is not empty");
    }
    for r in [["US", ""], ["BR", "ZZ"]][len % 2] {
        obs("out", u().format_out_of_country_calling_number(&n, r).as_bytes());
        obs("alpha", u().format_out_of_country_keeping_alpha_chars(&n, r).as_bytes());
        obs("mobile", u().format_number_for_mobile_dialing(&n, r, kind % 2 == 0).as_bytes());
        obs("original", u().format_in_original_format(&n, r).as_bytes());
        let vr = u().is_valid_number_for_region(&n, r);
        check(!vr || v, "what is valid for a region is valid");
    }
    obs("carrier", u().format_national_number_with_carrier_code(&n, "15").as_bytes());
    u().get_length_of_geographical_area_code(&n);
    u().get_length_of_national_destination_code(&n);
    let rc = u().get_region_code_for_number(&n);
    check(!v || rc != "ZZ", "what is valid has a region");
    u().is_number_geographical(&n);
    u().can_be_internationally_dialled(&n);
    let same = u().is_number_match(&n, &n);
    check(same == if code == 0 { MatchType::NsnMatch } else { MatchType::ExactMatch }, "a number matches itself");
    let mut c = n.clone();
    let done = u().truncate_too_long_number(&mut c);
    check(!v || done && c == n, "a valid number is not cut");
    check(done == u().is_valid_number(&c), "what was cut is valid");
}
fn region(first: usize) {
    let mut r = String::new();
    r.push(first as u8 as char);
    let k = pick(130);
    if k < 128 {
        r.push(k as u8 as char);
    } else if k == 129 {
        r.push_str("é");
    }
    let m = md_of(&r);
    let code = u().get_country_code_for_region(&r);
    check(code == m.map(|m| m.country_code()), "country code of a region that exists, and of no other");
    check(u().is_nanpa_country(&r) == m.is_some_and(|m| m.country_code() == 1), "NANPA");
    if m.is_none() {
        check(u().parse("6502530000", &r).is_err(), "nothing is read in an unknown region");
        check(u().get_example_number(&r).is_err() && u().get_invalid_example_number(&r).is_err(), "no examples of an unknown region");
        let n = number(1, 0, "6502530000");
        check(!u().is_valid_number_for_region(&n, &r), "nothing is valid in an unknown region");
    }
}
