//! What was asked before does not matter.
use crate::oracle::*;
use crate::rt::*;
use crate::world::*;
use std::sync::OnceLock;

/// An instance that has already dealt with every region.
fn used() -> &'static PhoneNumberUtil {
    static U: OnceLock<&'static PhoneNumberUtil> = OnceLock::new();
    U.get_or_init(|| {
        let u: &'static PhoneNumberUtil = Box::leak(Box::new(PhoneNumberUtil::new()));
        for m in w().mds {
            for d in [&m.fixed_line, &m.mobile, &m.toll_free] {
                let e = d.example_number();
                if e.is_empty() {
                    continue;
                }
                let z = e.len() - e.trim_start_matches('0').len();
                let n = number(m.country_code(), z, &e[z..]);
                u.get_number_type(&n);
                u.is_valid_number_for_region(&n, m.id());
                u.format(&n, PhoneNumberFormat::National);
                u.format(&n, PhoneNumberFormat::International);
                let _ = u.parse(e, m.id());
            }
            u.parse("+1 650 253 0000", m.id()).ok();
        }
        u
    })
}
fn lens() -> Vec<(usize, usize, usize)> {
    let mut v = Vec::new();
    for (i, c) in w().ccs.iter().enumerate() {
        for k in [c.max.min(12), c.min] {
            for r in 0..c.regions.len() {
                if !v.contains(&(i, k, r)) {
                    v.push((i, k, r));
                }
            }
        }
    }
    v
}
const ASKED: [(&str, &str); 8] = [("", "US"), ("", "DE"), ("", "GB"), ("0", "DE"), ("+", "ZZ"), ("1", "US"), ("1", "BS"), ("0", "AR")];
const CODES: [i32; 8] = [1, 44, 39, 49, 54, 800, 7, 590];

pub fn tasks(_tier: usize) -> usize {
    used();
    lens().len() + ASKED.len() * ASKED.len() + CODES.len() * CODES.len()
}
pub fn run(task: usize, tier: usize) {
    let ls = lens();
    if task < ls.len() {
        fresh(ls[task]);
        return;
    }
    let t = task - ls.len();
    if t < ASKED.len() * ASKED.len() {
        texts(t % ASKED.len(), t / ASKED.len(), tier);
        return;
    }
    let t = t - ASKED.len() * ASKED.len();
    numbers(CODES[t % CODES.len()], CODES[t / CODES.len()]);
}
/// A used instance says what the plan says, of a region and of the number.
fn fresh((i, k, r): (usize, usize, usize)) {
    let c = &w().ccs[i];
    warm(c, k);
    let (n, nsn) = any_number(c.code, 0, k);
    let a = used();
    let rm = c.regions[r];
    if rm.id() != "001" {
        let v = a.is_valid_number_for_region(&n, rm.id());
        obs("valid", &[v as u8]);
        check(v == (type_of(rm, &nsn) != PhoneNumberType::Unknown), "valid for a region, whatever was asked before");
    }
    if r > 0 {
        return;
    }
    let t = a.get_number_type(&n);
    let home = region_of(c, &nsn);
    obs("type", &[t as u8]);
    check(t == home.map_or(PhoneNumberType::Unknown, |m| type_of(m, &nsn)), "the plan's type, whatever was asked before");
    check(a.get_region_code_for_number(&n) == home.map_or("ZZ", |m| m.id()), "the plan's region, whatever was asked before");
    for f in [PhoneNumberFormat::International, PhoneNumberFormat::National] {
        let s = a.format(&n, f);
        obs("text", s.as_bytes());
        check(s == formatted(c.code, &nsn, "", f), "the plan's text, whatever was asked before");
    }
}
fn texts(i: usize, j: usize, tier: usize) {
    let ((p1, r1), (p2, r2)) = (ASKED[i], ASKED[j]);
    for r in [r1, r2] {
        if let Some(m) = md_of(r) {
            warm_parse(m);
        }
    }
    let d = digits(if tier == 0 { 5 } else { 8 });
    let d = format!("{}{}", ["49 30 1", "6502 53", "20 7946 "][(i + j) % 3], d);
    let (a, b) = (format!("{}{}", p1, d), format!("{}{}", p2, d));
    let x = u().parse_and_keep_raw_input(&a, r1);
    let y = u().parse_and_keep_raw_input(&b, r2);
    obs("text", b.as_bytes());
    agree(&y, &parse(&b, r2), Some(&b));
    agree(&u().parse(&a, r1), &parse(&a, r1), None);
    agree(&x, &parse(&a, r1), Some(&a));
    check(u().parse_and_keep_raw_input(&b, r2) == y, "the same answer again");
}
fn numbers(c1: i32, c2: i32) {
    let k = 9;
    let d = digits_nz(k);
    let (a, mut b) = (number(c1, 0, &d), number(c2, if c1 == c2 { 1 } else { 0 }, &d));
    let nsn = if c1 == c2 { format!("0{}", d) } else { d.clone() };
    let ext = if pick(2) == 1 { "12" } else { "" };
    if !ext.is_empty() {
        b.set_extension(ext.to_string());
    }
    u().get_number_type(&a);
    u().is_valid_number(&a);
    let c = cc_of(c2).unwrap();
    let home = region_of(c, &nsn);
    let t = u().get_number_type(&b);
    obs("type", &[t as u8]);
    check(t == home.map_or(PhoneNumberType::Unknown, |m| type_of(m, &nsn)), "type, whatever was asked before");
    for f in [PhoneNumberFormat::E164, PhoneNumberFormat::International, PhoneNumberFormat::National, PhoneNumberFormat::RFC3966] {
        u().format(&a, f);
        let s = u().format(&b, f);
        obs("text", s.as_bytes());
        check(s == formatted(c2, &nsn, ext, f), "text, whatever was asked before");
    }
    u().format_out_of_country_calling_number(&a, "BR");
    check(u().format_out_of_country_calling_number(&b, "IT") == out_of_country(c2, &nsn, ext, "IT"), "dialling from abroad, whatever was asked before");
}
