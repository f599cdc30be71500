//! Formatting a number the way it was written.
use crate::oracle::*;
use crate::rt::*;
use crate::world::*;

fn list(tier: usize) -> Vec<(usize, usize, usize)> {
    let mut v = w().shapes[0].clone();
    if tier == 0 {
        // only lengths the plan allows; a leading zero with every other one
        v.retain(|&(i, z, k)| w().ccs[i].min <= z + k && z + k <= w().ccs[i].max.min(13) && (z == 0 || w().ccs[i].code == 39 || (i + k) % 2 == 0));
    }
    v
}
pub fn tasks(tier: usize) -> usize {
    if tier == 0 { 4 * list(0).len() } else { 12 * list(tier).len() }
}
fn original(code: i32, nsn: &str, ext: &str, raw: Option<&str>, src: Option<Src>, from: &str) -> String {
    let m = cc_of(code).unwrap().regions[0];
    let rule = choose(&m.number_format, nsn);
    if let (Some(r), None) = (raw, rule) {
        return r.to_string();
    }
    let national = formatted(code, nsn, ext, PhoneNumberFormat::National);
    let s = match src {
        None => return national,
        Some(Src::Plus) => formatted(code, nsn, ext, PhoneNumberFormat::International),
        Some(Src::NoPlus) => formatted(code, nsn, ext, PhoneNumberFormat::International)[1..].to_string(),
        Some(Src::Idd) => out_of_country(code, nsn, ext, from),
        Some(Src::Default) => {
            let np = m.national_prefix().replace('~', "");
            let d: String = diallable(raw.unwrap_or("")).chars().filter(|c| c.is_ascii_digit()).collect();
            let with = d.starts_with(&np) && valid_text(&d[np.len()..], m);
            match rule {
                Some(f) if m.id() != "001" && !with => {
                    let r = f.national_prefix_formatting_rule();
                    match r.find("$1") {
                        Some(i) if r[..i].bytes().any(|b| b.is_ascii_digit()) => {
                            format!("{}{}", fill(f.pattern(), f.format(), nsn), ext_formatted(m, ext, PhoneNumberFormat::National))
                        }
                        _ => national,
                    }
                }
                _ => national,
            }
        }
    };
    match raw {
        Some(r) if !r.is_empty() && !s.is_empty() && diallable(r) != diallable(&s) => r.to_string(),
        _ => s,
    }
}
pub fn run(task: usize, tier: usize) {
    let per = if tier == 0 { 4 } else { 12 };
    let (i, z, k) = list(tier)[task / per];
    let c = &w().ccs[i];
    let m = c.regions[0];
    warm(c, z + k);
    if m.id() != "001" {
        warm_parse(m);
    }
    let (mut n, nsn) = any_number(c.code, z, k);
    // quick: three kinds of raw input for every shape, the other nine in turns
    const KINDS: [usize; 12] = [0, 1, 5, 2, 3, 4, 6, 7, 8, 9, 10, 11];
    let kind = match task % per {
        t @ 0..=2 => KINDS[t],
        t if tier == 0 => KINDS[t + 3 * ((task / per + i) % 3) + pick(3)],
        t => KINDS[t],
    };
    let from = if kind == 10 { "BR" } else { "IT" };
    let np = m.national_prefix().replace('~', "");
    let (raw, src) = match kind {
        0 => (Some(nsn.clone()), Some(Src::Default)),
        1 => (Some(format!("{}{}", np, nsn)), Some(Src::Default)),
        2 => (Some(format!("+{}{}", c.code, nsn)), Some(Src::Plus)),
        3 | 10 => (Some(format!("{}{}{}", idd_of(md_of(from).unwrap(), false), c.code, nsn)), Some(Src::Idd)),
        4 => (Some(format!("{} {}", c.code, nsn)), Some(Src::NoPlus)),
        5 => (Some(format!("{}-{}", np, digits(if k > 7 { 5 } else { 3 }))), Some(Src::Default)),
        6 => (Some(format!("+{} {}", c.code, digits(2))), Some(Src::Plus)),
        7 => (Some(nsn.clone()), None),
        11 => {
            // something between the digits that is dialled, or is not
            let mut r = String::with_capacity(64);
            let at = k / 2;
            r.push_str(&nsn[..at]);
            r.push(['*', '#', '+', '-', 'A'][pick(5)]);
            r.push_str(&nsn[at..]);
            (Some(r), Some(Src::Default))
        }
        8 => (None, Some(Src::Default)),
        _ => (Some(String::new()), Some(Src::Plus)),
    };
    if let Some(r) = &raw {
        n.set_raw_input(r.clone());
    }
    if let Some(s) = src {
        n.set_country_code_source(match s {
            Src::Plus => CountryCodeSource::FROM_NUMBER_WITH_PLUS_SIGN,
            Src::Idd => CountryCodeSource::FROM_NUMBER_WITH_IDD,
            Src::NoPlus => CountryCodeSource::FROM_NUMBER_WITHOUT_PLUS_SIGN,
            Src::Default => CountryCodeSource::FROM_DEFAULT_COUNTRY,
        });
    }
    let got = u().format_in_original_format(&n, from);
    obs("text", got.as_bytes());
    if let (Some(r), Some(_)) = (&raw, src) {
        check(r.is_empty() || diallable(&got) == diallable(r), "nothing that is dialled changes");
    }
    check(got == original(c.code, &nsn, "", raw.as_deref(), src, from), "the original format");
}
