//! Parsing what is dialled inside a country.
use crate::oracle::*;
use crate::rt::*;
use crate::world::*;

fn list(tier: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for (i, m) in w().mds.iter().enumerate() {
        if m.id() == "001" {
            continue;
        }
        let ls: Vec<i32> = m.general_desc.possible_length.iter().copied().filter(|x| *x > 0).collect();
        let max = ls.iter().max().copied().unwrap_or(10) as usize;
        let lo = if tier == 0 { 2 } else { 1 };
        let hi = if tier == 0 { max + 4 } else { 22 };
        for l in lo..=hi {
            v.push((i, l));
        }
    }
    v.sort_by_key(|x| std::cmp::Reverse(x.1));
    v
}
pub fn tasks(tier: usize) -> usize {
    list(tier).len()
}
pub fn run(task: usize, tier: usize) {
    let (i, l) = list(tier)[task];
    let m = &w().mds[i];
    warm_parse(m);
    let s = digits(l);
    // an international prefix is another property's business
    assume(!prefix(m.international_prefix(), &s));
    let want = parse(&s, m.id());
    let got = u().parse(&s, m.id());
    obs("text", s.as_bytes());
    if let Ok(p) = &got {
        obs("code", &p.country_code().to_le_bytes());
        obs("number", &p.national_number().to_le_bytes());
    }
    agree(&got, &want, None);
    let got = u().parse_and_keep_raw_input(&s, m.id());
    agree(&got, &want, Some(&s));
}
