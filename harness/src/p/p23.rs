//! Parsing what starts with a plus.
use crate::oracle::*;
use crate::rt::*;
use crate::world::*;

fn list(tier: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for (i, c) in w().ccs.iter().enumerate() {
        let hi = if tier == 0 { c.max + 3 } else { 19 };
        for l in 1..=hi {
            v.push((i, l));
        }
    }
    v.sort_by_key(|x| std::cmp::Reverse(x.1));
    v
}
pub fn tasks(tier: usize) -> usize {
    list(tier).len() + 4
}
pub fn run(task: usize, tier: usize) {
    let v = list(tier);
    if task >= v.len() {
        // no country has this code
        let k = task - v.len();
        let d = digits(3 + k);
        let (a, b, c) = (value(&d[..1]), value(&d[..2]), value(&d[..3]));
        assume(a != 0);
        for x in &w().ccs {
            let x = x.code as u64;
            assume(a != x && b != x && c != x);
        }
        let s = format!("+{}", d);
        check(u().parse(&s, "ZZ") == Err(ParseError::InvalidCountryCode), "unknown country code");
        return;
    }
    let (i, l) = v[task];
    let c = &w().ccs[i];
    let main = c.regions[0];
    let far = &w().ccs[(i + 7) % w().ccs.len()].regions[0];
    warm_parse(main);
    let d = digits(l);
    let s = format!("+{}{}", c.code, d);
    let want = parse(&s, "ZZ");
    let got = u().parse(&s, "ZZ");
    obs("text", s.as_bytes());
    if let Ok(p) = &got {
        obs("code", &p.country_code().to_le_bytes());
        obs("number", &p.national_number().to_le_bytes());
        check(p.country_code() == c.code, "the country code that was given");
    }
    agree(&got, &want, None);
    agree(&u().parse_and_keep_raw_input(&s, "ZZ"), &want, Some(&s));
    for m in [main, c.regions[c.regions.len() - 1], far] {
        check(u().parse(&s, m.id()) == got, "the default region does not matter");
    }
    let t = format!("＋{}{}", c.code, d);
    check(u().parse(&t, "") == got, "nor does the kind of plus");
}
