//! Comparing numbers.
use crate::rt::*;
use crate::world::*;

fn lens(tier: usize) -> usize {
    if tier == 0 { 9 } else { 15 }
}
pub fn tasks(tier: usize) -> usize {
    let n = lens(tier);
    n * n * 9
}
struct N {
    cc: i32,
    d: String,
    z: usize,
    x: Option<String>,
}
/// Two numbers' digits, chosen alternately from the highest place down.
fn two(k1: usize, k2: usize) -> (String, String) {
    let (mut a, mut b) = (String::with_capacity(40), String::with_capacity(40));
    for p in (0..k1.max(k2)).rev() {
        for (s, k) in [(&mut a, k1), (&mut b, k2)] {
            if p + 1 == k {
                s.push((b'1' + choice(9) as u8) as char);
            } else if p < k {
                s.push((b'0' + choice(10) as u8) as char);
            }
        }
    }
    (a, b)
}
fn make(d: String, cc: i32, z: usize, x: Option<String>, extra: bool) -> (PhoneNumber, N) {
    let mut n = number(cc, z, &d);
    if let Some(x) = &x {
        n.set_extension(x.clone());
    }
    // what does not count
    if extra {
        n.set_raw_input("x".into());
        n.set_country_code_source(CountryCodeSource::FROM_NUMBER_WITH_IDD);
        n.set_preferred_domestic_carrier_code("12".into());
        if z == 0 {
            n.set_number_of_leading_zeros(3);
        }
        if cc == 0 {
            n.clear_country_code();
        }
    }
    (n, N { cc, d, z, x })
}
pub fn run(task: usize, tier: usize) {
    let n = lens(tier);
    let (k1, k2) = (task / 9 / n + 1, task / 9 % n + 1);
    // extension: none, empty, two digits
    let (x1, x2) = ([0, 1, 3][task % 3], [0, 1, 3][task / 3 % 3]);
    let (c1, c2) = [(0, 0), (0, 39), (39, 0), (39, 39), (39, 40), (40, 39), (1, 999)][pick(7)];
    let (d1, d2) = two(k1, k2);
    let (e1, e2) = (digits(x1.max(1) - 1), digits(x2.max(1) - 1));
    let zs = pick(9);
    let (z1, z2) = (zs % 3, zs / 3);
    let (a, na) = make(d1, c1, z1, if x1 == 0 { None } else { Some(e1) }, zs % 2 == 1);
    let (b, nb) = make(d2, c2, z2, if x2 == 0 { None } else { Some(e2) }, zs % 5 < 2);
    let m = u().is_number_match(&a, &b);
    obs("match", &[m as u8]);
    check(u().is_number_match(&b, &a) == m, "the order of the numbers does not matter");
    let suffix = na.d.ends_with(&nb.d) || nb.d.ends_with(&na.d);
    let same = na.d == nb.d && na.z == nb.z && na.x == nb.x;
    let want = if na.x.is_some() && nb.x.is_some() && na.x != nb.x {
        MatchType::NoMatch
    } else if na.cc != 0 && nb.cc != 0 {
        if na.cc != nb.cc {
            MatchType::NoMatch
        } else if same {
            MatchType::ExactMatch
        } else if suffix {
            MatchType::ShortNsnMatch
        } else {
            MatchType::NoMatch
        }
    } else if same {
        MatchType::NsnMatch
    } else if suffix {
        MatchType::ShortNsnMatch
    } else {
        MatchType::NoMatch
    };
    check(m == want, "kind of match");
}
