//! Dialling from another country.
use crate::oracle::*;
use crate::rt::*;
use crate::world::*;

pub fn tasks(tier: usize) -> usize {
    w().shapes[0].len() + w().mds.len() * if tier == 0 { 2 } else { 8 }
}
/// A region of each kind: its own prefix, a preferred one, several, none known.
pub const FROM: [&str; 8] = ["IT", "AU", "BR", "US", "JM", "KR", "001", "us"];

pub fn run(task: usize, _tier: usize) {
    let ns = w().shapes[0].len();
    if task >= ns {
        let m = &w().mds[(task - ns) % w().mds.len()];
        let j = (task - ns) / w().mds.len();
        let code = [44, 1, 39, 800, 7, 54, 999, 881][j];
        let z = if code == 39 { 1 } else { 0 };
        let (n, nsn) = any_number(code, z, if code == 800 { 8 } else { 10 - z });
        let got = u().format_out_of_country_calling_number(&n, m.id());
        obs("text", got.as_bytes());
        check(got == out_of_country(code, &nsn, "", m.id()), "what is dialled from this region");
        return;
    }
    let (i, z, k) = w().shapes[0][task];
    let c = &w().ccs[i];
    let (mut n, nsn) = any_number(c.code, z, k);
    let mut x = String::new();
    if pick(2) == 1 {
        x = digits(3);
        n.set_extension(x.clone());
    }
    let r = pick(FROM.len() + 2);
    let from = if r < FROM.len() { FROM[r] } else { c.regions[(r - FROM.len()) * (c.regions.len() - 1)].id() };
    let got = u().format_out_of_country_calling_number(&n, from);
    obs("text", got.as_bytes());
    check(got == out_of_country(c.code, &nsn, &x, from), "what is dialled from another country");
}
