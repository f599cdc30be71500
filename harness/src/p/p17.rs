//! Regions and country codes.
use crate::oracle::*;
use crate::rt::*;
use crate::world::*;

pub fn tasks(_tier: usize) -> usize {
    4
}
/// Whether the name is that of a region the plan data has.
fn known(r: &str) -> Option<i32> {
    md_of(r).map(|m| m.country_code())
}
pub fn run(task: usize, _tier: usize) {
    match task {
        0 => {
            // every region name of two capitals, and some others
            let a = b'A' + choice(26) as u8;
            let b = b'A' + choice(26) as u8;
            let r = String::from_utf8(vec![a, b]).unwrap();
            let k = known(&r);
            check(u().get_country_code_for_region(&r) == k, "country code of a region");
            check(u().is_nanpa_country(&r) == (k == Some(1)), "NANPA regions are those with country code 1");
            check(u().get_supported_regions().any(|x| x == r) == k.is_some(), "supported regions are those with a plan");
            if let Some(k) = k {
                check(u().get_region_codes_for_country_code(k).unwrap().any(|x| x == r), "a region is listed under its country code");
            }
        }
        1 => {
            for r in ["001", "ZZ", "", "U", "USA", "us", "Us", "419", "ＵＳ", "EU"] {
                check(u().get_country_code_for_region(r).is_none(), "no plan, no country code");
                check(!u().is_nanpa_country(r), "no plan, no NANPA");
            }
        }
        2 => {
            let c = &w().ccs[pick(w().ccs.len())];
            check(u().get_region_code_for_country_code(c.code) == c.regions[0].id(), "main region of a country code");
            let l: Vec<&str> = u().get_region_codes_for_country_code(c.code).unwrap().collect();
            check(l.len() == c.regions.len(), "as many regions as plans");
            check(l[0] == c.regions[0].id(), "main region first");
            for m in &c.regions {
                check(l.contains(&m.id()), "every region is listed");
            }
        }
        _ => {
            let cc = choice(4000) as i32 - 1500;
            let r = u().get_region_code_for_country_code(cc);
            let mut hit = false;
            for c in &w().ccs {
                if c.code == cc {
                    hit = true;
                    break;
                }
            }
            check((r == "ZZ") == !hit, "the unknown region iff there is no plan");
            check(u().get_region_codes_for_country_code(cc).is_some() == hit, "regions iff there is a plan");
        }
    }
}
