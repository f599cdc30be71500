//! What the properties range over, taken from the library's own metadata.
use protobuf::Message;
pub use rlibphonenumber::phonemetadata::*;
pub use rlibphonenumber::*;
use std::sync::OnceLock;

/// One country calling code and the regions that share it, main region first.
pub struct Cc {
    pub code: i32,
    pub regions: Vec<&'static PhoneMetadata>,
    pub geo: bool,
    /// Smallest and largest length of a national number some region allows.
    pub min: usize,
    pub max: usize,
}

pub struct World {
    pub shapes: [Vec<(usize, usize, usize)>; 3],
    pub u: &'static PhoneNumberUtil,
    pub ccs: Vec<Cc>,
    pub mds: &'static [PhoneMetadata],
}

static WORLD: OnceLock<World> = OnceLock::new();

pub fn w() -> &'static World {
    WORLD.get().expect("init")
}
pub fn u() -> &'static PhoneNumberUtil {
    w().u
}

pub fn init() {
    WORLD.get_or_init(|| {
        let u: &'static PhoneNumberUtil = &PHONE_NUMBER_UTIL;
        let col = PhoneMetadataCollection::parse_from_bytes(&METADATA).unwrap();
        let mds: &'static [PhoneMetadata] = Box::leak(col.metadata.into_boxed_slice());
        let mut codes: Vec<i32> = mds.iter().map(|m| m.country_code()).collect();
        codes.sort();
        codes.dedup();
        let mut ccs = vec![];
        for code in codes {
            let mut regions: Vec<&'static PhoneMetadata> = vec![];
            for m in mds {
                if m.country_code() == code {
                    if m.main_country_for_code() {
                        regions.insert(0, m)
                    } else {
                        regions.push(m)
                    }
                }
            }
            let mut ls: Vec<i32> = vec![];
            for m in &regions {
                ls.extend(m.general_desc.possible_length.iter().filter(|x| **x > 0));
            }
            let geo = regions.iter().all(|m| m.id() != "001");
            ccs.push(Cc {
                code,
                regions,
                geo,
                min: ls.iter().min().copied().unwrap_or(4) as usize,
                max: ls.iter().max().copied().unwrap_or(15) as usize,
            });
        }
        let mut shapes = [shapes(&ccs, 1, 1, 1), shapes(&ccs, 2, 2, 2), shapes(&ccs, 0, 1, 1)];
        // lengths no plan is near
        for (i, c) in ccs.iter().enumerate() {
            if ODD.contains(&c.code) {
                for len in 1..=17 {
                    for z in 0..=1.min(len - 1) {
                        if !shapes[0].contains(&(i, z, len - z)) {
                            shapes[0].push((i, z, len - z));
                        }
                    }
                }
            }
        }
        World { u, ccs, mds, shapes }
    });
}

pub fn md_of(region: &str) -> Option<&'static PhoneMetadata> {
    w().mds.iter().find(|m| m.id() == region && region != "001")
}

/// `k` arbitrary decimal digits.
pub fn digits(k: usize) -> String {
    let mut v = Vec::with_capacity(k + 24);
    for _ in 0..k {
        v.push(b'0' + crate::rt::choice(10) as u8);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// `k` arbitrary decimal digits, the first not zero.
pub fn digits_nz(k: usize) -> String {
    let mut v = Vec::with_capacity(k + 24);
    for i in 0..k {
        v.push(if i == 0 { b'1' + crate::rt::choice(9) as u8 } else { b'0' + crate::rt::choice(10) as u8 });
    }
    unsafe { String::from_utf8_unchecked(v) }
}

/// The value of a digit string (no overflow up to 19 digits).
pub fn value(d: &str) -> u64 {
    let mut n = 0u64;
    for b in d.bytes() {
        n = n * 10 + (b - b'0') as u64;
    }
    n
}

pub fn number(cc: i32, zeros: usize, d: &str) -> PhoneNumber {
    let mut n = PhoneNumber::new();
    n.set_country_code(cc);
    n.set_national_number(value(d));
    if zeros > 0 {
        n.set_italian_leading_zero(true);
        if zeros > 1 {
            n.set_number_of_leading_zeros(zeros as i32);
        }
    }
    n
}

/// A number object of country calling code `cc` whose national significant
/// number is `zeros` zeros followed by `k` digits, the first not zero.
pub fn any_number(cc: i32, zeros: usize, k: usize) -> (PhoneNumber, String) {
    let d = digits_nz(k);
    let n = number(cc, zeros, &d);
    let mut nsn = String::with_capacity(40);
    for _ in 0..zeros {
        nsn.push('0');
    }
    nsn.push_str(&d);
    (n, nsn)
}

/// Enumerates (country calling code, length of NSN, leading zeros).
const ODD: [i32; 6] = [1, 39, 44, 49, 55, 800];
fn shapes(ccs: &[Cc], max_zeros: usize, below: usize, above: usize) -> Vec<(usize, usize, usize)> {
    let mut v = vec![];
    for (i, c) in ccs.iter().enumerate() {
        for len in c.min.saturating_sub(below).max(1)..=(c.max + above).min(17) {
            for z in 0..=max_zeros.min(len - 1) {
                v.push((i, z, len - z));
            }
        }
    }
    // long ones first, neighbours apart
    v.sort_by_key(|x| std::cmp::Reverse(x.2));
    v
}
