//! Independent definitions the properties compare the library with.
use crate::world::*;
use regex::Regex;

use std::collections::HashMap;
use std::sync::{Mutex, OnceLock};

static CACHE: OnceLock<Mutex<HashMap<String, Regex>>> = OnceLock::new();

/// Membership of the whole of `s` in the language of `pattern`.
pub fn full(pattern: &str, s: &str) -> bool {
    rx(&format!("^(?:{})$", pattern)).is_match(s)
}
/// Some prefix of `s` is in the language of `pattern`.
pub fn prefix(pattern: &str, s: &str) -> bool {
    rx(&format!("^(?:{})", pattern)).is_match(s)
}
pub fn rx(p: &str) -> Regex {
    let mut m = CACHE.get_or_init(|| Mutex::new(HashMap::new())).lock().unwrap();
    if let Some(r) = m.get(p) {
        return r.clone();
    }
    let r = Regex::new(p).unwrap();
    m.insert(p.to_string(), r.clone());
    r
}

/// Fills the caches (the library's and ours) with the patterns numbers of this
/// country calling code and length are compared with.
pub fn warm(c: &Cc, len: usize) {
    let mut go = |s: &str| {
        let z = s.len() - s.trim_start_matches('0').len();
        let n = number(c.code, z, &s[z..]);
        u().is_valid_number(&n);
        u().get_region_code_for_number(&n);
        for m in &c.regions {
            u().is_valid_number_for_region(&n, m.id());
            type_of(m, s);
            for d in descs(m) {
                desc_match(d, s);
            }
            if m.has_leading_digits() {
                prefix(m.leading_digits(), s);
            }
        }
    };
    for m in &c.regions {
        for d in descs(m) {
            if d.example_number().len() == len {
                go(d.example_number());
            }
        }
    }
    for lead in ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "20", "30", "40", "50", "60", "70", "80", "90", "99"] {
        if lead.len() <= len {
            for fill in ["0", "1", "5", "9"] {
                let s = format!("{}{}", lead, fill.repeat(len - lead.len()));
                go(&s);
            }
        }
    }
}

pub fn descs(m: &PhoneMetadata) -> [&PhoneNumberDesc; 12] {
    [
        &m.general_desc,
        &m.fixed_line,
        &m.mobile,
        &m.toll_free,
        &m.premium_rate,
        &m.shared_cost,
        &m.personal_number,
        &m.voip,
        &m.pager,
        &m.uan,
        &m.voicemail,
        &m.no_international_dialling,
    ]
}

pub fn desc_match(d: &PhoneNumberDesc, nsn: &str) -> bool {
    if !d.possible_length.is_empty() && !d.possible_length.contains(&(nsn.len() as i32)) {
        return false;
    }
    !d.national_number_pattern().is_empty() && full(d.national_number_pattern(), nsn)
}

pub fn type_of(m: &PhoneMetadata, nsn: &str) -> PhoneNumberType {
    use PhoneNumberType::*;
    if !desc_match(&m.general_desc, nsn) {
        return Unknown;
    }
    for (d, t) in [
        (&m.premium_rate, PremiumRate),
        (&m.toll_free, TollFree),
        (&m.shared_cost, SharedCost),
        (&m.voip, VoIP),
        (&m.personal_number, PersonalNumber),
        (&m.pager, Pager),
        (&m.uan, UAN),
        (&m.voicemail, VoiceMail),
    ] {
        if desc_match(d, nsn) {
            return t;
        }
    }
    let fixed = desc_match(&m.fixed_line, nsn);
    let mobile = desc_match(&m.mobile, nsn);
    match (fixed, mobile) {
        (true, true) => FixedLineOrMobile,
        (true, false) => {
            if m.same_mobile_and_fixed_line_pattern() {
                FixedLineOrMobile
            } else {
                FixedLine
            }
        }
        (false, true) => Mobile,
        _ => Unknown,
    }
}

/// The region a number with this country calling code belongs to.
pub fn region_of(c: &Cc, nsn: &str) -> Option<&'static PhoneMetadata> {
    if c.regions.len() == 1 {
        return Some(c.regions[0]);
    }
    for m in &c.regions {
        if m.has_leading_digits() {
            if prefix(m.leading_digits(), nsn) {
                return Some(m);
            }
        } else if type_of(m, nsn) != PhoneNumberType::Unknown {
            return Some(m);
        }
    }
    None
}

// ---------------------------------------------------------------- formatting

/// The country calling code's plan, as far as it is known.
pub fn cc_of(code: i32) -> Option<&'static Cc> {
    w().ccs.iter().find(|c| c.code == code)
}

/// Bounds of the groups of a format pattern, a sequence of groups of digits.
pub fn groups(p: &str) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for g in p.split('(').skip(1) {
        let g = g.trim_end_matches(')');
        let (mut lo, mut hi) = (0, 0);
        for d in g.split("\\d").skip(1) {
            if d.is_empty() {
                lo += 1;
                hi += 1;
            } else {
                let d = d.trim_start_matches('{').trim_end_matches('}');
                let (a, b) = d.split_once(',').unwrap_or((d, d));
                lo += a.parse::<usize>().unwrap();
                hi += b.parse::<usize>().unwrap();
            }
        }
        v.push((lo, hi));
    }
    v
}

/// The rule the plan has for this national number.
pub fn choose<'a>(fs: &'a [NumberFormat], nsn: &str) -> Option<&'a NumberFormat> {
    for f in fs {
        if let Some(l) = f.leading_digits_pattern.last() {
            if !prefix(l, nsn) {
                continue;
            }
        }
        let g = groups(f.pattern());
        let lo: usize = g.iter().map(|x| x.0).sum();
        let hi: usize = g.iter().map(|x| x.1).sum();
        if lo <= nsn.len() && nsn.len() <= hi {
            return Some(f);
        }
    }
    None
}

/// Writes the groups of `nsn` into `template`.
pub fn fill(pattern: &str, template: &str, nsn: &str) -> String {
    let g = groups(pattern);
    let mut parts: Vec<&str> = vec![];
    let mut at = 0;
    for i in 0..g.len() {
        let rest: usize = g[i + 1..].iter().map(|x| x.0).sum();
        let n = g[i].1.min(nsn.len() - at - rest);
        parts.push(&nsn[at..at + n]);
        at += n;
    }
    let mut out = String::with_capacity(64);
    let t = template.as_bytes();
    let mut i = 0;
    let mut lit = 0;
    while i < t.len() {
        if t[i] == b'$' && i + 1 < t.len() && t[i + 1].is_ascii_digit() {
            out.push_str(&template[lit..i]);
            out.push_str(parts[(t[i + 1] - b'1') as usize]);
            i += 2;
            lit = i;
        } else {
            i += 1;
        }
    }
    out.push_str(&template[lit..]);
    out
}

/// Puts `rule` (written with $1) in the place of the template's first group.
pub fn with_rule(template: &str, rule: &str) -> String {
    if rule.is_empty() {
        return template.to_string();
    }
    let i = match template.find('$') {
        Some(i) => i,
        None => return template.to_string(),
    };
    let g = &template[i..i + 2];
    format!("{}{}{}", &template[..i], rule.replace("$1", g), &template[i + 2..])
}

const SEPARATORS: &str = "-x‐‑‒–—―−ー－．／ \u{a0}\u{ad}\u{200b}\u{2060}\u{3000}()（）［］.[]/~⁓∼";

pub fn rfc(s: &str) -> String {
    let mut out = String::with_capacity(64);
    let mut run = true;
    for c in s.chars() {
        if SEPARATORS.contains(c) {
            if !run {
                out.push('-');
            }
            run = true;
        } else {
            out.push(c);
            run = false;
        }
    }
    out
}

pub fn nsn_formatted(m: &PhoneMetadata, nsn: &str, form: PhoneNumberFormat, carrier: &str) -> String {
    let fs = if m.intl_number_format.is_empty() || form == PhoneNumberFormat::National { &m.number_format } else { &m.intl_number_format };
    let Some(f) = choose(fs, nsn) else { return nsn.to_string() };
    let template = if form != PhoneNumberFormat::National {
        f.format().to_string()
    } else if !carrier.is_empty() && !f.domestic_carrier_code_formatting_rule().is_empty() {
        with_rule(f.format(), &f.domestic_carrier_code_formatting_rule().replacen("$CC", carrier, 1))
    } else {
        with_rule(f.format(), f.national_prefix_formatting_rule())
    };
    let s = fill(f.pattern(), &template, nsn);
    if form == PhoneNumberFormat::RFC3966 { rfc(&s) } else { s }
}

/// The extension as it is written behind the number.
pub fn ext_formatted(m: &PhoneMetadata, ext: &str, form: PhoneNumberFormat) -> String {
    if ext.is_empty() {
        return String::new();
    }
    let p = if form == PhoneNumberFormat::RFC3966 {
        ";ext="
    } else if m.has_preferred_extn_prefix() {
        m.preferred_extn_prefix()
    } else {
        " ext. "
    };
    format!("{}{}", p, ext)
}

pub fn formatted(code: i32, nsn: &str, ext: &str, form: PhoneNumberFormat) -> String {
    if form == PhoneNumberFormat::E164 {
        return format!("+{}{}", code, nsn);
    }
    let Some(c) = cc_of(code) else { return nsn.to_string() };
    let m = c.regions[0];
    let s = nsn_formatted(m, nsn, form, "");
    let x = ext_formatted(m, ext, form);
    match form {
        PhoneNumberFormat::International => format!("+{} {}{}", code, s, x),
        PhoneNumberFormat::RFC3966 => format!("tel:+{}-{}{}", code, s, x),
        _ => format!("{}{}", s, x),
    }
}

// ---------------------------------------------------------------- lengths

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Len {
    Possible,
    Local,
    Short,
    Long,
    Never,
}
/// How a national number of this length compares with the plan's lengths.
pub fn length(m: &PhoneMetadata, n: usize) -> Len {
    let d = &m.general_desc;
    let n = n as i32;
    let ls: Vec<i32> = d.possible_length.iter().copied().collect();
    if ls.is_empty() || ls[0] == -1 {
        return Len::Never;
    }
    if d.possible_length_local_only.contains(&n) {
        return Len::Local;
    }
    if ls.contains(&n) {
        return Len::Possible;
    }
    if n < *ls.iter().min().unwrap() {
        return Len::Short;
    }
    if n > *ls.iter().max().unwrap() {
        return Len::Long;
    }
    Len::Never
}

/// How a national number of this length compares with the lengths of a type.
pub fn length_for(m: &PhoneMetadata, t: PhoneNumberType, n: usize) -> Len {
    use PhoneNumberType::*;
    let of = |t: PhoneNumberType| match t {
        FixedLine | FixedLineOrMobile => &m.fixed_line,
        Mobile => &m.mobile,
        TollFree => &m.toll_free,
        PremiumRate => &m.premium_rate,
        SharedCost => &m.shared_cost,
        VoIP => &m.voip,
        PersonalNumber => &m.personal_number,
        Pager => &m.pager,
        UAN => &m.uan,
        VoiceMail => &m.voicemail,
        Unknown => &m.general_desc,
    };
    // a type has lengths of its own, those of the plan, or (-1) no numbers
    let exists = |d: &PhoneNumberDesc| d.possible_length.first() != Some(&-1);
    let mut all: Vec<i32> = vec![];
    let mut local: Vec<i32> = vec![];
    for t in if t == FixedLineOrMobile { vec![FixedLine, Mobile] } else { vec![t] } {
        let d = of(t);
        if exists(d) {
            all.extend(if d.possible_length.is_empty() { &m.general_desc.possible_length } else { &d.possible_length });
            local.extend(&d.possible_length_local_only);
        }
    }
    let n = n as i32;
    if all.is_empty() {
        return Len::Never;
    }
    if local.contains(&n) {
        return Len::Local;
    }
    if all.contains(&n) {
        return Len::Possible;
    }
    if n < *all.iter().min().unwrap() {
        return Len::Short;
    }
    if n > *all.iter().max().unwrap() {
        return Len::Long;
    }
    Len::Never
}
pub const TYPES: [PhoneNumberType; 12] = [
    PhoneNumberType::FixedLine,
    PhoneNumberType::Mobile,
    PhoneNumberType::FixedLineOrMobile,
    PhoneNumberType::TollFree,
    PhoneNumberType::PremiumRate,
    PhoneNumberType::SharedCost,
    PhoneNumberType::VoIP,
    PhoneNumberType::PersonalNumber,
    PhoneNumberType::Pager,
    PhoneNumberType::UAN,
    PhoneNumberType::VoiceMail,
    PhoneNumberType::Unknown,
];

// ---------------------------------------------------------------- parsing

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum No {
    Country,
    NotNumber,
    ShortAfterIdd,
    Short,
    Long,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Src {
    Plus,
    Idd,
    NoPlus,
    Default,
}
pub struct Parsed {
    pub code: i32,
    pub nsn: String,
    pub ext: String,
    pub carrier: String,
    pub src: Src,
}

const PUNCT: &str = "-x\u{2010}-\u{2015}\u{2212}\u{30FC}\u{FF0D}-\u{FF0F} \u{A0}\u{AD}\u{200B}\u{2060}\u{3000}()\u{FF08}\u{FF09}\u{FF3B}\u{FF3D}.\\[\\]/~\u{2053}\u{223C}";

/// Ways of writing an extension behind a number, one group per way.
fn ext_patterns() -> String {
    let sep = "[ \u{A0}\\t,]*";
    let after = "[:\\.\u{FF0E}]?[ \u{A0}\\t,-]*";
    let nd = "\\p{Nd}";
    [
        format!(";ext=({nd}{{1,20}})"),
        format!("{sep}(?:e?xt(?:ensi(?:o\u{301}?|ó))?n?|ｅ?ｘｔｎ?|доб|anexo){after}({nd}{{1,20}})#?"),
        format!("{sep}(?:[xｘ#＃~～]|int|ｉｎｔ){after}({nd}{{1,9}})#?"),
        format!("[- ]+({nd}{{1,6}})#"),
        format!("[ \u{A0}\\t]*(?:,{{2}}|;){after}({nd}{{1,15}})#?"),
        format!("[ \u{A0}\\t]*(?:,)+{after}({nd}{{1,9}})#?"),
    ]
    .join("|")
}
pub fn viable(s: &str) -> bool {
    let body = format!("[+＋]*(?:[{PUNCT}*]*\\p{{Nd}}){{3,}}[{PUNCT}*a-z\\p{{Nd}}]*|\\p{{Nd}}{{2}}");
    rx(&format!("(?i)^(?:{})(?:{})?$", body, ext_patterns())).is_match(s)
}
/// The number without its extension, and the extension.
pub fn split_ext(s: &str) -> (&str, &str) {
    let r = rx(&format!("(?i)(?:{})$", ext_patterns()));
    if let Some(c) = r.captures(s) {
        let at = c.get(0).unwrap().start();
        if viable(&s[..at]) {
            for i in 1..c.len() {
                if let Some(m) = c.get(i) {
                    if !m.is_empty() {
                        return (&s[..at], m.as_str());
                    }
                }
            }
        }
    }
    (s, "")
}
/// The zeros of Unicode 16 beyond ASCII; each is followed by the other nine digits.
pub const ZEROS: [u32; 75] = [
    0x660, 0x6f0, 0x7c0, 0x966, 0x9e6, 0xa66, 0xae6, 0xb66, 0xbe6, 0xc66, 0xce6, 0xd66,
    0xde6, 0xe50, 0xed0, 0xf20, 0x1040, 0x1090, 0x17e0, 0x1810, 0x1946, 0x19d0, 0x1a80, 0x1a90,
    0x1b50, 0x1bb0, 0x1c40, 0x1c50, 0xa620, 0xa8d0, 0xa900, 0xa9d0, 0xa9f0, 0xaa50, 0xabf0, 0xff10,
    0x104a0, 0x10d30, 0x10d40, 0x11066, 0x110f0, 0x11136, 0x111d0, 0x112f0, 0x11450, 0x114d0, 0x11650, 0x116c0,
    0x116d0, 0x116da, 0x11730, 0x118e0, 0x11950, 0x11bf0, 0x11c50, 0x11d50, 0x11da0, 0x11f50, 0x16130, 0x16a60,
    0x16ac0, 0x16b50, 0x16d70, 0x1ccf0, 0x1d7ce, 0x1d7d8, 0x1d7e2, 0x1d7ec, 0x1d7f6, 0x1e140, 0x1e2f0, 0x1e4f0,
    0x1e5f1, 0x1e950, 0x1fbf0,
];
pub fn digit_of(c: char) -> Option<u8> {
    let c = c as u32;
    if c < 128 {
        return if (48..58).contains(&c) { Some((c - 48) as u8) } else { None };
    }
    for z in ZEROS {
        if c >= z && c < z + 10 {
            return Some((c - z) as u8);
        }
    }
    None
}
pub fn key_of(c: char) -> Option<u8> {
    Some(match c.to_ascii_uppercase() {
        'A'..='C' => 2,
        'D'..='F' => 3,
        'G'..='I' => 4,
        'J'..='L' => 5,
        'M'..='O' => 6,
        'P'..='S' => 7,
        'T'..='V' => 8,
        'W'..='Z' => 9,
        _ => return None,
    })
}
/// The digits of a number; letters count if there are at least three.
pub fn normal(s: &str) -> String {
    let mut letters = 0usize;
    for b in s.bytes() {
        letters += b.is_ascii_alphabetic() as usize;
    }
    let alpha = letters >= 3;
    let mut out = String::with_capacity(40);
    for c in s.chars() {
        if alpha {
            if let Some(k) = key_of(c) {
                out.push((b'0' + k) as char);
                continue;
            }
            if c.is_ascii_digit() {
                out.push(c);
            }
        } else if let Some(k) = digit_of(c) {
            out.push((b'0' + k) as char);
        }
    }
    out
}
/// The text that can be a number: from the first digit or plus to the last
/// letter, digit or hash, and before a second extension.
pub fn candidate(s: &str) -> Option<&str> {
    let mut start = s.len();
    for (i, c) in s.char_indices() {
        if c == '+' || c == '＋' || rx("^\\p{Nd}$").is_match(&s[i..i + c.len_utf8()]) {
            start = i;
            break;
        }
    }
    let s = &s[start..];
    let mut end = s.len();
    for (i, c) in s.char_indices().rev() {
        if rx("^[\\p{N}\\p{L}#]$").is_match(&s[i..i + c.len_utf8()]) {
            break;
        }
        end = i;
    }
    let s = &s[..end];
    if s.is_empty() {
        return None;
    }
    if let Some(c) = rx("(.*)[\\\\/] *x").captures(s) {
        return Some(c.get(1).unwrap().as_str());
    }
    Some(s)
}

/// Removes a national prefix (and carrier code), unless that makes a number of
/// the plan into something that is none.
pub fn strip_national<'a>(m: &PhoneMetadata, s: &'a str) -> (String, &'a str) {
    let p = m.national_prefix_for_parsing();
    if s.is_empty() || p.is_empty() {
        return (s.to_string(), "");
    }
    let ok = |x: &str| full(m.general_desc.national_number_pattern(), x);
    let Some(c) = rx(&format!("^(?:{})", p)).captures(s) else { return (s.to_string(), "") };
    let all = c.get(0).unwrap().end();
    let g1 = c.get(1).map(|x| x.as_str());
    let g2 = c.get(2).map(|x| x.as_str());
    let rule = m.national_prefix_transform_rule();
    let captured = g1.is_some() && (g2.is_some_and(|x| !x.is_empty()) || g2.is_none() && g1.is_some_and(|x| !x.is_empty()));
    let (new, carrier) = if !rule.is_empty() && captured {
        let mut out = String::with_capacity(40);
        let t = rule.as_bytes();
        let mut i = 0;
        while i < t.len() {
            if t[i] == b'$' {
                out.push_str(if t[i + 1] == b'1' { g1.unwrap_or("") } else { g2.unwrap_or("") });
                i += 2;
            } else {
                out.push(t[i] as char);
                i += 1;
            }
        }
        out.push_str(&s[all..]);
        (out, if g2.is_some() { g1.unwrap_or("") } else { "" })
    } else {
        (s[all..].to_string(), g1.unwrap_or(""))
    };
    if ok(s) && !ok(&new) {
        return (s.to_string(), "");
    }
    (new, carrier)
}

/// The country calling code digits start with.
pub fn leading_cc(s: &str) -> Option<(usize, i32)> {
    if s.starts_with('0') {
        return None;
    }
    for i in 1..=3 {
        let n = value(&s[..i]) as i32;
        let n = crate::rt::conc(n as usize) as i32;
        if cc_of(n).is_some() {
            return Some((i, n));
        }
    }
    None
}

pub fn parse(text: &str, region: &str) -> Result<Parsed, No> {
    let mut t = match text.find(";phone-context=") {
        Some(i) => {
            let ctx = &text[i + 15..];
            let ctx = &ctx[..ctx.find(';').unwrap_or(ctx.len())];
            let global = full("\\+(\\p{Nd}|[-.()]?)*\\p{Nd}(\\p{Nd}|[-.()]?)*", ctx);
            let domain = full("([A-Za-z\\p{Nd}]+(-*[A-Za-z\\p{Nd}])*\\.)*[A-Za-z]+(-*[A-Za-z\\p{Nd}])*\\.?", ctx);
            if !global && !domain {
                return Err(No::NotNumber);
            }
            let from = text[..i].find("tel:").map_or(0, |x| x + 4);
            format!("{}{}", if ctx.starts_with('+') { ctx } else { "" }, &text[from..i])
        }
        None => candidate(text).ok_or(No::NotNumber)?.to_string(),
    };
    if let Some(i) = t.find(";isub=") {
        t.truncate(i);
    }
    if !viable(&t) {
        return Err(No::NotNumber);
    }
    let plus = t.starts_with('+') || t.starts_with('＋');
    let home = md_of(region);
    if home.is_none() && !plus {
        return Err(No::Country);
    }
    let (num, ext) = split_ext(&t);
    parse_split(num, ext, home)
}

/// Country calling code, how it was given, and the digits behind it.
fn country(num: &str, home: Option<&'static PhoneMetadata>) -> Result<(i32, Src, String), No> {
    let plus = num.starts_with('+') || num.starts_with('＋');
    let mut d = normal(num);
    let mut src = if plus { Src::Plus } else { Src::Default };
    if let (false, Some(h)) = (plus, home) {
        if let Some(m) = rx(&format!("^(?:{})", h.international_prefix())).find(&d) {
            if !d[m.end()..].starts_with('0') {
                src = Src::Idd;
                d = d[m.end()..].to_string();
            }
        }
    }
    if src != Src::Default {
        if d.len() <= 2 {
            return Err(No::ShortAfterIdd);
        }
        return match leading_cc(&d) {
            Some((i, n)) => Ok((n, src, d[i..].to_string())),
            None => Err(No::Country),
        };
    }
    if let Some(h) = home {
        let cs = h.country_code().to_string();
        if d.starts_with(&cs) {
            // the national prefix may have been kept behind the code
            let (rest, _) = strip_national(h, &d[cs.len()..]);
            let p = h.general_desc.national_number_pattern();
            if (!full(p, &d) && full(p, &rest)) || length(h, d.len()) == Len::Long {
                return Ok((h.country_code(), Src::NoPlus, rest));
            }
        }
    }
    Ok((0, Src::Default, d))
}

/// The part of parsing behind the extension.
pub fn parse_split(num: &str, ext: &str, home: Option<&'static PhoneMetadata>) -> Result<Parsed, No> {
    let plus = num.starts_with('+') || num.starts_with('＋');
    let (code, src, mut d) = match country(num, home) {
        Err(No::Country) if plus => {
            // the plus may have been a mistake
            let r = country(num.trim_start_matches(['+', '＋']), home)?;
            if r.0 == 0 {
                return Err(No::Country);
            }
            r
        }
        r => r?,
    };
    let m = if code != 0 { Some(cc_of(code).unwrap().regions[0]) } else { home };
    if d.len() < 2 {
        return Err(No::Short);
    }
    let mut carrier = String::new();
    if let Some(m) = m {
        let (new, cr) = strip_national(m, &d);
        let l = length(m, new.len());
        if l == Len::Possible || l == Len::Long {
            carrier = cr.to_string();
            d = new;
        }
    }
    if d.len() < 2 {
        return Err(No::Short);
    }
    if d.len() > 17 {
        return Err(No::Long);
    }
    Ok(Parsed { code: m.map_or(0, |m| m.country_code()), nsn: d, ext: ext.to_string(), carrier, src })
}

/// A text without a country code, read as digits of no particular country.
pub fn parse_anywhere(text: &str) -> Result<Parsed, No> {
    let t = candidate(text).ok_or(No::NotNumber)?;
    if !viable(t) {
        return Err(No::NotNumber);
    }
    let (num, ext) = split_ext(t);
    parse_split(num, ext, None)
}

/// How two numbers match.
pub fn matching(a: &Parsed, b: &Parsed) -> MatchType {
    let split = |s: &str| {
        let z = (s.len() - s.trim_start_matches('0').len()).min(s.len() - 1);
        (z, s[z..].to_string())
    };
    let ((za, da), (zb, db)) = (split(&a.nsn), split(&b.nsn));
    if !a.ext.is_empty() && !b.ext.is_empty() && a.ext != b.ext {
        return MatchType::NoMatch;
    }
    let same = da == db && za == zb && a.ext == b.ext;
    let suffix = da.ends_with(&db) || db.ends_with(&da);
    let both = a.code != 0 && b.code != 0;
    if both && a.code != b.code {
        MatchType::NoMatch
    } else if same {
        if both { MatchType::ExactMatch } else { MatchType::NsnMatch }
    } else if suffix {
        MatchType::ShortNsnMatch
    } else {
        MatchType::NoMatch
    }
}
/// How two texts match; nothing if one of them is no number.
pub fn matching_texts(a: &str, b: &str) -> Option<MatchType> {
    match (parse(a, "ZZ"), parse(b, "ZZ")) {
        (Ok(x), Ok(y)) => Some(matching(&x, &y)),
        (Ok(x), Err(No::Country)) => matching_text(&x, b),
        (Err(No::Country), Ok(y)) => matching_text(&y, a),
        (Err(No::Country), Err(No::Country)) => match (parse_anywhere(a), parse_anywhere(b)) {
            (Ok(x), Ok(y)) => Some(matching(&x, &y)),
            _ => None,
        },
        _ => None,
    }
}
/// A number and a text without a country code, which is taken to be of the
/// same country.
pub fn matching_text(x: &Parsed, b: &str) -> Option<MatchType> {
    let y = match cc_of(x.code) {
        Some(c) => parse(b, c.regions[0].id()).ok()?,
        None => parse_anywhere(b).ok()?,
    };
    Some(match matching(x, &y) {
        MatchType::ExactMatch => MatchType::NsnMatch,
        m => m,
    })
}

/// Whether the library's answer is the one above.
pub fn agree(got: &Result<PhoneNumber, ParseError>, want: &Result<Parsed, No>, kept: Option<&str>) {
    use crate::rt::check;
    match (got, want) {
        (Ok(p), Ok(r)) => {
            check(p.country_code() == r.code, "country code of the parsed number");
            let mut z = 0;
            while z + 1 < r.nsn.len() && r.nsn.as_bytes()[z] == b'0' {
                z += 1;
            }
            check(p.national_number() == value(&r.nsn), "national number of the parsed number");
            check(p.italian_leading_zero() == (z > 0), "leading zero of the parsed number");
            check(p.number_of_leading_zeros() == z.max(1) as i32, "leading zeros of the parsed number");
            check(p.extension() == r.ext && p.has_extension() == !r.ext.is_empty(), "extension of the parsed number");
            match kept {
                None => {
                    check(!p.has_raw_input() && !p.has_country_code_source() && !p.has_preferred_domestic_carrier_code(), "parse keeps nothing else");
                }
                Some(t) => {
                    check(p.raw_input() == t, "raw input is kept");
                    let s = match r.src {
                        Src::Plus => CountryCodeSource::FROM_NUMBER_WITH_PLUS_SIGN,
                        Src::Idd => CountryCodeSource::FROM_NUMBER_WITH_IDD,
                        Src::NoPlus => CountryCodeSource::FROM_NUMBER_WITHOUT_PLUS_SIGN,
                        Src::Default => CountryCodeSource::FROM_DEFAULT_COUNTRY,
                    };
                    check(p.has_country_code_source() && p.country_code_source() == s, "source of the country code");
                    check(p.preferred_domestic_carrier_code() == r.carrier, "carrier code of the parsed number");
                }
            }
        }
        (Err(e), Err(n)) => {
            let k = match e {
                ParseError::InvalidCountryCode => No::Country,
                ParseError::NotANumber(_) => No::NotNumber,
                ParseError::TooShortAfterIdd => No::ShortAfterIdd,
                ParseError::TooShortNsn => No::Short,
                ParseError::TooLongNsn => No::Long,
            };
            check(k == *n, "kind of the parse error");
        }
        (Ok(_), Err(_)) => check(false, "a text that is no number is rejected"),
        (Err(_), Ok(_)) => check(false, "a number is accepted"),
    }
}

/// Fills the caches with what parsing in this region uses.
pub fn warm_parse(m: &'static PhoneMetadata) {
    let go = |s: &str| {
        let _ = u().parse_and_keep_raw_input(s, m.id());
        let _ = parse(s, m.id());
        let _ = strip_national(cc_of(m.country_code()).unwrap().regions[0], s);
        let _ = strip_national(m, s);
        full(m.general_desc.national_number_pattern(), s);
        rx(&format!("^(?:{})", m.international_prefix()));
    };
    go("12");
    go("+12");
    go("+1650253");
    go("abc");
    go("12345 ext. 12");
    let cs = m.country_code().to_string();
    let np = m.national_prefix().to_string();
    for d in [&m.fixed_line, &m.mobile] {
        let e = d.example_number();
        if e.is_empty() {
            continue;
        }
        for p in ["", "0", "8", "1", "+", &np, &cs] {
            go(&format!("{}{}", p, e));
        }
        go(&format!("+{}{}", cs, e));
        go(&format!("+{}{}{}", cs, np, e));
    }
}

// ---------------------------------------------------------------- dialling

/// What is dialled in this region to get out of the country, if that is one thing.
pub fn idd_of(m: &PhoneMetadata, own_first: bool) -> &str {
    let single = full("\\d+(?:[~\u{2053}\u{223C}\u{FF5E}]\\d+)?", m.international_prefix());
    let pref = m.preferred_international_prefix();
    if own_first {
        return if single { m.international_prefix() } else { pref };
    }
    if m.has_preferred_international_prefix() {
        pref
    } else if single {
        m.international_prefix()
    } else {
        ""
    }
}
/// A number as it is dialled from another region.
pub fn out_of_country(code: i32, nsn: &str, ext: &str, from: &str) -> String {
    let Some(f) = md_of(from) else { return formatted(code, nsn, ext, PhoneNumberFormat::International) };
    let Some(c) = cc_of(code) else { return nsn.to_string() };
    if code == f.country_code() {
        let s = formatted(code, nsn, ext, PhoneNumberFormat::National);
        return if code == 1 { format!("1 {}", s) } else { s };
    }
    let m = c.regions[0];
    let s = nsn_formatted(m, nsn, PhoneNumberFormat::International, "");
    let x = ext_formatted(m, ext, PhoneNumberFormat::International);
    let p = idd_of(f, false);
    if p.is_empty() { format!("+{} {}{}", code, s, x) } else { format!("{} {} {}{}", p, code, s, x) }
}
/// What can be dialled of a text.
pub fn diallable(s: &str) -> String {
    let mut out = String::with_capacity(64);
    for b in s.bytes() {
        if b.is_ascii_digit() || b == b'+' || b == b'*' || b == b'#' {
            out.push(b as char);
        }
    }
    out
}
/// Whether a number with this national number may be called from abroad.
pub fn from_abroad(rm: Option<&PhoneMetadata>, nsn: &str) -> bool {
    !rm.is_some_and(|m| m.id() != "001" && desc_match(&m.no_international_dialling, nsn))
}
/// Whether the text is a valid number.
pub fn valid_text(s: &str, home: &PhoneMetadata) -> bool {
    match parse(s, home.id()) {
        Ok(p) => {
            let c = cc_of(p.code).unwrap();
            region_of(c, &p.nsn).is_some_and(|r| type_of(r, &p.nsn) != PhoneNumberType::Unknown)
        }
        Err(_) => false,
    }
}
