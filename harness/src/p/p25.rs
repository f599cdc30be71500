//! Formatting by rules of one's own.
use crate::oracle::*;
use crate::rt::*;
use crate::world::*;

/// Pattern, format, leading digits, national prefix rule.
const RULES: [(&str, &str, &str, &str); 9] = [
    ("(\\d{3})(\\d{3})(\\d{4})", "($1) $2-$3", "", ""),
    ("(\\d{2})(\\d{5})(\\d{3})", "$1-$2 $3", "", "$NP$FG"),
    ("(\\d{3})(\\d{3})(\\d{4})", "$1 $2 $3", "[2-6]", "($NP$FG)"),
    ("(\\d{2})(\\d{2,4})(\\d{3})", "$1.$2.$3", "", "$NP $FG"),
    ("(\\d)(\\d{4})(\\d{4})", "$2 $3 ~ $1", "0", "$FG"),
    ("(\\d{4})(\\d{4})", "-$1/$2", "", "$NP-$FG"),
    ("(\\d{3,9})", "$1", "1", "$FG $NP"),
    ("(\\d{3})(\\d{3,5})", "$1 ($2)", "[5-9]0", ""),
    ("(\\d{4})(\\d{3})(\\d{3})", "$1 $2$3", "8|9[0-4]", "8$NP$FG"),
];
const FORMS: [PhoneNumberFormat; 4] = [PhoneNumberFormat::National, PhoneNumberFormat::International, PhoneNumberFormat::RFC3966, PhoneNumberFormat::E164];

fn list(tier: usize) -> Vec<(usize, usize, usize)> {
    let mut v = Vec::new();
    for i in 0..w().ccs.len() {
        for k in if tier == 0 { [10, 9, 8].as_slice() } else { [12, 11, 10, 9, 8, 7, 6].as_slice() } {
            v.push((i, 0, *k));
            if (i + k) % 3 == 0 || tier > 0 {
                v.push((i, 1, k - 1));
            }
        }
    }
    v
}
pub fn tasks(tier: usize) -> usize {
    list(tier).len() + 1
}
pub fn run(task: usize, tier: usize) {
    let v = list(tier);
    if task == v.len() {
        let (n, nsn) = any_number([999, 0][pick(2)], pick(3), 8);
        let fs = rules(0, 3);
        check(u().verif_format_by_pattern(&n, FORMS[pick(4)], &fs).as_deref() == Some(&nsn), "digits as they are without a plan");
        return;
    }
    let (i, z, k) = v[task];
    let c = &w().ccs[i];
    let m = c.regions[0];
    let (mut n, nsn) = any_number(c.code, z, k);
    let fs = rules(task % RULES.len(), 1 + pick(3));
    let form = FORMS[pick(4)];
    let mut x = String::new();
    if form != PhoneNumberFormat::RFC3966 && pick(2) == 1 {
        x = digits(2);
        n.set_extension(x.clone());
    }
    let got = u().verif_format_by_pattern(&n, form, &fs).unwrap_or_default();
    obs("text", got.as_bytes());
    let s = match choose(&fs, &nsn) {
        None => nsn.clone(),
        Some(f) => {
            let np = m.national_prefix();
            let rule = f.national_prefix_formatting_rule();
            let t = if form == PhoneNumberFormat::National && !rule.is_empty() && !np.is_empty() {
                with_rule(f.format(), &rule.replace("$NP", np).replace("$FG", "$1"))
            } else {
                f.format().to_string()
            };
            let s = fill(f.pattern(), &t, &nsn);
            if form == PhoneNumberFormat::RFC3966 { rfc(&s) } else { s }
        }
    };
    let s = format!("{}{}", s, ext_formatted(m, &x, PhoneNumberFormat::National));
    let want = match form {
        PhoneNumberFormat::National => s,
        PhoneNumberFormat::International => format!("+{} {}", c.code, s),
        PhoneNumberFormat::RFC3966 => format!("tel:+{}-{}", c.code, s),
        PhoneNumberFormat::E164 => format!("+{}{}", c.code, s),
    };
    check(got == want, "the text the first rule that applies gives");
}
/// Some of the rules, in order.
fn rules(from: usize, n: usize) -> Vec<NumberFormat> {
    let mut v = Vec::new();
    for i in 0..n {
        let (p, f, l, r) = RULES[(from + 2 * i) % RULES.len()];
        let mut x = NumberFormat::new();
        x.set_pattern(p.to_string());
        x.set_format(f.to_string());
        if !l.is_empty() {
            x.leading_digits_pattern.push(l[..1].to_string().replace('[', "[0-9]"));
            x.leading_digits_pattern.push(l.to_string());
        }
        if !r.is_empty() {
            x.set_national_prefix_formatting_rule(r.to_string());
        }
        v.push(x);
    }
    v
}
