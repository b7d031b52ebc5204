//! Independent implementations of the published rules the code under test has to follow.

/// Decimal digits of a string, first to last.
pub fn digits(s: &str) -> Vec<u32> {
    s.chars().filter_map(|c| c.to_digit(10)).collect()
}

/// ISO/IEC 7812-1 annex B. Non-digits are separators.
pub fn luhn(s: &str) -> bool {
    let d = digits(s);
    if d.is_empty() {
        return false;
    }
    let mut sum = 0;
    for (i, x) in d.iter().rev().enumerate() {
        let y = if i % 2 == 1 { x * 2 } else { *x };
        sum += y / 10 + y % 10;
    }
    sum % 10 == 0
}

/// ISO 7064 MOD 11-2 over 18 characters (17 digits and a digit or X).
pub fn chinese_id(s: &str) -> bool {
    let c: Vec<char> = s.chars().collect();
    if c.len() != 18 || s.len() != 18 {
        return false;
    }
    let mut p: u64 = 0;
    for (i, ch) in c.iter().enumerate() {
        let v = match ch {
            '0'..='9' => *ch as u64 - 48,
            'x' | 'X' if i == 17 => 10,
            _ => return false,
        };
        p = (p + v) % 11;
        if i < 17 {
            p = p * 2 % 11;
        }
    }
    p == 1
}

/// NHS number: exactly ten digits (with separators), weights 10..2 and a modulus-11 check digit.
pub fn nhs(s: &str) -> bool {
    let d = digits(s);
    if d.len() != 10 {
        return false;
    }
    let sum: u32 = (0..9).map(|i| d[i] * (10 - i as u32)).sum();
    match 11 - sum % 11 {
        11 => d[9] == 0,
        10 => false,
        x => d[9] == x,
    }
}

/// French NIR: 13 digits and a key = 97 - (number mod 97).
pub fn nir(s: &str) -> bool {
    let d = digits(s);
    if d.len() != 15 {
        return false;
    }
    let mut r = 0u64;
    for x in &d[..13] {
        r = (r * 10 + *x as u64) % 97;
    }
    97 - r == (d[13] * 10 + d[14]) as u64
}

fn crc32(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 };
        }
    }
    !c
}

const B62: &[u8; 62] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";

/// The six-character checksum of a GitHub token: CRC32, base62, left-padded with zeros.
pub fn github_checksum(payload: &str) -> String {
    let mut v = crc32(payload.as_bytes()) as u64;
    let mut out = [b'0'; 6];
    for i in (0..6).rev() {
        out[i] = B62[(v % 62) as usize];
        v /= 62;
    }
    String::from_utf8(out.to_vec()).unwrap()
}

pub fn github(s: &str) -> bool {
    let Some(i) = s.rfind('_') else { return false };
    let last = &s[i + 1..];
    if !last.bytes().all(|b| B62.contains(&b)) || last.len() <= 6 {
        return false;
    }
    let (p, c) = last.split_at(last.len() - 6);
    github_checksum(p) == c
}

pub fn mod97(s: &str) -> Option<u32> {
    let s = s.to_ascii_uppercase();
    let (a, b) = s.split_at(4);
    let mut r: u32 = 0;
    for c in b.chars().chain(a.chars()) {
        r = match c {
            '0'..='9' => (r * 10 + (c as u32 - 48)) % 97,
            'A'..='Z' => (r * 100 + (c as u32 - 55)) % 97,
            _ => return None,
        };
    }
    Some(r)
}

/// (country, BBAN structure) from the SWIFT IBAN registry; n digits, a upper letters, c both.
pub const IBAN: &[(&str, &[(usize, char)])] = &[
    ("DE", &[(18, 'n')]),
    ("GB", &[(4, 'a'), (14, 'n')]),
    ("FR", &[(10, 'n'), (11, 'c'), (2, 'n')]),
    ("ES", &[(20, 'n')]),
    ("IT", &[(1, 'a'), (10, 'n'), (12, 'c')]),
    ("NL", &[(4, 'a'), (10, 'n')]),
    ("BE", &[(12, 'n')]),
    ("CH", &[(5, 'n'), (12, 'c')]),
    ("AT", &[(16, 'n')]),
    ("PT", &[(21, 'n')]),
    ("SE", &[(20, 'n')]),
    ("NO", &[(11, 'n')]),
    ("DK", &[(14, 'n')]),
    ("FI", &[(14, 'n')]),
    ("PL", &[(24, 'n')]),
    ("KZ", &[(3, 'n'), (13, 'c')]),
    ("MT", &[(4, 'a'), (5, 'n'), (18, 'c')]),
    ("IE", &[(4, 'a'), (14, 'n')]),
];

pub fn iban_check_digits(country: &str, bban: &str) -> String {
    let r = mod97(&format!("{country}00{bban}")).unwrap();
    format!("{:02}", 98 - r)
}

/// Some(true/false) for a country in the table, None for others (only necessary conditions known).
pub fn iban(s: &str) -> Option<bool> {
    let t: String = s.chars().filter(|c| c.is_alphanumeric()).collect();
    if !t.is_ascii() || t.len() < 15 || t.len() > 34 {
        return Some(false);
    }
    let (cc, rest) = t.split_at(2);
    if !cc.bytes().all(|b| b.is_ascii_alphabetic()) {
        return Some(false);
    }
    if !rest.as_bytes()[..2].iter().all(|b| b.is_ascii_digit()) || mod97(&t) != Some(1) {
        return Some(false);
    }
    // check digits are 02 to 98; whether 99 passes for 02 is left open
    match &rest[..2] {
        "00" | "01" => return Some(false),
        "99" => return None,
        _ => {}
    }
    for (c, st) in IBAN {
        if *c == cc {
            let mut b = rest[2..].chars();
            for (n, k) in st.iter() {
                for _ in 0..*n {
                    let ok = match (b.next(), k) {
                        (Some(x), 'n') => x.is_ascii_digit(),
                        (Some(x), 'a') => x.is_ascii_uppercase(),
                        (Some(x), _) => x.is_ascii_digit() || x.is_ascii_uppercase(),
                        (None, _) => false,
                    };
                    if !ok {
                        return Some(false);
                    }
                }
            }
            return Some(b.next().is_none());
        }
    }
    None
}

pub fn b64url(b: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let mut o = String::new();
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16
            | (*c.get(1).unwrap_or(&0) as u32) << 8
            | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            o.push(T[(v >> (18 - 6 * i)) as usize & 63] as char);
        }
    }
    o
}

pub fn farm_hex(b: &[u8]) -> String {
    format!("{:x}", farmhash::fingerprint64(b))
}
