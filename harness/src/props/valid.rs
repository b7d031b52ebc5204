//! P13: secondary validators (checksums, JWT expiry).

use crate::engine::*;
use crate::ensure;
use crate::model::*;
use crate::spec;
use dd_sds::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;

thread_local! {
    static SCANNERS: RefCell<HashMap<String, Rc<Scanner>>> = RefCell::new(HashMap::new());
}

/// A scanner whose only rule takes the whole text as a candidate.
fn whole(v: SecondaryValidator) -> Rc<Scanner> {
    SCANNERS.with(|m| {
        m.borrow_mut()
            .entry(format!("{v:?}"))
            .or_insert_with(|| {
                let cfg: Vec<Arc<dyn RuleConfig>> = vec![RegexRuleConfig::new("\\A(?s:.)+\\z").validator(v).build()];
                Rc::new(ScannerBuilder::new(&cfg).build().unwrap())
            })
            .clone()
    })
}

fn accepts(v: SecondaryValidator, s: &str) -> Result<bool, String> {
    let sc = whole(v);
    let mut e = s.to_string();
    let m = no_panic("scan", || sc.scan(&mut e, vec![]))?;
    ensure!(m.len() <= 1, "{} matches", m.len());
    if let [m] = &m[..] {
        ensure!(m.start_index == 0 && m.end_index_exclusive == s.len(), "match {}..{} of {s:?}", m.start_index, m.end_index_exclusive);
    }
    Ok(!m.is_empty())
}

fn digits(c: &mut Ctx, n: usize) -> Vec<char> {
    let skew = c.u(4);
    (0..n)
        .map(|_| match skew {
            0 => '0',
            1 => *c.pick(&['0', '0', '9', '9', '5']),
            _ => (b'0' + c.u(10) as u8) as char,
        })
        .collect()
}

const SEPS: &[char] = &[' ', '-', '.', '/', '\u{a0}', 'é', '中', '😀', '\n', ','];

fn sprinkle(c: &mut Ctx, d: &[char]) -> String {
    let style = c.u(4);
    let sep = *c.pick(SEPS);
    let mut out = String::new();
    for (i, x) in d.iter().enumerate() {
        match style {
            0 => {}
            1 => {
                if i > 0 && i % 4 == 0 {
                    out.push(sep);
                }
            }
            _ => {
                while c.chance(1, 8) {
                    out.push(*c.pick(SEPS));
                }
            }
        }
        out.push(*x);
    }
    if style > 1 && c.chance(1, 6) {
        out.push(sep);
    }
    out
}

fn any_ascii(c: &mut Ctx) -> char {
    (c.u(128) as u8) as char
}

/// Small damage to a value.
fn damage(c: &mut Ctx, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    if v.is_empty() {
        return s.into();
    }
    let i = c.u(v.len());
    match c.u(6) {
        0 => {
            // another char of the same kind
            v[i] = if v[i].is_ascii_digit() {
                (b'0' + c.u(10) as u8) as char
            } else if v[i].is_ascii_alphabetic() {
                *c.pick(&['a', 'A', 'Z', 'z', 'Q', 'X', 'x'])
            } else {
                *c.pick(SEPS)
            }
        }
        1 => {
            v.remove(i);
        }
        2 => v.insert(i, *c.pick(&['0', '1', '9', 'A', 'x', ' ', '_', '.'])),
        3 => {
            let j = c.u(v.len());
            v.swap(i, j);
        }
        4 if c.chance(1, 2) => {
            let i = if c.chance(1, 3) { v.len() - 1 } else { i };
            v[i] = any_ascii(c)
        }
        4 => v[i] = *c.pick(&['٣', '²', 'é', '０', 'X', '_', '.', '\u{0}', '+']),
        _ => {
            if v[i].is_ascii_lowercase() {
                v[i] = v[i].to_ascii_uppercase()
            } else {
                v[i] = v[i].to_ascii_lowercase()
            }
        }
    }
    v.into_iter().collect()
}

fn decide(c: &mut Ctx, v: SecondaryValidator, s: String, want: impl Fn(&str) -> Option<bool>) -> Res {
    let s = {
        let mut s = s;
        for _ in 0..*c.pick(&[0, 0, 0, 1, 1, 2]) {
            s = damage(c, &s);
        }
        s
    };
    if s.is_empty() {
        return c.discard();
    }
    c.note(|| format!("{v:?} on {s:?}"));
    let Some(w) = want(&s) else { return c.discard() };
    let got = accepts(v.clone(), &s)?;
    ensure!(got == w, "{v:?} {} {s:?}, by its definition it is {}", if got { "accepts" } else { "rejects" }, if w { "valid" } else { "not valid" });
    c.nontrivial = true;
    c.tag(if w { "valid" } else { "not valid" });
    Ok(())
}

fn num(c: &mut Ctx) -> Res {
    let k = c.u(3);
    let (v, m, len) = match k {
        0 => (SecondaryValidator::LuhnChecksum, Val::Luhn, *c.pick(&[16, 15, 14, 13, 12, 19, 1, 2, 3, 30, 29, 64, 130, 300, 1000])),
        1 => (SecondaryValidator::NhsCheckDigit, Val::Nhs, *c.pick(&[10, 10, 10, 10, 10, 10, 9, 11, 12, 1, 20, 266])),
        _ => (SecondaryValidator::NirChecksum, Val::Nir, *c.pick(&[15, 15, 15, 15, 15, 14, 16, 13, 2, 20, 30, 271])),
    };
    let mut d = digits(c, len);
    // complete it to a valid number, most of the time
    if c.chance(3, 4) {
        if k == 2 && len == 15 {
            for key in 0..100 {
                d[13] = (b'0' + key / 10) as char;
                d[14] = (b'0' + key % 10) as char;
                if m.ok(&d.iter().collect::<String>()) {
                    break;
                }
            }
        } else {
            let n = d.len();
            for x in 0..10 {
                d[n - 1] = (b'0' + x) as char;
                if m.ok(&d.iter().collect::<String>()) {
                    break;
                }
            }
        }
    }
    let s = sprinkle(c, &d);
    c.tag(match k {
        0 => "Luhn",
        1 => "NHS",
        _ => "NIR",
    });
    decide(c, v, s, |s| Some(m.ok(s)))
}

fn chinese(c: &mut Ctx) -> Res {
    let n = *c.pick(&[17, 17, 17, 17, 17, 16, 18]);
    let mut s: String = digits(c, n).into_iter().collect();
    let last = if c.chance(1, 6) { any_ascii(c) } else { *c.pick(&['?', '?', '?', '?', '0', 'X', 'x']) };
    if last == '?' {
        let x = "0123456789X".chars().find(|x| spec::chinese_id(&format!("{s}{x}"))).unwrap_or('1');
        s.push(if x == 'X' && c.chance(1, 2) { 'x' } else { x });
    } else {
        s.push(last);
    }
    decide(c, SecondaryValidator::ChineseIdChecksum, s, |s| Some(spec::chinese_id(s)))
}

fn github(c: &mut Ctx) -> Res {
    const B: &[u8; 62] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
    let n = *c.pick(&[30, 30, 36, 1, 2, 3, 8, 60, 0, 255, 300]);
    let mut p: String = (0..n).map(|_| B[c.u(62)] as char).collect();
    if n > 0 && c.chance(1, 8) {
        // something that does not belong there, with the right checksum
        let i = c.u(n);
        p.replace_range(i..i + 1, *c.pick(&["-", ".", "+", "/", "=", " ", "é", "\u{0}", "_", "٣"]));
    }
    let mut sum = spec::github_checksum(&p);
    if c.chance(1, 8) {
        sum = sum.trim_start_matches('0').to_string();
        c.tag("checksum without its leading zeros");
    }
    let pre = *c.pick(&["ghp_", "gho_", "ghs_", "_", "", "x_ghp_", "é_", "github_pat_", "__"]);
    let s = format!("{pre}{p}{sum}");
    decide(c, SecondaryValidator::GithubTokenChecksum, s, |s| Some(spec::github(s)))
}

fn iban(c: &mut Ctx) -> Res {
    let (cc, st) = *c.pick(spec::IBAN);
    let mut bban = String::new();
    for (n, k) in st {
        for _ in 0..*n {
            bban.push(match k {
                'n' => (b'0' + c.u(10) as u8) as char,
                'a' => (b'A' + c.u(26) as u8) as char,
                _ => *c.pick(&['0', '7', 'A', 'K', 'Z', '3']),
            });
        }
    }
    if c.chance(1, 8) {
        // wrong length or structure, but right check digits
        match c.u(3) {
            0 => {
                bban.pop();
            }
            1 => bban.push('0'),
            _ => {
                let i = c.u(bban.len());
                bban.replace_range(i..i + 1, *c.pick(&["A", "0", "Z"]));
            }
        }
    }
    let mut check = spec::iban_check_digits(cc, &bban);
    if check == "98" && c.chance(1, 2) {
        check = "01".into();
    } else if check == "97" && c.chance(1, 2) {
        check = "00".into();
    }
    let s = format!("{cc}{check}{bban}");
    let v: Vec<char> = s.chars().collect();
    let v: Vec<char> = match c.u(8) {
        0 => v.iter().map(|x| x.to_ascii_lowercase()).collect(),
        1 => v.iter().enumerate().map(|(i, x)| if i < 4 { *x } else { x.to_ascii_lowercase() }).collect(),
        _ => v,
    };
    let s: String = v.iter().collect();
    let s = if c.chance(1, 2) { s } else { v.chunks(4).map(|x| x.iter().collect::<String>()).collect::<Vec<_>>().join(*c.pick(&[" ", "-", ".", "_", " - "])) };
    decide(c, SecondaryValidator::IbanChecker, s, |s| {
        let v: String = s.chars().filter(|x| x.is_alphanumeric()).collect();
        // letters and digits outside ASCII don't separate; the country is in upper case
        if !v.is_ascii() || v.bytes().take(2).any(|x| x.is_ascii_lowercase()) {
            Some(false)
        } else {
            spec::iban(&v.to_ascii_uppercase())
        }
    })
}

fn jwt(c: &mut Ctx) -> Res {
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64;
    let dist = *c.pick(&[100i64, 3_600, 86_400, 1_000_000, 100_000_000, 1_000_000_000, now + 5]);
    let mut fields = vec![];
    let other = ["\"sub\":\"12é\"", "\"iat\":1", "\"n\":null", "\"nested\":{\"exp\":1}", "\"a\":[1,2,{\"exp\":99999999999}]", "\"Exp\":5", "\"exp \":5", "\"expiry\":7", "\"nbf\":99999999999"];
    for _ in 0..c.int(0, 3) {
        let o = c.pick(&other).to_string();
        if !fields.contains(&o) {
            fields.push(o);
        }
    }
    let mut valid = true;
    let mut why = "no exp claim";
    let e = c.u(6);
    let exp = match e {
        0 | 1 => {
            why = "not expired";
            Some(format!("{}", if c.chance(1, 12) { i64::MAX } else { now + dist }))
        }
        2 => {
            valid = false;
            why = "expired";
            Some(format!("{}", if c.chance(1, 12) { i64::MIN } else { now - dist }))
        }
        3 => {
            valid = false;
            why = "exp is not an integer";
            Some(c.pick(&["\"99999999999\"", "null", "true", "[99999999999]", "{}", "99999999999.5", "1e30", "\"\""]).to_string())
        }
        _ => None,
    };
    if let Some(x) = exp {
        let i = c.u(fields.len() + 1);
        let sp = c.pick(&["", " ", "\n\t"]);
        fields.insert(i, format!("\"exp\":{sp}{x}"));
    }
    let payload = format!("{{{}}}", fields.join(","));
    let header = c.pick(&["{\"alg\":\"HS256\",\"typ\":\"JWT\"}", "{}", "{\"alg\":\"none\",\"exp\":1}", "{\"kid\":\"é😀\"}"]).to_string();
    let sig = c.pick(&["SflKxwRJSMeKKF2QT4fwpMeJf36POk6yJV_adQssw5c", "", "a", "!!", "é"]).to_string();
    let (mut h, mut p) = (spec::b64url(header.as_bytes()), spec::b64url(payload.as_bytes()));
    let mut segs = 3;
    match c.u(14) {
        0 => {
            valid = false;
            why = "header is not base64";
            h.push(*c.pick(&['!', 'é', '=', '+', ' ']));
        }
        1 => {
            valid = false;
            why = "payload is not base64";
            let ch = *c.pick(&["!", "é", " ", "/", "+"]);
            let i = c.u(p.len() + 1);
            p.insert_str(i, ch);
        }
        2 => {
            valid = false;
            why = "header is not JSON";
            h = spec::b64url(c.pick(&["{", "", "alg", "{\"a\":}", "{}}"]).as_bytes());
        }
        3 => {
            valid = false;
            why = "payload is not JSON";
            let cut = &payload[..payload.len() - 1];
            p = spec::b64url(c.pick(&[cut, "", "exp", "{'exp':1}"]).as_bytes());
        }
        4 => {
            valid = false;
            why = "not three segments";
            segs = *c.pick(&[1, 2, 4]);
        }
        5 => {
            valid = false;
            why = "padded";
            // one or two '=' never belong to unpadded base64url
            p.push('=');
        }
        _ => {}
    }
    let s = match segs {
        1 => format!("{h}{p}"),
        2 => format!("{h}.{p}"),
        3 => format!("{h}.{p}.{sig}"),
        _ => format!("{h}.{p}.{sig}.x"),
    };
    c.note(|| format!("{header} . {payload}: {s} ({why})"));
    let got = accepts(SecondaryValidator::JwtExpirationChecker, &s)?;
    ensure!(got == valid, "a JWT ({why}) was {}", if got { "accepted" } else { "rejected" });
    c.nontrivial = true;
    c.tag(if valid { "valid" } else { "not valid" });
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let part = |name, case, quick, thorough| Part { name, case, quick, thorough, threads: 8 };
    vec![Prop {
        id: "P13",
        rule: "every value that is compared with the definition (IBANs of other countries, lower case or non-ASCII alphanumerics are discarded)",
        parts: vec![
            part("numbers", num, 120_000, 6_000_000),
            part("chinese", chinese, 60_000, 3_000_000),
            part("github", github, 60_000, 3_000_000),
            part("iban", iban, 60_000, 3_000_000),
            part("jwt", jwt, 60_000, 3_000_000),
        ],
        assumptions: &["the clock does not jump by more than 100 seconds during a case"],
    }]
}
