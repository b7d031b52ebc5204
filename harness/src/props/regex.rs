//! P11 (meaning of patterns), P12 (validation of patterns).

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::props::scan::world_case;
use crate::refre::RefRegex;
use crate::regen::{self, Fl, Re};
use dd_sds::*;

/// General categories and scripts a pattern may name.
const PROPERTY_NAMES: &[&str] = &[
    "C", "Cc", "Cf", "Cn", "Co", "L", "Ll", "Lm",
    "Lo", "Lt", "Lu", "M", "Mc", "Me", "Mn", "N",
    "Nd", "Nl", "No", "P", "Pc", "Pd", "Pe", "Pf",
    "Pi", "Po", "Ps", "S", "Sc", "Sk", "Sm", "So",
    "Z", "Zl", "Zp", "Zs", "Adlam", "Ahom", "Anatolian_Hieroglyphs", "Arabic",
    "Armenian", "Avestan", "Balinese", "Bamum", "Bassa_Vah", "Batak", "Bengali", "Bhaiksuki",
    "Bopomofo", "Brahmi", "Braille", "Buginese", "Buhid", "Canadian_Aboriginal", "Carian", "Caucasian_Albanian",
    "Chakma", "Cham", "Cherokee", "Chorasmian", "Common", "Coptic", "Cuneiform", "Cypriot",
    "Cypro_Minoan", "Cyrillic", "Deseret", "Devanagari", "Dives_Akuru", "Dogra", "Duployan", "Egyptian_Hieroglyphs",
    "Elbasan", "Elymaic", "Ethiopic", "Georgian", "Glagolitic", "Gothic", "Grantha", "Greek",
    "Gujarati", "Gunjala_Gondi", "Gurmukhi", "Han", "Hangul", "Hanifi_Rohingya", "Hanunoo", "Hatran",
    "Hebrew", "Hiragana", "Imperial_Aramaic", "Inherited", "Inscriptional_Pahlavi", "Inscriptional_Parthian", "Javanese", "Kaithi",
    "Kannada", "Katakana", "Kayah_Li", "Kharoshthi", "Khitan_Small_Script", "Khmer", "Khojki", "Khudawadi",
    "Lao", "Latin", "Lepcha", "Limbu", "Linear_A", "Linear_B", "Lisu", "Lycian",
    "Lydian", "Mahajani", "Makasar", "Malayalam", "Mandaic", "Manichaean", "Marchen", "Masaram_Gondi",
    "Medefaidrin", "Meetei_Mayek", "Mende_Kikakui", "Meroitic_Cursive", "Meroitic_Hieroglyphs", "Miao", "Modi", "Mongolian",
    "Mro", "Multani", "Myanmar", "Nabataean", "Nandinagari", "New_Tai_Lue", "Newa", "Nko",
    "Nushu", "Ogham", "Ol_Chiki", "Old_Hungarian", "Old_Italic", "Old_North_Arabian", "Old_Permic", "Old_Persian",
    "Old_Sogdian", "Old_South_Arabian", "Old_Turkic", "Old_Uyghur", "Oriya", "Osage", "Osmanya", "Pahawh_Hmong",
    "Palmyrene", "Pau_Cin_Hau", "Phags_Pa", "Phoenician", "Psalter_Pahlavi", "Rejang", "Runic", "Samaritan",
    "Saurashtra", "Sharada", "Shavian", "Siddham", "SignWriting", "Sinhala", "Sogdian", "Sora_Sompeng",
    "Soyombo", "Sundanese", "Syloti_Nagri", "Syriac", "Tagalog", "Tagbanwa", "Tai_Le", "Tai_Tham",
    "Tai_Viet", "Takri", "Tamil", "Tangsa", "Tangut", "Telugu", "Thaana", "Thai",
    "Tibetan", "Tifinagh", "Tirhuta", "Toto", "Ugaritic", "Vai", "Vithkuqi", "Wancho",
    "Warang_Citi", "Yezidi", "Yi", "Zanabazar_Square",
];

fn p11_full(c: &mut Ctx) -> Res {
    let mut k = BASE;
    k.rules = (1, 1);
    k.pieces = 8;
    k.re = regen::FULL;
    k.re.depth = c.int(1, 4);
    k.acts = false;
    k.enc = false;
    let Some(o) = world_case(c, &k)? else { return Ok(()) };
    c.nontrivial = !o.got.flat.is_empty();
    Ok(())
}

/// Large numbers in patterns: counts, alternatives, long literals, many groups.
fn p11_counts(c: &mut Ctx) -> Res {
    let size = crate::props::scale::size;
    let (sds, pcre, text);
    match c.weighted(&[5, 2, 2, 1, 2]) {
        0 => {
            let n = size(c, 1030);
            let m = (n + [0, 1, 5, 256, 1030][c.u(5)]).min(1030);
            let lazy = if c.chance(1, 4) { "?" } else { "" };
            let q = match c.u(4) {
                0 => format!("{{{n}}}"),
                1 => format!("{{{n},}}"),
                _ => format!("{{{n},{m}}}"),
            };
            let atom = *c.pick(&["a", "[ab]", "(?:a|b)", "[a-c]", "\\x61"]);
            let (before, after) = (*c.pick(&["", "x", "-"]), *c.pick(&["", "y", "\\b"]));
            sds = format!("{before}{atom}{q}{lazy}{after}");
            pcre = sds.clone();
            let mut t = String::new();
            for _ in 0..c.int(1, 3) {
                t.push_str(before);
                let run = match c.u(6) {
                    0 => n,
                    1 => n - 1,
                    2 => m,
                    3 => m + 1,
                    4 => 2 * n + 1,
                    _ => c.u(3 * n),
                };
                t.extend(std::iter::repeat_n('a', run));
                t.push_str(*c.pick(&["y", " ", "xy", "b "]));
            }
            text = t;
        }
        1 => {
            // alternatives: the first that fits wins
            let n = size(c, 300);
            let mul = c.int(1, 50);
            let w = |i: usize| format!("k{}", i * mul % 1009);
            sds = format!("(?:{})", (0..n).map(w).collect::<Vec<_>>().join("|"));
            pcre = sds.clone();
            text = (0..c.int(1, 8)).map(|_| format!("{}{}", w(c.u(n + 2)), c.pick(&["", " ", "5"]))).collect::<String>();
        }
        2 => {
            let n = size(c, 1100);
            let l: Vec<char> = (0..n).map(|i| ['a', 'b', 'é', '1', '中'][(i * i + i / 7) % 5]).collect();
            sds = l.iter().collect::<String>();
            pcre = sds.clone();
            let at = c.u(n);
            let mut near = l.clone();
            near[at] = 'z';
            text = format!("{}|{}|{}", near.iter().collect::<String>(), sds, &sds.chars().skip(1).collect::<String>());
        }
        3 => {
            // groups, side by side
            let n = size(c, 300);
            let mut s = String::new();
            for i in 0..n {
                s.push_str(&match i % 4 {
                    0 => "(a)".to_string(),
                    1 => format!("(?<n{i}>b)"),
                    2 => "(?:c)".into(),
                    _ => "(?i:d)".into(),
                });
            }
            sds = s;
            pcre = sds.clone();
            let t: String = (0..n).map(|i| ['a', 'b', 'c', 'D'][i % 4]).collect();
            text = format!("{t}{t} {}", &t[1..]);
        }
        _ => {
            // a class with many members
            let n = size(c, 300);
            let step = c.int(1, 9) as u32;
            let of = |i: u32| char::from_u32(0x4e00 + i * step).unwrap();
            let neg = if c.chance(1, 3) { "^" } else { "" };
            let mut s = format!("[{neg}");
            for i in 0..n as u32 {
                if i % 3 == 0 && step > 2 {
                    s.push_str(&format!("{}-{}", of(i), char::from_u32(0x4e00 + i * step + 1).unwrap()));
                } else {
                    s.push(of(i));
                }
            }
            s.push(']');
            sds = s;
            pcre = sds.clone();
            text = (0..20).map(|_| char::from_u32(0x4e00 + c.u(n * step as usize + 3) as u32).unwrap()).chain("a-]".chars()).collect();
        }
    }
    c.note(|| format!("/{sds}/ on {text:?}"));
    let Ok(re) = crate::refre::RefRegex::new(&pcre) else { return c.discard() };
    let mut want = vec![];
    let mut at = 0;
    loop {
        match re.find_at(&text, at) {
            Ok(Some((a, b))) => {
                want.push((a, b));
                at = b.max(a + 1);
            }
            Ok(None) => break,
            Err(_) => return c.discard(),
        }
    }
    match build(&[RuleM::new(&sds)], Feat::default()) {
        Ok(sc) => {
            let mut e = text.clone();
            let got: Vec<(usize, usize)> = sc.scan(&mut e, vec![]).iter().map(|m| (m.start_index, m.end_index_exclusive)).collect();
            ensure!(got == want, "matches {got:?}, expected {want:?}");
        }
        Err(CreateScannerError::InvalidRegex(RegexValidationError::TooComplex)) => {
            c.tag("too complex");
            return c.discard();
        }
        Err(e) => return Err(format!("rejected: {e:?}")),
    }
    c.nontrivial = !want.is_empty();
    Ok(())
}

/// The x flag: which whitespace of the pattern is ignored, and where.
fn p11_extended(c: &mut Ctx) -> Res {
    // ignored when not escaped; as PCRE2 has it
    const IGNORED: &[char] = &[' ', '\t', '\n', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}', '\u{200e}', '\u{200f}'];
    const KEPT: &[char] = &['\u{a0}', '\u{2003}', '\u{3000}', '\u{1680}', '\u{202f}', '\u{205f}', '\u{2000}', '\u{feff}', '\u{200b}', '\u{2060}', '\u{180e}', '\u{1c}'];
    const MARKS: &[char] = &['\u{200e}', '\u{200f}'];
    let hex = |ch: char| format!("\\x{{{:X}}}", ch as u32);
    let mut sds = String::new();
    let mut pcre = String::new();
    // the same, if the two marks are taken for literals (the open finding)
    let mut lit = String::new();
    let mut sample = String::new();
    let mut marks = false;
    let mut ignored = 0;
    let mut x = false;
    if c.chance(2, 3) {
        x = true;
        sds.push_str("(?x)");
    }
    let mut closing: Vec<bool> = vec![];
    for _ in 0..c.int(1, 6) {
        // spaces
        for _ in 0..c.weighted(&[2, 3, 1]) {
            let ch = if c.chance(3, 4) { *c.pick(IGNORED) } else { *c.pick(KEPT) };
            sds.push(ch);
            if x && IGNORED.contains(&ch) {
                if MARKS.contains(&ch) {
                    marks = true;
                    lit.push_str(&hex(ch));
                }
                ignored += 1;
            } else {
                pcre.push_str(&hex(ch));
                lit.push_str(&hex(ch));
                sample.push(ch);
            }
        }
        match c.weighted(&[6, 2, 2, 1, 1, 1]) {
            0 => {
                let ch = *c.pick(&['a', 'b', '1', 'é', '-']);
                sds.push(ch);
                pcre.push_str(&hex(ch));
                lit.push_str(&hex(ch));
                sample.push(ch);
                if c.chance(1, 3) {
                    if x && c.chance(1, 2) {
                        sds.push(*c.pick(&[' ', '\t', '\n', '\u{2028}']));
                        ignored += 1;
                    }
                    let q = *c.pick(&["+", "{2}", "{1,2}"]);
                    sds.push_str(q);
                    pcre.push_str(q);
                    lit.push_str(q);
                    sample.push(ch);
                }
            }
            1 => {
                // always itself
                let ch = if c.chance(1, 2) { *c.pick(IGNORED) } else { *c.pick(KEPT) };
                match c.u(3) {
                    0 => sds.push_str(&format!("\\{ch}")),
                    1 => sds.push_str(&hex(ch)),
                    _ => sds.push_str(&format!("[{ch}]")),
                }
                pcre.push_str(&hex(ch));
                lit.push_str(&hex(ch));
                sample.push(ch);
            }
            2 => {
                x = !x;
                sds.push_str(if x { "(?x)" } else { "(?-x)" });
            }
            3 => {
                closing.push(x);
                x = !x;
                sds.push_str(if x { "(?x:" } else { "(?-x:" });
                pcre.push_str("(?:");
                lit.push_str("(?:");
                // not empty, so that a quantifier has something to apply to
                sds.push('z');
                pcre.push('z');
                lit.push('z');
                sample.push('z');
            }
            4 => {
                if let Some(before) = closing.pop() {
                    sds.push(')');
                    pcre.push(')');
                    lit.push(')');
                    x = before;
                }
            }
            _ => {
                sds.push_str("[a ]");
                pcre.push_str("[a\\x{20}]");
                lit.push_str("[a\\x{20}]");
                sample.push(*c.pick(&['a', ' ']));
            }
        }
    }
    for _ in closing {
        sds.push(')');
        pcre.push(')');
        lit.push(')');
    }
    if sample.is_empty() {
        return c.discard();
    }
    let spaced = sample.chars().flat_map(|ch| [ch, ' ']).collect::<String>();
    let text = format!("{sample}|{sds}|{spaced}|{}{sample}", sample.replace(' ', ""));
    c.note(|| format!("/{}/ (reference /{pcre}/) on {text:?}", sds.escape_debug()));
    let all = |pattern: &str| {
        let re = crate::refre::RefRegex::new(pattern).ok()?;
        let (mut v, mut at) = (vec![], 0);
        while let Ok(Some((a, b))) = re.find_at(&text, at) {
            v.push((a, b));
            at = b.max(a + 1);
        }
        Some(v)
    };
    let Some(want) = all(&pcre) else { return c.discard() };
    let sc = build(&[RuleM::new(&sds)], Feat::default()).map_err(|e| format!("rejected: {e:?}"))?;
    let mut e = text.clone();
    let got: Vec<(usize, usize)> = sc.scan(&mut e, vec![]).iter().map(|m| (m.start_index, m.end_index_exclusive)).collect();
    if got != want {
        let err = format!("matches {got:?}, expected {want:?}");
        if marks && all(&lit) == Some(got) {
            return c.known("P11", "U+200E and U+200F are not ignored with the x flag", err);
        }
        return Err(err);
    }
    c.nontrivial = ignored > 0 && !want.is_empty();
    Ok(())
}

/// Chars the sets are compared over (not those whose case folding leaves ASCII).
fn universe(c: &mut Ctx) -> Vec<char> {
    let mut v: Vec<char> = (0..0x180u32).filter_map(char::from_u32).collect();
    v.extend("αΩДд中文😀😎€ⅧÅ½ʰǅ«»\u{2028}\u{2029}\u{2003}\u{feff}\u{fffd}\u{10ffff}\u{e001}\u{d7fe}\u{378}\u{3000}".chars());
    for _ in 0..40 {
        let n = match c.u(3) {
            0 => c.u(0x3000),
            1 => c.u(0x10000),
            _ => c.u(0x110000),
        };
        v.extend(char::from_u32(n as u32));
    }
    // regex-syntax negates ranges wrongly that meet across the surrogates ([^\p{Co}\p{Cn}])
    v.retain(|x| !matches!(x, '\u{d7ff}' | '\u{e000}'));
    v.retain(|x| !matches!(x, '\u{212a}' | '\u{17f}' | '\u{130}' | '\u{131}'));
    v
}

/// The chars of the text that a rule matches, one by one.
fn matched_set(pattern: &str, text: &[char]) -> Result<Vec<char>, String> {
    let sc = build(&[RuleM::new(pattern)], Feat::default()).map_err(|e| format!("/{pattern}/ was rejected: {e:?}"))?;
    let s: String = text.iter().collect();
    let mut e = s.clone();
    sc.scan(&mut e, vec![])
        .iter()
        .map(|m| {
            let t = &s[m.start_index..m.end_index_exclusive];
            let mut i = t.chars();
            match (i.next(), i.next()) {
                (Some(x), None) => Ok(x),
                _ => Err(format!("/{pattern}/ matched {t:?}, not a single char")),
            }
        })
        .collect()
}

/// Things that match one char: the exact set.
fn p11_atoms(c: &mut Ctx) -> Res {
    let text = universe(c);
    let mut pat = String::new();
    let want: Vec<char>;
    match c.weighted(&[4, 3]) {
        0 => {
            // escapes with one meaning
            let (p, ch) = gen_escape(c);
            let in_class = c.chance(1, 3);
            pat = if in_class { format!("[{p}]") } else { p };
            let mut text = text.clone();
            text.push(ch);
            want = text.iter().filter(|x| **x == ch).cloned().collect();
            c.note(|| format!("/{pat}/ is {ch:?}"));
            let got = matched_set(&pat, &text)?;
            ensure!(got == want, "/{pat}/ matches {got:?}, expected {want:?}");
            c.nontrivial = true;
            return Ok(());
        }
        _ => {
            let mut fl = Fl::default();
            if c.chance(1, 3) {
                fl.i = true;
                pat.push_str("(?i)");
            }
            if c.chance(1, 4) {
                fl.x = true;
                pat.push_str("(?x)");
            }
            let re = loop {
                let r = regen::gen_atom(c, &regen::FULL, fl);
                if matches!(r, Re::Lit(..) | Re::Class(..) | Re::Perl(_) | Re::Dot | Re::Prop(..)) {
                    break r;
                }
            };
            let mut b = String::new();
            regen::pr(&re, &mut fl, &mut pat, &mut b, &mut 0);
            c.note(|| format!("/{pat}/ as PCRE2 /{b}/"));
            let Ok(rr) = RefRegex::new(&b) else { return c.discard() };
            let mut w = vec![];
            let mut buf = [0u8; 4];
            for ch in &text {
                // unassigned or reassigned chars: the Unicode versions differ
                if rr.find_at(ch.encode_utf8(&mut buf), 0).map_err(|_| "gave up")?.is_some() {
                    w.push(*ch);
                }
            }
            want = w;
        }
    }
    let got = matched_set(&pat, &text)?;
    if got != want {
        // a char that PCRE2's older Unicode tables do not know
        let cn = RefRegex::new("\\p{Cn}").unwrap();
        let d: Vec<char> = text.iter().filter(|x| got.contains(x) != want.contains(x)).cloned().collect();
        if d.iter().all(|x| cn.find_at(&x.to_string(), 0).unwrap().is_some()) {
            return c.discard();
        }
        return Err(format!("/{pat}/: the code under test and PCRE2 disagree on {d:?}"));
    }
    c.nontrivial = !want.is_empty() && want.len() < text.len();
    Ok(())
}

fn gen_escape(c: &mut Ctx) -> (String, char) {
    match c.u(9) {
        0 => {
            let l = (b'a' + c.u(26) as u8) as char;
            let l2 = if c.chance(1, 2) { l.to_ascii_uppercase() } else { l };
            (format!("\\c{l2}"), (l as u8 - b'a' + 1) as char)
        }
        1 => {
            let (s, ch) = *c.pick(&[("\\a", '\x07'), ("\\e", '\x1b'), ("\\f", '\x0c'), ("\\n", '\n'), ("\\r", '\r'), ("\\t", '\t')]);
            (s.to_string(), ch)
        }
        2 => {
            let n = c.u(256) as u32;
            let s = if c.chance(1, 2) { format!("\\x{n:02x}") } else { format!("\\x{n:02X}") };
            (s, char::from_u32(n).unwrap())
        }
        3 => {
            let n = c.u(16) as u32;
            (if n == 0 && c.chance(1, 2) { "\\x".into() } else { format!("\\x{n:x}") }, char::from_u32(n).unwrap())
        }
        4 | 5 => {
            let m = *c.pick(&[0x80, 0x1000, 0x10000, 0x110000]);
            let ch = char::from_u32(c.u(m) as u32).unwrap_or('a');
            let z = "0".repeat(c.u(4));
            let s = if c.chance(1, 2) { format!("\\x{{{z}{:x}}}", ch as u32) } else { format!("\\x{{{z}{:X}}}", ch as u32) };
            (s, ch)
        }
        6 => {
            // a backslash in front of anything that is not a letter or digit
            let ch = *c.pick(&[
                '.', '*', '+', '?', '(', ')', '[', ']', '{', '}', '|', '^', '$', '\\', '/', '-', '_', ' ', '#', '&', '~', '<', '>', '"',
                '\'', '!', '@', '%', ',', ';', ':', '=', '`', '\t', 'é', '€', '😀', '中', '\u{a0}',
            ]);
            (format!("\\{ch}"), ch)
        }
        7 => {
            let ch = *c.pick(&['i', 'j', 'm', 'q', 'y', 'I', 'J', 'M', 'T', 'Y', 'F', 'O']);
            (format!("\\{ch}"), ch)
        }
        _ => {
            let ch = *c.pick(regen::LITS);
            (format!("\\Q{ch}\\E"), ch)
        }
    }
}

/// Unicode properties: all names, random chars.
fn p11_props(c: &mut Ctx) -> Res {
    let n = *c.pick(PROPERTY_NAMES);
    let neg = c.chance(1, 4);
    let pat = format!("\\{}{{{n}}}", if neg { 'P' } else { 'p' });
    let pat = if c.chance(1, 3) { format!("[{pat}]") } else { pat };
    let rr = RefRegex::new(&regen::pcre_prop(n, neg)).map_err(|e| format!("PCRE2 does not know {n}: {e}"))?;
    let cn = RefRegex::new("\\p{Cn}").unwrap();
    let mut text = universe(c);
    // walk a stretch of the code space
    let from = c.u(0x32000) as u32;
    text.extend((from..from + 600).filter_map(char::from_u32));
    text.retain(|x| {
        let mut b = [0u8; 4];
        cn.find_at(x.encode_utf8(&mut b), 0).unwrap().is_none()
    });
    c.note(|| format!("/{pat}/ over {} chars from U+{from:04X}", text.len()));
    let want: Vec<char> = text
        .iter()
        .filter(|x| {
            let mut b = [0u8; 4];
            rr.find_at(x.encode_utf8(&mut b), 0).unwrap().is_some()
        })
        .cloned()
        .collect();
    let got = matched_set(&pat, &text)?;
    let d: Vec<char> = text.iter().filter(|x| got.contains(x) != want.contains(x)).cloned().collect();
    ensure!(d.is_empty(), "/{pat}/: the code under test and PCRE2 disagree on {d:?}");
    c.nontrivial = !want.is_empty();
    Ok(())
}


/// Arbitrary texts, not printed from a tree: the code under test and PCRE2 get the same text, and if
/// both accept it they must match the same. (What only PCRE2 rejects is left open, but for ranges.)
fn p11_raw(c: &mut Ctx) -> Res {
    const CLASS: &[&str] = &[
        "a", "b", "c", "z", "A", "Z", "-", "-", "-", "]", "[", "^", "\\Q", "\\E", "\\Qb\\E", "\\Q]\\E", "\\Q-\\E", "\\d", "\\w", "\\W",
        "\\S", "[:alpha:]", "[:^digit:]", "[:", "[:foo:]", "[.a.]", "[=b=]", ":]", ".]", "=]", "\\x{+41}", "\\x{0000000000000000063}", "\\x{", ":", "\\x41", "\\x{5A}", "\\x{e9}", "\\b", "\\n", "\\e", "\\cA", "\\-", "\\]", "\\\\", "\\^", "\\[", "0", "9",
        "é", "&", "&&", "~~", "--", " ", "#", "{", "}", "(", ")", "|", "$", ".", "*", "?", "\\p{L}", "\\P{Nd}", "\\x", "\\t", "\\x7f", "a-z", "0-9",
    ];
    const ANY: &[&str] = &[
        "a", "b", "1", "2", ".", "*", "+", "?", "(", ")", "[ab]", "[^a]", "[]a]", "{", "}", "{2}", "{1,2}", "{1,}", "{0,1}", "{,2}", "{2", "{1,2", "{a}", "{99999999999}", "{99999999999", "\\x{+41}", "\\x{0000000061}", "\\x{00000000000000000041}", "\\x{ 41}", "\\x{", "{3,4294967297}", "[:", ":]", "[:alpha:]", "[[:foo:]]",
        "|", "\\d", "\\w", "\\W", "\\b", "\\B", "\\A", "\\z", "(?:", "(?i)", "(?s)", "(?-i)", "(?i:", "(?s-i:", "(?<n>", "(?P<m>", "(?'q'", "\\Q", "\\E",
        "\\Qa+\\E", "\\Qb\\E", "]", " ", "\n", "#", "é", "-", ",", "\\x61", "\\x{62}", "\\.", "\\{", "/", "(?)", "(?-)", "(?i-)", "A", "B", "\\x6",
        "\\t", "&", "^", "?", "+",
    ];
    let class = c.chance(1, 2);
    let n = c.int(1, if class { 7 } else { 9 });
    let mut pat: String = (0..n).map(|_| *c.pick(if class { CLASS } else { ANY })).collect();
    if class {
        pat = format!("[{pat}]");
    }
    c.note(|| format!("/{pat}/"));
    // empty quotes are left open
    if pat.contains("\\Q\\E") {
        return c.discard();
    }
    // what an empty iteration does differs between engines
    let quantified = |x: &str| ["*", "+", "?", "{"].iter().any(|q| pat.contains(&format!("{x}{q}")));
    if !class && (quantified(")") || quantified("\\b") || quantified("\\B") || quantified("\\A") || quantified("\\z") || quantified("^")) {
        return c.discard();
    }
    let sc = match build(&[RuleM::new(&pat)], Feat::default()) {
        Ok(x) => x,
        Err(_) => return c.discard(),
    };
    let rr = match RefRegex::new(&pat) {
        Ok(x) => x,
        // Left open: a brace quantifier after another quantifier or after nothing, and a "-" next to a class
        // (`[a-\d]`)
        Err(105 | 109 | 150) => return c.discard(),
        Err(e) => return Err(format!("/{pat}/ was accepted, PCRE2 rejects it (error {e})")),
    };
    let texts: Vec<String> = if class {
        // (PCRE2 gets chars above U+00FF wrong in classes with \W and a POSIX class or a property)
        let all = !["[:", "\\p", "\\P", "\\W", "\\S"].iter().any(|x| pat.contains(x));
        universe(c).into_iter().filter(|x| all || *x <= '\u{ff}').map(|x| x.to_string()).collect()
    } else {
        const T: &[&str] = &["a", "b", "1", "{", "}", "2", ",", "A", "+", " ", "]", "-", "\n", "é", "#", "B", "aa", "ab", "É", "{2}", "\\", "Q", "a+", "{,2}", "\t", "\u{6}"];
        (0..24).map(|_| c.list(1, 8, 4, 5, |c| *c.pick(T)).concat()).collect()
    };
    let first = |sc: &Scanner, t: &str| {
        let mut e = t.to_string();
        sc.scan(&mut e, vec![]).first().map(|m| (m.start_index, m.end_index_exclusive))
    };
    let mut hits = 0;
    for t in &texts {
        let Ok(want) = rr.find_at(t, 0) else { continue };
        let got = first(&sc, t);
        if got != want {
            // the regex engine's own defect does not show with another alternative (see DESIGN.md)
            let alt = format!("(?:{pat}|\u{10ffff}{{7}})");
            if let Ok(sc2) = build(&[RuleM::new(&alt)], Feat::default()) {
                if first(&sc2, t) == want {
                    return c.discard();
                }
            }
            // PCRE2's older Unicode tables
            if class && RefRegex::new("\\p{Cn}").unwrap().find_at(t, 0).unwrap().is_some() {
                continue;
            }
            return Err(format!("/{pat}/ in {t:?}: {got:?}, PCRE2 finds {want:?}"));
        }
        hits += want.is_some() as usize;
    }
    c.nontrivial = hits > 0 && hits < texts.len();
    Ok(())
}

/// Constructs that are not supported.
const UNSUPPORTED: &[&str] = &[
    "(?=a)", "(?!a)", "(?<=a)", "(?<!a)", "(?>a)", "a++", "a*+", "a?+", "a{2}+", "a{1,2}+", "a{1,}+", "(?#x)", "(?R)", "(?1)", "(?0)", "(?P>n)",
    "(?P=n)", "(?&n)", "(?|a)", "(?(1)a|b)", "(?(<n>)a)", "(*ACCEPT)", "(*FAIL)", "(*UTF)", "\\1", "\\9", "\\12", "\\0", "\\012", "\\g1", "\\g{1}", "\\k<n>",
    "\\k{n}", "\\k'n'", "\\K", "\\R", "\\X", "\\G", "\\N", "\\N{U+61}", "\\C", "\\o{12}", "\\u1234", "\\u{61}", "\\U", "\\L", "\\l", "\\E",
    "\\p{invalid}", "\\p{}", "\\pL", "\\PL", "\\p{^L}", "\\P{lu}", "\\x{}", "\\x{110000}", "\\x{d800}", "\\x{g}", "\\x{ 61 }", "\\x{100000061}", "[\\x{ffffffff}]", "\\x{+61}", "\\x{-0}", "\\x{61", "[\\x{]", "[[:foo:]]", "[a[:Alpha:]]", "[^[:alphas:]b]", "[[:^:]]", "[[::]]", "[[.a.]]", "[[=a=]]", "[:alpha:]", "[:^digit:]", "[.a.]", "[=a=]", "\\c", "\\c1", "(?U)", "(?J)", "(?n)",
    "(?u)", "(?-u)", "(?U:a)", "(?u:a)", "(?iu)", "(?^)", "(?i", "(?<1a>b)", "(?<a-b>c)", "(?<>a)", "(?P'n'a)", "(?'n>a)", "(?<n'a)", "[b-a]", "[\\x{62}-a]",
    "a{3,1}", "a**", "a+*", "a?*", "*", "+", "?", "(", ")", "[", "[]", "[^]", "[a", "[\\A]", "[\\Z]", "[\\z]", "[\\B]", "[\\1]", "[\\R]", "[\\X]", "[\\N]",
    "[\\K]", "[\\u0061]", "[\\o{1}]", "[\\p{invalid}]", "[a-\\x{110000}]", "(?:", "(a|b", "a)", "(?<n>a", "\\Qabc",
];

/// Something that is not supported, of one of several families.
fn gen_bad(c: &mut Ctx) -> String {
    let known = |n: &str| PROPERTY_NAMES.contains(&n);
    let letters = |c: &mut Ctx, max: usize| -> String { (0..c.int(1, max)).map(|_| (b'a' + c.u(26) as u8) as char).collect() };
    let x = match c.u(6) {
        // unknown escapes
        0 => format!("\\{}", c.pick(&['0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'g', 'k', 'l', 'o', 'u', 'C', 'E', 'G', 'K', 'L', 'N', 'R', 'U', 'X'])),
        // unknown flags
        1 => {
            let mut f: Vec<char> = c.list(0, 3, 1, 2, |c| *c.pick(&['i', 'm', 's', 'x', '-'])).into_iter().collect();
            if let Some(i) = f.iter().position(|x| *x == '-') {
                let mut n = 0;
                f.retain(|x| {
                    n += 1;
                    *x != '-' || n == i + 1
                });
            }
            let at = c.u(f.len() + 1);
            f.insert(at, *c.pick(&['a', 'b', 'd', 'e', 'f', 'g', 'h', 'j', 'k', 'l', 'n', 'o', 'p', 'q', 'r', 't', 'u', 'v', 'w', 'y', 'z', 'I', 'M', 'S', 'X', 'J', 'U', '^', '+', '_', ' ']));
            format!("(?{}{}", f.into_iter().collect::<String>(), *c.pick(&[")", ":a)"]))
        }
        // almost a property
        2 | 3 => {
            let mut n: Vec<char> = c.pick(PROPERTY_NAMES).chars().collect();
            let i = c.u(n.len());
            match c.u(4) {
                0 => n[i] = if n[i].is_ascii_lowercase() { n[i].to_ascii_uppercase() } else { n[i].to_ascii_lowercase() },
                1 => {
                    n.remove(i);
                }
                2 => n.insert(i, (b'a' + c.u(26) as u8) as char),
                _ => n[i] = (b'a' + c.u(26) as u8) as char,
            }
            let n: String = n.into_iter().collect();
            if known(&n) {
                return "\\p{Xy}".into();
            }
            let p = format!("\\{}{{{n}}}", c.pick(&["p", "P"]));
            if c.chance(1, 3) {
                format!("[a{p}]")
            } else {
                p
            }
        }
        // almost a POSIX class
        4 => {
            let n = letters(c, 6);
            const POSIX: &[&str] = &["alnum", "alpha", "ascii", "blank", "cntrl", "digit", "graph", "lower", "print", "punct", "space", "upper", "word", "xdigit"];
            if POSIX.contains(&n.as_str()) {
                return "[[:x:]]".into();
            }
            format!("[{}[:{}{n}:]]", c.pick(&["", "a", "^", "a-z"]), c.pick(&["", "^"]))
        }
        // no character has this number
        _ => {
            let v = match c.u(4) {
                0 => 0x110000 + c.u(0x1000) as u64,
                1 => 0xd800 + c.u(0x800) as u64,
                2 => (1u64 << c.int(24, 60)) + c.u(0x200) as u64,
                _ => (1u64 << 32) + c.u(0x110000) as u64,
            };
            let z = "0".repeat(c.u(4));
            if c.chance(1, 3) {
                format!("[\\x{{{z}{v:x}}}]")
            } else {
                format!("\\x{{{z}{v:X}}}")
            }
        }
    };
    x
}

fn p11_reject(c: &mut Ctx) -> Res {
    let mut k = regen::FULL;
    k.depth = 2;
    let gen = |c: &mut Ctx| {
        let r = regen::gen_re(c, &k, k.depth, &mut Fl { x: true, ..Default::default() });
        let mut fl = Fl::default();
        let (mut a, mut b) = (String::new(), String::new());
        regen::pr(&r, &mut fl, &mut a, &mut b, &mut 0);
        // names would occur twice
        a.replace("(?<n", "(?:").replace("(?P<n", "(?:").replace("(?'n", "(?:")
    };
    let made = gen_bad(c);
    let bad = if c.chance(1, 2) { made.as_str() } else { *c.pick(UNSUPPORTED) };
    let mut pre = if c.chance(1, 2) { gen(c) } else { String::new() };
    let mut post = if c.chance(1, 2) { gen(c) } else { String::new() };
    // an open quote or class in front, or something behind, could give it another meaning
    let open_end = ["(", "[", "[]", "[^]", "[a", "(?:", "(a|b", "(?i", "(?<n>a", "\\Qabc"].contains(&bad);
    let needs_nothing_before = ["*", "+", "?"].contains(&bad);
    if open_end || ["\\12", "\\x{}", "\\c", "\\u1234", "\\x{61"].contains(&bad) {
        post.clear();
    }
    if needs_nothing_before {
        pre = if c.chance(1, 2) { String::new() } else { "(?:".into() };
        post = if pre.is_empty() { String::new() } else { ")".into() };
    }
    let pat = format!("{pre}{bad}{post}");
    c.note(|| format!("/{pat}/ contains {bad:?}"));
    match validate_regex(&pat) {
        Ok(()) => return Err(format!("/{pat}/ was accepted, though {bad:?} is not supported")),
        Err(RegexValidationError::InvalidSyntax) => {}
        Err(e) => return Err(format!("/{pat}/: {e:?} instead of InvalidSyntax")),
    }
    c.nontrivial = true;
    Ok(())
}

// ---------------------------------------------------------------- P12
fn soup(c: &mut Ctx) -> String {
    const BITS: &[&str] = &[
        "a", "b", "1", ".", "*", "+", "?", "(", ")", "[", "]", "{", "}", "|", "^", "$", "\\", "-", ",", "(?:", "(?i)", "(?x)", "(?m)", "(?s)", "(?-i)",
        "(?<n>", "(?P<m>", "(?'q'", "[^", "[[:alpha:]]", "[:", ":]", "\\b", "\\B", "\\A", "\\z", "\\Z", "\\d", "\\W", "\\s", "\\h", "\\v", "\\Q", "\\E", "\\x",
        "\\x{", "\\x{41}", "\\cA", "\\p{L}", "\\P{Nd}", "\\p{", "{2}", "{2,}", "{2,3}", "{0}", "{,2}", "{3000}", "{3001}", "{99999999999}", "é", "😀", " ", "\n", "#",
        "&&", "--", "~~", "\u{0}", "\u{feff}", "(?", "(?#", "(?=", "(?<=", "(*", "\\1", "\\k", "\\G", "x", "0", "a-z", "\u{a0}", "/", "i", ":",
    ];
    let n = c.int(0, 14);
    (0..n)
        .map(|_| if c.chance(1, 12) { char::from_u32(c.u(0x11000) as u32).unwrap_or('z').to_string() } else { c.pick(BITS).to_string() })
        .collect()
}

fn kind(e: &CreateScannerError) -> String {
    format!("{e:?}")
}

/// Any string: validation answers, and the scanner agrees; an accepted pattern never matches nothing.
fn p12_total(c: &mut Ctx) -> Res {
    let pat = if c.chance(1, 3) {
        let r = regen::gen_re(c, &regen::FULL, 2, &mut Fl::default());
        let mut p = regen::print(&r).0;
        // damage it
        for _ in 0..c.int(0, 3) {
            let ch: Vec<char> = p.chars().collect();
            if ch.is_empty() {
                break;
            }
            let i = c.u(ch.len());
            match c.u(3) {
                0 => p = ch[..i].iter().chain(&ch[i + 1..]).collect(),
                1 => {
                    let b = soup(c);
                    p = ch[..i].iter().collect::<String>() + &b + &ch[i..].iter().collect::<String>();
                }
                _ => p = ch[..i].iter().collect(),
            }
        }
        p
    } else {
        soup(c)
    };
    c.note(|| format!("/{pat}/"));
    let v = no_panic("validate_regex", || validate_regex(&pat))?;
    let mut r = RuleM::new("x");
    r.pattern = pat.clone();
    if c.chance(1, 3) {
        r.kw = gen_kw(c, KwKind::Any);
    }
    let b = no_panic("building a scanner", || build(&[r], Feat::default()))?;
    match (&v, b) {
        (Ok(()), Ok(sc)) => {
            let mut texts = vec![String::new(), "\n".into(), "a b\n".into(), "id: ab 12 é".into()];
            texts.push(soup(c));
            texts.push(any_chars(c));
            for t in texts {
                let mut e = t.clone();
                let ms = no_panic("scan", || sc.scan(&mut e, vec![]))?;
                ensure!(e == t, "text changed");
                for m in ms {
                    ensure!(m.end_index_exclusive > m.start_index, "/{pat}/ matched nothing at {} of {t:?}", m.start_index);
                    ensure!(
                        t.is_char_boundary(m.start_index) && t.is_char_boundary(m.end_index_exclusive),
                        "/{pat}/ matched part of a char of {t:?}"
                    );
                }
            }
            c.nontrivial = true;
            c.tag("accepted");
        }
        (Err(e), Err(CreateScannerError::InvalidRegex(x))) => {
            ensure!(*e == x, "validate_regex: {e:?}, the scanner: {x:?}");
            c.nontrivial = !pat.is_empty();
            c.tag(match e {
                RegexValidationError::InvalidSyntax => "InvalidSyntax",
                RegexValidationError::ExceededDepthLimit => "ExceededDepthLimit",
                RegexValidationError::TooComplex => "TooComplex",
                RegexValidationError::MatchesEmptyString => "MatchesEmptyString",
                RegexValidationError::ExceededQuantifierLimit => "ExceededQuantifierLimit",
            });
        }
        (v, b) => return Err(format!("/{pat}/: validate_regex gives {v:?}, the scanner {:?}", b.err().map(|e| kind(&e)))),
    }
    Ok(())
}

fn any_chars(c: &mut Ctx) -> String {
    let n = c.int(0, 12);
    (0..n).map(|_| char::from_u32(c.u(0x250) as u32).unwrap_or('z')).collect()
}

/// Whether the pattern (for PCRE2) can match nothing somewhere.
fn can_be_empty(pcre: &str) -> Option<bool> {
    let mut texts = vec![];
    for a in ["", "a", " ", "\n", "_", "é"] {
        for b in ["", "a", " ", "\n", "_", "é", "\na", "\n\n"] {
            texts.push((a.chars().count(), format!("{a}{b}")));
        }
    }
    for (k, t) in texts {
        let p = format!("\\A(?s:.){{{k}}}(?:{pcre})(?<=\\A(?s:.){{{k}}})");
        let re = RefRegex::new(&p).ok()?;
        if re.find_at(&t, 0).ok()?.is_some() {
            return Some(true);
        }
    }
    Some(false)
}

/// Patterns that can match nothing are rejected, others are not.
fn p12_empty(c: &mut Ctx) -> Res {
    let mut k = regen::FULL;
    k.depth = c.int(1, 3);
    let r = match c.u(4) {
        0 => Re::Cat(c.list(1, 4, 2, 3, |c| Re::Assert(*c.pick(&['b', 'B', '^', '$', 'A', 'z', 'Z'])))),
        1 => {
            let x = Re::Cat(c.list(1, 3, 1, 2, |c| Re::Assert(*c.pick(&['b', 'B', '^', '$', 'A', 'z', 'Z']))));
            let y = regen::gen_re(c, &k, 1, &mut Fl::default());
            Re::Group(1, None, Box::new(Re::Alt(if c.chance(1, 2) { vec![x, y] } else { vec![y, x] })))
        }
        _ => regen::gen_re(c, &k, k.depth, &mut Fl::default()),
    };
    let (pat, pcre, _) = regen::print(&r);
    let pat = if c.chance(1, 6) { format!("(?m){pat}") } else { pat };
    if pat.starts_with("(?m)") && pcre.contains("\\z") {
        // printed for other flags
        return c.discard();
    }
    let pcre = if pat.starts_with("(?m)") { let (mut a, mut b) = (String::new(), String::new()); regen::pr(&r, &mut Fl { m: true, ..Default::default() }, &mut a, &mut b, &mut 0); b } else { pcre };
    c.note(|| format!("/{pat}/ as PCRE2 /{pcre}/"));
    let Some(want) = can_be_empty(&pcre) else { return c.discard() };
    let got = validate_regex(&pat);
    match (want, &got) {
        (true, Err(RegexValidationError::MatchesEmptyString)) | (false, Ok(())) => {}
        _ => return Err(format!("/{pat}/ {} match the empty string, but validation says {got:?}", if want { "can" } else { "cannot" })),
    }
    c.nontrivial = regen::min_len(&r) == 0;
    if c.nontrivial && !want {
        c.tag("optional parts, but never empty");
    }
    Ok(())
}

fn p12_limits(c: &mut Ctx) -> Res {
    match c.u(3) {
        0 => {
            // nesting
            let n = *c.pick(&[1, 2, 10, 30, 47, 48, 49, 50, 51, 60, 200, 2000]);
            let mut a = String::new();
            let mut z = String::new();
            for i in 0..n {
                let (o, e) = match c.u(6) {
                    0 | 1 => ("(".to_string(), ")"),
                    2 => ("(?:".into(), ")"),
                    3 => ("(?i:".into(), ")"),
                    4 => (format!("(?<n{i}>"), ")"),
                    _ => ("a(b|".into(), ")c"),
                };
                a.push_str(&o);
                z.insert_str(0, e);
            }
            let pat = if c.chance(1, 2) { format!("{a}x{z}") } else { format!("q(y){a}x{z}(w)") };
            c.note(|| format!("nesting {n}: /{}.../", pat.chars().take(100).collect::<String>()));
            let got = validate_regex(&pat);
            if n >= 50 {
                ensure!(got == Err(RegexValidationError::ExceededDepthLimit), "{n} nested groups: {got:?}");
            } else {
                ensure!(got == Ok(()), "{n} nested groups: {got:?}");
            }
        }
        1 => {
            // quantifiers
            let v = *c.pick(&[0u64, 1, 2, 10, 100, 2999, 3000, 3001, 3002, 10_000, 1_000_000, 4_294_967_295, 4_294_967_296, 4_294_967_298, 18_446_744_073_709_551_615]);
            let w = *c.pick(&[0u64, 1, 50, 2999, 3000, 3001, 100_000, 4_294_967_297]);
            let (q, hi, ok) = match c.u(3) {
                0 => (format!("{{{v}}}"), v, true),
                1 => (format!("{{{v},}}"), v, true),
                _ => (format!("{{{v},{w}}}"), v.max(w), v <= w),
            };
            let x = *c.pick(&["x", "[ab]", "(?:y)", "\\d"]);
            let pat = format!("{}{x}{q}{}{}", c.pick(&["", "ab+"]), c.pick(&["", "?"]), c.pick(&["z", "z|c"]));
            c.note(|| format!("/{pat}/"));
            let got = validate_regex(&pat);
            let want = if hi > 3000 {
                Err(RegexValidationError::ExceededQuantifierLimit)
            } else if !ok {
                Err(RegexValidationError::InvalidSyntax)
            } else {
                Ok(())
            };
            ensure!(got == want, "/{pat}/: {got:?}, expected {want:?}");
        }
        _ => {
            // complexity: the estimate and the limit agree
            let x = *c.pick(&[".", "\\p{L}", "[^a]", "\\w", "(?:a|b|c|d)"]);
            let n = c.int(1, 3000);
            let m = c.int(1, 4);
            let pat = format!("(?:{x}{{{n}}}){{{m}}}");
            c.note(|| format!("/{pat}/"));
            let est = get_regex_complexity_estimate_very_slow(&pat).map_err(|e| format!("estimate of /{pat}/: {e:?}"))?;
            let got = validate_regex(&pat);
            let want = if est > 1_000_000 { Err(RegexValidationError::TooComplex) } else { Ok(()) };
            ensure!(got == want, "/{pat}/ has a complexity of {est}: {got:?}, expected {want:?}");
            c.tag("complexity");
        }
    }
    c.nontrivial = true;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let part = |name, case, quick, thorough| Part { name, case, quick, thorough, threads: 8 };
    vec![
        Prop {
            id: "P11",
            rule: "full: something matched; atoms, props: the set is neither empty nor everything; reject: always",
            parts: vec![
                part("full", p11_full, 30_000, 3_000_000),
                part("extended", p11_extended, 20_000, 1_000_000),
                part("counts", p11_counts, 4_000, 200_000),
                part("atoms", p11_atoms, 20_000, 1_000_000),
                part("props", p11_props, 6_000, 300_000),
                part("raw", p11_raw, 40_000, 3_000_000),
                part("reject", p11_reject, 30_000, 1_000_000),
            ],
            assumptions: &["PCRE2 10.42 is the reference for the shared syntax"],
        },
        Prop {
            id: "P12",
            rule: "total: the pattern is not empty; empty: some part of the pattern may be empty; limits: always",
            parts: vec![
                part("total", p12_total, 80_000, 5_000_000),
                part("empty", p12_empty, 12_000, 600_000),
                part("limits", p12_limits, 600, 20_000),
            ],
            assumptions: &[],
        },
    ]
}
