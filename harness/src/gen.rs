//! Generators of rules, events and scanner settings.

use crate::engine::Ctx;
use crate::model::*;
use crate::regen::{self, Re, ReKnobs};
use crate::spec;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq)]
pub enum KwKind {
    None,
    Inc,
    Exc,
    Any,
}

#[derive(Clone, Copy)]
pub struct Knobs {
    pub rules: (usize, usize),
    pub re: ReKnobs,
    pub acts: bool,
    pub scopes: bool,
    pub kw: KwKind,
    pub vals: bool,
    pub http: bool,
    pub tree: bool,
    pub enc: bool,
    pub blocked: bool,
    pub kw_paths: bool,
    pub implicit: bool,
    pub multipass: bool,
    /// pieces per string
    pub pieces: usize,
    /// only ASCII field names
    pub ascii_fields: bool,
    /// long strings, deep and wide trees
    pub large: bool,
    /// only patterns of the library, which the reference engine finds quickly in long strings
    pub lib: bool,
    /// field names and keywords made of the same words, joined in different ways
    pub wordy: bool,
}

pub const BASE: Knobs = Knobs {
    rules: (1, 3),
    re: regen::SIMPLE,
    acts: true,
    scopes: false,
    kw: KwKind::None,
    vals: false,
    http: false,
    tree: false,
    enc: true,
    blocked: false,
    kw_paths: false,
    implicit: false,
    multipass: false,
    pieces: 8,
    ascii_fields: true,
    large: false,
    lib: false,
    wordy: false,
};

#[derive(Clone, Debug)]
pub struct World {
    pub rules: Vec<RuleM>,
    pub feat: Feat,
    pub ev: Ev,
    pub blocked: Vec<usize>,
    pub enc: EncM,
}

pub struct GRule {
    pub m: RuleM,
    pub re: Option<Re>,
}

/// Patterns users write, with the same reference pattern, and an example.
pub const LIBRARY: &[(&str, &str)] = &[
    ("\\d{3}", "123"),
    ("\\d+", "4521"),
    ("[a-z]+\\d", "ab1"),
    ("b.b", "bab"),
    ("é+", "éé"),
    ("\\w{2,4}", "ab_1"),
    ("😀{1,2}", "😀"),
    ("a|ab", "ab"),
    ("\\b\\d{2}\\b", "42"),
    ("[^ ]{2}", "€b"),
    ("a{2}", "aa"),
    ("-\\d", "-5"),
    ("[-_]?\\d{2}", "_12"),
    ("(?i)secret=\\w+", "SECRET=ab1"),
];

pub const KEYWORDS: &[&str] = &[
    "id", "test", "ab", "user id", "a-b", "é", "id:", "x", "-k", "card_no", "TeSt", "ñé", "5", "a", "id-no", "=>", " id ",
    "user.id", "aws key", "awsKey", "_u", "no_", "b c", "a b", "日本", "i", "id test", "a b c", "id: x", "my id no", "x a b",
];

pub const FIELDS: &[&str] = &["a", "b", "c", "id", "userId", "a-b", "aws_key", "AWSKey", "test", "a.b", "x y", "", "0", "USER", "message", "Message"];

/// Names used where no keyword looks at them.
pub const FIELDS_WIDE: &[&str] = &[
    "a", "b", "c", "é", "日本", "[0]", "0", "1", "", "a.b", "a ", "A", "😀", "a_very_long_field_name_that_goes_on_and_on_for_more_than_sixty_four_bytes",
    "*", "\n", "\"", "x-y", "ab", "abc", "message", "message", "MESSAGE", "messages", "mess", "message.a",
    "$ref", "@id", "#text", "__typename", "-", "/", "~", "\\", "a[0]", "a/b", "\t", "null", "true", "\u{0}", "{}",
];

/// A name of one to three words, with separators, in camelCase, ...
pub fn gen_name(c: &mut Ctx) -> String {
    const WORDS: &[&str] = &["id", "user", "aws", "key", "card", "no", "a", "b", "x", "test", "é", "日本", "ñé", "5", "i"];
    let words = c.list(1, 3, 1, 2, |c| *c.pick(WORDS));
    let style = c.u(4);
    let sep = *c.pick(&["-", "_", ".", " ", "/", "", "__", "-/", ". "]);
    let mut s = String::new();
    if c.chance(1, 12) {
        s.push_str(*c.pick(&["-", "_", ".", " ", "/"]));
    }
    for (i, w) in words.iter().enumerate() {
        if i > 0 && style != 1 {
            s.push_str(sep);
        }
        match (style, i) {
            // camelCase
            (1, 0) if c.chance(1, 2) => s.push_str(w),
            (1, _) => {
                let mut x = w.chars();
                s.extend(x.next().map(|x| x.to_ascii_uppercase()));
                s.push_str(x.as_str());
            }
            (2, _) => s.push_str(&w.to_ascii_uppercase()),
            _ => s.push_str(w),
        }
    }
    if c.chance(1, 12) {
        s.push_str(*c.pick(&["-", "_", ".", " ", "/", "X"]));
    }
    last_counts(s)
}

/// The last character of a name is taken as it is, unless there are non-ASCII characters: names
/// where that makes a difference are left out.
fn last_counts(mut s: String) -> String {
    if !s.is_ascii() && s.ends_with(|c: char| c.is_ascii_uppercase() || "-_. /".contains(c)) {
        s.push('z');
    }
    s
}

fn field(c: &mut Ctx, k: &Knobs) -> String {
    if k.wordy && c.chance(2, 3) {
        return gen_name(c);
    }
    c.pick(if k.ascii_fields { FIELDS } else { FIELDS_WIDE }).to_string()
}

pub fn gen_act(c: &mut Ctx) -> Act {
    let n = |c: &mut Ctx| if c.chance(1, 30) { *c.pick(&[31, 64, 65, 256, 1000, 1025, 4097]) } else { *c.pick(&[1, 2, 3, 10]) };
    match c.weighted(&[3, 3, 1, 1, 2, 2]) {
        0 => Act::None,
        1 if c.chance(1, 8) => Act::Redact(match c.u(3) {
            0 => c.pick(&[" r ", "\n", "\t[r]", "<b>&amp;</b>", "\"q\" \\d $1 ${0}", "\u{0}r", "\u{2028}", "{}%s%d", "\u{feff}r", "\u{7f}"]).to_string(),
            1 => c.pick(&["r", "é", "😀 "]).repeat(*c.pick(&[31, 63, 64, 127, 128, 255, 256, 300, 1025])),
            _ => c.list(0, 4, 3, 4, |c| char::from_u32(c.u(0x110000) as u32).unwrap_or(' ')).into_iter().collect(),
        }),
        1 => Act::Redact(c.pick(&["", "[R]", "é€", "😀", "***", "123", "a longer replacement ab 12"]).to_string()),
        2 => Act::Hash,
        3 => Act::Utf16Hash,
        4 => Act::First(n(c)),
        _ => Act::Last(n(c)),
    }
}

pub fn fix_last_digit(c: &mut Ctx, s: &mut String, ok: impl Fn(&str) -> bool) {
    let _ = c;
    for d in '0'..='9' {
        s.pop();
        s.push(d);
        if ok(s) {
            return;
        }
    }
}

pub fn digits(c: &mut Ctx, n: usize) -> String {
    (0..n).map(|_| (b'0' + c.u(10) as u8) as char).collect()
}

/// A text that the validator should accept (about half of the time, else close to one).
pub fn sample_valid(c: &mut Ctx, v: Val) -> String {
    let mut s = match v {
        Val::Luhn => {
            let n = c.int(2, 8);
            let mut s = digits(c, n);
            fix_last_digit(c, &mut s, spec::luhn);
            s
        }
        Val::Chinese => {
            let mut s = digits(c, 18);
            fix_last_digit(c, &mut s, spec::chinese_id);
            if !spec::chinese_id(&s) {
                s.pop();
                s.push('X');
            }
            s
        }
        Val::Github => {
            let n = c.int(4, 8);
            let p: String = (0..n).map(|_| *c.pick(&['a', 'Z', '0', 'q', '7'])).collect();
            format!("gh{}_{}{}", c.pick(&["p", "o"]), p, spec::github_checksum(&p))
        }
        Val::Nhs => {
            let mut s = digits(c, 10);
            fix_last_digit(c, &mut s, spec::nhs);
            if c.chance(1, 3) {
                s.insert(6, ' ');
                s.insert(3, ' ');
            }
            s
        }
        Val::Nir => {
            let s = digits(c, 13);
            let mut r = 0u64;
            for d in s.bytes() {
                r = (r * 10 + (d - 48) as u64) % 97;
            }
            format!("{s}{:02}", 97 - r)
        }
    };
    if c.chance(1, 5) && !s.is_empty() {
        // damage one digit
        let i = c.u(s.len());
        let d = (b'0' + c.u(10) as u8) as char;
        s.replace_range(i..i + 1, &d.to_string());
    }
    s
}

fn val_pattern(c: &mut Ctx, v: Val) -> &'static str {
    match v {
        Val::Luhn => *c.pick(&["\\d{2,8}", "\\d{4}", "\\d+", "\\d[\\d -]+\\d"]),
        Val::Chinese => *c.pick(&["\\d{17}[\\dXx]", "[\\dxX]{18}", "\\d+X?"]),
        Val::Github => *c.pick(&["gh[po]_\\w{6,16}", "gh[po]_[A-Za-z0-9]+"]),
        Val::Nhs => *c.pick(&["\\d{3}[ -]?\\d{3}[ -]?\\d{4}", "\\d[\\d ]+\\d", "\\d{9,11}"]),
        Val::Nir => *c.pick(&["\\d{15}", "\\d{14,16}", "\\d+"]),
    }
}

pub fn gen_scope_path(c: &mut Ctx, k: &Knobs, ev_paths: &[P]) -> P {
    if !ev_paths.is_empty() && c.chance(3, 4) {
        // a prefix of an existing path, perhaps without some of its indices, perhaps damaged
        let p = c.pick(ev_paths).clone();
        let n = c.int(1.min(p.len()), p.len());
        let mut p: P = p[..n].to_vec();
        if c.chance(1, 3) {
            p = p
                .into_iter()
                .filter(|s| !matches!(s, Seg::I(_)) || !c.chance(1, 2))
                .collect();
        }
        if c.chance(1, 8) && !p.is_empty() {
            let i = c.u(p.len());
            p[i] = gen_seg(c, k);
        }
        if c.chance(1, 10) {
            p.push(gen_seg(c, k));
        }
        p
    } else {
        c.list(0, 3, 2, 3, |c| gen_seg(c, k))
    }
}

fn gen_seg(c: &mut Ctx, k: &Knobs) -> Seg {
    if c.chance(1, 3) {
        Seg::I(c.u(if k.large { 15 } else { 3 }))
    } else {
        Seg::F(field(c, k))
    }
}

pub fn gen_scope(c: &mut Ctx, k: &Knobs, paths: &[P]) -> ScopeM {
    match c.weighted(&[2, 2, 2, 3]) {
        0 => ScopeM::Exclude(vec![]),
        1 => ScopeM::Exclude(c.list(1, 3, 1, 2, |c| gen_scope_path(c, k, paths))),
        2 => ScopeM::Include(c.list(1, 3, 1, 2, |c| gen_scope_path(c, k, paths)), vec![]),
        _ => {
            let inc = c.list(1, 3, 1, 2, |c| gen_scope_path(c, k, paths));
            let mut exc = c.list(1, 3, 1, 2, |c| gen_scope_path(c, k, paths));
            if c.chance(1, 2) && !paths.is_empty() {
                // exclude something below an include
                exc.push(c.pick(paths).clone());
            }
            ScopeM::Include(inc, exc)
        }
    }
}

/// A keyword of arbitrary characters (those with a single lower case form), many of which mean
/// something in a pattern.
fn gen_keyword(c: &mut Ctx) -> String {
    loop {
        let n = c.int(1, 5);
        let s: String = (0..n)
            .map(|_| match c.u(4) {
                0 => *c.pick(&['a', 'b', 'Z', '9', '1', 'I']),
                1 => *c.pick(&['-', '_', '.', ' ', '/', '\u{a0}']),
                2 => *c.pick(&['(', ')', '[', ']', '{', '}', '|', '*', '+', '?', '^', '$', '\\', '&', '~', '#', '<', '>', '=', ':', '%', '"']),
                _ => *c.pick(&['é', 'É', 'ñ', '日', '😀', '€', 'a', 'İ', 'ß']),
            })
            .collect();
        if !s.trim().is_empty() {
            return s;
        }
    }
}

pub fn gen_kw(c: &mut Ctx, kind: KwKind) -> Option<KwM> {
    let (inc, exc) = match kind {
        KwKind::None => return None,
        KwKind::Inc => (true, c.chance(1, 8)),
        KwKind::Exc => (false, true),
        KwKind::Any => match c.u(5) {
            0 => return None,
            1 => (false, true),
            2 => (true, true),
            _ => (true, false),
        },
    };
    let look = if c.chance(3, 4) { *c.pick(&[30, 50, 10, 12, 8, 20, 5, 3, 7]) } else { c.int(1, 50) };
    let list = |c: &mut Ctx| {
        let mut l = c.list(1, 4, 1, 2, |c| if c.chance(3, 4) { c.pick(KEYWORDS).to_string() } else { gen_keyword(c) });
        if c.chance(1, 30) {
            // many more, of which the text may have any
            let n = *c.pick(&[50, 49, 33, 32, 17]);
            let at = c.u(n);
            let mut more: Vec<String> = (0..n - l.len()).map(|i| format!("{}{}", (b'a' + (i % 26) as u8) as char, i)).collect();
            let at = at.min(more.len());
            more.splice(at..at, l);
            l = more;
        }
        if c.chance(1, 8) && l.len() < 10 {
            // a phrase, of which a part is a keyword too
            let words: Vec<&str> = (0..c.int(2, 5)).map(|_| *c.pick(KEYWORDS)).collect();
            let sep = *c.pick(&[" ", " ", "-", ", ", ""]);
            let from = c.int(1, words.len() - 1);
            l.push(words.join(sep));
            l.push(words[from..].join(sep));
        }
        l.retain(|k| k.chars().count() <= look);
        l
    };
    let mut k = KwM { look, inc: vec![], exc: vec![] };
    if inc {
        k.inc = list(c);
    }
    if exc {
        k.exc = list(c);
        // nothing must be left of an excluded keyword but its dashes
        k.exc.retain(|x| !x.trim().replace(['-', '_'], "").is_empty());
    }
    let short = if look == 1 { "i" } else { "id" };
    if inc && k.inc.is_empty() {
        k.inc.push(short.into());
    }
    if exc && k.exc.is_empty() {
        k.exc.push(short.into());
    }
    Some(k)
}

pub fn gen_rule(c: &mut Ctx, k: &Knobs, paths: &[P]) -> GRule {
    let mut re = None;
    let mut m;
    if k.vals && c.chance(1, 2) {
        let v = *c.pick(&[Val::Luhn, Val::Luhn, Val::Nhs, Val::Nir, Val::Chinese, Val::Github]);
        m = RuleM::new(val_pattern(c, v));
        m.val = Some(v);
    } else if k.lib || !k.re.full && c.chance(1, 3) {
        m = RuleM::new(c.pick(LIBRARY).0);
    } else {
        let mut tries = 0;
        let r = loop {
            let r = regen::gen_re(c, &k.re, k.re.depth, &mut Default::default());
            if regen::min_len(&r) > 0 || tries > 4 {
                break r;
            }
            tries += 1;
        };
        let r = if regen::min_len(&r) == 0 { Re::Lit('a', 0) } else { r };
        let r = match r {
            // an alternation on its own needs no group
            Re::Group(_, None, x) if k.re.full && matches!(*x, Re::Alt(_)) && c.chance(1, 2) => *x,
            r => r,
        };
        let (a, b, e) = regen::print(&r);
        m = RuleM::new(&a);
        m.pcre = b;
        m.rust = e;
        re = Some(r);
    }
    if k.acts {
        m.act = gen_act(c);
    }
    m.kw = gen_kw(c, k.kw);
    if let (true, Some(kw)) = (k.wordy, &mut m.kw) {
        for w in kw.inc.iter_mut().chain(&mut kw.exc) {
            if c.chance(1, 2) {
                *w = gen_name(c);
            }
            *w = last_counts(w.trim().to_string());
            if w.replace(['-', '_'], "").trim().is_empty() || w.chars().count() > kw.look {
                *w = "x".into();
            }
        }
    }
    if k.scopes {
        m.scope = gen_scope(c, k, paths);
    }
    if k.http {
        m.http = c.chance(1, 3);
    }
    GRule { m, re }
}

pub fn sample_rule(c: &mut Ctx, r: &GRule, out: &mut String) {
    if let Some(v) = r.m.val {
        let s = sample_valid(c, v);
        out.push_str(&s);
    } else if let Some(re) = &r.re {
        regen::sample(c, re, out);
    } else if let Some((_, s)) = LIBRARY.iter().find(|x| x.0 == r.m.pattern) {
        out.push_str(s);
    }
}

/// A string made of matches, near matches, keywords and noise.
pub fn gen_text(c: &mut Ctx, rules: &[GRule], max_pieces: usize) -> String {
    let mut out = String::new();
    let kws: Vec<String> = rules
        .iter()
        .filter_map(|r| r.m.kw.as_ref())
        .flat_map(|k| k.inc.iter().chain(&k.exc).cloned())
        .collect();
    let has_kw = !kws.is_empty();
    let looks: Vec<usize> = rules.iter().filter_map(|r| r.m.kw.as_ref()).map(|k| k.look).collect();
    let n = c.int(0, max_pieces);
    for _ in 0..n {
        match c.weighted(&[5, 3, 2, if has_kw { 5 } else { 0 }, 1]) {
            0 => {
                let r = &rules[c.u(rules.len())];
                sample_rule(c, r, &mut out)
            }
            1 => out.push_str(*c.pick(&[" ", "-", "_", "a", "1", ".", "é", "€", "😀", "b", ":", "\n", "=", "中", "2"])),
            2 => out.push_str(*c.pick(&[" ", "  ", " - ", "          ", " x ", "ééééé", "__"])),
            3 => {
                let kw = c.pick(&kws).clone();
                let kw = match c.weighted(&[4, 1, 1, 1]) {
                    0 => kw.trim().to_string(),
                    1 => kw.trim().to_uppercase(),
                    2 => format!("{kw}x"),
                    _ => kw.replace(['-', ' '], "_"),
                };
                out.push_str(&kw);
                if c.chance(1, 4) {
                    // so that what follows starts just within, or just beyond, the distance
                    let look = *c.pick(&looks);
                    let long = if c.chance(1, 2) { kw.chars().count() } else { 0 };
                    let n = (look + c.int(0, 2)).saturating_sub(long + 1);
                    let fill = *c.pick(&[' ', ' ', '.', 'é', '-', '😀']);
                    out.extend(std::iter::repeat_n(fill, n));
                } else if c.chance(3, 4) {
                    out.push_str(*c.pick(&[" ", ": ", "-", "=", "_"]));
                }
            }
            _ => {
                // truncate a sample: a near miss
                let r = &rules[c.u(rules.len())];
                let mut s = String::new();
                sample_rule(c, r, &mut s);
                s.pop();
                out.push_str(&s);
            }
        }
        if out.len() > 400 && max_pieces < 50 {
            break;
        }
    }
    // Characters whose case folding differs between Unicode versions or is many-to-one.
    out.chars().filter(|c| !matches!(*c, '\u{212a}' | '\u{17f}' | '\u{130}' | '\u{131}')).collect()
}

/// The shape of an event: strings are filled in later.
pub fn gen_shape(c: &mut Ctx, k: &Knobs, depth: usize) -> Ev {
    match c.weighted(&[2, if depth > 0 { 3 } else { 0 }, if depth > 0 { 2 } else { 0 }]) {
        0 => Ev::Str(String::new()),
        1 => {
            let v = c.list(1, 3, 1, 2, |c| (field(c, k), gen_shape(c, k, depth - 1)));
            Ev::Map(v.into_iter().collect::<BTreeMap<_, _>>())
        }
        _ if k.large && c.chance(1, 6) => {
            let n = c.int(8, 16);
            Ev::List((0..n).map(|_| gen_shape(c, k, depth.min(1) - 1)).collect())
        }
        _ => Ev::List(c.list(if k.large { 0 } else { 1 }, 3, 1, 2, |c| gen_shape(c, k, depth - 1))),
    }
}

pub fn fill(c: &mut Ctx, e: &mut Ev, f: &mut dyn FnMut(&mut Ctx) -> String) {
    match e {
        Ev::Str(s) => *s = f(c),
        Ev::List(l) => l.iter_mut().for_each(|x| fill(c, x, f)),
        Ev::Map(m) => m.values_mut().for_each(|x| fill(c, x, f)),
    }
}

pub fn gen_world(c: &mut Ctx, k: &Knobs) -> World {
    let mut ev = if k.tree {
        let depth = if k.large { c.int(2, 9) } else { 3 };
        let m = c.list(1, 4, 3, 4, |c| (field(c, k), gen_shape(c, k, depth)));
        Ev::Map(m.into_iter().collect())
    } else {
        Ev::Str(String::new())
    };
    let paths: Vec<P> = ev.strings().into_iter().map(|x| x.0).collect();
    let grules: Vec<GRule> = {
        let (a, b) = k.rules;
        let n = c.int(a, b);
        (0..n).map(|_| gen_rule(c, k, &paths)).collect()
    };
    // Repeat some strings, so that matches of excluded paths occur elsewhere.
    let mut pool: Vec<String> = vec![];
    fill(c, &mut ev, &mut |c| {
        if k.tree && !pool.is_empty() && c.chance(1, 4) {
            let mut s = c.pick(&pool).clone();
            if c.chance(1, 2) {
                s.push_str(&gen_text(c, &grules, 2));
            }
            return s;
        }
        let s = gen_text(c, &grules, if k.tree { 4.min(k.pieces) } else { k.pieces });
        pool.push(s.clone());
        s
    });
    let feat = Feat {
        kw_paths: k.kw_paths && c.chance(3, 4),
        implicit: k.implicit && c.chance(1, 2),
        multipass: if k.multipass { c.chance(3, 4) } else { true },
    };
    let n = grules.len();
    let blocked = if k.blocked { c.list(0, 3, 1, 2, |c| c.u(n + 1)) } else { vec![] };
    let enc = if k.enc { *c.pick(&[EncM::Utf8, EncM::Utf16, EncM::Chars]) } else { EncM::Utf8 };
    World { rules: grules.into_iter().map(|g| g.m).collect(), feat, ev, blocked, enc }
}

pub fn note_world(c: &mut Ctx, w: &World) {
    c.note(|| {
        let mut s = String::from("rules:");
        for r in &w.rules {
            s.push_str(&format!(" {{/{}/ {:?}", r.pattern, r.act));
            if r.scope != ScopeM::Exclude(vec![]) {
                s.push_str(&format!(" {:?}", r.scope));
            }
            if let Some(k) = &r.kw {
                s.push_str(&format!(" {k:?}"));
            }
            if let Some(v) = &r.val {
                s.push_str(&format!(" {v:?}"));
            }
            if r.http {
                s.push_str(" http");
            }
            s.push('}');
        }
        s
    });
    c.note(|| format!("event: {:?}", w.ev));
    c.note(|| format!("{:?} blocked {:?} enc {:?}", w.feat, w.blocked, w.enc));
}
