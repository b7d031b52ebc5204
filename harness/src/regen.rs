//! Generator of regex patterns, as an AST that prints both in the syntax of the code under test and
//! as an explicit PCRE2 pattern, and that can produce sample matches.

use crate::engine::Ctx;

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Fl {
    pub i: bool,
    pub m: bool,
    pub s: bool,
    pub x: bool,
    /// how they are written
    pub style: u8,
}

#[derive(Clone, Debug)]
pub enum Item {
    C(char),
    /// printed without an escape where that is legal
    Raw(char),
    R(char, char),
    /// \d \s \w \D \S \W \h \H \v \V
    Perl(char),
    Posix(&'static str, bool),
    Prop(&'static str, bool),
}

#[derive(Clone, Debug)]
pub enum Re {
    Empty,
    Lit(char, u8),
    Quote(String),
    /// \\Q..\\E with a quantifier, which applies to the last char only
    QuoteRep(String, char, char),
    Dot,
    Perl(char),
    Prop(&'static str, bool),
    Class(bool, Vec<Item>),
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    /// kind: 0 (..), 1 (?:..), 2 (?<n>..), 3 (?P<n>..), 4 (?'n'..)
    Group(u8, Option<(Fl, Fl)>, Box<Re>),
    Rep(Box<Re>, u32, Option<u32>, u8, bool),
    /// b B ^ $ A z Z
    Assert(char),
    /// the same, made optional with "?"
    AssertOpt(char),
    Flags(Fl, Fl),
}

pub const LITS: &[char] = &[
    'a', 'b', '0', '1', '-', ' ', '.', 'A', 'B', '_', 'é', 'É', '€', '😀', 'c', '9', '\n', '\t', ':', '#',
    '/', '&', '~', ']', '[', '{', '}', '(', '\\', '^', '$', '*', '+', '?', '|', ')', 'д', 'Д', '中', '"', 'x',
    '\u{a0}', '\u{2003}',
];
const META: &str = "\\|[().+?*^$";

#[derive(Clone, Copy)]
pub struct ReKnobs {
    pub depth: usize,
    /// full syntax (flags, unicode properties, all escapes, groups), or just simple things
    pub full: bool,
    pub asserts: bool,
    /// letters the simple generator draws from
    pub alphabet: &'static [char],
}

pub const SIMPLE_ALPHABET: &[char] = &['a', 'b', '1', '2', '3', 'é', '-', '😀', 'A', ' ', '€'];

pub const SIMPLE: ReKnobs = ReKnobs { depth: 2, full: false, asserts: false, alphabet: SIMPLE_ALPHABET };
pub const FULL: ReKnobs = ReKnobs { depth: 3, full: true, asserts: true, alphabet: LITS };

const POSIX: &[&str] = &[
    "alnum", "alpha", "ascii", "blank", "cntrl", "digit", "graph", "lower", "print", "punct", "space", "upper",
    "word", "xdigit",
];
const PROPS: &[&str] = &[
    "L", "Lu", "Ll", "N", "Nd", "P", "Pd", "S", "Sc", "Z", "Zs", "Cc", "C", "M", "Han", "Latin", "Greek", "Cyrillic",
    "So", "Lo", "Po", "Ps", "Pe", "Pc", "Sm", "Sk", "Co", "Cn", "Lm", "Lt", "Mn", "Nl", "No", "Common",
];

fn gen_item(c: &mut Ctx, k: &ReKnobs, fl: Fl) -> Item {
    if !k.full {
        return match c.weighted(&[3, 2, 1]) {
            0 => Item::C(*c.pick(k.alphabet)),
            1 => Item::R('0', *c.pick(&['3', '9', '1'])),
            _ => Item::R('a', *c.pick(&['b', 'f', 'z'])),
        };
    }
    match c.weighted(&[4, 3, 2, 2, if fl.i { 0 } else { 2 }]) {
        0 if c.chance(1, 3) => Item::Raw(*c.pick(&['-', ']', '[', '^', '-', '.', '$', '(', '&', '~', '*'])),
        0 => Item::C(*c.pick(LITS)),
        1 => {
            let (a, b) = *c.pick(&[
                ('a', 'f'),
                ('0', '9'),
                ('A', 'Z'),
                (' ', '/'),
                ('é', '€'),
                ('!', '~'),
                ('\n', '\r'),
                ('-', '9'),
                ('Z', 'a'),
                ('a', 'a'),
                ('😀', '😎'),
                ('[', ']'),
                ('&', '&'),
                ('#', '&'),
                ('+', '-'),
                (' ', '-'),
                ('z', '~'),
                ('-', '-'),
            ]);
            Item::R(a, b)
        }
        2 => Item::Perl(*c.pick(&['d', 'w', 's', 'D', 'W', 'S', 'h', 'H', 'v', 'V'])),
        3 => Item::Posix(*c.pick(POSIX), c.chance(1, 3)),
        _ => Item::Prop(*c.pick(PROPS), c.chance(1, 3)),
    }
}

/// Generates a pattern; `fl` are the flags in force, updated by inline flags.
pub fn gen_re(c: &mut Ctx, k: &ReKnobs, depth: usize, fl: &mut Fl) -> Re {
    let n_atoms = if depth == 0 { 0 } else { 3 };
    match c.weighted(&[6, n_atoms * 2, n_atoms, n_atoms, n_atoms * 2]) {
        0 => gen_atom(c, k, *fl),
        1 => {
            let n = c.int(2, 4);
            let mut v = vec![];
            for _ in 0..n {
                if k.full && c.chance(1, 16) {
                    let (on, off) = gen_flags(c);
                    v.push(Re::Flags(on, off));
                    *fl = apply_flags(*fl, on, off);
                } else if k.asserts && c.chance(1, 8) {
                    let a = *c.pick(&['b', 'B', '^', '$', 'A', 'z', 'Z']);
                    v.push(if k.full && c.chance(1, 5) { Re::AssertOpt(a) } else { Re::Assert(a) });
                } else {
                    v.push(gen_re(c, k, depth - 1, fl));
                }
            }
            Re::Cat(v)
        }
        2 => {
            // an alternation is always in a group, so that it does not capture its neighbours
            let mut inner = *fl;
            let n = c.int(2, 3);
            let mut v = vec![];
            for _ in 0..n {
                if k.full && c.chance(1, 12) {
                    v.push(Re::Empty);
                } else {
                    v.push(gen_re(c, k, depth - 1, &mut inner));
                }
            }
            Re::Group(if k.full { c.weighted(&[2, 3]) as u8 } else { 1 }, None, Box::new(Re::Alt(v)))
        }
        3 => {
            let kind = if k.full { c.weighted(&[3, 3, 1, 1, 1]) as u8 } else { 1 };
            let mut inner = *fl;
            let flags = if kind == 1 && k.full && c.chance(1, 2) {
                let (on, off) = gen_flags(c);
                inner = apply_flags(inner, on, off);
                Some((on, off))
            } else {
                None
            };
            let r = gen_re(c, k, depth - 1, &mut inner);
            Re::Group(kind, flags, Box::new(r))
        }
        _ => {
            let mut inner = *fl;
            let r = gen_re(c, k, depth - 1, &mut inner);
            // never a quantifier on something that can be empty: what an empty iteration does differs
            // between engines
            if min_len(&r) == 0 {
                *fl = inner;
                return r;
            }
            if let Re::Quote(q) = &r {
                if c.chance(1, 2) {
                    let mut q = q.clone();
                    let last = q.pop().unwrap();
                    return Re::QuoteRep(q, last, *c.pick(&['+', '?', '*']));
                }
            }
            let r = match r {
                r @ (Re::Lit(..) | Re::Dot | Re::Perl(_) | Re::Prop(..) | Re::Class(..) | Re::Group(..)) => r,
                r => Re::Group(if k.full && c.chance(1, 2) { 0 } else { 1 }, None, Box::new(r)),
            };
            let lazy = c.chance(1, 5);
            let (lo, hi, form) = match c.weighted(&[3, 3, 2, 2, 2, 2]) {
                0 => (1, None, 0),
                1 => (0, Some(1), 0),
                2 => (0, None, 0),
                3 => {
                    let n = c.int(1, 4) as u32;
                    (n, Some(n), 1)
                }
                4 => {
                    let n = c.int(0, 3) as u32;
                    let m = n + c.int(0, 3) as u32;
                    (n, Some(m.max(1)), 2)
                }
                _ => (c.int(0, 3) as u32, None, 3),
            };
            Re::Rep(Box::new(r), lo, hi, form, lazy)
        }
    }
}

fn gen_flags(c: &mut Ctx) -> (Fl, Fl) {
    let mut on = Fl::default();
    let mut off = Fl::default();
    match c.u(8) {
        0 => on.i = true,
        1 => on.m = true,
        2 => on.s = true,
        3 => on.x = true,
        4 => {
            on.i = true;
            on.s = true;
        }
        5 => {
            on = Fl { i: c.chance(1, 2), m: c.chance(1, 2), s: c.chance(1, 2), x: c.chance(1, 4), style: 0 };
            off = Fl { i: c.chance(1, 3), m: c.chance(1, 3), s: c.chance(1, 3), x: c.chance(1, 3), style: 0 };
            on.style = c.u(4) as u8;
            off.style = c.u(4) as u8;
            if flag_text(on, off).is_empty() {
                on.m = true;
            }
            return (on, off);
        }
        _ => {
            on.m = true;
        }
    }
    if c.chance(1, 4) {
        match c.u(4) {
            0 => off.i = !on.i,
            1 => off.m = !on.m,
            2 => off.s = !on.s,
            _ => off.x = !on.x,
        }
    }
    (on, off)
}

pub fn apply_flags(f: Fl, on: Fl, off: Fl) -> Fl {
    Fl {
        i: (f.i || on.i) && !off.i,
        m: (f.m || on.m) && !off.m,
        s: (f.s || on.s) && !off.s,
        x: (f.x || on.x) && !off.x,
        style: 0,
    }
}

pub fn gen_atom(c: &mut Ctx, k: &ReKnobs, fl: Fl) -> Re {
    if !k.full {
        return match c.weighted(&[5, 3, 2, 1]) {
            0 => Re::Lit(*c.pick(k.alphabet), 0),
            1 => Re::Perl(*c.pick(&['d', 'w'])),
            2 => Re::Class(c.chance(1, 6), c.list(1, 3, 1, 2, |c| gen_item(c, k, fl))),
            _ => Re::Dot,
        };
    }
    match c.weighted(&[8, 4, 3, 2, if fl.i { 0 } else { 2 }, 1]) {
        0 => Re::Lit(*c.pick(LITS), c.u(4) as u8),
        1 => Re::Class(c.chance(1, 3), c.list(1, 5, 2, 3, |c| gen_item(c, k, fl))),
        2 => Re::Perl(*c.pick(&['d', 'w', 's', 'D', 'W', 'S', 'h', 'H', 'v', 'V'])),
        3 => Re::Dot,
        4 => Re::Prop(*c.pick(PROPS), c.chance(1, 3)),
        _ => {
            let n = c.int(1, 3);
            Re::Quote((0..n).map(|_| *c.pick(LITS)).filter(|x| *x != '\\').collect())
        }
    }
}

pub fn min_len(r: &Re) -> usize {
    match r {
        Re::Empty | Re::Assert(_) | Re::AssertOpt(_) | Re::Flags(..) => 0,
        Re::Lit(..) | Re::Dot | Re::Perl(_) | Re::Prop(..) | Re::Class(..) => 1,
        Re::Quote(s) => s.chars().count(),
        Re::QuoteRep(s, _, q) => s.chars().count() + (*q == '+') as usize,
        Re::Cat(v) => v.iter().map(min_len).sum(),
        Re::Alt(v) => v.iter().map(min_len).min().unwrap_or(0),
        Re::Group(_, _, r) => min_len(r),
        Re::Rep(r, lo, _, _, _) => min_len(r) * *lo as usize,
    }
}

fn hex(ch: char) -> String {
    format!("\\x{{{:X}}}", ch as u32)
}

fn flag_text(on: Fl, off: Fl) -> String {
    let t = |f: Fl| {
        let mut s = String::new();
        for (b, ch) in [(f.i, 'i'), (f.m, 'm'), (f.s, 's'), (f.x, 'x')] {
            if b {
                s.push(ch)
            }
        }
        // any order, and a flag may be there twice
        if f.style & 1 != 0 {
            s = s.chars().rev().collect();
        }
        if f.style & 2 != 0 {
            s.extend(s.chars().next());
        }
        s
    };
    let (a, b) = (t(on), t(off));
    if b.is_empty() {
        a
    } else {
        format!("{a}-{b}")
    }
}

fn sds_lit(ch: char, style: u8, fl: Fl) -> String {
    let needs_escape = META.contains(ch) || (fl.x && (ch.is_ascii_whitespace() || ch == '#'));
    match style {
        1 => hex(ch),
        2 if (ch as u32) < 256 => format!("\\x{:02x}", ch as u32),
        3 => match ch {
            '\n' => "\\n".into(),
            '\t' => "\\t".into(),
            c if !c.is_alphanumeric() && c != '_' => format!("\\{c}"),
            c => c.to_string(),
        },
        _ => {
            // "{" may start a quantifier
            if ch == '\n' {
                "\\n".into()
            } else if needs_escape || ch == '{' || ch == '}' {
                format!("\\{ch}")
            } else {
                ch.to_string()
            }
        }
    }
}

fn sds_class_lit(ch: char) -> String {
    match ch {
        '\n' => "\\n".into(),
        '\r' => "\\r".into(),
        '\\' | ']' | '^' | '-' | '[' => format!("\\{ch}"),
        c => c.to_string(),
    }
}

fn perl_set(p: char) -> (&'static str, bool) {
    match p {
        'd' => ("0-9", false),
        'D' => ("0-9", true),
        'w' => ("A-Za-z0-9_", false),
        'W' => ("A-Za-z0-9_", true),
        's' => ("\\x09-\\x0D\\x20", false),
        'S' => ("\\x09-\\x0D\\x20", true),
        'h' => ("\\x09\\x20", false),
        'H' => ("\\x09\\x20", true),
        'v' => ("\\x0A-\\x0D", false),
        _ => ("\\x0A-\\x0D", true),
    }
}

/// (pattern for the code under test, the same for PCRE2, and for the regex crate)
pub fn print(r: &Re) -> (String, String, String) {
    let (mut a, mut b) = (String::new(), String::new());
    let mut names = 0;
    pr(r, &mut Fl::default(), &mut a, &mut b, &mut names);
    let mut e = String::new();
    explicit(r, &mut Fl::default(), &mut e);
    (a, b, e)
}

/// The pattern in the syntax of the regex crate, with the meaning it has here.
fn explicit(r: &Re, fl: &mut Fl, o: &mut String) {
    match r {
        Re::Empty => {}
        Re::Lit(ch, _) => o.push_str(&ci(*fl, hex(*ch))),
        Re::Quote(s) => {
            o.push_str("(?:");
            s.chars().for_each(|ch| o.push_str(&ci(*fl, hex(ch))));
            o.push(')');
        }
        Re::QuoteRep(s, l, q) => {
            s.chars().for_each(|ch| o.push_str(&ci(*fl, hex(ch))));
            o.push_str(&format!("(?:{}){q}", ci(*fl, hex(*l))));
        }
        Re::Dot => o.push_str(if fl.s { "(?s:.)" } else { "." }),
        Re::Perl(p) => {
            let (s, neg) = perl_set(*p);
            o.push_str(&format!("[{}{s}]", if neg { "^" } else { "" }));
        }
        Re::Prop(n, neg) => o.push_str(&format!("\\{}{{{n}}}", if *neg { 'P' } else { 'p' })),
        Re::Class(neg, items) => {
            let mut t = String::from(if *neg { "[^" } else { "[" });
            for it in items {
                match it {
                    Item::C(ch) | Item::Raw(ch) => t.push_str(&hex(*ch)),
                    Item::R(x, y) => t.push_str(&format!("{}-{}", hex(*x), hex(*y))),
                    Item::Perl(p) => {
                        let (s, n) = perl_set(*p);
                        t.push_str(&format!("[{}{s}]", if n { "^" } else { "" }));
                    }
                    Item::Posix(n, ng) => t.push_str(&format!("[:{}{n}:]", if *ng { "^" } else { "" })),
                    Item::Prop(n, ng) => t.push_str(&format!("\\{}{{{n}}}", if *ng { 'P' } else { 'p' })),
                }
            }
            t.push(']');
            o.push_str(&ci(*fl, t));
        }
        Re::Cat(v) => v.iter().for_each(|x| explicit(x, fl, o)),
        Re::Alt(v) => {
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push('|');
                }
                explicit(x, fl, o);
            }
        }
        Re::Group(k, f, x) => {
            let mut inner = *fl;
            if *k == 1 {
                let (on, off) = f.unwrap_or_default();
                inner = apply_flags(inner, on, off);
            }
            o.push_str(if *k == 1 { "(?:" } else { "(" });
            explicit(x, &mut inner, o);
            o.push(')');
        }
        Re::Rep(x, lo, hi, _, lazy) => {
            o.push_str("(?:");
            explicit(x, &mut fl.clone(), o);
            o.push(')');
            o.push_str(&match hi {
                Some(h) => format!("{{{lo},{h}}}"),
                None => format!("{{{lo},}}"),
            });
            if *lazy {
                o.push('?');
            }
        }
        Re::Assert(ch) => o.push_str(match ch {
            'b' => "(?-u:\\b)",
            'B' => "(?-u:\\B)",
            '^' if fl.m => "(?m:^)",
            '^' => "^",
            '$' if fl.m => "(?m:\\n?$)",
            '$' => "\\n?$",
            'A' => "\\A",
            'z' => "\\z",
            _ => "\\n?\\z",
        }),
        Re::AssertOpt(ch) => {
            o.push_str("(?:");
            explicit(&Re::Assert(*ch), fl, o);
            o.push_str(")?");
        }
        Re::Flags(on, off) => *fl = apply_flags(*fl, *on, *off),
    }
}

/// Names of scripts mean the Script property (PCRE2 would take Script_Extensions).
pub fn pcre_prop(n: &str, neg: bool) -> String {
    let p = if neg { 'P' } else { 'p' };
    if n.len() > 2 || n == "Yi" {
        format!("\\{p}{{sc:{n}}}")
    } else {
        format!("\\{p}{{{n}}}")
    }
}

fn ci(fl: Fl, s: String) -> String {
    if fl.i {
        format!("(?i:{s})")
    } else {
        s
    }
}

/// Whether a class is taken for a POSIX class or a collating element by PCRE2.
fn posix_syntax(t: &str) -> bool {
    let v: Vec<char> = t.chars().collect();
    let Some(x) = v.get(1).copied().filter(|x| [':', '.', '='].contains(x)) else { return false };
    let mut i = 2;
    while i + 1 < v.len() {
        match (v[i], v[i + 1]) {
            ('\\', ']' | '\\') => i += 1,
            (']', _) => return false,
            ('[', y) if y == x => return false,
            (y, ']') if y == x => return true,
            _ => {}
        }
        i += 1;
    }
    false
}

pub fn pr(r: &Re, fl: &mut Fl, a: &mut String, b: &mut String, names: &mut usize) {
    match r {
        Re::Empty => {}
        Re::Lit(ch, st) => {
            a.push_str(&sds_lit(*ch, *st, *fl));
            b.push_str(&ci(*fl, hex(*ch)));
        }
        Re::Quote(s) => {
            a.push_str(&format!("\\Q{s}\\E"));
            b.push_str("(?:");
            for ch in s.chars() {
                b.push_str(&ci(*fl, hex(ch)));
            }
            b.push(')');
        }
        Re::QuoteRep(s, l, q) => {
            a.push_str(&format!("\\Q{s}{l}\\E{q}"));
            for ch in s.chars() {
                b.push_str(&ci(*fl, hex(ch)));
            }
            b.push_str(&format!("(?:{}){q}", ci(*fl, hex(*l))));
        }
        Re::Dot => {
            a.push('.');
            b.push_str(if fl.s { "(?s:.)" } else { "[^\\n]" });
        }
        Re::Perl(p) => {
            a.push('\\');
            a.push(*p);
            let (s, neg) = perl_set(*p);
            b.push_str(&format!("[{}{s}]", if neg { "^" } else { "" }));
        }
        Re::Prop(n, neg) => {
            a.push_str(&format!("\\{}{{{n}}}", if *neg { 'P' } else { 'p' }));
            b.push_str(&pcre_prop(n, *neg));
        }
        Re::Class(neg, items) => {
            let class_start = a.len();
            a.push('[');
            if *neg {
                a.push('^');
            }
            let mut pos = String::new();
            let mut alts: Vec<String> = vec![];
            for (i, it) in items.iter().enumerate() {
                match it {
                    Item::Raw(ch) => {
                        let set = |x: Option<&Item>| matches!(x, Some(Item::Perl(_) | Item::Posix(..)));
                        let (prev, next) = (if i == 0 { None } else { items.get(i - 1) }, items.get(i + 1));
                        // where a "-" cannot be taken for a range, "]" for the end...
                        let raw = match ch {
                            '-' => {
                                (i == 0 || set(prev) || set(next) || next.is_none() || matches!(prev, Some(Item::R(..))))
                                    && !matches!(next, Some(Item::Raw('-')))
                                    && !matches!(prev, Some(Item::Raw('-')))
                            }
                            ']' => i == 0,
                            '^' => i > 0,
                            '[' => next.is_none(),
                            '&' | '~' => true,
                            _ => true,
                        };
                        // a literal in front of "-" and a literal would be a range
                        let raw = raw && !(*ch != '-' && matches!(next, Some(Item::Raw('-'))));
                        if raw {
                            a.push(*ch);
                        } else {
                            a.push_str(&sds_class_lit(*ch));
                        }
                        pos.push_str(&hex(*ch));
                    }
                    Item::C(ch) => {
                        a.push_str(&sds_class_lit(*ch));
                        pos.push_str(&hex(*ch));
                    }
                    Item::R(x, y) => {
                        a.push_str(&format!("{}-{}", sds_class_lit(*x), sds_class_lit(*y)));
                        pos.push_str(&format!("{}-{}", hex(*x), hex(*y)));
                    }
                    Item::Perl(p) => {
                        a.push('\\');
                        a.push(*p);
                        let (s, n) = perl_set(*p);
                        if n {
                            alts.push(format!("[^{s}]"));
                        } else {
                            pos.push_str(s);
                        }
                    }
                    Item::Posix(n, ng) => {
                        let t = format!("[:{}{n}:]", if *ng { "^" } else { "" });
                        a.push_str(&t);
                        // (PCRE2 gets a class with a negated and a positive POSIX class wrong)
                        if *ng {
                            alts.push(ci(*fl, format!("[^[:{n}:]]")));
                        } else {
                            pos.push_str(&t);
                        }
                    }
                    Item::Prop(n, ng) => {
                        a.push_str(&format!("\\{}{{{n}}}", if *ng { 'P' } else { 'p' }));
                        pos.push_str(&pcre_prop(n, *ng));
                    }
                }
            }
            a.push(']');
            // "[.a.]" would not be a class
            if posix_syntax(&a[class_start..]) {
                a.insert(class_start + 1, '\\');
            }
            if !pos.is_empty() {
                alts.insert(0, ci(*fl, format!("[{pos}]")));
            }
            let u = format!("(?:{})", alts.join("|"));
            if *neg {
                b.push_str(&format!("(?:(?!{u})(?s:.))"));
            } else {
                b.push_str(&u);
            }
        }
        Re::Cat(v) => {
            for x in v {
                if fl.x {
                    a.push(' ');
                }
                pr(x, fl, a, b, names);
            }
        }
        Re::Alt(v) => {
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    a.push('|');
                    b.push('|');
                }
                pr(x, fl, a, b, names);
            }
        }
        Re::Group(k, f, x) => {
            let mut inner = *fl;
            b.push_str("(?:");
            match k {
                0 => a.push('('),
                1 => {
                    let (on, off) = f.unwrap_or_default();
                    inner = apply_flags(inner, on, off);
                    a.push_str(&format!("(?{}:", flag_text(on, off)));
                }
                k => {
                    *names += 1;
                    a.push_str(&match k {
                        2 => format!("(?<n{names}>"),
                        3 => format!("(?P<n{names}>"),
                        _ => format!("(?'n{names}'"),
                    });
                }
            }
            pr(x, &mut inner, a, b, names);
            a.push(')');
            b.push(')');
        }
        Re::Rep(x, lo, hi, form, lazy) => {
            b.push_str("(?:");
            let mut inner = *fl;
            pr(x, &mut inner, a, b, names);
            b.push(')');
            let q = match (form, lo, hi) {
                (0, 1, _) => "+".to_string(),
                (0, 0, Some(_)) => "?".to_string(),
                (0, 0, None) => "*".to_string(),
                (1, n, _) => format!("{{{n}}}"),
                (2, n, Some(m)) => format!("{{{n},{m}}}"),
                (_, n, _) => format!("{{{n},}}"),
            };
            a.push_str(&q);
            b.push_str(&q);
            if *lazy {
                a.push('?');
                b.push('?');
            }
        }
        Re::AssertOpt(ch) => {
            b.push_str("(?:");
            pr(&Re::Assert(*ch), fl, a, b, names);
            a.push('?');
            b.push_str(")?");
        }
        Re::Assert(ch) => {
            a.push_str(match ch {
                'b' => "\\b",
                'B' => "\\B",
                '^' => "^",
                '$' => "$",
                'A' => "\\A",
                'z' => "\\z",
                _ => "\\Z",
            });
            b.push_str(match ch {
                'b' => "\\b",
                'B' => "\\B",
                '^' if fl.m => "(?:\\A|(?<=\\n))",
                '^' => "\\A",
                '$' if fl.m => "\\n?(?=\\n|\\z)",
                '$' => "\\n?\\z",
                'A' => "\\A",
                'z' => "\\z",
                _ => "\\n?\\z",
            });
        }
        Re::Flags(on, off) => {
            a.push_str(&format!("(?{})", flag_text(*on, *off)));
            *fl = apply_flags(*fl, *on, *off);
        }
    }
}

/// A string the pattern is likely to match.
pub fn sample(c: &mut Ctx, r: &Re, out: &mut String) {
    match r {
        Re::Empty | Re::Flags(..) => {}
        Re::Assert(ch) | Re::AssertOpt(ch) => {
            if matches!(ch, '$' | 'Z' | '^') && c.chance(1, 4) {
                out.push('\n')
            }
        }
        Re::Lit(ch, _) => {
            if c.chance(1, 8) {
                out.extend(ch.to_uppercase());
            } else {
                out.push(*ch)
            }
        }
        Re::Quote(s) => out.push_str(s),
        Re::QuoteRep(s, l, _) => {
            out.push_str(s);
            let n = c.int(0, 3);
            (0..n).for_each(|_| out.push(*l));
        }
        Re::Dot => out.push(*c.pick(LITS)),
        Re::Perl(p) => out.push(sample_perl(c, *p)),
        Re::Prop(n, neg) => out.push(sample_prop(c, n, *neg)),
        Re::Class(neg, items) => {
            if *neg {
                out.push(*c.pick(LITS));
            } else {
                match c.pick(items).clone() {
                    Item::C(ch) | Item::Raw(ch) => out.push(ch),
                    Item::R(a, b) => {
                        let n = b as u32 - a as u32;
                        let v = a as u32 + c.u(n as usize + 1) as u32;
                        out.push(char::from_u32(v).filter(|x| *x != '\u{212a}').unwrap_or(a));
                    }
                    Item::Perl(p) => out.push(sample_perl(c, p)),
                    Item::Posix(..) => out.push(*c.pick(&['a', 'A', '0', ' ', '\n', '.', '_', 'f', '\u{1}', 'z'])),
                    Item::Prop(n, ng) => out.push(sample_prop(c, n, ng)),
                }
            }
        }
        Re::Cat(v) => {
            for x in v {
                sample(c, x, out)
            }
        }
        Re::Alt(v) => {
            let i = c.u(v.len());
            sample(c, &v[i], out)
        }
        Re::Group(_, _, x) => sample(c, x, out),
        Re::Rep(x, lo, hi, _, _) => {
            let n = *lo as usize + c.u(hi.map_or(3, |h| (h - lo).min(3) as usize) + 1);
            for _ in 0..n {
                sample(c, x, out)
            }
        }
    }
}

fn sample_perl(c: &mut Ctx, p: char) -> char {
    match p {
        'd' => *c.pick(&['0', '1', '2', '3', '4', '5', '6', '7', '8', '9']),
        'w' => *c.pick(&['a', 'b', '0', '_', 'Z']),
        's' => *c.pick(&[' ', '\t', '\n', '\r', '\u{b}', '\u{c}']),
        'D' => *c.pick(&['a', 'é', ' ', '٣']),
        'W' => *c.pick(&[' ', 'é', '-', '中']),
        'S' => *c.pick(&['a', '\u{a0}', '€']),
        'h' => *c.pick(&[' ', '\t']),
        'H' => *c.pick(&['a', '\n', '\u{a0}']),
        'v' => *c.pick(&['\n', '\r', '\u{b}', '\u{c}']),
        _ => *c.pick(&['a', ' ', '\u{2028}']),
    }
}

fn sample_prop(c: &mut Ctx, _n: &str, _neg: bool) -> char {
    *c.pick(&[
        'a', 'Z', 'é', 'É', '5', '٣', '-', '.', '(', ')', '_', '€', '+', '^', ' ', '\u{a0}', '\n', '\u{301}', '中', 'α', 'Д',
        '😀', 'Ⅷ', '½', '\u{e000}', '\u{378}', 'ʰ', 'ǅ', '«',
    ])
}
