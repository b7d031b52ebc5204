//! Large worlds, made from few choices: many strings, many rules, long strings, deep trees, many
//! matches, many excluded values. Sizes lie around the limits of small integers.

use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::props::scan::{check_world, Outcome};
use std::collections::BTreeMap;

/// A size, often just around a power of two.
pub fn size(c: &mut Ctx, max: usize) -> usize {
    let n = match c.weighted(&[2, 3, 2, 2, 2]) {
        0 => c.int(1, 20),
        1 => *c.pick(&[256, 255, 257, 254, 253, 258]),
        2 => *c.pick(&[128, 127, 129, 64, 63, 65, 512, 511, 513, 1024, 1023, 1025]),
        3 => *c.pick(&[65536, 65535, 65537, 4096, 4095, 4097, 16384, 32768, 32767]),
        _ => c.int(1, max),
    };
    n.min(max).max(1)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    /// one map with lists of many strings
    Wide,
    /// many rules
    Rules,
    /// many rules with scopes of their own
    Scoped,
    /// one long string
    Long,
    /// a deep tree
    Deep,
    /// many values at an excluded path
    Excluded,
}

#[derive(Clone, Copy)]
pub struct ScaleKnobs {
    pub kinds: &'static [Kind],
    pub kw: KwKind,
    pub vals: bool,
    pub acts: bool,
    pub blocked: bool,
    /// keywords in field names
    pub paths: bool,
}

fn at(path: &[&str], i: Option<usize>) -> P {
    let mut p: P = path.iter().map(|s| Seg::F(s.to_string())).collect();
    p.extend(i.map(Seg::I));
    p
}

fn strs(v: Vec<String>) -> Ev {
    Ev::List(v.into_iter().map(Ev::Str).collect())
}

pub fn gen_scale(c: &mut Ctx, k: &ScaleKnobs) -> (World, Kind, usize) {
    let kind = *c.pick(k.kinds);
    let mut bk = BASE;
    bk.lib = true;
    bk.acts = k.acts;
    bk.kw = k.kw;
    bk.vals = k.vals && c.chance(1, 2);
    let mut feat = Feat { kw_paths: c.chance(1, 4), implicit: false, multipass: c.chance(1, 2) };
    let mut n = 0;
    let n_rules = c.int(1, 3);
    let mut grules: Vec<GRule> = (0..n_rules).map(|_| gen_rule(c, &bk, &[])).collect();
    let mut blocked = vec![];
    let ev = match kind {
        Kind::Wide => {
            feat.implicit = c.chance(1, 2);
            n = size(c, 700);
            let pool: Vec<String> = c.list(1, 4, 2, 3, |c| gen_text(c, &grules, 3));
            let first = c.u(pool.len());
            let mut list: Vec<String> = vec![pool[first].clone(); n];
            for _ in 0..c.int(0, 4) {
                let i = c.u(n);
                list[i] = c.pick(&pool).clone();
            }
            let mut m = BTreeMap::new();
            for f in ["a", "k", "z"] {
                m.insert(f.to_string(), Ev::Str(c.pick(&pool).clone()));
            }
            m.insert("m".into(), strs(list));
            let spots: Vec<P> = vec![
                at(&["a"], None),
                at(&["z"], None),
                at(&["m"], None),
                at(&["k"], None),
                at(&["m"], Some(n - 1)),
                at(&["m"], Some(0)),
                at(&["m"], Some(c.u(n))),
                at(&["m"], Some(c.u(n))),
                vec![],
                at(&["no"], None),
            ];
            for r in &mut grules {
                let some = |c: &mut Ctx, min: usize| c.list(min, 4, 2, 3, |c| c.pick(&spots).clone());
                r.m.scope = match c.u(5) {
                    0 => ScopeM::Exclude(some(c, 0)),
                    1 => ScopeM::Include(some(c, 1), some(c, 0)),
                    2 => {
                        // every so many positions
                        let step = c.int(1, 5);
                        let many: Vec<P> = (c.u(n)..n).step_by(step).map(|i| at(&["m"], Some(i))).collect();
                        match c.u(3) {
                            0 => ScopeM::Exclude(many),
                            1 => ScopeM::Include(vec![at(&["m"], None)], many),
                            _ => ScopeM::Include(if many.is_empty() { vec![vec![]] } else { many }, some(c, 0)),
                        }
                    }
                    _ => ScopeM::Include(some(c, 1), vec![]),
                };
            }
            Ev::Map(m)
        }
        Kind::Rules => {
            n = size(c, 300);
            // literal rules; text mentions some of them
            let stem = *c.pick(&["r", "x1", "é"]);
            let mut ids: Vec<usize> = c.list(1, 12, 5, 6, |c| c.u(n));
            ids.push(n - 1);
            let same = c.chance(1, 4);
            for i in 0..n {
                let mut r = RuleM::new(&format!("{stem}{}q", if same { i % 7 } else { i }));
                r.act = match i % 5 {
                    _ if !k.acts => Act::None,
                    0 => Act::Redact(format!("<{i}>")),
                    1 => Act::First(2),
                    2 => Act::Hash,
                    _ => Act::None,
                };
                grules.push(GRule { m: r, re: None });
            }
            if c.chance(1, 2) {
                // the general rules last
                let extra: Vec<GRule> = grules.drain(..n_rules).collect();
                grules.extend(extra);
            }
            let mut t = String::new();
            for i in ids {
                t.push_str(&format!("{stem}{i}q"));
                t.push_str(*c.pick(&[" ", "", " 12 ", "ab1"]));
                if c.chance(1, 4) {
                    t.push_str(&gen_text(c, &grules[..1], 2));
                }
            }
            if k.blocked && c.chance(3, 4) {
                let step = c.int(1, 5);
                blocked = (c.u(3)..grules.len()).step_by(step).collect();
                if c.chance(1, 2) {
                    let drop = c.u(blocked.len().max(1));
                    if drop < blocked.len() {
                        blocked.remove(drop);
                    }
                }
                if c.chance(1, 2) {
                    blocked.reverse();
                }
                if c.chance(1, 4) {
                    blocked.extend(blocked.clone());
                }
            }
            if c.chance(1, 2) {
                Ev::Str(t)
            } else {
                let half = t.char_indices().map(|x| x.0).nth(t.chars().count() / 2).unwrap_or(0);
                strs(vec![t[..half].to_string(), t[half..].to_string(), t.clone()])
            }
        }
        Kind::Scoped => {
            n = size(c, 300);
            feat.implicit = c.chance(3, 4);
            // the same rules at the same few places, which a rule may name more than once
            let (i, j) = (c.u(3), c.u(3));
            let f = |s: &str| Seg::F(s.into());
            let deep = vec![f("l"), Seg::I(i), f("b"), Seg::I(j)];
            let spots: Vec<P> = vec![
                vec![f("l"), f("b")],
                vec![f("l"), Seg::I(i), f("b")],
                deep[..2].to_vec(),
                deep.clone(),
                vec![f("l"), f("b"), Seg::I(j)],
                vec![f("l")],
                vec![f("a")],
                vec![],
                vec![f("l"), Seg::I((i + 1) % 3), f("b")],
            ];
            let step = c.int(1, 4);
            let kinds: Vec<ScopeM> = (0..c.int(1, 5))
                .map(|_| {
                    let some = |c: &mut Ctx, min: usize| c.list(min, 4, 3, 4, |c| c.pick(&spots).clone());
                    match c.u(4) {
                        0 => ScopeM::Exclude(some(c, 0)),
                        1 => ScopeM::Include(some(c, 1), some(c, 1)),
                        _ => ScopeM::Include(some(c, 2), vec![]),
                    }
                })
                .collect();
            for x in 0..n {
                let mut r = RuleM::new(&format!("r{x}q"));
                r.act = if k.acts && x % 5 == 0 { Act::Redact(format!("<{x}>")) } else { Act::None };
                r.scope = kinds[x / step % kinds.len()].clone();
                grules.push(GRule { m: r, re: None });
            }
            let t = |c: &mut Ctx| -> String {
                let mut ids: Vec<usize> = c.list(1, 8, 5, 6, |c| c.u(n));
                ids.push(n - 1);
                ids.push((n / 64 * 64).saturating_sub(1));
                ids.iter().map(|i| format!("r{i}q{}", c.pick(&[" ", "", " 12 "]))).collect()
            };
            let items = (0..3).map(|_| Ev::Map([("b".to_string(), strs(vec![t(c), t(c), t(c)]))].into())).collect();
            Ev::Map([("a".to_string(), Ev::Str(t(c))), ("l".to_string(), Ev::List(items))].into())
        }
        Kind::Long => {
            // pieces of text with long runs in between
            let mut t = String::new();
            for i in 0..c.int(1, 4) {
                t.push_str(&gen_text(c, &grules, 3));
                // a validator may look at the rest of the text again for every character
                let max = if grules.iter().any(|r| r.m.val.is_some()) { 17_000 } else { 66_000 };
                let r = size(c, if i == 0 { max } else { 4_200 });
                n += r;
                match c.u(3) {
                    // a long run without anything of interest
                    0 | 1 => {
                        let f = *c.pick(&[" ", ".", "é", "😀", "; ", "\n"]);
                        t.extend(std::iter::repeat_n(f, r));
                    }
                    // many matches
                    _ => {
                        let mut s = gen_text(c, &grules, 2);
                        s.push_str(*c.pick(&[" ", "", ", ", "é"]));
                        if s.is_empty() {
                            s.push(' ');
                        }
                        let times = r.min(if max < 66_000 { 200 } else { 1100 });
                        t.extend(std::iter::repeat_n(s.as_str(), times));
                    }
                }
            }
            t.push_str(&gen_text(c, &grules, 3));
            Ev::Str(t)
        }
        Kind::Deep => {
            n = size(c, 260);
            feat.implicit = c.chance(1, 2);
            let long = if c.chance(1, 4) { "name".repeat(size(c, if k.paths { 12 } else { 500 })) } else { "a_rather_long_name_for_a_field_to_be_found_in_an_event".into() };
            let names = ["a", "b", long.as_str()];
            let mut path: P = vec![];
            let every = c.int(1, 4);
            let mut ev = Ev::Str(gen_text(c, &grules, 3));
            let side = c.u(n);
            for d in 0..n {
                let mut m = BTreeMap::new();
                let seg = if d % every == 0 { Seg::F(names[(d / every) % 3].into()) } else { Seg::I(1) };
                let extra = Ev::Str(if d == side { gen_text(c, &grules, 3) } else { String::new() });
                ev = match &seg {
                    Seg::F(f) => {
                        m.insert(f.clone(), ev);
                        m.insert("s".into(), extra);
                        Ev::Map(m)
                    }
                    Seg::I(_) => Ev::List(vec![extra, ev]),
                };
                path.push(seg);
            }
            path.reverse();
            for r in &mut grules {
                let some = |c: &mut Ctx| {
                    let mut p: P = path[..c.int(0, n)].to_vec();
                    match c.u(5) {
                        0 => p.push(Seg::F("s".into())),
                        1 => p.push(Seg::I(0)),
                        2 => p.push(Seg::F("no".into())),
                        _ => {}
                    }
                    if feat.implicit && c.chance(1, 2) {
                        p.retain(|x| matches!(x, Seg::F(_)));
                    }
                    p
                };
                r.m.scope = match c.u(3) {
                    0 => ScopeM::Exclude(vec![some(c)]),
                    1 => ScopeM::Include(vec![some(c)], vec![]),
                    _ => ScopeM::Include(vec![some(c)], vec![some(c)]),
                };
            }
            ev
        }
        Kind::Excluded => {
            feat.multipass = !c.chance(1, 6);
            n = size(c, 700);
            // numbered values
            let mut r = RuleM::new(*c.pick(&["v\\d{4}", "v\\d+", "[uv]\\d{4}"]));
            r.act = if k.acts { gen_act(c) } else { Act::None };
            r.scope = match c.u(3) {
                0 => ScopeM::Exclude(vec![at(&["skip"], None)]),
                1 => ScopeM::Exclude(vec![at(&["skip"], None), at(&["other"], None)]),
                _ => ScopeM::Include(vec![at(&["text"], None), at(&["also"], None)], vec![at(&["text", "skip"], None)]),
            };
            let inside = matches!(r.scope, ScopeM::Include(..));
            grules.insert(c.u(grules.len() + 1), GRule { m: r, re: None });
            let values: Vec<String> = (0..n).map(|i| format!("v{:04}", i * 7)).collect();
            let joined = c.chance(1, 2);
            let skip = if joined { Ev::Str(values.join(" ")) } else { strs(values.clone()) };
            let mut t = String::new();
            for _ in 0..c.int(1, 6) {
                match c.u(4) {
                    0 => t.push_str(&format!("v{:04}", c.u(n) * 7 + 1)),
                    1 => t.push_str(&values[n - 1]),
                    _ => t.push_str(&values[c.u(n)]),
                }
                t.push_str(*c.pick(&[" ", "-", "", "é"]));
            }
            let mut m = BTreeMap::new();
            if inside {
                let mut x = BTreeMap::new();
                x.insert("skip".to_string(), skip);
                x.insert("kept".to_string(), Ev::Str(t.clone()));
                m.insert("text".to_string(), Ev::Map(x));
                m.insert("also".to_string(), Ev::Str(t));
            } else {
                m.insert("skip".to_string(), skip);
                m.insert("other".to_string(), Ev::Str(t.clone()));
                m.insert("text".to_string(), Ev::Str(t));
            }
            Ev::Map(m)
        }
    };
    if k.blocked && blocked.is_empty() && c.chance(1, 2) {
        let m = grules.len();
        blocked = c.list(0, 3, 1, 2, |c| c.u(m + 1));
    }
    let mut ev = ev;
    if k.paths {
        feat.kw_paths = !c.chance(1, 8);
        let kws: Vec<String> =
            grules.iter().filter_map(|g| g.m.kw.as_ref()).flat_map(|k| k.inc.clone()).filter(|k| k.is_ascii()).collect();
        let kw = if kws.is_empty() { "id".into() } else { c.pick(&kws).replace(' ', *c.pick(&["_", "-", " "])) };
        for _ in 0..c.int(1, 2) {
            let far = size(c, if kind == Kind::Long { 3000 } else { 130 });
            let name = match c.u(6) {
                0 => format!("{}{kw}", "ab_".repeat(far)),
                1 => format!("{kw}-{}", "x".repeat(far)),
                2 => format!("{}{kw}", "b".repeat(far)),
                3 => "other".to_string(),
                _ => kw.clone(),
            };
            let wrap = |p: &mut P| p.insert(0, Seg::F(name.clone()));
            for g in &mut grules {
                match &mut g.m.scope {
                    ScopeM::Include(a, b) => a.iter_mut().chain(b).for_each(wrap),
                    ScopeM::Exclude(a) => a.iter_mut().for_each(wrap),
                    _ => {}
                }
            }
            let mut m = BTreeMap::new();
            m.insert("zz".to_string(), Ev::Str(gen_text(c, &grules, 2)));
            m.insert(name.clone(), ev);
            ev = Ev::Map(m);
        }
    }
    let enc = *c.pick(&[EncM::Utf8, EncM::Utf16, EncM::Chars]);
    (World { rules: grules.into_iter().map(|g| g.m).collect(), feat, ev, blocked, enc }, kind, n)
}

pub fn scale_case(c: &mut Ctx, k: &ScaleKnobs) -> Result<Option<Outcome>, String> {
    let (w, kind, n) = gen_scale(c, k);
    c.note(|| format!("{kind:?} of size {n}"));
    c.tag(match (kind, n) {
        (Kind::Wide, 0..=255) => "up to 255 strings in a list",
        (Kind::Wide, _) => "more than 255 strings in a list",
        (Kind::Rules, 0..=255) => "up to 255 further rules",
        (Kind::Rules, _) => "more than 255 further rules",
        (Kind::Scoped, 0..=255) => "up to 255 rules with scopes",
        (Kind::Scoped, _) => "more than 255 rules with scopes",
        (Kind::Long, 0..=65535) => "a string with runs of up to 65535 in total",
        (Kind::Long, _) => "a string with runs of more than 65535 in total",
        (Kind::Deep, 0..=127) => "a tree of depth up to 127",
        (Kind::Deep, _) => "a tree of depth 128 or more",
        (Kind::Excluded, 0..=255) => "up to 255 excluded values",
        (Kind::Excluded, _) => "more than 255 excluded values",
    });
    check_world(c, w, false)
}
