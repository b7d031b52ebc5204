//! P03 (match actions), P10 (rules are independent; blocked rules).

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::props::scale::*;
use crate::props::scan::world_case;
use dd_sds::*;
use std::sync::Arc;

const CHARS: &[char] = &[
    'a', 'Z', '0', '9', ' ', '*', 'é', 'ß', '€', '中', '😀', '\u{0}', '\n', '\u{301}', '\u{10ffff}', '\u{fffd}', '"', '\\', '\u{7f}', '\u{80}',
    '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{200d}', '\u{fe0f}', '\u{200b}', '\u{feff}', '\u{ad}', '\u{2028}', '\t', '\r',
    '\u{85}', '\u{a0}', '\u{3000}', '\u{1f3fd}', '\u{1f1eb}', '\u{1f1f7}', '\u{202e}', '\u{1100}', '\u{1161}', '\u{e0100}', '\u{327}', '\u{e000}',
];

pub fn any_text(c: &mut Ctx, max: usize) -> String {
    let n = match c.weighted(&[4, 3, 2, 1]) {
        0 => c.int(1, 6.min(max)),
        1 => c.int(1, 20.min(max)),
        2 => c.int(1, 70.min(max)),
        _ => c.int(1, max),
    };
    let kind = c.u(6);
    let one = |c: &mut Ctx| match kind {
        0 | 1 => (32 + c.u(95) as u8) as char,
        2 => char::from_u32(c.u(0x110000) as u32).unwrap_or('\u{e001}'),
        _ => *c.pick(CHARS),
    };
    (0..n).map(|_| one(c)).filter(|c| *c != '|').collect()
}

/// How many characters a partial redaction replaces.
fn count(c: &mut Ctx) -> usize {
    if c.chance(1, 8) {
        size(c, 70_000)
    } else {
        c.int(1, 14)
    }
}

fn p03(c: &mut Ctx) -> Res {
    let act = match gen_act(c) {
        Act::First(_) => Act::First(count(c)),
        Act::Last(_) => Act::Last(count(c)),
        Act::Redact(_) if c.chance(1, 2) => Act::Redact(any_text(c, 30)),
        a => a,
    };
    let pieces = c.list(1, 4, 1, 2, |c| {
        if c.chance(1, 40) {
            let n = size(c, 70_000);
            let t = any_text(c, 3);
            t.chars().cycle().take(if t.is_empty() { 0 } else { n }).collect()
        } else {
            any_text(c, 300)
        }
    });
    c.note(|| format!("{act:?} on {pieces:?}"));
    let mut r = RuleM::new("[^|]+");
    r.act = act.clone();
    let sc = build(&[r], Feat::default()).map_err(|e| format!("rejected: {e:?}"))?;
    let text = pieces.join("|");
    let mut ev = text.clone();
    let ms = sc.scan(&mut ev, vec![]);
    let live: Vec<&String> = pieces.iter().filter(|p| !p.is_empty()).collect();
    ensure!(ms.len() == live.len(), "{} matches for {} pieces", ms.len(), live.len());
    let want: Vec<String> = pieces.iter().map(|p| if p.is_empty() { String::new() } else { act.apply(p) }).collect();
    ensure!(ev == want.join("|"), "{text:?} became {ev:?}, expected {:?}", want.join("|"));
    for m in &ms {
        ensure!(m.replacement_type == act.replacement_type(), "replacement type {:?} for {act:?}", m.replacement_type);
    }
    // the same through the exported action
    for p in &live {
        let real = act.real();
        match real.get_replacement(p) {
            None => ensure!(act == Act::None, "no replacement for {act:?}"),
            Some(r) => {
                let out = format!("{}{}{}", &p[..r.start], r.replacement, &p[r.end..]);
                ensure!(out == act.apply(p), "{act:?} turns {p:?} into {out:?}");
            }
        }
        ensure!(real.is_mutating() == act.mutating(), "is_mutating of {act:?}");
    }
    c.nontrivial = act != Act::None;
    if pieces.iter().any(|p| !p.is_ascii()) {
        c.tag("non-ASCII");
    }
    if let Act::First(n) | Act::Last(n) = act {
        if live.iter().any(|p| p.chars().count() <= n) {
            c.tag("partial redaction of a shorter match");
        }
    }
    Ok(())
}

/// Redaction hides the value: the output depends only on what the action lets through.
fn p03_secret(c: &mut Ctx) -> Res {
    let act = gen_act(c);
    let a = any_text(c, 40);
    let b = any_text(c, 40);
    if a.is_empty() || b.is_empty() {
        return c.discard();
    }
    c.note(|| format!("{act:?} on {a:?} and {b:?}"));
    let mut r = RuleM::new("[^|]+");
    r.act = act.clone();
    let sc = build(&[r], Feat::default()).map_err(|e| format!("rejected: {e:?}"))?;
    let run = |s: &str| {
        let mut e = s.to_string();
        sc.scan(&mut e, vec![]);
        e
    };
    let (x, y) = (run(&a), run(&b));
    let hidden = |s: &str| -> Option<String> {
        let n = s.chars().count();
        match &act {
            Act::Redact(_) => Some(String::new()),
            Act::First(k) => Some(s.chars().skip(*k).collect()),
            Act::Last(k) => Some(s.chars().take(n.saturating_sub(*k)).collect()),
            _ => None,
        }
    };
    match &act {
        Act::None => ensure!(x == a && y == b, "changed without an action"),
        Act::Hash | Act::Utf16Hash => ensure!((x == y) == (a == b), "hashes {x} {y} of {a:?} {b:?}"),
        _ => ensure!((x == y) == (hidden(&a) == hidden(&b)), "{a:?} -> {x:?}, {b:?} -> {y:?}"),
    }
    c.nontrivial = act != Act::None && a != b;
    Ok(())
}

// ---------------------------------------------------------------- P10
fn p10_scale(c: &mut Ctx) -> Res {
    let k = ScaleKnobs { kinds: &[Kind::Rules, Kind::Rules, Kind::Wide], kw: KwKind::None, vals: false, acts: true, blocked: true, paths: false };
    let Some(o) = scale_case(c, &k)? else { return Ok(()) };
    c.nontrivial = o.w.blocked.iter().any(|b| *b < o.w.rules.len()) && !o.exp.raw.is_empty();
    Ok(())
}

fn p10_blocked(c: &mut Ctx) -> Res {
    let mut k = BASE;
    k.rules = *c.pick(&[(1, 4), (1, 4), (4, 12)]);
    k.tree = c.chance(1, 2);
    k.scopes = k.tree;
    k.kw = if c.chance(1, 3) { KwKind::Any } else { KwKind::None };
    k.blocked = true;
    k.kw_paths = c.chance(1, 3);
    k.enc = false;
    let Some(o) = world_case(c, &k)? else { return Ok(()) };
    // a scanner built without the blocked rules gives the same
    let keep: Vec<usize> = (0..o.w.rules.len()).filter(|i| !o.w.blocked.contains(i)).collect();
    let rules: Vec<RuleM> = keep.iter().map(|i| o.w.rules[*i].clone()).collect();
    let sc = build(&rules, o.w.feat).map_err(|e| format!("rejected: {e:?}"))?;
    let mut g = scan_real(&sc, &o.w.ev, &[], o.w.enc);
    for l in g.matches.values_mut() {
        for m in l {
            m.rule = keep[m.rule];
        }
    }
    ensure!(g.event == o.got.event, "blocking rules {:?} gives {:?}, leaving them out {:?}", o.w.blocked, o.got.event, g.event);
    ensure!(g.matches == o.got.matches, "blocking rules {:?} gives {:?}, leaving them out {:?}", o.w.blocked, o.got.matches, g.matches);
    c.nontrivial = o.w.blocked.iter().any(|b| *b < o.w.rules.len()) && !o.exp.raw.is_empty();
    Ok(())
}

/// Rules whose candidates do not overlap do not influence each other.
fn p10_union(c: &mut Ctx) -> Res {
    let mut k = BASE;
    k.rules = *c.pick(&[(2, 4), (2, 4), (10, 70), (60, 140)]);
    k.acts = false;
    k.tree = c.chance(1, 2);
    k.scopes = k.tree;
    k.kw = if c.chance(1, 2) { KwKind::Any } else { KwKind::None };
    k.kw_paths = k.tree && c.chance(1, 2);
    k.enc = false;
    let mut w = gen_world(c, &k);
    w.feat.multipass = false;
    note_world(c, &w);
    // one scanner for each rule
    let mut alone: Vec<(P, usize, usize, usize)> = vec![];
    for (i, r) in w.rules.iter().enumerate() {
        let sc = build(std::slice::from_ref(r), w.feat).map_err(|e| format!("rejected: {e:?}"))?;
        for m in scan_real(&sc, &w.ev, &[], w.enc).flat {
            alone.push((m.path, m.start, m.end, i));
        }
    }
    // documented priority: start, longer, rule; a match is dropped only if it overlaps a kept one
    alone.sort_by(|a, b| (&a.0, a.1, usize::MAX - a.2, a.3).cmp(&(&b.0, b.1, usize::MAX - b.2, b.3)));
    let mut want: Vec<(P, usize, usize, usize)> = vec![];
    let mut over = 0;
    for m in alone {
        if want.iter().any(|x| x.0 == m.0 && x.1 < m.2 && m.1 < x.2) {
            over += 1;
        } else {
            want.push(m);
        }
    }
    let sc = build(&w.rules, w.feat).map_err(|e| format!("rejected: {e:?}"))?;
    let mut got: Vec<(P, usize, usize, usize)> =
        scan_real(&sc, &w.ev, &[], w.enc).flat.into_iter().map(|m| (m.path, m.start, m.end, m.rule)).collect();
    got.sort();
    want.sort();
    if got != want {
        // rules whose own candidates overlap each other are left open (see P05)
        if w.rules.iter().any(|r| r.kw.as_ref().is_some_and(|k| !k.inc.is_empty())) {
            let Ok(comp) = compile(&w.rules) else { return c.discard() };
            match scan(&w.rules, &comp, w.feat, &w.ev, &[], w.enc) {
                Ok(e) if !e.ambiguous => {}
                _ => return c.discard(),
            }
        }
        return Err(format!("all rules together report {got:?}, the rules one by one {want:?}"));
    }
    c.nontrivial = want.len() > 1;
    if over > 0 {
        c.tag("overlapping candidates");
    }
    if w.rules.len() > 64 {
        c.tag("more than 64 rules");
    }
    Ok(())
}

/// The order of the strings in the event, and unrelated strings, do not matter.
fn p10_siblings(c: &mut Ctx) -> Res {
    let mut k = BASE;
    k.rules = (1, 4);
    k.enc = false;
    k.kw = if c.chance(1, 3) { KwKind::Any } else { KwKind::None };
    let w = gen_world(c, &k);
    let sc = build(&w.rules, w.feat).map_err(|e| format!("rejected: {e:?}"))?;
    let grules: Vec<GRule> = w.rules.iter().map(|m| GRule { m: m.clone(), re: None }).collect();
    let texts = c.list(2, 5, 2, 3, |c| {
        if c.chance(1, 2) {
            gen_text(c, &grules, 8)
        } else {
            let Ev::Str(s) = &w.ev else { unreachable!() };
            s.clone()
        }
    });
    note_world(c, &w);
    c.note(|| format!("strings: {texts:?}"));
    let mut list = Ev::List(texts.iter().map(|s| Ev::Str(s.clone())).collect());
    let all = scan_real(&sc, &list, &[], EncM::Utf8);
    let mut n = 0;
    for (i, t) in texts.iter().enumerate() {
        let one = scan_real(&sc, &Ev::Str(t.clone()), &[], EncM::Utf8);
        let path = vec![Seg::I(i)];
        let strip = |v: &[MatchM]| v.iter().map(|m| (m.rule, m.start, m.end, m.shift)).collect::<Vec<_>>();
        let a = strip(all.matches.get(&path).map_or(&[][..], |x| x));
        let b = strip(&one.flat);
        ensure!(a == b, "string {i} ({t:?}): in the event {a:?}, alone {b:?}");
        let Ev::Str(s) = &one.event else { unreachable!() };
        let got = list_get(&all.event, i);
        ensure!(&got == s, "string {i} ({t:?}): in the event {got:?}, alone {s:?}");
        n += b.len();
    }
    let _ = &mut list;
    c.nontrivial = n > 1;
    Ok(())
}

fn list_get(e: &Ev, i: usize) -> String {
    match e {
        Ev::List(l) => match &l[i] {
            Ev::Str(s) => s.clone(),
            _ => unreachable!(),
        },
        _ => unreachable!(),
    }
}

#[allow(dead_code)]
pub fn configs(rules: &[RuleM]) -> Vec<Arc<dyn RuleConfig>> {
    rules.iter().map(|r| r.config().build()).collect()
}

pub fn props() -> Vec<Prop> {
    let part = |name, case, quick, thorough| Part { name, case, quick, thorough, threads: 8 };
    vec![
        Prop {
            id: "P03",
            rule: "the action modifies the match (secret: and the two values differ)",
            parts: vec![part("apply", p03, 100_000, 5_000_000), part("secret", p03_secret, 60_000, 3_000_000)],
            assumptions: &["FarmHash itself is taken from an independent implementation (the dependency is not available offline)"],
        },
        Prop {
            id: "P10",
            rule: "blocked: a rule of the scanner is blocked and something matches; union, siblings: more than one match",
            parts: vec![
                part("blocked", p10_blocked, 40_000, 2_000_000),
                part("union", p10_union, 2_500, 300_000),
                part("siblings", p10_siblings, 40_000, 2_000_000),
                part("scale", p10_scale, 1_500, 60_000),
            ],
            assumptions: &[],
        },
    ]
}
