//! Properties of a whole scan, checked against the reference model.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::props::scale::*;
use crate::regen;

pub struct Outcome {
    pub w: World,
    pub exp: Expect,
    pub got: Got,
}

/// Generates a world, scans it with the real scanner and the model, and compares.
/// None: the case was discarded.
pub fn world_case(c: &mut Ctx, k: &Knobs) -> Result<Option<Outcome>, String> {
    let w = gen_world(c, k);
    check_world(c, w, k.re.full)
}

pub fn check_world(c: &mut Ctx, w: World, full: bool) -> Result<Option<Outcome>, String> {
    note_world(c, &w);
    let Ok(comp) = compile(&w.rules) else {
        c.discarded = true;
        return Ok(None);
    };
    let sc = match build(&w.rules, w.feat) {
        Ok(s) => s,
        Err(dd_sds::CreateScannerError::InvalidRegex(dd_sds::RegexValidationError::TooComplex)) if full => {
            c.tag("too complex");
            c.discarded = true;
            return Ok(None);
        }
        Err(e) => return Err(format!("a valid rule set was rejected: {e:?}")),
    };
    let Ok(exp) = scan(&w.rules, &comp, w.feat, &w.ev, &w.blocked, w.enc) else {
        c.discarded = true;
        return Ok(None);
    };
    let got = scan_real(&sc, &w.ev, &w.blocked, w.enc);
    let res = if exp.ambiguous { justified(&exp, &got, &w.ev, w.enc) } else { compare(&exp, &got) };
    if let Err(e) = res {
        if engine_defect(&w.rules, &w.ev) {
            c.tag("engine defect");
            c.discarded = true;
            return Ok(None);
        }
        return Err(e);
    }
    if exp.ambiguous {
        c.tag("result left open: only checked that every match is a candidate");
        return Ok(None);
    }
    Ok(Some(Outcome { w, exp, got }))
}

fn total(o: &Outcome) -> usize {
    o.got.flat.len()
}

// ---------------------------------------------------------------- P01
/// The output is the input with each reported span replaced, and nothing else changed; offsets
/// are right in every encoding. Decided from the output alone (no regex model).
fn p01_rebuild(c: &mut Ctx) -> Res {
    let mut k = BASE;
    k.rules = (1, 4);
    k.tree = c.chance(1, 3);
    k.pieces = 12;
    let w = gen_world(c, &k);
    note_world(c, &w);
    let Ok(sc) = build(&w.rules, w.feat) else { return Err("rejected".into()) };
    let got = scan_real(&sc, &w.ev, &[], w.enc);
    let orig: std::collections::BTreeMap<P, &String> = w.ev.strings().into_iter().collect();
    let new: std::collections::BTreeMap<P, &String> = got.event.strings().into_iter().collect();
    ensure!(orig.keys().eq(new.keys()), "the structure of the event changed");
    let mut mutated = 0;
    for (path, before) in &orig {
        let after = new[path];
        let empty = vec![];
        let ms = got.matches.get(path).unwrap_or(&empty);
        // walk both strings
        let (b, a) = (units(before, w.enc), units(after, w.enc));
        let mut shift = 0isize;
        let mut at = 0usize; // in `after`
        for m in ms {
            ensure!(m.start >= at, "matches out of order or overlapping in {path:?}: {ms:?}");
            ensure!(m.end >= m.start && m.end <= a.len(), "span {}..{} outside of {after:?}", m.start, m.end);
            let ostart = m.start as isize - shift;
            ensure!(
                ostart >= 0 && ostart as usize <= b.len() && b.get((at as isize - shift) as usize..ostart as usize) == a.get(at..m.start),
                "text before a match changed: {before:?} -> {after:?} ({m:?})"
            );
            let oend = m.end as isize - m.shift;
            ensure!(oend >= ostart && oend as usize <= b.len(), "shift_offset {} is wrong ({m:?})", m.shift);
            let src = text_of(&b[ostart as usize..oend as usize]).ok_or("match splits a character of the original")?;
            let dst = text_of(&a[m.start..m.end]).ok_or("match splits a character of the result")?;
            let want = w.rules[m.rule].act.apply(&src);
            ensure!(want == dst, "rule {} turned {src:?} into {dst:?}, expected {want:?}", m.rule);
            if src != dst {
                mutated += 1;
            }
            shift = m.shift;
            at = m.end;
        }
        let rest = (at as isize - shift) as usize;
        ensure!(b.get(rest..) == a.get(at..), "text after the last match changed: {before:?} -> {after:?}");
    }
    if mutated > 0 {
        c.nontrivial = true;
        c.tag("mutated");
    }
    if got.flat.len() > 1 {
        c.tag("several matches");
    }
    if w.enc != EncM::Utf8 {
        c.tag("other encoding");
    }
    Ok(())
}

/// A unit of the encoding: the piece of text it belongs to.
#[derive(Clone, PartialEq, Debug)]
struct Unit(char, u8, u8);

fn units(s: &str, e: EncM) -> Vec<Unit> {
    let mut v = vec![];
    for ch in s.chars() {
        let n = match e {
            EncM::Utf8 => ch.len_utf8(),
            EncM::Utf16 => ch.len_utf16(),
            EncM::Chars => 1,
        };
        for i in 0..n {
            v.push(Unit(ch, i as u8, n as u8));
        }
    }
    v
}

fn text_of(u: &[Unit]) -> Option<String> {
    if u.first().is_some_and(|x| x.1 != 0) || u.last().is_some_and(|x| x.1 + 1 != x.2) {
        return None;
    }
    Some(u.iter().filter(|x| x.1 == 0).map(|x| x.0).collect())
}

fn p01_model(c: &mut Ctx) -> Res {
    let mut k = BASE;
    k.rules = (1, 4);
    k.http = true;
    k.tree = c.chance(1, 3);
    k.pieces = 12;
    let Some(o) = world_case(c, &k)? else { return Ok(()) };
    c.nontrivial = o.got.event != o.w.ev;
    Ok(())
}

// ---------------------------------------------------------------- P02
fn p02(c: &mut Ctx) -> Res {
    let mut k = BASE;
    k.rules = (2, 6);
    k.pieces = 10;
    let Some(o) = world_case(c, &k)? else { return Ok(()) };
    for ms in o.got.matches.values() {
        for w in ms.windows(2) {
            ensure!(w[0].end <= w[1].start, "overlapping matches {:?} {:?}", w[0], w[1]);
        }
    }
    c.nontrivial = o.exp.dropped_by_overlap > 0;
    if o.exp.dropped_by_overlap > 2 {
        c.tag("three or more overlaps");
    }
    Ok(())
}

/// Long strings with many matches.
fn p01_large(c: &mut Ctx) -> Res {
    let mut k = BASE;
    k.rules = (1, 4);
    k.http = c.chance(1, 4);
    k.pieces = *c.pick(&[60, 150, 400, 1000]);
    let Some(o) = world_case(c, &k)? else { return Ok(()) };
    c.nontrivial = o.got.flat.len() > 20;
    Ok(())
}

// ---------------------------------------------------------------- P04
fn p04(c: &mut Ctx) -> Res {
    let mut k = BASE;
    k.rules = (1, 1);
    k.pieces = 12;
    k.acts = c.chance(1, 3);
    let Some(o) = world_case(c, &k)? else { return Ok(()) };
    c.nontrivial = total(&o) > 0;
    if total(&o) > 3 {
        c.tag("more than three matches");
    }
    Ok(())
}

fn p04_val(c: &mut Ctx) -> Res {
    let mut k = BASE;
    k.rules = (1, 2);
    k.pieces = 6;
    k.vals = true;
    k.enc = false;
    let Some(o) = world_case(c, &k)? else { return Ok(()) };
    c.nontrivial = o.exp.rejected > 0;
    if o.exp.rejected > 0 && total(&o) > 0 {
        c.tag("rejected and accepted");
    }
    Ok(())
}

fn p04_full(c: &mut Ctx) -> Res {
    let mut k = BASE;
    k.rules = (1, 2);
    k.pieces = 8;
    k.re = regen::FULL;
    let Some(o) = world_case(c, &k)? else { return Ok(()) };
    c.nontrivial = total(&o) > 0;
    Ok(())
}

// ---------------------------------------------------------------- P05
fn p05(c: &mut Ctx) -> Res {
    let mut k = BASE;
    k.rules = (1, 1);
    k.pieces = 14;
    k.kw = KwKind::Inc;
    k.vals = c.chance(1, 4);
    k.acts = c.chance(1, 2);
    let Some(o) = world_case(c, &k)? else { return Ok(()) };
    c.nontrivial = total(&o) > 0;
    Ok(())
}

fn p05_multi(c: &mut Ctx) -> Res {
    let mut k = BASE;
    k.rules = (2, 3);
    k.pieces = 10;
    k.kw = KwKind::Any;
    let Some(o) = world_case(c, &k)? else { return Ok(()) };
    c.nontrivial = total(&o) > 0;
    Ok(())
}

// ---------------------------------------------------------------- P06
fn p06(c: &mut Ctx) -> Res {
    let mut k = BASE;
    k.rules = (1, 1);
    k.pieces = 12;
    k.kw = KwKind::Exc;
    k.vals = c.chance(1, 6);
    let Some(o) = world_case(c, &k)? else { return Ok(()) };
    c.nontrivial = o.exp.rejected > 0;
    if o.exp.rejected > 0 && total(&o) > 0 {
        c.tag("rejected and accepted");
    }
    Ok(())
}

// ---------------------------------------------------------------- P07
fn p07(c: &mut Ctx) -> Res {
    let mut k = BASE;
    k.rules = (1, 2);
    k.pieces = 4;
    k.kw = KwKind::Inc;
    k.kw_paths = true;
    k.wordy = c.chance(2, 3);
    k.tree = true;
    k.scopes = c.chance(1, 4);
    k.enc = false;
    let Some(o) = world_case(c, &k)? else { return Ok(()) };
    let hit = o.w.feat.kw_paths
        && o.w.ev.strings().iter().any(|(p, _)| {
            o.w.rules.iter().any(|r| r.kw.as_ref().is_some_and(|k| keyword_in_path(p, &k.inc)))
        });
    c.nontrivial = hit && total(&o) > 0;
    Ok(())
}

// ---------------------------------------------------------------- P08
fn p08(c: &mut Ctx) -> Res {
    let mut k = BASE;
    k.rules = (1, 4);
    k.tree = true;
    k.scopes = true;
    k.implicit = true;
    k.multipass = true;
    k.enc = false;
    k.ascii_fields = false;
    p08_world(c, &k)
}

/// Deep and wide trees, many rules.
fn p08_large(c: &mut Ctx) -> Res {
    let mut k = BASE;
    k.rules = *c.pick(&[(1, 4), (1, 4), (5, 20), (30, 140)]);
    k.tree = true;
    k.scopes = true;
    k.implicit = true;
    k.multipass = true;
    k.enc = false;
    k.ascii_fields = false;
    k.large = true;
    p08_world(c, &k)
}

fn p08_world(c: &mut Ctx, k: &Knobs) -> Res {
    let Some(o) = world_case(c, k)? else { return Ok(()) };
    let mut kinds = [false; 3];
    for (p, _) in o.w.ev.strings() {
        for r in &o.w.rules {
            kinds[cover(&r.scope, &p, o.w.feat.implicit) as usize] = true;
        }
    }
    c.nontrivial = kinds[1] && (kinds[0] || kinds[2]) && total(&o) > 0;
    if o.w.feat.implicit {
        c.tag("implicit index wildcards");
    }
    Ok(())
}

// ---------------------------------------------------------------- P09
fn p09(c: &mut Ctx) -> Res {
    let mut k = BASE;
    k.rules = (1, 3);
    k.tree = true;
    k.scopes = true;
    k.multipass = true;
    k.kw = if c.chance(1, 4) { KwKind::Any } else { KwKind::None };
    k.enc = false;
    k.blocked = c.chance(1, 4);
    let Some(o) = world_case(c, &k)? else { return Ok(()) };
    c.nontrivial = !o.exp.excluded.is_empty();
    if o.exp.dropped_by_multipass > 0 {
        c.tag("match dropped as an excluded value");
    }
    if !o.w.feat.multipass && !o.exp.excluded.is_empty() {
        c.tag("feature disabled");
    }
    Ok(())
}

// ---------------------------------------------------------------- large worlds
const SCALE: ScaleKnobs = ScaleKnobs { kinds: &[Kind::Long], kw: KwKind::None, vals: false, acts: true, blocked: false, paths: false };

fn p01_scale(c: &mut Ctx) -> Res {
    let Some(o) = scale_case(c, &ScaleKnobs { kinds: &[Kind::Long, Kind::Long, Kind::Wide], ..SCALE })? else { return Ok(()) };
    c.nontrivial = o.got.event != o.w.ev;
    Ok(())
}

fn p02_scale(c: &mut Ctx) -> Res {
    let Some(o) = scale_case(c, &ScaleKnobs { kinds: &[Kind::Long, Kind::Rules], ..SCALE })? else { return Ok(()) };
    c.nontrivial = o.exp.dropped_by_overlap > 0;
    if o.exp.dropped_by_overlap > 255 {
        c.tag("more than 255 dropped by overlap");
    }
    Ok(())
}

/// Matches of many lengths that start or end together.
fn p02_lengths(c: &mut Ctx) -> Res {
    let len = |c: &mut Ctx| match c.u(4) {
        0 => *c.pick(&[31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 300]),
        1 => c.int(60, 140),
        _ => c.int(1, 20),
    };
    let unit = *c.pick(&["x", "x", "é", "😀"]);
    let most = if c.chance(1, 8) { 20 } else { 5 };
    let n = c.int(2, most);
    let lens: Vec<usize> = c.list(2, 4, 2, 3, len);
    let mut rules = vec![];
    for _ in 0..n {
        let a = *c.pick(&lens);
        let b = *c.pick(&lens);
        let p = match c.u(8) {
            0 => format!("{unit}+"),
            1 => format!("{unit}+y"),
            2 => format!("{unit}{{{a}}}y?"),
            3 => format!("y{unit}{{{a}}}"),
            4 => format!("{unit}{{{},{}}}", a.min(b), a.max(b)),
            5 => format!("y?{unit}+y?z?"),
            _ => format!("{unit}{{{a}}}"),
        };
        let mut r = RuleM::new(&p);
        r.act = gen_act(c);
        rules.push(r);
    }
    let mut t = String::new();
    for _ in 0..c.int(1, 4) {
        t.push_str(*c.pick(&["", "y", "z", " "]));
        let l = *c.pick(&lens) + *c.pick(&[0, 0, 0, 1, 2, 70]);
        t.push_str(&unit.repeat(l));
        t.push_str(*c.pick(&["", "y", "yz", " "]));
    }
    let enc = *c.pick(&[EncM::Utf8, EncM::Utf16, EncM::Chars]);
    let w = World { rules, feat: Feat::default(), ev: Ev::Str(t), blocked: vec![], enc };
    let Some(o) = check_world(c, w, false)? else { return Ok(()) };
    c.nontrivial = o.exp.dropped_by_overlap > 0;
    if o.exp.raw.values().flatten().any(|(_, a, b)| b - a > 64) {
        c.tag("match of more than 64 bytes");
    }
    Ok(())
}

fn p04_scale(c: &mut Ctx) -> Res {
    let Some(o) = scale_case(c, &ScaleKnobs { vals: true, ..SCALE })? else { return Ok(()) };
    c.nontrivial = total(&o) > 0;
    Ok(())
}

fn p05_scale(c: &mut Ctx) -> Res {
    let Some(o) = scale_case(c, &ScaleKnobs { kinds: &[Kind::Long, Kind::Wide], kw: KwKind::Inc, vals: true, ..SCALE })? else { return Ok(()) };
    c.nontrivial = total(&o) > 0;
    Ok(())
}

fn p07_scale(c: &mut Ctx) -> Res {
    let k = ScaleKnobs { kinds: &[Kind::Long, Kind::Wide, Kind::Deep, Kind::Long], kw: KwKind::Inc, vals: true, paths: true, ..SCALE };
    let Some(o) = scale_case(c, &k)? else { return Ok(()) };
    let hit = o.w.feat.kw_paths
        && o.w.ev.strings().iter().any(|(p, _)| o.w.rules.iter().any(|r| r.kw.as_ref().is_some_and(|k| keyword_in_path(p, &k.inc))));
    c.nontrivial = hit && total(&o) > 0;
    Ok(())
}

fn p06_scale(c: &mut Ctx) -> Res {
    let Some(o) = scale_case(c, &ScaleKnobs { kw: KwKind::Exc, ..SCALE })? else { return Ok(()) };
    c.nontrivial = o.exp.rejected > 0;
    Ok(())
}

/// Paths on their own: what is under what, and how they print.
fn p08_paths(c: &mut Ctx) -> Res {
    let seg = |c: &mut Ctx| match c.u(3) {
        0 => Seg::I(*c.pick(&[0, 1, 10, usize::MAX])),
        1 => Seg::F(c.pick(&["a", "b", "", "a.b", "0", "[0]", "é", "A"]).to_string()),
        _ => Seg::F(gen_name(c)),
    };
    let a: P = c.list(0, 6, 2, 3, seg);
    let mut b = a.clone();
    match c.u(4) {
        0 => b.truncate(c.u(a.len() + 1)),
        1 => b.push(seg(c)),
        2 if !b.is_empty() => {
            let i = c.u(b.len());
            b[i] = seg(c);
            if c.chance(1, 2) {
                b.truncate(i + 1);
            }
        }
        _ => b = c.list(0, 6, 2, 3, seg),
    }
    c.note(|| format!("{a:?} and {b:?}"));
    let (pa, pb) = (real_path(&a), real_path(&b));
    let under = |x: &P, y: &P| x.len() >= y.len() && x[..y.len()] == y[..];
    ensure!(pa.starts_with(&pb) == under(&a, &b), "starts_with is {}", pa.starts_with(&pb));
    ensure!(pb.starts_with(&pa) == under(&b, &a), "the other way round, starts_with is {}", pb.starts_with(&pa));
    ensure!((pa == pb) == (a == b), "equal: {}", pa == pb);
    ensure!(pa.len() == a.len() && pa.is_empty() == a.is_empty(), "length {}", pa.len());
    ensure!(pa.into_static() == pa, "not the same after into_static");
    let mut text = String::new();
    for (i, x) in a.iter().enumerate() {
        match x {
            Seg::F(f) if i == 0 => text.push_str(f),
            Seg::F(f) => text.push_str(&format!(".{f}")),
            Seg::I(n) => text.push_str(&format!("[{n}]")),
        }
    }
    ensure!(pa.to_string() == text, "prints as {pa}, expected {text}");
    c.nontrivial = a != b && (under(&a, &b) || under(&b, &a));
    Ok(())
}

fn p08_scale(c: &mut Ctx) -> Res {
    let Some(o) = scale_case(c, &ScaleKnobs { kinds: &[Kind::Wide, Kind::Wide, Kind::Deep, Kind::Scoped, Kind::Scoped], ..SCALE })? else { return Ok(()) };
    c.nontrivial = total(&o) > 0;
    Ok(())
}

fn p09_scale(c: &mut Ctx) -> Res {
    let k = ScaleKnobs { kinds: &[Kind::Excluded, Kind::Excluded, Kind::Wide], ..SCALE };
    let Some(o) = scale_case(c, &k)? else { return Ok(()) };
    c.nontrivial = !o.exp.excluded.is_empty();
    if o.exp.dropped_by_multipass > 0 {
        c.tag("match dropped as an excluded value");
    }
    Ok(())
}

/// Values that are almost the excluded one are not excluded.
fn p09_values(c: &mut Ctx) -> Res {
    let body = |c: &mut Ctx| -> String {
        let n = match c.u(8) {
            0 => *c.pick(&[31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300]),
            1 => c.int(1, 80),
            _ => c.int(1, 12),
        };
        (0..n).map(|_| *c.pick(&['a', 'B', 'c', 'D', '0', '1', ' ', '-', '_', '.', 'é', 'É', '\n', '😀', '\u{301}', '0', 'x'])).collect()
    };
    let near = |c: &mut Ctx, v: &String| -> String {
        let cs: Vec<char> = v.chars().collect();
        let i = c.u(cs.len().max(1));
        match c.u(14) {
            0 | 1 => v.clone(),
            2 => v.to_lowercase(),
            3 => v.to_uppercase(),
            4 => v.trim().to_string(),
            5 => format!("{v}{}", c.pick(&[" ", "0", "\n", "\0", "é", "-", v.as_str()])),
            6 => format!("{}{v}", c.pick(&[" ", "0", "\n", "\0", "é", "-", v.as_str()])),
            7 => cs[..i].iter().collect(),
            8 => cs[i..].iter().collect(),
            9 => cs.iter().rev().collect(),
            10 => {
                let mut cs = cs;
                let j = c.u(cs.len().max(1));
                if !cs.is_empty() {
                    cs.swap(i, j);
                }
                cs.into_iter().collect()
            }
            11 => {
                let mut cs = cs;
                if !cs.is_empty() {
                    cs[i] = *c.pick(&['a', 'b', '0', 'é', ' ']);
                }
                cs.into_iter().collect()
            }
            12 => v.replace(['-', '_', ' ', '.'], ""),
            _ => v.replace('é', "e\u{301}"),
        }
    };
    let wrap = |v: &str| format!("<{v}>");
    let values: Vec<String> = c.list(1, 4, 1, 2, body);
    let n = c.int(1, 2);
    let mut rules = vec![];
    let skip = vec![Seg::F("skip".into())];
    for _ in 0..n {
        let mut r = RuleM::new(*c.pick(&["<[^<>]*>", "[^<>]+", "<[^<>]*>", "[^<>]+>", "<[^<>]+"]));
        r.act = gen_act(c);
        r.scope = match c.u(4) {
            0 => ScopeM::Exclude(vec![]),
            1 => ScopeM::Include(vec![], vec![skip.clone()]),
            _ => ScopeM::Exclude(vec![skip.clone()]),
        };
        rules.push(r);
    }
    let join = |c: &mut Ctx, vs: &[String]| -> Ev {
        if c.chance(1, 2) {
            Ev::Str(vs.iter().map(|v| wrap(v)).collect::<Vec<_>>().join(*c.pick(&["", ">", "<"])))
        } else {
            Ev::List(vs.iter().map(|v| Ev::Str(wrap(v))).collect())
        }
    };
    let mut m = std::collections::BTreeMap::new();
    m.insert("skip".to_string(), join(c, &values));
    for f in ["message", "text", "a"] {
        if f == "message" || c.chance(1, 2) {
            let mut vs: Vec<String> = c.list(1, 5, 2, 3, |c| {
                let v = c.pick(&values).clone();
                near(c, &v)
            });
            if c.chance(1, 60) {
                // many matches of them
                let n = *c.pick(&[100, 129, 256, 257, 600, 1030]);
                vs = (0..n).map(|i| vs[i % vs.len()].clone()).collect();
                c.tag("many matches");
            }
            m.insert(f.to_string(), join(c, &vs));
        }
    }
    let feat = Feat { kw_paths: false, implicit: c.chance(1, 6), multipass: !c.chance(1, 8) };
    let w = World { rules, feat, ev: Ev::Map(m), blocked: vec![], enc: EncM::Utf8 };
    let Some(o) = check_world(c, w, false)? else { return Ok(()) };
    c.nontrivial = !o.exp.excluded.is_empty();
    if o.exp.dropped_by_multipass > 0 {
        c.tag("match dropped as an excluded value");
        if total(&o) > 0 {
            c.tag("and others kept");
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let part = |name, case, quick, thorough| Part { name, case, quick, thorough, threads: 8 };
    vec![
        Prop {
            id: "P01",
            rule: "at least one match was rewritten",
            parts: vec![part("rebuild", p01_rebuild, 60_000, 3_000_000), part("model", p01_model, 60_000, 3_000_000), part("large", p01_large, 2_000, 200_000), part("scale", p01_scale, 1_500, 60_000)],
            assumptions: &[],
        },
        Prop {
            id: "P02",
            rule: "at least one candidate match was dropped because it overlaps another",
            parts: vec![part("model", p02, 100_000, 5_000_000), part("lengths", p02_lengths, 12_000, 1_000_000), part("scale", p02_scale, 1_500, 60_000)],
            assumptions: &[],
        },
        Prop {
            id: "P04",
            rule: "at least one match is reported (validators: at least one candidate is rejected)",
            parts: vec![
                part("plain", p04, 60_000, 3_000_000),
                part("validators", p04_val, 60_000, 3_000_000),
                part("full_syntax", p04_full, 20_000, 1_000_000),
                part("scale", p04_scale, 1_500, 60_000),
            ],
            assumptions: &[],
        },
        Prop {
            id: "P05",
            rule: "at least one match is reported by a rule with included keywords",
            parts: vec![part("one_rule", p05, 100_000, 5_000_000), part("several", p05_multi, 40_000, 2_000_000), part("scale", p05_scale, 1_500, 60_000)],
            assumptions: &[],
        },
        Prop {
            id: "P06",
            rule: "at least one candidate is rejected",
            parts: vec![part("one_rule", p06, 120_000, 6_000_000), part("scale", p06_scale, 1_500, 60_000)],
            assumptions: &[],
        },
        Prop {
            id: "P07",
            rule: "an included keyword is in the path of a string, and something matched",
            parts: vec![part("tree", p07, 80_000, 4_000_000), part("scale", p07_scale, 1_500, 60_000)],
            assumptions: &[],
        },
        Prop {
            id: "P08",
            rule: "some (rule, string) pair is in scope and another is not, and something matched (paths: one is under the other)",
            parts: vec![part("tree", p08, 80_000, 4_000_000), part("large", p08_large, 8_000, 400_000), part("scale", p08_scale, 6_000, 200_000), part("paths", p08_paths, 30_000, 1_000_000)],
            assumptions: &[],
        },
        Prop {
            id: "P09",
            rule: "some string was found at an excluded path",
            parts: vec![part("tree", p09, 80_000, 4_000_000), part("values", p09_values, 20_000, 1_000_000), part("scale", p09_scale, 3_000, 100_000)],
            assumptions: &[],
        },
    ]
}
