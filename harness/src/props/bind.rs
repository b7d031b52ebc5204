//! P19 (binary events and responses), P20 (the Go binding: its C interface and the Go package).

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::props::scale::*;
use dd_sds::*;
use dd_sds_go as _;
use sds_bindings_utils::{encode_response, BinaryEvent};
use std::collections::BTreeMap;
use std::ffi::{c_char, c_void, CStr, CString};
use std::io::{BufRead, BufReader, Write};

// ---------------------------------------------------------------- the encoding, written from its documentation
/// Raw events: field names and strings are bytes.
#[derive(Clone, Debug)]
pub enum Raw {
    Str(Vec<u8>),
    List(Vec<Raw>),
    Map(Vec<(Vec<u8>, Raw)>),
}

fn put(out: &mut Vec<u8>, b: &[u8]) {
    out.extend((b.len() as u32).to_be_bytes());
    out.extend(b);
}

pub fn encode(r: &Raw, out: &mut Vec<u8>) {
    match r {
        Raw::Str(s) => {
            out.push(3);
            put(out, s);
        }
        Raw::List(l) => {
            for (i, x) in l.iter().enumerate() {
                out.push(1);
                out.extend((i as u32).to_be_bytes());
                encode(x, out);
                out.push(2);
            }
        }
        Raw::Map(m) => {
            for (k, x) in m {
                out.push(0);
                put(out, k);
                encode(x, out);
                out.push(2);
            }
        }
    }
}

/// A raw event that decodes to `ev`; with `dirty`, ill-formed bytes are put where U+FFFD stands.
pub fn raw(ev: &Ev, dirty: bool) -> Raw {
    let b = |s: &String| -> Vec<u8> {
        if !dirty {
            return s.as_bytes().to_vec();
        }
        let mut o = vec![];
        for (i, c) in s.chars().enumerate() {
            if c == '\u{fffd}' {
                // each of these is one maximal ill-formed part
                o.extend_from_slice([&b"\xff"[..], b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98"][i % 4]);
            } else {
                let mut t = [0; 4];
                o.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
            }
        }
        o
    };
    match ev {
        Ev::Str(s) => Raw::Str(b(s)),
        Ev::List(l) => Raw::List(l.iter().map(|x| raw(x, dirty)).collect()),
        Ev::Map(m) => Raw::Map(m.iter().map(|(k, x)| (b(k), raw(x, dirty))).collect()),
    }
}

#[derive(Debug, PartialEq, Clone)]
pub struct WireMatch {
    pub rule: u32,
    pub path: String,
    pub rtype: String,
    pub start: u32,
    pub end: u32,
    pub shift: i32,
}

pub struct Reader<'a>(pub &'a [u8]);
impl<'a> Reader<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.0.len() < n {
            return Err("response ends early".into());
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn byte(&mut self) -> Result<u8, String> {
        Ok(self.take(1)?[0])
    }
    fn u32(&mut self) -> Result<u32, String> {
        Ok(u32::from_be_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn string(&mut self) -> Result<String, String> {
        let n = self.u32()? as usize;
        String::from_utf8(self.take(n)?.to_vec()).map_err(|_| "ill-formed string in a response".into())
    }
}

pub fn decode(b: &[u8]) -> Result<(BTreeMap<P, String>, Vec<WireMatch>), String> {
    let mut r = Reader(b);
    let mut muts = BTreeMap::new();
    let mut ms = vec![];
    while !r.0.is_empty() {
        match r.byte()? {
            4 => {
                let mut p = vec![];
                let s = loop {
                    match r.byte()? {
                        0 => p.push(Seg::F(r.string()?)),
                        1 => p.push(Seg::I(r.u32()? as usize)),
                        3 => break r.string()?,
                        t => return Err(format!("tag {t} in a path")),
                    }
                };
                if muts.insert(p.clone(), s).is_some() {
                    return Err(format!("two mutations of {p:?}"));
                }
            }
            5 => ms.push(WireMatch {
                rule: r.u32()?,
                path: r.string()?,
                rtype: r.string()?,
                start: r.u32()?,
                end: r.u32()?,
                shift: r.u32()? as i32,
            }),
            t => return Err(format!("tag {t} in a response")),
        }
    }
    Ok((muts, ms))
}

fn display(p: &P) -> String {
    let mut s = String::new();
    for (i, x) in p.iter().enumerate() {
        match x {
            Seg::F(f) => {
                if i > 0 {
                    s.push('.');
                }
                s.push_str(f);
            }
            Seg::I(n) => s.push_str(&format!("[{n}]")),
        }
    }
    s
}

fn wire_type(a: &Act) -> &'static str {
    match a {
        Act::None => "none",
        Act::Redact(_) => "placeholder",
        Act::Hash | Act::Utf16Hash => "hash",
        Act::First(_) => "partial_beginning",
        Act::Last(_) => "partial_end",
    }
}

/// The matches a response should carry, grouped by path.
fn wire(exp: &Expect, rules: &[RuleM]) -> BTreeMap<String, Vec<WireMatch>> {
    let mut out: BTreeMap<String, Vec<WireMatch>> = BTreeMap::new();
    for (p, l) in &exp.matches {
        for m in l {
            out.entry(display(p)).or_default().push(WireMatch {
                rule: m.rule as u32,
                path: display(p),
                rtype: wire_type(&rules[m.rule].act).into(),
                start: m.start as u32,
                end: m.end as u32,
                shift: m.shift as i32,
            });
        }
    }
    out
}

/// Paths whose display collides (fields with dots, brackets) mix their matches: compare as sets.
fn same_matches(want: &BTreeMap<String, Vec<WireMatch>>, got: &[WireMatch], collide: bool) -> Res {
    let mut g: BTreeMap<String, Vec<WireMatch>> = BTreeMap::new();
    for m in got {
        g.entry(m.path.clone()).or_default().push(m.clone());
    }
    let norm = |m: &BTreeMap<String, Vec<WireMatch>>| {
        let mut m = m.clone();
        if collide {
            m.values_mut().for_each(|l| l.sort_by_key(|x| (x.start, x.end, x.rule, x.shift)));
        }
        m
    };
    let (w, g) = (norm(want), norm(&g));
    ensure!(w == g, "matches differ\n    expected {w:?}\n    got      {g:?}");
    Ok(())
}

fn collides(ev: &Ev) -> bool {
    let v: Vec<String> = ev.strings().iter().map(|x| display(&x.0)).collect();
    let n = v.len();
    v.into_iter().collect::<std::collections::BTreeSet<_>>().len() < n
}

fn apply_muts(ev: &Ev, muts: &BTreeMap<P, String>) -> Result<Ev, String> {
    let mut e = ev.clone();
    for (p, s) in muts {
        *e.get_mut(p).ok_or_else(|| format!("mutation at {p:?}, where there is no string"))? = s.clone();
    }
    Ok(e)
}

fn check_response(w: &World, exp: &Expect, resp: Option<&[u8]>) -> Res {
    let Some(b) = resp else {
        ensure!(exp.matches.is_empty(), "no response although there are matches {:?}", exp.matches);
        return Ok(());
    };
    let (muts, ms) = decode(b)?;
    ensure!(!ms.is_empty(), "a response without matches");
    same_matches(&wire(exp, &w.rules), &ms, collides(&w.ev))?;
    let after = apply_muts(&w.ev, &muts)?;
    ensure!(after == exp.event, "applying the mutations gives {after:?}, expected {:?}", exp.event);
    for p in muts.keys() {
        ensure!(
            exp.matches.get(p).is_some_and(|l| l.iter().any(|m| w.rules[m.rule].act.mutating())),
            "a mutation of {p:?}, where no rule modifies anything"
        );
    }
    Ok(())
}

pub fn world(c: &mut Ctx, go: bool) -> World {
    if c.chance(1, 60) {
        // (the answers of the Go executor are JSON, which is not read at any depth)
        let kinds: &[Kind] = &[Kind::Wide, Kind::Long, Kind::Rules, Kind::Deep];
        let kinds = &kinds[..if go { 3 } else { 4 }];
        let k = ScaleKnobs { kinds, kw: KwKind::None, vals: false, acts: true, blocked: false, paths: false };
        let (mut w, _, _) = gen_scale(c, &k);
        w.feat.kw_paths &= !go;
        w.feat.implicit &= !go;
        if go {
            w.rules.iter_mut().for_each(|r| r.scope = ScopeM::Exclude(vec![]));
            w.enc = EncM::Utf8;
            // the Go package takes strings and maps
            if let Ev::List(_) = &w.ev {
                w.ev = Ev::Map(BTreeMap::from([("list".to_string(), w.ev)]));
            }
        }
        c.tag("large");
        return w;
    }
    let mut k = BASE;
    k.rules = (1, 4);
    k.tree = c.chance(2, 3);
    k.large = c.chance(1, 20);
    k.scopes = !go && k.tree && c.chance(1, 2);
    k.kw = if c.chance(1, 3) { KwKind::Any } else { KwKind::None };
    k.kw_paths = !go && c.chance(1, 4);
    k.enc = !go;
    k.vals = c.chance(1, 4);
    k.ascii_fields = k.kw_paths || c.chance(1, 2);
    let mut w = gen_world(c, &k);
    if c.chance(1, 40) {
        // (there are that many asterisks, whatever the length of the match)
        let n = *c.pick(&[4096, 32768, 65535, 65536, 65537, 70000]);
        let r = c.u(w.rules.len());
        w.rules[r].act = if c.chance(1, 2) { Act::First(n) } else { Act::Last(n) };
    }
    if c.chance(1, 4) {
        // text that stands for ill-formed bytes
        fill_map(&mut w.ev, &mut |s| *s = s.replace('€', "\u{fffd}").replace("  ", "\u{fffd}\u{fffd}"));
    }
    if c.chance(1, 8) {
        w.ev = match w.ev {
            Ev::Map(mut m) => {
                m.insert("none".into(), Ev::Map(Default::default()));
                m.insert("empty".into(), Ev::List(vec![]));
                Ev::Map(m)
            }
            e => e,
        };
    }
    w
}

fn fill_map(e: &mut Ev, f: &mut dyn FnMut(&mut String)) {
    match e {
        Ev::Str(s) => f(s),
        Ev::List(l) => l.iter_mut().for_each(|x| fill_map(x, f)),
        Ev::Map(m) => m.values_mut().for_each(|x| fill_map(x, f)),
    }
}

fn has_fffd(e: &Ev) -> bool {
    e.strings().iter().any(|x| x.1.contains('\u{fffd}'))
}

fn tags(c: &mut Ctx, w: &World, exp: &Expect, dirty: bool) {
    if exp.event != w.ev {
        c.tag("mutated");
    }
    if dirty && has_fffd(&w.ev) {
        c.tag("ill-formed bytes");
    }
    if exp.matches.len() > 1 {
        c.tag("several strings with matches");
    }
    if exp.matches.is_empty() {
        c.tag("no matches");
    }
    c.nontrivial = !exp.matches.is_empty();
}

/// Puts U+FFFD into some field names, of the event and of the scopes. Different names stay different.
fn damage_fields(c: &mut Ctx, w: &mut World) {
    let (n, at_end) = (c.int(1, 4), c.chance(1, 2));
    let f = |s: &str| match (s.chars().count() % n, at_end) {
        (0, true) => format!("{s}\u{fffd}"),
        (0, false) => format!("\u{fffd}{s}\u{fffd}\u{fffd}"),
        _ => s.to_string(),
    };
    fn go(e: &mut Ev, f: &dyn Fn(&str) -> String) {
        match e {
            Ev::Str(_) => {}
            Ev::List(l) => l.iter_mut().for_each(|x| go(x, f)),
            Ev::Map(m) => {
                for (k, mut x) in std::mem::take(m) {
                    go(&mut x, f);
                    m.insert(f(&k), x);
                }
            }
        }
    }
    go(&mut w.ev, &f);
    for r in &mut w.rules {
        let (ScopeM::Exclude(a), b) = (match &mut r.scope {
            ScopeM::Exclude(a) => (ScopeM::Exclude(std::mem::take(a)), None),
            ScopeM::Include(a, b) => (ScopeM::Exclude(std::mem::take(a)), Some(std::mem::take(b))),
        }) else {
            unreachable!()
        };
        let m = |v: Vec<P>| -> Vec<P> {
            v.into_iter()
                .map(|p| {
                    p.into_iter()
                        .map(|s| match s {
                            Seg::F(x) => Seg::F(f(&x)),
                            i => i,
                        })
                        .collect()
                })
                .collect()
        };
        r.scope = match b {
            None => ScopeM::Exclude(m(a)),
            Some(b) => ScopeM::Include(m(a), m(b)),
        };
    }
}

fn p19(c: &mut Ctx) -> Res {
    let mut w = world(c, false);
    let dirty = c.chance(1, 3);
    if c.chance(1, 6) && !w.feat.kw_paths && w.rules.len() < 10 {
        damage_fields(c, &mut w);
        c.tag("U+FFFD in field names");
    }
    p19_world(c, w, dirty)
}

/// More rules, list positions or matches than 16 bits count.
fn p19_huge(c: &mut Ctx) -> Res {
    let n = 65_530 + c.u(20);
    let kind = c.u(3);
    c.note(|| format!("{n} {}", ["rules", "strings", "matches"][kind]));
    let mut r = RuleM::new("ab");
    r.act = gen_act(c);
    let text = |i: usize| Ev::Str(if i % 50 == 3 || i + 2 > n { "é ab".into() } else { String::new() });
    let (rules, ev) = match kind {
        0 => {
            let mut v = vec![RuleM::new("x"); n - 1];
            v.push(r);
            (v, text(n))
        }
        1 => (vec![r], Ev::List((0..n).map(text).collect())),
        _ => (vec![r], Ev::Str("ab é".repeat(n))),
    };
    let enc = *c.pick(&[EncM::Utf8, EncM::Utf16, EncM::Chars]);
    p19_world(c, World { rules, feat: Feat::default(), ev, blocked: vec![], enc }, false)
}

/// List positions anywhere in 32 bits: each string is scanned as if alone, and named by its path.
fn p19_positions(c: &mut Ctx) -> Res {
    let seg = |c: &mut Ctx| -> Seg {
        match c.u(4) {
            0 => Seg::F(c.pick(&["a", "b", "é", ""]).to_string()),
            1 => Seg::I(c.u(3)),
            2 => Seg::I(*c.pick(&[127, 128, 255, 256, 32767, 32768, 65535, 65536, 65537, 16_777_215, 16_777_216, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff])),
            _ => Seg::I(1 << c.u(32) | c.u(300)),
        }
    };
    let mut strings: Vec<(P, String)> = vec![];
    for _ in 0..c.int(1, 5) {
        let p: P = match strings.is_empty() || c.chance(2, 3) {
            true => c.list(1, 4, 1, 2, seg),
            // next to another, at a position that differs
            false => {
                let mut p = strings[c.u(strings.len())].0.clone();
                let i = c.u(p.len());
                p[i] = match &p[i] {
                    Seg::I(n) => Seg::I((n ^ (1 << c.u(32))) & 0xffff_ffff),
                    Seg::F(f) => Seg::F(format!("{f}x")),
                };
                p
            }
        };
        // strings stand at leaves, and maps and lists are not mixed: no path is the beginning of another
        if strings.iter().any(|(q, _)| q.starts_with(&p) || p.starts_with(q)) {
            continue;
        }
        strings.push((p, c.pick(&["ab", "é ab ab", "x", "", "😀ab", "abab"]).to_string()));
    }
    let mut r = RuleM::new("ab");
    r.act = gen_act(c);
    let only: Option<P> = if c.chance(1, 2) {
        let p = &strings[c.u(strings.len())].0;
        Some(p[..c.int(1, p.len())].to_vec())
    } else {
        None
    };
    c.note(|| format!("strings {strings:?}, {:?}, only at {only:?}", r.act));
    let enc = *c.pick(&[EncM::Utf8, EncM::Utf16, EncM::Chars]);
    let plain = [r.clone()];
    let comp = compile(&plain).map_err(|e| format!("{e:?}"))?;
    let (mut muts, mut want): (BTreeMap<P, String>, BTreeMap<String, Vec<WireMatch>>) = Default::default();
    for (p, t) in &strings {
        if only.as_ref().is_some_and(|o| !p.starts_with(o)) {
            continue;
        }
        let Ok(e) = scan(&plain, &comp, Feat::default(), &Ev::Str(t.clone()), &[], enc) else { return c.discard() };
        for l in wire(&e, &plain).into_values() {
            if r.act.mutating() {
                let Ev::Str(s) = &e.event else { return c.discard() };
                muts.insert(p.clone(), s.clone());
            }
            want.entry(display(p)).or_default().extend(l.into_iter().map(|m| WireMatch { path: display(p), ..m }));
        }
    }
    if let Some(o) = &only {
        r.scope = ScopeM::Include(vec![o.clone()], vec![]);
    }
    let sc = build(&[r], Feat::default()).map_err(|e| format!("rejected: {e:?}"))?;
    let mut bytes = vec![];
    for (p, t) in &strings {
        for s in p {
            match s {
                Seg::F(f) => {
                    bytes.push(0);
                    put(&mut bytes, f.as_bytes());
                }
                Seg::I(i) => {
                    bytes.push(1);
                    bytes.extend((*i as u32).to_be_bytes());
                }
            }
        }
        bytes.push(3);
        put(&mut bytes, t.as_bytes());
        bytes.extend(p.iter().map(|_| 2));
    }
    fn go<E: Encoding>(sc: &Scanner, bytes: Vec<u8>) -> Option<Vec<u8>> {
        let mut e = BinaryEvent::<E>::new(bytes, true);
        let ms = sc.scan(&mut e, vec![]);
        encode_response(&e.storage, &ms)
    }
    let resp = match enc {
        EncM::Utf8 => go::<Utf8Encoding>(&sc, bytes),
        EncM::Utf16 => go::<Utf16>(&sc, bytes),
        EncM::Chars => go::<CharEnc>(&sc, bytes),
    };
    c.nontrivial = !want.is_empty();
    let Some(resp) = resp else {
        ensure!(want.is_empty(), "no response although there are matches {want:?}");
        return Ok(());
    };
    let (m, ms) = decode(&resp)?;
    same_matches(&want, &ms, true)?;
    // a mutation that changes nothing may be left out
    for (p, t) in &strings {
        let (w, g) = (muts.get(p).unwrap_or(t), m.get(p).unwrap_or(t));
        ensure!(w == g, "the string at {p:?} becomes {g:?}, expected {w:?}");
    }
    ensure!(m.keys().all(|p| muts.contains_key(p)), "mutations at {:?}, expected at {:?}", m.keys(), muts.keys());
    Ok(())
}

fn p19_world(c: &mut Ctx, w: World, dirty: bool) -> Res {
    if w.rules.len() < 10_000 && w.ev.strings().len() < 10_000 {
        note_world(c, &w);
        c.note(|| format!("ill-formed bytes: {dirty}"));
    }
    let Ok(comp) = compile(&w.rules) else { return c.discard() };
    let sc = build(&w.rules, w.feat).map_err(|e| format!("rejected: {e:?}"))?;
    let Ok(exp) = scan(&w.rules, &comp, w.feat, &w.ev, &[], w.enc) else { return c.discard() };
    if exp.ambiguous {
        return c.discard();
    }
    let mut bytes = vec![];
    encode(&raw(&w.ev, dirty), &mut bytes);
    fn go<E: Encoding>(sc: &Scanner, bytes: Vec<u8>, valid: bool) -> (Option<Vec<u8>>, Vec<RuleMatch>) {
        let mut e = BinaryEvent::<E>::new(bytes, valid);
        let ms = sc.scan(&mut e, vec![]);
        (encode_response(&e.storage, &ms), ms)
    }
    let (resp, ms) = match w.enc {
        EncM::Utf8 => go::<Utf8Encoding>(&sc, bytes, !dirty),
        EncM::Utf16 => go::<Utf16>(&sc, bytes, !dirty),
        EncM::Chars => go::<CharEnc>(&sc, bytes, !dirty),
    };
    let r = check_response(&w, &exp, resp.as_deref()).and_then(|_| {
        // the matches themselves are those of any other event of the same content
        let flat: Vec<MatchM> = ms.iter().map(MatchM::from_real).collect();
        let mut by: BTreeMap<P, Vec<MatchM>> = BTreeMap::new();
        for m in flat {
            by.entry(m.path.clone()).or_default().push(m);
        }
        ensure!(by == exp.matches, "matches {by:?}, expected {:?}", exp.matches);
        Ok(())
    });
    if let Err(e) = r {
        if engine_defect(&w.rules, &w.ev) {
            return c.discard();
        }
        return Err(e);
    }
    tags(c, &w, &exp, dirty);
    Ok(())
}

// ---------------------------------------------------------------- P20, C interface
extern "C" {
    pub fn create_regex_rule(json: *const c_char) -> i64;
    pub fn create_rule_list() -> i64;
    pub fn append_rule_to_list(rule: i64, list: i64);
    pub fn free_rule_list(list: i64);
    pub fn free_any_rule(rule: i64);
    pub fn create_scanner(list: i64, err: *mut *const c_char, kw_paths: bool) -> i64;
    #[link_name = "scan"]
    pub fn ffi_scan(id: i64, event: *const c_void, size: i64, retsize: *mut i64, retcap: *mut i64, err: *mut *const c_char) -> *const c_char;
    pub fn free_vec(p: *const c_char, len: i64, cap: i64);
    pub fn free_string(p: *const c_char);
    pub fn delete_scanner(id: i64);
}

/// A rule as the bindings write it.
pub fn rule_json(c: &mut Ctx, r: &RuleM) -> serde_json::Value {
    use serde_json::json;
    let act = match &r.act {
        Act::None => json!({"type": "None"}),
        Act::Redact(t) => json!({"type": "Redact", "replacement": t}),
        Act::Hash => json!({"type": "Hash"}),
        Act::Utf16Hash => json!({"type": "Utf16Hash"}),
        Act::First(n) => json!({"type": "PartialRedact", "direction": "FirstCharacters", "character_count": n}),
        Act::Last(n) => json!({"type": "PartialRedact", "direction": "LastCharacters", "character_count": n}),
    };
    let mut o = json!({"pattern": r.pattern, "match_action": act});
    let m = o.as_object_mut().unwrap();
    let path = |p: &P| {
        json!({"segments": p.iter().map(|s| match s {
            Seg::F(f) => json!({"type": "Field", "value": f}),
            Seg::I(i) => json!({"type": "Index", "value": i}),
        }).collect::<Vec<_>>()})
    };
    let paths = |v: &Vec<P>| v.iter().map(path).collect::<Vec<_>>();
    match &r.scope {
        ScopeM::Exclude(v) if v.is_empty() && c.chance(1, 2) => {}
        ScopeM::Exclude(v) => {
            m.insert("scope".into(), json!({"type": "Exclude", "paths": paths(v)}));
        }
        ScopeM::Include(i, e) => {
            m.insert("scope".into(), json!({"type": "Include", "paths": {"include": paths(i), "exclude": paths(e)}}));
        }
    }
    match &r.kw {
        None => {
            if c.chance(1, 3) {
                m.insert("proximity_keywords".into(), json!(null));
            }
        }
        Some(k) => {
            let mut o = json!({"look_ahead_character_count": k.look});
            for (name, l) in [("included_keywords", &k.inc), ("excluded_keywords", &k.exc)] {
                match (l.is_empty(), c.u(3)) {
                    (true, 0) => {}
                    (true, 1) => {
                        o[name] = json!(null);
                    }
                    _ => {
                        o[name] = json!(l);
                    }
                }
            }
            m.insert("proximity_keywords".into(), o);
        }
    }
    if let Some(v) = r.val {
        let name = format!("{:?}", v.real());
        m.insert("validator".into(), json!({"type": name}));
    } else if c.chance(1, 3) {
        m.insert("validator".into(), json!(null));
    }
    if c.chance(1, 3) {
        m.insert("labels".into(), if c.chance(1, 2) { json!(null) } else { json!([["team", "x"]]) });
    }
    if c.chance(1, 3) {
        // Go sends fields the library does not know
        m.insert("id".into(), json!("rule-1"));
    }
    o
}

pub struct Ffi(pub i64);
impl Drop for Ffi {
    fn drop(&mut self) {
        unsafe { delete_scanner(self.0) }
    }
}

impl Ffi {
    pub fn scan(&self, bytes: &[u8]) -> Result<Result<Option<Vec<u8>>, String>, String> {
        // the buffer is not ours after the call
        let own = bytes.to_vec();
        let (mut size, mut cap, mut err) = (-7i64, -7i64, std::ptr::null());
        let p = unsafe { ffi_scan(self.0, own.as_ptr().cast(), own.len() as i64, &mut size, &mut cap, &mut err) };
        drop(own);
        if !err.is_null() {
            let m = unsafe { CStr::from_ptr(err) }.to_string_lossy().to_string();
            unsafe { free_string(err) };
            ensure!(size == 0 && cap == 0 && p.is_null(), "an error with a result");
            return Ok(Err(m));
        }
        if size == 0 {
            ensure!(cap == 0 && p.is_null(), "an empty result with a buffer");
            return Ok(Ok(None));
        }
        ensure!(size > 0 && cap >= size && !p.is_null(), "size {size}, capacity {cap}");
        let v = unsafe { std::slice::from_raw_parts(p.cast::<u8>(), size as usize) }.to_vec();
        unsafe { free_vec(p, size, cap) };
        Ok(Ok(Some(v)))
    }
}

pub fn ffi_rules(c: &mut Ctx, rules: &[RuleM]) -> Result<i64, String> {
    let list = unsafe { create_rule_list() };
    for r in rules {
        let j = CString::new(rule_json(c, r).to_string()).unwrap();
        let p = unsafe { create_regex_rule(j.as_ptr()) };
        ensure!(p > 0, "create_regex_rule({j:?}) gives {p}");
        unsafe {
            append_rule_to_list(p, list);
            free_any_rule(p);
        }
    }
    Ok(list)
}

fn p20_ffi(c: &mut Ctx) -> Res {
    let mut w = world(c, false);
    w.enc = EncM::Utf8;
    w.feat.implicit = false;
    w.feat.multipass = true;
    let dirty = c.chance(1, 3);
    note_world(c, &w);
    let Ok(comp) = compile(&w.rules) else { return c.discard() };
    let Ok(exp) = scan(&w.rules, &comp, w.feat, &w.ev, &[], w.enc) else { return c.discard() };
    if exp.ambiguous {
        return c.discard();
    }
    let list = ffi_rules(c, &w.rules)?;
    let mut err = std::ptr::null();
    let id = unsafe { create_scanner(list, &mut err, w.feat.kw_paths) };
    ensure!(id > 0 && err.is_null(), "create_scanner gives {id}");
    let sc = Ffi(id);
    // a second scanner from the same list; the list may go before or after
    let second = if c.chance(1, 3) { Some(Ffi(unsafe { create_scanner(list, &mut err, w.feat.kw_paths) })) } else { None };
    unsafe { free_rule_list(list) };
    let mut bytes = vec![];
    encode(&raw(&w.ev, dirty), &mut bytes);
    if c.chance(1, 4) {
        // an event that is not encoded correctly gives an error or a result, and does no harm
        let mut bad = bytes.clone();
        match c.u(3) {
            0 => bad.push(9),
            1 => bad.extend([3, 0, 0, 1, 0, b'a']),
            _ => {
                let n = c.u(bad.len() + 1);
                bad.truncate(n);
            }
        }
        if bad.len() > bytes.len() {
            let r = sc.scan(&bad)?;
            ensure!(r.is_err(), "a malformed event is scanned as {r:?}");
            c.tag("malformed event");
        } else if let Ok(Some(b)) = sc.scan(&bad)? {
            decode(&b)?;
        }
    }
    for (n, s) in [Some(sc), second].into_iter().flatten().enumerate() {
        let r = s.scan(&bytes)?.map_err(|e| format!("scan fails: {e}"))?;
        if let Err(e) = check_response(&w, &exp, r.as_deref()) {
            if engine_defect(&w.rules, &w.ev) {
                return c.discard();
            }
            return Err(format!("scanner {n}: {e}"));
        }
    }
    tags(c, &w, &exp, dirty);
    Ok(())
}

/// Rules that are not valid, with the kind of error.
pub fn invalid(c: &mut Ctx) -> (RuleM, &'static str, i64) {
    let mut r = RuleM::new("ab");
    match c.u(3) {
        0 => {
            r.pattern = c.pick(&["(", "a{5,1}", "", "a*", "(?=a)", "[z-a]", "\\1", "a{4000}"]).to_string();
            (r, "regex", -2)
        }
        1 => {
            r.kw = Some(match c.u(4) {
                0 => KwM { look: 0, inc: vec!["a".into()], exc: vec![] },
                1 => KwM { look: 51, inc: vec![], exc: vec!["a".into()] },
                2 => KwM { look: 3, inc: vec!["abcd".into()], exc: vec![] },
                _ => KwM { look: 3, inc: vec![], exc: vec!["--".into()] },
            });
            (r, "keywords", -3)
        }
        _ => {
            r.act = if c.chance(1, 2) { Act::First(0) } else { Act::Last(0) };
            (r, "action", -4)
        }
    }
}

fn p20_ffi_errors(c: &mut Ctx) -> Res {
    let mut rules: Vec<RuleM> = c.list(0, 2, 1, 2, |c| gen_rule(c, &BASE, &[]).m);
    let (bad, _, code) = invalid(c);
    let at = c.u(rules.len() + 1);
    rules.insert(at, bad);
    c.note(|| format!("{rules:?} -> {code}"));
    let list = ffi_rules(c, &rules)?;
    let mut err = std::ptr::null();
    let id = unsafe { create_scanner(list, &mut err, false) };
    unsafe { free_rule_list(list) };
    ensure!(id == code, "create_scanner gives {id}, expected {code}");
    ensure!(err.is_null(), "an error text with {code}");
    // what is not a rule gives an error, and leaves everything usable
    let bad = CString::new(*c.pick(&["", "{", "[]", "{}", "{\"pattern\": 3}", "{\"pattern\": \"a\"}", "null"])).unwrap();
    let p = unsafe { create_regex_rule(bad.as_ptr()) };
    ensure!(p < 0, "create_regex_rule({bad:?}) gives {p}");
    c.nontrivial = true;
    Ok(())
}

// ---------------------------------------------------------------- P20, the Go package
struct Go {
    child: std::process::Child,
    out: BufReader<std::process::ChildStdout>,
}

impl Drop for Go {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static GO: std::cell::RefCell<Option<Go>> = const { std::cell::RefCell::new(None) };
}

pub fn ask(q: &serde_json::Value) -> Result<serde_json::Value, String> {
    GO.with(|g| {
        let mut g = g.borrow_mut();
        if g.is_none() {
            let mut child = std::process::Command::new(format!("{VERIF}/target/goexec"))
                .stdin(std::process::Stdio::piped())
                .stdout(std::process::Stdio::piped())
                .stderr(std::process::Stdio::null())
                .spawn()
                .unwrap_or_else(|e| {
                    eprintln!("cannot start the Go executor: {e}");
                    std::process::exit(3)
                });
            let out = BufReader::new(child.stdout.take().unwrap());
            *g = Some(Go { child, out });
        }
        let go = g.as_mut().unwrap();
        let mut line = q.to_string();
        line.push('\n');
        let mut answer = String::new();
        let ok = go.child.stdin.as_mut().unwrap().write_all(line.as_bytes()).is_ok() && go.out.read_line(&mut answer).unwrap_or(0) > 0;
        if !ok {
            *g = None;
            return Err("the Go program died".into());
        }
        serde_json::from_str(&answer).map_err(|e| format!("unreadable answer: {e}"))
    })
}

pub fn go_rule(r: &RuleM) -> serde_json::Value {
    use serde_json::json;
    let (kind, text, n) = match &r.act {
        Act::None => ("none", "", 0),
        Act::Redact(t) => ("redact", t.as_str(), 0),
        Act::Hash | Act::Utf16Hash => ("hash", "", 0),
        Act::First(n) => ("first", "", *n),
        Act::Last(n) => ("last", "", *n),
    };
    let val = match r.val {
        None => "".to_string(),
        Some(v) => format!("{:?}", v.real()),
    };
    json!({"kind": kind, "pattern": r.pattern, "text": text, "n": n, "val": val,
        "kw": r.kw.as_ref().map(|k| json!({"look": k.look, "inc": k.inc, "exc": k.exc}))})
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64(b: &[u8]) -> String {
    let mut s = String::new();
    for ch in b.chunks(3) {
        let v = (ch[0] as u32) << 16 | (*ch.get(1).unwrap_or(&0) as u32) << 8 | *ch.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= ch.len() {
                s.push(B64[(v >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}
fn un64(s: &str) -> Option<Vec<u8>> {
    let mut out = vec![];
    for ch in s.as_bytes().chunks(4) {
        let mut v = 0u32;
        let mut n = 0;
        for c in ch {
            v <<= 6;
            if *c != b'=' {
                v |= B64.iter().position(|x| x == c)? as u32;
                n += 1;
            }
        }
        out.extend(&v.to_be_bytes()[1..n]);
    }
    Some(out)
}

fn ev_of_json(v: &serde_json::Value) -> Option<Ev> {
    Some(match v {
        serde_json::Value::String(s) => Ev::Str(s.clone()),
        serde_json::Value::Array(l) => Ev::List(l.iter().map(ev_of_json).collect::<Option<_>>()?),
        serde_json::Value::Object(m) => Ev::Map(m.iter().map(|(k, v)| Some((k.clone(), ev_of_json(v)?))).collect::<Option<_>>()?),
        _ => return None,
    })
}

fn p20_go(c: &mut Ctx) -> Res {
    use serde_json::json;
    let w = {
        let mut w = world(c, true);
        w.feat = Feat::default();
        for r in &mut w.rules {
            if r.act == Act::Utf16Hash {
                r.act = Act::Hash;
            }
        }
        w
    };
    note_world(c, &w);
    let Ok(comp) = compile(&w.rules) else { return c.discard() };
    // the event, and its parts as events of their own
    let mut evs: Vec<Ev> = vec![w.ev.clone()];
    for (_, s) in w.ev.strings() {
        if c.chance(1, 4) {
            evs.push(Ev::Str(s.clone()));
        }
    }
    if let Ev::Map(m) = &w.ev {
        for v in m.values() {
            if matches!(v, Ev::Map(_)) && c.chance(1, 4) {
                evs.push(v.clone());
            }
        }
    }
    if c.chance(1, 10) {
        evs.push(Ev::Map(Default::default()));
        evs.push(Ev::Str(String::new()));
    }
    let parallel = c.chance(1, 4);
    let dirty = c.chance(1, 3);
    let mut exps = vec![];
    let mut reqs = vec![];
    for e in &evs {
        let Ok(x) = scan(&w.rules, &comp, w.feat, e, &[], EncM::Utf8) else { return c.discard() };
        if x.ambiguous {
            return c.discard();
        }
        exps.push(x);
        reqs.push(match e {
            Ev::Str(_) => {
                let Raw::Str(b) = raw(e, dirty) else { unreachable!() };
                json!({"bytes": b64(&b)})
            }
            e => json!({"map": e.json()}),
        });
    }
    // maps with values that are not part of an event
    let mut odd = vec![];
    if let (Ev::Map(_), true) = (&w.ev, c.chance(1, 6)) {
        let mut v = w.ev.json();
        let x = c.pick(&[json!(3), json!(true), json!(2.5), json!(null)]).clone();
        let x = match c.u(3) {
            0 => x,
            1 => json!([x]),
            _ => json!({"k": ["a", x]}),
        };
        v.as_object_mut().unwrap().insert("odd".into(), x);
        reqs.push(json!({"map": v}));
        odd.push(v);
        c.tag("values that are not strings");
    }
    let a = ask(&json!({"rules": w.rules.iter().map(go_rule).collect::<Vec<_>>(), "events": reqs, "parallel": parallel}))?;
    ensure!(a["err"] == "", "CreateScanner fails: {}", a["err"]);
    for (v, r) in odd.iter().zip(&a["results"].as_array().unwrap()[evs.len()..]) {
        ensure!(r["err"] != "" && !r["err"].as_str().unwrap().contains("panic"), "scan of {v} gives {r}");
        ensure!(&r["map"] == v, "the refused event {v} has become {}", r["map"]);
    }
    for (i, (e, exp)) in evs.iter().zip(&exps).enumerate() {
        let r = &a["results"][i];
        let res: Res = (|| {
            ensure!(r["err"] == "", "scan of {e:?} fails: {}", r["err"]);
            let ms: Vec<WireMatch> = r["matches"]
                .as_array()
                .unwrap()
                .iter()
                .map(|m| WireMatch {
                    rule: m["rule"].as_u64().unwrap() as u32,
                    path: m["path"].as_str().unwrap().into(),
                    rtype: m["type"].as_str().unwrap().into(),
                    start: m["start"].as_u64().unwrap() as u32,
                    end: m["end"].as_u64().unwrap() as u32,
                    shift: m["shift"].as_i64().unwrap() as i32,
                })
                .collect();
            same_matches(&wire(exp, &w.rules), &ms, collides(e))?;
            let mutating = exp.matches.values().flatten().any(|m| w.rules[m.rule].act.mutating());
            let mutated = r["mutated"] == json!(true);
            ensure!(mutated == mutating, "mutated is {mutated} for {e:?}");
            match e {
                Ev::Str(_) => {
                    let got = un64(r["bytes"].as_str().unwrap()).ok_or("bad base64")?;
                    let want = if mutating {
                        let Ev::Str(s) = &exp.event else { unreachable!() };
                        s.as_bytes().to_vec()
                    } else {
                        // returned as it was given
                        let Raw::Str(b) = raw(e, dirty) else { unreachable!() };
                        b
                    };
                    ensure!(got == want, "event is {:?}, expected {:?}", String::from_utf8_lossy(&got), String::from_utf8_lossy(&want));
                }
                _ => {
                    let got = ev_of_json(&r["map"]).unwrap_or(Ev::Str("?".into()));
                    ensure!(got == exp.event, "event is {got:?}, expected {:?}", exp.event);
                }
            }
            Ok(())
        })();
        if let Err(m) = res {
            if engine_defect(&w.rules, e) {
                return c.discard();
            }
            return Err(m);
        }
    }
    c.extra_evals += evs.len() as u64 - 1;
    tags(c, &w, &exps[0], dirty);
    if parallel {
        c.tag("concurrent goroutines");
    }
    Ok(())
}

fn p20_go_errors(c: &mut Ctx) -> Res {
    use serde_json::json;
    let mut rules: Vec<RuleM> = c.list(0, 2, 1, 2, |c| gen_rule(c, &BASE, &[]).m);
    let (bad, kind, _) = invalid(c);
    let at = c.u(rules.len() + 1);
    rules.insert(at, bad);
    c.note(|| format!("{rules:?} -> {kind}"));
    let a = ask(&json!({"rules": rules.iter().map(go_rule).collect::<Vec<_>>(), "events": []}))?;
    ensure!(a["err"] == kind, "CreateScanner gives {}, expected {kind}", a["err"]);
    c.nontrivial = true;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P19",
            rule: "the scan has matches",
            parts: vec![
                Part { name: "binary", case: p19, quick: 30_000, thorough: 1_000_000, threads: 8 },
                Part { name: "positions", case: p19_positions, quick: 20_000, thorough: 500_000, threads: 8 },
                Part { name: "huge", case: p19_huge, quick: 8, thorough: 200, threads: 4 },
            ],
            assumptions: &["paths are distinct (also when read with U+FFFD)"],
        },
        Prop {
            id: "P20",
            rule: "the scan has matches, or an error is expected",
            parts: vec![
                Part { name: "ffi", case: p20_ffi, quick: 15_000, thorough: 500_000, threads: 8 },
                Part { name: "ffi-errors", case: p20_ffi_errors, quick: 2000, thorough: 50_000, threads: 8 },
                Part { name: "go", case: p20_go, quick: 15_000, thorough: 500_000, threads: 8 },
                Part { name: "go-errors", case: p20_go_errors, quick: 2000, thorough: 50_000, threads: 8 },
            ],
            assumptions: &[
                "map keys are well-formed UTF-8",
                "the Go package is linked with the shared library that the harness build made from /repo's tree",
            ],
        },
    ]
}
