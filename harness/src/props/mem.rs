//! P26: memory is given back.

use crate::alloc::net;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::props::bind::*;
use std::ffi::CString;

/// Bytes per round below which growth does not count.
const SLACK: isize = 8;

/// Repeats a round, in windows of `n`, `n`, `2n`, `4n`... rounds after some to warm up. The memory in
/// use may go up and down (caches are replaced by others), but its low must not rise from each window
/// to the next by more than a few bytes per round, and its high must not fall (that is, something was
/// given back twice, or with another size).
fn steady(c: &mut Ctx, n: isize, warm: isize, round: &mut dyn FnMut() -> Res) -> Res {
    for _ in 0..warm {
        round()?;
    }
    c.extra_evals += warm as u64 - 1;
    let mut seen: Vec<(isize, isize, isize)> = vec![];
    let mut k = n;
    loop {
        let (mut low, mut high) = (isize::MAX, isize::MIN);
        for _ in 0..k {
            round()?;
            let x = net();
            low = low.min(x);
            high = high.max(x);
        }
        c.extra_evals += k as u64;
        if let Some((_, l, h)) = seen.last() {
            if low - l < k * SLACK && h - high < k * SLACK {
                return Ok(());
            }
            k *= 2;
        }
        seen.push((k, low, high));
        let d: Vec<_> = seen.windows(2).map(|x| (x[1].0, x[1].1 - x[0].1, x[1].2 - x[0].2)).collect();
        ensure!(k <= n * 256, "the memory in use keeps changing: (rounds, rise of the low, rise of the high) {d:?}");
    }
}

fn a_world(c: &mut Ctx) -> World {
    let mut k = BASE;
    k.rules = (1, 4);
    k.tree = c.chance(2, 3);
    k.scopes = k.tree && c.chance(1, 2);
    k.kw = if c.chance(1, 2) { KwKind::Any } else { KwKind::None };
    k.kw_paths = c.chance(1, 4);
    k.enc = true;
    k.vals = c.chance(1, 4);
    k.ascii_fields = true;
    gen_world(c, &k)
}

fn scan_once(sc: &dd_sds::Scanner, w: &World) -> usize {
    match w.enc {
        EncM::Utf8 => sc.scan(&mut w.ev.simple(), vec![]).len(),
        EncM::Utf16 => sc.scan(&mut Utf16Event(w.ev.clone()), vec![]).len(),
        EncM::Chars => sc.scan(&mut CharEvent(w.ev.clone()), vec![]).len(),
    }
}

/// One scanner, the same events again and again.
fn scans(c: &mut Ctx) -> Res {
    let w = a_world(c);
    note_world(c, &w);
    let Ok(sc) = build(&w.rules, w.feat) else { return c.discard() };
    let mut found = 0;
    let r = steady(c, 8, 4, &mut || {
        found += scan_once(&sc, &w);
        Ok(())
    });
    c.nontrivial = found > 0;
    r
}

/// Scanners come and go, some of them invalid; the store of regexes forgets what nobody uses.
fn scanners(c: &mut Ctx) -> Res {
    let w = a_world(c);
    let mut bad = w.rules.clone();
    let at = c.u(bad.len() + 1);
    bad.insert(at, invalid(c).0);
    let keep = if c.chance(1, 4) { build(&w.rules[..1], w.feat).ok() } else { None };
    note_world(c, &w);
    c.note(|| format!("and an invalid rule at {at}: {:?}", bad[at]));
    if build(&w.rules, w.feat).is_err() {
        return c.discard();
    }
    let mut found = 0;
    let r = steady(c, 16, 8, &mut || {
        let sc = build(&w.rules, w.feat).map_err(|e| format!("rejected: {e:?}"))?;
        found += scan_once(&sc, &w);
        ensure!(build(&bad, w.feat).is_err(), "accepted: {:?}", bad[at]);
        Ok(())
    });
    drop(keep);
    c.nontrivial = found > 0;
    r
}

/// New patterns and keywords all the time.
fn patterns(c: &mut Ctx) -> Res {
    let mut k = 0u64;
    let kw = c.chance(1, 2);
    let tail = *c.pick(&["x", "[a-z]", "\\d{2}", "é"]);
    let step = c.int(1, 3);
    c.note(|| format!("rules /n<k>{tail}/{}, {step} per scanner", if kw { " with keywords kw<k>" } else { "" }));
    let mut round = || -> Res {
        // enough for the store to clean up (every thousand regexes), whatever the state it is in
        let mut low = isize::MAX;
        for _ in 0..1400 {
            let rules: Vec<RuleM> = (0..step)
                .map(|_| {
                    k += 1;
                    let mut r = RuleM::new(&format!("n{k:07}{tail}"));
                    if kw {
                        r.kw = Some(KwM { look: 20, inc: vec![format!("kw{k:07}")], exc: vec![format!("no{k:07}")] });
                    }
                    r
                })
                .collect();
            let sc = build(&rules, Feat::default()).map_err(|e| format!("rejected: {e:?}"))?;
            sc.scan(&mut format!("n{k:07}x kw{k:07} n{k:07}é n{k:07}12"), vec![]);
            drop(sc);
            low = low.min(net());
        }
        LOW.with(|x| x.borrow_mut().push(low));
        Ok(())
    };
    thread_local!(static LOW: std::cell::RefCell<Vec<isize>> = const { std::cell::RefCell::new(vec![]) });
    LOW.with(|x| x.borrow_mut().clear());
    for _ in 0..4 {
        round()?;
    }
    let low = LOW.with(|x| x.borrow().clone());
    c.extra_evals += 4 * 1400;
    let d: Vec<isize> = low.windows(2).map(|x| x[1] - x[0]).collect();
    ensure!(
        !d[1..].iter().all(|x| *x > 1400 * 24 * (step * if kw { 3 } else { 1 }) as isize),
        "the memory in use after a clean-up grows all the time: by {d:?} bytes in 1400 scanners each"
    );
    c.nontrivial = true;
    Ok(())
}

/// The C functions: everything that is freed as documented is freed.
fn ffi(c: &mut Ctx) -> Res {
    let mut w = world(c, false);
    w.enc = EncM::Utf8;
    let dirty = c.chance(1, 3);
    note_world(c, &w);
    if build(&w.rules, w.feat).is_err() {
        return c.discard();
    }
    let json: Vec<CString> = w.rules.iter().map(|r| CString::new(rule_json(c, r).to_string()).unwrap()).collect();
    let bad = invalid(c).0;
    let bad_rule = CString::new(rule_json(c, &bad).to_string()).unwrap();
    let no_rule = CString::new(*c.pick(&["", "{", "[]", "{\"pattern\": 3}"])).unwrap();
    let mut bytes = vec![];
    encode(&raw(&w.ev, dirty), &mut bytes);
    let mut damaged = bytes.clone();
    damaged.extend([3, 0, 0, 1, 0, b'a']);
    let (with_bad, with_none, with_damaged) = (c.chance(1, 3), c.chance(1, 3), c.chance(1, 3));
    let mut found = 0;
    let r = steady(c, 16, 8, &mut || unsafe {
        let list = create_rule_list();
        for j in &json {
            let p = create_regex_rule(j.as_ptr());
            ensure!(p > 0, "create_regex_rule({j:?}) gives {p}");
            append_rule_to_list(p, list);
            free_any_rule(p);
        }
        if with_none {
            create_regex_rule(no_rule.as_ptr());
        }
        let mut err = std::ptr::null();
        let sc = Ffi(create_scanner(list, &mut err, w.feat.kw_paths));
        if with_bad {
            let p = create_regex_rule(bad_rule.as_ptr());
            append_rule_to_list(p, list);
            free_any_rule(p);
            let id = create_scanner(list, &mut err, false);
            ensure!(id < 0, "a list with {bad_rule:?} is accepted");
        }
        free_rule_list(list);
        if with_damaged {
            let r = sc.scan(&damaged)?;
            ensure!(r.is_err(), "a malformed event is scanned as {r:?}");
        }
        if sc.scan(&bytes)?.map_err(|e| format!("scan fails: {e}"))?.is_some() {
            found += 1;
        }
        Ok(())
    });
    c.nontrivial = found > 0;
    r
}

/// The Go package, in a process of its own: what malloc has handed out.
fn go(c: &mut Ctx) -> Res {
    use serde_json::json;
    let mut w = world(c, true);
    w.feat = Feat::default();
    for r in &mut w.rules {
        if r.act == Act::Utf16Hash {
            r.act = Act::Hash;
        }
    }
    let errors = c.chance(1, 3);
    if errors {
        let at = c.u(w.rules.len() + 1);
        let bad = invalid(c).0;
        w.rules.insert(at, bad);
    }
    note_world(c, &w);
    let mut events = vec![match &w.ev {
        Ev::Str(s) => json!({"bytes": b64(s.as_bytes())}),
        e => json!({"map": e.json()}),
    }];
    for (_, s) in w.ev.strings().into_iter().take(3) {
        events.push(json!({"bytes": b64(s.as_bytes())}));
    }
    if let Ev::Map(_) = &w.ev {
        events.push(json!({"map": {"k": "a", "v": [1]}}));
    }
    if w.ev.strings().iter().map(|x| x.1.len()).sum::<usize>() > 2000 || w.rules.len() > 20 {
        return c.discard();
    }
    let n = 100;
    let a = ask(&json!({"rules": w.rules.iter().map(go_rule).collect::<Vec<_>>(), "events": events, "loop": n}))?;
    let m: Vec<i64> = a["memory"].as_array().ok_or("no answer")?.iter().map(|x| x.as_i64().unwrap()).collect();
    let k = |i: usize| if i == 0 { n } else { n << (i - 1) };
    let d: Vec<(i64, i64)> = (1..m.len()).map(|i| (k(i), m[i] - m[i - 1])).collect();
    ensure!(a["steady"] == true, "memory in use keeps growing: (rounds, bytes) {d:?}");
    c.extra_evals += (0..m.len()).map(k).sum::<i64>() as u64 - 1;
    c.nontrivial = errors || a["results"].as_array().is_some_and(|r| r.iter().any(|x| x["matches"].as_array().is_some_and(|m| !m.is_empty())));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    // one thread: the memory is counted per thread, and the stores are shared
    let part = |name, case, quick, thorough| Part { name, case, quick, thorough, threads: 1 };
    vec![Prop {
        id: "P26",
        rule: "something matched (or an error was reported) in the rounds",
        parts: vec![
            part("scans", scans, 3000, 100_000),
            part("scanners", scanners, 400, 20_000),
            part("patterns", patterns, 2, 60),
            part("ffi", ffi, 300, 20_000),
            // (each thread has a process of its own)
            Part { name: "go", case: go, quick: 64, thorough: 5000, threads: 8 },
        ],
        assumptions: &[],
    }]
}
