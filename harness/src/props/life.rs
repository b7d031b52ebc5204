//! P17 (history independence), P18 (concurrent use).

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use dd_sds::*;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};

/// Rule patterns that are also texts of keywords, and patterns that share text.
const SHARED: &[(&str, &str)] = &[
    ("é", "é"),
    ("É", "É"),
    ("ñé", "ñé"),
    ("=>", "=>"),
    ("日本", "日本"),
    ("ab", "ab"),
    ("AB", "AB"),
    ("\\d{3}", "123"),
    ("\\d+", "4521"),
    ("[a-z]+\\d", "ab1"),
    ("a|ab", "ab"),
    ("\\bid\\b", "id"),
    ("(?-u:\\b)id(?-u:\\b)", "id"),
    ("\\w{2,4}", "ab_1"),
    ("b.b", "bab"),
    ("é|=>", "=>"),
    ("ñé|É", "É"),
    ("日本|é|ñé", "ñé"),
    // what the keyword regex of such a list is, when it is long
    ("日本é日本é日本é日本é日本é|ñéñéñéñéñéñéñéñé|ÉéÉéÉéÉéÉé", "éÉéÉéÉéÉéÉ"),
    ("é日é日é日|日é日é日é|ñ日ñ日ñ日|ñé日ñé日ñé日|ßéßéßé|éßéßéß|ñßñßñß|ßñ日ßñ日ßñ日|日日日日日日|日ñ日ñ日ñ|éééééé|ñññññññññ|ßßßßßß", "ßÑ日ßÑ日ßÑ日"),
    ("é日é日|é日日é|é日ñ日|é日ñé日|é日ßé|é日éß|é日ñß|é日ßñ日|é日日日|é日日ñ|é日éé|é日ñññ|é日ßß|日éé日|日é日é|日éñ日|日éñé日|日éßé|日ééß|日éñß|日éßñ日|日é日日|日é日ñ|日ééé|日éñññ|日éßß|ñ日é日|ñ日日é|ñ日ñ日|ñ日ñé日|ñ日ßé|ñ日éß|ñ日ñß|ñ日ßñ日|ñ日日日|ñ日日ñ|ñ日éé|ñ日ñññ|ñ日ßß|ñé日é日|ñé日日é|ñé日ñ日|ñé日ñé日|ñé日ßé|ñé日éß|ñé日ñß|ñé日ßñ日|ñé日日日", "ÑÉ日日日"),
];

const SHARED_KW: &[&str] = &["é", "É", "ñé", "=>", "日本", "ab", "id", "AB", "a", "id test"];

/// Lists of keywords whose regex is the text of a pattern above.
const SHARED_LISTS: &[&[&str]] = &[&["é", "=>"], &["ñé", "É"], &["日本", "é", "ñé"], &["日本é日本é日本é日本é日本é", "ñéñéñéñéñéñéñéñé", "ÉéÉéÉéÉéÉé"],
    &["é日é日é日", "日é日é日é", "ñ日ñ日ñ日", "ñé日ñé日ñé日", "ßéßéßé", "éßéßéß", "ñßñßñß", "ßñ日ßñ日ßñ日", "日日日日日日", "日ñ日ñ日ñ", "éééééé", "ñññññññññ", "ßßßßßß"],
    &["é日é日", "é日日é", "é日ñ日", "é日ñé日", "é日ßé", "é日éß", "é日ñß", "é日ßñ日", "é日日日", "é日日ñ", "é日éé", "é日ñññ", "é日ßß", "日éé日", "日é日é", "日éñ日", "日éñé日", "日éßé", "日ééß", "日éñß", "日éßñ日", "日é日日", "日é日ñ", "日ééé", "日éñññ", "日éßß", "ñ日é日", "ñ日日é", "ñ日ñ日", "ñ日ñé日", "ñ日ßé", "ñ日éß", "ñ日ñß", "ñ日ßñ日", "ñ日日日", "ñ日日ñ", "ñ日éé", "ñ日ñññ", "ñ日ßß", "ñé日é日", "ñé日日é", "ñé日ñ日", "ñé日ñé日", "ñé日ßé", "ñé日éß", "ñé日ñß", "ñé日ßñ日", "ñé日日日"]];

fn pool_rule(c: &mut Ctx, pool: &[(&'static str, &'static str)]) -> GRule {
    let (p, _) = *c.pick(pool);
    let mut m = RuleM::new(p);
    if p.contains("(?-u:") {
        // not a pattern users may write; becomes an invalid rule
        m = RuleM::new("\\bid\\b");
    }
    m.act = gen_act(c);
    if c.chance(1, 3) {
        let look = *c.pick(&[10, 30, 12]);
        let mut l = c.list(1, 3, 1, 2, |c| c.pick(SHARED_KW).to_string());
        l.dedup();
        if c.chance(1, 4) {
            l = c.pick(SHARED_LISTS).iter().map(|k| k.to_string()).collect();
        }
        let look = if l.len() >= 3 { 30 } else { look };
        let mut k = KwM { look, ..Default::default() };
        if c.chance(2, 3) {
            k.inc = l
        } else {
            k.exc = l
        }
        m.kw = Some(k);
    }
    GRule { m, re: None }
}

fn pool_text(c: &mut Ctx, rules: &[GRule]) -> String {
    let n = c.int(0, 8);
    let mut s = String::new();
    for _ in 0..n {
        match c.weighted(&[4, 3, 2]) {
            0 => {
                let r = &rules[c.u(rules.len())];
                if let Some(x) = SHARED.iter().find(|x| x.0 == r.m.pattern) {
                    s.push_str(x.1)
                }
            }
            1 => s.push_str(*c.pick(SHARED_KW)),
            _ => s.push_str(*c.pick(&[" ", "1", "é", "É", "-", " x ", "ab", "AB", "b"])),
        }
        if c.chance(1, 2) {
            s.push(' ');
        }
    }
    s
}

struct Live {
    rules: Vec<GRule>,
    ms: Vec<RuleM>,
    comp: Compiled,
    feat: Feat,
    sc: Scanner,
    log: Vec<(Ev, String)>,
}

fn show(g: &Got) -> String {
    format!("{:?} {:?}", g.event, g.matches)
}

static UNIQUE: AtomicUsize = AtomicUsize::new(0);

/// `n` new patterns, so that the store of shared regexes gets `n` insertions.
fn churn_rules(n: usize) -> Vec<RuleM> {
    let base = UNIQUE.fetch_add(n, Ordering::Relaxed);
    (0..n).map(|i| RuleM::new(&format!("zq{}x", base + i))).collect()
}

fn bad_rule(c: &mut Ctx) -> RuleM {
    match c.u(4) {
        0 => RuleM::new("(?-u:\\b)id(?-u:\\b)"),
        1 => RuleM::new("(ab"),
        2 => {
            let mut r = RuleM::new("ab");
            r.act = Act::First(0);
            r
        }
        _ => {
            let mut r = RuleM::new("é");
            r.kw = Some(KwM { look: 0, inc: vec!["id".into()], exc: vec![] });
            r
        }
    }
}

fn live_feat(c: &mut Ctx) -> Feat {
    Feat { kw_paths: c.chance(1, 4), implicit: false, multipass: !c.chance(1, 4) }
}

fn gen_live(c: &mut Ctx, pool: &[(&'static str, &'static str)]) -> Result<Live, String> {
    let n = c.int(1, 3);
    let rules: Vec<GRule> = (0..n).map(|_| pool_rule(c, pool)).collect();
    let ms: Vec<RuleM> = rules.iter().map(|g| g.m.clone()).collect();
    let feat = live_feat(c);
    let comp = compile(&ms).map_err(|e| format!("reference rejects: {e}"))?;
    let sc = build(&ms, feat).map_err(|e| format!("a valid rule set was rejected: {e:?}"))?;
    Ok(Live { rules, ms, comp, feat, sc, log: vec![] })
}

fn gen_event(c: &mut Ctx, rules: &[GRule]) -> Ev {
    if c.chance(1, 2) {
        Ev::Str(pool_text(c, rules))
    } else {
        let l = c.list(1, 4, 2, 3, |c| (c.pick(&["a", "b", "id", "é", "message"]).to_string(), Ev::Str(pool_text(c, rules))));
        Ev::Map(l.into_iter().collect())
    }
}

fn case_history(c: &mut Ctx, churn: bool) -> Res {
    let np = c.int(2, 6);
    let pool: Vec<(&str, &str)> = (0..np).map(|_| *c.pick(SHARED)).collect();
    let mut live: Vec<Live> = vec![];
    let steps = c.list(3, 16, 7, 8, |c| c.weighted(&[5, 7, 2, 1, 2, if churn { 2 } else { 0 }]));
    let (mut scans, mut drops, mut churned, mut again) = (0, 0, 0, 0);
    for s in steps {
        match s {
            0 => {
                let l = gen_live(c, &pool)?;
                c.note(|| format!("create #{}: {:?} {:?}", live.len(), l.ms.iter().map(|r| (&r.pattern, &r.act, &r.kw)).collect::<Vec<_>>(), l.feat));
                live.push(l);
            }
            1 if !live.is_empty() => {
                let i = c.u(live.len());
                let ev = gen_event(c, &live[i].rules);
                c.note(|| format!("scan with #{i}: {ev:?}"));
                let l = &mut live[i];
                let got = scan_real(&l.sc, &ev, &[], EncM::Utf8);
                let Ok(exp) = scan(&l.ms, &l.comp, l.feat, &ev, &[], EncM::Utf8) else { return c.discard() };
                if exp.ambiguous {
                    justified(&exp, &got, &ev, EncM::Utf8)?;
                } else {
                    compare(&exp, &got)?;
                }
                if !got.flat.is_empty() {
                    scans += 1;
                }
                l.log.push((ev, show(&got)));
            }
            2 if !live.is_empty() => {
                let i = c.u(live.len());
                c.note(|| format!("drop #{i}"));
                live.remove(i);
                drops += 1;
            }
            3 => {
                let good = c.list(0, 2, 1, 2, |c| pool_rule(c, &pool).m);
                let mut rules = good;
                rules.push(bad_rule(c));
                c.note(|| format!("create with an invalid rule: {:?}", rules.iter().map(|r| &r.pattern).collect::<Vec<_>>()));
                ensure!(build(&rules, Feat::default()).is_err(), "an invalid rule was accepted");
            }
            4 if live.iter().any(|l| !l.log.is_empty()) => {
                // an event scanned before, again
                let with: Vec<usize> = (0..live.len()).filter(|i| !live[*i].log.is_empty()).collect();
                let i = *c.pick(&with);
                let j = c.u(live[i].log.len());
                c.note(|| format!("scan #{i}'s event {j} again"));
                let l = &live[i];
                let got = show(&scan_real(&l.sc, &l.log[j].0, &[], EncM::Utf8));
                ensure!(got == l.log[j].1, "a second scan gives {got}, the first gave {}", l.log[j].1);
                again += 1;
            }
            5 => {
                let n = *c.pick(&[1010, 300, 60]);
                let keep = c.chance(1, 3);
                c.note(|| format!("create {n} unique rules{}", if keep { "" } else { " and drop them" }));
                let rules = churn_rules(n);
                let comp = compile(&rules).map_err(|e| format!("reference rejects: {e}"))?;
                let sc = build(&rules, Feat::default()).map_err(|e| format!("rejected: {e:?}"))?;
                let mut e = rules[n / 2].pattern.clone();
                let m = sc.scan(&mut e, vec![]);
                ensure!(m.len() == 1 && m[0].rule_index == n / 2, "wrong rule after churn");
                if keep {
                    let g = rules.iter().map(|m| GRule { m: m.clone(), re: None }).collect();
                    live.push(Live { rules: g, ms: rules, comp, feat: Feat::default(), sc, log: vec![] });
                }
                churned += 1;
            }
            _ => {}
        }
    }
    // everything again at the end
    for l in &live {
        for (ev, was) in &l.log {
            let got = show(&scan_real(&l.sc, ev, &[], EncM::Utf8));
            ensure!(&got == was, "scanning {ev:?} at the end gives {got}, first it gave {was}");
            again += 1;
        }
    }
    c.nontrivial = scans >= 1 && (again > 1 || drops > 0);
    if drops > 0 {
        c.tag("scanners dropped in between");
    }
    if churned > 0 {
        c.tag("regex store churned");
    }
    Ok(())
}

fn p17(c: &mut Ctx) -> Res {
    case_history(c, false)
}

fn p17_churn(c: &mut Ctx) -> Res {
    case_history(c, true)
}

/// Scanning does not remember: a long sequence of different events, each compared with a scanner
/// built just for it.
fn p17_stream(c: &mut Ctx) -> Res {
    let mut k = BASE;
    k.rules = (1, 3);
    k.tree = true;
    k.scopes = true;
    k.kw = KwKind::Any;
    k.kw_paths = true;
    k.multipass = true;
    k.enc = false;
    let w = gen_world(c, &k);
    note_world(c, &w);
    let sc = build(&w.rules, w.feat).map_err(|e| format!("rejected: {e:?}"))?;
    let mut evs = vec![w.ev.clone()];
    // parts of the event, in any order, and the event again
    if let Ev::Map(m) = &w.ev {
        for (k, v) in m {
            evs.push(Ev::Map([(k.clone(), v.clone())].into()));
            evs.push(v.clone());
        }
    }
    let n = c.int(2, 8);
    let mut hits = 0;
    for _ in 0..n {
        let i = c.u(evs.len());
        let blocked: Vec<usize> = if c.chance(1, 4) { vec![c.u(w.rules.len())] } else { vec![] };
        c.note(|| format!("scan {:?} blocked {blocked:?}", evs[i]));
        let old = scan_real(&sc, &evs[i], &blocked, EncM::Utf8);
        let fresh = build(&w.rules, w.feat).map_err(|e| format!("rejected: {e:?}"))?;
        let new = scan_real(&fresh, &evs[i], &blocked, EncM::Utf8);
        ensure!(old.flat == new.flat && old.event == new.event, "used scanner: {}\n    fresh scanner: {}", show(&old), show(&new));
        hits += old.flat.len();
    }
    c.nontrivial = hits > 0;
    Ok(())
}

// ---------------------------------------------------------------- P18
/// An event that scans another event in the middle of being visited.
struct Nested<'s> {
    outer: SimpleEvent,
    sc: &'s Scanner,
    inner: Vec<(Ev, String)>,
    wrong: Option<String>,
}

impl Event for Nested<'_> {
    type Encoding = Utf8Encoding;
    fn visit_event<'a>(&'a mut self, visitor: &mut impl EventVisitor<'a>) {
        for (e, want) in &self.inner {
            let got = show(&scan_real(self.sc, e, &[], EncM::Utf8));
            if &got != want {
                self.wrong = Some(format!("nested scan of {e:?} gives {got}, expected {want}"));
            }
        }
        self.outer.visit_event(visitor)
    }
    fn visit_string_mut(&mut self, path: &Path, visit: impl FnMut(&mut String) -> bool) {
        for (e, want) in &self.inner {
            let got = show(&scan_real(self.sc, e, &[], EncM::Utf8));
            if &got != want {
                self.wrong = Some(format!("nested scan of {e:?} gives {got}, expected {want}"));
            }
        }
        self.outer.visit_string_mut(path, visit)
    }
}

fn expected(l: &Live, ev: &Ev) -> Result<Option<String>, String> {
    let Ok(exp) = scan(&l.ms, &l.comp, l.feat, ev, &[], EncM::Utf8) else { return Ok(None) };
    let got = scan_real(&l.sc, ev, &[], EncM::Utf8);
    if exp.ambiguous {
        justified(&exp, &got, ev, EncM::Utf8)?;
    } else {
        compare(&exp, &got)?;
    }
    Ok(Some(show(&got)))
}

fn p18(c: &mut Ctx) -> Res {
    let np = c.int(2, 6);
    let pool: Vec<(&'static str, &'static str)> = (0..np).map(|_| *c.pick(SHARED)).collect();
    let ns = c.int(1, 3);
    let mut live = vec![];
    for _ in 0..ns {
        live.push(gen_live(c, &pool)?);
    }
    // the work: (scanner, event, what a scan alone gives)
    let nw = c.int(2, 10);
    let mut work: Vec<(usize, Ev, String)> = vec![];
    for _ in 0..nw {
        let i = c.u(live.len());
        let ev = gen_event(c, &live[i].rules);
        if let Some(w) = expected(&live[i], &ev)? {
            work.push((i, ev, w));
        }
    }
    if work.is_empty() {
        return c.discard();
    }
    let threads = *c.pick(&[2, 3, 4, 8, 12]);
    let builders = c.int(0, 2);
    let rounds = *c.pick(&[4, 8, 20]);
    let churn = if c.chance(1, 6) { 350 } else { 5 };
    let nested = c.chance(1, 3);
    let seed = c.u(1 << 30) as u64;
    c.note(|| format!("{threads} scanning and {builders} building threads, {rounds} rounds, nested {nested}"));
    for l in &live {
        c.note(|| format!("scanner: {:?} {:?}", l.ms.iter().map(|r| (&r.pattern, &r.act, &r.kw)).collect::<Vec<_>>(), l.feat));
    }
    for w in &work {
        c.note(|| format!("scan with #{}: {:?}", w.0, w.1));
    }
    let live: Vec<(Vec<RuleM>, Feat, Scanner)> = live.into_iter().map(|l| (l.ms, l.feat, l.sc)).collect();
    let wrong: Mutex<Option<String>> = Mutex::new(None);
    let stop = AtomicBool::new(false);
    let barrier = Barrier::new(threads + builders);
    let fail = |s: String| {
        wrong.lock().unwrap().get_or_insert(s);
        stop.store(true, Ordering::Relaxed);
    };
    let per: Vec<Vec<RuleM>> = (0..builders).map(|_| (0..6).flat_map(|_| churn_rules(churn)).collect()).collect();
    std::thread::scope(|s| {
        let mut handles = vec![];
        for t in 0..threads {
            let (live, work, barrier, stop, fail) = (&live, &work, &barrier, &stop, &fail);
            handles.push(s.spawn(move || {
                let mut rng = Rng::new(seed ^ t as u64);
                barrier.wait();
                for _ in 0..rounds {
                    if stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let (i, ev, want) = &work[rng.next() as usize % work.len()];
                    let r = no_panic("a concurrent scan", || {
                        if nested && rng.next() % 2 == 0 {
                            let inner: Vec<(Ev, String)> = work.iter().filter(|w| w.0 == *i).map(|w| (w.1.clone(), w.2.clone())).collect();
                            let mut n = Nested { outer: ev.simple(), sc: &live[*i].2, inner, wrong: None };
                            let ms = live[*i].2.scan(&mut n, vec![]);
                            if let Some(w) = n.wrong {
                                return Err(w);
                            }
                            let mut g = Got { event: Ev::from_simple(&n.outer), matches: Default::default(), flat: vec![] };
                            for m in ms.iter().map(MatchM::from_real) {
                                g.matches.entry(m.path.clone()).or_default().push(m);
                            }
                            Ok(show(&g))
                        } else {
                            Ok(show(&scan_real(&live[*i].2, ev, &[], EncM::Utf8)))
                        }
                    });
                    match r.and_then(|x| x) {
                        Ok(g) if &g == want => {}
                        Ok(g) => fail(format!("concurrent scan of {ev:?} gives {g}, alone it gave {want}")),
                        Err(e) => fail(e),
                    }
                }
            }));
        }
        for rules in &per {
            let (live, work, barrier, stop, fail) = (&live, &work, &barrier, &stop, &fail);
            handles.push(s.spawn(move || {
                barrier.wait();
                for part in rules.chunks(churn) {
                    if stop.load(Ordering::Relaxed) {
                        break;
                    }
                    // the same scanners again, and new patterns
                    let r = no_panic("building or scanning with a new scanner", || {
                        for (i, ev, want) in work.iter().take(3) {
                            let sc = build(&live[*i].0, live[*i].1).map_err(|e| format!("rejected: {e:?}"))?;
                            let g = show(&scan_real(&sc, ev, &[], EncM::Utf8));
                            if &g != want {
                                return Err(format!("a scanner built meanwhile gives {g}, expected {want}"));
                            }
                        }
                        let sc = build(part, Feat::default()).map_err(|e| format!("rejected: {e:?}"))?;
                        let mut e = part[part.len() / 2].pattern.clone();
                        let m = sc.scan(&mut e, vec![]);
                        if m.len() != 1 || m[0].rule_index != part.len() / 2 {
                            return Err("a new scanner reports the wrong rule".to_string());
                        }
                        Ok(())
                    });
                    if let Err(e) = r.and_then(|x| x) {
                        fail(e);
                    }
                }
            }));
        }
        for h in handles {
            let _ = h.join();
        }
    });
    c.extra_evals += (threads * rounds) as u64;
    if let Some(w) = wrong.into_inner().unwrap() {
        return Err(w);
    }
    c.nontrivial = work.iter().any(|w| w.2.contains("MatchM")) && threads >= 2;
    if nested {
        c.tag("nested scans");
    }
    if builders > 0 {
        c.tag("scanners built and dropped meanwhile");
    }
    Ok(())
}

/// What is handed out by the pool is in nobody else's hands, and works as its factory made it.
fn p18_pool(c: &mut Ctx) -> Res {
    struct Item {
        busy: AtomicBool,
        n: usize,
    }
    let count = *c.pick(&[1, 4, 5, 8, 16, 17, 33, 64, 100]);
    let threads = *c.pick(&[2, 4, 8, 16]);
    let rounds = *c.pick(&[5, 30]);
    let depth = c.int(1, 3);
    c.note(|| format!("pool of {count}, {threads} threads, {rounds} rounds, {depth} held at once"));
    let made = Arc::new(AtomicUsize::new(0));
    let m2 = made.clone();
    let pool: SharedPool<Box<Item>> = SharedPool::new(
        Box::new(move || {
            m2.fetch_add(1, Ordering::Relaxed);
            Box::new(Item { busy: AtomicBool::new(false), n: 7 })
        }),
        count,
    );
    let bad = AtomicBool::new(false);
    let barrier = Barrier::new(threads);
    std::thread::scope(|s| {
        for _ in 0..threads {
            let (pool, bad, barrier) = (&pool, &bad, &barrier);
            s.spawn(move || {
                barrier.wait();
                for _ in 0..rounds {
                    let mut held = vec![];
                    for _ in 0..depth {
                        let mut g = pool.get();
                        let it = g.get_ref();
                        if it.busy.swap(true, Ordering::SeqCst) || it.n != 7 {
                            bad.store(true, Ordering::SeqCst);
                        }
                        held.push(g);
                        std::thread::yield_now();
                    }
                    for mut g in held {
                        g.get_ref().busy.store(false, Ordering::SeqCst);
                    }
                }
            });
        }
    });
    ensure!(!bad.load(Ordering::SeqCst), "an object of the pool was handed out twice at the same time");
    ensure!(made.load(Ordering::Relaxed) >= 1, "no object made");
    c.extra_evals += (threads * rounds * depth) as u64;
    c.nontrivial = true;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P17",
            rule: "at least one scan found matches, and a scan was repeated or scanners were dropped in between",
            parts: vec![
                Part { name: "history", case: p17, quick: 20000, thorough: 200_000, threads: 8 },
                Part { name: "churn", case: p17_churn, quick: 900, thorough: 3000, threads: 1 },
                Part { name: "stream", case: p17_stream, quick: 12000, thorough: 150_000, threads: 8 },
            ],
            assumptions: &["the regex engine itself keeps no state between searches beyond the caches handed to it"],
        },
        Prop {
            id: "P18",
            rule: "at least two threads scan at once and some scans have matches",
            parts: vec![
                Part { name: "threads", case: p18, quick: 3000, thorough: 30_000, threads: 2 },
                Part { name: "pool", case: p18_pool, quick: 1000, thorough: 4000, threads: 1 },
            ],
            assumptions: &["schedules are those the machine happens to produce (8 cores), not enumerated"],
        },
    ]
}
