//! P23 (metrics).

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use dd_sds::*;
use metrics::{Counter, Gauge, Histogram, Key, KeyName, Metadata, Recorder, SharedString, Unit};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, Once};

type Id = (String, Vec<(String, String)>);

/// Keeps every counter and gauge by name and (sorted) labels.
#[derive(Default)]
struct Rec(Mutex<BTreeMap<Id, Arc<AtomicU64>>>);

impl Rec {
    fn at(&self, key: &Key) -> Arc<AtomicU64> {
        let mut l: Vec<(String, String)> = key.labels().map(|l| (l.key().to_string(), l.value().to_string())).collect();
        l.sort();
        self.0.lock().unwrap().entry((key.name().to_string(), l)).or_default().clone()
    }
    fn snapshot(&self) -> BTreeMap<Id, u64> {
        self.0.lock().unwrap().iter().map(|(k, v)| (k.clone(), v.load(Ordering::SeqCst))).collect()
    }
    fn get(&self, name: &str, labels: &[(String, String)]) -> Option<u64> {
        let mut l = labels.to_vec();
        l.sort();
        self.0.lock().unwrap().get(&(name.to_string(), l)).map(|v| v.load(Ordering::SeqCst))
    }
    fn gauge(&self, name: &str) -> f64 {
        f64::from_bits(self.get(name, &[]).unwrap_or_default())
    }
}

impl Recorder for Rec {
    fn describe_counter(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn describe_gauge(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn describe_histogram(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn register_counter(&self, key: &Key, _: &Metadata<'_>) -> Counter {
        Counter::from_arc(self.at(key))
    }
    fn register_gauge(&self, key: &Key, _: &Metadata<'_>) -> Gauge {
        Gauge::from_arc(self.at(key))
    }
    fn register_histogram(&self, _: &Key, _: &Metadata<'_>) -> Histogram {
        Histogram::noop()
    }
}

struct Shared(&'static Rec);
impl Recorder for Shared {
    fn describe_counter(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn describe_gauge(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn describe_histogram(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn register_counter(&self, key: &Key, m: &Metadata<'_>) -> Counter {
        self.0.register_counter(key, m)
    }
    fn register_gauge(&self, key: &Key, m: &Metadata<'_>) -> Gauge {
        self.0.register_gauge(key, m)
    }
    fn register_histogram(&self, key: &Key, m: &Metadata<'_>) -> Histogram {
        self.0.register_histogram(key, m)
    }
}

/// The recorder of the process-wide metrics. They are registered when the first scanner is made,
/// so this must come before.
fn global() -> &'static Rec {
    static ONCE: Once = Once::new();
    static mut REC: Option<&'static Rec> = None;
    ONCE.call_once(|| {
        let r: &'static Rec = Box::leak(Box::default());
        metrics::set_global_recorder(Shared(r)).ok().expect("no other recorder");
        drop(build(&[RuleM::new("first one")], Feat::default()));
        unsafe { REC = Some(r) };
    });
    #[allow(static_mut_refs)]
    unsafe {
        REC.unwrap()
    }
}

const LABELS: &[(&str, &str)] = &[("team", "a"), ("team", "b"), ("rule", "1"), ("é", "日本"), ("", ""), ("type", "x"), ("env", "prod")];

fn gen_labels(c: &mut Ctx) -> Vec<(String, String)> {
    let l = c.list(0, 3, 1, 2, |c| *c.pick(LABELS));
    l.into_iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

struct One {
    rules: Vec<RuleM>,
    rule_labels: Vec<Vec<(String, String)>>,
    labels: Vec<(String, String)>,
    comp: Compiled,
    feat: Feat,
    sc: Option<Scanner>,
}

fn join(a: &[(String, String)], b: &[(String, String)]) -> Vec<(String, String)> {
    let mut v = [a, b].concat();
    v.sort();
    v
}

/// Counters of scanners and rules: what they count is what happened in the scans, under the labels
/// of the scanner (and rule).
fn p23_counters(c: &mut Ctx) -> Res {
    let _ = global();
    let rec = Rec::default();
    let mut want: BTreeMap<Id, u64> = BTreeMap::new();
    // counters whose value is not determined
    let mut open: Vec<Id> = vec![];
    let n = c.int(1, 2);
    let mut all: Vec<One> = vec![];
    let mut evs: Vec<Ev> = vec![];
    for _ in 0..n {
        let mut k = BASE;
        k.rules = (1, 4);
        k.tree = c.chance(2, 3);
        k.scopes = k.tree && c.chance(2, 3);
        k.kw = if c.chance(1, 2) { KwKind::Exc } else { KwKind::Any };
        k.multipass = true;
        k.vals = c.chance(1, 4);
        k.enc = false;
        let mut w = gen_world(c, &k);
        match c.u(40) {
            0 => w.rules.clear(),
            1 => w.ev = Ev::List(vec![]),
            2 => w.ev = Ev::Str(String::new()),
            _ => {}
        }
        let labels = gen_labels(c);
        let rule_labels: Vec<_> = w.rules.iter().map(|_| gen_labels(c)).collect();
        note_world(c, &w);
        c.note(|| format!("labels {labels:?} rules {rule_labels:?}"));
        let Ok(comp) = compile(&w.rules) else { return c.discard() };
        let cfg: Vec<Arc<dyn RuleConfig>> =
            w.rules.iter().zip(&rule_labels).map(|(r, l)| r.config().labels(Labels::new(l)).build()).collect();
        let sc = metrics::with_local_recorder(&rec, || {
            ScannerBuilder::new(&cfg)
                .labels(Labels::new(&labels))
                .with_keywords_should_match_event_paths(w.feat.kw_paths)
                .with_implicit_wildcard_indexes_for_scopes(w.feat.implicit)
                .with_multipass_v0(w.feat.multipass)
                .build()
        })
        .map_err(|e| format!("rejected: {e:?}"))?;
        for name in ["scanned_events", "scanning.match_count"] {
            want.entry((name.into(), join(&labels, &[]))).or_default();
        }
        for (r, l) in w.rules.iter().zip(&rule_labels) {
            let l = join(&labels, l);
            want.entry(("false_positive.multipass.excluded_match".into(), l.clone())).or_default();
            if r.kw.as_ref().is_some_and(|k| !k.exc.is_empty()) {
                let id = ("false_positive.proximity_keywords".to_string(), join(&l, &[("type".into(), "excluded_keywords".into())]));
                want.entry(id.clone()).or_default();
                if r.val.is_some() && r.kw.as_ref().is_some_and(|k| k.inc.is_empty()) {
                    open.push(id);
                }
            }
        }
        evs.push(w.ev);
        all.push(One { rules: w.rules, rule_labels, labels, comp, feat: w.feat, sc: Some(sc) });
    }
    let mut some = false;
    let scans = c.list(1, 5, 3, 4, |c| (c.u(n), c.u(n), if c.chance(1, 4) { c.list(1, 3, 1, 2, |c| c.u(5)) } else { vec![] }));
    for (i, j, blocked) in scans {
        let o = &all[i];
        let Ok(exp) = scan(&o.rules, &o.comp, o.feat, &evs[j], &blocked, EncM::Utf8) else { return c.discard() };
        if exp.ambiguous {
            return c.discard();
        }
        c.note(|| format!("scan event {j} with scanner {i}, blocked {blocked:?}"));
        // recorders are looked up when a scanner is made, never when it is used
        let got = scan_real(o.sc.as_ref().unwrap(), &evs[j], &blocked, EncM::Utf8);
        if let Err(e) = compare(&exp, &got) {
            if engine_defect(&o.rules, &evs[j]) {
                return c.discard();
            }
            return Err(e);
        }
        let l = join(&o.labels, &[]);
        *want.get_mut(&("scanned_events".to_string(), l.clone())).unwrap() += 1;
        *want.get_mut(&("scanning.match_count".to_string(), l)).unwrap() += got.flat.len() as u64;
        let strings: BTreeMap<P, &String> = evs[j].strings().into_iter().collect();
        for (ri, r) in o.rules.iter().enumerate() {
            let l = join(&o.labels, &o.rule_labels[ri]);
            let n: usize = exp
                .raw
                .iter()
                .map(|(p, v)| v.iter().filter(|(x, a, b)| *x == ri && o.feat.multipass && exp.excluded.contains(&strings[p][*a..*b])).count())
                .sum();
            let id = ("false_positive.multipass.excluded_match".to_string(), l.clone());
            *want.get_mut(&id).unwrap() += n as u64;
            if n > 0 && r.kw.as_ref().is_some_and(|k| !k.inc.is_empty()) {
                // the same match may be found from several keywords, and counted for each
                open.push(id);
            }
            if let Some(k) = &r.kw {
                if !k.exc.is_empty() && k.inc.is_empty() && r.val.is_none() && !blocked.contains(&ri) {
                    let Ok(alone) = scan(std::slice::from_ref(r), &Compiled { res: vec![crate::refre::RefRegex::new(&r.pcre).unwrap()] }, o.feat, &evs[j], &[], EncM::Utf8)
                    else {
                        return c.discard();
                    };
                    let id = ("false_positive.proximity_keywords".to_string(), join(&l, &[("type".into(), "excluded_keywords".into())]));
                    *want.get_mut(&id).unwrap() += alone.rejected as u64;
                    some |= alone.rejected > 0;
                }
            }
            some |= n > 0;
        }
        some |= !got.flat.is_empty();
        if c.chance(1, 3) && all.iter().filter(|o| o.sc.is_some()).count() > 1 {
            // metrics outlive scanners; this one is not used again
            let ev = evs[j].clone();
            let o = &mut all[i];
            drop(o.sc.take());
            let rules = o.rules.clone();
            let cfg: Vec<Arc<dyn RuleConfig>> =
                rules.iter().zip(&o.rule_labels).map(|(r, l)| r.config().labels(Labels::new(l)).build()).collect();
            let sc = metrics::with_local_recorder(&rec, || {
                ScannerBuilder::new(&cfg)
                    .labels(Labels::new(&o.labels))
                    .with_keywords_should_match_event_paths(o.feat.kw_paths)
                    .with_implicit_wildcard_indexes_for_scopes(o.feat.implicit)
                    .with_multipass_v0(o.feat.multipass)
                    .build()
            })
            .map_err(|e| format!("rejected: {e:?}"))?;
            o.sc = Some(sc);
            let _ = ev;
            c.tag("scanner made again");
        }
    }
    let mut got = rec.snapshot();
    // time passes; how much is not determined
    let durations: Vec<Id> = got.keys().filter(|k| k.0 == "scanning.duration").cloned().collect();
    for o in &all {
        ensure!(durations.contains(&("scanning.duration".into(), join(&o.labels, &[]))), "no duration for {:?}", o.labels);
    }
    for d in &durations {
        got.remove(d);
    }
    for o in &open {
        let (w, g) = (want.remove(o), got.remove(o));
        if o.0.contains("multipass") {
            ensure!(g >= w, "{o:?} is {g:?}, expected at least {w:?}");
        }
    }
    for (k, w) in &want {
        let g = got.remove(k);
        ensure!(g == Some(*w), "{k:?} is {g:?}, expected {w}");
    }
    for (k, g) in &got {
        // metrics nobody described may exist, as long as the described ones are right
        let known = want.keys().any(|w| w.0 == k.0);
        ensure!(!known || *g == 0, "{k:?} is {g}, but nothing of the kind happened");
    }
    c.nontrivial = some;
    Ok(())
}

static FRESH: AtomicUsize = AtomicUsize::new(0);

fn fresh() -> RuleM {
    RuleM::new(&format!("uq{}z", FRESH.fetch_add(1, Ordering::Relaxed)))
}

/// Process-wide metrics: scanners made, dropped and alive; regexes and the memory of their caches.
fn p23_gauges(c: &mut Ctx) -> Res {
    let g = global();
    let count = |n: &str| g.get(n, &[]).unwrap_or(0);
    let (mut made, mut gone) = (count("scanner.creations"), count("scanner.deletions"));
    let mut live: Vec<(Vec<RuleM>, Scanner)> = vec![];
    let base_live = made - gone;
    ensure!(g.gauge("scanner.total_count") == base_live as f64, "total_count is {} with {base_live} scanners", g.gauge("scanner.total_count"));
    let check = |made: u64, gone: u64, what: &str| -> Res {
        ensure!(count("scanner.creations") == made, "after {what}: {} creations, expected {made}", count("scanner.creations"));
        ensure!(count("scanner.deletions") == gone, "after {what}: {} deletions, expected {gone}", count("scanner.deletions"));
        ensure!(g.gauge("scanner.total_count") == (made - gone) as f64, "after {what}: total_count {}, expected {}", g.gauge("scanner.total_count"), made - gone);
        Ok(())
    };
    let pool: Vec<RuleM> = (0..4).map(|_| fresh()).collect();
    let steps = c.list(2, 14, 5, 6, |c| c.weighted(&[5, 3, 1, 2]));
    for s in steps {
        match s {
            0 => {
                let rules = c.list(1, 4, 2, 3, |c| {
                    let mut r = if c.chance(1, 3) { fresh() } else { c.pick(&pool).clone() };
                    r.act = gen_act(c);
                    if c.chance(1, 3) {
                        r.kw = Some(KwM { look: 20, inc: vec![format!("kw{}", c.u(3))], exc: if c.chance(1, 3) { vec![format!("ex{}", c.u(3))] } else { vec![] } });
                    }
                    r
                });
                c.note(|| format!("create {:?}", rules.iter().map(|r| &r.pattern).collect::<Vec<_>>()));
                let sc = build(&rules, Feat::default()).map_err(|e| format!("rejected: {e:?}"))?;
                live.push((rules, sc));
                made += 1;
                check(made, gone, "a creation")?;
            }
            1 if !live.is_empty() => {
                let i = c.u(live.len());
                c.note(|| format!("drop {i}"));
                live.remove(i);
                gone += 1;
                check(made, gone, "a deletion")?;
            }
            2 => {
                c.note(|| "create with an invalid rule".into());
                let mut rules: Vec<RuleM> = vec![c.pick(&pool).clone()];
                rules.push(RuleM::new("("));
                ensure!(build(&rules, Feat::default()).is_err(), "an invalid rule was accepted");
                check(made, gone, "a failed creation")?;
            }
            _ => {
                if let Some((rules, sc)) = live.last() {
                    let mut e = format!("{} x", rules[0].pattern);
                    sc.scan(&mut e, vec![]);
                    check(made, gone, "a scan")?;
                }
            }
        }
    }
    // Regexes nobody uses any more are forgotten after some more were made.
    let mut prev = g.gauge("scanner.total_regexes");
    let mut hit = false;
    for _ in 0..4000 {
        let size = g.gauge("scanner.total_regex_cache_size");
        let sc = build(&[fresh()], Feat::default()).map_err(|e| format!("rejected: {e:?}"))?;
        made += 1;
        let now = g.gauge("scanner.total_regexes");
        let size2 = g.gauge("scanner.total_regex_cache_size");
        ensure!(size2 > 0.0, "regexes have caches of {size2} bytes");
        if now <= prev {
            // of this process, the regexes of these rules and keywords are in use, and the new one
            let mut used: std::collections::BTreeSet<String> = Default::default();
            for (rules, _) in &live {
                for r in rules {
                    used.insert(r.pattern.clone());
                    if let Some(k) = &r.kw {
                        // each list of keywords has two: for texts and for paths
                        for l in [&k.inc, &k.exc] {
                            if !l.is_empty() {
                                used.insert(format!("text {l:?}"));
                                used.insert(format!("path {l:?}"));
                            }
                        }
                    }
                }
            }
            let (lo, hi) = (live.iter().flat_map(|l| &l.0).map(|r| r.pattern.clone()).collect::<std::collections::BTreeSet<_>>().len() + 1, used.len() + 1);
            ensure!((lo as f64) <= now && now <= hi as f64, "{now} regexes are kept, but between {lo} and {hi} are used");
            ensure!(size2 <= size, "{prev} regexes became {now}, but their caches went from {size} to {size2} bytes");
            hit = true;
            drop(sc);
            gone += 1;
            break;
        }
        ensure!(size2 > size, "one more regex, but the caches went from {size} to {size2} bytes");
        prev = now;
        drop(sc);
        gone += 1;
    }
    ensure!(hit, "regexes are never forgotten: {prev} of them");
    check(made, gone, "many creations and deletions")?;
    // what remains are the new one and those in use
    c.nontrivial = !live.is_empty() && gone > 0;
    Ok(())
}

/// Scanners made, dropped and alive: of any size, with any error, from several threads.
fn p23_lives(c: &mut Ctx) -> Res {
    let g = global();
    let count = |n: &str| g.get(n, &[]).unwrap_or(0);
    let (mut made, mut gone) = (count("scanner.creations"), count("scanner.deletions"));
    let mut live: Vec<Scanner> = vec![];
    let steps = c.list(1, 10, 4, 5, |c| c.weighted(&[4, 3, 4, 1]));
    let mut failed = 0;
    for s in steps {
        let n = match c.u(6) {
            0 => 0,
            1 => *c.pick(&[10, 33, 64, 65, 130, 300]),
            _ => c.int(1, 5),
        };
        let mut rules: Vec<RuleM> = (0..n).map(|i| RuleM::new(*c.pick(&["abc", "\\d+", "x[yz]", "q"][i % 4..]))).collect();
        let what = match s {
            0 => {
                live.push(build(&rules, Feat::default()).map_err(|e| format!("rejected: {e:?}"))?);
                made += 1;
                format!("the creation of a scanner with {n} rules")
            }
            1 if !live.is_empty() => {
                let i = c.u(live.len());
                drop(live.remove(i));
                gone += 1;
                "a deletion".to_string()
            }
            2 => {
                let (bad, kind) = match c.u(4) {
                    0 => (RuleM::new("("), "syntax"),
                    1 => (RuleM::new("a*"), "empty match"),
                    2 => (RuleM { kw: Some(KwM { look: 2, inc: vec!["long".into()], exc: vec![] }), ..RuleM::new("a") }, "keyword"),
                    _ => (RuleM { act: Act::First(0), ..RuleM::new("a") }, "action"),
                };
                rules.insert(c.u(n + 1), bad);
                ensure!(build(&rules, Feat::default()).is_err(), "an invalid rule ({kind}) was accepted");
                failed += 1;
                format!("a creation with {} rules that failed: {kind}", rules.len())
            }
            3 => {
                let (threads, each) = (c.int(2, 4), c.int(1, 6));
                std::thread::scope(|s| {
                    for _ in 0..threads {
                        s.spawn(|| {
                            for _ in 0..each {
                                drop(build(&rules, Feat::default()));
                            }
                        });
                    }
                });
                made += (threads * each) as u64;
                gone += (threads * each) as u64;
                format!("{each} creations and deletions in each of {threads} threads")
            }
            _ => continue,
        };
        c.note(|| what.clone());
        ensure!(count("scanner.creations") == made, "after {what}: {} creations, expected {made}", count("scanner.creations"));
        ensure!(count("scanner.deletions") == gone, "after {what}: {} deletions, expected {gone}", count("scanner.deletions"));
        ensure!(g.gauge("scanner.total_count") == (made - gone) as f64, "after {what}: total_count {}, expected {}", g.gauge("scanner.total_count"), made - gone);
    }
    c.nontrivial = failed > 0 || !live.is_empty();
    Ok(())
}

/// The memory for caches comes back: it is the same every time everything else is gone.
fn p23_caches(c: &mut Ctx) -> Res {
    let g = global();
    let settle = || -> Result<f64, String> {
        for _ in 0..4000 {
            let prev = g.gauge("scanner.total_regexes");
            let r = RuleM::new(&format!("uq{:08}z", FRESH.fetch_add(1, Ordering::Relaxed)));
            let sc = build(&[r], Feat::default()).map_err(|e| format!("rejected: {e:?}"))?;
            let now = g.gauge("scanner.total_regexes");
            let size = g.gauge("scanner.total_regex_cache_size");
            drop(sc);
            if now <= prev {
                ensure!(now == 1.0, "{now} regexes are kept, but only one is used");
                return Ok(size);
            }
        }
        Err("regexes are never forgotten".into())
    };
    let before = settle()?;
    let n = c.int(1, 6);
    let rules: Vec<RuleM> = (0..n)
        .map(|_| {
            let mut r = gen_rule(c, &BASE, &[]).m;
            r.kw = gen_kw(c, KwKind::Any);
            if c.chance(1, 4) {
                // a regex with a large cache
                r.pattern = format!("uq\\w{{{}}}z", c.int(20, 400));
            }
            r
        })
        .collect();
    c.note(|| format!("{:?}", rules.iter().map(|r| (&r.pattern, &r.kw)).collect::<Vec<_>>()));
    for _ in 0..c.int(1, 3) {
        let a = build(&rules, Feat::default()).map_err(|e| format!("rejected: {e:?}"))?;
        let b = build(&rules[..c.int(1, n)], Feat::default()).map_err(|e| format!("rejected: {e:?}"))?;
        let mut e = "id ab 123 test".to_string();
        a.scan(&mut e, vec![]);
        if c.chance(1, 2) {
            drop(a);
            drop(b);
        } else {
            drop(b);
            drop(a);
        }
    }
    let after = settle()?;
    ensure!(before == after, "the caches take {after} bytes, before it was {before}");
    c.nontrivial = true;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P23",
        rule: "something was counted in the scans; scanners were dropped while others are alive",
        parts: vec![
            Part { name: "gauges", case: p23_gauges, quick: 60, thorough: 1000, threads: 1 },
            Part { name: "lives", case: p23_lives, quick: 600, thorough: 20_000, threads: 1 },
            Part { name: "caches", case: p23_caches, quick: 40, thorough: 1000, threads: 1 },
            Part { name: "counters", case: p23_counters, quick: 20_000, thorough: 500_000, threads: 8 },
        ],
        assumptions: &[
            "no other scanners exist in the process while the process-wide metrics are observed",
            "left open: how often a match is counted that is found from several keywords, and the time",
        ],
    }]
}
