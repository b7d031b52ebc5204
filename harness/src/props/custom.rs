//! P25: rule types of the user's own, next to regex rules.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use ahash::AHashSet;
use dd_sds::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

/// What a rule saw when it was asked about a string.
#[derive(Clone, Debug)]
struct Asked {
    rule: usize,
    path: P,
    content: String,
    excluded: bool,
    kw_paths: bool,
    /// earlier entries in the data it was given: rules of this string, rules of the scanner, and
    /// rules and paths of this scan
    group: Vec<usize>,
    group_labels: Labels,
    config: Vec<usize>,
    cache: Vec<(usize, P)>,
}

#[derive(Default, Debug)]
struct Log {
    asked: Vec<Asked>,
    dropped: Vec<usize>,
    compiled: Vec<(usize, Labels)>,
}

#[derive(Clone)]
struct Def {
    m: RuleM,
    word: String,
    /// Which of two types of data each kind of its data has.
    types: (usize, usize, usize),
    multipass: bool,
    collects: bool,
    backwards: bool,
    /// It cannot be created.
    fails: bool,
    log: Arc<Mutex<Log>>,
}

/// Every place the word occurs at, also overlapping ones.
fn places(s: &str, w: &str) -> Vec<(usize, usize)> {
    s.char_indices().filter(|(i, _)| s[*i..].starts_with(w)).map(|(i, _)| (i, i + w.len())).collect()
}

struct Gd<const N: usize>(Vec<usize>, Labels);
struct Gc<const N: usize>(Vec<usize>);
struct Rc<const N: usize>(Vec<(usize, P)>);

struct Word<const G: usize, const C: usize, const S: usize> {
    d: Def,
    index: usize,
    act: MatchAction,
    scope: Scope,
    valid: Option<MatchValidationType>,
    ivalid: Option<InternalMatchValidationType>,
}

impl<const G: usize, const C: usize, const S: usize> CompiledRule for Word<G, C, S> {
    type GroupData = Gd<G>;
    type GroupConfig = Gc<C>;
    type RuleScanCache = Rc<S>;
    fn create_group_data(labels: &Labels) -> Gd<G> {
        Gd(vec![], labels.clone())
    }
    fn create_group_config() -> Gc<C> {
        Gc(vec![])
    }
    fn create_rule_scan_cache() -> Rc<S> {
        Rc(vec![])
    }
    fn get_match_action(&self) -> &MatchAction {
        &self.act
    }
    fn get_scope(&self) -> &Scope {
        &self.scope
    }
    fn get_string_matches(
        &self,
        content: &str,
        path: &Path,
        _: &mut RegexCaches,
        group_data: &mut Gd<G>,
        group_config: &Gc<C>,
        cache: &mut Rc<S>,
        exclusion_check: &ExclusionCheck<'_>,
        excluded_matches: &mut AHashSet<String>,
        emitter: &mut dyn MatchEmitter,
        _: &[usize],
        kw_paths: bool,
    ) {
        let excluded = exclusion_check.is_excluded(self.index);
        let p = model_path(path);
        self.d.log.lock().unwrap().asked.push(Asked {
            rule: self.index,
            path: p.clone(),
            content: content.to_string(),
            excluded,
            kw_paths,
            group: group_data.0.clone(),
            group_labels: group_data.1.clone(),
            config: group_config.0.clone(),
            cache: cache.0.clone(),
        });
        group_data.0.push(self.index);
        cache.0.push((self.index, p));
        let mut v = places(content, &self.d.word);
        if self.d.backwards {
            v.reverse();
        }
        for (start, end) in v {
            if !excluded {
                emitter.emit(StringMatch { start, end });
            } else if self.d.collects {
                excluded_matches.insert(content[start..end].to_string());
            }
        }
    }
    fn should_exclude_multipass_v0(&self) -> bool {
        self.d.multipass
    }
    fn on_excluded_match_multipass_v0(&self) {
        self.d.log.lock().unwrap().dropped.push(self.index);
    }
    fn get_match_validation_type(&self) -> Option<&MatchValidationType> {
        self.valid.as_ref()
    }
    fn get_internal_match_validation_type(&self) -> Option<&InternalMatchValidationType> {
        self.ivalid.as_ref()
    }
    fn process_scanner_config(&self, c: &mut Gc<C>) {
        c.0.push(self.index);
    }
}

struct Conf(Def, Option<MatchValidationType>);

impl RuleConfig for Conf {
    fn convert_to_compiled_rule(&self, index: usize, labels: Labels) -> Result<Box<dyn CompiledRuleDyn>, CreateScannerError> {
        let d = self.0.clone();
        if d.fails {
            // errors of their own cannot be made, so this borrows one
            return RegexRuleConfig::new("(").convert_to_compiled_rule(index, labels);
        }
        d.log.lock().unwrap().compiled.push((index, labels));
        macro_rules! make {
            ($g:literal $c:literal $s:literal) => {
                Box::new(Word::<$g, $c, $s> {
                    index,
                    act: d.m.act.real(),
                    scope: d.m.scope.real(),
                    valid: self.1.clone(),
                    ivalid: self.get_internal_match_validation_type(),
                    d,
                })
            };
        }
        Ok(match d.types {
            (0, 0, 0) => make!(0 0 0),
            (0, 0, _) => make!(0 0 1),
            (0, _, 0) => make!(0 1 0),
            (0, _, _) => make!(0 1 1),
            (_, 0, 0) => make!(1 0 0),
            (_, 0, _) => make!(1 0 1),
            (_, _, 0) => make!(1 1 0),
            _ => make!(1 1 1),
        })
    }
    fn get_match_validation_type(&self) -> Option<&MatchValidationType> {
        self.1.as_ref()
    }
}

enum R {
    Own(Def),
    Regex(RuleM),
}

impl R {
    fn m(&self) -> &RuleM {
        match self {
            R::Own(d) => &d.m,
            R::Regex(m) => m,
        }
    }
}

const WORDS: &[&str] = &["a", "ab", "aba", "é", "éa", "b", "日本", "aa", "1"];

fn p25(c: &mut Ctx) -> Res {
    let mut k = BASE;
    k.rules = (1, 6);
    k.tree = c.chance(3, 4);
    k.scopes = k.tree;
    k.multipass = true;
    k.kw_paths = c.chance(1, 4);
    k.implicit = c.chance(1, 2);
    k.http = c.chance(1, 2);
    let w = gen_world(c, &k);
    let log: Arc<Mutex<Log>> = Default::default();
    let mut fail = None;
    let rules: Vec<R> = w
        .rules
        .iter()
        .enumerate()
        .map(|(i, r)| {
            let word = c.pick(WORDS).to_string();
            if c.chance(1, 4) {
                // as regex rules find them: not overlapping
                let mut m = RuleM::new(&word);
                (m.act, m.scope, m.http) = (r.act.clone(), r.scope.clone(), r.http);
                return R::Regex(m);
            }
            let fails = c.chance(1, 60);
            if fails && fail.is_none() {
                fail = Some(i);
            }
            R::Own(Def {
                m: r.clone(),
                word,
                types: (c.u(2), c.u(2), c.u(2)),
                multipass: c.chance(1, 2),
                collects: c.chance(2, 3),
                backwards: c.chance(1, 3),
                fails,
                log: log.clone(),
            })
        })
        .collect();
    // the texts are made of the words
    let mut ev = w.ev.clone();
    let paths: Vec<P> = ev.strings().into_iter().map(|x| x.0).collect();
    for p in &paths {
        let t = c.list(0, 8, 4, 5, |c| if c.chance(1, 4) { " " } else { c.pick(WORDS) });
        *ev.get_mut(p).unwrap() = t.concat();
    }
    let labels: Vec<(String, String)> = c.list(0, 2, 1, 2, |c| c.pick(&["x", "y"]).to_string()).into_iter().map(|x| (x.clone(), x)).collect();
    let labels = Labels::new(&labels);
    let blocked: Vec<usize> = c.list(0, 2, 1, 3, |c| c.u(w.rules.len()));
    c.note(|| {
        let r: Vec<_> = rules
            .iter()
            .map(|r| match r {
                R::Own(d) => format!(
                    "own {:?} act {:?} scope {:?} types {:?} multipass {} collects {} backwards {} fails {} http {}",
                    d.word, d.m.act, d.m.scope, d.types, d.multipass, d.collects, d.backwards, d.fails, d.m.http
                ),
                R::Regex(m) => format!("regex {:?} act {:?} scope {:?} http {}", m.pattern, m.act, m.scope, m.http),
            })
            .collect();
        format!("rules {r:#?} {:?} blocked {blocked:?} encoding {:?} event {ev:?}", w.feat, w.enc)
    });
    let cfg: Vec<Arc<dyn RuleConfig>> = rules
        .iter()
        .map(|r| -> Arc<dyn RuleConfig> {
            match r {
                R::Own(d) => {
                    let v = d.m.config().get_match_validation_type().cloned();
                    let conf = Conf(d.clone(), v);
                    if d.backwards {
                        // a boxed configuration is one as well
                        Arc::new(Box::new(conf))
                    } else {
                        Arc::new(conf)
                    }
                }
                R::Regex(m) => m.config().build(),
            }
        })
        .collect();
    let built = ScannerBuilder::new(&cfg)
        .labels(labels.clone())
        .with_keywords_should_match_event_paths(w.feat.kw_paths)
        .with_implicit_wildcard_indexes_for_scopes(w.feat.implicit)
        .with_multipass_v0(w.feat.multipass)
        .build();
    let sc = match (built, fail) {
        (Err(CreateScannerError::InvalidRegex(_)), Some(_)) => {
            c.tag("a rule cannot be created");
            return Ok(());
        }
        (Err(e), _) => return Err(format!("rejected: {e:?}")),
        (Ok(_), Some(_)) => return Err("created although one of its rules cannot be".into()),
        (Ok(sc), None) => sc,
    };
    let own: Vec<usize> = (0..rules.len()).filter(|i| matches!(rules[*i], R::Own(_))).collect();
    {
        let l = log.lock().unwrap();
        let mut got: Vec<usize> = l.compiled.iter().map(|x| x.0).collect();
        got.sort();
        ensure!(got == own, "compiled with the indexes {got:?}, expected {own:?}");
        ensure!(l.compiled.iter().all(|x| x.1 == labels), "compiled with the labels {:?}", l.compiled);
    }

    // the model
    let strings = ev.strings();
    let mut excluded: BTreeSet<String> = BTreeSet::new();
    let mut raw: BTreeMap<P, Vec<(usize, usize, usize)>> = BTreeMap::new();
    let mut asked: BTreeMap<(P, usize), bool> = BTreeMap::new();
    for (path, s) in &strings {
        for (i, r) in rules.iter().enumerate() {
            let cov = cover(&r.m().scope, path, w.feat.implicit);
            if blocked.contains(&i) || cov == Cover::No {
                continue;
            }
            let (found, collects) = match r {
                R::Own(d) => {
                    asked.insert((path.clone(), i), cov == Cover::Excluded);
                    (places(s, &d.word), d.collects)
                }
                R::Regex(m) => {
                    let mut v: Vec<(usize, usize)> = vec![];
                    for (a, b) in places(s, &m.pattern) {
                        if v.last().is_none_or(|l| l.1 <= a) {
                            v.push((a, b));
                        }
                    }
                    (v, true)
                }
            };
            if cov == Cover::Scanned {
                raw.entry(path.clone()).or_default().extend(found.iter().map(|(a, b)| (i, *a, *b)));
            } else if collects {
                excluded.extend(found.iter().map(|(a, b)| s[*a..*b].to_string()));
            }
        }
    }
    let ms: Vec<RuleM> = rules.iter().map(|r| r.m().clone()).collect();
    let returns = ms.iter().any(|m| m.http);
    let mut want_ev = ev.clone();
    let mut want = BTreeMap::new();
    let mut want_dropped: Vec<usize> = vec![];
    let mut overlaps = false;
    for (path, s) in &strings {
        let mut list: Vec<_> = raw.get(path).cloned().unwrap_or_default();
        list.retain(|(i, a, b)| {
            let opted = match &rules[*i] {
                R::Own(d) => d.multipass,
                R::Regex(_) => true,
            };
            let drop = w.feat.multipass && opted && excluded.contains(&s[*a..*b]);
            if drop && matches!(rules[*i], R::Own(_)) {
                want_dropped.push(*i);
            }
            !drop
        });
        let kept = resolve_overlaps(&ms, &mut list);
        overlaps |= kept.len() < list.len();
        let (text, found) = apply(&ms, path, s, &kept, w.enc, returns);
        *want_ev.get_mut(path).unwrap() = text;
        if !found.is_empty() {
            want.insert(path.clone(), found);
        }
    }
    want_dropped.sort();

    // twice: nothing is carried over from one scan to the next
    for round in 0..2 {
        {
            let mut l = log.lock().unwrap();
            l.asked.clear();
            l.dropped.clear();
        }
        let got = scan_real(&sc, &ev, &blocked, w.enc);
        ensure!(got.matches == want, "scan {round}: matches {:?}, expected {want:?}", got.matches);
        ensure!(got.event == want_ev, "scan {round}: event {:?}, expected {want_ev:?}", got.event);
        let mut l = log.lock().unwrap();
        l.dropped.sort();
        ensure!(l.dropped == want_dropped, "scan {round}: told about dropped matches {:?}, expected {want_dropped:?}", l.dropped);
        let types = |i: usize| match &rules[i] {
            R::Own(d) => d.types,
            _ => unreachable!(),
        };
        let mut seen: BTreeMap<(P, usize), bool> = BTreeMap::new();
        let text: BTreeMap<&P, &String> = strings.iter().map(|(p, s)| (p, *s)).collect();
        for (n, a) in l.asked.iter().enumerate() {
            let what = format!("scan {round}: rule {} at {:?}", a.rule, a.path);
            ensure!(seen.insert((a.path.clone(), a.rule), a.excluded).is_none(), "{what}: asked twice");
            ensure!(text.get(&a.path) == Some(&&a.content), "{what}: given {:?}", a.content);
            ensure!(a.kw_paths == w.feat.kw_paths, "{what}: told keywords in paths {}", a.kw_paths);
            ensure!(a.group_labels == labels, "{what}: data made with {:?}", a.group_labels);
            let (tg, tc, ts) = types(a.rule);
            let before = &l.asked[..n];
            let g: Vec<usize> = before.iter().filter(|b| b.path == a.path && types(b.rule).0 == tg).map(|b| b.rule).collect();
            ensure!(a.group == g, "{what}: the data of the string was used by {:?}, expected {g:?}", a.group);
            let s: Vec<(usize, P)> = before.iter().filter(|b| types(b.rule).2 == ts).map(|b| (b.rule, b.path.clone())).collect();
            ensure!(a.cache == s, "{what}: the data of the scan was used by {:?}, expected {s:?}", a.cache);
            let v: Vec<usize> = own.iter().copied().filter(|i| types(*i).1 == tc).collect();
            ensure!(a.config == v, "{what}: the scanner's data knows {:?}, expected {v:?}", a.config);
        }
        ensure!(seen == asked, "scan {round}: rules asked (and excluded) {seen:?}, expected {asked:?}");
        c.extra_evals += 1;
    }
    c.nontrivial = own.len() > 1 && want.len() > 0 && l_shared(&asked, &rules);
    if overlaps {
        c.tag("overlapping matches");
    }
    if !want_dropped.is_empty() {
        c.tag("dropped by multipass");
    }
    if asked.values().any(|x| *x) {
        c.tag("asked at an excluded path");
    }
    Ok(())
}

/// Two rules with the same type of data are asked about one string.
fn l_shared(asked: &BTreeMap<(P, usize), bool>, rules: &[R]) -> bool {
    let mut n: BTreeSet<(&P, usize)> = BTreeSet::new();
    asked.keys().any(|(p, i)| match &rules[*i] {
        R::Own(d) => !n.insert((p, d.types.0)),
        _ => false,
    })
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P25",
        rule: "rules that share data are asked about a string, and there are matches",
        parts: vec![Part { name: "custom", case: p25, quick: 40_000, thorough: 1_000_000, threads: 8 }],
        assumptions: &["the order in which rules are asked about a string is left open"],
    }]
}
