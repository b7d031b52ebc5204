//! P14 (HTTP match validation), P15 (AWS match validation), P16 (what validate_matches keeps).

use crate::engine::*;
use crate::ensure;
use crate::server::*;
use dd_sds::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::ops::Range;
use std::sync::Arc;
use std::time::Duration;

/// What a status means, ordered as the merged result is: the highest wins.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum St {
    NotChecked,
    NotAvailable,
    Invalid,
    Error,
    Valid,
}

fn st(s: &MatchStatus) -> St {
    match s {
        MatchStatus::NotChecked => St::NotChecked,
        MatchStatus::NotAvailable => St::NotAvailable,
        MatchStatus::Invalid => St::Invalid,
        MatchStatus::Error(_) => St::Error,
        MatchStatus::Valid => St::Valid,
    }
}

#[derive(Clone, Debug)]
struct Http {
    /// Indices into the endpoint names of the case, through `$HOST` or directly.
    group: usize,
    method: usize,
    headers: Option<Vec<(String, String)>>,
    valid: Option<Vec<Range<u16>>>,
    invalid: Option<Vec<Range<u16>>>,
    timeout_ms: u64,
}

#[derive(Clone, Debug)]
enum Kind {
    Plain,
    Http(Http),
}

const METHODS: &[(&str, HttpMethod)] = &[
    ("GET", HttpMethod::Get),
    ("POST", HttpMethod::Post),
    ("PUT", HttpMethod::Put),
    ("DELETE", HttpMethod::Delete),
    ("PATCH", HttpMethod::Patch),
];

/// The endpoints of a group: (template, hosts).
#[derive(Clone, Debug)]
struct Group {
    template: String,
    hosts: Vec<String>,
}

impl Group {
    fn urls(&self) -> Vec<String> {
        if self.hosts.is_empty() {
            vec![self.template.clone()]
        } else {
            self.hosts.iter().map(|h| self.template.replace("$HOST", h)).collect()
        }
    }
}

fn gen_ranges(c: &mut Ctx) -> Vec<Range<u16>> {
    c.list(0, 3, 2, 3, |c| {
        let a = *c.pick(&[200u16, 201, 204, 299, 300, 400, 401, 403, 404, 429, 500, 503]);
        let l = *c.pick(&[1u16, 1, 0, 2, 100, 5]);
        a..a + l
    })
}

fn gen_http(c: &mut Ctx, groups: usize) -> Http {
    let headers = if c.chance(1, 3) {
        None
    } else {
        Some(c.list(0, 3, 2, 3, |c| {
            let k = c.pick(&["X-Key", "Authorization", "DD-API-KEY", "x-other", "X-Key"]).to_string();
            let v = c.pick(&["$MATCH", "Bearer $MATCH", "token=$MATCH;again=$MATCH", "fixed", "a$MATCHb", "$MATC", "$$MATCH", "$match", "", "é $MATCH", "$HOST", "$MATCH$MATCH"]).to_string();
            (k, v)
        }))
    };
    Http {
        group: c.u(groups),
        method: c.u(METHODS.len()),
        headers,
        valid: if c.chance(1, 2) { None } else { Some(gen_ranges(c)) },
        invalid: if c.chance(1, 2) { None } else { Some(gen_ranges(c)) },
        timeout_ms: 60_000,
    }
}

fn http_config(h: &Http, g: &Group) -> Result<MatchValidationType, String> {
    let mut b = HttpValidatorConfigBuilder::new(g.template.clone());
    b.set_hosts(g.hosts.clone()).set_method(METHODS[h.method].1.clone()).set_timeout(Duration::from_millis(h.timeout_ms));
    if let Some(x) = &h.headers {
        b.set_request_header(x.iter().map(|(k, v)| RequestHeader { key: k.clone(), value: v.clone() }).collect());
    }
    if let Some(v) = &h.valid {
        b.set_valid_http_status_code(v.clone());
    }
    if let Some(v) = &h.invalid {
        b.set_invalid_http_status_code(v.clone());
    }
    b.build().map(MatchValidationType::CustomHttp)
}

#[allow(clippy::single_range_in_vec_init)]
fn class(h: &Http, status: u16) -> St {
    let valid = h.valid.clone().unwrap_or(vec![200..300]);
    let invalid = h.invalid.clone().unwrap_or(vec![400..500]);
    if valid.iter().any(|r| r.start <= status && status < r.end) {
        St::Valid
    } else if invalid.iter().any(|r| r.start <= status && status < r.end) {
        St::Invalid
    } else {
        St::Error
    }
}

const STATUSES: &[u16] = &[200, 200, 403, 401, 404, 500, 503, 204, 201, 299, 300, 302, 400, 429, 499, 502, 599, 304];

/// Everything a rule finds starts with its letter, so that a value tells which rule it is of.
fn pattern(i: usize) -> String {
    format!("{}[0-9]{{4}}", (b'A' + i as u8) as char)
}

/// What stands around the letter and digits of a rule's matches, as a pattern and as text.
const WRAPS: &[(&str, &str, &str, &str)] = &[
    ("", "", "", ""),
    (" ", " ", " ", " "),
    ("", "", " {2}", "  "),
    ("\t", "\t", "\t", "\t"),
    ("\"é", "\"é", "’\"", "’\""),
    ("\\$MATCH", "$MATCH", "", ""),
    ("", "", "\\$HOST\\$MATCH", "$HOST$MATCH"),
    ("%41&", "%41&", "=#/", "=#/"),
];

/// Wraps that make the match long.
fn long_wrap(c: &mut Ctx) -> (&'static str, &'static str, &'static str, &'static str) {
    static LONG: std::sync::OnceLock<Vec<(String, String)>> = std::sync::OnceLock::new();
    let l = LONG.get_or_init(|| [60, 120, 250, 510, 1020, 2500].iter().map(|n| (format!("y{{{n}}}"), "y".repeat(*n))).collect());
    let w = c.pick(l);
    if c.chance(1, 2) {
        (&w.0, &w.1, "", "")
    } else {
        ("", "", &w.0, &w.1)
    }
}

fn words(c: &mut Ctx, rules: usize, max: usize) -> Vec<String> {
    c.list(1, max, 3, 4, |c| {
        let r = c.u(rules);
        format!("{}{:04}", (b'A' + r as u8) as char, c.u(30))
    })
}

/// Now and then far more values, of which most differ.
fn many_words(c: &mut Ctx, rules: usize, max: usize) -> Vec<String> {
    if !c.chance(1, 50) {
        return words(c, rules, max);
    }
    let n = *c.pick(&[20, 64, 65, 100, 129, 257, 300][..if max == 4 { 3 } else { 7 }]);
    let (r, by, of) = (c.u(rules), c.int(0, 3), *c.pick(&[9000, 100, 7]));
    c.tag("many matches");
    (0..n).map(|i| format!("{}{:04}", (b'A' + ((r + i * by) % rules) as u8) as char, i * 13 % of)).collect()
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Seen {
    method: String,
    url: String,
    headers: Vec<(String, String)>,
}

fn p14(c: &mut Ctx) -> Res {
    let id = Corner::next_id();
    let base = Corner::base(id);
    let ngroups = if c.chance(1, 20) { c.int(3, 10) } else { c.int(1, 2) };
    let groups: Vec<Group> = (0..ngroups)
        .map(|g| match c.u(5) {
            0 | 1 => Group { template: format!("{base}/g{g}/$HOST"), hosts: c.list(1, 3, 2, 3, |c| c.pick(&["us", "eu", "ap1"]).to_string()) },
            2 => Group { template: format!("{base}/g{g}/$HOST/x/$HOST?h=1"), hosts: vec!["us".into(), "eu".into()] },
            _ => Group { template: format!("{base}/g{g}"), hosts: vec![] },
        })
        .collect();
    let n = if ngroups > 2 { c.int(ngroups, 14) } else { c.int(1, 4) };
    let rules: Vec<Kind> = (0..n).map(|_| if c.chance(1, 6) { Kind::Plain } else { Kind::Http(gen_http(c, ngroups)) }).collect();
    let ws = many_words(c, n, 5);
    // what a rule matches is its word with something around
    let wraps: Vec<_> = (0..n).map(|_| match c.weighted(&[20, 8, 1]) { 0 => WRAPS[0], 1 => *c.pick(WRAPS), _ if ws.len() <= 10 => long_wrap(c), _ => WRAPS[0] }).collect();
    let full = |w: &str| {
        let x = wraps[(w.as_bytes()[0] - b'A') as usize];
        format!("{}{w}{}", x.1, x.3)
    };
    // status of each (url, value); the default is the first
    let mut table: BTreeMap<(String, String), Answer> = BTreeMap::new();
    for w in &ws {
        for g in &groups {
            for u in g.urls() {
                if ws.len() > 10 && !table.is_empty() {
                    // every one depends on the value
                    let x = w.bytes().chain(u.bytes()).fold(7usize, |x, b| (x * 31 + b as usize) % 8191);
                    table.entry((u, w.clone())).or_insert(Answer::Status(STATUSES[x % STATUSES.len()]));
                    continue;
                }
                let a = if c.chance(1, 25) { Answer::Close } else { Answer::Status(*c.pick(STATUSES)) };
                table.entry((u, w.clone())).or_insert(a);
            }
        }
    }
    c.note(|| format!("groups {groups:?}\nrules {rules:?}\naround the words {wraps:?}\ntext {ws:?}\nanswers {:?}", table.iter().map(|((u, w), a)| format!("{} {w}: {a:?}", &u[base.len()..])).collect::<Vec<_>>()));
    let fixed = *c.pick(STATUSES);
    let mut cfg: Vec<Arc<dyn RuleConfig>> = vec![];
    for (i, k) in rules.iter().enumerate() {
        let mut r = RegexRuleConfig::new(&format!("{}{}{}", wraps[i].0, pattern(i), wraps[i].2));
        if c.chance(1, 2) {
            r = r.match_action(MatchAction::Redact { replacement: "[x]".into() });
        }
        if let Kind::Http(h) = k {
            r = r.match_validation_type(http_config(h, &groups[h.group])?);
        }
        cfg.push(r.build());
    }
    let sc = ScannerBuilder::new(&cfg).build().map_err(|e| format!("rejected: {e:?}"))?;
    let t2 = table.clone();
    let (b2, w2) = (base.clone(), ws.clone());
    let corner = Corner::new(
        id,
        Box::new(move |q: &Req| {
            let url = format!("{b2}/{}", q.path);
            let all: Vec<String> = q.headers.iter().map(|(_, v)| String::from_utf8_lossy(v).into_owned()).collect();
            match w2.iter().find(|w| all.iter().any(|v| v.contains(w.as_str()))) {
                Some(w) => *t2.get(&(url, w.clone())).unwrap_or(&Answer::Status(599)),
                None => Answer::Status(fixed),
            }
        }),
    );
    let mut ev = ws.iter().map(|w| full(w)).collect::<Vec<_>>().join(", ");
    let mut ms = sc.scan(&mut ev, vec![]);
    ensure!(ms.len() == ws.len(), "{} matches for {ws:?}", ms.len());
    for (m, w) in ms.iter().zip(&ws) {
        let k = &rules[m.rule_index];
        let want = if matches!(k, Kind::Plain) { St::NotAvailable } else { St::NotChecked };
        ensure!(st(&m.match_status) == want, "status after the scan: {:?}", m.match_status);
        if rules.iter().any(|k| matches!(k, Kind::Http(_))) {
            ensure!(m.match_value == Some(full(w)), "match value {:?} of {w}", m.match_value);
        }
    }
    let r = no_panic("validate_matches", || sc.validate_matches(&mut ms))?;
    if rules.iter().all(|k| matches!(k, Kind::Plain)) {
        ensure!(r.is_err(), "validation without validators succeeded");
        return c.discard();
    }
    ensure!(r.is_ok(), "validation failed");
    // what has to be sent, and what comes back
    let mut want_reqs: BTreeSet<Seen> = BTreeSet::new();
    let mut sent = 0;
    ensure!(ms.len() == ws.len(), "{} matches left of {}", ms.len(), ws.len());
    for (m, w) in ms.iter().zip(&ws) {
        ensure!((b'A' + m.rule_index as u8) == w.as_bytes()[0], "the matches were reordered");
        let Kind::Http(h) = &rules[m.rule_index] else {
            ensure!(st(&m.match_status) == St::NotAvailable, "{w}: {:?} without match validation", m.match_status);
            continue;
        };
        let hs = h.headers.clone().unwrap_or(vec![("Authorization".into(), "Bearer $MATCH".into())]);
        let hs: Vec<(String, String)> = hs.iter().map(|(k, v)| (k.to_lowercase(), v.split("$MATCH").collect::<Vec<_>>().join(&full(w)).trim().to_string())).collect();
        let tells = hs.iter().any(|(_, v)| v.contains(w));
        let mut best = St::NotChecked;
        let mut all = vec![];
        for u in groups[h.group].urls() {
            let a = if tells { table[&(u.clone(), w.clone())] } else { Answer::Status(fixed) };
            let s = match a {
                Answer::Status(s) => class(h, s),
                _ => St::Error,
            };
            all.push((u[base.len()..].to_string(), a, s));
            best = best.max(s);
            sent += 1;
            want_reqs.insert(Seen { method: METHODS[h.method].0.into(), url: u, headers: hs.clone() });
        }
        ensure!(st(&m.match_status) == best, "{w}: {:?}, but the endpoints gave {all:?}", m.match_status);
        c.tag(match best {
            St::Valid => "valid",
            St::Invalid => "invalid",
            _ => "error",
        });
    }
    let known: BTreeSet<String> = rules
        .iter()
        .filter_map(|k| match k {
            Kind::Http(h) => Some(h.headers.clone().map_or(vec!["authorization".to_string()], |x| x.iter().map(|(k, _)| k.to_lowercase()).collect())),
            _ => None,
        })
        .flatten()
        .collect();
    let got: BTreeSet<Seen> = corner
        .log()
        .iter()
        .map(|q| Seen {
            method: q.method.clone(),
            url: format!("{base}/{}", q.path),
            headers: q.headers.iter().filter(|(k, _)| known.contains(k)).map(|(k, v)| (k.clone(), String::from_utf8_lossy(v).trim().to_string())).collect(),
        })
        .collect();
    let norm = |s: &BTreeSet<Seen>| -> BTreeSet<Seen> {
        s.iter()
            .map(|x| {
                let mut x = x.clone();
                x.headers.sort();
                x
            })
            .collect()
    };
    let (got, want_reqs) = (norm(&got), norm(&want_reqs));
    ensure!(got == want_reqs, "requests {got:?}, expected {want_reqs:?}");
    c.nontrivial = sent > 0;
    if sent > ms.len() {
        c.tag("several endpoints");
    }
    let mut by_group: HashMap<usize, usize> = HashMap::new();
    for k in &rules {
        if let Kind::Http(h) = k {
            *by_group.entry(h.group).or_default() += 1;
        }
    }
    if by_group.values().any(|n| *n > 1) {
        c.tag("rules with the same endpoints");
    }
    Ok(())
}

/// Endpoints that cannot be reached, values that cannot be sent, timeouts.
fn p14_faults(c: &mut Ctx) -> Res {
    let id = Corner::next_id();
    let base = Corner::base(id);
    // (endpoint, how it behaves, status if it can be asked)
    let kinds = c.list(1, 3, 1, 2, |c| c.u(5));
    let urls: Vec<(String, St)> = kinds
        .iter()
        .enumerate()
        .map(|(i, k)| match k {
            0 => (format!("{base}/ok{i}"), St::Valid),
            1 => (format!("{base}/no{i}"), St::Invalid),
            2 => (format!("http://127.0.0.1:1/r{i}"), St::Error),
            3 => (format!("{base}/close{i}"), St::Error),
            _ => (format!("{base}/odd{i}"), St::Error),
        })
        .collect();
    let value = c.pick(&["abc", "a\nb", "a\r\nX-Evil: 1", "a\u{0}b", "a\u{7f}", "a b"]).to_string();
    let sendable = !value.contains(|x: char| x.is_control());
    c.note(|| format!("endpoints {:?}, value {value:?}", urls.iter().map(|u| &u.0).collect::<Vec<_>>()));
    // all the endpoints of one config: the whole URL is the host
    let mut b = HttpValidatorConfigBuilder::new("$HOST".into());
    b.set_hosts(urls.iter().map(|u| u.0.clone()).collect()).set_timeout(Duration::from_secs(60));
    b.set_request_header(vec![RequestHeader { key: "X-V".into(), value: "v=$MATCH.".into() }]);
    let cfg: Vec<Arc<dyn RuleConfig>> =
        vec![RegexRuleConfig::new("(?s)<.+>").match_validation_type(MatchValidationType::CustomHttp(b.build()?)).build()];
    let sc = ScannerBuilder::new(&cfg).build().map_err(|e| format!("{e:?}"))?;
    let corner = Corner::new(
        id,
        Box::new(|q| match &q.path[..2] {
            "ok" => Answer::Status(200),
            "no" => Answer::Status(403),
            "cl" => Answer::Close,
            _ => Answer::Status(503),
        }),
    );
    let mut ev = format!("x <{value}> y");
    let mut ms = sc.scan(&mut ev, vec![]);
    ensure!(ms.len() == 1, "{} matches", ms.len());
    no_panic("validate_matches", || sc.validate_matches(&mut ms))?.map_err(|_| "validation failed")?;
    let want = if sendable { urls.iter().map(|u| u.1).max().unwrap() } else { St::Error };
    ensure!(ms.len() == 1 && st(&ms[0].match_status) == want, "status {:?}, expected {want:?}", ms.first().map(|m| &m.match_status));
    let log = corner.log();
    if !sendable {
        ensure!(log.is_empty(), "sent {log:?}");
        c.tag("value that cannot be sent");
    }
    for q in &log {
        ensure!(q.get("x-evil").is_none() && q.get("x-v") == Some(format!("v=<{value}>.")), "sent {q:?}");
    }
    if kinds.contains(&2) || kinds.contains(&3) {
        c.tag("unreachable endpoint");
    }
    c.nontrivial = !sendable || urls.iter().any(|u| u.1 == St::Error);
    Ok(())
}

fn p14_timeouts(c: &mut Ctx) -> Res {
    let id = Corner::next_id();
    let base = Corner::base(id);
    let same = c.chance(1, 2);
    // an impatient rule and a patient one, possibly for the same endpoint; the patient one outlasts the default
    let slow = c.chance(1, 2);
    let url = |n: &str| if same { format!("{base}/same") } else { format!("{base}/{n}") };
    let mk = |u: String, ms: u64| {
        let mut b = HttpValidatorConfigBuilder::new(u);
        b.set_timeout(Duration::from_millis(ms));
        MatchValidationType::CustomHttp(b.build().unwrap())
    };
    let (first, second) = if slow { (60_000, 150) } else { (150, 60_000) };
    let cfg: Vec<Arc<dyn RuleConfig>> = vec![
        RegexRuleConfig::new("A[0-9]").match_validation_type(mk(url("a"), first)).build(),
        RegexRuleConfig::new("B[0-9]").match_validation_type(mk(url("b"), second)).build(),
    ];
    c.note(|| format!("timeouts {first} and {second} ms, same endpoint: {same}"));
    let _corner = Corner::new(
        id,
        Box::new(move |q| {
            let patient = q.get("authorization").unwrap_or_default().contains(if slow { "A" } else { "B" });
            Answer::Slow(if patient { 4_000 } else { 10_000 }, 200)
        }),
    );
    let sc = ScannerBuilder::new(&cfg).build().map_err(|e| format!("{e:?}"))?;
    let mut ev = "A1 B1".to_string();
    let mut ms = sc.scan(&mut ev, vec![]);
    no_panic("validate_matches", || sc.validate_matches(&mut ms))?.map_err(|_| "validation failed")?;
    let want = if slow { [St::Valid, St::Error] } else { [St::Error, St::Valid] };
    let got: Vec<St> = ms.iter().map(|m| st(&m.match_status)).collect();
    ensure!(got == want, "{got:?}, expected {want:?}");
    c.nontrivial = true;
    Ok(())
}

/// What the builder makes of endpoints and hosts.
fn p14_builder(c: &mut Ctx) -> Res {
    const BITS: &[&str] = &["http://", "h", "/", "$HOST", "$HOS", "$", "HOST", "$HOST", "a.b", "$MATCH", "é"];
    let t: String = (0..c.int(0, 5)).map(|_| *c.pick(BITS)).collect();
    let hosts: Vec<String> = c.list(0, 3, 1, 2, |c| c.pick(&["us", "eu", "", "$HOST", "x$H"]).to_string());
    c.note(|| format!("{t:?} with hosts {hosts:?}"));
    let has = t.contains("$HOST");
    let mut b = HttpValidatorConfigBuilder::new(t.clone());
    b.set_hosts(hosts.clone());
    let m = c.u(METHODS.len());
    let (v, i) = (gen_ranges(c), gen_ranges(c));
    b.set_method(METHODS[m].1.clone()).set_valid_http_status_code(v.clone()).set_invalid_http_status_code(i.clone());
    let d = Duration::from_millis(c.u(100_000) as u64);
    if c.chance(1, 2) {
        b.set_timeout(d);
    } else {
        b.set_timeout(Duration::from_secs(9)).set_timeout(d);
    }
    match b.build() {
        Err(_) => ensure!(has == hosts.is_empty(), "rejected"),
        Ok(x) => {
            ensure!(has != hosts.is_empty(), "accepted");
            let want: Vec<String> = if has { hosts.iter().map(|h| t.split("$HOST").collect::<Vec<_>>().join(h)).collect() } else { vec![t.clone()] };
            ensure!(x.endpoints == want, "endpoints {:?}, expected {want:?}", x.endpoints);
            ensure!(x.method == METHODS[m].1 && x.valid_http_status_code == v && x.invalid_http_status_code == i && x.options.timeout == d, "config {x:?}");
            ensure!(
                x.request_header == vec![RequestHeader { key: "Authorization".into(), value: "Bearer $MATCH".into() }],
                "default headers {:?}",
                x.request_header
            );
            c.nontrivial = has;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P15
const KEYCHARS: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

fn gen_secret(c: &mut Ctx) -> String {
    let mut s: String = (0..40).map(|_| KEYCHARS[c.u(64)] as char).collect();
    if c.chance(1, 4) {
        s.replace_range(39.., *c.pick(&["/", "+"]));
    }
    if c.chance(1, 4) {
        s.replace_range(..1, *c.pick(&["/", "+"]));
    }
    s
}

fn p15(c: &mut Ctx) -> Res {
    let id = Corner::next_id();
    let base = Corner::base(id);
    // rules: id, one to three secrets with their own endpoints, session
    let nsec = c.int(1, 3);
    let stamp = |c: &mut Ctx| {
        if c.chance(1, 3) {
            None
        } else {
            Some((2000 + c.u(60), 1 + c.u(12), 1 + c.u(28), c.u(24), c.u(60), c.u(60)))
        }
    };
    let dates: Vec<_> = (0..nsec).map(|_| stamp(c)).collect();
    let paths: Vec<String> = (0..nsec).map(|i| c.pick(&["", "/", "/sts", "/a/b"]).to_string() + &format!("/e{i}") + *c.pick(&["", "", "", "/"])).collect();
    let reverse = c.chance(1, 2);
    let large = c.chance(1, 40);
    // values
    let ids: Vec<String> = {
        let mut v: Vec<String> = c.list(0, if large { 16 } else { 3 }, if large { 15 } else { 3 }, if large { 16 } else { 4 }, |c| format!("AKIA{}", (0..16).map(|_| KEYCHARS[c.u(26)] as char).collect::<String>()));
        // the same value may be found twice
        if !v.is_empty() && c.chance(1, 5) {
            v.push(c.pick(&v).clone());
        }
        v
    };
    let bad_id = c.chance(1, 10);
    let mut secrets: Vec<(usize, String)> = c.list(0, if large { 16 } else { 3 }, if large { 15 } else { 3 }, if large { 16 } else { 4 }, |c| (c.u(nsec), gen_secret(c)));
    if !secrets.is_empty() && c.chance(1, 5) {
        let (i, s) = c.pick(&secrets).clone();
        secrets.push((if c.chance(1, 2) { i } else { c.u(nsec) }, s));
    }
    let sessions = c.int(0, 1);
    let mut table: BTreeMap<(String, String), Answer> = BTreeMap::new();
    for a in &ids {
        for (_, s) in &secrets {
            let x = if c.chance(1, 20) { Answer::Close } else { Answer::Status(*c.pick(&[403u16, 200, 403, 500, 204, 400, 503, 404, 401, 304, 300])) };
            table.entry((a.clone(), s.clone())).or_insert(x);
        }
    }
    c.note(|| format!("ids {ids:?} (and one that cannot be sent: {bad_id}), secrets {secrets:?}, dates {dates:?}, endpoints {paths:?}, reversed {reverse}\nanswers {table:?}"));
    let mut cfg: Vec<(String, Arc<dyn RuleConfig>)> = vec![];
    let mk = |p: &str, t: AwsType| RegexRuleConfig::new(p).match_action(MatchAction::Redact { replacement: "*".into() }).match_validation_type(MatchValidationType::Aws(t)).build();
    cfg.push(("id".into(), mk("AKIA[A-Z]{16}|ID[\\n\\x01]", AwsType::AwsId)));
    for i in 0..nsec {
        let dt: Option<String> = dates[i].map(|(y, mo, d, h, mi, s)| format!("{y:04}-{mo:02}-{d:02}T{h:02}:{mi:02}:{s:02}Z"));
        // the config has no public constructor for the date, but is deserializable
        let conf: AwsConfig = serde_json::from_value(serde_json::json!({
            "aws_sts_endpoint": format!("{base}{}", paths[i]), "forced_datetime_utc": dt, "timeout": {"secs": 60, "nanos": 0},
        }))
        .map_err(|e| format!("AwsConfig: {e}"))?;
        cfg.push((format!("secret{i}"), mk(&format!("secret{i}[=: ]+\"?[A-Za-z0-9/+]{{40}}[^A-Za-z0-9/+\\s,]{{0,3}}"), AwsType::AwsSecret(conf))));
    }
    cfg.push(("session".into(), mk("SESS[0-9]", AwsType::AwsSession)));
    if reverse {
        cfg.reverse();
    }
    let rules: Vec<Arc<dyn RuleConfig>> = cfg.iter().map(|x| x.1.clone()).collect();
    let sc = ScannerBuilder::new(&rules).build().map_err(|e| format!("rejected: {e:?}"))?;
    let mut parts: Vec<(String, String)> = vec![];
    for a in &ids {
        parts.push((a.clone(), "id".into()));
    }
    if bad_id {
        parts.push((c.pick(&["ID\n", "ID\u{1}"]).to_string(), "bad".into()));
    }
    for (i, s) in &secrets {
        let t = match c.u(4) {
            0 => format!("secret{i}={s}"),
            1 => format!("secret{i}: \"{s}\""),
            2 => format!("secret{i}  {s}"),
            _ => format!("secret{i}=\"{s}\""),
        };
        // what follows belongs to the match, not to the secret
        let t = if c.chance(1, 4) { format!("{t}{}", c.pick(&["=", "==", ";", "é", "_", "-", ")", "日", "%"])) } else { t };
        parts.push((t, s.clone()));
    }
    for _ in 0..sessions {
        parts.push(("SESS1".into(), "session".into()));
    }
    // in any order
    for i in (1..parts.len()).rev() {
        let j = c.u(i + 1);
        parts.swap(i, j);
    }
    let mut ev = parts.iter().map(|p| p.0.clone()).collect::<Vec<_>>().join(", ");
    let problems: Arc<std::sync::Mutex<Vec<String>>> = Default::default();
    let asked: Arc<std::sync::Mutex<BTreeSet<(String, String, String, String)>>> = Default::default();
    let corner = {
        let (t, secrets, problems, asked) = (table.clone(), secrets.clone(), problems.clone(), asked.clone());
        Corner::new(
            id,
            Box::new(move |q| {
                let mut last = String::from("the signature fits none of the secrets");
                for (_, s) in &secrets {
                    match sigv4(q, s) {
                        Ok((a, d, true)) => {
                            asked.lock().unwrap().insert((format!("/{}", q.path), a.clone(), s.clone(), d));
                            return *t.get(&(a, s.clone())).unwrap_or(&Answer::Status(599));
                        }
                        Ok(_) => {}
                        Err(e) => last = e,
                    }
                }
                problems.lock().unwrap().push(format!("{last}: {q:?}"));
                Answer::Status(403)
            }),
        )
    };
    let text = ev.clone();
    let mut ms = sc.scan(&mut ev, vec![]);
    ensure!(ms.len() == parts.len(), "{} matches for {} values in {text:?}", ms.len(), parts.len());
    let t0 = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64;
    no_panic("validate_matches", || sc.validate_matches(&mut ms))?.map_err(|_| "validation failed")?;
    let t1 = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64;
    let p = problems.lock().unwrap().clone();
    ensure!(p.is_empty(), "a request AWS would not accept: {}", p[0]);
    for q in corner.log() {
        ensure!(q.method == "POST" && q.body == b"Action=GetCallerIdentity&Version=2011-06-15", "request {q:?}");
        ensure!(q.get("host").as_deref() == Some("sts.us-east-1.amazonaws.com"), "request {q:?}");
    }
    // all pairs, each at the endpoint and date of the rule of the secret
    let mut want = BTreeSet::new();
    for a in &ids {
        for (i, s) in &secrets {
            let d = dates[*i].map(|(y, mo, d, h, mi, s)| format!("{y:04}{mo:02}{d:02}T{h:02}{mi:02}{s:02}Z")).unwrap_or("now".into());
            want.insert((paths[*i].trim_start_matches('/').to_string(), a.clone(), s.clone(), d));
        }
    }
    let asked: BTreeSet<_> = asked
        .lock()
        .unwrap()
        .iter()
        .map(|(p, a, s, d)| {
            let now = parse_stamp(d).is_some_and(|x| x >= t0 - 2 && x <= t1 + 2);
            let fixed = secrets.iter().any(|(i, x)| x == s && dates[*i].is_none() && p.trim_start_matches('/') == paths[*i].trim_start_matches('/'));
            (p.trim_start_matches('/').to_string(), a.clone(), s.clone(), if fixed && now { "now".to_string() } else { d.clone() })
        })
        .collect();
    ensure!(asked == want, "asked {asked:?}, expected {want:?}");
    let cl = |a: &Answer| match a {
        Answer::Status(200..=299) => St::Valid,
        Answer::Status(400..=499) => St::Invalid,
        // neither here nor there
        Answer::Status(300..=399) => St::NotChecked,
        _ => St::Error,
    };
    ensure!(ms.len() == parts.len(), "{} matches left", ms.len());
    for (m, (t, what)) in ms.iter().zip(&parts) {
        ensure!(m.match_value.as_ref() == Some(t), "match value {:?} for {t:?}", m.match_value);
        let want = match what.as_str() {
            "id" => secrets.iter().map(|(_, s)| cl(&table[&(t.clone(), s.clone())])).max().unwrap_or(St::NotChecked),
            "bad" => {
                if secrets.is_empty() {
                    St::NotChecked
                } else {
                    St::Error
                }
            }
            "session" => St::NotChecked,
            s => {
                let mut w = ids.iter().map(|a| cl(&table[&(a.clone(), s.to_string())])).max().unwrap_or(St::NotChecked);
                if bad_id {
                    w = w.max(St::Error);
                }
                w
            }
        };
        ensure!(st(&m.match_status) == want, "{t:?}: {:?}, expected {want:?}", m.match_status);
        c.tag(match want {
            St::Valid => "valid",
            St::Invalid => "invalid",
            St::Error => "error",
            _ => "not checked",
        });
    }
    c.nontrivial = !table.is_empty();
    if table.len() > 1 {
        c.tag("several pairs");
    }
    Ok(())
}

/// Seconds since 1970 of 20240131T235959Z.
fn parse_stamp(s: &str) -> Option<i64> {
    let n = |a: usize, b: usize| s.get(a..b)?.parse::<i64>().ok();
    let (y, m, d, h, mi, sec) = (n(0, 4)?, n(4, 6)?, n(6, 8)?, n(9, 11)?, n(11, 13)?, n(13, 15)?);
    // days from civil
    let y2 = if m <= 2 { y - 1 } else { y };
    let era = y2.div_euclid(400);
    let yoe = y2 - era * 400;
    let doy = (153 * ((m + 9) % 12) + 2) / 5 + d - 1;
    let days = era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468;
    Some(days * 86400 + h * 3600 + mi * 60 + sec)
}

// ---------------------------------------------------------------- P16
fn p16(c: &mut Ctx) -> Res {
    let id = Corner::next_id();
    let base = Corner::base(id);
    let n = if c.chance(1, 12) { c.int(6, 16) } else { c.int(1, 5) };
    let kinds: Vec<usize> = (0..n).map(|_| if n > 5 && c.chance(1, 2) { 2 } else { c.u(6) }).collect();
    let groups = if n > 5 { c.int(1, n) } else { 2 };
    let conf = AwsConfig { aws_sts_endpoint: format!("{base}/aws"), timeout: Duration::from_secs(60), ..Default::default() };
    let cfg: Vec<Arc<dyn RuleConfig>> = kinds
        .iter()
        .enumerate()
        .map(|(i, k)| {
            let mut r = RegexRuleConfig::new(&pattern(i));
            let t = match k {
                0 | 1 => None,
                2 => Some(MatchValidationType::CustomHttp({
                    let mut b = HttpValidatorConfigBuilder::new(format!("{base}/h{}", i % groups));
                    b.set_timeout(Duration::from_secs(60));
                    b.build().unwrap()
                })),
                3 => Some(MatchValidationType::Aws(AwsType::AwsId)),
                4 => Some(MatchValidationType::Aws(AwsType::AwsSecret(conf.clone()))),
                _ => Some(MatchValidationType::Aws(AwsType::AwsSession)),
            };
            if let Some(t) = t {
                r = r.match_validation_type(t);
            }
            r = r.match_action(match c.u(3) {
                0 => MatchAction::None,
                1 => MatchAction::Redact { replacement: c.pick(&["", "[redacted]"]).to_string() },
                _ => MatchAction::Hash,
            });
            r.build()
        })
        .collect();
    let sc = ScannerBuilder::new(&cfg).build().map_err(|e| format!("rejected: {e:?}"))?;
    let can = kinds.iter().any(|k| *k == 2 || *k == 4);
    let texts: Vec<Vec<String>> = c.list(1, 4, 2, 3, |c| many_words(c, n, 4));
    // the answers: by round and value
    let round = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let answers: Vec<Vec<u16>> = (0..2).map(|_| (0..8).map(|_| *c.pick(&[403u16, 200, 500])).collect()).collect();
    let r2 = round.clone();
    let table = answers.clone();
    let _corner = Corner::new(
        id,
        Box::new(move |q| {
            let r = r2.load(std::sync::atomic::Ordering::SeqCst);
            let a = q.get("authorization").unwrap_or_default();
            if q.path == "aws" {
                return Answer::Status(answers[r][7]);
            }
            let d = a.bytes().rev().find(|b| b.is_ascii_digit()).unwrap_or(b'0') as usize;
            Answer::Status(answers[r][d % 7])
        }),
    );
    let mut ev = SimpleEvent::List(texts.iter().map(|t| SimpleEvent::String(t.join(" "))).collect());
    let mut ms = sc.scan(&mut ev, vec![]);
    for m in &ms {
        let want = if kinds[m.rule_index] < 2 { St::NotAvailable } else { St::NotChecked };
        ensure!(st(&m.match_status) == want, "status after the scan (kind {}): {:?}", kinds[m.rule_index], m.match_status);
        ensure!(m.match_value.is_some() == can, "a match with value {:?}, in a scanner that can{} validate", m.match_value, if can { "" } else { "not" });
    }
    // any part of the matches, in any order
    if c.chance(1, 2) {
        ms.retain(|_| c.chance(3, 4));
        for i in (1..ms.len()).rev() {
            let j = c.u(i + 1);
            ms.swap(i, j);
        }
    }
    c.note(|| format!("rules {kinds:?} (0, 1 none; 2 HTTP; 3 AWS id; 4 AWS secret; 5 AWS session), texts {texts:?}, {} matches", ms.len()));
    for turn in 0..2 {
        round.store(turn, std::sync::atomic::Ordering::SeqCst);
        let key = |m: &RuleMatch| (m.rule_index, m.path.to_string(), format!("{:?}", m.replacement_type), m.start_index, m.end_index_exclusive, m.shift_offset, m.match_value.clone());
        let before = format!("{ms:?}");
        let mut a: Vec<_> = ms.iter().map(|m| (key(m), st(&m.match_status))).collect();
        let r = no_panic("validate_matches", || sc.validate_matches(&mut ms))?;
        if !can {
            ensure!(r.is_err(), "validation without a validator succeeded");
            ensure!(format!("{ms:?}") == before, "failed validation changed the matches: {before} became {ms:?}");
            c.tag("no validator");
            break;
        }
        ensure!(r.is_ok(), "validation failed");
        ensure!(ms.windows(2).all(|w| w[0].start_index <= w[1].start_index), "not sorted by start");
        let of = |a: u16| match a {
            200 => St::Valid,
            403 => St::Invalid,
            _ => St::Error,
        };
        let pairs = [3, 4].iter().all(|k| ms.iter().any(|m| kinds[m.rule_index] == *k));
        let mut b: Vec<_> = ms.iter().map(|m| (key(m), st(&m.match_status))).collect();
        a.sort();
        b.sort();
        ensure!(a.iter().map(|x| &x.0).eq(b.iter().map(|x| &x.0)), "matches {a:?} became {b:?}");
        for (x, y) in a.iter().zip(&b) {
            ensure!(y.1 >= x.1, "the status of {:?} fell from {:?} to {:?}", x.0, x.1, y.1);
            let k = kinds[x.0 .0];
            let fixed = k < 2 || k == 5;
            ensure!(!fixed || x.1 == y.1, "the status of {:?} (kind {k}) became {:?}", x.0, y.1);
            // the answers of this round are taken into account, whatever the status was
            let asked = match k {
                2 => {
                    let v = x.0 .6.as_deref().unwrap_or_default();
                    let d = v.bytes().rev().find(|b| b.is_ascii_digit()).unwrap_or(b'0') as usize;
                    Some(of(table[turn][d % 7]))
                }
                3 | 4 if pairs => Some(of(table[turn][7])),
                _ => None,
            };
            if let Some(a) = asked {
                ensure!(y.1 == x.1.max(a), "round {turn}: the status of {:?} was {:?}, the answer means {a:?}, now it is {:?}", x.0, x.1, y.1);
            }
        }
        if a != b {
            c.nontrivial = true;
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let part = |name, case, quick, thorough, threads| Part { name, case, quick, thorough, threads };
    vec![
        Prop {
            id: "P14",
            rule: "requests: at least one request had to be sent; faults: something fails or cannot be sent; timeouts: always; builder: $HOST is used",
            parts: vec![
                part("requests", p14, 6_000, 200_000, 8),
                part("faults", p14_faults, 2_000, 60_000, 8),
                part("builder", p14_builder, 20_000, 500_000, 8),
                part("timeouts", p14_timeouts, 8, 80, 4),
            ],
            assumptions: &["the loopback interface works; a request to it is answered within 60 s", "the process is not stalled for more than 9 s"],
        },
        Prop {
            id: "P15",
            rule: "at least one pair of an id and a secret",
            parts: vec![part("pairs", p15, 4_000, 150_000, 8)],
            assumptions: &["the loopback interface works; a request to it is answered within 60 s"],
        },
        Prop {
            id: "P16",
            rule: "some status changes",
            parts: vec![part("keep", p16, 5_000, 200_000, 8)],
            assumptions: &["the loopback interface works"],
        },
    ]
}
