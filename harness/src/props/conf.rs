//! P21 (rule configurations as JSON), P22 (errors of invalid configurations), P24 (kinds of events).

use std::sync::Arc;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use dd_sds::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::time::Duration;

// ---------------------------------------------------------------- P21
const ODD: &[&str] = &[
    "", "a", "id", "\"", "\\", "\\d+", "é", "日本", "😀", "\u{0}", "\n", "\u{7f}", "\u{fffd}", "type", "None", "null", " ", "$MATCH", "a/b", "\u{2028}", "<&>",
];

fn text(c: &mut Ctx) -> String {
    let n = c.int(0, 3);
    (0..n).map(|_| *c.pick(ODD)).collect()
}

fn number(c: &mut Ctx) -> usize {
    match c.u(4) {
        0 => c.u(4),
        1 => c.u(60),
        2 => *c.pick(&[255, 256, 65535, 65536, u32::MAX as usize, u32::MAX as usize + 1, i64::MAX as usize, usize::MAX]),
        _ => c.u(1 << 40),
    }
}

fn gen_path(c: &mut Ctx) -> P {
    c.list(0, 3, 2, 3, |c| if c.chance(1, 3) { Seg::I(number(c)) } else { Seg::F(text(c)) })
}

fn path_json(p: &P) -> Value {
    json!({"segments": p.iter().map(|s| match s {
        Seg::F(f) => json!({"type": "Field", "value": f}),
        Seg::I(i) => json!({"type": "Index", "value": i}),
    }).collect::<Vec<_>>()})
}

fn paths_json(v: &[P]) -> Value {
    Value::Array(v.iter().map(path_json).collect())
}

const ALL_VALIDATORS: &[(SecondaryValidator, &str)] = &[
    (SecondaryValidator::LuhnChecksum, "LuhnChecksum"),
    (SecondaryValidator::ChineseIdChecksum, "ChineseIdChecksum"),
    (SecondaryValidator::GithubTokenChecksum, "GithubTokenChecksum"),
    (SecondaryValidator::NhsCheckDigit, "NhsCheckDigit"),
    (SecondaryValidator::IbanChecker, "IbanChecker"),
    (SecondaryValidator::NirChecksum, "NirChecksum"),
    (SecondaryValidator::JwtExpirationChecker, "JwtExpirationChecker"),
];

fn duration(c: &mut Ctx) -> (Duration, Value) {
    let (s, n) = (c.u(100) as u64, *c.pick(&[0u32, 1, 500_000_000, 999_999_999]));
    (Duration::new(s, n), json!({"secs": s, "nanos": n}))
}

fn gen_validation(c: &mut Ctx) -> (MatchValidationType, Value) {
    match c.u(4) {
        0 => (MatchValidationType::Aws(AwsType::AwsId), json!({"Aws": "AwsId"})),
        1 => (MatchValidationType::Aws(AwsType::AwsSession), json!({"Aws": "AwsSession"})),
        2 => {
            let (timeout, tj) = duration(c);
            let ep = text(c);
            let date = *c.pick(&[None, Some("2024-01-02T03:04:05Z"), Some("1999-12-31T23:59:59.250Z"), Some("2038-01-19T03:14:08Z")]);
            let cfg = AwsConfig { aws_sts_endpoint: ep.clone(), forced_datetime_utc: date.map(|d| d.parse().unwrap()), timeout };
            (
                MatchValidationType::Aws(AwsType::AwsSecret(cfg)),
                json!({"Aws": {"AwsSecret": {"aws_sts_endpoint": ep, "forced_datetime_utc": date, "timeout": tj}}}),
            )
        }
        _ => {
            let (timeout, tj) = duration(c);
            let hosts = c.list(0, 3, 1, 2, |c| c.pick(&["us", "eu", "é", "$MATCH"]).to_string());
            let endpoint = format!("http://{}/{}", c.pick(&["h", "h:8080", "é"]), if hosts.is_empty() { "x" } else { "$HOST" });
            let endpoints: Vec<String> =
                if hosts.is_empty() { vec![endpoint.clone()] } else { hosts.iter().map(|h| endpoint.replace("$HOST", h)).collect() };
            let (method, mj) = match c.u(5) {
                0 => (HttpMethod::Get, "Get"),
                1 => (HttpMethod::Post, "Post"),
                2 => (HttpMethod::Put, "Put"),
                3 => (HttpMethod::Delete, "Delete"),
                _ => (HttpMethod::Patch, "Patch"),
            };
            let headers = c.list(0, 3, 1, 2, |c| (text(c), text(c)));
            fn range(c: &mut Ctx) -> std::ops::Range<u16> {
                let (a, b) = (*c.pick(&[0u16, 200, 404, 65535]), *c.pick(&[0u16, 300, 405, 65535]));
                a..b
            }
            let valid = c.list(0, 3, 1, 2, range);
            let invalid = c.list(0, 3, 1, 2, range);
            let cfg = HttpValidatorConfigBuilder::new(endpoint)
                .set_hosts(hosts)
                .set_method(method)
                .set_request_header(headers.iter().map(|(k, v)| RequestHeader { key: k.clone(), value: v.clone() }).collect())
                .set_valid_http_status_code(valid.clone())
                .set_invalid_http_status_code(invalid.clone())
                .set_timeout(timeout)
                .build()
                .unwrap();
            let rj = |v: &[std::ops::Range<u16>]| v.iter().map(|r| json!({"start": r.start, "end": r.end})).collect::<Vec<_>>();
            (
                MatchValidationType::CustomHttp(cfg),
                json!({"CustomHttp": {
                    "endpoints": endpoints, "method": mj,
                    "request_header": headers.iter().map(|(k, v)| json!({"key": k, "value": v})).collect::<Vec<_>>(),
                    "valid_http_status_code": rj(&valid), "invalid_http_status_code": rj(&invalid),
                    "options": {"timeout": tj}}}),
            )
        }
    }
}

/// A configuration, built with the setters in any order, and the JSON that stands for it.
fn gen_conf(c: &mut Ctx) -> (RegexRuleConfig, Value) {
    let pattern = text(c);
    let mut cfg = RegexRuleConfig::new(&pattern);
    let mut j = json!({"pattern": pattern, "match_action": {"type": "None"}, "scope": {"type": "Exclude", "paths": []},
        "proximity_keywords": null, "validator": null, "labels": [], "match_validation_type": null});
    // setters may be called in any order and more than once; the last call counts
    let steps = c.list(0, 8, 4, 5, |c| c.u(7));
    for s in steps {
        let before = cfg.clone();
        let next;
        match s {
            0 => {
                let t = text(c);
                let (a, aj) = match c.u(5) {
                    0 => (Act::None, json!({"type": "None"})),
                    1 => (Act::Redact(t.clone()), json!({"type": "Redact", "replacement": t})),
                    2 => (Act::Hash, json!({"type": "Hash"})),
                    3 => (Act::Utf16Hash, json!({"type": "Utf16Hash"})),
                    _ => {
                        let n = number(c);
                        if c.chance(1, 2) {
                            (Act::First(n), json!({"type": "PartialRedact", "direction": "FirstCharacters", "character_count": n}))
                        } else {
                            (Act::Last(n), json!({"type": "PartialRedact", "direction": "LastCharacters", "character_count": n}))
                        }
                    }
                };
                next = cfg.match_action(a.real());
                j["match_action"] = aj;
            }
            1 => {
                let a = c.list(0, 2, 2, 3, gen_path);
                let b = c.list(0, 2, 1, 2, gen_path);
                let (s, sj) = match c.u(3) {
                    0 => (Scope::exclude(a.iter().map(real_path).collect()), json!({"type": "Exclude", "paths": paths_json(&a)})),
                    1 => (
                        Scope::include(a.iter().map(real_path).collect()),
                        json!({"type": "Include", "paths": {"include": paths_json(&a), "exclude": []}}),
                    ),
                    _ => (
                        Scope::include_and_exclude(a.iter().map(real_path).collect(), b.iter().map(real_path).collect()),
                        json!({"type": "Include", "paths": {"include": paths_json(&a), "exclude": paths_json(&b)}}),
                    ),
                };
                next = cfg.scope(s);
                j["scope"] = sj;
            }
            2 => {
                let (look, inc, exc) = (number(c), c.list(0, 3, 1, 2, text), c.list(0, 3, 1, 2, text));
                j["proximity_keywords"] = json!({"look_ahead_character_count": look, "included_keywords": inc, "excluded_keywords": exc});
                next = cfg.proximity_keywords(ProximityKeywordsConfig {
                    look_ahead_character_count: look,
                    included_keywords: inc,
                    excluded_keywords: exc,
                });
            }
            3 => {
                let (v, n) = c.pick(ALL_VALIDATORS);
                next = cfg.validator(v.clone());
                j["validator"] = json!({"type": n});
            }
            4 => {
                let l = c.list(0, 3, 2, 3, |c| (text(c), text(c)));
                next = cfg.labels(Labels::new(&l));
                j["labels"] = json!(l);
            }
            5 => {
                let (m, mj) = gen_validation(c);
                next = cfg.match_validation_type(m);
                j["match_validation_type"] = mj;
            }
            _ => {
                let p = text(c);
                next = cfg.pattern(p.clone());
                j["pattern"] = json!(p);
            }
        }
        assert_eq!(cfg, before, "a setter changed the configuration it was called on");
        cfg = next;
    }
    (cfg, j)
}

/// JSON text of the value: keys in any order, any whitespace, characters escaped or not, keys
/// nobody knows, and optional parts left out or null.
fn write(c: &mut Ctx, v: &Value, loose: bool, out: &mut String) {
    let ws = |c: &mut Ctx, out: &mut String| {
        if c.chance(1, 8) {
            out.push_str(*c.pick(&[" ", "\n", "\t "]))
        }
    };
    match v {
        Value::String(s) => {
            if c.chance(1, 4) {
                out.push('"');
                for u in s.encode_utf16() {
                    out.push_str(&format!("\\u{u:04x}"));
                }
                out.push('"');
            } else {
                out.push_str(&serde_json::to_string(s).unwrap());
            }
        }
        Value::Array(l) => {
            out.push('[');
            for (i, x) in l.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                ws(c, out);
                write(c, x, false, out);
            }
            out.push(']');
        }
        Value::Object(m) => {
            let mut m = m.clone();
            if loose && c.chance(1, 6) {
                m.insert("zz_unknown".into(), json!([1, null, {"type": "Field"}]));
            }
            let mut keys: Vec<&String> = m.keys().collect();
            for i in (1..keys.len()).rev() {
                let j = i - c.u(i + 1);
                keys.swap(i, j);
            }
            out.push('{');
            let mut first = true;
            let sep = |out: &mut String, first: &mut bool| {
                if !*first {
                    out.push(',');
                }
                *first = false;
            };
            for k in keys {
                let x = &m[k];
                let mut x = x.clone();
                if loose {
                    // what is the default may be left out
                    let empty = x == json!([]);
                    match k.as_str() {
                        "proximity_keywords" | "validator" | "match_validation_type" if x.is_null() && c.chance(1, 2) => continue,
                        "scope" if x == json!({"type": "Exclude", "paths": []}) && c.chance(1, 2) => continue,
                        "labels" | "included_keywords" | "excluded_keywords" if empty => match c.u(3) {
                            0 => continue,
                            1 => x = json!(null),
                            _ => {}
                        },
                        _ => {}
                    }
                }
                sep(out, &mut first);
                ws(c, out);
                out.push_str(&serde_json::to_string(k).unwrap());
                out.push(':');
                ws(c, out);
                write(c, &x, loose && k == "proximity_keywords", out);
            }
            out.push('}');
        }
        x => out.push_str(&x.to_string()),
    }
}


/// Where a configuration can be damaged so that nobody can make sense of it.
fn damage(c: &mut Ctx, j: &mut Value) -> String {
    let mut spots: Vec<(Vec<&str>, Vec<Option<Value>>)> = vec![];
    let wrong = |extra: Vec<Option<Value>>| {
        let mut v = vec![None, Some(json!(3)), Some(json!({})), Some(json!(true))];
        v.extend(extra);
        v
    };
    spots.push((vec!["pattern"], wrong(vec![Some(json!(null)), Some(json!(["a"]))])));
    spots.push((vec!["match_action"], wrong(vec![Some(json!("None")), Some(json!({"type": "none"})), Some(json!({"type": "Redact"}))])));
    if j["match_action"]["type"] == "Redact" {
        spots.push((vec!["match_action", "replacement"], wrong(vec![Some(json!(null))])));
    }
    if j["match_action"]["type"] == "PartialRedact" {
        spots.push((vec!["match_action", "direction"], wrong(vec![Some(json!("first"))])));
        spots.push((vec!["match_action", "character_count"], vec![None, Some(json!("3")), Some(json!(-1)), Some(json!(1.5))]));
    }
    spots.push((vec!["scope"], vec![Some(json!({})), Some(json!(3)), Some(json!({"type": "Other", "paths": []})), Some(json!({"type": "Include", "paths": []}))]));
    if j["scope"]["type"] == "Include" {
        spots.push((vec!["scope", "paths", "include"], wrong(vec![Some(json!(["a"]))])));
        spots.push((vec!["scope", "paths", "exclude"], wrong(vec![])));
    }
    if !j["proximity_keywords"].is_null() {
        spots.push((vec!["proximity_keywords", "look_ahead_character_count"], vec![None, Some(json!(-1)), Some(json!("3"))]));
        spots.push((vec!["proximity_keywords", "included_keywords"], vec![Some(json!([3])), Some(json!("id"))]));
        spots.push((vec!["proximity_keywords", "excluded_keywords"], vec![Some(json!([null])), Some(json!({}))]));
    }
    spots.push((vec!["validator"], vec![Some(json!({"type": "luhn"})), Some(json!(3)), Some(json!({}))]));
    spots.push((vec!["labels"], vec![Some(json!([["a"]])), Some(json!([["a", "b", "c"]])), Some(json!([[]])), Some(json!([["a", 1]])), Some(json!({"a": "b"}))]));
    spots.push((vec!["match_validation_type"], vec![Some(json!("Aws")), Some(json!({"Aws": "AwsSecret"})), Some(json!({"Http": {}})), Some(json!({"CustomHttp": {}}))]));
    let (path, values) = c.pick(&spots).clone();
    let v = c.pick(&values).clone();
    let mut at = &mut *j;
    for k in &path[..path.len() - 1] {
        at = &mut at[*k];
    }
    let last = path[path.len() - 1];
    let what = format!("{} := {v:?}", path.join("."));
    match v {
        None => {
            at.as_object_mut().unwrap().remove(last);
        }
        Some(v) => at[last] = v,
    }
    what
}

fn p21(c: &mut Ctx) -> Res {
    let (cfg, j) = gen_conf(c);
    c.note(|| format!("{cfg:?}"));
    // reading what somebody wrote
    let mut t = String::new();
    write(c, &j, true, &mut t);
    let back: RegexRuleConfig = no_panic("reading", || serde_json::from_str(&t))?.map_err(|e| format!("{t} is rejected: {e}"))?;
    ensure!(back == cfg, "{t} is read as {back:?}");
    // writing: the same members and values, so that others can read it
    let w = no_panic("writing", || serde_json::to_value(&cfg))?.map_err(|e| format!("cannot be written: {e}"))?;
    ensure!(w == j, "written as {w}, expected {j}");
    let s = serde_json::to_string(&cfg).map_err(|e| e.to_string())?;
    let again: RegexRuleConfig = serde_json::from_str(&s).map_err(|e| format!("{s} is rejected: {e}"))?;
    ensure!(again == cfg, "{s} is read back as {again:?}");
    // damage
    let mut bad = j.clone();
    let what = damage(c, &mut bad);
    let r = no_panic("reading a damaged configuration", || serde_json::from_value::<RegexRuleConfig>(bad.clone()))?;
    ensure!(r.is_err(), "{what}: {bad} is read as {r:?}");
    let cut = c.u(t.len());
    if let Some(p) = t.get(..cut) {
        let r = no_panic("reading half a configuration", || serde_json::from_str::<RegexRuleConfig>(p))?;
        ensure!(r.is_err(), "{p} is read as {r:?}");
    }
    c.extra_evals += 3;
    let set = ["scope", "proximity_keywords", "validator", "labels", "match_validation_type"]
        .iter()
        .filter(|k| !j[**k].is_null() && j[**k] != json!([]) && j[**k] != json!({"type": "Exclude", "paths": []}))
        .count();
    c.nontrivial = set >= 2;
    if !j["match_validation_type"].is_null() {
        c.tag("match validation");
    }
    if !j["proximity_keywords"].is_null() {
        c.tag("keywords");
    }
    Ok(())
}

// ---------------------------------------------------------------- P22
/// A character for a keyword: anything, often one that means something in a pattern.
fn kw_char(c: &mut Ctx) -> char {
    match c.u(5) {
        0 => *c.pick(&['a', 'b', 'Z', '9']),
        1 => *c.pick(&['-', '_', '.', ' ', '/', '\t', '\u{a0}', '\u{3000}', '\n']),
        2 => *c.pick(&['(', ')', '[', ']', '{', '}', '|', '*', '+', '?', '^', '$', '\\', '&', '~', '#', '<', '>', '=', ':', '%', '"']),
        3 => *c.pick(&['é', 'É', 'ß', 'ſ', 'K', 'İ', 'ı', '日', '😀', '\u{301}', '\u{0}', '\u{7f}', '\u{10ffff}']),
        _ => char::from_u32(c.u(0x110000) as u32).unwrap_or('x'),
    }
}

#[derive(Debug, PartialEq, Clone)]
enum Bad {
    Regex(&'static str),
    Action,
    Look,
    Many,
    Long(usize),
    Empty,
}

impl Bad {
    fn text(&self) -> String {
        match self {
            Bad::Regex(k) => match *k {
                "InvalidSyntax" => "Invalid regex syntax",
                "ExceededDepthLimit" => "The regex pattern is nested too deeply",
                "TooComplex" => "The regex has exceeded the complexity limit (try simplifying the regex)",
                "MatchesEmptyString" => "Regex patterns are not allowed to match an empty string",
                _ => "Regex quantifier is too high. Max is 3000",
            }
            .into(),
            Bad::Action => "Partial redaction chars must be non-zero".into(),
            Bad::Look => "Look ahead character count should be bigger than 0 and cannot be longer than 50".into(),
            Bad::Many => "No more than 50 keywords are allowed".into(),
            Bad::Long(n) => format!("Keywords cannot be longer than the look ahead character count ({n})"),
            Bad::Empty => "Empty keywords are not allowed".into(),
        }
    }
    fn code(&self) -> i64 {
        match self {
            Bad::Regex(_) => -2,
            Bad::Action => -4,
            _ => -3,
        }
    }
    fn is(&self, e: &CreateScannerError) -> bool {
        match (self, e) {
            (Bad::Regex(k), CreateScannerError::InvalidRegex(r)) => format!("{r:?}") == *k,
            (Bad::Action, CreateScannerError::InvalidMatchAction(_)) => true,
            (Bad::Regex(_) | Bad::Action, _) => false,
            (_, CreateScannerError::InvalidKeywords(_)) => true,
            _ => false,
        }
    }
}

const BAD_PATTERNS: &[(&str, &str)] = &[
    ("(", "InvalidSyntax"),
    ("a{5,1}", "InvalidSyntax"),
    ("(?=a)", "InvalidSyntax"),
    ("[z-a]", "InvalidSyntax"),
    ("\\1", "InvalidSyntax"),
    ("", "MatchesEmptyString"),
    ("a*", "MatchesEmptyString"),
    ("x|\\b", "MatchesEmptyString"),
    ("a{3001}", "ExceededQuantifierLimit"),
    ("a{0,4000}", "ExceededQuantifierLimit"),
    ("(\\w{1000}){1000}", "TooComplex"),
    ("(((((((((((((((((((((((((((((((((((((((((((((((((((a)))))))))))))))))))))))))))))))))))))))))))))))))))", "ExceededDepthLimit"),
];

/// Everything that is wrong with the keywords; any of these may be the error reported.
fn kw_errors(k: &KwM) -> Vec<Bad> {
    let mut bad = vec![];
    if k.look == 0 || k.look > 50 {
        bad.push(Bad::Look);
    }
    if k.inc.len() > 50 || k.exc.len() > 50 {
        bad.push(Bad::Many);
    }
    for (l, exc) in [(&k.inc, false), (&k.exc, true)] {
        for w in l {
            if w.chars().count() > k.look {
                bad.push(Bad::Long(k.look));
            }
            let t: String = w.trim().chars().filter(|c| !exc || (*c != '-' && *c != '_')).collect();
            if t.is_empty() {
                bad.push(Bad::Empty);
            }
        }
    }
    bad
}

/// Parts of a rule that are never wrong, and that do not make anything else right.
fn gen_parts(c: &mut Ctx, mut cfg: RegexRuleConfig) -> RegexRuleConfig {
    if c.chance(1, 3) {
        cfg = cfg.validator(c.pick(ALL_VALIDATORS).0.clone());
    }
    if c.chance(1, 4) {
        let a: Vec<_> = c.list(0, 2, 2, 3, gen_path).iter().map(real_path).collect();
        cfg = cfg.scope(if c.chance(1, 2) { Scope::include(a) } else { Scope::exclude(a) });
    }
    if c.chance(1, 4) {
        cfg = cfg.labels(Labels::new(&c.list(0, 3, 2, 3, |c| (text(c), text(c)))));
    }
    if c.chance(1, 5) {
        cfg = cfg.match_validation_type(gen_validation(c).0);
    }
    cfg
}

fn gen_maybe(c: &mut Ctx) -> (RuleM, Vec<Bad>, RegexRuleConfig) {
    let mut r = RuleM::new(c.pick(LIBRARY).0);
    let mut bad = vec![];
    if c.chance(1, 8) {
        let (p, k) = *c.pick(BAD_PATTERNS);
        r.pattern = p.into();
        bad.push(Bad::Regex(k));
    }
    r.act = gen_act(c);
    if c.chance(1, 8) {
        r.act = if c.chance(1, 2) { Act::First(0) } else { Act::Last(0) };
        bad.push(Bad::Action);
    }
    if c.chance(1, 2) {
        let look = match c.weighted(&[6, 1, 1, 1]) {
            0 => c.int(1, 50),
            1 => *c.pick(&[50, 1, 49]),
            2 => *c.pick(&[0, 51, 1000, usize::MAX]),
            _ => 30,
        };
        let list = |c: &mut Ctx| -> Vec<String> {
            let edge = c.chance(1, 12);
            let n = match c.weighted(&[2, 6, 1]) {
                0 => 0,
                1 => c.int(1, 4),
                _ => *c.pick(&[49, 50, 51, 80]),
            };
            (0..n)
                .map(|i| {
                    if i > 4 {
                        return format!("k{i}").chars().take(look.max(1)).collect();
                    }
                    let max = look.clamp(1, 50) + usize::from(edge);
                    let n = match c.weighted(&[6, 1, 1]) {
                        0 => c.int(1, max.min(6)),
                        1 => max,
                        _ => max.saturating_sub(1),
                    };
                    let n = if edge && c.chance(1, 4) { 0 } else { n };
                    (0..n).map(|_| kw_char(c)).collect()
                })
                .collect()
        };
        let k = KwM { look, inc: list(c), exc: list(c) };
        bad.extend(kw_errors(&k));
        r.kw = Some(k);
    }
    let cfg = gen_parts(c, r.config());
    (r, bad, cfg)
}

fn p22(c: &mut Ctx) -> Res {
    let v = c.list(1, 4, 2, 3, gen_maybe);
    let rules: Vec<RuleM> = v.iter().map(|x| x.0.clone()).collect();
    c.note(|| format!("{:?}", rules.iter().map(|r| (&r.pattern, &r.act, &r.kw)).collect::<Vec<_>>()));
    c.note(|| {
        let part = |x: &RegexRuleConfig| format!("{:?} {:?} {:?}", x.validator, x.scope, x.match_validation_type);
        format!("{:?}", v.iter().map(|x| part(&x.2)).collect::<Vec<_>>())
    });
    let feat = Feat { kw_paths: c.chance(1, 2), implicit: c.chance(1, 4), multipass: c.chance(1, 2) };
    let labels = Labels::new(&c.list(0, 2, 1, 2, |c| (text(c), text(c))));
    let build = |cfg: &[&RegexRuleConfig]| {
        let cfg: Vec<Arc<dyn RuleConfig>> = cfg.iter().map(|r| r.build()).collect();
        ScannerBuilder::new(&cfg)
            .labels(labels.clone())
            .with_keywords_should_match_event_paths(feat.kw_paths)
            .with_implicit_wildcard_indexes_for_scopes(feat.implicit)
            .with_multipass_v0(feat.multipass)
            .build()
            .map(|_| ())
    };
    let got = no_panic("building a scanner", || build(&v.iter().map(|x| &x.2).collect::<Vec<_>>()))?;
    let want = v.iter().find(|x| !x.1.is_empty()).map(|x| &x.1);
    match (want, got) {
        (None, Ok(())) => {}
        (None, Err(e)) => return Err(format!("a valid configuration is rejected: {e:?}")),
        (Some(w), Ok(())) => return Err(format!("accepted, although {w:?}")),
        (Some(w), Err(e)) => {
            // several things may be wrong with the rule: one of them is reported
            let text = e.to_string();
            let Some(b) = w.iter().find(|b| b.is(&e) && b.text() == text) else {
                return Err(format!("the error is {e:?} ({text}), expected one of {w:?}"));
            };
            let code: i64 = e.into();
            ensure!(code == b.code(), "code {code} for {b:?}");
            c.tag(match b {
                Bad::Regex(_) => "invalid pattern",
                Bad::Action => "invalid action",
                _ => "invalid keywords",
            });
        }
    }
    // alone, every rule is judged the same
    if rules.len() > 1 {
        for (_, bad, cfg) in &v {
            let ok = no_panic("building a scanner", || build(&[cfg]).is_ok())?;
            ensure!(ok == bad.is_empty(), "alone, the rule {cfg:?} is {}", if ok { "accepted" } else { "rejected" });
        }
        c.extra_evals += rules.len() as u64;
    }
    c.nontrivial = rules.iter().any(|r| r.kw.as_ref().is_some_and(|k| !k.inc.is_empty() || !k.exc.is_empty())) || want.is_some();
    Ok(())
}

// ---------------------------------------------------------------- P24
/// A JSON document with values of all kinds, and the tree of the strings it stands for.
fn plant(c: &mut Ctx, e: &Ev) -> (Value, Ev) {
    match e {
        Ev::Str(s) => {
            if c.chance(1, 3) {
                let v = match c.u(6) {
                    0 => json!(true),
                    1 => json!(false),
                    2 => json!(c.u(5000)),
                    3 => json!(-(c.u(5000) as i64)),
                    4 if c.chance(1, 2) => json!(*c.pick(&[1e-7, 1.5e300, 123456.789, -0.0, 0.1, 1e21, 12345678901234567.0, 1.0, -2.5e-10, 5e-324, 100000.0])),
                    4 => json!(c.u(5000) as f64 / 8.0),
                    5 if c.chance(1, 2) => json!(*c.pick(&[i64::MIN, i64::MAX, 1 << 53, (1 << 53) + 1, -1])),
                    _ => json!(u64::MAX - c.u(3) as u64),
                };
                let t = v.to_string();
                return (v, Ev::Str(t));
            }
            (json!(s), e.clone())
        }
        Ev::List(l) => {
            let v: Vec<(Value, Ev)> = l.iter().map(|x| plant(c, x)).collect();
            let (mut a, b): (Vec<Value>, Vec<Ev>) = v.into_iter().unzip();
            if c.chance(1, 6) {
                a.push(Value::Null);
                a.push(json!([]));
            }
            (Value::Array(a), Ev::List(b))
        }
        Ev::Map(m) => {
            let (mut a, mut b) = (serde_json::Map::new(), BTreeMap::new());
            for (k, x) in m {
                let (v, e) = plant(c, x);
                a.insert(k.clone(), v);
                b.insert(k.clone(), e);
            }
            if c.chance(1, 6) {
                a.insert("nothing".into(), Value::Null);
            }
            (Value::Object(a), Ev::Map(b))
        }
    }
}

/// What the document must be after the scan: rewritten values are strings, all others stay.
fn expected_json(v: &Value, exp: &Expect, rules: &[RuleM], p: &mut P) -> Value {
    match v {
        Value::Null => Value::Null,
        Value::Array(l) => Value::Array(
            l.iter()
                .enumerate()
                .map(|(i, x)| {
                    p.push(Seg::I(i));
                    let r = expected_json(x, exp, rules, p);
                    p.pop();
                    r
                })
                .collect(),
        ),
        Value::Object(m) => Value::Object(
            m.iter()
                .map(|(k, x)| {
                    p.push(Seg::F(k.clone()));
                    let r = expected_json(x, exp, rules, p);
                    p.pop();
                    (k.clone(), r)
                })
                .collect(),
        ),
        x => match exp.matches.get(p) {
            Some(ms) if ms.iter().any(|m| rules[m.rule].act.mutating()) => {
                let mut e = exp.event.clone();
                Value::String(e.get_mut(p).unwrap().clone())
            }
            _ => x.clone(),
        },
    }
}

fn p24(c: &mut Ctx) -> Res {
    let mut k = BASE;
    k.tree = c.chance(4, 5);
    k.scopes = k.tree && c.chance(1, 2);
    k.multipass = true;
    k.enc = false;
    k.kw = if c.chance(1, 4) { KwKind::Any } else { KwKind::None };
    k.kw_paths = c.chance(1, 4);
    k.implicit = c.chance(1, 3);
    k.ascii_fields = k.kw_paths;
    let mut w = gen_world(c, &k);
    if c.chance(1, 2) {
        // so that numbers and words match, too
        let p = *c.pick(&["\\d+", "true", "\\d{2}", "[a-z]+", "-\\d"]);
        w.rules[0].pattern = p.into();
        w.rules[0].pcre = p.into();
        w.rules[0].rust = RuleM::new(p).rust;
        w.rules[0].val = None;
    }
    let (doc, ev) = plant(c, &w.ev);
    w.ev = ev;
    note_world(c, &w);
    c.note(|| format!("document: {doc}"));
    let Ok(comp) = compile(&w.rules) else { return c.discard() };
    let Ok(exp) = scan(&w.rules, &comp, w.feat, &w.ev, &w.blocked, EncM::Utf8) else { return c.discard() };
    if exp.ambiguous {
        return c.discard();
    }
    let sc = build(&w.rules, w.feat).map_err(|e| format!("rejected: {e:?}"))?;
    let by = |ms: &[RuleMatch]| {
        let mut m: BTreeMap<P, Vec<MatchM>> = BTreeMap::new();
        for x in ms {
            let x = MatchM::from_real(x);
            m.entry(x.path.clone()).or_default().push(x);
        }
        m
    };
    let r: Res = (|| {
        // as a SimpleEvent
        let got = no_panic("scanning a SimpleEvent", || scan_real(&sc, &w.ev, &w.blocked, EncM::Utf8))?;
        compare(&exp, &got).map_err(|e| format!("SimpleEvent: {e}"))?;
        // as a JSON document
        let want = expected_json(&doc, &exp, &w.rules, &mut vec![]);
        let mut d = doc.clone();
        let ms = no_panic("scanning a JSON document", || sc.scan(&mut d, w.blocked.clone()))?;
        ensure!(by(&ms) == exp.matches, "JSON: matches {:?}, expected {:?}", by(&ms), exp.matches);
        ensure!(d == want, "JSON: document {d}, expected {want}");
        // as a map of JSON documents
        if let Value::Object(o) = &doc {
            let mut h: HashMap<String, Value> = o.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            let ms = no_panic("scanning a map", || sc.scan(&mut h, w.blocked.clone()))?;
            ensure!(by(&ms) == exp.matches, "map: matches {:?}, expected {:?}", by(&ms), exp.matches);
            let got: Value = Value::Object(h.into_iter().collect());
            ensure!(got == want, "map: document {got}, expected {want}");
        }
        // as a String
        if let Ev::Str(s) = &w.ev {
            let mut s = s.clone();
            let ms = no_panic("scanning a String", || sc.scan(&mut s, w.blocked.clone()))?;
            ensure!(by(&ms) == exp.matches, "String: matches {:?}, expected {:?}", by(&ms), exp.matches);
            ensure!(Ev::Str(s.clone()) == exp.event, "String: {s:?}, expected {:?}", exp.event);
        }
        Ok(())
    })();
    if let Err(e) = r {
        if engine_defect(&w.rules, &w.ev) {
            return c.discard();
        }
        return Err(e);
    }
    c.extra_evals += 2;
    c.nontrivial = !exp.matches.is_empty();
    let odd = |p: &P| {
        let mut v = &doc;
        for s in p {
            v = match s {
                Seg::F(k) => &v[k.as_str()],
                Seg::I(i) => &v[*i],
            }
        }
        !v.is_string()
    };
    if exp.matches.keys().any(odd) {
        c.tag("matches in numbers or booleans");
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P21",
            rule: "at least two optional parts of the configuration are set",
            parts: vec![Part { name: "json", case: p21, quick: 60_000, thorough: 3_000_000, threads: 8 }],
            assumptions: &["the pattern of a configuration is not checked when it is read"],
        },
        Prop {
            id: "P22",
            rule: "a rule has keywords, or something is wrong",
            parts: vec![Part { name: "errors", case: p22, quick: 30_000, thorough: 1_000_000, threads: 8 }],
            assumptions: &["when several things are wrong with one rule, any of them may be reported"],
        },
        Prop {
            id: "P24",
            rule: "the scan has matches",
            parts: vec![Part { name: "events", case: p24, quick: 30_000, thorough: 1_000_000, threads: 8 }],
            assumptions: &[],
        },
    ]
}
