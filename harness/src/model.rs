//! A deliberately naive reference model of a scan, written from the documented behaviour.

use crate::refre::{GaveUp, RefRegex};
use crate::spec;
use dd_sds::*;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Str(String),
    List(Vec<Ev>),
    Map(BTreeMap<String, Ev>),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Seg {
    F(String),
    I(usize),
}
pub type P = Vec<Seg>;

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    None,
    Redact(String),
    Hash,
    Utf16Hash,
    First(usize),
    Last(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum ScopeM {
    Exclude(Vec<P>),
    Include(Vec<P>, Vec<P>),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct KwM {
    pub look: usize,
    pub inc: Vec<String>,
    pub exc: Vec<String>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Val {
    Luhn,
    Chinese,
    Github,
    Nhs,
    Nir,
}

impl Val {
    pub fn ok(self, s: &str) -> bool {
        match self {
            Val::Luhn => spec::luhn(s),
            Val::Chinese => spec::chinese_id(s),
            Val::Github => spec::github(s),
            Val::Nhs => spec::nhs(s),
            Val::Nir => spec::nir(s),
        }
    }
    pub fn real(self) -> SecondaryValidator {
        match self {
            Val::Luhn => SecondaryValidator::LuhnChecksum,
            Val::Chinese => SecondaryValidator::ChineseIdChecksum,
            Val::Github => SecondaryValidator::GithubTokenChecksum,
            Val::Nhs => SecondaryValidator::NhsCheckDigit,
            Val::Nir => SecondaryValidator::NirChecksum,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct RuleM {
    pub pattern: String,
    /// The same pattern for the reference matcher.
    pub pcre: String,
    /// The same pattern for the regex crate.
    pub rust: String,
    pub act: Act,
    pub scope: ScopeM,
    pub kw: Option<KwM>,
    pub val: Option<Val>,
    /// Has a (never called) HTTP match validation type.
    pub http: bool,
}

impl RuleM {
    pub fn new(pattern: &str) -> Self {
        RuleM {
            pattern: pattern.into(),
            pcre: pattern.into(),
            rust: pattern.replace("\\d", "[0-9]").replace("\\w", "[0-9A-Za-z_]").replace("\\b", "(?-u:\\b)"),
            act: Act::None,
            scope: ScopeM::Exclude(vec![]),
            kw: None,
            val: None,
            http: false,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Feat {
    pub kw_paths: bool,
    pub implicit: bool,
    pub multipass: bool,
}

impl Default for Feat {
    fn default() -> Self {
        Feat { kw_paths: false, implicit: false, multipass: true }
    }
}

// ------------------------------------------------------------------------------ conversions
pub fn real_path(p: &P) -> Path<'static> {
    Path::from(
        p.iter()
            .map(|s| match s {
                Seg::F(x) => PathSegment::Field(Cow::Owned(x.clone())),
                Seg::I(i) => PathSegment::Index(*i),
            })
            .collect::<Vec<_>>(),
    )
}

pub fn model_path(p: &Path) -> P {
    p.segments
        .iter()
        .map(|s| match s {
            PathSegment::Field(x) => Seg::F(x.to_string()),
            PathSegment::Index(i) => Seg::I(*i),
        })
        .collect()
}

impl Act {
    #[allow(deprecated)]
    pub fn real(&self) -> MatchAction {
        match self {
            Act::None => MatchAction::None,
            Act::Redact(x) => MatchAction::Redact { replacement: x.clone() },
            Act::Hash => MatchAction::Hash,
            Act::Utf16Hash => MatchAction::Utf16Hash,
            Act::First(n) => MatchAction::PartialRedact {
                direction: PartialRedactDirection::FirstCharacters,
                character_count: *n,
            },
            Act::Last(n) => MatchAction::PartialRedact {
                direction: PartialRedactDirection::LastCharacters,
                character_count: *n,
            },
        }
    }
    pub fn mutating(&self) -> bool {
        *self != Act::None
    }
    pub fn replacement_type(&self) -> ReplacementType {
        match self {
            Act::None => ReplacementType::None,
            Act::Redact(_) => ReplacementType::Placeholder,
            Act::Hash | Act::Utf16Hash => ReplacementType::Hash,
            Act::First(_) => ReplacementType::PartialStart,
            Act::Last(_) => ReplacementType::PartialEnd,
        }
    }
    /// What the matched text becomes.
    pub fn apply(&self, m: &str) -> String {
        let chars: Vec<char> = m.chars().collect();
        match self {
            Act::None => m.to_string(),
            Act::Redact(x) => x.clone(),
            Act::Hash => spec::farm_hex(m.as_bytes()),
            Act::Utf16Hash => {
                let b: Vec<u8> = m.encode_utf16().flat_map(|u| u.to_le_bytes()).collect();
                spec::farm_hex(&b)
            }
            // exactly n asterisks, in place of up to n characters at that end
            Act::First(n) => {
                let kept: String = chars[(*n).min(chars.len())..].iter().collect();
                format!("{}{}", "*".repeat(*n), kept)
            }
            Act::Last(n) => {
                let kept: String = chars[..chars.len().saturating_sub(*n)].iter().collect();
                format!("{}{}", kept, "*".repeat(*n))
            }
        }
    }
}

impl ScopeM {
    pub fn real(&self) -> Scope {
        let c = |v: &Vec<P>| v.iter().map(real_path).collect::<Vec<_>>();
        match self {
            ScopeM::Exclude(x) => Scope::Exclude(c(x)),
            ScopeM::Include(i, e) => Scope::Include { include: c(i), exclude: c(e) },
        }
    }
}

impl RuleM {
    pub fn config(&self) -> RegexRuleConfig {
        let mut c = RegexRuleConfig::new(&self.pattern)
            .match_action(self.act.real())
            .scope(self.scope.real());
        if let Some(k) = &self.kw {
            c = c.proximity_keywords(ProximityKeywordsConfig {
                look_ahead_character_count: k.look,
                included_keywords: k.inc.clone(),
                excluded_keywords: k.exc.clone(),
            });
        }
        if let Some(v) = self.val {
            c = c.validator(v.real());
        }
        if self.http {
            c = c.match_validation_type(MatchValidationType::CustomHttp(
                HttpValidatorConfigBuilder::new("http://127.0.0.1:9".to_string())
                    .build()
                    .unwrap(),
            ));
        }
        c
    }
}

pub fn build(rules: &[RuleM], f: Feat) -> Result<Scanner, CreateScannerError> {
    let cfg: Vec<Arc<dyn RuleConfig>> = rules.iter().map(|r| r.config().build()).collect();
    ScannerBuilder::new(&cfg)
        .with_keywords_should_match_event_paths(f.kw_paths)
        .with_implicit_wildcard_indexes_for_scopes(f.implicit)
        .with_multipass_v0(f.multipass)
        .build()
}

impl Ev {
    pub fn simple(&self) -> SimpleEvent {
        match self {
            Ev::Str(s) => SimpleEvent::String(s.clone()),
            Ev::List(l) => SimpleEvent::List(l.iter().map(|x| x.simple()).collect()),
            Ev::Map(m) => {
                SimpleEvent::Map(m.iter().map(|(k, v)| (k.clone(), v.simple())).collect())
            }
        }
    }
    pub fn from_simple(e: &SimpleEvent) -> Ev {
        match e {
            SimpleEvent::String(s) => Ev::Str(s.clone()),
            SimpleEvent::List(l) => Ev::List(l.iter().map(Ev::from_simple).collect()),
            SimpleEvent::Map(m) => {
                Ev::Map(m.iter().map(|(k, v)| (k.clone(), Ev::from_simple(v))).collect())
            }
        }
    }
    pub fn json(&self) -> serde_json::Value {
        match self {
            Ev::Str(s) => serde_json::Value::String(s.clone()),
            Ev::List(l) => serde_json::Value::Array(l.iter().map(|x| x.json()).collect()),
            Ev::Map(m) => {
                serde_json::Value::Object(m.iter().map(|(k, v)| (k.clone(), v.json())).collect())
            }
        }
    }
    pub fn strings(&self) -> Vec<(P, &String)> {
        fn go<'a>(e: &'a Ev, p: &mut P, out: &mut Vec<(P, &'a String)>) {
            match e {
                Ev::Str(s) => out.push((p.clone(), s)),
                Ev::List(l) => {
                    for (i, x) in l.iter().enumerate() {
                        p.push(Seg::I(i));
                        go(x, p, out);
                        p.pop();
                    }
                }
                Ev::Map(m) => {
                    for (k, x) in m {
                        p.push(Seg::F(k.clone()));
                        go(x, p, out);
                        p.pop();
                    }
                }
            }
        }
        let mut out = vec![];
        go(self, &mut vec![], &mut out);
        out
    }
    pub fn get_mut(&mut self, p: &[Seg]) -> Option<&mut String> {
        match (self, p.first()) {
            (Ev::Str(s), None) => Some(s),
            (Ev::List(l), Some(Seg::I(i))) => l.get_mut(*i)?.get_mut(&p[1..]),
            (Ev::Map(m), Some(Seg::F(k))) => m.get_mut(k)?.get_mut(&p[1..]),
            _ => None,
        }
    }
}

// ------------------------------------------------------------------------------ encodings
/// An event whose match indices are counted in UTF-16 code units, as some users of the library do.
pub struct Utf16Event(pub Ev);
pub struct Utf16;
/// An event whose match indices are counted in Unicode scalar values.
pub struct CharEvent(pub Ev);
pub struct CharEnc;

fn visit_ev<'a>(e: &'a Ev, v: &mut impl EventVisitor<'a>) {
    match e {
        Ev::Str(s) => {
            let _ = v.visit_string(s);
        }
        Ev::List(l) => {
            for (i, x) in l.iter().enumerate() {
                v.push_segment(PathSegment::Index(i));
                visit_ev(x, v);
                v.pop_segment();
            }
        }
        Ev::Map(m) => {
            for (k, x) in m {
                v.push_segment(PathSegment::Field(Cow::Borrowed(k.as_str())));
                visit_ev(x, v);
                v.pop_segment();
            }
        }
    }
}

macro_rules! enc_event {
    ($ev:ident, $enc:ident, $len:expr) => {
        impl Event for $ev {
            type Encoding = $enc;
            fn visit_event<'a>(&'a mut self, v: &mut impl EventVisitor<'a>) {
                visit_ev(&self.0, v)
            }
            fn visit_string_mut(&mut self, p: &Path, mut f: impl FnMut(&mut String) -> bool) {
                let before = self.0.get_mut(&model_path(p)).expect("path").clone();
                let s = self.0.get_mut(&model_path(p)).unwrap();
                let changed = f(s);
                // "a bool indicating if the string was mutated": false must mean untouched
                assert!(changed || before == *s, "visitor changed a string but reported no mutation");
            }
        }
        impl Encoding for $enc {
            type Index = usize;
            type IndexShift = isize;
            fn zero_index() -> usize {
                0
            }
            fn zero_shift() -> isize {
                0
            }
            fn get_index(v: &usize, _: usize) -> usize {
                *v
            }
            fn get_shift(v: &isize, _: isize) -> isize {
                *v
            }
            fn calculate_indices<'a>(
                content: &str,
                it: impl Iterator<Item = EncodeIndices<'a, Self>>,
            ) {
                let len: fn(&str) -> usize = $len;
                let (mut last, mut before) = (0, 0);
                for e in it {
                    assert!(e.utf8_start >= last, "indices not sorted by start");
                    before += len(&content[last..e.utf8_start]);
                    last = e.utf8_start;
                    *e.custom_start = before;
                    *e.custom_end = before + len(&content[e.utf8_start..e.utf8_end]);
                }
            }
            fn adjust_shift(shift: &mut isize, before: &str, after: &str) {
                let len: fn(&str) -> usize = $len;
                *shift += len(after) as isize - len(before) as isize;
            }
        }
    };
}
enc_event!(Utf16Event, Utf16, |s| s.encode_utf16().count());
enc_event!(CharEvent, CharEnc, |s| s.chars().count());

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum EncM {
    Utf8,
    Utf16,
    Chars,
}
impl EncM {
    pub fn len(self, s: &str) -> usize {
        match self {
            EncM::Utf8 => s.len(),
            EncM::Utf16 => s.encode_utf16().count(),
            EncM::Chars => s.chars().count(),
        }
    }
}

// ------------------------------------------------------------------------------ keywords
fn is_word(c: Option<char>) -> bool {
    c.is_some_and(|c| c.is_ascii_alphanumeric() || c == '_')
}

fn eq_fold(a: char, b: char) -> bool {
    if a.is_ascii() && b.is_ascii() {
        return a.eq_ignore_ascii_case(&b);
    }
    a == b || a.to_lowercase().eq(b.to_lowercase())
}

/// Char positions at which `kw` occurs, case-insensitively, as a whole word: a word boundary is
/// needed at each end of the keyword that is an ASCII letter or digit.
pub fn keyword_at(text: &[char], pos: usize, kw: &[char]) -> bool {
    if pos + kw.len() > text.len() {
        return false;
    }
    if !kw.iter().zip(&text[pos..]).all(|(a, b)| eq_fold(*a, *b)) {
        return false;
    }
    let prev = pos.checked_sub(1).map(|i| text[i]);
    let next = text.get(pos + kw.len()).copied();
    let first = text[pos];
    let last = text[pos + kw.len() - 1];
    if kw[0].is_ascii_alphanumeric() && is_word(prev) == is_word(Some(first)) {
        return false;
    }
    if kw[kw.len() - 1].is_ascii_alphanumeric() && is_word(Some(last)) == is_word(next) {
        return false;
    }
    true
}

pub fn included_starts(text: &[char], kws: &[String]) -> Vec<usize> {
    let kws: Vec<Vec<char>> = kws.iter().map(|k| k.trim().chars().collect()).collect();
    (0..text.len())
        .filter(|p| kws.iter().any(|k| keyword_at(text, *p, k)))
        .collect()
}

/// Whether an excluded keyword lies within the `look` characters before `m`; '-' and '_' are
/// ignored, in keywords as in content, but count towards the distance.
pub fn excluded_before(text: &[char], m: usize, look: usize, kws: &[String]) -> bool {
    let dash = |c: &char| *c == '-' || *c == '_';
    let from = m.saturating_sub(look);
    let mut t: Vec<char> = vec![];
    if let Some(c) = text[..from].iter().rev().find(|c| !dash(c)) {
        t.push(*c);
    }
    let a = t.len();
    t.extend(text[from..m].iter().filter(|c| !dash(c)));
    let b = t.len();
    if let Some(c) = text[m..].iter().find(|c| !dash(c)) {
        t.push(*c);
    }
    kws.iter().any(|k| {
        let k: Vec<char> = k.trim().chars().filter(|c| !dash(c)).collect();
        (a..b).any(|p| p + k.len() <= b && keyword_at(&t, p, &k))
    })
}

/// Field names (and keywords) are compared as words: separators and camelCase are the same.
pub fn standardize(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let sep = |c: char| "-_. /".contains(c);
    let mut out = String::new();
    for i in 0..c.len() {
        let x = c[i];
        if i == 0 || i == c.len() - 1 || sep(c[i - 1]) {
            out.push(x);
        } else if sep(x) {
            out.push('.');
        } else if x.is_ascii_uppercase() && !c[i - 1].is_ascii_uppercase() {
            out.push('.');
            out.push(x);
        } else {
            out.push(x);
        }
    }
    out.to_ascii_lowercase()
}

pub fn path_text(p: &P) -> String {
    let mut out = String::new();
    for (i, s) in p.iter().enumerate() {
        if let Seg::F(f) = s {
            if i > 0 {
                out.push('.');
            }
            out.push_str(&standardize(f));
        }
    }
    out
}

pub fn keyword_in_path(p: &P, kws: &[String]) -> bool {
    let t: Vec<char> = path_text(p).chars().collect();
    kws.iter().any(|k| {
        let raw: Vec<char> = k.trim().chars().collect();
        let std: Vec<char> = standardize(k.trim()).chars().collect();
        (0..t.len()).any(|pos| {
            // the word boundaries depend on the ends of the keyword as given
            pos + std.len() <= t.len()
                && std.iter().zip(&t[pos..]).all(|(a, b)| eq_fold(*a, *b))
                && (!raw[0].is_ascii_alphanumeric()
                    || is_word(pos.checked_sub(1).map(|i| t[i])) != is_word(Some(t[pos])))
                && (!raw[raw.len() - 1].is_ascii_alphanumeric()
                    || is_word(t.get(pos + std.len()).copied())
                        != is_word(Some(t[pos + std.len() - 1])))
        })
    })
}

// ------------------------------------------------------------------------------ scopes
/// Whether the scope path covers the event path. With implicit wildcards, in each run of
/// consecutive indices of the event path, the scope may name any number of leading indices and
/// the others are skipped.
pub fn covers(scope: &[Seg], path: &[Seg], implicit: bool) -> bool {
    fn go(scope: &[Seg], path: &[Seg], implicit: bool, skipped: bool) -> bool {
        let Some(s) = scope.first() else { return true };
        let Some(p) = path.first() else { return false };
        let is_index = matches!(p, Seg::I(_));
        if s == p && !(skipped && is_index) && go(&scope[1..], &path[1..], implicit, false) {
            return true;
        }
        implicit && is_index && go(scope, &path[1..], implicit, true)
    }
    go(scope, path, implicit, false)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cover {
    No,
    Scanned,
    Excluded,
}

pub fn cover(scope: &ScopeM, path: &[Seg], implicit: bool) -> Cover {
    let (inc, exc) = match scope {
        ScopeM::Exclude(e) => (true, e),
        ScopeM::Include(i, e) => (i.iter().any(|p| covers(p, path, implicit)), e),
    };
    if !inc {
        Cover::No
    } else if exc.iter().any(|p| covers(p, path, implicit)) {
        Cover::Excluded
    } else {
        Cover::Scanned
    }
}

// ------------------------------------------------------------------------------ the scan
#[derive(Clone, Debug, PartialEq)]
pub struct MatchM {
    pub rule: usize,
    pub path: P,
    pub start: usize,
    pub end: usize,
    pub shift: isize,
    pub rtype: String,
    pub value: Option<String>,
    pub status: String,
}

impl MatchM {
    pub fn from_real(m: &RuleMatch) -> Self {
        MatchM {
            rule: m.rule_index,
            path: model_path(&m.path),
            start: m.start_index,
            end: m.end_index_exclusive,
            shift: m.shift_offset,
            rtype: m.replacement_type.to_string(),
            value: m.match_value.clone(),
            status: format!("{:?}", m.match_status),
        }
    }
}

pub struct Compiled {
    pub res: Vec<RefRegex>,
}

pub struct Expect {
    pub event: Ev,
    /// grouped by path, in the order of the strings; by start within a path
    pub matches: BTreeMap<P, Vec<MatchM>>,
    /// The documented behaviour leaves the result open for this input.
    pub ambiguous: bool,
    /// Matches before overlap removal, per path.
    pub raw: BTreeMap<P, Vec<(usize, usize, usize)>>,
    pub dropped_by_multipass: usize,
    pub dropped_by_overlap: usize,
    /// false positives rejected by validators / excluded keywords
    pub rejected: usize,
    pub excluded: BTreeSet<String>,
}

struct StrScan<'a> {
    rule: &'a RuleM,
    re: &'a RefRegex,
    s: &'a str,
    chars: Vec<char>,
    /// byte offset -> char index
    idx: HashMap<usize, usize>,
    bytes: Vec<usize>,
    rejected: usize,
}

impl<'a> StrScan<'a> {
    fn new(rule: &'a RuleM, re: &'a RefRegex, s: &'a str) -> Self {
        let mut idx = HashMap::new();
        let mut bytes = vec![];
        for (i, (b, _)) in s.char_indices().enumerate() {
            idx.insert(b, i);
            bytes.push(b);
        }
        idx.insert(s.len(), bytes.len());
        bytes.push(s.len());
        StrScan { rule, re, s, chars: s.chars().collect(), idx, bytes, rejected: 0 }
    }
    /// Every accepted match from byte `from` on: leftmost first, resuming at the end of an
    /// accepted match, and one character after the start of a rejected one; up to those that start
    /// at character `last`.
    fn search(&mut self, from: usize, check_excluded: bool, last: usize) -> Result<Vec<(usize, usize)>, GaveUp> {
        let mut out = vec![];
        let mut at = from;
        while at <= self.s.len() {
            let Some((a, b)) = self.re.find_at(self.s, at)? else { break };
            if self.idx[&a] > last {
                break;
            }
            if b <= a {
                // an empty match: rules like this must not exist
                return Err(GaveUp);
            }
            let mut bad = false;
            if check_excluded {
                if let Some(k) = &self.rule.kw {
                    bad |= !k.exc.is_empty()
                        && excluded_before(&self.chars, self.idx[&a], k.look, &k.exc);
                }
            }
            if let Some(v) = self.rule.val {
                bad |= !v.ok(&self.s[a..b]);
            }
            if bad {
                self.rejected += 1;
                at = self.bytes[self.idx[&a] + 1];
            } else {
                out.push((a, b));
                at = b;
            }
        }
        Ok(out)
    }
}

pub fn compile(rules: &[RuleM]) -> Result<Compiled, i32> {
    Ok(Compiled {
        res: rules.iter().map(|r| RefRegex::new(&r.pcre)).collect::<Result<_, _>>()?,
    })
}

pub fn scan(
    rules: &[RuleM],
    comp: &Compiled,
    f: Feat,
    ev: &Ev,
    blocked: &[usize],
    enc: EncM,
) -> Result<Expect, GaveUp> {
    let mut excluded: BTreeSet<String> = BTreeSet::new();
    let mut raw: BTreeMap<P, Vec<(usize, usize, usize)>> = BTreeMap::new();
    let mut ambiguous = false;
    let mut rejected = 0;
    for (path, s) in ev.strings() {
        for (ri, r) in rules.iter().enumerate() {
            if blocked.contains(&ri) {
                continue;
            }
            let cov = cover(&r.scope, &path, f.implicit);
            if cov == Cover::No {
                continue;
            }
            let mut sc = StrScan::new(r, &comp.res[ri], s);
            let inc: &[String] = r.kw.as_ref().map_or(&[], |k| &k.inc);
            let mut found: BTreeSet<(usize, usize)> = BTreeSet::new();
            if inc.is_empty() {
                found.extend(sc.search(0, true, usize::MAX)?);
            } else {
                let look = r.kw.as_ref().unwrap().look;
                let starts = included_starts(&sc.chars, inc);
                for k in &starts {
                    found.extend(sc.search(sc.bytes[*k], false, k + look)?);
                }
                if f.kw_paths && keyword_in_path(&path, inc) {
                    found.extend(sc.search(0, false, usize::MAX)?);
                }
                // A keyword inside a match restarts the search there: which of the overlapping
                // candidates of the same rule count is not documented.
                let v: Vec<_> = found.iter().collect();
                if v.windows(2).any(|w| w[1].0 < w[0].1) {
                    ambiguous = true;
                }
            }
            rejected += sc.rejected;
            if cov == Cover::Excluded {
                excluded.extend(found.iter().map(|(a, b)| s[*a..*b].to_string()));
            } else if !found.is_empty() {
                raw.entry(path.clone())
                    .or_default()
                    .extend(found.iter().map(|(a, b)| (ri, *a, *b)));
            }
        }
    }
    let return_matches = rules.iter().any(|r| r.http);
    let mut out = ev.clone();
    let mut matches = BTreeMap::new();
    let mut dropped_by_multipass = 0;
    let mut dropped_by_overlap = 0;
    for (path, s) in ev.strings() {
        let Some(list) = raw.get(&path) else { continue };
        let n = list.len();
        let mut list: Vec<_> = list
            .iter()
            .filter(|(_, a, b)| !f.multipass || !excluded.contains(&s[*a..*b]))
            .cloned()
            .collect();
        dropped_by_multipass += n - list.len();
        let kept = resolve_overlaps(rules, &mut list);
        dropped_by_overlap += list.len() - kept.len();
        let (text, ms) = apply(rules, &path, s, &kept, enc, return_matches);
        *out.get_mut(&path).unwrap() = text;
        if !ms.is_empty() {
            matches.insert(path, ms);
        }
    }
    Ok(Expect {
        event: out,
        matches,
        ambiguous,
        raw,
        dropped_by_multipass,
        dropped_by_overlap,
        rejected,
        excluded,
    })
}

/// Highest priority first: modifying before non-modifying, then earlier start, then longer, then
/// the earlier rule. A match is kept unless it overlaps one already kept.
pub fn resolve_overlaps(
    rules: &[RuleM],
    list: &mut Vec<(usize, usize, usize)>,
) -> Vec<(usize, usize, usize)> {
    list.sort_by_key(|(r, a, b)| {
        (!rules[*r].act.mutating(), *a, usize::MAX - (*b - *a), *r)
    });
    // kept matches by start: they do not overlap, so only the last one that starts before the end
    // of a candidate can overlap it
    let mut kept: BTreeMap<usize, (usize, usize, usize)> = BTreeMap::new();
    for m in list.iter() {
        if kept.range(..m.2).next_back().is_none_or(|(_, k)| k.2 <= m.1) {
            kept.insert(m.1, *m);
        }
    }
    kept.into_values().collect()
}

pub fn apply(
    rules: &[RuleM],
    path: &P,
    s: &str,
    kept: &[(usize, usize, usize)],
    enc: EncM,
    return_matches: bool,
) -> (String, Vec<MatchM>) {
    let mut text = String::new();
    let mut at = 0;
    let mut ms = vec![];
    // lengths in the encoding, of the result and of the original so far
    let (mut end, mut orig) = (0, 0);
    for (r, a, b) in kept {
        text.push_str(&s[at..*a]);
        let gap = enc.len(&s[at..*a]);
        let start = end + gap;
        let new = rules[*r].act.apply(&s[*a..*b]);
        text.push_str(&new);
        end = start + enc.len(&new);
        orig += gap + enc.len(&s[*a..*b]);
        at = *b;
        ms.push(MatchM {
            rule: *r,
            path: path.clone(),
            start,
            end,
            shift: end as isize - orig as isize,
            rtype: rules[*r].act.replacement_type().to_string(),
            value: return_matches.then(|| s[*a..*b].to_string()),
            status: if rules[*r].http { "NotChecked" } else { "NotAvailable" }.to_string(),
        });
    }
    text.push_str(&s[at..]);
    (text, ms)
}

/// What the real scanner did.
pub struct Got {
    pub event: Ev,
    pub matches: BTreeMap<P, Vec<MatchM>>,
    pub flat: Vec<MatchM>,
}

pub fn scan_real(sc: &Scanner, ev: &Ev, blocked: &[usize], enc: EncM) -> Got {
    let (event, ms) = match enc {
        EncM::Utf8 => {
            let mut e = ev.simple();
            let m = sc.scan(&mut e, blocked.to_vec());
            (Ev::from_simple(&e), m)
        }
        EncM::Utf16 => {
            let mut e = Utf16Event(ev.clone());
            let m = sc.scan(&mut e, blocked.to_vec());
            (e.0, m)
        }
        EncM::Chars => {
            let mut e = CharEvent(ev.clone());
            let m = sc.scan(&mut e, blocked.to_vec());
            (e.0, m)
        }
    };
    let flat: Vec<MatchM> = ms.iter().map(MatchM::from_real).collect();
    let mut matches: BTreeMap<P, Vec<MatchM>> = BTreeMap::new();
    for m in &flat {
        matches.entry(m.path.clone()).or_default().push(m.clone());
    }
    Got { event, matches, flat }
}

/// Full comparison of a scan with the model.
pub fn compare(exp: &Expect, got: &Got) -> Result<(), String> {
    if exp.matches != got.matches {
        return Err(format!(
            "matches differ\n    expected {:?}\n    got      {:?}",
            exp.matches, got.matches
        ));
    }
    if exp.event != got.event {
        return Err(format!(
            "event differs\n    expected {:?}\n    got      {:?}",
            exp.event, got.event
        ));
    }
    Ok(())
}

/// What holds even where the result is left open: every reported match is one of the candidates.
pub fn justified(exp: &Expect, got: &Got, ev: &Ev, enc: EncM) -> Result<(), String> {
    let orig: BTreeMap<P, &String> = ev.strings().into_iter().collect();
    for (path, ms) in &got.matches {
        let s = orig.get(path).ok_or("a match at a path without a string")?;
        // where each byte is in the encoding
        let mut at = vec![0isize; s.len() + 1];
        let mut n = 0;
        for (i, ch) in s.char_indices() {
            at[i] = n;
            n += enc.len(ch.encode_utf8(&mut [0; 4])) as isize;
        }
        at[s.len()] = n;
        let raw: std::collections::HashSet<(usize, isize, isize)> =
            exp.raw.get(path).map(|c| c.iter().map(|(r, x, y)| (*r, at[*x], at[*y])).collect()).unwrap_or_default();
        let mut shift = 0isize;
        for m in ms {
            let a = m.start as isize - shift;
            let b = m.end as isize - m.shift;
            shift = m.shift;
            if !raw.contains(&(m.rule, a, b)) {
                return Err(format!("match {m:?} is none of the candidates {:?}", exp.raw.get(path)));
            }
        }
    }
    Ok(())
}

/// Whether regex-automata's optimised engine disagrees with its own reference engine (the PikeVM)
/// about one of these rules on one of the strings: a defect of that crate, not of dd-sds (see
/// DESIGN.md, "the regex engine").
pub fn engine_defect(rules: &[RuleM], ev: &Ev) -> bool {
    use regex_automata::{meta, nfa::thompson::pikevm::PikeVM, Input};
    for r in rules {
        let (Ok(m), Ok(vm)) = (meta::Regex::new(&r.rust), PikeVM::new(&r.rust)) else { continue };
        let mut cache = vm.create_cache();
        for (_, s) in ev.strings() {
            for (i, _) in s.char_indices() {
                let inp = Input::new(s.as_str()).range(i..);
                if m.search(&inp) != vm.find(&mut cache, inp) {
                    return true;
                }
            }
        }
    }
    false
}
