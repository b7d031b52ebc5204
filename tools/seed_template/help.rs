#![allow(dead_code, unused_imports)]
use dd_sds::*;
use std::collections::BTreeMap;
use std::sync::Arc;

fn scanner(rules: &[RegexRuleConfig]) -> Scanner {
    let r: Vec<Arc<dyn RuleConfig>> = rules.iter().map(|x| x.build()).collect();
    ScannerBuilder::new(&r).build().unwrap()
}
fn rule(p: &str) -> RegexRuleConfig {
    RegexRuleConfig::new(p)
}
fn redact(p: &str, r: &str) -> RegexRuleConfig {
    RegexRuleConfig::new(p).match_action(MatchAction::Redact { replacement: r.into() })
}
fn kw(look: usize, inc: &[&str], exc: &[&str]) -> ProximityKeywordsConfig {
    ProximityKeywordsConfig {
        look_ahead_character_count: look,
        included_keywords: inc.iter().map(|x| x.to_string()).collect(),
        excluded_keywords: exc.iter().map(|x| x.to_string()).collect(),
    }
}
fn spans(sc: &Scanner, text: &str) -> Vec<(usize, usize, usize)> {
    let mut e = SimpleEvent::String(text.into());
    sc.scan(&mut e, vec![]).iter().map(|m| (m.rule_index, m.start_index, m.end_index_exclusive)).collect()
}
fn map(x: &[(&str, SimpleEvent)]) -> SimpleEvent {
    SimpleEvent::Map(x.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())
}
fn s(x: &str) -> SimpleEvent {
    SimpleEvent::String(x.into())
}
fn field(x: &str) -> Path<'static> {
    Path::from(vec![PathSegment::Field(x.to_string().into())])
}
