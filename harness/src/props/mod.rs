use crate::engine::Prop;

mod bind;
mod conf;
mod custom;
mod http;
mod life;
mod mem;
mod meter;
mod more;
mod regex;
mod scale;
mod scan;
mod valid;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(scan::props());
    v.extend(more::props());
    v.extend(regex::props());
    v.extend(http::props());
    v.extend(valid::props());
    v.extend(bind::props());
    v.extend(meter::props());
    v.extend(conf::props());
    v.extend(custom::props());
    v.extend(life::props());
    v.extend(mem::props());
    v.sort_by_key(|p| p.id);
    v
}
