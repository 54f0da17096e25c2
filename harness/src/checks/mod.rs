use crate::{Check};
mod agree;
pub mod codec;
mod conc;
pub mod store;
pub mod hostile;
pub mod incr;
mod rules;
mod san;
mod streams;
pub fn worker(a: &[String]) {
    match a.first().map(|s| s.as_str()) {
        Some("insert") => store::worker_insert(&a[1..]),
        Some("lock-fight") => conc::worker_fight(&a[1..]),
        Some("lock-hold") => conc::worker_hold(&a[1..]),
        Some("lock-try") => conc::worker_try(&a[1..]),
        Some("lock-alone") => conc::worker_alone(&a[1..]),
        _ => std::process::exit(64),
    }
}
pub fn all() -> Vec<Check> {
    let mut v = Vec::new();
    v.extend(streams::checks());
    v.extend(codec::checks());
    v.extend(store::checks());
    v.extend(rules::checks());
    v.extend(incr::checks());
    v.extend(hostile::checks());
    v.extend(agree::checks());
    v.extend(conc::checks());
    v.extend(san::checks());
    v
}
