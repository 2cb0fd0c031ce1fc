//! One simulation per property.
pub mod atomic;
pub mod config;
pub mod eval;
pub mod leak;
pub mod load;
pub mod pace;
pub mod session;
pub mod world;

use crate::runner::Prop;

pub fn all() -> Vec<Prop> {
    let mut v = load::props();
    v.extend(config::props());
    v.extend(eval::props());
    v.extend(session::props());
    v.extend(leak::props());
    v.extend(atomic::props());
    v.extend(pace::props());
    v.sort_by_key(|p| p.id);
    v
}
