use crate::drive::Prop;
pub mod cache;
pub mod control;
pub mod files;
pub mod hist;
pub mod model;
pub mod input;
pub mod par;
pub mod phys;
pub mod results;
pub mod tools;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(results::props());
    v.extend(par::props());
    v.extend(cache::props());
    v.extend(files::props());
    v.extend(tools::props());
    v.extend(model::props());
    v.extend(input::props());
    v.extend(control::props());
    v.extend(hist::props());
    v.extend(phys::props());
    v
}
