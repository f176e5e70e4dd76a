use crate::fw::Ctx;

/// Each check is a feature of the build: only what is asked for is compiled.
macro_rules! checks {
    ($($feature:literal: $check:expr,)*) => {{
        #[allow(unused_mut)]
        let mut v: Vec<Check> = vec![];
        $(
            #[cfg(feature = $feature)]
            v.push($check);
        )*
        v
    }};
}

pub mod idx;
pub mod misc;
pub mod pgs;
pub mod render;
pub mod steps;
pub mod text;
pub mod time;
pub mod vobsub;
pub mod whole;

pub struct Check {
    pub id: &'static str,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&Ctx),
}

pub fn all() -> Vec<Check> {
    let mut v = vec![];
    v.extend(vobsub::checks());
    v.extend(idx::checks());
    v.extend(render::checks());
    v.extend(pgs::checks());
    v.extend(time::checks());
    v.extend(text::checks());
    v.extend(misc::checks());
    v.extend(whole::checks());
    v.extend(steps::checks());
    v.sort_by_key(|c| c.id);
    v
}
