use crate::ctx::{Ctx, Outcome};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> Outcome,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub measure: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
}

mod arrays;
pub mod bisect;
pub mod conv;
pub mod drivers;
mod endtoend;
mod iterate;
mod learners;
mod lmi;
pub mod oracles;
mod regions;
pub mod sessions;

pub const ALL: &[Prop] = &[
    regions::C01, regions::C02, regions::C03, regions::C04,
    drivers::C05, drivers::C06, drivers::C07,
    bisect::C08, bisect::C09,
    sessions::C10, sessions::C11,
    conv::C12, conv::C13,
    oracles::C14, oracles::C15,
    lmi::C16, lmi::C17,
    endtoend::C18,
    arrays::C19,
    iterate::C20,
    learners::C22,
];
