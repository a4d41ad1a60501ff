//! One module per group of properties; each says what is enumerated and against what.
use crate::engine::Check;

#[cfg(feature = "capture")]
pub mod capture;
pub mod editing;
pub mod history;
pub mod life;
pub mod lines;
pub mod notices;
pub mod pipe;
pub mod responses;
pub mod screen;
pub mod shutdown;
pub mod suspend;
pub mod threads;
pub mod util;
pub mod vt52;

pub const IDS: &[&str] = &["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P21", "P22", "P23", "P24", "P25", "P26", "P27", "P28", "P29"];

pub fn build(id: &str, thorough: bool) -> Check {
    #[cfg(feature = "capture")]
    if let Some(c) = capture::build(id, thorough) {
        return c;
    }
    screen::build(id, thorough).or_else(|| lines::build(id, thorough)).or_else(|| editing::build(id, thorough))
        .or_else(|| history::build(id, thorough))
        .or_else(|| pipe::build(id, thorough))
        .or_else(|| suspend::build(id, thorough))
        .or_else(|| vt52::build(id, thorough))
        .or_else(|| threads::build(id, thorough))
        .or_else(|| responses::build(id, thorough))
        .or_else(|| notices::build(id, thorough))
        .or_else(|| shutdown::build(id, thorough))
        .unwrap_or_else(|| panic!("no check for {id}"))
}
