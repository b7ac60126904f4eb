pub mod checks;
pub mod engine;
pub mod history;
pub mod meter;
pub mod node;
pub mod report;
pub mod spec;
pub mod world;
pub mod hostile;
