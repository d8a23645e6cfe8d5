pub mod rng;
pub mod fuzz;
pub mod walk;
pub mod gen;
pub mod html;
pub mod cli;
pub mod engine;
pub mod props;
