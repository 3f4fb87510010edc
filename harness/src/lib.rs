pub mod alloc;
pub mod cli;
pub mod engine;
pub mod fuzz;
pub mod gen;
pub mod interleave;
pub mod mined;
pub mod model;
pub mod props;
pub mod refdata;
pub mod selftest;
pub mod watch;
