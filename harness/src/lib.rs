pub mod alloc;
pub mod cli;
pub mod ctx;
pub mod gen;
pub mod letters;
pub mod oracle;
pub mod props;
pub mod rng;
pub mod sup;
pub mod sys;
pub mod trees;
pub mod worker;
pub mod registry;
