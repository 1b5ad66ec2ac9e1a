pub mod gen;
pub mod mock;
pub mod model;
pub mod rng;
pub mod scen;
pub mod sim;
pub mod spec;
pub mod svm;
