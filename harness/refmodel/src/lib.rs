//! Reference model of KDL 1.0, workload generators and evidence writers.
//! Shares no code with knuffel and does not depend on it.
pub mod rng;
pub mod kdl;
pub mod gen;
pub mod mutate;
pub mod report;
