//! Driver of the deterministic simulation: plans, forked executions, minimisation, replay, evidence.
pub mod csmodel;
pub mod driver;
pub mod e2e;
pub mod faulty;
pub mod plan;
pub mod rng;
pub mod sys;
pub mod tap;

pub use driver::{Budget, Cx, Scenario, Verdict, fnv, main_for, take_panics};
pub use plan::{Fault, Plan};
pub use rng::Rng;
