//! The world model, shared with the host simulation.
pub mod nets;
pub mod world;
