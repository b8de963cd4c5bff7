//! Deterministic simulation of nommy: one list of choices decides a whole run.
#![allow(incomplete_features)]
#![feature(const_generics)]
pub mod ch;
pub mod model;
pub mod run;
pub mod source;
pub mod track;
pub mod users;
pub mod val;
pub mod wire;
pub mod zoo;
