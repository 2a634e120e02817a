#![allow(dead_code)]
mod rt;
mod vsrc;
mod wrap;
mod vecs;
mod sigs;
mod conc;
mod state;
mod ser;
mod mem;
