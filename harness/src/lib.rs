pub mod bind;
pub mod explore;
pub mod field;
pub mod gen;
pub mod refm;
pub mod rnd;
pub mod entropy;
pub mod prim;
pub mod ship;
pub mod sched;
pub mod statics;
