pub mod core;
pub mod dist;
pub mod sampling;
pub mod term;
pub mod equiv;
pub mod parallel;
pub mod params;
pub mod restart;
pub mod plot;
pub mod print;
pub mod wrap;
pub mod extra;
pub mod image;
pub mod rprint;
