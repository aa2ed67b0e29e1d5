pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c23;
pub mod gen;
pub mod search;
pub mod util;
use crate::report::Check;
pub static ALL: &[&Check] = &[&c01::CHECK, &c02::CHECK, &c03::CHECK, &c04::CHECK, &c05::CHECK, &c06::CHECK, &c07::CHECK, &c08::CHECK, &c09::CHECK, &c10::CHECK, &c11::CHECK, &c12::CHECK, &c13::CHECK, &c14::CHECK, &c15::CHECK, &c16::CHECK, &c17::CHECK, &c18::CHECK, &c19::CHECK, &c20::CHECK, &c21::CHECK, &c22::CHECK, &c23::CHECK, &gen::CHECK];
