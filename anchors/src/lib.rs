#![allow(dead_code, unused_imports, non_snake_case, unused_variables, unused_mut)]
pub mod smrt;
pub mod refm; pub mod qh; pub mod zint;
#[cfg(any(c01, dev))]
pub mod c01;
#[cfg(any(c02, dev))]
pub mod c02;
#[cfg(any(c03, dev))]
pub mod c03;
#[cfg(any(c04, dev))]
pub mod c04;
#[cfg(any(c05, dev))]
pub mod c05;
#[cfg(any(c06, dev))]
pub mod c06;
#[cfg(any(c07, dev))]
pub mod c07;
#[cfg(any(c08, dev))]
pub mod c08;
#[cfg(any(c09, dev))]
pub mod c09;
#[cfg(any(c10, dev))]
pub mod c10;
#[cfg(any(c11, dev))]
pub mod c11;
#[cfg(any(c12, dev))]
pub mod c12;
#[cfg(any(c13, dev))]
pub mod c13;
#[cfg(any(c14, dev))]
pub mod c14;
#[cfg(any(c15, dev))]
pub mod c15;
#[cfg(any(c16, dev))]
pub mod c16;
#[cfg(any(c17, dev))]
pub mod c17;
#[cfg(any(c18, dev))]
pub mod c18;
#[cfg(any(c19, dev))]
pub mod c19;
#[cfg(any(c20, dev))]
pub mod c20;
#[cfg(any(c21, dev))]
pub mod c21;
#[cfg(any(c22, dev))]
pub mod c22;
#[cfg(any(c23, dev))]
pub mod c23;
#[cfg(any(c24, dev))]
pub mod c24;
#[cfg(any(c25, dev))]
pub mod c25;
#[cfg(any(c26, dev))]
pub mod c26;
#[cfg(any(c27, dev))]
pub mod c27;
#[cfg(any(c28, dev))]
pub mod c28;
#[cfg(any(c29, dev))]
pub mod c29;
#[cfg(any(c30, dev))]
pub mod c30;
#[cfg(any(c33, dev))]
pub mod c33;
#[cfg(any(c36, dev))]
pub mod c36;
#[cfg(any(c35, dev))]
pub mod c35;
#[cfg(c99)]
pub mod c99;
