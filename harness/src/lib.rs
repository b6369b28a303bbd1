#[macro_use]
mod vp;
#[macro_use]
mod enc;
#[macro_use]
mod attr;
mod parts;
mod golden;
mod tree;
mod val;
mod docs;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
