mod sym;
#[cfg(feature = "c01")] mod c01;
#[cfg(feature = "c02")] mod c02;
#[cfg(feature = "c03")] mod c03;
#[cfg(feature = "c04")] mod c04;
#[cfg(feature = "c05")] mod c05;
#[cfg(feature = "c06")] mod c06;
#[cfg(feature = "c07")] mod c07;
#[cfg(feature = "c08")] mod c08;
#[cfg(feature = "c09")] mod c09;
#[cfg(feature = "c10")] mod c10;
#[cfg(feature = "c11")] mod c11;
#[cfg(feature = "c12")] mod c12;
#[cfg(feature = "c13")] mod c13;
#[cfg(feature = "c14")] mod c14;
#[cfg(feature = "c15")] mod c15;
#[cfg(feature = "c16")] mod c16;
#[cfg(feature = "c17")] mod c17;
#[cfg(feature = "c18")] mod c18;
#[cfg(feature = "c19")] mod c19;
#[cfg(feature = "c20")] mod c20;
#[cfg(feature = "c21")] mod c21;
#[cfg(feature = "c22")] mod c22;
#[cfg(feature = "c23")] mod c23;
#[cfg(feature = "c24")] mod c24;
#[cfg(feature = "c25")] mod c25;
#[cfg(feature = "c26")] mod c26;
#[cfg(feature = "c27")] mod c27;
#[cfg(feature = "c28")] mod c28;
#[cfg(feature = "c29")] mod c29;
#[cfg(feature = "c30")] mod c30;
#[cfg(feature = "c31")] mod c31;
#[cfg(feature = "c32")] mod c32;
#[cfg(feature = "c33")] mod c33;
#[cfg(feature = "c34")] mod c34;
#[cfg(feature = "c35")] mod c35;
#[cfg(feature = "c36")] mod c36;
#[cfg(feature = "c37")] mod c37;
#[cfg(feature = "c38")] mod c38;
#[cfg(feature = "c39")] mod c39;
