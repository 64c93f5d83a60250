use vcore::pre::*;

vcore::spdz!(GSpdzU8, u8, u64, 8, 64);
vcore::spdz!(GSpdzU16, u16, u64, 16, 64);

vcore::table!(U8 => GSpdzU8, U16 => GSpdzU16);
