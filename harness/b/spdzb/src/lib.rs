use vcore::pre::*;

vcore::spdz!(GSpdzU32, u32, u64, 32, 64);
vcore::spdz!(GSpdzU64, u64, u128, 64, 128);

vcore::table!(U32 => GSpdzU32, U64 => GSpdzU64);
