use vcore::pre::*;

vcore::aby3_like!(GMalU8, MalAby3<SimNet>, Be::Mal, u8, u64, 8);
vcore::aby3_like!(GMalU64, MalAby3<SimNet>, Be::Mal, u64, u128, 64);

vcore::table!(U8 => GMalU8, U64 => GMalU64);
