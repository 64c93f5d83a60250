use vcore::pre::*;

vcore::aby3_like!(GAby3U64, Aby3<SimNet>, Be::Aby3, u64, u128, 64);
vcore::aby3_like!(GAby3U128, Aby3<SimNet>, Be::Aby3, u128, u128, 128);
vcore::aby3_like!(GAby3I16, Aby3<SimNet>, Be::Aby3, i16, u64, 16);

vcore::table!(U64 => GAby3U64, U128 => GAby3U128, I16 => GAby3I16);
