use vcore::pre::*;

vcore::swift!(GSwiftU64, u64, u128, 64);

vcore::table!(U64 => GSwiftU64);
