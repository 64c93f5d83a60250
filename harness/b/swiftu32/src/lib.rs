use vcore::pre::*;

vcore::swift!(GSwiftU32, u32, u64, 32);

vcore::table!(U32 => GSwiftU32);
