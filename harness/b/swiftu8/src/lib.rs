use vcore::pre::*;

vcore::swift!(GSwiftU8, u8, u64, 8);

vcore::table!(U8 => GSwiftU8);
