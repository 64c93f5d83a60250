use vcore::pre::*;

vcore::swift!(GSwiftU16, u16, u64, 16);

vcore::table!(U16 => GSwiftU16);
