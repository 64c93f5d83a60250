use vcore::pre::*;

vcore::swift!(GSwiftI16, i16, u64, 16);

vcore::table!(I16 => GSwiftI16);
