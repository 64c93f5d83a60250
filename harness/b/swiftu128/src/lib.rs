use vcore::pre::*;

vcore::swift!(GSwiftU128, u128, u128, 128);

vcore::table!(U128 => GSwiftU128);
