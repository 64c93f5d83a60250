use vcore::pre::*;

vcore::spdz!(GSpdzI16, i16, u64, 16, 64);

vcore::table!(I16 => GSpdzI16);
