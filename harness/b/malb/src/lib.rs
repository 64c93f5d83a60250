use vcore::pre::*;

vcore::aby3_like!(GMalU16, MalAby3<SimNet>, Be::Mal, u16, u64, 16);
vcore::aby3_like!(GMalI16, MalAby3<SimNet>, Be::Mal, i16, u64, 16);

vcore::table!(U16 => GMalU16, I16 => GMalI16);
