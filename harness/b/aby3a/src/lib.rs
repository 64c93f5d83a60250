use vcore::pre::*;

vcore::aby3_like!(GAby3U8, Aby3<SimNet>, Be::Aby3, u8, u64, 8);
vcore::aby3_like!(GAby3U16, Aby3<SimNet>, Be::Aby3, u16, u64, 16);
vcore::aby3_like!(GAby3U32, Aby3<SimNet>, Be::Aby3, u32, u64, 32);

vcore::table!(U8 => GAby3U8, U16 => GAby3U16, U32 => GAby3U32);
