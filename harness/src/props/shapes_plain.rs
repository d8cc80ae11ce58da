//! Generated by tools/gen_shapes.py.
#![allow(dead_code, non_snake_case, clippy::all)]
use super::derive::{Nil, Part, Spy};
use crate::eng::{Ctx, Res};
use model::rng::Rng;
use sia::encoding::*;

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct Unit;
impl Part for Unit {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) {  }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct EmptyNamed {
}
impl Part for EmptyNamed {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self {  } }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) {  }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct EmptyTuple();
impl Part for EmptyTuple {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self() }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) {  }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct One {
    pub plain_buf: Spy<1>,
}
impl Part for One {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self { plain_buf: Part::make(rng) } }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.plain_buf.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct OneTuple(pub Spy<2>);
impl Part for OneTuple {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self(Part::make(rng)) }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.0.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct Same {
    pub plain_enc: Spy<7>,
    pub plain_result: Spy<7>,
    /// documented
    pub id: Spy<7>,
    /// documented
    #[allow(unused)]
    pub plain_f: Spy<7>,
    pub a_rather_long_field_name_with_many_words: Spy<7>,
    pub plain_dec: Spy<7>,
}
impl Part for Same {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self { plain_enc: Part::make(rng), plain_result: Part::make(rng), id: Part::make(rng), plain_f: Part::make(rng), a_rather_long_field_name_with_many_words: Part::make(rng), plain_dec: Part::make(rng) } }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.plain_enc.leaves(ver, out); self.plain_result.leaves(ver, out); self.id.leaves(ver, out); self.plain_f.leaves(ver, out); self.a_rather_long_field_name_with_many_words.leaves(ver, out); self.plain_dec.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct SameTuple(pub Spy<7>, pub Spy<7>, pub Spy<7>, pub Spy<7>, pub Spy<7>, Spy<7>, pub Spy<7>, Spy<7>, Spy<7>, Spy<7>, Spy<7>, Spy<7>);
impl Part for SameTuple {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self(Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng)) }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.0.leaves(ver, out); self.1.leaves(ver, out); self.2.leaves(ver, out); self.3.leaves(ver, out); self.4.leaves(ver, out); self.5.leaves(ver, out); self.6.leaves(ver, out); self.7.leaves(ver, out); self.8.leaves(ver, out); self.9.leaves(ver, out); self.10.leaves(ver, out); self.11.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct Ints {
    #[allow(unused)]
    pub plain_std: u64,
    pub plain_len: u64,
    pub plain_encode_v1: u64,
    /// documented
    #[allow(unused)]
    pub plain_write: u64,
    #[allow(unused)]
    pub a_rather_long_field_name_with_many_words: u64,
    pub self_: u64,
    #[allow(unused)]
    pub plain_decode_v1: u64,
    /// documented
    pub plain_item: u64,
    pub plain_crate_: u64,
}
impl Part for Ints {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self { plain_std: Part::make(rng), plain_len: Part::make(rng), plain_encode_v1: Part::make(rng), plain_write: Part::make(rng), a_rather_long_field_name_with_many_words: Part::make(rng), self_: Part::make(rng), plain_decode_v1: Part::make(rng), plain_item: Part::make(rng), plain_crate_: Part::make(rng) } }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.plain_std.leaves(ver, out); self.plain_len.leaves(ver, out); self.plain_encode_v1.leaves(ver, out); self.plain_write.leaves(ver, out); self.a_rather_long_field_name_with_many_words.leaves(ver, out); self.self_.leaves(ver, out); self.plain_decode_v1.leaves(ver, out); self.plain_item.leaves(ver, out); self.plain_crate_.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct Bytes(pub u8, u8, pub u8, u8, u8, pub u8, u8, pub u8, pub u8);
impl Part for Bytes {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self(Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng)) }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.0.leaves(ver, out); self.1.leaves(ver, out); self.2.leaves(ver, out); self.3.leaves(ver, out); self.4.leaves(ver, out); self.5.leaves(ver, out); self.6.leaves(ver, out); self.7.leaves(ver, out); self.8.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct Nils {
    /// documented
    pub plain_io: Nil<3>,
    pub plain_decode_v1: Nil<4>,
    pub plain_w: Nil<5>,
    pub plain_e: Nil<6>,
}
impl Part for Nils {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self { plain_io: Part::make(rng), plain_decode_v1: Part::make(rng), plain_w: Part::make(rng), plain_e: Part::make(rng) } }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.plain_io.leaves(ver, out); self.plain_decode_v1.leaves(ver, out); self.plain_w.leaves(ver, out); self.plain_e.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct SNamed2 {
    pub id: Nil<7>,
    /// documented
    pub plain_index: Spy<8>,
}
impl Part for SNamed2 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self { id: Part::make(rng), plain_index: Part::make(rng) } }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.id.leaves(ver, out); self.plain_index.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct STuple2(pub One, Spy<9>);
impl Part for STuple2 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self(Part::make(rng), Part::make(rng)) }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.0.leaves(ver, out); self.1.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct SNamed3 {
    pub plain_match: Spy<10>,
    pub plain_w: Option<Spy<11>>,
    pub plain_dec: Spy<12>,
}
impl Part for SNamed3 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self { plain_match: Part::make(rng), plain_w: Part::make(rng), plain_dec: Part::make(rng) } }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.plain_match.leaves(ver, out); self.plain_w.leaves(ver, out); self.plain_dec.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct STuple3(pub Spy<13>, EmptyTuple, pub Spy<14>);
impl Part for STuple3 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self(Part::make(rng), Part::make(rng), Part::make(rng)) }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.0.leaves(ver, out); self.1.leaves(ver, out); self.2.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct SNamed4 {
    pub a_rather_long_field_name_with_many_words: u64,
    #[allow(unused)]
    pub plain_write: Spy<15>,
    pub plain_buf: bool,
    pub plain_i: Nil<16>,
}
impl Part for SNamed4 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self { a_rather_long_field_name_with_many_words: Part::make(rng), plain_write: Part::make(rng), plain_buf: Part::make(rng), plain_i: Part::make(rng) } }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.a_rather_long_field_name_with_many_words.leaves(ver, out); self.plain_write.leaves(ver, out); self.plain_buf.leaves(ver, out); self.plain_i.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct STuple4(Spy<17>, pub Option<Option<bool>>, Spy<18>, pub u8);
impl Part for STuple4 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self(Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng)) }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.0.leaves(ver, out); self.1.leaves(ver, out); self.2.leaves(ver, out); self.3.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct SNamed5 {
    /// documented
    pub camelCase: Option<u64>,
    pub plain_err: SNamed3,
    pub plain_decode: u8,
    pub plain_encode: Option<Option<bool>>,
    pub plain_i: Vec<Option<Spy<19>>>,
}
impl Part for SNamed5 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self { camelCase: Part::make(rng), plain_err: Part::make(rng), plain_decode: Part::make(rng), plain_encode: Part::make(rng), plain_i: Part::make(rng) } }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.camelCase.leaves(ver, out); self.plain_err.leaves(ver, out); self.plain_decode.leaves(ver, out); self.plain_encode.leaves(ver, out); self.plain_i.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct STuple5(pub Nil<20>, pub bool, pub Spy<21>, Spy<22>, pub Vec<Spy<23>>);
impl Part for STuple5 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self(Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng)) }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.0.leaves(ver, out); self.1.leaves(ver, out); self.2.leaves(ver, out); self.3.leaves(ver, out); self.4.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct SNamed6 {
    pub state: Spy<24>,
    pub plain_ty: EmptyTuple,
    pub plain_r: Spy<25>,
    pub plain_write: Spy<26>,
    pub plain_e: Spy<27>,
    /// documented
    pub plain_item: STuple2,
}
impl Part for SNamed6 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self { state: Part::make(rng), plain_ty: Part::make(rng), plain_r: Part::make(rng), plain_write: Part::make(rng), plain_e: Part::make(rng), plain_item: Part::make(rng) } }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.state.leaves(ver, out); self.plain_ty.leaves(ver, out); self.plain_r.leaves(ver, out); self.plain_write.leaves(ver, out); self.plain_e.leaves(ver, out); self.plain_item.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct STuple6(Spy<28>, pub Spy<29>, Option<Option<bool>>, pub Vec<u8>, pub Spy<30>, std::vec::Vec<u8>);
impl Part for STuple6 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self(Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng)) }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.0.leaves(ver, out); self.1.leaves(ver, out); self.2.leaves(ver, out); self.3.leaves(ver, out); self.4.leaves(ver, out); self.5.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct SNamed7 {
    pub plain_fn: Spy<31>,
    pub plain_data: bool,
    pub plain_io: Option<Spy<32>>,
    pub plain_read: u64,
    /// documented
    pub plain_match: Spy<33>,
    pub plain_name: Vec<Spy<34>>,
    /// documented
    pub plain_fields: Spy<35>,
}
impl Part for SNamed7 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self { plain_fn: Part::make(rng), plain_data: Part::make(rng), plain_io: Part::make(rng), plain_read: Part::make(rng), plain_match: Part::make(rng), plain_name: Part::make(rng), plain_fields: Part::make(rng) } }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.plain_fn.leaves(ver, out); self.plain_data.leaves(ver, out); self.plain_io.leaves(ver, out); self.plain_read.leaves(ver, out); self.plain_match.leaves(ver, out); self.plain_name.leaves(ver, out); self.plain_fields.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct STuple7(pub Option<Spy<36>>, pub Spy<37>, pub Spy<38>, Option<u64>, pub Spy<39>, One, pub Spy<40>);
impl Part for STuple7 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self(Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng)) }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.0.leaves(ver, out); self.1.leaves(ver, out); self.2.leaves(ver, out); self.3.leaves(ver, out); self.4.leaves(ver, out); self.5.leaves(ver, out); self.6.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct SNamed8 {
    pub plain_f: Nil<41>,
    pub plain_decode: std::vec::Vec<u8>,
    pub plain_buf: Vec<Spy<42>>,
    pub state: Spy<43>,
    /// documented
    pub plain_enc: STuple2,
    pub __: Spy<44>,
    #[allow(unused)]
    pub camelCase: Spy<45>,
    /// documented
    pub plain_fields: Nil<46>,
}
impl Part for SNamed8 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self { plain_f: Part::make(rng), plain_decode: Part::make(rng), plain_buf: Part::make(rng), state: Part::make(rng), plain_enc: Part::make(rng), __: Part::make(rng), camelCase: Part::make(rng), plain_fields: Part::make(rng) } }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.plain_f.leaves(ver, out); self.plain_decode.leaves(ver, out); self.plain_buf.leaves(ver, out); self.state.leaves(ver, out); self.plain_enc.leaves(ver, out); self.__.leaves(ver, out); self.camelCase.leaves(ver, out); self.plain_fields.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct STuple8(pub Option<Spy<47>>, pub Spy<48>, pub Spy<49>, pub Spy<50>, pub SameTuple, Vec<u8>, pub Spy<51>, pub Spy<52>);
impl Part for STuple8 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self(Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng)) }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.0.leaves(ver, out); self.1.leaves(ver, out); self.2.leaves(ver, out); self.3.leaves(ver, out); self.4.leaves(ver, out); self.5.leaves(ver, out); self.6.leaves(ver, out); self.7.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct SNamed9 {
    #[allow(unused)]
    pub camelCase: Spy<53>,
    pub plain_encode: Vec<Option<Spy<54>>>,
    pub plain_h: Option<Spy<55>>,
    pub plain_i: SNamed8,
    #[allow(unused)]
    pub plain_enc: Spy<56>,
    pub plain_buf: Spy<57>,
    /// documented
    pub plain_type: Spy<58>,
    pub plain_match: Vec<Spy<59>>,
    pub plain_g: Nil<60>,
}
impl Part for SNamed9 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self { camelCase: Part::make(rng), plain_encode: Part::make(rng), plain_h: Part::make(rng), plain_i: Part::make(rng), plain_enc: Part::make(rng), plain_buf: Part::make(rng), plain_type: Part::make(rng), plain_match: Part::make(rng), plain_g: Part::make(rng) } }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.camelCase.leaves(ver, out); self.plain_encode.leaves(ver, out); self.plain_h.leaves(ver, out); self.plain_i.leaves(ver, out); self.plain_enc.leaves(ver, out); self.plain_buf.leaves(ver, out); self.plain_type.leaves(ver, out); self.plain_match.leaves(ver, out); self.plain_g.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct STuple9(Vec<Option<Spy<61>>>, Spy<62>, pub Spy<63>, Spy<64>, pub Nil<65>, pub Nil<66>, pub Option<Spy<67>>, pub Spy<68>, Vec<Spy<69>>);
impl Part for STuple9 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self(Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng)) }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.0.leaves(ver, out); self.1.leaves(ver, out); self.2.leaves(ver, out); self.3.leaves(ver, out); self.4.leaves(ver, out); self.5.leaves(ver, out); self.6.leaves(ver, out); self.7.leaves(ver, out); self.8.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct SNamed10 {
    pub plain_match: Spy<70>,
    pub plain_dec: Unit,
    pub plain_decode: std::vec::Vec<u8>,
    pub camelCase: Option<Option<bool>>,
    pub plain_w: Option<Option<bool>>,
    #[allow(unused)]
    pub plain_io: Spy<71>,
    pub plain_len: Spy<72>,
    pub plain_i: String,
    pub plain_err: Vec<u8>,
    pub plain_type: Nil<73>,
}
impl Part for SNamed10 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self { plain_match: Part::make(rng), plain_dec: Part::make(rng), plain_decode: Part::make(rng), camelCase: Part::make(rng), plain_w: Part::make(rng), plain_io: Part::make(rng), plain_len: Part::make(rng), plain_i: Part::make(rng), plain_err: Part::make(rng), plain_type: Part::make(rng) } }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.plain_match.leaves(ver, out); self.plain_dec.leaves(ver, out); self.plain_decode.leaves(ver, out); self.camelCase.leaves(ver, out); self.plain_w.leaves(ver, out); self.plain_io.leaves(ver, out); self.plain_len.leaves(ver, out); self.plain_i.leaves(ver, out); self.plain_err.leaves(ver, out); self.plain_type.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct STuple10(Vec<Spy<74>>, Nil<75>, pub u64, SNamed7, Spy<76>, pub [u8; 0], Spy<77>, Spy<78>, Option<Option<bool>>, Spy<79>);
impl Part for STuple10 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self(Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng)) }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.0.leaves(ver, out); self.1.leaves(ver, out); self.2.leaves(ver, out); self.3.leaves(ver, out); self.4.leaves(ver, out); self.5.leaves(ver, out); self.6.leaves(ver, out); self.7.leaves(ver, out); self.8.leaves(ver, out); self.9.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct SNamed11 {
    /// documented
    pub plain_encode_v1: u64,
    pub plain_result: Option<Spy<80>>,
    pub plain_encode: Spy<81>,
    pub plain_fields: Vec<Option<Spy<82>>>,
    pub plain_decode: Nil<83>,
    pub plain_h: Spy<84>,
    pub plain_match: Spy<85>,
    pub plain_i: Spy<86>,
    pub plain_dec: u8,
    pub plain_type: [u8; 5],
    pub plain_fn: Option<u64>,
}
impl Part for SNamed11 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self { plain_encode_v1: Part::make(rng), plain_result: Part::make(rng), plain_encode: Part::make(rng), plain_fields: Part::make(rng), plain_decode: Part::make(rng), plain_h: Part::make(rng), plain_match: Part::make(rng), plain_i: Part::make(rng), plain_dec: Part::make(rng), plain_type: Part::make(rng), plain_fn: Part::make(rng) } }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.plain_encode_v1.leaves(ver, out); self.plain_result.leaves(ver, out); self.plain_encode.leaves(ver, out); self.plain_fields.leaves(ver, out); self.plain_decode.leaves(ver, out); self.plain_h.leaves(ver, out); self.plain_match.leaves(ver, out); self.plain_i.leaves(ver, out); self.plain_dec.leaves(ver, out); self.plain_type.leaves(ver, out); self.plain_fn.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct STuple11(Spy<87>, pub String, pub Nil<88>, Vec<Spy<89>>, Spy<90>, Spy<91>, pub Vec<Spy<92>>, Vec<Option<Spy<93>>>, pub Option<Option<bool>>, Spy<94>, Spy<95>);
impl Part for STuple11 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self(Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng)) }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.0.leaves(ver, out); self.1.leaves(ver, out); self.2.leaves(ver, out); self.3.leaves(ver, out); self.4.leaves(ver, out); self.5.leaves(ver, out); self.6.leaves(ver, out); self.7.leaves(ver, out); self.8.leaves(ver, out); self.9.leaves(ver, out); self.10.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct SNamed12 {
    pub plain_fields: Spy<96>,
    pub _hidden: String,
    /// documented
    pub plain_io: Spy<97>,
    #[allow(unused)]
    pub plain_index: Spy<98>,
    pub plain_std: Spy<99>,
    /// documented
    pub plain_item: [u8; 5],
    pub plain_decode: Vec<String>,
    pub plain_ok: Spy<100>,
    pub self_: Spy<101>,
    pub plain_encode_v1: Spy<102>,
    pub camelCase: Vec<Spy<103>>,
    pub plain_e: Spy<104>,
}
impl Part for SNamed12 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self { plain_fields: Part::make(rng), _hidden: Part::make(rng), plain_io: Part::make(rng), plain_index: Part::make(rng), plain_std: Part::make(rng), plain_item: Part::make(rng), plain_decode: Part::make(rng), plain_ok: Part::make(rng), self_: Part::make(rng), plain_encode_v1: Part::make(rng), camelCase: Part::make(rng), plain_e: Part::make(rng) } }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.plain_fields.leaves(ver, out); self._hidden.leaves(ver, out); self.plain_io.leaves(ver, out); self.plain_index.leaves(ver, out); self.plain_std.leaves(ver, out); self.plain_item.leaves(ver, out); self.plain_decode.leaves(ver, out); self.plain_ok.leaves(ver, out); self.self_.leaves(ver, out); self.plain_encode_v1.leaves(ver, out); self.camelCase.leaves(ver, out); self.plain_e.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct STuple12(pub Vec<Option<Spy<105>>>, pub Spy<106>, pub [u8; 5], pub Spy<107>, pub Spy<108>, pub Nil<109>, pub Vec<Spy<110>>, pub Vec<Option<Spy<111>>>, Spy<112>, Spy<113>, pub Spy<114>, [u8; 5]);
impl Part for STuple12 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self(Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng)) }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.0.leaves(ver, out); self.1.leaves(ver, out); self.2.leaves(ver, out); self.3.leaves(ver, out); self.4.leaves(ver, out); self.5.leaves(ver, out); self.6.leaves(ver, out); self.7.leaves(ver, out); self.8.leaves(ver, out); self.9.leaves(ver, out); self.10.leaves(ver, out); self.11.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct SNamed13 {
    #[allow(unused)]
    pub plain_write: Spy<115>,
    pub plain_fields: u64,
    pub plain_r: Vec<Spy<116>>,
    pub plain_io: Spy<117>,
    pub plain_item: Spy<118>,
    pub plain_encode: Spy<119>,
    /// documented
    pub plain_decode_v1: u64,
    pub state: Option<u64>,
    pub plain_fn: Spy<120>,
    #[allow(unused)]
    pub plain_err: Spy<121>,
    pub plain_g: Spy<122>,
    #[allow(unused)]
    pub plain_result: String,
    pub plain_dec: bool,
}
impl Part for SNamed13 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self { plain_write: Part::make(rng), plain_fields: Part::make(rng), plain_r: Part::make(rng), plain_io: Part::make(rng), plain_item: Part::make(rng), plain_encode: Part::make(rng), plain_decode_v1: Part::make(rng), state: Part::make(rng), plain_fn: Part::make(rng), plain_err: Part::make(rng), plain_g: Part::make(rng), plain_result: Part::make(rng), plain_dec: Part::make(rng) } }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.plain_write.leaves(ver, out); self.plain_fields.leaves(ver, out); self.plain_r.leaves(ver, out); self.plain_io.leaves(ver, out); self.plain_item.leaves(ver, out); self.plain_encode.leaves(ver, out); self.plain_decode_v1.leaves(ver, out); self.state.leaves(ver, out); self.plain_fn.leaves(ver, out); self.plain_err.leaves(ver, out); self.plain_g.leaves(ver, out); self.plain_result.leaves(ver, out); self.plain_dec.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct STuple13(Spy<123>, pub Spy<124>, String, pub u64, pub Spy<125>, Spy<126>, pub Option<Spy<127>>, Option<Option<bool>>, Spy<128>, pub Spy<129>, std::vec::Vec<u8>, pub Spy<130>, Spy<131>);
impl Part for STuple13 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self(Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng)) }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.0.leaves(ver, out); self.1.leaves(ver, out); self.2.leaves(ver, out); self.3.leaves(ver, out); self.4.leaves(ver, out); self.5.leaves(ver, out); self.6.leaves(ver, out); self.7.leaves(ver, out); self.8.leaves(ver, out); self.9.leaves(ver, out); self.10.leaves(ver, out); self.11.leaves(ver, out); self.12.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct SNamed14 {
    pub plain_io: Nil<132>,
    pub plain_encode_v1: Spy<133>,
    pub plain_read: Spy<134>,
    pub plain_crate_: Nil<135>,
    pub plain_ty: Spy<136>,
    /// documented
    pub plain_type: Nil<137>,
    pub plain_decode_v1: Spy<138>,
    /// documented
    #[allow(unused)]
    pub plain_e: Option<Spy<139>>,
    pub _hidden: [u8; 5],
    /// documented
    pub plain_encode: Option<Spy<140>>,
    pub plain_err: Spy<141>,
    pub plain_match: [u8; 5],
    pub plain_ok: Vec<Spy<142>>,
    pub __: Nil<143>,
}
impl Part for SNamed14 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self { plain_io: Part::make(rng), plain_encode_v1: Part::make(rng), plain_read: Part::make(rng), plain_crate_: Part::make(rng), plain_ty: Part::make(rng), plain_type: Part::make(rng), plain_decode_v1: Part::make(rng), plain_e: Part::make(rng), _hidden: Part::make(rng), plain_encode: Part::make(rng), plain_err: Part::make(rng), plain_match: Part::make(rng), plain_ok: Part::make(rng), __: Part::make(rng) } }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.plain_io.leaves(ver, out); self.plain_encode_v1.leaves(ver, out); self.plain_read.leaves(ver, out); self.plain_crate_.leaves(ver, out); self.plain_ty.leaves(ver, out); self.plain_type.leaves(ver, out); self.plain_decode_v1.leaves(ver, out); self.plain_e.leaves(ver, out); self._hidden.leaves(ver, out); self.plain_encode.leaves(ver, out); self.plain_err.leaves(ver, out); self.plain_match.leaves(ver, out); self.plain_ok.leaves(ver, out); self.__.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct STuple14(Spy<144>, pub Spy<145>, Spy<146>, pub Nil<147>, Spy<148>, Spy<149>, Nil<150>, pub Option<u64>, u64, pub Spy<151>, pub Option<u64>, Option<Spy<152>>, pub Spy<153>, Spy<154>);
impl Part for STuple14 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self(Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng)) }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.0.leaves(ver, out); self.1.leaves(ver, out); self.2.leaves(ver, out); self.3.leaves(ver, out); self.4.leaves(ver, out); self.5.leaves(ver, out); self.6.leaves(ver, out); self.7.leaves(ver, out); self.8.leaves(ver, out); self.9.leaves(ver, out); self.10.leaves(ver, out); self.11.leaves(ver, out); self.12.leaves(ver, out); self.13.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct SNamed15 {
    /// documented
    pub state: Vec<String>,
    pub plain_name: String,
    pub plain_value: [u8; 0],
    pub plain_enc: Option<Spy<155>>,
    pub plain_f: Spy<156>,
    /// documented
    pub plain_ty: Spy<157>,
    pub plain_buf: Nil<158>,
    pub plain_fn: Spy<159>,
    pub plain_len: Spy<160>,
    pub plain_ok: Vec<Spy<161>>,
    pub plain_index: Spy<162>,
    #[allow(unused)]
    pub plain_decode_v1: Vec<String>,
    /// documented
    pub plain_x0: Spy<163>,
    /// documented
    #[allow(unused)]
    pub plain_w: Spy<164>,
    pub plain_encode: Spy<165>,
}
impl Part for SNamed15 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self { state: Part::make(rng), plain_name: Part::make(rng), plain_value: Part::make(rng), plain_enc: Part::make(rng), plain_f: Part::make(rng), plain_ty: Part::make(rng), plain_buf: Part::make(rng), plain_fn: Part::make(rng), plain_len: Part::make(rng), plain_ok: Part::make(rng), plain_index: Part::make(rng), plain_decode_v1: Part::make(rng), plain_x0: Part::make(rng), plain_w: Part::make(rng), plain_encode: Part::make(rng) } }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.state.leaves(ver, out); self.plain_name.leaves(ver, out); self.plain_value.leaves(ver, out); self.plain_enc.leaves(ver, out); self.plain_f.leaves(ver, out); self.plain_ty.leaves(ver, out); self.plain_buf.leaves(ver, out); self.plain_fn.leaves(ver, out); self.plain_len.leaves(ver, out); self.plain_ok.leaves(ver, out); self.plain_index.leaves(ver, out); self.plain_decode_v1.leaves(ver, out); self.plain_x0.leaves(ver, out); self.plain_w.leaves(ver, out); self.plain_encode.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct STuple15(pub Vec<Spy<166>>, pub Spy<167>, pub Spy<168>, pub Spy<169>, pub Spy<170>, u64, pub Spy<171>, Vec<Option<Spy<172>>>, pub Spy<173>, pub Nil<174>, Nil<175>, pub Spy<176>, pub Spy<177>, pub Spy<178>, pub Vec<Option<Spy<179>>>);
impl Part for STuple15 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self(Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng)) }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.0.leaves(ver, out); self.1.leaves(ver, out); self.2.leaves(ver, out); self.3.leaves(ver, out); self.4.leaves(ver, out); self.5.leaves(ver, out); self.6.leaves(ver, out); self.7.leaves(ver, out); self.8.leaves(ver, out); self.9.leaves(ver, out); self.10.leaves(ver, out); self.11.leaves(ver, out); self.12.leaves(ver, out); self.13.leaves(ver, out); self.14.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct SNamed16 {
    /// documented
    pub state: Spy<180>,
    pub plain_value: Spy<181>,
    pub __: Spy<182>,
    pub plain_g: Vec<Spy<183>>,
    pub plain_dec: Spy<184>,
    pub camelCase: Spy<185>,
    pub plain_i: Spy<186>,
    pub plain_result: Spy<187>,
    #[allow(unused)]
    pub plain_encode_v1: Spy<188>,
    pub plain_x0: Spy<189>,
    pub plain_index: Spy<190>,
    /// documented
    pub plain_name: Spy<191>,
    #[allow(unused)]
    pub plain_fn: Spy<192>,
    /// documented
    pub plain_std: Vec<Spy<193>>,
    pub plain_item: Spy<194>,
    #[allow(unused)]
    pub id: Vec<String>,
}
impl Part for SNamed16 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self { state: Part::make(rng), plain_value: Part::make(rng), __: Part::make(rng), plain_g: Part::make(rng), plain_dec: Part::make(rng), camelCase: Part::make(rng), plain_i: Part::make(rng), plain_result: Part::make(rng), plain_encode_v1: Part::make(rng), plain_x0: Part::make(rng), plain_index: Part::make(rng), plain_name: Part::make(rng), plain_fn: Part::make(rng), plain_std: Part::make(rng), plain_item: Part::make(rng), id: Part::make(rng) } }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.state.leaves(ver, out); self.plain_value.leaves(ver, out); self.__.leaves(ver, out); self.plain_g.leaves(ver, out); self.plain_dec.leaves(ver, out); self.camelCase.leaves(ver, out); self.plain_i.leaves(ver, out); self.plain_result.leaves(ver, out); self.plain_encode_v1.leaves(ver, out); self.plain_x0.leaves(ver, out); self.plain_index.leaves(ver, out); self.plain_name.leaves(ver, out); self.plain_fn.leaves(ver, out); self.plain_std.leaves(ver, out); self.plain_item.leaves(ver, out); self.id.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct STuple16(Spy<195>, pub Spy<196>, pub Option<Spy<197>>, Spy<198>, pub u64, Spy<199>, pub Option<Spy<200>>, std::vec::Vec<u8>, pub Spy<201>, Nil<202>, Spy<203>, pub Option<Spy<204>>, Option<Spy<205>>, pub Option<u64>, Nil<206>, Spy<207>);
impl Part for STuple16 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self(Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng)) }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.0.leaves(ver, out); self.1.leaves(ver, out); self.2.leaves(ver, out); self.3.leaves(ver, out); self.4.leaves(ver, out); self.5.leaves(ver, out); self.6.leaves(ver, out); self.7.leaves(ver, out); self.8.leaves(ver, out); self.9.leaves(ver, out); self.10.leaves(ver, out); self.11.leaves(ver, out); self.12.leaves(ver, out); self.13.leaves(ver, out); self.14.leaves(ver, out); self.15.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct SNamed17 {
    pub plain_decode_v1: Vec<Spy<208>>,
    pub a_rather_long_field_name_with_many_words: Vec<Spy<209>>,
    pub plain_i: Spy<210>,
    pub state: Spy<211>,
    /// documented
    pub plain_encode_v1: Spy<212>,
    pub plain_h: Option<Option<bool>>,
    pub plain_result: Option<Spy<213>>,
    #[allow(unused)]
    pub plain_len: Spy<214>,
    pub plain_io: Nil<215>,
    pub plain_ok: String,
    pub plain_err: Spy<216>,
    pub camelCase: Spy<217>,
    pub plain_item: Spy<218>,
    pub plain_crate_: Spy<219>,
    pub plain_type: Spy<220>,
    pub id: Spy<221>,
    /// documented
    pub plain_w: Spy<222>,
}
impl Part for SNamed17 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self { plain_decode_v1: Part::make(rng), a_rather_long_field_name_with_many_words: Part::make(rng), plain_i: Part::make(rng), state: Part::make(rng), plain_encode_v1: Part::make(rng), plain_h: Part::make(rng), plain_result: Part::make(rng), plain_len: Part::make(rng), plain_io: Part::make(rng), plain_ok: Part::make(rng), plain_err: Part::make(rng), camelCase: Part::make(rng), plain_item: Part::make(rng), plain_crate_: Part::make(rng), plain_type: Part::make(rng), id: Part::make(rng), plain_w: Part::make(rng) } }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.plain_decode_v1.leaves(ver, out); self.a_rather_long_field_name_with_many_words.leaves(ver, out); self.plain_i.leaves(ver, out); self.state.leaves(ver, out); self.plain_encode_v1.leaves(ver, out); self.plain_h.leaves(ver, out); self.plain_result.leaves(ver, out); self.plain_len.leaves(ver, out); self.plain_io.leaves(ver, out); self.plain_ok.leaves(ver, out); self.plain_err.leaves(ver, out); self.camelCase.leaves(ver, out); self.plain_item.leaves(ver, out); self.plain_crate_.leaves(ver, out); self.plain_type.leaves(ver, out); self.id.leaves(ver, out); self.plain_w.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct STuple17(pub Vec<Spy<223>>, u8, pub Vec<String>, Spy<224>, Spy<225>, Spy<226>, pub Option<Option<bool>>, Option<Spy<227>>, pub Spy<228>, Spy<229>, pub Option<Spy<230>>, pub String, pub Spy<231>, pub Spy<232>, std::vec::Vec<u8>, Spy<233>, Vec<u8>);
impl Part for STuple17 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self(Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng)) }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.0.leaves(ver, out); self.1.leaves(ver, out); self.2.leaves(ver, out); self.3.leaves(ver, out); self.4.leaves(ver, out); self.5.leaves(ver, out); self.6.leaves(ver, out); self.7.leaves(ver, out); self.8.leaves(ver, out); self.9.leaves(ver, out); self.10.leaves(ver, out); self.11.leaves(ver, out); self.12.leaves(ver, out); self.13.leaves(ver, out); self.14.leaves(ver, out); self.15.leaves(ver, out); self.16.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct SNamed24 {
    /// documented
    pub plain_fields: Spy<234>,
    /// documented
    pub UPPER: Nil<235>,
    pub plain_decode_v1: Spy<236>,
    pub plain_ok: Nil<237>,
    pub plain_g: Spy<238>,
    pub plain_w: Spy<239>,
    pub plain_crate_: Spy<240>,
    pub plain_encode: Spy<241>,
    #[allow(unused)]
    pub plain_read: Option<Spy<242>>,
    pub plain_dec: Spy<243>,
    pub plain_decode: Option<Spy<244>>,
    pub camelCase: Vec<u8>,
    #[allow(unused)]
    pub plain_ty: Spy<245>,
    pub a_rather_long_field_name_with_many_words: Spy<246>,
    pub plain_f: Spy<247>,
    pub plain_x0: Vec<Option<Spy<248>>>,
    #[allow(unused)]
    pub plain_e: String,
    pub plain_result: Nil<249>,
    pub plain_err: Spy<0>,
    #[allow(unused)]
    pub plain_write: Vec<Spy<1>>,
    /// documented
    #[allow(unused)]
    pub plain_enc: Option<Spy<2>>,
    pub plain_data: Spy<3>,
    pub plain_encode_v1: Spy<4>,
    /// documented
    pub plain_std: u8,
}
impl Part for SNamed24 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self { plain_fields: Part::make(rng), UPPER: Part::make(rng), plain_decode_v1: Part::make(rng), plain_ok: Part::make(rng), plain_g: Part::make(rng), plain_w: Part::make(rng), plain_crate_: Part::make(rng), plain_encode: Part::make(rng), plain_read: Part::make(rng), plain_dec: Part::make(rng), plain_decode: Part::make(rng), camelCase: Part::make(rng), plain_ty: Part::make(rng), a_rather_long_field_name_with_many_words: Part::make(rng), plain_f: Part::make(rng), plain_x0: Part::make(rng), plain_e: Part::make(rng), plain_result: Part::make(rng), plain_err: Part::make(rng), plain_write: Part::make(rng), plain_enc: Part::make(rng), plain_data: Part::make(rng), plain_encode_v1: Part::make(rng), plain_std: Part::make(rng) } }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.plain_fields.leaves(ver, out); self.UPPER.leaves(ver, out); self.plain_decode_v1.leaves(ver, out); self.plain_ok.leaves(ver, out); self.plain_g.leaves(ver, out); self.plain_w.leaves(ver, out); self.plain_crate_.leaves(ver, out); self.plain_encode.leaves(ver, out); self.plain_read.leaves(ver, out); self.plain_dec.leaves(ver, out); self.plain_decode.leaves(ver, out); self.camelCase.leaves(ver, out); self.plain_ty.leaves(ver, out); self.a_rather_long_field_name_with_many_words.leaves(ver, out); self.plain_f.leaves(ver, out); self.plain_x0.leaves(ver, out); self.plain_e.leaves(ver, out); self.plain_result.leaves(ver, out); self.plain_err.leaves(ver, out); self.plain_write.leaves(ver, out); self.plain_enc.leaves(ver, out); self.plain_data.leaves(ver, out); self.plain_encode_v1.leaves(ver, out); self.plain_std.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct STuple24(Spy<5>, [u8; 0], u64, pub Option<u64>, Nil<6>, Spy<7>, Spy<8>, Spy<9>, pub Spy<10>, Nil<11>, pub Vec<String>, [u8; 0], pub Spy<12>, pub Spy<13>, Vec<Spy<14>>, Vec<Spy<15>>, Option<Spy<16>>, Spy<17>, pub Nil<18>, pub Option<u64>, Vec<u8>, Spy<19>, pub Spy<20>, pub Spy<21>);
impl Part for STuple24 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self(Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng)) }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.0.leaves(ver, out); self.1.leaves(ver, out); self.2.leaves(ver, out); self.3.leaves(ver, out); self.4.leaves(ver, out); self.5.leaves(ver, out); self.6.leaves(ver, out); self.7.leaves(ver, out); self.8.leaves(ver, out); self.9.leaves(ver, out); self.10.leaves(ver, out); self.11.leaves(ver, out); self.12.leaves(ver, out); self.13.leaves(ver, out); self.14.leaves(ver, out); self.15.leaves(ver, out); self.16.leaves(ver, out); self.17.leaves(ver, out); self.18.leaves(ver, out); self.19.leaves(ver, out); self.20.leaves(ver, out); self.21.leaves(ver, out); self.22.leaves(ver, out); self.23.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct SNamed33 {
    pub _hidden: Spy<22>,
    /// documented
    #[allow(unused)]
    pub plain_fn: Spy<23>,
    pub plain_name: Spy<24>,
    pub plain_w: Spy<25>,
    #[allow(unused)]
    pub plain_data: Spy<26>,
    pub plain_i: Spy<27>,
    pub plain_value: Vec<Option<Spy<28>>>,
    pub plain_match: Option<u64>,
    /// documented
    pub plain_err: Nil<29>,
    pub plain_g: Nil<30>,
    /// documented
    pub plain_x0: Option<u64>,
    pub plain_write: Vec<String>,
    pub plain_crate_: Vec<String>,
    #[allow(unused)]
    pub plain_dec: Vec<Spy<31>>,
    pub plain_std: [u8; 0],
    /// documented
    pub plain_decode: Spy<32>,
    #[allow(unused)]
    pub plain_e: Spy<33>,
    pub plain_io: Vec<Option<Spy<34>>>,
    /// documented
    pub UPPER: Spy<35>,
    pub a_rather_long_field_name_with_many_words: Spy<36>,
    pub plain_len: Spy<37>,
    pub plain_index: Spy<38>,
    pub self_: Spy<39>,
    /// documented
    pub plain_type: u64,
    #[allow(unused)]
    pub plain_ok: Nil<40>,
    pub plain_encode: Nil<41>,
    pub plain_item: Vec<Option<Spy<42>>>,
    #[allow(unused)]
    pub plain_h: Spy<43>,
    pub plain_fields: Spy<44>,
    pub state: Vec<Spy<45>>,
    pub camelCase: Spy<46>,
    #[allow(unused)]
    pub plain_decode_v1: [u8; 0],
    /// documented
    pub __: Spy<47>,
}
impl Part for SNamed33 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self { _hidden: Part::make(rng), plain_fn: Part::make(rng), plain_name: Part::make(rng), plain_w: Part::make(rng), plain_data: Part::make(rng), plain_i: Part::make(rng), plain_value: Part::make(rng), plain_match: Part::make(rng), plain_err: Part::make(rng), plain_g: Part::make(rng), plain_x0: Part::make(rng), plain_write: Part::make(rng), plain_crate_: Part::make(rng), plain_dec: Part::make(rng), plain_std: Part::make(rng), plain_decode: Part::make(rng), plain_e: Part::make(rng), plain_io: Part::make(rng), UPPER: Part::make(rng), a_rather_long_field_name_with_many_words: Part::make(rng), plain_len: Part::make(rng), plain_index: Part::make(rng), self_: Part::make(rng), plain_type: Part::make(rng), plain_ok: Part::make(rng), plain_encode: Part::make(rng), plain_item: Part::make(rng), plain_h: Part::make(rng), plain_fields: Part::make(rng), state: Part::make(rng), camelCase: Part::make(rng), plain_decode_v1: Part::make(rng), __: Part::make(rng) } }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self._hidden.leaves(ver, out); self.plain_fn.leaves(ver, out); self.plain_name.leaves(ver, out); self.plain_w.leaves(ver, out); self.plain_data.leaves(ver, out); self.plain_i.leaves(ver, out); self.plain_value.leaves(ver, out); self.plain_match.leaves(ver, out); self.plain_err.leaves(ver, out); self.plain_g.leaves(ver, out); self.plain_x0.leaves(ver, out); self.plain_write.leaves(ver, out); self.plain_crate_.leaves(ver, out); self.plain_dec.leaves(ver, out); self.plain_std.leaves(ver, out); self.plain_decode.leaves(ver, out); self.plain_e.leaves(ver, out); self.plain_io.leaves(ver, out); self.UPPER.leaves(ver, out); self.a_rather_long_field_name_with_many_words.leaves(ver, out); self.plain_len.leaves(ver, out); self.plain_index.leaves(ver, out); self.self_.leaves(ver, out); self.plain_type.leaves(ver, out); self.plain_ok.leaves(ver, out); self.plain_encode.leaves(ver, out); self.plain_item.leaves(ver, out); self.plain_h.leaves(ver, out); self.plain_fields.leaves(ver, out); self.state.leaves(ver, out); self.camelCase.leaves(ver, out); self.plain_decode_v1.leaves(ver, out); self.__.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct STuple33(Option<Spy<48>>, Nil<49>, pub Vec<u8>, Spy<50>, pub Spy<51>, Option<Spy<52>>, Vec<Option<Spy<53>>>, [u8; 5], pub Option<u64>, Option<Spy<54>>, pub Spy<55>, Spy<56>, Spy<57>, Spy<58>, pub Nil<59>, Nil<60>, Spy<61>, Spy<62>, pub Nil<63>, Nil<64>, pub Nil<65>, pub Spy<66>, Spy<67>, pub Spy<68>, Vec<u8>, pub Spy<69>, pub Spy<70>, Spy<71>, pub Vec<Spy<72>>, Spy<73>, Vec<Option<Spy<74>>>, Spy<75>, Nil<76>);
impl Part for STuple33 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self(Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng)) }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.0.leaves(ver, out); self.1.leaves(ver, out); self.2.leaves(ver, out); self.3.leaves(ver, out); self.4.leaves(ver, out); self.5.leaves(ver, out); self.6.leaves(ver, out); self.7.leaves(ver, out); self.8.leaves(ver, out); self.9.leaves(ver, out); self.10.leaves(ver, out); self.11.leaves(ver, out); self.12.leaves(ver, out); self.13.leaves(ver, out); self.14.leaves(ver, out); self.15.leaves(ver, out); self.16.leaves(ver, out); self.17.leaves(ver, out); self.18.leaves(ver, out); self.19.leaves(ver, out); self.20.leaves(ver, out); self.21.leaves(ver, out); self.22.leaves(ver, out); self.23.leaves(ver, out); self.24.leaves(ver, out); self.25.leaves(ver, out); self.26.leaves(ver, out); self.27.leaves(ver, out); self.28.leaves(ver, out); self.29.leaves(ver, out); self.30.leaves(ver, out); self.31.leaves(ver, out); self.32.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct SNamed48 {
    pub plain_r: Spy<77>,
    /// documented
    #[allow(unused)]
    pub UPPER: Vec<String>,
    pub plain_ok: Spy<78>,
    pub plain_value: Spy<79>,
    pub plain_i: Spy<80>,
    pub plain_write: Spy<81>,
    /// documented
    pub plain_f: Spy<82>,
    pub plain_w: Vec<Spy<83>>,
    pub camelCase: Spy<84>,
    pub plain_item: Spy<85>,
    pub plain_dec: Nil<86>,
    /// documented
    pub plain_read: Spy<87>,
    /// documented
    pub self_: Spy<88>,
    #[allow(unused)]
    pub plain_len: Nil<89>,
    pub plain_g: u64,
    pub plain_fn: Option<u64>,
    /// documented
    pub plain_buf: Nil<90>,
    #[allow(unused)]
    pub plain_type: Spy<91>,
    pub plain_h: Spy<92>,
    pub plain_x0: Vec<Spy<93>>,
    pub id: Spy<94>,
    pub a_rather_long_field_name_with_many_words: Option<Spy<95>>,
    /// documented
    pub plain_err: Option<Option<bool>>,
    pub state: Vec<Spy<96>>,
    pub plain_name: Option<Spy<97>>,
    /// documented
    pub plain_index: Spy<98>,
    pub plain_decode: Vec<Spy<99>>,
    pub plain_encode: Spy<100>,
    /// documented
    pub _hidden: Spy<101>,
    pub plain_crate_: bool,
    pub plain_e: Spy<102>,
    pub plain_fields: bool,
    pub plain_std: Spy<103>,
    /// documented
    pub __: Nil<104>,
    /// documented
    pub plain_decode_v1: Vec<Spy<105>>,
    /// documented
    pub plain_ty: Vec<Option<Spy<106>>>,
    pub plain_encode_v1: Vec<u8>,
    pub plain_match: u64,
    pub plain_io: Spy<107>,
    pub plain_enc: bool,
    pub plain_result: Vec<Spy<108>>,
    /// documented
    pub plain_data: Spy<109>,
    /// documented
    pub more42: Spy<110>,
    pub more43: Spy<111>,
    /// documented
    pub more44: Vec<Option<Spy<112>>>,
    /// documented
    pub more45: [u8; 0],
    pub more46: Vec<Spy<113>>,
    pub more47: Option<Option<bool>>,
}
impl Part for SNamed48 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self { plain_r: Part::make(rng), UPPER: Part::make(rng), plain_ok: Part::make(rng), plain_value: Part::make(rng), plain_i: Part::make(rng), plain_write: Part::make(rng), plain_f: Part::make(rng), plain_w: Part::make(rng), camelCase: Part::make(rng), plain_item: Part::make(rng), plain_dec: Part::make(rng), plain_read: Part::make(rng), self_: Part::make(rng), plain_len: Part::make(rng), plain_g: Part::make(rng), plain_fn: Part::make(rng), plain_buf: Part::make(rng), plain_type: Part::make(rng), plain_h: Part::make(rng), plain_x0: Part::make(rng), id: Part::make(rng), a_rather_long_field_name_with_many_words: Part::make(rng), plain_err: Part::make(rng), state: Part::make(rng), plain_name: Part::make(rng), plain_index: Part::make(rng), plain_decode: Part::make(rng), plain_encode: Part::make(rng), _hidden: Part::make(rng), plain_crate_: Part::make(rng), plain_e: Part::make(rng), plain_fields: Part::make(rng), plain_std: Part::make(rng), __: Part::make(rng), plain_decode_v1: Part::make(rng), plain_ty: Part::make(rng), plain_encode_v1: Part::make(rng), plain_match: Part::make(rng), plain_io: Part::make(rng), plain_enc: Part::make(rng), plain_result: Part::make(rng), plain_data: Part::make(rng), more42: Part::make(rng), more43: Part::make(rng), more44: Part::make(rng), more45: Part::make(rng), more46: Part::make(rng), more47: Part::make(rng) } }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.plain_r.leaves(ver, out); self.UPPER.leaves(ver, out); self.plain_ok.leaves(ver, out); self.plain_value.leaves(ver, out); self.plain_i.leaves(ver, out); self.plain_write.leaves(ver, out); self.plain_f.leaves(ver, out); self.plain_w.leaves(ver, out); self.camelCase.leaves(ver, out); self.plain_item.leaves(ver, out); self.plain_dec.leaves(ver, out); self.plain_read.leaves(ver, out); self.self_.leaves(ver, out); self.plain_len.leaves(ver, out); self.plain_g.leaves(ver, out); self.plain_fn.leaves(ver, out); self.plain_buf.leaves(ver, out); self.plain_type.leaves(ver, out); self.plain_h.leaves(ver, out); self.plain_x0.leaves(ver, out); self.id.leaves(ver, out); self.a_rather_long_field_name_with_many_words.leaves(ver, out); self.plain_err.leaves(ver, out); self.state.leaves(ver, out); self.plain_name.leaves(ver, out); self.plain_index.leaves(ver, out); self.plain_decode.leaves(ver, out); self.plain_encode.leaves(ver, out); self._hidden.leaves(ver, out); self.plain_crate_.leaves(ver, out); self.plain_e.leaves(ver, out); self.plain_fields.leaves(ver, out); self.plain_std.leaves(ver, out); self.__.leaves(ver, out); self.plain_decode_v1.leaves(ver, out); self.plain_ty.leaves(ver, out); self.plain_encode_v1.leaves(ver, out); self.plain_match.leaves(ver, out); self.plain_io.leaves(ver, out); self.plain_enc.leaves(ver, out); self.plain_result.leaves(ver, out); self.plain_data.leaves(ver, out); self.more42.leaves(ver, out); self.more43.leaves(ver, out); self.more44.leaves(ver, out); self.more45.leaves(ver, out); self.more46.leaves(ver, out); self.more47.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct STuple48(pub String, pub Option<u64>, pub Spy<114>, pub Spy<115>, pub Vec<Option<Spy<116>>>, Nil<117>, Spy<118>, pub Spy<119>, pub Nil<120>, Spy<121>, pub Nil<122>, pub Spy<123>, pub [u8; 0], Spy<124>, Nil<125>, pub Spy<126>, Option<Option<bool>>, Vec<Option<Spy<127>>>, pub Nil<128>, pub Spy<129>, [u8; 5], pub Vec<String>, pub Vec<String>, pub Spy<130>, pub String, pub Nil<131>, pub Vec<u8>, pub Nil<132>, Spy<133>, pub Nil<134>, Option<Spy<135>>, pub Spy<136>, pub Option<Option<bool>>, Nil<137>, pub Spy<138>, Spy<139>, pub Spy<140>, pub Spy<141>, pub Spy<142>, std::vec::Vec<u8>, pub Nil<143>, pub Option<Option<bool>>, Option<Spy<144>>, pub Spy<145>, Nil<146>, Vec<u8>, pub Spy<147>, Spy<148>);
impl Part for STuple48 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self(Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng)) }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.0.leaves(ver, out); self.1.leaves(ver, out); self.2.leaves(ver, out); self.3.leaves(ver, out); self.4.leaves(ver, out); self.5.leaves(ver, out); self.6.leaves(ver, out); self.7.leaves(ver, out); self.8.leaves(ver, out); self.9.leaves(ver, out); self.10.leaves(ver, out); self.11.leaves(ver, out); self.12.leaves(ver, out); self.13.leaves(ver, out); self.14.leaves(ver, out); self.15.leaves(ver, out); self.16.leaves(ver, out); self.17.leaves(ver, out); self.18.leaves(ver, out); self.19.leaves(ver, out); self.20.leaves(ver, out); self.21.leaves(ver, out); self.22.leaves(ver, out); self.23.leaves(ver, out); self.24.leaves(ver, out); self.25.leaves(ver, out); self.26.leaves(ver, out); self.27.leaves(ver, out); self.28.leaves(ver, out); self.29.leaves(ver, out); self.30.leaves(ver, out); self.31.leaves(ver, out); self.32.leaves(ver, out); self.33.leaves(ver, out); self.34.leaves(ver, out); self.35.leaves(ver, out); self.36.leaves(ver, out); self.37.leaves(ver, out); self.38.leaves(ver, out); self.39.leaves(ver, out); self.40.leaves(ver, out); self.41.leaves(ver, out); self.42.leaves(ver, out); self.43.leaves(ver, out); self.44.leaves(ver, out); self.45.leaves(ver, out); self.46.leaves(ver, out); self.47.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct SNamed70 {
    #[allow(unused)]
    pub plain_data: Vec<Spy<149>>,
    pub plain_e: Option<Spy<150>>,
    pub plain_ok: Spy<151>,
    pub plain_err: Spy<152>,
    /// documented
    pub plain_read: Spy<153>,
    pub plain_x0: u8,
    /// documented
    pub plain_type: Spy<154>,
    pub plain_encode_v1: Option<Spy<155>>,
    pub plain_write: u8,
    pub camelCase: Spy<156>,
    pub plain_std: Spy<157>,
    pub plain_len: Option<u64>,
    pub plain_value: Spy<158>,
    pub plain_io: Vec<Spy<159>>,
    #[allow(unused)]
    pub plain_item: Spy<160>,
    pub plain_enc: Spy<161>,
    pub self_: Spy<162>,
    pub plain_buf: Spy<163>,
    pub plain_result: Vec<Spy<164>>,
    pub plain_index: Spy<165>,
    /// documented
    pub plain_fn: [u8; 0],
    pub state: Spy<166>,
    /// documented
    pub plain_dec: Option<Spy<167>>,
    pub UPPER: Vec<u8>,
    pub plain_encode: Spy<168>,
    pub __: Spy<169>,
    pub plain_i: Spy<170>,
    pub id: Spy<171>,
    pub plain_name: Option<u64>,
    pub a_rather_long_field_name_with_many_words: Spy<172>,
    pub plain_g: Nil<173>,
    /// documented
    pub plain_f: Spy<174>,
    pub plain_decode_v1: Option<Spy<175>>,
    pub plain_crate_: [u8; 0],
    pub _hidden: Spy<176>,
    pub plain_h: Spy<177>,
    /// documented
    pub plain_r: Spy<178>,
    pub plain_fields: Spy<179>,
    /// documented
    pub plain_match: Spy<180>,
    pub plain_w: u64,
    pub plain_ty: Spy<181>,
    pub plain_decode: Spy<182>,
    pub more42: Spy<183>,
    /// documented
    pub more43: Spy<184>,
    pub more44: Vec<Spy<185>>,
    pub more45: Spy<186>,
    /// documented
    pub more46: u8,
    #[allow(unused)]
    pub more47: Vec<u8>,
    #[allow(unused)]
    pub more48: u64,
    pub more49: Spy<187>,
    pub more50: Spy<188>,
    pub more51: Spy<189>,
    pub more52: [u8; 5],
    /// documented
    #[allow(unused)]
    pub more53: Spy<190>,
    pub more54: Nil<191>,
    pub more55: u64,
    pub more56: Spy<192>,
    #[allow(unused)]
    pub more57: Spy<193>,
    pub more58: Spy<194>,
    pub more59: Spy<195>,
    pub more60: Vec<Spy<196>>,
    pub more61: Spy<197>,
    pub more62: u8,
    pub more63: Option<Option<bool>>,
    pub more64: Spy<198>,
    pub more65: Spy<199>,
    pub more66: std::vec::Vec<u8>,
    /// documented
    pub more67: Spy<200>,
    pub more68: Spy<201>,
    pub more69: Spy<202>,
}
impl Part for SNamed70 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self { plain_data: Part::make(rng), plain_e: Part::make(rng), plain_ok: Part::make(rng), plain_err: Part::make(rng), plain_read: Part::make(rng), plain_x0: Part::make(rng), plain_type: Part::make(rng), plain_encode_v1: Part::make(rng), plain_write: Part::make(rng), camelCase: Part::make(rng), plain_std: Part::make(rng), plain_len: Part::make(rng), plain_value: Part::make(rng), plain_io: Part::make(rng), plain_item: Part::make(rng), plain_enc: Part::make(rng), self_: Part::make(rng), plain_buf: Part::make(rng), plain_result: Part::make(rng), plain_index: Part::make(rng), plain_fn: Part::make(rng), state: Part::make(rng), plain_dec: Part::make(rng), UPPER: Part::make(rng), plain_encode: Part::make(rng), __: Part::make(rng), plain_i: Part::make(rng), id: Part::make(rng), plain_name: Part::make(rng), a_rather_long_field_name_with_many_words: Part::make(rng), plain_g: Part::make(rng), plain_f: Part::make(rng), plain_decode_v1: Part::make(rng), plain_crate_: Part::make(rng), _hidden: Part::make(rng), plain_h: Part::make(rng), plain_r: Part::make(rng), plain_fields: Part::make(rng), plain_match: Part::make(rng), plain_w: Part::make(rng), plain_ty: Part::make(rng), plain_decode: Part::make(rng), more42: Part::make(rng), more43: Part::make(rng), more44: Part::make(rng), more45: Part::make(rng), more46: Part::make(rng), more47: Part::make(rng), more48: Part::make(rng), more49: Part::make(rng), more50: Part::make(rng), more51: Part::make(rng), more52: Part::make(rng), more53: Part::make(rng), more54: Part::make(rng), more55: Part::make(rng), more56: Part::make(rng), more57: Part::make(rng), more58: Part::make(rng), more59: Part::make(rng), more60: Part::make(rng), more61: Part::make(rng), more62: Part::make(rng), more63: Part::make(rng), more64: Part::make(rng), more65: Part::make(rng), more66: Part::make(rng), more67: Part::make(rng), more68: Part::make(rng), more69: Part::make(rng) } }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.plain_data.leaves(ver, out); self.plain_e.leaves(ver, out); self.plain_ok.leaves(ver, out); self.plain_err.leaves(ver, out); self.plain_read.leaves(ver, out); self.plain_x0.leaves(ver, out); self.plain_type.leaves(ver, out); self.plain_encode_v1.leaves(ver, out); self.plain_write.leaves(ver, out); self.camelCase.leaves(ver, out); self.plain_std.leaves(ver, out); self.plain_len.leaves(ver, out); self.plain_value.leaves(ver, out); self.plain_io.leaves(ver, out); self.plain_item.leaves(ver, out); self.plain_enc.leaves(ver, out); self.self_.leaves(ver, out); self.plain_buf.leaves(ver, out); self.plain_result.leaves(ver, out); self.plain_index.leaves(ver, out); self.plain_fn.leaves(ver, out); self.state.leaves(ver, out); self.plain_dec.leaves(ver, out); self.UPPER.leaves(ver, out); self.plain_encode.leaves(ver, out); self.__.leaves(ver, out); self.plain_i.leaves(ver, out); self.id.leaves(ver, out); self.plain_name.leaves(ver, out); self.a_rather_long_field_name_with_many_words.leaves(ver, out); self.plain_g.leaves(ver, out); self.plain_f.leaves(ver, out); self.plain_decode_v1.leaves(ver, out); self.plain_crate_.leaves(ver, out); self._hidden.leaves(ver, out); self.plain_h.leaves(ver, out); self.plain_r.leaves(ver, out); self.plain_fields.leaves(ver, out); self.plain_match.leaves(ver, out); self.plain_w.leaves(ver, out); self.plain_ty.leaves(ver, out); self.plain_decode.leaves(ver, out); self.more42.leaves(ver, out); self.more43.leaves(ver, out); self.more44.leaves(ver, out); self.more45.leaves(ver, out); self.more46.leaves(ver, out); self.more47.leaves(ver, out); self.more48.leaves(ver, out); self.more49.leaves(ver, out); self.more50.leaves(ver, out); self.more51.leaves(ver, out); self.more52.leaves(ver, out); self.more53.leaves(ver, out); self.more54.leaves(ver, out); self.more55.leaves(ver, out); self.more56.leaves(ver, out); self.more57.leaves(ver, out); self.more58.leaves(ver, out); self.more59.leaves(ver, out); self.more60.leaves(ver, out); self.more61.leaves(ver, out); self.more62.leaves(ver, out); self.more63.leaves(ver, out); self.more64.leaves(ver, out); self.more65.leaves(ver, out); self.more66.leaves(ver, out); self.more67.leaves(ver, out); self.more68.leaves(ver, out); self.more69.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct STuple70(pub Option<u64>, pub std::vec::Vec<u8>, u64, pub Spy<203>, pub Vec<u8>, pub Vec<String>, Spy<204>, pub Spy<205>, pub Spy<206>, Spy<207>, Spy<208>, String, Option<Option<bool>>, Spy<209>, pub Spy<210>, Spy<211>, pub Nil<212>, pub Vec<Spy<213>>, Spy<214>, Spy<215>, pub Spy<216>, Spy<217>, pub Spy<218>, pub u8, Option<Option<bool>>, pub Option<u64>, pub std::vec::Vec<u8>, pub [u8; 5], pub Spy<219>, Nil<220>, pub [u8; 5], Nil<221>, Spy<222>, Vec<String>, Spy<223>, pub String, pub Option<Spy<224>>, pub Spy<225>, pub [u8; 0], pub Spy<226>, pub u8, Spy<227>, pub Spy<228>, u64, pub Option<Spy<229>>, Vec<Spy<230>>, Option<Option<bool>>, pub std::vec::Vec<u8>, Option<Option<bool>>, pub Spy<231>, Spy<232>, pub Spy<233>, Spy<234>, pub Spy<235>, pub u8, Spy<236>, Spy<237>, Vec<Spy<238>>, pub Spy<239>, Nil<240>, Spy<241>, Vec<Spy<242>>, Spy<243>, pub Spy<244>, Spy<245>, Spy<246>, pub Spy<247>, pub u8, Nil<248>, pub [u8; 5]);
impl Part for STuple70 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self(Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng)) }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.0.leaves(ver, out); self.1.leaves(ver, out); self.2.leaves(ver, out); self.3.leaves(ver, out); self.4.leaves(ver, out); self.5.leaves(ver, out); self.6.leaves(ver, out); self.7.leaves(ver, out); self.8.leaves(ver, out); self.9.leaves(ver, out); self.10.leaves(ver, out); self.11.leaves(ver, out); self.12.leaves(ver, out); self.13.leaves(ver, out); self.14.leaves(ver, out); self.15.leaves(ver, out); self.16.leaves(ver, out); self.17.leaves(ver, out); self.18.leaves(ver, out); self.19.leaves(ver, out); self.20.leaves(ver, out); self.21.leaves(ver, out); self.22.leaves(ver, out); self.23.leaves(ver, out); self.24.leaves(ver, out); self.25.leaves(ver, out); self.26.leaves(ver, out); self.27.leaves(ver, out); self.28.leaves(ver, out); self.29.leaves(ver, out); self.30.leaves(ver, out); self.31.leaves(ver, out); self.32.leaves(ver, out); self.33.leaves(ver, out); self.34.leaves(ver, out); self.35.leaves(ver, out); self.36.leaves(ver, out); self.37.leaves(ver, out); self.38.leaves(ver, out); self.39.leaves(ver, out); self.40.leaves(ver, out); self.41.leaves(ver, out); self.42.leaves(ver, out); self.43.leaves(ver, out); self.44.leaves(ver, out); self.45.leaves(ver, out); self.46.leaves(ver, out); self.47.leaves(ver, out); self.48.leaves(ver, out); self.49.leaves(ver, out); self.50.leaves(ver, out); self.51.leaves(ver, out); self.52.leaves(ver, out); self.53.leaves(ver, out); self.54.leaves(ver, out); self.55.leaves(ver, out); self.56.leaves(ver, out); self.57.leaves(ver, out); self.58.leaves(ver, out); self.59.leaves(ver, out); self.60.leaves(ver, out); self.61.leaves(ver, out); self.62.leaves(ver, out); self.63.leaves(ver, out); self.64.leaves(ver, out); self.65.leaves(ver, out); self.66.leaves(ver, out); self.67.leaves(ver, out); self.68.leaves(ver, out); self.69.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct Nest0(pub STuple48, pub Spy<249>, One, pub Vec<Nils>);
impl Part for Nest0 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self(Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng)) }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.0.leaves(ver, out); self.1.leaves(ver, out); self.2.leaves(ver, out); self.3.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct Nest1(STuple48, Spy<0>, pub STuple3, pub Vec<STuple3>);
impl Part for Nest1 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self(Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng)) }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.0.leaves(ver, out); self.1.leaves(ver, out); self.2.leaves(ver, out); self.3.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct Nest2(pub STuple17, Spy<1>, pub STuple2, pub Vec<STuple3>);
impl Part for Nest2 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self(Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng)) }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.0.leaves(ver, out); self.1.leaves(ver, out); self.2.leaves(ver, out); self.3.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct Nest3(STuple70, pub Spy<2>, pub Ints, Vec<SNamed5>);
impl Part for Nest3 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self(Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng)) }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.0.leaves(ver, out); self.1.leaves(ver, out); self.2.leaves(ver, out); self.3.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct Nest4(SNamed48, Spy<3>, Ints, Vec<Same>);
impl Part for Nest4 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self(Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng)) }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.0.leaves(ver, out); self.1.leaves(ver, out); self.2.leaves(ver, out); self.3.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct Nest5 {
    #[allow(unused)]
    pub plain_g: STuple70,
    pub plain_w: Spy<4>,
    pub plain_e: Bytes,
    pub plain_i: Vec<EmptyNamed>,
}
impl Part for Nest5 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self { plain_g: Part::make(rng), plain_w: Part::make(rng), plain_e: Part::make(rng), plain_i: Part::make(rng) } }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.plain_g.leaves(ver, out); self.plain_w.leaves(ver, out); self.plain_e.leaves(ver, out); self.plain_i.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct Nest6 {
    pub plain_x0: Nest4,
    /// documented
    #[allow(unused)]
    pub __: Spy<5>,
    pub plain_fn: One,
    pub id: Vec<SNamed6>,
}
impl Part for Nest6 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self { plain_x0: Part::make(rng), __: Part::make(rng), plain_fn: Part::make(rng), id: Part::make(rng) } }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.plain_x0.leaves(ver, out); self.__.leaves(ver, out); self.plain_fn.leaves(ver, out); self.id.leaves(ver, out); }
}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct Nest7(pub Nest5, Spy<6>, pub STuple3, pub Vec<Bytes>);
impl Part for Nest7 {
    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self { Self(Part::make(rng), Part::make(rng), Part::make(rng), Part::make(rng)) }
    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) { self.0.leaves(ver, out); self.1.leaves(ver, out); self.2.leaves(ver, out); self.3.leaves(ver, out); }
}

pub const SHAPES: &[(&str, fn(&mut Ctx, &'static str) -> Res)] = &[
    ("Unit", super::derive::check::<Unit>),
    ("EmptyNamed", super::derive::check::<EmptyNamed>),
    ("EmptyTuple", super::derive::check::<EmptyTuple>),
    ("One", super::derive::check::<One>),
    ("OneTuple", super::derive::check::<OneTuple>),
    ("Same", super::derive::check::<Same>),
    ("SameTuple", super::derive::check::<SameTuple>),
    ("Ints", super::derive::check::<Ints>),
    ("Bytes", super::derive::check::<Bytes>),
    ("Nils", super::derive::check::<Nils>),
    ("SNamed2", super::derive::check::<SNamed2>),
    ("STuple2", super::derive::check::<STuple2>),
    ("SNamed3", super::derive::check::<SNamed3>),
    ("STuple3", super::derive::check::<STuple3>),
    ("SNamed4", super::derive::check::<SNamed4>),
    ("STuple4", super::derive::check::<STuple4>),
    ("SNamed5", super::derive::check::<SNamed5>),
    ("STuple5", super::derive::check::<STuple5>),
    ("SNamed6", super::derive::check::<SNamed6>),
    ("STuple6", super::derive::check::<STuple6>),
    ("SNamed7", super::derive::check::<SNamed7>),
    ("STuple7", super::derive::check::<STuple7>),
    ("SNamed8", super::derive::check::<SNamed8>),
    ("STuple8", super::derive::check::<STuple8>),
    ("SNamed9", super::derive::check::<SNamed9>),
    ("STuple9", super::derive::check::<STuple9>),
    ("SNamed10", super::derive::check::<SNamed10>),
    ("STuple10", super::derive::check::<STuple10>),
    ("SNamed11", super::derive::check::<SNamed11>),
    ("STuple11", super::derive::check::<STuple11>),
    ("SNamed12", super::derive::check::<SNamed12>),
    ("STuple12", super::derive::check::<STuple12>),
    ("SNamed13", super::derive::check::<SNamed13>),
    ("STuple13", super::derive::check::<STuple13>),
    ("SNamed14", super::derive::check::<SNamed14>),
    ("STuple14", super::derive::check::<STuple14>),
    ("SNamed15", super::derive::check::<SNamed15>),
    ("STuple15", super::derive::check::<STuple15>),
    ("SNamed16", super::derive::check::<SNamed16>),
    ("STuple16", super::derive::check::<STuple16>),
    ("SNamed17", super::derive::check::<SNamed17>),
    ("STuple17", super::derive::check::<STuple17>),
    ("SNamed24", super::derive::check::<SNamed24>),
    ("STuple24", super::derive::check::<STuple24>),
    ("SNamed33", super::derive::check::<SNamed33>),
    ("STuple33", super::derive::check::<STuple33>),
    ("SNamed48", super::derive::check::<SNamed48>),
    ("STuple48", super::derive::check::<STuple48>),
    ("SNamed70", super::derive::check::<SNamed70>),
    ("STuple70", super::derive::check::<STuple70>),
    ("Nest0", super::derive::check::<Nest0>),
    ("Nest1", super::derive::check::<Nest1>),
    ("Nest2", super::derive::check::<Nest2>),
    ("Nest3", super::derive::check::<Nest3>),
    ("Nest4", super::derive::check::<Nest4>),
    ("Nest5", super::derive::check::<Nest5>),
    ("Nest6", super::derive::check::<Nest6>),
    ("Nest7", super::derive::check::<Nest7>),
];
