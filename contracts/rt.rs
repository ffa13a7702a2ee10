// Trusted shim: the NEAR host environment, near-sdk types and standard collections as seen by the
// extracted contract code.  Every `external_body` below is an assumption about near-sdk / the host
// and is listed in the evidence.  No contract code lives here.
pub mod rt {
use vstd::prelude::*;

// ---------------------------------------------------------------- strings and bytes
pub struct Str { pub s: Ghost<Seq<char>> }
pub type AccountId = Str;
pub type ValidAccountId = Str;
pub type Balance = u128;
pub type EpochHeight = u64;
pub type BlockHeight = u64;
pub type Gas = u64;
pub type StorageUsage = u64;
pub type PublicKey = PVec<u8>;
pub type Duration = u64;

pub uninterp spec fn str_bytes(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn bytes_str(b: Seq<u8>) -> Seq<char>;
#[verifier::external_body]
pub broadcast proof fn axiom_str_bytes(s: Seq<char>) ensures bytes_str(#[trigger] str_bytes(s)) == s {}
pub uninterp spec fn valid_acct(b: Seq<u8>) -> bool;
pub uninterp spec fn sha256_s(b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn hex_s(b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn json_ok<T>(b: Seq<u8>) -> bool;
pub uninterp spec fn json_parse<T>(b: Seq<u8>) -> T;
pub uninterp spec fn wasm_of(path: Seq<char>) -> Seq<u8>;
pub uninterp spec fn num_str(n: int) -> Seq<char>;
pub uninterp spec fn pk_str(b: Seq<u8>) -> Seq<char>;
pub open spec fn mk_str(s: Seq<char>) -> Str { Str { s: Ghost(s) } }
pub open spec fn valid_id(a: Str) -> bool { valid_acct(str_bytes(a.s@)) }

pub enum JV { S(Seq<char>), N(int), B(bool), Bytes(Seq<u8>), Null, O(Map<Seq<char>, JV>), A(Seq<JV>), Raw(Seq<u8>) }
pub trait PJson: Sized { spec fn js(self) -> JV; }
// JSON text determines the value it stands for
pub open spec fn json_bytes(j: JV) -> Seq<u8> { str_bytes(json_str(j)) }
pub open spec fn json_unbytes(b: Seq<u8>) -> JV { json_unstr(bytes_str(b)) }
// the bytes are the JSON text of an object with exactly these members
pub open spec fn has_args(b: Seq<u8>, m: Map<Seq<char>, JV>) -> bool { json_unbytes(b) is O && json_unbytes(b)->O_0 =~= m }
pub uninterp spec fn json_str(j: JV) -> Seq<char>;
pub uninterp spec fn json_unstr(s: Seq<char>) -> JV;
#[verifier::external_body]
pub broadcast proof fn axiom_json_str(j: JV) ensures json_unstr(#[trigger] json_str(j)) == j {}
#[verifier::external_body]
pub fn to_json_string<T: PJson>(x: &T, w: &World) -> (r: Result<Str, ConvErr>) ensures r.is_ok(), r->Ok_0.s@ == json_str(x.js()) { unimplemented!() }
impl<'a, T: PJson> PJson for &'a T { open spec fn js(self) -> JV { (*self).js() } }
impl PJson for Str { open spec fn js(self) -> JV { JV::S(self.s@) } }
impl PJson for bool { open spec fn js(self) -> JV { JV::B(self) } }
impl PJson for u8 { open spec fn js(self) -> JV { JV::N(self as int) } }
impl PJson for u32 { open spec fn js(self) -> JV { JV::N(self as int) } }
impl PJson for u64 { open spec fn js(self) -> JV { JV::N(self as int) } }
impl PJson for u128 { open spec fn js(self) -> JV { JV::N(self as int) } }
impl PJson for U128 { open spec fn js(self) -> JV { JV::S(num_str(self.0 as int)) } }
impl PJson for U64 { open spec fn js(self) -> JV { JV::S(num_str(self.0 as int)) } }
impl PJson for Base58PublicKey { open spec fn js(self) -> JV { JV::S(pk_str(self.0.s@)) } }
impl PJson for Base64VecU8 { open spec fn js(self) -> JV { JV::Bytes(self.0.s@) } }
impl<T: PJson> PJson for Option<T> { open spec fn js(self) -> JV { match self { Some(x) => x.js(), None => JV::Null } } }
impl<A: PJson, B: PJson> PJson for (A, B) { open spec fn js(self) -> JV { JV::A(seq![self.0.js(), self.1.js()]) } }
impl<T: PJson> PJson for PVec<T> { open spec fn js(self) -> JV { JV::A(self.s@.map_values(|x: T| x.js())) } }

// ---------------------------------------------------------------- numbers
pub struct U256 { pub g: Ghost<int> }
impl Clone for U256 { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl Copy for U256 {}
pub open spec fn p256() -> int { 0x1_0000000000000000_0000000000000000_0000000000000000_0000000000000000int }
pub trait PNum: Sized + Copy { spec fn val(self) -> int; spec fn mx() -> int; }
impl PNum for u128 { open spec fn val(self) -> int { self as int } open spec fn mx() -> int { u128::MAX as int } }
impl PNum for u64 { open spec fn val(self) -> int { self as int } open spec fn mx() -> int { u64::MAX as int } }
impl PNum for u32 { open spec fn val(self) -> int { self as int } open spec fn mx() -> int { u32::MAX as int } }
impl PNum for u16 { open spec fn val(self) -> int { self as int } open spec fn mx() -> int { u16::MAX as int } }
impl PNum for u8 { open spec fn val(self) -> int { self as int } open spec fn mx() -> int { u8::MAX as int } }
impl PNum for usize { open spec fn val(self) -> int { self as int } open spec fn mx() -> int { usize::MAX as int } }
impl PNum for U256 { open spec fn val(self) -> int { self.g@ } open spec fn mx() -> int { p256() - 1 } }
#[verifier::external_body]
pub fn add<T: PNum>(a: T, b: T, w: &World) -> (r: T) requires w@.c.mp || a.val() + b.val() <= T::mx() ensures r.val() == a.val() + b.val(), r.val() <= T::mx() { unimplemented!() }
#[verifier::external_body]
pub fn sub<T: PNum>(a: T, b: T, w: &World) -> (r: T) requires w@.c.mp || a.val() >= b.val() ensures r.val() == a.val() - b.val(), r.val() >= 0 { unimplemented!() }
#[verifier::external_body]
pub fn mul<T: PNum>(a: T, b: T, w: &World) -> (r: T) requires w@.c.mp || a.val() * b.val() <= T::mx() ensures r.val() == a.val() * b.val(), r.val() <= T::mx() { unimplemented!() }
#[verifier::external_body]
pub fn div<T: PNum>(a: T, b: T, w: &World) -> (r: T) requires w@.c.mp || b.val() != 0 ensures b.val() != 0, r.val() == a.val() / b.val() { unimplemented!() }
#[verifier::external_body]
pub fn rem<T: PNum>(a: T, b: T, w: &World) -> (r: T) requires w@.c.mp || b.val() != 0 ensures b.val() != 0, r.val() == a.val() % b.val() { unimplemented!() }
#[verifier::external_body]
pub fn lt<T: PNum>(a: T, b: T) -> (r: bool) ensures r == (a.val() < b.val()) { unimplemented!() }
#[verifier::external_body]
pub fn le<T: PNum>(a: T, b: T) -> (r: bool) ensures r == (a.val() <= b.val()) { unimplemented!() }
#[verifier::external_body]
pub fn gt<T: PNum>(a: T, b: T) -> (r: bool) ensures r == (a.val() > b.val()) { unimplemented!() }
#[verifier::external_body]
pub fn ge<T: PNum>(a: T, b: T) -> (r: bool) ensures r == (a.val() >= b.val()) { unimplemented!() }
#[verifier::external_body]
pub fn min<T: PNum>(a: T, b: T) -> (r: T) ensures r == (if b.val() < a.val() { b } else { a }) { unimplemented!() }
#[verifier::external_body]
pub fn max<T: PNum>(a: T, b: T) -> (r: T) ensures r == (if b.val() >= a.val() { b } else { a }) { unimplemented!() }
#[verifier::external_body]
pub fn saturating_sub<T: PNum>(a: T, b: T) -> (r: T) ensures r.val() == (if a.val() >= b.val() { a.val() - b.val() } else { 0 }) { unimplemented!() }
#[verifier::external_body]
pub fn saturating_add<T: PNum>(a: T, b: T) -> (r: T) ensures r.val() == (if a.val() + b.val() <= T::mx() { a.val() + b.val() } else { T::mx() }) { unimplemented!() }
#[verifier::external_body]
pub fn wrapping_sub<T: PNum>(a: T, b: T) -> (r: T) ensures r.val() == (if a.val() >= b.val() { a.val() - b.val() } else { a.val() - b.val() + T::mx() + 1 }) { unimplemented!() }
#[verifier::external_body]
pub fn wrapping_add<T: PNum>(a: T, b: T) -> (r: T) ensures r.val() == (if a.val() + b.val() <= T::mx() { a.val() + b.val() } else { a.val() + b.val() - T::mx() - 1 }) { unimplemented!() }
#[verifier::external_body]
pub fn checked_sub<T: PNum>(a: T, b: T) -> (r: Option<T>) ensures r.is_some() == (a.val() >= b.val()), r.is_some() ==> r.unwrap().val() == a.val() - b.val() { unimplemented!() }
#[verifier::external_body]
pub fn checked_add<T: PNum>(a: T, b: T) -> (r: Option<T>) ensures r.is_some() == (a.val() + b.val() <= T::mx()), r.is_some() ==> r.unwrap().val() == a.val() + b.val() { unimplemented!() }
#[verifier::external_body]
pub fn checked_mul<T: PNum>(a: T, b: T) -> (r: Option<T>) ensures r.is_some() == (a.val() * b.val() <= T::mx()), r.is_some() ==> r.unwrap().val() == a.val() * b.val() { unimplemented!() }
#[verifier::external_body]
pub fn checked_div<T: PNum>(a: T, b: T) -> (r: Option<T>) ensures r.is_some() == (b.val() != 0), r.is_some() ==> r.unwrap().val() == a.val() / b.val() { unimplemented!() }
pub open spec fn pow_s(b: int, e: nat) -> int decreases e { if e == 0 { 1 } else { b * pow_s(b, (e - 1) as nat) } }
#[verifier::external_body]
pub fn pow<T: PNum>(a: T, e: u32, w: &World) -> (r: T) requires w@.c.mp || pow_s(a.val(), e as nat) <= T::mx() ensures r.val() == pow_s(a.val(), e as nat) { unimplemented!() }

#[verifier::external_body]
pub fn eq<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body]
pub fn ne<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a != *b) { unimplemented!() }

impl U256 {
  #[verifier::external_body] pub fn as_u128(self, w: &World) -> (r: u128) requires w@.c.mp || self.g@ <= u128::MAX ensures r == self.g@ { unimplemented!() }
  #[verifier::external_body] pub fn as_u64(self, w: &World) -> (r: u64) requires w@.c.mp || self.g@ <= u64::MAX ensures r == self.g@ { unimplemented!() }
  #[verifier::external_body] pub fn low_u128(self, w: &World) -> (r: u128) ensures r == self.g@ % 0x1_0000000000000000_0000000000000000int { unimplemented!() }
  #[verifier::external_body] pub fn is_zero(self, w: &World) -> (r: bool) ensures r == (self.g@ == 0) { unimplemented!() }
}

#[derive(Clone, Copy)] pub struct U128(pub u128);
#[derive(Clone, Copy)] pub struct U64(pub u64);
pub struct Base58PublicKey(pub PVec<u8>);
pub struct Base64VecU8(pub PVec<u8>);

// ---------------------------------------------------------------- conversions, clone, default
pub trait PFrom<T>: Sized { spec fn pfrom_s(t: T) -> Self; fn pfrom(t: T) -> (r: Self) ensures r == Self::pfrom_s(t); }
pub trait PInto<U>: Sized { spec fn pinto_s(self) -> U; fn pinto(self) -> (r: U) ensures r == self.pinto_s(); }
impl<T, U: PFrom<T>> PInto<U> for T { open spec fn pinto_s(self) -> U { U::pfrom_s(self) } fn pinto(self) -> (r: U) { U::pfrom(self) } }
impl<T> PFrom<T> for T { open spec fn pfrom_s(t: T) -> T { t } fn pfrom(t: T) -> (r: T) { t } }
impl PFrom<U128> for u128 { open spec fn pfrom_s(t: U128) -> u128 { t.0 } fn pfrom(t: U128) -> (r: u128) { t.0 } }
impl PFrom<u128> for U128 { open spec fn pfrom_s(t: u128) -> U128 { U128(t) } fn pfrom(t: u128) -> (r: U128) { U128(t) } }
impl PFrom<U64> for u64 { open spec fn pfrom_s(t: U64) -> u64 { t.0 } fn pfrom(t: U64) -> (r: u64) { t.0 } }
impl PFrom<u64> for U64 { open spec fn pfrom_s(t: u64) -> U64 { U64(t) } fn pfrom(t: u64) -> (r: U64) { U64(t) } }
impl PFrom<u64> for u128 { open spec fn pfrom_s(t: u64) -> u128 { t as u128 } fn pfrom(t: u64) -> (r: u128) { t as u128 } }
impl PFrom<u32> for u128 { open spec fn pfrom_s(t: u32) -> u128 { t as u128 } fn pfrom(t: u32) -> (r: u128) { t as u128 } }
impl PFrom<u32> for u64 { open spec fn pfrom_s(t: u32) -> u64 { t as u64 } fn pfrom(t: u32) -> (r: u64) { t as u64 } }
impl PFrom<u128> for U256 { open spec fn pfrom_s(t: u128) -> Self { U256 { g: Ghost(t as int) } } #[verifier::external_body] fn pfrom(t: u128) -> (r: Self) { unimplemented!() } }
impl PFrom<u64> for U256 { open spec fn pfrom_s(t: u64) -> Self { U256 { g: Ghost(t as int) } } #[verifier::external_body] fn pfrom(t: u64) -> (r: Self) { unimplemented!() } }
impl PFrom<u32> for U256 { open spec fn pfrom_s(t: u32) -> Self { U256 { g: Ghost(t as int) } } #[verifier::external_body] fn pfrom(t: u32) -> (r: Self) { unimplemented!() } }
impl PFrom<Base58PublicKey> for PVec<u8> { open spec fn pfrom_s(t: Base58PublicKey) -> PVec<u8> { t.0 } fn pfrom(t: Base58PublicKey) -> (r: PVec<u8>) { t.0 } }
impl PFrom<Base64VecU8> for PVec<u8> { open spec fn pfrom_s(t: Base64VecU8) -> PVec<u8> { t.0 } fn pfrom(t: Base64VecU8) -> (r: PVec<u8>) { t.0 } }
impl PFrom<PVec<u8>> for Base64VecU8 { open spec fn pfrom_s(t: PVec<u8>) -> Base64VecU8 { Base64VecU8(t) } fn pfrom(t: PVec<u8>) -> (r: Base64VecU8) { Base64VecU8(t) } }
impl PFrom<&Str> for Str { open spec fn pfrom_s(t: &Str) -> Str { *t } #[verifier::external_body] fn pfrom(t: &Str) -> (r: Str) { unimplemented!() } }
impl PFrom<Str> for PVec<u8> { open spec fn pfrom_s(t: Str) -> PVec<u8> { PVec { s: Ghost(str_bytes(t.s@)) } } #[verifier::external_body] fn pfrom(t: Str) -> (r: PVec<u8>) { unimplemented!() } }
pub struct ConvErr {}
pub trait PTryFrom<T>: Sized { spec fn ptry_s(t: T) -> Result<Self, ConvErr>; fn ptry_from(t: T) -> (r: Result<Self, ConvErr>) ensures r == Self::ptry_s(t); }
pub trait PTryInto<U>: Sized { spec fn ptryinto_s(self) -> Result<U, ConvErr>; fn ptry_into(self) -> (r: Result<U, ConvErr>) ensures r == self.ptryinto_s(); }
impl<T, U: PTryFrom<T>> PTryInto<U> for T { open spec fn ptryinto_s(self) -> Result<U, ConvErr> { U::ptry_s(self) } fn ptry_into(self) -> (r: Result<U, ConvErr>) { U::ptry_from(self) } }
pub uninterp spec fn pk_ok(b: Seq<u8>) -> bool;
impl PTryFrom<PVec<u8>> for PVec<u8> { open spec fn ptry_s(t: PVec<u8>) -> Result<Self, ConvErr> { if pk_ok(t.s@) { Ok(t) } else { Err(ConvErr {}) } } #[verifier::external_body] fn ptry_from(t: PVec<u8>) -> (r: Result<Self, ConvErr>) { unimplemented!() } }
impl PTryFrom<PVec<u8>> for Base58PublicKey { open spec fn ptry_s(t: PVec<u8>) -> Result<Self, ConvErr> { if pk_ok(t.s@) { Ok(Base58PublicKey(t)) } else { Err(ConvErr {}) } } #[verifier::external_body] fn ptry_from(t: PVec<u8>) -> (r: Result<Self, ConvErr>) { unimplemented!() } }

pub uninterp spec fn borsh<T>(x: T) -> Seq<u8>;
pub trait PBorsh: Sized { #[verifier::external_body] fn try_to_vec(&self, w: &World) -> (r: Result<PVec<u8>, ConvErr>) ensures r.is_ok(), r->Ok_0.s@ == borsh::<Self>(*self) { unimplemented!() } }
impl<T> PBorsh for T {}
pub trait PClone: Sized { fn pclone(&self) -> (r: Self) ensures r == *self; }
impl<T> PClone for T { #[verifier::external_body] fn pclone(&self) -> (r: Self) { unimplemented!() } }

pub trait PDefault: Sized { spec fn pdef() -> Self; fn pdefault() -> (r: Self) ensures r == Self::pdef(); }
impl PDefault for u128 { open spec fn pdef() -> Self { 0u128 } fn pdefault() -> (r: Self) { 0 } }
impl PDefault for u64 { open spec fn pdef() -> Self { 0u64 } fn pdefault() -> (r: Self) { 0 } }
impl PDefault for u32 { open spec fn pdef() -> Self { 0u32 } fn pdefault() -> (r: Self) { 0 } }
impl PDefault for bool { open spec fn pdef() -> Self { false } fn pdefault() -> (r: Self) { false } }
impl<T> PDefault for PVec<T> { open spec fn pdef() -> Self { PVec { s: Ghost(Seq::empty()) } } #[verifier::external_body] fn pdefault() -> (r: Self) { unimplemented!() } }
impl<T> PDefault for HSet<T> { open spec fn pdef() -> Self { HSet { s: Ghost(Set::empty()) } } #[verifier::external_body] fn pdefault() -> (r: Self) { unimplemented!() } }
impl<K, V> PDefault for HMap<K, V> { open spec fn pdef() -> Self { HMap { m: Ghost(Map::empty()) } } #[verifier::external_body] fn pdefault() -> (r: Self) { unimplemented!() } }
impl<T> PDefault for Option<T> { open spec fn pdef() -> Self { None } fn pdefault() -> (r: Self) { None } }
impl PDefault for Str { open spec fn pdef() -> Self { Str { s: Ghost(Seq::empty()) } } #[verifier::external_body] fn pdefault() -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub fn take<T: PDefault>(x: &mut T) -> (r: T) ensures r == *old(x), *final(x) == T::pdef() { unimplemented!() }
#[verifier::external_body]
pub fn replace<T>(x: &mut T, y: T) -> (r: T) ensures r == *old(x), *final(x) == y { unimplemented!() }

pub trait PUnwrap<T>: Sized {
  spec fn good(self) -> bool;
  spec fn got(self) -> T;
  fn punwrap(self, w: &World) -> (r: T) requires w@.c.mp || self.good() ensures self.good(), r == self.got();
  fn punwrap_or(self, d: T) -> (r: T) ensures r == (if self.good() { self.got() } else { d });
}
impl<T> PUnwrap<T> for Option<T> {
  open spec fn good(self) -> bool { self.is_some() }
  open spec fn got(self) -> T { self.unwrap() }
  #[verifier::external_body] fn punwrap(self, w: &World) -> (r: T) { unimplemented!() }
  #[verifier::external_body] fn punwrap_or(self, d: T) -> (r: T) { unimplemented!() }
}
impl<T, E> PUnwrap<T> for Result<T, E> {
  open spec fn good(self) -> bool { self.is_ok() }
  open spec fn got(self) -> T { self->Ok_0 }
  #[verifier::external_body] fn punwrap(self, w: &World) -> (r: T) { unimplemented!() }
  #[verifier::external_body] fn punwrap_or(self, d: T) -> (r: T) { unimplemented!() }
}
pub trait PUnwrapD<T: PDefault>: Sized {
  spec fn good_d(self) -> bool;
  spec fn got_d(self) -> T;
  fn punwrap_or_default(self) -> (r: T) ensures r == (if self.good_d() { self.got_d() } else { T::pdef() });
}
impl<T: PDefault> PUnwrapD<T> for Option<T> {
  open spec fn good_d(self) -> bool { self.is_some() }
  open spec fn got_d(self) -> T { self.unwrap() }
  #[verifier::external_body] fn punwrap_or_default(self) -> (r: T) { unimplemented!() }
}
pub trait PCloned<T>: Sized { spec fn cl(self) -> Option<T>; fn pcloned(self) -> (r: Option<T>) ensures r == self.cl(); }
impl<T> PCloned<T> for Option<&T> { open spec fn cl(self) -> Option<T> { match self { Some(x) => Some(*x), None => None } } #[verifier::external_body] fn pcloned(self) -> (r: Option<T>) { unimplemented!() } }

// ---------------------------------------------------------------- strings: operations
#[verifier::external_body] pub fn slit(s: &'static str) -> (r: Str) ensures r.s@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn blit(s: &'static str) -> (r: PVec<u8>) ensures r.s@ == str_bytes(s@) { unimplemented!() }
#[verifier::external_body] pub fn wasm(s: &'static str) -> (r: PVec<u8>) ensures r.s@ == wasm_of(s@) { unimplemented!() }
pub trait PDisp { spec fn disp(&self) -> Seq<char>; fn pstr(&self) -> (r: Str) ensures r.s@ == self.disp(); }
impl PDisp for Str { open spec fn disp(&self) -> Seq<char> { self.s@ } #[verifier::external_body] fn pstr(&self) -> (r: Str) { unimplemented!() } }
impl PDisp for u64 { open spec fn disp(&self) -> Seq<char> { num_str(*self as int) } #[verifier::external_body] fn pstr(&self) -> (r: Str) { unimplemented!() } }
impl PDisp for u128 { open spec fn disp(&self) -> Seq<char> { num_str(*self as int) } #[verifier::external_body] fn pstr(&self) -> (r: Str) { unimplemented!() } }
impl PDisp for u32 { open spec fn disp(&self) -> Seq<char> { num_str(*self as int) } #[verifier::external_body] fn pstr(&self) -> (r: Str) { unimplemented!() } }
impl<'a, T: PDisp> PDisp for &'a T { open spec fn disp(&self) -> Seq<char> { (**self).disp() } #[verifier::external_body] fn pstr(&self) -> (r: Str) { unimplemented!() } }
#[verifier::external_body] pub fn cat(a: Str, b: Str) -> (r: Str) ensures r.s@ == a.s@ + b.s@ { unimplemented!() }
// strings put together in another order
pub broadcast proof fn cat_assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures #[trigger] (a + (b + c)) == a + b + c { assert(a + (b + c) =~= a + b + c); }
pub broadcast proof fn cat_dot(a: Seq<char>) ensures #[trigger] a.push('.') == a + "."@ { reveal_strlit("."); assert(a.push('.') =~= a + "."@); }
impl Str {
  #[verifier::external_body] pub fn push_str(&mut self, x: &Str, w: &World) ensures final(self).s@ == old(self).s@ + x.s@ { unimplemented!() }
  #[verifier::external_body] pub fn push(&mut self, x: char, w: &World) ensures final(self).s@ == old(self).s@.push(x) { unimplemented!() }
  #[verifier::external_body] pub fn as_bytes(&self, w: &World) -> (r: &PVec<u8>) ensures r.s@ == str_bytes(self.s@) { unimplemented!() }
  #[verifier::external_body] pub fn into_bytes(self, w: &World) -> (r: PVec<u8>) ensures r.s@ == str_bytes(self.s@) { unimplemented!() }
  #[verifier::external_body] pub fn as_str(&self, w: &World) -> (r: &Str) ensures *r == *self { unimplemented!() }
  #[verifier::external_body] pub fn as_ref(&self) -> (r: &Str) ensures *r == *self { unimplemented!() }
  #[verifier::external_body] pub fn to_owned(&self, w: &World) -> (r: Str) ensures r == *self { unimplemented!() }
  #[verifier::external_body] pub fn len(&self, w: &World) -> (r: usize) ensures r <= u32::MAX, r == str_bytes(self.s@).len() { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self, w: &World) -> (r: bool) ensures r == (self.s@.len() == 0) { unimplemented!() }
  #[verifier::external_body] pub fn repeat(&self, n: usize, w: &World) -> (r: Str) ensures r.s@ == rep_s(self.s@, n as nat) { unimplemented!() }
  #[verifier::external_body] pub fn contains<P: PPat>(&self, c: P, w: &World) -> (r: bool) ensures r == c.found(self.s@) { unimplemented!() }
  #[verifier::external_body] pub fn find<P: PPat>(&self, c: P, w: &World) -> (r: Option<usize>) ensures r.is_some() == c.found(self.s@) { unimplemented!() }
  #[verifier::external_body] pub fn rfind<P: PPat>(&self, c: P, w: &World) -> (r: Option<usize>) ensures r.is_some() == c.found(self.s@) { unimplemented!() }
  #[verifier::external_body] pub fn starts_with<P: PPat>(&self, c: P, w: &World) -> (r: bool) ensures r == c.leads(self.s@) { unimplemented!() }
  #[verifier::external_body] pub fn ends_with<P: PPat>(&self, c: P, w: &World) -> (r: bool) ensures r == c.trails(self.s@) { unimplemented!() }
}
pub open spec fn rep_s(s: Seq<char>, n: nat) -> Seq<char> decreases n { if n == 0 { Seq::empty() } else { rep_s(s, (n - 1) as nat) + s } }
pub trait PPat { spec fn found(self, s: Seq<char>) -> bool; spec fn leads(self, s: Seq<char>) -> bool; spec fn trails(self, s: Seq<char>) -> bool; }
impl PPat for char {
  open spec fn found(self, s: Seq<char>) -> bool { s.contains(self) }
  open spec fn leads(self, s: Seq<char>) -> bool { s.len() > 0 && s[0] == self }
  open spec fn trails(self, s: Seq<char>) -> bool { s.len() > 0 && s.last() == self }
}
impl PPat for Str {
  open spec fn found(self, s: Seq<char>) -> bool { if self.s@.len() == 1 { s.contains(self.s@[0]) } else { exists|i: int| 0 <= i && i + self.s@.len() <= s.len() && #[trigger] s.subrange(i, i + self.s@.len()) == self.s@ } }
  open spec fn leads(self, s: Seq<char>) -> bool { self.s@.is_prefix_of(s) }
  open spec fn trails(self, s: Seq<char>) -> bool { self.s@.is_suffix_of(s) }
}
impl<'a> PPat for &'a Str {
  open spec fn found(self, s: Seq<char>) -> bool { (*self).found(s) }
  open spec fn leads(self, s: Seq<char>) -> bool { (*self).leads(s) }
  open spec fn trails(self, s: Seq<char>) -> bool { (*self).trails(s) }
}

// ---------------------------------------------------------------- collections (ghost contents; lengths fit the 32-bit usize of wasm32)
pub struct PVec<T> { pub s: Ghost<Seq<T>> }
pub open spec fn slice_lo(a: Option<usize>) -> int { match a { Some(x) => x as int, None => 0 } }
pub open spec fn slice_hi(b: Option<usize>, n: nat) -> int { match b { Some(x) => x as int, None => n as int } }
#[verifier::external_body] pub fn hex_encode<B: PBytes>(b: B) -> (r: Str) ensures r.s@ == hex_s(b.bts()) { unimplemented!() }
#[verifier::external_body] pub fn base64_decode<B: PBytes>(b: B) -> (r: Result<PVec<u8>, ConvErr>) ensures r.is_ok() == b64_ok(b.bts()), r.is_ok() ==> r->Ok_0.s@ == b64_dec(b.bts()) { unimplemented!() }
#[verifier::external_body] pub fn base64_decode_other<B: PBytes>(b: B) -> (r: Result<PVec<u8>, ConvErr>) { unimplemented!() }
pub uninterp spec fn b64_ok(b: Seq<u8>) -> bool;
pub uninterp spec fn b64_dec(b: Seq<u8>) -> Seq<u8>;
impl<T> PVec<T> {
  #[verifier::external_body] pub fn new(w: &World) -> (r: PVec<T>) ensures r.s@ == Seq::<T>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn with_capacity(n: usize, w: &World) -> (r: PVec<T>) ensures r.s@ == Seq::<T>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn len(&self, w: &World) -> (r: usize) ensures r <= u32::MAX, r == self.s@.len() { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self, w: &World) -> (r: bool) ensures r == (self.s@.len() == 0) { unimplemented!() }
  #[verifier::external_body] pub fn push(&mut self, x: T, w: &World) ensures final(self).s@ == old(self).s@.push(x) { unimplemented!() }
  #[verifier::external_body] pub fn index(&self, i: usize, w: &World) -> (r: &T) requires w@.c.mp || i < self.s@.len() ensures i < self.s@.len(), *r == self.s@[i as int] { unimplemented!() }
  #[verifier::external_body] pub fn get(&self, i: usize, w: &World) -> (r: Option<&T>) ensures r == (if i < self.s@.len() { Some(&self.s@[i as int]) } else { None }) { unimplemented!() }
  #[verifier::external_body] pub fn first(&self, w: &World) -> (r: Option<&T>) ensures r == (if 0 < self.s@.len() { Some(&self.s@[0]) } else { None }) { unimplemented!() }
  #[verifier::external_body] pub fn last(&self, w: &World) -> (r: Option<&T>) ensures r == (if 0 < self.s@.len() { Some(&self.s@.last()) } else { None }) { unimplemented!() }
  #[verifier::external_body] pub fn contains(&self, x: &T, w: &World) -> (r: bool) ensures r == self.s@.contains(*x) { unimplemented!() }
  #[verifier::external_body] pub fn slice(&self, a: Option<usize>, b: Option<usize>, w: &World) -> (r: &PVec<T>) requires w@.c.mp || (slice_lo(a) <= slice_hi(b, self.s@.len()) <= self.s@.len()) ensures slice_lo(a) <= slice_hi(b, self.s@.len()) <= self.s@.len(), r.s@ == self.s@.subrange(slice_lo(a), slice_hi(b, self.s@.len())) { unimplemented!() }
  #[verifier::external_body] pub fn to_vec(&self, w: &World) -> (r: PVec<T>) ensures r == *self { unimplemented!() }
  #[verifier::external_body] pub fn to_owned(&self, w: &World) -> (r: PVec<T>) ensures r == *self { unimplemented!() }
  #[verifier::external_body] pub fn as_slice(&self, w: &World) -> (r: &PVec<T>) ensures *r == *self { unimplemented!() }
  #[verifier::external_body] pub fn as_ref(&self) -> (r: &PVec<T>) ensures *r == *self { unimplemented!() }
  #[verifier::external_body] pub fn iter(&self, w: &World) -> (r: ItR<'_, T>) ensures r.items@ == self.s@, r.pos@ == 0 { unimplemented!() }
  #[verifier::external_body] pub fn into_iter(self, w: &World) -> (r: It<T>) ensures r.items@ == self.s@, r.pos@ == 0 { unimplemented!() }
}
pub uninterp spec fn join_s(s: Seq<Str>, sep: Seq<char>) -> Seq<char>;
impl PVec<Str> { #[verifier::external_body] pub fn join(&self, sep: &Str, w: &World) -> (r: Str) ensures r.s@ == join_s(self.s@, sep.s@) { unimplemented!() } }
pub struct HSet<T> { pub s: Ghost<Set<T>> }
impl<T> HSet<T> {
  #[verifier::external_body] pub fn new(w: &World) -> (r: HSet<T>) ensures r.s@ == Set::<T>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn default(w: &World) -> (r: HSet<T>) ensures r.s@ == Set::<T>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn len(&self, w: &World) -> (r: usize) ensures r <= u32::MAX, r == self.s@.len() { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self, w: &World) -> (r: bool) ensures r == (self.s@.len() == 0) { unimplemented!() }
  #[verifier::external_body] pub fn contains(&self, x: &T, w: &World) -> (r: bool) ensures r == self.s@.contains(*x) { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, x: T, w: &World) -> (r: bool) ensures r == !old(self).s@.contains(x), final(self).s@ == old(self).s@.insert(x) { unimplemented!() }
  #[verifier::external_body] pub fn remove(&mut self, x: &T, w: &World) -> (r: bool) ensures r == old(self).s@.contains(*x), final(self).s@ == old(self).s@.remove(*x) { unimplemented!() }
  #[verifier::external_body] pub fn iter(&self, w: &World) -> (r: ItR<'_, T>) ensures r.items@.no_duplicates(), r.items@.to_set() == self.s@, r.items@.len() == self.s@.len(), r.pos@ == 0 { unimplemented!() }
  #[verifier::external_body] pub fn into_iter(self, w: &World) -> (r: It<T>) ensures r.items@.no_duplicates(), r.items@.to_set() == self.s@, r.items@.len() == self.s@.len(), r.pos@ == 0 { unimplemented!() }
}
pub open spec fn kv_order<K, V>(items: Seq<(K, V)>, m: Map<K, V>) -> bool {
  &&& items.len() == m.dom().len()
  &&& forall|i: int| 0 <= i < items.len() ==> m.dom().contains((#[trigger] items[i]).0) && m[items[i].0] == items[i].1
  &&& forall|i: int, j: int| 0 <= i < items.len() && 0 <= j < items.len() && i != j ==> (#[trigger] items[i]).0 != (#[trigger] items[j]).0
  &&& forall|k: K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0 == k
}
// what a loop over a map's entries, or over its keys, visits
pub trait Keyed<K>: Sized { spec fn key(self) -> K; }
impl<K, V> Keyed<K> for (K, V) { open spec fn key(self) -> K { self.0 } }
impl Keyed<Str> for Str { open spec fn key(self) -> Str { self } }
pub open spec fn key_seq<K, T: Keyed<K>, V>(items: Seq<T>, m: Map<K, V>) -> bool {
  &&& items.len() == m.dom().len()
  &&& forall|i: int| 0 <= i < items.len() ==> m.dom().contains((#[trigger] items[i]).key())
  &&& forall|i: int, j: int| 0 <= i < items.len() && 0 <= j < items.len() && i != j ==> (#[trigger] items[i]).key() != (#[trigger] items[j]).key()
  &&& forall|k: K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < items.len() && (#[trigger] items[i]).key() == k
}
pub struct HMap<K, V> { pub m: Ghost<Map<K, V>> }
impl<K, V> HMap<K, V> {
  #[verifier::external_body] pub fn new(w: &World) -> (r: HMap<K, V>) ensures r.m@ == Map::<K, V>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn with_capacity(n: usize, w: &World) -> (r: HMap<K, V>) ensures r.m@ == Map::<K, V>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn default(w: &World) -> (r: HMap<K, V>) ensures r.m@ == Map::<K, V>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn len(&self, w: &World) -> (r: usize) ensures r <= u32::MAX, r == self.m@.dom().len() { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self, w: &World) -> (r: bool) ensures r == (self.m@.dom().len() == 0) { unimplemented!() }
  #[verifier::external_body] pub fn get(&self, k: &K, w: &World) -> (r: Option<&V>) ensures r == (if self.m@.dom().contains(*k) { Some(&self.m@[*k]) } else { None }) { unimplemented!() }
  #[verifier::external_body] pub fn contains_key(&self, k: &K, w: &World) -> (r: bool) ensures r == self.m@.dom().contains(*k) { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: K, v: V, w: &World) -> (r: Option<V>) ensures final(self).m@ == old(self).m@.insert(k, v), r == (if old(self).m@.dom().contains(k) { Some(old(self).m@[k]) } else { None }) { unimplemented!() }
  #[verifier::external_body] pub fn remove(&mut self, k: &K, w: &World) -> (r: Option<V>) ensures final(self).m@ == old(self).m@.remove(*k), r == (if old(self).m@.dom().contains(*k) { Some(old(self).m@[*k]) } else { None }) { unimplemented!() }
  #[verifier::external_body] pub fn clear(&mut self, w: &World) ensures final(self).m@ == Map::<K, V>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn iter(&self, w: &World) -> (r: ItKVR<'_, K, V>) ensures kv_order(r.items@, self.m@), r.pos@ == 0 { unimplemented!() }
  #[verifier::external_body] pub fn into_iter(self, w: &World) -> (r: It<(K, V)>) ensures kv_order(r.items@, self.m@), r.pos@ == 0 { unimplemented!() }
  #[verifier::external_body] pub fn keys(&self, w: &World) -> (r: ItR<'_, K>) ensures r.items@.no_duplicates(), r.items@.to_set() == self.m@.dom(), r.items@.len() == self.m@.dom().len(), r.pos@ == 0 { unimplemented!() }
  #[verifier::external_body] pub fn drain(&mut self, w: &World) -> (r: It<(K, V)>) ensures kv_order(r.items@, old(self).m@), r.pos@ == 0, final(self).m@ == Map::<K, V>::empty() { unimplemented!() }
}
pub trait PCollect<T>: Sized { spec fn from_seq(s: Seq<T>) -> Self; fn pcollect(v: PVec<T>) -> (r: Self) ensures r == Self::from_seq(v.s@); }
impl<T> PCollect<T> for PVec<T> { open spec fn from_seq(s: Seq<T>) -> Self { PVec { s: Ghost(s) } } #[verifier::external_body] fn pcollect(v: PVec<T>) -> (r: Self) { unimplemented!() } }
impl<T> PCollect<T> for HSet<T> { open spec fn from_seq(s: Seq<T>) -> Self { HSet { s: Ghost(s.to_set()) } } #[verifier::external_body] fn pcollect(v: PVec<T>) -> (r: Self) { unimplemented!() } }
pub open spec fn seq_map<K, V>(s: Seq<(K, V)>) -> Map<K, V> decreases s.len() { if s.len() == 0 { Map::empty() } else { seq_map(s.drop_last()).insert(s.last().0, s.last().1) } }
pub open spec fn distinct_keys<K, V>(s: Seq<(K, V)>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
pub open spec fn kvp<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
  &&& forall|k: K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
  &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0)
  &&& distinct_keys(s) ==> forall|i: int| 0 <= i < s.len() ==> m[(#[trigger] s[i]).0] == s[i].1
}
pub broadcast proof fn seq_map_kv<K, V>(s: Seq<(K, V)>)
  ensures kvp(s, #[trigger] seq_map(s)),
  decreases s.len()
{
  if s.len() > 0 {
    let d = s.drop_last();
    seq_map_kv(d);
    assert forall|k: K| #[trigger] seq_map(s).dom().contains(k) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k by {
      if k == s.last().0 { assert(s[s.len() - 1].0 == k); } else { assert(seq_map(d).dom().contains(k)); let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == k; assert(s[i].0 == k); }
    }
    assert forall|i: int| 0 <= i < s.len() implies seq_map(s).dom().contains((#[trigger] s[i]).0) by { if i < d.len() { assert(d[i] == s[i]); } }
    if distinct_keys(s) {
      assert forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d.len() && i != j implies (#[trigger] d[i]).0 != (#[trigger] d[j]).0 by { assert(s[i] == d[i] && s[j] == d[j]); }
      assert forall|i: int| 0 <= i < s.len() implies seq_map(s)[(#[trigger] s[i]).0] == s[i].1 by { if i < d.len() { assert(d[i] == s[i]); assert(s[i].0 != s[s.len() - 1].0); } }
    }
  }
}
impl<K, V> PCollect<(K, V)> for HMap<K, V> { open spec fn from_seq(s: Seq<(K, V)>) -> Self { HMap { m: Ghost(seq_map(s)) } } #[verifier::external_body] fn pcollect(v: PVec<(K, V)>) -> (r: Self) { unimplemented!() } }

// iterators
pub struct It<T> { pub items: Ghost<Seq<T>>, pub pos: Ghost<int> }
impl<T> It<T> {
  #[verifier::external_body] pub fn has_next(&self) -> (r: bool) ensures r == (self.pos@ < self.items@.len()) { unimplemented!() }
  #[verifier::external_body] pub fn next_(&mut self) -> (r: T) requires 0 <= old(self).pos@ < old(self).items@.len() ensures r == old(self).items@[old(self).pos@], final(self).items@ == old(self).items@, final(self).pos@ == old(self).pos@ + 1 { unimplemented!() }
  #[verifier::external_body] pub fn next(&mut self, w: &World) -> (r: Option<T>) ensures final(self).items@ == old(self).items@, old(self).pos@ < old(self).items@.len() ==> r is Some && r->0 == old(self).items@[old(self).pos@] && final(self).pos@ == old(self).pos@ + 1, !(old(self).pos@ < old(self).items@.len()) ==> r is None && final(self).pos@ == old(self).pos@ { unimplemented!() }
  pub fn into_iter(self, w: &World) -> (r: It<T>) ensures r == self { self }
  #[verifier::external_body] pub fn rev(self, w: &World) -> (r: It<T>) ensures r.items@ == self.items@.reverse(), r.pos@ == 0 { unimplemented!() }
  #[verifier::external_body] pub fn take(self, n: usize, w: &World) -> (r: It<T>) ensures r.items@ == (if n <= self.items@.len() { self.items@.take(n as int) } else { self.items@ }), r.pos@ == 0 { unimplemented!() }
  #[verifier::external_body] pub fn skip(self, n: usize, w: &World) -> (r: It<T>) ensures r.items@ == (if n <= self.items@.len() { self.items@.skip(n as int) } else { Seq::empty() }), r.pos@ == 0 { unimplemented!() }
  #[verifier::external_body] pub fn len(&self, w: &World) -> (r: usize) ensures r <= u32::MAX, r == self.items@.len() { unimplemented!() }
}
#[verifier::reject_recursive_types(T)]
pub struct ItR<'a, T> { pub items: Ghost<Seq<T>>, pub pos: Ghost<int>, pub ph: Ghost<Option<&'a T>> }
impl<'a, T> ItR<'a, T> {
  #[verifier::external_body] pub fn has_next(&self) -> (r: bool) ensures r == (self.pos@ < self.items@.len()) { unimplemented!() }
  #[verifier::external_body] pub fn next_(&mut self) -> (r: &'a T) requires 0 <= old(self).pos@ < old(self).items@.len() ensures *r == old(self).items@[old(self).pos@], final(self).items@ == old(self).items@, final(self).pos@ == old(self).pos@ + 1 { unimplemented!() }
  #[verifier::external_body] pub fn next(&mut self, w: &World) -> (r: Option<&'a T>) ensures final(self).items@ == old(self).items@, old(self).pos@ < old(self).items@.len() ==> r is Some && *r->0 == old(self).items@[old(self).pos@] && final(self).pos@ == old(self).pos@ + 1, !(old(self).pos@ < old(self).items@.len()) ==> r is None && final(self).pos@ == old(self).pos@ { unimplemented!() }
  pub fn into_iter(self, w: &World) -> (r: ItR<'a, T>) ensures r == self { self }
  #[verifier::external_body] pub fn cloned(self, w: &World) -> (r: It<T>) ensures r.items@ == self.items@, r.pos@ == 0 { unimplemented!() }
  #[verifier::external_body] pub fn len(&self, w: &World) -> (r: usize) ensures r <= u32::MAX, r == self.items@.len() { unimplemented!() }
}
#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct ItKVR<'a, K, V> { pub items: Ghost<Seq<(K, V)>>, pub pos: Ghost<int>, pub ph: Ghost<Option<&'a (K, V)>> }
impl<'a, K, V> ItKVR<'a, K, V> {
  #[verifier::external_body] pub fn has_next(&self) -> (r: bool) ensures r == (self.pos@ < self.items@.len()) { unimplemented!() }
  #[verifier::external_body] pub fn next_(&mut self) -> (r: (&'a K, &'a V)) requires 0 <= old(self).pos@ < old(self).items@.len() ensures *r.0 == old(self).items@[old(self).pos@].0, *r.1 == old(self).items@[old(self).pos@].1, final(self).items@ == old(self).items@, final(self).pos@ == old(self).pos@ + 1 { unimplemented!() }
  #[verifier::external_body] pub fn next(&mut self, w: &World) -> (r: Option<(&'a K, &'a V)>) ensures final(self).items@ == old(self).items@, old(self).pos@ < old(self).items@.len() ==> r is Some && *(r->0).0 == old(self).items@[old(self).pos@].0 && *(r->0).1 == old(self).items@[old(self).pos@].1 && final(self).pos@ == old(self).pos@ + 1, !(old(self).pos@ < old(self).items@.len()) ==> r is None && final(self).pos@ == old(self).pos@ { unimplemented!() }
  pub fn into_iter(self, w: &World) -> (r: ItKVR<'a, K, V>) ensures r == self { self }
}
pub trait PRange: Sized { spec fn rng(a: Self, b: Self) -> Seq<Self>; }
impl PRange for u64 { open spec fn rng(a: u64, b: u64) -> Seq<u64> { Seq::new((if a < b { b - a } else { 0 }) as nat, |i: int| (a + i) as u64) } }
impl PRange for u32 { open spec fn rng(a: u32, b: u32) -> Seq<u32> { Seq::new((if a < b { b - a } else { 0 }) as nat, |i: int| (a + i) as u32) } }
impl PRange for usize { open spec fn rng(a: usize, b: usize) -> Seq<usize> { Seq::new((if a < b { b - a } else { 0 }) as nat, |i: int| (a + i) as usize) } }
#[verifier::external_body]
pub fn range<T: PRange>(a: T, b: T) -> (r: It<T>) ensures r.items@ == T::rng(a, b), r.pos@ == 0 { unimplemented!() }

// near-sdk persistent collections: contents plus the storage prefix they live under
pub uninterp spec fn key_order<K>(s: Set<K>, t: int) -> Seq<K>;
#[verifier::ext_equal]
pub struct UMap<K, V> { pub p: Ghost<Seq<u8>>, pub m: Ghost<Map<K, V>>, pub t: Ghost<int> }
pub trait PPrefix { spec fn prefix(self) -> Seq<u8>; }
impl PPrefix for PVec<u8> { open spec fn prefix(self) -> Seq<u8> { self.s@ } }
impl<'a> PPrefix for &'a PVec<u8> { open spec fn prefix(self) -> Seq<u8> { self.s@ } }
impl<K, V> UMap<K, V> {
  #[verifier::external_body] pub fn new<P: PPrefix>(p: P, w: &World) -> (r: UMap<K, V>) ensures r.m@ == Map::<K, V>::empty(), r.p@ == p.prefix() { unimplemented!() }
  #[verifier::external_body] pub fn len(&self, w: &World) -> (r: u64) ensures r == self.m@.dom().len() { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self, w: &World) -> (r: bool) ensures r == (self.m@.dom().len() == 0) { unimplemented!() }
  #[verifier::external_body] pub fn get(&self, k: &K, w: &World) -> (r: Option<V>) ensures r == (if self.m@.dom().contains(*k) { Some(self.m@[*k]) } else { None }) { unimplemented!() }
  #[verifier::external_body] pub fn contains_key(&self, k: &K, w: &World) -> (r: bool) ensures r == self.m@.dom().contains(*k) { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: &K, v: &V, w: &World) -> (r: Option<V>) ensures final(self).m@ == old(self).m@.insert(*k, *v), final(self).p@ == old(self).p@, r == (if old(self).m@.dom().contains(*k) { Some(old(self).m@[*k]) } else { None }) { unimplemented!() }
  #[verifier::external_body] pub fn remove(&mut self, k: &K, w: &World) -> (r: Option<V>) ensures final(self).m@ == old(self).m@.remove(*k), final(self).p@ == old(self).p@, r == (if old(self).m@.dom().contains(*k) { Some(old(self).m@[*k]) } else { None }) { unimplemented!() }
  #[verifier::external_body] pub fn clear(&mut self, w: &World) ensures final(self).m@ == Map::<K, V>::empty(), final(self).p@ == old(self).p@ { unimplemented!() }
  #[verifier::external_body] pub fn keys_as_vector(&self, w: &World) -> (r: &NVec<K>) ensures r.s@ == key_order(self.m@.dom(), self.t@), r.s@.no_duplicates(), r.s@.to_set() == self.m@.dom(), r.s@.len() == self.m@.dom().len() { unimplemented!() }
  #[verifier::external_body] pub fn keys(&self, w: &World) -> (r: It<K>) ensures r.items@ == key_order(self.m@.dom(), self.t@), r.items@.no_duplicates(), r.items@.to_set() == self.m@.dom(), r.items@.len() == self.m@.dom().len(), r.pos@ == 0 { unimplemented!() }
  #[verifier::external_body] pub fn iter(&self, w: &World) -> (r: It<(K, V)>) ensures kv_order(r.items@, self.m@), r.pos@ == 0 { unimplemented!() }
  #[verifier::external_body] pub fn values(&self, w: &World) -> (r: It<V>) ensures r.items@.len() == self.m@.dom().len(), r.pos@ == 0 { unimplemented!() }
}
pub struct NVec<T> { pub s: Ghost<Seq<T>> }
impl<T> NVec<T> {
  #[verifier::external_body] pub fn len(&self, w: &World) -> (r: u64) ensures r == self.s@.len() { unimplemented!() }
  #[verifier::external_body] pub fn get(&self, i: u64, w: &World) -> (r: Option<T>) ensures r == (if i < self.s@.len() { Some(self.s@[i as int]) } else { None }) { unimplemented!() }
  #[verifier::external_body] pub fn iter(&self, w: &World) -> (r: It<T>) ensures r.items@ == self.s@, r.pos@ == 0 { unimplemented!() }
}
pub struct USet<T> { pub p: Ghost<Seq<u8>>, pub s: Ghost<Set<T>> }
impl<T> USet<T> {
  #[verifier::external_body] pub fn new<P: PPrefix>(p: P, w: &World) -> (r: USet<T>) ensures r.s@ == Set::<T>::empty(), r.p@ == p.prefix() { unimplemented!() }
  #[verifier::external_body] pub fn len(&self, w: &World) -> (r: u64) ensures r == self.s@.len() { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self, w: &World) -> (r: bool) ensures r == (self.s@.len() == 0) { unimplemented!() }
  #[verifier::external_body] pub fn contains(&self, x: &T, w: &World) -> (r: bool) ensures r == self.s@.contains(*x) { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, x: &T, w: &World) -> (r: bool) ensures r == !old(self).s@.contains(*x), final(self).s@ == old(self).s@.insert(*x), final(self).p@ == old(self).p@ { unimplemented!() }
  #[verifier::external_body] pub fn remove(&mut self, x: &T, w: &World) -> (r: bool) ensures r == old(self).s@.contains(*x), final(self).s@ == old(self).s@.remove(*x), final(self).p@ == old(self).p@ { unimplemented!() }
  #[verifier::external_body] pub fn to_vec(&self, w: &World) -> (r: PVec<T>) ensures r.s@.no_duplicates(), r.s@.to_set() == self.s@, r.s@.len() == self.s@.len() { unimplemented!() }
  #[verifier::external_body] pub fn iter(&self, w: &World) -> (r: It<T>) ensures r.items@.no_duplicates(), r.items@.to_set() == self.s@, r.items@.len() == self.s@.len(), r.pos@ == 0 { unimplemented!() }
}

// ---------------------------------------------------------------- host world
pub enum PromiseResult { NotReady, Successful(PVec<u8>), Failed }
pub struct Ctx {
  pub mp: bool, // may the call panic (roll back)?  false only where absence of panics is proved
  pub pred: Str, pub cur: Str, pub signer: Str, pub pk: PVec<u8>,
  pub deposit: u128, pub locked: u128, pub epoch: u64, pub ts: u64, pub height: u64,
  pub exists: bool, pub results: Seq<PromiseResult>, pub vstake: spec_fn(Str) -> u128, pub vtotal: u128, pub byte_cost: u128, pub input: Seq<u8>, pub prepaid: u64,
}
#[verifier::ext_equal]
pub enum Act {
  CreateAccount, Deploy(Seq<u8>), Call { m: Seq<u8>, args: Seq<u8>, dep: u128, gas: u64 }, Transfer(u128),
  Stake(u128, Seq<u8>), AddFull(Seq<u8>, u64), AddKey(Seq<u8>, u128, Seq<char>, Seq<u8>, u64), DelKey(Seq<u8>), DelAcct(Seq<char>),
}
#[verifier::ext_equal]
pub struct Prom { pub to: Seq<char>, pub acts: Seq<Act>, pub after: Option<nat> }
#[verifier::ext_equal]
pub struct WV { pub c: Ctx, pub bal: u128, pub proms: Seq<Prom>, pub st: Map<Seq<u8>, Seq<u8>>, pub regs: Map<u64, Seq<u8>>, pub ret: Option<nat> }
pub struct World { pub g: Ghost<WV> }
impl View for World { type V = WV; open spec fn view(&self) -> WV { self.g@ } }

#[verifier::external_body]
pub fn panic_(w: &World) -> ! requires w@.c.mp ensures false { unimplemented!() }
#[verifier::external_body]
pub fn callback<T>(i: Ghost<int>, w: &World) -> (r: T) requires w@.c.mp || (i@ < w@.c.results.len() && w@.c.results[i@] is Successful && json_ok::<T>(w@.c.results[i@]->Successful_0.s@)) ensures i@ < w@.c.results.len(), w@.c.results[i@] is Successful, r == json_parse::<T>(w@.c.results[i@]->Successful_0.s@) { unimplemented!() }
#[verifier::external_body]
pub fn to_vec<T: PJson>(x: &T, w: &World) -> (r: Result<PVec<u8>, ConvErr>) ensures r.is_ok(), r->Ok_0.s@ == json_bytes(x.js()) { unimplemented!() }
pub struct JVal { pub j: Ghost<JV> }
#[verifier::external_body]
pub fn jval(j: Ghost<JV>) -> (r: JVal) ensures r.j@ == j@ { unimplemented!() }
impl PJson for JVal { open spec fn js(self) -> JV { self.j@ } }
impl PDisp for JVal { open spec fn disp(&self) -> Seq<char> { json_str(self.j@) } #[verifier::external_body] fn pstr(&self) -> (r: Str) { unimplemented!() } }
#[verifier::external_body]
pub fn raw_json(j: Ghost<JV>) -> (r: PVec<u8>) ensures r.s@ == json_bytes(j@) { unimplemented!() }
#[verifier::external_body]
pub fn from_slice<T>(x: &PVec<u8>, w: &World) -> (r: Result<T, ConvErr>) ensures r.is_ok() == json_ok::<T>(x.s@), r.is_ok() ==> r->Ok_0 == json_parse::<T>(x.s@) { unimplemented!() }
#[verifier::external_body]
pub fn any<T>() -> (r: T) { unimplemented!() }

pub mod env { use super::*;
  #[verifier::external_body] pub fn predecessor_account_id(w: &World) -> (r: Str) ensures r == w@.c.pred { unimplemented!() }
  #[verifier::external_body] pub fn current_account_id(w: &World) -> (r: Str) ensures r == w@.c.cur { unimplemented!() }
  #[verifier::external_body] pub fn signer_account_id(w: &World) -> (r: Str) ensures r == w@.c.signer { unimplemented!() }
  #[verifier::external_body] pub fn signer_account_pk(w: &World) -> (r: PVec<u8>) ensures r == w@.c.pk { unimplemented!() }
  #[verifier::external_body] pub fn attached_deposit(w: &World) -> (r: u128) ensures r == w@.c.deposit { unimplemented!() }
  #[verifier::external_body] pub fn account_balance(w: &World) -> (r: u128) ensures r == w@.bal { unimplemented!() }
  #[verifier::external_body] pub fn account_locked_balance(w: &World) -> (r: u128) ensures r == w@.c.locked { unimplemented!() }
  #[verifier::external_body] pub fn epoch_height(w: &World) -> (r: u64) ensures r == w@.c.epoch { unimplemented!() }
  #[verifier::external_body] pub fn block_timestamp(w: &World) -> (r: u64) ensures r == w@.c.ts { unimplemented!() }
  #[verifier::external_body] pub fn block_index(w: &World) -> (r: u64) ensures r == w@.c.height { unimplemented!() }
  #[verifier::external_body] pub fn state_exists(w: &World) -> (r: bool) ensures r == w@.c.exists { unimplemented!() }
  #[verifier::external_body] pub fn is_valid_account_id(b: &PVec<u8>, w: &World) -> (r: bool) ensures r == valid_acct(b.s@) { unimplemented!() }
  #[verifier::external_body] pub fn validator_stake(a: &Str, w: &World) -> (r: u128) ensures r == (w@.c.vstake)(*a) { unimplemented!() }
  #[verifier::external_body] pub fn validator_total_stake(w: &World) -> (r: u128) ensures r == w@.c.vtotal { unimplemented!() }
  #[verifier::external_body] pub fn promise_results_count(w: &World) -> (r: u64) ensures r == w@.c.results.len() { unimplemented!() }
  #[verifier::external_body] pub fn promise_result(i: u64, w: &World) -> (r: PromiseResult) requires w@.c.mp || i < w@.c.results.len() ensures i < w@.c.results.len(), r == w@.c.results[i as int] { unimplemented!() }
  #[verifier::external_body] pub fn is_promise_success(w: &World) -> (r: bool) requires w@.c.mp || w@.c.results.len() == 1 ensures w@.c.results.len() == 1, r == (w@.c.results[0] is Successful) { unimplemented!() }
  pub fn assert_self(w: &World) requires w@.c.mp || w@.c.pred == w@.c.cur ensures w@.c.pred == w@.c.cur { if !eq(&current_account_id(w), &predecessor_account_id(w)) { panic_(w); } }
  #[verifier::external_body] pub fn prepaid_gas(w: &World) -> (r: u64) ensures r == w@.c.prepaid { unimplemented!() }
  #[verifier::external_body] pub fn used_gas(w: &World) -> (r: u64) { unimplemented!() }
  #[verifier::external_body] pub fn storage_usage(w: &World) -> (r: u64) { unimplemented!() }
  #[verifier::external_body] pub fn storage_byte_cost(w: &World) -> (r: u128) ensures r == w@.c.byte_cost { unimplemented!() }
  #[verifier::external_body] pub fn sha256(b: &PVec<u8>, w: &World) -> (r: PVec<u8>) ensures r.s@ == sha256_s(b.s@), r.s@.len() == 32 { unimplemented!() }
  #[verifier::external_body] pub fn storage_write(k: &PVec<u8>, v: &PVec<u8>, w: &mut World) -> (r: bool) ensures final(w)@ == (WV { st: old(w)@.st.insert(k.s@, v.s@), ..old(w)@ }), r == old(w)@.st.dom().contains(k.s@) { unimplemented!() }
  #[verifier::external_body] pub fn storage_remove(k: &PVec<u8>, w: &mut World) -> (r: bool) ensures final(w)@ == (WV { st: old(w)@.st.remove(k.s@), ..old(w)@ }), r == old(w)@.st.dom().contains(k.s@) { unimplemented!() }
  #[verifier::external_body] pub fn storage_has_key(k: &PVec<u8>, w: &World) -> (r: bool) ensures r == w@.st.dom().contains(k.s@) { unimplemented!() }
  #[verifier::external_body] pub fn storage_read(k: &PVec<u8>, w: &World) -> (r: Option<PVec<u8>>) ensures r.is_some() == w@.st.dom().contains(k.s@), r.is_some() ==> r.unwrap().s@ == w@.st[k.s@] { unimplemented!() }
}

// raw host functions: a pointer stands for the bytes of the vector it was taken from
pub struct Ptr { pub b: Ghost<Seq<u8>> }
impl PVec<u8> { #[verifier::external_body] pub fn as_ptr(&self, w: &World) -> (r: Ptr) ensures r.b@ == self.s@ { unimplemented!() } }
#[verifier::external_body] pub fn vec_rep<T>(x: T, n: usize) -> (r: PVec<T>) ensures r.s@ == Seq::new(n as nat, |i: int| x) { unimplemented!() }
pub open spec fn cut(b: Seq<u8>, n: int) -> Seq<u8> { if n == b.len() { b } else { b.take(n) } }
pub open spec fn put_reg(w: WV, r: u64, b: Seq<u8>) -> WV { WV { regs: w.regs.insert(r, b), ..w } }
pub mod sys { use super::*;
  #[verifier::external_body] pub fn input(r: u64, w: &mut World) ensures final(w)@ == put_reg(old(w)@, r, old(w)@.c.input) { unimplemented!() }
  #[verifier::external_body] pub fn register_len(r: u64, w: &World) -> (n: u64) ensures n == (if w@.regs.dom().contains(r) { w@.regs[r].len() as int } else { u64::MAX as int }), w@.regs.dom().contains(r) ==> n <= u32::MAX { unimplemented!() }
  #[verifier::external_body] pub fn read_register(r: u64, buf: PVec<u8>, w: &World) -> (out: PVec<u8>) requires w@.regs.dom().contains(r), w@.regs[r].len() <= buf.s@.len() ensures out.s@ == (if w@.regs[r].len() == buf.s@.len() { w@.regs[r] } else { w@.regs[r] + buf.s@.skip(w@.regs[r].len() as int) }) { unimplemented!() }
  #[verifier::external_body] pub fn storage_write<A: PNum, B: PNum>(kl: A, k: Ptr, vl: B, v: Ptr, r: u64, w: &mut World) -> (x: u64) requires 0 <= kl.val() <= k.b@.len(), 0 <= vl.val() <= v.b@.len()
    ensures ({ let kb = cut(k.b@, kl.val()); let o = old(w)@; let s = WV { st: o.st.insert(kb, cut(v.b@, vl.val())), ..o }; final(w)@ == (if o.st.dom().contains(kb) { put_reg(s, r, o.st[kb]) } else { s }) && x == (if o.st.dom().contains(kb) { 1u64 } else { 0u64 }) }) { unimplemented!() }
  #[verifier::external_body] pub fn storage_remove<A: PNum>(kl: A, k: Ptr, r: u64, w: &mut World) -> (x: u64) requires 0 <= kl.val() <= k.b@.len()
    ensures ({ let kb = cut(k.b@, kl.val()); let o = old(w)@; let s = WV { st: o.st.remove(kb), ..o }; final(w)@ == (if o.st.dom().contains(kb) { put_reg(s, r, o.st[kb]) } else { s }) && x == (if o.st.dom().contains(kb) { 1u64 } else { 0u64 }) }) { unimplemented!() }
  #[verifier::external_body] pub fn storage_has_key<A: PNum>(kl: A, k: Ptr, w: &World) -> (x: u64) requires 0 <= kl.val() <= k.b@.len() ensures x == (if w@.st.dom().contains(cut(k.b@, kl.val())) { 1u64 } else { 0u64 }) { unimplemented!() }
}

// ---------------------------------------------------------------- promises
pub trait PBytes { spec fn bts(&self) -> Seq<u8>; }
impl PBytes for PVec<u8> { open spec fn bts(&self) -> Seq<u8> { self.s@ } }
impl<'a, T: PBytes> PBytes for &'a T { open spec fn bts(&self) -> Seq<u8> { (**self).bts() } }
impl PBytes for Str { open spec fn bts(&self) -> Seq<u8> { str_bytes(self.s@) } }
pub struct Promise { pub id: Ghost<nat> }
pub enum PromiseOrValue<T> { Promise(Promise), Value(T) }
pub open spec fn add_act(w: WV, id: nat, a: Act) -> WV { WV { proms: w.proms.update(id as int, Prom { acts: w.proms[id as int].acts.push(a), ..w.proms[id as int] }), ..w } }
pub open spec fn add_act_dep(w: WV, id: nat, a: Act, dep: u128) -> WV { WV { bal: (w.bal - dep) as u128, ..add_act(w, id, a) } }
// a call that is sent gets enough gas to start running, and no more than the network lets anyone attach
pub open spec fn can_run(p: Seq<Prom>) -> bool { forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p[i].acts.len() && (#[trigger] p[i].acts[j]) is Call ==> 5_000_000_000_000 <= p[i].acts[j]->gas <= 300_000_000_000_000 }
// the gas all calls sent together take along (of the calls a method can send one by one)
pub open spec fn call_gas(p: Seq<Prom>, i: int, j: int) -> int { if i < p.len() && j < p[i].acts.len() && p[i].acts[j] is Call { p[i].acts[j]->gas as int } else { 0 } }
pub open spec fn acts_gas(p: Seq<Prom>, i: int) -> int { call_gas(p, i, 0) + call_gas(p, i, 1) + call_gas(p, i, 2) + call_gas(p, i, 3) + call_gas(p, i, 4) }
pub open spec fn gas_out(p: Seq<Prom>) -> int { acts_gas(p, 0) + acts_gas(p, 1) + acts_gas(p, 2) + acts_gas(p, 3) }
pub open spec fn gas_for(p: Seq<Prom>, to: Str, m: Seq<char>, g: int) -> bool { forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p[i].acts.len() && (#[trigger] p[i].acts[j]) is Call && p[i].to == to.s@ && p[i].acts[j]->m == str_bytes(m) ==> p[i].acts[j]->gas >= g }
pub open spec fn valid_prom(p: Promise, w: WV) -> bool { p.id@ < w.proms.len() }
pub open spec fn new_prom(w: WV, to: Str) -> WV { WV { proms: w.proms.push(Prom { to: to.s@, acts: Seq::empty(), after: None }), ..w } }
#[verifier::external_body]
pub fn ext_call(to: &Str, m: &'static str, args: Ghost<Seq<u8>>, dep: u128, gas: u64, w: &mut World) -> (r: Promise)
  requires old(w)@.c.mp || dep <= old(w)@.bal
  ensures dep <= old(w)@.bal, r.id@ == old(w)@.proms.len(), final(w)@ == add_act_dep(new_prom(old(w)@, *to), r.id@, Act::Call { m: str_bytes(m@), args: args@, dep, gas }, dep) { unimplemented!() }
impl Promise {
  #[verifier::external_body] pub fn new(to: Str, w: &mut World) -> (r: Promise) ensures r.id@ == old(w)@.proms.len(), final(w)@ == new_prom(old(w)@, to) { unimplemented!() }
  #[verifier::external_body] pub fn create_account(self, w: &mut World) -> (r: Promise) ensures r == self, final(w)@ == add_act(old(w)@, self.id@, Act::CreateAccount) { unimplemented!() }
  #[verifier::external_body] pub fn deploy_contract(self, code: PVec<u8>, w: &mut World) -> (r: Promise) ensures r == self, final(w)@ == add_act(old(w)@, self.id@, Act::Deploy(code.s@)) { unimplemented!() }
  #[verifier::external_body] pub fn function_call<B: PBytes>(self, m: B, args: PVec<u8>, dep: u128, gas: u64, w: &mut World) -> (r: Promise) requires old(w)@.c.mp || dep <= old(w)@.bal ensures dep <= old(w)@.bal, r == self, final(w)@ == add_act_dep(old(w)@, self.id@, Act::Call { m: m.bts(), args: args.s@, dep, gas }, dep) { unimplemented!() }
  #[verifier::external_body] pub fn transfer(self, amount: u128, w: &mut World) -> (r: Promise) requires old(w)@.c.mp || amount <= old(w)@.bal ensures amount <= old(w)@.bal, r == self, final(w)@ == add_act_dep(old(w)@, self.id@, Act::Transfer(amount), amount) { unimplemented!() }
  #[verifier::external_body] pub fn stake(self, amount: u128, pk: PVec<u8>, w: &mut World) -> (r: Promise) ensures r == self, final(w)@ == add_act(old(w)@, self.id@, Act::Stake(amount, pk.s@)) { unimplemented!() }
  #[verifier::external_body] pub fn add_full_access_key(self, pk: PVec<u8>, w: &mut World) -> (r: Promise) ensures r == self, final(w)@ == add_act(old(w)@, self.id@, Act::AddFull(pk.s@, 0)) { unimplemented!() }
  #[verifier::external_body] pub fn add_access_key<B: PBytes>(self, pk: PVec<u8>, allow: u128, to: Str, methods: B, w: &mut World) -> (r: Promise) ensures r == self, final(w)@ == add_act(old(w)@, self.id@, Act::AddKey(pk.s@, allow, to.s@, methods.bts(), 0)) { unimplemented!() }
  #[verifier::external_body] pub fn delete_key(self, pk: PVec<u8>, w: &mut World) -> (r: Promise) ensures r == self, final(w)@ == add_act(old(w)@, self.id@, Act::DelKey(pk.s@)) { unimplemented!() }
  #[verifier::external_body] pub fn delete_account(self, to: Str, w: &mut World) -> (r: Promise) ensures r == self, final(w)@ == add_act(old(w)@, self.id@, Act::DelAcct(to.s@)) { unimplemented!() }
  #[verifier::external_body] pub fn then(self, other: Promise, w: &mut World) -> (r: Promise) ensures r == other, final(w)@ == (WV { proms: old(w)@.proms.update(other.id@ as int, Prom { after: Some(self.id@), ..old(w)@.proms[other.id@ as int] }), ..old(w)@ }) { unimplemented!() }
  #[verifier::external_body] pub fn as_return(self, w: &mut World) -> (r: Promise) ensures r == self, final(w)@ == (WV { ret: Some(self.id@), ..old(w)@ }) { unimplemented!() }
}
impl<T> PFrom<Promise> for PromiseOrValue<T> { open spec fn pfrom_s(t: Promise) -> Self { PromiseOrValue::Promise(t) } fn pfrom(t: Promise) -> (r: Self) { PromiseOrValue::Promise(t) } }
// ---------------------------------------------------------------- sums over finite maps (proved)
pub open spec fn sum_f<K, V>(m: Map<K, V>, f: spec_fn(V) -> int) -> int decreases m.dom().len() {
  if m.dom().len() == 0 { 0 } else { let k = m.dom().choose(); sum_f(m.remove(k), f) + f(m[k]) }
}
pub proof fn sum_remove<K, V>(m: Map<K, V>, f: spec_fn(V) -> int, k: K)
  requires m.dom().contains(k)
  ensures sum_f(m, f) == sum_f(m.remove(k), f) + f(m[k])
  decreases m.dom().len()
{
  let c = m.dom().choose();
  assert(m.dom().contains(c)) by { if m.dom().len() == 0 { assert(m.dom() =~= Set::empty()); } }
  assert(m.dom().len() > 0) by { if m.dom().len() == 0 { assert(m.dom() =~= Set::empty()); } }
  if c == k { } else {
    assert(m.remove(c).dom() =~= m.dom().remove(c));
    assert(m.remove(k).dom() =~= m.dom().remove(k));
    sum_remove(m.remove(c), f, k);
    assert(m.remove(c).remove(k) =~= m.remove(k).remove(c));
    sum_remove(m.remove(k), f, c);
  }
}
pub proof fn sum_insert<K, V>(m: Map<K, V>, f: spec_fn(V) -> int, k: K, v: V)
  ensures sum_f(m.insert(k, v), f) == sum_f(m.remove(k), f) + f(v),
    m.dom().contains(k) ==> sum_f(m.insert(k, v), f) == sum_f(m, f) - f(m[k]) + f(v),
    !m.dom().contains(k) ==> sum_f(m.insert(k, v), f) == sum_f(m, f) + f(v)
{
  sum_remove(m.insert(k, v), f, k);
  assert(m.insert(k, v).remove(k) =~= m.remove(k));
  if m.dom().contains(k) { sum_remove(m, f, k); } else { assert(m.remove(k) =~= m); }
}
pub proof fn sum_empty<K, V>(f: spec_fn(V) -> int) ensures sum_f(Map::<K, V>::empty(), f) == 0 { }
pub proof fn sum_nonneg<K, V>(m: Map<K, V>, f: spec_fn(V) -> int)
  requires forall|v: V| #[trigger] f(v) >= 0
  ensures sum_f(m, f) >= 0
  decreases m.dom().len()
{
  if m.dom().len() > 0 { let k = m.dom().choose(); assert(m.dom().contains(k)); assert(m.remove(k).dom() =~= m.dom().remove(k)); sum_nonneg(m.remove(k), f); }
}
pub proof fn sum_ge<K, V>(m: Map<K, V>, f: spec_fn(V) -> int, k: K)
  requires forall|v: V| #[trigger] f(v) >= 0, m.dom().contains(k)
  ensures sum_f(m, f) >= f(m[k])
{ sum_remove(m, f, k); sum_nonneg(m.remove(k), f); }
// what a longer prefix adds
pub proof fn take_step<T>(s: Seq<T>, n: int)
  requires 0 < n <= s.len()
  ensures s.take(n) == s.take(n - 1).push(s[n - 1]), forall|x: T| #[trigger] s.take(n).contains(x) <==> s.take(n - 1).contains(x) || x == s[n - 1]
{
  assert(s.take(n) =~= s.take(n - 1).push(s[n - 1]));
  assert forall|x: T| #[trigger] s.take(n).contains(x) implies s.take(n - 1).contains(x) || x == s[n - 1] by { let i = choose|i: int| 0 <= i < n && #[trigger] s.take(n)[i] == x; if i < n - 1 { assert(s.take(n - 1)[i] == x); } }
  assert forall|x: T| s.take(n - 1).contains(x) || x == s[n - 1] implies #[trigger] s.take(n).contains(x) by { if s.take(n - 1).contains(x) { let i = choose|i: int| 0 <= i < n - 1 && #[trigger] s.take(n - 1)[i] == x; assert(s.take(n)[i] == x); } else { assert(s.take(n)[n - 1] == x); } }
}
} // mod rt
