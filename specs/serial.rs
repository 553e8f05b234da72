// Serialisation, hashing and byte buffers, as far as the properties need them.  Trusted.
verus! {
/// Every Clone of fledger is derived: a faithful copy.
pub trait Dup: Sized { fn dup(&self) -> (r: Self) ensures r == *self; }
impl<T> Dup for T { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
/// The MessagePack encoding of a value (rmp_serde).
pub uninterp spec fn rmp_of<T>(t: T) -> Seq<u8>;
/// What decoding gives, if it succeeds.
pub uninterp spec fn unrmp<T>(b: Seq<u8>) -> Option<T>;
/// Encoding loses nothing (serde round trip).
pub axiom fn axiom_rmp<T>(t: T) ensures unrmp::<T>(rmp_of(t)) == Some(t);
pub trait Serialize: Sized {
    spec fn rmp(&self) -> Seq<u8>;
    fn to_rmp_bytes(&self) -> (r: Bytes) ensures r@ == self.rmp();
}
impl<T> Serialize for T {
    open spec fn rmp(&self) -> Seq<u8> { rmp_of(*self) }
    #[verifier::external_body]
    fn to_rmp_bytes(&self) -> (r: Bytes) { unimplemented!() }
}
pub trait DeserializeOwned: Sized {
    fn from_rmp_bytes(name: &str, b: &Bytes) -> (r: VResult<Self>) ensures (r is Ok) == (unrmp::<Self>(b@) is Some), r matches Ok(x) ==> unrmp::<Self>(b@) == Some(x);
}
impl<T> DeserializeOwned for T { #[verifier::external_body] fn from_rmp_bytes(name: &str, b: &Bytes) -> (r: VResult<Self>) { unimplemented!() } }

#[verifier::external_body]
pub struct Bytes { v: Vec<u8> }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl std::ops::Deref for Bytes { type Target = [u8]; #[verifier::external_body] fn deref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() } }
impl Bytes {
    #[verifier::external_body]
    pub fn copy_from_slice(s: &[u8]) -> (r: Bytes) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_bytes(v: Vec<u8>) -> (r: Bytes) ensures r@ == v@ { unimplemented!() }
/// SHA-256 over the framed domain and parts (its framing is I02).
pub uninterp spec fn dhash(domain: Seq<char>, parts: Seq<Seq<u8>>) -> U256;
/// SHA-256 has no collisions (idealised); the framing keeps domain and parts apart (I02).
pub axiom fn axiom_dhash(d: Seq<char>, p: Seq<Seq<u8>>, e: Seq<char>, q: Seq<Seq<u8>>) ensures dhash(d, p) == dhash(e, q) ==> d == e && p == q;
pub uninterp spec fn le_bytes(x: int, n: int) -> Seq<u8>;
pub axiom fn axiom_le(x: int, y: int, n: int) ensures 0 <= x && 0 <= y && le_bytes(x, n) == le_bytes(y, n) && ((n == 4 && x < 0x1_0000_0000 && y < 0x1_0000_0000) || (n == 8 && x < 0x1_0000_0000_0000_0000 && y < 0x1_0000_0000_0000_0000)) ==> x == y;
pub trait VxLe: Sized { spec fn lev(&self) -> Seq<u8>; fn vx_le(&self) -> (r: Vec<u8>) ensures r@ == self.lev(); }
impl VxLe for u32 { open spec fn lev(&self) -> Seq<u8> { le_bytes(*self as int, 4) } #[verifier::external_body] fn vx_le(&self) -> (r: Vec<u8>) { unimplemented!() } }
impl VxLe for usize { open spec fn lev(&self) -> Seq<u8> { le_bytes(*self as int, 8) } #[verifier::external_body] fn vx_le(&self) -> (r: Vec<u8>) { unimplemented!() } }
impl VxLe for u64 { open spec fn lev(&self) -> Seq<u8> { le_bytes(*self as int, 8) } #[verifier::external_body] fn vx_le(&self) -> (r: Vec<u8>) { unimplemented!() } }
impl U256 {
    #[verifier::external_body]
    pub fn hash_domain_parts(domain: &str, parts: &[&[u8]]) -> (r: Self) ensures r == dhash(domain@, views(parts@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.0@ { unimplemented!() }
    #[verifier::external_body]
    pub fn bytes(&self) -> (r: Bytes) ensures r@ == self.0@ { unimplemented!() }
    #[verifier::external_body]
    pub fn rnd() -> (r: Self) { unimplemented!() }
}
}
