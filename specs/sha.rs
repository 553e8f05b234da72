// SHA-256 and UTF-8, idealised. Trusted.
verus! {
/// SHA-256 of a byte string. Assumed: no collisions (idealised).
pub uninterp spec fn sha(b: Seq<u8>) -> Seq<u8>;
pub axiom fn axiom_sha(a: Seq<u8>, b: Seq<u8>) ensures sha(a) == sha(b) ==> a == b, sha(a).len() == 32;
/// The UTF-8 bytes of a text.
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub axiom fn axiom_utf8(a: Seq<char>, b: Seq<char>) ensures utf8(a) == utf8(b) ==> a == b;
#[verifier::external_body]
pub struct Sha256 { v: Vec<u8> }
impl View for Sha256 { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub trait VxBytes { spec fn bv(&self) -> Seq<u8>; }
impl VxBytes for Vec<u8> { open spec fn bv(&self) -> Seq<u8> { self@ } }
impl VxBytes for &[u8] { open spec fn bv(&self) -> Seq<u8> { self@ } }
impl VxBytes for &&[u8] { open spec fn bv(&self) -> Seq<u8> { self@ } }
impl VxBytes for &str { open spec fn bv(&self) -> Seq<u8> { utf8(self@) } }
impl VxBytes for String { open spec fn bv(&self) -> Seq<u8> { utf8(self@) } }
impl VxBytes for &String { open spec fn bv(&self) -> Seq<u8> { utf8(self@) } }
impl Sha256 {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn update<B: VxBytes>(&mut self, b: B) ensures final(self)@ == old(self)@ + b.bv() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_finish(self) -> (r: [u8; 32]) ensures r@ == sha(self@) { unimplemented!() }
}
}
