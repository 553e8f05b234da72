// Identifier types. U256 is flarch::nodeids::U256 (32 bytes); FloID / RealmID are the AsU256
// newtypes generated by flmacro (Deref to the wrapped U256 is what the macro generates).
verus! {
#[derive(PartialEq, Eq, Structural, Copy)]
pub struct U256(pub [u8; 32]);
impl Clone for U256 { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
pub type NodeID = U256;
#[derive(PartialEq, Eq, Structural)]
pub struct FloID(pub U256);
impl std::ops::Deref for FloID { type Target = U256; fn deref(&self) -> (r: &U256) ensures *r == self.0 { &self.0 } }
impl Clone for FloID { fn clone(&self) -> (r: Self) ensures r == *self { FloID(self.0) } }
#[derive(PartialEq, Eq, Structural)]
pub struct RealmID(pub U256);
impl std::ops::Deref for RealmID { type Target = U256; fn deref(&self) -> (r: &U256) ensures *r == self.0 { &self.0 } }
impl Clone for RealmID { fn clone(&self) -> (r: Self) ensures r == *self { RealmID(self.0) } }

/// Number of leading bits two 32-byte strings have in common.
pub open spec fn byte_common(x: u8) -> int {
    if x & 0x80 != 0 { 0 } else if x & 0x40 != 0 { 1 } else if x & 0x20 != 0 { 2 } else if x & 0x10 != 0 { 3 }
    else if x & 0x08 != 0 { 4 } else if x & 0x04 != 0 { 5 } else if x & 0x02 != 0 { 6 } else if x & 0x01 != 0 { 7 } else { 8 }
}
pub open spec fn common_from(a: Seq<u8>, b: Seq<u8>, i: int) -> int
    decreases a.len() - i
{
    if i < 0 || i >= a.len() || i >= b.len() { 0 }
    else if a[i] == b[i] { 8 + common_from(a, b, i + 1) }
    else { byte_common(a[i] ^ b[i]) }
}
pub open spec fn common_bits(a: U256, b: U256) -> int { common_from(a.0@, b.0@, 0) }
pub proof fn lemma_common_from(a: Seq<u8>, b: Seq<u8>, i: int)
    requires 0 <= i <= a.len(),
    ensures 0 <= common_from(a, b, i) <= 8 * (a.len() - i),
    decreases a.len() - i,
{ if i < a.len() && i < b.len() && a[i] == b[i] { lemma_common_from(a, b, i + 1); } }
pub proof fn lemma_depth(a: U256, b: U256)
    ensures 0 <= depth_spec(a, b) <= 255, 0 <= common_bits(a, b) <= 256,
{ lemma_common_from(a.0@, b.0@, 0); }
/// The routing depth: common prefix length, where the full 256 bits count as 255.
pub open spec fn depth_spec(a: U256, b: U256) -> int {
    if common_bits(a, b) >= 256 { 255 } else { common_bits(a, b) }
}
}
