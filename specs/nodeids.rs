//@include prelude.rs
//@include sha.rs
//@file ni flarch/src/nodeids.rs
verus! {
#[derive(PartialEq, Eq, Structural, Copy)]
pub struct U256(pub [u8; 32]);
impl Clone for U256 { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
pub type NodeID = U256;
pub trait Dup: Sized { fn dup(&self) -> (r: Self) ensures r == *self; }
impl<T> Dup for T { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }

// ------------------------------------------------------------------ framing and hashing
/// Byte k (of n, the most significant first) of x.
pub open spec fn be(x: u64) -> Seq<u8> {
    seq![(x >> 56) as u8, (x >> 48) as u8, (x >> 40) as u8, (x >> 32) as u8, (x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8]
}
/// `usize::to_be_bytes().to_vec()`
#[verifier::external_body]
pub fn vx_be(x: &usize) -> (r: Vec<u8>) ensures r@ == be(*x as u64) { unimplemented!() }
#[verifier::external_body]
pub fn vx_strlen(s: &str) -> (r: usize) ensures r == utf8(s@).len() { unimplemented!() }

/// `skip_while`: everything from the first item which does not fit on.
impl<T> It<T> {
    #[verifier::external_body]
    pub fn vx_skip_while<F: FnMut(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|x: &T| #[trigger] call_requires(f, (x,)),
        ensures exists|k: int| 0 <= k <= self@.len() && r@ == #[trigger] self@.skip(k)
            && (forall|j: int| 0 <= j < k ==> call_ensures(f, (&#[trigger] self@[j],), true))
            && (k < self@.len() ==> call_ensures(f, (&self@[k],), false)),
    { unimplemented!() }
}
/// The number of leading zero bytes.
pub open spec fn zeros(s: Seq<u8>) -> int decreases s.len() { if s.len() > 0 && s[0] == 0 { 1 + zeros(s.skip(1)) } else { 0 } }
/// How lengths are written in front of what is hashed.
pub open spec fn varint(i: u64) -> Seq<u8> {
    if i < 0x80 { seq![i as u8] } else { seq![((8 - zeros(be(i))) as u8) | 0x80u8] + be(i).skip(zeros(be(i))) }
}
pub open spec fn lead(s: Seq<u8>, k: int) -> bool { (forall|j: int| 0 <= j < k ==> s[j] == 0) && (k < s.len() ==> s[k] != 0) }
pub proof fn lemma_zeros(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(), forall|j: int| 0 <= j < k ==> s[j] == 0, k < s.len() ==> s[k] != 0,
    ensures zeros(s) == k,
    decreases k,
{
    if k > 0 {
        let t = s.skip(1);
        assert forall|j: int| 0 <= j < k - 1 implies t[j] == 0 by { assert(s[j + 1] == 0); }
        lemma_zeros(t, k - 1);
    }
}
pub proof fn lemma_zeros_at(s: Seq<u8>)
    ensures 0 <= zeros(s) <= s.len(), forall|j: int| 0 <= j < zeros(s) ==> s[j] == 0, zeros(s) < s.len() ==> s[zeros(s)] != 0,
    decreases s.len(),
{
    if s.len() > 0 && s[0] == 0 {
        let t = s.skip(1);
        lemma_zeros_at(t);
        assert forall|j: int| 0 <= j < zeros(s) implies s[j] == 0 by { if j > 0 { assert(t[j - 1] == 0); } }
        if zeros(s) < s.len() { assert(t[zeros(t)] != 0); }
    }
}
pub proof fn lemma_be(x: u64, y: u64)
    ensures be(x) == be(y) ==> x == y, x != 0 ==> zeros(be(x)) < 8, be(x).len() == 8,
{
    if be(x) == be(y) {
        let (a, b) = (be(x), be(y));
        assert(a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3] && a[4] == b[4] && a[5] == b[5] && a[6] == b[6] && a[7] == b[7]);
        assert(x == y) by (bit_vector) requires (x >> 56) as u8 == (y >> 56) as u8, (x >> 48) as u8 == (y >> 48) as u8, (x >> 40) as u8 == (y >> 40) as u8, (x >> 32) as u8 == (y >> 32) as u8,
            (x >> 24) as u8 == (y >> 24) as u8, (x >> 16) as u8 == (y >> 16) as u8, (x >> 8) as u8 == (y >> 8) as u8, x as u8 == y as u8;
    }
    if x != 0 && zeros(be(x)) >= 8 {
        let a = be(x);
        lemma_zeros_at(a);
        assert(a[0] == 0 && a[1] == 0 && a[2] == 0 && a[3] == 0 && a[4] == 0 && a[5] == 0 && a[6] == 0 && a[7] == 0);
        assert(x == 0) by (bit_vector) requires (x >> 56) as u8 == 0, (x >> 48) as u8 == 0, (x >> 40) as u8 == 0, (x >> 32) as u8 == 0,
            (x >> 24) as u8 == 0, (x >> 16) as u8 == 0, (x >> 8) as u8 == 0, x as u8 == 0;
    }
}
pub proof fn lemma_hd(n: u8, m: u8)
    ensures n <= 8 && m <= 8 && n | 0x80u8 == m | 0x80u8 ==> n == m, n | 0x80u8 >= 0x80u8,
{
    assert(n <= 8 && m <= 8 && n | 0x80u8 == m | 0x80u8 ==> n == m) by (bit_vector);
    assert(n | 0x80u8 >= 0x80u8) by (bit_vector);
}
/// A length says itself where it ends.
pub proof fn lemma_varint(a: u64, x: Seq<u8>, b: u64, y: Seq<u8>)
    ensures varint(a) + x == varint(b) + y ==> a == b && x == y,
{
    lemma_be(a, b); lemma_be(b, a);
    lemma_zeros_at(be(a)); lemma_zeros_at(be(b));
    let (s, t) = (varint(a) + x, varint(b) + y);
    if s == t {
        assert(s[0] == varint(a)[0] && t[0] == varint(b)[0]);
        let (n, m) = ((8 - zeros(be(a))) as u8, (8 - zeros(be(b))) as u8);
        lemma_hd(n, m); lemma_hd(m, n);
        if a < 0x80 && b < 0x80 {
        } else if a < 0x80 || b < 0x80 {
            assert(false);
        } else {
            assert(n == m);
            let k = zeros(be(a));
            assert(zeros(be(b)) == k);
            assert(be(a) =~= be(b)) by {
                assert forall|j: int| 0 <= j < 8 implies be(a)[j] == be(b)[j] by {
                    if j >= k { assert(s[1 + j - k] == be(a)[j]); assert(t[1 + j - k] == be(b)[j]); }
                }
            }
        }
        assert(a == b);
        let l = varint(a).len() as int;
        assert(x =~= s.skip(l));
        assert(y =~= t.skip(l));
    }
}
pub open spec fn lp(p: Seq<u8>) -> Seq<u8> { varint(p.len() as u64) + p }
pub open spec fn framed_parts(p: Seq<Seq<u8>>) -> Seq<u8> decreases p.len() { if p.len() == 0 { Seq::empty() } else { framed_parts(p.drop_last()) + lp(p.last()) } }
/// What is hashed for a domain and its parts.
pub open spec fn framed(d: Seq<u8>, p: Seq<Seq<u8>>) -> Seq<u8> { lp(d) + varint(p.len() as u64) + framed_parts(p) }
pub open spec fn short(p: Seq<u8>) -> bool { p.len() <= usize::MAX }
pub open spec fn shorts(p: Seq<Seq<u8>>) -> bool { p.len() <= usize::MAX && forall|i: int| 0 <= i < p.len() ==> short(#[trigger] p[i]) }
/// A byte string with its length in front says itself where it ends.
pub proof fn lemma_lp(a: Seq<u8>, x: Seq<u8>, b: Seq<u8>, y: Seq<u8>)
    requires short(a), short(b),
    ensures lp(a) + x == lp(b) + y ==> a == b && x == y,
{
    if lp(a) + x == lp(b) + y {
        assert(lp(a) + x =~= varint(a.len() as u64) + (a + x));
        assert(lp(b) + y =~= varint(b.len() as u64) + (b + y));
        lemma_varint(a.len() as u64, a + x, b.len() as u64, b + y);
        assert(a =~= (a + x).take(a.len() as int)); assert(b =~= (b + y).take(b.len() as int));
        assert(x =~= (a + x).skip(a.len() as int)); assert(y =~= (b + y).skip(b.len() as int));
    }
}
pub proof fn lemma_parts_front(p: Seq<Seq<u8>>)
    requires p.len() > 0,
    ensures framed_parts(p) == lp(p[0]) + framed_parts(p.skip(1)),
    decreases p.len(),
{
    if p.len() == 1 {
        assert(p.drop_last() =~= Seq::<Seq<u8>>::empty()); assert(p.skip(1) =~= Seq::<Seq<u8>>::empty());
        assert(framed_parts(p.drop_last()) =~= Seq::<u8>::empty());
        assert(framed_parts(p) =~= lp(p[0]));
        assert(lp(p[0]) + framed_parts(p.skip(1)) =~= lp(p[0]));
    } else {
        lemma_parts_front(p.drop_last());
        assert(p.drop_last().skip(1) =~= p.skip(1).drop_last());
        assert(framed_parts(p) =~= lp(p[0]) + (framed_parts(p.skip(1).drop_last()) + lp(p.last())));
    }
}
pub proof fn lemma_parts(p: Seq<Seq<u8>>, q: Seq<Seq<u8>>)
    requires p.len() == q.len(), shorts(p), shorts(q),
    ensures framed_parts(p) == framed_parts(q) ==> p == q,
    decreases p.len(),
{
    if p.len() == 0 { assert(p =~= q); }
    else if framed_parts(p) == framed_parts(q) {
        lemma_parts_front(p); lemma_parts_front(q);
        lemma_lp(p[0], framed_parts(p.skip(1)), q[0], framed_parts(q.skip(1)));
        lemma_parts(p.skip(1), q.skip(1));
        assert forall|i: int| 0 <= i < p.len() implies p[i] == q[i] by { if i > 0 { assert(p.skip(1)[i - 1] == q.skip(1)[i - 1]); } }
        assert(p =~= q);
    }
}
/// Nothing which differs in its domain, or in its parts, is hashed as the same bytes.
pub proof fn framing_is_injective(d: Seq<u8>, p: Seq<Seq<u8>>, e: Seq<u8>, q: Seq<Seq<u8>>)
    requires short(d), short(e), shorts(p), shorts(q),
    ensures framed(d, p) == framed(e, q) ==> d == e && p == q, // [I02]
{
    if framed(d, p) == framed(e, q) {
        let (x, y) = (varint(p.len() as u64) + framed_parts(p), varint(q.len() as u64) + framed_parts(q));
        assert(framed(d, p) =~= lp(d) + x); assert(framed(e, q) =~= lp(e) + y);
        lemma_lp(d, x, e, y);
        lemma_varint(p.len() as u64, framed_parts(p), q.len() as u64, framed_parts(q));
        lemma_parts(p, q);
    }
}
/// The hash of plain data is never the one of a domain with parts.
pub proof fn data_is_no_domain(d: Seq<u8>, e: Seq<u8>, q: Seq<Seq<u8>>)
    requires short(d), short(e), shorts(q),
    ensures lp(d) != framed(e, q), // [I02]
{
    if lp(d) == framed(e, q) {
        assert(lp(d) =~= lp(d) + Seq::<u8>::empty());
        let y = varint(q.len() as u64) + framed_parts(q);
        assert(framed(e, q) =~= lp(e) + y);
        lemma_lp(d, Seq::<u8>::empty(), e, y);
        assert(y.len() > 0);
    }
}
/// With a hash without collisions, the identifiers derived from data are as different as the data.
pub proof fn hashes_are_injective(d: Seq<char>, p: Seq<Seq<u8>>, e: Seq<char>, q: Seq<Seq<u8>>)
    requires short(utf8(d)), short(utf8(e)), shorts(p), shorts(q),
    ensures sha(framed(utf8(d), p)) == sha(framed(utf8(e), q)) ==> d == e && p == q, // [I02]
{
    axiom_sha(framed(utf8(d), p), framed(utf8(e), q));
    framing_is_injective(utf8(d), p, utf8(e), q);
    axiom_utf8(d, e);
}

//@fn ni to_varint ret=r
//@ spec
    ensures r@ == varint(i as u64), // [I02]
//@ entry
    proof { lemma_be(i as u64, i as u64); lemma_zeros_at(be(i as u64)); }
//@ sub /i\.to_be_bytes\(\)\.vx_to_vec\(\)/ => /vx_be(&i)/
//@ closure 0 header: |vx_p0: &u8| -> (b: bool)
    ensures b == (*vx_p0 == 0)
//@ sub /skip_while/ => /vx_skip_while/
//@ after "out = out.into_iter().skip_while(|&x| x == 0).collect();"
    proof {
        assert forall|k: int| 0 <= k <= 8 && (#[trigger] be(i as u64).skip(k)) == out@ && lead(be(i as u64), k)
            implies zeros(be(i as u64)) == k by { lemma_zeros(be(i as u64), k); }
        assert(out@ == be(i as u64).skip(zeros(be(i as u64))));
    }
//@end
impl U256 {
//@fn ni U256::hash_data ret=r
//@ spec
    ensures r.0@ == sha(lp(data@)), // [I02]
//@ sub /hasher\.finalize\(\)\.into\(\)/ => /hasher.vx_finish()/
//@ before "Self(" 
    proof { assert(hasher@ =~= lp(data@)); }
//@end
//@fn ni U256::hash_domain_parts ret=r
//@ spec
    ensures r.0@ == sha(framed(utf8(domain@), views(parts@))), // [I02]
//@ sub /domain\.len\(\)/ => /vx_strlen(domain)/
//@ entry
    
//@ loop 0
    invariant vx_it0.wf(), vx_it0.seq() == refs(parts@), hasher@ == lp(utf8(domain@)) + varint(parts@.len() as u64) + framed_parts(views(parts@).take(vx_it0.pos())),
    decreases vx_it0.left(),
//@ loopend 0
    proof {
        let p = views(parts@).take(vx_it0.pos());
        assert(p.drop_last() =~= views(parts@).take(vx_it0.pos() - 1));
        assert(p.last() == part@);
        assert(hasher@ =~= lp(utf8(domain@)) + varint(parts@.len() as u64) + framed_parts(p));
    }
//@ beforeloop 0
    proof {
        assert(views(parts@).take(0) =~= Seq::<Seq<u8>>::empty());
        assert(hasher@ =~= lp(utf8(domain@)) + varint(parts@.len() as u64) + framed_parts(views(parts@).take(0)));
    }
//@ afterloop 0
    proof { assert(views(parts@).take(parts@.len() as int) =~= views(parts@)); }
//@ sub /hasher\.finalize\(\)\.into\(\)/ => /hasher.vx_finish()/
//@end
}

// ------------------------------------------------------------------ reading identifiers
pub open spec fn is_hex(b: u8) -> bool { (48 <= b && b <= 57) || (65 <= b && b <= 70) || (97 <= b && b <= 102) }
pub open spec fn hexval(b: u8) -> int { if b <= 57 { b - 48 } else if b <= 70 { b - 55 } else { b - 87 } }
/// An even number of at most 64 hexadecimal digits.
pub open spec fn is_id(s: Seq<u8>) -> bool { s.len() <= 64 && s.len() % 2 == 0 && forall|i: int| 0 <= i < s.len() ==> is_hex(#[trigger] s[i]) }
/// Byte i of the identifier a text stands for.
pub open spec fn id_byte(s: Seq<u8>, i: int) -> int { if 2 * i + 1 < s.len() { 16 * hexval(s[2 * i]) + hexval(s[2 * i + 1]) } else { 0 } }
#[verifier::external_body]
pub fn vx_str_bytes(s: &str) -> (r: It<u8>) ensures r@ == utf8(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_is_hex(b: u8) -> (r: bool) ensures r == is_hex(b) { unimplemented!() }
/// `&s[a..b]`, which panics outside of the text or in the middle of a character.
#[verifier::external_body]
pub fn vx_substr(s: &str, a: usize, b: usize) -> (r: &str)
    requires a <= b <= utf8(s@).len(), forall|i: int| 0 <= i < utf8(s@).len() ==> (#[trigger] utf8(s@)[i]) < 128,
    ensures utf8(r@) == utf8(s@).subrange(a as int, b as int),
{ unimplemented!() }
/// `u8::from_str_radix(s, 16)`, for two hexadecimal digits (a sign is accepted as well).
#[verifier::external_body]
pub fn vx_from_hex(s: &str) -> (r: VResult<u8>)
    ensures utf8(s@).len() == 2 && is_hex(utf8(s@)[0]) && is_hex(utf8(s@)[1]) ==> r is Ok && r->Ok_0 == 16 * hexval(utf8(s@)[0]) + hexval(utf8(s@)[1]),
{ unimplemented!() }
pub open spec fn steps(s: Seq<usize>, k: int) -> Seq<usize> { Seq::new(((s.len() + k - 1) / k) as nat, |i: int| s[i * k]) }
impl<T> It<T> {
    #[verifier::external_body]
    pub fn vx_step_by(self, k: usize) -> (r: It<T>)
        requires k > 0,
        ensures r@.len() == (self@.len() + k - 1) / (k as int), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> r@[i] == self@[i * k],
    { unimplemented!() }
}
impl<T> FromSeq<VResult<T>> for VResult<Vec<T>> {
    open spec fn from_seq(&self, s: Seq<VResult<T>>) -> bool {
        &&& (self is Ok) == forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok
        &&& self is Ok ==> self->Ok_0@.len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger self->Ok_0@[i]] 0 <= i < s.len() ==> self->Ok_0@[i] == s[i]->Ok_0
    }
}
impl U256 {
//@fn ni `<U256 as FromStr>::from_str` ret=r retty=VResult<U256>
//@ spec
    ensures
        (r is Ok) == is_id(utf8(s@)), // [I01]
        r matches Ok(u) ==> forall|i: int| 0 <= i < 32 ==> (#[trigger] u.0[i]) == id_byte(utf8(s@), i), // [I01]
//@ sub /s\.len\(\)/ => /vx_strlen(s)/
//@ sub /s\.bytes\(\)/ => /vx_str_bytes(s)/
//@ sub /b\.is_ascii_hexdigit\(\)/ => /vx_is_hex(b)/
//@ sub /ParseError::\w+\.into\(\)/ => /vx_err()/
//@ sub /&s\[(.+?)\.\.(.+?)\]/ => /vx_substr(s, \1, \2)/
//@ sub /u8::from_str_radix\((.*?), 16\)\.vx_map_err\(\|e\| e\.into\(\)\)/ => /vx_from_hex(\1)/
//@ sub /step_by/ => /vx_step_by/
//@ sub /\.vx_for_each\(\|vx_p0\|\s*\{ let \(i, b\) = vx_p0;(.*?)\}\);/ => /; let mut vx_k: usize = 0; while vx_k < v.len() invariant vx_k <= v.len(), v@.len() == utf8(s@).len() / 2, v@.len() <= 32, forall|j: int| 0 <= j < v@.len() ==> (#[trigger] v@[j]) == id_byte(utf8(s@), j), forall|j: int| 0 <= j < 32 ==> (#[trigger] u.0[j]) == if j < vx_k { v@[j] as int } else { 0 }, decreases v.len() - vx_k, { let i = vx_k; let b = &v[vx_k]; \1; vx_k = vx_k + 1; }/
//@ sub /let mut u = U256 \{ 0: \[0u8; 32\] \};\s*v\.vx_iter\(\)\.vx_enumerate\(\)/ => /let mut u = U256 { 0: [0u8; 32] }/
//@ closure 0 header: |b: u8| -> (x: bool)
    ensures x == is_hex(b)
//@ closure 1 header: |i: usize| -> (x: VResult<u8>)
    requires i % 2 == 0, i + 2 <= utf8(s@).len(), is_id(utf8(s@)),
    ensures x is Ok, x->Ok_0 == id_byte(utf8(s@), i as int / 2)
//@ sub /anyhow::Result</ => /VResult</
//@end
}
}
//@include nodelist.rs
fn main() {}
