//@include prelude.rs
//@include ids.rs
//@sub /\.get_mut\(/ => /.vx_get_mut(/
//@file kd flmodules/src/dht_router/kademlia.rs
verus! {
impl U256 {
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.0@ { unimplemented!() }
}
/// itertools' `counts_by(|d| d)`: how often every value occurs.
#[verifier::external_body]
pub fn vx_counts(v: &Vec<usize>) -> (r: HashMap<usize, usize>)
    ensures forall|x: usize| #[trigger] r@.dom().contains(x) <==> v@.contains(x),
        forall|x: usize| #[trigger] r@.dom().contains(x) ==> r@[x] == occ(v@, x),
{ unimplemented!() }
/// `contains` for KNode, which compares by id (its PartialEq).
#[verifier::external_body]
pub fn vx_contains_id(v: &Vec<KNode>, n: &KNode) -> (r: bool) ensures r == hasid(v@, n.id) { unimplemented!() }
pub open spec fn occ(s: Seq<usize>, x: usize) -> int decreases s.len() { if s.len() == 0 { 0 } else { occ(s.drop_last(), x) + if s.last() == x { 1int } else { 0 } } }

/// The bits n..8 of x are zero.
pub open spec fn top_zero(x: u8, n: int) -> bool { forall|j: usize| n <= j < 8 ==> (x & #[trigger] (1u8 << j)) == 0 }
pub proof fn lemma_bits(x: u8)
    ensures x != 0 ==> 0 <= byte_common(x) < 8, x == 0 ==> byte_common(x) == 8,
        forall|i: usize| #![trigger 1u8 << i] i < 8 && (x & (1u8 << i)) != 0 && top_zero(x, i + 1) ==> byte_common(x) == 7 - i,
        top_zero(x, 0) ==> x == 0,
{
    assert(1u8 << 0usize == 1 && 1u8 << 1usize == 2 && 1u8 << 2usize == 4 && 1u8 << 3usize == 8 && 1u8 << 4usize == 16 && 1u8 << 5usize == 32 && 1u8 << 6usize == 64 && 1u8 << 7usize == 128) by (bit_vector);
    assert(x & 1 == 0 && x & 2 == 0 && x & 4 == 0 && x & 8 == 0 && x & 16 == 0 && x & 32 == 0 && x & 64 == 0 && x & 128 == 0 <==> x == 0) by (bit_vector);
    assert forall|i: usize| #![trigger 1u8 << i] i < 8 && (x & (1u8 << i)) != 0 && top_zero(x, i + 1) implies byte_common(x) == 7 - i by {
        if i < 7 { assert(x & (1u8 << 7usize) == 0); }
        if i < 6 { assert(x & (1u8 << 6usize) == 0); }
        if i < 5 { assert(x & (1u8 << 5usize) == 0); }
        if i < 4 { assert(x & (1u8 << 4usize) == 0); }
        if i < 3 { assert(x & (1u8 << 3usize) == 0); }
        if i < 2 { assert(x & (1u8 << 2usize) == 0); }
        if i < 1 { assert(x & (1u8 << 1usize) == 0); }
        assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4 || i == 5 || i == 6 || i == 7);
    }
    if top_zero(x, 0) {
        assert(x & (1u8 << 7usize) == 0 && x & (1u8 << 6usize) == 0 && x & (1u8 << 5usize) == 0 && x & (1u8 << 4usize) == 0
            && x & (1u8 << 3usize) == 0 && x & (1u8 << 2usize) == 0 && x & (1u8 << 1usize) == 0 && x & (1u8 << 0usize) == 0);
    }
}
pub proof fn lemma_xor(a: u8, b: u8) ensures a ^ b == 0 <==> a == b, a ^ b == b ^ a {
    assert(a ^ b == 0 <==> a == b) by (bit_vector);
    assert(a ^ b == b ^ a) by (bit_vector);
}
pub proof fn lemma_xor3(a: u8, b: u8, c: u8)
    ensures byte_common(a ^ b) < byte_common(a ^ c) ==> byte_common(b ^ c) == byte_common(a ^ b),
        byte_common(a ^ b) == byte_common(a ^ c) && a != b ==> byte_common(b ^ c) > byte_common(a ^ b),
{
    assert((a ^ b) & 0x80 != 0 || (a ^ c) & 0x80 != 0 || (b ^ c) & 0x80 == 0) by (bit_vector);
    let x = a ^ b; let y = a ^ c; let z = b ^ c;
    assert(z == x ^ y) by (bit_vector) requires x == a ^ b, y == a ^ c, z == b ^ c;
    assert(x == 0 <==> a == b) by (bit_vector) requires x == a ^ b;
    assert(x == 0 <==> x & 0x80 == 0 && x & 0x40 == 0 && x & 0x20 == 0 && x & 0x10 == 0 && x & 8 == 0 && x & 4 == 0 && x & 2 == 0 && x & 1 == 0) by (bit_vector);
    assert(z & 0x80 != 0 <==> ((x & 0x80 != 0) != (y & 0x80 != 0))) by (bit_vector) requires z == x ^ y;
    assert(z & 0x40 != 0 <==> ((x & 0x40 != 0) != (y & 0x40 != 0))) by (bit_vector) requires z == x ^ y;
    assert(z & 0x20 != 0 <==> ((x & 0x20 != 0) != (y & 0x20 != 0))) by (bit_vector) requires z == x ^ y;
    assert(z & 0x10 != 0 <==> ((x & 0x10 != 0) != (y & 0x10 != 0))) by (bit_vector) requires z == x ^ y;
    assert(z & 0x08 != 0 <==> ((x & 0x08 != 0) != (y & 0x08 != 0))) by (bit_vector) requires z == x ^ y;
    assert(z & 0x04 != 0 <==> ((x & 0x04 != 0) != (y & 0x04 != 0))) by (bit_vector) requires z == x ^ y;
    assert(z & 0x02 != 0 <==> ((x & 0x02 != 0) != (y & 0x02 != 0))) by (bit_vector) requires z == x ^ y;
    assert(z & 0x01 != 0 <==> ((x & 0x01 != 0) != (y & 0x01 != 0))) by (bit_vector) requires z == x ^ y;
}
pub proof fn lemma_byte(x: u8) ensures 0 <= byte_common(x) <= 8, byte_common(x) == 8 <==> x == 0 { lemma_bits(x); }
pub proof fn lemma_common3(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, i: int)
    requires 0 <= i <= a.len(), a.len() == b.len(), b.len() == c.len(),
    ensures common_from(a, b, i) == common_from(b, a, i),
        common_from(a, b, i) < common_from(a, c, i) ==> common_from(b, c, i) == common_from(a, b, i),
        common_from(a, b, i) == common_from(a, c, i) && common_from(a, b, i) < 8 * (a.len() - i) ==> common_from(b, c, i) > common_from(a, b, i),
    decreases a.len() - i,
{
    if i < a.len() {
        lemma_common3(a, b, c, i + 1);
        lemma_common_from(a, b, i + 1); lemma_common_from(a, c, i + 1); lemma_common_from(b, c, i + 1);
        lemma_xor(a[i], b[i]); lemma_xor(a[i], c[i]); lemma_xor(b[i], c[i]);
        lemma_byte(a[i] ^ b[i]); lemma_byte(a[i] ^ c[i]); lemma_byte(b[i] ^ c[i]);
        lemma_xor3(a[i], b[i], c[i]);
    }
}
/// [K03] A hop at the distance of the destination is strictly closer to it than we are; a hop at a
/// bigger depth is exactly as close to the destination as we are, and strictly closer to us than the
/// previous hop was: (closeness to the destination, closeness to the forwarding node) grows.
pub proof fn lemma_progress(us: U256, dst: U256, hop: U256, last: U256)
    ensures
        common_bits(us, hop) == common_bits(us, dst) && common_bits(us, dst) < 256 ==> common_bits(hop, dst) > common_bits(us, dst),
        common_bits(us, hop) > common_bits(us, dst) ==> common_bits(hop, dst) == common_bits(us, dst),
{
    lemma_common3(us.0@, hop.0@, dst.0@, 0);
    lemma_common3(us.0@, dst.0@, hop.0@, 0);
    lemma_common3(dst.0@, hop.0@, us.0@, 0);
    lemma_common3(hop.0@, dst.0@, us.0@, 0);
}
pub proof fn lemma_sym(a: U256, b: U256) ensures depth_spec(a, b) == depth_spec(b, a) { lemma_common3(a.0@, b.0@, a.0@, 0); }

//@struct kd Config derive=Clone,Copy
//@struct kd KNode
//@struct kd KBucket
//@struct kd Kademlia
//@struct kd TickIDs
//@enum kd BucketStatus derive=PartialEq,Eq,Structural

impl TickIDs {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.deleted@.len() == 0, r.ping@.len() == 0 { unimplemented!() }
//@fn kd TickIDs::extend as=vx_extend
//@ spec
    ensures final(self).deleted@ =~= old(self).deleted@ + other.deleted@, final(self).ping@ =~= old(self).ping@ + other.ping@,
//@end
}
impl Clone for KNode { fn clone(&self) -> (r: Self) ensures r == *self { KNode { id: self.id, depth: self.depth, ticks_last: self.ticks_last } } }

impl KNode {
    pub open spec fn ok0(&self, c: Config) -> bool { self.depth == depth_spec(c.root, self.id) && self.id != c.root }
    pub open spec fn ok(&self, c: Config) -> bool {
        self.ok0(c) && (self.ticks_last < c.ping_interval || self.ticks_last < c.ping_timeout)
    }
    /// self is o one tick later.
    pub open spec fn later(&self, o: &Self) -> bool { self.id == o.id && self.depth == o.depth && self.ticks_last == o.ticks_last + 1 }
    pub open spec fn dies(&self, c: Config) -> bool { self.ticks_last + 1 >= c.ping_timeout }
    pub open spec fn asks(&self, c: Config) -> bool { (self.ticks_last + 1) % (c.ping_interval as int) == 0 }
//@fn kd KNode::new
//@ spec
    ensures res.id == id, res.depth == depth_spec(*root, id), res.ticks_last == ticks_last, // [K01]
//@end
//@fn kd KNode::get_depth
//@ spec
    ensures res == depth_spec(*root, *id), // [K01]
//@ entry
    proof { lemma_depth(*root, *id); }
//@ loop 0
    invariant vx_it0.wf(), vx_it0.seq().len() == 32,
        forall|i: int| 0 <= i < 32 ==> (#[trigger] vx_it0.seq()[i]).0 == i && *vx_it0.seq()[i].1.0 == root.0@[i] && *vx_it0.seq()[i].1.1 == id.0@[i],
        common_from(root.0@, id.0@, 0) == 8 * vx_it0.pos() + common_from(root.0@, id.0@, vx_it0.pos()),
        0 <= common_from(root.0@, id.0@, 0) <= 256,
    decreases vx_it0.left(),
//@ loopstart 0
    proof { lemma_bits(*root_byte ^ *id_byte); lemma_xor(*root_byte, *id_byte); lemma_common_from(root.0@, id.0@, index as int); lemma_common_from(root.0@, id.0@, index + 1); }
//@ loop 1
    invariant vx_it1.wf(), vx_it1.seq().len() == 8, index < 32, xor_result == *root_byte ^ *id_byte,
        forall|i: int| 0 <= i < 8 ==> #[trigger] vx_it1.seq()[i] == 7 - i,
        top_zero(xor_result, 8 - vx_it1.pos()),
        xor_result != 0 ==> common_from(root.0@, id.0@, 0) == 8 * index + byte_common(xor_result),
        forall|i: usize| #![trigger 1u8 << i] i < 8 && (xor_result & (1u8 << i)) != 0 && top_zero(xor_result, i + 1) ==> byte_common(xor_result) == 7 - i,
        top_zero(xor_result, 0) ==> xor_result == 0,
        0 <= common_from(root.0@, id.0@, 0) <= 256,
        xor_result != 0 ==> 0 <= byte_common(xor_result) < 8,
    decreases vx_it1.left(),
//@ loopstart 1
    assert((xor_result & (1u8 << i)) != 0 ==> xor_result != 0) by (bit_vector);
//@ sub /root_byte \^ id_byte/ => /*root_byte ^ *id_byte/
//@ sub /as_ref\(\)\.vx_len\(\)/ => /as_ref().len()/
//@ sub /1 << i/ => /1u8 << i/
//@end
//@fn kd KNode::tick
//@ spec
    requires old(self).ok(*config), config.ping_interval >= 1,
    ensures final(self).later(old(self)), // [K04]
        final(tick_ids).ping@ == if old(self).asks(*config) { old(tick_ids).ping@.push(old(self).id) } else { old(tick_ids).ping@ }, // [K04]
        final(tick_ids).deleted@ == if old(self).dies(*config) { old(tick_ids).deleted@.push(old(self).id) } else { old(tick_ids).deleted@ }, // [K04]
//@end
//@fn kd KNode::active
//@ spec
    ensures final(self).id == old(self).id, final(self).depth == old(self).depth, final(self).ticks_last == 0, // [K04]
//@end
}

pub open spec fn hasid(s: Seq<KNode>, id: U256) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).id == id }
pub open spec fn once(s: Seq<KNode>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).id != (#[trigger] s[j]).id }
pub open spec fn apart(a: Seq<KNode>, b: Seq<KNode>) -> bool { forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() ==> (#[trigger] a[i]).id != (#[trigger] b[j]).id }
pub open spec fn all_ok(s: Seq<KNode>, c: Config) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).ok(c) }
pub open spec fn all_ok0(s: Seq<KNode>, c: Config) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).ok0(c) }
pub open spec fn all_at(s: Seq<KNode>, d: int) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).depth == d }
pub open spec fn all_from(s: Seq<KNode>, d: int) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).depth >= d }
/// a's nodes are all in b, unchanged.
pub open spec fn sub_of(a: Seq<KNode>, b: Seq<KNode>) -> bool { forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i]) }
pub open spec fn by_depth(s: Seq<KNode>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).depth <= (#[trigger] s[j]).depth }
pub open spec fn cfg_ok(c: Config) -> bool { 1 <= c.k < 0x1000_0000_0000_0000 && c.ping_interval >= 1 }
/// The IDs of the nodes of s at distance d, in order.
pub open spec fn lists(l: Seq<U256>, s: Seq<KNode>, d: int) -> bool {
    &&& forall|id: U256| #[trigger] l.contains(id) ==> has_at(s, id, d)
    &&& forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).depth == d ==> l.contains(s[i].id)
}
pub open spec fn has_at(s: Seq<KNode>, id: U256, d: int) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).id == id && s[i].depth == d }
pub open spec fn depths_of(s: Seq<KNode>) -> Seq<usize> { Seq::new(s.len(), |i: int| s[i].depth) }
pub open spec fn count_at(s: Seq<KNode>, d: usize) -> int { occ(depths_of(s), d) }
pub proof fn lemma_occ(s: Seq<usize>, x: usize)
    ensures 0 <= occ(s, x) <= s.len(), occ(s, x) == 0 <==> !s.contains(x), occ(s, x) == s.to_multiset().count(x),
        occ(s, x) == s.len() ==> forall|i: int| 0 <= i < s.len() ==> s[i] == x,
    decreases s.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_occ(t, x);
        assert(s =~= t.push(s.last()));
        if s.contains(x) && s.last() != x { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(t[i] == x); }
        if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(s[i] == x); }
        if s.last() == x { assert(s[s.len() - 1] == x); }
        if occ(s, x) == s.len() { assert forall|i: int| 0 <= i < s.len() implies s[i] == x by { if i < t.len() { assert(t[i] == x); } } }
    } else { assert(s =~= Seq::empty()); }
}
pub proof fn lemma_occ_add(a: Seq<usize>, b: Seq<usize>, x: usize)
    ensures occ(a + b, x) == occ(a, x) + occ(b, x),
    decreases b.len(),
{
    if b.len() > 0 {
        lemma_occ_add(a, b.drop_last(), x);
        assert((a + b).drop_last() =~= a + b.drop_last());
    } else { assert(a + b =~= a); }
}
pub proof fn lemma_occ_remove(s: Seq<usize>, i: int, x: usize)
    requires 0 <= i < s.len(),
    ensures occ(s.remove(i), x) == occ(s, x) - if s[i] == x { 1int } else { 0 },
{
    let a = s.take(i); let b = s.skip(i + 1);
    assert(s =~= a.push(s[i]) + b);
    assert(s.remove(i) =~= a + b);
    lemma_occ_add(a, b, x); lemma_occ_add(a.push(s[i]), b, x);
    assert(a.push(s[i]).drop_last() =~= a);
}
/// s and t share out the nodes of o, and t's nodes are at distance d.
pub open spec fn split(o: Seq<KNode>, s: Seq<KNode>, t: Seq<KNode>, d: usize) -> bool {
    &&& once(s) && once(t) && apart(s, t) && all_at(t, d as int)
    &&& forall|n: KNode| #[trigger] o.contains(n) <==> s.contains(n) || t.contains(n)
    &&& count_at(s, d) + t.len() == count_at(o, d)
    &&& s.len() + t.len() == o.len()
    &&& by_depth(o) ==> by_depth(s)
}
pub proof fn lemma_split_start(o: Seq<KNode>, d: usize)
    requires once(o),
    ensures split(o, o, Seq::empty(), d),
{ assert forall|n: KNode| !(#[trigger] Seq::<KNode>::empty().contains(n)) by {} }
pub proof fn lemma_split_move(o: Seq<KNode>, s: Seq<KNode>, t: Seq<KNode>, d: usize, i: int)
    requires split(o, s, t, d), 0 <= i < s.len(), s[i].depth == d,
    ensures split(o, s.remove(i), t.push(s[i]), d),
{
    let u = s.remove(i); let v = t.push(s[i]);
    assert(depths_of(u) =~= depths_of(s).remove(i));
    lemma_occ_remove(depths_of(s), i, d);
    assert forall|j: int| 0 <= j < u.len() implies #[trigger] u[j] == (if j < i { s[j] } else { s[j + 1] }) by {}
    assert forall|n: KNode| #[trigger] o.contains(n) implies u.contains(n) || v.contains(n) by {
        if s.contains(n) {
            let j = choose|j: int| 0 <= j < s.len() && s[j] == n;
            if j < i { assert(u[j] == n); } else if j > i { assert(u[j - 1] == n); } else { assert(v[t.len() as int] == n); }
        } else { let j = choose|j: int| 0 <= j < t.len() && t[j] == n; assert(v[j] == n); }
    }
    assert forall|n: KNode| (u.contains(n) || v.contains(n)) implies #[trigger] o.contains(n) by {
        if u.contains(n) { let j = choose|j: int| 0 <= j < u.len() && u[j] == n; assert(s.contains(n)) by { assert(s[if j < i { j } else { j + 1 }] == n); } }
        else { let j = choose|j: int| 0 <= j < v.len() && v[j] == n; if j < t.len() { assert(t[j] == n); assert(t.contains(n)); } else { assert(s[i] == n); assert(s.contains(n)); } }
    }
}
pub proof fn lemma_split_none(s: Seq<KNode>, d: usize)
    ensures 0 <= count_at(s, d) <= s.len(), (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).depth != d) <==> count_at(s, d) == 0,
{
    lemma_occ(depths_of(s), d);
    if count_at(s, d) == 0 { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).depth != d by { assert(depths_of(s)[i] == s[i].depth); } }
    else { let i = choose|i: int| 0 <= i < s.len() && depths_of(s)[i] == d; assert(s[i].depth == d); }
}
/// There is a distance which all nodes have at least, and k nodes are further away than that.
pub open spec fn spread(b: KBucket, d: usize) -> bool { b.from(d as int) && count_at(b.active@, d) + count_at(b.cache@, d) > 0 && count_at(b.active@, d) + count_at(b.cache@, d) + b.config.k <= b.count() }

pub broadcast proof fn lemma_reord<T>(s: Seq<T>, r: Seq<T>, fwd: Seq<int>, bwd: Seq<int>)
    requires #[trigger] reord(s, r, fwd, bwd),
    ensures forall|x: T| #[trigger] r.contains(x) <==> s.contains(x),
{
    assert forall|x: T| #[trigger] r.contains(x) implies s.contains(x) by { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; assert(s[bwd[i]] == x); }
    assert forall|x: T| #[trigger] s.contains(x) implies r.contains(x) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(r[fwd[i]] == x); }
}
pub broadcast proof fn lemma_reord_ids(s: Seq<KNode>, r: Seq<KNode>, fwd: Seq<int>, bwd: Seq<int>)
    requires #[trigger] reord(s, r, fwd, bwd),
    ensures forall|x: U256| #[trigger] hasid(r, x) <==> hasid(s, x),
{
    assert forall|x: U256| #[trigger] hasid(r, x) implies hasid(s, x) by { let i = choose|i: int| 0 <= i < r.len() && r[i].id == x; assert(s[bwd[i]].id == x); }
    assert forall|x: U256| #[trigger] hasid(s, x) implies hasid(r, x) by { let i = choose|i: int| 0 <= i < s.len() && s[i].id == x; assert(r[fwd[i]].id == x); }
}
pub broadcast proof fn lemma_ids_push(s: Seq<KNode>, n: KNode, x: U256)
    ensures #[trigger] hasid(s.push(n), x) <==> hasid(s, x) || x == n.id,
{
    if hasid(s, x) { let i = choose|i: int| 0 <= i < s.len() && s[i].id == x; assert(s.push(n)[i].id == x); }
    if x == n.id { assert(s.push(n)[s.len() as int].id == x); }
    if hasid(s.push(n), x) && x != n.id { let i = choose|i: int| 0 <= i < s.push(n).len() && s.push(n)[i].id == x; assert(s[i].id == x); }
}
pub broadcast proof fn lemma_ids_remove(s: Seq<KNode>, i: int, x: U256)
    requires once(s), 0 <= i < s.len(),
    ensures #[trigger] hasid(s.remove(i), x) <==> hasid(s, x) && x != s[i].id,
{
    if hasid(s, x) && x != s[i].id { let j = choose|j: int| 0 <= j < s.len() && s[j].id == x; assert(s.remove(i)[if j < i { j } else { j - 1 }].id == x); }
    if hasid(s.remove(i), x) { let j = choose|j: int| 0 <= j < s.remove(i).len() && s.remove(i)[j].id == x; assert(s[if j < i { j } else { j + 1 }].id == x); }
}
pub broadcast proof fn lemma_ids_update(s: Seq<KNode>, i: int, n: KNode, x: U256)
    requires 0 <= i < s.len(), n.id == s[i].id,
    ensures #[trigger] hasid(s.update(i, n), x) <==> hasid(s, x),
{
    if hasid(s, x) { let j = choose|j: int| 0 <= j < s.len() && s[j].id == x; assert(s.update(i, n)[j].id == x); }
    if hasid(s.update(i, n), x) { let j = choose|j: int| 0 <= j < s.len() && s.update(i, n)[j].id == x; assert(s[j].id == x); }
}
pub broadcast group group_ids { lemma_reord, lemma_reord_ids, lemma_ids_push, lemma_ids_remove, lemma_ids_update }
/// The first n nodes of a are those of b one tick later.
pub open spec fn all_later(a: Seq<KNode>, b: Seq<KNode>, n: int) -> bool { forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < n ==> a[i].later(&b[i]) }
pub open spec fn dead(s: Seq<KNode>, n: int, c: Config, id: U256) -> bool { exists|i: int| 0 <= i < n && (#[trigger] s[i]).id == id && s[i].dies(c) }
pub open spec fn asked(s: Seq<KNode>, n: int, c: Config, id: U256) -> bool { exists|i: int| 0 <= i < n && (#[trigger] s[i]).id == id && s[i].asks(c) }
/// t tells which of the first n nodes have to be dropped and pinged.
pub open spec fn told(t: TickIDs, s: Seq<KNode>, n: int, c: Config) -> bool {
    &&& forall|id: U256| #[trigger] t.deleted@.contains(id) <==> dead(s, n, c, id)
    &&& forall|id: U256| #[trigger] t.ping@.contains(id) <==> asked(s, n, c, id)
}
pub proof fn lemma_told(t0: TickIDs, t: TickIDs, s: Seq<KNode>, n: int, c: Config)
    requires told(t0, s, n, c), 0 <= n < s.len(),
        t.ping@ == if s[n].asks(c) { t0.ping@.push(s[n].id) } else { t0.ping@ },
        t.deleted@ == if s[n].dies(c) { t0.deleted@.push(s[n].id) } else { t0.deleted@ },
    ensures told(t, s, n + 1, c),
{
    assert forall|id: U256| #[trigger] t.deleted@.contains(id) <==> dead(s, n + 1, c, id) by {
        assert(t0.deleted@.contains(id) <==> dead(s, n, c, id));
        if dead(s, n, c, id) { let i = choose|i: int| 0 <= i < n && (#[trigger] s[i]).id == id && s[i].dies(c); assert(s[i].dies(c)); }
        if s[n].id == id && s[n].dies(c) { assert(dead(s, n + 1, c, id)); }
    }
    assert forall|id: U256| #[trigger] t.ping@.contains(id) <==> asked(s, n + 1, c, id) by {
        assert(t0.ping@.contains(id) <==> asked(s, n, c, id));
        if asked(s, n, c, id) { let i = choose|i: int| 0 <= i < n && (#[trigger] s[i]).id == id && s[i].asks(c); assert(s[i].asks(c)); }
        if s[n].id == id && s[n].asks(c) { assert(asked(s, n + 1, c, id)); }
    }
}
pub broadcast proof fn lemma_add_contains(a: Seq<U256>, b: Seq<U256>, x: U256)
    ensures #[trigger] (a + b).contains(x) <==> a.contains(x) || b.contains(x),
{
    if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert((a + b)[i] == x); }
    if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert((a + b)[i + a.len()] == x); }
    if (a + b).contains(x) { let i = choose|i: int| 0 <= i < (a + b).len() && (a + b)[i] == x; if i < a.len() { assert(a[i] == x); } else { assert(b[i - a.len()] == x); } }
}
pub proof fn lemma_union_ids(s: Seq<KNode>, a: Seq<KNode>, b: Seq<KNode>, x: U256)
    requires forall|n: KNode| #[trigger] s.contains(n) <==> a.contains(n) || b.contains(n),
    ensures hasid(s, x) <==> hasid(a, x) || hasid(b, x),
{
    assert(forall|n: KNode| a.contains(n) || b.contains(n) ==> #[trigger] s.contains(n));
    if hasid(a, x) { let i = choose|i: int| 0 <= i < a.len() && a[i].id == x; assert(s.contains(a[i])); let j = choose|j: int| 0 <= j < s.len() && s[j] == a[i]; assert(s[j].id == x); }
    if hasid(b, x) { let i = choose|i: int| 0 <= i < b.len() && b[i].id == x; assert(s.contains(b[i])); let j = choose|j: int| 0 <= j < s.len() && s[j] == b[i]; assert(s[j].id == x); }
    if hasid(s, x) { let i = choose|i: int| 0 <= i < s.len() && s[i].id == x; assert(s.contains(s[i]));
        if a.contains(s[i]) { let j = choose|j: int| 0 <= j < a.len() && a[j] == s[i]; assert(a[j].id == x); }
        else { let j = choose|j: int| 0 <= j < b.len() && b[j] == s[i]; assert(b[j].id == x); } }
}
pub proof fn lemma_hasid(s: Seq<KNode>, n: KNode) requires s.contains(n) ensures hasid(s, n.id) { let i = choose|i: int| 0 <= i < s.len() && s[i] == n; assert(s[i].id == n.id); }
pub proof fn lemma_minus_ids(s: Seq<KNode>, a: Seq<KNode>, id: U256, x: U256)
    requires forall|n: KNode| #[trigger] s.contains(n) <==> a.contains(n) && n.id != id,
    ensures hasid(s, x) <==> hasid(a, x) && x != id,
{
    if hasid(a, x) && x != id { let i = choose|i: int| 0 <= i < a.len() && a[i].id == x; assert(s.contains(a[i])); lemma_hasid(s, a[i]); }
    if hasid(s, x) { let i = choose|i: int| 0 <= i < s.len() && s[i].id == x; assert(s.contains(s[i])); lemma_hasid(a, s[i]); }
}
pub proof fn lemma_apart_sub(a: Seq<KNode>, c: Seq<KNode>, ta: Seq<KNode>, tc: Seq<KNode>)
    requires apart(ta, tc), forall|i: int| 0 <= i < a.len() ==> ta.contains(#[trigger] a[i]), forall|i: int| 0 <= i < c.len() ==> ta.contains(#[trigger] c[i]),
    ensures apart(a, tc), apart(c, tc),
{
    assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < tc.len() implies (#[trigger] a[i]).id != (#[trigger] tc[j]).id by { let k = choose|k: int| 0 <= k < ta.len() && ta[k] == a[i]; assert(ta[k].id != tc[j].id); }
    assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < tc.len() implies (#[trigger] c[i]).id != (#[trigger] tc[j]).id by { let k = choose|k: int| 0 <= k < ta.len() && ta[k] == c[i]; assert(ta[k].id != tc[j].id); }
}
pub proof fn lemma_other(s: Seq<KNode>, d: usize)
    requires count_at(s, d) < s.len(),
    ensures exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).depth != d,
    decreases s.len(),
{
    if s.last().depth != d { assert(s[s.len() - 1].depth != d); } else {
        assert(depths_of(s).drop_last() =~= depths_of(s.drop_last()));
        lemma_other(s.drop_last(), d);
        let i = choose|i: int| 0 <= i < s.drop_last().len() && (#[trigger] s.drop_last()[i]).depth != d;
        assert(s[i].depth != d);
    }
}
pub open spec fn in_first(s: Seq<U256>, n: int, id: U256) -> bool { exists|j: int| 0 <= j < n && #[trigger] s[j] == id }
impl KBucket {
    pub open spec fn wf(&self) -> bool {
        &&& cfg_ok(self.config)
        &&& all_ok(self.active@, self.config) && all_ok(self.cache@, self.config)
        &&& once(self.active@) && once(self.cache@) && apart(self.active@, self.cache@)
        &&& by_depth(self.active@)
        &&& !self.is_root ==> self.active@.len() <= self.config.k && self.cache@.len() <= 2 * self.config.k
    }
    /// The same without the limits on the ticks.
    pub open spec fn wf0(&self) -> bool {
        &&& cfg_ok(self.config)
        &&& all_ok0(self.active@, self.config) && all_ok0(self.cache@, self.config)
        &&& once(self.active@) && once(self.cache@) && apart(self.active@, self.cache@)
        &&& by_depth(self.active@)
        &&& !self.is_root ==> self.active@.len() <= self.config.k && self.cache@.len() <= 2 * self.config.k
    }
    pub open spec fn known(&self, id: U256) -> bool { hasid(self.active@, id) || hasid(self.cache@, id) }
    pub open spec fn same(&self, o: &Self) -> bool { self.config == o.config && self.is_root == o.is_root }
    pub open spec fn from(&self, d: int) -> bool { all_from(self.active@, d) && all_from(self.cache@, d) }
    pub open spec fn at(&self, d: int) -> bool { all_at(self.active@, d) && all_at(self.cache@, d) }
    pub open spec fn count(&self) -> int { self.active@.len() as int + self.cache@.len() }

//@fn kd KBucket::new
//@ spec
    ensures res.active@.len() == 0, res.cache@.len() == 0, res.config == config, !res.is_root,
//@end
//@fn kd KBucket::new_root
//@ spec
    ensures res.active@.len() == 0, res.cache@.len() == 0, res.config == config, res.is_root,
//@end
//@fn kd KBucket::add_node
//@ spec
    requires old(self).wf(), node.ok(old(self).config), !old(self).known(node.id),
    ensures final(self).wf(), final(self).same(old(self)), final(self).active@ == old(self).active@, // [K02]
        final(self).cache@ == if old(self).is_root || old(self).cache@.len() < 2 * old(self).config.k { old(self).cache@.push(node) } else { old(self).cache@ }, // [K02]
//@ sub /self\.cache\.vx_contains\(&node\)/ => /vx_contains_id(&self.cache, &node)/
//@end
//@fn kd KBucket::add_nodes
//@ spec
    requires old(self).wf(), all_ok(nodes@, old(self).config), once(nodes@), apart(old(self).active@, nodes@), apart(old(self).cache@, nodes@),
    ensures final(self).wf(), final(self).same(old(self)), final(self).active@ == old(self).active@, // [K02]
        forall|i: int| 0 <= i < final(self).cache@.len() ==> old(self).cache@.contains(#[trigger] final(self).cache@[i]) || nodes@.contains(final(self).cache@[i]), // [K02]
        forall|i: int| 0 <= i < old(self).cache@.len() ==> final(self).cache@.contains(#[trigger] old(self).cache@[i]), // [K02]
        old(self).is_root ==> forall|i: int| 0 <= i < nodes@.len() ==> final(self).cache@.contains(#[trigger] nodes@[i]), // [K02]
//@ loop 0
    invariant vx_it0.wf(), vx_it0.seq() == nodes@, self.wf(), self.same(old(self)), self.active@ == old(self).active@,
        all_ok(nodes@, self.config), once(nodes@), apart(old(self).active@, nodes@),
        forall|i: int, j: int| 0 <= i < self.cache@.len() && vx_it0.pos() <= j < nodes@.len() ==> (#[trigger] self.cache@[i]).id != (#[trigger] nodes@[j]).id,
        forall|i: int| 0 <= i < self.cache@.len() ==> old(self).cache@.contains(#[trigger] self.cache@[i]) || nodes@.contains(self.cache@[i]),
        forall|i: int| 0 <= i < old(self).cache@.len() ==> self.cache@.contains(#[trigger] old(self).cache@[i]),
        old(self).is_root ==> forall|i: int| 0 <= i < vx_it0.pos() ==> self.cache@.contains(#[trigger] nodes@[i]),
    decreases vx_it0.left(),
//@end
//@fn kd KBucket::add_nodes_active
//@ spec
    requires old(self).wf(), all_ok(nodes@, old(self).config), once(nodes@), apart(old(self).active@, nodes@), apart(old(self).cache@, nodes@),
    ensures final(self).wf(), final(self).same(old(self)), // [K02]
        forall|i: int| 0 <= i < final(self).active@.len() ==> old(self).active@.contains(#[trigger] final(self).active@[i]) || nodes@.contains(final(self).active@[i]), // [K02]
        forall|i: int| 0 <= i < final(self).cache@.len() ==> old(self).cache@.contains(#[trigger] final(self).cache@[i]) || nodes@.contains(final(self).cache@[i]), // [K02]
        forall|i: int| 0 <= i < old(self).active@.len() ==> final(self).active@.contains(#[trigger] old(self).active@[i]), // [K02]
        old(self).is_root ==> final(self).cache@ == old(self).cache@ && forall|i: int| 0 <= i < nodes@.len() ==> final(self).active@.contains(#[trigger] nodes@[i]), // [K02]
//@ loop 0
    invariant vx_it0.wf(), vx_it0.seq() == nodes@, self.wf(), self.same(old(self)),
        all_ok(nodes@, self.config), once(nodes@),
        forall|i: int, j: int| 0 <= i < self.cache@.len() && vx_it0.pos() <= j < nodes@.len() ==> (#[trigger] self.cache@[i]).id != (#[trigger] nodes@[j]).id,
        forall|i: int, j: int| 0 <= i < self.active@.len() && vx_it0.pos() <= j < nodes@.len() ==> (#[trigger] self.active@[i]).id != (#[trigger] nodes@[j]).id,
        forall|i: int| 0 <= i < self.active@.len() ==> old(self).active@.contains(#[trigger] self.active@[i]) || nodes@.contains(self.active@[i]),
        forall|i: int| 0 <= i < self.cache@.len() ==> old(self).cache@.contains(#[trigger] self.cache@[i]) || nodes@.contains(self.cache@[i]),
        forall|i: int| 0 <= i < old(self).active@.len() ==> self.active@.contains(#[trigger] old(self).active@[i]),
        old(self).is_root ==> self.cache@ == old(self).cache@ && forall|i: int| 0 <= i < vx_it0.pos() ==> self.active@.contains(#[trigger] nodes@[i]),
    decreases vx_it0.left(),
//@end
//@fn kd KBucket::add_node_active
//@ spec
    requires old(self).wf(), node.ok(old(self).config), !old(self).known(node.id),
    ensures final(self).wf(), final(self).same(old(self)), // [K02]
        forall|i: int| 0 <= i < final(self).active@.len() ==> old(self).active@.contains(#[trigger] final(self).active@[i]) || final(self).active@[i] == node, // [K02]
        forall|i: int| 0 <= i < old(self).active@.len() ==> final(self).active@.contains(#[trigger] old(self).active@[i]), // [K02]
        if old(self).is_root || old(self).active@.len() < old(self).config.k { final(self).active@.contains(node) && final(self).cache@ == old(self).cache@ }
            else { final(self).active@ == old(self).active@ && (final(self).cache@ == old(self).cache@ || final(self).cache@ == old(self).cache@.push(node)) }, // [K02]
//@ entry
    broadcast use lemma_reord;
    let ghost s = self.active@.push(node);
    proof { assert(s.contains(node)) by { assert(s[s.len() - 1] == node); } assert forall|i: int| 0 <= i < self.active@.len() implies #[trigger] s.contains(self.active@[i]) by { assert(s[i] == self.active@[i]); } }
//@ closure 0 header: |a: &KNode, b: &KNode| -> (o: Ordering)
    ensures o == if a.depth < b.depth { Ordering::Less } else if a.depth == b.depth { Ordering::Equal } else { Ordering::Greater }
//@ sub /a\.depth\.cmp\(&b\.depth\)/ => /vx_cmp_usize(&a.depth, &b.depth)/
//@end
//@fn kd KBucket::remove_node
//@ spec
    requires old(self).wf0(),
    ensures final(self).wf0(), old(self).wf() ==> final(self).wf(), final(self).same(old(self)), // [K02]
        forall|n: KNode| #[trigger] final(self).active@.contains(n) <==> old(self).active@.contains(n) && n.id != *id, // [K02] [K04]
        forall|n: KNode| #[trigger] final(self).cache@.contains(n) <==> old(self).cache@.contains(n) && n.id != *id, // [K02] [K04]
//@ closure 0 -> (b: bool)
    ensures b == (kn.id != *id)
//@ closure 1 -> (b: bool)
    ensures b == (kn.id != *id)
//@ exit
    proof {
        assert forall|i: int| 0 <= i < self.active@.len() implies old(self).active@.contains(#[trigger] self.active@[i]) by { assert(self.active@.contains(self.active@[i])); }
        assert forall|i: int| 0 <= i < self.cache@.len() implies old(self).cache@.contains(#[trigger] self.cache@[i]) by { assert(self.cache@.contains(self.cache@[i])); }
    }
//@end
//@fn kd KBucket::get_active_ids
//@ spec
    ensures lists(res@, self.active@, depth as int), // [K03]
//@ closure 0 header: |kn: &KNode| -> (o: Option<U256>)
    ensures o == if kn.depth == depth { Some(kn.id) } else { None::<U256> }
//@ closure 1 -> (x: U256)
    ensures x == kn.id
//@end
//@fn kd KBucket::last_depth
//@ spec
    requires by_depth(self.active@),
    ensures res is None <==> self.active@.len() == 0,
        res matches Some(d) ==> (forall|i: int| 0 <= i < self.active@.len() ==> (#[trigger] self.active@[i]).depth <= d) && self.active@.last().depth == d, // [K03]
//@ closure 0 -> (d: usize)
    ensures d == kn.depth
//@end
//@fn kd KBucket::has_node_id
//@ spec
    ensures res == self.known(*id), // [K02]
//@ closure 0 header: |kn: &KNode| -> (b: bool)
    ensures b == (kn.id == *id)
//@ exit
    proof {
        let q = refs(self.active@) + refs(self.cache@);
        assert forall|i: int| 0 <= i < self.active@.len() implies q[i] == &#[trigger] self.active@[i] by {}
        assert forall|i: int| 0 <= i < self.cache@.len() implies q[i + self.active@.len()] == &#[trigger] self.cache@[i] by {}
        if !res {
            assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).id != *id by {}
            assert forall|i: int| 0 <= i < self.active@.len() implies (#[trigger] self.active@[i]).id != *id by { assert(q[i].id != *id); }
            assert forall|i: int| 0 <= i < self.cache@.len() implies (#[trigger] self.cache@[i]).id != *id by { assert(q[i + self.active@.len()].id != *id); }
        }
        if res {
            assert(exists|i: int| 0 <= i < q.len() && q[i].id == *id);
            let i = choose|i: int| 0 <= i < q.len() && q[i].id == *id;
            let n = self.active@.len();
            if i < n { assert(self.active@[i].id == *id); } else { assert(self.cache@[i - n].id == *id); }
        }
    }
//@end

//@fn kd KBucket::remove_all_nodes_at_depth
//@ spec
    requires old(self).wf(),
    ensures final(self).same(old(self)), final(self).wf(), // [K02]
        split(old(self).active@, final(self).active@, res.0@, depth), // [K02]
        split(old(self).cache@, final(self).cache@, res.1@, depth), // [K02]
        count_at(old(self).active@, depth) + count_at(old(self).cache@, depth) + old(self).config.k <= old(self).count() ==>
            count_at(final(self).active@, depth) == 0 && count_at(final(self).cache@, depth) == 0, // [K02]
//@ entry
    proof { axiom_vec_len(self.active); axiom_vec_len(self.cache); }
//@ beforeloop 0
    proof { lemma_split_start(self.cache@, depth); lemma_split_start(self.active@, depth); lemma_split_none(old(self).cache@, depth); lemma_split_none(old(self).active@, depth); }
//@ loop 0
    invariant vx_it0.wf(), vx_it0.seq().len() == max_nodes,
        self.active@ == old(self).active@, self.same(old(self)), split(old(self).cache@, self.cache@, cache@, depth),
        cache@.len() == vx_it0.pos() || cache@.len() < vx_it0.pos() && count_at(self.cache@, depth) == 0,
    decreases vx_it0.left(),
//@ loopstart 0
    proof { lemma_split_none(self.cache@, depth); }
    let ghost s0 = self.cache@; let ghost t0 = cache@;
//@ loopend 0
    proof { if cache@.len() > t0.len() { let i = choose|i: int| 0 <= i < s0.len() && s0[i].depth == depth && self.cache@ == s0.remove(i) && cache@ == t0.push(s0[i]); lemma_split_move(old(self).cache@, s0, t0, depth, i); } }
//@ closure 0 header: |kn: &KNode| -> (b: bool)
    ensures b == (kn.depth == depth)
//@ closure 1 header: |kn: &KNode| -> (b: bool)
    ensures b == (kn.depth == depth)
//@ loop 1
    invariant vx_it1.wf(), vx_it1.seq().len() == max_nodes - cache@.len(), once(old(self).active@),
        self.same(old(self)), split(old(self).cache@, self.cache@, cache@, depth), split(old(self).active@, self.active@, active@, depth),
        cache@.len() == max_nodes || cache@.len() < max_nodes && count_at(self.cache@, depth) == 0,
        active@.len() == vx_it1.pos() || active@.len() < vx_it1.pos() && count_at(self.active@, depth) == 0,
    decreases vx_it1.left(),
//@ loopstart 1
    proof { lemma_split_none(self.active@, depth); }
    let ghost s0 = self.active@; let ghost t0 = active@;
//@ loopend 1
    proof { if active@.len() > t0.len() { let i = choose|i: int| 0 <= i < s0.len() && s0[i].depth == depth && self.active@ == s0.remove(i) && active@ == t0.push(s0[i]); lemma_split_move(old(self).active@, s0, t0, depth, i); } }
//@ exit
    proof {
        lemma_split_none(self.active@, depth); lemma_split_none(self.cache@, depth); lemma_split_none(old(self).active@, depth); lemma_split_none(old(self).cache@, depth);
        assert forall|i: int| 0 <= i < self.active@.len() implies old(self).active@.contains(#[trigger] self.active@[i]) by { assert(self.active@.contains(self.active@[i])); }
        assert forall|i: int| 0 <= i < self.cache@.len() implies old(self).cache@.contains(#[trigger] self.cache@[i]) by { assert(self.cache@.contains(self.cache@[i])); }
    }
//@end
//@fn kd KBucket::status
//@ spec
    requires old(self).wf(),
    ensures *final(self) == *old(self), // [K02]
        res == BucketStatus::Wanting <==> old(self).count() < old(self).config.k, // [K02]
        res == BucketStatus::Overflowing ==> old(self).count() >= 2 * old(self).config.k && exists|d: usize| #[trigger] spread(*old(self), d), // [K02]
//@ entry
    proof { axiom_vec_len(self.active); axiom_vec_len(self.cache); }
//@end
//@fn kd KBucket::overflow_imbalance
//@ spec
    requires self.wf(),
    ensures !res && self.count() > 0 ==> exists|d: usize| #[trigger] spread(*self, d), // [K02]
//@ closure 0 -> (d: usize)
    ensures d == kn.depth
//@ before "if let Some(first) = depths"
    proof {
        let q = refs(self.active@) + refs(self.cache@);
        let m = depths_of(self.active@) + depths_of(self.cache@);
        assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).depth == m[i] by {}
        assert forall|x: Seq<usize>| #![trigger perm(x, depths@)] x.len() == m.len() && (forall|i: int| 0 <= i < m.len() ==> x[i] == m[i]) implies x == m by { assert(x =~= m); }
        assert(perm(m, depths@));
        if depths@.len() > 0 {
            let d = depths@[0];
            lemma_occ(m, d); lemma_occ(depths@, d); lemma_occ_add(depths_of(self.active@), depths_of(self.cache@), d);
            assert(depths@.contains(d));
            assert forall|i: int| 0 <= i < m.len() implies m[i] >= d by {
                lemma_occ(m, m[i]); lemma_occ(depths@, m[i]);
                assert(m.contains(m[i]));
                assert(depths@.contains(m[i]));
                let j = choose|j: int| 0 <= j < depths@.len() && depths@[j] == m[i];
                assert(vp::VxOrd::le(&depths@[0], &depths@[j]));
            }
            assert(self.from(d as int)) by {
                assert forall|i: int| 0 <= i < self.active@.len() implies (#[trigger] self.active@[i]).depth >= d by { assert(m[i] >= d); }
                assert forall|i: int| 0 <= i < self.cache@.len() implies (#[trigger] self.cache@[i]).depth >= d by { assert(m[i + self.active@.len()] >= d); }
            }
            if depths@.len() - occ(depths@, d) >= self.config.k { assert(spread(*self, d)); }
        }
    }
//@ sub /depths\.vx_iter\(\)\.counts_by\(\|d\| d\)/ => /vx_counts(&depths)/
//@ sub /depths\.len\(\) - first_nbr/ => /depths.len() - *first_nbr/
//@end

//@fn kd KBucket::tick_active
//@ spec
    requires old(self).wf(),
    ensures final(self).same(old(self)), final(self).cache@ == old(self).cache@, // [K04]
        final(self).active@.len() == old(self).active@.len(), // [K04]
        all_later(final(self).active@, old(self).active@, old(self).active@.len() as int), // [K04]
        told(res, old(self).active@, old(self).active@.len() as int, old(self).config), // [K04]
//@ entry
    let ghost s = self.active@; let ghost c = self.config;
//@ beforeloop 0
    let ghost q = vx_it0.seq();
//@ loop 0
    invariant vx_it0.wf(), vx_it0.seq() == q, q.len() == s.len(), all_ok(s, c), c == self.config, cfg_ok(c),
        forall|i: int| 0 <= i < s.len() ==> *(#[trigger] vx_it0.seq()[i]) == s[i],
        forall|i: int| 0 <= i < vx_it0.pos() ==> (*final(#[trigger] vx_it0.seq()[i])).later(&s[i]),
        told(tick_ids, s, vx_it0.pos(), c),
    decreases vx_it0.left(),
//@ loopstart 0
    let ghost t0 = tick_ids;
//@ loopend 0
    proof { lemma_told(t0, tick_ids, s, vx_it0.pos() - 1, c); }
//@end
//@fn kd KBucket::tick_cache
//@ spec
    requires all_ok(old(self).cache@, old(self).config), cfg_ok(old(self).config), !old(self).is_root ==> old(self).active@.len() <= old(self).config.k,
    ensures final(self).same(old(self)), final(self).active@ == old(self).active@, // [K04]
        final(self).cache@.len() == old(self).cache@.len(), // [K04]
        all_later(final(self).cache@, old(self).cache@, old(self).tried()), // [K04]
        forall|i: int| old(self).tried() <= i < old(self).cache@.len() ==> final(self).cache@[i] == #[trigger] old(self).cache@[i], // [K04]
        told(res, old(self).cache@, old(self).tried(), old(self).config), // [K04]
//@ entry
    let ghost s = self.cache@; let ghost c = self.config; let ghost n = self.tried();
//@ beforeloop 0
    let ghost q = vx_it0.seq();
//@ loop 0
    invariant vx_it0.wf(), vx_it0.seq() == q, q.len() == n, 0 <= n <= s.len(), all_ok(s, c), c == self.config, cfg_ok(c),
        forall|i: int| 0 <= i < n ==> *(#[trigger] vx_it0.seq()[i]) == s[i],
        forall|i: int| 0 <= i < vx_it0.pos() ==> (*final(#[trigger] vx_it0.seq()[i])).later(&s[i]),
        told(tick_ids, s, vx_it0.pos(), c),
    decreases vx_it0.left(),
//@ loopstart 0
    let ghost t0 = tick_ids;
//@ loopend 0
    proof { lemma_told(t0, tick_ids, s, vx_it0.pos() - 1, c); }
//@ afterloop 0
    proof { assert forall|i: int| 0 <= i < n implies (#[trigger] self.cache@[i]).later(&s[i]) by { assert(vx_it0.seq()[i] == q[i]); } }
//@ sub /vx_iter_mut\(\)\.vx_take\(/ => /vx_iter_mut().vx_take_mut(/
//@end
    /// So many candidates are tried on every tick.
    pub open spec fn tried(&self) -> int {
        let n = if self.is_root { self.cache@.len() as int } else { 2 * self.config.k - self.active@.len() };
        if n <= self.cache@.len() { n } else { self.cache@.len() as int }
    }
//@fn kd KBucket::node_active
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same(old(self)), // [K02] [K04]
        forall|x: U256| #[trigger] final(self).known(x) <==> old(self).known(x), // [K02]
        forall|x: U256| x != *id ==> (#[trigger] hasid(final(self).active@, x) <==> hasid(old(self).active@, x)), // [K04]
        res <==> hasid(final(self).active@, *id) && !hasid(old(self).active@, *id), // [K04]
        hasid(old(self).active@, *id) ==> hasid(final(self).active@, *id), // [K04]
        hasid(old(self).cache@, *id) && (old(self).is_root || old(self).active@.len() < old(self).config.k) ==> res, // [K04]
        forall|i: int| 0 <= i < final(self).active@.len() && (#[trigger] final(self).active@[i]).id == *id ==> final(self).active@[i].ticks_last == 0, // [K04]
        forall|i: int| 0 <= i < final(self).cache@.len() && (#[trigger] final(self).cache@[i]).id == *id ==> final(self).cache@[i].ticks_last == 0, // [K04]
        forall|i: int| 0 <= i < final(self).active@.len() && (#[trigger] final(self).active@[i]).id != *id ==> old(self).active@.contains(final(self).active@[i]), // [K04]
        forall|i: int| 0 <= i < final(self).cache@.len() && (#[trigger] final(self).cache@[i]).id != *id ==> old(self).cache@.contains(final(self).cache@[i]), // [K04]
//@ entry
    broadcast use group_ids;
    let ghost oa = self.active@; let ghost oc = self.cache@;
//@ sub /vx_iter_mut\(\)\.vx_find\(\|kn\|/ => /vx_find_mut(|kn|/
//@ closure 0 -> (b: bool)
    ensures b == (kn.id == *id)
//@ closure 1 header: |kn: &KNode| -> (b: bool)
    ensures b == (kn.id == *id)
//@ closure 2 header: |a: &KNode, b: &KNode| -> (o: Ordering)
    ensures o == if a.depth < b.depth { Ordering::Less } else if a.depth == b.depth { Ordering::Equal } else { Ordering::Greater }
//@ sub /a\.depth\.cmp\(&b\.depth\)/ => /vx_cmp_usize(&a.depth, &b.depth)/
//@end

    /// What one tick makes of a bucket.
    pub open spec fn dying(&self, id: U256) -> bool { dead(self.active@, self.active@.len() as int, self.config, id) || dead(self.cache@, self.tried(), self.config, id) }
    pub open spec fn asking(&self, id: U256) -> bool { asked(self.active@, self.active@.len() as int, self.config, id) || asked(self.cache@, self.tried(), self.config, id) }
    pub open spec fn was(&self, n: KNode) -> bool { exists|i: int| 0 <= i < self.active@.len() && n.later(#[trigger] &self.active@[i]) }
    pub open spec fn was_candidate(&self, n: KNode) -> bool { self.cache@.contains(n) || exists|i: int| 0 <= i < self.cache@.len() && n.later(#[trigger] &self.cache@[i]) }
    pub open spec fn ticked(&self, o: &Self) -> bool {
        &&& self.wf() && self.same(o)
        &&& forall|id: U256| #[trigger] hasid(self.active@, id) <==> hasid(o.active@, id) && !o.dying(id)
        &&& forall|id: U256| #[trigger] hasid(self.cache@, id) <==> hasid(o.cache@, id) && !o.dying(id)
        &&& forall|i: int| 0 <= i < self.active@.len() ==> o.was(#[trigger] self.active@[i])
        &&& forall|i: int| 0 <= i < self.cache@.len() ==> o.was_candidate(#[trigger] self.cache@[i])
    }
    pub open spec fn midtick(&self, o: &Self) -> bool {
        &&& self.same(o) && self.active@.len() == o.active@.len() && self.cache@.len() == o.cache@.len()
        &&& all_later(self.active@, o.active@, o.active@.len() as int) && all_later(self.cache@, o.cache@, o.tried())
        &&& forall|i: int| o.tried() <= i < o.cache@.len() ==> self.cache@[i] == #[trigger] o.cache@[i]
    }
    pub proof fn lemma_midtick(&self, o: &Self)
        requires o.wf(), self.midtick(o),
        ensures self.wf0(),
    {
        assert forall|i: int| #![trigger self.active@[i]] 0 <= i < self.active@.len() implies self.active@[i].id == o.active@[i].id && self.active@[i].depth == o.active@[i].depth && self.active@[i].ok0(o.config) by { assert(o.active@[i].ok(o.config)); }
        assert forall|i: int| #![trigger self.cache@[i]] 0 <= i < self.cache@.len() implies self.cache@[i].id == o.cache@[i].id && self.cache@[i].ok0(o.config) by { assert(o.cache@[i].ok(o.config)); }
    }
    pub proof fn lemma_ticked(&self, m: &Self, o: &Self, del: Seq<U256>)
        requires o.wf(), m.midtick(o), self.wf0(), self.same(o), forall|id: U256| #[trigger] del.contains(id) <==> o.dying(id),
            forall|n: KNode| #[trigger] self.active@.contains(n) <==> m.active@.contains(n) && !in_first(del, del.len() as int, n.id),
            forall|n: KNode| #[trigger] self.cache@.contains(n) <==> m.cache@.contains(n) && !in_first(del, del.len() as int, n.id),
        ensures self.ticked(o),
    {
        assert forall|id: U256| #[trigger] in_first(del, del.len() as int, id) <==> del.contains(id) by {
            if del.contains(id) { let j = choose|j: int| 0 <= j < del.len() && del[j] == id; assert(del[j] == id); }
        }
        assert forall|i: int| 0 <= i < self.active@.len() implies o.was(#[trigger] self.active@[i]) && self.active@[i].ok(o.config) && hasid(o.active@, self.active@[i].id) && !o.dying(self.active@[i].id) by {
            let n = self.active@[i];
            assert(self.active@.contains(n));
            let j = choose|j: int| 0 <= j < m.active@.len() && m.active@[j] == n;
            assert(n.later(&o.active@[j]));
            assert(o.active@[j].ok(o.config));
            assert(hasid(o.active@, n.id));
            if o.active@[j].dies(o.config) { assert(o.dying(n.id)); }
        }
        assert forall|i: int| 0 <= i < self.cache@.len() implies o.was_candidate(#[trigger] self.cache@[i]) && self.cache@[i].ok(o.config) && hasid(o.cache@, self.cache@[i].id) && !o.dying(self.cache@[i].id) by {
            let n = self.cache@[i];
            assert(self.cache@.contains(n));
            let j = choose|j: int| 0 <= j < m.cache@.len() && m.cache@[j] == n;
            assert(o.cache@[j].ok(o.config));
            if j < o.tried() {
                assert(n.later(&o.cache@[j]));
                if o.cache@[j].dies(o.config) { assert(o.dying(n.id)); }
            } else { assert(o.cache@[j] == n); assert(o.cache@.contains(n)); }
            assert(o.cache@[j].id == n.id);
            assert(hasid(o.cache@, n.id));
        }
        assert forall|id: U256| hasid(o.active@, id) && !o.dying(id) implies #[trigger] hasid(self.active@, id) by {
            let j = choose|j: int| 0 <= j < o.active@.len() && (#[trigger] o.active@[j]).id == id;
            assert(m.active@[j].later(&o.active@[j]));
            assert(m.active@.contains(m.active@[j]));
            assert(!in_first(del, del.len() as int, id));
            assert(self.active@.contains(m.active@[j]));
        }
        assert forall|id: U256| hasid(o.cache@, id) && !o.dying(id) implies #[trigger] hasid(self.cache@, id) by {
            let j = choose|j: int| 0 <= j < o.cache@.len() && (#[trigger] o.cache@[j]).id == id;
            if j < o.tried() { assert(m.cache@[j].later(&o.cache@[j])); } else { assert(m.cache@[j] == o.cache@[j]); }
            assert(m.cache@[j].id == id);
            assert(m.cache@.contains(m.cache@[j]));
            assert(!in_first(del, del.len() as int, id));
            assert(self.cache@.contains(m.cache@[j]));
        }
    }
//@fn kd KBucket::tick
//@ spec
    requires old(self).wf(),
    ensures final(self).ticked(old(self)), // [K04]
        forall|id: U256| #[trigger] res.deleted@.contains(id) <==> old(self).dying(id), // [K04]
        forall|id: U256| #[trigger] res.ping@.contains(id) <==> old(self).asking(id), // [K04]
//@ entry
    let ghost b0 = *self;
    broadcast use lemma_add_contains;
//@ beforeloop 0
    let ghost b1 = *self;
    proof {
        assert(b1.midtick(&b0));
        b1.lemma_midtick(&b0);
        assert forall|n: KNode| #[trigger] self.active@.contains(n) <==> b1.active@.contains(n) && !in_first(ticks.deleted@, 0, n.id) by {}
    }
//@ afterloop 0
    proof { self.lemma_ticked(&b1, &b0, ticks.deleted@); }
//@ loop 0
    invariant vx_it0.wf(), vx_it0.seq() == refs(ticks.deleted@), b1.wf0(), self.wf0(), self.same(&b1),
        forall|n: KNode| #[trigger] self.active@.contains(n) <==> b1.active@.contains(n) && !in_first(ticks.deleted@, vx_it0.pos(), n.id),
        forall|n: KNode| #[trigger] self.cache@.contains(n) <==> b1.cache@.contains(n) && !in_first(ticks.deleted@, vx_it0.pos(), n.id),
    decreases vx_it0.left(),
//@end
}

impl Kademlia {
    pub open spec fn n(&self) -> int { self.buckets@.len() as int }
    pub open spec fn d(&self, id: U256) -> int { depth_spec(self.config.root, id) }
    pub open spec fn bucket_ok(&self, b: KBucket, i: int) -> bool { b.wf() && !b.is_root && b.config == self.config && b.at(i) }
    /// Every bucket holds the nodes of one distance, the root bucket those which are further away.
    pub open spec fn wf(&self) -> bool {
        &&& cfg_ok(self.config) && self.n() <= 255
        &&& forall|i: int| 0 <= i < self.n() ==> self.bucket_ok(#[trigger] self.buckets@[i], i)
        &&& self.root_bucket.wf() && self.root_bucket.is_root && self.root_bucket.config == self.config && self.root_bucket.from(self.n())
    }
    /// The bucket for this distance.
    pub open spec fn home(&self, d: int) -> KBucket { if d < self.n() { self.buckets@[d] } else { self.root_bucket } }
    pub open spec fn known(&self, id: U256) -> bool { self.home(self.d(id)).known(id) }
    pub open spec fn active(&self, id: U256) -> bool { hasid(self.home(self.d(id)).active@, id) }
    /// There is a node in use at this distance.
    pub open spec fn some_at(&self, d: int) -> bool { exists|i: int| 0 <= i < self.home(d).active@.len() && (#[trigger] self.home(d).active@[i]).depth == d }
    /// l are the nodes in use at distance d.
    pub open spec fn nodes_at(&self, l: Seq<U256>, d: int) -> bool { lists(l, self.home(d).active@, d) }
    /// Between these distances there is nobody.
    pub open spec fn none_between(&self, a: int, b: int) -> bool { forall|e: int| a < e < b ==> !#[trigger] self.some_at(e) }
    pub proof fn lemma_some(&self, l: Seq<U256>, d: int)
        requires self.nodes_at(l, d),
        ensures l.len() > 0 <==> self.some_at(d),
    {
        if l.len() > 0 {
            assert(l.contains(l[0]));
            let s = self.home(d).active@;
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).id == l[0] && s[i].depth == d;
            assert(s[i].depth == d);
        }
        if self.some_at(d) {
            let i = choose|i: int| 0 <= i < self.home(d).active@.len() && (#[trigger] self.home(d).active@[i]).depth == d;
            assert(l.contains(self.home(d).active@[i].id));
        }
    }
    /// What is in bucket i is at distance i.
    pub proof fn lemma_home(&self)
        requires self.wf(),
        ensures forall|i: int, id: U256| #![trigger self.buckets@[i].known(id)] 0 <= i < self.n() && self.buckets@[i].known(id) ==> self.d(id) == i,
            forall|id: U256| #[trigger] self.root_bucket.known(id) ==> self.d(id) >= self.n(),
            forall|id: U256| #[trigger] self.known(id) ==> id != self.config.root,
    {
        assert forall|i: int, id: U256| #![trigger self.buckets@[i].known(id)] 0 <= i < self.n() && self.buckets@[i].known(id) implies self.d(id) == i && id != self.config.root by {
            let b = self.buckets@[i];
            if hasid(b.active@, id) { let j = choose|j: int| 0 <= j < b.active@.len() && (#[trigger] b.active@[j]).id == id; assert(b.active@[j].ok(self.config)); }
            else { let j = choose|j: int| 0 <= j < b.cache@.len() && (#[trigger] b.cache@[j]).id == id; assert(b.cache@[j].ok(self.config)); }
        }
        assert forall|id: U256| #[trigger] self.root_bucket.known(id) implies self.d(id) >= self.n() && id != self.config.root by {
            let b = self.root_bucket;
            if hasid(b.active@, id) { let j = choose|j: int| 0 <= j < b.active@.len() && (#[trigger] b.active@[j]).id == id; assert(b.active@[j].ok(self.config)); }
            else { let j = choose|j: int| 0 <= j < b.cache@.len() && (#[trigger] b.cache@[j]).id == id; assert(b.cache@[j].ok(self.config)); }
        }
        assert forall|id: U256| #[trigger] self.known(id) implies id != self.config.root by {
            lemma_depth(self.config.root, id);
            if self.d(id) < self.n() { assert(self.buckets@[self.d(id)].known(id)); } else { assert(self.root_bucket.known(id)); }
        }
    }

    /// r are the next hops to dst, for a message which came from last.
    pub open spec fn routed(&self, dst: U256, last: Option<U256>, r: Seq<U256>) -> bool {
        &&& last is None || self.some_at(self.d(dst)) ==> self.nodes_at(r, self.d(dst))
        &&& last matches Some(l) ==> !self.some_at(self.d(dst)) ==> r.len() == 0 || exists|e: int| #[trigger] self.nodes_at(r, e) && e > self.d(dst) && e > self.d(l)
            && self.none_between(if self.d(dst) > self.d(l) { self.d(dst) } else { self.d(l) }, e)
    }
    /// l are the nodes in use.
    pub open spec fn actives(&self, l: Seq<U256>) -> bool { each_once(l) && forall|x: U256| #[trigger] l.contains(x) <==> self.active(x) }
//@fn kd Kademlia::new
//@ spec
    requires cfg_ok(config),
    ensures res.wf(), res.config == config, forall|id: U256| !#[trigger] res.known(id), // [K02]
//@ exit
    proof { assert forall|id: U256| !#[trigger] res.known(id) by { lemma_depth(config.root, id); } }
//@end
//@fn kd Kademlia::has_node_id
//@ spec
    requires self.wf(),
    ensures res == self.known(*id), // [K02]
//@ entry
    proof { self.lemma_home(); lemma_depth(self.config.root, *id); }
//@ loop 0
    invariant vx_it0.wf(), vx_it0.seq() == refs(self.buckets@), self.wf(),
        forall|i: int| 0 <= i < vx_it0.pos() ==> !(#[trigger] self.buckets@[i]).known(*id),
    decreases vx_it0.left(),
//@end
//@fn kd Kademlia::get_nodes_depth
//@ spec
    ensures self.nodes_at(res@, depth as int), // [K03]
//@ closure 0 -> (l: Vec<U256>)
    ensures lists(l@, b.active@, depth as int)
//@end
//@fn kd Kademlia::route_direct
//@ spec
    ensures self.nodes_at(res@, self.d(*dst)), // [K03]
//@ entry
    proof { lemma_depth(self.config.root, *dst); }
//@end
//@fn kd Kademlia::route_closest
//@ spec
    requires self.wf(),
    ensures self.routed(*dst, match last { Some(l) => Some(*l), None => None }, res@), // [K03]
//@ entry
    proof { lemma_depth(self.config.root, *dst); if let Some(l) = last { lemma_depth(self.config.root, *l); } }
//@ sub /std::iter::once\(/ => /vx_once(/
//@ loop 0
    invariant vx_it0.wf(), self.wf(), last == Some(l), depth == self.d(*dst), depth_last == if self.d(*dst) > self.d(*l) { self.d(*dst) } else { self.d(*l) },
        vx_it0.seq() == seq![depth] + range_seq((depth_last + 1) as usize, depth_root_last), depth_last <= 255,
        vx_it0.pos() > 0 ==> !self.some_at(depth as int),
        self.none_between(depth_last as int, depth_last + vx_it0.pos()),
    decreases vx_it0.left(),
//@ after "let ret = self.get_nodes_depth(d);"
    proof {
        self.lemma_some(ret@, d as int);
        assert(self.nodes_at(ret@, d as int));
        assert(vx_it0.pos() == 1 ==> d == depth);
        assert(vx_it0.pos() > 1 ==> d == depth_last + vx_it0.pos() - 1);
    }
//@end
//@fn kd Kademlia::rebalance_wanting
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).config == old(self).config, // [K02]
        forall|id: U256| #[trigger] final(self).known(id) <==> old(self).known(id), // [K02]
        forall|id: U256| #[trigger] final(self).active(id) <==> old(self).active(id), // [K02]
//@ loop 0
    invariant self.wf(), self.config == old(self).config,
        forall|id: U256| #[trigger] self.known(id) <==> old(self).known(id),
        forall|id: U256| #[trigger] self.active(id) <==> old(self).active(id),
    decreases self.buckets@.len(),
//@ loopstart 0
    let ghost k0 = *self;
    proof { self.lemma_home(); }
//@ loopend 0
    proof { self.lemma_merged(&k0); }
//@ before "return;"
    proof { self.lemma_equal(&k0); }
//@end
    pub proof fn lemma_equal(&self, o: &Self)
        requires o.wf(), self.buckets@ =~= o.buckets@, self.config == o.config, self.root_bucket == o.root_bucket,
        ensures self.wf(), forall|id: U256| #[trigger] self.known(id) <==> o.known(id), forall|id: U256| #[trigger] self.active(id) <==> o.active(id),
    {
        assert forall|id: U256| #[trigger] self.known(id) <==> o.known(id) by { assert(self.home(self.d(id)) == o.home(o.d(id))); }
        assert forall|id: U256| #[trigger] self.active(id) <==> o.active(id) by { assert(self.home(self.d(id)) == o.home(o.d(id))); }
    }
    pub proof fn lemma_merged(&self, o: &Self)
        requires o.wf(), o.n() > 0, self.buckets@ == o.buckets@.drop_last(), self.config == o.config,
            self.root_bucket.wf(), self.root_bucket.same(&o.root_bucket),
            forall|n: KNode| #[trigger] self.root_bucket.active@.contains(n) <==> o.root_bucket.active@.contains(n) || o.buckets@.last().active@.contains(n),
            forall|n: KNode| #[trigger] self.root_bucket.cache@.contains(n) <==> o.root_bucket.cache@.contains(n) || o.buckets@.last().cache@.contains(n),
        ensures self.wf(),
            forall|id: U256| #[trigger] self.known(id) <==> o.known(id),
            forall|id: U256| #[trigger] self.active(id) <==> o.active(id),
    {
        let l = o.buckets@.last(); let r = self.root_bucket; let q = o.root_bucket;
        assert(self.wf()) by {
            assert forall|i: int| 0 <= i < self.n() implies self.bucket_ok(#[trigger] self.buckets@[i], i) by { assert(o.bucket_ok(o.buckets@[i], i)); }
            assert forall|i: int| 0 <= i < r.active@.len() implies (#[trigger] r.active@[i]).depth >= self.n() by { assert(r.active@.contains(r.active@[i])); assert(o.bucket_ok(l, o.n() - 1)); }
            assert forall|i: int| 0 <= i < r.cache@.len() implies (#[trigger] r.cache@[i]).depth >= self.n() by { assert(r.cache@.contains(r.cache@[i])); assert(o.bucket_ok(l, o.n() - 1)); }
        }
        o.lemma_home();
        assert forall|id: U256| (#[trigger] self.known(id) <==> o.known(id)) && (self.active(id) <==> o.active(id)) by {
            lemma_depth(self.config.root, id);
            lemma_union_ids(r.active@, q.active@, l.active@, id); lemma_union_ids(r.cache@, q.cache@, l.cache@, id);
            let d = self.d(id);
            if d < self.n() { assert(self.home(d) == o.home(d)); } else {
                assert(l.known(id) == o.buckets@[o.n() - 1].known(id));
                assert(q.known(id) ==> d >= o.n());
                assert(l.known(id) ==> d == o.n() - 1);
                assert(q.known(id) == o.root_bucket.known(id));
            }
        }
        assert forall|id: U256| #[trigger] self.active(id) <==> o.active(id) by { assert(self.known(id) <==> o.known(id)); }
    }

//@fn kd Kademlia::rebalance_overflow
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).config == old(self).config, // [K02]
        forall|id: U256| #[trigger] final(self).known(id) ==> old(self).known(id), // [K02]
        final(self).n() >= old(self).n(), final(self).n() == old(self).n() ==> *final(self) == *old(self), // [K02]
//@ loop 0
    invariant self.wf(), self.config == old(self).config, self.n() >= old(self).n(), self.n() == old(self).n() ==> *self == *old(self),
        forall|id: U256| #[trigger] self.known(id) ==> old(self).known(id),
    decreases 256 - self.buckets@.len(),
//@ loopstart 0
    let ghost k0 = *self;
    proof { k0.lemma_spread(); }
//@ after "let mut bucket = KBucket::new(self.config);"
    proof { lemma_split_none(self.root_bucket.active@, self.n() as usize); lemma_split_none(self.root_bucket.cache@, self.n() as usize); }
//@ before "bucket.add_nodes_active(active);"
    let ghost ta = active@; let ghost tc = cache@; let ghost r1 = self.root_bucket;
    proof { k0.lemma_taken(&r1, ta, tc); }
//@ before "bucket.add_nodes(cache);"
    let ghost b1 = bucket;
    proof { lemma_apart_sub(b1.active@, b1.cache@, ta, tc); }
//@ loopend 0
    proof { self.lemma_split(&k0, ta, tc); }
//@end
    pub proof fn lemma_spread(&self)
        requires self.wf(),
        ensures forall|d: usize| #[trigger] spread(self.root_bucket, d) && self.root_bucket.count() > 0 ==> self.n() < 255 && d >= self.n()
            && count_at(self.root_bucket.active@, self.n() as usize) + count_at(self.root_bucket.cache@, self.n() as usize) + self.config.k <= self.root_bucket.count(),
    {
        let r = self.root_bucket; let n = self.n() as usize;
        assert forall|d: usize| #[trigger] spread(r, d) && r.count() > 0 implies self.n() < 255 && d >= self.n()
            && count_at(r.active@, n) + count_at(r.cache@, n) + self.config.k <= r.count() by {
            lemma_split_none(r.active@, n); lemma_split_none(r.cache@, n); lemma_split_none(r.active@, d); lemma_split_none(r.cache@, d);
            if r.active@.len() > 0 { assert(r.active@[0].depth >= d); }
            lemma_occ(depths_of(r.active@), d); lemma_occ(depths_of(r.cache@), d);
            // Somebody is further away than d.
            if count_at(r.active@, d) < r.active@.len() { lemma_other(r.active@, d); let i = choose|i: int| 0 <= i < r.active@.len() && (#[trigger] r.active@[i]).depth != d; assert(r.active@[i].ok(self.config)); lemma_depth(self.config.root, r.active@[i].id); }
            else { lemma_other(r.cache@, d); let i = choose|i: int| 0 <= i < r.cache@.len() && (#[trigger] r.cache@[i]).depth != d; assert(r.cache@[i].ok(self.config)); lemma_depth(self.config.root, r.cache@[i].id); }
            // The first distance is that of somebody, or nobody is at n.
        }
    }
    pub proof fn lemma_taken(&self, r: &KBucket, ta: Seq<KNode>, tc: Seq<KNode>)
        requires self.wf(), split(self.root_bucket.active@, r.active@, ta, self.n() as usize), split(self.root_bucket.cache@, r.cache@, tc, self.n() as usize),
        ensures once(ta), once(tc), apart(ta, tc), all_ok(ta, self.config), all_ok(tc, self.config),
    {
        assert forall|i: int, j: int| 0 <= i < ta.len() && 0 <= j < tc.len() implies (#[trigger] ta[i]).id != (#[trigger] tc[j]).id by {
            assert(ta.contains(ta[i]) && tc.contains(tc[j]));
            assert(self.root_bucket.active@.contains(ta[i]) && self.root_bucket.cache@.contains(tc[j]));
        }
        assert forall|i: int| 0 <= i < ta.len() implies (#[trigger] ta[i]).ok(self.config) by { assert(ta.contains(ta[i])); assert(self.root_bucket.active@.contains(ta[i])); }
        assert forall|i: int| 0 <= i < tc.len() implies (#[trigger] tc[i]).ok(self.config) by { assert(tc.contains(tc[i])); assert(self.root_bucket.cache@.contains(tc[i])); }
    }
    pub proof fn lemma_split(&self, o: &Self, ta: Seq<KNode>, tc: Seq<KNode>)
        requires o.wf(), o.n() < 255, self.config == o.config, self.n() == o.n() + 1, forall|i: int| 0 <= i < o.n() ==> self.buckets@[i] == #[trigger] o.buckets@[i],
            self.root_bucket.wf(), self.root_bucket.same(&o.root_bucket),
            split(o.root_bucket.active@, self.root_bucket.active@, ta, o.n() as usize), split(o.root_bucket.cache@, self.root_bucket.cache@, tc, o.n() as usize),
            count_at(self.root_bucket.active@, o.n() as usize) == 0, count_at(self.root_bucket.cache@, o.n() as usize) == 0,
            self.buckets@[o.n()].wf(), !self.buckets@[o.n()].is_root, self.buckets@[o.n()].config == self.config,
            forall|i: int| 0 <= i < self.buckets@[o.n()].active@.len() ==> ta.contains(#[trigger] self.buckets@[o.n()].active@[i]),
            forall|i: int| 0 <= i < self.buckets@[o.n()].cache@.len() ==> ta.contains(#[trigger] self.buckets@[o.n()].cache@[i]) || tc.contains(self.buckets@[o.n()].cache@[i]),
        ensures self.wf(), forall|id: U256| #[trigger] self.known(id) ==> o.known(id),
    {
        let r = self.root_bucket; let q = o.root_bucket; let b = self.buckets@[o.n()];
        lemma_split_none(r.active@, o.n() as usize); lemma_split_none(r.cache@, o.n() as usize);
        assert forall|i: int| 0 <= i < r.active@.len() implies q.active@.contains(#[trigger] r.active@[i]) && r.active@[i].depth >= self.n() by { let x = r.active@[i]; assert(r.active@.contains(x)); assert(q.active@.contains(x)); let k = choose|k: int| 0 <= k < q.active@.len() && q.active@[k] == x; assert(q.active@[k].depth >= o.n()); assert(r.active@[i].depth != o.n() as usize); }
        assert forall|i: int| 0 <= i < r.cache@.len() implies q.cache@.contains(#[trigger] r.cache@[i]) && r.cache@[i].depth >= self.n() by { let x = r.cache@[i]; assert(r.cache@.contains(x)); assert(q.cache@.contains(x)); let k = choose|k: int| 0 <= k < q.cache@.len() && q.cache@[k] == x; assert(q.cache@[k].depth >= o.n()); assert(r.cache@[i].depth != o.n() as usize); }
        assert forall|i: int| 0 <= i < b.active@.len() implies q.active@.contains(#[trigger] b.active@[i]) && b.active@[i].depth == o.n() by { assert(ta.contains(b.active@[i])); }
        assert forall|i: int| 0 <= i < b.cache@.len() implies (q.active@.contains(#[trigger] b.cache@[i]) || q.cache@.contains(b.cache@[i])) && b.cache@[i].depth == o.n() by { assert(ta.contains(b.cache@[i]) || tc.contains(b.cache@[i])); }
        assert(self.wf()) by { assert forall|i: int| 0 <= i < self.n() implies self.bucket_ok(#[trigger] self.buckets@[i], i) by { if i < o.n() { assert(o.bucket_ok(o.buckets@[i], i)); } } }
        self.lemma_home();
        assert forall|id: U256| #[trigger] self.known(id) implies o.known(id) by {
            lemma_depth(self.config.root, id);
            let d = self.d(id);
            if d < o.n() { assert(self.home(d) == o.home(d)); } else {
                let h = self.home(d);
                if hasid(h.active@, id) { let i = choose|i: int| 0 <= i < h.active@.len() && (#[trigger] h.active@[i]).id == id; assert(q.active@.contains(h.active@[i])); lemma_hasid(q.active@, h.active@[i]); }
                else { let i = choose|i: int| 0 <= i < h.cache@.len() && (#[trigger] h.cache@[i]).id == id; assert(q.active@.contains(h.cache@[i]) || q.cache@.contains(h.cache@[i])); 
                    if q.active@.contains(h.cache@[i]) { lemma_hasid(q.active@, h.cache@[i]); } else { lemma_hasid(q.cache@, h.cache@[i]); } }
            }
        }
    }
//@fn kd Kademlia::remove_node
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).config == old(self).config, // [K02] [K04]
        forall|x: U256| #[trigger] final(self).known(x) <==> old(self).known(x) && x != *id, // [K02] [K04]
        forall|x: U256| #[trigger] final(self).active(x) <==> old(self).active(x) && x != *id, // [K02] [K04]
//@ entry
    let ghost k0 = *self;
    proof { lemma_depth(self.config.root, *id); }
//@ before "if self.root_bucket.status()"
    proof { self.lemma_removed(&k0, *id); }
//@ exit
    proof { if k0.d(*id) < k0.n() { self.lemma_removed(&k0, *id); } }
//@end
//@fn kd Kademlia::node_disconnected
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).config == old(self).config, // [K02] [K04]
        forall|x: U256| #[trigger] final(self).known(x) <==> old(self).known(x) && x != *id, // [K02] [K04]
        forall|x: U256| #[trigger] final(self).active(x) <==> old(self).active(x) && x != *id, // [K02] [K04]
//@ entry
    let ghost k0 = *self;
    proof { lemma_depth(self.config.root, *id); }
//@ before "if self.root_bucket.status()"
    proof { self.lemma_removed(&k0, *id); }
//@end
    /// b is a without the node id.
    pub open spec fn without(b: KBucket, a: KBucket, id: U256) -> bool {
        &&& b.wf() && b.same(&a)
        &&& forall|n: KNode| #[trigger] b.active@.contains(n) <==> a.active@.contains(n) && n.id != id
        &&& forall|n: KNode| #[trigger] b.cache@.contains(n) <==> a.cache@.contains(n) && n.id != id
    }
    pub proof fn lemma_removed(&self, o: &Self, id: U256)
        requires o.wf(), self.config == o.config, self.n() == o.n(),
            forall|i: int| 0 <= i < o.n() && i != o.d(id) ==> self.buckets@[i] == #[trigger] o.buckets@[i],
            o.d(id) < o.n() ==> self.root_bucket == o.root_bucket,
            Self::without(self.home(o.d(id)), o.home(o.d(id)), id),
        ensures self.wf(),
            forall|x: U256| #[trigger] self.known(x) <==> o.known(x) && x != id,
            forall|x: U256| #[trigger] self.active(x) <==> o.active(x) && x != id,
    {
        lemma_depth(self.config.root, id);
        let b = self.home(o.d(id)); let a = o.home(o.d(id));
        assert forall|i: int| 0 <= i < b.active@.len() implies a.active@.contains(#[trigger] b.active@[i]) by { assert(b.active@.contains(b.active@[i])); }
        assert forall|i: int| 0 <= i < b.cache@.len() implies a.cache@.contains(#[trigger] b.cache@[i]) by { assert(b.cache@.contains(b.cache@[i])); }
        assert(self.wf()) by {
            assert forall|i: int| 0 <= i < self.n() implies self.bucket_ok(#[trigger] self.buckets@[i], i) by { assert(o.bucket_ok(o.buckets@[i], i)); }
        }
        assert forall|x: U256| (#[trigger] self.known(x) <==> o.known(x) && x != id) && (self.active(x) <==> o.active(x) && x != id) by {
            lemma_depth(self.config.root, x);
            if self.d(x) == self.d(id) || self.d(x) >= self.n() && self.d(id) >= self.n() {
                lemma_minus_ids(b.active@, a.active@, id, x); lemma_minus_ids(b.cache@, a.cache@, id, x);
            } else { assert(self.home(self.d(x)) == o.home(o.d(x))); }
        }
        assert forall|x: U256| #[trigger] self.active(x) <==> o.active(x) && x != id by { assert(self.known(x) <==> o.known(x) && x != id); }
    }
//@fn kd Kademlia::node_active
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).config == old(self).config, final(self).n() == old(self).n(), // [K02] [K04]
        forall|x: U256| #[trigger] final(self).known(x) <==> old(self).known(x), // [K02] [K04]
        forall|x: U256| x != *id ==> (#[trigger] final(self).active(x) <==> old(self).active(x)), // [K04]
        res <==> final(self).active(*id) && !old(self).active(*id), // [K04]
        old(self).active(*id) ==> final(self).active(*id), // [K04]
//@ sub /self\s*\.buckets\s*\.vx_get_mut\(depth\)\s*\.vx_unwrap_or_else\(\|\| &mut self\.root_bucket\)/ => /(match self.buckets.vx_get_mut(depth) { Some(b) => b, None => &mut self.root_bucket })/
//@end

//@fn kd Kademlia::add_node
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).config == old(self).config, // [K02]
        forall|x: U256| #[trigger] final(self).known(x) ==> old(self).known(x) || x == id && id != old(self).config.root, // [K02]
        id == old(self).config.root || old(self).known(id) ==> *final(self) == *old(self), // [K02]
        final(self).n() == old(self).n() ==> forall|x: U256| #[trigger] old(self).known(x) ==> final(self).known(x), // [K02]
        final(self).n() == old(self).n() && id != old(self).config.root && (old(self).home(old(self).d(id)).is_root || old(self).home(old(self).d(id)).cache@.len() < 2 * old(self).config.k) ==> final(self).known(id), // [K02]
        final(self).n() == old(self).n() ==> forall|x: U256| #[trigger] final(self).active(x) == old(self).active(x), // [K02]
        old(self).d(id) < old(self).n() ==> final(self).n() == old(self).n(), final(self).n() >= old(self).n(), // [K02]
//@ entry
    let ghost k0 = *self;
    proof { lemma_depth(self.config.root, id); }
//@ before "if self.root_bucket.status()"
    proof { self.lemma_added(&k0, id); }
//@ exit
    proof { if k0.d(id) < k0.n() { self.lemma_added(&k0, id); } }
//@end
    pub proof fn lemma_added(&self, o: &Self, id: U256)
        requires o.wf(), self.config == o.config, self.n() == o.n(), !o.known(id), id != o.config.root,
            forall|i: int| 0 <= i < o.n() && i != o.d(id) ==> self.buckets@[i] == #[trigger] o.buckets@[i],
            o.d(id) < o.n() ==> self.root_bucket == o.root_bucket,
            self.home(o.d(id)).wf(), self.home(o.d(id)).same(&o.home(o.d(id))), self.home(o.d(id)).active@ == o.home(o.d(id)).active@,
            self.home(o.d(id)).cache@ == o.home(o.d(id)).cache@ || exists|n: KNode| n.id == id && n.depth == o.d(id) && self.home(o.d(id)).cache@ == #[trigger] o.home(o.d(id)).cache@.push(n),
            o.home(o.d(id)).is_root || o.home(o.d(id)).cache@.len() < 2 * o.config.k ==> self.home(o.d(id)).cache@ != o.home(o.d(id)).cache@,
        ensures self.wf(),
            forall|x: U256| #[trigger] self.known(x) ==> o.known(x) || x == id,
            forall|x: U256| #[trigger] o.known(x) ==> self.known(x),
            forall|x: U256| #[trigger] self.active(x) == o.active(x),
            o.home(o.d(id)).is_root || o.home(o.d(id)).cache@.len() < 2 * o.config.k ==> self.known(id),
    {
        broadcast use group_ids;
        lemma_depth(o.config.root, id);
        let b = self.home(o.d(id)); let a = o.home(o.d(id));
        assert(self.wf()) by {
            assert forall|i: int| 0 <= i < self.n() implies self.bucket_ok(#[trigger] self.buckets@[i], i) by { assert(o.bucket_ok(o.buckets@[i], i)); }
        }
        assert forall|x: U256| (#[trigger] self.known(x) ==> o.known(x) || x == id) && (o.known(x) ==> self.known(x)) && (self.active(x) == o.active(x)) by {
            lemma_depth(self.config.root, x);
            if !(self.d(x) == self.d(id) || self.d(x) >= self.n() && self.d(id) >= self.n()) { assert(self.home(self.d(x)) == o.home(o.d(x))); }
        }
        assert forall|x: U256| #[trigger] self.active(x) == o.active(x) by { assert(self.known(x) ==> o.known(x) || x == id); }
        assert forall|x: U256| #[trigger] o.known(x) implies self.known(x) by { assert(self.known(x) ==> o.known(x) || x == id); }
    }
//@fn kd Kademlia::add_nodes
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).config == old(self).config, // [K02]
        forall|x: U256| #[trigger] final(self).known(x) ==> old(self).known(x) || ids@.contains(x), // [K02]
        final(self).took(old(self), ids@), // [K02]
//@ loop 0
    invariant vx_it0.wf(), vx_it0.seq() == ids@, self.wf(), self.config == old(self).config,
        forall|x: U256| #[trigger] self.known(x) ==> old(self).known(x) || ids@.contains(x),
        self.n() >= old(self).n(), self.took(old(self), ids@.take(vx_it0.pos())), // [K02]
    decreases vx_it0.left(),
//@ loopstart 0
    let ghost k0 = *self;
//@ loopend 0
    proof {
        assert forall|i: int| 0 <= i < vx_it0.pos() && self.n() == old(self).n() && ids@[i] != old(self).config.root && old(self).d(ids@[i]) >= old(self).n() implies self.known(#[trigger] ids@[i]) by {
            if i < vx_it0.pos() - 1 { assert(ids@.take(vx_it0.pos() - 1)[i] == ids@[i]); assert(k0.known(ids@[i])); }
        }
    }
//@ afterloop 0
    proof { assert(ids@.take(ids@.len() as int) =~= ids@); }
//@end
    /// Those of ids which belong in the last bucket are known, as long as this isn't split.
    pub open spec fn took(&self, o: &Self, ids: Seq<U256>) -> bool {
        &&& self.n() >= o.n()
        &&& self.n() == o.n() ==> (forall|i: int| 0 <= i < ids.len() && ids[i] != o.config.root && o.d(ids[i]) >= o.n() ==> self.known(#[trigger] ids[i])) && forall|x: U256| #[trigger] o.known(x) ==> self.known(x)
    }
    pub open spec fn some_dying(&self, n: int, id: U256) -> bool { exists|i: int| 0 <= i < n && (#[trigger] self.buckets@[i]).dying(id) }
    pub open spec fn some_asking(&self, n: int, id: U256) -> bool { exists|i: int| 0 <= i < n && (#[trigger] self.buckets@[i]).asking(id) }
    /// Not heard of for too long / time to ask.
    pub open spec fn dying(&self, id: U256) -> bool { self.home(self.d(id)).dying(id) }
    pub open spec fn asking(&self, id: U256) -> bool { self.home(self.d(id)).asking(id) }
//@fn kd Kademlia::tick
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).config == old(self).config, final(self).n() == old(self).n(), // [K02] [K04]
        forall|x: U256| #[trigger] final(self).known(x) <==> old(self).known(x) && !old(self).dying(x), // [K02] [K04]
        forall|x: U256| #[trigger] final(self).active(x) <==> old(self).active(x) && !old(self).dying(x), // [K04]
        forall|x: U256| #[trigger] res.deleted@.contains(x) <==> old(self).dying(x), // [K04]
        forall|x: U256| #[trigger] res.ping@.contains(x) <==> old(self).asking(x), // [K04]
        forall|d: int| 0 <= d ==> (#[trigger] final(self).home(d)).ticked(&old(self).home(d)), // [K04]
//@ entry
    let ghost k0 = *self; let ghost mut p1 = (Seq::<U256>::empty(), Seq::<U256>::empty());
    broadcast use lemma_add_contains;
//@ beforeloop 0
    let ghost q = vx_it0.seq();
//@ loop 0
    invariant vx_it0.wf(), vx_it0.seq() == q, q.len() == k0.n(), k0.wf(),
        forall|i: int| 0 <= i < k0.n() ==> *(#[trigger] vx_it0.seq()[i]) == k0.buckets@[i],
        forall|i: int| 0 <= i < vx_it0.pos() ==> (*final(#[trigger] vx_it0.seq()[i])).ticked(&k0.buckets@[i]),
        forall|x: U256| #[trigger] ping_ids.deleted@.contains(x) <==> k0.some_dying(vx_it0.pos(), x),
        forall|x: U256| #[trigger] ping_ids.ping@.contains(x) <==> k0.some_asking(vx_it0.pos(), x),
    decreases vx_it0.left(),
//@ loopstart 0
    let ghost p0 = ping_ids; let ghost n0 = vx_it0.pos() - 1;
    broadcast use lemma_add_contains;
    proof { assert(k0.bucket_ok(k0.buckets@[n0], n0)); }
//@ loopend 0
    proof {
        assert forall|x: U256| #[trigger] ping_ids.deleted@.contains(x) <==> k0.some_dying(n0 + 1, x) by {
            assert(p0.deleted@.contains(x) <==> k0.some_dying(n0, x));
            if k0.some_dying(n0, x) { let i = choose|i: int| 0 <= i < n0 && (#[trigger] k0.buckets@[i]).dying(x); assert(k0.buckets@[i].dying(x)); }
            if k0.buckets@[n0].dying(x) { assert(k0.some_dying(n0 + 1, x)); }
        }
        assert forall|x: U256| #[trigger] ping_ids.ping@.contains(x) <==> k0.some_asking(n0 + 1, x) by {
            assert(p0.ping@.contains(x) <==> k0.some_asking(n0, x));
            if k0.some_asking(n0, x) { let i = choose|i: int| 0 <= i < n0 && (#[trigger] k0.buckets@[i]).asking(x); assert(k0.buckets@[i].asking(x)); }
            if k0.buckets@[n0].asking(x) { assert(k0.some_asking(n0 + 1, x)); }
        }
    }
//@ afterloop 0
    proof { assert forall|i: int| 0 <= i < k0.n() implies (#[trigger] self.buckets@[i]).ticked(&k0.buckets@[i]) by { assert(vx_it0.seq()[i] == q[i]); } }
    proof { p1 = (ping_ids.deleted@, ping_ids.ping@); }
//@ exit
    proof {
        self.lemma_ticks(&k0);
        assert forall|x: U256| #[trigger] res.deleted@.contains(x) <==> k0.dying(x) by { assert(p1.0.contains(x) <==> k0.some_dying(k0.n(), x)); k0.lemma_dying(x); }
        assert forall|x: U256| #[trigger] res.ping@.contains(x) <==> k0.asking(x) by { assert(p1.1.contains(x) <==> k0.some_asking(k0.n(), x)); k0.lemma_dying(x); }
    }
//@end
    pub proof fn lemma_dying(&self, x: U256)
        requires self.wf(),
        ensures self.some_dying(self.n(), x) || self.root_bucket.dying(x) <==> self.dying(x), self.some_asking(self.n(), x) || self.root_bucket.asking(x) <==> self.asking(x),
    {
        self.lemma_home();
        lemma_depth(self.config.root, x);
        assert forall|b: KBucket| (b.dying(x) || b.asking(x)) implies #[trigger] b.known(x) by { lemma_dying_known(b, x); }
        if self.some_dying(self.n(), x) { let i = choose|i: int| 0 <= i < self.n() && (#[trigger] self.buckets@[i]).dying(x); assert(self.buckets@[i].known(x)); }
        if self.some_asking(self.n(), x) { let i = choose|i: int| 0 <= i < self.n() && (#[trigger] self.buckets@[i]).asking(x); assert(self.buckets@[i].known(x)); }
        if self.root_bucket.dying(x) || self.root_bucket.asking(x) { assert(self.root_bucket.known(x)); }
        if self.d(x) < self.n() {
            if self.dying(x) { assert(self.buckets@[self.d(x)].dying(x)); }
            if self.asking(x) { assert(self.buckets@[self.d(x)].asking(x)); }
        }
    }
    pub proof fn lemma_ticks(&self, o: &Self)
        requires o.wf(), self.config == o.config, self.n() == o.n(), self.root_bucket.ticked(&o.root_bucket),
            forall|i: int| 0 <= i < o.n() ==> (#[trigger] self.buckets@[i]).ticked(&o.buckets@[i]),
        ensures self.wf(),
            forall|x: U256| #[trigger] self.known(x) <==> o.known(x) && !o.dying(x),
            forall|x: U256| #[trigger] self.active(x) <==> o.active(x) && !o.dying(x),
            forall|d: int| 0 <= d ==> (#[trigger] self.home(d)).ticked(&o.home(d)),
    {
        assert(self.wf()) by {
            assert forall|i: int| 0 <= i < self.n() implies self.bucket_ok(#[trigger] self.buckets@[i], i) by {
                assert(o.bucket_ok(o.buckets@[i], i)); assert(self.buckets@[i].ticked(&o.buckets@[i]));
                lemma_tick_depth(self.buckets@[i], o.buckets@[i]);
            }
            lemma_tick_depth(self.root_bucket, o.root_bucket);
        }
        assert forall|x: U256| #[trigger] self.known(x) <==> o.known(x) && !o.dying(x) by {
            lemma_depth(self.config.root, x);
            assert(self.home(self.d(x)).ticked(&o.home(o.d(x))));
        }
        assert forall|x: U256| #[trigger] self.active(x) <==> o.active(x) && !o.dying(x) by {
            lemma_depth(self.config.root, x);
            assert(self.home(self.d(x)).ticked(&o.home(o.d(x))));
        }
    }
    pub proof fn lemma_disjoint(&self)
        requires self.wf(),
        ensures disjoint(self.buckets@, true), disjoint(self.buckets@, false), all_once(self.buckets@, true), all_once(self.buckets@, false),
            once(self.root_bucket.active@), once(self.root_bucket.cache@),
            forall|i: int, x: U256| 0 <= i < self.n() && #[trigger] hasid(part(self.buckets@[i], true)@, x) ==> !hasid(self.root_bucket.active@, x),
            forall|i: int, x: U256| 0 <= i < self.n() && #[trigger] hasid(part(self.buckets@[i], false)@, x) ==> !hasid(self.root_bucket.cache@, x),
    {
        self.lemma_home();
        assert forall|i: int, x: U256, a: bool| 0 <= i < self.n() && #[trigger] hasid(part(self.buckets@[i], a)@, x) implies self.d(x) == i by { assert(self.buckets@[i].known(x)); }
        assert forall|i: int| 0 <= i < self.n() implies once(part(#[trigger] self.buckets@[i], true)@) && once(part(self.buckets@[i], false)@) by { assert(self.bucket_ok(self.buckets@[i], i)); }
        assert forall|x: U256| hasid(self.root_bucket.active@, x) || hasid(self.root_bucket.cache@, x) implies #[trigger] self.d(x) >= self.n() by { assert(self.root_bucket.known(x)); }
        assert forall|i: int, x: U256| 0 <= i < self.n() && #[trigger] hasid(part(self.buckets@[i], true)@, x) implies !hasid(self.root_bucket.active@, x) by { assert(self.d(x) == i); }
        assert forall|i: int, x: U256| 0 <= i < self.n() && #[trigger] hasid(part(self.buckets@[i], false)@, x) implies !hasid(self.root_bucket.cache@, x) by { assert(self.d(x) == i); }
    }
    pub open spec fn in_bucket(&self, n: int, id: U256) -> bool { exists|i: int| 0 <= i < n && hasid((#[trigger] self.buckets@[i]).active@, id) }
    pub open spec fn in_cache(&self, n: int, id: U256) -> bool { exists|i: int| 0 <= i < n && hasid((#[trigger] self.buckets@[i]).cache@, id) }
    pub proof fn lemma_in(&self, x: U256)
        requires self.wf(),
        ensures self.in_bucket(self.n(), x) || hasid(self.root_bucket.active@, x) <==> self.active(x),
            self.in_cache(self.n(), x) || hasid(self.root_bucket.cache@, x) <==> hasid(self.home(self.d(x)).cache@, x),
    {
        self.lemma_home(); lemma_depth(self.config.root, x);
        if self.in_bucket(self.n(), x) { let i = choose|i: int| 0 <= i < self.n() && hasid((#[trigger] self.buckets@[i]).active@, x); assert(self.buckets@[i].known(x)); }
        if self.in_cache(self.n(), x) { let i = choose|i: int| 0 <= i < self.n() && hasid((#[trigger] self.buckets@[i]).cache@, x); assert(self.buckets@[i].known(x)); }
        if hasid(self.root_bucket.active@, x) || hasid(self.root_bucket.cache@, x) { assert(self.root_bucket.known(x)); }
        if self.d(x) < self.n() { let b = self.buckets@[self.d(x)]; assert(hasid(b.active@, x) ==> self.in_bucket(self.n(), x)); assert(hasid(b.cache@, x) ==> self.in_cache(self.n(), x)); }
    }
//@fn kd Kademlia::active_nodes
//@ spec
    requires self.wf(),
    ensures self.actives(res@), // [K02] [K03]
//@ closure 0 -> (v: &Vec<KNode>)
    ensures v == &b.active
//@ closure 1 -> (x: U256)
    ensures x == kn.id
//@ exit
    proof { self.lemma_disjoint(); lemma_flat_ids(self.buckets@, self.root_bucket.active@, res@, true); lemma_flat_each(self.buckets@, self.root_bucket.active@, res@, true); assert forall|x: U256| #[trigger] res@.contains(x) <==> self.active(x) by { self.lemma_in(x); } }
//@end
//@fn kd Kademlia::cache_nodes
//@ spec
    requires self.wf(),
    ensures forall|x: U256| #[trigger] res@.contains(x) <==> hasid(self.home(self.d(x)).cache@, x), // [K02]
//@ closure 0 -> (v: &Vec<KNode>)
    ensures v == &b.cache
//@ closure 1 -> (x: U256)
    ensures x == kn.id
//@ exit
    proof { lemma_flat_ids(self.buckets@, self.root_bucket.cache@, res@, false); assert forall|x: U256| #[trigger] res@.contains(x) <==> hasid(self.home(self.d(x)).cache@, x) by { self.lemma_in(x); } }
//@end
}
pub proof fn lemma_tick_depth(b: KBucket, a: KBucket)
    requires b.ticked(&a),
    ensures forall|d: int| #[trigger] a.at(d) ==> b.at(d), forall|d: int| #[trigger] a.from(d) ==> b.from(d),
{
    assert forall|i: int| 0 <= i < b.active@.len() implies exists|j: int| 0 <= j < a.active@.len() && (#[trigger] b.active@[i]).depth == (#[trigger] a.active@[j]).depth by {
        assert(a.was(b.active@[i]));
        let j = choose|j: int| 0 <= j < a.active@.len() && b.active@[i].later(#[trigger] &a.active@[j]);
        assert(a.active@[j].depth == b.active@[i].depth);
    }
    assert forall|i: int| 0 <= i < b.cache@.len() implies exists|j: int| 0 <= j < a.cache@.len() && (#[trigger] b.cache@[i]).depth == (#[trigger] a.cache@[j]).depth by {
        let n = b.cache@[i];
        assert(a.was_candidate(n));
        if a.cache@.contains(n) { let j = choose|j: int| 0 <= j < a.cache@.len() && a.cache@[j] == n; assert(a.cache@[j].depth == n.depth); }
        else { let j = choose|j: int| 0 <= j < a.cache@.len() && n.later(#[trigger] &a.cache@[j]); assert(a.cache@[j].depth == n.depth); }
    }
}
pub proof fn lemma_dying_known(b: KBucket, x: U256)
    requires b.dying(x) || b.asking(x),
    ensures b.known(x),
{
    let (a, c, n, m) = (b.active@, b.cache@, b.active@.len() as int, b.tried());
    if dead(a, n, b.config, x) { let i = choose|i: int| 0 <= i < n && (#[trigger] a[i]).id == x && a[i].dies(b.config); assert(a[i].id == x); }
    if dead(c, m, b.config, x) { let i = choose|i: int| 0 <= i < m && (#[trigger] c[i]).id == x && c[i].dies(b.config); assert(c[i].id == x); }
    if asked(a, n, b.config, x) { let i = choose|i: int| 0 <= i < n && (#[trigger] a[i]).id == x && a[i].asks(b.config); assert(a[i].id == x); }
    if asked(c, m, b.config, x) { let i = choose|i: int| 0 <= i < m && (#[trigger] c[i]).id == x && c[i].asks(b.config); assert(c[i].id == x); }
}
pub open spec fn part(b: KBucket, active: bool) -> Vec<KNode> { if active { b.active } else { b.cache } }
pub open spec fn in_part(b: Seq<KBucket>, id: U256, active: bool) -> bool { exists|i: int| 0 <= i < b.len() && hasid(part(#[trigger] b[i], active)@, id) }
pub open spec fn ids_in(f: Seq<&KNode>, x: U256) -> bool { exists|i: int| 0 <= i < f.len() && (#[trigger] f[i]).id == x }
pub proof fn lemma_flat(b: Seq<KBucket>, outs: Seq<&Vec<KNode>>, x: U256, active: bool)
    requires outs.len() == b.len(), forall|i: int| 0 <= i < b.len() ==> *(#[trigger] outs[i]) == part(b[i], active),
    ensures ids_in(flat_of(outs), x) <==> in_part(b, x, active),
    decreases b.len(),
{
    if b.len() > 0 {
        let n = b.len() - 1;
        let (p, q) = (flat_of(outs.drop_last()), refs(part(b[n], active)@));
        lemma_flat(b.drop_last(), outs.drop_last(), x, active);
        let f = flat_of(outs);
        assert(f == p + IntoIt::into_seq(&outs.last()));
        assert(IntoIt::into_seq(&outs.last()) == refs(outs[n]@));
        assert(f =~= p + q);
        if ids_in(p, x) { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).id == x; assert(f[i].id == x); }
        if hasid(part(b[n], active)@, x) { let i = choose|i: int| 0 <= i < part(b[n], active)@.len() && (#[trigger] part(b[n], active)@[i]).id == x; assert(f[i + p.len()].id == x); assert(hasid(part(b[n], active)@, x)); }
        if ids_in(f, x) { let i = choose|i: int| 0 <= i < f.len() && (#[trigger] f[i]).id == x; if i < p.len() { assert(p[i].id == x); } else { assert(part(b[n], active)@[i - p.len()].id == x); } }
        if in_part(b.drop_last(), x, active) { let i = choose|i: int| 0 <= i < n && hasid(part(#[trigger] b.drop_last()[i], active)@, x); assert(hasid(part(b[i], active)@, x)); }
        if in_part(b, x, active) { let i = choose|i: int| 0 <= i < b.len() && hasid(part(#[trigger] b[i], active)@, x); if i < n { assert(hasid(part(b.drop_last()[i], active)@, x)); } }
    } else { assert(flat_of(outs).len() == 0); }
}
pub open spec fn each_once(l: Seq<U256>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> l[i] != l[j] }
pub open spec fn disjoint(b: Seq<KBucket>, active: bool) -> bool { forall|i: int, j: int, x: U256| 0 <= i < j < b.len() && #[trigger] hasid(part(b[i], active)@, x) ==> !#[trigger] hasid(part(b[j], active)@, x) }
pub open spec fn all_once(b: Seq<KBucket>, active: bool) -> bool { forall|i: int| 0 <= i < b.len() ==> once(part(#[trigger] b[i], active)@) }
pub proof fn lemma_flat_once(b: Seq<KBucket>, outs: Seq<&Vec<KNode>>, active: bool)
    requires outs.len() == b.len(), forall|i: int| 0 <= i < b.len() ==> *(#[trigger] outs[i]) == part(b[i], active), disjoint(b, active), all_once(b, active),
    ensures forall|i: int, j: int| 0 <= i < j < flat_of(outs).len() ==> (#[trigger] flat_of(outs)[i]).id != (#[trigger] flat_of(outs)[j]).id,
    decreases b.len(),
{
    if b.len() > 0 {
        let n = b.len() - 1;
        let c = b.drop_last();
        let (p, q) = (flat_of(outs.drop_last()), refs(part(b[n], active)@));
        assert(disjoint(c, active)) by { assert forall|i: int, j: int, x: U256| 0 <= i < j < c.len() && #[trigger] hasid(part(c[i], active)@, x) implies !#[trigger] hasid(part(c[j], active)@, x) by { assert(hasid(part(b[i], active)@, x)); assert(!hasid(part(b[j], active)@, x)); } }
        assert forall|i: int| 0 <= i < c.len() implies once(part(#[trigger] c[i], active)@) by { assert(once(part(b[i], active)@)); }
        lemma_flat_once(c, outs.drop_last(), active);
        let f = flat_of(outs);
        assert(f == p + IntoIt::into_seq(&outs.last()));
        assert(IntoIt::into_seq(&outs.last()) == refs(outs[n]@));
        assert(f =~= p + q);
        assert(once(part(b[n], active)@));
        assert forall|i: int, j: int| 0 <= i < j < f.len() implies (#[trigger] f[i]).id != (#[trigger] f[j]).id by {
            if j < p.len() { assert(p[i].id != p[j].id); }
            else if i >= p.len() { assert(part(b[n], active)@[i - p.len()].id != part(b[n], active)@[j - p.len()].id); }
            else {
                let x = p[i].id;
                assert(ids_in(p, x));
                lemma_flat(c, outs.drop_last(), x, active);
                let k = choose|k: int| 0 <= k < n && hasid(part(#[trigger] c[k], active)@, x);
                assert(hasid(part(b[k], active)@, x));
                assert(part(b[n], active)@[j - p.len()].id == f[j].id);
                if f[j].id == x { assert(hasid(part(b[n], active)@, x)); }
            }
        }
    } else { assert(flat_of(outs).len() == 0); }
}
pub proof fn lemma_flat_each(b: Seq<KBucket>, r: Seq<KNode>, l: Seq<U256>, active: bool)
    requires exists|outs: Seq<&Vec<KNode>>| #![trigger flat_of(outs)] outs.len() == b.len() && (forall|i: int| 0 <= i < b.len() ==> *(#[trigger] outs[i]) == part(b[i], active))
        && l.len() == (flat_of(outs) + refs(r)).len() && forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]) == (flat_of(outs) + refs(r))[i].id,
        disjoint(b, active), all_once(b, active), once(r), forall|i: int, x: U256| 0 <= i < b.len() && #[trigger] hasid(part(b[i], active)@, x) ==> !hasid(r, x),
    ensures each_once(l),
{
    let outs = choose|outs: Seq<&Vec<KNode>>| #![trigger flat_of(outs)] outs.len() == b.len() && (forall|i: int| 0 <= i < b.len() ==> *(#[trigger] outs[i]) == part(b[i], active))
        && l.len() == (flat_of(outs) + refs(r)).len() && forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]) == (flat_of(outs) + refs(r))[i].id;
    let p = flat_of(outs); let f = p + refs(r);
    lemma_flat_once(b, outs, active);
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies l[i] != l[j] by {
        assert(l[i] == f[i].id && l[j] == f[j].id);
        if j < p.len() { assert(p[i].id != p[j].id); }
        else if i >= p.len() { assert(r[i - p.len()].id != r[j - p.len()].id); }
        else {
            let x = p[i].id;
            assert(ids_in(p, x));
            lemma_flat(b, outs, x, active);
            let k = choose|k: int| 0 <= k < b.len() && hasid(part(#[trigger] b[k], active)@, x);
            assert(hasid(part(b[k], active)@, x));
            if r[j - p.len()].id == x { assert(hasid(r, x)); }
        }
    }
}
pub proof fn lemma_flat_ids(b: Seq<KBucket>, r: Seq<KNode>, l: Seq<U256>, active: bool)
    requires exists|outs: Seq<&Vec<KNode>>| #![trigger flat_of(outs)] outs.len() == b.len() && (forall|i: int| 0 <= i < b.len() ==> *(#[trigger] outs[i]) == part(b[i], active))
        && l.len() == (flat_of(outs) + refs(r)).len() && forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]) == (flat_of(outs) + refs(r))[i].id,
    ensures forall|x: U256| #[trigger] l.contains(x) <==> in_part(b, x, active) || hasid(r, x),
{
    let outs = choose|outs: Seq<&Vec<KNode>>| #![trigger flat_of(outs)] outs.len() == b.len() && (forall|i: int| 0 <= i < b.len() ==> *(#[trigger] outs[i]) == part(b[i], active))
        && l.len() == (flat_of(outs) + refs(r)).len() && forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]) == (flat_of(outs) + refs(r))[i].id;
    let p = flat_of(outs); let f = p + refs(r);
    assert forall|x: U256| #[trigger] l.contains(x) <==> in_part(b, x, active) || hasid(r, x) by {
        lemma_flat(b, outs, x, active);
        if l.contains(x) { let i = choose|i: int| 0 <= i < l.len() && l[i] == x; if i < p.len() { assert(p[i].id == x); } else { assert(r[i - p.len()].id == x); } }
        if ids_in(p, x) { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).id == x; assert(f[i].id == x); assert(l[i] == x); }
        if hasid(r, x) { let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).id == x; assert(f[i + p.len()].id == x); assert(l[i + p.len()] == x); }
    }
}
}
