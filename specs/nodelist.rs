//@file ni flarch/src/nodeids.rs
verus! {
// ------------------------------------------------------------------ sets of nodes
//@struct ni NodeIDs
/// The items of s which are (or are not) in t, in their order.
pub open spec fn part(s: Seq<U256>, t: Seq<U256>, inside: bool) -> Seq<U256> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if t.contains(s.last()) == inside { part(s.drop_last(), t, inside).push(s.last()) } else { part(s.drop_last(), t, inside) }
}
pub proof fn lemma_part_step(s: Seq<U256>, t: Seq<U256>, inside: bool, i: int)
    requires 0 <= i < s.len(),
    ensures part(s.take(i + 1), t, inside) == if t.contains(s[i]) == inside { part(s.take(i), t, inside).push(s[i]) } else { part(s.take(i), t, inside) },
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    assert(s.take(i + 1).last() == s[i]);
}
/// Everything of s which is not there yet is put at the end, once.
pub open spec fn merged(o: Seq<U256>, s: Seq<U256>) -> Seq<U256> decreases s.len() {
    if s.len() == 0 { o } else { let m = merged(o, s.drop_last()); if m.contains(s.last()) { m } else { m.push(s.last()) } }
}
pub proof fn lemma_merged(o: Seq<U256>, s: Seq<U256>)
    ensures
        forall|x: U256| #[trigger] merged(o, s).contains(x) <==> o.contains(x) || s.contains(x), // [I03]
        no_dup(o) ==> no_dup(merged(o, s)), // [I03]
        (forall|x: U256| #[trigger] s.contains(x) ==> o.contains(x)) ==> merged(o, s) == o,
        merged(o, s).len() >= o.len() && merged(o, s).take(o.len() as int) == o, // [I03]
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last(); let m = merged(o, d);
        lemma_merged(o, d);
        assert(s =~= d.push(s.last()));
        assert forall|x: U256| #[trigger] merged(o, s).contains(x) <==> o.contains(x) || s.contains(x) by { lemma_push_contains(d, s.last(), x); lemma_push_contains(m, s.last(), x); assert(m.contains(x) <==> o.contains(x) || d.contains(x)); }
        if no_dup(o) && !m.contains(s.last()) { assert forall|i: int, j: int| 0 <= i < j < m.push(s.last()).len() implies m.push(s.last())[i] != m.push(s.last())[j] by { if j == m.len() { assert(m.contains(m[i])); } } }
        if forall|x: U256| #[trigger] s.contains(x) ==> o.contains(x) { assert(s.contains(s.last())) by { assert(s[s.len() - 1] == s.last()); } assert forall|x: U256| #[trigger] d.contains(x) implies o.contains(x) by { assert(s.contains(x)) by { lemma_push_contains(d, s.last(), x); } } }
        assert(merged(o, s).take(o.len() as int) =~= m.take(o.len() as int));
    } else { assert(o.take(o.len() as int) =~= o); }
}
/// What is in one of the two parts, and that nothing is lost or made up.
pub proof fn lemma_part(s: Seq<U256>, t: Seq<U256>, inside: bool)
    ensures
        forall|x: U256| #[trigger] part(s, t, inside).contains(x) <==> s.contains(x) && t.contains(x) == inside,
        part(s, t, true).len() + part(s, t, false).len() == s.len(),
        no_dup(s) ==> no_dup(part(s, t, inside)),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_part(d, t, inside);
        lemma_part(d, t, true);
        assert forall|x: U256| #[trigger] part(s, t, inside).contains(x) <==> s.contains(x) && t.contains(x) == inside by {
            assert(s =~= d.push(s.last()));
            lemma_push_contains(d, s.last(), x);
            lemma_push_contains(part(d, t, inside), s.last(), x);
        }
        if no_dup(s) {
            assert(no_dup(d)) by { assert forall|i: int, j: int| 0 <= i < j < d.len() implies d[i] != d[j] by { assert(s[i] != s[j]); } }
            let (p, q) = (part(s, t, inside), part(d, t, inside));
            assert forall|i: int, j: int| 0 <= i < j < p.len() implies p[i] != p[j] by {
                if j == p.len() - 1 && p.len() > q.len() {
                    if p[i] == p[j] {
                        assert(q[i] == s.last()); assert(q.contains(s.last())); assert(d.contains(s.last()));
                        let k = choose|k: int| 0 <= k < d.len() && d[k] == s.last();
                        assert(s[k] != s[s.len() - 1]);
                    }
                } else { assert(q[i] == p[i] && q[j] == p[j]); }
            }
        }
    }
}
pub open spec fn picks(s: Seq<U256>, fwd: Seq<int>, t: Seq<U256>, inside: bool) -> bool { forall|j: int| #![trigger s[j]] #![trigger fwd[j]] 0 <= j < s.len() ==> (fwd[j] >= 0) == (t.contains(s[j]) == inside) }
pub proof fn lemma_filt_part(s: Seq<U256>, r: Seq<U256>, fwd: Seq<int>, bwd: Seq<int>, t: Seq<U256>, inside: bool)
    requires filt(s, r, fwd, bwd), picks(s, fwd, t, inside),
    ensures r == part(s, t, inside),
    decreases s.len(),
{
    if s.len() == 0 { assert(r =~= Seq::<U256>::empty()); }
    else {
        let n = s.len() - 1;
        let d = s.drop_last();
        if fwd[n] >= 0 {
            let k = fwd[n];
            assert(bwd[k] == n);
            assert(k == r.len() - 1) by { if k < r.len() - 1 { assert(bwd[k] < bwd[k + 1]); assert(r[k + 1] == r[k + 1]); } }
            let (r2, f2, b2) = (r.drop_last(), fwd.drop_last(), bwd.drop_last());
            assert forall|i: int| #![trigger r2[i]] #![trigger b2[i]] 0 <= i < r2.len() implies 0 <= b2[i] < d.len() && d[b2[i]] == r2[i] && f2[b2[i]] == i by { assert(bwd[i] < bwd[k]); assert(s[bwd[i]] == r[i]); }
            assert forall|j: int| #![trigger d[j]] #![trigger f2[j]] 0 <= j < d.len() implies f2[j] < r2.len() && (f2[j] >= 0 ==> r2[f2[j]] == d[j] && b2[f2[j]] == j) by { assert(s[j] == d[j]); assert(fwd[j] < r.len()); if fwd[j] == k { assert(bwd[k] == j); } }
            assert(emb(d.len() as int, r2.len() as int, f2, b2)) by {
                assert forall|j: int| 0 <= j < d.len() implies (#[trigger] f2[j]) < r2.len() && (f2[j] >= 0 ==> b2[f2[j]] == j) by { assert(d[j] == s[j]); }
                if r2.len() > d.len() { lemma_inj(b2, d.len() as int); }
            }
            assert(filt(d, r2, f2, b2));
            assert(picks(d, f2, t, inside)) by { assert forall|j: int| #![trigger d[j]] #![trigger f2[j]] 0 <= j < d.len() implies (f2[j] >= 0) == (t.contains(d[j]) == inside) by { assert(s[j] == d[j]); } }
            lemma_filt_part(d, r2, f2, b2, t, inside);
            assert(r =~= r2.push(s.last()));
        } else {
            let f2 = fwd.drop_last();
            assert forall|i: int| #![trigger r[i]] #![trigger bwd[i]] 0 <= i < r.len() implies 0 <= bwd[i] < d.len() && d[bwd[i]] == r[i] && f2[bwd[i]] == i by { assert(s[bwd[i]] == r[i]); if bwd[i] == n { assert(fwd[n] == i); } }
            assert forall|j: int| #![trigger d[j]] #![trigger f2[j]] 0 <= j < d.len() implies f2[j] < r.len() && (f2[j] >= 0 ==> r[f2[j]] == d[j] && bwd[f2[j]] == j) by { assert(s[j] == d[j]); assert(fwd[j] < r.len()); }
            assert(emb(d.len() as int, r.len() as int, f2, bwd)) by {
                assert forall|i: int| 0 <= i < r.len() implies 0 <= (#[trigger] bwd[i]) < d.len() && f2[bwd[i]] == i by { assert(r[i] == r[i]); }
                assert forall|j: int| 0 <= j < d.len() implies (#[trigger] f2[j]) < r.len() && (f2[j] >= 0 ==> bwd[f2[j]] == j) by { assert(d[j] == s[j]); }
                if r.len() > d.len() { lemma_inj(bwd, d.len() as int); }
            }
            assert(filt(d, r, f2, bwd));
            assert(picks(d, f2, t, inside)) by { assert forall|j: int| #![trigger d[j]] #![trigger f2[j]] 0 <= j < d.len() implies (f2[j] >= 0) == (t.contains(d[j]) == inside) by { assert(s[j] == d[j]); } }
            lemma_filt_part(d, r, f2, bwd, t, inside);
        }
    }
}
/// An increasing sequence of positions below m has at most m of them.
pub proof fn lemma_inj(b: Seq<int>, m: int)
    requires increasing(b), m >= 0, forall|i: int| 0 <= i < b.len() ==> 0 <= (#[trigger] b[i]) < m,
    ensures b.len() <= m,
    decreases b.len(),
{
    if b.len() > 0 {
        let c = b.drop_last();
        assert forall|i: int| 0 <= i < c.len() implies 0 <= (#[trigger] c[i]) < m - 1 by { assert(b[i] < b[b.len() - 1]); }
        assert forall|i: int, j: int| 0 <= i < j < c.len() implies (#[trigger] c[i]) < (#[trigger] c[j]) by { assert(b[i] < b[j]); }
        assert(0 <= b[b.len() - 1] < m);
        lemma_inj(c, m - 1);
    }
}
/// `v[a..b].to_vec()`
#[verifier::external_body]
pub fn vx_sub(v: &Vec<U256>, a: usize, b: usize) -> (r: Vec<U256>) requires a <= b <= v@.len(), ensures r@ == v@.subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn vx_rnd() -> (r: U256) { unimplemented!() }
impl NodeIDs {
//@fn ni NodeIDs::new ret=r
//@ spec
    ensures r.0@.len() == nbr, // [I03]
//@ sub /NodeID::rnd\(\)/ => /vx_rnd()/
//@ loop 0
    invariant vx_it0.wf(), vx_it0.seq().len() == nbr, ret.0@.len() == vx_it0.pos(),
    decreases vx_it0.left(),
//@end
//@fn ni NodeIDs::empty ret=r
//@ spec
    ensures r.0@.len() == 0, // [I03]
//@end
//@fn ni NodeIDs::remove ret=r
//@ spec
    ensures
        r.0@ == part(old(self).0@, nodes.0@, exists), // [I03]
        final(self).0@ == part(old(self).0@, nodes.0@, !exists), // [I03]
//@ entry
    let ghost mut p: int = 0;
    let ghost s = self.0@;
    proof { assert(s.take(0) =~= Seq::<U256>::empty()); assert(part(s.take(0), nodes.0@, exists) =~= Seq::<U256>::empty()); assert(part(s.take(0), nodes.0@, !exists) =~= Seq::<U256>::empty()); assert(s =~= part(s.take(0), nodes.0@, !exists) + s.skip(0)); }
//@ loop 0
    invariant 0 <= p <= s.len(), s == old(self).0@, self.0@ == part(s.take(p), nodes.0@, !exists) + s.skip(p), i == part(s.take(p), nodes.0@, !exists).len(),
        ret@ == part(s.take(p), nodes.0@, exists),
    decreases s.len() - p,
//@ loopstart 0
    proof {
        lemma_part_step(s, nodes.0@, exists, p);
        lemma_part_step(s, nodes.0@, !exists, p);
        assert(self.0@[i as int] == s[p]);
    }
//@ loopend 0
    proof {
        assert(self.0@ =~= part(s.take(p + 1), nodes.0@, !exists) + s.skip(p + 1));
        p = p + 1;
    }
//@ afterloop 0
    proof { assert(s.take(p) =~= s); assert(self.0@ =~= part(s, nodes.0@, !exists)); }
//@end
//@fn ni NodeIDs::remove_missing ret=r
//@ spec
    ensures
        r.0@ == part(old(self).0@, nodes.0@, false), // [I03]
        final(self).0@ == part(old(self).0@, nodes.0@, true), // [I03]
//@end
//@fn ni NodeIDs::remove_existing ret=r
//@ spec
    ensures
        r.0@ == part(old(self).0@, nodes.0@, true), // [I03]
        final(self).0@ == part(old(self).0@, nodes.0@, false), // [I03]
//@end
//@fn ni NodeIDs::contains_any ret=r
//@ spec
    ensures r == exists|i: int| 0 <= i < self.0@.len() && other.0@.contains(#[trigger] self.0@[i]), // [I03]
//@ loop 0
    invariant vx_it0.wf(), vx_it0.seq() == refs(self.0@), forall|i: int| 0 <= i < vx_it0.pos() ==> !other.0@.contains(#[trigger] self.0@[i]),
    decreases vx_it0.left(),
//@ loop 1
    invariant vx_it1.wf(), vx_it1.seq() == refs(other.0@), forall|j: int| 0 <= j < vx_it1.pos() ==> *node != #[trigger] other.0@[j], 0 < vx_it0.pos() <= self.0@.len(), *node == self.0@[vx_it0.pos() - 1],
    decreases vx_it1.left(),
//@end
//@fn ni NodeIDs::contains_all ret=r
//@ spec
    ensures r == forall|j: int| 0 <= j < other.0@.len() ==> self.0@.contains(#[trigger] other.0@[j]), // [I03]
//@ loop 0
    invariant vx_it0.wf(), vx_it0.seq() == refs(other.0@), forall|j: int| 0 <= j < vx_it0.pos() ==> self.0@.contains(#[trigger] other.0@[j]),
    decreases vx_it0.left(),
//@end
//@fn ni NodeIDs::merge
//@ spec
    ensures final(self).0@ == merged(old(self).0@, other.0@), // [I03]
//@ entry
    let ghost s = other.0@;
//@ loop 0
    invariant vx_it0.wf(), vx_it0.seq() == s, self.0@ == merged(old(self).0@, s.take(vx_it0.pos())),
    decreases vx_it0.left(),
//@ loopstart 0
    proof { assert(s.take(vx_it0.pos()).drop_last() =~= s.take(vx_it0.pos() - 1)); assert(s.take(vx_it0.pos()).last() == s[vx_it0.pos() - 1]); }
//@ afterloop 0
    proof { assert(s.take(s.len() as int) =~= s); }
//@end
//@fn ni NodeIDs::slice ret=r
//@ spec
    requires from + len <= self.0@.len(), // otherwise slicing panics
    ensures r.0@ == self.0@.subrange(from as int, from + len), // [I03]
//@ entry
    proof { axiom_vec_len(self.0); }
//@ sub /self\.0\[from\.\.\(from \+ len\)\]\.vx_to_vec\(\)/ => /vx_sub(&self.0, from, from + len)/
//@end
}
}
