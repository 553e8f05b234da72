//@include prelude.rs
//@include ids.rs
//@include nodelist.rs
//@file nodes flmodules/src/random_connections/nodes.rs
//@sub /\.clone\(\)/ => /.dup()/
//@sub /self\.vx_contains\(/ => /self.contains(/
//@sub /self\s*\.vx_sorted\(/ => /self.sorted(/
//@sub /\.cmp\(/ => /.vx_ocmp(/
//@sub /\.splice\(\.\.(.*?), vec!\[\]\)/ => /.vx_cut(\1)/
verus! {
/// Every Clone of fledger is derived: a faithful copy.
pub trait Dup: Sized { fn dup(&self) -> (r: Self) ensures r == *self; }
impl<T> Dup for T { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
pub trait VxOCmp: Sized { spec fn less(&self, o: &Self) -> bool; fn vx_ocmp(&self, o: &Self) -> (r: Ordering) ensures r == if self.less(o) { Ordering::Less } else if o.less(self) { Ordering::Greater } else { Ordering::Equal }; }
impl VxOCmp for u32 { open spec fn less(&self, o: &Self) -> bool { *self < *o } #[verifier::external_body] fn vx_ocmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
//@struct nodes NodeTime
//@struct nodes Nodes
pub open spec fn ids_of(s: Seq<NodeTime>) -> Seq<U256> { Seq::new(s.len(), |i: int| s[i].id) }
/// f is what is left of o, in its order: the ones in nodes, or the ones not in nodes.
pub open spec fn left(o: Seq<NodeTime>, f: Seq<NodeTime>, nodes: Seq<U256>, inside: bool) -> bool { exists|fwd: Seq<int>, bwd: Seq<int>| #[trigger] filt(o, f, fwd, bwd) && left_by(o, fwd, nodes, inside) }
pub open spec fn left_by(o: Seq<NodeTime>, fwd: Seq<int>, nodes: Seq<U256>, inside: bool) -> bool { forall|j: int| #![trigger fwd[j]] 0 <= j < o.len() ==> (fwd[j] >= 0) == (nodes.contains(o[j].id) == inside) }
pub proof fn lemma_left_has(o: Seq<NodeTime>, f: Seq<NodeTime>, fwd: Seq<int>, bwd: Seq<int>, nodes: Seq<U256>, inside: bool, x: U256)
    requires filt(o, f, fwd, bwd), left_by(o, fwd, nodes, inside),
    ensures ids_of(f).contains(x) <==> ids_of(o).contains(x) && nodes.contains(x) == inside,
{
    if ids_of(f).contains(x) { let i = choose|i: int| 0 <= i < ids_of(f).len() && ids_of(f)[i] == x; let j = bwd[i]; assert(o[j] == f[i]); assert(fwd[j] >= 0); assert(ids_of(o)[j] == x); }
    if ids_of(o).contains(x) && nodes.contains(x) == inside { let j = choose|j: int| 0 <= j < ids_of(o).len() && ids_of(o)[j] == x; let i = fwd[j]; assert(i >= 0); assert(f[i] == o[j]); assert(ids_of(f)[i] == x); }
}
pub proof fn lemma_left_dup(o: Seq<NodeTime>, f: Seq<NodeTime>, fwd: Seq<int>, bwd: Seq<int>)
    requires filt(o, f, fwd, bwd), no_dup(ids_of(o)),
    ensures no_dup(ids_of(f)),
{
    assert forall|i: int, j: int| 0 <= i < j < ids_of(f).len() implies ids_of(f)[i] != ids_of(f)[j] by { let (a, b) = (bwd[i], bwd[j]); assert(a < b); assert(f[i] == o[a] && f[j] == o[b]); assert(ids_of(o)[a] != ids_of(o)[b]); }
}
pub proof fn lemma_left(o: Seq<NodeTime>, f: Seq<NodeTime>, nodes: Seq<U256>, inside: bool)
    requires left(o, f, nodes, inside),
    ensures
        forall|x: U256| #[trigger] ids_of(f).contains(x) <==> ids_of(o).contains(x) && nodes.contains(x) == inside,
        no_dup(ids_of(o)) ==> no_dup(ids_of(f)),
        f.len() <= o.len(),
        (forall|x: U256| #[trigger] nodes.contains(x) == inside || !ids_of(o).contains(x)) ==> f == o,
{
    let (fwd, bwd) = choose|fwd: Seq<int>, bwd: Seq<int>| #[trigger] filt(o, f, fwd, bwd) && left_by(o, fwd, nodes, inside);
    assert forall|x: U256| #[trigger] ids_of(f).contains(x) <==> ids_of(o).contains(x) && nodes.contains(x) == inside by { lemma_left_has(o, f, fwd, bwd, nodes, inside, x); }
    if no_dup(ids_of(o)) { lemma_left_dup(o, f, fwd, bwd); }
    if forall|x: U256| #[trigger] nodes.contains(x) == inside || !ids_of(o).contains(x) {
        assert forall|j: int| 0 <= j < o.len() implies (#[trigger] fwd[j]) >= 0 by { assert(ids_of(o)[j] == o[j].id); assert(ids_of(o).contains(o[j].id)); assert(nodes.contains(o[j].id) == inside); }
        lemma_all_kept(o, f, fwd, bwd);
    }
}
/// A filter which keeps everything changes nothing.
pub proof fn lemma_all_kept<T>(o: Seq<T>, f: Seq<T>, fwd: Seq<int>, bwd: Seq<int>)
    requires filt(o, f, fwd, bwd), forall|j: int| 0 <= j < o.len() ==> (#[trigger] fwd[j]) >= 0,
    ensures f == o,
{
    assert forall|j: int| 0 <= j < o.len() implies fwd[j] == j by { lemma_pos(o, f, fwd, bwd, j); }
    if f.len() < o.len() && o.len() > 0 { assert(fwd[o.len() - 1] == o.len() - 1); assert(false); }
    assert forall|j: int| 0 <= j < o.len() implies f[j] == o[j] by { assert(f[fwd[j]] == o[j]); }
    assert(f =~= o);
}
pub proof fn lemma_pos<T>(o: Seq<T>, f: Seq<T>, fwd: Seq<int>, bwd: Seq<int>, j: int)
    requires filt(o, f, fwd, bwd), forall|j: int| 0 <= j < o.len() ==> (#[trigger] fwd[j]) >= 0, 0 <= j < o.len(),
    ensures fwd[j] == j,
    decreases j,
{
    if j > 0 {
        lemma_pos(o, f, fwd, bwd, j - 1);
        if fwd[j] > j { let k = bwd[j]; assert(bwd[j - 1] == j - 1); assert(bwd[j - 1] < bwd[j]); assert(bwd[j] < bwd[fwd[j]]); assert(false); }
        if fwd[j] < j { assert(bwd[fwd[j]] == j); assert(fwd[j] <= j - 1); if fwd[j] < j - 1 { assert(bwd[fwd[j]] < bwd[j - 1]); } assert(false); }
    } else if fwd[0] > 0 { assert(bwd[0] < bwd[fwd[0]]); assert(false); }
}
pub fn vx_min2(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
/// New ones are put at the end, those which are there already are left alone.
pub open spec fn grown(o: Seq<NodeTime>, f: Seq<NodeTime>, nodes: Seq<U256>) -> bool {
    f.len() == o.len() + part(nodes, ids_of(o), false).len() && f.take(o.len() as int) == o
    && forall|i: int| o.len() <= i < f.len() ==> (#[trigger] f[i]) == (NodeTime { id: part(nodes, ids_of(o), false)[i - o.len()], ticks: 0 })
}
pub proof fn lemma_grown(o: Seq<NodeTime>, f: Seq<NodeTime>, nodes: Seq<U256>)
    requires grown(o, f, nodes),
    ensures
        forall|x: U256| #[trigger] ids_of(f).contains(x) <==> ids_of(o).contains(x) || nodes.contains(x),
        no_dup(ids_of(o)) && no_dup(nodes) ==> no_dup(ids_of(f)),
        o.len() <= f.len() <= o.len() + nodes.len(),
        (forall|x: U256| #[trigger] nodes.contains(x) ==> !ids_of(o).contains(x)) ==> f.len() == o.len() + nodes.len(),
{
    let p = part(nodes, ids_of(o), false);
    lemma_part(nodes, ids_of(o), false);
    lemma_part(nodes, ids_of(o), true);
    assert(ids_of(f) =~= ids_of(o) + p) by { assert forall|i: int| 0 <= i < f.len() implies ids_of(f)[i] == (ids_of(o) + p)[i] by { if i < o.len() { assert(f.take(o.len() as int)[i] == f[i]); } } }
    assert forall|x: U256| #[trigger] ids_of(f).contains(x) <==> ids_of(o).contains(x) || nodes.contains(x) by {
        if ids_of(o).contains(x) { let i = choose|i: int| 0 <= i < o.len() && ids_of(o)[i] == x; assert(ids_of(f)[i] == x); }
        if p.contains(x) { let i = choose|i: int| 0 <= i < p.len() && p[i] == x; assert(ids_of(f)[o.len() + i] == x); }
        if ids_of(f).contains(x) { let i = choose|i: int| 0 <= i < f.len() && ids_of(f)[i] == x; if i >= o.len() { assert(p[i - o.len()] == x); assert(p.contains(x)); } else { assert(ids_of(o)[i] == x); } }
    }
    if no_dup(ids_of(o)) && no_dup(nodes) {
        assert forall|i: int, j: int| 0 <= i < j < f.len() implies ids_of(f)[i] != ids_of(f)[j] by { if j >= o.len() && i < o.len() { assert(p.contains(p[j - o.len()])); assert(ids_of(o).contains(ids_of(o)[i])); } else if i >= o.len() { assert(p[i - o.len()] != p[j - o.len()]); } }
    }
    if forall|x: U256| #[trigger] nodes.contains(x) ==> !ids_of(o).contains(x) {
        if part(nodes, ids_of(o), true).len() > 0 { assert(part(nodes, ids_of(o), true).contains(part(nodes, ids_of(o), true)[0])); }
    }
}
pub open spec fn by_ticks(s: Seq<NodeTime>, rising: bool) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> if rising { s[i].ticks <= s[j].ticks } else { s[i].ticks >= s[j].ticks } }
pub open spec fn same_nodes(o: Seq<NodeTime>, t: Seq<NodeTime>) -> bool { exists|fwd: Seq<int>, bwd: Seq<int>| #[trigger] reord(o, t, fwd, bwd) }
/// Some node x of s has as many ticks.
pub open spec fn aged(s: Seq<NodeTime>, x: U256, ticks: u32) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).id == x && s[i].ticks >= ticks }
pub open spec fn all_aged(s: Seq<NodeTime>, r: Seq<U256>, ticks: u32) -> bool { (forall|x: U256| #[trigger] r.contains(x) <==> aged(s, x, ticks)) && (no_dup(ids_of(s)) ==> no_dup(r)) }
pub proof fn lemma_same_aged(o: Seq<NodeTime>, t: Seq<NodeTime>, fwd: Seq<int>, bwd: Seq<int>, x: U256, k: u32)
    requires reord(o, t, fwd, bwd),
    ensures aged(t, x, k) <==> aged(o, x, k),
{
    if aged(t, x, k) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).id == x && t[i].ticks >= k; let j = bwd[i]; assert(o[j] == t[i]); }
    if aged(o, x, k) { let j = choose|j: int| 0 <= j < o.len() && (#[trigger] o[j]).id == x && o[j].ticks >= k; let i = fwd[j]; assert(t[i] == o[j]); }
}
pub proof fn lemma_same_dup(o: Seq<NodeTime>, t: Seq<NodeTime>, fwd: Seq<int>, bwd: Seq<int>)
    requires reord(o, t, fwd, bwd), no_dup(ids_of(o)),
    ensures no_dup(ids_of(t)),
{
    assert forall|i: int, j: int| 0 <= i < j < ids_of(t).len() implies ids_of(t)[i] != ids_of(t)[j] by {
        let (a, b) = (bwd[i], bwd[j]);
        assert(t[i] == o[a] && t[j] == o[b]); assert(fwd[a] == i && fwd[b] == j); assert(a != b);
        if a < b { assert(ids_of(o)[a] != ids_of(o)[b]); } else { assert(ids_of(o)[b] != ids_of(o)[a]); }
    }
}
pub proof fn lemma_same_nodes(o: Seq<NodeTime>, t: Seq<NodeTime>)
    requires same_nodes(o, t),
    ensures t.len() == o.len(), no_dup(ids_of(o)) ==> no_dup(ids_of(t)), forall|x: U256, k: u32| #[trigger] aged(t, x, k) <==> aged(o, x, k), forall|x: U256| #[trigger] ids_of(t).contains(x) <==> ids_of(o).contains(x),
{
    let (fwd, bwd) = choose|fwd: Seq<int>, bwd: Seq<int>| #[trigger] reord(o, t, fwd, bwd);
    if no_dup(ids_of(o)) { lemma_same_dup(o, t, fwd, bwd); }
    assert forall|x: U256, k: u32| #[trigger] aged(t, x, k) <==> aged(o, x, k) by { lemma_same_aged(o, t, fwd, bwd, x, k); }
    assert forall|x: U256| #[trigger] ids_of(t).contains(x) <==> ids_of(o).contains(x) by {
        lemma_aged_0(o, x); lemma_aged_0(t, x);
        lemma_same_aged(o, t, fwd, bwd, x, 0);
    }
}
pub proof fn lemma_aged_0(s: Seq<NodeTime>, x: U256)
    ensures aged(s, x, 0) <==> ids_of(s).contains(x),
{
    if aged(s, x, 0) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).id == x && s[i].ticks >= 0; assert(ids_of(s)[i] == x); }
    if ids_of(s).contains(x) { let i = choose|i: int| 0 <= i < ids_of(s).len() && ids_of(s)[i] == x; assert(s[i].id == x); }
}
pub open spec fn is_ids(r: Seq<U256>, s: Seq<NodeTime>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]) == s[i].id }
pub open spec fn split_at(t: Seq<NodeTime>, n: int, ticks: u32) -> bool {
    &&& 0 <= n <= t.len() && (n < t.len() ==> refs(t)[n].ticks < ticks)
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] refs(t).take(n)[i]).ticks >= ticks
}
pub open spec fn refs_ids(r: Seq<U256>, s: Seq<&NodeTime>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]) == s[i].id }
pub proof fn lemma_aged(o: Seq<NodeTime>, t: Seq<NodeTime>, r: Seq<U256>, n: int, ticks: u32)
    requires same_nodes(o, t), by_ticks(t, false), split_at(t, n, ticks), refs_ids(r, refs(t).take(n)),
    ensures all_aged(o, r, ticks),
{
    lemma_same_nodes(o, t);
    assert(forall|i: int| 0 <= i < n ==> (#[trigger] t[i]) == *refs(t).take(n)[i]);
    assert forall|x: U256| #[trigger] r.contains(x) <==> aged(o, x, ticks) by {
        assert(aged(o, x, ticks) <==> aged(t, x, ticks));
        if r.contains(x) { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; assert(refs(t).take(n)[i].id == x); assert(t[i].id == x && t[i].ticks >= ticks); }
        if aged(t, x, ticks) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).id == x && t[i].ticks >= ticks; assert(i < n) by { if i >= n { assert(refs(t)[n].ticks < ticks); if i > n { assert(t[n].ticks >= t[i].ticks); } } } assert(refs(t).take(n)[i].id == x); assert(r[i] == x); }
    }
    if no_dup(ids_of(o)) { assert forall|i: int, j: int| 0 <= i < j < r.len() implies r[i] != r[j] by { assert(ids_of(t)[i] != ids_of(t)[j]); assert(r[i] == refs(t).take(n)[i].id); assert(r[j] == refs(t).take(n)[j].id); } }
}
/// The n oldest (or newest) are taken out.
pub open spec fn cut(o: Seq<NodeTime>, f: Seq<NodeTime>, r: Seq<U256>, n: int, rising: bool) -> bool {
    exists|t: Seq<NodeTime>| #[trigger] same_nodes(o, t) && by_ticks(t, rising) && cut_at(t, f, r, if n <= o.len() { n } else { o.len() as int })
}
pub open spec fn cut_at(t: Seq<NodeTime>, f: Seq<NodeTime>, r: Seq<U256>, m: int) -> bool { 0 <= m <= t.len() && is_ids(r, t.take(m)) && f == t.skip(m) }
pub proof fn lemma_reord(o: Seq<NodeTime>) ensures forall|t: Seq<NodeTime>, fwd: Seq<int>, bwd: Seq<int>| #[trigger] reord(o, t, fwd, bwd) ==> same_nodes(o, t) && t.len() == o.len() {}
pub proof fn lemma_reord_at<T>(o: Seq<T>, t: Seq<T>, fwd: Seq<int>, bwd: Seq<int>, k: int)
    requires reord(o, t, fwd, bwd), 0 <= k < o.len(),
    ensures t.len() == o.len(), fwd.len() == o.len(), bwd.len() == o.len(), 0 <= bwd[k] < o.len(), fwd[bwd[k]] == k, o[bwd[k]] == t[k], 0 <= fwd[k] < o.len(), bwd[fwd[k]] == k, t[fwd[k]] == o[k],
{}
pub proof fn lemma_reord_mk<T>(o: Seq<T>, t: Seq<T>, fwd: Seq<int>, bwd: Seq<int>)
    requires t.len() == o.len(), fwd.len() == o.len(), bwd.len() == o.len(),
        forall|i: int| 0 <= i < o.len() ==> 0 <= (#[trigger] bwd[i]) < o.len() && fwd[bwd[i]] == i && o[bwd[i]] == t[i],
        forall|j: int| 0 <= j < o.len() ==> 0 <= (#[trigger] fwd[j]) < o.len() && bwd[fwd[j]] == j && t[fwd[j]] == o[j],
    ensures reord(o, t, fwd, bwd),
{}
pub proof fn lemma_reverse(o: Seq<NodeTime>, t: Seq<NodeTime>)
    requires same_nodes(o, t), by_ticks(t, true),
    ensures same_nodes(o, t.reverse()), by_ticks(t.reverse(), false),
{
    hide(reord);
    let (fwd, bwd) = choose|fwd: Seq<int>, bwd: Seq<int>| #[trigger] reord(o, t, fwd, bwd);
    let n = o.len();
    let (f2, b2, t2) = (Seq::new(n, |i: int| n - 1 - fwd[i]), Seq::new(n, |i: int| bwd[n - 1 - i]), t.reverse());
    lemma_same_nodes(o, t);
    assert forall|i: int| 0 <= i < n implies 0 <= (#[trigger] b2[i]) < n && f2[b2[i]] == i && o[b2[i]] == t2[i] by { lemma_reord_at(o, t, fwd, bwd, n - 1 - i); }
    assert forall|j: int| 0 <= j < n implies 0 <= (#[trigger] f2[j]) < n && b2[f2[j]] == j && t2[f2[j]] == o[j] by { lemma_reord_at(o, t, fwd, bwd, j); }
    lemma_reord_mk(o, t2, f2, b2);
    assert forall|i: int, j: int| #![trigger t2[i], t2[j]] 0 <= i < j < t2.len() implies t2[i].ticks >= t2[j].ticks by { assert(t2[i] == t[n - 1 - i] && t2[j] == t[n - 1 - j]); }
}
pub proof fn lemma_reversed(o: Seq<NodeTime>)
    ensures forall|t: Seq<NodeTime>| same_nodes(o, t) && by_ticks(t, true) ==> same_nodes(o, #[trigger] t.reverse()) && by_ticks(t.reverse(), false),
{
    assert forall|t: Seq<NodeTime>| same_nodes(o, t) && by_ticks(t, true) implies same_nodes(o, #[trigger] t.reverse()) && by_ticks(t.reverse(), false) by { lemma_reverse(o, t); }
}
impl Nodes {
    pub open spec fn ids(&self) -> Seq<U256> { ids_of(self.0@) }
    pub open spec fn has(&self, x: U256) -> bool { self.ids().contains(x) }
//@fn nodes Nodes::new
//@ spec
    ensures res.0@.len() == 0,
//@end
//@fn nodes Nodes::get_nodes
//@ spec
    ensures res.0@ == self.ids(), // [R01]
//@ closure 0 -> (r: U256) ensures r == n.id
//@ entry
    assert forall|r: Seq<U256>| r.len() == self.0@.len() && (forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]) == self.0@[i].id) implies r == #[trigger] (r + ids_of(self.0@)).take(r.len() as int) && r == ids_of(self.0@) by { assert(r =~= ids_of(self.0@)); assert(r =~= (r + ids_of(self.0@)).take(r.len() as int)); }
//@end
//@fn nodes Nodes::remove_missing
//@ spec
    ensures res.0@ == part(old(self).ids(), nodes.0@, false), // [R01]
        left(old(self).0@, final(self).0@, part(old(self).ids(), nodes.0@, false), false), // [R01]
//@ closure 0 -> (r: bool) ensures r == !removed.0@.contains(nt.id)
//@end
//@fn nodes Nodes::remove
//@ spec
    ensures left(old(self).0@, final(self).0@, nodes.0@, false), // [R01]
//@ closure 0 -> (r: bool) ensures r == !nodes.0@.contains(nt.id)
//@end
//@fn nodes Nodes::contains
//@ spec
    ensures res == self.has(*node), // [R01]
//@end
//@fn nodes Nodes::add_new
//@ spec
    ensures grown(old(self).0@, final(self).0@, nodes@), // [R01]
//@ closure 0 -> (r: bool) ensures r == !self.ids().contains(*n)
//@ closure 1 -> (r: NodeTime) ensures r == (NodeTime { id: *n, ticks: 0 })
//@ entry
    proof {
        let (s, t) = (nodes@, self.ids());
        assert forall|r: Seq<U256>, fwd: Seq<int>, bwd: Seq<int>| #[trigger] filt(s, r, fwd, bwd) && picks(s, fwd, t, false) implies r == part(s, t, false) by { lemma_filt_part(s, r, fwd, bwd, t, false); }
        assert forall|fwd: Seq<int>| (forall|j: int| #![trigger s[j]] #![trigger fwd[j]] 0 <= j < s.len() ==> (fwd[j] >= 0) == !t.contains(s[j])) implies #[trigger] picks(s, fwd, t, false) by {}
    }
    let ghost o = self.0@;
//@ sub /let mut nts = / => /let mut nts: Vec<NodeTime> = /
//@ exit
    proof { assert(self.0@.take(o.len() as int) =~= o); }
//@end
//@fn nodes Nodes::remove_oldest_n
//@ spec
    ensures cut(old(self).0@, final(self).0@, res.0@, n as int, false), // [R02]
//@ closure 0 -> (r: Ordering) ensures r == if b.ticks < a.ticks { Ordering::Less } else if a.ticks < b.ticks { Ordering::Greater } else { Ordering::Equal }
//@ closure 1 -> (r: U256) ensures r == n.id
//@ sub /\bmin\(/ => /vx_min2(/
//@ entry
    hide(reord);
    proof {
        lemma_reord(self.0@);
    }
//@end
//@fn nodes Nodes::remove_newest_n
//@ spec
    ensures cut(old(self).0@, final(self).0@, res.0@, n as int, true), // [R02]
//@ closure 0 -> (r: Ordering) ensures r == if a.ticks < b.ticks { Ordering::Less } else if b.ticks < a.ticks { Ordering::Greater } else { Ordering::Equal }
//@ closure 1 -> (r: U256) ensures r == n.id
//@ sub /\bmin\(/ => /vx_min2(/
//@ entry
    hide(reord);
    proof { lemma_reord(self.0@); }
//@end
//@fn nodes Nodes::keep_newest_n
//@ spec
    ensures if old(self).0@.len() > n { cut(old(self).0@, final(self).0@, res.0@, old(self).0@.len() - n, false) } else { *final(self) == *old(self) && res.0@.len() == 0 }, // [R02]
//@end
//@fn nodes Nodes::keep_oldest_n
//@ spec
    ensures if old(self).0@.len() > n { cut(old(self).0@, final(self).0@, res.0@, old(self).0@.len() - n, true) } else { *final(self) == *old(self) && res.0@.len() == 0 }, // [R02]
//@end
//@fn nodes Nodes::sorted
//@ spec
    ensures same_nodes(self.0@, res.0@) && by_ticks(res.0@, rising), // [R02]
//@ closure 0 -> (r: Ordering) ensures r == if a.ticks < b.ticks { Ordering::Less } else if b.ticks < a.ticks { Ordering::Greater } else { Ordering::Equal }
//@ entry
    proof { lemma_reord(self.0@); lemma_reversed(self.0@); }
//@end
//@fn nodes Nodes::oldest_ticks
//@ spec
    ensures all_aged(self.0@, res.0@, ticks), // [R02]
//@ closure 0 -> (r: bool) ensures r == (n.ticks >= ticks)
//@ closure 1 -> (r: U256) ensures r == n.id
//@ entry
    proof {
        assert forall|t: Seq<NodeTime>, n: int, r: Seq<U256>| #![trigger refs(t).take(n), all_aged(self.0@, r, ticks)] same_nodes(self.0@, t) && by_ticks(t, false) && split_at(t, n, ticks) && refs_ids(r, refs(t).take(n)) implies all_aged(self.0@, r, ticks) by { lemma_aged(self.0@, t, r, n, ticks); }
    }
//@end
//@fn nodes Nodes::remove_oldest_ticks
//@ spec
    ensures all_aged(old(self).0@, res.0@, ticks), left(old(self).0@, final(self).0@, res.0@, false), // [R02]
//@end
//@fn nodes Nodes::tick
//@ spec
    requires forall|i: int| 0 <= i < old(self).0@.len() ==> (#[trigger] old(self).0@[i]).ticks < u32::MAX,
    ensures final(self).0@.len() == old(self).0@.len(), forall|i: int| 0 <= i < final(self).0@.len() ==> (#[trigger] final(self).0@[i]) == (NodeTime { id: old(self).0@[i].id, ticks: (old(self).0@[i].ticks + 1) as u32 }), // [R02]
//@ entry
    let ghost s = self.0@;
//@ beforeloop 0
    let ghost q = vx_it0.seq();
//@ loop 0
    invariant vx_it0.wf(), vx_it0.seq() == q, q.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).ticks < u32::MAX,
        forall|i: int| 0 <= i < s.len() ==> *(#[trigger] vx_it0.seq()[i]) == s[i],
        forall|i: int| 0 <= i < vx_it0.pos() ==> *final(#[trigger] vx_it0.seq()[i]) == (NodeTime { id: s[i].id, ticks: (s[i].ticks + 1) as u32 }),
    decreases vx_it0.left(),
//@ loopstart 0
    assert(s[vx_it0.pos() - 1].ticks < u32::MAX);
//@end
}
}
