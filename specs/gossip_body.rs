//@include prelude.rs
//@include ids.rs
//@include sha.rs
//@file core flmodules/src/gossip_events/core.rs
verus! {
// ------------------------------------------------------------------ what is trusted here
/// Every Clone of fledger is derived: a faithful copy.
pub trait Dup: Sized { fn dup(&self) -> (r: Self) ensures r == *self; }
impl<T> Dup for T { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
impl VxBytes for U256 { open spec fn bv(&self) -> Seq<u8> { self.0@ } }
/// `i64::to_le_bytes`
pub uninterp spec fn le64(x: i64) -> Seq<u8>;
pub axiom fn axiom_le64(x: i64, y: i64) ensures le64(x).len() == 8, le64(x) == le64(y) ==> x == y;
#[verifier::external_body]
pub fn vx_le64(x: i64) -> (r: Vec<u8>) ensures r@ == le64(x) { unimplemented!() }
/// The derived Debug of Category.
#[verifier::external_body]
pub fn vx_debug(c: &Category) -> (r: String) ensures r@ == cat_name(*c) { unimplemented!() }
pub open spec fn cat_name(c: Category) -> Seq<char> { match c { Category::TextMessage => "TextMessage"@, Category::NodeInfo => "NodeInfo"@ } }
/// The first byte of an ASCII text is its first character.
pub axiom fn axiom_ascii(s: Seq<char>) ensures s.len() > 0 && (s[0] as u32) < 128 ==> utf8(s).len() > 0 && utf8(s)[0] == s[0] as u8;
pub uninterp spec fn id_of(b: Seq<u8>) -> U256;
pub axiom fn axiom_id_of(b: Seq<u8>, x: [u8; 32]) ensures x@ == sha(b) ==> id_of(b) == U256(x);
impl Sha256 {
    #[verifier::external_body]
    pub fn vx_id(self) -> (r: U256) ensures r == id_of(self@), r.0@ == sha(self@) { unimplemented!() }
}
pub axiom fn axiom_id_sha(b: Seq<u8>) ensures id_of(b).0@ == sha(b);
pub trait VxPCmp: Sized { spec fn less(&self, o: &Self) -> bool; fn vx_pcmp(&self, o: &Self) -> (r: Option<Ordering>) ensures r == Some(if self.less(o) { Ordering::Less } else if o.less(self) { Ordering::Greater } else { Ordering::Equal }); }
impl VxPCmp for i64 { open spec fn less(&self, o: &Self) -> bool { *self < *o } #[verifier::external_body] fn vx_pcmp(&self, o: &Self) -> (r: Option<Ordering>) { unimplemented!() } }

// ------------------------------------------------------------------ copied types
//@enum core Category derive=PartialEq,Eq,Structural,Clone,Copy
//@struct core CategoryConfig
//@struct core Event
//@struct core Events
//@struct core EventsStorage

// ------------------------------------------------------------------ abstract view
pub open spec fn ev_bytes(e: Event) -> Seq<u8> { utf8(cat_name(e.category)) + e.src.0@ + le64(e.created) + utf8(e.msg@) }
pub open spec fn ev_id(e: Event) -> U256 { id_of(ev_bytes(e)) }
pub proof fn lemma_event_id(a: Event, b: Event)
    requires ev_id(a) == ev_id(b),
    ensures a.category == b.category, a.src == b.src, a.created == b.created, a.msg@ == b.msg@, // [G02]
{
    axiom_id_sha(ev_bytes(a)); axiom_id_sha(ev_bytes(b)); axiom_sha(ev_bytes(a), ev_bytes(b));
    let (x, y) = (ev_bytes(a), ev_bytes(b));
    reveal_strlit("TextMessage"); reveal_strlit("NodeInfo");
    axiom_ascii(cat_name(a.category)); axiom_ascii(cat_name(b.category));
    let n = utf8(cat_name(a.category)).len() as int;
    assert(x[0] == utf8(cat_name(a.category))[0] && y[0] == utf8(cat_name(b.category))[0]);
    assert("TextMessage"@[0] == 'T' && "NodeInfo"@[0] == 'N');
    assert(a.category == b.category);
    axiom_le64(a.created, b.created);axiom_le64(b.created, a.created);
    assert(x.subrange(n, n + 32) =~= a.src.0@); assert(y.subrange(n, n + 32) =~= b.src.0@);
    assert(a.src.0 =~= b.src.0);
    assert(x.subrange(n + 32, n + 40) =~= le64(a.created)); assert(y.subrange(n + 32, n + 40) =~= le64(b.created));
    assert(x.skip(n + 40) =~= utf8(a.msg@)); assert(y.skip(n + 40) =~= utf8(b.msg@));
    axiom_utf8(a.msg@, b.msg@);
}
pub type Held = Map<U256, Event>;
/// b is a without the oldest ones over the limit.
pub open spec fn newest(a: Held, b: Held, max: int) -> bool {
    &&& forall|k: U256| #[trigger] b.dom().contains(k) ==> a.dom().contains(k) && b[k] == a[k]
    &&& b.dom().len() == if a.dom().len() <= max { a.dom().len() as int } else { max }
    &&& forall|k: U256, d: U256| (#[trigger] b.dom().contains(k)) && (#[trigger] a.dom().contains(d)) && !b.dom().contains(d) ==> a[k].created >= a[d].created
}
impl Events {
    pub open spec fn max(&self) -> int { self.config.max_events as int }
    pub open spec fn ids_ok(&self) -> bool { forall|k: U256| #[trigger] self.events@.dom().contains(k) ==> ev_id(self.events@[k]) == k }
    pub open spec fn one_each(&self) -> bool {
        self.config.unique ==> forall|k: U256, l: U256| (#[trigger] self.events@.dom().contains(k)) && (#[trigger] self.events@.dom().contains(l)) && self.events@[k].src == self.events@[l].src ==> k == l
    }
    pub open spec fn bounded(&self) -> bool { self.events@.dom().len() <= self.max() }
    pub open spec fn all_of(&self, c: Category) -> bool { forall|k: U256| #[trigger] self.events@.dom().contains(k) ==> self.events@[k].category == c }
    pub open spec fn wf(&self) -> bool { self.ids_ok() && self.one_each() && self.bounded() }
    /// The event which is there for the node already.
    pub open spec fn has_src(&self, id: U256, src: U256) -> bool { self.events@.dom().contains(id) && self.events@[id].src == src }
    /// There is something newer of the same node, and only one is kept.
    pub open spec fn outdated(&self, m: Event) -> bool { self.config.unique && exists|id: U256| #[trigger] self.has_src(id, m.src) && self.events@[id].created > m.created }
    /// What stays if m is taken in.
    pub open spec fn others(&self, m: Event) -> Held { if self.config.unique { self.events@.restrict(self.events@.dom().filter(|k: U256| self.events@[k].src != m.src)) } else { self.events@ } }
    #[verifier::opaque]
    pub open spec fn takes(&self, o: &Self, m: Event, r: bool) -> bool {
        &&& self.config == o.config
        &&& (o.events@.dom().contains(ev_id(m)) || o.outdated(m)) ==> !r && self.events@ == o.events@
        &&& !o.events@.dom().contains(ev_id(m)) && !o.outdated(m) ==> newest(o.others(m).insert(ev_id(m), m), self.events@, o.max()) && r == self.events@.dom().contains(ev_id(m))
    }
}
//@sub /\.clone\(\)/ => /.dup()/
impl Event {
//@fn core Event::get_id
//@ spec
    ensures res == ev_id(*self), // [G02]
//@ replace "format!("{:?}", self.category)"
    vx_debug(&self.category)
//@ sub /self\.created\.to_le_bytes\(\)/ => /vx_le64(self.created)/
//@ sub /Into::<\[u8; 32\]>::into\(id\.finalize\(\)\)\.into\(\)/ => /id.vx_id()/
//@ before "Into::<[u8; 32]>"
    assert(id@ =~= ev_bytes(*self));
//@end
}
pub proof fn lemma_take_push<T>(s: Seq<T>, p: int)
    requires 0 <= p < s.len(),
    ensures s.take(p + 1) == s.take(p).push(s[p]),
{ assert(s.take(p + 1) =~= s.take(p).push(s[p])); }
/// ids are the ones to drop: without repetition, as many as there are too many, none newer than any other.
pub open spec fn limited(a: Held, max: int, ids: Seq<U256>) -> bool {
    &&& no_dup(ids)
    &&& ids.len() == a.dom().len() - max
    &&& forall|i: int| 0 <= i < ids.len() ==> a.dom().contains(#[trigger] ids[i])
    &&& forall|k: U256, i: int| 0 <= i < ids.len() && (#[trigger] a.dom().contains(k)) && !ids.contains(k) ==> a[k].created >= a[#[trigger] ids[i]].created
}
/// What the chain in `limit` gives.
pub open spec fn by_age(a: Held, m: Seq<(&U256, i64)>, s: Seq<(&U256, i64)>, max: int, ids: Seq<U256>) -> bool {
    &&& enumerates(entries(a), a)
    &&& m.len() == entries(a).len() && forall|i: int| 0 <= i < m.len() ==> *(#[trigger] m[i]).0 == entries(a)[i].0 && m[i].1 == entries(a)[i].1.created
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].1 >= s[j].1
    &&& ids.len() == s.len() - max && forall|i: int| 0 <= i < ids.len() ==> (#[trigger] ids[i]) == *s[max + i].0
}
pub proof fn lemma_limit(a: Held, max: int, ids: Seq<U256>)
    requires 0 <= max < a.dom().len(), exists|m: Seq<(&U256, i64)>, s: Seq<(&U256, i64)>, fwd: Seq<int>, bwd: Seq<int>| #[trigger] reord(m, s, fwd, bwd) && by_age(a, m, s, max, ids),
    ensures limited(a, max, ids),
{
    let (m, s, fwd, bwd) = choose|m: Seq<(&U256, i64)>, s: Seq<(&U256, i64)>, fwd: Seq<int>, bwd: Seq<int>| #[trigger] reord(m, s, fwd, bwd) && by_age(a, m, s, max, ids);
    let e = entries(a);
    assert forall|i: int| 0 <= i < s.len() implies a.dom().contains(*(#[trigger] s[i]).0) && a[*s[i].0].created == s[i].1 && entry_pos(a, *s[i].0) == bwd[i] by { assert(m[bwd[i]] == s[i]); assert(e[bwd[i]].0 == *s[i].0); }
    assert forall|i: int, j: int| 0 <= i < j < ids.len() implies ids[i] != ids[j] by {
        assert(bwd[max + i] != bwd[max + j]) by { assert(fwd[bwd[max + i]] == max + i); }
        assert(ids[i] == *s[max + i].0 && ids[j] == *s[max + j].0);
    }
    assert forall|k: U256, i: int| 0 <= i < ids.len() && (#[trigger] a.dom().contains(k)) && !ids.contains(k) implies a[k].created >= a[#[trigger] ids[i]].created by {
        let p = entry_pos(a, k); let q = fwd[p];
        assert(e[p] == (k, a[k])); assert(m[p].1 == a[k].created); assert(s[q] == m[p]);
        if q >= max { assert(ids[q - max] == k); }
        assert(s[q].1 >= s[max + i].1);
    }
    assert forall|i: int| 0 <= i < ids.len() implies a.dom().contains(#[trigger] ids[i]) by { assert(ids[i] == *s[max + i].0); }
}
pub proof fn lemma_insert_unique(o: Events, m: Event)
    requires o.config.unique, o.one_each(),
    ensures
        forall|id: U256| #[trigger] o.has_src(id, m.src) ==> o.others(m) == o.events@.remove(id) && (o.outdated(m) <==> o.events@[id].created > m.created),
        (forall|id: U256| !#[trigger] o.has_src(id, m.src)) ==> o.others(m) == o.events@ && !o.outdated(m),
        enumerates(entries(o.events@), o.events@) ==> forall|id: U256| #[trigger] o.has_src(id, m.src) ==> entries(o.events@)[entry_pos(o.events@, id)] == (id, o.events@[id]) && 0 <= entry_pos(o.events@, id) < entries(o.events@).len(),
{
    assert forall|id: U256| #[trigger] o.has_src(id, m.src) implies o.others(m) == o.events@.remove(id) && (o.outdated(m) <==> o.events@[id].created > m.created) by {
        assert forall|k: U256| o.others(m).dom().contains(k) <==> o.events@.remove(id).dom().contains(k) by { if o.events@.dom().contains(k) && k != id { assert(o.events@[k].src != m.src); } }
        assert(o.others(m) =~= o.events@.remove(id));
        assert forall|k: U256| #[trigger] o.has_src(k, m.src) implies k == id by { assert(o.events@.dom().contains(k) && o.events@.dom().contains(id)); }
    }
    if forall|id: U256| !#[trigger] o.has_src(id, m.src) {
        assert forall|k: U256| o.events@.dom().contains(k) implies o.events@[k].src != m.src by { assert(!o.has_src(k, m.src)); }
        assert(o.others(m) =~= o.events@);
    }
}
pub proof fn lemma_takes(f: Events, o: Events, m: Event, r: bool)
    requires f.takes(&o, m, r), o.wf(),
    ensures f.wf(),
{
    reveal(Events::takes);
    if !o.events@.dom().contains(ev_id(m)) && !o.outdated(m) {
        let a = o.others(m).insert(ev_id(m), m);
        assert forall|k: U256| #[trigger] f.events@.dom().contains(k) implies ev_id(f.events@[k]) == k by { assert(a.dom().contains(k)); if k != ev_id(m) { assert(o.events@.dom().contains(k)); } }
        if f.config.unique {
            assert forall|k: U256, l: U256| (#[trigger] f.events@.dom().contains(k)) && (#[trigger] f.events@.dom().contains(l)) && f.events@[k].src == f.events@[l].src implies k == l by {
                assert(a.dom().contains(k) && a.dom().contains(l));
                if k != ev_id(m) { assert(o.events@.dom().contains(k)); }
                if l != ev_id(m) { assert(o.events@.dom().contains(l)); }
            }
        }
    }
}
pub open spec fn is_vals(vals: Seq<&Event>, m: Held) -> bool {
    enumerates(entries(m), m) && vals.len() == entries(m).len() && forall|i: int| 0 <= i < vals.len() ==> *(#[trigger] vals[i]) == entries(m)[i].1
}
pub open spec fn kept(vals: Seq<&Event>, fwd: Seq<int>, ids: Seq<U256>) -> bool { forall|j: int| 0 <= j < vals.len() ==> (fwd[j] >= 0 <==> ids.contains(ev_id(*(#[trigger] vals[j])))) }
pub open spec fn looked(s: Events, ids: Seq<U256>, r: Seq<&Event>, fwd: Seq<int>, bwd: Seq<int>) -> bool {
    &&& forall|j: int| #![trigger ids[j]] 0 <= j < ids.len() ==> if s.events@.dom().contains(ids[j]) { fwd[j] >= 0 && *r[fwd[j]] == s.events@[ids[j]] } else { fwd[j] < 0 }
    &&& forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> 0 <= bwd[i] < ids.len() && s.events@.dom().contains(ids[bwd[i]]) && *r[i] == s.events@[ids[bwd[i]]]
}
pub open spec fn at(r: Seq<&Event>, e: Event, i: int) -> bool { 0 <= i < r.len() && *r[i] == e }
pub open spec fn picked(s: Events, r: Seq<&Event>, ids: Seq<U256>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> s.holds(*(#[trigger] r[i])) && ids.contains(ev_id(*r[i]))
    &&& forall|e: Event| #[trigger] s.holds(e) && ids.contains(ev_id(e)) ==> exists|i: int| #[trigger] at(r, e, i)
}
pub proof fn lemma_picked(s: Events, vals: Seq<&Event>, r: Seq<&Event>, fwd: Seq<int>, bwd: Seq<int>, ids: Seq<U256>)
    requires filt(vals, r, fwd, bwd), is_vals(vals, s.events@), kept(vals, fwd, ids), s.ids_ok(),
    ensures picked(s, r, ids),
{
    assert forall|i: int| 0 <= i < r.len() implies s.holds(*(#[trigger] r[i])) && ids.contains(ev_id(*r[i])) by { let j = bwd[i]; assert(vals[j] == r[i]); assert(s.events@.dom().contains(entries(s.events@)[j].0)); }
    assert forall|e: Event| #[trigger] s.holds(e) && ids.contains(ev_id(e)) implies exists|i: int| #[trigger] at(r, e, i) by { let j = entry_pos(s.events@, ev_id(e)); assert(*vals[j] == e); assert(at(r, e, fwd[j])); }
}
pub proof fn lemma_looked(s: Events, r: Seq<&Event>, fwd: Seq<int>, bwd: Seq<int>, ids: Seq<U256>)
    requires emb(ids.len() as int, r.len() as int, fwd, bwd), looked(s, ids, r, fwd, bwd), s.ids_ok(),
    ensures picked(s, r, ids),
{
    assert forall|i: int| 0 <= i < r.len() implies s.holds(*(#[trigger] r[i])) && ids.contains(ev_id(*r[i])) by { assert(s.events@.dom().contains(ids[bwd[i]])); }
    assert forall|e: Event| #[trigger] s.holds(e) && ids.contains(ev_id(e)) implies exists|i: int| #[trigger] at(r, e, i) by { let j = choose|j: int| 0 <= j < ids.len() && ids[j] == ev_id(e); assert(ids[j] == ev_id(e)); assert(at(r, e, fwd[j])); }
}
impl Events {
    pub open spec fn holds(&self, e: Event) -> bool { self.events@.dom().contains(ev_id(e)) && self.events@[ev_id(e)] == e }
//@fn core Events::limit
//@ spec
    ensures newest(old(self).events@, final(self).events@, old(self).max()), final(self).config == old(self).config, // [G01]
//@ sub /partial_cmp/ => /vx_pcmp/
//@ closure 0 -> (r: (&U256, i64)) ensures r.0 == vx_p0.0 && r.1 == vx_p0.1.created
//@ closure 1 -> (o: Ordering) ensures o == if b.1 < a.1 { Ordering::Less } else if a.1 < b.1 { Ordering::Greater } else { Ordering::Equal }
//@ closure 2 -> (r: &U256) ensures r == vx_p0.0
//@ beforeloop 0
    let ghost a = self.events@; let ghost max = self.max(); let ghost cfg = self.config;
    proof { lemma_limit(a, max, ids@); }
//@ loop 0
    invariant vx_it0.wf(), vx_it0.seq() == ids@, self.config == cfg, limited(a, max, ids@),
        forall|k: U256| #[trigger] self.events@.dom().contains(k) <==> a.dom().contains(k) && !ids@.take(vx_it0.pos()).contains(k),
        forall|k: U256| #[trigger] self.events@.dom().contains(k) ==> self.events@[k] == a[k],
        self.events@.dom().len() == a.dom().len() - vx_it0.pos(),
    decreases vx_it0.left(),
//@ loopstart 0
    let ghost p = vx_it0.pos() - 1;
    proof {
        lemma_take_push(ids@, p);
        assert(a.dom().contains(ids@[p]));
        assert(!ids@.take(p).contains(id)) by { if ids@.take(p).contains(id) { let j = choose|j: int| 0 <= j < p && ids@.take(p)[j] == id; assert(ids@[j] == ids@[p]); } }
    }
//@ afterloop 0
    assert(ids@.take(vx_it0.pos()) =~= ids@);
//@end
//@fn core Events::insert_simple
//@ spec
    ensures newest(old(self).events@.insert(ev_id(msg), msg), final(self).events@, old(self).max()), final(self).config == old(self).config, // [G01]
        res == final(self).events@.dom().contains(ev_id(msg)), // [G01]
//@end
//@fn core Events::insert_unique
//@ spec
    requires old(self).config.unique, old(self).one_each(), !old(self).events@.dom().contains(ev_id(msg)),
    ensures final(self).takes(old(self), msg, res), // [G01] [G02]
//@ closure 0 header: |vx_p0: &(&U256, &Event)| -> (r: bool) ensures r == (vx_p0.1.src == msg.src)
//@ closure 1 header: |vx_p0: (&U256, &Event)| -> (r: (U256, Event)) ensures r == (*vx_p0.0, *vx_p0.1)
//@ entry
    proof { lemma_insert_unique(*self, msg); reveal(Events::takes); }
    let ghost o = *self;
//@ before "self.insert_simple(msg)"
    proof {
        if forall|id: U256| !#[trigger] o.has_src(id, msg.src) { } else { let id = choose|id: U256| #[trigger] o.has_src(id, msg.src); }
        assert(self.events@ == o.others(msg));
    }
//@end
//@fn core Events::insert
//@ spec
    requires old(self).one_each(),
    ensures final(self).takes(old(self), msg, res), // [G01] [G02]
        old(self).wf() ==> final(self).wf(), // [G01] [G02]
//@ entry
    let ghost o = *self;
    proof {
        reveal(Events::takes);
        assert forall|f: Events, r: bool| o.wf() && #[trigger] f.takes(&o, msg, r) implies f.wf() by { lemma_takes(f, o, msg, r); }
    }
//@end
//@fn core Events::get_events_by_ids
//@ spec
    requires self.ids_ok(),
    ensures forall|e: Event| #[trigger] res@.contains(e) <==> self.holds(e) && ids@.contains(ev_id(e)), // [G02]
        forall|i: int| 0 <= i < res@.len() ==> self.holds(#[trigger] res@[i]) && ids@.contains(ev_id(res@[i])), // [G02]
        forall|k: U256| #[trigger] self.events@.dom().contains(k) && ids@.contains(k) ==> res@.contains(self.events@[k]), // [G02]
//@ entry
    proof {
        assert forall|vals: Seq<&Event>, r: Seq<&Event>, fwd: Seq<int>, bwd: Seq<int>| #[trigger] filt(vals, r, fwd, bwd) && is_vals(vals, self.events@) && kept(vals, fwd, ids@) implies picked(*self, r, ids@) by { lemma_picked(*self, vals, r, fwd, bwd, ids@); }
        assert forall|r: Seq<&Event>, fwd: Seq<int>, bwd: Seq<int>| #[trigger] emb(ids@.len() as int, r.len() as int, fwd, bwd) && looked(*self, ids@, r, fwd, bwd) implies picked(*self, r, ids@) by { lemma_looked(*self, r, fwd, bwd, ids@); }
    }
//@ closure 0 -> (r: bool) ensures r == ids@.contains(ev_id(**vx_p0))
//@ closure 1 -> (r: Option<&Event>) ensures r == (if self.events@.dom().contains(*id) { Some(&self.events@[*id]) } else { None })
//@end
//@fn core Events::get_event
//@ spec
    requires self.ids_ok(),
    ensures res matches Some(e) ==> self.holds(e) && ev_id(e) == *id, res is None ==> !self.events@.dom().contains(*id), // [G02]
//@ sub /vec!\[\*id\]/ => /vx_vec1(*id)/
//@ entry
    assert(seq![*id][0] == *id);
    assert forall|x: U256| #[trigger] seq![*id].contains(x) <==> x == *id by {}
//@end
}
pub open spec fn is_cats(vals: Seq<&Events>, m: Map<Category, Events>) -> bool {
    enumerates(entries(m), m) && vals.len() == entries(m).len() && forall|i: int| 0 <= i < vals.len() ==> *(#[trigger] vals[i]) == entries(m)[i].1
}
pub open spec fn ids_from(r: Seq<U256>, m: Held) -> bool { forall|x: U256| #[trigger] r.contains(x) <==> m.dom().contains(x) }
pub open spec fn all_ids(outs: Seq<It<U256>>, m: Map<Category, Events>) -> bool { forall|i: int| 0 <= i < outs.len() ==> ids_from((#[trigger] outs[i])@, entries(m)[i].1.events@) }
pub open spec fn knows_all(s: EventsStorage, f: Seq<U256>) -> bool { forall|id: U256| #[trigger] f.contains(id) <==> s.knows(id) }
pub proof fn lemma_all_ids(s: EventsStorage, outs: Seq<It<U256>>)
    requires all_ids(outs, s.storage@), outs.len() == entries(s.storage@).len(),
    ensures knows_all(s, flat_of(outs)),
{
    axiom_entries(s.storage@);
    assert forall|id: U256| #[trigger] flat_of(outs).contains(id) <==> s.knows(id) by {
        lemma_flat_of(outs, id);
        if flat_of(outs).contains(id) { let i = choose|i: int| #[trigger] in_some(outs, id, i); assert(outs[i]@.contains(id)); assert(s.storage@.dom().contains(entries(s.storage@)[i].0)); }
        if s.knows(id) { let c = choose|c: Category| #[trigger] s.storage@.dom().contains(c) && s.storage@[c].events@.dom().contains(id); let i = entry_pos(s.storage@, c); assert(ids_from(outs[i]@, entries(s.storage@)[i].1.events@)); assert(in_some(outs, id, i)); }
    }
}
pub open spec fn evs_from(r: Seq<Event>, m: Events, ids: Seq<U256>) -> bool { forall|e: Event| #[trigger] r.contains(e) <==> m.holds(e) && ids.contains(ev_id(e)) }
pub open spec fn all_evs(outs: Seq<Vec<Event>>, m: Map<Category, Events>, ids: Seq<U256>) -> bool { forall|i: int| 0 <= i < outs.len() ==> evs_from((#[trigger] outs[i])@, entries(m)[i].1, ids) }
pub open spec fn has_all(s: EventsStorage, f: Seq<Event>, ids: Seq<U256>) -> bool { forall|e: Event| #[trigger] f.contains(e) <==> s.has(e) && ids.contains(ev_id(e)) }
pub proof fn lemma_all_evs(s: EventsStorage, outs: Seq<Vec<Event>>, ids: Seq<U256>)
    requires all_evs(outs, s.storage@, ids), outs.len() == entries(s.storage@).len(), s.wf(),
    ensures has_all(s, flat_of(outs), ids),
{
    axiom_entries(s.storage@);
    assert forall|e: Event| #[trigger] flat_of(outs).contains(e) <==> s.has(e) && ids.contains(ev_id(e)) by {
        lemma_flat_of(outs, e);
        if flat_of(outs).contains(e) { let i = choose|i: int| #[trigger] in_some(outs, e, i); assert(outs[i]@.contains(e)); assert(s.storage@.dom().contains(entries(s.storage@)[i].0)); }
        if s.has(e) && ids.contains(ev_id(e)) { let i = entry_pos(s.storage@, e.category); assert(evs_from(outs[i]@, entries(s.storage@)[i].1, ids)); assert(in_some(outs, e, i)); }
    }
}
impl EventsStorage {
    pub open spec fn wf(&self) -> bool {
        forall|c: Category| #[trigger] self.storage@.dom().contains(c) ==> self.storage@[c].wf() && self.storage@[c].all_of(c)
    }
    pub open spec fn knows(&self, id: U256) -> bool { exists|c: Category| #[trigger] self.storage@.dom().contains(c) && self.storage@[c].events@.dom().contains(id) }
    /// The event is stored.
    pub open spec fn has(&self, e: Event) -> bool { self.storage@.dom().contains(e.category) && self.storage@[e.category].holds(e) }
    pub open spec fn takes(&self, o: &Self, m: Event, r: bool) -> bool {
        if o.storage@.dom().contains(m.category) {
            self.storage@ == o.storage@.insert(m.category, self.storage@[m.category]) && self.storage@[m.category].takes(&o.storage@[m.category], m, r)
        } else { !r && self.storage@ == o.storage@ }
    }
    pub open spec fn both(&self) -> bool {
        &&& self.storage@.dom().contains(Category::TextMessage) && self.storage@.dom().contains(Category::NodeInfo)
        &&& self.storage@[Category::TextMessage].config == (CategoryConfig { unique: false, max_events: 50 })
        &&& self.storage@[Category::NodeInfo].config == (CategoryConfig { unique: true, max_events: 100 })
    }
//@fn core EventsStorage::new
//@ spec
    ensures res.wf(), res.both(), forall|id: U256| !#[trigger] res.knows(id), // [G01] [G02]
//@end
//@fn core EventsStorage::add_event
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).takes(old(self), msg, res), // [G01] [G02]
        old(self).both() ==> final(self).both(), // [G01] [G02]
//@ sub /self\.storage\.entry\(msg\.category\)\.and_modify\(\|msgs\| \{\s*(.*?);\s*\}\);/ => /if let Some(msgs) = self.storage.get_mut(&msg.category) { \1; }/
//@ entry
    let ghost o = *self;
    proof {
        assert forall|f: Events, r: bool| o.storage@.dom().contains(msg.category) && #[trigger] f.takes(&o.storage@[msg.category], msg, r) implies f.all_of(msg.category) && f.config == o.storage@[msg.category].config by { reveal(Events::takes); }
    }
//@end
//@fn core EventsStorage::event
//@ spec
    requires self.wf(),
    ensures res matches Some(e) ==> self.has(e) && ev_id(e) == *id, res is None ==> !self.knows(*id), // [G02]
//@ loop 0
    invariant vx_it0.wf(), self.wf(), is_cats(vx_it0.seq(), self.storage@),
        forall|i: int| 0 <= i < vx_it0.pos() ==> !(#[trigger] vx_it0.seq()[i]).events@.dom().contains(*id),
    ensures vx_it0.pos() == vx_it0.seq().len(),
    decreases vx_it0.left(),
//@ loopstart 0
    assert(self.storage@.dom().contains(entries(self.storage@)[vx_it0.pos() - 1].0));
//@ afterloop 0
    assert forall|c: Category| #[trigger] self.storage@.dom().contains(c) implies !self.storage@[c].events@.dom().contains(*id) by { assert(*vx_it0.seq()[entry_pos(self.storage@, c)] == self.storage@[c]); }
//@end
//@fn core EventsStorage::events
//@ spec
    requires self.wf(), self.storage@.dom().contains(cat),
    ensures forall|e: Event| #[trigger] res@.contains(e) <==> self.has(e) && e.category == cat, // [G02]
        res@.len() == self.storage@[cat].events@.dom().len(), // [G01]
//@ entry
    assert forall|e: Event| #[trigger] self.has(e) && e.category == cat implies entries(self.storage@[cat].events@)[entry_pos(self.storage@[cat].events@, ev_id(e))].1 == e by { axiom_entries(self.storage@[cat].events@); }
//@end
//@fn core EventsStorage::event_ids
//@ spec
    requires self.wf(),
    ensures knows_all(*self, res@), // [G02]
//@ entry
    proof {
        axiom_entries(self.storage@);
        assert forall|i: int| 0 <= i < entries(self.storage@).len() implies (#[trigger] entries(self.storage@)[i]).1.ids_ok() by { assert(self.storage@.dom().contains(entries(self.storage@)[i].0)); }
        assert forall|outs: Seq<It<U256>>| all_ids(outs, self.storage@) && outs.len() == entries(self.storage@).len() implies knows_all(*self, #[trigger] flat_of(outs)) by { lemma_all_ids(*self, outs); }
    }
//@ closure 0 -> (r: It<U256>) requires msgs.ids_ok() ensures ids_from(r@, msgs.events@)
//@ closure 1 -> (r: U256) ensures r == ev_id(*msg)
//@end
//@fn core EventsStorage::get_events_by_ids
//@ spec
    requires self.wf(),
    ensures has_all(*self, res@, ids@), // [G02]
//@ entry
    proof {
        axiom_entries(self.storage@);
        assert forall|i: int| 0 <= i < entries(self.storage@).len() implies (#[trigger] entries(self.storage@)[i]).1.ids_ok() by { assert(self.storage@.dom().contains(entries(self.storage@)[i].0)); }
        assert forall|outs: Seq<Vec<Event>>| all_evs(outs, self.storage@, ids@) && outs.len() == entries(self.storage@).len() implies has_all(*self, #[trigger] flat_of(outs), ids@) by { lemma_all_evs(*self, outs, ids@); }
    }
//@ closure 0 -> (r: Vec<Event>) requires msgs.ids_ok() ensures evs_from(r@, *msgs, ids@)
//@end
}
}
