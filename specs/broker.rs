//@include prelude.rs
//@include ids.rs
//@file b flarch/src/broker.rs
//@sub /\.clone\(\)/ => /.dup()/
//@sub /\s*\.vx_map_err\(\|vx_p0\|\s*\{\s*BrokerError::SendQueue\("[^"]*"\.into\(\)\)\s*\}\)/ => //
//@sub /\b(\w+) != (&[\w:]+)/ => /vx_ne(\1, \2)/
//@sub /Arc<Mutex<Intern<I, O>>>/ => /VxShared/
//@sub /Arc<Mutex<usize>>/ => /VxCount/
//@sub /\bself\.dup\(\)/ => /self.another()/
//@sub /Box::new\(Translator \{/ => /vx_translator(Translator {/
//@sub /\btr\(/ => /tr.put(/
//@sub /HashMap::new\(\)/ => /vx_no_subsystems()/
verus! {
// ------------------------------------------------------------------ what is trusted here
pub axiom fn axiom_vec_ext<T>(a: Vec<T>, b: Vec<T>) ensures a@ == b@ ==> a == b;
/// Every Clone of fledger is derived: a faithful copy.
pub trait Dup: Sized { fn dup(&self) -> (r: Self) ensures r == *self; }
impl Dup for U256 { fn dup(&self) -> (r: Self) { *self } }
impl<T: Dup> Dup for Vec<T> { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
impl Dup for Destination { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
pub trait Message: Dup {}
/// A derived PartialEq.
#[verifier::external_body]
pub fn vx_ne<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a != *b) { unimplemented!() }
/// The receiving end of this queue goes away.
pub uninterp spec fn gone(queue: int) -> bool;
/// The sending end of a queue: what it took so far, in order. It only refuses once the receiving end is gone.
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct UnboundedSender<T> { x: std::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct Sender<T> { x: std::marker::PhantomData<T> }
impl<T> UnboundedSender<T> {
    pub uninterp spec fn log(&self) -> Seq<T>;
    /// Which queue this is.
    pub uninterp spec fn queue(&self) -> int;
    #[verifier::external_body]
    pub fn send(&mut self, m: T) -> (r: VResult<()>)
        ensures final(self).queue() == old(self).queue(), r is Ok ==> final(self).log() == old(self).log().push(m) && over(old(self).queue()), r is Err ==> gone(old(self).queue()) { unimplemented!() }
}
impl<T> Sender<T> {
    pub uninterp spec fn log(&self) -> Seq<T>;
    /// Which queue this is.
    pub uninterp spec fn queue(&self) -> int;
    #[verifier::external_body]
    pub fn send(&mut self, m: T) -> (r: VResult<()>)
        ensures final(self).queue() == old(self).queue(), r is Ok ==> final(self).log() == old(self).log().push(m) && over(old(self).queue()), r is Err ==> gone(old(self).queue()) { unimplemented!() }
}
/// A handler: what it was given so far, and what it returned.
#[verifier::external_body] #[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(O)]
pub struct SubsystemHandlerBox<I, O> { x: std::marker::PhantomData<(I, O)> }
impl<I, O> SubsystemHandlerBox<I, O> {
    pub uninterp spec fn given(&self) -> Seq<Seq<I>>;
    pub uninterp spec fn returned(&self) -> Seq<Seq<O>>;
    #[verifier::external_body]
    pub fn messages(&mut self, m: Vec<I>) -> (r: Vec<O>) ensures final(self).given() == old(self).given().push(m@), final(self).returned() == old(self).returned().push(r@) { unimplemented!() }
}
/// Where to wait for the answer.
pub open spec fn answers(r: VResult<Option<UnboundedReceiver<bool>>>) -> Option<int> { match r { Ok(Some(x)) => Some(x.queue()), _ => None } }
/// One of these waits for this answer.
pub open spec fn waits_for(v: Seq<UnboundedReceiver<bool>>, q: int) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).queue() == q }
pub proof fn lemma_waits(v: Seq<UnboundedReceiver<bool>>, x: UnboundedReceiver<bool>, q: int)
    requires waits_for(v, q) || x.queue() == q,
    ensures waits_for(v.push(x), q),
{
    if waits_for(v, q) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).queue() == q; assert(v.push(x)[i] == v[i]); } else { assert(v.push(x)[v.len() as int] == x); }
}
/// A translator: what it was given so far.
#[verifier::external_body] #[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(O)]
pub struct SubsystemTranslatorBox<I, O> { x: std::marker::PhantomData<(I, O)> }
impl<I, O> SubsystemTranslatorBox<I, O> {
    pub uninterp spec fn ins(&self) -> Seq<(Seq<BrokerID>, I)>;
    pub uninterp spec fn outs(&self) -> Seq<(Seq<BrokerID>, O)>;
    /// How often it was asked to settle, by whom, and where it answers.
    pub uninterp spec fn settled(&self) -> Seq<(Seq<BrokerID>, Option<int>)>;
    #[verifier::external_body]
    pub fn translate_input(&mut self, t: Vec<BrokerID>, m: I) ensures final(self).ins() == old(self).ins().push((t@, m)), final(self).outs() == old(self).outs(), final(self).settled() == old(self).settled() { unimplemented!() }
    #[verifier::external_body]
    pub fn translate_output(&mut self, t: Vec<BrokerID>, m: O) ensures final(self).outs() == old(self).outs().push((t@, m)), final(self).ins() == old(self).ins(), final(self).settled() == old(self).settled() { unimplemented!() }
    #[verifier::external_body]
    pub fn settle(&mut self, c: Vec<BrokerID>) -> (r: VResult<Option<UnboundedReceiver<bool>>>) ensures final(self).settled() == old(self).settled().push((c@, answers(r))), final(self).ins() == old(self).ins(), final(self).outs() == old(self).outs() { unimplemented!() }
}
/// Something comes out of this queue, or nobody can put anything in anymore.
pub uninterp spec fn over(queue: int) -> bool;
/// What is put in a broker, in order.
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct UnboundedReceiver<T> { x: std::marker::PhantomData<T> }
impl<T> UnboundedReceiver<T> {
    pub uninterp spec fn read(&self) -> Seq<T>;
    /// Which queue this is.
    pub uninterp spec fn queue(&self) -> int;
    #[verifier::external_body]
    pub fn recv(&mut self) -> (r: Option<T>) ensures r matches Some(m) ==> final(self).read() == old(self).read().push(m), r is None ==> final(self).read() == old(self).read(), final(self).queue() == old(self).queue(), over(old(self).queue()) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_no_subsystems<I, O>() -> (r: HashMap<usize, Subsystem<I, O>>) ensures r@ == Map::<usize, Subsystem<I, O>>::empty() { unimplemented!() }
pub type BrokerID = U256;
/// The two senders of a queue.
impl<T> UnboundedSender<T> {
    #[verifier::external_body]
    pub fn same(&self) -> (r: Self) ensures r.queue() == self.queue() { unimplemented!() }
}
/// What the copies of a broker share: a copy of an Arc is the same thing.
impl Dup for VxShared { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
impl Dup for VxCount { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub struct VxShared { x: u8 }
/// How many subsystems there were up to now, in all the copies of a broker.
#[verifier::external_body]
pub struct VxCount { x: u8 }
impl VxCount {
    pub uninterp spec fn n(&self) -> usize;
    #[verifier::external_body]
    pub fn lock(&mut self) -> (r: &mut usize) ensures *r == old(self).n(), final(self).n() == *final(r) { unimplemented!() }
}
/// A function which translates messages.
#[verifier::external_body] #[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(B)]
pub struct Translate<A, B> { x: std::marker::PhantomData<(A, B)> }
impl<A, B> Translate<A, B> {
    pub uninterp spec fn gives(&self, a: A) -> Option<B>;
    #[verifier::external_body]
    pub fn put(&self, a: A) -> (r: Option<B>) ensures r == self.gives(a) { unimplemented!() }
}
/// The synchronous kind.
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct Receiver<T> { x: std::marker::PhantomData<T> }
impl<T> Receiver<T> { pub uninterp spec fn queue(&self) -> int; }
#[verifier::external_body]
pub fn channel<T>() -> (r: (Sender<T>, Receiver<T>)) ensures r.0.queue() == r.1.queue(), r.0.log() =~= Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn unbounded_channel<T>() -> (r: (UnboundedSender<T>, UnboundedReceiver<T>)) ensures r.0.queue() == r.1.queue(), r.0.log() =~= Seq::<T>::empty() { unimplemented!() }

// ------------------------------------------------------------------ copied types
//@enum b Destination
//@enum b SubsystemAction attr=#[verifier::reject_recursive_types(I)]#[verifier::reject_recursive_types(O)]
//@enum b Subsystem attr=#[verifier::reject_recursive_types(I)]#[verifier::reject_recursive_types(O)]
//@enum b InternMessage attr=#[verifier::reject_recursive_types(I)]#[verifier::reject_recursive_types(O)]
//@struct b Broker attr=#[verifier::reject_recursive_types(I)]#[verifier::reject_recursive_types(O)]
//@struct b Translator attr=#[verifier::reject_recursive_types(I)]#[verifier::reject_recursive_types(O)]#[verifier::reject_recursive_types(TI)]#[verifier::reject_recursive_types(TO)]
//@struct b Intern attr=#[verifier::reject_recursive_types(I)]#[verifier::reject_recursive_types(O)]

// ------------------------------------------------------------------ who gets what
/// Taps (w is None) get all but the messages which are not for taps; handler k all but its own.
pub open spec fn takes(d: Destination, w: Option<usize>) -> bool { match w { None => d != Destination::NoTap, Some(k) => d != Destination::Handled(k) } }
pub open spec fn picked<T>(q: Seq<(Destination, T)>, w: Option<usize>) -> Seq<T> decreases q.len() {
    if q.len() == 0 { Seq::empty() } else { let p = picked(q.drop_last(), w); if takes(q.last().0, w) { p.push(q.last().1) } else { p } }
}
pub proof fn lemma_increasing(b: Seq<int>, i: int)
    requires increasing(b), 0 <= i < b.len(), b[0] >= 0,
    ensures b[i] >= i,
    decreases i,
{ if i > 0 { lemma_increasing(b, i - 1); assert(b[i - 1] < b[i]); } }
pub proof fn lemma_picked<T>(q: Seq<(Destination, T)>, r: Seq<&(Destination, T)>, fwd: Seq<int>, bwd: Seq<int>, w: Option<usize>)
    requires filt(refs(q), r, fwd, bwd), forall|j: int| 0 <= j < q.len() ==> (#[trigger] fwd[j] >= 0) == takes(q[j].0, w),
    ensures picked(q, w).len() == r.len(), forall|i: int| 0 <= i < r.len() ==> picked(q, w)[i] == (#[trigger] r[i]).1,
    decreases q.len(),
{
    if q.len() > 0 {
        let k = q.len() - 1;
        let d = q.drop_last();
        assert(refs(d) =~= refs(q).drop_last());
        assert(refs(q)[k] == &q[k]);
        assert forall|j: int| 0 <= j < d.len() implies (#[trigger] fwd.drop_last()[j] >= 0) == takes(d[j].0, w) by { assert(fwd[j] == fwd.drop_last()[j]); assert(q[j] == d[j]); }
        assert(fwd[k] >= 0 <==> takes(q[k].0, w));
        if fwd[k] >= 0 {
            let l = r.len() - 1;
            assert(bwd[fwd[k]] == k);
            if fwd[k] < l { assert(bwd[fwd[k]] < bwd[l]); }
            assert(fwd[k] == l);
            assert forall|j: int| 0 <= j < k implies (#[trigger] fwd[j]) < l by { if fwd[j] >= l { assert(bwd[fwd[j]] == j); } }
            assert forall|i: int| 0 <= i < l implies 0 <= (#[trigger] bwd[i]) < k by { assert(bwd[i] < bwd[l]); }
            assert(filt(refs(d), r.drop_last(), fwd.drop_last(), bwd.drop_last()));
            lemma_picked(d, r.drop_last(), fwd.drop_last(), bwd.drop_last(), w);
            assert forall|i: int| 0 <= i < r.len() implies picked(q, w)[i] == (#[trigger] r[i]).1 by { if i < l { assert(r.drop_last()[i] == r[i]); } else { assert(refs(q)[bwd[i]] == r[i]); } }
        } else {
            assert forall|i: int| 0 <= i < r.len() implies 0 <= (#[trigger] bwd[i]) < k by { assert(fwd[bwd[i]] == i); }
            if r.len() > 0 { assert(bwd[0] >= 0 && bwd[r.len() - 1] < k); lemma_increasing(bwd, r.len() - 1); }
            assert(filt(refs(d), r, fwd.drop_last(), bwd));
            lemma_picked(d, r, fwd.drop_last(), bwd, w);
        }
    }
}
pub proof fn lemma_all_picked<T>(q: Seq<(Destination, T)>, w: Option<usize>)
    ensures forall|r: Seq<&(Destination, T)>, fwd: Seq<int>, bwd: Seq<int>| #[trigger] filt(refs(q), r, fwd, bwd) && (forall|j: int| 0 <= j < q.len() ==> (#[trigger] fwd[j] >= 0) == takes(q[j].0, w)) ==> is_picked(q, r, w),
{
    assert forall|r: Seq<&(Destination, T)>, fwd: Seq<int>, bwd: Seq<int>| #[trigger] filt(refs(q), r, fwd, bwd) && (forall|j: int| 0 <= j < q.len() ==> (#[trigger] fwd[j] >= 0) == takes(q[j].0, w)) implies is_picked(q, r, w) by { lemma_picked(q, r, fwd, bwd, w); }
}
pub open spec fn is_picked<T>(q: Seq<(Destination, T)>, r: Seq<&(Destination, T)>, w: Option<usize>) -> bool { picked(q, w).len() == r.len() && forall|i: int| 0 <= i < r.len() ==> picked(q, w)[i] == (#[trigger] r[i]).1 }
impl<I: Message, O: Message> Subsystem<I, O> {
    /// It got these messages, unless its other end is gone.
    pub open spec fn tapped_out(a: Self, b: Self, m: Seq<O>, bad: bool) -> bool {
        match a {
            Subsystem::TapOut(s) => b matches Subsystem::TapOut(t) && if bad { gone(s.queue()) } else { t.queue() == s.queue() && t.log() =~= s.log() + m },
            Subsystem::TapSyncOut(s) => b matches Subsystem::TapSyncOut(t) && if bad { gone(s.queue()) } else { t.queue() == s.queue() && t.log() =~= s.log() + m },
            _ => b == a && !bad,
        }
    }
    pub open spec fn tapped_in(a: Self, b: Self, m: Seq<I>, bad: bool) -> bool {
        match a {
            Subsystem::TapIn(s) => b matches Subsystem::TapIn(t) && if bad { gone(s.queue()) } else { t.queue() == s.queue() && t.log() =~= s.log() + m },
            Subsystem::TapSyncIn(s) => b matches Subsystem::TapSyncIn(t) && if bad { gone(s.queue()) } else { t.queue() == s.queue() && t.log() =~= s.log() + m },
            _ => b == a && !bad,
        }
    }
#[verifier::loop_isolation(false)]
//@fn b Subsystem<I,O>::send_tap_out ret=r
//@ spec
    ensures Subsystem::tapped_out(*old(self), *final(self), msgs@, r is Err), // [B01]
//@ entry
        let ghost m = msgs@;
        let ghost a = *self;
//@ loop 0
        invariant vx_it0.wf(), vx_it0.seq() == m, m == msgs@, a == *old(self), a matches Subsystem::TapSyncOut(u) && s.queue() == u.queue() && s.log() =~= u.log() + m.take(vx_it0.pos() as int),
        decreases vx_it0.left(),
//@ loop 1
        invariant vx_it1.wf(), vx_it1.seq() == m, m == msgs@, a == *old(self), a matches Subsystem::TapOut(u) && s.queue() == u.queue() && s.log() =~= u.log() + m.take(vx_it1.pos() as int),
        decreases vx_it1.left(),
//@end
#[verifier::loop_isolation(false)]
//@fn b Subsystem<I,O>::send_tap_in ret=r
//@ spec
    ensures Subsystem::tapped_in(*old(self), *final(self), msgs@, r is Err), // [B01]
//@ entry
        let ghost m = msgs@;
        let ghost a = *self;
//@ loop 0
        invariant vx_it0.wf(), vx_it0.seq() == m, m == msgs@, a == *old(self), a matches Subsystem::TapSyncIn(u) && s.queue() == u.queue() && s.log() =~= u.log() + m.take(vx_it0.pos() as int),
        decreases vx_it0.left(),
//@ loop 1
        invariant vx_it1.wf(), vx_it1.seq() == m, m == msgs@, a == *old(self), a matches Subsystem::TapIn(u) && s.queue() == u.queue() && s.log() =~= u.log() + m.take(vx_it1.pos() as int),
        decreases vx_it1.left(),
//@end
    /// A handler got these messages, and what it returned last is in r; others are left alone.
    pub open spec fn handled(a: Self, b: Self, m: Seq<I>) -> bool {
        match a {
            Subsystem::Handler(h) => b matches Subsystem::Handler(g) && g.given() == h.given().push(m) && g.returned().len() == h.returned().len() + 1 && g.returned().drop_last() =~= h.returned(),
            _ => b == a,
        }
    }
    pub open spec fn latest(a: Self, b: Self, k: usize) -> Seq<(Destination, O)> {
        match (a, b) { (Subsystem::Handler(h), Subsystem::Handler(g)) => tagged(k, g.returned().last()), _ => Seq::empty() }
    }
//@fn b Subsystem<I,O>::send_handler ret=r
//@ spec
    ensures r is Ok, Subsystem::handled(*old(self), *final(self), msgs@), r->Ok_0@ == Subsystem::latest(*old(self), *final(self), index), // [B01]
//@ closure 0 -> (r: (Destination, O)) ensures r == (Destination::Handled(index), m)
//@end
//@fn b Subsystem<I,O>::is_translator ret=r
//@ spec
    ensures r == (*self is Translator), // [B01]
//@end
//@fn b Subsystem<I,O>::is_handler ret=r
//@ spec
    ensures r == (*self is Handler), // [B01]
//@end
    pub open spec fn did_settle(a: Self, b: Self, c: Seq<BrokerID>) -> bool {
        match a { Subsystem::Translator(t) => b matches Subsystem::Translator(u) && u.settled() =~= t.settled().push((c, u.settled().last().1)) && u.ins() == t.ins() && u.outs() == t.outs(), _ => b == a }
    }
    pub open spec fn asked(self) -> Option<int> { match self { Subsystem::Translator(u) => u.settled().last().1, _ => None } }
    pub open spec fn is_over(self) -> bool { self.asked() matches Some(q) ==> over(q) }
    pub open spec fn is_waited(self, v: Seq<UnboundedReceiver<bool>>) -> bool { self.asked() matches Some(q) ==> waits_for(v, q) }
//@fn b Subsystem<I,O>::settle ret=r
//@ spec
    ensures final(self).asked() == answers(r), // [B02]
         Subsystem::did_settle(*old(self), *final(self), callers@), // [B02]
//@end
    pub open spec fn sent_out(a: Self, b: Self, f: Seq<(Seq<BrokerID>, O)>) -> bool {
        match a { Subsystem::Translator(t) => b matches Subsystem::Translator(u) && u.outs() =~= t.outs() + f && u.ins() == t.ins() && u.settled() == t.settled(), _ => b == a }
    }
    pub open spec fn sent_in(a: Self, b: Self, f: Seq<(Seq<BrokerID>, I)>) -> bool {
        match a { Subsystem::Translator(t) => b matches Subsystem::Translator(u) && u.ins() =~= t.ins() + f && u.outs() == t.outs() && u.settled() == t.settled(), _ => b == a }
    }
}
pub open spec fn tagged<O>(k: usize, s: Seq<O>) -> Seq<(Destination, O)> { Seq::new(s.len(), |i: int| (Destination::Handled(k), s[i])) }
/// The brokers which forwarded this message up to now.
pub open spec fn trail_of(d: Destination) -> Seq<BrokerID> { match d { Destination::Forwarded(t) => t@, _ => Seq::empty() } }
/// What the translators get: every message, with this broker in its trail, unless it has been here before.
pub open spec fn forwards<T>(q: Seq<(Destination, T)>, id: BrokerID) -> Seq<(Seq<BrokerID>, T)> decreases q.len() {
    if q.len() == 0 { Seq::empty() } else {
        let f = forwards(q.drop_last(), id);
        let t = trail_of(q.last().0);
        if t.contains(id) { f } else { f.push((t.push(id), q.last().1)) }
    }
}
pub proof fn lemma_forwards<T>(q: Seq<(Destination, T)>, p: int, id: BrokerID)
    requires 0 <= p < q.len(),
    ensures forwards(q.take(p + 1), id) == if trail_of(q[p].0).contains(id) { forwards(q.take(p), id) } else { forwards(q.take(p), id).push((trail_of(q[p].0).push(id), q[p].1)) },
{ assert(q.take(p + 1).drop_last() =~= q.take(p)); }
pub broadcast proof fn lemma_app(a: Seq<usize>, b: Seq<usize>)
    ensures (#[trigger] (a + b)).len() == a.len() + b.len(), forall|k: usize| #![trigger a.contains(k)] #![trigger b.contains(k)] #![trigger (a + b).contains(k)] a.contains(k) || b.contains(k) <==> (a + b).contains(k),
{
    assert forall|k: usize| a.contains(k) || b.contains(k) <==> (a + b).contains(k) by {
        if a.contains(k) { let i = choose|i: int| 0 <= i < a.len() && a[i] == k; assert((a + b)[i] == k); }
        if b.contains(k) { let i = choose|i: int| 0 <= i < b.len() && b[i] == k; assert((a + b)[a.len() + i] == k); }
        if (a + b).contains(k) { let i = choose|i: int| 0 <= i < (a + b).len() && (a + b)[i] == k; if i < a.len() { assert(a[i] == k); } else { assert(b[i - a.len()] == k); } }
    }
}
pub proof fn lemma_back(e: Seq<usize>, r: Seq<&usize>)
    requires r =~= refs(e).reverse(),
    ensures forall|k: usize| #[trigger] e.contains(k) <==> r.contains(&k),
{
    assert forall|k: usize| #[trigger] e.contains(k) <==> r.contains(&k) by {
        if e.contains(k) { let i = choose|i: int| 0 <= i < e.len() && e[i] == k; assert(r[e.len() - 1 - i] == &k); }
        if r.contains(&k) { let i = choose|i: int| 0 <= i < r.len() && r[i] == &k; assert(e[e.len() - 1 - i] == k); }
    }
}
//@fn b settle_reply vis=none
//@ sub ! /spawn_local\(async move \{/ => /{/
//@ sub ! /\}\);\s*\}$/ => /} }/
//@ sub ! /\breply: / => /mut reply: /
//@ spec
    ensures forall|q: int| #[trigger] waits_for(settling@, q) ==> over(q), // [B02]
        over(reply.queue()) || gone(reply.queue()), // [B02]
//@ loop 0
        invariant vx_it0.wf(), vx_it0.seq() == settling@, forall|j: int| 0 <= j < vx_it0.pos() ==> over((#[trigger] settling@[j]).queue()),
        decreases vx_it0.left(),
//@ before "reply" 2
        assert(forall|j: int| 0 <= j < settling@.len() ==> over((#[trigger] settling@[j]).queue())); // [B02]
//@end
impl<I: Message + 'static, O: Message + 'static> Intern<I, O> {
    /// All but the subsystems and the two queues.
    pub open spec fn kept(&self, o: &Self) -> bool { self.id == o.id && self.copies == o.copies && self.main_rx == o.main_rx }
    pub open spec fn same_queues(&self, o: &Self) -> bool { self.msg_queue_in@ == o.msg_queue_in@ && self.msg_queue_out@ == o.msg_queue_out@ }
    #[verifier::external_body]
    pub fn type_str(&self) -> (r: String) { unimplemented!() }
//@fn b Intern<I,O>::subsystem_action
//@ spec
    ensures final(self).kept(old(self)), final(self).same_queues(old(self)),
        final(self).subsystems@ == match ssa { SubsystemAction::Add(k, s) => old(self).subsystems@.insert(k, s), SubsystemAction::Remove(k) => old(self).subsystems@.remove(k) }, // [B01]
//@end
//@fn b Intern<I,O>::send_tap_out ret=r
//@ spec
    ensures final(self).kept(old(self)), final(self).same_queues(old(self)), final(self).subsystems@.dom() == old(self).subsystems@.dom(),
        forall|k: usize| #[trigger] r@.contains(k) ==> old(self).subsystems@.dom().contains(k), // [B01]
        forall|k: usize| #[trigger] old(self).subsystems@.dom().contains(k) ==> Subsystem::tapped_out(old(self).subsystems@[k], final(self).subsystems@[k], picked(old(self).msg_queue_out@, None), r@.contains(k)), // [B01]
//@ closure 0 -> (r: bool) ensures r == takes(vx_p0.0, None)
//@ closure 1 -> (r: O) ensures r == vx_p0.1
//@ entry
        let ghost o = self.subsystems@;
        let ghost en = entries(o);
        let ghost q = self.msg_queue_out@;
        let ghost pk = picked(q, None);
        proof { axiom_entries(o); lemma_all_picked::<O>(q, None); }
//@ beforeloop 0
        let ghost sq = vx_it0.seq();
//@ loop 0
        invariant vx_it0.wf(), enumerates(en, o), vx_it0.seq() == sq, sq.len() == en.len(), msgs@ == pk,
            forall|i: int| 0 <= i < en.len() ==> *(#[trigger] sq[i]).0 == en[i].0 && *sq[i].1 == en[i].1,
            forall|j: int| 0 <= j < vx_it0.pos() ==> Subsystem::tapped_out((#[trigger] en[j]).1, *final(sq[j].1), pk, faulty@.contains(en[j].0)),
            forall|k: usize| #[trigger] faulty@.contains(k) ==> o.dom().contains(k) && entry_pos(o, k) < vx_it0.pos(),
        decreases vx_it0.left(),
//@ afterloop 0
        proof { assert forall|k: usize| #[trigger] o.dom().contains(k) implies Subsystem::tapped_out(o[k], self.subsystems@[k], pk, faulty@.contains(k)) by { let j = entry_pos(o, k); assert(en[j] == (k, o[k])); assert(self.subsystems@[k] == *final(sq[j].1)); } }
//@end
//@fn b Intern<I,O>::send_tap_in ret=r
//@ spec
    ensures final(self).kept(old(self)), final(self).same_queues(old(self)), final(self).subsystems@.dom() == old(self).subsystems@.dom(),
        forall|k: usize| #[trigger] r@.contains(k) ==> old(self).subsystems@.dom().contains(k), // [B01]
        forall|k: usize| #[trigger] old(self).subsystems@.dom().contains(k) ==> Subsystem::tapped_in(old(self).subsystems@[k], final(self).subsystems@[k], picked(old(self).msg_queue_in@, None), r@.contains(k)), // [B01]
//@ closure 0 -> (r: bool) ensures r == takes(vx_p0.0, None)
//@ closure 1 -> (r: I) ensures r == vx_p0.1
//@ entry
        let ghost o = self.subsystems@;
        let ghost en = entries(o);
        let ghost q = self.msg_queue_in@;
        let ghost pk = picked(q, None);
        proof { axiom_entries(o); lemma_all_picked::<I>(q, None); }
//@ beforeloop 0
        let ghost sq = vx_it0.seq();
//@ loop 0
        invariant vx_it0.wf(), enumerates(en, o), vx_it0.seq() == sq, sq.len() == en.len(), msgs@ == pk,
            forall|i: int| 0 <= i < en.len() ==> *(#[trigger] sq[i]).0 == en[i].0 && *sq[i].1 == en[i].1,
            forall|j: int| 0 <= j < vx_it0.pos() ==> Subsystem::tapped_in((#[trigger] en[j]).1, *final(sq[j].1), pk, faulty@.contains(en[j].0)),
            forall|k: usize| #[trigger] faulty@.contains(k) ==> o.dom().contains(k) && entry_pos(o, k) < vx_it0.pos(),
        decreases vx_it0.left(),
//@ afterloop 0
        proof { assert forall|k: usize| #[trigger] o.dom().contains(k) implies Subsystem::tapped_in(o[k], self.subsystems@[k], pk, faulty@.contains(k)) by { let j = entry_pos(o, k); assert(en[j] == (k, o[k])); assert(self.subsystems@[k] == *final(sq[j].1)); } }
//@end
    /// These entries, as the loop over them sees them.
    pub open spec fn listed(sq: Seq<(&usize, &mut Subsystem<I, O>)>, en: Seq<(usize, Subsystem<I, O>)>) -> bool {
        sq.len() == en.len() && forall|i: int| 0 <= i < en.len() ==> *(#[trigger] sq[i]).0 == en[i].0 && *sq[i].1 == en[i].1
    }
//@fn b Intern<I,O>::process_translate_out_messages
//@ spec
    ensures final(self).kept(old(self)), final(self).same_queues(old(self)), final(self).subsystems@.dom() == old(self).subsystems@.dom(),
        forall|k: usize| #[trigger] old(self).subsystems@.dom().contains(k) ==> Subsystem::sent_out(old(self).subsystems@[k], final(self).subsystems@[k], forwards(old(self).msg_queue_out@, old(self).id)), // [B01]
//@ sub ! /\s*\.vx_filter\(\|vx_p0\|\s*\{\s*let \(_, ss\) = vx_p0;\s*([^}]*?)\s*\}\)([\s\S]*?take_next\(\);)/ => /\2 if !(\1) { continue; }/
//@ entry
        let ghost o = self.subsystems@;
        let ghost mut c = o;
        let ghost q = self.msg_queue_out@;
        let ghost id = self.id;
        proof { assert(q.take(0) =~= Seq::empty()); }
//@ loop 0
        invariant vx_it0.wf(), vx_it0.seq() == refs(q), self.kept(old(self)), self.same_queues(old(self)), q == self.msg_queue_out@, id == self.id, self.subsystems@.dom() == o.dom(),
            forall|k: usize| #[trigger] o.dom().contains(k) ==> Subsystem::sent_out(o[k], self.subsystems@[k], forwards(q.take(vx_it0.pos()), id)),
        decreases vx_it0.left(),
//@ loopstart 0
        let ghost p = vx_it0.pos() - 1;
        proof { lemma_forwards(q, p, id); c = self.subsystems@; axiom_entries(c); }
//@ beforeloop 1
        let ghost sq = vx_it1.seq();
        let ghost en = entries(c);
        let ghost f = Seq::<(Seq<BrokerID>, O)>::empty().push((trail@, *msg));
//@ loop 1
        invariant vx_it1.wf(), enumerates(en, c), en == entries(c), vx_it1.seq() == sq, Intern::listed(sq, en), f == Seq::<(Seq<BrokerID>, O)>::empty().push((trail@, *msg)),
            forall|j: int| 0 <= j < vx_it1.pos() ==> Subsystem::sent_out((#[trigger] en[j]).1, *final(sq[j].1), f),
        decreases vx_it1.left(),
//@ afterloop 1
        proof { assert forall|k: usize| #[trigger] o.dom().contains(k) implies Subsystem::sent_out(o[k], self.subsystems@[k], forwards(q.take(p + 1), id)) by { let j = entry_pos(c, k); assert(en[j] == (k, c[k])); assert(self.subsystems@[k] == *final(sq[j].1)); } }
//@ afterloop 0
        proof { assert(q.take(q.len() as int) =~= q); }
//@end
//@fn b Intern<I,O>::process_translate_in_messages
//@ spec
    ensures final(self).kept(old(self)), final(self).same_queues(old(self)), final(self).subsystems@.dom() == old(self).subsystems@.dom(),
        forall|k: usize| #[trigger] old(self).subsystems@.dom().contains(k) ==> Subsystem::sent_in(old(self).subsystems@[k], final(self).subsystems@[k], forwards(old(self).msg_queue_in@, old(self).id)), // [B01]
//@ sub ! /\s*\.vx_filter\(\|vx_p0\|\s*\{\s*let \(_, ss\) = vx_p0;\s*([^}]*?)\s*\}\)([\s\S]*?take_next\(\);)/ => /\2 if !(\1) { continue; }/
//@ entry
        let ghost o = self.subsystems@;
        let ghost mut c = o;
        let ghost q = self.msg_queue_in@;
        let ghost id = self.id;
        proof { assert(q.take(0) =~= Seq::empty()); }
//@ loop 0
        invariant vx_it0.wf(), vx_it0.seq() == refs(q), self.kept(old(self)), self.same_queues(old(self)), q == self.msg_queue_in@, id == self.id, self.subsystems@.dom() == o.dom(),
            forall|k: usize| #[trigger] o.dom().contains(k) ==> Subsystem::sent_in(o[k], self.subsystems@[k], forwards(q.take(vx_it0.pos()), id)),
        decreases vx_it0.left(),
//@ loopstart 0
        let ghost p = vx_it0.pos() - 1;
        proof { lemma_forwards(q, p, id); c = self.subsystems@; axiom_entries(c); }
//@ beforeloop 1
        let ghost sq = vx_it1.seq();
        let ghost en = entries(c);
        let ghost f = Seq::<(Seq<BrokerID>, I)>::empty().push((trail@, *msg));
//@ loop 1
        invariant vx_it1.wf(), enumerates(en, c), en == entries(c), vx_it1.seq() == sq, Intern::listed(sq, en), f == Seq::<(Seq<BrokerID>, I)>::empty().push((trail@, *msg)),
            forall|j: int| 0 <= j < vx_it1.pos() ==> Subsystem::sent_in((#[trigger] en[j]).1, *final(sq[j].1), f),
        decreases vx_it1.left(),
//@ afterloop 1
        proof { assert forall|k: usize| #[trigger] o.dom().contains(k) implies Subsystem::sent_in(o[k], self.subsystems@[k], forwards(q.take(p + 1), id)) by { let j = entry_pos(c, k); assert(en[j] == (k, c[k])); assert(self.subsystems@[k] == *final(sq[j].1)); } }
//@ afterloop 0
        proof { assert(q.take(q.len() as int) =~= q); }
//@end
    /// What the handlers returned last, one handler after the other.
    pub open spec fn answers(ks: Seq<usize>, o: Map<usize, Subsystem<I, O>>, n: Map<usize, Subsystem<I, O>>) -> Seq<(Destination, O)> decreases ks.len() {
        if ks.len() == 0 { Seq::empty() } else { Intern::answers(ks.drop_last(), o, n) + Subsystem::latest(o[ks.last()], n[ks.last()], ks.last()) }
    }
    pub proof fn lemma_answers(ks: Seq<usize>, o: Map<usize, Subsystem<I, O>>, n: Map<usize, Subsystem<I, O>>, p: Map<usize, Subsystem<I, O>>, m: Map<usize, Subsystem<I, O>>)
        requires forall|i: int| 0 <= i < ks.len() ==> Subsystem::latest(o[#[trigger] ks[i]], n[ks[i]], ks[i]) == Subsystem::latest(p[ks[i]], m[ks[i]], ks[i]),
        ensures Intern::answers(ks, o, n) == Intern::answers(ks, p, m),
        decreases ks.len(),
    {
        if ks.len() > 0 {
            let d = ks.drop_last();
            assert forall|i: int| 0 <= i < d.len() implies Subsystem::latest(o[#[trigger] d[i]], n[d[i]], d[i]) == Subsystem::latest(p[d[i]], m[d[i]], d[i]) by { assert(d[i] == ks[i]); }
            Intern::lemma_answers(d, o, n, p, m);
            assert(ks[ks.len() - 1] == ks.last());
        }
    }
    /// The subsystems in some order.
    pub open spec fn order_of(ks: Seq<usize>, d: Set<usize>) -> bool { no_dup(ks) && ks.len() == d.len() && forall|k: usize| #[trigger] ks.contains(k) <==> d.contains(k) }
    pub open spec fn keys_of(en: Seq<(usize, Subsystem<I, O>)>) -> Seq<usize> { Seq::new(en.len(), |i: int| en[i].0) }
    pub proof fn lemma_keys(en: Seq<(usize, Subsystem<I, O>)>, o: Map<usize, Subsystem<I, O>>)
        requires enumerates(en, o),
        ensures Intern::<I, O>::order_of(Intern::keys_of(en), o.dom()),
    {
        let ks = Intern::<I, O>::keys_of(en);
        assert forall|k: usize| #[trigger] ks.contains(k) <==> o.dom().contains(k) by {
            if o.dom().contains(k) { let j = entry_pos(o, k); assert(en[j] == (k, o[k])); assert(ks[j] == k); }
            if ks.contains(k) { let j = choose|j: int| 0 <= j < ks.len() && ks[j] == k; assert(en[j].0 == k); }
        }
        assert forall|i: int, j: int| 0 <= i < j < ks.len() implies ks[i] != ks[j] by { if en[i].0 == en[j].0 { assert(entry_pos(o, en[i].0) == i); assert(entry_pos(o, en[j].0) == j); } }
    }
    pub proof fn lemma_one(en: Seq<(usize, Subsystem<I, O>)>, o: Map<usize, Subsystem<I, O>>, p: int, f: Map<usize, Subsystem<I, O>>, v: Subsystem<I, O>)
        requires enumerates(en, o), 0 <= p < en.len(),
        ensures Intern::answers(Intern::keys_of(en.take(p + 1)), o, f.insert(en[p].0, v)) == Intern::answers(Intern::keys_of(en.take(p)), o, f) + Subsystem::latest(en[p].1, v, en[p].0),
            forall|j: int| 0 <= j < p ==> (#[trigger] en[j]).0 != en[p].0,
    {
        let (g, t) = (f.insert(en[p].0, v), Intern::<I, O>::keys_of(en.take(p)));
        assert forall|j: int| 0 <= j < p implies (#[trigger] en[j]).0 != en[p].0 by { if en[j].0 == en[p].0 { assert(entry_pos(o, en[j].0) == j); assert(entry_pos(o, en[p].0) == p); } }
        assert(Intern::<I, O>::keys_of(en.take(p + 1)).drop_last() =~= t);
        assert forall|i: int| 0 <= i < t.len() implies Subsystem::latest(o[#[trigger] t[i]], f[t[i]], t[i]) == Subsystem::latest(o[t[i]], g[t[i]], t[i]) by { assert(t[i] == en[i].0); }
        Intern::lemma_answers(t, o, f, o, g);
    }
    pub open spec fn is_new(o: Map<usize, Subsystem<I, O>>, n: Map<usize, Subsystem<I, O>>, qi: Seq<(Destination, I)>, out: Seq<(Destination, O)>) -> bool {
        if qi.len() == 0 { out.len() == 0 } else { exists|ks: Seq<usize>| #[trigger] Intern::<I, O>::order_of(ks, o.dom()) && out =~= Intern::answers(ks, o, n) }
    }
//@fn b Intern<I,O>::process_handle_messages ret=r
//@ spec
    ensures final(self).kept(old(self)), final(self).msg_queue_in@ == old(self).msg_queue_in@, final(self).subsystems@.dom() == old(self).subsystems@.dom(), r@.len() == 0,
        old(self).msg_queue_in@.len() == 0 ==> final(self).subsystems@ == old(self).subsystems@ && final(self).msg_queue_out@ == old(self).msg_queue_out@,
        old(self).msg_queue_in@.len() > 0 ==> final(self).msg_queue_out@ =~= old(self).msg_queue_out@ + Intern::answers(Intern::keys_of(entries(old(self).subsystems@)), old(self).subsystems@, final(self).subsystems@), // [B01]
        old(self).msg_queue_in@.len() > 0 ==> forall|k: usize| #[trigger] old(self).subsystems@.dom().contains(k) ==> Subsystem::handled(old(self).subsystems@[k], final(self).subsystems@[k], picked(old(self).msg_queue_in@, Some(k))), // [B01]
//@ sub ! /\s*\.vx_filter\(\|vx_p0\|\s*\{\s*let \(_, ss\) = vx_p0;\s*([^}]*?)\s*\}\)([\s\S]*?take_next\(\);)/ => /\2 let ghost p = vx_it0.pos() - 1; let ghost fm0 = fm; proof { lemma_all_picked::<I>(q, Some(*index_ss)); } if !(\1) { proof { fm = fm.insert(*index_ss, *ss); Intern::lemma_one(en, o, p, fm0, *ss); } continue; }/
//@ closure 1 -> (r: bool) ensures r == takes(nm.0, Some(*index_ss))
//@ closure 2 -> (r: &I) ensures *r == nm.1
//@ entry
        let ghost o = self.subsystems@;
        let ghost q = self.msg_queue_in@;
        let ghost en = entries(o);
        let ghost mut fm = o;
        proof { axiom_entries(o); }
//@ beforeloop 0
        let ghost sq = vx_it0.seq();
        proof { assert(Intern::<I, O>::keys_of(en.take(0)) =~= Seq::empty()); }
//@ loop 0
        invariant vx_it0.wf(), enumerates(en, o), en == entries(o), vx_it0.seq() == sq, Intern::listed(sq, en), q == self.msg_queue_in@, ss_remove@.len() == 0,
            forall|j: int| 0 <= j < vx_it0.pos() ==> Subsystem::handled((#[trigger] en[j]).1, *final(sq[j].1), picked(q, Some(en[j].0))) && fm[en[j].0] == *final(sq[j].1),
            new_msg_queue@ == Intern::answers(Intern::keys_of(en.take(vx_it0.pos())), o, fm),
        decreases vx_it0.left(),
//@ loopend 0
        proof { assert(msgs@ =~= picked(q, Some(*index_ss))); fm = fm.insert(*index_ss, *ss); Intern::lemma_one(en, o, p, fm0, *ss); }
//@ afterloop 0
        proof {
            assert(en.take(en.len() as int) =~= en);
            let ks = Intern::<I, O>::keys_of(en);
            assert forall|i: int| 0 <= i < ks.len() implies Subsystem::latest(o[#[trigger] ks[i]], fm[ks[i]], ks[i]) == Subsystem::latest(o[ks[i]], self.subsystems@[ks[i]], ks[i]) by { assert(en[i].0 == ks[i]); assert(self.subsystems@[en[i].0] == *final(sq[i].1)); }
            Intern::lemma_answers(ks, o, fm, o, self.subsystems@);
            assert forall|k: usize| #[trigger] o.dom().contains(k) implies Subsystem::handled(o[k], self.subsystems@[k], picked(q, Some(k))) by { let j = entry_pos(o, k); assert(en[j] == (k, o[k])); assert(self.subsystems@[k] == *final(sq[j].1)); }
        }
//@end
    /// What is done with everything which waits: subsystem k was a, and is b.
    pub open spec fn got(k: usize, a: Subsystem<I, O>, b: Subsystem<I, O>, qi: Seq<(Destination, I)>, qo: Seq<(Destination, O)>, id: BrokerID) -> bool {
        match a {
            Subsystem::TapIn(_) | Subsystem::TapSyncIn(_) => Subsystem::tapped_in(a, b, picked(qi, None), false),
            Subsystem::TapOut(_) | Subsystem::TapSyncOut(_) => Subsystem::tapped_out(a, b, picked(qo, None), false),
            Subsystem::Handler(_) => if qi.len() == 0 { b == a } else { Subsystem::handled(a, b, picked(qi, Some(k))) },
            Subsystem::Translator(t) => b matches Subsystem::Translator(u) && u.outs() =~= t.outs() + forwards(qo, id) && u.ins() =~= t.ins() + forwards(qi, id) && u.settled() == t.settled(),
        }
    }
    /// Only taps nobody listens to any more are removed.
    pub open spec fn lost(a: Subsystem<I, O>) -> bool {
        match a { Subsystem::TapIn(s) => gone(s.queue()), Subsystem::TapSyncIn(s) => gone(s.queue()), Subsystem::TapOut(s) => gone(s.queue()), Subsystem::TapSyncOut(s) => gone(s.queue()), _ => false }
    }
    pub open spec fn all_got(o: Map<usize, Subsystem<I, O>>, n: Map<usize, Subsystem<I, O>>, qi: Seq<(Destination, I)>, qo: Seq<(Destination, O)>, id: BrokerID) -> bool {
        &&& forall|k: usize| #[trigger] n.dom().contains(k) ==> o.dom().contains(k)
        &&& forall|k: usize| #[trigger] o.dom().contains(k) ==> if n.dom().contains(k) { Intern::got(k, o[k], n[k], qi, qo, id) } else { Intern::lost(o[k]) }
    }
//@fn b Intern<I,O>::process_once ret=r
//@ spec
    ensures r is Ok, final(self).kept(old(self)), final(self).msg_queue_in@.len() == 0,
        Intern::all_got(old(self).subsystems@, final(self).subsystems@, old(self).msg_queue_in@, old(self).msg_queue_out@, old(self).id), // [B01]
        Intern::is_new(old(self).subsystems@, final(self).subsystems@, old(self).msg_queue_in@, final(self).msg_queue_out@), // [B01]
//@ entry
        let ghost o = self.subsystems@;
        let ghost (qi, qo, id) = (self.msg_queue_in@, self.msg_queue_out@, self.id);
        proof { axiom_entries(o); broadcast use lemma_app; }
//@ before "self.process_translate_in_messages"
        let ghost m1 = self.subsystems@;
//@ before "let mut subsystems_error"
        let ghost m2 = self.subsystems@;
//@ before "subsystems_error.extend(self.send_tap_in"
        let ghost m3 = self.subsystems@;
        let ghost e1 = subsystems_error@;
//@ before "subsystems_error.extend(self.process_handle"
        let ghost m4 = self.subsystems@;
        let ghost e2 = subsystems_error@;
//@ beforeloop 0
        let ghost m5 = self.subsystems@;
        let ghost er = vx_it0.seq();
        let ghost new_out = self.msg_queue_out@;
        let ghost e3 = subsystems_error@;
        proof { lemma_back(e3, er); }
        proof { axiom_entries(m4); Intern::lemma_keys(entries(m4), m4); }
//@ loop 0
        invariant vx_it0.wf(), vx_it0.seq() == er, self.kept(old(self)), self.msg_queue_in@.len() == 0, self.msg_queue_out@ == new_out,
            forall|k: usize| #[trigger] self.subsystems@.dom().contains(k) ==> m5.dom().contains(k) && self.subsystems@[k] == m5[k],
            forall|k: usize| #[trigger] m5.dom().contains(k) ==> (self.subsystems@.dom().contains(k) <==> !er.take(vx_it0.pos()).contains(&k)),
        decreases vx_it0.left(),
//@ loopstart 0
        proof { assert(er.take(vx_it0.pos() as int) =~= er.take(vx_it0.pos() - 1).push(er[vx_it0.pos() - 1])); }
//@ afterloop 0
        proof {
            let n = self.subsystems@;
            assert(er.take(er.len() as int) =~= er);
            assert forall|k: usize| #[trigger] o.dom().contains(k) implies if n.dom().contains(k) { Intern::got(k, o[k], n[k], qi, qo, id) } else { Intern::lost(o[k]) } by {
                assert(m1.dom().contains(k) && m2.dom().contains(k) && m3.dom().contains(k) && m4.dom().contains(k) && m5.dom().contains(k));
                assert(er.contains(&k) <==> e3.contains(k)); assert(e3 =~= e2);
            }
            if qi.len() > 0 {
                let ks = Intern::<I, O>::keys_of(entries(m4));
                assert(Intern::<I, O>::order_of(ks, o.dom()));
                assert forall|i: int| 0 <= i < ks.len() implies Subsystem::latest(m4[#[trigger] ks[i]], m5[ks[i]], ks[i]) == Subsystem::latest(o[ks[i]], n[ks[i]], ks[i]) by { assert(ks.contains(ks[i])); let k = ks[i]; assert(o.dom().contains(k)); assert(m1.dom().contains(k) && m2.dom().contains(k) && m3.dom().contains(k)); }
                Intern::lemma_answers(ks, m4, m5, o, n);
            }
        }
//@end
    pub proof fn lemma_joined<T>(a: Seq<(Destination, T)>, b: Seq<(Destination, T)>, w: Option<usize>, id: BrokerID)
        ensures picked(a + b, w) =~= picked(a, w) + picked(b, w), forwards(a + b, id) =~= forwards(a, id) + forwards(b, id),
        decreases b.len(),
    {
        if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); Intern::<I, O>::lemma_joined(a, b.drop_last(), w, id); }
    }
    /// Two rounds, the second one with what the handlers of the first one returned.
    pub proof fn lemma_rounds(o: Map<usize, Subsystem<I, O>>, m: Map<usize, Subsystem<I, O>>, n: Map<usize, Subsystem<I, O>>, qi: Seq<(Destination, I)>, qo: Seq<(Destination, O)>, out: Seq<(Destination, O)>, id: BrokerID)
        requires Intern::all_got(o, m, qi, qo, id), Intern::is_new(o, m, qi, out), Intern::all_got(m, n, Seq::empty(), out, id),
        ensures Intern::all_got(o, n, qi, qo + out, id), Intern::is_new(o, n, qi, out),
    {
        Intern::<I, O>::lemma_joined::<O>(qo, out, None, id);
        assert forall|k: usize| #[trigger] o.dom().contains(k) implies if n.dom().contains(k) { Intern::got(k, o[k], n[k], qi, qo + out, id) } else { Intern::lost(o[k]) } by {
            if m.dom().contains(k) { assert(Intern::got(k, o[k], m[k], qi, qo, id)); if n.dom().contains(k) { assert(Intern::got(k, m[k], n[k], Seq::empty(), out, id)); } else { assert(Intern::lost(m[k])); } }
        }
        if qi.len() > 0 {
            let ks = choose|ks: Seq<usize>| #[trigger] Intern::<I, O>::order_of(ks, o.dom()) && out =~= Intern::answers(ks, o, m);
            assert forall|i: int| 0 <= i < ks.len() implies Subsystem::latest(o[#[trigger] ks[i]], m[ks[i]], ks[i]) == Subsystem::latest(o[ks[i]], n[ks[i]], ks[i]) by {
                let k = ks[i];
                assert(ks.contains(k)); assert(o.dom().contains(k));
                if m.dom().contains(k) { assert(Intern::got(k, o[k], m[k], qi, qo, id)); if n.dom().contains(k) { assert(Intern::got(k, m[k], n[k], Seq::empty(), out, id)); } else { assert(Intern::lost(m[k])); } }
            }
            Intern::lemma_answers(ks, o, m, o, n);
        }
    }
    /// Everything which waited is done, and what the handlers returned to it: out.
    pub open spec fn all_done(o: Map<usize, Subsystem<I, O>>, n: Map<usize, Subsystem<I, O>>, qi: Seq<(Destination, I)>, qo: Seq<(Destination, O)>, id: BrokerID) -> bool {
        exists|out: Seq<(Destination, O)>| #[trigger] Intern::is_new(o, n, qi, out) && Intern::all_got(o, n, qi, qo + out, id)
    }
//@fn b Intern<I,O>::process ret=r
//@ spec
    requires old(self).msg_queue_in@.len() + old(self).msg_queue_out@.len() <= isize::MAX,
    ensures r is Ok, final(self).kept(old(self)), final(self).msg_queue_in@.len() == 0, final(self).msg_queue_out@.len() == 0,
        Intern::all_done(old(self).subsystems@, final(self).subsystems@, old(self).msg_queue_in@, old(self).msg_queue_out@, old(self).id), // [B01]
//@ entry
        let ghost o = self.subsystems@;
        let ghost (qi, qo, id) = (self.msg_queue_in@, self.msg_queue_out@, self.id);
        let ghost mut round = 0int;
        let ghost mut out = Seq::<(Destination, O)>::empty();
        proof { assert(qo + out =~= qo); }
//@ loop 0
        invariant_except_break self.kept(old(self)), id == old(self).id, 0 <= round <= 1, msg_count <= round * isize::MAX, qi.len() + qo.len() <= isize::MAX,
            round == 0 ==> self.msg_queue_in@ == qi && self.msg_queue_out@ == qo && self.subsystems@ == o,
            round == 1 ==> self.msg_queue_in@.len() == 0 && self.msg_queue_out@ == out && Intern::is_new(o, self.subsystems@, qi, out) && Intern::all_got(o, self.subsystems@, qi, qo, id),
        ensures self.kept(old(self)), self.msg_queue_in@.len() == 0, self.msg_queue_out@.len() == 0, Intern::all_done(o, self.subsystems@, qi, qo, id),
        decreases 2 - round,
//@ loopstart 0
        let ghost m = self.subsystems@;
        proof { axiom_vec_len(self.msg_queue_out); if round == 1 { assert(self.msg_queue_in@ =~= Seq::empty()); } }
//@ before "if self.msg_queue_in.is_empty()"
        proof {
            if round == 0 { out = self.msg_queue_out@; if out.len() == 0 { assert(qo + out =~= qo); assert(Intern::is_new(o, self.subsystems@, qi, out)); } }
            else { Intern::lemma_rounds(o, m, self.subsystems@, qi, qo, out, id); }
            round = round + 1;
        }
//@end
    /// One message from the queue.
    pub open spec fn took(o: &Self, n: &Self, m: InternMessage<I, O>, go: bool) -> bool {
        match m {
            InternMessage::Subsystem(SubsystemAction::Add(k, s)) => go && n.subsystems@ == o.subsystems@.insert(k, s) && n.same_queues(o) && n.copies == o.copies,
            InternMessage::Subsystem(SubsystemAction::Remove(k)) => go && n.subsystems@ == o.subsystems@.remove(k) && n.same_queues(o) && n.copies == o.copies,
            InternMessage::MessageIn(d, x) => go && n.subsystems@ == o.subsystems@ && n.msg_queue_in@ == o.msg_queue_in@.push((d, x)) && n.msg_queue_out@ == o.msg_queue_out@ && n.copies == o.copies,
            InternMessage::MessageOut(d, x) => go && n.subsystems@ == o.subsystems@ && n.msg_queue_in@ == o.msg_queue_in@ && n.msg_queue_out@ == o.msg_queue_out@.push((d, x)) && n.copies == o.copies,
            InternMessage::Settle(c, a) => go && (over(a.queue()) || gone(a.queue())) && n.same_queues(o) && n.copies == o.copies && n.subsystems@.dom() == o.subsystems@.dom()
                && if c@.contains(o.id) { n.subsystems@ == o.subsystems@ } else { forall|k: usize| #[trigger] o.subsystems@.dom().contains(k) ==> Subsystem::did_settle(o.subsystems@[k], n.subsystems@[k], c@.push(o.id)) && n.subsystems@[k].is_over() },
            InternMessage::Dropped => n.same_queues(o) && n.copies == o.copies - 1 && go == (n.copies > 0) && n.subsystems@ == if go { o.subsystems@ } else { Map::empty() },
            InternMessage::Cloned => go && n.same_queues(o) && n.copies == o.copies + 1 && n.subsystems@ == o.subsystems@,
        }
    }
//@fn b Intern<I,O>::get_msg ret=r
//@ spec
    requires 0 < old(self).copies < usize::MAX,
    ensures final(self).id == old(self).id,
        if final(self).main_rx.read() == old(self).main_rx.read() { !r } else { final(self).main_rx.read() == old(self).main_rx.read().push(final(self).main_rx.read().last()) && Intern::took(old(self), final(self), final(self).main_rx.read().last(), r) }, // [B01]
//@ sub /InternMessage::Settle\(list, reply\) => \{/ => /InternMessage::Settle(list, reply) => { let ghost c0 = list@;/
//@ entry
        let ghost o = self.subsystems@;
        let ghost en = entries(o);
        proof { axiom_entries(o); }
//@ beforeloop 0
        let ghost sq = vx_it0.seq();
        let ghost c = list@;
//@ loop 0
        invariant vx_it0.wf(), enumerates(en, o), en == entries(o), vx_it0.seq() == sq, Intern::listed(sq, en), c == list@,
            forall|j: int| 0 <= j < vx_it0.pos() ==> Subsystem::did_settle((#[trigger] en[j]).1, *final(sq[j].1), c) && (*final(sq[j].1)).is_waited(settling@),
        decreases vx_it0.left(),
//@ loopstart 0
        let ghost v0 = settling@;
//@ loopend 0
        proof {
            if settling@.len() > v0.len() { assert(v0.push(settling@.last()) =~= settling@); lemma_waits(v0, settling@.last(), settling@.last().queue()); }
            assert forall|q: int| #[trigger] waits_for(v0, q) implies waits_for(settling@, q) by { if settling@.len() > v0.len() { lemma_waits(v0, settling@.last(), q); } }
        }
//@ afterloop 0
        proof { assert forall|k: usize| #[trigger] o.dom().contains(k) implies Subsystem::did_settle(o[k], self.subsystems@[k], c0.push(self.id)) && self.subsystems@[k].is_waited(settling@) by { let j = entry_pos(o, k); assert(en[j] == (k, o[k])); assert(self.subsystems@[k] == *final(sq[j].1)); } }
//@end
}
impl<I: Message + 'static, O: Message + 'static> Broker<I, O> {
    pub open spec fn put(&self, o: &Self, m: InternMessage<I, O>, ok: bool) -> bool {
        self.id == o.id && self.subsystems == o.subsystems && self.intern_tx.queue() == o.intern_tx.queue() && if ok { self.intern_tx.log() == o.intern_tx.log().push(m) } else { gone(o.intern_tx.queue()) }
    }
    /// Another copy of the same broker.
    #[verifier::external_body]
    pub fn another(&self) -> (r: Self) ensures r.id == self.id, r.intern_tx.queue() == self.intern_tx.queue() { unimplemented!() }
    /// This subsystem is put in, with a number which has not been used before.
    pub open spec fn added(o: &Self, n: &Self, s: Subsystem<I, O>, r: VResult<usize>) -> bool {
        n.id == o.id && n.subsystems.n() == o.subsystems.n() + 1 && n.intern_tx.queue() == o.intern_tx.queue()
            && match r { Ok(k) => k == n.subsystems.n() && n.intern_tx.log() == o.intern_tx.log().push(InternMessage::Subsystem(SubsystemAction::Add(k, s))), Err(_) => gone(o.intern_tx.queue()) }
    }
//@fn b Broker<I,O>::add_subsystem ret=r
//@ spec
    requires old(self).subsystems.n() < usize::MAX,
    ensures Broker::added(old(self), final(self), ss, r), // [B01]
//@ sub /let mut subsystems = / => /let subsystems = /
//@end
//@fn b Broker<I,O>::add_handler ret=r
//@ spec
    requires old(self).subsystems.n() < usize::MAX,
    ensures Broker::added(old(self), final(self), Subsystem::Handler(handler), r), // [B01]
//@end
//@fn b Broker<I,O>::add_translator ret=r
//@ spec
    requires old(self).subsystems.n() < usize::MAX,
    ensures Broker::added(old(self), final(self), Subsystem::Translator(translate), r), // [B01]
//@end
    pub open spec fn linked<TI: Message + 'static, TO: Message + 'static>(o: &Self, n: &Self, b: Broker<TI, TO>, i_ti: Option<Translate<I, TI>>, i_to: Option<Translate<I, TO>>, o_ti: Option<Translate<O, TI>>, o_to: Option<Translate<O, TO>>, r: VResult<usize>) -> bool {
        exists|t: SubsystemTranslatorBox<I, O>| #[trigger] made(t, Translator { broker: b, translate_fn_i_ti: i_ti, translate_fn_i_to: i_to, translate_fn_o_ti: o_ti, translate_fn_o_to: o_to }) && Broker::added(o, n, Subsystem::Translator(t), r)
    }
//@fn b Broker<I,O>::emit_msg_in_dest ret=r
//@ spec
    ensures final(self).put(old(self), InternMessage::MessageIn(dst, msg), r is Ok), // [B01]
//@end
//@fn b Broker<I,O>::emit_msg_in ret=r
//@ spec
    ensures final(self).put(old(self), InternMessage::MessageIn(Destination::All, msg), r is Ok), // [B01]
//@end
//@fn b Broker<I,O>::emit_msg_out_dest ret=r
//@ spec
    ensures final(self).put(old(self), InternMessage::MessageOut(dst, msg), r is Ok), // [B01]
//@end
//@fn b Broker<I,O>::emit_msg_out ret=r
//@ spec
    ensures final(self).put(old(self), InternMessage::MessageOut(Destination::All, msg), r is Ok), // [B01]
//@end
//@fn b Broker<I,O>::add_translator_i_ti ret=r
//@ spec
    requires old(self).subsystems.n() < usize::MAX,
    ensures Broker::linked(old(self), final(self), broker, Some(i_ti), None, None, None, r), // [B01]
//@end
//@fn b Broker<I,O>::add_translator_i_to ret=r
//@ spec
    requires old(self).subsystems.n() < usize::MAX,
    ensures Broker::linked(old(self), final(self), broker, None, Some(i_to), None, None, r), // [B01]
//@end
//@fn b Broker<I,O>::add_translator_o_ti ret=r
//@ spec
    requires old(self).subsystems.n() < usize::MAX,
    ensures Broker::linked(old(self), final(self), broker, None, None, Some(o_ti), None, r), // [B01]
//@end
//@fn b Broker<I,O>::add_translator_o_to ret=r
//@ spec
    requires old(self).subsystems.n() < usize::MAX,
    ensures Broker::linked(old(self), final(self), broker, None, None, None, Some(o_to), r), // [B01]
//@end
    /// The broker is asked to settle, and answers on this queue.
    pub open spec fn asked(o: &Self, n: &Self, c: Seq<BrokerID>, q: int) -> bool {
        n.id == o.id && n.intern_tx.queue() == o.intern_tx.queue() && n.intern_tx.log().len() == o.intern_tx.log().len() + 1 && n.intern_tx.log().drop_last() =~= o.intern_tx.log()
            && (n.intern_tx.log().last() matches InternMessage::Settle(d, a) && d@ == c && a.queue() == q)
    }
    /// First these messages are put in, then the broker is asked to settle, and it answers.
    pub open spec fn waited(o: &Self, n: &Self, first: Seq<InternMessage<I, O>>, c: Seq<BrokerID>) -> bool {
        let l = o.intern_tx.log() + first;
        n.id == o.id && n.intern_tx.queue() == o.intern_tx.queue() && n.intern_tx.log().len() == l.len() + 1 && n.intern_tx.log().drop_last() =~= l
            && (n.intern_tx.log().last() matches InternMessage::Settle(d, a) && d@ == c && over(a.queue()))
    }
//@fn b Broker<I,O>::settle_start ret=r vis=none
//@ spec
    ensures match r { Ok(x) => Broker::asked(old(self), final(self), callers@, x.queue()), Err(_) => gone(old(self).intern_tx.queue()) }, // [B02]
//@end
//@fn b Broker<I,O>::settle ret=r
//@ spec
    ensures if r is Ok { Broker::waited(old(self), final(self), Seq::empty(), callers@) } else { gone(old(self).intern_tx.queue()) }, // [B02]
//@end
//@fn b Broker<I,O>::settle_msg_in_dest ret=r
//@ spec
    ensures if r is Ok { Broker::waited(old(self), final(self), seq![InternMessage::MessageIn(dst, msg)], Seq::empty()) } else { gone(old(self).intern_tx.queue()) }, // [B02]
//@end
//@fn b Broker<I,O>::settle_msg_in ret=r
//@ spec
    ensures if r is Ok { Broker::waited(old(self), final(self), seq![InternMessage::MessageIn(Destination::All, msg)], Seq::empty()) } else { gone(old(self).intern_tx.queue()) }, // [B02]
//@end
//@fn b Broker<I,O>::settle_msg_out_dest ret=r
//@ spec
    ensures if r is Ok { Broker::waited(old(self), final(self), seq![InternMessage::MessageOut(dst, msg)], Seq::empty()) } else { gone(old(self).intern_tx.queue()) }, // [B02]
//@end
//@fn b Broker<I,O>::settle_msg_out ret=r
//@ spec
    ensures if r is Ok { Broker::waited(old(self), final(self), seq![InternMessage::MessageOut(Destination::All, msg)], Seq::empty()) } else { gone(old(self).intern_tx.queue()) }, // [B02]
//@end
//@fn b Broker<I,O>::remove_subsystem ret=r
//@ spec
    ensures if r is Ok { Broker::waited(old(self), final(self), seq![InternMessage::Subsystem(SubsystemAction::Remove(ss))], Seq::empty()) } else { gone(old(self).intern_tx.queue()) }, // [B01]
//@end
//@fn b `<Broker<I,O> as Clone>::clone` as=copied ret=r vis=none
//@ sub ! /\(&self\)/ => /(&mut self)/
//@ sub ! /intern_tx: self\.intern_tx\.dup\(\),/ => /intern_tx: self.intern_tx.same(),/
//@ sub ! /\s*\.expect\("[^"]*"\);/ => /;/
//@ sub ! /Arc::clone\(&self\.subsystems\)/ => /self.subsystems.dup()/
//@ spec
    ensures final(self).put(old(self), InternMessage::Cloned, true) || gone(old(self).intern_tx.queue()),
        r.id == old(self).id && r.intern_tx.queue() == old(self).intern_tx.queue() && r.subsystems == old(self).subsystems && r.intern == old(self).intern, // [B01]
//@end
//@fn b `<Broker<I,O> as Drop>::drop` as=dropped vis=none
//@ spec
    ensures final(self).put(old(self), InternMessage::Dropped, true) || gone(old(self).intern_tx.queue()), // [B01]
//@end
    /// The subsystem which was put in last.
    pub open spec fn newest(&self) -> Option<(usize, Subsystem<I, O>)> { match self.intern_tx.log().last() { InternMessage::Subsystem(SubsystemAction::Add(k, s)) => Some((k, s)), _ => None } }
    pub open spec fn put_in(o: &Self, n: &Self, k: usize) -> bool { n.newest() matches Some(x) && Broker::added(o, n, x.1, Ok(k)) }
//@fn b Broker<I,O>::get_tap_out ret=r
//@ spec
    requires old(self).subsystems.n() < usize::MAX,
    ensures match r { Ok((x, k)) => Broker::put_in(old(self), final(self), k) && (final(self).newest()->Some_0.1 matches Subsystem::TapOut(t) && t.queue() == x.queue() && t.log() =~= Seq::<O>::empty()), Err(_) => gone(old(self).intern_tx.queue()) }, // [B01]
//@end
//@fn b Broker<I,O>::get_tap_out_sync ret=r
//@ spec
    requires old(self).subsystems.n() < usize::MAX,
    ensures match r { Ok((x, k)) => Broker::put_in(old(self), final(self), k) && (final(self).newest()->Some_0.1 matches Subsystem::TapSyncOut(t) && t.queue() == x.queue() && t.log() =~= Seq::<O>::empty()), Err(_) => gone(old(self).intern_tx.queue()) }, // [B01]
//@end
//@fn b Broker<I,O>::get_tap_in ret=r
//@ spec
    requires old(self).subsystems.n() < usize::MAX,
    ensures match r { Ok((x, k)) => Broker::put_in(old(self), final(self), k) && (final(self).newest()->Some_0.1 matches Subsystem::TapIn(t) && t.queue() == x.queue() && t.log() =~= Seq::<I>::empty()), Err(_) => gone(old(self).intern_tx.queue()) }, // [B01]
//@end
//@fn b Broker<I,O>::get_tap_in_sync ret=r
//@ spec
    requires old(self).subsystems.n() < usize::MAX,
    ensures match r { Ok((x, k)) => Broker::put_in(old(self), final(self), k) && (final(self).newest()->Some_0.1 matches Subsystem::TapSyncIn(t) && t.queue() == x.queue() && t.log() =~= Seq::<I>::empty()), Err(_) => gone(old(self).intern_tx.queue()) }, // [B01]
//@end
    /// The other broker has a translator back to this one.
    pub open spec fn back<TI: Message + 'static, TO: Message + 'static>(o: &Self, b: Broker<TI, TO>, b2: Broker<TI, TO>, i: Option<Translate<TI, I>>, t: Option<Translate<TO, I>>) -> bool {
        exists|c: Broker<I, O>, k: usize| #[trigger] Broker::<TI, TO>::linked::<I, O>(&b, &b2, c, i, None, t, None, Ok(k)) && c.id == o.id && c.intern_tx.queue() == o.intern_tx.queue()
    }
    pub open spec fn link<TI: Message + 'static, TO: Message + 'static>(o: &Self, n: &Self, b: Broker<TI, TO>, to_i: Translate<TO, I>, o_ti: Translate<O, TI>, r: VResult<usize>) -> bool {
        exists|b2: Broker<TI, TO>| #[trigger] Broker::linked(o, n, b2, None, None, Some(o_ti), None, r) && Broker::back(o, b, b2, None, Some(to_i))
    }
    pub open spec fn direct<TI: Message + 'static, TO: Message + 'static>(o: &Self, n: &Self, b: Broker<TI, TO>, ti_i: Translate<TI, I>, o_to: Translate<O, TO>, r: VResult<usize>) -> bool {
        exists|b2: Broker<TI, TO>| #[trigger] Broker::linked(o, n, b2, None, None, None, Some(o_to), r) && Broker::back(o, b, b2, Some(ti_i), None)
    }
//@fn b Broker<I,O>::add_translator_link ret=r
//@ spec
    requires old(self).subsystems.n() < usize::MAX, broker.subsystems.n() < usize::MAX,
    ensures r is Err || Broker::link(old(self), final(self), broker, tr_to_i, tr_o_ti, r), // [B02]
//@end
//@fn b Broker<I,O>::add_translator_direct ret=r
//@ spec
    requires old(self).subsystems.n() < usize::MAX, broker.subsystems.n() < usize::MAX,
    ensures r is Err || Broker::direct(old(self), final(self), broker, tr_ti_i, tr_o_to, r), // [B02]
//@end
}
/// This translator, as the broker sees it.
pub uninterp spec fn made<I: Message, O: Message, TI: Message + 'static, TO: Message + 'static>(b: SubsystemTranslatorBox<I, O>, t: Translator<I, O, TI, TO>) -> bool;
#[verifier::external_body]
pub fn vx_translator<I: Message, O: Message, TI: Message + 'static, TO: Message + 'static>(t: Translator<I, O, TI, TO>) -> (r: SubsystemTranslatorBox<I, O>) ensures made(r, t) { unimplemented!() }
impl<I: Message, O: Message, TI: Message + 'static, TO: Message + 'static> Translator<I, O, TI, TO> {
    pub open spec fn same_fns(&self, o: &Self) -> bool { self.translate_fn_i_ti == o.translate_fn_i_ti && self.translate_fn_i_to == o.translate_fn_i_to && self.translate_fn_o_ti == o.translate_fn_o_ti && self.translate_fn_o_to == o.translate_fn_o_to }
    /// What the other broker gets: what the messages translate to, with the trail.
    pub open spec fn told(o: &Self, n: &Self, t: Vec<BrokerID>, ti: Option<TI>, to: Option<TO>) -> bool {
        let a = match ti { Some(m) => Seq::empty().push(InternMessage::<TI, TO>::MessageIn(Destination::Forwarded(t), m)), None => Seq::empty() };
        let b = match to { Some(m) => Seq::empty().push(InternMessage::<TI, TO>::MessageOut(Destination::Forwarded(t), m)), None => Seq::empty() };
        n.same_fns(o) && n.broker.id == o.broker.id && n.broker.intern_tx.queue() == o.broker.intern_tx.queue() && (gone(o.broker.intern_tx.queue()) || n.broker.intern_tx.log() =~= o.broker.intern_tx.log() + a + b)
    }
    pub open spec fn via<A, B>(f: Option<Translate<A, B>>, a: A) -> Option<B> { match f { Some(g) => g.gives(a), None => None } }
//@fn b Translator<I,O,TI,TO>::emit_ti_to
//@ spec
    ensures Translator::told(old(self), final(self), trail, msg_ti, msg_to), // [B01]
//@end
//@fn b `<Translator<I,O,TI,TO> as SubsystemTranslator<I,O>>::translate_input`
//@ spec
    ensures Translator::told(old(self), final(self), trail, Translator::<I, O, TI, TO>::via(old(self).translate_fn_i_ti, msg), Translator::<I, O, TI, TO>::via(old(self).translate_fn_i_to, msg)), // [B01]
//@ closure 0 -> (r: Option<TI>)
    ensures r == tr.gives(msg),
//@ closure 1 -> (r: Option<TO>)
    ensures r == tr.gives(msg),
//@end
//@fn b `<Translator<I,O,TI,TO> as SubsystemTranslator<I,O>>::translate_output`
//@ spec
    ensures Translator::told(old(self), final(self), trail, Translator::<I, O, TI, TO>::via(old(self).translate_fn_o_ti, msg), Translator::<I, O, TI, TO>::via(old(self).translate_fn_o_to, msg)), // [B01]
//@ closure 0 -> (r: Option<TI>)
    ensures r == tr.gives(msg),
//@ closure 1 -> (r: Option<TO>)
    ensures r == tr.gives(msg),
//@end
//@fn b `<Translator<I,O,TI,TO> as SubsystemTranslator<I,O>>::settle` ret=r
//@ spec
    ensures final(self).same_fns(old(self)),
        if callers@.contains(old(self).broker.id) { r matches Ok(None) && final(self).broker == old(self).broker } else { match r { Ok(Some(x)) => Broker::asked(&old(self).broker, &final(self).broker, callers@, x.queue()), Ok(None) => false, Err(_) => gone(old(self).broker.intern_tx.queue()) } }, // [B02]
//@end
}

fn main() {}
}
