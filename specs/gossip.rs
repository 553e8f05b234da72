//@include gossip_body.rs
//@include wrapper.rs
//@file intern flmodules/src/gossip_events/intern.rs
//@file core flmodules/src/gossip_events/core.rs
//@file rnd flmodules/src/random_connections/broker.rs
//@file gb flmodules/src/gossip_events/broker.rs
//@file ids flarch/src/nodeids.rs
//@sub /MODULE_NAME: &str/ => /MODULE_NAME: &'static str/
//@sub /\.clone\(\)/ => /.dup()/
//@sub /\.unwrap_or\(/ => /.vx_unwrap_or(/
verus! {
// ------------------------------------------------------------------ what is trusted here
pub axiom fn axiom_vec_ext<T>(a: Vec<T>, b: Vec<T>) ensures a@ == b@ ==> a == b;
#[verifier::external_body]
pub struct NodeInfo { x: u8 }
#[verifier::external_body]
pub struct EventsStorageV1 { x: u8 }
#[verifier::external_body]
pub struct EventsStorageV2 { x: u8 }
#[verifier::external_body]
pub struct EventsStorageV3 { x: u8 }
impl EventsStorageV1 { #[verifier::external_body] pub fn to_latest(self) -> (r: EventsStorage) { unimplemented!() } }
impl EventsStorageV2 { #[verifier::external_body] pub fn to_latest(self) -> (r: EventsStorage) { unimplemented!() } }
impl EventsStorageV3 { #[verifier::external_body] pub fn to_latest(&self) -> (r: EventsStorage) { unimplemented!() } }
/// Box<dyn DataStorage>: texts by name. Assumed: writing does not fail.
#[verifier::external_body]
pub struct VxStorage { x: u8 }
impl View for VxStorage { type V = Map<Seq<char>, Seq<char>>; uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>; }
impl VxStorage {
    pub open spec fn text(&self, k: Seq<char>) -> Seq<char> { if self@.dom().contains(k) { self@[k] } else { Seq::empty() } }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: VResult<String>) ensures r is Ok && r->Ok_0@ == self.text(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&mut self, k: &str, v: &str) -> (r: VResult<()>) ensures final(self)@ == old(self)@.insert(k@, v@) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_no_text(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
/// The watchers of the events (tokio::sync::watch).
#[verifier::external_body]
pub struct VxSender { x: u8 }
#[verifier::external_body]
pub struct VxReceiver { x: u8 }
#[verifier::external_body]
pub fn vx_channel(e: EventsStorage) -> (r: (VxSender, VxReceiver)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_tell(tx: &mut Option<VxSender>, e: EventsStorage) { unimplemented!() }

// ------------------------------------------------------------------ copied types
//@struct ids NodeIDs
//@const gb MODULE_NAME
//@enum intern ModuleMessage
//@enum rnd RandomIn
//@enum rnd RandomOut
//@enum gb GossipIn
//@enum gb GossipOut
//@enum intern InternIn
//@enum intern InternOut
//@struct intern Intern
//@  sub /Box<dyn DataStorage \+ Send>/ => /VxStorage/
//@  sub /watch::Sender<EventsStorage>/ => /VxSender/
//@enum core EventsStorageSave
impl NodeIDs {
//@fn ids NodeIDs::new
//@ spec
    ensures res.0@.len() == nbr,
//@ sub /NodeID::rnd\(\)/ => /vx_rnd()/
//@ loop 0
    invariant vx_it0.wf(), vx_it0.seq().len() == nbr, ret.0@.len() == vx_it0.pos(),
    decreases vx_it0.left(),
//@end
//@fn ids NodeIDs::empty
//@ spec
    ensures res.0@.len() == 0,
//@end
}
#[verifier::external_body]
pub fn vx_rnd() -> (r: NodeID) { unimplemented!() }

// ------------------------------------------------------------------ keeping the events over a restart
pub open spec fn saved(e: EventsStorage) -> Seq<char> { yaml_of(EventsStorageSave::V4(e)) }
impl EventsStorageSave {
//@fn core EventsStorageSave::to_latest
//@ spec
    ensures self matches EventsStorageSave::V4(e) ==> res == e, // [G03]
//@end
//@fn core EventsStorageSave::from_str
//@ spec
    ensures forall|e: EventsStorage| data@ == #[trigger] saved(e) ==> res == Ok::<EventsStorage, VErr>(e), // [G03]
//@ sub /serde_yaml::from_str::<EventsStorageSave>\(data\)/ => /vx_from_yaml::<EventsStorageSave>(data)/
//@ sub /Ok\(serde_yaml::from_str::<EventsStorageV1>\(data\)\.map\(\|es\| es\.to_latest\(\)\)\?\)/ => /match vx_from_yaml::<EventsStorageV1>(data) { Ok(es) => Ok(es.to_latest()), Err(e) => Err(e) }/
//@ entry
    assert forall|e: EventsStorage| data@ == #[trigger] saved(e) implies unyaml::<EventsStorageSave>(data@) == Some(EventsStorageSave::V4(e)) by { axiom_yaml(EventsStorageSave::V4(e)); }
//@end
}
impl EventsStorage {
//@fn core EventsStorage::get
//@ spec
    ensures res is Ok && res->Ok_0@ == saved(*self), // [G03]
//@ sub /serde_yaml::to_string\(/ => /vx_to_yaml(/
//@end
//@fn core EventsStorage::set
//@ spec
    ensures forall|e: EventsStorage| data@ == #[trigger] saved(e) ==> res is Ok && *final(self) == e, // [G03]
//@end
}

// ------------------------------------------------------------------ what is sent
/// o sends msg to dst.
pub open spec fn to(o: InternOut, dst: U256, msg: ModuleMessage) -> bool {
    o matches InternOut::Network(RandomIn::NetworkWrapperToNetwork(d, w)) && d == dst && packs(w, "Gossip"@, msg)
}
pub open spec fn sent(out: Seq<InternOut>, dst: U256, msg: ModuleMessage) -> bool { exists|i: int| 0 <= i < out.len() && to(#[trigger] out[i], dst, msg) }
/// One of these events is not from node, and has this ID.
pub open spec fn some_id(es: Seq<Event>, node: U256, id: U256) -> bool { exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).src != node && ev_id(es[i]) == id }
pub open spec fn lists(ids: Seq<U256>, es: Seq<Event>, node: U256) -> bool { forall|x: U256| #[trigger] ids.contains(x) <==> some_id(es, node, x) }
/// o tells node which of the events it might not have.
pub open spec fn announce(o: InternOut, node: U256, es: Seq<Event>) -> bool { exists|v: Vec<U256>| #[trigger] to(o, node, ModuleMessage::KnownEventIDs(v)) && lists(v@, es, node) }
pub open spec fn told(out: Seq<InternOut>, n: int, node: U256, es: Seq<Event>) -> bool { exists|i: int| 0 <= i < n && announce(#[trigger] out[i], node, es) }
/// Everyone connected but the sender is told, and so is the application; nothing else.
pub open spec fn spreads(s: &Intern, out: Seq<InternOut>, src: U256, es: Seq<Event>) -> bool { spreads_in(s.nodes.0@, s.id, out, src, es) }
pub open spec fn spreads_in(nodes: Seq<U256>, id: U256, out: Seq<InternOut>, src: U256, es: Seq<Event>) -> bool {
    let n = out.len() - es.len();
    &&& n >= 0
    &&& forall|i: int| n <= i < out.len() ==> (#[trigger] out[i]) == InternOut::Gossip(GossipOut::NewEvent(es[i - n]))
    &&& forall|node: U256| #[trigger] nodes.contains(node) && node != src && node != id ==> told(out, n, node, es)
    &&& forall|i: int| 0 <= i < n ==> told_one(nodes, id, #[trigger] out[i], src, es)
}
pub open spec fn told_one(nodes: Seq<U256>, id: U256, o: InternOut, src: U256, es: Seq<Event>) -> bool { exists|node: U256| #[trigger] nodes.contains(node) && node != src && node != id && announce(o, node, es) }
pub open spec fn not_from(ids: Seq<U256>, es: Seq<Event>, node: U256, fwd: Seq<int>, bwd: Seq<int>) -> bool {
    &&& forall|j: int| #![trigger es[j]] 0 <= j < es.len() ==> if node != es[j].src { fwd[j] >= 0 && ids[fwd[j]] == ev_id(es[j]) } else { fwd[j] < 0 }
    &&& forall|i: int| #![trigger ids[i]] 0 <= i < ids.len() ==> 0 <= bwd[i] < es.len() && node != es[bwd[i]].src && ids[i] == ev_id(es[bwd[i]])
}
pub proof fn lemma_not_from(ids: Seq<U256>, es: Seq<Event>, node: U256, fwd: Seq<int>, bwd: Seq<int>)
    requires emb(es.len() as int, ids.len() as int, fwd, bwd), not_from(ids, es, node, fwd, bwd),
    ensures lists(ids, es, node),
{
    assert forall|x: U256| #[trigger] ids.contains(x) <==> some_id(es, node, x) by {
        if ids.contains(x) { let i = choose|i: int| 0 <= i < ids.len() && ids[i] == x; assert(es[bwd[i]].src != node); }
        if some_id(es, node, x) { let j = choose|j: int| 0 <= j < es.len() && (#[trigger] es[j]).src != node && ev_id(es[j]) == x; assert(ids[fwd[j]] == x); }
    }
}
pub proof fn lemma_spreads(s: &Intern, f: Seq<&U256>, fwd: Seq<int>, bwd: Seq<int>, src: U256, outs: Seq<Vec<InternOut>>, out: Seq<InternOut>, es: Seq<Event>)
    requires filt(refs(s.nodes.0@), f, fwd, bwd), s.goes(f, fwd, src, outs, out, es),
    ensures spreads(s, out, src, es),
{
    lemma_ones(outs);
    let n = outs.len() as int;
    assert forall|node: U256| #[trigger] s.nodes.0@.contains(node) && node != src && node != s.id implies told(out, n, node, es) by {
        let j = choose|j: int| 0 <= j < s.nodes.0@.len() && s.nodes.0@[j] == node;
        assert(*refs(s.nodes.0@)[j] == node);
        let i = fwd[j];
        assert(*f[i] == node);
        assert(announce(outs[i]@[0], *f[i], es));
        assert(out[i] == flat_of(outs)[i]);
    }
    assert forall|i: int| 0 <= i < n implies told_one(s.nodes.0@, s.id, #[trigger] out[i], src, es) by {
        assert(out[i] == flat_of(outs)[i]);
        let j = bwd[i];
        assert(*refs(s.nodes.0@)[j] == *f[i]);
        assert(s.nodes.0@[j] == *f[i]);
        assert(s.nodes.0@.contains(*f[i]));
        assert(announce(outs[i]@[0], *f[i], es));
    }
}
/// The storage over the events which arrive one after the other.
pub open spec fn history(h: Seq<EventsStorage>, rs: Seq<bool>, es: Seq<Event>) -> bool {
    h.len() == es.len() + 1 && rs.len() == es.len() && forall|i: int| #![trigger h[i + 1]] 0 <= i < es.len() ==> h[i + 1].takes(&h[i], es[i], rs[i])
}
/// The events which were taken in.
pub open spec fn news(es: Seq<Event>, rs: Seq<bool>) -> Seq<Event> decreases es.len() {
    if es.len() == 0 || rs.len() != es.len() { Seq::empty() } else { let p = news(es.drop_last(), rs.drop_last()); if rs.last() { p.push(es.last()) } else { p } }
}
/// b is what is still outstanding of a after the first n events.
pub open spec fn came(b: Seq<U256>, a: Seq<U256>, es: Seq<Event>, n: int) -> bool {
    forall|x: U256| #[trigger] b.contains(x) <==> a.contains(x) && !arrived(es, n, x)
}
pub open spec fn arrived(es: Seq<Event>, n: int, x: U256) -> bool { exists|i: int| 0 <= i < n && ev_id(#[trigger] es[i]) == x }
pub proof fn lemma_going_0(s: &Intern, es: Seq<Event>, h: Seq<EventsStorage>)
    requires s.wf(), h == seq![s.events],
    ensures s.going(s, es, 0, h, Seq::empty(), Seq::empty()),
{ assert(es.take(0).len() == 0); }
pub proof fn lemma_going(s: &Intern, m: &Intern, b: &Intern, o: &Intern, es: Seq<Event>, p: int, h: Seq<EventsStorage>, rs: Seq<bool>, out: Seq<Event>, out2: Seq<Event>, k: bool)
    requires b.going(o, es, p, h, rs, out), 0 <= p < es.len(), m.but_out(b), m.events == b.events, m.storage == b.storage, s.storage == b.storage, forall|x: U256| #[trigger] m.outstanding@.contains(x) <==> b.outstanding@.contains(x) && x != ev_id(es[p]),
        s.but_out(m), s.outstanding == m.outstanding, s.wf(), s.events.takes(&m.events, es[p], k), out2 == if k { out.push(es[p]) } else { out },
    ensures s.going(o, es, p + 1, h.push(s.events), rs.push(k), out2),
{
    let (h2, rs2, e2) = (h.push(s.events), rs.push(k), es.take(p + 1));
    assert(e2.drop_last() =~= es.take(p)); assert(rs2.drop_last() =~= rs); assert(e2.last() == es[p]);
    assert forall|i: int| #![trigger h2[i + 1]] 0 <= i < e2.len() implies h2[i + 1].takes(&h2[i], e2[i], rs2[i]) by { if i < p { assert(h[i + 1].takes(&h[i], es.take(p)[i], rs[i])); } }
    assert forall|x: U256| #[trigger] s.outstanding@.contains(x) <==> o.outstanding@.contains(x) && !arrived(es, p + 1, x) by {
        if arrived(es, p, x) { let i = choose|i: int| 0 <= i < p && ev_id(#[trigger] es[i]) == x; assert(ev_id(es[i]) == x); }
        if x == ev_id(es[p]) { assert(arrived(es, p + 1, x)); }
        if arrived(es, p + 1, x) && x != ev_id(es[p]) { assert(arrived(es, p, x)); }
        assert(m.outstanding@.contains(x) <==> b.outstanding@.contains(x) && x != ev_id(es[p]));
    }
}
/// Every one of f is asked for what it has.
pub open spec fn asked(out: Seq<InternOut>, f: Seq<&U256>) -> bool { out.len() == f.len() && forall|i: int| 0 <= i < out.len() ==> to(#[trigger] out[i], *f[i], ModuleMessage::RequestEventIDs) }
pub open spec fn asking(outs: Seq<Vec<InternOut>>, f: Seq<&U256>) -> bool { outs.len() == f.len() && forall|i: int| 0 <= i < outs.len() ==> (#[trigger] outs[i])@.len() == 1 && to(outs[i]@[0], *f[i], ModuleMessage::RequestEventIDs) }
pub proof fn lemma_asked(outs: Seq<Vec<InternOut>>, f: Seq<&U256>)
    requires asking(outs, f),
    ensures asked(flat_of(outs), f),
{
    lemma_ones(outs);
    assert forall|i: int| 0 <= i < outs.len() implies to(#[trigger] flat_of(outs)[i], *f[i], ModuleMessage::RequestEventIDs) by { assert(outs[i]@.len() == 1); }
}
pub open spec fn one_of(o: InternOut, l: Seq<U256>) -> bool { exists|n: U256| #[trigger] l.contains(n) && to(o, n, ModuleMessage::RequestEventIDs) }
pub open spec fn one_new(o: InternOut, s: &Intern, l: NodeIDs) -> bool { exists|n: U256| #[trigger] s.new_node(n, l) && to(o, n, ModuleMessage::RequestEventIDs) }
pub open spec fn all_asked(out: Seq<InternOut>, l: Seq<U256>) -> bool {
    &&& forall|i: int| 0 <= i < out.len() ==> one_of(#[trigger] out[i], l)
    &&& forall|n: U256| #[trigger] l.contains(n) ==> sent(out, n, ModuleMessage::RequestEventIDs)
}
pub open spec fn new_asked(out: Seq<InternOut>, s: &Intern, l: NodeIDs) -> bool {
    &&& forall|i: int| 0 <= i < out.len() ==> one_new(#[trigger] out[i], s, l)
    &&& forall|n: U256| #[trigger] s.new_node(n, l) ==> sent(out, n, ModuleMessage::RequestEventIDs)
}
pub proof fn lemma_all_asked(outs: Seq<Vec<InternOut>>, l: Seq<U256>)
    requires asking(outs, refs(l)),
    ensures all_asked(flat_of(outs), l),
{
    lemma_asked(outs, refs(l));
    let out = flat_of(outs);
    assert forall|i: int| 0 <= i < out.len() implies one_of(#[trigger] out[i], l) by { assert(l.contains(l[i])); }
    assert forall|n: U256| #[trigger] l.contains(n) implies sent(out, n, ModuleMessage::RequestEventIDs) by { let j = choose|j: int| 0 <= j < l.len() && l[j] == n; assert(to(out[j], n, ModuleMessage::RequestEventIDs)); }
}
pub open spec fn only_new(l: NodeIDs, fwd: Seq<int>, s: &Intern) -> bool { forall|j: int| #![trigger fwd[j]] 0 <= j < l.0@.len() ==> (fwd[j] >= 0 <==> s.new_node(*refs(l.0@)[j], l)) }
pub proof fn lemma_new_asked(s: &Intern, l: NodeIDs, f: Seq<&U256>, fwd: Seq<int>, bwd: Seq<int>, outs: Seq<Vec<InternOut>>)
    requires filt(refs(l.0@), f, fwd, bwd), only_new(l, fwd, s), asking(outs, f),
    ensures new_asked(flat_of(outs), s, l),
{
    lemma_asked(outs, f);
    let out = flat_of(outs);
    assert forall|i: int| 0 <= i < out.len() implies one_new(#[trigger] out[i], s, l) by { let j = bwd[i]; assert(*refs(l.0@)[j] == *f[i]); assert(s.new_node(*f[i], l)); }
    assert forall|n: U256| #[trigger] s.new_node(n, l) implies sent(out, n, ModuleMessage::RequestEventIDs) by { let j = choose|j: int| 0 <= j < l.0@.len() && l.0@[j] == n; assert(*refs(l.0@)[j] == n); assert(to(out[fwd[j]], n, ModuleMessage::RequestEventIDs)); }
}
#[verifier::external_body]
pub fn vx_slice1<T>(x: &T) -> (r: &[T]) ensures r@ == seq![*x] { unimplemented!() }
}
//@include onebyone.rs
verus! {
impl Intern {
    pub open spec fn going(&self, o: &Self, es: Seq<Event>, p: int, h: Seq<EventsStorage>, rs: Seq<bool>, out: Seq<Event>) -> bool {
        &&& self.wf() && self.but_out(o) && self.storage == o.storage
        &&& came(self.outstanding@, o.outstanding@, es, p)
        &&& history(h, rs, es.take(p)) && h[0] == o.events && h.last() == self.events
        &&& out == news(es.take(p), rs)
    }
    pub open spec fn added(&self, o: &Self, e: Event, out: Seq<InternOut>, r: bool) -> bool {
        self.events.takes(&o.events, e, r) && if r { spreads(self, out, self.id, seq![e]) && self.on_disk() } else { out.len() == 0 && self.storage == o.storage }
    }
    pub open spec fn did_add(&self, o: &Self, e: Event, out: Seq<InternOut>) -> bool { self.but_events(o) && (self.added(o, e, out, true) || self.added(o, e, out, false)) }
    pub open spec fn did_nodes(&self, o: &Self, ids: NodeIDs, out: Seq<InternOut>) -> bool {
        self.nodes == ids && self.events == o.events && self.storage == o.storage && self.outstanding == o.outstanding && self.id == o.id && self.ticks == o.ticks && new_asked(out, o, ids)
    }
    pub open spec fn did_known(&self, o: &Self, src: U256, ids: Seq<U256>, out: Seq<InternOut>) -> bool {
        &&& self.events == o.events && self.storage == o.storage && self.nodes == o.nodes && self.id == o.id && self.ticks == o.ticks
        &&& exists|v: Vec<U256>| #[trigger] o.wants(v@, ids) && self.outstanding@ == o.outstanding@ + v@
            && if v@.len() == 0 { out.len() == 0 } else { out.len() == 1 && to(out[0], src, ModuleMessage::RequestEvents(v)) }
    }
    pub open spec fn did_events(&self, o: &Self, src: U256, es: Seq<Event>, out: Seq<InternOut>) -> bool {
        &&& self.but_out(o)
        &&& came(self.outstanding@, o.outstanding@, es, es.len() as int)
        &&& exists|h: Seq<EventsStorage>, rs: Seq<bool>| #[trigger] history(h, rs, es) && h[0] == o.events && h.last() == self.events
            && spreads(self, out, src, news(es, rs)) && if news(es, rs).len() > 0 { self.on_disk() } else { self.storage == o.storage }
    }
    pub open spec fn did_request(&self, o: &Self, src: U256, ids: Seq<U256>, out: Seq<InternOut>) -> bool {
        *self == *o && exists|v: Vec<Event>| #[trigger] has_all(o.events, v@, ids) && if v@.len() == 0 { out.len() == 0 } else { out.len() == 1 && to(out[0], src, ModuleMessage::Events(v)) }
    }
    pub open spec fn did_list(&self, o: &Self, src: U256, out: Seq<InternOut>) -> bool {
        *self == *o && exists|v: Vec<U256>| #[trigger] knows_all(o.events, v@) && out.len() == 1 && to(out[0], src, ModuleMessage::KnownEventIDs(v))
    }
    pub open spec fn did_tick(&self, o: &Self, out: Seq<InternOut>) -> bool {
        self.outstanding@.len() == 0 && self.events == o.events && self.storage == o.storage && self.nodes == o.nodes && self.id == o.id && all_asked(out, o.nodes.0@)
    }
    pub open spec fn did_message(&self, o: &Self, src: U256, m: ModuleMessage, out: Seq<InternOut>) -> bool {
        match m {
            ModuleMessage::KnownEventIDs(ids) => self.did_known(o, src, ids@, out),
            ModuleMessage::Events(es) => self.did_events(o, src, es@, out),
            ModuleMessage::RequestEventIDs => self.did_list(o, src, out),
            ModuleMessage::RequestEvents(ids) => self.did_request(o, src, ids@, out),
        }
    }
    pub open spec fn did_net(&self, o: &Self, m: RandomOut, out: Seq<InternOut>) -> bool {
        match m {
            RandomOut::NodeIDsConnected(ids) => self.did_nodes(o, ids, out),
            RandomOut::NetworkWrapperFromNetwork(src, w) => if w.module@ == "Gossip"@ && unyaml::<ModuleMessage>(w.msg@) is Some { self.did_message(o, src, unyaml::<ModuleMessage>(w.msg@)->Some_0, out) } else { *self == *o && out.len() == 0 },
            _ => *self == *o && out.len() == 0,
        }
    }
    pub open spec fn did(&self, o: &Self, m: InternIn, out: Seq<InternOut>) -> bool {
        match m {
            InternIn::Tick => if o.ticks >= 2 { self.did_tick(o, out) } else { self.but_events(&Intern { ticks: self.ticks, ..*o }) && self.events == o.events && self.storage == o.storage && out.len() == 0 },
            InternIn::Network(m) => self.did_net(o, m, out),
            InternIn::Gossip(GossipIn::AddEvent(e)) => self.did_add(o, e, out),
        }
    }
    pub open spec fn new_node(&self, n: U256, ids: NodeIDs) -> bool { ids.0@.contains(n) && !self.nodes.0@.contains(n) && n != self.id }
    pub open spec fn unknown(&self, id: U256) -> bool { !self.events.knows(id) && !self.outstanding@.contains(id) }
    pub open spec fn wants(&self, v: Seq<U256>, ids: Seq<U256>) -> bool { forall|x: U256| #[trigger] v.contains(x) <==> ids.contains(x) && self.unknown(x) }
    /// What the chain in `send_events` does.
    pub open spec fn goes(&self, f: Seq<&U256>, fwd: Seq<int>, src: U256, outs: Seq<Vec<InternOut>>, out: Seq<InternOut>, es: Seq<Event>) -> bool {
        &&& forall|j: int| #![trigger fwd[j]] 0 <= j < self.nodes.0@.len() ==> (fwd[j] >= 0 <==> *refs(self.nodes.0@)[j] != src && *refs(self.nodes.0@)[j] != self.id)
        &&& outs.len() == f.len() && forall|i: int| 0 <= i < outs.len() ==> (#[trigger] outs[i])@.len() == 1 && announce(outs[i]@[0], *f[i], es)
        &&& out.len() == flat_of(outs).len() + es.len() && forall|i: int| 0 <= i < out.len() ==> (#[trigger] out[i]) == if i < flat_of(outs).len() { flat_of(outs)[i] } else { InternOut::Gossip(GossipOut::NewEvent(es[i - flat_of(outs).len()])) }
    }
    pub open spec fn wf(&self) -> bool { self.events.wf() && self.events.both() }
    /// What is held is what is on disk.
    pub open spec fn on_disk(&self) -> bool { self.storage.text("Gossip"@) == saved(self.events) }
    /// The rest is as before.
    pub open spec fn but_events(&self, o: &Self) -> bool { self.id == o.id && self.nodes == o.nodes && self.outstanding == o.outstanding && self.ticks == o.ticks }
    pub open spec fn but_out(&self, o: &Self) -> bool { self.id == o.id && self.nodes == o.nodes && self.ticks == o.ticks }
//@fn intern Intern::create_network_msg
//@ spec
    ensures res@.len() == 1 && to(res@[0], dst, msg), // [G03]
//@ closure 0 -> (r: Vec<InternOut>) ensures r@.len() == 1 && r@[0] == InternOut::Network(RandomIn::NetworkWrapperToNetwork(dst, net_msg))
//@end
//@fn intern Intern::store
//@ spec
    ensures final(self).but_events(old(self)), final(self).events == old(self).events, final(self).on_disk(), // [G03]
//@ sub /self\.tx\.dup\(\)\.map\(\|tx\| \{\s*tx\.send\(self\.events\.dup\(\)\)\s*\.is_err\(\)\s*\.vx_then\(\|\| self\.tx = None\)\s*\}\);/ => /vx_tell(&mut self.tx, self.events.dup());/
//@ sub /self\.events\s*\.get\(\)\s*\.map\(\|events_str\| (.*?)\)\s*\.err\(\)\s*\.map\(\|e\| \(\)\);/ => /match self.events.get() { Ok(events_str) => { let _ = \1; } Err(_) => {} }/
//@end
//@fn intern Intern::send_events
//@ spec
    ensures spreads(self, res@, src, events@), // [G03]
//@ entry
    proof {
        assert forall|ids: Seq<U256>, node: U256, fwd: Seq<int>, bwd: Seq<int>| #![trigger emb(events@.len() as int, ids.len() as int, fwd, bwd), lists(ids, events@, node)]
            emb(events@.len() as int, ids.len() as int, fwd, bwd) && not_from(ids, events@, node, fwd, bwd) implies lists(ids, events@, node) by { lemma_not_from(ids, events@, node, fwd, bwd); }
        assert forall|f: Seq<&U256>, fwd: Seq<int>, bwd: Seq<int>, outs: Seq<Vec<InternOut>>, out: Seq<InternOut>| #![trigger filt(refs(self.nodes.0@), f, fwd, bwd), flat_of(outs), spreads(self, out, src, events@)]
            filt(refs(self.nodes.0@), f, fwd, bwd) && self.goes(f, fwd, src, outs, out, events@) implies spreads(self, out, src, events@) by { lemma_spreads(self, f, fwd, bwd, src, outs, out, events@); }
    }
//@ closure 0 -> (r: bool) ensures r == (**vx_p0 != src && **vx_p0 != self.id)
//@ closure 1 -> (r: Vec<InternOut>) ensures r@.len() == 1 && announce(r@[0], *node_id, events@)
//@ closure 2 -> (r: Option<U256>) ensures r == (if *node_id != e.src { Some(ev_id(*e)) } else { None })
//@ closure 3 -> (r: InternOut) ensures r == InternOut::Gossip(GossipOut::NewEvent(*e))
//@end
//@fn intern Intern::add_event
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), // [G01] [G02]
        final(self).did_add(old(self), event, res@), // [G03]
//@ sub /&\[event\]\);/ => /vx_slice1(&event));/
//@end
//@fn intern Intern::add_events
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).but_out(old(self)), final(self).storage == old(self).storage, // [G01] [G02]
        came(final(self).outstanding@, old(self).outstanding@, events@, events@.len() as int), // [G03]
        exists|h: Seq<EventsStorage>, rs: Seq<bool>| #[trigger] history(h, rs, events@) && h[0] == old(self).events && h.last() == final(self).events && res@ == news(events@, rs), // [G03]
//@ closure 1 -> (r: bool) ensures r == (*os != ev_id(*e))
//@ sub /os != &e\.get_id\(\)/ => /*os != e.get_id()/
//@ sub ! /events\s*\.vx_into_iter\(\)\s*\.vx_inspect\(\|e\| ([\s\S]*?)\)\s*\.vx_filter\(\|e\| ([\s\S]*?)\)\s*\.vx_collect\(\)/ => /let ghost o = *self; let ghost es = events@; let mut vx_out: Vec<Event> = Vec::new(); let mut vx_it = vx_into(events); let ghost mut h = seq![self.events]; let ghost mut rs = Seq::<bool>::empty(); proof { lemma_going_0(self, es, h); } while vx_it.has_more() invariant vx_it.wf(), vx_it.seq() == es, self.going(&o, es, vx_it.pos(), h, rs, vx_out@), decreases vx_it.left(), { let ghost b = *self; let ghost out = vx_out@; let vx_e = vx_it.take_next(); let e = &vx_e; \1; let ghost m = *self; let vx_k = \2; if vx_k { vx_out.push(vx_e); } proof { lemma_going(self, &m, &b, &o, es, vx_it.pos() - 1, h, rs, out, vx_out@, vx_k); h = h.push(self.events); rs = rs.push(vx_k); } } proof { assert(es.take(es.len() as int) =~= es); } vx_out/
//@end
//@fn intern Intern::node_list
//@ spec
    ensures final(self).did_nodes(old(self), ids, res@), // [G03]
//@ entry
    proof {
        assert forall|f: Seq<&U256>, fwd: Seq<int>, bwd: Seq<int>, outs: Seq<Vec<InternOut>>| #![trigger filt(refs(ids.0@), f, fwd, bwd), flat_of(outs)]
            filt(refs(ids.0@), f, fwd, bwd) && only_new(ids, fwd, self) && asking(outs, f) implies new_asked(flat_of(outs), self, ids) by { lemma_new_asked(self, ids, f, fwd, bwd, outs); }
        assert forall|j: int| 0 <= j < ids.0@.len() implies ids.0@.contains(#[trigger] ids.0@[j]) by {}
    }
//@ closure 0 -> (r: bool) ensures r == (!self.nodes.0@.contains(**vx_p0) && **vx_p0 != self.id)
//@ closure 1 -> (r: Vec<InternOut>) ensures r@.len() == 1 && to(r@[0], *vx_p0, ModuleMessage::RequestEventIDs)
//@end
//@fn intern Intern::filter_known_events
//@ spec
    requires self.wf(),
    ensures self.wants(res@, eventids@), // [G03]
//@ closure 0 -> (r: bool) ensures r == self.unknown(*id)
//@end
//@fn intern Intern::node_known_event_ids
//@ spec
    requires old(self).wf(),
    ensures final(self).did_known(old(self), src, ids@, res@), // [G03]
//@end
//@fn intern Intern::node_events
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), // [G01] [G02]
        final(self).did_events(old(self), src, events@, res@), // [G03]
//@end
//@fn intern Intern::node_request_events
//@ spec
    requires old(self).wf(),
    ensures final(self).did_request(old(self), src, ids@, res@), // [G03]
//@end
//@fn intern Intern::node_request_event_list
//@ spec
    requires old(self).wf(),
    ensures final(self).did_list(old(self), src, res@), // [G03]
//@end
//@fn intern Intern::tick
//@ spec
    ensures final(self).did_tick(old(self), res@), final(self).ticks == old(self).ticks, // [G03]
//@ entry
    proof {
        assert forall|outs: Seq<Vec<InternOut>>| asking(outs, refs(self.nodes.0@)) implies all_asked(#[trigger] flat_of(outs), self.nodes.0@) by { lemma_all_asked(outs, self.nodes.0@); }
    }
//@ closure 0 -> (r: Vec<InternOut>) ensures r@.len() == 1 && to(r@[0], *id, ModuleMessage::RequestEventIDs)
//@end
//@fn intern Intern::process_node_message
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), // [G01] [G02]
        final(self).did_message(old(self), src, msg, res@), // [G03]
//@end
//@fn intern Intern::msg_gossip
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), // [G01] [G02]
        msg matches GossipIn::AddEvent(e) ==> final(self).did_add(old(self), e, res@), // [G03]
//@end
//@fn intern Intern::msg_tick
//@ spec
    requires old(self).ticks < usize::MAX, old(self).wf(),
    ensures final(self).wf(), final(self).ticks == old(self).ticks + 1, // [G01] [G02]
        final(self).did(old(self), InternIn::Tick, res@), // [G03]
//@end
//@fn intern Intern::msg_net
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), // [G01] [G02]
        final(self).did_net(old(self), msg, res@), // [G03]
//@ sub ! /network_wrapper\s*\.unwrap_yaml\(MODULE_NAME\)\s*\.map\(\|msg\| ([\s\S]*?)\)\s*\.vx_unwrap_or\(vec!\[\]\)/ => /match network_wrapper.unwrap_yaml(MODULE_NAME) { Some(msg) => \1, None => vec![] }/
//@end
//@fn intern <Intern as SubsystemHandler<InternIn,InternOut>>::messages
//@ spec
    requires old(self).wf(), old(self).ticks + msgs@.len() <= usize::MAX,
    ensures final(self).wf(), // [G01] [G02]
        exists|h: Seq<Intern>, outs: Seq<Vec<InternOut>>| #[trigger] one_by_one(h, outs, msgs@) && h[0] == *old(self) && h.last() == *final(self) && res@ == flat_of(outs), // [G03]
//@ sub ! /msgs\.vx_into_iter\(\)\s*\.vx_flat_map\(\|msg\| ([\s\S]*?)\)\s*\.vx_collect\(\)/ => /let ghost all = msgs@; let mut vx_out: Vec<InternOut> = Vec::new(); let mut vx_it = vx_into(msgs); let ghost mut h = seq![*self]; let ghost mut outs = Seq::<Vec<InternOut>>::empty(); proof { lemma_flat_empty::<InternOut>(); } while vx_it.has_more() invariant vx_it.wf(), vx_it.seq() == all, self.wf(), self.ticks + all.len() - vx_it.pos() <= usize::MAX, one_by_one(h, outs, all.take(vx_it.pos())), h[0] == *old(self), h.last() == *self, vx_out@ == flat_of(outs), decreases vx_it.left(), { let ghost p = vx_it.pos(); let msg = vx_it.take_next(); let ghost o = *self; let vx_r: Vec<InternOut> = \1; proof { lemma_flat_push(outs, vx_r); lemma_one_more(h, outs, all, p, *self, vx_r); outs = outs.push(vx_r); h = h.push(*self); } vx_out.vx_extend(vx_r); } proof { assert(all.take(all.len() as int) =~= all); } vx_out/
//@end
//@fn intern Intern::new
//@ spec
    ensures res.0.id == id, res.0.nodes.0@.len() == 0, res.0.outstanding@.len() == 0, // [G03]
        forall|e: EventsStorage| storage.text("Gossip"@) == #[trigger] saved(e) && saved(e).len() > 0 ==> res.0.events == e, // [G03]
        storage.text("Gossip"@).len() == 0 ==> res.0.wf() && forall|id: U256| !#[trigger] res.0.events.knows(id), // [G01] [G02]
//@ sub /watch::channel\(/ => /vx_channel(/
//@ sub /Box<dyn DataStorage \+ Send>/ => /VxStorage/
//@ sub /watch::Receiver<EventsStorage>/ => /VxReceiver/
//@ sub /!gossip_msgs_str\.is_empty\(\)/ => /!vx_no_text(&gossip_msgs_str)/
//@end
}
}
fn main() {}
