//@include kad_body.rs
//@include wrapper.rs
//@file intern flmodules/src/dht_router/intern.rs
//@file msgs flmodules/src/router/messages.rs
//@file kd flmodules/src/dht_router/kademlia.rs
//@file db flmodules/src/dht_router/broker.rs
//@sub /\.clone\(\)/ => /.dup()/
//@sub /watch::Sender<Stats>/ => /VxSender/
//@sub /\.into\(\)/ => /.vx_intern()/
//@sub /Some\(&(\w+)\)(\s*=)/ => /Some(\1)\2/
//@sub /\.vx_first\(\)/ => /.vx_first().vx_cloned()/
//@sub /MODULE_NAME: &str/ => /MODULE_NAME: &'static str/
//@sub /\.unwrap_or\(/ => /.vx_unwrap_or(/
verus! {
// ------------------------------------------------------------------ what is trusted here
pub trait Dup: Sized { fn dup(&self) -> (r: Self) ensures r == *self; }
impl Dup for U256 { fn dup(&self) -> (r: Self) { *self } }
impl Dup for NetworkWrapper { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
impl Dup for NodeInfo { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
impl Dup for Vec<U256> { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
impl Dup for Option<VxSender> { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub struct NodeInfo { x: u8 }
pub uninterp spec fn info_id(n: NodeInfo) -> U256;
impl NodeInfo { #[verifier::external_body] pub fn get_id(&self) -> (r: U256) ensures r == info_id(*self) { unimplemented!() } }
pub struct NodeIDs(pub Vec<U256>);
/// The configuration the signalling server sends.
pub struct FledgerConfig { pub system_realm: Option<RealmID> }
/// The watchers of the statistics (tokio::sync::watch).
#[verifier::external_body]
pub struct VxSender { x: u8 }
#[verifier::external_body]
pub struct VxReceiver { x: u8 }
#[verifier::external_body]
pub fn vx_channel(e: Stats) -> (r: (VxSender, VxReceiver)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_default() -> (r: Stats) { unimplemented!() }
impl VxSender { #[verifier::external_body] pub fn send(&self, s: Stats) -> (r: VResult<()>) { unimplemented!() } }
/// `choose` of the rand crate: one of them, if there is one.
#[verifier::external_body]
pub fn vx_choose(v: &Vec<U256>) -> (r: Option<&U256>) ensures match r { Some(x) => exists|i: int| 0 <= i < v@.len() && *x == #[trigger] v@[i], None => v@.len() == 0 } { unimplemented!() }

// ------------------------------------------------------------------ copied types
//@const db MODULE_NAME
//@enum msgs RouterIn
//@enum msgs RouterOut
//@enum db DHTRouterIn
//@enum db DHTRouterOut
//@enum intern ModuleMessage
//@enum intern InternIn
//@enum intern InternOut
//@struct intern Stats
//@struct intern Intern
pub open spec fn has_info(s: Seq<NodeInfo>, x: U256) -> bool { exists|i: int| 0 <= i < s.len() && info_id(#[trigger] s[i]) == x }
pub open spec fn unpacked(w: NetworkWrapper) -> Option<ModuleMessage> { if w.module@ == MODULE_NAME@ { unyaml::<ModuleMessage>(w.msg@) } else { None } }
/// o is m, packed for the node dst.
pub open spec fn to_node(o: InternOut, dst: U256, m: ModuleMessage) -> bool {
    o matches InternOut::Network(RouterIn::NetworkWrapperToNetwork(d, w)) && d == dst && packs(w, MODULE_NAME@, m)
}
pub open spec fn up(o: InternOut, m: DHTRouterOut) -> bool { o == InternOut::DHTRouter(m) }
/// One message of ms for each node of ids.
pub open spec fn to_all(out: Seq<InternOut>, ids: Seq<U256>, m: ModuleMessage) -> bool {
    out.len() == ids.len() && forall|i: int| 0 <= i < ids.len() ==> to_node(#[trigger] out[i], ids[i], m)
}
impl InternOut {
//@fn intern <InternOut as From<DHTRouterOut>>::from
//@ spec
    ensures up(res, value), // [K05]
//@end
}
impl DHTRouterOut { pub fn vx_intern(self) -> (r: InternOut) ensures up(r, self) { InternOut::from(self) } }
impl ModuleMessage {
//@fn intern ModuleMessage::wrapper_network
//@ spec
    ensures to_node(res, dst, *self), // [K05]
//@end
}
impl Kademlia {
//@fn kd Kademlia::bucket_nodes
//@end
}
impl Intern {
    pub open spec fn wf(&self) -> bool { self.core.wf() }
    pub open spec fn me(&self) -> U256 { self.core.config.root }
    /// Nothing changed but the watchers.
    pub open spec fn same(&self, o: &Self) -> bool { self.core == o.core && self.connected == o.connected && self.infos == o.infos }
    /// h are the nodes which are next on the way to key.
    pub open spec fn hops(&self, key: U256, last: Option<U256>, h: Seq<U256>) -> bool {
        if self.connected@.contains(key) { h =~= seq![key] } else { self.core.routed(key, last, h) }
    }
    /// A message to the closest node goes on, or has arrived.
    pub open spec fn closest(&self, orig: U256, last: U256, key: U256, msg: NetworkWrapper, a: Seq<InternOut>) -> bool {
        exists|h: Seq<U256>| #[trigger] self.hops(key, Some(last), h) && if h.len() > 0 {
            a.len() == 2 && to_node(a[0], h[0], ModuleMessage::Closest(orig, key, msg)) && up(a[1], DHTRouterOut::MessageRouting(orig, last, h[0], key, msg))
        } else {
            a.len() == 1 && up(a[0], if key == self.me() { DHTRouterOut::MessageDest(orig, last, msg) } else { DHTRouterOut::MessageClosest(orig, last, key, msg) })
        }
    }
    /// A message to a node goes on, has arrived, or is dropped.
    pub open spec fn direct(&self, orig: U256, last: U256, dst: U256, msg: NetworkWrapper, a: Seq<InternOut>) -> bool {
        if dst == self.me() { a.len() == 1 && up(a[0], DHTRouterOut::MessageDest(orig, last, msg)) }
        else { exists|h: Seq<U256>| #[trigger] self.hops(dst, Some(last), h) && if h.len() == 0 { a.len() == 0 } else { a.len() == 1 && one_of(a[0], h, ModuleMessage::Direct(orig, dst, msg)) } }
    }
    /// A new message is sent to the first hop, if there is one.
    pub open spec fn starts(&self, key: U256, m: ModuleMessage, a: Seq<InternOut>) -> bool {
        exists|h: Seq<U256>| #[trigger] self.hops(key, None, h) && if h.len() == 0 { a.len() == 0 } else { a.len() == 1 && to_node(a[0], h[0], m) }
    }
    pub open spec fn answer(&self, from: U256, m: Option<ModuleMessage>, a: Seq<InternOut>) -> bool {
        match m {
            Some(ModuleMessage::Ping) => a.len() == 1 && to_node(a[0], from, ModuleMessage::Pong),
            Some(ModuleMessage::Closest(orig, key, msg)) => self.closest(orig, from, key, msg, a),
            Some(ModuleMessage::Direct(orig, dst, msg)) => self.direct(orig, from, dst, msg, a),
            Some(ModuleMessage::Neighbour(w)) => a.len() == 1 && up(a[0], DHTRouterOut::MessageNeighbour(from, w)),
            Some(ModuleMessage::ConnectedIDsRequest) => a.len() == 1 && exists|v: Vec<U256>| #[trigger] self.core.actives(v@) && to_node(a[0], from, ModuleMessage::ConnectedIDsReply(v)),
            _ => a.len() == 0,
        }
    }
    pub proof fn lemma_untold(&self, from: U256, m: Option<ModuleMessage>, a: Seq<InternOut>) requires self.answer(from, m, a) ensures !nodes_told(a) {}
    /// A message came in from a node: it is answered, and the node counts as heard of.
    pub open spec fn did_msg(&self, o: &Self, from: U256, m: Option<ModuleMessage>, out: Seq<InternOut>) -> bool {
        &&& self.connected == o.connected && self.infos == o.infos && self.core.config == o.core.config
        &&& forall|x: U256| #[trigger] self.core.known(x) ==> o.core.known(x) || (m matches Some(ModuleMessage::ConnectedIDsReply(v)) && v@.contains(x))
        &&& match m {
                Some(ModuleMessage::ConnectedIDsReply(v)) => self.core.took(&o.core, v@),
                _ => (forall|x: U256| #[trigger] self.core.known(x) <==> o.core.known(x)) && (forall|x: U256| x != from ==> (#[trigger] self.core.active(x) <==> o.core.active(x)))
                    && (o.core.active(from) ==> self.core.active(from)) && (nodes_told(out) <==> self.core.active(from) && !o.core.active(from)),
            }
        &&& if out.len() > 0 && out.last() is DHTRouter && out.last()->DHTRouter_0 is NodeList {
                o.answer(from, m, out.drop_last()) && self.core.actives(out.last()->DHTRouter_0->NodeList_0@)
            } else { o.answer(from, m, out) }
    }
    pub open spec fn did_dht(&self, o: &Self, m: DHTRouterIn, out: Seq<InternOut>) -> bool {
        &&& self.same(o)
        &&& match m {
            DHTRouterIn::MessageBroadcast(msg) => exists|v: Seq<U256>| #[trigger] o.core.actives(v) && to_all(out, v, ModuleMessage::Neighbour(msg)),
            DHTRouterIn::MessageClosest(key, msg) => o.starts(key, ModuleMessage::Closest(o.me(), key, msg), out),
            DHTRouterIn::MessageDirect(key, msg) => o.starts(key, ModuleMessage::Direct(o.me(), key, msg), out),
            DHTRouterIn::MessageNeighbour(dst, w) => out.len() == 1 && to_node(out[0], dst, ModuleMessage::Neighbour(w)),
        }
    }
    pub open spec fn did_net(&self, o: &Self, m: RouterOut, out: Seq<InternOut>) -> bool {
        match m {
            RouterOut::NetworkWrapperFromNetwork(from, w) => self.did_msg(o, from, unpacked(w), out),
            RouterOut::SystemConfig(c) => self.same(o) && match c.system_realm { Some(r) => out.len() == 1 && up(out[0], DHTRouterOut::SystemRealm(r)), None => out.len() == 0 },
            RouterOut::NodeInfoAvailable(v) => out.len() == 0 && self.connected == o.connected && self.core.config == o.core.config && took_infos(self.core, o.core, v@) && forall|x: U256| #[trigger] self.core.known(x) ==> o.core.known(x) || has_info(v@, x),
            RouterOut::NodeIDsConnected(c) => out.len() == 0 && self.connected@ == c.0@ && self.infos == o.infos && self.core.config == o.core.config && (forall|x: U256| #[trigger] self.core.known(x) ==> o.core.known(x) || c.0@.contains(x)) && self.core.took(&o.core, c.0@),
            RouterOut::Disconnected(id) => out.len() == 0 && self.connected == o.connected && self.infos == o.infos && self.core.config == o.core.config && forall|x: U256| #[trigger] self.core.active(x) <==> o.core.active(x) && x != id,
            RouterOut::Connected(id) => out.len() == 0 && self.connected == o.connected && self.infos == o.infos && self.core.config == o.core.config && (forall|x: U256| #[trigger] self.core.known(x) ==> o.core.known(x) || x == id) && self.core.took(&o.core, seq![id]),
            RouterOut::NodeInfosConnected(_) => out.len() == 0 && self.same(o),
        }
    }
    /// Time passes: the nodes which are due get a ping, and all the nodes in use are asked for theirs.
    pub open spec fn did_tick(&self, o: &Self, out: Seq<InternOut>) -> bool {
        &&& self.connected == o.connected && self.infos == o.infos && self.core.config == o.core.config
        &&& forall|x: U256| #[trigger] self.core.active(x) <==> o.core.active(x) && !o.core.dying(x)
        &&& exists|p: Seq<U256>, v: Seq<U256>| #[trigger] due(o, p) && #[trigger] self.core.actives(v) && out.len() == p.len() + v.len()
            && to_all(out.take(p.len() as int), p, ModuleMessage::Ping) && to_all(out.skip(p.len() as int), v, ModuleMessage::ConnectedIDsRequest)
    }
    pub open spec fn did(&self, o: &Self, m: InternIn, out: Seq<InternOut>) -> bool {
        match m { InternIn::Tick => self.did_tick(o, out), InternIn::DHTRouter(d) => self.did_dht(o, d, out), InternIn::Network(r) => self.did_net(o, r, out) }
    }
//@fn intern Intern::process_node_message
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).did_msg(old(self), from, unpacked(msg), res@), // [K05]
//@ entry
    proof { assert forall|a: Seq<InternOut>| #[trigger] old(self).answer(from, unpacked(msg), a) implies !nodes_told(a) by { old(self).lemma_untold(from, unpacked(msg), a); } }
//@end
//@fn intern Intern::msg_dht
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).did_dht(old(self), msg, res@), // [K05]
//@ closure 0 -> (r: InternOut) ensures to_node(r, *dst, ModuleMessage::Neighbour(msg))
//@end
//@fn intern Intern::msg_network
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).did_net(old(self), msg, res@), // [K05]
//@ closure 0 -> (r: Vec<InternOut>) ensures r@.len() == 1 && up(r@[0], DHTRouterOut::SystemRealm(rid))
//@end
//@fn intern Intern::add_node_infos
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).connected == old(self).connected, final(self).core.config == old(self).core.config, forall|x: U256| #[trigger] final(self).core.known(x) ==> old(self).core.known(x) || has_info(infos@, x), took_infos(final(self).core, old(self).core, infos@), // [K05]
//@ loop 0
    invariant vx_it0.wf(), self.wf(), self.core == old(self).core, self.connected == old(self).connected,
    decreases vx_it0.left(),
//@ closure 0 -> (r: U256) ensures r == info_id(*i)
//@end
//@fn intern Intern::tick
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).did_tick(old(self), res@), // [K05]
//@ closure 0 -> (r: InternOut) ensures to_node(r, *vx_p0, ModuleMessage::Ping)
//@ closure 1 -> (r: InternOut) ensures to_node(r, *id, ModuleMessage::ConnectedIDsRequest)
//@ after "let ping_delete = self.core.tick();"
    proof { assert(due(old(self), ping_delete.ping@)); }
//@end
//@fn intern Intern::closest_or_connected
//@ spec
    requires self.wf(),
    ensures self.hops(key, match last { Some(l) => Some(*l), None => None }, res@), // [K05]
//@end
//@fn intern Intern::new_closest
//@ spec
    requires self.wf(),
    ensures self.starts(key, ModuleMessage::Closest(self.me(), key, msg), res@), // [K05]
//@end
//@fn intern Intern::new_direct
//@ spec
    requires self.wf(),
    ensures self.starts(dst, ModuleMessage::Direct(self.me(), dst, msg), res@), // [K05]
//@end
//@fn intern Intern::message_closest
//@ spec
    requires self.wf(),
    ensures self.closest(orig, last_hop, key, msg, res@), // [K05]
//@end
//@fn intern Intern::message_direct
//@ spec
    requires self.wf(),
    ensures self.direct(orig, last, dst, msg, res@), // [K05]
//@ sub /next_hops\s*\.(?:vx_)?choose\(&mut rand::thread_rng\(\)\)/ => /vx_choose(&next_hops)/
//@ closure 0 -> (r: Vec<InternOut>) ensures r@.len() == 1 && to_node(r@[0], *next_hop, ModuleMessage::Direct(orig, dst, msg))
//@end
//@fn intern Intern::update_stats
//@ spec
    requires old(self).wf(),
    ensures final(self).same(old(self)), // [K05]
//@ sub ! /self\.tx\.(?:dup|clone)\(\)\.map\(\|tx\| \{\s*tx\.send\(([\s\S]*)\)\s*\.(?:vx_)?is_err\(\)\s*\.(?:vx_)?then\(\|\| self\.tx = None\)\s*\}\);/ => /if let Some(tx) = self.tx.dup() { if tx.send(\1).is_err() { self.tx = None; } }/
//@end
//@fn intern <Intern as SubsystemHandler<InternIn,InternOut>>::messages
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), exists|h: Seq<Intern>, outs: Seq<Vec<InternOut>>| #[trigger] one_by_one(h, outs, msgs@) && h[0] == *old(self) && final(self).same(&h.last()) && res@ == flat_of(outs), // [K05]
//@ sub ! /msgs\s*\.vx_into_iter\(\)(?:\s*\.vx_inspect\([^\n]*\))?\s*\.vx_flat_map\(\|msg\| ([\s\S]*?)\)\s*(?:\.vx_inspect\([^\n]*\)\s*)?\.vx_collect(?:::<Vec<_>>)?\(\)/ => /{ let ghost all = msgs@; let mut vx_out: Vec<InternOut> = Vec::new(); let mut vx_it = vx_into(msgs); let ghost mut h = seq![*self]; let ghost mut outs = Seq::<Vec<InternOut>>::empty(); proof { lemma_flat_empty::<InternOut>(); } while vx_it.has_more() invariant vx_it.wf(), vx_it.seq() == all, self.wf(), one_by_one(h, outs, all.take(vx_it.pos())), h[0] == *old(self), h.last() == *self, vx_out@ == flat_of(outs), decreases vx_it.left(), { let ghost p = vx_it.pos(); let msg = vx_it.take_next(); let ghost o = *self; let vx_r: Vec<InternOut> = \1; proof { lemma_flat_push(outs, vx_r); lemma_one_more(h, outs, all, p, *self, vx_r); outs = outs.push(vx_r); h = h.push(*self); } vx_out.vx_extend(vx_r); } proof { assert(all.take(all.len() as int) =~= all); } vx_out }/
//@end
}
/// The nodes of these infos are known, as long as the last bucket isn't split.
pub open spec fn took_infos(k: Kademlia, o: Kademlia, v: Seq<NodeInfo>) -> bool {
    &&& k.n() >= o.n()
    &&& k.n() == o.n() ==> (forall|i: int| 0 <= i < v.len() && info_id(#[trigger] v[i]) != o.config.root && o.d(info_id(v[i])) >= o.n() ==> k.known(info_id(v[i]))) && forall|x: U256| #[trigger] o.known(x) ==> k.known(x)
}
pub open spec fn nodes_told(out: Seq<InternOut>) -> bool { out.len() > 0 && out.last() is DHTRouter && out.last()->DHTRouter_0 is NodeList }
pub open spec fn one_of(o: InternOut, h: Seq<U256>, m: ModuleMessage) -> bool { exists|i: int| 0 <= i < h.len() && to_node(o, #[trigger] h[i], m) }
pub open spec fn due(o: &Intern, p: Seq<U256>) -> bool { forall|x: U256| #[trigger] p.contains(x) <==> o.core.asking(x) }
}
//@include onebyone.rs
fn main() {}
