//@include prelude.rs
//@include sha.rs
//@include ids.rs
//@include wrapper.rs
//@file rb flmodules/src/router/broker.rs
//@file msgs flmodules/src/router/messages.rs
//@file nb flmodules/src/network/broker.rs
//@file rnd flmodules/src/random_connections/broker.rs
//@sub /\.clone\(\)/ => /.dup()/
//@sub /\.into\(\)/ => /.vx_nodes()/
verus! {
// ------------------------------------------------------------------ what is trusted here
pub trait Dup: Sized { fn dup(&self) -> (r: Self) ensures r == *self; }
impl Dup for U256 { fn dup(&self) -> (r: Self) { *self } }
impl Dup for Vec<U256> { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
impl Dup for Vec<NodeInfo> { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub struct NodeInfo { x: u8 }
pub uninterp spec fn info_id(n: NodeInfo) -> U256;
impl NodeInfo { #[verifier::external_body] pub fn get_id(&self) -> (r: U256) ensures r == info_id(*self) { unimplemented!() } }
pub struct NodeIDs(pub Vec<U256>);
#[verifier::external_body]
pub struct NodeStat { x: u8 }
#[verifier::external_body]
pub struct FledgerConfig { x: u8 }
pub struct ConnType { x: u8 }
pub struct SignalingState { x: u8 }
#[verifier::external_body]
pub struct ConnStats { x: u8 }
#[verifier::external_body]
pub struct NetworkConnectionState { x: u8 }
/// `NodeIDs::from`
pub trait VxNodes: Sized { fn vx_nodes(self) -> (r: NodeIDs); }
impl VxNodes for Vec<U256> { fn vx_nodes(self) -> (r: NodeIDs) ensures r.0@ == self@ { NodeIDs(self) } }
/// `vec![..]`
#[verifier::external_body]
pub fn vx_arr<T, const N: usize>(a: [T; N]) -> (r: Vec<T>) ensures r@ == a@ { unimplemented!() }
/// `[a, b].concat()`
#[verifier::external_body]
pub fn vx_two(a: Vec<RouterOut>, b: Vec<RouterOut>) -> (r: Vec<RouterOut>) ensures r@ == a@ + b@ { unimplemented!() }

// ------------------------------------------------------------------ copied types
//@enum msgs RouterIn
//@enum msgs RouterOut
//@enum nb NetworkIn
//@enum nb NetworkOut
//@enum rnd RandomIn
//@enum rnd RandomOut
//@enum rb InternIn
//@enum rb InternOut
//@struct rb RouterRandom
//@struct rb RouterNetwork
pub type Intern = RouterNetwork;

// ------------------------------------------------------------------ what is promised
/// r has the infos of all of these nodes, and of no other ones.
pub open spec fn infos_of(r: Seq<NodeInfo>, s: Seq<NodeInfo>, ids: Seq<U256>) -> bool { forall|n: NodeInfo| #[trigger] r.contains(n) <==> s.contains(n) && ids.contains(info_id(n)) }
pub open spec fn picked(s: Seq<NodeInfo>, fwd: Seq<int>, ids: Seq<U256>) -> bool { forall|j: int| #![trigger fwd[j]] 0 <= j < s.len() ==> (fwd[j] >= 0 <==> ids.contains(info_id(s[j]))) }
pub open spec fn copies(r: Seq<NodeInfo>, f: Seq<&NodeInfo>) -> bool { r.len() == f.len() && forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> r[i] == *f[i] }
pub proof fn lemma_infos_of(s: Seq<NodeInfo>, f: Seq<&NodeInfo>, fwd: Seq<int>, bwd: Seq<int>, r: Seq<NodeInfo>, ids: Seq<U256>)
    requires filt(refs(s), f, fwd, bwd), picked(s, fwd, ids), copies(r, f),
    ensures infos_of(r, s, ids),
{
    assert forall|n: NodeInfo| #[trigger] r.contains(n) <==> s.contains(n) && ids.contains(info_id(n)) by {
        if r.contains(n) { let i = choose|i: int| 0 <= i < r.len() && r[i] == n; assert(*f[i] == n); assert(refs(s)[bwd[i]] == f[i]); assert(s[bwd[i]] == n); assert(fwd[bwd[i]] == i); }
        if s.contains(n) && ids.contains(info_id(n)) { let j = choose|j: int| 0 <= j < s.len() && s[j] == n; assert(fwd[j] >= 0); assert(*refs(s)[j] == n); assert(*f[fwd[j]] == n); assert(r[fwd[j]] == n); }
    }
}
/// The nodes which are left when x goes: all others, each once.
pub open spec fn without(r: Seq<U256>, s: Seq<U256>, x: U256) -> bool { no_dup(r) && forall|y: U256| #[trigger] r.contains(y) <==> s.contains(y) && y != x }
pub open spec fn not_x(s: Seq<U256>, fwd: Seq<int>, x: U256) -> bool { forall|j: int| #![trigger fwd[j]] 0 <= j < s.len() ==> (fwd[j] >= 0 <==> s[j] != x) }
pub proof fn lemma_without(s: Seq<U256>, r: Seq<U256>, fwd: Seq<int>, bwd: Seq<int>, x: U256)
    requires filt(s, r, fwd, bwd), not_x(s, fwd, x), no_dup(s),
    ensures without(r, s, x),
{
    assert forall|y: U256| #[trigger] r.contains(y) <==> s.contains(y) && y != x by {
        if r.contains(y) { let i = choose|i: int| 0 <= i < r.len() && r[i] == y; assert(s[bwd[i]] == y); assert(fwd[bwd[i]] == i); }
        if s.contains(y) && y != x { let j = choose|j: int| 0 <= j < s.len() && s[j] == y; assert(fwd[j] >= 0); assert(r[fwd[j]] == y); }
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies r[i] != r[j] by { assert(s[bwd[i]] == r[i]); assert(s[bwd[j]] == r[j]); assert(bwd[i] < bwd[j]); }
}
/// A node which is now connected is told once, and so is one which is not anymore.
pub open spec fn joins(n: Seq<U256>, o: Seq<U256>, x: U256) -> bool { n == if o.contains(x) { o } else { o.push(x) } }
pub open spec fn leaves(n: Seq<U256>, o: Seq<U256>, x: U256) -> bool { if o.contains(x) { without(n, o, x) } else { n == o } }
/// The lists, as they are after the change.
pub open spec fn lists(r: Seq<InternOut>, avail: Seq<NodeInfo>, conn: Seq<U256>) -> bool {
    &&& r.len() >= 3
    &&& r[0] matches InternOut::Router(RouterOut::NodeInfoAvailable(v)) && v@ == avail
    &&& r[1] matches InternOut::Router(RouterOut::NodeIDsConnected(v)) && v.0@ == conn
    &&& r[2] matches InternOut::Router(RouterOut::NodeInfosConnected(v)) && infos_of(v@, avail, conn)
}
pub open spec fn one(r: Seq<InternOut>, m: RouterOut) -> bool { r.len() == 1 && r[0] == InternOut::Router(m) }
pub open spec fn lists_one(r: Seq<InternOut>, avail: Seq<NodeInfo>, conn: Seq<U256>, m: RouterOut) -> bool { lists(r, avail, conn) && r.len() == 4 && r[3] == InternOut::Router(m) }
pub open spec fn net(m: NetworkOut, oa: Seq<NodeInfo>, oc: Seq<U256>, na: Seq<NodeInfo>, nc: Seq<U256>, r: Seq<InternOut>) -> bool {
    match m {
        NetworkOut::Connected(x) => na == oa && joins(nc, oc, x) && if oc.contains(x) { r.len() == 0 } else { lists_one(r, na, nc, RouterOut::Connected(x)) },
        NetworkOut::Disconnected(x) => na == oa && leaves(nc, oc, x) && if oc.contains(x) { lists_one(r, na, nc, RouterOut::Disconnected(x)) } else { r.len() == 0 },
        NetworkOut::NodeListFromWS(v) => na == v@ && nc == oc && r.len() == 3 && lists(r, na, nc),
        NetworkOut::MessageFromNode(x, w) => na == oa && joins(nc, oc, x) && if oc.contains(x) { one(r, RouterOut::NetworkWrapperFromNetwork(x, w)) } else {
            r.len() == 5 && lists(r, na, nc) && r[3] == InternOut::Router(RouterOut::Connected(x)) && r[4] == InternOut::Router(RouterOut::NetworkWrapperFromNetwork(x, w)) },
        NetworkOut::SystemConfig(c) => na == oa && nc == oc && one(r, RouterOut::SystemConfig(c)),
        _ => na == oa && nc == oc && r.len() == 0,
    }
}
impl RouterNetwork {
    pub open spec fn wf(&self) -> bool { no_dup(self.nodes_connected@) }
    pub open spec fn did(&self, o: &RouterNetwork, msg: InternIn, r: Seq<InternOut>) -> bool {
        match msg {
            InternIn::Network(m) => net(m, o.nodes_available@, o.nodes_connected@, self.nodes_available@, self.nodes_connected@, r),
            InternIn::Router(m) => *self == *o && passed(m, r),
        }
    }
}
/// What a module sends goes to the node it names, as it is.
pub open spec fn passed(m: RouterIn, r: Seq<InternOut>) -> bool { m matches RouterIn::NetworkWrapperToNetwork(x, w) && r.len() == 1 && r[0] == InternOut::Network(NetworkIn::MessageToNode(x, w)) }
impl RouterNetwork {
//@fn rb RouterNetwork::msg_router
//@ spec
    requires old(self).wf(),
    ensures *final(self) == *old(self), passed(msg, res@), // [X01]
//@end
//@fn rb RouterNetwork::msg_net
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), net(msg, old(self).nodes_available@, old(self).nodes_connected@, final(self).nodes_available@, final(self).nodes_connected@, res@), // [X01]
//@ closure 0 -> (r: bool) ensures r == (*vx_p0 != id)
//@ closure 1 -> (r: bool) ensures r == self.nodes_connected@.contains(info_id(**node))
//@ closure 2 -> (r: InternOut) ensures r == InternOut::Router(msg)
//@ entry
    proof {
        let (oc, av) = (old(self).nodes_connected@, old(self).nodes_available@);
        if let NetworkOut::Disconnected(x) = msg {
            assert forall|r: Seq<U256>, fwd: Seq<int>, bwd: Seq<int>| #[trigger] filt(oc, r, fwd, bwd) && not_x(oc, fwd, x) implies without(r, oc, x) by { lemma_without(oc, r, fwd, bwd, x); }
        }
        assert forall|s: Seq<NodeInfo>, ids: Seq<U256>, f: Seq<&NodeInfo>, fwd: Seq<int>, bwd: Seq<int>, r: Seq<NodeInfo>| #![trigger filt(refs(s), f, fwd, bwd), infos_of(r, s, ids)]
            filt(refs(s), f, fwd, bwd) && picked(s, fwd, ids) && copies(r, f) implies infos_of(r, s, ids) by { lemma_infos_of(s, f, fwd, bwd, r, ids); }
    }
//@ sub /vec!\[(\s*RouterOut::NodeInfoAvailable[^;]*?),\s*\],\s*out/ => /vx_arr([\1]), out/
//@ sub ! /\[([^;]*)\]\s*\.vx_concat\(\)/ => /vx_two(\1)/
//@end
//@fn rb <RouterNetwork as SubsystemHandler<InternIn,InternOut>>::messages
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), exists|h: Seq<Intern>, outs: Seq<Vec<InternOut>>| #[trigger] one_by_one(h, outs, msgs@) && h[0] == *old(self) && h.last() == *final(self) && res@ == flat_of(outs), // [X01]
//@ sub ! /msgs\s*\.vx_into_iter\(\)(?:\s*\.vx_inspect\([^\n]*\))?\s*\.vx_flat_map\(\|msg\| ([\s\S]*?)\)\s*(?:\.vx_inspect\([^\n]*\)\s*)?\.vx_collect(?:::<Vec<_>>)?\(\)/ => /{ let ghost all = msgs@; let mut vx_out: Vec<InternOut> = Vec::new(); let mut vx_it = vx_into(msgs); let ghost mut h = seq![*self]; let ghost mut outs = Seq::<Vec<InternOut>>::empty(); proof { lemma_flat_empty::<InternOut>(); } while vx_it.has_more() invariant vx_it.wf(), vx_it.seq() == all, self.wf(), one_by_one(h, outs, all.take(vx_it.pos())), h[0] == *old(self), h.last() == *self, vx_out@ == flat_of(outs), decreases vx_it.left(), { let ghost p = vx_it.pos(); let msg = vx_it.take_next(); let ghost o = *self; let vx_r: Vec<InternOut> = \1; proof { lemma_flat_push(outs, vx_r); lemma_one_more(h, outs, all, p, *self, vx_r); outs = outs.push(vx_r); h = h.push(*self); } vx_out.vx_extend(vx_r); } proof { assert(all.take(all.len() as int) =~= all); } vx_out }/
//@end
}
impl RouterRandom {
//@fn rb RouterRandom::translate_rnd_rtr
//@ spec
    ensures res == Some(match msg { RandomOut::NodeIDsConnected(v) => RouterOut::NodeIDsConnected(v), RandomOut::NodeInfosConnected(v) => RouterOut::NodeInfosConnected(v), RandomOut::NetworkWrapperFromNetwork(x, w) => RouterOut::NetworkWrapperFromNetwork(x, w) }), // [X01]
//@end
//@fn rb RouterRandom::translate_rtr_rnd
//@ spec
    ensures msg matches RouterIn::NetworkWrapperToNetwork(x, w) && res == Some(RandomIn::NetworkWrapperToNetwork(x, w)), // [X01]
//@end
}
}
//@include onebyone.rs
fn main() {}
