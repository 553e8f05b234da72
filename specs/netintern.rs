//@include prelude.rs
//@include ids.rs
//@include onebyone.rs
//@include wrapper.rs
//@file intern flmodules/src/network/intern.rs
//@file sig flmodules/src/network/signal.rs
//@file nb flmodules/src/network/broker.rs
//@file ws flarch/src/web_rtc/websocket.rs
//@file rtc flarch/src/web_rtc/mod.rs
//@file nc flarch/src/web_rtc/node_connection.rs
//@file pm flarch/src/web_rtc/messages.rs
//@file ni flarch/src/nodeids.rs
//@sub /\((\w+), (\w+)\) = (\([^;=]*\));/ => /let vx_t = \3; \1 = vx_t.0; \2 = vx_t.1;/
//@sub /\.clone\(\)/ => /.dup()/
//@sub /MODULE_NAME: &str/ => /MODULE_NAME: &'static str/
//@sub /watch::Sender<Vec<NodeID>>/ => /VxSender/
//@sub /\.into\(\)/ => /.vx_out()/
//@sub /\.into_vec\(\)/ => /.vx_outs()/
//@sub /\.unwrap_or\(/ => /.vx_unwrap_or(/
verus! {
// ------------------------------------------------------------------ what is trusted here
/// Every Clone of fledger is derived: a faithful copy.
pub trait Dup: Sized { fn dup(&self) -> (r: Self) ensures r == *self; }
impl Dup for U256 { fn dup(&self) -> (r: Self) { *self } }
impl Dup for NodeInfo { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
impl Dup for ConnectionState { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
impl Dup for Vec<NodeStat> { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub struct NodeInfo { x: u8 }
pub uninterp spec fn info_id(n: NodeInfo) -> U256;
impl NodeInfo { #[verifier::external_body] pub fn get_id(&self) -> (r: U256) ensures r == info_id(*self) { unimplemented!() } }
#[verifier::external_body]
pub struct NodeStat { x: u8 }
#[verifier::external_body]
pub struct FledgerConfig { x: u8 }
#[verifier::external_body]
pub struct PeerMessage { x: u8 }
pub struct ConnType { x: u8 }
pub struct SignalingState { x: u8 }
pub struct DataChannelState { x: u8 }
pub struct IceGatheringState { x: u8 }
pub struct IceConnectionState { x: u8 }
#[verifier::external_body]
pub struct WebRTCInput { x: u8 }
#[verifier::external_body]
pub struct WebRTCOutput { x: u8 }
#[verifier::external_body]
pub struct VxSender { x: u8 }
#[verifier::external_body]
pub struct VxReceiver { x: u8 }
#[verifier::external_body]
pub fn vx_channel() -> (r: (VxSender, VxReceiver)) { unimplemented!() }
/// The watchers of the connections (tokio::sync::watch) are told.
#[verifier::external_body]
pub fn vx_tell(tx: &mut Option<VxSender>) { unimplemented!() }
pub struct NodeConfig { pub info: NodeInfo, pub keypair: Vec<u8> }
/// The signature of this text with this private key; NodeConfig::sign is ed25519_compact.
pub uninterp spec fn sig_of(kp: Seq<u8>, msg: Seq<u8>) -> Seq<u8>;
impl NodeConfig { #[verifier::external_body] pub fn sign(&self, hash: [u8; 32]) -> (r: Vec<u8>) ensures r@ == sig_of(self.keypair@, hash@) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_opt_eq<T>(a: Option<&T>, b: Option<&T>) -> (r: bool) ensures r == match (a, b) { (Some(x), Some(y)) => *x == *y, (None, None) => true, _ => false } { unimplemented!() }
pub uninterp spec fn json(m: WSSignalMessageFromNode) -> Seq<char>;
#[verifier::external_body]
pub fn vx_json(m: &WSSignalMessageFromNode) -> (r: VResult<String>) ensures r is Ok && r->Ok_0@ == json(*m) { unimplemented!() }
pub uninterp spec fn unjson(s: Seq<char>) -> Option<WSSignalMessageToNode>;
#[verifier::external_body]
pub fn vx_unjson(s: &String) -> (r: VResult<WSSignalMessageToNode>) ensures (r is Ok) == (unjson(s@) is Some), r matches Ok(m) ==> unjson(s@) == Some(m) { unimplemented!() }

// ------------------------------------------------------------------ copied types
//@const sig SIGNAL_VERSION
//@const nb MODULE_NAME
//@const intern UPDATE_INTERVAL
//@enum sig WSSignalMessageToNode
//@enum sig WSSignalMessageFromNode
//@struct sig MessageAnnounce
//@enum ws WSClientIn
//@enum ws WSClientOut
//@enum rtc WebRTCConnIn
//@enum rtc WebRTCConnOut
//@enum nc NCInput
//@enum nc NCOutput
//@enum nc Direction derive=PartialEq,Eq,Structural
//@struct pm PeerInfo
//@struct pm ConnectionStateMap
//@enum nb NetworkIn
//@enum nb NetworkOut
//@struct nb NetworkConnectionState
//@struct nb ConnStats
//@enum intern ModuleMessage
//@enum intern InternIn
//@enum intern InternOut
//@struct intern Intern
//@enum intern ConnectionState derive=PartialEq,Eq,Structural
//@struct intern IOConnection

// ------------------------------------------------------------------ the conversions
/// `into`, for the four kinds of messages.
pub trait VxOut<T>: Sized { spec fn turns(&self, r: T) -> bool; fn vx_out(self) -> (r: T) ensures self.turns(r); }
/// The text of this message goes to the signalling server.
pub open spec fn to_server(o: InternOut, m: WSSignalMessageFromNode) -> bool { o matches InternOut::WebSocket(WSClientIn::Message(s)) && s@ == json(m) }
impl VxOut<InternOut> for NetworkOut {
    open spec fn turns(&self, r: InternOut) -> bool { r == InternOut::Network(*self) }
//@fn intern <InternOut as From<NetworkOut>>::from as=vx_out ret=r retty=InternOut vis=none
//@ sub /\(value: NetworkOut\)/ => /(self)/
//@ sub /\(value\)/ => /(self)/
//@end
}
impl VxOut<InternOut> for WSSignalMessageFromNode {
    open spec fn turns(&self, r: InternOut) -> bool { to_server(r, *self) }
//@fn intern <InternOut as From<WSSignalMessageFromNode>>::from as=vx_out ret=r retty=InternOut vis=none
//@ sub /\(msg: WSSignalMessageFromNode\)/ => /(self)/
//@ sub /serde_json::to_string\(&msg\)/ => /vx_json(&self)/
//@end
}
impl VxOut<Vec<InternOut>> for WSSignalMessageFromNode {
    open spec fn turns(&self, r: Vec<InternOut>) -> bool { r@.len() == 1 && to_server(r@[0], *self) }
//@fn intern `<Vec<InternOut> as From<WSSignalMessageFromNode>>::from` as=vx_out ret=r retty=Vec<InternOut> vis=none
//@ sub /\(msg: WSSignalMessageFromNode\)/ => /(self)/
//@ sub /msg\.vx_out\(\)/ => /VxOut::<InternOut>::vx_out(self)/
//@end
}
pub trait VxOuts: Sized { spec fn all_turn(&self, r: Seq<InternOut>) -> bool; fn vx_outs(self) -> (r: Vec<InternOut>) ensures self.all_turn(r@); }
impl<T: VxOut<InternOut>> VxOuts for Vec<T> {
    open spec fn all_turn(&self, r: Seq<InternOut>) -> bool { r.len() == self@.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] self@[i]).turns(r[i]) }
    /// `IntoVec::into_vec`: every item is converted.
    #[verifier::external_body]
    fn vx_outs(self) -> (r: Vec<InternOut>) { unimplemented!() }
}
impl U256 {
//@fn ni U256::to_bytes ret=r
//@ spec
    ensures r == self.0,
//@end
}
impl Direction {
    pub open spec fn o(&self) -> Direction { match self { Direction::Incoming => Direction::Outgoing, Direction::Outgoing => Direction::Incoming } }
//@fn nc Direction::other ret=r
//@ spec
    ensures r == self.o(), // [N04]
//@end
}
impl PeerInfo {
    pub open spec fn remote(&self, x: U256) -> Option<U256> { if self.id_init == x { Some(self.id_follow) } else if self.id_follow == x { Some(self.id_init) } else { None } }
    pub open spec fn dir(&self, x: U256) -> Direction { if self.id_init == x { Direction::Outgoing } else { Direction::Incoming } }
//@fn pm PeerInfo::get_remote ret=r
//@ spec
    ensures r == self.remote(*local), // [N05]
//@end
//@fn pm PeerInfo::get_direction ret=r
//@ spec
    ensures r == self.dir(*local), // [N05]
//@end
}
impl IOConnection {
    pub open spec fn at(&self, d: Direction) -> ConnectionState { match d { Direction::Incoming => self.incoming, Direction::Outgoing => self.outgoing } }
//@fn intern IOConnection::new ret=r
//@ spec
    ensures r.at(*dir) == state, r.at(dir.o()) is None, // [N04]
//@end
//@fn intern IOConnection::get ret=r
//@ spec
    ensures *r == self.at(*dir), // [N04]
//@end
//@fn intern IOConnection::set
//@ spec
    ensures final(self).at(*dir) == state, final(self).at(dir.o()) == old(self).at(dir.o()), // [N04]
//@end
}

// ------------------------------------------------------------------ what the module does
pub open spec fn nets(out: Seq<InternOut>, m: NetworkOut) -> bool { out.contains(InternOut::Network(m)) }
pub open spec fn notice(o: InternOut) -> bool { o matches InternOut::Network(m) && (m is Connected || m is Disconnected) }
pub type Conns = Map<U256, IOConnection>;
/// How it stands with this connection.
pub open spec fn st(c: Conns, x: U256, d: Direction) -> ConnectionState { if c.dom().contains(x) { c[x].at(d) } else { ConnectionState::None } }
pub open spec fn linked(c: Conns, x: U256) -> bool { st(c, x, Direction::Incoming) is Connected || st(c, x, Direction::Outgoing) is Connected }
/// Only this one changed.
pub open spec fn turned(o: Conns, n: Conns, x: U256, d: Direction, s: ConnectionState) -> bool {
    forall|y: U256, e: Direction| #[trigger] st(n, y, e) == if y == x && e == d { s } else { st(o, y, e) }
}
pub open spec fn calm(o: Conns, n: Conns) -> bool { forall|y: U256, e: Direction| #[trigger] st(n, y, e) == st(o, y, e) }
/// Whoever came is reported as connected, whoever went as disconnected, once, and nobody else.
pub open spec fn reported(o: Conns, n: Conns, out: Seq<InternOut>) -> bool {
    &&& forall|x: U256| #[trigger] nets(out, NetworkOut::Connected(x)) <==> !linked(o, x) && linked(n, x)
    &&& forall|x: U256| #[trigger] nets(out, NetworkOut::Disconnected(x)) <==> linked(o, x) && !linked(n, x)
    &&& forall|i: int, j: int| 0 <= i < j < out.len() && notice(#[trigger] out[i]) ==> !notice(#[trigger] out[j])
}
pub open spec fn none(s: Seq<InternOut>) -> bool { s.len() == 0 }
pub open spec fn one(s: Seq<InternOut>, a: InternOut) -> bool { s.len() == 1 && s[0] == a }
pub open spec fn two(s: Seq<InternOut>, a: InternOut, b: InternOut) -> bool { s.len() == 2 && s[0] == a && s[1] == b }
pub open spec fn dial(x: U256) -> InternOut { InternOut::WebRTC(WebRTCConnIn::Connect(x)) }
pub open spec fn texts(o: InternOut, x: U256, w: NetworkWrapper) -> bool { o matches InternOut::WebRTC(WebRTCConnIn::Message(y, NCInput::Text(s))) && y == x && s@ == yaml_of(w) }
impl Intern {
    pub open spec fn wf(&self) -> bool { 1 <= self.get_update <= UPDATE_INTERVAL }
    pub open spec fn me(&self) -> U256 { info_id(self.node_config.info) }
    pub open spec fn same(&self, o: &Self) -> bool { self.node_config == o.node_config && self.get_update == o.get_update }
    pub open spec fn did_challenge(&self, o: &Self, v: u64, c: U256, out: Seq<InternOut>) -> bool {
        calm(o.connections@, self.connections@) && out.len() == 2
        && (exists|a: MessageAnnounce| #[trigger] to_server(out[0], WSSignalMessageFromNode::Announce(a)) && a.challenge == c && a.node_info == o.node_config.info && a.signature@ == sig_of(o.node_config.keypair@, c.0@))
        && to_server(out[1], WSSignalMessageFromNode::ListIDsRequest)
    }
    pub open spec fn did_setup(&self, o: &Self, pi: PeerInfo, out: Seq<InternOut>) -> bool {
        match pi.remote(o.me()) {
            None => calm(o.connections@, self.connections@) && none(out),
            Some(x) => {
                let d = pi.dir(o.me());
                let last = InternOut::WebRTC(WebRTCConnIn::Message(x, NCInput::Setup(d, pi.message)));
                turned(o.connections@, self.connections@, x, d, ConnectionState::Setup)
                && if linked(o.connections@, x) && !(st(o.connections@, x, d.o()) is Connected) { two(out, InternOut::Network(NetworkOut::Disconnected(x)), last) } else { one(out, last) }
            },
        }
    }
    pub open spec fn did_ws(&self, o: &Self, m: WSClientOut, out: Seq<InternOut>) -> bool {
        self.same(o) && match m {
            WSClientOut::Message(s) => match unjson(s@) {
                None => calm(o.connections@, self.connections@) && none(out),
                Some(WSSignalMessageToNode::Challenge(v, c)) => v == SIGNAL_VERSION && self.did_challenge(o, v, c, out),
                Some(WSSignalMessageToNode::ListIDsReply(l)) => calm(o.connections@, self.connections@) && one(out, InternOut::Network(NetworkOut::NodeListFromWS(l))),
                Some(WSSignalMessageToNode::PeerSetup(pi)) => self.did_setup(o, pi, out),
                Some(WSSignalMessageToNode::SystemConfig(f)) => calm(o.connections@, self.connections@) && one(out, InternOut::Network(NetworkOut::SystemConfig(f))),
                Some(WSSignalMessageToNode::Error(e)) => calm(o.connections@, self.connections@) && one(out, InternOut::Network(NetworkOut::Error(e))),
            },
            _ => calm(o.connections@, self.connections@) && none(out),
        }
    }
    /// Asks for a connection, if there is none.
    pub open spec fn did_connect(&self, o: &Self, x: U256, out: Seq<InternOut>) -> bool {
        if linked(o.connections@, x) { calm(o.connections@, self.connections@) && none(out) }
        else { turned(o.connections@, self.connections@, x, Direction::Outgoing, ConnectionState::Setup) && one(out, dial(x)) }
    }
    pub open spec fn did_disconnect(&self, o: &Self, x: U256, out: Seq<InternOut>) -> bool {
        if !linked(o.connections@, x) { calm(o.connections@, self.connections@) && none(out) }
        else {
            (forall|y: U256, e: Direction| #[trigger] st(self.connections@, y, e) == if y == x { ConnectionState::None } else { st(o.connections@, y, e) })
            && two(out, InternOut::Network(NetworkOut::Disconnected(x)), InternOut::WebRTC(WebRTCConnIn::Message(x, NCInput::Disconnect)))
        }
    }
    /// The message goes out, after a request for a connection if there is none.
    pub open spec fn did_send(&self, o: &Self, x: U256, w: NetworkWrapper, out: Seq<InternOut>) -> bool {
        out.len() >= 1 && texts(out.last(), x, w) && self.did_connect(o, x, out.drop_last())
    }
    pub open spec fn did_net(&self, o: &Self, m: NetworkIn, out: Seq<InternOut>) -> bool {
        self.same(o) && match m {
            NetworkIn::MessageToNode(x, w) => self.did_send(o, x, w, out),
            NetworkIn::StatsToWS(v) => calm(o.connections@, self.connections@) && out.len() == 1 && to_server(out[0], WSSignalMessageFromNode::NodeStats(v)),
            NetworkIn::WSUpdateListRequest => calm(o.connections@, self.connections@) && out.len() == 1 && to_server(out[0], WSSignalMessageFromNode::ListIDsRequest),
            NetworkIn::Connect(x) => self.did_connect(o, x, out),
            NetworkIn::Disconnect(x) => self.did_disconnect(o, x, out),
        }
    }
    pub open spec fn did_text(&self, x: U256, s: Seq<char>, out: Seq<InternOut>) -> bool {
        match unyaml::<NetworkWrapper>(s) {
            Some(w) => if w.module@ == MODULE_NAME@ && unyaml::<ModuleMessage>(w.msg@) is Some { none(out) } else { one(out, InternOut::Network(NetworkOut::MessageFromNode(x, w))) },
            None => none(out),
        }
    }
    pub open spec fn did_rtc(&self, o: &Self, x: U256, m: NCOutput, out: Seq<InternOut>) -> bool {
        self.same(o) && match m {
            NCOutput::Connected(d) => turned(o.connections@, self.connections@, x, d, ConnectionState::Connected)
                && if linked(o.connections@, x) { none(out) } else { one(out, InternOut::Network(NetworkOut::Connected(x))) },
            NCOutput::Disconnected(d) => turned(o.connections@, self.connections@, x, d, ConnectionState::None)
                && if linked(o.connections@, x) && !(st(o.connections@, x, d.o()) is Connected) { one(out, InternOut::Network(NetworkOut::Disconnected(x))) } else { none(out) },
            NCOutput::Text(s) => calm(o.connections@, self.connections@) && self.did_text(x, s@, out),
            NCOutput::State(d, s) => calm(o.connections@, self.connections@) && out.len() == 1 && (out[0] matches InternOut::Network(NetworkOut::ConnectionState(c)) && c.id == x && c.dir == d),
            NCOutput::Setup(d, p) => calm(o.connections@, self.connections@) && out.len() == 1
                && to_server(out[0], WSSignalMessageFromNode::PeerSetup(PeerInfo { id_init: if d is Incoming { x } else { o.me() }, id_follow: if d is Incoming { o.me() } else { x }, message: p })),
            _ => calm(o.connections@, self.connections@) && none(out),
        }
    }
    pub open spec fn did_tick(&self, o: &Self, out: Seq<InternOut>) -> bool {
        self.node_config == o.node_config && calm(o.connections@, self.connections@)
        && if o.get_update == 1 { self.get_update == UPDATE_INTERVAL && out.len() == 1 && to_server(out[0], WSSignalMessageFromNode::ListIDsRequest) } else { self.get_update == o.get_update - 1 && none(out) }
    }
    pub open spec fn did(&self, o: &Self, m: InternIn, out: Seq<InternOut>) -> bool {
        match m {
            InternIn::Network(n) => self.did_net(o, n, out),
            InternIn::WebSocket(w) => self.did_ws(o, w, out),
            InternIn::WebRTC(WebRTCConnOut::Message(x, c)) => self.did_rtc(o, x, c, out),
            InternIn::Tick => self.did_tick(o, out),
        }
    }
    /// A server of another version makes the node stop.
    pub open spec fn right_version(m: InternIn) -> bool { m matches InternIn::WebSocket(WSClientOut::Message(s)) && unjson(s@) matches Some(WSSignalMessageToNode::Challenge(v, _)) ==> v == SIGNAL_VERSION }
}
impl Intern {
//@fn intern Intern::start
//@ spec
    ensures res matches Ok(r) && r.0.wf() && r.0.connections@ =~= Map::<U256, IOConnection>::empty() && r.0.node_config == node_config, // [N04] [N05]
//@ sub /watch::Receiver<Vec<NodeID>>/ => /VxReceiver/
//@ sub /watch::channel\(vec!\[\]\)/ => /vx_channel()/
//@end
//@fn intern Intern::msg_ws
//@ spec
    requires Intern::right_version(InternIn::WebSocket(msg)),
    ensures final(self).did_ws(old(self), msg, res@), // [N04] [N05]
//@ sub /serde_json::from_str::<WSSignalMessageToNode>\(/ => /vx_unjson(/
//@end
//@fn intern Intern::msg_net
//@ spec
    ensures final(self).did_net(old(self), msg, res@), // [N04] [N05]
//@ sub /serde_yaml::to_string\(/ => /vx_to_yaml(/
//@end
//@fn intern Intern::msg_tick
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).did_tick(old(self), res@), // [N05]
//@ sub /\((self\.get_update == 0)\)\s*\.vx_then\(\|\| ([\s\S]*?)\)\s*\.vx_unwrap_or\(vec!\[\]\)/ => /if \1 \2 else { vec![] }/
//@end
//@fn intern Intern::msg_wrapper
//@ spec
    ensures *final(self) == *old(self), final(self).did_text(id, msg@, res@), // [N05]
//@ sub /serde_yaml::from_str::<NetworkWrapper>\(/ => /vx_from_yaml::<NetworkWrapper>(/
//@end
//@fn intern Intern::msg_rtc
//@ spec
    ensures final(self).did_rtc(old(self), id, msg_nc, res@), // [N04] [N05]
//@end
//@fn intern Intern::connect
//@ spec
    ensures final(self).same(old(self)), final(self).did_connect(old(self), *dst, res@), // [N04] [N05]
//@end
//@fn intern Intern::disconnect
//@ spec
    ensures final(self).same(old(self)), final(self).did_disconnect(old(self), *dst, res@), // [N04]
//@end
//@fn intern Intern::send_connections
//@ spec
    ensures final(self).same(old(self)), final(self).connections == old(self).connections,
//@ sub ! /self\.tx\.dup\(\)\.map\([\s\S]*\);/ => /vx_tell(&mut self.tx);/
//@end
//@fn intern Intern::connected_only ret=r
//@ spec
    ensures r == (st(self.connections@, *node, *dir) is Connected && !(st(self.connections@, *node, dir.o()) is Connected)), // [N04]
//@end
//@fn intern Intern::connected ret=r
//@ spec
    ensures r == linked(self.connections@, *node), // [N04]
//@end
//@fn intern Intern::connection_state_check ret=r
//@ spec
    requires *state != ConnectionState::None,
    ensures r == (st(self.connections@, *node, *dir) == *state), // [N04]
//@ closure 0 -> (r: &ConnectionState) ensures *r == ioc.at(*dir)
//@ sub /(self\.connections\.get\(node\)[\s\S]*) == (Some\(state\))/ => /vx_opt_eq(\1, \2)/
//@end
//@fn intern Intern::connection_state_check_any ret=r
//@ spec
    requires *state != ConnectionState::None,
    ensures r == (st(self.connections@, *node, Direction::Incoming) == *state || st(self.connections@, *node, Direction::Outgoing) == *state), // [N04]
//@end
//@fn intern Intern::connection_state_set
//@ spec
    ensures final(self).same(old(self)), turned(old(self).connections@, final(self).connections@, node, *dir, state), // [N04]
//@ sub ! /self\.connections\s*\.entry\(node\)\s*\.and_modify\(\|ioc\| ([^;]*?)\)\s*\.or_insert\(([^;]*)\);/ => /match self.connections.get_mut(&node) { Some(ioc) => { \1; } None => { self.connections.insert(node, \2); } }/
//@end
//@fn intern <Intern as SubsystemHandler<InternIn,InternOut>>::messages
//@ spec
    requires old(self).wf(), forall|i: int| 0 <= i < msgs@.len() ==> Intern::right_version(#[trigger] msgs@[i]),
    ensures final(self).wf(), final(self).node_config == old(self).node_config,
        exists|h: Seq<Intern>, outs: Seq<Vec<InternOut>>| #[trigger] one_by_one(h, outs, msgs@) && h[0] == *old(self) && h.last() == *final(self) && res@ == flat_of(outs), // [N04] [N05]
//@ sub ! /msgs\.vx_into_iter\(\)\s*\.vx_inspect\([\s\S]*?\)\s*\.vx_flat_map\(\|msg\| ([\s\S]*?)\)\s*\.vx_collect::<Vec<_>>\(\)/ => /let ghost all = msgs@; let mut vx_out: Vec<InternOut> = Vec::new(); let mut vx_it = vx_into(msgs); let ghost mut h = seq![*self]; let ghost mut outs = Seq::<Vec<InternOut>>::empty(); proof { lemma_flat_empty::<InternOut>(); } while vx_it.has_more() invariant vx_it.wf(), vx_it.seq() == all, forall|i: int| 0 <= i < all.len() ==> Intern::right_version(#[trigger] all[i]), self.wf(), self.node_config == old(self).node_config, one_by_one(h, outs, all.take(vx_it.pos())), h[0] == *old(self), h.last() == *self, vx_out@ == flat_of(outs), decreases vx_it.left(), { let ghost p = vx_it.pos(); let msg = vx_it.take_next(); let ghost o = *self; assert(Intern::right_version(all[p as int])); let vx_r: Vec<InternOut> = \1; proof { lemma_flat_push(outs, vx_r); lemma_one_more(h, outs, all, p, *self, vx_r); outs = outs.push(vx_r); h = h.push(*self); } vx_out.vx_extend(vx_r); } proof { assert(all.take(all.len() as int) =~= all); } vx_out/
//@end
}
/// Connections are reported when they come and go, once, and never otherwise.
pub proof fn lemma_reported(n: &Intern, o: &Intern, m: InternIn, out: Seq<InternOut>)
    requires n.did(o, m, out),
    ensures reported(o.connections@, n.connections@, out), // [N04]
{}
}
fn main() {}
