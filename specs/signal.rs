//@include prelude.rs
//@include ids.rs
//@include bimap.rs
//@include onebyone.rs
//@file sig flmodules/src/network/signal.rs
//@file cfg flmodules/src/nodeconfig.rs
//@file ws flarch/src/web_rtc/websocket.rs
//@file pm flarch/src/web_rtc/messages.rs
//@file ni flarch/src/nodeids.rs
//@sub /\.clone\(\)/ => /.dup()/
//@sub /U256::rnd\(\)/ => /vx_rnd()/
//@sub /("[^"]*")\.into\(\)/ => /vx_own(\1)/
//@sub /serde_json::to_string\(/ => /vx_json(/
verus! {
// ------------------------------------------------------------------ what is trusted here
pub axiom fn axiom_vec_ext<T>(a: Vec<T>, b: Vec<T>) ensures a@ == b@ ==> a == b;
pub axiom fn axiom_string_ext(a: String, b: String) ensures a@ == b@ ==> a == b;
/// Every Clone of fledger is derived: a faithful copy.
pub trait Dup: Sized { fn dup(&self) -> (r: Self) ensures r == *self; }
impl Dup for U256 { fn dup(&self) -> (r: Self) { *self } }
impl Dup for usize { fn dup(&self) -> (r: Self) { *self } }
impl Dup for NodeInfo { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
impl Dup for Vec<u8> { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
impl Dup for Vec<NodeInfo> { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
impl Dup for Option<RealmID> { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_own(a: &str) -> (r: String) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_rnd() -> (r: U256) { unimplemented!() }
#[verifier::external_body]
pub struct Modules { x: u8 }
#[verifier::external_body]
pub struct PeerMessage { x: u8 }
#[verifier::external_body]
pub struct NodeStat { x: u8 }
pub struct StdRng { x: u64 }
impl StdRng { #[verifier::external_body] pub fn seed_from_u64(x: u64) -> (r: Self) { unimplemented!() } }
/// What serde_json writes for a message to a node.
pub uninterp spec fn json(m: WSSignalMessageToNode) -> Seq<char>;
#[verifier::external_body]
pub fn vx_json(m: &WSSignalMessageToNode) -> (r: VResult<String>) ensures r is Ok && r->Ok_0@ == json(*m) { unimplemented!() }
/// What serde_json reads from a text; the `id` of a node info is never read (`serde(skip)`).
pub uninterp spec fn unjson(s: Seq<char>) -> Option<WSSignalMessageFromNode>;
#[verifier::external_body]
pub fn vx_unjson(s: &String) -> (r: VResult<WSSignalMessageFromNode>)
    ensures (r is Ok) == (unjson(s@) is Some), r matches Ok(m) ==> unjson(s@) == Some(m)
{ unimplemented!() }
pub axiom fn axiom_unjson(s: Seq<char>) ensures unjson(s) matches Some(WSSignalMessageFromNode::Announce(a)) ==> a.node_info.id is None;
/// SHA-256 of some bytes; U256::hash_data is under contract in nodeids.rs.
pub uninterp spec fn hash_of(s: Seq<u8>) -> U256;
#[verifier::external_body]
pub fn vx_hash_data(s: &Vec<u8>) -> (r: U256) ensures r == hash_of(s@) { unimplemented!() }
pub uninterp spec fn as32(s: Seq<u8>) -> [u8; 32];
pub axiom fn axiom_as32(s: Seq<u8>) ensures s.len() == 32 ==> as32(s)@ == s;
#[verifier::external_body]
pub fn vx_try32(v: Vec<u8>) -> (r: VResult<[u8; 32]>) ensures (r is Ok) == (v@.len() == 32), r matches Ok(a) ==> a@ == v@ && a == as32(v@) { unimplemented!() }
/// Ed25519, as of ed25519_compact: whether sig is a signature of msg by the owner of key.
pub uninterp spec fn ed_ok(key: Seq<u8>, msg: Seq<u8>, sig: Seq<u8>) -> bool;
pub struct PublicKey { pub b: Vec<u8> }
pub struct Signature { pub b: Vec<u8> }
impl PublicKey {
    #[verifier::external_body]
    pub fn from_slice(s: &[u8]) -> (r: VResult<PublicKey>) ensures (r is Ok) == (s@.len() == 32), r matches Ok(k) ==> k.b@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn verify(&self, msg: &[u8], sig: &Signature) -> (r: VResult<()>) ensures (r is Ok) == ed_ok(self.b@, msg@, sig.b@) { unimplemented!() }
}
impl Signature {
    #[verifier::external_body]
    pub fn from_slice(s: &[u8]) -> (r: VResult<Signature>) ensures (r is Ok) == (s@.len() == 64), r matches Ok(k) ==> k.b@ == s@ { unimplemented!() }
}
pub fn vx_bytes(u: U256) -> (r: [u8; 32]) ensures r == u.0 { u.0 }
pub fn vx_u256(a: [u8; 32]) -> (r: U256) ensures r == U256(a) { U256(a) }
#[verifier::external_body]
pub fn vx_slice(v: &Vec<u8>) -> (r: &[u8]) ensures r@ == v@ { unimplemented!() }
/// `IteratorRandom::choose_multiple`: as many as asked for, if there are enough, each one at most once.
pub open spec fn sample<T>(r: Seq<T>, s: Seq<T>, n: int) -> bool { r.len() == (if n <= s.len() { n } else { s.len() as int }) && r.to_multiset().subset_of(s.to_multiset()) }
pub trait VxChoose<T>: Sized {
    spec fn its(&self) -> Seq<T>;
    fn vx_choose_multiple(self, rng: &mut StdRng, n: usize) -> (r: Vec<T>) ensures sample(r@, self.its(), n as int), forall|t: Seq<T>| #![trigger sample(r@, t, n as int)] t =~= self.its() ==> sample(r@, t, n as int);
}
impl<T> VxChoose<T> for It<T> {
    open spec fn its(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_choose_multiple(self, rng: &mut StdRng, n: usize) -> (r: Vec<T>) { unimplemented!() }
}

// ------------------------------------------------------------------ copied types
//@const sig SIGNAL_VERSION
//@struct cfg NodeInfo
//@struct sig FledgerConfig
//@struct sig SignalConfig
//@enum sig SignalIn
//@enum sig SignalOut
//@struct sig SignalServer
//@enum sig WSSignalMessageToNode
//@enum sig WSSignalMessageFromNode
//@struct sig MessageAnnounce
//@enum ws WSServerOut
//@enum ws WSServerIn
//@struct pm PeerInfo

pub open spec fn info_id(n: NodeInfo) -> U256 {
    match n.id { Some(i) => i, None => if n.pubkey@.len() == 32 { U256(as32(n.pubkey@)) } else { hash_of(n.pubkey@) } }
}
/// The owner of this info signed msg.
pub open spec fn signed_by(n: NodeInfo, msg: Seq<u8>, sig: Seq<u8>) -> bool { n.pubkey@.len() == 32 && sig.len() == 64 && ed_ok(n.pubkey@, msg, sig) }
impl U256 {
//@fn ni U256::to_bytes ret=r
//@ spec
    ensures r == self.0,
//@end
}
impl NodeInfo {
//@fn cfg NodeInfo::get_id ret=r
//@ spec
    ensures r == info_id(*self), // [N01]
//@ sub /<\[u8; PublicKey::BYTES\]>::try_from\(/ => /vx_try32(/
//@ sub /U256::from\(/ => /vx_u256(/
//@ sub /U256::hash_data\(/ => /vx_hash_data(/
//@end
//@fn cfg NodeInfo::verify ret=r
//@ spec
    ensures r == signed_by(*self, msg@, sig_bytes@), // [N01]
//@ sub /&self\.pubkey/ => /vx_slice(&self.pubkey)/
//@end
}
impl PeerInfo {
    pub open spec fn remote(&self, x: U256) -> Option<U256> { if self.id_init == x { Some(self.id_follow) } else if self.id_follow == x { Some(self.id_init) } else { None } }
//@fn pm PeerInfo::get_remote ret=r
//@ spec
    ensures r == self.remote(*local), // [N02]
//@end
}

// ------------------------------------------------------------------ what the server does
pub open spec fn tells(o: SignalOut, i: usize, m: WSSignalMessageToNode) -> bool { o matches SignalOut::WSServer(WSServerIn::Message(x, s)) && x == i && s@ == json(m) }
pub open spec fn vals(m: Map<U256, NodeInfo>) -> Seq<NodeInfo> { Seq::new(entries(m).len(), |i: int| entries(m)[i].1) }
/// The connections of the others.
pub open spec fn others(e: Seq<(U256, usize)>, i: usize) -> Seq<usize> decreases e.len() {
    if e.len() == 0 { Seq::empty() } else { let o = others(e.drop_last(), i); if e.last().1 != i { o.push(e.last().1) } else { o } }
}
pub proof fn lemma_others(e: Seq<(U256, usize)>, i: usize, p: int)
    requires 0 <= p < e.len(),
    ensures others(e.take(p + 1), i) == if e[p].1 != i { others(e.take(p), i).push(e[p].1) } else { others(e.take(p), i) },
{ assert(e.take(p + 1).drop_last() =~= e.take(p)); }
pub proof fn lemma_others_all(e: Seq<(U256, usize)>, i: usize)
    ensures forall|x: usize| #[trigger] others(e, i).contains(x) <==> x != i && exists|j: int| 0 <= j < e.len() && (#[trigger] e[j]).1 == x, others(e, i).len() <= e.len(), // [N01]
        (forall|j: int, k: int| 0 <= j < k < e.len() ==> (#[trigger] e[j]).1 != (#[trigger] e[k]).1) ==> no_dup(others(e, i)),
    decreases e.len(),
{
    if e.len() > 0 {
        let d = e.drop_last();
        lemma_others_all(d, i);
        assert forall|x: usize| #[trigger] others(e, i).contains(x) <==> x != i && exists|j: int| 0 <= j < e.len() && (#[trigger] e[j]).1 == x by {
            lemma_push_contains(others(d, i), e.last().1, x);
            assert(others(d, i).contains(x) <==> x != i && exists|j: int| 0 <= j < d.len() && (#[trigger] d[j]).1 == x);
            assert forall|j: int| 0 <= j < d.len() implies d[j] == #[trigger] e[j] by {}
            if others(e, i).contains(x) { if others(d, i).contains(x) { let j = choose|j: int| 0 <= j < d.len() && (#[trigger] d[j]).1 == x; assert(e[j].1 == x); } else { assert(e[e.len() - 1].1 == x); } }
            if x != i && exists|j: int| 0 <= j < e.len() && (#[trigger] e[j]).1 == x { let j = choose|j: int| 0 <= j < e.len() && (#[trigger] e[j]).1 == x; if j < d.len() { assert(d[j].1 == x); assert(others(d, i).contains(x)); } }
        }
        if forall|j: int, k: int| 0 <= j < k < e.len() ==> (#[trigger] e[j]).1 != (#[trigger] e[k]).1 {
            assert forall|j: int, k: int| 0 <= j < k < d.len() implies (#[trigger] d[j]).1 != (#[trigger] d[k]).1 by { assert(d[j] == e[j] && d[k] == e[k]); }
            let o = others(e, i);
            assert forall|a: int, b: int| 0 <= a < b < o.len() implies o[a] != o[b] by {
                if b < others(d, i).len() {} else { assert(others(d, i).contains(o[a])) by { assert(others(d, i)[a] == o[a]); } let j = choose|j: int| 0 <= j < d.len() && (#[trigger] d[j]).1 == o[a]; assert(e[j].1 == o[a] && e[e.len() - 1].1 == o[b]); }
            }
        }
    }
}
/// From place k on: the list goes to these connections.
pub open spec fn spread(out: Seq<SignalOut>, k: int, ws: Seq<usize>, m: WSSignalMessageToNode) -> bool { out.len() >= k + ws.len() && forall|q: int| #![trigger ws[q]] 0 <= q < ws.len() ==> tells(out[k + q], ws[q], m) }
pub open spec fn listed(o: SignalOut, i: usize, info: Map<U256, NodeInfo>, n: int) -> bool { exists|list: Vec<NodeInfo>| #[trigger] tells(o, i, WSSignalMessageToNode::ListIDsReply(list)) && sample(list@, vals(info), n) }

pub open spec fn gone(i: usize, chal: BiMap<U256, usize>, conn: BiMap<U256, usize>, info: Map<U256, NodeInfo>, ttl: Map<usize, u16>, chal2: BiMap<U256, usize>, conn2: BiMap<U256, usize>, info2: Map<U256, NodeInfo>, ttl2: Map<usize, u16>) -> bool {
    &&& chal2.r() == chal.r().remove(i) && conn2.r() == conn.r().remove(i) && ttl2 == ttl.remove(i)
    &&& info2 == if conn.r().dom().contains(i) { info.remove(conn.r()[i]) } else { info }
}
impl SignalServer {
    /// The node which proved to be behind this connection.
    pub open spec fn node(&self, i: usize) -> Option<U256> { if self.connection_ids.r().dom().contains(i) { Some(self.connection_ids.r()[i]) } else { None } }
    /// The connection of this node.
    pub open spec fn at(&self, x: U256) -> Option<usize> { if self.connection_ids.l().dom().contains(x) { Some(self.connection_ids.l()[x]) } else { None } }
    /// What this connection has to sign.
    pub open spec fn open_challenge(&self, i: usize) -> Option<U256> { if self.challenges.r().dom().contains(i) { Some(self.challenges.r()[i]) } else { None } }
    pub open spec fn alive(&self, i: usize) -> bool { self.ttl@.dom().contains(i) }
    /// The infos are those of the nodes which are connected, and every connection is alive.
    pub open spec fn wf(&self) -> bool {
        &&& forall|x: U256| #[trigger] self.info@.dom().contains(x) <==> self.connection_ids.l().dom().contains(x)
        &&& forall|x: U256| #[trigger] self.info@.dom().contains(x) ==> info_id(self.info@[x]) == x
        &&& forall|i: usize| #[trigger] self.connection_ids.r().dom().contains(i) ==> self.alive(i) && !self.challenges.r().dom().contains(i)
        &&& forall|i: usize| #[trigger] self.challenges.r().dom().contains(i) ==> self.alive(i)
        &&& twoway(self.connection_ids.l(), self.connection_ids.r()) && twoway(self.challenges.l(), self.challenges.r())
    }
    pub open spec fn same(&self, o: &Self) -> bool { self.challenges == o.challenges && self.connection_ids == o.connection_ids && self.info == o.info && self.ttl@ == o.ttl@ && self.config == o.config }
    pub open spec fn kept(&self, o: &Self, tt: Map<usize, u16>) -> bool { self.challenges == o.challenges && self.connection_ids == o.connection_ids && self.info == o.info && self.ttl@ == tt && self.config == o.config }
    /// A message came over this connection.
    pub open spec fn woken(&self, i: usize) -> Map<usize, u16> { if self.alive(i) { self.ttl@.insert(i, self.config.ttl_minutes) } else { self.ttl@ } }
    pub open spec fn dropped(&self, o: &Self, i: usize) -> bool {
        &&& gone(i, o.challenges, o.connection_ids, o.info@, o.ttl@, self.challenges, self.connection_ids, self.info@, self.ttl@) && self.config == o.config
    }
    pub open spec fn accepts(&self, i: usize, a: MessageAnnounce) -> bool { self.open_challenge(i) matches Some(c) && signed_by(a.node_info, c.0@, a.signature@) }
    pub open spec fn did_announce(&self, o: &Self, tt: Map<usize, u16>, i: usize, a: MessageAnnounce, out: Seq<SignalOut>) -> bool {
        let id = info_id(a.node_info);
        if !o.accepts(i, a) { out.len() == 0 && self.kept(o, tt) } else {
            let k: int = if o.at(id) is Some && o.node(i) is None { 1 } else { 0 };
            let ws = others(entries(self.connection_ids.l()), i);
            &&& put(o.connection_ids, self.connection_ids, id, i)
            &&& self.info@ == o.info@.insert(id, a.node_info)
            &&& self.challenges.r() == o.challenges.r().remove(i)
            &&& self.ttl@ == tt && self.config == o.config
            &&& k == 1 ==> kicked(out[0], o.connection_ids.l()[id])
            &&& tells(out[k], i, WSSignalMessageToNode::SystemConfig(FledgerConfig { system_realm: o.config.system_realm }))
            &&& out.len() == k + ws.len() + 2
            &&& spread_list(out, k + 1, ws, self.info@)
            &&& out[k + ws.len() + 1] == SignalOut::NewNode(id)
        }
    }
    pub open spec fn did_list(&self, o: &Self, tt: Map<usize, u16>, i: usize, out: Seq<SignalOut>) -> bool {
        self.kept(o, tt) && out.len() == 1 && listed(out[0], i, o.info@, match o.config.max_list_len { Some(n) => n as int, None => entries(o.info@).len() as int })
    }
    pub open spec fn relays(&self, i: usize, pi: PeerInfo) -> Option<usize> {
        match self.node(i) { Some(x) => match pi.remote(x) { Some(y) => self.at(y), None => None }, None => None }
    }
    pub open spec fn did_setup(&self, o: &Self, tt: Map<usize, u16>, i: usize, pi: PeerInfo, out: Seq<SignalOut>) -> bool {
        self.kept(o, tt) && match o.relays(i, pi) { Some(j) => out.len() == 1 && tells(out[0], j, WSSignalMessageToNode::PeerSetup(pi)), None => out.len() == 0 }
    }
    pub open spec fn did_connect(&self, o: &Self, i: usize, out: Seq<SignalOut>) -> bool {
        &&& self.connection_ids == o.connection_ids && self.info == o.info && self.config == o.config
        &&& self.ttl@ == o.ttl@.insert(i, o.config.ttl_minutes)
        &&& out.len() == 1 && exists|c: U256| #[trigger] tells(out[0], i, WSSignalMessageToNode::Challenge(SIGNAL_VERSION, c)) && put(o.challenges, self.challenges, c, i)
    }
    pub open spec fn did_msg(&self, o: &Self, tt: Map<usize, u16>, i: usize, m: WSSignalMessageFromNode, out: Seq<SignalOut>) -> bool {
        match m {
            WSSignalMessageFromNode::Announce(a) => self.did_announce(o, tt, i, a, out),
            WSSignalMessageFromNode::ListIDsRequest => self.did_list(o, tt, i, out),
            WSSignalMessageFromNode::PeerSetup(pi) => self.did_setup(o, tt, i, pi, out),
            WSSignalMessageFromNode::NodeStats(ns) => self.kept(o, tt) && out.len() == 1 && out[0] == SignalOut::NodeStats(ns),
        }
    }
    pub open spec fn did_wss(&self, o: &Self, m: WSServerOut, out: Seq<SignalOut>) -> bool {
        match m {
            WSServerOut::Message(i, s) => match unjson(s@) { Some(w) => self.did_msg(o, o.woken(i), i, w, out), None => self.kept(o, o.woken(i)) && out.len() == 0 },
            WSServerOut::NewConnection(i) => self.did_connect(o, i, out),
            WSServerOut::Disconnection(i) => self.dropped(o, i) && out.len() == 0,
            WSServerOut::Stopped => self.same(o) && out.len() == 1 && out[0] == SignalOut::Stopped,
        }
    }
    /// This connection is gone after one more tick.
    pub open spec fn last_minute(&self, i: usize) -> bool { self.alive(i) && self.ttl@[i] <= 1 }
    pub open spec fn did_timer(&self, o: &Self) -> bool {
        &&& self.config == o.config
        &&& forall|i: usize| #[trigger] self.ttl@.dom().contains(i) <==> o.alive(i) && !o.last_minute(i)
        &&& forall|i: usize| #[trigger] self.ttl@.dom().contains(i) ==> self.ttl@[i] == o.ttl@[i] - 1
        &&& forall|i: usize| #[trigger] self.challenges.r().dom().contains(i) <==> o.challenges.r().dom().contains(i) && !o.last_minute(i)
        &&& forall|i: usize| #[trigger] self.challenges.r().dom().contains(i) ==> self.challenges.r()[i] == o.challenges.r()[i]
        &&& forall|i: usize| #[trigger] self.connection_ids.r().dom().contains(i) <==> o.connection_ids.r().dom().contains(i) && !o.last_minute(i)
        &&& forall|i: usize| #[trigger] self.connection_ids.r().dom().contains(i) ==> self.connection_ids.r()[i] == o.connection_ids.r()[i]
        &&& forall|x: U256| #[trigger] self.info@.dom().contains(x) <==> o.info@.dom().contains(x) && !(o.at(x) matches Some(i) && o.last_minute(i))
        &&& forall|x: U256| #[trigger] self.info@.dom().contains(x) ==> self.info@[x] == o.info@[x]
    }
    /// These connections are gone, and nothing else changed.
    pub open spec fn cleared(&self, o: &Self, g: Seq<usize>) -> bool {
        &&& self.config == o.config
        &&& forall|i: usize| #[trigger] self.ttl@.dom().contains(i) <==> o.ttl@.dom().contains(i) && !g.contains(i)
        &&& forall|i: usize| #[trigger] self.ttl@.dom().contains(i) ==> self.ttl@[i] == o.ttl@[i]
        &&& forall|i: usize| #[trigger] self.challenges.r().dom().contains(i) <==> o.challenges.r().dom().contains(i) && !g.contains(i)
        &&& forall|i: usize| #[trigger] self.challenges.r().dom().contains(i) ==> self.challenges.r()[i] == o.challenges.r()[i]
        &&& forall|i: usize| #[trigger] self.connection_ids.r().dom().contains(i) <==> o.connection_ids.r().dom().contains(i) && !g.contains(i)
        &&& forall|i: usize| #[trigger] self.connection_ids.r().dom().contains(i) ==> self.connection_ids.r()[i] == o.connection_ids.r()[i]
        &&& forall|x: U256| #[trigger] self.info@.dom().contains(x) <==> o.info@.dom().contains(x) && !(o.at(x) matches Some(i) && g.contains(i))
        &&& forall|x: U256| #[trigger] self.info@.dom().contains(x) ==> self.info@[x] == o.info@[x]
    }
    pub proof fn lemma_cleared(&self, m: &Self, o: &Self, g: Seq<usize>, p: int)
        requires 0 <= p < g.len(), o.wf(), m.wf(), m.cleared(o, g.take(p)), self.dropped(m, g[p]),
        ensures self.cleared(o, g.take(p + 1)),
    {
        assert(g.take(p + 1) =~= g.take(p).push(g[p]));
        assert forall|i: usize| g.take(p + 1).contains(i) <==> g.take(p).contains(i) || i == g[p] by { lemma_push_contains(g.take(p), g[p], i); }
        assert forall|x: U256| #[trigger] self.info@.dom().contains(x) <==> o.info@.dom().contains(x) && !(o.at(x) matches Some(i) && g.take(p + 1).contains(i)) by {
            if o.info@.dom().contains(x) {
                let i = o.connection_ids.l()[x];
                assert(o.connection_ids.l().dom().contains(x));
                assert(o.at(x) == Some(i) && o.connection_ids.r().dom().contains(i) && o.connection_ids.r()[i] == x);
                if m.connection_ids.r().dom().contains(g[p]) { assert(m.connection_ids.r()[g[p]] == o.connection_ids.r()[g[p]]); }
                if i == g[p] && m.info@.dom().contains(x) { assert(!g.take(p).contains(i)); assert(m.connection_ids.r().dom().contains(i)); }
                if m.connection_ids.r().dom().contains(g[p]) && m.connection_ids.r()[g[p]] == x { assert(o.connection_ids.l()[o.connection_ids.r()[g[p]]] == g[p]); }
            } else { assert(!m.info@.dom().contains(x)); }
        }
    }
    pub open spec fn did_one(&self, o: &Self, m: SignalIn, out: Seq<SignalOut>) -> bool {
        match m {
            SignalIn::Timer => (o.wf() ==> self.did_timer(o)) && out.len() == 0,
            SignalIn::WSServer(w) => self.did_wss(o, w, out),
            SignalIn::Stop => self.same(o) && out.len() == 1 && out[0] == SignalOut::WSServer(WSServerIn::Stop),
        }
    }
    /// The websocket server gives every connection a new number.
    pub open spec fn expected(&self, m: SignalIn) -> bool { m matches SignalIn::WSServer(WSServerOut::NewConnection(i)) ==> !self.alive(i) }
    pub open spec fn did(&self, o: &Self, m: SignalIn, out: Seq<SignalOut>) -> bool { self.did_one(o, m, out) && (o.wf() && o.expected(m) ==> self.wf()) }
}
pub open spec fn less(t: u16) -> u16 { if t == 0 { 0 } else { (t - 1) as u16 } }
pub open spec fn ending(e: Seq<(usize, u16)>, p: int, x: usize) -> bool { exists|k: int| 0 <= k < p && (#[trigger] e[k]).0 == x && e[k].1 <= 1 }
pub proof fn lemma_ending(e: Seq<(usize, u16)>, p: int, a: Seq<usize>, b: Seq<usize>)
    requires 0 <= p < e.len(), forall|x: usize| #[trigger] a.contains(x) <==> ending(e, p, x), b == if e[p].1 <= 1 { a.push(e[p].0) } else { a },
    ensures forall|x: usize| #[trigger] b.contains(x) <==> ending(e, p + 1, x),
{
    assert forall|x: usize| #[trigger] b.contains(x) <==> ending(e, p + 1, x) by {
        lemma_push_contains(a, e[p].0, x);
        assert(a.contains(x) <==> ending(e, p, x));
        if ending(e, p, x) { let k = choose|k: int| 0 <= k < p && (#[trigger] e[k]).0 == x && e[k].1 <= 1; assert(e[k].0 == x); assert(ending(e, p + 1, x)); }
        if ending(e, p + 1, x) { let k = choose|k: int| 0 <= k < p + 1 && (#[trigger] e[k]).0 == x && e[k].1 <= 1; if k < p { assert(ending(e, p, x)); } }
        if e[p].1 <= 1 && e[p].0 == x { assert(ending(e, p + 1, x)); }
    }
}
pub proof fn lemma_ending_is(e: Seq<(usize, u16)>, m: Map<usize, u16>, x: usize)
    requires enumerates(e, m),
    ensures ending(e, e.len() as int, x) <==> m.dom().contains(x) && m[x] <= 1,
{
    if m.dom().contains(x) { let k = entry_pos(m, x); assert(e[k] == (x, m[x])); }
    if ending(e, e.len() as int, x) { let k = choose|k: int| 0 <= k < e.len() && (#[trigger] e[k]).0 == x && e[k].1 <= 1; assert(m.dom().contains(e[k].0)); }
}
pub open spec fn kicked(o: SignalOut, i: usize) -> bool { exists|e: String| #[trigger] tells(o, i, WSSignalMessageToNode::Error(e)) }
pub open spec fn spread_list(out: Seq<SignalOut>, k: int, ws: Seq<usize>, info: Map<U256, NodeInfo>) -> bool { exists|list: Vec<NodeInfo>| list@ == vals(info) && #[trigger] spread(out, k, ws, WSSignalMessageToNode::ListIDsReply(list)) }
pub type Intern = SignalServer;
pub type InternIn = SignalIn;
pub type InternOut = SignalOut;
impl SignalServer {
//@fn sig SignalServer::msg_in
//@ spec
    ensures final(self).did(old(self), msg_in, res@), // [N01] [N02] [N03]
//@end
//@fn sig SignalServer::msg_wss
//@ spec
    ensures final(self).did_wss(old(self), msg, res@), // [N01] [N02] [N03]
        old(self).wf() && old(self).expected(SignalIn::WSServer(msg)) ==> final(self).wf(), // [N01] [N03]
//@ sub /serde_json::from_str::<WSSignalMessageFromNode>\(/ => /vx_unjson(/
//@ sub /\.entry\((\w+)(?:\.dup\(\))?\)\s*\.and_modify\(/ => /.vx_modify(&\1, /
//@ closure 0 header: |ttl: &mut u16| ensures *final(ttl) == self.config.ttl_minutes
//@end
//@fn sig SignalServer::msg_in_timer
//@ spec
    ensures old(self).wf() ==> final(self).did_timer(old(self)) && final(self).wf(), // [N03]
//@ entry
    let ghost o = *self; let ghost e = entries(self.ttl@); let ghost om = self.ttl@;
    let ghost mut s1 = *self; let ghost mut g = Seq::<usize>::empty();
//@ beforeloop 0
    let ghost q = vx_it0.seq();
//@ loop 0
    invariant vx_it0.wf(), vx_it0.seq() == q, q.len() == e.len(),
        forall|k: int| #![trigger q[k]] #![trigger e[k]] 0 <= k < q.len() ==> *q[k].0 == e[k].0 && *q[k].1 == e[k].1,
        forall|k: int| #![trigger q[k]] 0 <= k < vx_it0.pos() ==> *final(q[k].1) == less(e[k].1),
        forall|x: usize| #[trigger] to_remove@.contains(x) <==> ending(e, vx_it0.pos(), x),
    decreases vx_it0.left(),
//@ loopstart 0
    let ghost p = vx_it0.pos() - 1; let ghost t0 = to_remove@;
//@ loopend 0
    proof { lemma_ending(e, p, t0, to_remove@); }
//@ afterloop 0
    proof {
        s1 = *self; g = to_remove@;
        assert forall|x: usize| #[trigger] om.dom().contains(x) implies s1.ttl@[x] == less(om[x]) by { let k = entry_pos(om, x); assert(e[k] == (x, om[x])); assert(*q[k].0 == x); }
        assert(forall|x: usize| g.contains(x) <==> ending(e, e.len() as int, x));
        assert forall|x: usize| #[trigger] g.contains(x) <==> o.last_minute(x) by { lemma_ending_is(e, om, x); assert(g.contains(x) <==> ending(e, e.len() as int, x)); }
        assert(o.wf() ==> s1.wf());
        assert(g.take(0) =~= Seq::<usize>::empty());
    }
//@ loop 1
    invariant vx_it1.wf(), vx_it1.seq() == g, o.wf() ==> s1.wf() && self.wf() && self.cleared(&s1, g.take(vx_it1.pos())),
    decreases vx_it1.left(),
//@ loopstart 1
    let ghost m = *self; let ghost p = vx_it1.pos() - 1;
//@ loopend 1
    proof { if o.wf() { self.lemma_cleared(&m, &s1, g, p); } }
//@ exit
    proof { assert(g.take(g.len() as int) =~= g); }
//@end
//@fn sig SignalServer::msg_ws_process
//@ spec
    ensures final(self).did_msg(old(self), old(self).ttl@, index, msg, res@), // [N01] [N02]
        old(self).wf() ==> final(self).wf(), // [N01] [N03]
//@end
//@fn sig SignalServer::msg_ws_connect
//@ spec
    ensures final(self).did_connect(old(self), index, res@), // [N01]
        old(self).wf() && !old(self).alive(index) ==> final(self).wf(), // [N01] [N03]
//@ exit
    proof { assert(tells(res@[0], index, WSSignalMessageToNode::Challenge(SIGNAL_VERSION, challenge))); }
//@end
//@fn sig SignalServer::ws_announce
//@ spec
    ensures final(self).did_announce(old(self), old(self).ttl@, index, msg, res@), // [N01]
        old(self).wf() ==> final(self).wf(), // [N01] [N03]
//@ closure 0 header: |vx_p0: (&U256, &NodeInfo)| -> (r: NodeInfo)
    ensures r == *vx_p0.1
//@ sub /id\.1 != &index/ => /*id.1 != index/
//@ entry
    let ghost mut m0 = Seq::<SignalOut>::empty(); let ghost mut m2 = m0; let ghost mut e = Seq::<(U256, usize)>::empty(); let ghost mut lm = WSSignalMessageToNode::Challenge(0, U256(as32(seq![])));
//@ beforeloop 0
    proof { m0 = msgs@; e = entries(self.connection_ids.l()); lm = WSSignalMessageToNode::ListIDsReply(list);
        assert(e.take(0) =~= Seq::<(U256, usize)>::empty()); assert(list@ =~= vals(self.info@)); }
//@ loop 0
    invariant vx_it0.wf(), vx_it0.seq().len() == e.len(), lm == WSSignalMessageToNode::ListIDsReply(list),
        forall|k: int| #![trigger vx_it0.seq()[k]] #![trigger e[k]] 0 <= k < e.len() ==> *vx_it0.seq()[k].0 == e[k].0 && *vx_it0.seq()[k].1 == e[k].1,
        msgs@.len() == m0.len() + others(e.take(vx_it0.pos()), index).len(),
        forall|k: int| 0 <= k < m0.len() ==> msgs@[k] == m0[k],
        spread(msgs@, m0.len() as int, others(e.take(vx_it0.pos()), index), lm),
    decreases vx_it0.left(),
//@ loopstart 0
    let ghost m1 = msgs@; let ghost p = vx_it0.pos() - 1;
//@ loopend 0
    proof {
        lemma_others(e, index, p);
        let (w, w2) = (others(e.take(p), index), others(e.take(p + 1), index));
        assert forall|q: int| #![trigger w2[q]] 0 <= q < w2.len() implies tells(msgs@[m0.len() + q], w2[q], lm) by { if q < w.len() { assert(w2[q] == w[q]); assert(msgs@[m0.len() + q] == m1[m0.len() + q]); } }
    }
//@ afterloop 0
    proof { assert(e.take(e.len() as int) =~= e); }
    proof { m2 = msgs@; }
//@ exit
    proof {
        let ws = others(e, index);
        assert forall|q: int| #![trigger ws[q]] 0 <= q < ws.len() implies tells(msgs@[m0.len() + q], ws[q], lm) by { assert(msgs@[m0.len() + q] == m2[m0.len() + q]); }
        assert(spread(msgs@, m0.len() as int, ws, lm));
        let o = *old(self);
        let k: int = if o.at(id) is Some && o.node(index) is None { 1 } else { 0 };
        assert(o.accepts(index, msg));
        assert(m0.len() == k + 1);
        assert(k == 1 ==> kicked(m0[0], o.connection_ids.l()[id]));
        assert(forall|j: int| 0 <= j < m0.len() ==> res@[j] == m2[j] && #[trigger] m2[j] == m0[j]);
        assert(res@[0] == m0[0] && res@[k] == m0[k]);
        assert(k == 1 ==> kicked(res@[0], o.connection_ids.l()[id]));
        assert(tells(res@[k], index, WSSignalMessageToNode::SystemConfig(FledgerConfig { system_realm: o.config.system_realm })));
        assert(spread_list(res@, k + 1, ws, self.info@));
        assert(put(o.connection_ids, self.connection_ids, id, index));
        assert(self.info@ == o.info@.insert(id, msg.node_info));
        assert(self.challenges.r() == o.challenges.r().remove(index));
    }
//@end
//@fn sig SignalServer::ws_list_ids
//@ spec
    ensures final(self).did_list(old(self), old(self).ttl@, id, res@), // [N01]
        old(self).wf() ==> final(self).wf(), // [N01] [N03]
//@ exit
    proof { axiom_entries(self.info@); assert(sample(list@, vals(self.info@), max_size as int)); assert(tells(res@[0], id, WSSignalMessageToNode::ListIDsReply(list))); }
//@ sub /\.unwrap_or\(/ => /.vx_unwrap_or(/
//@ sub /\.choose_multiple\(/ => /.vx_choose_multiple(/
//@end
//@fn sig SignalServer::ws_peer_setup
//@ spec
    ensures final(self).did_setup(old(self), old(self).ttl@, index, pi, res@), // [N02]
        old(self).wf() ==> final(self).wf(), // [N01] [N03]
//@end
//@fn sig SignalServer::ws_node_stats
//@ spec
    ensures *final(self) == *old(self), res@.len() == 1 && res@[0] == SignalOut::NodeStats(ns),
//@end
//@fn sig SignalServer::send_msg_node
//@ spec
    ensures res@.len() == 1 && tells(res@[0], index, msg), // [N01] [N02]
//@ sub /vx_json\(&msg\)/ => /vx_json(&msg)/
//@end
//@fn sig SignalServer::remove_node
//@ spec
    ensures final(self).dropped(old(self), index), // [N03]
        old(self).wf() ==> final(self).wf(), // [N01] [N03]
//@end
//@fn sig <SignalServer as SubsystemHandler<SignalIn,SignalOut>>::messages
//@ spec
    ensures exists|h: Seq<SignalServer>, outs: Seq<Vec<SignalOut>>| #[trigger] one_by_one(h, outs, msgs@) && h[0] == *old(self) && h.last() == *final(self) && res@ == flat_of(outs), // [N01] [N02] [N03]
//@ sub ! /msgs\.vx_into_iter\(\)\s*\.vx_flat_map\(\|msg\| ([\s\S]*?)\)\s*\.vx_collect\(\)/ => /let ghost all = msgs@; let mut vx_out: Vec<InternOut> = Vec::new(); let mut vx_it = vx_into(msgs); let ghost mut h = seq![*self]; let ghost mut outs = Seq::<Vec<InternOut>>::empty(); proof { lemma_flat_empty::<InternOut>(); } while vx_it.has_more() invariant vx_it.wf(), vx_it.seq() == all, one_by_one(h, outs, all.take(vx_it.pos())), h[0] == *old(self), h.last() == *self, vx_out@ == flat_of(outs), decreases vx_it.left(), { let ghost p = vx_it.pos(); let msg = vx_it.take_next(); let ghost o = *self; let vx_r: Vec<InternOut> = \1; proof { lemma_flat_push(outs, vx_r); lemma_one_more(h, outs, all, p, *self, vx_r); outs = outs.push(vx_r); h = h.push(*self); } vx_out.vx_extend(vx_r); } proof { assert(all.take(all.len() as int) =~= all); } vx_out/
//@end
}
pub open spec fn proves(o: &SignalServer, m: SignalIn, i: usize, x: U256) -> bool {
    match m {
        SignalIn::WSServer(WSServerOut::Message(j, s)) => j == i && match (unjson(s@), o.open_challenge(i)) {
            (Some(WSSignalMessageFromNode::Announce(a)), Some(c)) => signed_by(a.node_info, c.0@, a.signature@) && x.0@ == a.node_info.pubkey@,
            _ => false,
        },
        _ => false,
    }
}
/// Who is behind a connection is only settled by a signature of the challenge of that connection, which counts once.
pub proof fn lemma_proved(n: &SignalServer, o: &SignalServer, m: SignalIn, out: Seq<SignalOut>, i: usize, x: U256)
    requires n.did(o, m, out), o.wf(), n.node(i) == Some(x), o.node(i) != Some(x),
    ensures proves(o, m, i, x), // [N01]
        n.open_challenge(i) is None, // [N01]
{
    if let SignalIn::WSServer(WSServerOut::Message(j, s)) = m { axiom_unjson(s@); if let Some(WSSignalMessageFromNode::Announce(a)) = unjson(s@) { axiom_as32(a.node_info.pubkey@); } }
}
/// What a connection has to sign is what it was sent when it began.
pub proof fn lemma_challenged(n: &SignalServer, o: &SignalServer, m: SignalIn, out: Seq<SignalOut>, i: usize, c: U256)
    requires n.did(o, m, out), o.wf(), o.expected(m), n.open_challenge(i) == Some(c), o.open_challenge(i) != Some(c),
    ensures m == SignalIn::WSServer(WSServerOut::NewConnection(i)), out.len() == 1, // [N01]
{}
/// A new node is only reported when it proved who it is.
pub proof fn lemma_reported(n: &SignalServer, o: &SignalServer, m: SignalIn, out: Seq<SignalOut>, x: U256)
    requires n.did(o, m, out), o.wf(), out.contains(SignalOut::NewNode(x)),
    ensures m matches SignalIn::WSServer(WSServerOut::Message(i, s)) && n.node(i) == Some(x) && o.open_challenge(i) is Some, // [N01]
{
    let k = choose|k: int| 0 <= k < out.len() && out[k] == SignalOut::NewNode(x);
    if let SignalIn::WSServer(WSServerOut::Message(i, s)) = m { if let Some(WSSignalMessageFromNode::Announce(a)) = unjson(s@) { if o.accepts(i, a) {
        let id = info_id(a.node_info);
        let kk: int = if o.at(id) is Some && o.node(i) is None { 1 } else { 0 };
        let ws = others(entries(n.connection_ids.l()), i);
        if k > kk && k < kk + 1 + ws.len() { { let list = choose|list: Vec<NodeInfo>| list@ == vals(n.info@) && #[trigger] spread(out, kk + 1, ws, WSSignalMessageToNode::ListIDsReply(list)); assert(tells(out[kk + 1 + (k - kk - 1)], ws[k - kk - 1], WSSignalMessageToNode::ListIDsReply(list))); } }
    } } }
}
/// A node stays until its connection ends, was silent for too long, or the node came back on another connection.
pub proof fn lemma_stays(n: &SignalServer, o: &SignalServer, m: SignalIn, out: Seq<SignalOut>, i: usize, x: U256)
    requires n.did(o, m, out), o.wf(), o.expected(m), o.node(i) == Some(x),
        m != SignalIn::WSServer(WSServerOut::Disconnection(i)), !(m is Timer && o.last_minute(i)),
    ensures n.node(i) == Some(x) || (m matches SignalIn::WSServer(WSServerOut::Message(j, s)) && j != i && n.node(j) == Some(x)), // [N03]
{
    if let SignalIn::WSServer(WSServerOut::Message(j, s)) = m { if let Some(WSSignalMessageFromNode::Announce(a)) = unjson(s@) { if o.accepts(j, a) { assert(o.challenges.r().dom().contains(j)); assert(n.connection_ids.r().dom().contains(j)); } } }
}
/// Every minute brings a silent connection nearer to its end, a message gives it all its time again.
pub proof fn lemma_minutes(n: &SignalServer, o: &SignalServer, m: SignalIn, out: Seq<SignalOut>, i: usize)
    requires n.did(o, m, out), o.wf(), o.alive(i), n.alive(i),
    ensures match m {
        SignalIn::Timer => o.ttl@[i] > 1 && n.ttl@[i] == o.ttl@[i] - 1, // [N03]
        SignalIn::WSServer(WSServerOut::Message(j, _)) if j == i => n.ttl@[i] == o.config.ttl_minutes, // [N03]
        SignalIn::WSServer(WSServerOut::NewConnection(j)) if j == i => n.ttl@[i] == o.config.ttl_minutes, // [N03]
        _ => n.ttl@[i] == o.ttl@[i], // [N03]
    },
{}
/// Who is gone is no longer listed, and nothing is sent there.
pub proof fn lemma_listed(s: &SignalServer, x: U256)
    requires s.wf(),
    ensures s.info@.dom().contains(x) <==> s.at(x) is Some, s.at(x) matches Some(i) ==> s.node(i) == Some(x) && s.alive(i), // [N03]
{}
}
fn main() {}
