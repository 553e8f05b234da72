//@include prelude.rs
//@include ids.rs
//@include nodelist.rs
//@include wrapper.rs
//@file core flmodules/src/web_proxy/core.rs
//@file intern flmodules/src/web_proxy/intern.rs
//@file wb flmodules/src/web_proxy/broker.rs
//@file rsp flmodules/src/web_proxy/response.rs
//@file msgs flmodules/src/router/messages.rs
//@sub /\.clone\(\)/ => /.dup()/
//@sub /\.into\(\)/ => /.vx_nodes()/
//@sub /MODULE_NAME: &str/ => /MODULE_NAME: &'static str/
//@sub /mpsc::Sender</ => /Sender</
//@sub /HashMap::new\(\)/ => /vx_no_map()/
verus! {
// ------------------------------------------------------------------ what is trusted here
pub axiom fn axiom_vec_ext<T>(a: Vec<T>, b: Vec<T>) ensures a@ == b@ ==> a == b;
/// Every Clone of fledger is derived: a faithful copy.
pub trait Dup: Sized { fn dup(&self) -> (r: Self) ensures r == *self; }
impl<T> Dup for T { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub struct Bytes { x: u8 }
#[verifier::external_body]
pub struct NodeStat { x: u8 }
#[verifier::external_body]
pub struct FledgerConfig { x: u8 }
#[verifier::external_body]
pub struct NetworkConnectionState { x: u8 }
/// What reqwest gives for a page: its status and headers, and its content in pieces.
#[verifier::external_body]
pub struct Page { x: u8 }
#[verifier::external_body]
pub struct HeaderName { x: u8 }
#[verifier::external_body]
pub struct HeaderValue { x: u8 }
pub uninterp spec fn page(url: Seq<char>) -> VResult<Page>;
pub uninterp spec fn code_of(p: Page) -> u16;
pub uninterp spec fn fields(p: Page) -> Seq<(HeaderName, HeaderValue)>;
pub uninterp spec fn pieces(p: Page) -> Seq<VResult<Bytes>>;
/// The name of a header is ASCII; its value is read as UTF-8.
pub uninterp spec fn name_of(k: HeaderName) -> String;
pub uninterp spec fn text_of(v: HeaderValue) -> String;
#[verifier::external_body]
pub fn vx_name(k: &HeaderName) -> (r: String) ensures r == name_of(*k) { unimplemented!() }
#[verifier::external_body]
pub fn vx_value(k: &HeaderValue) -> (r: String) ensures r == text_of(*k) { unimplemented!() }
#[verifier::external_body]
pub fn vx_get(url: String) -> (r: VResult<Page>) ensures r == page(url@) { unimplemented!() }
impl Page {
    #[verifier::external_body]
    pub fn headers(&self) -> (r: Vec<(HeaderName, HeaderValue)>) ensures r@ == fields(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_code(&self) -> (r: u16) ensures r == code_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_stream(self) -> (r: VxStream) ensures r.of() == self, r.read().len() == 0 { unimplemented!() }
}
/// The pieces, as many at once as there are.
#[verifier::external_body]
pub struct VxStream { x: u8 }
impl VxStream {
    pub uninterp spec fn of(&self) -> Page;
    pub uninterp spec fn read(&self) -> Seq<VResult<Bytes>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Vec<VResult<Bytes>>>)
        ensures final(self).of() == old(self).of(), match r { Some(v) => final(self).read() == old(self).read() + v@ && final(self).read().len() <= pieces(old(self).of()).len() && pieces(old(self).of()).take(final(self).read().len() as int) == final(self).read(), None => final(self).read() == old(self).read() && old(self).read() == pieces(old(self).of()) } { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_text(e: VErr) -> (r: String) { unimplemented!() }
pub uninterp spec fn content(b: Bytes) -> Seq<u8>;
#[verifier::external_body]
pub struct BytesMut { x: u8 }
impl BytesMut {
    pub uninterp spec fn all(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new() -> (r: BytesMut) ensures r.all() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_extend(&mut self, b: Bytes) ensures final(self).all() == old(self).all() + content(b) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_done(self) -> (r: Bytes) ensures content(r) == self.all() { unimplemented!() }
}
#[verifier::external_body]
pub struct NodeInfo { x: u8 }
pub uninterp spec fn info_id(n: NodeInfo) -> U256;
/// The node fetches pages for others (Modules::WEBPROXY_REQUESTS).
pub uninterp spec fn serves(n: NodeInfo) -> bool;
impl NodeInfo { #[verifier::external_body] pub fn get_id(&self) -> (r: U256) ensures r == info_id(*self) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_serves(n: &NodeInfo) -> (r: bool) ensures r == serves(*n) { unimplemented!() }
/// `NodeIDs::from`
pub trait VxNodes: Sized { fn vx_nodes(self) -> (r: NodeIDs); }
impl VxNodes for Vec<U256> { fn vx_nodes(self) -> (r: NodeIDs) ensures r.0@ == self@ { NodeIDs(self) } }
impl VxNodes for &Vec<U256> { #[verifier::external_body] fn vx_nodes(self) -> (r: NodeIDs) ensures r.0@ == self@ { unimplemented!() } }
#[verifier::external_body]
pub fn vx_arr<T, const N: usize>(a: [T; N]) -> (r: Vec<T>) ensures r@ == a@ { unimplemented!() }
/// The receiving end of this queue goes away.
pub uninterp spec fn gone(queue: int) -> bool;
/// The sending ends of a queue: what they took so far, in order. They only refuse once the receiving end is gone.
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct UnboundedSender<T> { x: std::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct Sender<T> { x: std::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct UnboundedReceiver<T> { x: std::marker::PhantomData<T> }
impl<T> UnboundedSender<T> {
    pub uninterp spec fn log(&self) -> Seq<T>;
    pub uninterp spec fn queue(&self) -> int;
    #[verifier::external_body]
    pub fn send(&mut self, m: T) -> (r: VResult<()>)
        ensures final(self).queue() == old(self).queue(), r is Ok ==> final(self).log() == old(self).log().push(m), r is Err ==> gone(old(self).queue()) { unimplemented!() }
}
impl<T> Sender<T> {
    pub uninterp spec fn log(&self) -> Seq<T>;
    pub uninterp spec fn queue(&self) -> int;
    #[verifier::external_body]
    pub fn send(&mut self, m: T) -> (r: VResult<()>)
        ensures final(self).queue() == old(self).queue(), r is Ok ==> final(self).log() == old(self).log().push(m), r is Err ==> gone(old(self).queue()) { unimplemented!() }
}
impl<T> UnboundedReceiver<T> {
    pub uninterp spec fn read(&self) -> Seq<T>;
    pub uninterp spec fn queue(&self) -> int;
    #[verifier::external_body]
    pub fn recv(&mut self) -> (r: Option<T>) ensures final(self).queue() == old(self).queue(), r matches Some(m) ==> final(self).read() == old(self).read().push(m), r is None ==> final(self).read() == old(self).read() { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct Receiver<T> { x: std::marker::PhantomData<T> }
impl<T> Receiver<T> {
    pub uninterp spec fn read(&self) -> Seq<T>;
    /// Everything was read, and nothing can come any more.
    pub uninterp spec fn over(&self) -> bool;
    #[verifier::external_body]
    pub fn recv(&mut self) -> (r: Option<T>) ensures r matches Some(m) ==> final(self).read() == old(self).read().push(m), r is None ==> final(self).read() == old(self).read() && final(self).over() { unimplemented!() }
}
#[verifier::external_body]
pub fn unbounded_channel<T>() -> (r: (UnboundedSender<T>, UnboundedReceiver<T>)) ensures r.0.queue() == r.1.queue(), r.0.log() =~= Seq::<T>::empty(), r.1.read() =~= Seq::<T>::empty() { unimplemented!() }
/// What comes into the first queue is put in the second one, in order (the task is verified below, as `forward_task`).
pub uninterp spec fn goes_on(from: int, to: int) -> bool;
/// The broker of this module, and the watchers of the counters.
#[verifier::external_body]
pub struct BrokerIntern { x: u8 }
#[verifier::external_body]
pub struct VxUnit { x: u8 }
impl VxUnit { #[verifier::external_body] pub fn expect(self, s: &str) { unimplemented!() } }
/// What the other nodes read, and who.
pub open spec fn seen(m: InternOut) -> (NodeID, Option<ModuleMessage>) { match m { InternOut::Router(RouterIn::NetworkWrapperToNetwork(d, w)) => (d, unpacked(w)), _ => arbitrary() } }
impl BrokerIntern {
    pub uninterp spec fn log(&self) -> Seq<(NodeID, Option<ModuleMessage>)>;
    #[verifier::external_body]
    pub fn emit_msg_out(&mut self, m: InternOut) -> (r: VxUnit)
        requires m matches InternOut::Router(RouterIn::NetworkWrapperToNetwork(_, _)), // [W01]
        ensures final(self).log() == old(self).log().push(seen(m)) { unimplemented!() }
}
#[verifier::external_body]
pub struct VxSender { x: u8 }
#[verifier::external_body]
pub fn vx_tell(tx: &mut Option<VxSender>, e: WebProxyStorage) { unimplemented!() }
#[verifier::external_body]
pub fn vx_no_map<K, V>() -> (r: HashMap<K, V>) ensures r@ == Map::<K, V>::empty() { unimplemented!() }

// ------------------------------------------------------------------ copied types
//@const wb MODULE_NAME
//@struct core Counters
//@struct core WebProxyStorage
//@struct core WebProxyConfig
//@struct rsp ResponseStatus
//@struct rsp ResponseHeader
//@enum rsp ResponseMessage
//@enum intern ModuleMessage
//@enum msgs RouterIn
//@enum msgs RouterOut
//@enum wb WebProxyIn
//@enum wb WebProxyOut
//@enum intern InternIn
//@enum intern InternOut
//@struct core WebProxyCore
//@struct intern Intern
//@  sub /watch::Sender<WebProxyStorage>/ => /VxSender/

// ------------------------------------------------------------------ what is promised
/// The values of a header, in order.
pub open spec fn vals_of(f: Seq<(HeaderName, HeaderValue)>, k: String) -> Seq<String> decreases f.len() { if f.len() == 0 { Seq::empty() } else if name_of(f.last().0) == k { vals_of(f.drop_last(), k).push(text_of(f.last().1)) } else { vals_of(f.drop_last(), k) } }
pub open spec fn lists(m: Map<String, Vec<String>>, f: Seq<(HeaderName, HeaderValue)>, k: String) -> bool { m.dom().contains(k) == (vals_of(f, k).len() > 0) && (m.dom().contains(k) ==> m[k]@ == vals_of(f, k)) }
pub open spec fn header_is(h: ResponseHeader, p: Page) -> bool { h.status.code == code_of(p) && forall|k: String| #[trigger] lists(h.headers@, fields(p), k) }
/// What the pieces of a page are sent as: they end at the first which is broken.
pub open spec fn sent_as(src: NodeID, nonce: U256, r: ResponseMessage) -> (NodeID, Option<ModuleMessage>) { (src, Some(ModuleMessage::Response(nonce, r))) }
pub open spec fn all_ok(p: Seq<VResult<Bytes>>) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]) is Ok }
pub open spec fn bodies(src: NodeID, nonce: U256, p: Seq<VResult<Bytes>>) -> Seq<(NodeID, Option<ModuleMessage>)> { Seq::new(p.len(), |i: int| sent_as(src, nonce, ResponseMessage::Body(p[i]->Ok_0))) }
pub open spec fn dones(src: NodeID, nonce: U256, l: Seq<(NodeID, Option<ModuleMessage>)>) -> bool { l.len() > 0 && forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] == sent_as(src, nonce, ResponseMessage::Done) }
pub open spec fn gave_up(src: NodeID, nonce: U256, l: (NodeID, Option<ModuleMessage>)) -> bool { exists|e: String| l == #[trigger] sent_as(src, nonce, ResponseMessage::Error(e)) }
/// The header comes first.
pub open spec fn headed(src: NodeID, nonce: U256, p: Page, l: (NodeID, Option<ModuleMessage>)) -> bool { exists|h: ResponseHeader| header_is(h, p) && l == #[trigger] sent_as(src, nonce, ResponseMessage::Header(h)) }
/// All the node which asked gets: the page, its end; or an error.
pub open spec fn serves_page(url: Seq<char>, src: NodeID, nonce: U256, l: Seq<(NodeID, Option<ModuleMessage>)>) -> bool {
    match page(url) {
        Err(_) => l.len() == 1 && gave_up(src, nonce, l[0]),
        Ok(p) => l.len() > 0 && headed(src, nonce, p, l[0]) && if all_ok(pieces(p)) { l.len() > pieces(p).len() && l.skip(1).take(pieces(p).len() as int) == bodies(src, nonce, pieces(p)) && dones(src, nonce, l.skip(pieces(p).len() as int + 1)) } else {
            broken_off(src, nonce, p, l)
        },
    }
}
/// So far.
pub open spec fn passed_on(src: NodeID, nonce: U256, p: Page, l0: Seq<(NodeID, Option<ModuleMessage>)>, l: Seq<(NodeID, Option<ModuleMessage>)>, read: Seq<VResult<Bytes>>) -> bool {
    l.len() == l0.len() + 1 + read.len() && l.take(l0.len() as int) =~= l0 && all_ok(read) && headed(src, nonce, p, l[l0.len() as int]) && l.skip(l0.len() as int + 1) =~= bodies(src, nonce, read)
}
pub proof fn lemma_passed(src: NodeID, nonce: U256, p: Page, l0: Seq<(NodeID, Option<ModuleMessage>)>, l: Seq<(NodeID, Option<ModuleMessage>)>, read: Seq<VResult<Bytes>>, b: Bytes)
    requires passed_on(src, nonce, p, l0, l, read),
    ensures passed_on(src, nonce, p, l0, l.push(sent_as(src, nonce, ResponseMessage::Body(b))), read.push(Ok(b))),
{
    let m = l.push(sent_as(src, nonce, ResponseMessage::Body(b)));
    assert(m.take(l0.len() as int) =~= l0) by { assert forall|i: int| 0 <= i < l0.len() implies m[i] == l0[i] by { assert(l.take(l0.len() as int)[i] == l[i]); } }
    assert(m.skip(l0.len() as int + 1) =~= l.skip(l0.len() as int + 1).push(m.last()));
    assert(bodies(src, nonce, read.push(Ok(b))) =~= bodies(src, nonce, read).push(m.last()));
}
pub proof fn lemma_broken(src: NodeID, nonce: U256, p: Page, l0: Seq<(NodeID, Option<ModuleMessage>)>, l: Seq<(NodeID, Option<ModuleMessage>)>, read: Seq<VResult<Bytes>>, url: Seq<char>, e: (NodeID, Option<ModuleMessage>))
    requires passed_on(src, nonce, p, l0, l, read), page(url) == Ok::<Page, VErr>(p), read.len() < pieces(p).len(), pieces(p).take(read.len() as int) == read, pieces(p)[read.len() as int] is Err, gave_up(src, nonce, e),
    ensures serves_page(url, src, nonce, l.push(e).skip(l0.len() as int)), l.push(e).take(l0.len() as int) =~= l0,
{
    let m = l.push(e).skip(l0.len() as int);
    let n = m.len() - 2;
    assert(l.push(e).take(l0.len() as int) =~= l0) by { assert forall|i: int| 0 <= i < l0.len() implies l.push(e)[i] == l0[i] by { assert(l.take(l0.len() as int)[i] == l[i]); } }
    assert(m[0] == l[l0.len() as int]);
    assert(m.skip(1).take(n) =~= l.skip(l0.len() as int + 1));
    assert(!all_ok(pieces(p)));
}
pub proof fn lemma_gave_up(src: NodeID, nonce: U256, l: (NodeID, Option<ModuleMessage>))
    requires l.0 == src, l.1 matches Some(ModuleMessage::Response(n, ResponseMessage::Error(e))) && n == nonce,
    ensures gave_up(src, nonce, l),
{ let e = l.1->Some_0->Response_1->Error_0; assert(l == sent_as(src, nonce, ResponseMessage::Error(e))); }
pub proof fn lemma_headed(src: NodeID, nonce: U256, p: Page, l: (NodeID, Option<ModuleMessage>))
    requires l.0 == src, l.1 matches Some(ModuleMessage::Response(n, ResponseMessage::Header(h))) && n == nonce && header_is(h, p),
    ensures headed(src, nonce, p, l),
{ let h = l.1->Some_0->Response_1->Header_0; assert(l == sent_as(src, nonce, ResponseMessage::Header(h))); }
pub proof fn lemma_whole(src: NodeID, nonce: U256, p: Page, l0: Seq<(NodeID, Option<ModuleMessage>)>, l: Seq<(NodeID, Option<ModuleMessage>)>, url: Seq<char>, d: Seq<(NodeID, Option<ModuleMessage>)>)
    requires passed_on(src, nonce, p, l0, l, pieces(p)), page(url) == Ok::<Page, VErr>(p), dones(src, nonce, d),
    ensures serves_page(url, src, nonce, (l + d).skip(l0.len() as int)), (l + d).take(l0.len() as int) =~= l0,
{
    let m = (l + d).skip(l0.len() as int);
    assert((l + d).take(l0.len() as int) =~= l0) by { assert forall|i: int| 0 <= i < l0.len() implies (l + d)[i] == l0[i] by { assert(l.take(l0.len() as int)[i] == l[i]); } }
    assert(m[0] == l[l0.len() as int]);
    assert(m.skip(1).take(pieces(p).len() as int) =~= l.skip(l0.len() as int + 1));
    assert(m.skip(pieces(p).len() as int + 1) =~= d);
}
pub open spec fn broken_off(src: NodeID, nonce: U256, p: Page, l: Seq<(NodeID, Option<ModuleMessage>)>) -> bool {
    let n = l.len() - 2;
    0 <= n < pieces(p).len() && all_ok(pieces(p).take(n)) && pieces(p)[n] is Err && l.skip(1).take(n) == bodies(src, nonce, pieces(p).take(n)) && gave_up(src, nonce, l.last())
}
pub open spec fn flat(p: Seq<Bytes>) -> Seq<u8> decreases p.len() { if p.len() == 0 { Seq::empty() } else { flat(p.drop_last()) + content(p.last()) } }
/// The nodes which can be asked.
pub open spec fn offers(s: Seq<NodeInfo>) -> Seq<U256> decreases s.len() { if s.len() == 0 { Seq::empty() } else if serves(s.last()) { offers(s.drop_last()).push(info_id(s.last())) } else { offers(s.drop_last()) } }
pub proof fn lemma_increasing(b: Seq<int>, i: int)
    requires increasing(b), 0 <= i < b.len(), b[0] >= 0,
    ensures b[i] >= i,
    decreases i,
{ if i > 0 { lemma_increasing(b, i - 1); assert(b[i - 1] < b[i]); } }
pub proof fn lemma_offers(s: Seq<NodeInfo>, f: Seq<&NodeInfo>, fwd: Seq<int>, bwd: Seq<int>)
    requires filt(refs(s), f, fwd, bwd), forall|j: int| 0 <= j < s.len() ==> (#[trigger] fwd[j] >= 0) == serves(s[j]),
    ensures offers(s).len() == f.len(), forall|i: int| 0 <= i < f.len() ==> offers(s)[i] == info_id(*(#[trigger] f[i])),
    decreases s.len(),
{
    if s.len() > 0 {
        let k = s.len() - 1;
        let d = s.drop_last();
        assert(refs(d) =~= refs(s).drop_last());
        assert(refs(s)[k] == &s[k]);
        assert forall|j: int| 0 <= j < d.len() implies (#[trigger] fwd.drop_last()[j] >= 0) == serves(d[j]) by { assert(fwd[j] == fwd.drop_last()[j]); assert(s[j] == d[j]); }
        assert(fwd[k] >= 0 <==> serves(s[k]));
        if fwd[k] >= 0 {
            let l = f.len() - 1;
            assert(bwd[fwd[k]] == k);
            if fwd[k] < l { assert(bwd[fwd[k]] < bwd[l]); }
            assert(fwd[k] == l);
            assert forall|j: int| 0 <= j < k implies (#[trigger] fwd[j]) < l by { if fwd[j] >= l { assert(bwd[fwd[j]] == j); } }
            assert forall|i: int| 0 <= i < l implies 0 <= (#[trigger] bwd[i]) < k by { assert(bwd[i] < bwd[l]); }
            assert(filt(refs(d), f.drop_last(), fwd.drop_last(), bwd.drop_last()));
            lemma_offers(d, f.drop_last(), fwd.drop_last(), bwd.drop_last());
            assert forall|i: int| 0 <= i < f.len() implies offers(s)[i] == info_id(*(#[trigger] f[i])) by { if i < l { assert(f.drop_last()[i] == f[i]); } else { assert(refs(s)[bwd[i]] == f[i]); } }
        } else {
            assert forall|i: int| 0 <= i < f.len() implies 0 <= (#[trigger] bwd[i]) < k by { assert(fwd[bwd[i]] == i); }
            if f.len() > 0 { assert(bwd[0] >= 0 && bwd[f.len() - 1] < k); lemma_increasing(bwd, f.len() - 1); }
            assert(filt(refs(d), f, fwd.drop_last(), bwd));
            lemma_offers(d, f, fwd.drop_last(), bwd);
        }
    }
}
pub open spec fn picks_serving(s: Seq<NodeInfo>, fwd: Seq<int>) -> bool { forall|j: int| #![trigger fwd[j]] 0 <= j < s.len() ==> (fwd[j] >= 0) == serves(s[j]) }
pub open spec fn ids_ok(s: Seq<NodeInfo>, f: Seq<&NodeInfo>, r: Seq<U256>) -> bool { r.len() == f.len() && forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> r[i] == info_id(*f[i]) }
pub open spec fn unpacked(w: NetworkWrapper) -> Option<ModuleMessage> { if w.module@ == MODULE_NAME@ { unyaml::<ModuleMessage>(w.msg@) } else { None } }
pub open spec fn sends(m: InternOut, node: NodeID, msg: ModuleMessage) -> bool { m matches InternOut::Router(RouterIn::NetworkWrapperToNetwork(d, w)) && d == node && packs(w, MODULE_NAME@, msg) }
impl WebProxyCore {
    /// This node itself is never asked.
    pub open spec fn wf(&self) -> bool { !self.nodes.0@.contains(self.our_id) && forall|k: U256| #[trigger] self.requests@.dom().contains(k) ==> self.requests@[k].0 != self.our_id }
    /// All but the requests and the counters.
    pub open spec fn kept(&self, o: &Self) -> bool { self.nodes == o.nodes && self.our_id == o.our_id && self.node_index == o.node_index && self.config == o.config }
    pub open spec fn rx(&self) -> int { self.storage.counters.rx_packets as int }
    /// The next node in turn.
    pub open spec fn turn(&self) -> int { self.node_index as int % self.nodes.0@.len() as int }
//@fn core WebProxyCore::new
//@ spec
    ensures res.wf(), res.our_id == our_id, res.nodes.0@.len() == 0, res.requests@.dom() =~= Set::empty(), // [W01]
//@end
//@fn core WebProxyCore::node_list
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).nodes.0@ == part(nodes.0@, seq![old(self).our_id], false), // [W01]
        final(self).our_id == old(self).our_id, final(self).node_index == old(self).node_index, final(self).requests == old(self).requests, final(self).storage == old(self).storage, final(self).config == old(self).config,
//@ entry
    proof {
        let me = seq![self.our_id];
        lemma_part(nodes.0@, me, false); assert(me[0] == self.our_id); assert(me.contains(self.our_id));
        assert forall|v: Seq<U256>| v.len() == 1 && v[0] == self.our_id implies #[trigger] part(nodes.0@, v, false) == part(nodes.0@, me, false) by { assert(v =~= me); }
    }
//@end
//@fn core WebProxyCore::get_node
//@ spec
    requires old(self).wf(),
    ensures final(self).nodes == old(self).nodes, final(self).our_id == old(self).our_id, final(self).requests == old(self).requests, final(self).storage == old(self).storage, final(self).config == old(self).config,
        if old(self).nodes.0@.len() == 0 { res is None && *final(self) == *old(self) } else { res == Some(old(self).nodes.0@[old(self).turn()]) && final(self).node_index == old(self).turn() + 1 }, // [W01]
//@end
    /// The page is asked for at the next node.
    pub open spec fn asked(&self, o: &Self, rnd: U256, tx: int, r: Option<NodeID>) -> bool {
        self.nodes == o.nodes && self.our_id == o.our_id && self.storage == o.storage && self.config == o.config
        && if o.nodes.0@.len() == 0 { r is None && *self == *o } else {
            r == Some(o.nodes.0@[o.turn()]) && self.node_index == o.turn() + 1 && self.requests@ == o.requests@.insert(rnd, self.requests@[rnd])
                && self.requests@[rnd].0 == o.nodes.0@[o.turn()] && self.requests@[rnd].1.log().len() == 0 && goes_on(self.requests@[rnd].1.queue(), tx)
        }
    }
    #[verifier::external_body]
    pub fn forward_body(body: UnboundedReceiver<Bytes>, tx: Sender<Bytes>) ensures goes_on(body.queue(), tx.queue()) { unimplemented!() }
//@fn core WebProxyCore::request_get
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).asked(old(self), rnd, tx.queue(), res), // [W01]
//@end
    /// What a response changes: only the one asked for, only from the node asked.
    pub open spec fn answered(&self, o: &Self, src: NodeID, nonce: U256, msg: ResponseMessage, r: Option<ResponseHeader>) -> bool {
        self.kept(o) && if !o.requests@.dom().contains(nonce) || o.requests@[nonce].0 != src { self.requests@ =~= o.requests@ && self.storage == o.storage && r is None } else {
            match msg {
                ResponseMessage::Header(h) => r == Some(h) && self.requests@ =~= o.requests@,
                ResponseMessage::Body(b) => r is None && self.requests@ =~= o.requests@.insert(nonce, self.requests@[nonce]) && self.requests@[nonce].0 == src && self.requests@[nonce].1.queue() == o.requests@[nonce].1.queue()
                    && (gone(o.requests@[nonce].1.queue()) || self.requests@[nonce].1.log() == o.requests@[nonce].1.log().push(b)),
                _ => r is None && self.requests@ =~= o.requests@.remove(nonce) && self.storage == o.storage,
            }
        }
    }
//@fn core WebProxyCore::handle_response
//@ spec
    requires old(self).wf(), old(self).storage.counters.rx_packets < u32::MAX,
    ensures final(self).wf(), final(self).answered(old(self), src, nonce, msg, res), // [W01]
        final(self).rx() <= old(self).rx() + 1,
//@ sub ! /self\.requests\.get\(&nonce\)/ => /self.requests.get_mut(&nonce)/
//@end
}
// ------------------------------------------------------------------ the task which passes the parts on
#[verifier::exec_allows_no_decreases_clause]
//@fn core WebProxyCore::forward_body as=forward_task vis=none
//@ sub ! /spawn_local\(async move \{/ => /{/
//@ sub ! /\}\);\s*\}$/ => /} }/
//@ sub ! /tx: Sender/ => /mut tx: Sender/
//@ entry
    let ghost (r0, t0) = (body.read(), tx.log());
//@ loop 0
        invariant body.read().len() >= r0.len(), body.read().take(r0.len() as int) =~= r0, tx.log() =~= t0 + body.read().skip(r0.len() as int), // [W01]
//@end
// ------------------------------------------------------------------ the page
//@fn rsp `<ResponseHeader as From<&reqwest::Response>>::from` as=vx_header vis=none retty=ResponseHeader
//@ spec
    ensures header_is(res, *value), // [W01]
//@ sub /reqwest::Response/ => /Page/
//@ sub /Self \{/ => /ResponseHeader {/
//@ entry
    let ghost f = fields(*value);
//@ loop 0
    invariant vx_it0.wf(), vx_it0.seq() == f, f == fields(*value), forall|k: String| #[trigger] lists(headers@, f.take(vx_it0.pos()), k),
    decreases vx_it0.left(),
//@ loopstart 0
    let ghost p = vx_it0.pos() - 1;
    let ghost m0 = headers@;
    proof { assert(forall|x: String| #[trigger] lists(m0, f.take(p), x)); assert(lists(m0, f.take(p), name_of(k))); assert(f.take(p + 1).drop_last() =~= f.take(p)); assert(f.take(p + 1).last() == (k, v)); }
//@ loopend 0
    proof {
        assert forall|x: String| #[trigger] lists(headers@, f.take(p + 1), x) by { assert(lists(m0, f.take(p), x)); assert(f.take(p + 1).len() > 0); assert(vals_of(f.take(p + 1), x) == if name_of(k) == x { vals_of(f.take(p), x).push(text_of(v)) } else { vals_of(f.take(p), x) }); if x == name_of(k) { assert(headers@[x]@ =~= vals_of(f.take(p + 1), x)); } }
    }
//@ afterloop 0
    proof { assert(f.take(f.len() as int) =~= f); }
//@ sub /value\.status\(\)\.vx_nodes\(\)/ => /value.vx_code()/
//@ sub /"".vx_nodes\(\)/ => /String::new()/
//@ sub /k\.(?:vx_)?to_string\(\)/ => /vx_name(&k)/
//@ sub /String::from_utf8_lossy\(v\.as_bytes\(\)\)\.vx_nodes\(\)/ => /vx_value(&v)/
//@end
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct VxPd<T> { x: std::marker::PhantomData<T> }
//@struct rsp Response
impl Response {
//@fn rsp Response::chunk
//@ spec
    ensures res matches Some(m) ==> final(self).rx.read() == old(self).rx.read().push(m), res is None ==> final(self).rx.read() == old(self).rx.read() && final(self).rx.over(), // [W01]
//@end
#[verifier::exec_allows_no_decreases_clause]
//@fn rsp Response::bytes
//@ spec
    ensures final(self).rx.over(), final(self).rx.read().len() >= old(self).rx.read().len(), final(self).rx.read().take(old(self).rx.read().len() as int) =~= old(self).rx.read(), content(res) == flat(final(self).rx.read().skip(old(self).rx.read().len() as int)), // [W01]
//@ sub /b\.vx_nodes\(\)/ => /b.vx_done()/
//@ entry
    let ghost r0 = self.rx.read();
//@ loop 0
    invariant r0 == old(self).rx.read(), self.rx.read().len() >= r0.len(), self.rx.read().take(r0.len() as int) =~= r0, b.all() == flat(self.rx.read().skip(r0.len() as int)), // [W01]
    ensures self.rx.over(), // [W01]
//@ loopstart 0
    proof {
        let k = r0.len() as int;
        let now = self.rx.read();
        assert forall|o: Seq<Bytes>| o.len() >= k && now == #[trigger] o.push(n) implies flat(now.skip(k)) == flat(o.skip(k)) + content(n) && now.take(k) == o.take(k) by { assert(now.skip(k).drop_last() =~= o.skip(k)); assert(now.skip(k).last() == n); assert(now.take(k) =~= o.take(k)); }
    }
//@end
}
// ------------------------------------------------------------------ the messages
pub open spec fn same_core(n: &WebProxyCore, o: &WebProxyCore) -> bool { *n == *o }
impl Intern {
    pub open spec fn wf(&self) -> bool { self.core.wf() }
    pub open spec fn room(&self) -> bool { self.core.storage.counters.rx_packets < u32::MAX }
    /// A response: the header is passed on to the module, from the node which was asked.
    pub open spec fn got(&self, o: &Self, src: NodeID, nonce: U256, m: ResponseMessage, out: Seq<InternOut>) -> bool {
        exists|r: Option<ResponseHeader>| #[trigger] self.core.answered(&o.core, src, nonce, m, r) && match r {
            Some(h) => out.len() == 1 && out[0] == InternOut::WebProxy(WebProxyOut::ResponseGet(src, nonce, h)),
            None => out.len() == 0,
        }
    }
    pub open spec fn told(&self, o: &Self, src: NodeID, m: ModuleMessage, out: Seq<InternOut>) -> bool {
        match m {
            ModuleMessage::Request(nonce, url) => self.core == o.core && out.len() == 0,
            ModuleMessage::Response(nonce, r) => self.got(o, src, nonce, r, out),
        }
    }
    pub open spec fn did_router(&self, o: &Self, m: RouterOut, out: Seq<InternOut>) -> bool {
        match m {
            RouterOut::NodeInfosConnected(l) => out.len() == 0 && self.core.nodes.0@ == part(offers(l@), seq![o.core.our_id], false) && self.core.requests == o.core.requests && self.core.node_index == o.core.node_index && self.core.our_id == o.core.our_id,
            RouterOut::NetworkWrapperFromNetwork(src, w) => match unpacked(w) { Some(x) => self.told(o, src, x, out), None => self.core == o.core && out.len() == 0 },
            _ => self.core == o.core && out.len() == 0,
        }
    }
    /// A page which is wanted: exactly one node is asked, if there is one.
    pub open spec fn did_want(&self, o: &Self, nonce: U256, url: String, tx: int, out: Seq<InternOut>) -> bool {
        exists|r: Option<NodeID>| #[trigger] self.core.asked(&o.core, nonce, tx, r) && match r {
            Some(node) => out.len() == 1 && sends(out[0], node, ModuleMessage::Request(nonce, url)),
            None => out.len() == 0,
        }
    }
    pub open spec fn did(&self, o: &Self, m: InternIn, out: Seq<InternOut>) -> bool {
        match m {
            InternIn::Router(x) => self.did_router(o, x, out),
            InternIn::WebProxy(WebProxyIn::RequestGet(nonce, url, tx)) => self.did_want(o, nonce, url, tx.queue(), out),
        }
    }
    /// Fetches the page in a task of its own (reqwest), which puts what it gets in the broker of this module. Not verified here.
    #[verifier::external_body]
    fn start_request(&mut self, src: NodeID, nonce: U256, request: String) -> (r: Vec<InternOut>) ensures final(self).core == old(self).core, r@.len() == 0 { unimplemented!() }
/// The task which fetches the page, run to its end.
#[verifier::exec_allows_no_decreases_clause]
//@fn intern Intern::start_request as=fetch_task vis=none retty=()
//@ spec
    ensures final(broker).log().len() >= old(broker).log().len(), final(broker).log().take(old(broker).log().len() as int) =~= old(broker).log(), serves_page(request@, src, nonce, final(broker).log().skip(old(broker).log().len() as int)), // [W01]
//@ sub ! /\(\s*&mut self,\s*src/ => /(broker: &mut BrokerIntern, src/
//@ sub ! /let mut broker = self\.broker\.dup\(\);/ => //
//@ sub ! /spawn_local\(async move \{/ => /{/
//@ sub ! /\}\);\s*vec!\[\]\s*\}$/ => /} proof { let d = broker.log().skip(b1.len() as int); assert(broker.log() =~= b1 + d); lemma_whole(src, nonce, page(url)->Ok_0, l0, b1, url, d); } }/
//@ sub /reqwest::get\(/ => /vx_get(/
//@ sub /\(&resp\)\.vx_nodes\(\)/ => /vx_header(&resp)/
//@ sub /resp\.bytes_stream\(\)\.(?:vx_)?chunks\(\w+\)/ => /resp.vx_stream()/
//@ sub /e\.(?:vx_)?to_string\(\)/ => /vx_text(e)/
//@ entry
    let ghost url = request@;
    let ghost l0 = broker.log();
    let ghost n0 = l0.len() as int;
    let ghost mut b1 = l0;
    let ghost mut r0 = Seq::<VResult<Bytes>>::empty();
    let ghost mut cs = Seq::<VResult<Bytes>>::empty();
//@ loop 0
    invariant url == request@, l0 == old(broker).log(), n0 == l0.len(), page(url) == Ok::<Page, VErr>(stream.of()), passed_on(src, nonce, stream.of(), l0, broker.log(), stream.read()),
    ensures stream.read() == pieces(stream.of()),
//@ beforeloop 0
    proof {
        let b = broker.log();
        lemma_headed(src, nonce, page(url)->Ok_0, b.last());
        assert(b.take(n0) =~= l0); assert(b.skip(n0 + 1) =~= bodies(src, nonce, Seq::<VResult<Bytes>>::empty())); assert(stream.read() =~= Seq::<VResult<Bytes>>::empty());
    }
//@ beforeloop 1
    proof { cs = chunks@; r0 = stream.read().take(stream.read().len() - cs.len()); assert(r0 + cs =~= stream.read()); assert(r0 + cs.take(0) =~= r0); }
//@ loop 1
    invariant url == request@, l0 == old(broker).log(), n0 == l0.len(), page(url) == Ok::<Page, VErr>(stream.of()), vx_it1.wf(), vx_it1.seq() == cs, r0 + cs == stream.read(), stream.read().len() <= pieces(stream.of()).len(), pieces(stream.of()).take(stream.read().len() as int) == stream.read(),
        passed_on(src, nonce, stream.of(), l0, broker.log(), r0 + cs.take(vx_it1.pos())),
    decreases vx_it1.left(),
//@ loopstart 1
    let ghost b0 = broker.log();
    let ghost k = vx_it1.pos() - 1;
    proof { assert((r0 + cs)[r0.len() + k] == cs[k]); assert(stream.read()[r0.len() + k] == pieces(stream.of())[r0.len() + k]); }
//@ loopend 1
    proof { assert((r0 + cs.take(k)).push(chunk) =~= r0 + cs.take(k + 1)); lemma_passed(src, nonce, stream.of(), l0, b0, r0 + cs.take(k), chunk->Ok_0); }
//@ afterloop 1
    proof { assert(cs.take(cs.len() as int) =~= cs); }
//@ before "return" 0
    proof { lemma_gave_up(src, nonce, broker.log().last()); assert forall|i: int| 0 <= i < r0.len() + k implies pieces(stream.of())[i] == #[trigger] (r0 + cs.take(k))[i] by { assert((r0 + cs)[i] == (r0 + cs.take(k))[i]); assert(pieces(stream.of()).take(stream.read().len() as int)[i] == (r0 + cs)[i]); } assert(pieces(stream.of()).take(r0.len() + k) =~= r0 + cs.take(k)); lemma_broken(src, nonce, stream.of(), l0, b0, r0 + cs.take(k), url, broker.log().last()); }
//@ before "return" 1
    proof { lemma_gave_up(src, nonce, broker.log().last()); assert(broker.log().skip(n0) =~= seq![broker.log().last()]); assert(broker.log().take(n0) =~= l0); }
//@ afterloop 0
    proof { b1 = broker.log(); }
//@end
//@fn intern Intern::module_msg vis=none
//@ spec
    ensures sends(res, node, *msg), // [W01]
        seen(res) == (node, Some(*msg)),
//@ entry
    proof { axiom_yaml(*msg); }
//@ sub /crate::router::messages::NetworkWrapper/ => /NetworkWrapper/
//@ sub /wrap_yaml\(MODULE_NAME, &msg\)/ => /wrap_yaml(MODULE_NAME, msg)/
//@end
//@fn intern Intern::node_list vis=none
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).did_router(old(self), RouterOut::NodeInfosConnected(nodes), res@), // [W01]
        final(self).core.rx() <= old(self).core.rx() + 1,
//@ sub /ni\.modules\.(?:vx_)?contains\(Modules::WEBPROXY_REQUESTS\)/ => /vx_serves(ni)/
//@ closure 0 -> (r: bool) ensures r == serves(**ni)
//@ closure 1 -> (r: U256) ensures r == info_id(*ni)
//@ entry
    proof {
        let s = nodes@;
        let me = seq![self.core.our_id];
        assert forall|f: Seq<&NodeInfo>, fwd: Seq<int>, bwd: Seq<int>, r: Seq<U256>| #![trigger filt(refs(s), f, fwd, bwd), part(r, me, false)] filt(refs(s), f, fwd, bwd) && picks_serving(s, fwd) && ids_ok(s, f, r) implies r == offers(s) by { lemma_offers(s, f, fwd, bwd); assert(r =~= offers(s)); }
    }
//@end
//@fn intern Intern::request_get vis=none
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).did_want(old(self), rnd, url, tx.queue(), res@), // [W01]
        final(self).core.rx() <= old(self).core.rx() + 1,
//@ closure 0 -> (r: Vec<InternOut>) ensures r.len() == 1 && sends(r[0], node, ModuleMessage::Request(rnd, url))
//@end
//@fn intern Intern::handle_response vis=none
//@ spec
    requires old(self).wf(), old(self).room(),
    ensures final(self).wf(), final(self).got(old(self), src, nonce, msg, res@), // [W01]
        final(self).core.rx() <= old(self).core.rx() + 1,
//@ closure 0 -> (r: Vec<InternOut>) ensures r.len() == 1 && r[0] == InternOut::WebProxy(WebProxyOut::ResponseGet(src, nonce, header))
//@end
//@fn intern Intern::process_node_message vis=none
//@ spec
    requires old(self).wf(), old(self).room(),
    ensures final(self).wf(), final(self).told(old(self), src, msg, res@), // [W01]
        final(self).core.rx() <= old(self).core.rx() + 1,
//@ sub ! /self\.tx\.dup\(\)\.map\(\|tx\| \{\s*tx\.send\(self\.core\.storage\.dup\(\)\)\s*\.is_err\(\)\s*\.vx_then\(\|\| self\.tx = None\)\s*\}\);/ => /vx_tell(&mut self.tx, self.core.storage.dup());/
//@end
//@fn intern Intern::msg_router vis=none
//@ spec
    requires old(self).wf(), old(self).room(),
    ensures final(self).wf(), final(self).did_router(old(self), msg, res@), // [W01]
        final(self).core.rx() <= old(self).core.rx() + 1,
//@ sub ! /network_wrapper\s*\.unwrap_yaml\(MODULE_NAME\)\s*\.map\(\|msg\| ([\s\S]*?)\)\s*\.(?:vx_)?unwrap_or\(vec!\[\]\)/ => /match network_wrapper.unwrap_yaml(MODULE_NAME) { Some(msg) => \1, None => vec![] }/
//@end
//@fn intern Intern::msg_proxy vis=none
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), msg matches WebProxyIn::RequestGet(nonce, url, tx) && final(self).did_want(old(self), nonce, url, tx.queue(), res@), // [W01]
        final(self).core.rx() <= old(self).core.rx() + 1,
//@end
//@fn intern <Intern as SubsystemHandler<InternIn,InternOut>>::messages
//@ spec
    requires old(self).wf(), old(self).core.rx() + msgs@.len() < u32::MAX,
    ensures final(self).wf(), // [W01]
        exists|h: Seq<Intern>, outs: Seq<Vec<InternOut>>| #[trigger] one_by_one(h, outs, msgs@) && h[0] == *old(self) && h.last() == *final(self) && res@ == flat_of(outs), // [W01]
//@ sub ! /msgs\.vx_into_iter\(\)\s*\.vx_flat_map\(\|msg\| ([\s\S]*?)\)\s*\.vx_collect(?:::<Vec<_>>)?\(\)/ => /let ghost all = msgs@; let mut vx_out: Vec<InternOut> = Vec::new(); let mut vx_it = vx_into(msgs); let ghost mut h = seq![*self]; let ghost mut outs = Seq::<Vec<InternOut>>::empty(); proof { lemma_flat_empty::<InternOut>(); } while vx_it.has_more() invariant vx_it.wf(), vx_it.seq() == all, self.wf(), self.core.rx() <= old(self).core.rx() + vx_it.pos(), old(self).core.rx() + all.len() < u32::MAX, one_by_one(h, outs, all.take(vx_it.pos())), h[0] == *old(self), h.last() == *self, vx_out@ == flat_of(outs), decreases vx_it.left(), { let ghost p = vx_it.pos(); let msg = vx_it.take_next(); let ghost o = *self; let vx_r: Vec<InternOut> = \1; proof { lemma_flat_push(outs, vx_r); lemma_one_more(h, outs, all, p, *self, vx_r); outs = outs.push(vx_r); h = h.push(*self); } vx_out.vx_extend(vx_r); } proof { assert(all.take(all.len() as int) =~= all); } vx_out/
//@end
}
/// With the same nodes, the next one is asked the next time, and after all of them the first one again.
pub proof fn lemma_in_turn(o: WebProxyCore, n: WebProxyCore, rnd: U256, tx: int, r: Option<NodeID>)
    requires n.asked(&o, rnd, tx, r), o.nodes.0@.len() > 0,
    ensures r == Some(o.nodes.0@[o.turn()]), n.turn() == (o.turn() + 1) % (o.nodes.0@.len() as int), // [W01]
{}
/// The node itself is never asked.
pub proof fn lemma_never_itself(o: WebProxyCore, n: WebProxyCore, rnd: U256, tx: int, node: NodeID)
    requires o.wf(), n.asked(&o, rnd, tx, Some(node)),
    ensures node != o.our_id, o.nodes.0@.contains(node), // [W01]
{}
/// Nothing another node sends changes what is waited for.
pub proof fn lemma_only_the_asked(o: WebProxyCore, n: WebProxyCore, src: NodeID, nonce: U256, m: ResponseMessage, r: Option<ResponseHeader>, k: U256)
    requires n.answered(&o, src, nonce, m, r), o.requests@.dom().contains(k), o.requests@[k].0 != src || k != nonce,
    ensures n.requests@.dom().contains(k), n.requests@[k] == o.requests@[k], // [W01]
{}
}
//@include onebyone.rs
fn main() {}
