//@include prelude.rs
//@include ids.rs
//@file rtc flarch/src/web_rtc/mod.rs
//@file nc flarch/src/web_rtc/node_connection.rs
//@file pm flarch/src/web_rtc/messages.rs
//@sub /\.clone\(\)/ => /.dup()/
//@sub /\bmessages::PeerMessage/ => /PeerMessage/
verus! {
// ------------------------------------------------------------------ what is trusted here
pub trait Dup: Sized { fn dup(&self) -> (r: Self) ensures r == *self; }
impl Dup for U256 { fn dup(&self) -> (r: Self) { *self } }
impl Dup for NCInput { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub struct WebRTCInput { x: u8 }
#[verifier::external_body]
pub struct WebRTCOutput { x: u8 }
#[verifier::external_body]
pub struct ConnectionStateMap { x: u8 }
//@enum pm PeerMessage
//@enum nc Direction
//@enum nc NCInput
//@enum nc NCOutput
//@enum rtc WebRTCConnIn
//@enum rtc WebRTCConnOut
/// What makes the connections of this platform.
#[verifier::external_body]
pub struct WebRTCSpawner { x: u8 }
/// The platform can make connections.
pub uninterp spec fn works(w: WebRTCSpawner) -> bool;
/// The modules behind the broker are gone.
pub uninterp spec fn gone(which: int) -> bool;
/// What the broker `which` sends out is shown on `to` as coming from `id`.
pub uninterp spec fn shown_as(which: int, to: int, id: U256) -> bool;
/// A connection to one node: which one it is, and what it has been asked so far.
#[verifier::external_body] #[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(O)]
pub struct Broker<I, O> { x: std::marker::PhantomData<(I, O)> }
pub type VxConn = Broker<NCInput, NCOutput>;
impl Dup for VxConn { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub struct BrokerWebRTCConn { x: u8 }
impl Dup for BrokerWebRTCConn { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
impl BrokerWebRTCConn {
    pub uninterp spec fn which(&self) -> int;
    #[verifier::external_body]
    pub fn vx_new() -> (r: BrokerWebRTCConn) { unimplemented!() }
    /// What is put behind this broker starts without connections, and shows what comes in on this same broker.
    #[verifier::external_body]
    pub fn add_handler(&mut self, h: Box<WebRTCConn>) -> (r: VResult<()>)
        requires h.connections@ =~= Map::<U256, VxConn>::empty(), sound(*h), h.broker.which() == old(self).which(), // [C01]
        ensures final(self).which() == old(self).which(), r is Ok ==> serves(old(self).which(), h.web_rtc) { unimplemented!() }
}
/// Behind this broker a WebRTCConn with these connections has been put.
pub uninterp spec fn serves(which: int, w: WebRTCSpawner) -> bool;
pub open spec fn wraps<F: Fn(NCOutput) -> Option<WebRTCConnOut>>(f: F, id: U256) -> bool {
    forall|m: NCOutput, o: Option<WebRTCConnOut>| #[trigger] call_ensures(f, (m,), o) ==> o == Some(WebRTCConnOut::Message(id, m))
}
impl Broker<NCInput, NCOutput> {
    pub uninterp spec fn which(&self) -> int;
    pub uninterp spec fn asked(&self) -> Seq<NCInput>;
    /// [`Broker::emit_msg_in`], under contract in broker.rs.
    #[verifier::external_body]
    pub fn emit_msg_in(&mut self, m: NCInput) -> (r: VResult<()>)
        ensures final(self).which() == old(self).which(), r is Ok ==> final(self).asked() == old(self).asked().push(m), r is Err ==> gone(old(self).which()) && final(self).asked() == old(self).asked() { unimplemented!() }
    /// [`Broker::add_translator_o_to`], under contract in broker.rs.
    #[verifier::external_body]
    pub fn add_translator_o_to<F: Fn(NCOutput) -> Option<WebRTCConnOut>>(&mut self, to: BrokerWebRTCConn, f: Box<F>) -> (r: VResult<()>)
        ensures r is Ok ==> (forall|id: U256| wraps(*f, id) ==> #[trigger] shown_as(old(self).which(), to.which(), id)), r is Err ==> gone(old(self).which()) { unimplemented!() }
}
pub struct NodeConnection {}
impl NodeConnection {
    /// A new connection, under contract in nodeconn.rs.
    #[verifier::external_body]
    pub fn new(spawner: &WebRTCSpawner) -> (r: VResult<VxConn>)
        ensures works(*spawner) ==> r is Ok, r matches Ok(c) ==> c.asked() == Seq::<NCInput>::empty() { unimplemented!() }
}
//@struct rtc WebRTCConn
// ------------------------------------------------------------------ what it does
/// What the connection to a node has been asked.
pub open spec fn asked(c: WebRTCConn, x: U256) -> Seq<NCInput> {
    if c.connections@.dom().contains(x) { c.connections@[x].asked() } else { Seq::empty() }
}
/// Every connection of this node answers in the name of the node it belongs to.
pub open spec fn sound(c: WebRTCConn) -> bool {
    forall|x: U256| #[trigger] c.connections@.dom().contains(x) ==> shown_as(c.connections@[x].which(), c.broker.which(), x) || gone(c.connections@[x].which())
}
/// No connection has died.
pub open spec fn alive(c: WebRTCConn, x: U256) -> bool { c.connections@.dom().contains(x) ==> !gone(c.connections@[x].which()) }
/// What one message asks of the connection to x.
pub open spec fn one(m: WebRTCConnIn, x: U256, open: bool) -> Seq<NCInput> {
    match m {
        WebRTCConnIn::Message(id, i) => if id == x { seq![i] } else { Seq::empty() },
        WebRTCConnIn::Connect(id) => if id == x { seq![NCInput::Setup(Direction::Outgoing, PeerMessage::Init)] } else { Seq::empty() },
        WebRTCConnIn::Disconnect(id) => if id == x && open { seq![NCInput::Disconnect] } else { Seq::empty() },
    }
}
/// Whether the message asks for the connection to x to be there.
pub open spec fn opens(m: WebRTCConnIn, x: U256) -> bool {
    match m { WebRTCConnIn::Message(id, _) => id == x, WebRTCConnIn::Connect(id) => id == x, WebRTCConnIn::Disconnect(_) => false }
}
pub open spec fn open_after(msgs: Seq<WebRTCConnIn>, x: U256, open: bool) -> bool
    decreases msgs.len(),
{
    if msgs.len() == 0 { open } else { open_after(msgs.drop_last(), x, open) || opens(msgs.last(), x) }
}
/// What all the messages ask of the connection to x.
pub open spec fn all(msgs: Seq<WebRTCConnIn>, x: U256, open: bool) -> Seq<NCInput>
    decreases msgs.len(),
{
    if msgs.len() == 0 { Seq::empty() } else { all(msgs.drop_last(), x, open) + one(msgs.last(), x, open_after(msgs.drop_last(), x, open)) }
}
/// The connection to x has been asked what the messages say, and nothing else.
pub open spec fn served(a: WebRTCConn, b: WebRTCConn, msgs: Seq<WebRTCConnIn>, x: U256) -> bool {
    &&& a.connections@.dom().contains(x) ==> b.connections@.dom().contains(x) && b.connections@[x].which() == a.connections@[x].which()
    &&& works(a.web_rtc) && alive(b, x) ==> b.connections@.dom().contains(x) == open_after(msgs, x, a.connections@.dom().contains(x)) && asked(b, x) == asked(a, x) + all(msgs, x, a.connections@.dom().contains(x))
}
pub open spec fn same_conn(a: WebRTCConn, b: WebRTCConn, x: U256) -> bool {
    a.connections@.dom().contains(x) == b.connections@.dom().contains(x) && (a.connections@.dom().contains(x) ==> a.connections@[x] == b.connections@[x])
}
pub proof fn lemma_step(a: WebRTCConn, b: WebRTCConn, c: WebRTCConn, msgs: Seq<WebRTCConnIn>, n: int, x: U256)
    requires
        0 <= n < msgs.len(),
        served(a, b, msgs.take(n), x),
        a.web_rtc == b.web_rtc,
        served(b, c, seq![msgs[n]], x),
    ensures
        served(a, c, msgs.take(n + 1), x),
{
    assert(msgs.take(n + 1).drop_last() =~= msgs.take(n));
    assert(msgs.take(n + 1).last() == msgs[n]);
    reveal_with_fuel(all, 2);
    reveal_with_fuel(open_after, 2);
    assert(seq![msgs[n]].drop_last() =~= Seq::<WebRTCConnIn>::empty());
    let ox = open_after(msgs.take(n), x, a.connections@.dom().contains(x));
    if works(a.web_rtc) && alive(c, x) {
        assert(all(msgs.take(n + 1), x, a.connections@.dom().contains(x)) =~= all(msgs.take(n), x, a.connections@.dom().contains(x)) + one(msgs[n], x, ox));
        assert(all(seq![msgs[n]], x, ox) =~= one(msgs[n], x, ox));
        assert(asked(c, x) =~= asked(a, x) + all(msgs.take(n + 1), x, a.connections@.dom().contains(x)));
    }
}
/// One message is served.
pub proof fn lemma_one(a: WebRTCConn, b: WebRTCConn, m: WebRTCConnIn, x: U256)
    requires
        a.connections@.dom().contains(x) ==> b.connections@.dom().contains(x) && b.connections@[x].which() == a.connections@[x].which(),
        works(a.web_rtc) && alive(b, x) ==> b.connections@.dom().contains(x) == (a.connections@.dom().contains(x) || opens(m, x)) && asked(b, x) =~= asked(a, x) + one(m, x, a.connections@.dom().contains(x)),
    ensures
        served(a, b, seq![m], x),
{
    reveal_with_fuel(all, 2);
    reveal_with_fuel(open_after, 2);
    assert(seq![m].drop_last() =~= Seq::<WebRTCConnIn>::empty());
    assert(all(seq![m], x, a.connections@.dom().contains(x)) =~= one(m, x, a.connections@.dom().contains(x)));
}
impl WebRTCConn {
//@fn rtc WebRTCConn::new ret=r
//@ spec
    ensures
        r matches Ok(b) ==> serves(b.which(), web_rtc), // [C01]
//@ sub ! /Broker::new\(\)/ => /BrokerWebRTCConn::vx_new()/
//@end
//@fn rtc WebRTCConn::ensure_connection ret=r
//@ spec
    requires
        sound(*old(self)),
    ensures
        sound(*final(self)), // [C01]
        final(self).web_rtc == old(self).web_rtc,
        final(self).broker == old(self).broker,
        forall|x: U256| #![trigger old(self).connections@.dom().contains(x)] #![trigger final(self).connections@.dom().contains(x)] x != id ==> same_conn(*old(self), *final(self), x), // [C01]
        old(self).connections@.dom().contains(id) ==> same_conn(*old(self), *final(self), id), // [C01]
        works(old(self).web_rtc) ==> final(self).connections@.dom().contains(id), // [C01]
        asked(*final(self), id) == asked(*old(self), id), // [C01]
//@ entry
//@ closure 0 -> (r: Option<WebRTCConnOut>) ensures r == Some(WebRTCConnOut::Message(id, msg))
//@end
//@fn rtc WebRTCConn::try_send
//@ spec
    requires
        sound(*old(self)),
    ensures
        sound(*final(self)), // [C01]
        final(self).web_rtc == old(self).web_rtc,
        final(self).broker == old(self).broker,
        forall|x: U256| #![trigger old(self).connections@.dom().contains(x)] #![trigger final(self).connections@.dom().contains(x)] x != dst ==> same_conn(*old(self), *final(self), x), // [C01]
        final(self).connections@.dom() == old(self).connections@.dom(), // [C01]
        old(self).connections@.dom().contains(dst) ==> final(self).connections@[dst].which() == old(self).connections@[dst].which() && (gone(old(self).connections@[dst].which()) || final(self).connections@[dst].asked() == old(self).connections@[dst].asked().push(msg)), // [C01]
//@end
//@fn rtc <WebRTCConn as SubsystemHandler<WebRTCConnIn,WebRTCConnOut>>::messages ret=r
//@ spec
    requires
        sound(*old(self)),
    ensures
        sound(*final(self)), // [C01]
        forall|x: U256| #[trigger] served(*old(self), *final(self), msgs@, x), // [C01]
        r@.len() == 0, // [C01]
//@ entry
        let ghost all_msgs = msgs@;
        let ghost start = *self;
        let ghost mut before = *self;
        let ghost mut n: int = 0;
        assert forall|x: U256| #[trigger] served(start, *self, all_msgs.take(0), x) by { reveal_with_fuel(all, 2); reveal_with_fuel(open_after, 2); assert(asked(start, x) =~= asked(start, x) + Seq::<NCInput>::empty()); }
//@ loop 0
            invariant
                vx_it0.wf(),
                vx_it0.seq() == all_msgs,
                n == vx_it0.pos(),
                sound(*self),
                self.web_rtc == start.web_rtc,
                forall|x: U256| #[trigger] served(start, *self, all_msgs.take(n), x), // [C01]
            ensures
                n == all_msgs.len(),
            decreases vx_it0.left(),
//@ loopstart 0
            proof { before = *self; }
//@ loopend 0
            assert forall|x: U256| #[trigger] served(before, *self, seq![all_msgs[n]], x) by { lemma_one(before, *self, all_msgs[n], x); }
            proof { n = n + 1; }
            assert forall|x: U256| #[trigger] served(start, *self, all_msgs.take(n), x) by { lemma_step(start, before, *self, all_msgs, n - 1, x); }
//@ exit
        assert(all_msgs.take(n) =~= all_msgs);
//@end
}
} // verus!
fn main() {}
