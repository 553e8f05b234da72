//@include prelude.rs
//@include ids.rs
//@file nc flarch/src/web_rtc/node_connection.rs
//@file pm flarch/src/web_rtc/messages.rs
//@sub /\.clone\(\)/ => /.dup()/
//@sub /Self \{/ => /Packet {/
//@sub /\.unwrap_or\(/ => /.vx_unwrap_or(/
verus! {
// ------------------------------------------------------------------ what is trusted here
pub trait Dup: Sized { fn dup(&self) -> (r: Self) ensures r == *self; }
impl Dup for U256 { fn dup(&self) -> (r: Self) { *self } }
impl Dup for ConnectionStateMap { fn dup(&self) -> (r: Self) { *self } }
/// A fresh identifier.
impl U256 { #[verifier::external_body] pub fn rnd() -> (r: U256) { unimplemented!() } }
#[verifier::external_body]
pub struct PeerMessage { x: u8 }
//@enum pm ConnType derive=PartialEq,Eq,Structural,Copy,Clone
//@enum pm SignalingState derive=PartialEq,Eq,Structural,Copy,Clone
//@enum pm IceGatheringState derive=PartialEq,Eq,Structural,Copy,Clone
//@enum pm IceConnectionState derive=PartialEq,Eq,Structural,Copy,Clone
//@enum pm DataChannelState derive=PartialEq,Eq,Structural,Copy,Clone
//@enum pm WebRTCInput
//@enum pm WebRTCOutput
//@struct pm ConnectionStateMap derive=Copy,Clone
//@enum nc NCInput
//@enum nc NCOutput
//@enum nc Direction derive=PartialEq,Eq,Structural
//@struct nc Packet
//@struct nc PacketCollector
//@struct nc NodeConnection
//@const nc WEBRTC_MAX_SIZE
//@const nc MAX_PACKETS
pub open spec fn default_map() -> ConnectionStateMap {
    ConnectionStateMap { type_local: ConnType::Unknown, type_remote: ConnType::Unknown, signaling: SignalingState::Closed, ice_gathering: IceGatheringState::New, ice_connection: IceConnectionState::New, data_connection: None, rx_bytes: 0, tx_bytes: 0, delay_ms: 0 }
}
impl ConnectionStateMap {
//@fn pm <ConnectionStateMap as Default>::default
//@ spec
    ensures res == default_map(), // [T02]
//@ sub /Packet \{/ => /ConnectionStateMap {/
//@end
}
/// What serde_json writes. Assumed: writing never fails, and reading gives back what was written.
pub type Parts = (Option<U256>, Option<usize>, Option<usize>, Seq<char>);
pub open spec fn fields(p: Packet) -> Parts { (p.id, p.part, p.total, p.data@) }
pub uninterp spec fn json(p: Parts) -> Seq<char>;
pub uninterp spec fn unjson(s: Seq<char>) -> Option<Parts>;
pub axiom fn axiom_json(p: Parts) ensures unjson(json(p)) == Some(p);
#[verifier::external_body]
pub fn vx_to_json(p: &Packet) -> (r: VResult<String>) ensures r is Ok && r->Ok_0@ == json(fields(*p)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_from_json(s: &str) -> (r: VResult<Packet>) ensures (r is Ok) == (unjson(s@) is Some), r matches Ok(p) ==> unjson(s@) == Some(fields(p)) { unimplemented!() }
/// The length of a text in UTF-8.
pub assume_specification [String::len] (s: &String) -> (r: usize) ensures s@.len() <= r <= 4 * s@.len();
#[verifier::external_body]
pub fn vx_chars(s: &String) -> (r: It<char>) ensures r@ == s@ { unimplemented!() }
/// `chunks`: cut into parts of n, the last one can be shorter.
pub open spec fn cut_at(s: Seq<char>, n: int, i: int) -> Seq<char> { s.subrange(i * n, if (i + 1) * n <= s.len() { (i + 1) * n } else { s.len() as int }) }
pub open spec fn cuts(s: Seq<char>, n: int, r: int) -> bool { 0 <= r && (s.len() == 0 ==> r == 0) && (s.len() > 0 ==> (r - 1) * n < s.len() <= r * n) }
#[verifier::external_body]
pub fn vx_chunks<'a>(s: &'a Vec<char>, n: usize) -> (r: It<&'a [char]>)
    requires n > 0,
    ensures cuts(s@, n as int, r@.len() as int), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == cut_at(s@, n as int, i) { unimplemented!() }
#[verifier::external_body]
pub fn vx_from_chars(s: &[char]) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_nones(n: usize) -> (r: Vec<Option<String>>) ensures r@ == nones(n as nat) { unimplemented!() }
pub open spec fn nones(n: nat) -> Seq<Option<String>> { Seq::new(n, |i: int| None::<String>) }
/// The parts which are there, one after the other.
pub open spec fn joined(s: Seq<Option<String>>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { joined(s.drop_last()) + match s.last() { Some(x) => x@, None => Seq::empty() } } }
#[verifier::external_body]
pub fn vx_join(v: Vec<Option<String>>) -> (r: String) ensures r@ == joined(v@) { unimplemented!() }
pub trait VxMore<T>: Sized { fn vx_more(&mut self, o: Vec<T>) -> (r: ()) ensures final(self).mv() == old(self).mv() + o@; spec fn mv(&self) -> Seq<T>; }
impl<T> VxMore<T> for Vec<T> {
    open spec fn mv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_more(&mut self, o: Vec<T>) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_two<T>(a: Vec<T>, b: Vec<T>) -> (r: Vec<T>) ensures r@ == a@ + b@, a@.len() == 1 ==> r@.skip(1) == b@ { unimplemented!() }

// ------------------------------------------------------------------ cutting
impl Packet {
    pub open spec fn whole(m: Seq<char>) -> Parts { (None, None, None, m) }
    pub open spec fn part_of(m: Seq<char>, id: U256, n: int, i: int) -> Parts { (Some(id), Some(i as usize), Some(n as usize), cut_at(m, WEBRTC_MAX_SIZE as int, i)) }
    pub open spec fn parts(m: Seq<char>, id: U256, r: Seq<String>) -> bool {
        cuts(m, WEBRTC_MAX_SIZE as int, r.len() as int) && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i])@ == json(Packet::part_of(m, id, r.len() as int, i))
    }
    /// The texts which are sent for m.
    pub open spec fn split(m: Seq<char>, r: Seq<String>) -> bool {
        (r.len() == 1 && r[0]@ == json(Packet::whole(m))) || exists|id: U256| #[trigger] Packet::parts(m, id, r)
    }
//@fn nc Packet::split_msg
//@ spec
    ensures Packet::split(msg@, res@), // [T01]
//@ entry
        let ghost m = msg@;
//@ exit
    proof { assert(m.len() > 0); assert forall|i: int| 0 <= i < res@.len() implies (#[trigger] res@[i])@ == json(Packet::part_of(m, id, res@.len() as int, i)) by { } assert(Packet::parts(m, id, res@)); }
//@ closure 0 -> (r: String) ensures r@ == chunk@
//@ closure 1 -> (r: String) ensures r@ == json((Some(id), Some(vx_p0.0), total, vx_p0.1@))
//@ sub /serde_json::to_string\(/ => /vx_to_json(/
//@ sub /msg\s*\.chars\(\)/ => /vx_chars(&msg)/
//@ sub ! /let chunks = ([\s\S]*?\.vx_collect::<Vec<_>>\(\))\s*\.vx_chunks\(([^)]*)\)/ => /let vx_all: Vec<char> = \1; let chunks = vx_chunks(&vx_all, \2)/
//@ sub /chunk\.vx_iter\(\)\.vx_collect::<String>\(\)/ => /vx_from_chars(chunk)/
//@ sub /\.vx_collect::<Vec<_>>\(\);\s*let id/ => /.vx_collect::<Vec<String>>(); let id/
//@end
}

// ------------------------------------------------------------------ putting together
pub open spec fn full(s: Seq<Option<String>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Some }
pub open spec fn filled(s: Seq<Option<String>>, i: int, d: Seq<char>, r: Seq<Option<String>>) -> bool {
    r.len() == s.len() && (0 <= i < s.len() ==> (r[i] matches Some(x) && x@ == d)) && forall|j: int| 0 <= j < s.len() && j != i ==> r[j] == #[trigger] s[j]
}
pub type Store = Map<U256, Vec<Option<String>>>;
pub open spec fn before(o: Store, id: U256, total: usize) -> Seq<Option<String>> { if o.dom().contains(id) { o[id]@ } else { nones(total as nat) } }
impl PacketCollector {
    /// Nothing which is complete stays here.
    pub open spec fn wf(&self) -> bool { forall|k: U256| #[trigger] self.packets@.dom().contains(k) ==> !full(self.packets@[k]@) }
    /// One part came in: the text is given once all its parts are there, and then forgotten; other texts are not concerned.
    pub open spec fn did_part(o: Store, n: Store, id: U256, total: usize, part: usize, d: Seq<char>, r: Option<String>) -> bool {
        exists|a: Seq<Option<String>>| #[trigger] filled(before(o, id, total), part as int, d, a) && if full(a) { n == o.remove(id) && (r matches Some(s) && s@ == joined(a)) }
        else { r is None && n.dom() == o.dom().insert(id) && n[id]@ == a && forall|k: U256| k != id && #[trigger] o.dom().contains(k) ==> n[k] == o[k] }
    }
    pub open spec fn did(o: Store, n: Store, p: Parts, r: Option<String>) -> bool {
        match (p.0, p.2, p.1) {
            (Some(id), Some(total), Some(part)) => if total > MAX_PACKETS { n == o && r is None } else { PacketCollector::did_part(o, n, id, total, part, p.3, r) },
            _ => n == o && (r matches Some(s) && s@ == p.3),
        }
    }
    /// The text of a packet came in.
    pub open spec fn came(o: Store, n: Store, t: Seq<char>, r: Option<String>) -> bool {
        match unjson(t) { Some(p) => PacketCollector::did(o, n, p, r), None => r is None && n == o }
    }
//@fn nc PacketCollector::new_packet ret=r
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), PacketCollector::did(old(self).packets@, final(self).packets@, fields(p), r), // [T01]
//@ entry
        let ghost o = self.packets@;
        let ghost f = fields(p);
//@ closure 0 -> (r: bool) ensures r == full(vx_p0.1@)
//@ closure 1 -> (r: bool) ensures r == p.is_some()
//@ closure 2 -> (r: U256) ensures r == *vx_p0.0
//@ sub /vec!\[None; total\]/ => /vx_nones(total)/
//@ sub /\.get_mut\(part\)/ => /.vx_get_mut(part)/
//@ sub ! /self\.packets\s*\.vx_iter\(\)([\s\S]*)\.vx_and_then\(\|id\| self\.packets\.remove\(&id\)\)\s*\.map\(\|parts\| parts\.vx_into_iter\(\)\.vx_flatten\(\)\.vx_collect\(\)\)/ => /let ghost c = self.packets@; proof { assert(filled(before(o, id, total), part as int, f.3, c[id]@)); } let vx_id = self.packets.vx_iter()\1; proof { assert(forall|k: U256| #[trigger] c.dom().contains(k) && k != id ==> !full(c[k]@)); if !full(c[id]@) { assert(forall|k: U256| #[trigger] c.dom().contains(k) ==> !full(c[k]@)); if vx_id is Some { let x = vx_id->Some_0; assert(c.dom().contains(x) && full(c[x]@)); } assert(vx_id is None); } else { let ei = entries(c)[entry_pos(c, id)]; assert(c.dom().contains(id)); assert(ei.0 == id && ei.1 == c[id]); assert(vx_id is Some); let x = vx_id->Some_0; assert(c.dom().contains(x)); assert(full(c[x]@)); assert(x == id); assert(c.remove(id) =~= o.remove(id)); } } match vx_id { Some(id) => self.packets.remove(&id).map(|parts: Vec<Option<String>>| -> (r: String) ensures r@ == joined(parts@) { vx_join(parts) }), None => None }/
//@end
//@fn nc PacketCollector::new_packet_str ret=r
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(),
        PacketCollector::came(old(self).packets@, final(self).packets@, s@, r), // [T01]
//@ sub /\.vx_ok\(\)/ => /.ok()/
//@ sub /serde_json::from_str\(/ => /vx_from_json(/
//@end
//@fn nc PacketCollector::get_params ret=r
//@ spec
    ensures r == match (p.id, p.total, p.part) { (Some(a), Some(b), Some(c)) => Some((a, b, c)), _ => None }, // [T01]
//@end
}

// ------------------------------------------------------------------ a text cut into parts comes out whole
/// The parts of R of the text m are here, and no others.
pub open spec fn partial(o: Store, m: Seq<char>, id: U256, n: int, seen: Set<int>) -> bool {
    (forall|i: int| #[trigger] seen.contains(i) ==> 0 <= i < n) && if seen =~= Set::empty() { !o.dom().contains(id) } else {
        o.dom().contains(id) && o[id]@.len() == n && (forall|i: int| 0 <= i < n ==> ((#[trigger] o[id]@[i]) is Some <==> seen.contains(i))) && pieces(m, o[id]@)
    }
}
/// Each part which is here is the right one.
pub open spec fn pieces(m: Seq<char>, a: Seq<Option<String>>) -> bool {
    forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]) is Some ==> a[i]->Some_0@ == cut_at(m, WEBRTC_MAX_SIZE as int, i)
}
pub open spec fn all_seen(n: int, seen: Set<int>) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] seen.contains(i) }
/// All the parts in their order are the text.
pub proof fn lemma_joined(m: Seq<char>, a: Seq<Option<String>>, k: int) // [T01]
    requires cuts(m, WEBRTC_MAX_SIZE as int, a.len() as int), full(a), pieces(m, a), 0 <= k <= a.len(),
    ensures joined(a.take(k)) == m.take(if k < a.len() { k * WEBRTC_MAX_SIZE } else { m.len() as int }),
    decreases k,
{
    let n = WEBRTC_MAX_SIZE as int;
    if k > 0 {
        lemma_joined(m, a, k - 1);
        let b = a.take(k);
        assert(b.drop_last() =~= a.take(k - 1));
        assert(b.last() == a[k - 1]);
        assert((k - 1) * n + n == k * n) by (nonlinear_arith);
        assert((k - 1) * n <= (a.len() - 1) * n) by (nonlinear_arith) requires k <= a.len(), n > 0;
        assert(k < a.len() ==> k * n <= (a.len() - 1) * n) by (nonlinear_arith) requires n > 0;
        if m.len() == 0 { assert(a.len() == 0); }
        assert(joined(b) =~= m.take(if k < a.len() { k * n } else { m.len() as int }));
    } else {
        assert(a.take(0).len() == 0);
        if a.len() == 0 { assert(m.len() == 0) by (nonlinear_arith) requires cuts(m, n, a.len() as int), a.len() == 0, n > 0; }
        assert(joined(a.take(0)) =~= m.take(0));
    }
}
/// A further part of m: the text comes with its last part, whatever the order, and nothing before; then nothing of it is left.
pub proof fn lemma_part(o: Store, n2: Store, m: Seq<char>, id: U256, n: int, seen: Set<int>, j: int, r: Option<String>) // [T01]
    requires cuts(m, WEBRTC_MAX_SIZE as int, n), n <= MAX_PACKETS, partial(o, m, id, n, seen), !all_seen(n, seen), 0 <= j < n,
        PacketCollector::did(o, n2, Packet::part_of(m, id, n, j), r),
    ensures
        all_seen(n, seen.insert(j)) ==> (r matches Some(s) && s@ == m) && partial(n2, m, id, n, Set::empty()),
        !all_seen(n, seen.insert(j)) ==> r is None && partial(n2, m, id, n, seen.insert(j)),
{
    let d = cut_at(m, WEBRTC_MAX_SIZE as int, j);
    let b = before(o, id, n as usize);
    let a = choose|a: Seq<Option<String>>| #[trigger] filled(b, j, d, a) && if full(a) { n2 == o.remove(id) && (r matches Some(s) && s@ == joined(a)) }
        else { r is None && n2.dom() == o.dom().insert(id) && n2[id]@ == a && forall|k: U256| k != id && #[trigger] o.dom().contains(k) ==> n2[k] == o[k] };
    let s2 = seen.insert(j);
    assert(b.len() == n);
    assert forall|i: int| 0 <= i < n implies ((#[trigger] a[i]) is Some <==> s2.contains(i)) by { if i != j { assert(a[i] == b[i]); } }
    assert(pieces(m, a)) by { assert forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]) is Some implies a[i]->Some_0@ == cut_at(m, WEBRTC_MAX_SIZE as int, i) by { if i != j { assert(a[i] == b[i]); } } }
    assert(s2.contains(j));
    if all_seen(n, s2) { assert(full(a)); lemma_joined(m, a, n); assert(a.take(n) =~= a); assert(m.take(m.len() as int) =~= m); }
    else { let x = choose|i: int| 0 <= i < n && !(#[trigger] s2.contains(i)); assert(a[x] is None); assert(!full(a)); }
}
/// Packets of other texts leave it alone.
pub proof fn lemma_apart(o: Store, n2: Store, m: Seq<char>, id: U256, n: int, seen: Set<int>, p: Parts, r: Option<String>) // [T01]
    requires partial(o, m, id, n, seen), p.0 != Some(id), PacketCollector::did(o, n2, p, r),
    ensures partial(n2, m, id, n, seen),
{
    if p.0 is Some && p.2 is Some && p.1 is Some && p.2->Some_0 <= MAX_PACKETS {
        let x = p.0->Some_0;
        assert(PacketCollector::did_part(o, n2, x, p.2->Some_0, p.1->Some_0, p.3, r));
        assert(n2.dom().contains(id) <==> o.dom().contains(id));
        if o.dom().contains(id) { assert(n2[id] == o[id]); }
    }
}
/// A short text comes out at once.
pub proof fn lemma_whole(o: Store, n2: Store, m: Seq<char>, r: Option<String>) // [T01]
    requires PacketCollector::did(o, n2, Packet::whole(m), r),
    ensures n2 == o, r matches Some(s) && s@ == m,
{}

// ------------------------------------------------------------------ the two connections
pub struct St { pub q: Seq<String>, pub store: Store, pub inc: Option<ConnectionStateMap>, pub out: Option<ConnectionStateMap> }
pub open spec fn is_open(s: Option<ConnectionStateMap>) -> bool { s matches Some(c) && c.data_connection == Some(DataChannelState::Open) }
pub open spec fn to(dir: Direction, m: WebRTCInput) -> NCOutput { if dir == Direction::Incoming { NCOutput::Incoming(m) } else { NCOutput::Outgoing(m) } }
pub open spec fn texts(dir: Direction, q: Seq<String>) -> Seq<NCOutput> { Seq::new(q.len(), |i: int| to(dir, WebRTCInput::Text(q[i]))) }
impl St {
    pub open spec fn is(self, o: St) -> bool { self.q =~= o.q && self.store == o.store && self.inc == o.inc && self.out == o.out }
    pub open spec fn with_q(self, q: Seq<String>) -> St { St { q: q, store: self.store, inc: self.inc, out: self.out } }
    pub open spec fn with_store(self, store: Store) -> St { St { q: self.q, store: store, inc: self.inc, out: self.out } }
    pub open spec fn with(self, dir: Direction, c: Option<ConnectionStateMap>) -> St {
        if dir == Direction::Incoming { St { q: self.q, store: self.store, inc: c, out: self.out } } else { St { q: self.q, store: self.store, inc: self.inc, out: c } }
    }
    /// What waits is sent as soon as a connection is open, the outgoing one first.
    pub open spec fn flushed(self, n: St, out: Seq<NCOutput>) -> bool {
        if is_open(self.out) { n.is(self.with_q(Seq::empty())) && out =~= texts(Direction::Outgoing, self.q) }
        else if is_open(self.inc) { n.is(self.with_q(Seq::empty())) && out =~= texts(Direction::Incoming, self.q) }
        else { n.is(self) && out =~= Seq::empty() }
    }
    pub open spec fn conn(self, dir: Direction, m: WebRTCOutput, n: St, out: Seq<NCOutput>) -> bool {
        match m {
            WebRTCOutput::Connected => {
                let c = ConnectionStateMap { data_connection: Some(DataChannelState::Open), ..default_map() };
                out.len() > 0 && out[0] == NCOutput::Connected(dir) && self.with(dir, Some(c)).flushed(n, out.skip(1))
            },
            WebRTCOutput::Setup(pm) => n.is(self) && out =~= seq![NCOutput::Setup(dir, pm)],
            WebRTCOutput::Text(t) => n.is(self.with_store(n.store)) && exists|r: Option<String>| #[trigger] PacketCollector::came(self.store, n.store, t@, r) && out =~= match r { Some(x) => seq![NCOutput::Text(x)], None => Seq::empty() },
            WebRTCOutput::State(c) => n.is(self.with(dir, Some(c))) && out =~= seq![NCOutput::State(dir, c)],
            WebRTCOutput::Disconnected | WebRTCOutput::Error(_) => n.is(self.with(dir, None)) && out =~= seq![to(dir, WebRTCInput::Reset), NCOutput::Disconnected(dir)],
        }
    }
    pub open spec fn asked(self, m: NCInput, n: St, out: Seq<NCOutput>) -> bool {
        match m {
            NCInput::Text(t) => exists|r: Seq<String>| #[trigger] Packet::split(t@, r) && self.with_q(self.q + r).flushed(n, out),
            NCInput::Disconnect => n.is(self) && out =~= seq![NCOutput::Incoming(WebRTCInput::Disconnect), NCOutput::Outgoing(WebRTCInput::Disconnect)],
            NCInput::GetStates => n.is(self) && out =~= (match self.inc { Some(c) => seq![NCOutput::State(Direction::Incoming, c)], None => Seq::empty() })
                + (match self.out { Some(c) => seq![NCOutput::State(Direction::Outgoing, c)], None => Seq::empty() }),
            NCInput::Setup(dir, pm) => n.is(self.with(Direction::Outgoing, if dir == Direction::Outgoing && self.out is None { Some(default_map()) } else { self.out })) && out =~= seq![to(dir, WebRTCInput::Setup(pm))],
            _ => n.is(self) && out =~= Seq::empty(),
        }
    }
    pub open spec fn step(self, m: NCInput, n: St, out: Seq<NCOutput>) -> bool {
        match m {
            NCInput::Incoming(c) => self.conn(Direction::Incoming, c, n, out),
            NCInput::Outgoing(c) => self.conn(Direction::Outgoing, c, n, out),
            _ => self.asked(m, n, out),
        }
    }
}
/// One message after the other.
pub open spec fn ran(s: Seq<St>, outs: Seq<Seq<NCOutput>>, msgs: Seq<NCInput>) -> bool {
    s.len() == msgs.len() + 1 && outs.len() == msgs.len() && forall|i: int| #![trigger msgs[i]] 0 <= i < msgs.len() ==> s[i].step(msgs[i], s[i + 1], outs[i])
}
pub proof fn lemma_one_more(s: Seq<St>, outs: Seq<Seq<NCOutput>>, all: Seq<NCInput>, p: int, n: St, d: Seq<NCOutput>)
    requires 0 <= p < all.len(), ran(s, outs, all.take(p)), s.last().step(all[p], n, d),
    ensures ran(s.push(n), outs.push(d), all.take(p + 1)),
{
    let (t, v) = (s.push(n), outs.push(d));
    assert forall|i: int| #![trigger all.take(p + 1)[i]] 0 <= i < p + 1 implies t[i].step(all.take(p + 1)[i], t[i + 1], v[i]) by { if i < p { assert(all.take(p)[i] == all[i]); } }
}
pub open spec fn did_all(o: St, msgs: Seq<NCInput>, n: St, out: Seq<NCOutput>) -> bool {
    exists|s: Seq<St>, outs: Seq<Seq<NCOutput>>| #[trigger] ran(s, outs, msgs) && s[0] == o && s.last() == n && out == flat(outs)
}
pub open spec fn flat(outs: Seq<Seq<NCOutput>>) -> Seq<NCOutput>
    decreases outs.len()
{ if outs.len() == 0 { Seq::empty() } else { flat(outs.drop_last()) + outs.last() } }
#[verifier::external_body]
pub fn vx_drain_all<T>(v: &mut Vec<T>) -> (r: It<T>) ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty() { unimplemented!() }
impl NodeConnection {
    pub open spec fn wf(&self) -> bool { self.packet_collector.wf() }
    pub open spec fn st(&self) -> St { St { q: self.msg_queue@, store: self.packet_collector.packets@, inc: self.state_incoming, out: self.state_outgoing } }
//@fn nc NodeConnection::send
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), if is_open(state) { final(self).st().is(old(self).st().with_q(Seq::empty())) && res@ =~= texts(dir, old(self).st().q) } else { final(self).st().is(old(self).st()) && res@ =~= Seq::empty() }, // [T02]
//@ sub /self\s*\.msg_queue\s*\.vx_drain\(\.\.\)/ => /vx_drain_all(&mut self.msg_queue)/
//@ closure 0 -> (r: WebRTCInput) ensures r == WebRTCInput::Text(msg)
//@ closure 1 -> (r: NCOutput) ensures r == to(dir, msg)
//@end
//@fn nc NodeConnection::send_queue
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), old(self).st().flushed(final(self).st(), res@), // [T02]
//@end
//@fn nc NodeConnection::msg_in
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), old(self).st().asked(msg, final(self).st(), res@), // [T02]
//@end
//@fn nc NodeConnection::msg_conn
//@ closure 0 -> (r: Vec<NCOutput>) ensures r@.len() == 1 && r@[0] == NCOutput::Text(s)
//@ sub /\.\.Default::default\(\)/ => /..ConnectionStateMap::default()/
//@ sub ! /\[([^;]*)\]\.vx_concat\(\)/ => /vx_two(\1)/
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), old(self).st().conn(dir, msg, final(self).st(), res@), // [T02]
//@end
//@fn nc <NodeConnection as SubsystemHandler<NCInput,NCOutput>>::messages
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), did_all(old(self).st(), msgs@, final(self).st(), res@), // [T02]
//@ entry
        let ghost all = msgs@;
        let ghost mut h = seq![self.st()];
        let ghost mut outs = Seq::<Seq<NCOutput>>::empty();
//@ loop 0
        invariant vx_it0.wf(), vx_it0.seq() == all, self.wf(), ran(h, outs, all.take(vx_it0.pos())), h[0] == old(self).st(), h.last() == self.st(), out@ == flat(outs),
        decreases vx_it0.left(),
//@ loopstart 0
        let ghost p = vx_it0.pos() - 1;
        let ghost o = self.st();
        let ghost sent = out@;
        let ghost vx_m = msg;
//@ loopend 0
        proof {
            let d = out@.skip(sent.len() as int);
            assert(out@ =~= sent + d);
            assert(o.step(vx_m, self.st(), d));
            assert(outs.push(d).drop_last() =~= outs);
            lemma_one_more(h, outs, all, p, self.st(), d);
            outs = outs.push(d); h = h.push(self.st());
        }
//@ afterloop 0
        proof { assert(all.take(all.len() as int) =~= all); }
//@end
}

// ------------------------------------------------------------------ nothing lost, nothing twice, nothing out of order
pub open spec fn sent_one(m: NCOutput) -> Seq<String> {
    match m { NCOutput::Incoming(WebRTCInput::Text(t)) => seq![t], NCOutput::Outgoing(WebRTCInput::Text(t)) => seq![t], _ => Seq::empty() }
}
/// The packets which are given to the connections.
pub open spec fn sent(o: Seq<NCOutput>) -> Seq<String>
    decreases o.len()
{ if o.len() == 0 { Seq::empty() } else { sent(o.drop_last()) + sent_one(o.last()) } }
pub proof fn lemma_sent_add(a: Seq<NCOutput>, b: Seq<NCOutput>)
    ensures sent(a + b) == sent(a) + sent(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(sent(a) + sent(b) =~= sent(a)); }
    else { lemma_sent_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert(sent(a) + sent(b) =~= (sent(a) + sent(b.drop_last())) + sent_one(b.last())); }
}
pub proof fn lemma_sent_texts(dir: Direction, q: Seq<String>)
    ensures sent(texts(dir, q)) == q,
    decreases q.len(),
{
    if q.len() > 0 { lemma_sent_texts(dir, q.drop_last()); assert(texts(dir, q).drop_last() =~= texts(dir, q.drop_last())); assert(sent_one(texts(dir, q).last()) =~= seq![q.last()]); assert(q.drop_last() + seq![q.last()] =~= q); }
    else { assert(texts(dir, q).len() == 0); assert(sent(texts(dir, q)) =~= q); }
}
pub proof fn lemma_sent_1(m: NCOutput)
    ensures sent(seq![m]) == sent_one(m),
{ reveal_with_fuel(sent, 2); assert(seq![m].drop_last() =~= Seq::<NCOutput>::empty()); assert(sent(seq![m]) =~= sent_one(m)); }
pub proof fn lemma_sent_2(m: NCOutput, n: NCOutput)
    ensures sent(seq![m, n]) == sent_one(m) + sent_one(n),
{ lemma_sent_1(m); lemma_sent_1(n); assert(seq![m, n] =~= seq![m] + seq![n]); lemma_sent_add(seq![m], seq![n]); }
/// What a message adds to what is to be sent.
pub open spec fn adds(m: NCInput, r: Seq<String>) -> bool { match m { NCInput::Text(t) => Packet::split(t@, r), _ => r == Seq::<String>::empty() } }
pub proof fn lemma_flushed(o: St, n: St, out: Seq<NCOutput>)
    requires o.flushed(n, out),
    ensures sent(out) + n.q =~= o.q,
{ lemma_sent_texts(Direction::Outgoing, o.q); lemma_sent_texts(Direction::Incoming, o.q); }
pub proof fn lemma_conn_order(o: St, dir: Direction, c: WebRTCOutput, n: St, out: Seq<NCOutput>)
    requires o.conn(dir, c, n, out),
    ensures sent(out) + n.q =~= o.q,
{
    match c {
        WebRTCOutput::Connected => {
            let k = ConnectionStateMap { data_connection: Some(DataChannelState::Open), ..default_map() };
            lemma_flushed(o.with(dir, Some(k)), n, out.skip(1)); lemma_sent_1(out[0]); assert(out =~= seq![out[0]] + out.skip(1)); lemma_sent_add(seq![out[0]], out.skip(1));
            assert(sent(out) + n.q =~= sent(out.skip(1)) + n.q);
        },
        WebRTCOutput::Setup(pm) => { lemma_sent_1(out[0]); assert(out =~= seq![out[0]]); },
        WebRTCOutput::State(c) => { lemma_sent_1(out[0]); assert(out =~= seq![out[0]]); },
        WebRTCOutput::Text(t) => { if out.len() > 0 { lemma_sent_1(out[0]); assert(out =~= seq![out[0]]); } },
        _ => { lemma_sent_2(out[0], out[1]); assert(out =~= seq![out[0], out[1]]); },
    }
}
pub proof fn lemma_step_order(o: St, m: NCInput, n: St, out: Seq<NCOutput>) -> (r: Seq<String>)
    requires o.step(m, n, out),
    ensures adds(m, r), sent(out) + n.q == o.q + r,
{
    match m {
        NCInput::Incoming(c) => { lemma_conn_order(o, Direction::Incoming, c, n, out); Seq::empty() },
        NCInput::Outgoing(c) => { lemma_conn_order(o, Direction::Outgoing, c, n, out); Seq::empty() },
        NCInput::Text(t) => { let r = choose|r: Seq<String>| #[trigger] Packet::split(t@, r) && o.with_q(o.q + r).flushed(n, out); lemma_flushed(o.with_q(o.q + r), n, out); r },
        NCInput::Disconnect => { lemma_sent_2(out[0], out[1]); assert(out =~= seq![out[0], out[1]]); assert(sent(out) + n.q =~= o.q + Seq::<String>::empty()); Seq::empty() },
        NCInput::GetStates => {
            if out.len() == 1 { lemma_sent_1(out[0]); assert(out =~= seq![out[0]]); }
            if out.len() == 2 { lemma_sent_2(out[0], out[1]); assert(out =~= seq![out[0], out[1]]); }
            assert(sent(out) + n.q =~= o.q + Seq::<String>::empty()); Seq::empty()
        },
        NCInput::Setup(dir, pm) => { lemma_sent_1(out[0]); assert(out =~= seq![out[0]]); assert(sent(out) + n.q =~= o.q + Seq::<String>::empty()); Seq::empty() },
    }
}
pub open spec fn flat_texts(a: Seq<Seq<String>>) -> Seq<String>
    decreases a.len()
{ if a.len() == 0 { Seq::empty() } else { flat_texts(a.drop_last()) + a.last() } }
pub open spec fn all_adds(msgs: Seq<NCInput>, a: Seq<Seq<String>>) -> bool { a.len() == msgs.len() && forall|i: int| 0 <= i < msgs.len() ==> adds(#[trigger] msgs[i], a[i]) }
/// Whatever comes in, and in whatever order: the packets of all the texts, each one once and in the order of the texts, are what has been sent so far, followed by what waits.
pub proof fn lemma_order(s: Seq<St>, outs: Seq<Seq<NCOutput>>, msgs: Seq<NCInput>) -> (a: Seq<Seq<String>>) // [T02]
    requires ran(s, outs, msgs),
    ensures all_adds(msgs, a), sent(flat(outs)) + s.last().q == s[0].q + flat_texts(a),
    decreases msgs.len(),
{
    if msgs.len() == 0 { assert(sent(flat(outs)) + s.last().q =~= s[0].q + flat_texts(Seq::empty())); Seq::empty() }
    else {
        let k = msgs.len() - 1;
        let (s1, o1, m1) = (s.drop_last(), outs.drop_last(), msgs.drop_last());
        assert forall|i: int| #![trigger m1[i]] 0 <= i < m1.len() implies s1[i].step(m1[i], s1[i + 1], o1[i]) by { assert(m1[i] == msgs[i]); }
        let a1 = lemma_order(s1, o1, m1);
        assert(s[k].step(msgs[k], s[k + 1], outs[k]));
        let r = lemma_step_order(s[k], msgs[k], s[k + 1], outs[k]);
        let a = a1.push(r);
        assert(a.drop_last() =~= a1);
        lemma_sent_add(flat(o1), outs.last());
        assert forall|i: int| 0 <= i < msgs.len() implies adds(#[trigger] msgs[i], a[i]) by { if i < k { assert(m1[i] == msgs[i]); } }
        let (x, y, q, z) = (sent(flat(o1)), sent(outs.last()), s.last().q, s[0].q);
        assert((x + y) + q =~= x + (y + q));
        assert(x + (s[k].q + r) =~= (x + s1.last().q) + r);
        assert((z + flat_texts(a1)) + r =~= z + (flat_texts(a1) + r));
        a
    }
}
}
fn main() {}
