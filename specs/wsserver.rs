//@include prelude.rs
//@file ws flarch/src/web_rtc/websocket.rs
//@file srv flarch/src/web_rtc/libc/web_socket_server.rs
verus! {
// ------------------------------------------------------------------ what is trusted here
//@enum ws WSServerIn
//@enum ws WSServerOut
#[verifier::external_body]
pub struct TcpListener { x: u8 }
#[verifier::external_body]
pub struct TcpStream { x: u8 }
#[verifier::external_body]
pub struct SocketAddr { x: u8 }
#[verifier::external_body]
pub struct VxThread { x: u8 }
impl VxThread { #[verifier::external_body] pub fn abort(&self) { unimplemented!() } }
impl TcpListener {
    #[verifier::external_body]
    pub fn vx_bind(port: u16) -> (r: VResult<TcpListener>) { unimplemented!() }
    #[verifier::external_body]
    pub fn accept(&self) -> (r: VResult<(TcpStream, SocketAddr)>) { unimplemented!() }
}
/// A connection, and the number it was given: what its reader reports comes with that number.
#[verifier::external_body]
pub struct WSConnection { x: u8 }
pub uninterp spec fn number(c: WSConnection) -> usize;
impl WSConnection {
    #[verifier::external_body]
    pub fn new(stream: TcpStream, broker: BrokerWSServer, id: usize) -> (r: VResult<WSConnection>)
        ensures r matches Ok(c) ==> number(c) == id { unimplemented!() }
    /// Only what was asked for goes out.
    #[verifier::external_body]
    pub fn send(&mut self, msg: String, Ghost(m): Ghost<WSServerIn>) -> (r: VResult<()>)
        requires m == WSServerIn::Message(number(*old(self)), msg), // [N06]
        ensures number(*final(self)) == number(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn close(&mut self, Ghost(m): Ghost<WSServerIn>)
        requires m == WSServerIn::Close(number(*old(self))) || (m matches WSServerIn::Message(x, _) && x == number(*old(self))), // [N06]
        ensures number(*final(self)) == number(*old(self)) { unimplemented!() }
}
/// The connections behind their lock. Whoever holds the lock finds every connection under its own
/// number, and puts none under another.
#[verifier::external_body]
pub struct VxShared { x: u8 }
#[verifier::external_body]
pub struct VxGuard { x: u8 }
impl VxShared {
    #[verifier::external_body]
    pub fn vx_new() -> (r: VxShared) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_same(&self) -> (r: VxShared) { unimplemented!() }
    #[verifier::external_body]
    pub fn lock(&self) -> (r: VxGuard) { unimplemented!() }
}
impl View for VxGuard { type V = Map<usize, WSConnection>; uninterp spec fn view(&self) -> Map<usize, WSConnection>; }
impl VxGuard {
    #[verifier::external_body]
    pub fn get_mut<'a>(&'a mut self, id: &usize) -> (r: Option<&'a mut WSConnection>)
        ensures (r is Some) == old(self)@.dom().contains(*id), r matches Some(c) ==> number(*c) == *id && final(self)@ == old(self)@.insert(*id, *final(c)), r is None ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, id: &usize, Ghost(m): Ghost<WSServerIn>) -> (r: Option<WSConnection>)
        requires m == WSServerIn::Close(*id) || (m matches WSServerIn::Message(x, _) && x == *id), // [N06]
        ensures final(self)@ == old(self)@.remove(*id) { unimplemented!() }
    /// A connection is put under its own number, and that number was never used before.
    #[verifier::external_body]
    pub fn insert(&mut self, id: usize, c: WSConnection, Ghost(used): Ghost<Set<usize>>) -> (r: Option<WSConnection>)
        requires number(c) == id, !used.contains(id), // [N06]
        ensures final(self)@ == old(self)@.insert(id, c) { unimplemented!() }
}
#[verifier::external_body]
pub struct BrokerWSServer { x: u8 }
#[verifier::external_body]
pub struct VxUnit { x: u8 }
impl VxUnit { #[verifier::external_body] pub fn expect(self, s: &str) { unimplemented!() } }
impl BrokerWSServer {
    #[verifier::external_body]
    pub fn vx_new() -> (r: BrokerWSServer) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_same(&self) -> (r: BrokerWSServer) { unimplemented!() }
    /// Only connections which are there are announced.
    #[verifier::external_body]
    pub fn emit_msg_out(&mut self, m: WSServerOut, Ghost(used): Ghost<Set<usize>>) -> (r: VxUnit)
        requires m matches WSServerOut::NewConnection(id) && used.contains(id), // [N06]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_add(&mut self, h: WebSocketServer) -> (r: VResult<()>) { unimplemented!() }
}
/// Assumed: fewer than 2^64 connections are made.
#[verifier::external_body]
pub fn vx_next(c: usize) -> (r: usize) ensures r == c + 1 { unimplemented!() }
pub struct WebSocketServer { pub connections: VxShared, pub conn_thread: VxThread }
#[verifier::external_body]
pub fn vx_thread() -> (r: VxThread) { unimplemented!() }

impl WebSocketServer {
//@fn srv <WebSocketServer as SubsystemHandler<WSServerIn,WSServerOut>>::messages
//@ spec
    ensures res@.len() <= 1, res@.len() == 1 ==> res@[0] is Stopped && from_broker@.contains(WSServerIn::Stop), // [N06]
        res@.len() == 0 ==> !from_broker@.contains(WSServerIn::Stop), // [N06]
//@ entry
        let ghost all = from_broker@;
        let ghost mut cur: WSServerIn = WSServerIn::Stop;
//@ loop 0
    invariant
        vx_it0.wf(), vx_it0.seq() == all, from_broker@ == all,
        forall|i: int| 0 <= i < vx_it0.pos() ==> !(#[trigger] all[i] is Stop),
    ensures forall|i: int| 0 <= i < all.len() ==> !(#[trigger] all[i] is Stop),
    decreases vx_it0.left(),
//@ loopstart 0
    proof { cur = msg; assert(msg == all[vx_it0.pos() - 1]); }
//@ sub /conn\.send\(msg\)/ => /conn.send(msg, Ghost(cur))/
//@ sub /conn\.close\(\)/ => /conn.close(Ghost(cur))/
//@ sub /connections\.remove\(&id\)/ => /connections.remove(&id, Ghost(cur))/
//@end
/// The accept loop, as the body of the task it is spawned as.
#[verifier::exec_allows_no_decreases_clause]
//@fn srv WebSocketServer::new as=vx_accept_loop
//@ spec
    ensures true, // [N06]
//@ entry
        let ghost mut used = Set::<usize>::empty();
//@ loop 0
    invariant forall|u: usize| #[trigger] used.contains(u) ==> u < connection_id,
//@ sub ! /TcpListener::bind\([^;]*?\)\?/ => /TcpListener::vx_bind(port)?/
//@ sub /Arc::new\(Mutex::new\(HashMap::new\(\)\)\)/ => /VxShared::vx_new()/
//@ sub /Arc::clone\(&(connections\w*)\)/ => /\1.vx_same()/
//@ sub /Broker::new\(\)/ => /BrokerWSServer::vx_new()/
//@ sub /broker(_cl)?\.clone\(\)/ => /broker\1.vx_same()/
//@ sub ! /tokio::spawn\(async move ([\s\S]*)\);\s*broker\s*\.add_handler[\s\S]*$/ => /\1; return Err(vx_err()); }/
//@ sub /tokio::spawn\(async move \{/ => /{/
//@ sub /\}\);(\s*\})/ => /}\1/
//@ sub /(connection_id) \+= 1;/ => /proof { used = used.insert(\1); } \1 = vx_next(\1);/
//@ sub /\.insert\(connection_id, conn\)/ => /.insert(connection_id, conn, Ghost(used))/
//@ sub /\.emit_msg_out\(([^;]*)\)\s*\.expect\(/ => /.emit_msg_out(\1, Ghost(used.insert(connection_id))).expect(/
//@end
}
}
fn main() {}
